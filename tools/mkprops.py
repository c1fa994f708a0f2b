import json
P=[]
def add(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,state=state or [],mechanism=mech,observe_at=observe or [],hook_needed=None)))
def m(n,w): return dict(name=n,where=w)
def st(n,me,w): return dict(name=n,meaning=me,where=w)
add("C01","Encoder output stays inside the caller's buffer",
 "For every call that encodes a frame, in either stream mode, with any output capacity, no byte is ever written outside the first *capacity* bytes of the caller's output buffer, and when the call succeeds the size it reports is at most that capacity. A message that does not fit is cut at a tile boundary or the call fails; it is never truncated inside a block, and neither happens when the capacity covers the worst case of everything requested.",
 ["inputs","configurations","histories"],"All capacities (including 0 and every value near a block boundary), formats, flags, region/tile/quantiser counts and pixel contents.",
 "Tests use a handful of capacities with one format and no guard bytes behind the buffer; overflow happens only when the remaining room is smaller than one particular header.",
 ["src/rfxencode_compose.c","src/rfxencode_tile.c","src/rfxencode.c","src/rfxcommon.h"],
 [m("room checks before each block and each component","src/rfxencode_compose.c: every *_compose_message_* function; src/rfxencode_tile.c: check_and_rfx_encode"),m("checkpointing at the last complete tile","src/rfxencode_compose.c: rfx_compose_message_tileset, rfx_pro_compose_message_region"),m("room reserved for the frame end block","src/rfxencode_compose.c: rfx_pro_compose_message_data")],
 [st("output cursor","current write position inside the caller's buffer","STREAM.p")],["rfxcodec_encode","rfxcodec_encode_ex"])
add("C02","Every emitted message is a well-formed, self-consistent block sequence",
 "When an encode call succeeds, the reported bytes parse exactly as a sequence of blocks (frame begin, region, tile data, frame end, preceded by the stream header when one is due) whose every length field spans exactly to the next block, whose rectangle, quantiser and tile counts equal the number of entries that follow, and whose per-tile component length fields sum to the tile block. The call's return value equals the number of tile blocks present, and those tiles are the requested tiles in request order without gaps, carrying their own grid coordinates and quantiser indices.",
 ["inputs","configurations"],"All tile lists, region lists, quantiser tables, formats, alpha on/off, both stream modes, and all capacities (so every cut point).",
 "Tests check only the returned size and tile count of a few calls; no test parses the message, and alpha and progressive messages are not exercised at all.",
 ["src/rfxencode_compose.c","src/rfxencode_tile.c","src/rfxencode_alpha.c","src/rfxconstants.h"],
 [m("length back-patching","src/rfxencode_compose.c: rfx_compose_message_tile_*, rfx_compose_message_tileset, rfx_pro_compose_message_region"),m("component size reporting","src/rfxencode_tile.c: rfx_encode_rgb/argb/yuv/yuva")],
 [],["rfxcodec_encode_ex output"])
add("C03","Stream header once, frames numbered consecutively, failed calls leave no trace",
 "Over any sequence of encode calls on one encoder, the stream header is the prefix of the first successful message (and, in progressive mode, of the first successful message after each key-frame request) and of no other, and successful messages carry frame numbers 0,1,2,... restarting at 0 only at such a key frame. A call that fails does not consume a frame number and does not suppress a header that is still owed.",
 ["histories","inputs","configurations"],"All call sequences mixing successes, failures for lack of room or bad arguments, and key-frame requests, in both stream modes.",
 "Tests encode at most a few frames with one encoder and never look at the frame number or continue after a failure.",
 ["src/rfxencode.c","src/rfxencode_compose.c"],
 [m("header-sent flag and frame counter","src/rfxencode.c: rfxcodec_encode_ex; src/rfxencode_compose.c: frame_begin functions"),m("key frame reset","src/rfxencode.c: rfxencode_reset_encoder")],
 [st("frame counter / header flag","what the next message must contain","struct rfxencode: frame_idx, header_processed")],["rfxcodec_encode_ex"])
add("C04","Progressive tiles reconstruct exactly from the decoder's reference state",
 "In progressive mode, a decoder that keeps, per tile position, the coefficients of the last tile it received (all zero at stream start or after a key frame) and adds them to a tile marked as a difference always obtains exactly the quantised transform of the tile's current pixels. References change only for tiles actually present in a successful message: a call that fails, or tiles dropped for lack of room, or tile descriptors out of range, leave the encoder's references as the decoder has them.",
 ["histories","inputs","fault_sequences"],"All sequences of progressive encode calls with any tile subsets, positions, contents, quantisers, capacities, key-frame requests, rejected calls and allocation failures.",
 "No test uses progressive mode; desynchronisation needs at least two frames and shows only in decoded coefficients.",
 ["src/rfxencode_compose.c","src/rfxencode.c","src/rfxencode_dwt_shift_rem.c","src/rfxencode_diff_rlgr1.c"],
 [m("original/difference choice and history update after the tile is known to fit","src/rfxencode_compose.c: rfx_pro_compose_message_region"),m("key frame discards references","src/rfxencode.c: clear_encoder_rbs")],
 [st("reference tiles","coefficients the decoder holds per tile position","struct rfxencode: rbs")],["rfxcodec_encode_ex in progressive mode"])
add("C05","RLGR1 entropy coding is lossless",
 "For every block of 4096 16-bit coefficients and any buffer large enough, the bytes produced by each RLGR1 encoder, read by the standard RLGR1 decoding procedure of MS-RDPRFX, give back exactly those coefficients (for the differencing variant, the block with its trailing low-frequency run replaced by successive differences), and the reported size is exactly the length of that code. For any buffer, nothing is read outside the block or written outside the buffer, and the differencing variant reports an error when and only when the code does not fit.",
 ["inputs"],"All 2^65536 coefficient blocks and all buffer sizes and difference spans.",
 "Tests only compare encoded sizes of one or two images; parameter adaptation, escape lengths and run boundaries depend on unbounded coefficient histories.",
 ["src/rfxencode_rlgr1.c","src/rfxencode_diff_rlgr1.c","src/rfx_bitstream.h","src/rfxencode_differential.c"],
 [m("adaptive run-length/Golomb-Rice state machine","src/rfxencode_rlgr1.c, src/rfxencode_diff_rlgr1.c"),m("bit packing","src/rfx_bitstream.h; CheckWrite/CodeGR in src/rfxencode_diff_rlgr1.c")],
 [],["rfxcodec_encode_get_internals entry points"])
add("C06","RLGR3 entropy coding is lossless",
 "For every block of 4096 16-bit coefficients and any buffer large enough, the bytes produced by each RLGR3 encoder, read by the standard RLGR3 decoding procedure of MS-RDPRFX, give back exactly those coefficients (for the differencing variant, the block with its trailing low-frequency run replaced by successive differences), and the reported size is exactly the length of that code. For any buffer, nothing is read outside the block or written outside the buffer, and the differencing variant reports an error when and only when the code does not fit.",
 ["inputs"],"All coefficient blocks and all buffer sizes and difference spans.",
 "Tests only compare encoded sizes of one or two images; the pairing of coefficients, the odd last coefficient and the bit-width split are data dependent.",
 ["src/rfxencode_rlgr3.c","src/rfxencode_diff_rlgr3.c","src/rfx_bitstream.h"],
 [m("adaptive run-length/Golomb-Rice state machine with paired symbols","src/rfxencode_rlgr3.c, src/rfxencode_diff_rlgr3.c")],
 [],["rfxcodec_encode_get_internals entry points"])
add("C07","SIMD-accelerated transforms equal the portable transform",
 "For every 64x64 tile of 8-bit samples and every quantiser table with legal values, the SSE2 and SSE4.1 transform-and-quantise routines produce exactly the 4096 coefficients the portable transform followed by the portable quantiser produces, so the choice of CPU or the no-acceleration flag never changes a coefficient. They touch no memory beyond the tile, the quantiser table and their two work buffers.",
 ["inputs","configurations"],"All tiles and all legal quantiser tables, both instruction-set variants.",
 "Tests compare sizes and return codes; a wrong lane, shift count or rounding constant in one sub-band changes pixels without changing any test outcome, and the SSE2 routine is never run on an SSE4.1 machine.",
 ["src/amd64/rfxcodec_encode_dwt_shift_amd64_sse2.asm","src/amd64/rfxcodec_encode_dwt_shift_amd64_sse41.asm","src/rfxencode_dwt.c","src/rfxencode_quantization.c"],
 [m("vector DWT with fused quantisation","src/amd64/*.asm")],[],["rfxcodec_encode_get_internals entry points"])
add("C08","Standard transform and quantisation are exact and never overflow",
 "For every 64x64 tile of 8-bit samples, the standard transform yields exactly the three-level integer 5/3 wavelet coefficients of the level-shifted, 5-bit-scaled samples, computed without any intermediate leaving its 16-bit storage, in the sub-band order HL1 LH1 HH1 HL2 LH2 HH2 HL3 LH3 HH3 LL3. Quantisation with any legal table then divides each sub-band by its own power of two with round-half-up, each table nibble acting on exactly its documented sub-band, and the final differencing pass replaces the low-frequency band by successive differences.",
 ["inputs"],"All tiles, all legal quantiser tables.",
 "Tests never look at a coefficient; overflow needs extreme sample patterns spanning all three levels.",
 ["src/rfxencode_dwt.c","src/rfxencode_quantization.c","src/rfxencode_differential.c"],
 [m("lifting steps and mirror boundary","src/rfxencode_dwt.c"),m("per-band rounding shift","src/rfxencode_quantization.c"),m("LL3 differencing","src/rfxencode_differential.c")],[],["rfxcodec_encode_get_internals entry points"])
add("C09","Reduce-extrapolate transform and quantisation are exact",
 "For every 64x64 tile of 8-bit samples and every legal quantiser table, the progressive-mode transform yields exactly the three-level reduce-extrapolate 5/3 wavelet coefficients (sub-band sides 33/31, 17/16, 9/8), each divided with round-half-up by the power of two its own sub-band's table nibble selects, in sub-band order HL1 LH1 HH1 HL2 LH2 HH2 HL3 LH3 HH3 LL3. The one-pass and the two-pass routines agree, and no intermediate leaves its 16-bit storage.",
 ["inputs"],"All tiles, all legal quantiser tables, both implementations.",
 "No test executes either implementation.",
 ["src/rfxencode_dwt_rem.c","src/rfxencode_dwt_shift_rem.c","src/rfxencode_quantization.c"],
 [m("lifting with extrapolated boundary","src/rfxencode_dwt_rem.c, src/rfxencode_dwt_shift_rem.c"),m("fused quantisation","SETUPLOQ/SETUPHIQ in src/rfxencode_dwt_shift_rem.c; rfx_rem_quantization_encode")],[],["progressive encode output"])
add("C10","Pixels are converted and padded correctly for every format and tile size",
 "For every supported RGB pixel format, stride and tile size from 1x1 to 64x64, the 64x64 luma and chroma (and, for formats that carry it, alpha) planes handed to the transform are the fixed-point ICT of the source pixel with each result clamped to 0..255, every position beyond the tile's right or bottom edge repeating the nearest edge pixel. Only the pixels of the tile are read.",
 ["inputs","configurations"],"All pixel values, formats, strides and all 4096 tile sizes.",
 "Tests use full-size tiles of one format and inspect sizes only.",
 ["src/rfxencode_rgb_to_yuv.c"],
 [m("format-specific unpacking with edge replication","src/rfxencode_rgb_to_yuv.c: rfx_encode_format_rgb / rfx_encode_format_argb"),m("fixed-point ICT with clamping","src/rfxencode_rgb_to_yuv.c: rfx_encode_rgb_to_yuv / rfx_encode_argb_to_yuva")],[],["encoded planes"])
add("C11","Alpha plane coding is lossless",
 "For every 64x64 alpha plane, the bytes emitted for the alpha component decode, by the planar-codec rules (one format byte, then either row-differenced run-length data or the raw plane with a pad byte), to exactly that plane; the reported alpha length equals the bytes emitted, and never exceeds the raw form's length.",
 ["inputs"],"All 256^4096 alpha planes.",
 "No test passes the alpha flag; run/literal splitting depends on run lengths crossing 3, 15, 47 and row ends.",
 ["src/rfxencode_alpha.c"],
 [m("row differencing","src/rfxencode_alpha.c: fdelta"),m("run-length packing","src/rfxencode_alpha.c: fpack, fout"),m("raw fallback","src/rfxencode_alpha.c: rfx_encode_plane")],[],["rfxcodec_encode_ex with the alpha flag"])
add("C12","Each tile encodes its own pixels with its own quantisers, inputs untouched",
 "In the standard stream mode, the three (or four) component streams of each emitted tile are exactly the entropy-coded, quantised transforms of that tile's own luma, blue-difference and red-difference samples (and alpha) in that order, taken at the tile's position with the caller's stride, each quantised with the table set named by that tile's own index for that component - or the built-in table, announced in the message, when the caller supplies none. They depend on nothing else: not on earlier frames, other tiles, or leftover buffer contents; and no caller-supplied input is modified.",
 ["inputs","histories","configurations"],"All images, strides, tile lists, quantiser tables and indices, formats, alpha on/off, entropy coders, and encoder histories.",
 "Tests never decode a message, use one quantiser set for all components, and do not vary history.",
 ["src/rfxencode_compose.c","src/rfxencode_tile.c","src/amd64/rfxencode_tile_amd64.c"],
 [m("tile addressing and quantiser selection","src/rfxencode_compose.c: rfx_compose_message_tileset, rfx_compose_message_tile_*"),m("component order","src/rfxencode_tile.c")],[],["rfxcodec_encode_ex output"])
add("C13","The announced entropy coder is the one used",
 "For every combination of creation flags and CPU capabilities, every standard-mode stream announces, in its context header and in every tile-set header, the entropy coder its tile data is actually coded with (RLGR1 exactly when requested, otherwise RLGR3), together with the fixed transform, colour-conversion and quantisation identifiers; creation succeeds exactly for the five supported pixel formats and records that format's pixel size. Requesting no acceleration or running on a CPU without SIMD support changes neither the announcement nor the coder.",
 ["configurations"],"All creation flag words, all pixel format values, all CPU feature combinations.",
 "Tests run on one CPU and never compare announced and used coder.",
 ["src/rfxencode.c","src/rfxencode_compose.c","src/rfxencode_tile.c","src/amd64/rfxencode_tile_amd64.c"],
 [m("encoder selection","src/rfxencode.c: rfxcodec_encode_create_ex"),m("properties words","src/rfxencode_compose.c: rfx_compose_message_context, rfx_compose_message_tileset")],[],["stream header, tile set header, tile data"])
add("C14","Encoders are created, reset and destroyed without leaks or stray state",
 "A successfully created encoder starts with no references, frame number zero and a header owed; a failed creation (unsupported format or out of memory) returns an error, leaves nothing allocated and yields no handle. Destroying an encoder (or nothing) releases every reference tile and the encoder exactly once, a key-frame request releases every reference tile exactly once, and an allocation failure while encoding is reported without losing or corrupting anything already held.",
 ["fault_sequences","histories","inputs"],"All creation arguments, all sequences of encode / key-frame / destroy, and every position at which an allocation may fail.",
 "Tests never inject an allocation failure, never use progressive mode, and do not observe leaks.",
 ["src/rfxencode.c","src/rfxencode_compose.c"],
 [m("create/destroy/reset","src/rfxencode.c"),m("lazy reference allocation","src/rfxencode_compose.c: rfx_pro_compose_message_region")],
 [st("reference table","owned reference tiles","struct rfxencode: rbs")],["rfxcodec_encode_create_ex","rfxcodec_encode_destroy"])
add("C15","An encoded component always fits the room set aside and its length field",
 "For every tile of 8-bit samples and every legal quantiser table, the entropy-coded size of each component is below the room the encoder insists on having before it encodes one, leaving enough of that room for a worst-case alpha plane, and fits the 16-bit length field that announces it. Hence a standard-mode component is never silently cut short and no length field ever wraps.",
 ["inputs"],"All tiles, all legal quantiser tables, both entropy coders, both stream modes (difference tiles included).",
 "The worst case needs an adversarial alternation of large and small coefficients that no natural test image produces.",
 ["src/rfxencode_tile.c","src/rfxencode_rlgr1.c","src/rfxencode_rlgr3.c","src/rfxencode_compose.c"],
 [m("conservative per-component room check","src/rfxencode_tile.c: TILE_SIZE_UPPER_LIMIT, check_and_rfx_encode"),m("16-bit length fields","src/rfxencode_compose.c")],[],["component length fields"])
with open('/verif/properties.jsonl','w') as f:
    for p in P:
        assert len(p['title'])<=80,(p['id'],len(p['title']))
        f.write(json.dumps(p)+"\n")
