S = {}
S['b08_hl3'] = dict(property='C08', needs='a tile whose last HL3 coefficient is non-zero', breaks='coefficient 3903 (last of HL3) is left unquantised by the portable quantiser',
  edits=[('src/rfxencode_quantization.c', 'rfx_quantization_encode_block(buffer + 3840, 64, factor);', 'rfx_quantization_encode_block(buffer + 3840, 63, factor);')])
S['b09_ll3'] = dict(property='C09', needs='a quantiser table whose LH3 and LL3 nibbles differ', breaks='the one-pass progressive transform quantises a band with another band\'s nibble',
  edits=[('src/rfxencode_dwt_shift_rem.c', 'SETUPLOQ(0, 4); /* LH3 */', 'SETUPLOQ(0, 0); /* LH3 */')])
S['b07_sse2'] = dict(property='C07', needs='a CPU with SSE2 but not SSE4.1 and a tile with negative sums in one sub-band', breaks='one rounding shift of the SSE2 transform is logical instead of arithmetic',
  edits=[('src/amd64/rfxcodec_encode_dwt_shift_amd64_sse2.asm', ('psraw xmm5, 1', 20), 'psrlw xmm5, 1')])
S['b05_unary'] = dict(property='C05', needs='a long unary prefix (large coefficient at low krp) when fewer whole bytes than the prefix remain in the output buffer', breaks='the fast RLGR1 encoder writes the unary prefix past the end of the output buffer',
  edits=[('src/rfxencode_diff_rlgr1.c', 'if (cdata_size < llvk / 8)', 'if (cdata_size < llvk / 16)')])
S['b05_clamp'] = dict(property='C05', needs='a GR code whose unary part pushes krp above its maximum, followed by smaller codes', breaks='the slow RLGR1 encoder lets krp run one past the maximum, so a later remainder is coded with another width than the decoder expects',
  edits=[('src/rfxencode_rlgr1.c', 'if (_param > KPMAX) \\\n    { \\\n        _param = KPMAX; \\', 'if (_param > KPMAX + 1) \\\n    { \\\n        _param = KPMAX + 1; \\')])
S['b06_sum16'] = dict(property='C06', needs='two neighbouring coefficients whose magnitudes add up to more than 32767 while in Golomb-Rice mode', breaks='the fast RLGR3 encoder truncates the pair sum to 16 bits',
  edits=[('src/rfxencode_diff_rlgr3.c', 'uint32 sum2Ms;', 'uint16 sum2Ms;')])
S['b06_last'] = dict(property='C06', needs='an odd number of coefficients left in Golomb-Rice mode at the end of the block, with the last one non-zero', breaks='the slow RLGR3 encoder re-codes the last coefficient as its own partner instead of a zero',
  edits=[('src/rfxencode_rlgr3.c', '        _n = 0; \\', '        _n = data_size < 0 ? 0 : _n; \\')])
S['b10_corner'] = dict(property='C10', needs='a 32-bit RGBA tile with alpha that is cut at both the right and the bottom edge', breaks='the bottom padding of the blue plane copies only the tile width, so the bottom right corner keeps what an earlier tile left',
  edits=[('src/rfxencode_rgb_to_yuv.c', ('memcpy(lb_buf, lb_buf - 64, 64);', 6), 'memcpy(lb_buf, lb_buf - 64, width);')])
S['b10_round'] = dict(property='C10', needs='colours whose red-difference lies next to a rounding boundary', breaks='one coefficient of the colour conversion is off by one unit in 2^16',
  edits=[('src/rfxencode_rgb_to_yuv.c', 'v = (r *  32756 + g * -27429 + b *  -5327) >> 16;', 'v = (r *  32756 + g * -27429 + b *  -5326) >> 16;')])
S['b11_run48'] = dict(property='C11', needs='a row of the alpha plane with a run of at least 48 repeated differences and no raw bytes pending', breaks='a 48-pixel run is announced with a code that means another length',
  edits=[('src/rfxencode_alpha.c', 'if (lreplen > 47)\n            {\n                lreplen = 47;', 'if (lreplen > 48)\n            {\n                lreplen = 48;')])
S['b11_limit'] = dict(property='C11', needs='an alpha plane whose run-length form is a few bytes larger than the raw form', breaks='the run-length form is kept although it is longer than the raw form',
  edits=[('src/rfxencode_alpha.c', 'if (bytes > cx * cy)', 'if (bytes > cx * cy + cy)')])
C = 'src/rfxencode_compose.c'
S['b01_quants'] = dict(property='C01', needs='a progressive frame whose capacity ends inside the quantiser tables', breaks='the room check of the progressive region counts one byte per quantiser table, so the tables are written past the end of the buffer',
  edits=[(C, 'if (stream_get_left(s) < 18 + num_regions * 8 + num_quants * 5)', 'if (stream_get_left(s) < 18 + num_regions * 8 + num_quants)')])
S['b01_rects'] = dict(property='C01', needs='a standard frame with rectangles whose capacity ends inside the region block', breaks='the room check of the region block leaves out its trailer, so up to four bytes are written past the end',
  edits=[(C, 'size = 15 + num_regions * 8;\n    if (stream_get_left(s) < size)', 'size = 15 + num_regions * 8;\n    if (stream_get_left(s) < size - 4)')])
S['b02_cut'] = dict(property='C02', needs='a capacity that runs out inside the second or a later component of a tile', breaks='the tile-set length covers the leftovers of a tile that was dropped',
  edits=[(C, 'tilesDataSize = tiles_end_checkpoint - end_pos;', 'tilesDataSize = stream_get_pos(s) - end_pos;')])
S['b02_count'] = dict(property='C02', needs='a progressive frame whose tiles do not all fit', breaks='the tile count of a cut progressive region is the index of the tile that did not fit plus one',
  edits=[(C, 'stream_write_uint16(s, tiles_written); /* num_tiles */', 'stream_write_uint16(s, index < num_tiles ? index + 1 : num_tiles); /* num_tiles */')])
S['b03_wrap'] = dict(property='C03', needs='a progressive stream of more than 65536 frames without a key frame', breaks='the frame number wraps to 0 after 65536 frames', seed0=7777000, ms=2000,
  edits=[(C, 'stream_write_uint32(s, enc->frame_idx);\n', 'stream_write_uint16(s, enc->frame_idx);\n    stream_write_uint16(s, 0);\n')])
S['b03_first'] = dict(property='C03', needs='a standard-mode stream of more than 64 frames', breaks='the header condition looks at the frame number in a wrong way: every 64 frames the header comes back',
  edits=[('src/rfxencode.c', ('if ((enc->frame_idx == 0) && (enc->header_processed == 0))', 2), 'if (((enc->frame_idx & 63) == 0) && ((enc->header_processed == 0) || (enc->frame_idx != 0)))')])
S['b04_undo'] = dict(property='C04', needs='a tile sent whole whose successor at the same place is sent as a difference', breaks='the first low-frequency difference is not undone before the reference is kept',
  edits=[(C, 'for (jndex = 4096 - 80; jndex < 4096; jndex++)', 'for (jndex = 4096 - 79; jndex < 4096; jndex++)')])
S['b04_slot'] = dict(property='C04', needs='two tiles 32 columns apart in one stream', breaks='tiles 32 columns apart share one reference',
  edits=[(C, 'rb = enc->rbs[xIdx][yIdx];', 'rb = enc->rbs[xIdx & 31][yIdx];'), (C, 'enc->rbs[xIdx][yIdx] = rb;', 'enc->rbs[xIdx & 31][yIdx] = rb;')])
S['b04_reserve'] = dict(property='C04', needs='a capacity that leaves room for the last tile but not for the frame end', breaks='less room is set aside than the frame end needs: the call fails after the references have been updated',
  edits=[(C, 's->size -= 6;', 's->size -= 4;'), (C, 's->size += 6;', 's->size += 4;')])
S['b12_quant'] = dict(property='C12', needs='a YUV stream with alpha and different quantisers for the two chroma components', breaks='with an alpha plane, the red-difference component of a YUV tile is quantised with the blue-difference table',
  edits=[('src/rfxencode_tile.c', ('check_and_rfx_encode(enc, v_quants, v_buffer,', 2), 'check_and_rfx_encode(enc, u_quants, v_buffer,')])
S['b12_bpp'] = dict(property='C12', needs='a 24-bit format, the alpha flag and a tile to the right of column 0', breaks='the pixels of a tile are taken from the wrong column',
  edits=[(C, ('tile_data = buf + y * stride_bytes + x * (enc->bits_per_pixel / 8);', 1), 'tile_data = buf + y * stride_bytes + x * 4;')])
S['b13_sse2'] = dict(property='C13', needs='a CPU with SSE2 and without SSE4.1, and RLGR1', breaks='the SSE2 branch uses RLGR3 for a stream announced as RLGR1',
  edits=[('src/rfxencode.c', 'enc->rfx_encode = rfx_encode_component_rlgr1_amd64_sse2;', 'enc->rfx_encode = rfx_encode_component_rlgr3_amd64_sse2;')])
S['b13_et'] = dict(property='C13', needs='an RLGR1 stream, and a look at the tile-set header', breaks='the tile-set header announces RLGR3 whatever the stream uses',
  edits=[(C, 'properties |= rlgr << 10; /* et */', 'properties |= CLW_ENTROPY_RLGR3 << 10; /* et */')])
S['b14_clear'] = dict(property='C14', needs='a reference in the last row of the table and a key frame or destruction', breaks='the references of the last row are not released',
  edits=[('src/rfxencode.c', 'jndex < RFX_MAX_RB_X', 'jndex < RFX_MAX_RB_X - 1')])
S['b14_null'] = dict(property='C14', needs='an unsupported format', breaks='a failed creation hands out the handle it has released',
  edits=[('src/rfxencode.c', '            free(enc);\n            return 2;', '            *handle = enc;\n            free(enc);\n            return 2;')])
S['b15_room'] = dict(property='C15', needs='a noisy tile with an incompressible alpha plane, fine quantisers and little room left', breaks='the room insisted on leaves nothing for a raw alpha plane behind a large component, so it is written past the end',
  edits=[('src/rfxencode_tile.c', '(64 * 64) * 3 * RLGR_WORST_CASE_SIZE_FACTOR)', '(64 * 64) * RLGR_WORST_CASE_SIZE_FACTOR)')])
