R_('m_header_helper', MSG, (C, before('''static int
rfx_compose_message_context(''', '''static void
write_block_header(STREAM *s, int type, int len)
{
    stream_write_uint16(s, type);
    stream_write_uint32(s, len);
}

/******************************************************************************/
'''), rsub(r'stream_write_uint16\(s, ((?:WBT|PRO_WBT)_(?!SYNC)\w+)\);[^\n]*\n    stream_write_uint32\(s, (\w+)\);[^\n]*\n', r'write_block_header(s, \1, \2);\n')))
R_('m_rects_helper', MSG + ' C04', (C, before('''static int
rfx_compose_message_region(''', '''static void
write_rects(STREAM *s, const struct rfx_rect *rect, int count)
{
    const struct rfx_rect *end = rect + count;

    while (rect < end)
    {
        stream_write_uint16(s, rect->x);
        stream_write_uint16(s, rect->y);
        stream_write_uint16(s, rect->cx);
        stream_write_uint16(s, rect->cy);
        rect++;
    }
}

/******************************************************************************/
'''), lit(r'    for \((i|index) = 0; \1 < num_regions; \1\+\+\)\n    \{.*?\n    \}\n', '    write_rects(s, regions, num_regions);\n', 2), sub('    int size;\n    int i;\n', '    int size;\n')))
R_('m_tile_common', MSG, (C, body('rfx_compose_message_tile_rgb', '''static void
tile_begin(STREAM *s, int *start_pos, int quantIdxY, int quantIdxCb,
           int quantIdxCr, int xIdx, int yIdx, int lengths)
{
    *start_pos = stream_get_pos(s);
    stream_write_uint16(s, CBT_TILE); /* BlockT.blockType */
    stream_seek_uint32(s); /* set BlockT.blockLen later */
    stream_write_uint8(s, quantIdxY);
    stream_write_uint8(s, quantIdxCb);
    stream_write_uint8(s, quantIdxCr);
    stream_write_uint16(s, xIdx);
    stream_write_uint16(s, yIdx);
    stream_seek(s, lengths * 2);
}

static void
tile_end(STREAM *s, int start_pos, int y_len, int cb_len, int cr_len)
{
    int end_pos = stream_get_pos(s);

    stream_set_pos(s, start_pos + 2);
    stream_write_uint32(s, end_pos - start_pos); /* BlockT.blockLen */
    stream_set_pos(s, start_pos + 13);
    stream_write_uint16(s, y_len);
    stream_write_uint16(s, cb_len);
    stream_write_uint16(s, cr_len);
    stream_set_pos(s, end_pos);
}

/******************************************************************************/
static int
rfx_compose_message_tile_rgb(struct rfxencode *enc, STREAM *s,
                             const char *tile_data,
                             int tile_width, int tile_height,
                             int stride_bytes, const char *quantVals,
                             int quantIdxY, int quantIdxCb, int quantIdxCr,
                             int xIdx, int yIdx)
{
    int YLen = 0;
    int CbLen = 0;
    int CrLen = 0;
    int start_pos;

    if (stream_get_left(s) < 19)
    {
        return 1;
    }
    tile_begin(s, &start_pos, quantIdxY, quantIdxCb, quantIdxCr, xIdx, yIdx, 3);
    if (rfx_encode_rgb(enc, tile_data, tile_width, tile_height,
                       stride_bytes,
                       quantVals + quantIdxY * 5,
                       quantVals + quantIdxCb * 5,
                       quantVals + quantIdxCr * 5,
                       s, &YLen, &CbLen, &CrLen) != 0)
    {
        return 1;
    }
    tile_end(s, start_pos, YLen, CbLen, CrLen);
    return 0;
}
''')))
def merge_loops(t):
    i = t.index('    if (enc->format == RFX_FORMAT_YUV)\n    {\n        if (flags & RFX_FLAGS_ALPHAV1)')
    j = t.index('    tilesDataSize', i)
    k = t.rindex('}\n', i, j) + 2
    return t[:i] + '''    for (index = 0; index < numTiles; index++)
    {
        const struct rfx_tile *tile = tiles + index;
        int failed;

        if (enc->format == RFX_FORMAT_YUV)
        {
            tile_data = buf + (tile->y << 8) * (stride_bytes >> 8) + (tile->x << 8);
            failed = (flags & RFX_FLAGS_ALPHAV1) ?
                     rfx_compose_message_tile_yuva(enc, s, tile_data, tile->cx, tile->cy, stride_bytes, quantVals,
                         tile->quant_y, tile->quant_cb, tile->quant_cr, tile->x / 64, tile->y / 64) :
                     rfx_compose_message_tile_yuv(enc, s, tile_data, tile->cx, tile->cy, stride_bytes, quantVals,
                         tile->quant_y, tile->quant_cb, tile->quant_cr, tile->x / 64, tile->y / 64);
        }
        else
        {
            tile_data = buf + tile->y * stride_bytes + tile->x * (enc->bits_per_pixel / 8);
            failed = (flags & RFX_FLAGS_ALPHAV1) ?
                     rfx_compose_message_tile_argb(enc, s, tile_data, tile->cx, tile->cy, stride_bytes, quantVals,
                         tile->quant_y, tile->quant_cb, tile->quant_cr, tile->x / 64, tile->y / 64) :
                     rfx_compose_message_tile_rgb(enc, s, tile_data, tile->cx, tile->cy, stride_bytes, quantVals,
                         tile->quant_y, tile->quant_cb, tile->quant_cr, tile->x / 64, tile->y / 64);
        }
        if (failed)
        {
            break;
        }
        tiles_written++;
        tiles_end_checkpoint = stream_get_pos(s);
    }
''' + t[k:]
R_('m_merge_loops', MSG, (C, merge_loops, lit(r'    int quantIdxY;\n    int quantIdxCb;\n    int quantIdxCr;\n    int numTiles;', '    int numTiles;'), lit(r'    int x;\n    int y;\n    int cx;\n    int cy;\n', '')))
R_('m_props', 'C02 C12 C13', (C, sub('''    properties |= (COL_CONV_ICT << 3); /* cct */
    properties |= (CLW_XFORM_DWT_53_A << 5); /* xft */
    rlgr = enc->mode == RLGR1 ? CLW_ENTROPY_RLGR1 : CLW_ENTROPY_RLGR3;
    properties |= rlgr << 9; /* et */
    properties |= (SCALAR_QUANTIZATION << 13); /* qt */
''', '''    if (enc->mode == RLGR1)
    {
        rlgr = CLW_ENTROPY_RLGR1;
    }
    else
    {
        rlgr = CLW_ENTROPY_RLGR3;
    }
    properties |= (COL_CONV_ICT << 3) | (CLW_XFORM_DWT_53_A << 5) |
                  (rlgr << 9) | (SCALAR_QUANTIZATION << 13);
''')))
R_('m_memcpy_loop', MSG, (C, sub('''    memcpy(s->p, quantVals, numQuants * 5);
    s->p += numQuants * 5;
''', '''    for (index = 0; index < numQuants * 5; index++)
    {
        stream_write_uint8(s, quantVals[index]);
    }
''')))
