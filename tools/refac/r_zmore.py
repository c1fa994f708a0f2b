# second batch: what an outsider might do near the interesting code
def _cut(t, a, b):
    i = t.index(a); j = t.index(b, i); return t[i:j]
# pro: the whole tile moved to a helper
def x_prohelper(t):
    a = t.index('    for (index = 0; index < num_tiles; index++)\n    {\n        if (stream_get_left(s) < 22)')
    e = t.index('    if (tile_end_pos == -1)\n', a)
    loop = t[a:e]
    body = loop[loop.index('        if (stream_get_left(s) < 22)'):loop.rindex('    }\n')]
    body = body.replace('            break;', '            return -1;').replace('                break;', '                return -1;').replace('tiles[index].', 'tile->').replace('        ++tiles_written;\n', '')
    body = '\n'.join(l[4:] if l.startswith('    ') else l for l in body.split('\n'))
    decl = '''    int jndex;
    int x;
    int y;
    uint8 quantIdxY;
    uint8 quantIdxCb;
    uint8 quantIdxCr;
    const char *tile_data;
    int y_bytes;
    int u_bytes;
    int v_bytes;
    int tile_start_pos;
    int tile_end_pos;
    uint16 xIdx;
    uint16 yIdx;
    const uint8 *y_buffer;
    const uint8 *u_buffer;
    const uint8 *v_buffer;
    const char *y_quants;
    const char *u_quants;
    const char *v_quants;
    struct rfx_rb *rb;
    int dt_y_zeros;
    int dt_u_zeros;
    int dt_v_zeros;
    int ot_y_zeros;
    int ot_u_zeros;
    int ot_v_zeros;
    int tile_flags;
    sint16 *dwt_buffer_y;
    sint16 *dwt_buffer_u;
    sint16 *dwt_buffer_v;

'''
    fn = 'static int\npro_tile(struct rfxencode *enc, STREAM *s, const struct rfx_tile *tile,\n         const char *buf, int stride_bytes, const char *quants)\n{\n' + decl + body + '    return tile_end_pos;\n}\n\n'
    new = '''    for (index = 0; index < num_tiles; index++)
    {
        end_pos = pro_tile(enc, s, tiles + index, buf, stride_bytes, quants);
        if (end_pos < 0)
        {
            break;
        }
        tile_end_pos = end_pos;
        ++tiles_written;
    }
'''
    t = t[:a] + new + t[e:]
    m = '/* return tiles written or -1 on error */\nstatic int\nrfx_pro_compose_message_region'
    assert m in t
    return t.replace(m, fn + m)
R_('x_prohelper', 'C04 C02', (C, x_prohelper))
R_('x_slot', 'C04 C14', (C, sub('        rb = enc->rbs[xIdx][yIdx];\n', '        slot = &(enc->rbs[xIdx][yIdx]);\n        rb = *slot;\n'), sub('            enc->rbs[xIdx][yIdx] = rb;\n', '            *slot = rb;\n'), sub('    struct rfx_rb *rb;\n', '    struct rfx_rb *rb;\n    struct rfx_rb **slot;\n')))
R_('x_slotlate', 'C04 C14', (C, lit(r'        rb = enc->rbs\[xIdx\]\[yIdx\];\n        if \(rb == NULL\)\n        \{\n.*?\n        \}\n        rfx_rem', '''        if (enc->rbs[xIdx][yIdx] == NULL)
        {
            enc->rbs[xIdx][yIdx] = xnew(struct rfx_rb);
        }
        rb = enc->rbs[xIdx][yIdx];
        if (rb == NULL)
        {
            break;
        }
        rfx_rem''')))
R_('x_putat', 'C02 C04', (C, before('/******************************************************************************/\n/* coef1 = coef2 - coef3 (QCdt = QCot - QCrb)\n   count zeros in coef1, coef2 */', '''static void
put_uint32_at(STREAM *s, int pos, int value)
{
    uint8 *p = s->data + pos;

    p[0] = value & 0xff;
    p[1] = (value >> 8) & 0xff;
    p[2] = (value >> 16) & 0xff;
    p[3] = (value >> 24) & 0xff;
}

'''), sub('''        stream_set_pos(s, tile_start_pos + 2);
        stream_write_uint32(s, tile_end_pos - tile_start_pos); /* blockLen */
''', '''        put_uint32_at(s, tile_start_pos + 2, tile_end_pos - tile_start_pos);
'''), sub('''    stream_set_pos(s, start_pos + 2);
    stream_write_uint32(s, end_pos - start_pos); /* blockLen */
    stream_set_pos(s, start_pos + 12);
    stream_write_uint16(s, tiles_written); /* num_tiles */
    stream_write_uint32(s, end_pos - tiles_start_pos); /* tileDataSize */
''', '''    put_uint32_at(s, start_pos + 14, end_pos - tiles_start_pos);
    put_uint32_at(s, start_pos + 2, end_pos - start_pos);
    stream_set_pos(s, start_pos + 12);
    stream_write_uint16(s, tiles_written); /* num_tiles */
''')))
R_('x_reserve', 'C01 C04', (C, sub('''    s->size -= 6;
    tiles_written''', '''    full = s->size;
    s->size = full - 6;
    tiles_written'''), sub('    s->size += 6;\n', '    s->size = full;\n'), sub('    int tiles_written;\n\n    LLOGLN(10, ("rfx_pro_compose_message_data:"));', '    int tiles_written;\n    int full;\n\n    LLOGLN(10, ("rfx_pro_compose_message_data:"));')))
R_('x_order', 'C04 C02', (C, sub('''        rfx_rem_dwt_shift_encode(y_buffer, enc->dwt_buffer1,
                                 enc->dwt_buffer, y_quants);
        rfx_rem_dwt_shift_encode(u_buffer, enc->dwt_buffer2,
                                 enc->dwt_buffer, u_quants);
        rfx_rem_dwt_shift_encode(v_buffer, enc->dwt_buffer3,
                                 enc->dwt_buffer, v_quants);
        COEF_DIFF_COUNT(enc->dwt_buffer4, enc->dwt_buffer1, rb->y,
                        jndex, dt_y_zeros, ot_y_zeros);
''', '''        rfx_rem_dwt_shift_encode(v_buffer, enc->dwt_buffer3,
                                 enc->dwt_buffer, v_quants);
        rfx_rem_dwt_shift_encode(u_buffer, enc->dwt_buffer2,
                                 enc->dwt_buffer, u_quants);
        rfx_rem_dwt_shift_encode(y_buffer, enc->dwt_buffer1,
                                 enc->dwt_buffer, y_quants);
        COEF_DIFF_COUNT(enc->dwt_buffer4, enc->dwt_buffer1, rb->y,
                        jndex, dt_y_zeros, ot_y_zeros);
''')))
R_('x_encgoto', 'C03 C01', (E, lit(r'    frame_idx = enc->frame_idx;\n    header_processed = enc->header_processed;\n    /\* Only the first frame should send the RemoteFX header \*/\n    if \(\(enc->frame_idx == 0\).*?    return tiles_written;\n\}\n', '''    frame_idx = enc->frame_idx;
    header_processed = enc->header_processed;
    if ((frame_idx == 0) && (header_processed == 0) &&
        (rfx_compose_message_header(enc, &s) != 0))
    {
        return -1;
    }
    tiles_written = rfx_compose_message_data(enc, &s, regions, num_regions,
                                            buf, width, height, stride_bytes,
                                            tiles, num_tiles,
                                            quants, num_quants, flags);
    *cdata_bytes = (int) (s.p - s.data);
    if (tiles_written >= 0)
    {
        return tiles_written;
    }
    enc->frame_idx = frame_idx;
    enc->header_processed = header_processed;
    return tiles_written;
}
''')))
R_('x_countdown', 'C02 C12', (C, rsub(r'            for \(index = 0; index < numTiles; index\+\+\)\n            \{\n                x = tiles\[index\].x;\n                y = tiles\[index\].y;\n                cx = tiles\[index\].cx;\n                cy = tiles\[index\].cy;\n                quantIdxY = tiles\[index\].quant_y;\n                quantIdxCb = tiles\[index\].quant_cb;\n                quantIdxCr = tiles\[index\].quant_cr;\n', '''            for (index = numTiles; index > 0; index--)
            {
                tile = tiles + (numTiles - index);
                x = tile->x;
                y = tile->y;
                cx = tile->cx;
                cy = tile->cy;
                quantIdxY = tile->quant_y;
                quantIdxCb = tile->quant_cb;
                quantIdxCr = tile->quant_cr;
''', 4), sub('    int cy;\n    const char *tile_data;\n\n    LLOGLN(10, ("rfx_compose_message_tileset:"));', '    int cy;\n    const char *tile_data;\n    const struct rfx_tile *tile;\n\n    LLOGLN(10, ("rfx_compose_message_tileset:"));')))
R_('x_tileptr', 'C02 C12', (C, rsub(r'            for \(index = 0; index < numTiles; index\+\+\)\n            \{\n                x = tiles\[index\].x;\n                y = tiles\[index\].y;\n                cx = tiles\[index\].cx;\n                cy = tiles\[index\].cy;\n                quantIdxY = tiles\[index\].quant_y;\n                quantIdxCb = tiles\[index\].quant_cb;\n                quantIdxCr = tiles\[index\].quant_cr;\n', '''            for (tile = tiles; tile != tiles + numTiles; tile++)
            {
                x = tile->x;
                y = tile->y;
                cx = tile->cx;
                cy = tile->cy;
                quantIdxY = tile->quant_y;
                quantIdxCb = tile->quant_cb;
                quantIdxCr = tile->quant_cr;
''', 4), sub('    int cy;\n    const char *tile_data;\n\n    LLOGLN(10, ("rfx_compose_message_tileset:"));', '    int cy;\n    const char *tile_data;\n    const struct rfx_tile *tile;\n\n    LLOGLN(10, ("rfx_compose_message_tileset:"));'), sub('    int tiles_written;\n    int index;\n    int numQuants;\n', '    int tiles_written;\n    int numQuants;\n')))
R_('x_whiledone', 'C02 C12', (C, rsub(r'''                \{
                    break;
                \}
                tiles_end_checkpoint = stream_get_pos\(s\);
                tiles_written \+= 1;
''', '''                {
                    break;
                }
                tiles_written = index + 1;
                tiles_end_checkpoint = stream_get_pos(s);
''', 4)))
R_('x_tilelen', 'C02', (C, rsub(r'stream_write_uint32\(s, 19 \+ YLen \+ CbLen \+ CrLen\);', 'stream_write_uint32(s, end_pos - start_pos);')))
R_('x_quantloop', 'C02 C12', (C, sub('''    memcpy(s->p, quantVals, numQuants * 5);
    s->p += numQuants * 5;
''', '''    for (index = 0; index < numQuants * 5; index++)
    {
        stream_write_uint8(s, quantVals[index]);
    }
''')))
R_('x_earlyleft', 'C01 C02', (C, sub('''    size = 22 + numQuants * 5;
    if (stream_get_left(s) < size)
    {
        return -1;
    }
''', '''    size = numQuants * 5 + 22;
    if ((int) (s->p - s->data) + size > s->size)
    {
        return -1;
    }
''')))
R_('x_plane_loop', 'C12 C15', (T, body('rfx_encode_argb', '''int
rfx_encode_argb(struct rfxencode *enc, const char *argb_data,
                int width, int height, int stride_bytes,
                const char *y_quants, const char *u_quants,
                const char *v_quants,
                STREAM *data_out, int *y_size, int *u_size,
                int *v_size, int *a_size)
{
    const char *quants[3];
    const uint8 *planes[3];
    int *sizes[3];
    int index;

    quants[0] = y_quants;
    quants[1] = u_quants;
    quants[2] = v_quants;
    planes[0] = enc->y_r_buffer;
    planes[1] = enc->u_g_buffer;
    planes[2] = enc->v_b_buffer;
    sizes[0] = y_size;
    sizes[1] = u_size;
    sizes[2] = v_size;
    if (enc->rfx_encode_argb_to_yuva(enc, argb_data, width, height,
                                     stride_bytes) != 0)
    {
        return 1;
    }
    for (index = 0; index < 3; index++)
    {
        if (check_and_rfx_encode(enc, quants[index], planes[index],
                                 stream_get_tail(data_out),
                                 stream_get_left(data_out),
                                 sizes[index]) != 0)
        {
            return 1;
        }
        stream_seek(data_out, *(sizes[index]));
    }
    *a_size = rfx_encode_plane(enc, enc->a_buffer, 64, 64, data_out);
    return 0;
}
''')))
# C10
R_('y_clampfn', 'C10', (Y, before('/******************************************************************************/\nstatic int\nrfx_encode_format_rgb(', '''static uint8
clamp(int v)
{
    if (v < 0)
    {
        return 0;
    }
    if (v > 255)
    {
        v = 255;
    }
    return (uint8) v;
}

'''), sub('MINMAX(y, 0, 255)', 'clamp(y)'), sub('MINMAX(u + 128, 0, 255)', 'clamp(u + 128)'), sub('MINMAX(v + 128, 0, 255)', 'clamp(v + 128)')))
R_('y_table', 'C10', (Y, body('rfx_encode_format_rgb', '''static const struct
{
    int bytes;
    int r;
    int g;
    int b;
} g_layout[] =
{
    { 4, 2, 1, 0 },
    { 4, 0, 1, 2 },
    { 3, 2, 1, 0 },
    { 3, 0, 1, 2 }
};

static int
rfx_encode_format_rgb(const char *rgb_data, int width, int height,
                      int stride_bytes, int pixel_format,
                      uint8 *r_buf, uint8 *g_buf, uint8 *b_buf)
{
    int x;
    int y;
    int k;
    const uint8 *src;

    if ((pixel_format < RFX_FORMAT_BGRA) || (pixel_format > RFX_FORMAT_RGB))
    {
        return 0;
    }
    for (y = 0; y < 64; y++)
    {
        for (x = 0; x < 64; x++)
        {
            k = x < width ? x : width - 1;
            src = (const uint8 *) rgb_data + (y < height ? y : height - 1) * stride_bytes + k * g_layout[pixel_format].bytes;
            r_buf[y * 64 + x] = src[g_layout[pixel_format].r];
            g_buf[y * 64 + x] = src[g_layout[pixel_format].g];
            b_buf[y * 64 + x] = src[g_layout[pixel_format].b];
        }
    }
    return 0;
}
''')))
# C11
R_('a_scan', 'C11', (A, sub('''        while (ptr8 < lend)
        {
            if (ptr8[0] == ptr8[1])
            {
                replen++;
            }
            else
            {
                if (replen > 0)
                {
                    if (replen < 3)
                    {
                        collen += replen + 1;
                        replen = 0;
                    }
                    else
                    {
                        fout(collen, replen, colptr, s);
                        colptr = ptr8 + 1;
                        replen = 0;
                        collen = 1;
                    }
                }
                else
                {
                    collen++;
                }
            }
            ptr8++;
        }
''', '''        for (; ptr8 < lend; ptr8++)
        {
            if (ptr8[1] == ptr8[0])
            {
                replen++;
                continue;
            }
            if (replen >= 3)
            {
                fout(collen, replen, colptr, s);
                colptr = ptr8 + 1;
                collen = 0;
                replen = 0;
            }
            collen += replen + 1;
            replen = 0;
        }
''')))
R_('a_sep', 'C11', (A, sub('''            code = ((lreplen & 0xF) << 4) | ((lreplen & 0xF0) >> 4);
''', '''            code = ((lreplen % 16) << 4) + lreplen / 16;
'''), sub('''        code = lcollen << 4;
        stream_write_uint8(s, code);
        memcpy(s->p, colptr, lcollen);
        s->p += lcollen;
''', '''        stream_write_uint8(s, lcollen * 16);
        for (code = 0; code < lcollen; code++)
        {
            stream_write_uint8(s, colptr[code]);
        }
''')))
# C09
S9='src/rfxencode_dwt_shift_rem.c'
R_('d_remloop', 'C09 C15', (S9, rsub(r'LOQ\(_val\) \(\(_val\) \+ lo_half\) >> lo_fact', 'LOQ(_val) (((_val) + lo_half) >> lo_fact)'), rsub(r'HIQ\(_val\) \(\(_val\) \+ hi_half\) >> hi_fact', 'HIQ(_val) (((_val) + (1 << (hi_fact - 1))) >> hi_fact)')))
