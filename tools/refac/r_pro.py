MK = '/* return tiles written or -1 on error */\n'
R_('p_diff_func', PRO, (C, lit(r'#define COEF_DIFF_COUNT\(.*?while \(0\)\n', '''static void
coef_diff_count(sint16 *coef1, const sint16 *coef2, const sint16 *coef3,
                int *count1, int *count2)
{
    int loop;

    *count1 = 0;
    *count2 = 0;
    for (loop = 0; loop < 4096; loop++)
    {
        coef1[loop] = coef2[loop] - coef3[loop];
        if (loop < 4096 - 81)
        {
            if (coef1[loop] == 0)
            {
                (*count1)++;
            }
            if (coef2[loop] == 0)
            {
                (*count2)++;
            }
        }
    }
}
'''), rsub(r'COEF_DIFF_COUNT\((enc[^,]*), ([^,]*), ([^,]*),\s*jndex, (\w+), (\w+)\);', r'coef_diff_count(\1, \2, \3, &\4, &\5);', 3)))
R_('p_select', PRO, (C, lit(r'        if \(ot_y_zeros \+ ot_u_zeros \+ ot_v_zeros <.*?        y_bytes = rfx', '''        tile_flags = (ot_y_zeros + ot_u_zeros + ot_v_zeros <
                      dt_y_zeros + dt_u_zeros + dt_v_zeros) ?
                     RFX_TILE_DIFFERENCE : 0;
        dwt_buffer_y = tile_flags ? enc->dwt_buffer4 : enc->dwt_buffer1;
        dwt_buffer_u = tile_flags ? enc->dwt_buffer5 : enc->dwt_buffer2;
        dwt_buffer_v = tile_flags ? enc->dwt_buffer6 : enc->dwt_buffer3;
        y_bytes = rfx''')))
R_('p_undo_split', PRO, (C, lit(r'            for \(jndex = 4096 - 80; jndex < 4096; jndex\+\+\)\n            \{.*?\n            \}\n', '''            undo_diff(enc->dwt_buffer1);
            undo_diff(enc->dwt_buffer2);
            undo_diff(enc->dwt_buffer3);
'''), before(MK, '''static void
undo_diff(sint16 *coef)
{
    int i;

    coef += 4096 - 81;
    for (i = 1; i < 81; i++)
    {
        coef[i] = coef[i] + coef[i - 1];
    }
}

/******************************************************************************/
''')))
R_('p_rb_helper', PRO, (C, lit(r'        rb = enc->rbs\[xIdx\]\[yIdx\];\n        if \(rb == NULL\)\n        \{.*?\n        \}\n', '''        rb = get_rb(enc, xIdx, yIdx);
        if (rb == NULL)
        {
            break;
        }
'''), before(MK, '''static struct rfx_rb *
get_rb(struct rfxencode *enc, int x, int y)
{
    struct rfx_rb **slot = &(enc->rbs[x][y]);

    if (*slot == NULL)
    {
        *slot = xnew(struct rfx_rb);
    }
    return *slot;
}

/******************************************************************************/
''')))
R_('p_copy_loop', PRO, (C, lit(r'        memcpy\(rb->y, enc->dwt_buffer1, 64 \* 64 \* 2\);\n[^\n]*\n[^\n]*\n', '''        for (jndex = 0; jndex < 64 * 64; jndex++)
        {
            rb->y[jndex] = enc->dwt_buffer1[jndex];
            rb->u[jndex] = enc->dwt_buffer2[jndex];
            rb->v[jndex] = enc->dwt_buffer3[jndex];
        }
''')))
R_('p_validate', PRO, (C, lit(r'    for \(index = 0; index < num_tiles; index\+\+\)\n    \{\n        if \(\(tiles\[index\].quant_y < 0\).*?\n    \}\n', '''    for (index = 0; index < num_tiles; index++)
    {
        if (!tile_ok(tiles + index, num_quants))
        {
            return -1;
        }
    }
'''), before(MK, '''static int
tile_ok(const struct rfx_tile *tile, int num_quants)
{
    if (tile->x < 0 || tile->y < 0)
    {
        return 0;
    }
    if (tile->x / 64 >= RFX_MAX_RB_X || tile->y / 64 >= RFX_MAX_RB_Y)
    {
        return 0;
    }
    return tile->quant_y >= 0 && tile->quant_y < num_quants &&
           tile->quant_cb >= 0 && tile->quant_cb < num_quants &&
           tile->quant_cr >= 0 && tile->quant_cr < num_quants;
}

/******************************************************************************/
''')))
R_('p_comp_loop', PRO, (C, lit(r'        y_bytes = rfx_encode_diff_rlgr1\(dwt_buffer_y.*?        stream_seek\(s, v_bytes\);\n', '''        y_bytes = encode_one(dwt_buffer_y, s);
        if (y_bytes < 0)
        {
            break;
        }
        u_bytes = encode_one(dwt_buffer_u, s);
        if (u_bytes < 0)
        {
            break;
        }
        v_bytes = encode_one(dwt_buffer_v, s);
        if (v_bytes < 0)
        {
            break;
        }
'''), before(MK, '''static int
encode_one(sint16 *coefs, STREAM *s)
{
    int bytes;

    bytes = rfx_encode_diff_rlgr1(coefs, stream_get_tail(s),
                                  stream_get_left(s), 81);
    if (bytes >= 0)
    {
        stream_seek(s, bytes);
    }
    return bytes;
}

/******************************************************************************/
''')))
R_('p_history_diff', PRO, (C, sub('        if (tile_flags == 0)\n', '        if (!(tile_flags & RFX_TILE_DIFFERENCE))\n')))
R_('p_lens', PRO, (C, sub('''        stream_write_uint32(s, tile_end_pos - tile_start_pos); /* blockLen */
''', '''        stream_write_uint32(s, 22 + y_bytes + u_bytes + v_bytes); /* blockLen */
''')))
