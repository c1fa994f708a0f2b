R_('t_yuva_via_yuv', 'C01 C02 C12', (T, body('rfx_encode_yuva', '''int
rfx_encode_yuva(struct rfxencode *enc, const char *yuva_data,
                int width, int height, int stride_bytes,
                const char *y_quants, const char *u_quants,
                const char *v_quants,
                STREAM *data_out, int *y_size, int *u_size,
                int *v_size, int *a_size)
{
    int error;

    error = rfx_encode_yuv(enc, yuva_data, width, height, stride_bytes,
                           y_quants, u_quants, v_quants,
                           data_out, y_size, u_size, v_size);
    if (error == 0)
    {
        *a_size = rfx_encode_plane(enc, (const uint8 *) yuva_data + RFX_YUV_BTES * 3,
                                   64, 64, data_out);
    }
    return error != 0;
}
''')))
R_('t_components', 'C01 C02 C12 C15', (T, before('''int
rfx_encode_rgb(''', '''static int
encode_planes(struct rfxencode *enc, const uint8 *planes[3],
              const char *quants[3], STREAM *data_out, int *sizes[3])
{
    int i;

    for (i = 0; i < 3; i++)
    {
        if (check_and_rfx_encode(enc, quants[i], planes[i],
                                 stream_get_tail(data_out),
                                 stream_get_left(data_out), sizes[i]) != 0)
        {
            return 1;
        }
        stream_seek(data_out, *sizes[i]);
    }
    return 0;
}

/******************************************************************************/
'''), body('rfx_encode_rgb', '''int
rfx_encode_rgb(struct rfxencode *enc, const char *rgb_data,
               int width, int height, int stride_bytes,
               const char *y_quants, const char *u_quants,
               const char *v_quants,
               STREAM *data_out, int *y_size, int *u_size, int *v_size)
{
    const uint8 *planes[3];
    const char *quants[3];
    int *sizes[3];

    if (enc->rfx_encode_rgb_to_yuv(enc, rgb_data, width, height,
                                   stride_bytes) != 0)
    {
        return 1;
    }
    planes[0] = enc->y_r_buffer;
    planes[1] = enc->u_g_buffer;
    planes[2] = enc->v_b_buffer;
    quants[0] = y_quants;
    quants[1] = u_quants;
    quants[2] = v_quants;
    sizes[0] = y_size;
    sizes[1] = u_size;
    sizes[2] = v_size;
    return encode_planes(enc, planes, quants, data_out, sizes);
}
''')))
R_('t_check', 'C01 C12 C15', (T, sub('''    if (buffer_size < TILE_SIZE_UPPER_LIMIT)
    {
        return 1;
    }
    return enc->rfx_encode(enc, qtable, data, buffer, buffer_size, size);''', '''    int result = 1;

    if (!(TILE_SIZE_UPPER_LIMIT > buffer_size))
    {
        result = enc->rfx_encode(enc, qtable, data, buffer, buffer_size, size);
    }
    return result;''')))
R_('t_comp_shared', 'C07 C12 C13 C15', (T, before('''int
rfx_encode_component_rlgr1(''', '''static int
prepare_coefs(struct rfxencode *enc, const char *qtable, const uint8 *data)
{
    return (rfx_dwt_2d_encode(data, enc->dwt_buffer1, enc->dwt_buffer) != 0) ||
           (rfx_quantization_encode(enc->dwt_buffer1, qtable) != 0) ||
           (rfx_differential_encode(enc->dwt_buffer1 + 4032, 64) != 0);
}

/******************************************************************************/
''')) + tuple(body('rfx_encode_component_rlgr%d' % i, '''int
rfx_encode_component_rlgr%d(struct rfxencode *enc, const char *qtable,
                           const uint8 *data,
                           uint8 *buffer, int buffer_size, int *size)
{
    if (prepare_coefs(enc, qtable, data))
    {
        return 1;
    }
    *size = rfx_rlgr%d_encode(enc->dwt_buffer1, buffer, buffer_size);
    return 0;
}
''' % (i, i)) for i in (1, 3)))
