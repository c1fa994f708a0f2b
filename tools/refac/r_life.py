R_('l_clear', 'C14 C04', (E, lit(r'static void\nclear_encoder_rbs\(.*?\n\}\n', '''static void
clear_encoder_rbs(struct rfxencode *enc)
{
    struct rfx_rb **rb;
    struct rfx_rb **end;

    rb = &(enc->rbs[0][0]);
    end = rb + RFX_MAX_RB_X * RFX_MAX_RB_Y;
    for (; rb < end; rb++)
    {
        if (*rb != NULL)
        {
            free(*rb);
            *rb = NULL;
        }
    }
}
''')))
R_('l_bufs', 'C13 C14', (E, rsub(r'\(sint16 \*\) \(\(\(size_t\) \((enc->\w+)\)\) & ~15\)', r'align16(\1)'), sub('#include "rfxencode.h"\n', '''#include "rfxencode.h"

static sint16 *
align16(void *p)
{
    return (sint16 *) (((size_t) p) & ~((size_t) 15));
}
''')))
R_('l_cpu', 'C13 C14', (E, rsub(r'    if \(([cd]x) & \(1 << (\d+)\)\)[^\n]*\n    \{\n        printf\([^\n]*\n        enc->(got_\w+) = 1;\n    \}\n', r'    enc->\3 = (\1 >> \2) & 1;\n')))
R_('l_select', 'C13 C14', (E, lit(r'    if \(flags & RFX_FLAGS_PRO1\)\n    \{\n        enc->pro_ver = 1;\n    \}\n    else if.*?    if \(ax == 0\)', '''    if (flags & RFX_FLAGS_PRO1)
    {
        enc->pro_ver = 1;
    }
    else
    {
        enc->rfx_encode = enc->mode == RLGR3 ? rfx_encode_component_rlgr3 : rfx_encode_component_rlgr1;
#if defined(RFX_USE_ACCEL_AMD64)
        if ((flags & RFX_FLAGS_NOACCEL) == 0)
        {
            if (enc->got_sse41)
            {
                enc->rfx_encode = enc->mode == RLGR3 ? rfx_encode_component_rlgr3_amd64_sse41 : rfx_encode_component_rlgr1_amd64_sse41;
            }
            else if (enc->got_sse2)
            {
                enc->rfx_encode = enc->mode == RLGR3 ? rfx_encode_component_rlgr3_amd64_sse2 : rfx_encode_component_rlgr1_amd64_sse2;
            }
        }
#endif
    }
    if (ax == 0)''')))
R_('l_format', 'C13 C14', (E, lit(r'    switch \(format\)\n    \{.*?return 2;\n    \}\n', '''    enc->bits_per_pixel = 32;
    if ((format == RFX_FORMAT_BGR) || (format == RFX_FORMAT_RGB))
    {
        enc->bits_per_pixel = 24;
    }
    else if ((format != RFX_FORMAT_BGRA) && (format != RFX_FORMAT_RGBA) &&
             (format != RFX_FORMAT_YUV))
    {
        free(enc);
        return 2;
    }
''')))
R_('l_encode_ex', 'C01 C02 C03 C04 C14', (E, lit(r'        frame_idx = enc->frame_idx;\n        header_processed = enc->header_processed;\n        /\* Only.*?        return tiles_written;\n    \}\n\n    frame_idx = enc->frame_idx;\n    header_processed = enc->header_processed;\n', '''    }
    frame_idx = enc->frame_idx;
    header_processed = enc->header_processed;
    if (enc->pro_ver > 0)
    {
        tiles_written = -1;
        if ((enc->frame_idx != 0) || (enc->header_processed != 0) ||
            (rfx_pro_compose_message_header(enc, &s) == 0))
        {
            tiles_written = rfx_pro_compose_message_data(enc, &s, regions, num_regions,
                                             buf, width, height, stride_bytes,
                                             tiles, num_tiles, quants, num_quants,
                                             flags);
        }
        if (tiles_written > 0)
        {
            *cdata_bytes = (int) (s.p - s.data);
            return tiles_written;
        }
        enc->frame_idx = frame_idx;
        enc->header_processed = header_processed;
        return -1;
    }

''')))
R_('l_reset', 'C14 C04 C03', (E, lit(r'    memset\(enc->a_buffer, 0, sizeof\(enc->a_buffer\)\);.*?    clear_encoder_rbs\(enc\);\n', '''    clear_encoder_rbs(enc);
'''), sub('''    struct rfxencode *enc;
    int ax;''', '''    struct rfxencode *enc;
    unsigned int i;
    sint16 **ptrs[7];
    sint16 *bufs[7];
    int ax;'''), lit(r'    enc->dwt_buffer = [^\n]*\n    enc->dwt_buffer1 =.*?enc->dwt_buffer6 [^\n]*\n', '''    ptrs[0] = &(enc->dwt_buffer);  bufs[0] = enc->dwt_buffer_a;
    ptrs[1] = &(enc->dwt_buffer1); bufs[1] = enc->dwt_buffer1_a;
    ptrs[2] = &(enc->dwt_buffer2); bufs[2] = enc->dwt_buffer2_a;
    ptrs[3] = &(enc->dwt_buffer3); bufs[3] = enc->dwt_buffer3_a;
    ptrs[4] = &(enc->dwt_buffer4); bufs[4] = enc->dwt_buffer4_a;
    ptrs[5] = &(enc->dwt_buffer5); bufs[5] = enc->dwt_buffer5_a;
    ptrs[6] = &(enc->dwt_buffer6); bufs[6] = enc->dwt_buffer6_a;
    for (i = 0; i < 7; i++)
    {
        *ptrs[i] = (sint16 *) (((size_t) bufs[i]) & ~15);
    }
''')))
