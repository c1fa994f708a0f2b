D='src/rfxencode_dwt.c'; Q='src/rfxencode_quantization.c'; R1='src/rfxencode_rlgr1.c'; D1='src/rfxencode_diff_rlgr1.c'; D3='src/rfxencode_diff_rlgr3.c'; R3='src/rfxencode_rlgr3.c'
R_('d_horz', 'C07 C08', (D, lit(r'static int\nrfx_dwt_2d_encode_horz\(.*?\n\}\n', '''static void
row_lift(const sint16 *src, sint16 *low, sint16 *high, int width)
{
    int n;
    int next;

    for (n = 0; n < width; n++)
    {
        next = n == width - 1 ? src[2 * n] : src[2 * n + 2];
        high[n] = (src[2 * n + 1] - ((src[2 * n] + next) >> 1)) >> 1;
    }
    low[0] = src[0] + high[0];
    for (n = 1; n < width; n++)
    {
        low[n] = src[2 * n] + ((high[n - 1] + high[n]) >> 1);
    }
}

static int
rfx_dwt_2d_encode_horz(sint16 *in_buffer, sint16 *out_buffer,
                       int subband_width)
{
    int y;
    int area = subband_width * subband_width;

    for (y = 0; y < subband_width; y++)
    {
        row_lift(in_buffer + 2 * y * subband_width, out_buffer + 3 * area + y * subband_width,
                 out_buffer + y * subband_width, subband_width);
        row_lift(in_buffer + 2 * area + 2 * y * subband_width, out_buffer + area + y * subband_width,
                 out_buffer + 2 * area + y * subband_width, subband_width);
    }
    return 0;
}
''')))
R_('d_vert', 'C07 C08', (D, sub('(src[total_width] - 128) << DWT_FACTOR', '(src[total_width] - 128) * (1 << DWT_FACTOR)', None), lit(r'    for \(x = 0; x < total_width; x\+\+\)\n    \{\n\n        /\* pre \*/\n        l = tmp_buffer \+ x;\n        h = l \+ subband_width \* total_width;\n        src = in_out_buffer \+ x;.*?\n    \}\n\n', '''    for (n = 0; n < subband_width; n++)
    {
        int first = (n == 0);
        src = in_out_buffer + 2 * n * total_width;
        l = tmp_buffer + n * total_width;
        h = l + subband_width * total_width;
        y = (n == subband_width - 1) ? 0 : 2 * total_width;
        for (x = 0; x < total_width; x++)
        {
            h[x] = (src[total_width + x] - ((src[x] + src[y + x]) >> 1)) >> 1;
            l[x] = src[x] + (first ? h[x] : ((h[x - total_width] + h[x]) >> 1));
        }
    }

''')))
R_('d_quant', 'C07 C08', (Q, body('rfx_quantization_encode', '''int
rfx_quantization_encode(sint16 *buffer, const char *qtable)
{
    static const struct { short pos; short size; char idx; char shift; } bands[10] =
    {
        { 0, 1024, 4, 0 }, { 1024, 1024, 3, 4 }, { 2048, 1024, 4, 4 },
        { 3072, 256, 2, 4 }, { 3328, 256, 2, 0 }, { 3584, 256, 3, 0 },
        { 3840, 64, 1, 0 }, { 3904, 64, 0, 4 }, { 3968, 64, 1, 4 }, { 4032, 64, 0, 0 }
    };
    int i;

    for (i = 0; i < 10; i++)
    {
        rfx_quantization_encode_block(buffer + bands[i].pos, bands[i].size,
                                      ((qtable[(int) bands[i].idx] >> bands[i].shift) & 0xf) - 6);
    }
    return 0;
}
''')))
R_('d_qblock', 'C07 C08 C09', (Q, lit(r'    half = \(1 << \(factor - 1\)\);\n    for \(dst = buffer; buffer_size > 0; dst\+\+, buffer_size--\)\n    \{\n        \*dst = \(\*dst \+ half\) >> factor;\n    \}\n    return 0;\n\}\n#endif\n\n/\*+/\n/\* \n    8 x  8 =   64\n   16', '''    half = (1 << (factor - 1));
    dst = buffer + buffer_size;
    while (dst > buffer)
    {
        dst--;
        *dst = (sint16) ((half + *dst) >> factor);
    }
    return 0;
}
#endif

/******************************************************************************/
/*
    8 x  8 =   64
   16''')))
R_('d_diff', 'C08 C12', ('src/rfxencode_differential.c', body('rfx_differential_encode', '''int
rfx_differential_encode(sint16 *buffer, int buffer_size)
{
    int i = buffer_size - 1;

    while (i > 0)
    {
        buffer[i] = buffer[i] - buffer[i - 1];
        i--;
    }
    return 0;
}
''')))
R_('r_putbits_fn', 'C05 C06', ('src/rfx_bitstream.h', lit(r'#define rfx_bitstream_put_bits.*?\} \} while \(0\)\n', '''static __inline__ void
bitstream_put(RFX_BITSTREAM *bs, unsigned int bits, int nbits)
{
    int b;

    while (nbits > 0 && bs->byte_pos < bs->nbytes)
    {
        b = nbits < bs->bits_left ? nbits : bs->bits_left;
        bs->buffer[bs->byte_pos] &= ~((1 << bs->bits_left) - 1);
        bs->buffer[bs->byte_pos] |= ((bits >> (nbits - b)) & ((1 << b) - 1)) << (bs->bits_left - b);
        bs->bits_left -= b;
        nbits -= b;
        if (bs->bits_left == 0)
        {
            bs->bits_left = 8;
            bs->byte_pos++;
        }
    }
}
#define rfx_bitstream_put_bits(bs, _bits, _nbits) bitstream_put(&(bs), (uint16) (_bits), _nbits)
''')))
R_('r_update', 'C05', (R1, lit(r'    _param \+= _deltaP; \\\n.*?    _k = \(_param >> LSGR\); \\\n', '''    _param = MAX(0, MIN(KPMAX, _param + (int) (_deltaP))); \\
    _k = (_param / 8); \\
'''), before('int\nrfx_rlgr1_encode', '#ifndef MIN\n#define MIN(_a, _b) ((_a) < (_b) ? (_a) : (_b))\n#define MAX(_a, _b) ((_a) > (_b) ? (_a) : (_b))\n#endif\n')))
R_('r_zeros', 'C05', (R1, sub('''            numZeros = 0;
            GetNextInput(input);
            while (input == 0)
            {
                numZeros++;
                if (data_size < 1)
                {
                    break;
                }
                GetNextInput(input);
            }
''', '''            for (numZeros = 0;; numZeros++)
            {
                if (data_size < 1)
                {
                    input = 0;
                    break;
                }
                GetNextInput(input);
                if (input != 0)
                {
                    break;
                }
            }
''')))
R_('r_diffloop', 'C05', (D1, sub('''    for (k = PIXELS_IN_TILE - 1; k > PIXELS_IN_TILE - diff_bytes; k--)
    {
        coef[k] -= coef[k - 1];
    }
''', '''    y = coef[PIXELS_IN_TILE - diff_bytes];
    for (k = PIXELS_IN_TILE - diff_bytes + 1; k < PIXELS_IN_TILE; k++)
    {
        input = coef[k];
        coef[k] = input - y;
        y = input;
    }
''')))
R_('r_sign', 'C05', (D1, sub('''            y = input >> 15;
            twoMs = (((input ^ y) - y) << 1) + y;
''', '''            (void) y;
            twoMs = input < 0 ? -2 * input - 1 : 2 * input;
''')))
R_('r_unary', 'C05', (D1, sub('''        while (llvk >= 8) \\
        { \\
            cdata_size--; \\
            bits <<= 8; \\
            bits |= 0xFF; \\
            llvk -= 8; \\
            *cdata = bits >> bit_count; \\
            cdata++; \\
        } \\
''', '''        for (; llvk >= 8; llvk -= 8) \\
        { \\
            bits = (bits << 8) | 0xFF; \\
            *cdata++ = bits >> bit_count; \\
            cdata_size--; \\
        } \\
''')))
R_('r_outbit', 'C05', (R1, sub('''    for (; c > 0; c -= 16) \\
    { \\
        rfx_bitstream_put_bits(bs, b, (c > 16 ? 16 : c)); \\
    } \\
''', '''    while (c >= 16) \\
    { \\
        rfx_bitstream_put_bits(bs, b, 16); \\
        c -= 16; \\
    } \\
    rfx_bitstream_put_bits(bs, b, c); \\
''')))
R_('r3_bits', 'C06', (D3, sub('''            if (sum2Ms != 0)
            {
                GBSR(sum2Ms, nIdx);
                nIdx++;
            }
            else
            {
                nIdx = 0;
            }
''', '''            nIdx = 0;
            if (sum2Ms != 0)
            {
                nIdx = 32 - __builtin_clz(sum2Ms);
            }
''')))
R_('r3_kp', 'C06', (D3, lit(r'            if \(twoMs1 != 0\)\n            \{\n                if \(twoMs2 != 0\).*?\n            \}\n        \}\n    \}\n', '''            if ((twoMs1 != 0) && (twoMs2 != 0))
            {
                kp = MAX(0, kp - (2 * DQ_GR));
            }
            else if ((twoMs1 == 0) && (twoMs2 == 0))
            {
                kp = MIN(KPMAX, kp + (2 * UQ_GR));
            }
            k = kp >> LSGR;
        }
    }
''')))
