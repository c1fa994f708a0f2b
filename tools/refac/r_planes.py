def pixel(t):
    i = t.index('static int\nrfx_encode_format_rgb('); j = t.index('/***', i)
    return t[:i] + '''static int
rfx_encode_format_rgb(const char *rgb_data, int width, int height,
                      int stride_bytes, int pixel_format,
                      uint8 *r_buf, uint8 *g_buf, uint8 *b_buf)
{
    int x;
    int y;
    int bytes;
    int swap;
    const uint8 *src;

    swap = (pixel_format == RFX_FORMAT_BGRA) || (pixel_format == RFX_FORMAT_BGR);
    bytes = (pixel_format == RFX_FORMAT_BGRA) || (pixel_format == RFX_FORMAT_RGBA) ? 4 : 3;
    for (y = 0; y < 64; y++)
    {
        for (x = 0; x < 64; x++)
        {
            src = (const uint8 *) rgb_data + (y < height ? y : height - 1) * stride_bytes +
                  (x < width ? x : width - 1) * bytes;
            r_buf[y * 64 + x] = src[swap ? 2 : 0];
            g_buf[y * 64 + x] = src[1];
            b_buf[y * 64 + x] = src[swap ? 0 : 2];
        }
    }
    return 0;
}

''' + t[j:]
R_('y_pixel', 'C10', (Y, pixel))
R_('y_pad', 'C10', (Y, lit(r'                while \(x < 64\)\n                \{\n                    \*lb_buf\+\+ = b;\n                    \*lg_buf\+\+ = g;\n                    \*lr_buf\+\+ = r;\n                    x\+\+;\n                \}\n', '''                memset(lb_buf, b, 64 - width);
                memset(lg_buf, g, 64 - width);
                memset(lr_buf, r, 64 - width);
''', 3)))
R_('y_rows', 'C10', (Y, rsub(r'            while \(y < 64\)\n            \{(.*?)                y\+\+;\n            \}\n', r'            for (; y < 64; y++)\n            {\1            }\n')))
R_('a_delta', 'C11', (A, sub('''            if (delta & 0x80)
            {
                delta = (((~delta) + 1) << 1) - 1;
            }
            else
            {
                delta = delta << 1;
            }
            dst8[cx] = delta;
''', '''            dst8[cx] = (char) ((delta << 1) ^ (delta < 0 ? -1 : 0));
''')))
R_('a_delta2', 'C11', (A, lit(r'static int\nfdelta\(const.*?\n\}\n', '''static int
fdelta(const char *in_plane, char *out_plane, int cx, int cy)
{
    int pos;
    int total;
    signed char delta;

    memcpy(out_plane, in_plane, cx);
    total = cx * cy;
    for (pos = cx; pos < total; pos++)
    {
        delta = in_plane[pos] - in_plane[pos - cx];
        if (delta < 0)
        {
            out_plane[pos] = -2 * delta - 1;
        }
        else
        {
            out_plane[pos] = 2 * delta;
        }
    }
    return 0;
}
''')))
R_('a_fout', 'C11', (A, lit(r'static int\nfout\(.*?\n\}\n', '''static void
put_segment(STREAM *s, int collen, int replen, const char *colptr)
{
    int i;

    stream_write_uint8(s, (collen << 4) | replen);
    for (i = 0; i < collen; i++)
    {
        stream_write_uint8(s, colptr[i]);
    }
}

/*****************************************************************************/
static int
fout(int collen, int replen, char *colptr, STREAM *s)
{
    int n;

    while (collen > 13)
    {
        n = collen > 15 ? 15 : collen;
        put_segment(s, n, 0, colptr);
        colptr += n;
        collen -= n;
    }
    if (collen == 0 && replen == 0)
    {
        return 0;
    }
    do
    {
        if (collen > 0 || replen < 16)
        {
            n = replen > 15 ? 15 : replen;
            replen -= n;
            if (n < 3)
            {
                put_segment(s, collen + n, 0, colptr);
            }
            else
            {
                put_segment(s, collen, n, colptr);
            }
            colptr += collen + n;
            collen = 0;
        }
        else
        {
            n = replen < 47 ? replen : 47;
            replen -= n;
            stream_write_uint8(s, ((n & 15) << 4) | (n >> 4));
            colptr += n;
        }
    } while (replen > 0);
    return 0;
}
''')))
R_('a_fpack', 'C11', (A, lit(r'static int\nfpack\(.*?\n\}\n', '''static int
fpack(char *plane, int cx, int cy, STREAM *s)
{
    const char *line;
    int start;
    int x;
    int y;
    int collen;
    int replen;
    uint8 *holdp;

    holdp = s->p;
    for (y = 0; y < cy; y++)
    {
        line = plane + y * cx;
        start = 0;
        collen = line[0] != 0;
        replen = !collen;
        for (x = 1; x < cx; x++)
        {
            if (line[x] == line[x - 1])
            {
                replen++;
                continue;
            }
            if (replen >= 3)
            {
                fout(collen, replen, (char *) line + start, s);
                start = x;
                collen = 1;
            }
            else
            {
                collen += replen + 1;
            }
            replen = 0;
        }
        fout(collen, replen, (char *) line + start, s);
    }
    return (int) (s->p - holdp);
}
''')))
R_('a_raw', 'C11 C12', (A, sub('''        memcpy(s->p, plane, cx * cy);
        s->p += cx * cy;
        stream_write_uint8(s, 0); /* pad if not RLE */
''', '''        stream_write(s, plane, cx * cy);
        stream_write_uint8(s, 0); /* pad if not RLE */
        bytes = cx * cy + 1;
'''), sub('    return (int) (s->p - holdp);\n}\n', '    return bytes + 1;\n}\n', None), sub('''        fout(collen, replen, colptr, s);
    }
    return bytes + 1;
''', '''        fout(collen, replen, colptr, s);
    }
    return (int) (s->p - holdp);
''')))
