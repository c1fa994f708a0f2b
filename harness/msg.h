/* message-level scenarios (C01 C02 C03 C04 C12 C13 C14 C15) */
#define MAXT 600
#define MAXR 10000
typedef struct { int fmt, cflags, pro, rlgr, w, h, tw, th, bpp; } cfg_t;
typedef struct { int q[3], x, y, flags; long off[4], len[4]; int ncomp; } ptile_t;
typedef struct
{
    int header, frame_idx, nregions, nquants, ntiles, plus; unsigned props_ctx, props_ts; const unsigned char *quants; const unsigned char *rects;
    ptile_t t[MAXT]; int chw, chh; char err[256]; int overrun;
} pmsg_t;
static unsigned g16(const unsigned char *p) { return p[0] | p[1] << 8; }
static unsigned g32(const unsigned char *p) { return g16(p) | (unsigned) g16(p + 2) << 16; }
#define PERR(...) do { snprintf(m->err, sizeof(m->err), __VA_ARGS__); return -1; } while (0)
#define NEED(k) do { if (o + (k) > n) { m->overrun = 1; PERR("message ends inside a block at offset %ld of %ld", o, n); } } while (0)
static int parse_std(const unsigned char *b, long n, pmsg_t *m, int has_alpha_flag)
{
    long o = 0, bl, end, i; memset(m, 0, sizeof(*m));
    NEED(6);
    if (g16(b) == 0xCCC0)
    {
        NEED(47);
        if (g32(b + 2) != 12 || g32(b + 6) != 0xCACCACCA || g16(b + 10) != 0x0100) PERR("bad sync block");
        b += 0; o = 12;
        if (g16(b + o) != 0xCCC3 || g32(b + o + 2) != 13 || b[o + 6] != 1 || b[o + 7] != 255 || b[o + 8] != 0 || g16(b + o + 9) != 64) PERR("bad context block");
        m->props_ctx = g16(b + o + 11); o += 13;
        if (g16(b + o) != 0xCCC1 || g32(b + o + 2) != 10 || b[o + 6] != 1 || b[o + 7] != 1 || g16(b + o + 8) != 0x100) PERR("bad codec versions block");
        o += 10;
        if (g16(b + o) != 0xCCC2 || g32(b + o + 2) != 12 || b[o + 6] != 1 || b[o + 7] != 0) PERR("bad channels block");
        m->chw = g16(b + o + 8); m->chh = g16(b + o + 10); o += 12; m->header = 1;
    }
    NEED(14);
    if (g16(b + o) != 0xCCC4 || g32(b + o + 2) != 14 || b[o + 6] != 1 || b[o + 7] != 0 || g16(b + o + 12) != 1) PERR("bad frame begin block");
    m->frame_idx = g32(b + o + 8); o += 14;
    NEED(15);
    bl = g32(b + o + 2); m->nregions = g16(b + o + 9);
    if (g16(b + o) != 0xCCC6 || b[o + 6] != 1 || b[o + 7] != 0 || b[o + 8] != 1) PERR("bad region block");
    if (bl != 15 + 8 * m->nregions) PERR("region length %ld for %d rectangles", bl, m->nregions);
    NEED(bl); m->rects = b + o + 11;
    if (g16(b + o + bl - 4) != 0xCAC1 || g16(b + o + bl - 2) != 1) PERR("bad region trailer");
    o += bl;
    NEED(22);
    m->plus = g16(b + o) == 0xDDD7;
    if (g16(b + o) != (has_alpha_flag ? 0xDDD7 : 0xCCC7) || b[o + 6] != 1 || b[o + 7] != 0 || g16(b + o + 8) != 0xCAC2 || g16(b + o + 10) != 0) PERR("bad tile set block");
    bl = g32(b + o + 2); m->props_ts = g16(b + o + 12); m->nquants = b[o + 14]; m->ntiles = g16(b + o + 16);
    if (b[o + 15] != 64) PERR("bad tile size");
    if (bl != 22 + 5 * m->nquants + (long) g32(b + o + 18)) PERR("tile set length %ld, %d quantisers, data size %u", bl, m->nquants, g32(b + o + 18));
    NEED(bl); end = o + bl; m->quants = b + o + 22; o += 22 + 5 * m->nquants;
    if (m->ntiles > MAXT) PERR("tile count %d", m->ntiles);
    for (i = 0; i < m->ntiles; i++)
    {
        ptile_t *t = &m->t[i]; int hl = m->plus ? 21 : 19, k; long p; 
        if (o + hl > end) PERR("tile %ld header runs past the tile set", i);
        if (g16(b + o) != 0xCAC3) PERR("tile %ld: bad block type %04x", i, g16(b + o));
        bl = g32(b + o + 2); t->q[0] = b[o + 6]; t->q[1] = b[o + 7]; t->q[2] = b[o + 8]; t->x = g16(b + o + 9); t->y = g16(b + o + 11);
        t->ncomp = m->plus ? 4 : 3; p = o + hl;
        for (k = 0; k < t->ncomp; k++) { t->off[k] = p; t->len[k] = g16(b + o + 13 + 2 * k); p += t->len[k]; }
        if (p - o != bl) PERR("tile %ld: block length %ld, header plus components %ld", i, bl, p - o);
        if (o + bl > end) PERR("tile %ld runs past the tile set", i);
        o += bl;
    }
    if (o != end) PERR("tile set has %ld bytes beyond its %d tiles", end - o, m->ntiles);
    NEED(8);
    if (g16(b + o) != 0xCCC5 || g32(b + o + 2) != 8 || b[o + 6] != 1 || b[o + 7] != 0) PERR("bad frame end block");
    o += 8;
    if (o != n) PERR("%ld bytes after the frame end", n - o);
    return 0;
}
static int parse_pro(const unsigned char *b, long n, pmsg_t *m)
{
    long o = 0, bl, end, i; memset(m, 0, sizeof(*m));
    NEED(6);
    if (g16(b) == 0xCCC0)
    {
        NEED(22);
        if (g32(b + 2) != 12 || g32(b + 6) != 0xCACCACCA || g16(b + 10) != 0x0100) PERR("bad sync block");
        o = 12;
        if (g16(b + o) != 0xCCC3 || g32(b + o + 2) != 10 || b[o + 6] != 0 || g16(b + o + 7) != 64 || b[o + 9] != 1) PERR("bad context block");
        o += 10; m->header = 1;
    }
    NEED(12);
    if (g16(b + o) != 0xCCC1 || g32(b + o + 2) != 12 || g16(b + o + 10) != 1) PERR("bad frame begin block");
    m->frame_idx = g32(b + o + 6); o += 12;
    NEED(18);
    if (g16(b + o) != 0xCCC4 || b[o + 6] != 64 || b[o + 10] != 0 || b[o + 11] != 1) PERR("bad region block");
    bl = g32(b + o + 2); m->nregions = g16(b + o + 7); m->nquants = b[o + 9]; m->ntiles = g16(b + o + 12);
    if (bl != 18 + 8 * m->nregions + 5 * m->nquants + (long) g32(b + o + 14)) PERR("region length %ld, data size %u", bl, g32(b + o + 14));
    NEED(bl); end = o + bl; m->rects = b + o + 18; m->quants = m->rects + 8 * m->nregions; o += 18 + 8 * m->nregions + 5 * m->nquants;
    if (m->ntiles > MAXT) PERR("tile count %d", m->ntiles);
    for (i = 0; i < m->ntiles; i++)
    {
        ptile_t *t = &m->t[i]; int k; long p;
        if (o + 22 > end) PERR("tile %ld header runs past the region", i);
        if (g16(b + o) != 0xCCC5) PERR("tile %ld: bad block type", i);
        bl = g32(b + o + 2); t->q[0] = b[o + 6]; t->q[1] = b[o + 7]; t->q[2] = b[o + 8]; t->x = g16(b + o + 9); t->y = g16(b + o + 11); t->flags = b[o + 13];
        t->ncomp = 3; p = o + 22;
        for (k = 0; k < 3; k++) { t->off[k] = p; t->len[k] = g16(b + o + 14 + 2 * k); p += t->len[k]; }
        if (g16(b + o + 20) != 0) PERR("tile %ld: tail length not zero", i);
        if (p - o != bl) PERR("tile %ld: block length %ld, header plus components %ld", i, bl, p - o);
        if (t->flags & ~1) PERR("tile %ld: flags %x", i, t->flags);
        if (o + bl > end) PERR("tile %ld runs past the region", i);
        o += bl;
    }
    if (o != end) PERR("region has %ld bytes beyond its %d tiles", end - o, m->ntiles);
    NEED(6);
    if (g16(b + o) != 0xCCC2 || g32(b + o + 2) != 6) PERR("bad frame end block");
    o += 6;
    if (o != n) PERR("%ld bytes after the frame end", n - o);
    return 0;
}
static void failp(const char *props, const char *fmt, ...)
{
    va_list ap; char tmp[2000];
    if (!strstr(props, g_prop)) return;
    va_start(ap, fmt); vsnprintf(tmp, sizeof(tmp), fmt, ap); va_end(ap);
    fail("%s", tmp);
}
static const unsigned char def_q[5] = { 0x66, 0x66, 0x77, 0x88, 0x98 };
static void expect_std(const unsigned char *plane, const unsigned char *q, int16_t *c)
{
    int e[4096], i; ref_transform(plane, e, 0); ref_quant(e, q, 0);
    for (i = 4095; i > 4032; i--) e[i] -= e[i - 1];
    for (i = 0; i < 4096; i++) c[i] = (int16_t) e[i];
}
static void case_msg(rng_t *r, uint64_t cs)
{
    cfg_t c; void *h = 0; int ncalls, call, i, k, hdr_owed = 1, next_idx = 0; unsigned char *img, *imgcopy; long imgsz; int stride;
    static int16_t (*refs)[64][3][4096]; static unsigned char refs_used[64][64];
    static unsigned char scratch[1 << 20]; int fullq = 0, wide = 0, long_run = 0;
    if (!refs) refs = calloc(64, sizeof(*refs));
    for (i = 0; i < 64 * 64; i++) if (refs_used[i >> 6][i & 63]) { memset(refs[i >> 6][i & 63], 0, sizeof(refs[0][0])); refs_used[i >> 6][i & 63] = 0; }
    memset(&c, 0, sizeof(c));
    c.pro = is_prop("C04") ? 1 : is_prop("C12") ? 0 : rng_n(r, 3) == 0;
    c.fmt = c.pro ? (rng_n(r, 4) ? 4 : rng_n(r, 5)) : rng_n(r, 5);
    c.rlgr = rng_n(r, 2);
    c.cflags = (c.rlgr ? 1 : 0) | (rng_n(r, 2) ? 64 : 0) | (c.pro ? 128 : 0) | (rng_n(r, 3) == 0 ? rng_n(r, 16) << 1 : 0);
    if (rng_n(r, 4) == 0) { cpu_over = 1; cpu_ecx1 = rng_n(r, 2) ? 0 : (1 << 19); cpu_edx1 = rng_n(r, 2) ? 0 : (1 << 26); cpu_ecx8 = 0; }
    c.tw = rng_range(r, 1, 3); c.th = rng_range(r, 1, 2);
    c.w = (c.tw - 1) * 64 + rng_range(r, 1, 64); c.h = (c.th - 1) * 64 + rng_range(r, 1, 64);
    if (c.pro || c.fmt == 4) { c.w = c.tw * 64; c.h = c.th * 64; stride = c.tw * 256; imgsz = (long) c.tw * c.th * 16384; }
    else { stride = c.w * bppf[c.fmt] + (rng_n(r, 2) ? rng_n(r, 40) : 0); imgsz = (long)(c.h - 1) * stride + c.w * bppf[c.fmt]; }
    if (rng_n(r, 5) == 0)
    {   /* tiles far from the origin; with a stride of 0 every row of tiles has the same pixels */
        wide = 1; c.tw = rng_range(r, 1, 64); c.th = c.pro ? 64 : 65535; stride = 0; c.w = c.tw * 64; c.h = rng_range(r, 1, 64);
        imgsz = (c.pro || c.fmt == 4) ? (long) c.tw * 16384 : (long) c.w * bppf[c.fmt];
    }
    img = xbuf(imgsz); imgcopy = malloc(imgsz); fill_pixels(r, img, imgsz);
    if (rfxcodec_encode_create_ex(c.w, c.h, c.fmt, c.cflags, &h) != 0 || !h) { fail("create failed"); return; }
    if (rng_n(r, 30) == 0 && is_prop("C03") == 0) fullq = 1;
    ncalls = rng_range(r, 1, (is_prop("C03") || is_prop("C04")) ? 7 : 4);
    if (is_prop("C03") && rng_n(r, 40) == 0) { long_run = 1; ncalls = rng_range(r, 60, 700); }
    if (is_prop("C03") && g_seed >= 7777000 && g_seed % 1000 < 4 && cs == 3) { long_run = 2; ncalls = 66000; }
    if (is_prop("C04") && rng_n(r, 20) == 0) ncalls = rng_range(r, 10, 40);
    for (call = 0; call < ncalls && !g_failed; call++)
    {
        static struct rfx_tile tcopy[MAXT]; static struct rfx_rect rcopy[MAXR]; static pmsg_t m; struct rfx_tile *tl; struct rfx_rect *rg; unsigned char *q = 0, qcopy[256 * 5]; int nt, nr, nq, flags = 0, bytes, ret, alpha = 0, key = 0, bad = 0, ample, oom = 0;
        long cap, amplecap; unsigned char *out;
        nt = rng_n(r, 8) ? rng_range(r, 1, 5) : 0; if (rng_n(r, 2) == 0 && nt > 2) nt = 2;
        nr = rng_n(r, 5); nq = rng_range(r, 1, 3);
        if (long_run) { nt = long_run == 1 && rng_n(r, 4) ? 0 : c.pro || rng_n(r, 8) == 0; }
        else switch (rng_n(r, 60))
        {
            case 0: nr = rng_range(r, 200, MAXR - 1); break;
            case 1: nq = rng_range(r, 4, 255); break;
            case 2: nt = rng_range(r, 200, is_prop("C04") || is_prop("C12") ? 210 : MAXT - 1); break;
        }
        if (rng_n(r, 4)) { if (fullq && nq < 15) nq = 15; q = xbuf(nq * 5); for (i = 0; i < nq; i++) rand_quant(r, q + i * 5); memcpy(qcopy, q, nq * 5); }
        else { nq = c.pro ? rng_n(r, 3) : rng_n(r, 3); }
        { int enq = q ? nq : 1;
        tl = (struct rfx_tile *) xbuf(nt * sizeof(*tl)); rg = (struct rfx_rect *) xbuf(nr * sizeof(*rg));
        for (i = 0; i < nt; i++)
        {
            int tx = rng_n(r, c.tw), ty = rng_n(r, c.th);
            if (wide && rng_n(r, 2)) ty = rng_n(r, 3);
            tl[i].x = tx * 64; tl[i].y = ty * 64;
            if (wide) { tl[i].cx = 64; tl[i].cy = rng_range(r, 1, 64); } else {
            tl[i].cx = c.w - tx * 64 > 64 ? 64 : c.w - tx * 64; tl[i].cy = c.h - ty * 64 > 64 ? 64 : c.h - ty * 64; }
            if (rng_n(r, 4) == 0) { tl[i].cx = rng_range(r, 1, tl[i].cx); tl[i].cy = rng_range(r, 1, tl[i].cy); }
            tl[i].quant_y = rng_n(r, enq); tl[i].quant_cb = rng_n(r, enq); tl[i].quant_cr = rng_n(r, enq);
        }
        for (i = 0; i < nr; i++) { rg[i].x = rng_n(r, 65536); rg[i].y = rng_n(r, 65536); rg[i].cx = rng_n(r, 65536); rg[i].cy = rng_n(r, 65536); }
        if (c.pro && nt > 0 && long_run < 2 && rng_n(r, 6) == 0)
        {
            int w = rng_n(r, nt); bad = 1;
            switch (rng_n(r, 7))
            {
                case 0: tl[w].quant_y = enq; break;
                case 1: tl[w].quant_cb = enq; break;
                case 2: tl[w].quant_cr = enq + rng_n(r, 5); break;
                case 3: tl[w].x = 64 * 64; break;
                case 4: tl[w].y = 64 * 64; break;
                case 5: tl[w].quant_y = -1; break;
                default: tl[w].y = -64; break;
            }
        }
        memcpy(tcopy, tl, nt * sizeof(*tl)); memcpy(rcopy, rg, nr * sizeof(*rg));
        if (!c.pro && rng_n(r, 3) == 0) alpha = 1;
        flags = alpha ? 1 : 0;
        if (c.pro && (long_run == 2 ? 0 : long_run ? rng_n(r, 300) == 0 : rng_n(r, 5) == 0)) { key = 1; flags |= 256; }
        if (!c.pro && rng_n(r, 9) == 0) flags |= 256; /* meaningless in standard mode */
        /* image changes */
        switch (long_run ? 0 : rng_n(r, 4)) { case 0: break; case 1: fill_pixels(r, img, imgsz); break; default: { int z = rng_range(r, 1, 300); while (z--) img[rng_n(r, (int) imgsz)] = rng_next(r); } }
        memcpy(imgcopy, img, imgsz);
        amplecap = 47 + 14 + 15 + 8 * nr + 22 + 5 * enq + nt * (21 + (c.pro ? 3 * 65536L : 3 * 24595L) + 4098) + 24595 * 2 + 100;
        ample = 0;
        switch (long_run == 2 ? 6 : rng_n(r, 7))
        {
            case 0: cap = rng_n(r, 260); break;
            case 1: cap = rng_range(r, 24595, 24595 + 300 + 6000); break;
            case 2: cap = rng_n(r, rng_n(r, 3) ? 120000 : (int) amplecap); break;
            case 3: cap = c.pro ? rng_n(r, 6000) : 24595 + 21 + rng_n(r, 200); break;
            default: cap = amplecap; ample = 1; break;
        }
        if (c.pro && is_prop("C04") && rng_n(r, 8) == 0) { vf_fail_at = rng_n(r, 3); vf_count = 0; oom = 1; }
        out = xbuf(cap); bytes = (int) cap;
        ret = rfxcodec_encode_ex(h, (char *) out, &bytes, (const char *) img, c.w, c.h, stride, rg, nr, tl, nt, (const char *) q, nq, flags);
        vf_fail_at = -1;
        if (key) { hdr_owed = 1; next_idx = 0; for (i = 0; i < 4096; i++) if (refs_used[i >> 6][i & 63]) { memset(refs[i >> 6][i & 63], 0, sizeof(refs[0][0])); refs_used[i >> 6][i & 63] = 0; } }
        if (memcmp(img, imgcopy, imgsz) || memcmp(tcopy, tl, nt * sizeof(*tl)) || memcmp(rcopy, rg, nr * sizeof(*rg)) || (q && memcmp(q, qcopy, nq * 5))) failp("C12", "call %d modified a caller-supplied input", call);
        nontrivial += ret > 0;
        if (ret >= 0)
        {
            if (bytes < 0 || bytes > cap) { failp("C01 C02", "call %d reports %d bytes for a capacity of %ld", call, bytes, cap); goto done; }
            if ((c.pro ? parse_pro(out, bytes, &m) : parse_std(out, bytes, &m, alpha)) != 0)
            {
                failp(m.overrun ? "C01 C02 C03 C04 C12" : "C02 C03 C04 C12", "call %d (capacity %ld, %d tiles): %s", call, cap, nt, m.err); goto done;
            }
            if (bad) failp("C04", "call %d: out-of-range tile descriptor accepted", call);
            if (m.ntiles != ret) failp("C02", "call %d: returned %d, message holds %d tiles", call, ret, m.ntiles);
            if (m.ntiles > nt) { failp("C02 C12 C04", "call %d: %d tiles emitted, %d requested", call, m.ntiles, nt); goto done; }
            if (ample && m.ntiles != nt && !oom) failp("C01", "call %d: only %d of %d tiles emitted although the capacity covers the worst case", call, m.ntiles, nt);
            if (m.nregions != nr) failp("C02", "call %d: %d rectangles, %d given", call, m.nregions, nr);
            else for (i = 0; i < nr * 4; i++) if ((int) g16(m.rects + 2 * i) != (i % 4 == 0 ? rg[i / 4].x : i % 4 == 1 ? rg[i / 4].y : i % 4 == 2 ? rg[i / 4].cx : rg[i / 4].cy)) { failp("C02", "call %d: rectangle %d differs", call, i / 4); break; }
            if (m.nquants != enq) failp("C02 C12", "call %d: %d quantiser sets, expected %d", call, m.nquants, enq);
            else if (memcmp(m.quants, q ? q : def_q, enq * 5)) failp("C02 C12", "call %d: quantiser table differs from the one in force", call);
            if (m.header != hdr_owed) failp("C03", "call %d: stream header %s", call, m.header ? "repeated" : "missing");
            if (m.frame_idx != next_idx) failp("C03", "call %d: frame number %d, expected %d", call, m.frame_idx, next_idx);
            if (m.header && !c.pro && (m.chw != c.w || m.chh != c.h)) failp("C02", "channel size %dx%d", m.chw, m.chh);
            hdr_owed = 0; next_idx++;
            for (i = 0; i < m.ntiles && !g_failed; i++)
            {
                ptile_t *t = &m.t[i];
                if (t->x != tl[i].x / 64 || t->y != tl[i].y / 64 || t->q[0] != tl[i].quant_y || t->q[1] != tl[i].quant_cb || t->q[2] != tl[i].quant_cr)
                    failp("C02 C12", "call %d: tile %d is (%d,%d) quant %d/%d/%d, requested (%d,%d) %d/%d/%d", call, i, t->x, t->y, t->q[0], t->q[1], t->q[2], tl[i].x / 64, tl[i].y / 64, tl[i].quant_y, tl[i].quant_cb, tl[i].quant_cr);
                if (c.pro && (is_prop("C04")))
                {
                    const unsigned char *src = img + (long) tl[i].y * stride + (long) tl[i].x * 256; int16_t d[4096], *rb; int e[4096], j;
                    for (k = 0; k < 3 && !g_failed; k++)
                    {
                        memcpy(scratch, out + t->off[k], t->len[k]);
                        ref_rlgr_decode(1, scratch, t->len[k], d);
                        for (j = 4096 - 80; j < 4096; j++) d[j] = (int16_t)(d[j] + d[j - 1]);
                        rb = refs[t->x][t->y][k];
                        if (t->flags & 1) for (j = 0; j < 4096; j++) d[j] = (int16_t)(d[j] + rb[j]);
                        ref_transform(src + k * 4096, e, 1); ref_quant(e, (q ? q : def_q) + 5 * (k == 0 ? tl[i].quant_y : k == 1 ? tl[i].quant_cb : tl[i].quant_cr), 1);
                        for (j = 0; j < 4096; j++) if (d[j] != (int16_t) e[j]) { failp("C04", "call %d, tile %d (%d,%d) %s, component %d, coefficient %d: decoder reconstructs %d, tile has %d", call, i, t->x, t->y, (t->flags & 1) ? "difference" : "original", k, j, d[j], e[j]); break; }
                        memcpy(rb, d, 8192); refs_used[t->x][t->y] = 1;
                    }
                }
                else if (is_prop("C12"))
                {
                    unsigned char pl[4][4096]; int16_t e[4096]; long need;
                    if (c.fmt == 4) { for (k = 0; k < (alpha ? 4 : 3); k++) memcpy(pl[k], img + (long) tl[i].y * stride + (long) tl[i].x * 256 + k * 4096, 4096); }
                    else { ref_planes(img + (long) tl[i].y * stride + tl[i].x * bppf[c.fmt], stride, c.fmt, tl[i].cx, tl[i].cy, pl); if (c.fmt > 1) memset(pl[3], 0, 4096); }
                    for (k = 0; k < 3 && !g_failed; k++)
                    {
                        expect_std(pl[k], (q ? q : def_q) + 5 * (k == 0 ? tl[i].quant_y : k == 1 ? tl[i].quant_cb : tl[i].quant_cr), e);
                        need = ref_rlgr_encode(c.rlgr ? 1 : 3, e, scratch, sizeof(scratch));
                        if (need != t->len[k] || memcmp(scratch, out + t->off[k], need)) failp("C12", "call %d, tile %d component %d is not the coded transform of the tile's samples (length %ld, expected %ld; format %d, tile %dx%d)", call, i, k, t->len[k], need, c.fmt, tl[i].cx, tl[i].cy);
                    }
                    if (alpha && !g_failed)
                    {
                        unsigned char back[4096];
                        memcpy(scratch, out + t->off[3], t->len[3]);
                        if (ref_alpha_decode(scratch, t->len[3], back) != t->len[3] || memcmp(back, pl[3], 4096)) failp("C12", "call %d, tile %d: alpha component does not decode to the tile's alpha plane", call, i);
                    }
                }
            }
        }
        else if (ample && !bad && nt > 0 && !oom) failp("C01", "call %d failed although the capacity covers the worst case", call);
        }
done:
        free(out); free(tl); free(rg); free(q);
    }
    rfxcodec_encode_destroy(h); free(img); free(imgcopy);
}
static void case_announce(rng_t *r, uint64_t cs)
{
    int fmt = rng_range(r, -1, 6), flags, e, i, k, rl; void *h = (void *) 0x1234; struct rfxencode *enc;
    flags = rng_n(r, 2) ? rng_n(r, 256) : (int) (rng_next(r) & 0x7fffffff); flags &= ~128;
    cpu_over = 1; cpu_ecx1 = (rng_n(r, 2) << 19) | (rng_n(r, 2)) | (rng_n(r, 2) << 20) | (rng_n(r, 2) << 23); cpu_edx1 = rng_n(r, 2) << 26; cpu_ecx8 = rng_n(r, 2) << 5;
    if (rng_n(r, 10) == 0) { int a, b, c, d, a2, b2, c2, d2; int leaf = rng_n(r, 2) ? 1 : 0x80000001; real_cpuid(leaf, 0, &a, &b, &c, &d); real_cpuid_asm(leaf, 0, &a2, &b2, &c2, &d2); if ((c != c2 && leaf != 1) || d != d2 || a != a2 || ((c ^ c2) & ~(1 << 27))) fail("cpuid reports %x/%x, CPU says %x/%x", c2, d2, c, d); }
    e = rfxcodec_encode_create_ex(100, 70, fmt, flags, &h);
    if (fmt < 0 || fmt > 4) { if (e == 0) fail("create accepted pixel format %d", fmt); return; }
    if (e != 0) { fail("create refused pixel format %d, flags %x", fmt, flags); return; }
    enc = h; rl = (flags & 1) ? 1 : 3; nontrivial++;
    if (enc->bits_per_pixel != (fmt == 2 || fmt == 3 ? 24 : 32)) fail("pixel size %d for format %d", enc->bits_per_pixel, fmt);
    {
        unsigned char *img = xbuf(2 * 2 * 16384), *out = xbuf(400000); struct rfx_tile t; struct rfx_rect rg = { 0, 0, 64, 64 }; unsigned char q[5]; pmsg_t m; int bytes, ret, call; static unsigned char scratch[1 << 20];
        memset(&t, 0, sizeof(t)); t.cx = t.cy = 64;
        for (call = 0; call < 2 && !g_failed; call++)
        {
            int alpha = rng_n(r, 2);
            fill_pixels(r, img, 2 * 2 * 16384); rand_quant(r, q); bytes = 400000;
            ret = rfxcodec_encode_ex(h, (char *) out, &bytes, (const char *) img, 100, 70, 512, &rg, 1, &t, 1, (const char *) q, 1, alpha);
            if (ret != 1 || parse_std(out, bytes, &m, alpha) != 0) { fail("encode returned %d %s", ret, ret == 1 ? m.err : ""); break; }
            k = rl == 1 ? 1 : 4;
            if (m.header != (call == 0)) fail("stream header missing");
            if (call == 0 && m.props_ctx != ((1u << 3) | (1u << 5) | (unsigned)(k << 9) | (1u << 13))) fail("context announces %04x with %s in use (flags %x)", m.props_ctx, rl == 1 ? "RLGR1" : "RLGR3", flags);
            if (m.props_ts != (1u | (1u << 4) | (1u << 6) | (unsigned)(k << 10) | (1u << 14))) fail("tile set announces %04x with %s requested (flags %x)", m.props_ts, rl == 1 ? "RLGR1" : "RLGR3", flags);
            {
                unsigned char pl[4][4096]; int16_t ex[4096]; long need;
                if (fmt == 4) for (i = 0; i < 3; i++) memcpy(pl[i], img + i * 4096, 4096); else ref_planes(img, 512, fmt, 64, 64, pl);
                for (i = 0; i < 3; i++) { expect_std(pl[i], q, ex); need = ref_rlgr_encode(rl, ex, scratch, sizeof(scratch)); if (need != m.t[0].len[i] || memcmp(scratch, out + m.t[0].off[i], need)) fail("component %d is not coded with the announced coder RLGR%d (flags %x, cpu ecx %x edx %x)", i, rl, flags, cpu_ecx1, cpu_edx1); }
            }
        }
        free(img); free(out);
    }
    rfxcodec_encode_destroy(h);
}
static void case_life(rng_t *r)
{
    long base = vf_live; void *h = (void *) 0x55; int fmt = rng_n(r, 6) ? 4 : rng_range(r, -2, 9), flags = rng_n(r, 4) ? 128 : rng_n(r, 256), e, call, n; int failcreate = rng_n(r, 10) == 0; struct rfxencode *enc;
    if (failcreate) { vf_fail_at = 0; vf_count = 0; }
    e = rfxcodec_encode_create_ex(4096, 4096, fmt, flags, &h); vf_fail_at = -1;
    if (failcreate || fmt < 0 || fmt > 4)
    {
        if (e == 0) fail("create succeeded (format %d, allocation failure %d)", fmt, failcreate);
        if (h != (void *) 0x55 && h != 0) fail("failed create left a handle");
        if (vf_live != base) fail("failed create leaks %ld blocks", vf_live - base);
        if (failcreate) { vf_fail_at = 0; vf_count = 0; }
        if (rfxcodec_encode_create(64, 64, fmt, flags) != 0) fail("create returned a handle");
        vf_fail_at = -1;
        rfxcodec_encode_destroy(0);
        return;
    }
    if (e != 0) { fail("create failed for format %d", fmt); return; }
    enc = h; if (enc->frame_idx != 0 || enc->header_processed != 0) fail("fresh encoder state not zero");
    nontrivial++;
    n = (flags & 128) ? rng_range(r, 0, 6) : rng_range(r, 0, 2);
    for (call = 0; call < n && !g_failed; call++)
    {
        struct rfx_tile t[3]; struct rfx_rect rg = { 0, 0, 64, 64 }; unsigned char *img = xbuf(16384), *out = xbuf(300000); int i, nt = rng_range(r, 1, 3), bytes = rng_n(r, 3) ? 300000 : rng_n(r, 4000), ret, j, cnt = 0, f = (rng_n(r, 3) == 0) ? 256 : 0, inj = rng_n(r, 3) == 0;
        memset(t, 0, sizeof(t));
        for (i = 0; i < nt; i++) { t[i].cx = t[i].cy = 64; t[i].x = 64 * rng_n(r, 64); t[i].y = 64 * rng_n(r, 64); if (rng_n(r, 20) == 0) t[i].x = 4096; if (!(flags & 128)) { t[i].x = 0; t[i].y = 0; } }
        fill_pixels(r, img, 16384);
        if (inj) { vf_fail_at = rng_n(r, 3); vf_count = 0; }
        /* every tile reads the same 16384 bytes: offset each tile's base back to the image */
        for (i = 0; i < nt; i++) { }
        ret = 0;
        if (flags & 128) for (i = 0; i < nt; i++) { bytes = 300000; ret = rfxcodec_encode_ex(h, (char *) out, &bytes, (const char *) img - ((long) t[i].x * 256), 4096, 4096, 0, &rg, 1, t + i, 1, 0, 0, i == 0 ? f : 0); }
        else ret = rfxcodec_encode_ex(h, (char *) out, &bytes, (const char *) img, 64, 64, 256, &rg, 1, t, nt, 0, 0, 0);
        vf_fail_at = -1; (void) ret;
        for (i = 0; i < 64; i++) for (j = 0; j < 64; j++) if (enc->rbs[i][j]) cnt++;
        if (vf_live != base + 1 + cnt) fail("%ld live blocks, encoder owns %d references", vf_live - base, cnt);
        free(img); free(out);
    }
    rfxcodec_encode_destroy(h);
    if (vf_live != base) fail("%ld blocks leaked by destroy", vf_live - base);
}
static void case_worst(rng_t *r)
{
    static unsigned char scratch[1 << 20]; int mode = rng_n(r, 2) ? 1 : 3, fl = (mode == 1 ? 1 : 0) | (rng_n(r, 2) ? 64 : 0), i, pro = rng_n(r, 4) == 0, call; void *h = 0; unsigned char *img = xbuf(16384), q[5]; struct rfx_tile t; struct rfx_rect rg = { 0, 0, 64, 64 }; long need; int16_t ex[4096];
    if (pro) fl |= 128;
    memset(&t, 0, sizeof(t)); t.cx = t.cy = 64;
    if (rfxcodec_encode_create_ex(64, 64, 4, fl, &h) != 0) { fail("create failed"); return; }
    for (call = 0; call < 3 && !g_failed; call++)
    {
        pmsg_t m; int alpha = !pro && rng_n(r, 2), ret, bytes; unsigned char *out; long cap = rng_n(r, 2) ? 24595 * (pro ? 8 : rng_range(r, 1, 4)) + rng_n(r, 300) : 100 + rng_n(r, 80000);
        memset(q, 0x66, 5); if (rng_n(r, 4) == 0) rand_quant(r, q);
        for (i = 0; i < 4; i++) rand_tile(r, img + i * 4096);
        out = xbuf(cap); bytes = (int) cap;
        ret = rfxcodec_encode_ex(h, (char *) out, &bytes, (const char *) img, 64, 64, 256, &rg, 1, &t, 1, (const char *) q, 1, alpha);
        if (ret > 0)
        {
            nontrivial++;
            if ((pro ? parse_pro(out, bytes, &m) : parse_std(out, bytes, &m, alpha)) != 0) { fail("capacity %ld: %s", cap, m.err); free(out); break; }
            if (!pro) for (i = 0; i < 3; i++)
            {
                expect_std(img + i * 4096, q, ex); need = ref_rlgr_encode(mode, ex, scratch, sizeof(scratch));
                if (m.t[0].len[i] != need) fail("component %d announced with %ld bytes, its code has %ld (capacity %ld)", i, m.t[0].len[i], need, cap);
            }
        }
        free(out);
    }
    rfxcodec_encode_destroy(h); free(img);
}
