/* Replay / cross-check driver: runs the REAL code of /repo on concrete inputs
 * and compares with the reference semantics in ref.h.
 *   conf run PROP SEED MS MINCASES REPLAYFILE     (exit 0 ok, 1 violation)
 *   conf one PROP SEED CASE [REPLAYFILE]          (replay one case)
 * Every case is a pure function of (PROP, SEED, CASE). */
#include "ref.h"
#include <stdarg.h>
#include <time.h>
#include <unistd.h>
#include <fcntl.h>
#include "rfxcodec_encode.h"
#include "rfxcommon.h"
#include "rfxconstants.h"
#include "rfxencode.h"
#include "rfxencode_tile.h"
#include "rfxencode_alpha.h"
#include "rfxencode_quantization.h"
#include "rfxencode_dwt_rem.h"
#include "rfxencode_dwt_shift_rem.h"
#include "rfxencode_rgb_to_yuv.h"
#include "rfxencode_diff_rlgr1.h"
#include "amd64/funcs_amd64.h"

/* ---------- failure reporting ---------- */
static char g_msg[4096]; static int g_failed; static const char *g_prop;
static int nontrivial; static uint64_t g_seed;
static void fail(const char *fmt, ...)
{
    va_list ap;
    if (g_failed) return;
    g_failed = 1; va_start(ap, fmt); vsnprintf(g_msg, sizeof(g_msg), fmt, ap); va_end(ap);
}
static int is_prop(const char *p) { return strcmp(g_prop, p) == 0; }

/* ---------- allocator and cpuid stand-ins ---------- */
static long vf_fail_at = -1, vf_count; static long vf_live;
#define MAXLIVE 65536
static void *livep[MAXLIVE];
static void *reg(void *p)
{
    int i; if (!p) return p; vf_live++;
    for (i = 0; i < MAXLIVE; i++) if (!livep[i]) { livep[i] = p; break; }
    return p;
}
void *vf_calloc(size_t n, size_t s) { if (vf_fail_at >= 0 && vf_count++ == vf_fail_at) return 0; return reg(calloc(n, s)); }
void *vf_malloc(size_t n) { if (vf_fail_at >= 0 && vf_count++ == vf_fail_at) return 0; return reg(malloc(n)); }
void vf_free(void *p)
{
    int i; if (!p) return;
    for (i = 0; i < MAXLIVE; i++) if (livep[i] == p) { livep[i] = 0; vf_live--; free(p); return; }
    fail("free of a block that is not live"); 
}
static int cpu_over = 0, cpu_ecx1, cpu_edx1, cpu_ecx8;
static void real_cpuid(int leaf, int sub, int *a, int *b, int *c, int *d)
{ __asm__ volatile("cpuid" : "=a"(*a), "=b"(*b), "=c"(*c), "=d"(*d) : "a"(leaf), "c"(sub)); }
int real_cpuid_asm(int, int, int *, int *, int *, int *);
int vf_cpuid_amd64(int leaf, int sub, int *a, int *b, int *c, int *d)
{
    int r = real_cpuid_asm(leaf, sub, a, b, c, d);
    if (cpu_over) { if (leaf == 1) { *c = cpu_ecx1; *d = cpu_edx1; } else { *c = cpu_ecx8; } }
    return r;
}

static unsigned char *xbuf(size_t n) { unsigned char *p = malloc(n ? n : 1); if (n) memset(p, 0xA5, n); return p; }

/* exact-size, guarded buffers: ASan redzones do the guarding */
static void rand_quant(rng_t *r, unsigned char *q)
{
    int i, m = rng_n(r, 3);
    for (i = 0; i < 5; i++)
    {
        int lo = m == 0 ? 6 : rng_range(r, 6, 15), hi = m == 0 ? 6 : rng_range(r, 6, 15);
        if (m == 1 && rng_n(r, 2)) { lo = rng_n(r, 2) ? 6 : 15; hi = rng_n(r, 2) ? 6 : 15; }
        q[i] = lo | (hi << 4);
    }
}
static void rand_tile(rng_t *r, unsigned char *t)
{
    int i, m = rng_n(r, 12), a = rng_n(r, 256), b = rng_n(r, 256);
    for (i = 0; i < 4096; i++)
    {
        int x = i & 63, y = i >> 6;
        switch (m)
        {
            case 0: case 1: t[i] = rng_next(r); break;
            case 2: t[i] = rng_n(r, 2) ? 255 : 0; break;
            case 3: t[i] = a; break;
            case 4: t[i] = ((x ^ y) & 1) ? 255 : 0; break;
            case 5: t[i] = (x * 4 + y) & 255; break;
            case 6: t[i] = ((x / (1 + a % 8)) ^ (y / (1 + b % 8))) & 1 ? a : b; break;
            case 7: t[i] = 0; break;
            case 8: t[i] = 255; break;
            case 9: t[i] = rng_n(r, 20) ? a : rng_n(r, 256); break;
            case 10: t[i] = (x >= 62 || y >= 62) ? rng_n(r, 2) * 255 : 128; break;
            default: t[i] = (x == a % 64 || y == b % 64) ? 255 : 0; break;
        }
    }
    if (m == 7 || m == 8) { int k = rng_n(r, 8); while (k--) t[rng_n(r, 4096)] ^= 0xff; }
}
static void rand_coefs(rng_t *r, int16_t *c)
{
    int i = 0, m = rng_n(r, 16), a = rng_range(r, 1, 40), mag = 1 << rng_n(r, 16);
    while (i < 4096)
    {
        int v;
        switch (m)
        {
            case 0: c[i++] = (int16_t) rng_next(r); break;
            case 1: c[i++] = rng_n(r, a) ? 0 : (int16_t)(rng_n(r, 2 * mag + 1) - mag); break;
            case 2: c[i++] = rng_range(r, -2, 2); break;
            case 3: c[i++] = 0; break;
            case 4: c[i++] = rng_n(r, 2) ? 32767 : -32768; break;
            case 5: { int k = rng_n(r, 48); while (k-- && i < 4096) c[i++] = 0; if (i < 4096) c[i++] = (int16_t)(rng_n(r, 2) ? mag : -mag); } break;
            case 6: { int k = 1 << rng_n(r, 12); k += rng_range(r, -1, 1); while (k-- > 0 && i < 4096) c[i++] = 0; if (i < 4096) c[i++] = rng_range(r, -3, 3); } break;
            case 7: v = rng_n(r, 8); c[i++] = v == 0 ? -32768 : v == 1 ? 32767 : v < 5 ? 0 : rng_range(r, -300, 300); break;
            case 8: c[i] = (int16_t)((i & 1) ? 0 : rng_range(r, -mag, mag)); i++; break;
            case 9: { int k = rng_range(r, 1, 60), j; for (j = 0; j < k && i < 4096; j++) c[i++] = rng_range(r, 1, 9) * (rng_n(r, 2) ? 1 : -1); for (j = 0; j < 30 && i < 4096; j++) c[i++] = 0; } break;
            case 10: c[i++] = rng_range(r, -mag, mag); break;
            case 11: c[i] = (int16_t)(i < 4096 - a ? 0 : rng_range(r, -mag, mag)); i++; break;
            case 12: c[i] = (int16_t)(i < 4096 - a ? rng_range(r, -mag, mag) : 0); i++; break;
            case 13: v = rng_n(r, 4); c[i++] = v ? (int16_t)(v - 2) : (int16_t)(rng_n(r, 3) ? 0 : rng_range(r, -mag, mag)); break;
            case 14: { int k = 38 + rng_n(r, 6); while (k-- && i < 4096) c[i++] = rng_n(r, 30) ? 0 : 1; if (i < 4096) c[i++] = rng_range(r, -2048, 2048); } break;
            default: c[i++] = (int16_t)(rng_next(r) >> (48 + rng_n(r, 15))); break;
        }
    }
    if (rng_n(r, 2)) { int k = rng_range(r, 1, 70); for (i = 0; i < k; i++) c[4095 - i] = (int16_t) rng_range(r, -mag, mag); }
}

/* ---------- C05 / C06 ---------- */
static void case_rlgr(rng_t *r, int mode)
{
    struct rfxcodec_encode_internals in; int16_t *c, d[4096], back[4096]; static unsigned char refb[1 << 20], got[1 << 20];
    unsigned char *buf; long need, cap; int v, i, n, db = 0;
    rfxcodec_encode_get_internals(&in);
    c = (int16_t *) xbuf(8192); rand_coefs(r, c);
    v = rng_n(r, 2);
    memcpy(d, c, 8192);
    if (v)
    {
        db = rng_n(r, 2) ? 64 : 81;
        for (i = 4095; i > 4096 - db; i--) d[i] = (int16_t)(d[i] - d[i - 1]);
    }
    need = ref_rlgr_encode(mode, d, refb, sizeof(refb));
    switch (rng_n(r, 4))
    {
        case 0: cap = need; break;
        case 1: cap = need + rng_n(r, 100); break;
        case 2: cap = need + rng_range(r, -3, 3); break;
        default: cap = rng_n(r, 3) ? need + 1000 : rng_n(r, (int) need + 1); break;
    }
    if (cap < 0) cap = 0;
    buf = xbuf(cap);
    if (v) n = (mode == 1 ? in.rfxencode_diff_rlgr1 : in.rfxencode_diff_rlgr3)(c, buf, (int) cap, db);
    else n = (mode == 1 ? in.rfxencode_rlgr1 : in.rfxencode_rlgr3)(c, buf, (int) cap);
    nontrivial += need > 40;
    if (!v && memcmp(c, d, 8192) != 0) fail("input coefficients modified");
    if (cap >= need)
    {
        if (n != need) fail("size %d, code length is %ld bytes (variant %s, span %d, capacity %ld)", n, need, v ? "differencing" : "plain", db, cap);
        else
        {
            memcpy(got, buf, n); ref_rlgr_decode(mode, got, n, back);
            for (i = 0; i < 4096; i++) if (back[i] != d[i]) { fail("coefficient %d: encoded %d decodes to %d (variant %s, span %d)", i, d[i], back[i], v ? "differencing" : "plain", db); break; }
            if (!g_failed && memcmp(buf, refb, n) != 0) fail("bytes differ from the standard code (variant %s)", v ? "differencing" : "plain");
        }
    }
    else if (v) { if (n != -1) fail("code needs %ld bytes, buffer has %ld, but the encoder returned %d instead of an error", need, cap, n); }
    else
    {
        if (n < 0 || n > cap) fail("size %d reported for a buffer of %ld bytes", n, cap);
        else if (memcmp(buf, refb, cap) != 0) fail("truncated output is not a prefix of the code");
    }
    free(buf); free(c);
}

/* ---------- C07, C08, C09 ---------- */
static short *al16(void **base) { unsigned char *p = malloc(8192 + 32); memset(p, 0x5A, 8192 + 32); *base = p; return (short *)((((size_t) p) + 15) & ~(size_t)15); }
static unsigned char *guarded16(void **base)
{   /* 8192 bytes, 16-aligned, ends exactly at the end of the allocation */
    unsigned char *p = malloc(8192); *base = p; memset(p, 0x5A, 8192); return p;
}
static void case_std(rng_t *r)
{
    struct rfxcodec_encode_internals in; unsigned char *t = xbuf(4096), q[5], *qq = xbuf(5); int exp[4096], i; void *b1, *b2; short *o, *w;
    static const char *bn[] = { "HL1", "LH1", "HH1", "HL2", "LH2", "HH2", "HL3", "LH3", "HH3", "LL3" };
    rfxcodec_encode_get_internals(&in);
    rand_tile(r, t); rand_quant(r, q); memcpy(qq, q, 5);
    o = (short *) guarded16(&b1); w = (short *) guarded16(&b2);
    ref_over = 0; ref_transform(t, exp, 0);
    if (ref_over) fail("reference overflow (impossible)");
    nontrivial++;
    if (is_prop("C08"))
    {
        if (in.rfxencode_dwt_2d(t, o, w) != 0) fail("transform returned an error");
        for (i = 0; i < 4096; i++) if (o[i] != exp[i]) { fail("transform coefficient %d: got %d, exact value %d", i, o[i], exp[i]); break; }
        for (i = 0; i < 4096; i++) o[i] = (short) exp[i];
        if (in.rfxencode_quantization(o, (const char *) qq) != 0) fail("quantisation returned an error");
        ref_quant(exp, q, 0);
        for (i = 0; i < 4096; i++) if (o[i] != exp[i]) { int b = 0, oo = 0; while (i >= oo + ref_std_sz[b]) oo += ref_std_sz[b++]; fail("quantised coefficient %d (%s): got %d, expected %d", i, bn[b], o[i], exp[i]); break; }
        if (rng_n(r, 2)) for (i = 4032; i < 4096; i++) { exp[i] = (int16_t) rng_next(r); o[i] = exp[i]; }
        in.rfxencode_differential(o + 4032, 64);
        for (i = 4095; i > 4032; i--) exp[i] = (int16_t)(exp[i] - exp[i - 1]);
        for (i = 0; i < 4096; i++) if (o[i] != exp[i]) { fail("differenced coefficient %d: got %d, expected %d", i, o[i], exp[i]); break; }
    }
    else
    {
        int which = rng_n(r, 2); unsigned char t0[4096]; memcpy(t0, t, 4096);
        ref_quant(exp, q, 0);
        if (which == 0) in.rfxencode_dwt_shift_amd64_sse2((const char *) qq, t, o, w);
        else in.rfxencode_dwt_shift_amd64_sse41((const char *) qq, t, o, w);
        for (i = 0; i < 4096; i++) if (o[i] != exp[i]) { int b = 0, oo = 0; while (i >= oo + ref_std_sz[b]) oo += ref_std_sz[b++]; fail("%s coefficient %d (%s): got %d, portable value %d (quant %02x %02x %02x %02x %02x)", which ? "SSE4.1" : "SSE2", i, bn[b], o[i], exp[i], q[0], q[1], q[2], q[3], q[4]); break; }
        if (memcmp(t, t0, 4096) || memcmp(q, qq, 5)) fail("input modified");
    }
    free(b1); free(b2); free(t); free(qq);
}
static void case_rem(rng_t *r)
{
    unsigned char *t = xbuf(4096), *qq = xbuf(5); int exp[4096], raw[4096], i; void *b1, *b2; short *o, *w;
    rand_tile(r, t); rand_quant(r, qq);
    o = (short *) guarded16(&b1); w = (short *) guarded16(&b2);
    ref_over = 0; ref_transform(t, raw, 1); memcpy(exp, raw, sizeof(raw)); ref_quant(exp, qq, 1);
    if (ref_over == 2) { free(b1); free(b2); free(t); free(qq); return; } /* known finding: the corner sample itself does not fit */
    nontrivial++;
    if (rfx_rem_dwt_shift_encode(t, o, w, (const char *) qq) != 0) fail("one-pass transform returned an error");
    for (i = 0; i < 4096; i++) if (o[i] != (int16_t) exp[i]) { fail("one-pass coefficient %d: got %d, expected %d", i, o[i], exp[i]); break; }
    memset(o, 0x33, 8192); memset(w, 0x77, 8192);
    if (rfx_rem_dwt_encode(t, o, w) != 0) fail("two-pass transform returned an error");
    for (i = 0; i < 4096; i++) if (o[i] != (int16_t) raw[i]) { fail("two-pass transform coefficient %d: got %d, expected %d", i, o[i], raw[i]); break; }
    for (i = 0; i < 4096; i++) o[i] = (short) raw[i];
    if (rfx_rem_quantization_encode(o, (const char *) qq) != 0) fail("quantisation returned an error");
    for (i = 0; i < 4096; i++) if (o[i] != (int16_t) exp[i]) { fail("two-pass quantised coefficient %d: got %d, expected %d", i, o[i], exp[i]); break; }
    free(b1); free(b2); free(t); free(qq);
}
/* ---------- C10 ---------- */
static void *mkenc(int fmt, int flags)
{
    void *h = 0; int e = rfxcodec_encode_create_ex(64, 64, fmt, flags, &h);
    return e == 0 ? h : 0;
}
static const int bppf[] = { 4, 4, 3, 3 };
static void fetch(const unsigned char *p, int fmt, int *rr, int *g, int *b, int *a)
{
    *a = 0;
    switch (fmt)
    {
        case 0: *b = p[0]; *g = p[1]; *rr = p[2]; *a = p[3]; break;
        case 1: *rr = p[0]; *g = p[1]; *b = p[2]; *a = p[3]; break;
        case 2: *b = p[0]; *g = p[1]; *rr = p[2]; break;
        default: *rr = p[0]; *g = p[1]; *b = p[2]; break;
    }
}
static void ref_planes(const unsigned char *src, int stride, int fmt, int w, int h, unsigned char pl[4][4096])
{
    int x, y, rr, g, b, a;
    for (y = 0; y < 64; y++) for (x = 0; x < 64; x++)
    {
        int sx = x < w ? x : w - 1, sy = y < h ? y : h - 1;
        fetch(src + (long) sy * stride + sx * bppf[fmt], fmt, &rr, &g, &b, &a);
        ref_ict(rr, g, b, &pl[0][y * 64 + x], &pl[1][y * 64 + x], &pl[2][y * 64 + x]);
        pl[3][y * 64 + x] = a;
    }
}
static void fill_pixels(rng_t *r, unsigned char *p, long n)
{
    long i; int m = rng_n(r, 8), a = rng_n(r, 256), k = 1 + rng_n(r, 40);
    for (i = 0; i < n; i++) switch (m)
    {
        case 0: case 1: case 2: p[i] = rng_next(r); break;
        case 3: p[i] = rng_n(r, 2) * 255; break;
        case 4: p[i] = a; break;
        case 5: p[i] = rng_n(r, 50) ? p[i ? i - 1 : 0] : rng_next(r); break;
        case 6: p[i] = ((i / k) & 1) ? 255 : a; break;
        default: p[i] = (i * k) >> 3; break;
    }
}
static void case_rgb(rng_t *r)
{
    int fmt = rng_n(r, 4), w = rng_n(r, 3) ? rng_range(r, 1, 64) : 64, h = rng_n(r, 3) ? rng_range(r, 1, 64) : 64, alpha = rng_n(r, 2);
    int stride = w * bppf[fmt] + (rng_n(r, 2) ? rng_n(r, 64) : 0); long sz = (long)(h - 1) * stride + w * bppf[fmt];
    unsigned char *src = xbuf(sz), *cp = malloc(sz), pl[4][4096]; int i, k; struct rfxencode *enc;
    const unsigned char *base; 
    fill_pixels(r, src, sz); memcpy(cp, src, sz);
    enc = mkenc(fmt, 0); if (!enc) { fail("create failed"); return; }
    memset(enc->y_r_buffer, 0x11, 4096); memset(enc->u_g_buffer, 0x22, 4096); memset(enc->v_b_buffer, 0x33, 4096); memset(enc->a_buffer, 0x44, 4096);
    base = src;
    if (rng_n(r, 8) == 0 && h > 1) { base = src + (long)(h - 1) * stride; stride = -stride; }
    if ((alpha ? enc->rfx_encode_argb_to_yuva : enc->rfx_encode_rgb_to_yuv)(enc, (const char *) base, w, h, stride) != 0) fail("conversion failed");
    ref_planes(base, stride, fmt, w, h, pl);
    nontrivial++;
    for (k = 0; k < 4; k++)
    {
        unsigned char *got = k == 0 ? enc->y_r_buffer : k == 1 ? enc->u_g_buffer : k == 2 ? enc->v_b_buffer : enc->a_buffer;
        if (k == 3 && (!alpha || fmt > 1)) break;
        for (i = 0; i < 4096; i++) if (got[i] != pl[k][i]) { fail("format %d, %dx%d tile, plane %d, position (%d,%d): got %d, expected %d", fmt, w, h, k, i & 63, i >> 6, got[i], pl[k][i]); break; }
    }
    if (memcmp(src, cp, sz)) fail("input pixels modified");
    rfxcodec_encode_destroy(enc); free(src); free(cp);
}
/* ---------- C11 ---------- */
static void case_alpha(rng_t *r)
{
    unsigned char *pl = xbuf(4096), back[4096]; int i, m = rng_n(r, 11), x, y; struct rfxencode *enc; STREAM s; long n; unsigned char *out; int ret;
    if (m < 2) fill_pixels(r, pl, 4096);
    else if (m < 6)
    {
        /* row deltas with chosen run structure */
        unsigned char row[64];
        for (y = 0; y < 64; y++)
        {
            x = 0;
            while (x < 64)
            {
                int kind = rng_n(r, 3), len = kind == 0 ? rng_range(r, 1, 4) : kind == 1 ? rng_range(r, 12, 18) : rng_range(r, 1, 64);
                int v = rng_n(r, 3) ? rng_n(r, 256) : 0, rnd = rng_n(r, 2);
                while (len-- > 0 && x < 64) row[x++] = (rnd && m != 5) ? (unsigned char) rng_next(r) : (unsigned char) v;
            }
            for (x = 0; x < 64; x++) { int d = (row[x] & 1) ? -((row[x] + 1) / 2) : row[x] / 2; pl[y * 64 + x] = y == 0 ? row[x] : (unsigned char)(pl[(y - 1) * 64 + x] + d); }
        }
    }
    else if (m < 8) rand_tile(r, pl);
    else
    {
        /* run-length form about as long as the raw form */
        int L = rng_range(r, 4, 63), k = rng_range(r, 250, 420) / L, lx; unsigned char row[64];
        if (k > 64) k = 64;
        for (y = 0; y < 64; y++)
        {
            for (x = 0; x < 64; x++) { row[x] = (unsigned char) rng_range(r, 1, 255); if (x && row[x] == row[x - 1]) row[x] ^= 2; }
            if (y < k) { lx = rng_range(r, 0, 64 - L); for (x = 1; x < L; x++) row[lx + x] = row[lx]; }
            for (x = 0; x < 64; x++) { int d = (row[x] & 1) ? -((row[x] + 1) / 2) : row[x] / 2; pl[y * 64 + x] = y == 0 ? row[x] : (unsigned char)(pl[(y - 1) * 64 + x] + d); }
        }
    }
    enc = mkenc(0, 0); if (!enc) { fail("create failed"); return; }
    out = xbuf(8194); s.data = out; s.p = out; s.size = 8194;
    { unsigned char *cp = malloc(4096); memcpy(cp, pl, 4096); ret = rfx_encode_plane(enc, pl, 64, 64, &s); if (memcmp(cp, pl, 4096)) fail("alpha plane modified"); free(cp); }
    n = s.p - out; nontrivial += n > 200;
    if (n > 4098) fail("alpha data of %ld bytes is longer than the raw form", n);
    if (ref_alpha_decode(out, n, back) != n) fail("alpha data of %ld bytes does not decode", n);
    else for (i = 0; i < 4096; i++) if (back[i] != pl[i]) { fail("alpha (%d,%d): %d decodes to %d", i & 63, i >> 6, pl[i], back[i]); break; }
    if (ret != n) fail("reported alpha length %d, emitted %ld", ret, n);
    free(out); free(pl); rfxcodec_encode_destroy(enc);
}
#include "msg.h"

static void one_case(uint64_t seed, uint64_t cs)
{
    rng_t r = rng_make(seed, cs);
    cpu_over = 0; vf_fail_at = -1;
    if (is_prop("C05")) case_rlgr(&r, 1);
    else if (is_prop("C06")) case_rlgr(&r, 3);
    else if (is_prop("C07") || is_prop("C08")) case_std(&r);
    else if (is_prop("C09")) case_rem(&r);
    else if (is_prop("C10")) case_rgb(&r);
    else if (is_prop("C11")) case_alpha(&r);
    else if (is_prop("C13")) case_announce(&r, cs);
    else if (is_prop("C14")) case_life(&r);
    else if (is_prop("C15")) case_worst(&r);
    else case_msg(&r, cs);
}
static double now(void) { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
int main(int argc, char **argv)
{
    uint64_t seed, cs = 0; double t0 = now(); const char *rf;
    FILE *so; int fd;
    if (argc < 5) return 2;
    g_prop = argv[2]; seed = g_seed = strtoull(argv[3], 0, 10);
    fflush(stdout); fd = dup(1); so = fdopen(fd, "w"); if (!freopen("/dev/null", "w", stdout)) return 2;
    if (strcmp(argv[1], "one") == 0)
    {
        cs = strtoull(argv[4], 0, 10); one_case(seed, cs);
        if (g_failed) { fprintf(so, "FAIL %s\n", g_msg); fflush(so); return 1; }
        fprintf(so, "OK\n"); fflush(so); return 0;
    }
    else
    {
        double ms = atof(argv[4]); long minc = atol(argv[5]); int pf; char line[64];
        rf = argv[6]; pf = open(rf, O_CREAT | O_TRUNC | O_WRONLY, 0644);
        for (cs = 0; (long) cs < minc || (now() - t0) * 1000 < ms; cs++)
        {
            int n = snprintf(line, sizeof(line), "%s %llu %-20llu\n", g_prop, (unsigned long long) seed, (unsigned long long) cs);
            if (pf >= 0 && pwrite(pf, line, n, 0) < 0) return 2;
            if ((now() - t0) * 1000 > ms * 3 + 60000) break;
            one_case(seed, cs);
            if (g_failed) { fprintf(so, "FAIL case=%llu %s\n", (unsigned long long) cs, g_msg); fflush(so); return 1; }
        }
        fprintf(so, "OK cases=%llu nontrivial=%d\n", (unsigned long long) cs, nontrivial); fflush(so);
        return 0;
    }
}
