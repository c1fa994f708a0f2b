/* Independent reference semantics used only to REPLAY failures against the
 * real code (and to cross-check the verifier); written from MS-RDPRFX /
 * MS-RDPEGFX, not from /repo. */
#ifndef REF_H
#define REF_H
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>

/* ---------------- deterministic random ---------------- */
typedef struct { uint64_t s; } rng_t;
static inline uint64_t rng_next(rng_t *r)
{
    uint64_t z = (r->s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
}
static inline int rng_n(rng_t *r, int n) { return n <= 1 ? 0 : (int)(rng_next(r) % (uint64_t)n); }
static inline int rng_range(rng_t *r, int lo, int hi) { return lo + rng_n(r, hi - lo + 1); }
static inline rng_t rng_make(uint64_t seed, uint64_t cs)
{
    rng_t r; r.s = seed * 0x100000001B3ull + cs * 0xD1342543DE82EF95ull + 12345; rng_next(&r); rng_next(&r); return r;
}

/* ---------------- bands ---------------- */
/* index order in nibble table: LL3 LH3 HL3 HH3 LH2 HL2 HH2 LH1 HL1 HH1 */
enum { qLL3, qLH3, qHL3, qHH3, qLH2, qHL2, qHH2, qLH1, qHL1, qHH1 };
static inline int ref_nib(const unsigned char *q, int i) { return (q[i >> 1] >> ((i & 1) * 4)) & 15; }
static inline int fdiv2(int v) { return v >= 0 ? v / 2 : -((-v + 1) / 2); }
static inline int fdivp(int v, int s) { int d = 1 << s; return v >= 0 ? v / d : -((-v + d - 1) / d); }

static int ref_over; /* set when an exact intermediate leaves 16 bits */
static inline int chk16(int v) { if (v < -32768 || v > 32767) ref_over = 1; return v; }

/* 1-D standard 5/3, n even, mirrored; x[n] -> l[n/2], h[n/2] */
static void ref_std1d(const int *x, int n, int *l, int *h)
{
    int m = n / 2, i;
    for (i = 0; i < m; i++)
    {
        int x2 = (2 * i + 2 < n) ? x[2 * i + 2] : x[2 * i];
        h[i] = chk16(fdiv2(x[2 * i + 1] - fdiv2(x[2 * i] + x2)));
    }
    for (i = 0; i < m; i++)
    {
        int hm = i > 0 ? h[i - 1] : h[0];
        l[i] = chk16(x[2 * i] + fdiv2(hm + h[i]));
    }
}
/* 1-D reduce-extrapolate.  n = 64 -> 33 low, 31 high (sample 64 extrapolated);
 * n = 33 -> 17/16, n = 17 -> 9/8 (odd length, mirrored). */
static void ref_rem1d(const int *x, int n, int *l, int *h)
{
    int e[66], i, nh, nl, hh[34];
    memcpy(e, x, n * sizeof(int));
    if (n == 64) { e[64] = (int16_t)(2 * x[63] - x[62]); if (2 * x[63] - x[62] != e[64]) ref_over = 2; n = 65; nh = 31; nl = 33; }
    else { nh = (n - 1) / 2; nl = nh + 1; }
    for (i = 0; i < (n - 1) / 2; i++) hh[i] = fdiv2(e[2 * i + 1] - fdiv2(e[2 * i] + e[2 * i + 2]));
    if (n == 65) hh[31] = 0;
    for (i = 0; i < nh; i++) h[i] = chk16(hh[i]);
    for (i = 0; i < nl; i++)
    {
        int hm = i > 0 ? hh[i - 1] : hh[0];
        int hc = i < (n - 1) / 2 ? hh[i] : (n == 65 ? hh[31] : hh[i - 1]);
        if (n == 65 && i == 32) { hm = 0; hc = fdiv2(e[63] - fdiv2(e[64] + e[62])); }
        l[i] = chk16(e[2 * i] + fdiv2(hm + hc));
    }
}
static void ref_2d(int *img, int n, int rem, int *ll, int *hl, int *lh, int *hh)
{
    int nl, nh, x, y; static int tl[64 * 64], th[64 * 64]; int c[66], l[34], h[34];
    if (rem) { nh = n == 64 ? 31 : (n - 1) / 2; nl = n - nh; if (n == 64) nl = 33; }
    else { nl = nh = n / 2; }
    for (x = 0; x < n; x++)
    {
        for (y = 0; y < n; y++) c[y] = img[y * n + x];
        if (rem) ref_rem1d(c, n, l, h); else ref_std1d(c, n, l, h);
        for (y = 0; y < nl; y++) tl[y * n + x] = l[y];
        for (y = 0; y < nh; y++) th[y * n + x] = h[y];
    }
    for (y = 0; y < nl; y++)
    {
        if (rem) ref_rem1d(tl + y * n, n, l, h); else ref_std1d(tl + y * n, n, l, h);
        for (x = 0; x < nl; x++) ll[y * nl + x] = l[x];
        for (x = 0; x < nh; x++) hl[y * nh + x] = h[x];
    }
    for (y = 0; y < nh; y++)
    {
        if (rem) ref_rem1d(th + y * n, n, l, h); else ref_std1d(th + y * n, n, l, h);
        for (x = 0; x < nl; x++) lh[y * nl + x] = l[x];
        for (x = 0; x < nh; x++) hh[y * nh + x] = h[x];
    }
}
static const int ref_qorder[10] = { qHL1, qLH1, qHH1, qHL2, qLH2, qHH2, qHL3, qLH3, qHH3, qLL3 };
static const int ref_std_sz[10] = { 1024, 1024, 1024, 256, 256, 256, 64, 64, 64, 64 };
static const int ref_rem_sz[10] = { 1023, 1023, 961, 272, 272, 256, 72, 72, 64, 81 };
/* unquantised transform, sub-band order HL1 LH1 HH1 HL2 ... LL3 */
static void ref_transform(const unsigned char *in, int *out, int rem)
{
    static int img[4096], ll[4096]; const int *sz = rem ? ref_rem_sz : ref_std_sz;
    int i, lev, n = 64, o = 0;
    for (i = 0; i < 4096; i++) img[i] = (in[i] - 128) * 32;
    for (lev = 0; lev < 3; lev++)
    {
        int *hl = out + o, *lh = hl + sz[lev * 3], *hh = lh + sz[lev * 3 + 1];
        ref_2d(img, n, rem, ll, hl, lh, hh);
        o += sz[lev * 3] + sz[lev * 3 + 1] + sz[lev * 3 + 2];
        n = rem ? (n == 64 ? 33 : n - (n - 1) / 2) : n / 2;
        memcpy(img, ll, n * n * sizeof(int));
    }
    memcpy(out + o, img, n * n * sizeof(int));
}
static void ref_quant(int *c, const unsigned char *q, int rem)
{
    const int *sz = rem ? ref_rem_sz : ref_std_sz; int b, i, o = 0;
    for (b = 0; b < 10; b++)
    {
        int f = ref_nib(q, ref_qorder[b]) - 6 + 5;
        for (i = 0; i < sz[b]; i++) c[o + i] = fdivp(c[o + i] + (1 << (f - 1)), f);
        o += sz[b];
    }
}

/* ---------------- RLGR ---------------- */
typedef struct { unsigned char *b; long cap; long nbits; } bitw_t;
static inline void bw_put(bitw_t *w, int bit)
{
    long p = w->nbits++;
    if ((p >> 3) >= w->cap) return;
    if ((p & 7) == 0) w->b[p >> 3] = 0;
    if (bit) w->b[p >> 3] |= 0x80 >> (p & 7);
}
static inline void bw_bits(bitw_t *w, int n, uint32_t v) { while (n-- > 0) bw_put(w, (v >> n) & 1); }
static inline int clampk(int v) { return v < 0 ? 0 : v > 80 ? 80 : v; }
static void ref_codegr(bitw_t *w, int *krp, uint32_t v)
{
    int kr = *krp >> 3; uint32_t u = v >> kr, i;
    for (i = 0; i < u; i++) bw_put(w, 1);
    bw_put(w, 0);
    bw_bits(w, kr, v & ((1u << kr) - 1));
    if (u == 0) *krp = clampk(*krp - 2);
    else if (u > 1) *krp = clampk(*krp + (int)(u > 200 ? 200 : u));
}
/* returns number of bytes of the code; writes at most cap bytes */
static long ref_rlgr_encode(int mode, const int16_t *c, unsigned char *out, long cap)
{
    bitw_t w = { out, cap, 0 }; int kp = 8, krp = 8, pos = 0;
    while (pos < 4096)
    {
        int k = kp >> 3;
        if (k)
        {
            int nz = 0, v = 0;
            while (pos < 4096) { v = c[pos++]; if (v != 0) break; nz++; }
            while (nz >= (1 << k)) { bw_put(&w, 0); nz -= 1 << k; kp = clampk(kp + 4); k = kp >> 3; }
            bw_put(&w, 1); bw_bits(&w, k, nz);
            if (v == 0) break;
            bw_put(&w, v < 0); ref_codegr(&w, &krp, (uint32_t)(v < 0 ? -v : v) - 1);
            kp = clampk(kp - 6);
        }
        else if (mode == 1)
        {
            int v = c[pos++]; uint32_t t = v >= 0 ? 2 * v : -2 * v - 1;
            ref_codegr(&w, &krp, t);
            kp = clampk(t ? kp - 3 : kp + 3);
        }
        else
        {
            int a = c[pos++], b = pos < 4096 ? c[pos] : 0; uint32_t t1, t2, s; int n = 0; pos++;
            t1 = a >= 0 ? 2 * a : -2 * a - 1; t2 = b >= 0 ? 2 * b : -2 * b - 1; s = t1 + t2;
            ref_codegr(&w, &krp, s);
            while (n < 32 && (s >> n)) n++;
            bw_bits(&w, n, t1);
            if (t1 && t2) kp = clampk(kp - 6); else if (!t1 && !t2) kp = clampk(kp + 6);
        }
    }
    return (w.nbits + 7) / 8;
}
typedef struct { const unsigned char *b; long n; long p; } bitr_t;
static inline int br_get(bitr_t *r) { long p = r->p++; return (p >> 3) < r->n ? (r->b[p >> 3] >> (7 - (p & 7))) & 1 : 0; }
static inline int br_eof(bitr_t *r) { return (r->p >> 3) >= r->n; }
static uint32_t br_bits(bitr_t *r, int n) { uint32_t v = 0; while (n-- > 0) v = v * 2 + br_get(r); return v; }
static uint32_t ref_getgr(bitr_t *r, int *krp)
{
    int kr = *krp >> 3; uint32_t u = 0, v;
    while (!br_eof(r) && br_get(r)) u++;
    v = (u << kr) | br_bits(r, kr);
    if (u == 0) *krp = clampk(*krp - 2);
    else if (u > 1) *krp = clampk(*krp + (int)(u > 200 ? 200 : u));
    return v;
}
static inline int unms(uint32_t t) { return (t & 1) ? -(int)((t + 1) / 2) : (int)(t / 2); }
/* returns number of coefficients produced (capped) */
static int ref_rlgr_decode(int mode, const unsigned char *b, long n, int16_t *out)
{
    bitr_t r = { b, n, 0 }; int kp = 8, krp = 8, pos = 0;
    memset(out, 0, 8192);
    while (pos < 4096 && !br_eof(&r))
    {
        int k = kp >> 3;
        if (k)
        {
            int run;
            while (!br_eof(&r) && br_get(&r) == 0) { pos += 1 << k; kp = clampk(kp + 4); k = kp >> 3; }
            run = br_bits(&r, k); pos += run;
            if (pos >= 4096) break;
            { int sg = br_get(&r); int mag = (int) ref_getgr(&r, &krp) + 1; out[pos++] = (int16_t)(sg ? -mag : mag); }
            kp = clampk(kp - 6);
        }
        else if (mode == 1)
        {
            uint32_t t = ref_getgr(&r, &krp);
            out[pos++] = (int16_t) unms(t); kp = clampk(t ? kp - 3 : kp + 3);
        }
        else
        {
            uint32_t s = ref_getgr(&r, &krp), t1, t2; int nb = 0;
            while (nb < 32 && (s >> nb)) nb++;
            t1 = br_bits(&r, nb); t2 = s - t1;
            out[pos++] = (int16_t) unms(t1); if (pos < 4096) out[pos] = (int16_t) unms(t2); pos++;
            if (t1 && t2) kp = clampk(kp - 6); else if (!t1 && !t2) kp = clampk(kp + 6);
        }
    }
    return pos > 4096 ? 4096 : pos;
}

/* ---------------- alpha (planar codec, single 64x64 plane) ---------------- */
/* returns bytes consumed, or -1 */
static long ref_alpha_decode(const unsigned char *b, long n, unsigned char *out)
{
    long p = 0; int y;
    if (n < 1) return -1;
    if ((b[0] & 0x10) == 0)
    {
        if (b[0] != 0 || n < 4098) return -1;
        memcpy(out, b + 1, 4096);
        return b[4097] == 0 ? 4098 : -1;
    }
    if (b[0] != 0x10) return -1;
    p = 1;
    for (y = 0; y < 64; y++)
    {
        int x = 0; unsigned char cur = 0;
        while (x < 64)
        {
            int raw, run, i;
            if (p >= n) return -1;
            run = b[p] & 15; raw = b[p] >> 4; p++;
            if (run == 1) { run = raw + 16; raw = 0; }
            else if (run == 2) { run = raw + 32; raw = 0; }
            if (raw == 0 && run == 0) return -1;
            if (x + raw + run > 64 || p + raw > n) return -1;
            for (i = 0; i < raw + run; i++, x++)
            {
                int d; unsigned char above = y ? out[(y - 1) * 64 + x] : 0;
                if (i < raw) cur = b[p++];
                if (y == 0) out[x] = cur;
                else { d = (cur & 1) ? -(int)((cur + 1) / 2) : cur / 2; out[y * 64 + x] = (unsigned char)(above + d); }
            }
        }
    }
    return p;
}
/* ---------------- ICT ---------------- */
static inline int clamp8(int v) { return v < 0 ? 0 : v > 255 ? 255 : v; }
static inline void ref_ict(int r, int g, int b, unsigned char *y, unsigned char *u, unsigned char *v)
{
    *y = clamp8(fdivp(r * 19595 + g * 38470 + b * 7471, 16));
    *u = clamp8(fdivp(r * -11071 + g * -21736 + b * 32807, 16) + 128);
    *v = clamp8(fdivp(r * 32756 + g * -27429 + b * -5327, 16) + 128);
}
#endif
