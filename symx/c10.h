// C10: for one conversion function, pixel format and every tile size: the planes are the clamped fixed-point ICT of the nearest tile pixel
static string g_extra;
static const int C10_IDX[4][4] = { { 2, 1, 0, 3 }, { 0, 1, 2, 3 }, { 2, 1, 0, -1 }, { 0, 1, 2, -1 } };   // byte of r, g, b, a within a pixel
struct C10 : Hooks
{
    int w, h, bpp, src;
    V load(State &s, int o, const V &p, int n)
    {
        int t = -1;
        if (p.c) throw Undec("source address");
        for (int i = 0; i < n; i++)
        {
            need(p.b >= 0 && p.b < h && p.a + i >= 0 && p.a + i < w * bpp, "read outside the pixels of the tile");
            int l = tleaf((i64) p.b * 1024 + p.a + i, 8); t = t < 0 ? l : tcat(l, t);
        }
        return vsym(t);
    }
};
static int clamp8(int x) { return x < 0 ? 0 : x > 255 ? 255 : x; }
static void ict(int plane, int t, i64 kr, i64 kg, i64 kb)
{   // all 2^24 inputs
    vector<int> order; unordered_map<int, int> slot;
    function<void(int)> vis = [&](int x)
    {
        if (slot.count(x)) return; const Term T = TT[x];
        if (T.op != T_LEAF && T.op != T_CONST) { int n = (T.op == ZEXT || T.op == SEXT || T.op == TRUNC || T.op == NOT) ? 1 : T.op == SELECT ? 3 : 2; for (int i = 0; i < n; i++) vis(T.a[i]); }
        slot[x] = order.size(); order.push_back(x);
    };
    vis(t); vector<vector<i64>> buf(order.size(), vector<i64>(256));
    for (int r = 0; r < 256; r++) for (int g = 0; g < 256; g++)
    {
        for (size_t i = 0; i < order.size(); i++)
        {
            const Term &T = TT[order[i]]; i64 *d = buf[i].data();
            const i64 *A = 0, *B = 0, *C = 0; int wa = 0, wb = 0;
            if (T.op != T_LEAF && T.op != T_CONST) { A = buf[slot[T.a[0]]].data(); wa = TT[T.a[0]].w; if (T.op != ZEXT && T.op != SEXT && T.op != TRUNC && T.op != NOT) { B = buf[slot[T.a[1]]].data(); wb = TT[T.a[1]].w; } if (T.op == SELECT) C = buf[slot[T.a[2]]].data(); }
            int W = T.w;
            switch (T.op)
            {
                case T_LEAF: if (T.k == kr) for (int b = 0; b < 256; b++) d[b] = sx(r, 8); else if (T.k == kg) for (int b = 0; b < 256; b++) d[b] = sx(g, 8); else if (T.k == kb) for (int b = 0; b < 256; b++) d[b] = sx(b, 8); else throw Fail("a plane depends on bytes other than the pixel's colours"); break;
                case T_CONST: if (!r && !g) for (int b = 0; b < 256; b++) d[b] = T.k; break;
                case ZEXT: for (int b = 0; b < 256; b++) d[b] = (i64) ux(A[b], wa); break;
                case SEXT: for (int b = 0; b < 256; b++) d[b] = A[b]; break;
                case TRUNC: for (int b = 0; b < 256; b++) d[b] = sx(A[b], W); break;
                case NOT: for (int b = 0; b < 256; b++) d[b] = !(A[b] & 1); break;
                case SELECT: for (int b = 0; b < 256; b++) d[b] = A[b] & 1 ? B[b] : C[b]; break;
                case CAT: for (int b = 0; b < 256; b++) d[b] = sx((i64) (ux(A[b], wa) << wb | ux(B[b], wb)), W); break;
                case ADD: for (int b = 0; b < 256; b++) d[b] = sx(A[b] + B[b], W); break;
                case MUL: for (int b = 0; b < 256; b++) d[b] = sx((i64) ((u64) A[b] * (u64) B[b]), W); break;
                case EQ: case SLT: case ULT: case SLE: case ULE: for (int b = 0; b < 256; b++) d[b] = cev(T.op, wa, A[b], B[b]); break;
                default: for (int b = 0; b < 256; b++) d[b] = cev(T.op, W, A[b], B[b]);
            }
        }
        const i64 *o = buf[slot[t]].data();
        for (int b = 0; b < 256; b++)
        {
            int e = plane == 0 ? clamp8((r * 19595 + g * 38470 + b * 7471) >> 16) : plane == 1 ? clamp8(((r * -11071 + g * -21736 + b * 32807) >> 16) + 128) : clamp8(((r * 32756 + g * -27429 + b * -5327) >> 16) + 128);
            if ((int) ux(o[b], 8) != e) { char m[200]; snprintf(m, sizeof m, "plane %d of a pixel with r=%d g=%d b=%d is %d, not %d", plane, r, g, b, (int) ux(o[b], 8), e); throw Fail(m); }
        }
        n_ob += 256;
    }
}
static void c10(const char *fn, int fmt, int alpha, int part, int parts)
{
    C10 H; H.bpp = fmt < 2 ? 4 : 3; const int *ix = C10_IDX[fmt];
    static const char *pl[4] = { "rfxencode.y_r_buffer", "rfxencode.u_g_buffer", "rfxencode.v_b_buffer", "rfxencode.a_buffer" };
    vector<int> exp[4]; int np = alpha && fmt < 2 ? 4 : 3; for (auto &e : exp) e.assign(4096, -1);
    auto one = [&](int w, int h)
    {
        State s; globals_into(s); int G = s.ob.size(); n_runs++;
        H.w = w; H.h = h; H.src = G;
        s.ob.push_back(mkobj(0, true, 1));                                   // G: the caller's pixels
        i64 po[4], lo = INT64_MAX, hi = 0; for (int k = 0; k < 4; k++) { po[k] = OFFS[pl[k]]; lo = min(lo, po[k]); hi = max(hi, po[k] + 4096); }
        Obj e = mkobj(max(hi, OFFS["rfxencode.format"] + 4));
        setc(e, OFFS["rfxencode.format"], 4, vint(fmt)); e.wlo = lo; e.whi = hi; s.ob.push_back(e);  // G+1: the encoder; only its planes may be written
        V st = vint(0); st.b = 1;
        Exec X(H); enter(s, fn, { vptr(G + 1, 0), vptr(G, 0), vint(w), vint(h), st });
        if (X.run(s) != 0) throw Undec("merge"); g_where = fn;
        need(s.ret.k == INT && s.ret.a == 0, "the conversion reports an error");
        for (int k = 0; k < np; k++) for (int y = 0; y < 64; y++) for (int x = 0; x < 64; x++)
        {
            ObjD &d = *s.ob[G + 1].d; int i = y * 64 + x, c; char m[200];
            if (d.w[po[k] + i] == 0) { snprintf(m, sizeof m, "%dx%d tile: plane %d position (%d,%d) is not written", w, h, k, x, y); throw Fail(m); }
            c = X.byte(d, po[k] + i);
            int j = min(y, h - 1) * 64 + min(x, w - 1);
            if (w == 64 && h == 64) exp[k][i] = c;
            n_ob++;
            if (exp[k][j] != c)
            {
                vector<int> lv; unordered_map<int, int> seen; tleaves(c, lv, seen); string z; for (int l : lv) z += " (" + to_string(TT[l].k % 1024 / H.bpp) + "," + to_string(TT[l].k / 1024) + ")";
                snprintf(m, sizeof m, "format %d, %dx%d tile, plane %d position (%d,%d): not the value of pixel (%d,%d); depends on%s", fmt, w, h, k, x, y, min(x, w - 1), min(y, h - 1), z.substr(0, 60).c_str()); throw Fail(m);
            }
        }
    };
    one(64, 64);
    for (int k = 0; k < np; k++) for (int i = 0; i < 4096; i++)
    {
        i64 base = (i64) (i / 64) * 1024 + (i % 64) * H.bpp; char m[160]; snprintf(m, sizeof m, "format %d plane %d position (%d,%d) is not the required function of its pixel", fmt, k, i % 64, i / 64); n_ob++;
        if (k == 3) { if (exp[3][i] != tleaf(base + ix[3], 8)) throw Fail(m); continue; }
        if (i == 0) { ict(k, exp[k][0], ix[0], ix[1], ix[2]); continue; }
        map<i64, i64> ren; unordered_map<int, int> memo; for (int c = 0; c < H.bpp; c++) ren[c] = base + c;
        if (!tiso(exp[k][0], exp[k][i], ren, memo))
        {   // a different expression: decide it on its own
            ict(k, exp[k][i], base + ix[0], base + ix[1], base + ix[2]);
        }
    }
    for (int q = part; q < 4095; q += parts) one(q % 64 + 1, q / 64 + 1);
}
