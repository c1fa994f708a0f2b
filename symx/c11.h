// C11: the bytes rfx_encode_plane emits, read by the planar-codec rules, give back the plane.  A ghost decoder consumes the output; control states
// are merged at the headers of data-dependent loops (facts intersected, number of emitted bytes kept as the symbol E with a range).
static const int ZERO = 4096;           // nodes: 0..4095 the specified difference of that pixel, 4096 + c the byte c
struct C11 : Hooks
{
    int OUT, PLANE; i64 maxe = 0; unordered_map<int, int> cls; vector<int> tmpl; int np;
    // ---- classification of terms: which specified difference is it?
    int node(int t)
    {
        auto it = cls.find(t); if (it != cls.end()) return it->second;
        int r = -1;
        if (isconst(t)) r = 4096 + (int) (TT[t].k & 255);
        else if (TT[t].w == 8)
        {
            vector<int> lv; unordered_map<int, int> seen; tleaves(t, lv, seen); vector<i64> k; for (int l : lv) k.push_back(TT[l].k); sort(k.begin(), k.end());
            if (k.size() == 1 && k[0] < 64 && TT[t].op == T_LEAF) r = (int) k[0];
            else if (k.size() == 2 && k[1] == k[0] + 64)
            {
                bool ok = false;
                for (int u : tmpl)
                {
                    vector<int> l2; unordered_map<int, int> s2; tleaves(u, l2, s2); i64 a = min(TT[l2[0]].k, TT[l2[1]].k); map<i64, i64> ren; ren[a] = k[0]; ren[a + 64] = k[1]; unordered_map<int, int> memo;
                    if (tiso(u, t, ren, memo)) { ok = true; break; }
                }
                if (!ok)
                {
                    ok = true;
                    for (int a = 0; a < 256 && ok; a++) for (int b = 0; b < 256 && ok; b++)
                    {
                        unordered_map<int, i64> memo; int v = (int) ux(teval(t, [&](i64 l) { return (i64) (l == k[0] ? a : b); }, memo), 8);
                        int d = v & 1 ? -(v >> 1) - 1 : v >> 1;       // the decoder's rule
                        if (((a + d) & 255) != b) ok = false; n_ob++;
                    }
                    if (ok) tmpl.push_back(t);
                }
                if (ok) r = (int) k[1];
            }
        }
        return cls[t] = r;
    }
    static int rep(const State &s, int n) { for (auto &p : s.g.eq) if (p.first == n) return p.second; return n; }
    static void join(State &s, int a, int b)
    {
        a = rep(s, a); b = rep(s, b); if (a == b) return; if (a > b) swap(a, b);        // constants have the larger numbers; representative: the larger
        for (auto &p : s.g.eq) if (p.second == a) p.second = b;
        s.g.eq.push_back({ a, b }); bool has = false; for (auto &p : s.g.eq) if (p.first == b) has = true; if (!has) s.g.eq.push_back({ b, b });
        sort(s.g.eq.begin(), s.g.eq.end());
    }
    bool same(const State &s, int a, int b) { return a == b || (a >= 0 && b >= 0 && rep(s, a) == rep(s, b)); }
    unordered_map<int, int> fcache;
    bool fact(int t)
    {   // built from equalities between differences (or with constants)
        auto it = fcache.find(t); if (it != fcache.end()) return it->second; const Term T = TT[t]; bool r = false;
        if (T.op == T_CONST) r = true; else if (T.op == NOT) r = fact(T.a[0]); else if (T.op == EQ) r = node(T.a[0]) >= 0 && node(T.a[1]) >= 0;
        else if (T.w == 1 && (T.op == AND || T.op == OR)) r = fact(T.a[0]) && fact(T.a[1]);
        else if (T.w == 1 && T.op == SELECT) r = fact(T.a[0]) && fact(T.a[1]) && fact(T.a[2]);
        fcache[t] = r; return r;
    }
    int decide(State &s, int t)
    {
        const Term T = TT[t];
        if (T.op == T_CONST) return T.k & 1;
        if (T.op == NOT) { int d = decide(s, T.a[0]); return d < 0 ? d : !d; }
        if (T.op == EQ)
        {
            int a = node(T.a[0]), b = node(T.a[1]);
            if (a >= 0 && b >= 0) { int x = rep(s, a), y = rep(s, b); if (x == y) return 1; if (x >= 4096 && y >= 4096) return 0; }
        }
        if (T.w == 1 && (T.op == AND || T.op == OR))
        {
            int a = decide(s, T.a[0]), b = decide(s, T.a[1]); int z = T.op == OR;
            if (a == z || b == z) return z; if (a >= 0 && b >= 0) return !z;
        }
        if (T.op == SELECT) { int c = decide(s, T.a[0]); if (c >= 0) return decide(s, T.a[c ? 1 : 2]); int a = decide(s, T.a[1]), b = decide(s, T.a[2]); if (a >= 0 && a == b) return a; }
        for (auto &l : s.lits) if (l.first == t) return l.second;
        return -1;
    }
    void refine(State &s, int t, bool v)
    {
        const Term T = TT[t];
        if (T.op == NOT) { refine(s, T.a[0], !v); return; }
        if (T.w == 1 && ((T.op == AND && v) || (T.op == OR && !v))) { refine(s, T.a[0], v); refine(s, T.a[1], v); return; }
        if (T.op == EQ && v) { int a = node(T.a[0]), b = node(T.a[1]); if (a >= 0 && b >= 0) { join(s, a, b); return; } }
        s.lits.push_back({ t, v });
    }
    // ---- memory
    V load(State &s, int o, const V &p, int w)
    {
        if (o == OUT) throw Undec(g_where + ": the output is read back");
        if (p.b || p.c) throw Undec(g_where + ": symbolic address"); int t = -1;
        for (int i = 0; i < w; i++) { need(p.a + i >= 0 && p.a + i < 4096, "read outside the plane"); int l = tleaf(p.a + i, 8); t = t < 0 ? l : tcat(l, t); }
        return vsym(t);
    }
    void store(State &s, int o, const V &p, int w, const V &v)
    {
        if (o != OUT) need(false, "write to the plane");
        for (int i = 0; i < w; i++)
        {
            V b = v; if (w > 1) { if (v.k == INT && !v.b && !v.c) b = vint(sx(v.a >> 8 * i, 8)); else if (v.k == SYM) b = vsym(ttrunc(topt(LSHR, 8 * w, (int) v.a, tconst(8 * i, 8 * w)), 8)); else throw Undec("store"); }
            else if (b.k == INT) { if (b.b || b.c) throw Undec("store of a length"); b = vint(sx(b.a, 8)); }
            V q = p; q.a += i;
            i64 h = q.a + (q.c ? s.ehi : 0); need(q.a + (q.c ? s.elo : 0) >= 0, "write before the start of the output"); maxe = max(maxe, h + 1);
            if (!q.c && q.a == 0) { if (b.k != INT) need(false, "the format byte depends on the data"); s.g.fmt = (int) (b.a & 255); continue; }
            bool raw = s.g.raw || (q.c == 0 && s.g.pos.c != 0) || (s.g.fmt == 0);
            if (!raw && q.c == s.g.pos.c) { i64 k = q.a - s.g.pos.a; if (k < 0) raw = true; else { if (k > 300) need(false, "the output has a gap"); s.g.pend[(int) k] = b; continue; } }
            if (q.c) throw Undec(g_where + ": write at a varying position after the format was changed");
            s.g.raw = true; s.g.rawc[q.a] = b;
        }
    }
    // ---- the decoder
    void consume(State &s)
    {
        Ghost &g = s.g; if (g.raw) return;
        while (true)
        {
            auto it = g.pend.find(0); if (it == g.pend.end()) return;
            if (it->second.k != INT) need(false, "a control byte depends on pixel values other than through the equality of neighbours");
            int b = (int) (it->second.a & 255), run = b & 15, raw = b >> 4;
            if (run == 1) { run = 16 + raw; raw = 0; } else if (run == 2) { run = 32 + raw; raw = 0; }
            for (int i = 1; i <= raw; i++) if (!g.pend.count(i)) return;
            need(raw + run > 0, "empty segment"); int row = g.pix / 64;
            need(g.pix < 4096 && (g.pix + raw + run - 1) / 64 == row, "segment crosses the end of a row");
            if (g.pix % 64 == 0) g.last = ZERO;
            for (int i = 1; i <= raw; i++)
            {
                V v = g.pend[i]; int n = v.k == INT ? 4096 + (int) (v.a & 255) : node((int) v.a);
                need(n >= 0 && same(s, n, g.pix), "a raw byte is not the difference of the pixel it stands for"); g.last = g.pix; g.pix++;
            }
            for (int i = 0; i < run; i++) { need(g.last >= 0 && same(s, g.last, g.pix), "a run covers a pixel that does not repeat the last value"); g.pix++; }
            map<int, V> np; for (auto &p : g.pend) if (p.first > raw) np[p.first - raw - 1] = p.second; g.pend.swap(np); g.pos.a += raw + 1;
        }
    }
    void prune(State &s)
    {   // facts about pixels already decoded (the last raw one excepted) and undisputed singletons
        auto &e = s.g.eq; if (e.empty()) return; map<int, int> cnt; vector<pair<int, int>> k;
        for (auto &p : e) if (p.first >= s.g.pix || p.first == s.g.last) k.push_back(p);
        renorm(k); e.swap(k);
    }
    static void renorm(vector<pair<int, int>> &k)
    {   // classes by representative -> representative = largest member, singletons dropped
        map<int, int> mx, n; for (auto &p : k) { auto it = mx.find(p.second); if (it == mx.end()) mx[p.second] = p.first; else it->second = max(it->second, p.first); n[p.second]++; }
        vector<pair<int, int>> r; for (auto &p : k) if (n[p.second] > 1) r.push_back({ p.first, mx[p.second] }); sort(r.begin(), r.end()); k.swap(r);
    }
    // ---- merging
    bool same_v(const V &a, const V &b) { return a == b; }
    // relative to the ghost position?
    bool relk(const State &s, const V &v, i64 &k) { if (v.c != s.g.pos.c) return false; k = v.a - s.g.pos.a; return k > -70000 && k < 70000; }
    bool genv(State &A, const State &B, V &a, const V &b, V &out)
    {
        if (a == b && !a.c) { out = a; return true; }
        if (a.k == b.k && a.o == b.o && (a.k == PTR ? a.o == OUT : a.k == INT && (a.c || b.c)))
        { i64 x, y; if (relk(A, a, x) && relk(B, b, y) && x == y) { out = a; out.c = 1; out.a = x; return true; } }
        return false;
    }
    bool mem_same(Obj &a, const Obj &b) { return a.d == b.d || (a.d->w == b.d->w && a.d->v == b.d->v); }
    // join B into A; false: not joinable.  ch: A changed
    bool merge(State &A, const State &B, bool &ch)
    {
        bool gen = !(A.g.pos.c == 0 && B.g.pos.c == 0 && A.g.pos.a == B.g.pos.a);
        State N = A; V o; int split = -1; bool side = false; size_t nl = A.lits.size();
        if (nl && B.lits.size() == nl && A.lits[nl - 1].first == B.lits[nl - 1].first && A.lits[nl - 1].second != B.lits[nl - 1].second && equal(A.lits.begin(), A.lits.end() - 1, B.lits.begin()))
        { split = A.lits[nl - 1].first; side = A.lits[nl - 1].second; }
        { size_t i = 0; while (i < nl && i < B.lits.size() && A.lits[i] == B.lits[i]) i++; N.lits.resize(i); }
        auto jv = [&](V &a, const V &b) { if (!gen) { if (!(a == b)) return false; return true; } if (!genv(A, B, a, b, o)) return false; a = o; return true; };
        for (size_t f = 0; f < A.st.size(); f++)
        {
            const Blk &bl = FNS[A.st[f].fn].b[A.st[f].blk]; bool top = f + 1 == A.st.size();
            if (top) { for (int r : bl.live) { V a = A.st[f].r[r]; if (!jv(a, B.st[f].r[r])) return false; N.st[f].r[r] = a; } }
            else for (size_t r = 0; r < A.st[f].r.size(); r++) { V a = A.st[f].r[r]; if (!jv(a, B.st[f].r[r])) return false; N.st[f].r[r] = a; }
        }
        for (size_t i = 0; i < A.ob.size(); i++)
        {
            if (A.ob[i].d == B.ob[i].d && !(gen && A.ob[i].d->hasc)) continue;
            if (A.ob[i].d->w != B.ob[i].d->w) return false;
            auto d = make_shared<ObjD>(*A.ob[i].d);
            for (size_t j = 0; j < d->v.size(); j++) if (d->w[j] && d->w[j] != 255)
            {
                V a = d->v[j]; const V &b = B.ob[i].d->v[j];
                if (!(a == b) && split >= 0 && (a.k == SYM || (a.k == INT && !a.c && !a.b)) && (b.k == SYM || (b.k == INT && !b.c && !b.b)))
                {   // the two states are the two sides of one data condition
                    int w = 8 * d->w[j], x = a.k == SYM ? (int) a.a : tconst(a.a, w), y = b.k == SYM ? (int) b.a : tconst(b.a, w); d->v[j] = vsym(side ? tsel(split, x, y) : tsel(split, y, x)); continue;
                }
                if (!jv(a, b)) return false; d->v[j] = a; if (a.c) d->hasc = true; }
            N.ob[i].d = d;
        }
        // facts
        vector<pair<int, int>> e; map<pair<int, int>, int> cl; 
        for (auto &p : A.g.eq) { int y = -1; for (auto &q : B.g.eq) if (q.first == p.first) y = q.second; if (y < 0) continue; auto k = make_pair(p.second, y); if (!cl.count(k)) cl[k] = (int) cl.size(); e.push_back({ p.first, cl[k] }); }
        renorm(e); N.g.eq.swap(e);
        if (A.g.last != B.g.last) { N.g.last = same(A, A.g.last, B.g.last) && same(B, A.g.last, B.g.last) ? A.g.last : -1; }
        if (gen)
        {
            i64 la = A.g.pos.a + (A.g.pos.c ? A.elo : 0), ha = A.g.pos.a + (A.g.pos.c ? A.ehi : 0), lb = B.g.pos.a + (B.g.pos.c ? B.elo : 0), hb = B.g.pos.a + (B.g.pos.c ? B.ehi : 0);
            N.elo = min(la, lb); N.ehi = max(ha, hb); N.g.pos.a = 0; N.g.pos.c = 1;
        }
        A = N; ch = true; return true;
    }
    void key(State &s, string &k)
    {
        k.clear(); auto put = [&](i64 v) { k.append((const char *) &v, 8); };
        for (size_t f = 0; f < s.st.size(); f++)
        {
            Frame &F = s.st[f]; put(F.fn); put(F.blk); put(F.ip); const Blk &bl = FNS[F.fn].b[F.blk];
            auto pv = [&](const V &v) { if (v.k == PTR && v.o == OUT) { put(-77); return; } if (v.k == INT && v.c) { put(-78); return; } put((i64) v.k << 32 | (unsigned) (uint16_t) v.o); put(v.a); };
            if (f + 1 == s.st.size()) for (int r : bl.live) pv(F.r[r]); else for (auto &v : F.r) pv(v);
        }
        put(s.g.pix); put(s.g.fmt); put(s.g.raw); put(s.g.rawc.size()); put(s.g.pend.size());
        for (auto &p : s.g.pend) { put(p.first); put(p.second.k); put(p.second.a); }
    }
    typedef vector<array<int, 3>> Pri;
    static void prio(const State &s, Pri &p) { p.clear(); int d = 0; for (auto &f : s.st) { for (auto &c : f.cnt) p.push_back({ d, c.first, c.second }); d++; } }
    void final(State &s, V ret, int sobj)
    {
        consume(s); g_where = np == 0 ? "rfx_encode_plane" : "rfx_encode_plane: return"; Ghost &g = s.g;
        V p = s.ob[sobj].d->v[OFFS["STREAM.p"]];
        if (g.raw)
        {
            need(g.fmt == 0, "the raw form has a non-zero format byte");
            for (int i = 0; i < 4096; i++) { auto it = g.rawc.find(i + 1); need(it != g.rawc.end() && it->second.k == SYM && (int) it->second.a == tleaf(i, 8), "a byte of the raw plane is wrong"); }
            auto it = g.rawc.find(4097); need(it != g.rawc.end() && it->second == vint(0), "pad byte");
            need(g.rawc.size() == 4097, "bytes after the raw form"); need(ret == vint(4098), "reported length"); need(p == vptr(OUT, 4098), "stream position");
        }
        else
        {
            need(g.fmt == 0x10, "format byte"); need(g.pix == 4096, "the run-length data does not cover the plane"); need(g.pend.empty(), "bytes after the run-length data");
            V q = g.pos; need(ret.k == INT && ret.a == q.a && ret.c == q.c && !ret.b, "reported length"); q.k = PTR; q.o = OUT; need(p == q, "stream position");
            need(q.a + (q.c ? s.ehi : 0) <= 4098, "longer than the raw form");
        }
    }
};
static void c11()
{
    C11 H; State s; globals_into(s); int G = s.ob.size(); Exec X(H); X.forksel = true; X.count = true; H.np = 0;
    H.PLANE = G; s.ob.push_back(mkobj(4096, true, 1));
    H.OUT = G + 1; s.ob.push_back(mkobj(0, false, 2));
    s.ob.push_back(mkobj(8192)); s.ob.push_back(mkobj(8192));         // G+2, G+3: work buffers
    Obj st = mkobj(OFFS["sizeof.STREAM"]); setc(st, OFFS["STREAM.p"], 8, vptr(H.OUT, 0)); st.wlo = OFFS["STREAM.p"]; st.whi = st.wlo + 8; s.ob.push_back(st); int SO = G + 4;
    i64 b0 = OFFS["rfxencode.dwt_buffer"], b1 = OFFS["rfxencode.dwt_buffer1"];
    Obj e = mkobj(max(b0, b1) + 8, true); setc(e, b0, 8, vptr(G + 2, 0)); setc(e, b1, 8, vptr(G + 3, 0)); s.ob.push_back(e);
    s.g.pos = vint(1);
    enter(s, "@rfx_encode_plane", { vptr(G + 5, 0), vptr(G, 0), vint(64), vint(64), vptr(SO, 0) });
    typedef map<C11::Pri, unordered_map<string, vector<State>>> Q; Q q; vector<State> now; now.push_back(s); string k; C11::Pri p; u64 fin = 0;
    while (true)
    {
        while (now.size())
        {
            State t = move(now.back()); now.pop_back(); n_states++;
            int r = X.run(t);
            for (auto &o : X.ready) now.push_back(move(o)); X.ready.clear();
            if (r == 0) { H.final(t, t.ret, SO); fin++; continue; }
            H.consume(t); H.prune(t); H.key(t, k); H.prio(t, p); auto &bk = q[p][k]; bool done = false, ch;
            for (auto &o : bk) if (H.merge(o, t, ch)) { done = true; break; }
            if (!done) { if (bk.size() > 64) throw Undec("too many incomparable states"); bk.push_back(move(t)); }
        }
        if (q.empty()) break;
        auto it = q.begin(); bool single = q.size() == 1 && it->second.size() == 1 && it->second.begin()->second.size() == 1;
        for (auto &b : it->second) for (auto &o : b.second) { if (single) o.forked = false; o.lits.clear(); now.push_back(move(o)); }
        q.erase(it);
        if (n_states > 60000000) throw Undec("too many states");
    }
    need(fin >= 2, "both forms are reached");
    g_extra = " maxe=" + to_string(H.maxe) + " finals=" + to_string(fin);
}
