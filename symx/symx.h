// Symbolic executor over a flattened LLVM IR dump: control is concrete (or forked on equality facts), data are hash-consed terms.
// Every memory access, signed operation and shift is a checked obligation.
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <unordered_map>
#include <memory>
#include <deque>
#include <algorithm>
#include <functional>
#include <stdexcept>
using namespace std;
typedef int64_t i64; typedef uint64_t u64;
struct Fail : runtime_error { Fail(const string &s) : runtime_error(s) {} };       // an obligation fails
struct Undec : runtime_error { Undec(const string &s) : runtime_error(s) {} };     // outside the executor's reach
static u64 n_ob = 0, n_ins = 0, n_states = 0, n_runs = 0;
struct Where { const string *p = 0; string own; void operator=(const string &s) { own = s; p = &own; } void at(const string &s) { p = &s; } string operator+(const char *x) const { return (p ? *p : string()) + x; } };
static Where g_where;
static inline void need(bool ok, const char *what) { n_ob++; if (!ok) throw Fail((g_where + ": ") + what); }

// ------------------------------------------------------------------ terms
enum Op { ADD, SUB, MUL, SHL, LSHR, ASHR, AND, OR, XOR, SDIV, UDIV, SREM, UREM, T_LEAF, T_CONST, ZEXT, SEXT, TRUNC, SELECT, CAT, EQ, SLT, ULT, SLE, ULE, NOT };
struct Term { int op, w; int a[3]; i64 k, lo, hi; };
static vector<Term> TT; 
static vector<int> TH(1 << 16, -1);
static inline u64 thash(int op, int w, int a, int b, int c, i64 k) { u64 h = (u64) (op * 131 + w) * 0x9E3779B97F4A7C15ull; h ^= ((u64) a << 32 | (unsigned) b) * 0xC2B2AE3D27D4EB4Full; h ^= ((u64) k + c) * 0x165667B19E3779F9ull; h ^= h >> 29; h *= 0xBF58476D1CE4E5B9ull; return h ^ h >> 32; }
static i64 sx(i64 v, int w) { if (w >= 64) return v; v &= ((i64) 1 << w) - 1; return (v >> (w - 1) & 1) ? v - ((i64) 1 << w) : v; }
static u64 ux(i64 v, int w) { return w >= 64 ? (u64) v : (u64) v & (((u64) 1 << w) - 1); }
static i64 smin(int w) { return w >= 64 ? INT64_MIN : -((i64) 1 << (w - 1)); }
static i64 smax(int w) { return w >= 64 ? INT64_MAX : ((i64) 1 << (w - 1)) - 1; }
static int mkt(int op, int w, int a, int b, int c, i64 k, i64 lo, i64 hi)
{
    u64 m = TH.size() - 1, h = thash(op, w, a, b, c, k) & m;
    while (TH[h] >= 0) { const Term &t = TT[TH[h]]; if (t.op == op && t.w == w && t.a[0] == a && t.a[1] == b && t.a[2] == c && t.k == k) return TH[h]; h = (h + 1) & m; }
    int id = TT.size(); Term x; x.op = op; x.w = w; x.a[0] = a; x.a[1] = b; x.a[2] = c; x.k = k; x.lo = lo; x.hi = hi;
    TT.push_back(x); TH[h] = id;
    if (TT.size() * 2 > TH.size())
    {
        TH.assign(TH.size() * 2, -1); m = TH.size() - 1;
        for (size_t i = 0; i < TT.size(); i++) { const Term &t = TT[i]; h = thash(t.op, t.w, t.a[0], t.a[1], t.a[2], t.k) & m; while (TH[h] >= 0) h = (h + 1) & m; TH[h] = i; }
    }
    return id;
}
static int tconst(i64 v, int w) { v = sx(v, w); return mkt(T_CONST, w, 0, 0, 0, v, v, v); }
static int tleaf(i64 key, int w) { return mkt(T_LEAF, w, 0, 0, 0, key, smin(w), smax(w)); }
static bool isconst(int t) { return TT[t].op == T_CONST; }
static int topt(int op, int w, int x, int y, int z = 0);
static int tzext(int x, int w)
{
    Term t = TT[x]; if (t.w == w) return x;
    if (t.op == T_CONST) return tconst(ux(t.k, t.w), w);
    if (t.op == ZEXT) return tzext(t.a[0], w);
    i64 lo = t.lo, hi = t.hi; if (lo < 0) { lo = 0; hi = ((i64) 1 << t.w) - 1; }
    return mkt(ZEXT, w, x, 0, 0, 0, lo, hi);
}
static int tsext(int x, int w)
{
    Term t = TT[x]; if (t.w == w) return x;
    if (t.op == T_CONST) return tconst(t.k, w);
    if (t.op == SEXT) return tsext(t.a[0], w);
    if (t.op == ZEXT && t.w > TT[t.a[0]].w) return tzext(t.a[0], w);
    return mkt(SEXT, w, x, 0, 0, 0, t.lo, t.hi);
}
static int ttrunc(int x, int w)
{
    Term t = TT[x]; if (t.w == w) return x;
    if (t.op == T_CONST) return tconst(t.k, w);
    if (t.op == ZEXT || t.op == SEXT)
    {
        int s = TT[t.a[0]].w; if (s == w) return t.a[0]; if (s > w) return ttrunc(t.a[0], w);
        return t.op == ZEXT ? tzext(t.a[0], w) : tsext(t.a[0], w);
    }
    if (t.op == CAT && TT[t.a[1]].w >= w) return ttrunc(t.a[1], w);
    if (t.op == TRUNC) return ttrunc(t.a[0], w);
    if (t.op == AND && isconst(t.a[1]) && ux(TT[t.a[1]].k, w) == ux(-1, w)) return ttrunc(t.a[0], w);
    i64 lo = t.lo, hi = t.hi; if (lo < smin(w) || hi > smax(w)) { lo = smin(w); hi = smax(w); }
    return mkt(TRUNC, w, x, 0, 0, 0, lo, hi);
}
static int tcat(int hi, int lo)
{
    int w = TT[hi].w + TT[lo].w;
    if (isconst(hi) && isconst(lo)) return tconst((i64) (ux(TT[hi].k, TT[hi].w) << TT[lo].w | ux(TT[lo].k, TT[lo].w)), w);
    return mkt(CAT, w, hi, lo, 0, 0, w >= 64 ? INT64_MIN : smin(w), smax(w));
}
static i64 cev(int op, int w, i64 x, i64 y)
{
    u64 a = ux(x, w), b = ux(y, w);
    switch (op)
    {
        case ADD: return sx((i64) (a + b), w); case SUB: return sx((i64) (a - b), w); case MUL: return sx((i64) (a * b), w);
        case SHL: return b >= (u64) w ? 0 : sx((i64) (a << b), w); case LSHR: return b >= (u64) w ? 0 : sx((i64) (a >> b), w);
        case ASHR: return b >= (u64) w ? 0 : sx(sx(x, w) >> b, w);
        case AND: return sx((i64) (a & b), w); case OR: return sx((i64) (a | b), w); case XOR: return sx((i64) (a ^ b), w);
        case SDIV: return b == 0 ? 0 : sx(sx(x, w) / sx(y, w), w); case SREM: return b == 0 ? 0 : sx(sx(x, w) % sx(y, w), w);
        case UDIV: return b == 0 ? 0 : sx((i64) (a / b), w); case UREM: return b == 0 ? 0 : sx((i64) (a % b), w);
        case EQ: return a == b; case SLT: return sx(x, w) < sx(y, w); case ULT: return a < b; case SLE: return sx(x, w) <= sx(y, w); case ULE: return a <= b;
    }
    throw Undec("cev");
}
static int topt(int op, int w, int x, int y, int z)
{
    const Term X = TT[x], Y = TT[y];
    if (isconst(x) && isconst(y)) return tconst(cev(op, w, X.k, Y.k), w);
    i64 lo = smin(w), hi = smax(w);
    typedef __int128 i128; i128 l, h;
    if ((op == ADD || op == MUL || op == AND || op == OR || op == XOR) && (isconst(x) || (!isconst(y) && x > y))) return topt(op, w, y, x, 0);
    switch (op)
    {
        case ADD: if (isconst(y) && Y.k == 0) return x; l = (i128) X.lo + Y.lo; h = (i128) X.hi + Y.hi; if (l >= lo && h <= hi) { lo = l; hi = h; } break;
        case SUB: if (isconst(y) && Y.k == 0) return x; if (x == y) return tconst(0, w); l = (i128) X.lo - Y.hi; h = (i128) X.hi - Y.lo; if (l >= lo && h <= hi) { lo = l; hi = h; } break;
        case MUL:
        {
            if (isconst(y) && Y.k == 1) return x; if (isconst(y) && Y.k == 0) return y;
            i128 p[4] = { (i128) X.lo * Y.lo, (i128) X.lo * Y.hi, (i128) X.hi * Y.lo, (i128) X.hi * Y.hi };
            l = *min_element(p, p + 4); h = *max_element(p, p + 4); if (l >= lo && h <= hi) { lo = l; hi = h; } break;
        }
        case SHL: if (isconst(y)) { if (Y.k == 0) return x; return topt(MUL, w, x, tconst((i64) 1 << Y.k, w)); } break;
        case LSHR:
            if (isconst(y))
            {
                if (Y.k == 0) return x;
                if (X.op == CAT && TT[X.a[1]].w == Y.k) return tzext(X.a[0], w);
                if (X.op == CAT && TT[X.a[1]].w < Y.k) { int r = topt(LSHR, TT[X.a[0]].w, X.a[0], tconst(Y.k - TT[X.a[1]].w, TT[X.a[0]].w)); return tzext(r, w); }
                if (X.op == ZEXT) { int iw = TT[X.a[0]].w; if (Y.k >= iw) return tconst(0, w); return tzext(topt(LSHR, iw, X.a[0], tconst(Y.k, iw)), w); }
                if (X.lo >= 0) { lo = X.lo >> Y.k; hi = X.hi >> Y.k; } else { lo = 0; hi = (i64) (ux(-1, w) >> Y.k); }
            }
            break;
        case ASHR: if (isconst(y)) { if (Y.k == 0) return x; lo = X.lo >> Y.k; hi = X.hi >> Y.k; } break;
        case AND:
            if (isconst(y))
            {
                u64 m = ux(Y.k, w); if (m == ux(-1, w)) return x; if (m == 0) return tconst(0, w);
                for (int b = 1; b < w; b++) if (m == (((u64) 1 << b) - 1)) { if (X.lo >= 0 && X.hi <= (i64) m) return x; if (b == 8 || b == 16 || b == 32) return tzext(ttrunc(x, b), w); }
                if (Y.k >= 0) { lo = 0; hi = Y.k; }
            }
            break;
        case OR: if (isconst(y) && Y.k == 0) return x; if (x == y) return x; if (X.lo >= 0 && Y.lo >= 0) { lo = max(X.lo, Y.lo); u64 m = X.hi | Y.hi; while (m & (m + 1)) m |= m >> 1; hi = m; } break;
        case XOR: if (isconst(y) && Y.k == 0) return x; if (isconst(y) && Y.k == -1) { lo = -1 - X.hi; hi = -1 - X.lo; } else if (X.lo >= 0 && Y.lo >= 0) { lo = 0; u64 m = X.hi | Y.hi; while (m & (m + 1)) m |= m >> 1; hi = m; } break;
    }
    return mkt(op, w, x, y, z, 0, lo, hi);
}
static int tsel(int c, int x, int y)
{
    if (isconst(c)) return TT[c].k & 1 ? x : y; if (x == y) return x;
    return mkt(SELECT, TT[x].w, c, x, y, 0, min(TT[x].lo, TT[y].lo), max(TT[x].hi, TT[y].hi));
}
static int tnot(int c) { if (isconst(c)) return tconst(!(TT[c].k & 1), 1); if (TT[c].op == NOT) return TT[c].a[0]; return mkt(NOT, 1, c, 0, 0, 0, -1, 0); }
static int tcmp(int op, int x, int y)       // EQ SLT ULT SLE ULE
{
    Term X = TT[x], Y = TT[y]; int w = X.w;
    if (isconst(x) && isconst(y)) return tconst(cev(op, w, X.k, Y.k), 1);
    if (op == EQ)
    {
        if (x == y) return tconst(1, 1);
        if (isconst(x)) { swap(x, y); swap(X, Y); }
        if (X.hi < Y.lo || Y.hi < X.lo) return tconst(0, 1);
        if (isconst(y) && (X.op == ZEXT || X.op == SEXT)) return tcmp(EQ, X.a[0], tconst(Y.k, TT[X.a[0]].w));   // in range, checked above
        if (X.op == Y.op && (X.op == ZEXT || X.op == SEXT) && TT[X.a[0]].w == TT[Y.a[0]].w) return tcmp(EQ, X.a[0], Y.a[0]);
        if (X.op == SUB && isconst(y) && Y.k == 0) return tcmp(EQ, X.a[0], X.a[1]);
        if (X.op == XOR && isconst(y) && Y.k == 0) return tcmp(EQ, X.a[0], X.a[1]);
        if (X.op == SELECT && isconst(y) && isconst(X.a[1]) && isconst(X.a[2]))
        { bool a = TT[X.a[1]].k == Y.k, b = TT[X.a[2]].k == Y.k; if (a && !b) return X.a[0]; if (b && !a) return tnot(X.a[0]); if (!a && !b) return tconst(0, 1); return tconst(1, 1); }
        if (!isconst(y) && x > y) swap(x, y);
        return mkt(EQ, 1, x, y, 0, 0, -1, 0);
    }
    if (op == ULT || op == ULE)
    {
        if (X.lo >= 0 && Y.lo >= 0) return tcmp(op == ULT ? SLT : SLE, x, y);
        return mkt(op, 1, x, y, 0, 0, -1, 0);
    }
    if (op == SLT ? X.hi < Y.lo : X.hi <= Y.lo) return tconst(1, 1);
    if (op == SLT ? X.lo >= Y.hi : X.lo > Y.hi) return tconst(0, 1);
    return mkt(op, 1, x, y, 0, 0, -1, 0);
}
// concrete evaluation with a leaf assignment
static i64 teval(int t, const function<i64(i64)> &leaf, unordered_map<int, i64> &memo)
{
    auto it = memo.find(t); if (it != memo.end()) return it->second;
    const Term T = TT[t]; i64 r; auto E = [&](int i) { return teval(T.a[i], leaf, memo); };
    switch (T.op)
    {
        case T_LEAF: r = sx(leaf(T.k), T.w); break; case T_CONST: r = T.k; break;
        case ZEXT: r = (i64) ux(E(0), TT[T.a[0]].w); break; case SEXT: r = E(0); break; case TRUNC: r = sx(E(0), T.w); break;
        case SELECT: r = E(0) & 1 ? E(1) : E(2); break; case CAT: r = sx((i64) (ux(E(0), TT[T.a[0]].w) << TT[T.a[1]].w | ux(E(1), TT[T.a[1]].w)), T.w); break;
        case NOT: r = !(E(0) & 1); break;
        case EQ: case SLT: case ULT: case SLE: case ULE: r = cev(T.op, TT[T.a[0]].w, E(0), E(1)); break;
        default: r = cev(T.op, T.w, E(0), E(1));
    }
    return memo[t] = r;
}
static void tleaves(int t, vector<int> &out, unordered_map<int, int> &seen)
{
    if (seen[t]++) return; const Term T = TT[t];
    if (T.op == T_LEAF) { out.push_back(t); return; } if (T.op == T_CONST) return;
    int n = (T.op == ZEXT || T.op == SEXT || T.op == TRUNC || T.op == NOT) ? 1 : T.op == SELECT ? 3 : 2;
    for (int i = 0; i < n; i++) tleaves(T.a[i], out, seen);
}
// structural equality under a leaf renaming (by leaf key)
static bool tiso(int t, int u, map<i64, i64> &ren, unordered_map<int, int> &memo)
{
    auto it = memo.find(t); if (it != memo.end()) return it->second == u;
    const Term A = TT[t], B = TT[u];
    if (A.op != B.op || A.w != B.w) return false;
    if (A.op == T_LEAF) { auto r = ren.find(A.k); if (r == ren.end() || r->second != B.k) return false; memo[t] = u; return true; }
    if (A.op == T_CONST) { if (A.k != B.k) return false; memo[t] = u; return true; }
    int n = (A.op == ZEXT || A.op == SEXT || A.op == TRUNC || A.op == NOT) ? 1 : A.op == SELECT ? 3 : 2;
    if (A.op == ADD || A.op == MUL || A.op == AND || A.op == OR || A.op == XOR || A.op == EQ)
    {   // operands were ordered by term number
        auto m2 = memo;
        if (tiso(A.a[0], B.a[0], ren, memo) && tiso(A.a[1], B.a[1], ren, memo)) { memo[t] = u; return true; }
        memo = m2;
        if (tiso(A.a[0], B.a[1], ren, memo) && tiso(A.a[1], B.a[0], ren, memo)) { memo[t] = u; return true; }
        return false;
    }
    for (int i = 0; i < n; i++) if (!tiso(A.a[i], B.a[i], ren, memo)) return false;
    memo[t] = u; return true;
}

// ------------------------------------------------------------------ values: a + b*S + c*E, terms, pointers
enum { UND, INT, SYM, PTR, FN };
struct V { uint8_t k; int16_t o; int32_t b, c; i64 a;
    bool operator==(const V &x) const { return k == x.k && o == x.o && b == x.b && c == x.c && a == x.a; } };
static V vint(i64 a) { V v = { INT, 0, 0, 0, a }; return v; }
static V vsym(int t) { if (isconst(t)) return vint(TT[t].k); V v = { SYM, 0, 0, 0, t }; return v; }
static V vptr(int o, i64 a) { V v = { PTR, (int16_t) o, 0, 0, a }; return v; }
static const V VUND = { UND, 0, 0, 0, 0 };
static i64 S_LO = -(1 << 24), S_HI = 1 << 24;

struct ObjD { vector<V> v; vector<uint8_t> w; bool hasc = false; };            // w: width of the value stored here, 0 nothing, 255 continuation
struct Obj { shared_ptr<ObjD> d; i64 size; bool ro; int spec; i64 wlo = 0, whi = INT64_MAX; };      // [wlo, whi): what may be written

// ------------------------------------------------------------------ program
struct Opnd { int k; i64 v; };     // k: 0 reg 1 int 2 null 3 undef 4 global 5 function
struct Ins { int op, d, w, w2, fl; vector<Opnd> a; vector<i64> x; string txt; };
struct Blk { vector<Ins> phi, ins; bool head; vector<int> live, chain; bool merge = false; };   // chain: headers of the loops around it, outermost first
struct Fun { string name; int nreg, narg; vector<Blk> b; bool used = false; };
enum IOp { I_BIN = 0, I_LOAD = 50, I_STORE, I_GEP, I_SEXT, I_ZEXT, I_TRUNC, I_ICMP, I_SELECT, I_ALLOCA, I_CALL, I_P2I, I_I2P, I_FREEZE, I_BR, I_RET, I_SWITCH, I_UNREACH, I_PHI, I_MEMCPY, I_MEMSET, I_NOP, I_SMAX, I_SMIN, I_UMAX, I_UMIN, I_ABS };
struct Glob { string name; i64 size; bool ro; vector<int> bytes; };
static vector<Fun> FNS; static map<string, int> FI; static vector<Glob> GL; static map<string, i64> OFFS;

static void loadprog(const char *f)
{
    FILE *fp = fopen(f, "r"); if (!fp) throw Undec("no program"); char tag[64];
    auto str = [&]() { int n; if (fscanf(fp, "%d ", &n) != 1) throw Undec("parse"); string s(n, 0); if (fread(&s[0], 1, n, fp) != (size_t) n) throw Undec("parse"); return s; };
    auto num = [&]() { long long v; if (fscanf(fp, "%lld", &v) != 1) throw Undec("parse"); return (i64) v; };
    auto ins = [&]() { Ins I; I.op = num(); I.d = num(); I.w = num(); I.w2 = num(); I.fl = num(); int n = num(); for (int i = 0; i < n; i++) { Opnd o; o.k = num(); o.v = num(); I.a.push_back(o); } n = num(); for (int i = 0; i < n; i++) I.x.push_back(num()); I.txt = str(); return I; };
    while (fscanf(fp, "%63s", tag) == 1)
    {
        if (!strcmp(tag, "offs")) { string s = str(); OFFS[s] = num(); }
        else if (!strcmp(tag, "glob")) { Glob g; g.name = str(); g.size = num(); g.ro = num(); int n = num(); for (int i = 0; i < n; i++) g.bytes.push_back(num()); GL.push_back(g); }
        else if (!strcmp(tag, "fun"))
        {
            Fun F; F.name = str(); F.nreg = num(); F.narg = num(); int nb = num();
            for (int i = 0; i < nb; i++)
            {
                Blk B; B.head = num(); int n = num(); for (int j = 0; j < n; j++) B.live.push_back(num()); n = num(); for (int j = 0; j < n; j++) B.chain.push_back(num());
                n = num(); for (int j = 0; j < n; j++) B.phi.push_back(ins()); n = num(); for (int j = 0; j < n; j++) B.ins.push_back(ins());
                F.b.push_back(B);
            }
            FI[F.name] = FNS.size(); FNS.push_back(F);
        }
        else throw Undec(string("tag ") + tag);
    }
    fclose(fp);
}

// ------------------------------------------------------------------ state
struct Frame { int fn, blk, ip, prev, nobj, rd; vector<V> r; vector<pair<int, int>> cnt; };       // cnt: header and iteration of the loops around
struct Ghost { V pos; int pix = 0, last = 0, fmt = -1; bool raw = false; map<int, V> pend; map<i64, V> rawc; vector<pair<int, int>> eq; };       // used by C11
struct State { vector<Frame> st; vector<Obj> ob; i64 elo = 0, ehi = 0; bool forked = false; vector<pair<int, bool>> lits; V ret; Ghost g; };
struct Hooks
{
    virtual V load(State &s, int o, const V &p, int w) { throw Undec("special object"); }
    virtual void store(State &s, int o, const V &p, int w, const V &v) { throw Undec("special object"); }
    virtual int decide(State &s, int t) { throw Undec(g_where + ": branch depends on pixel data"); }      // 0 / 1 / -1 fork
    virtual void refine(State &s, int t, bool v) { }
    virtual bool fact(int t) { return true; }        // a condition control may depend on; on others selects stay terms
    virtual V call(State &s, const string &f, vector<V> &a) { throw Undec("call to " + f); }
    virtual ~Hooks() {}
};
static Obj mkobj(i64 size, bool ro = false, int spec = 0)
{ Obj o; o.size = size; o.ro = ro; o.spec = spec; o.d = make_shared<ObjD>(); if (!spec) { o.d->v.assign(size, VUND); o.d->w.assign(size, 0); } return o; }
static void setc(Obj &o, i64 off, int w, V v) { o.d->v[off] = v; o.d->w[off] = w; for (int i = 1; i < w; i++) o.d->w[off + i] = 255; }

struct Exec
{
    Hooks &H; vector<State> ready;
    Exec(Hooks &h) : H(h) {}
    static i64 lo(const State &s, const V &v) { i64 r = v.a; r += v.b >= 0 ? v.b * S_LO : v.b * S_HI; r += v.c >= 0 ? v.c * s.elo : v.c * s.ehi; return r; }
    static i64 hi(const State &s, const V &v) { i64 r = v.a; r += v.b >= 0 ? v.b * S_HI : v.b * S_LO; r += v.c >= 0 ? v.c * s.ehi : v.c * s.elo; return r; }
    V opv(State &s, Frame &f, const Opnd &o, int w)
    {
        switch (o.k)
        {
            case 0: { const V &v = f.r[o.v]; return v; }
            case 1: return vint(o.v);
            case 2: return vptr(-1, 0);
            case 3: return VUND;
            case 4: { V v = vptr((int) (o.v & 0xffff), o.v >> 16); return v; }
            case 5: { V v = { FN, 0, 0, 0, o.v }; return v; }
        }
        throw Undec("operand");
    }
    int term(const V &v, int w) { if (v.k == SYM) return (int) v.a; if (v.k == INT && !v.b && !v.c) return tconst(v.a, w); throw Undec(g_where + ": mixed value"); }
    Obj &obj(State &s, const V &p, i64 w, const char *what)
    {
        if (p.k != PTR) throw Undec(g_where + ": not a pointer");
        if (p.o < 0) { need(false, "null dereference"); }
        Obj &o = s.ob[p.o];
        return o;
    }
    V load(State &s, const V &p, int w)
    {
        Obj &o = obj(s, p, w, "read"); if (o.spec) return H.load(s, p.o, p, w);
        if (p.b || p.c) throw Undec(g_where + ": symbolic address");
        need(p.a >= 0 && p.a + w <= o.size, "read outside the object");
        ObjD &d = *o.d;
        if (d.w[p.a] == w) { if (d.v[p.a].k == UND) need(false, "read of uninitialised memory"); return d.v[p.a]; }
        int t = -1; 
        for (int i = 0; i < w; i++) { int b = byte(d, p.a + i); t = t < 0 ? b : tcat(b, t); }
        return vsym(t);
    }
    int byte(ObjD &d, i64 off)
    {
        i64 b = off; while (d.w[b] == 255) b--; if (d.w[b] == 0) need(false, "read of uninitialised memory");
        const V &v = d.v[b]; int w = d.w[b];
        if (v.k == INT && !v.b && !v.c) return tconst(v.a >> (8 * (off - b)), 8);
        if (v.k == SYM) { int t = (int) v.a; if (w == 1) return t; return ttrunc(topt(LSHR, 8 * w, t, tconst(8 * (off - b), 8 * w)), 8); }
        if (v.k == UND) need(false, "read of uninitialised memory");
        throw Undec(g_where + ": bytes of a pointer");
    }
    void store(State &s, const V &p, int w, const V &v)
    {
        Obj &o = obj(s, p, w, "write");
        if (o.ro) need(false, "write to read-only memory");
        if (o.spec) { H.store(s, p.o, p, w, v); return; }
        if (p.b || p.c) throw Undec(g_where + ": symbolic address");
        need(p.a >= 0 && p.a + w <= o.size, "write outside the object"); need(p.a >= o.wlo && p.a + w <= o.whi, "write outside what the contract allows");
        if (o.d.use_count() > 1) o.d = make_shared<ObjD>(*o.d);
        ObjD &d = *o.d;
        if (d.w[p.a] != w)
        {
            // split what overlaps
            i64 b = p.a; while (b > 0 && d.w[b] == 255) b--;
            for (i64 q = b; q < p.a + w; )
            {
                int ww = d.w[q]; if (ww == 0) { q++; continue; } if (ww == 255) { q++; continue; }
                if (q + ww > p.a && ww > 1) { vector<pair<i64, int>> keep; for (i64 z = q; z < q + ww; z++) if (z < p.a || z >= p.a + w) keep.push_back({ z, byte(d, z) }); for (i64 z = q; z < q + ww; z++) d.w[z] = 0; for (auto &k : keep) { d.v[k.first] = vsym(k.second); d.w[k.first] = 1; } }
                q += ww;
            }
            for (int i = 1; i < w; i++) d.w[p.a + i] = 255;
            d.w[p.a] = w;
        }
        d.v[p.a] = v; if (v.c) d.hasc = true;
    }
    V add(const V &x, const V &y, int sg) { V r = x; r.a += sg * y.a; r.b += sg * y.b; r.c += sg * y.c; return r; }
    V bin(State &s, const Ins &I, const V &x, const V &y)
    {
        int op = I.op, w = I.w; bool nsw = I.fl & 1;
        if (x.k == UND || y.k == UND) { need(false, "use of an undefined value"); }
        if (x.k == PTR || y.k == PTR)
        {
            if (op == SUB && x.k == PTR && y.k == PTR && x.o == y.o) { V r = add(x, y, -1); r.k = INT; r.o = 0; return r; }
            if (op == ADD && x.k == PTR && y.k == INT) return add(x, y, 1);
            if (op == ADD && y.k == PTR && x.k == INT) return add(y, x, 1);
            if (op == SUB && x.k == PTR && y.k == INT) return add(x, y, -1);
            throw Undec(g_where + ": pointer arithmetic");
        }
        if (x.k == INT && y.k == INT)
        {
            if (!x.b && !x.c && !y.b && !y.c)
            {
                if (op == ADD || op == SUB || op == MUL)
                {
                    __int128 r = op == ADD ? (__int128) x.a + y.a : op == SUB ? (__int128) x.a - y.a : (__int128) x.a * y.a;
                    if (nsw) need(r >= smin(w) && r <= smax(w), "signed overflow");
                    return vint(sx((i64) r, w));
                }
                if (op == SHL || op == LSHR || op == ASHR) need(ux(y.a, w) < (u64) w, "shift amount out of range");
                if (op >= SDIV && op <= UREM) need(y.a != 0, "division by zero");
                return vint(cev(op, w, x.a, y.a));
            }
            V r;
            if (op == ADD) r = add(x, y, 1);
            else if (op == SUB) r = add(x, y, -1);
            else if (op == MUL && !y.b && !y.c) { r = x; r.a *= y.a; r.b *= y.a; r.c *= y.a; }
            else if (op == MUL && !x.b && !x.c) { r = y; r.a *= x.a; r.b *= x.a; r.c *= x.a; }
            else if (op == SHL && !y.b && !y.c && y.a >= 0 && y.a < 31) { r = x; i64 m = (i64) 1 << y.a; r.a *= m; r.b *= m; r.c *= m; }
            else throw Undec(g_where + ": operation on a symbolic integer");
            n_ob++;
            if (lo(s, r) < smin(w) || hi(s, r) > smax(w)) throw Fail(g_where + ": signed overflow");
            return r;
        }
        int a = term(x, w), b = term(y, w);
        if (w == 1)
        {
            if (op == XOR) { if (isconst(b)) return vsym(TT[b].k & 1 ? tnot(a) : a); if (isconst(a)) return vsym(TT[a].k & 1 ? tnot(b) : b); }
            if (op == AND) { if (isconst(a)) return vsym(TT[a].k & 1 ? b : a); if (isconst(b)) return vsym(TT[b].k & 1 ? a : b); }
            if (op == OR) { if (isconst(a)) return vsym(TT[a].k & 1 ? a : b); if (isconst(b)) return vsym(TT[b].k & 1 ? b : a); }
        }
        if (op == SHL || op == LSHR || op == ASHR) need(isconst(b) ? ux(TT[b].k, w) < (u64) w : TT[b].lo >= 0 && TT[b].hi < w, "shift amount out of range");
        if (op >= SDIV && op <= UREM) need(isconst(b) && TT[b].k != 0, "division by zero");
        if (nsw && (op == ADD || op == SUB || op == MUL))
        {
            const Term A = TT[a], B = TT[b]; typedef __int128 i128; i128 l, h;
            if (op == ADD) { l = (i128) A.lo + B.lo; h = (i128) A.hi + B.hi; } else if (op == SUB) { l = (i128) A.lo - B.hi; h = (i128) A.hi - B.lo; }
            else { i128 p[4] = { (i128) A.lo * B.lo, (i128) A.lo * B.hi, (i128) A.hi * B.lo, (i128) A.hi * B.hi }; l = *min_element(p, p + 4); h = *max_element(p, p + 4); }
            need(l >= smin(w) && h <= smax(w), "signed overflow");
        }
        return vsym(topt(op, w, a, b));
    }
    // comparison result: INT 0/1 or SYM of width 1; -1 in fork: on E
    V icmp(State &s, const Ins &I, V x, V y)
    {
        int pr = I.x[0], w = I.w;     // 0 eq 1 ne 2 slt 3 sle 4 sgt 5 sge 6 ult 7 ule 8 ugt 9 uge
        if (x.k == UND || y.k == UND) need(false, "use of an undefined value");
        if (x.k == FN || y.k == FN) { bool e = x == y; return vint(pr == 0 ? e : !e); }
        if (x.k == PTR || y.k == PTR)
        {
            if (x.k == INT && x.a == 0) x = vptr(-1, 0); if (y.k == INT && y.a == 0) y = vptr(-1, 0);
            if (x.k != PTR || y.k != PTR) throw Undec(g_where + ": pointer compared with an integer");
            if (x.o != y.o) { if (pr == 0) return vint(0); if (pr == 1) return vint(1); need(false, "ordering of pointers to different objects"); }
            x.k = y.k = INT; x.o = y.o = 0; w = 64; if (pr >= 6) pr -= 4;
        }
        if (x.k == INT && y.k == INT)
        {
            if (!x.b && !x.c && !y.b && !y.c)
            {
                i64 a = x.a, b = y.a; u64 ua = ux(a, w), ub = ux(b, w); bool r;
                switch (pr) { case 0: r = ua == ub; break; case 1: r = ua != ub; break; case 2: r = a < b; break; case 3: r = a <= b; break; case 4: r = a > b; break; case 5: r = a >= b; break;
                    case 6: r = ua < ub; break; case 7: r = ua <= ub; break; case 8: r = ua > ub; break; default: r = ua >= ub; }
                return vint(r);
            }
            V d = add(x, y, -1); i64 l = lo(s, d), h = hi(s, d);
            if (pr >= 6) { if (lo(s, x) < 0 || lo(s, y) < 0) throw Undec(g_where + ": unsigned comparison of a symbolic integer"); pr -= 4; }
            if (pr == 2) { if (h < 0) return vint(1); if (l >= 0) return vint(0); }
            if (pr == 3) { if (h <= 0) return vint(1); if (l > 0) return vint(0); }
            if (pr == 4) { if (l > 0) return vint(1); if (h <= 0) return vint(0); }
            if (pr == 5) { if (l >= 0) return vint(1); if (h < 0) return vint(0); }
            if (pr == 0 || pr == 1) { if (l > 0 || h < 0) return vint(pr); if (l == 0 && h == 0) return vint(!pr); throw Undec(g_where + ": equality on a symbolic integer"); }
            if (d.b) throw Undec(g_where + ": branch on the stride");
            if (d.c != 1 && d.c != -1) throw Undec(g_where + ": comparison");
            // d.a + d.c*E pr 0  ->  E <= t or E >= t, encoded as V of kind INT with o = 1 (E <= a) / 2 (E >= a)
            V r = vint(0);
            if (d.c == 1) { if (pr == 2) { r.o = 1; r.a = -d.a - 1; } else if (pr == 3) { r.o = 1; r.a = -d.a; } else if (pr == 4) { r.o = 2; r.a = -d.a + 1; } else { r.o = 2; r.a = -d.a; } }
            else { if (pr == 2) { r.o = 2; r.a = d.a + 1; } else if (pr == 3) { r.o = 2; r.a = d.a; } else if (pr == 4) { r.o = 1; r.a = d.a - 1; } else { r.o = 1; r.a = d.a; } }
            return r;
        }
        int a = term(x, w), b = term(y, w);
        if (w == 1)
        {
            if (isconst(a)) swap(a, b); if (!isconst(b)) throw Undec(g_where + ": comparison of conditions");
            bool eq = (pr == 0) == ((TT[b].k & 1) != 0); return vsym(eq ? a : tnot(a));
        }
        int t;
        switch (pr)
        {
            case 0: t = tcmp(EQ, a, b); break; case 1: t = tnot(tcmp(EQ, a, b)); break;
            case 2: t = tcmp(SLT, a, b); break; case 3: t = tcmp(SLE, a, b); break; case 4: t = tcmp(SLT, b, a); break; case 5: t = tcmp(SLE, b, a); break;
            case 6: t = tcmp(ULT, a, b); break; case 7: t = tcmp(ULE, a, b); break; case 8: t = tcmp(ULT, b, a); break; default: t = tcmp(ULE, b, a);
        }
        V v = vsym(t); if (v.k == INT) v.a &= 1; return v;
    }
    bool truth(State &s, V c)
    {
        if (c.k == UND) need(false, "branch on an undefined value");
        if (c.k == INT && c.o == 0) return c.a & 1;
        if (c.k == INT)
        {
            mark(s); s.forked = true; State n = s; bool le = c.o == 1;
            if (le) { s.ehi = min(s.ehi, c.a); n.elo = max(n.elo, c.a + 1); } else { s.elo = max(s.elo, c.a); n.ehi = min(n.ehi, c.a - 1); }
            pushed = true; other = n; return true;
        }
        int d = H.decide(s, (int) c.a);
        if (d >= 0) return d;
        mark(s); s.forked = true; State n = s; H.refine(s, (int) c.a, true); H.refine(n, (int) c.a, false);
        pushed = true; other = n; return true;
    }
    bool count = false;
    static void bump(Frame &f, const Blk &B)
    {
        size_t i = 0; while (i < f.cnt.size() && i < B.chain.size() && f.cnt[i].first == B.chain[i]) i++;
        if (B.head && i == B.chain.size() && i && f.cnt.size() >= i) { f.cnt.resize(i); f.cnt[i - 1].second++; return; }
        f.cnt.resize(i); if (B.head) f.cnt.push_back({ f.blk, 1 });
    }
    void mark(State &s) { for (auto &f : s.st) { auto &b = FNS[f.fn].b; for (int h : b[f.blk].chain) b[h].merge = true; } }
    bool pushed; State other;
    void go(State &s, Frame &f, int blk) { f.prev = f.blk; f.blk = blk; f.ip = -1; }
    // run until a merge point (returns 1) or the end (returns 0)
    int run(State &s)
    {
        bool started = false;
        while (true)
        {
            Frame *fp = &s.st.back(); const Fun &F = FNS[fp->fn]; const Blk &B = F.b[fp->blk];
            if (fp->ip < 0)
            {
                if (B.phi.size())
                {
                    static vector<V> tmp; tmp.clear();
                    for (auto &p : B.phi) { bool ok = false; for (size_t i = 0; i < p.x.size(); i++) if (p.x[i] == fp->prev) { tmp.push_back(opv(s, *fp, p.a[i], p.w)); ok = true; break; } if (!ok) throw Undec("phi"); }
                    for (size_t i = 0; i < B.phi.size(); i++) fp->r[B.phi[i].d] = tmp[i];
                }
                fp->ip = 0;
                if (count) bump(*fp, B);
                if (B.merge && s.forked && started) return 1;
            }
            started = true;
            const Ins &I = B.ins[fp->ip++]; n_ins++;
            g_where.at(I.txt);
            V r = VUND;
            switch (I.op)
            {
                case ADD: case SUB: case MUL: case SHL: case LSHR: case ASHR: case AND: case OR: case XOR: case SDIV: case UDIV: case SREM: case UREM:
                    r = bin(s, I, opv(s, *fp, I.a[0], I.w), opv(s, *fp, I.a[1], I.w)); break;
                case I_LOAD: r = load(s, opv(s, *fp, I.a[0], 64), I.w / 8); if (I.w2 == 1 && r.k == INT && r.a == 0 && r.o == 0) r = vptr(-1, 0); if (I.w2 != 1 && I.w < 64 && r.k == PTR) throw Undec("pointer read as integer"); break;
                case I_STORE: { V v = opv(s, *fp, I.a[0], I.w); V p = opv(s, *fp, I.a[1], 64); if (v.k == UND) need(false, "store of an undefined value"); store(s, p, I.w / 8, v); break; }
                case I_GEP:
                {
                    r = opv(s, *fp, I.a[0], 64); if (r.k != PTR) throw Undec(g_where + ": address");
                    r.a += I.x[0];
                    for (size_t i = 1; i < I.a.size(); i++)
                    {
                        V ix = opv(s, *fp, I.a[i], 64); if (ix.k != INT || ix.o) throw Undec(g_where + ": address depends on data");
                        i64 m = I.x[i]; r.a += ix.a * m; r.b += ix.b * m; r.c += ix.c * m;
                    }
                    break;
                }
                case I_SEXT: case I_ZEXT:
                {
                    V v = opv(s, *fp, I.a[0], I.w2); if (v.k == UND) { r = v; break; }
                    if (v.k == INT && v.o) throw Undec(g_where + ": use of a comparison");
                    if (v.k == SYM && I.w2 == 1 && I.w > 8 && forksel && H.fact((int) v.a))
                    {   // a condition used as a number: split on it, like a select
                        V x = vint(I.op == I_SEXT ? -1 : 1), y = vint(0); pushed = false; bool t = truth(s, v); fp = &s.st.back(); fp->r[I.d] = t ? x : y;
                        if (pushed) { pushed = false; other.st.back().r[I.d] = y; ready.push_back(move(other)); }
                        continue;
                    }
                    if (v.k == INT) { if (v.b || v.c) { if (I.op == I_ZEXT && lo(s, v) < 0) throw Undec("zext"); r = v; } else r = vint(I.op == I_SEXT ? sx(v.a, I.w2) : (i64) ux(v.a, I.w2)); }
                    else if (v.k == SYM) r = vsym(I.w2 == 1 ? tsel((int) v.a, tconst(I.op == I_SEXT ? -1 : 1, I.w), tconst(0, I.w)) : I.op == I_SEXT ? tsext((int) v.a, I.w) : tzext((int) v.a, I.w));
                    else throw Undec(g_where + ": cast"); break;
                }
                case I_TRUNC:
                {
                    V v = opv(s, *fp, I.a[0], I.w2); if (v.k == UND) { r = v; break; }
                    if (v.k == INT) { if (v.b || v.c) { if (lo(s, v) < smin(I.w) || hi(s, v) > smax(I.w)) throw Undec(g_where + ": narrowing"); r = v; } else r = vint(sx(v.a, I.w)); }
                    else if (v.k == SYM) { if (I.w == 1) r = vsym(tcmp(EQ, topt(AND, I.w2, (int) v.a, tconst(1, I.w2)), tconst(1, I.w2))); else r = vsym(ttrunc((int) v.a, I.w)); if (r.k == INT && I.w == 1) r.a &= 1; }
                    else throw Undec(g_where + ": cast"); break;
                }
                case I_ICMP: r = icmp(s, I, opv(s, *fp, I.a[0], I.w), opv(s, *fp, I.a[1], I.w)); break;
                case I_SELECT:
                {
                    V c = opv(s, *fp, I.a[0], 1), x = opv(s, *fp, I.a[1], I.w), y = opv(s, *fp, I.a[2], I.w);
                    if (c.k == INT && !c.o) { r = c.a & 1 ? x : y; break; }
                    if (c.k == SYM && (x.k == SYM || (x.k == INT && !x.b && !x.c && !x.o)) && (y.k == SYM || (y.k == INT && !y.b && !y.c && !y.o)))
                    {
                        bool fork = I.w > 8 && x.k == INT && y.k == INT && forksel && H.fact((int) c.a);
                        if (!fork) { if (x.k == INT && y.k == INT && I.w == 1) { r = (x.a & 1) == (y.a & 1) ? x : vsym(x.a & 1 ? (int) c.a : tnot((int) c.a)); } else r = vsym(tsel((int) c.a, term(x, I.w), term(y, I.w))); break; }
                    }
                    pushed = false; bool t = truth(s, c); fp = &s.st.back(); fp->r[I.d] = t ? x : y;
                    if (pushed) { pushed = false; other.st.back().r[I.d] = y; ready.push_back(move(other)); }
                    continue;
                }
                case I_ALLOCA: { s.ob.push_back(mkobj(I.x[0])); r = vptr(s.ob.size() - 1, 0); break; }
                case I_P2I: case I_I2P: case I_FREEZE: r = opv(s, *fp, I.a[0], I.w); if (I.op == I_I2P && r.k == INT && r.a == 0) r = vptr(-1, 0); break;
                case I_MEMCPY:
                {
                    V d = opv(s, *fp, I.a[0], 64), p = opv(s, *fp, I.a[1], 64), n = opv(s, *fp, I.a[2], 64);
                    if (n.k != INT || n.b || n.c || n.o) throw Undec(g_where + ": length depends on data");
                    need(n.a >= 0, "negative length"); if (n.a == 0) break;
                    if (I.fl & 2) { if (d.k == PTR && p.k == PTR && d.o == p.o && d.o >= 0 && d.b == p.b && d.c == p.c) need(d.a + n.a <= p.a || p.a + n.a <= d.a, "overlapping memcpy"); }
                    vector<V> t(n.a); for (i64 i = 0; i < n.a; i++) { V q = p; q.a += i; t[i] = load(s, q, 1); } for (i64 i = 0; i < n.a; i++) { V q = d; q.a += i; store(s, q, 1, t[i]); }
                    break;
                }
                case I_MEMSET:
                {
                    V d = opv(s, *fp, I.a[0], 64), v = opv(s, *fp, I.a[1], 8), n = opv(s, *fp, I.a[2], 64);
                    if (n.k != INT || n.b || n.c || n.o) throw Undec(g_where + ": length depends on data");
                    need(n.a >= 0, "negative length"); for (i64 i = 0; i < n.a; i++) { V q = d; q.a += i; store(s, q, 1, v); } break;
                }
                case I_NOP: break;
                case I_SMAX: case I_SMIN: case I_UMAX: case I_UMIN:
                {
                    V x = opv(s, *fp, I.a[0], I.w), y = opv(s, *fp, I.a[1], I.w);
                    Ins J = I; J.x.assign(1, I.op == I_SMAX || I.op == I_SMIN ? 5 : 9); V c = icmp(s, J, x, y); bool mx = I.op == I_SMAX || I.op == I_UMAX;
                    if (c.k == INT && !c.o) r = ((c.a & 1) != 0) == mx ? x : y; else if (c.k == SYM) r = vsym(tsel((int) c.a, term(mx ? x : y, I.w), term(mx ? y : x, I.w))); else throw Undec("minmax"); break;
                }
                case I_ABS:
                {
                    V x = opv(s, *fp, I.a[0], I.w); if (x.k == INT && !x.b && !x.c) { need(x.a != smin(I.w), "signed overflow"); r = vint(x.a < 0 ? -x.a : x.a); break; }
                    if (x.k != SYM) throw Undec("abs"); int t = (int) x.a; r = vsym(tsel(tcmp(SLE, tconst(0, I.w), t), t, topt(SUB, I.w, tconst(0, I.w), t))); break;
                }
                case I_CALL:
                {
                    vector<V> a; for (auto &o : I.a) a.push_back(opv(s, *fp, o, 64));
                    string name; int fi = (int) I.x[0];
                    if (fi < 0) { V f = fp->r[I.x[1]]; if (f.k != FN) throw Undec(g_where + ": indirect call"); fi = (int) f.a; }
                    if (FNS[fi].b.empty()) { r = H.call(s, FNS[fi].name, a); break; }
                    if (s.st.size() > 30) throw Undec("recursion");
                    FNS[fi].used = true; Frame n; n.fn = fi; n.blk = 0; n.ip = 0; n.prev = -1; n.nobj = s.ob.size(); n.rd = I.d; n.r.assign(FNS[fi].nreg, VUND);
                    for (size_t i = 0; i < a.size() && (int) i < FNS[fi].narg; i++) n.r[i] = a[i];
                    s.st.push_back(n); continue;
                }
                case I_RET:
                {
                    V v = I.a.size() ? opv(s, *fp, I.a[0], I.w) : VUND; int rd = fp->rd; s.ob.resize(fp->nobj); s.st.pop_back();
                    if (s.st.empty()) { s.ret = v; return 0; }
                    if (rd >= 0) s.st.back().r[rd] = v; continue;
                }
                case I_BR:
                {
                    if (I.a.empty()) { go(s, *fp, I.x[0]); continue; }
                    V c = opv(s, *fp, I.a[0], 1); pushed = false; bool t = truth(s, c); fp = &s.st.back(); go(s, *fp, t ? I.x[0] : I.x[1]);
                    if (pushed) { pushed = false; go(other, other.st.back(), I.x[1]); ready.push_back(move(other)); }
                    continue;
                }
                case I_SWITCH:
                {
                    V v = opv(s, *fp, I.a[0], I.w); if (v.k != INT || v.b || v.c || v.o) throw Undec(g_where + ": switch on data");
                    int t = I.x[0]; for (size_t i = 1; i + 1 < I.x.size(); i += 2) if (ux(I.x[i], I.w) == ux(v.a, I.w)) { t = I.x[i + 1]; break; } go(s, *fp, t); continue;
                }
                case I_UNREACH: need(false, "unreachable code reached"); break;
                default: throw Undec("instruction " + I.txt);
            }
            if (I.d >= 0) s.st.back().r[I.d] = r;
        }
    }
    bool forksel = false;
};
static void globals_into(State &s) { for (auto &g : GL) { Obj o = mkobj(g.size, g.ro); for (size_t i = 0; i < g.bytes.size(); i++) setc(o, i, 1, vint(sx(g.bytes[i], 8))); s.ob.push_back(o); } }
static void enter(State &s, const string &fn, const vector<V> &args)
{
    auto it = FI.find(fn); if (it == FI.end() || FNS[it->second].b.empty()) throw Undec("function " + fn + " not found");
    FNS[it->second].used = true; Frame n; n.fn = it->second; n.blk = 0; n.ip = 0; n.prev = -1; n.nobj = s.ob.size(); n.rd = -1; n.r.assign(FNS[n.fn].nreg, VUND);
    for (size_t i = 0; i < args.size() && (int) i < FNS[n.fn].narg; i++) n.r[i] = args[i]; s.st.push_back(n);
}
