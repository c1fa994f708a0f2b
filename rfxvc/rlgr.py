"""C05 / C06: the RLGR encoders against the specification encoder.

The real function (LLVM IR, helpers inlined) is cut at its data-dependent loops.  A ghost machine (the MS-RDPRFX encoder, one bit
group at a time) runs beside it; the invariant at a cut is: the ghost is at a stop of a given kind and every live variable of the
code equals a ghost expression (which one is inferred, Houdini style, and then checked on every arrival).  Every byte the code
writes is compared with the ghost's bit string."""
import z3, time
import llir
from bvx import *

W = 32; DEBUG = 0
def bv(x, w=W): return BV(x, w)
def lshr(a, b): return z3.LShR(a, bv(b, a.size()))
def umin(a, b): return z3.If(z3.ULE(a, b), a, b)

class Ghost:
    F = ('typ', 'Q', 'R', 'pc', 'T', 'kp', 'k', 'krp', 'kr', 'pos', 'nz', 'inp', 'u', 'v', 'two1', 'two2', 'emitted', 'lag')
    def __init__(s, X, cap, variant, clamp):
        s.X = X; s.cap = cap; s.var = variant; s.clamp = clamp; s.emitted = bv(0, 64); s.lag = 0
        for f in ('nz', 'inp', 'u', 'v', 'two1', 'two2'): setattr(s, f, bv(0))
    def clone(s):
        g = Ghost(s.X, s.cap, s.var, s.clamp)
        for f in s.F: setattr(g, f, getattr(s, f))
        return g
    def x(s, i):   # coefficient i as a signed 32-bit value
        return z3.SignExt(16, s.X.get(s.X.index(i)))
    # the position is 8 * Q + pc bits (pc concrete); R = capacity - Q bytes
    def over(s, n=0):
        """the code with n more bits does not fit"""
        if isc(n): return z3.UGT(bv((s.pc + n + 7) // 8), s.R)
        return z3.UGT(bv(s.pc, 64) + z3.ZeroExt(32, n), z3.ZeroExt(32, s.R) * 8)
    def emit(s, br, pick, val, n):
        """append the n low bits of val (val < 2^n)"""
        n = pick(n, 32); val = z3.ZeroExt(32, bv(val)); s.lag = 0
        if s.clamp and br(s.over(n)):
            r = pick(s.R, 32) * 8 - s.pc
            if r: s.T = simpz((s.T << r) | z3.LShR(val, n - r)); s.pc += r
            return
        s.T = simpz((s.T << n) | val); s.pc += n
    def two(s, x): return z3.If(x >= 0, x * 2, -2 * x - 1)
    def step(s, br, pick):
        """one ghost transition"""
        if s.typ == 'MAIN':
            if br(s.pos == 4096): s.typ = 'DONE'; return
            if br(s.kv() != 0): s.typ = 'COLLECT'; s.nz = bv(0); return
            if s.var == 1:
                s.inp = s.x(s.pos); s.two1 = s.two(s.inp); s.v = s.two1; s.pos = simpz(s.pos + 1)
            else:
                s.two1 = s.two(s.x(s.pos)); s.pos = simpz(s.pos + 1)
                if br(s.pos == 4096): s.two2 = bv(0)
                else: s.two2 = s.two(s.x(s.pos)); s.pos = simpz(s.pos + 1)
                s.v = s.two1 + s.two2
            s.u = lshr(s.v, s.krv()); s.typ = 'UGR'
        elif s.typ == 'COLLECT':
            if br(s.pos == 4096): s.inp = bv(0); s.typ = 'EMIT'
            elif br(s.x(s.pos) == 0): s.pos = simpz(s.pos + 1); s.nz = simpz(s.nz + 1)
            else: s.inp = s.x(s.pos); s.pos = simpz(s.pos + 1); s.typ = 'EMIT'
        elif s.typ == 'EMIT':
            rm = bv(1) << s.kv()
            if br(z3.UGE(s.nz, rm)):
                s.emit(br, pick, 0, 1); s.nz = simpz(s.nz - rm); s.kp = simpz(umin(s.kp + 4, bv(80))); s.k = None
            else:
                s.emit(br, pick, 1, 1); s.emit(br, pick, s.nz, s.kv())
                if br(s.inp == 0): s.typ = 'MAIN'
                else:
                    s.emit(br, pick, z3.If(s.inp < 0, bv(1), bv(0)), 1)
                    s.v = z3.If(s.inp < 0, -s.inp, s.inp) - 1; s.u = lshr(s.v, s.krv()); s.typ = 'URL'
        elif s.typ in ('URL', 'UGR'):
            if not br(s.u == 0): s.emit(br, pick, (bv(1) << s.u) - 1, s.u)
            kr = s.krv(); lvk = lshr(s.v, kr)
            s.emit(br, pick, 0, 1)
            if isc(kr) and kr == 0: pass
            else: s.emit(br, pick, s.v & ((bv(1) << kr) - 1), kr)
            if br(lvk == 0): s.krp = simpz(z3.If(z3.ULT(s.krp, 2), bv(0), s.krp - 2)); s.kr = None
            elif br(z3.UGT(lvk, 1)): s.krp = simpz(umin(s.krp + lvk, bv(80))); s.kr = None
            if s.typ == 'URL': d = -6
            elif s.var == 1: d = 3 if br(s.v == 0) else -3
            else:
                n = pick(bitlen(z3.Extract(17, 0, s.v), 18), 18)
                if n: s.emit(br, pick, s.two1, n)
                a = br(s.two1 == 0); b = br(s.two2 == 0)
                d = 6 if a and b else -6 if not a and not b else 0
            if d > 0: s.kp = simpz(umin(s.kp + d, bv(80)))
            elif d < 0: s.kp = simpz(z3.If(z3.ULT(s.kp, -d), bv(0), s.kp + d))
            if d: s.k = None
            s.u = bv(0); s.typ = 'MAIN'
        else: raise Undecided('ghost past the end')
    def kv(s):
        if s.k is None: s.k = simpz(lshr(s.kp, 3)); s.k = s.k.as_long() if z3.is_bv_value(s.k) else s.k
        return s.k
    def krv(s):
        if s.kr is None: s.kr = simpz(lshr(s.krp, 3)); s.kr = s.kr.as_long() if z3.is_bv_value(s.kr) else s.kr
        return s.kr
    # ------------------------------------------------ candidate expressions
    def exprs(s):
        """name -> 32-bit expression"""
        Q = simpz(s.Q + (s.pc // 8 - s.lag)); m = bv(s.pc % 8 + 8 * s.lag); P = Q * 8 + m
        k = bv(s.kv()); kr = bv(s.krv()); e = {}
        e['kp'] = s.kp; e['krp'] = s.krp; e['k'] = k; e['kr'] = kr
        if s.typ == 'COLLECT':
            e['nz'] = s.nz; e['x[pos]'] = z3.If(s.pos == 4096, bv(0), s.x(s.pos)); e['nz+1'] = s.nz + 1
        if s.typ == 'EMIT': e['nz'] = s.nz; e['inp'] = s.inp; e['abs'] = z3.If(s.inp < 0, -s.inp, s.inp)
        if s.typ in ('URL', 'UGR'):
            e['u'] = s.u; e['umax'] = None; e['v>>kr'] = lshr(s.v, s.krv()); e['lvk-u'] = e['v>>kr'] - s.u; e['v'] = s.v; e['v&mask'] = s.v & ((bv(1) << kr) - 1); e['v+1'] = s.v + 1
            if s.typ == 'URL':
                e['inp'] = s.inp; e['sign'] = z3.If(s.inp < 0, bv(1), bv(0))
            else:
                e['two1'] = s.two1; e['two2'] = s.two2; e['x[pos-1]'] = s.x(s.pos - 1)
                if s.var == 1: e['inp'] = s.inp
        e['pos'] = s.pos; e['4096-pos'] = 4096 - s.pos; e['pos+1'] = s.pos + 1; e['4095-pos'] = 4095 - s.pos
        e['min(pos+1)'] = z3.If(s.pos == 4096, s.pos, s.pos + 1); e['4096-min(pos+1)'] = 4096 - e['min(pos+1)']
        e['m'] = m; e['8-m'] = 8 - m; e['Q'] = Q; e['cap-Q'] = simpz(s.R - (s.pc // 8 - s.lag)); e['T'] = z3.Extract(31, 0, s.T)
        e['P'] = P
        e['1<<k'] = bv(1) << k; e['(1<<k)-1'] = e['1<<k'] - 1; e['1<<kr'] = bv(1) << kr; e['(1<<kr)-1'] = e['1<<kr'] - 1
        e['2pos'] = s.pos * 2; e['31-m'] = 31 - m; e['32-m'] = 32 - m
        return e

def simpz(x): return z3.simplify(x)

def liveness(F):
    use = {}; deff = {}; pu = {b: {} for b in F.order}
    def regs(a, out):
        if isinstance(a, tuple):
            if len(a) == 2 and a[0] == 'v' and isinstance(a[1], str): out.add(a[1]); return
            for x in a: regs(x, out)
        elif isinstance(a, list):
            for x in a: regs(x, out)
        elif isinstance(a, str) and a[:1] == '%' : out.add(a)
    for b in F.order:
        u = set(); d = set()
        for ph in F.blocks[b].phis: d.add(ph.d)
        for I in F.blocks[b].ins:
            r = set()
            if I.op in ('br', 'switch'): regs(I.a[0], r)
            else: regs(I.a, r)
            u |= {x for x in r if x not in d}
            if I.d is not None: d.add(I.d)
        use[b] = u; deff[b] = d
        for ph in F.blocks[b].phis:
            for pb, v in ph.a.items():
                r = set(); regs(v, r); pu.setdefault(pb, {}).setdefault(b, set()).update(r)
    li = {b: set() for b in F.order}; ch = True
    allr = set(F.args)
    for b in F.order:
        allr |= {p.d for p in F.blocks[b].phis} | {I.d for I in F.blocks[b].ins if I.d}
    while ch:
        ch = False
        for b in reversed(F.order):
            lo = set()
            for t in F.succs(b): lo |= (li[t] - {p.d for p in F.blocks[t].phis}) | pu.get(b, {}).get(t, set())
            n = ((use[b] | (lo - deff[b])) & allr)
            if n != li[b]: li[b] = n; ch = True
    return li

class Undec2(Exception): pass
MAXCAP = 1 << 29

class Linear:
    """integer reasoning about sums of Q, R (both at most MAXCAP) and small constants, decided without the solver"""
    def __init__(s, Q, R):
        s.Q = Q; s.R = R; s.cache = {}
    def form(s, e):
        """(q, r, c): e is the integer q*Q + r*R + c, in any width, without wrapping; None: not of that form"""
        k = e.ast.value
        if k in s.cache: return s.cache[k][1]
        f = s.form1(e); s.cache[k] = (e, f)
        return f
    def form1(s, e):
        if z3.is_bv_value(e):
            c = sgn(e.as_long(), e.size()); return (0, 0, c) if abs(c) < 1 << 16 else None
        if e.eq(s.Q): return (1, 0, 0)
        if e.eq(s.R): return (0, 1, 0)
        k = e.decl().kind()
        if k == z3.Z3_OP_SIGN_EXT: return s.form(e.arg(0))
        if k == z3.Z3_OP_CONCAT and e.num_args() == 2 and z3.is_bv_value(e.arg(0)) and e.arg(0).as_long() == 0:
            f = s.form(e.arg(1)); return f if f and f[0] >= 0 and f[1] >= 0 and f[2] >= 0 else None
        if k == z3.Z3_OP_BADD and e.size() >= 32:
            r = (0, 0, 0)
            for i in range(e.num_args()):
                f = s.form(e.arg(i))
                if f is None: return None
                r = tuple(x + y for x, y in zip(r, f))
            return r if r[0] in (0, 1) and r[1] in (0, 1) and abs(r[2]) < 1 << 20 else None
        return None
    def small(s, e): return s.form(e) is not None
    def cmp(s, pr, x, y):
        if x.size() < 32: return None
        a = s.form(x)
        b = a and s.form(y)
        if not b or a[0] != b[0] or (a[0] == 0 and a[1] == b[1] == 0): return None
        r = a[1] - b[1]; c = a[2] - b[2]     # sign of r*R + c
        if pr[0] == 'u' :
            if not all(min(f) >= 0 for f in (a, b)): return None
        op = pr[-2:] if pr not in ('eq', 'ne') else pr
        if r == 0: return {'eq': c == 0, 'ne': c != 0, 'lt': c < 0, 'le': c <= 0, 'gt': c > 0, 'ge': c >= 0}[op]
        if r < 0: c = -c; op = {'lt': 'gt', 'le': 'ge', 'gt': 'lt', 'ge': 'le'}.get(op, op)
        k = -c                                # R op k
        if op == 'ge': op, k = 'gt', k - 1
        if op == 'lt': op, k = 'le', k - 1
        if op == 'gt': return True if k < 0 else simp(z3.UGT(s.R, k))
        if op == 'le': return False if k < 0 else simp(z3.ULE(s.R, k))
        if op == 'eq': return False if k < 0 else simp(s.R == k)
        return True if k < 0 else simp(s.R != k)

class CoefBuf(Obj):
    """the 4096 coefficients, addressed relative to the ghost's position at the start of the segment"""
    def __init__(s, pos):
        Obj.__init__(s, 'coefficients', 8192); s.pos = pos; s.cell = {}; s.onload = s.ld; s.onstore = s.st; s.wr = set(); s.conc = z3.is_bv_value(pos)
    def orig(s, j): return z3.BitVec('X%d' % j, 16)
    def get(s, j):
        if j not in s.cell: s.cell[j] = s.orig(j)
        return s.cell[j]
    def index(s, i):
        """ghost index -> cell"""
        d = simp(i - s.pos)
        if not isc(d): raise Undecided('ghost index')
        return sgn(d, 32)
    def rel(s, ex, off):
        if s.conc: o = off if isc(off) else ex.p.pick(off, 64)
        else: o = sgn(ex.p.pick(simp(BV(off, 64) - z3.ZeroExt(32, s.pos) * 2), 64), 64)
        if o & 1: raise Undecided('misaligned coefficient')
        return o // 2
    def ld(s, ex, o, off, w):
        if w != 2: raise Undecided('access of %d bytes to the coefficients' % w)
        return s.get(s.rel(ex, off))
    def st(s, ex, o, off, w, v):
        if w != 2: raise Undecided('access of %d bytes to the coefficients' % w)
        j = s.rel(ex, off)
        if not s.conc: ex.need(False, 'a coefficient is overwritten while coding')
        s.wr.add(j); s.cell[j] = bv(v, 16) if isc(v) else v

class OutBuf(Obj):
    """the output buffer, addressed relative to the ghost's byte position at the start of the segment"""
    def __init__(s, Q, R):
        Obj.__init__(s, 'buffer', simpz(z3.ZeroExt(32, Q) + z3.ZeroExt(32, R)))
        s.Q = Q; s.R = R; s.cell = {}; s.onload = s.ld; s.onstore = s.st; s.q64 = simpz(z3.ZeroExt(32, Q)); s.lin = Linear(Q, R); s.inb = s.inside
    def get(s, j):
        if j not in s.cell: s.cell[j] = z3.BitVec('A%d' % j, 8)
        return s.cell[j]
    def rel(s, ex, off):
        if z3.is_bv_value(s.Q): return off if isc(off) else ex.p.pick(off, 64)
        if not isc(off):
            f = s.lin.form(off)
            if f and f[:2] == (1, 0): return f[2]
        return sgn(ex.p.pick(simp(BV(off, 64) - s.q64), 64), 64)
    def inside(s, off, w):
        if isc(off): return None
        f = s.lin.form(off)
        if f and f[:2] == (1, 0) and f[2] >= 0: return simp(z3.UGE(s.R, f[2] + w))
    def ld(s, ex, o, off, w):
        j = s.rel(ex, off); r = None
        for i in range(w):
            b = s.get(j + i); r = b if r is None else ex.concat(b, r, 8, 8 * i)
        return r
    def st(s, ex, o, off, w, v):
        j = s.rel(ex, off)
        if j < 0: ex.need(False, 'an output byte that was already complete is overwritten')
        for i in range(w): s.cell[j + i] = bv(v >> 8 * i & 255, 8) if isc(v) else (v if w == 1 else simpz(z3.Extract(8 * i + 7, 8 * i, v)))

class Prover:
    """variant 1 or 3; diff: None (slow encoder: clamp at the capacity) or the difference span (fast encoder: error return)"""
    def __init__(s, M, fn, variant, diff, deadline=None):
        s.M = M; s.fn = fn; s.F = M.funcs[fn]; s.var = variant; s.diff = diff; s.clamp = diff is None
        s.live = liveness(s.F); s.rty = {}
        for b in s.F.order:
            for I in list(s.F.blocks[b].phis) + s.F.blocks[b].ins:
                if I.d: s.rty[I.d] = I.ty if I.op not in ('icmp', 'gep') else (llir.INT(1) if I.op == 'icmp' else llir.PTR)
        s.assoc = {}; s.cands = {}; s.cuts = set(); s.ob = 0; s.paths = 0; s.stats = dict(t=0.0, q=0); s.fails = []; s.deadline = deadline
        s.stop_at_fail = True; s.changed = False; s.touched = set(); s.dropped = []
    # ---------------------------------------------------------------- set up one segment
    def setup(s, path, fixed, entry=False):
        ex = Exec(s.M, path); ex.cuts = s.cuts; ex.depth = 1
        Q = bv(0) if entry else z3.BitVec('Q', 32); R = z3.BitVec('R', 32); cap = simpz(Q + R)
        path.assume(z3.And(z3.ULE(Q, MAXCAP), z3.ULE(R, MAXCAP)))
        pos = bv(0) if entry else z3.BitVec('pos', 32)
        co = CoefBuf(pos); out = OutBuf(Q, R)
        if s.clamp: co.ro = True
        g = Ghost(co, cap, s.var, s.clamp); g.lag = 0; g.Q = Q; g.R = R
        ex.co = co; ex.out = out
        if not entry: ex.linear = out.lin
        env = {}
        for i, a in enumerate(s.F.args):
            env[a] = [Ptr(co, 0), Ptr(out, 0), cap, s.diff][i]
        return ex, env, g
    def start_entry(s, path, fixed):
        ex, env, g = s.setup(path, fixed, True)
        g.pc = 0; g.T = bv(0, 64); g.kp = bv(8); g.krp = bv(8); g.k = 1; g.kr = 1; g.pos = bv(0); g.typ = 'MAIN'
        ex.entry = True
        s.go(ex, env, g, s.F.order[0], None, False, None)
    def start_cut(s, h, path, fixed):
        ex, env, g = s.setup(path, fixed); assoc, cands = s.snap
        typ = assoc[h]
        g.typ = typ
        def var(n, w, lo, hi):
            if n in fixed: return z3.BitVecVal(fixed[n], w)
            v = z3.BitVec(n, w); path.assume(z3.And(z3.UGE(v, lo), z3.ULE(v, hi))); ex.split[n] = range(lo, hi + 1); return v
        g.pc = fixed['m']; g.lag = g.pc // 8; g.T = z3.BitVec('T', 64)
        if s.clamp and g.pc: path.assume(z3.UGE(g.R, 1))
        f = z3.BitVec('f', 32); gg = z3.BitVec('g', 32); path.assume(z3.And(z3.ULE(f, 7), z3.ULE(gg, 7)))
        k = var('k', 32, 1 if typ in ('COLLECT', 'EMIT', 'URL') else 0, 10 if typ != 'UGR' else 0); kr = var('kr', 32, 0, 10)
        g.kp = simpz(k * 8 + f); g.krp = simpz(kr * 8 + gg); path.assume(z3.And(z3.ULE(g.kp, 80), z3.ULE(g.krp, 80)))
        g.k = k.as_long() if z3.is_bv_value(k) else k; g.kr = kr.as_long() if z3.is_bv_value(kr) else kr
        g.pos = ex.co.pos; path.assume(z3.ULE(g.pos, 4096))
        s.invariant_vars(g, path)
        defreg = None
        if typ in ('URL', 'UGR'):
            d = s.defreg(h, cands)
            if d:
                defreg = d; pv = z3.BitVec('phi' + d[0], 32)
                g.u = pv if d[1] == 'u' else z3.If(pv < 0, bv(0), pv) if d[1] == 'umax' else lshr(g.v, g.krv()) - pv
            path.assume(z3.ULE(g.u, lshr(g.v, g.krv())))
        for c in s.inv(g): path.assume(c)
        if assoc.get((h, 'mem')): path.assume(s.partial(ex.out, g))
        for n, c in s.preds(g).items():
            if assoc.get((h, 'pred', n)): path.assume(c)
        E = g.exprs()
        blk = s.F.blocks[h[1]]
        for r in s.state(h):
            cs = cands[r]; ty = s.rty[r]
            if defreg and r == defreg[0]:
                env[r] = pv if ty.n == 32 else None; cs = [c for c in cs if c[0] == 'e' and c[1] not in ('u', 'umax', 'lvk-u')]
                for c in cs: path.assume(s.cexpr(c, E, ty) == pv)
                continue
            if ty.k == 'ptr':
                ob = assoc[(h, r)]
                off = s.coff(cs[0], E) if cs else z3.BitVec('off' + r, 64)
                for c in cs[1:]: path.assume(s.coff(c, E) == off)
                env[r] = Ptr(ex.co if ob == 'c' else ex.out, simp(off))
            elif ty.n == 1: env[r] = z3.Bool('h' + r)
            else:
                eq = [c for c in cs if c[0] != 'low']
                v = s.cexpr(eq[0], E, ty) if eq else z3.BitVec('h' + r, ty.n)
                for c in eq[1:]: path.assume(s.cexpr(c, E, ty) == v)
                for c in cs:
                    if c[0] == 'low': path.assume(s.low(v, g))
                env[r] = simp(v)
        ex.entry = None
        s.go(ex, env, g, h[1], None, True, h)
    def low(s, v, g):
        mask = (1 << g.pc % 8 + 8 * g.lag) - 1
        return (v & mask) == (z3.Extract(31, 0, g.T) & mask)
    def state(s, h):
        return sorted((s.live[h[1]] | {p.d for p in s.F.blocks[h[1]].phis}) - set(s.F.args))
    def defreg(s, h, cands=None):
        cands = s.cands[h] if cands is None else cands
        for p in s.F.blocks[h[1]].phis:
            for c in cands.get(p.d, []):
                if c[0] == 'e' and c[1] in ('u', 'umax', 'lvk-u') and p.ty.k == 'int' and p.ty.n == 32:
                    if any(v != ('v', p.d) for b, v in p.a.items() if b in s.F.loops()[h[1]]): return p.d, c[1]
        return None
    def invariant_vars(s, g, path):
        t = g.typ
        if t in ('COLLECT', 'EMIT'): g.nz = z3.BitVec('nz', 32)
        if t in ('EMIT', 'URL') or (t == 'UGR' and s.var == 1): g.inp = z3.SignExt(16, z3.BitVec('inp', 16))
        if t == 'URL': g.v = simpz(z3.If(g.inp < 0, -g.inp, g.inp) - 1); g.u = z3.BitVec('u', 32)
        if t == 'UGR':
            g.u = z3.BitVec('u', 32)
            if s.var == 1: g.two1 = g.two(g.inp); g.v = g.two1
            else: g.two1 = z3.ZeroExt(16, z3.BitVec('two1', 16)); g.two2 = z3.ZeroExt(16, z3.BitVec('two2', 16)); g.v = g.two1 + g.two2
    def inv(s, g):
        """ghost invariants that hold at a stop (checked on arrival, assumed at the start)"""
        r = [z3.ULE(g.kp, 80), z3.ULE(g.krp, 80), z3.ULE(g.pos, 4096)]
        if g.typ in ('COLLECT', 'EMIT', 'URL'): r.append(z3.UGE(g.kp, 8))
        if g.typ == 'UGR': r.append(z3.ULT(g.kp, 8))
        if g.typ == 'COLLECT': r.append(z3.ULE(g.nz, g.pos))
        if g.typ == 'EMIT': r += [z3.ULE(g.nz, g.pos), z3.Implies(g.inp == 0, g.pos == 4096)]
        if g.typ == 'URL': r.append(g.inp != 0)
        if g.typ in ('URL', 'UGR'): r.append(z3.ULE(g.u, lshr(g.v, g.krv())))
        return r
    def preds(s, g):
        """inequalities that may hold at a stop (inferred like the equalities)"""
        if g.typ in ('URL', 'UGR'):
            return {'room for the unary part': lshr(g.u, 3) <= g.R - (g.pc // 8 - g.lag)}
        return {}
    # ---------------------------------------------------------------- candidates
    def cexpr(s, c, E, ty):
        if c[0] == 'const': return bv(c[1], ty.n)
        e = E[c[1]]
        return e if ty.n == 32 else z3.ZeroExt(ty.n - 32, e) if ty.n > 32 else z3.Extract(ty.n - 1, 0, e)
    def coff(s, c, E):
        if c[0] == 'const': return bv(c[1], 64)
        return z3.ZeroExt(32, E[c[1]]) * c[2]
    def candidates(s, r, v, E, g, phi):
        """all candidates for register r whose value is v"""
        ty = s.rty[r]
        if isinstance(v, Ptr):
            out = []
            if isc(v.off): out.append(('const', v.off & (1 << 64) - 1))
            names = [('pos', 2), ('min(pos+1)', 2), ('pos+1', 2)] if v.o.name == 'coefficients' else [('Q', 1)]
            return out + [('p', n, k) for n, k in names]
        if ty.n == 1: return []
        out = []
        if isc(v): out.append(('const', v))
        for n in E:
            if n == 'umax': 
                if phi: out.append(('e', 'umax'))
            elif n in ('u', 'lvk-u') and not phi: continue
            else: out.append(('e', n))
        if ty.n == 32: out.append(('low',))
        return out
    def holds(s, c, r, v, E, g):
        ty = s.rty[r]
        if isinstance(v, Ptr): return BV(v.off, 64) == s.coff(c, E)
        v = BV(v, ty.n)
        if c[0] == 'low': return s.low(v, g)
        if c[0] == 'e' and c[1] == 'umax': return z3.If(v < 0, bv(0), v) == E['u']
        return v == s.cexpr(c, E, ty)
    # ---------------------------------------------------------------- run a segment
    def go(s, ex, env, g, blk, prev, first, h):
        s.paths += 1
        if s.deadline and time.time() > s.deadline: raise Undecided('time limit')
        p = ex.p
        try:
            try:
                ret = ex.run(s.F, blk, prev, env, first)
            except Arrive as a:
                s.arrive(ex, g, h, a); return
            s.final(ex, g, ret)
        finally:
            s.ob += ex.ob; s.touched |= ex.touched
    def br(s, ex): return ex.p.decide_or_fork
    def advance(s, ex, g, t):
        """emit t ones"""
        ex.need(simp(z3.And(z3.ULE(t, g.u), z3.ULE(t, 40))), 'unary progress')
        g.u = simpz(g.u - t)
        g.emit(ex.p.decide_or_fork, lambda e, w: ex.p.pick(e, w), z3.simplify((bv(1) << t) - 1) if True else 0, t)
    def drive(s, ex, g, typ, must, br):
        n = 0
        pick = lambda e, w: ex.p.pick(e, w)
        while True:
            if g.typ == typ and (n or not must or typ in ('URL', 'UGR')):
                return n
            if g.typ == 'DONE': raise Fail('the code reaches a %s point after the specification has finished' % typ)
            g.step(br, pick); n += 1
            if n > 40: raise Fail('the specification machine does not reach %s' % typ)
    def entrycheck(s, ex, g):
        """entry segment: the difference pass"""
        if ex.entry is None: return
        co = ex.co; d = s.diff or 0
        want = set(range(4096 - d + 1, 4096)) if d else set()
        ex.where = s.fn.lstrip('@')
        for j in sorted(want | co.wr):
            b = co.orig(j)
            if j in want: b = b - co.orig(j - 1)
            ex.need(simp(co.get(j) == b), 'coefficient %d is not the one the difference pass must leave' % j)
    def seal(s, ex, g):
        """the bytes completed in this segment"""
        out = ex.out; ex.where = s.fn.lstrip('@')
        d = g.pc // 8 - g.lag; m1 = g.pc % 8 + 8 * g.lag
        if g.pc > 64: raise Undecided('more than 64 bits between two cuts')
        for j in range(d):
            lo = 8 * (d - 1 - j) + m1
            ex.need(simp(out.get(j) == z3.Extract(lo + 7, lo, g.T)), 'output byte differs from the specified code')
    def partial(s, out, g):
        m = g.pc % 8
        if m == 0 or g.lag: return z3.BoolVal(True)
        return z3.Extract(7, 8 - m, out.get(g.pc // 8)) == z3.Extract(m - 1, 0, g.T)
    def arrive(s, ex, g, h0, a):
        h = a.hdr; p = ex.p; blk = s.F.blocks[h[1]]
        s.entrycheck(ex, g)
        ex.where = '%s: at loop %s' % (s.fn.lstrip('@'), h[1])
        vals = {}
        for ph in blk.phis: vals[ph.d] = ex.opv(a.env, ph.a[a.prev], ph.ty)
        st = s.state(h)
        for r in st:
            if r not in vals: vals[r] = a.env[r]
        if not p.feasible(): raise Infeasible()
        if h not in s.assoc: s.choose(ex, g, h, vals); 
        typ = s.assoc[h]
        s.drive(ex, g, typ, h == h0, s.br(ex))
        while typ in ('URL', 'UGR'):
            d = s.defreg(h)
            if not d: break
            pv = BV(vals[d[0]], 32)
            nu = pv if d[1] == 'u' else z3.If(pv < 0, bv(0), pv) if d[1] == 'umax' else lshr(g.v, g.krv()) - pv
            if p.valid(simp(z3.And(z3.ULE(nu, g.u), z3.ULE(g.u - nu, 40)))): s.advance(ex, g, simpz(g.u - nu)); break
            s.cands[h][d[0]].remove(('e', d[1])); s.changed = True; s.dropped.append((h, d[0], d[1]))
        if not p.feasible(): raise Infeasible()
        ex.where = '%s: at loop %s' % (s.fn.lstrip('@'), h[1])
        for c in s.inv(g): ex.need(simp(c), 'range of the specification state')
        for r in st:
            v = vals[r]
            if isinstance(v, Ptr):
                ob = 'c' if v.o is ex.co else 'o' if v.o is ex.out else None
                if s.assoc.setdefault((h, r), ob) != ob or ob is None: raise Undecided('pointer variable with two targets')
        g.lag = 0
        if g.pc and g.pc % 8 == 0 and not s.clamp:
            # the last full byte may be still in the code's bit register
            ptrs = [(r, c) for r in st for c in s.cands[h][r] if c[:2] == ('p', 'Q')] or [(r, c) for r in st for c in s.cands[h][r] if c[1:] in (('Q',), ('cap-Q',))]
            def count():
                E = g.exprs()
                return len(s.filter(p, [(r, c, s.holds(c, r, vals[r], E, g)) for r, c in ptrs]))
            n0 = count(); g.lag = 1; n1 = count()
            if n1 <= n0: g.lag = 0
            elif (h, 'm8') not in s.assoc: s.assoc[(h, 'm8')] = True; s.changed = True
        s.seal(ex, g)
        if not s.clamp: ex.need(simp(z3.ULE(bv(g.pc // 8 - g.lag), g.R)), 'position beyond the capacity')
        if s.assoc.get((h, 'mem'), True):
            ok = p.valid(simp(s.partial(ex.out, g)))
            if (h, 'mem') not in s.assoc: s.assoc[(h, 'mem')] = ok
            elif not ok: s.assoc[(h, 'mem')] = False; s.changed = True
            else: ex.ob += 1
        for n, c in s.preds(g).items():
            if s.assoc.get((h, 'pred', n), True):
                ok = p.valid(simp(c))
                if (h, 'pred', n) not in s.assoc: s.assoc[(h, 'pred', n)] = ok
                elif not ok: s.assoc[(h, 'pred', n)] = False; s.changed = True
                else: ex.ob += 1
        # variables
        E = g.exprs()
        conj = []
        for r in st:
            for c in s.cands[h][r]: conj.append((r, c, s.holds(c, r, vals[r], E, g)))
        ex.ob += len(conj)
        keep = s.filter(p, conj)
        if len(keep) < len(conj):
            s.changed = True; ks = {(r, c) for r, c, e in keep}
            for r in st: s.cands[h][r] = [c for c in s.cands[h][r] if (r, c) in ks]
            s.dropped += [(h, r, c) for r, c, e in conj if (r, c) not in ks]
    def filter(s, p, conj):
        """the (r, c, formula) whose formula is implied by the path condition"""
        conj = [x for x in conj if not z3.is_false(x[2])]
        if p.model is not None: conj = [x for x in conj if z3.is_true(p.model.eval(x[2], True))]
        while conj:
            f = z3.simplify(z3.And([x[2] for x in conj]))
            if z3.is_true(f) or not p.chk(z3.Not(f)): break
            m = p.solver.model(); conj = [x for x in conj if z3.is_true(m.eval(x[2], True))]
        return conj
    def choose(s, ex, g, h, vals):
        best = None
        def br(c):
            d = ex.p.decide(c)
            if d is None: raise Undec2()
            return d
        for typ in ('MAIN', 'COLLECT', 'EMIT', 'URL', 'UGR'):
            gg = g.clone()
            try: n = s.drive(ex, gg, typ, False, br)
            except (Undec2, Fail, Undecided, z3.Z3Exception): continue
            E = gg.exprs(); sc = 0; cd = {}
            phis = {p.d for p in s.F.blocks[h[1]].phis}
            conj = []
            for r in s.state(h):
                cd[r] = []
                for c in s.candidates(r, vals[r], E, gg, r in phis): conj.append((r, c, z3.simplify(s.holds(c, r, vals[r], E, gg))))
            conj = s.filter(ex.p, conj)
            for r, c, e in conj: cd[r].append(c)
            for r in cd:
                if any(c[0] == 'e' and c[1] == 'T' for c in cd[r]): cd[r] = [c for c in cd[r] if c[0] != 'low']
                if any(c[0] in ('e', 'p') for c in cd[r]): sc += 1
            if any(s.assoc[x] == typ for x in s.headers() if x != h): sc -= 100
            if best is None or (sc, -n) > best[0]: best = ((sc, -n), typ, cd)
        if best is None: raise Undecided('%s: no specification state fits loop %s' % (s.fn, h[1]))
        s.assoc[h] = best[1]; s.cands[h] = best[2]; s.changed = True
        for r in s.state(h):
            if isinstance(vals[r], Ptr): s.assoc[(h, r)] = 'c' if vals[r].o is ex.co else 'o'
    def final(s, ex, g, ret):
        p = ex.p; br = s.br(ex); pick = lambda e, w: p.pick(e, w)
        s.entrycheck(ex, g)
        if not p.feasible(): raise Infeasible()
        ex.where = s.fn.lstrip('@') + ': return'
        if not s.clamp and isc(ret) and sgn(ret, 32) < 0:
            # error return: the code of the symbols so far already does not fit
            while True:
                if p.valid(simp(g.over())): ex.ob += 1; break
                if g.typ == 'DONE': ex.need(simp(g.over()), 'an error is reported although the code fits'); break
                if g.typ in ('URL', 'UGR'):
                    # unary part alone may be larger than the ghost's window
                    gg = g
                    if p.valid(simp(g.over(g.u))): ex.ob += 1; break
                t0 = g.typ; g.step(br, pick)
                if g.typ == 'MAIN' and t0 != 'MAIN' :
                    ex.need(simp(g.over()), 'an error is reported although the code so far fits'); break
            return
        n = 0
        while g.typ != 'DONE':
            g.step(br, pick); n += 1
            if n > 60: raise Fail('return before all coefficients are coded')
        if not p.feasible(): raise Infeasible()
        s.seal(ex, g)
        ex.need(simp(s.partial(ex.out, g)), 'last output byte differs from the specified code')
        n = (g.pc + 7) // 8
        ex.need(simp(BV(ret, 32) == g.Q + n), 'reported size differs from the length of the code')
        ex.need(simp(z3.ULE(bv(n), g.R)), 'code larger than the buffer')
    # ---------------------------------------------------------------- drive everything
    def segment(s, h, fixed, only=None):
        """explore one segment; returns the list of further (fixed) jobs when a split is needed"""
        s.snap = dict(s.assoc), {x: list(c) for x, c in s.cands.get(h, {}).items()}
        def start(path):
            if h is None: s.start_entry(path, fixed)
            else: s.start_cut(h, path, fixed)
        try:
            explore(start, s.stats, deadline=s.deadline)
            return []
        except SplitNeeded as e:
            v = e.var
            rng = {'m': range(8), 'k': range(11), 'kr': range(11)}[v]
            return [dict(fixed, **{v: x}) for x in rng]
        except CutLoop:
            v = 'kr' if 'kr' not in fixed else 'k' if 'k' not in fixed else None
            if v is None or h is None: raise
            return [dict(fixed, **{v: x}) for x in range(11)]
    def one(s, h, fixed, fails):
        todo = [fixed]; 
        while todo:
            f = todo.pop()
            try: todo += s.segment(h, f)
            except (Fail, Undecided) as e:
                fails.append((h, f, e))
                if len(fails) > 3: return
    SAMPLE = [dict(m=0, k=1, kr=1), dict(m=0, k=0, kr=1), dict(m=3, k=2, kr=0), dict(m=7, k=10, kr=10), dict(m=5, k=0, kr=2), dict(m=6, k=0, kr=0), dict(m=1, k=3, kr=4), dict(m=0, k=6, kr=3)]
    SAMPLE8 = [dict(m=8, k=1, kr=1), dict(m=8, k=0, kr=0)]
    def discover(s, rounds=40):
        """infer the invariants; stable on a sample of the concretised state"""
        for rnd in range(rounds):
            s.changed = False; fails = []
            seen = set(); todo = [None]
            try:
                while todo:
                    h = todo.pop(0)
                    if h in seen: continue
                    seen.add(h)
                    for fx in ([{}] if h is None else s.SAMPLE + (s.SAMPLE8 if (h, 'm8') in s.assoc else [])):
                        s.one(h, fx, fails)
                    todo += [x for x in s.assoc if isinstance(x, tuple) and len(x) == 2 and x[1] in s.F.blocks and x not in seen and x[0] == s.fn]
            except CutLoop as e:
                if DEBUG: print('cut', e.key, 'at', h, fx, {x: s.assoc[x] for x in s.headers()}, s.cands.get(h))
                s.addcut(e.key)
                continue
            if not s.changed: return fails
        return fails + [(None, {}, 'the inferred invariants do not stabilise')]
    def addcut(s, key):
        # the outermost enclosing loop that is not cut yet
        enc = sorted((h for h, body in s.F.loops().items() if key[1] in body and (s.fn, h) not in s.cuts), key=lambda h: -len(s.F.loops()[h]))
        s.cuts.add((s.fn, enc[0]))
    def headers(s): return [x for x in s.assoc if isinstance(x, tuple) and len(x) == 2 and x[0] == s.fn and x[1] in s.F.blocks]
