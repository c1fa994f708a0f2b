"""The specification encoder (rlgr.Ghost) is inverted by the MS-RDPRFX decoding procedure (3.1.8.1.7.3): one lemma per symbol, for
every parameter state.  The encoder's output is kept as a list of bit groups; the decoder reads groups."""
import z3
from bvx import *
import rlgr
from rlgr import bv, lshr, umin, simpz

class G(rlgr.Ghost):
    def __init__(s, var):
        s.var = var; s.clamp = False; s.log = []; s.cap = bv(0); s.lag = 0
        for f in ('nz', 'inp', 'u', 'v', 'two1', 'two2'): setattr(s, f, bv(0))
    def emit(s, br, pick, val, n):
        if not br(simp(bv(n) == 0)): s.log.append((bv(val), n))

class Dec:
    """decoder: kp, krp; reads bit groups"""
    def __init__(s, ex, log, kp, krp): s.ex = ex; s.log = list(log); s.kp = kp; s.krp = krp
    def need(s, c, w): s.ex.need(simp(c), w)
    def bits(s, n):
        """read n bits (n > 0)"""
        if not s.log: raise Fail('decoder reads past the end of the code')
        v, m = s.log.pop(0)
        s.need(bv(n) == bv(m), 'decoder and encoder disagree on a field width')
        s.need(z3.Or(z3.UGE(bv(n), 32), z3.ULT(v, bv(1) << bv(n))), 'field value does not fit its width')
        return v
    def unary(s):
        """count of one bits before the next zero bit"""
        v, m = s.log.pop(0); m = bv(m)
        if s.ex.p.valid(simp(z3.And(m == 1, v == 0))): return bv(0)
        # a group of m ones, then a zero bit
        s.need(z3.And(z3.Or(z3.UGE(m, 32), v == (bv(1) << m) - 1)), 'unary part')
        z, n = s.log.pop(0); s.need(z3.And(bv(n) == 1, z == 0), 'unary part is not terminated by a zero bit')
        return m
    def gr(s):
        br = s.ex.p.decide_or_fork
        kr = lshr(s.krp, 3); vk = s.unary()
        v = vk << kr
        if not br(simp(kr == 0)): v = v | s.bits(simpz(kr))
        if br(simp(vk == 0)): s.krp = z3.If(z3.ULT(s.krp, 2), bv(0), s.krp - 2)
        elif br(simp(vk != 1)): s.krp = umin(s.krp + vk, bv(80))
        return v
    def signed(s, v):
        return z3.If(v & 1 == 1, -lshr(v + 1, 1), lshr(v, 1))

def setup(ex, var):
    g = G(var); f = z3.BitVec('kp', 32); r = z3.BitVec('krp', 32)
    ex.p.assume(z3.And(z3.ULE(f, 80), z3.ULE(r, 80)))
    g.kp = f; g.krp = r; g.k = None; g.kr = None; g.pos = z3.BitVec('pos', 32); ex.p.assume(z3.ULE(g.pos, 4096))
    g.Q = bv(0); g.R = bv(0); g.pc = 0; g.T = bv(0, 64)
    return g

def lemma(ctx, var):
    """var 1 / 3"""
    stats = dict(t=0.0, q=0); obs = [0, 0]
    M = ctx.M
    pickn = lambda ex: (lambda e, w: ex.p.pick(e, w))
    class X:
        def __init__(s): s.cell = {}
        def index(s, i): return simpz(i).sexpr()
        def get(s, i): return z3.BitVec('x[%s]' % i, 16)
    def rl(path):
        ex = Exec(M, path); ex.where = 'RLGR%d run-length symbol' % var; g = setup(ex, var)
        path.assume(z3.UGE(g.kp, 8)); g.typ = 'EMIT'; g.nz = z3.BitVec('nz', 32); g.inp = z3.SignExt(16, z3.BitVec('inp', 16))
        # nz zeros, then inp; inp is 0 exactly when the block ended inside the run
        path.assume(z3.And(z3.ULE(g.nz, g.pos), z3.Implies(g.inp == 0, g.pos == 4096), z3.Implies(g.inp != 0, z3.ULT(g.nz, g.pos))))
        acc = z3.BitVec('acc', 32); total = simpz(acc + g.nz)       # the decoder has collected acc zeros of this run so far
        inp = g.inp; nz0 = g.nz
        br = path.decide_or_fork; g.step(br, pickn(ex)); dkp = z3.BitVec('kp', 32)
        log = list(g.log); g.log = []
        D = Dec(ex, log, dkp, z3.BitVec('krp', 32)); k = lshr(D.kp, 3)
        b = D.bits(1)
        if br(simp(b == 0)):
            D.kp = umin(D.kp + 4, bv(80))
            ex.need(simp(acc + (bv(1) << k) + g.nz == total), 'zeros left after a full run'); ex.need(g.typ == 'EMIT', 'encoder continues the run')
            ex.need(simp(z3.ULE(g.nz, g.pos)), 'range')
        else:
            run = acc + D.bits(simpz(k))
            ex.need(simp(run == total), 'decoded run length')
            # the decoder stops when the block is full: exactly when the encoder had no value left
            if g.typ == 'MAIN': ex.need(simp(z3.And(inp == 0, g.pos == 4096)), 'end of the block')
            else:
                ex.need(simp(inp != 0), 'value after the run')
                sign = D.bits(1); D.log0 = D.log
                g.step(br, pickn(ex)); D.log += g.log; v = D.gr(); mag = v + 1
                ex.need(simp(z3.If(sign == 1, -mag, mag) == inp), 'decoded value'); ex.need(not D.log, 'all bits read')
                D.kp = z3.If(z3.ULT(D.kp, 6), bv(0), D.kp - 6); ex.need(g.typ == 'MAIN', 'next symbol')
        ex.need(not D.log, 'all bits read')
        ex.need(simp(z3.And(g.kp == D.kp, g.krp == D.krp)), 'adaptation state'); obs[0] += ex.ob
    def gr(path):
        ex = Exec(M, path); ex.where = 'RLGR%d Golomb-Rice symbol' % var; g = setup(ex, var); g.X = X()
        path.assume(z3.And(z3.ULT(g.kp, 8), z3.ULT(g.pos, 4096))); g.typ = 'MAIN'; pos = g.pos
        br = path.decide_or_fork; g.step(br, pickn(ex)); g.step(br, pickn(ex))
        D = Dec(ex, g.log, z3.BitVec('kp', 32), z3.BitVec('krp', 32)); v = D.gr()
        if var == 1:
            ex.need(simp(D.signed(v) == g.x(pos)), 'decoded value')
            if br(simp(v == 0)): D.kp = umin(D.kp + 3, bv(80))
            else: D.kp = z3.If(z3.ULT(D.kp, 3), bv(0), D.kp - 3)
            ex.need(simp(g.pos == pos + 1), 'one coefficient consumed')
        else:
            n = path.pick(bitlen(simpz(z3.Extract(17, 0, v)), 18), 18); ex.need(simp(z3.ULT(v, 1 << 18)), 'range')
            v1 = D.bits(n) if n else bv(0); v2 = v - v1
            ex.need(simp(D.signed(v1) == g.x(pos)), 'first decoded value')
            if br(simp(pos == 4095)): ex.need(simp(v2 == 0), 'second value past the end'); ex.need(simp(g.pos == 4096), 'end')
            else: ex.need(simp(D.signed(v2) == g.x(simpz(pos + 1))), 'second decoded value'); ex.need(simp(g.pos == pos + 2), 'two coefficients consumed')
            a = br(simp(v1 != 0)); b = br(simp(v2 != 0))
            if a and b: D.kp = z3.If(z3.ULT(D.kp, 6), bv(0), D.kp - 6)
            elif not a and not b: D.kp = umin(D.kp + 6, bv(80))
        ex.need(not D.log, 'all bits read'); ex.need(g.typ == 'MAIN', 'next symbol')
        ex.need(simp(z3.And(g.kp == D.kp, g.krp == D.krp)), 'adaptation state'); obs[0] += ex.ob
    n1 = explore(rl, stats); n2 = explore(gr, stats)
    ctx.good(obs[0], 'z3'); ctx.solver += stats['t']
    ctx.notes.append('decoder lemma RLGR%d: %d + %d paths, %d obligations' % (var, n1, n2, obs[0]))
