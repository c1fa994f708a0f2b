"""Path-exploring executor over bit-vectors (z3).  Control may depend on data: every feasible path is enumerated by re-execution
with a decision prefix.  Values: python ints (concrete, stored unsigned), z3 BitVec, bool / z3 Bool for i1, Ptr.
Memory objects are either cell maps (concrete offsets) or arrays (symbolic offsets)."""
import time
import z3
import llir
import z3.z3core
z3.z3core.Elementaries.Check = lambda s, c: None     # no error query after every API call (errors give null terms or 'unknown'); a third less python time
z3.z3.Z3_DEBUG = False

class Undecided(Exception): pass
class Fail(Exception): pass
class Infeasible(Exception): pass
class SplitNeeded(Exception):
    def __init__(s, var): Exception.__init__(s, var); s.var = var
class CutLoop(Exception):
    def __init__(s, key): Exception.__init__(s, str(key)); s.key = key
class Arrive(Exception):
    """a cut header was reached"""
    def __init__(s, hdr, prev, env): s.hdr = hdr; s.prev = prev; s.env = env

class Obj:
    def __init__(s, name, size, kind='cells', ew=1, ro=False):
        s.name = name; s.size = size; s.kind = kind; s.ew = ew; s.ro = ro
        s.c = {}; s.arr = None; s.log = None; s.freed = False; s.onstore = None; s.onload = None; s.local = False; s.inb = None
class Ptr:
    __slots__ = ('o', 'off')
    def __init__(s, o, off): s.o = o; s.off = off
    def __repr__(s): return '&%s+%s' % (s.o.name if s.o else 'null', s.off)
class FnPtr:
    def __init__(s, name): s.name = name
NULL = Ptr(None, 0)

def isc(x): return type(x) is int
def sgn(x, w): return x - (1 << w) if x >> (w - 1) & 1 else x
_bvc = {}
def BV(x, w):
    if type(x) is not int: return x
    r = _bvc.get((x, w))
    if r is None: r = _bvc[(x, w)] = z3.BitVecVal(x, w)
    return r
def B(x): return z3.BoolVal(x) if type(x) is bool else x
def simp(x):
    r = z3.simplify(x)
    if z3.is_bv_value(r): return r.as_long()
    if z3.is_true(r): return True
    if z3.is_false(r): return False
    return r
_bl = {}
def bitlen(x, w):
    c = _bl.get(x.ast.value)
    if c is not None: return c[1]
    r = BV(0, w)
    for k in range(w): r = z3.If(z3.Extract(k, k, x) == 1, BV(k + 1, w), r)
    r = z3.simplify(r); _bl[x.ast.value] = (x, r)
    return r
def cvars(e, acc=None, seen=None):
    """names of the uninterpreted constants in e"""
    out = set(); st = [e]; seen = set()
    while st:
        x = st.pop(); i = x.get_id()
        if i in seen: continue
        seen.add(i)
        if x.num_args() == 0:
            if x.decl().kind() == z3.Z3_OP_UNINTERPRETED: out.add(x.decl().name())
        else: st.extend(x.children())
    return out

MKSOLVER = lambda: z3.SolverFor('QF_ABV')
class Inc:
    """one incremental solver shared by the paths of an exploration; the assertion stack follows the current path"""
    def __init__(s): s.solver = MKSOLVER(); s.solver.set('timeout', 60000); s.stack = []
class Path:
    """one path: the path condition, the decisions, the obligations"""
    def __init__(s, prefix, stats, inc=None, model0=None):
        s.prefix = prefix; s.dec = []; s.inc = inc or Inc(); s.solver = s.inc.solver; s.alts = []; s.stats = stats; s.n = 0
        s.model = None; s.und = 0; s.facts = []; s.model0 = model0
        if not prefix: s.sync()
    def assume(s, c):
        if c is True: return
        if c is False: raise Infeasible()
        c = z3.simplify(c)
        if z3.is_true(c): return
        if z3.is_false(c): raise Infeasible()
        st = s.inc.stack
        if s.n < len(st) and st[s.n].eq(c): s.n += 1
        else:
            s.sync(); s.solver.push(); s.solver.add(c); st.append(c); s.n += 1
        s.facts.append(c)
        if s.model is not None and not z3.is_true(s.model.eval(c, True)): s.model = None
    def sync(s):
        d = len(s.inc.stack) - s.n
        if d > 0: s.solver.pop(d); del s.inc.stack[s.n:]
    def chk(s, *cs):
        s.sync()
        t = time.time(); r = s.solver.check(*cs); s.stats['t'] += time.time() - t; s.stats['q'] += 1
        if r == z3.unknown: raise Undecided('solver gave up: ' + s.solver.reason_unknown())
        return r == z3.sat
    def feasible(s):
        if s.model is not None: return True
        if s.chk(): s.model = s.solver.model(); return True
        return False
    def decide(s, c):
        """True / False when the path condition decides c, else None"""
        if type(c) is bool: return c
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        if not s.feasible(): raise Infeasible()
        mv = z3.is_true(s.model.eval(c, True))
        s.other = None
        if mv:
            if not s.chk(z3.Not(c)): return True
            s.other = s.solver.model()
        else:
            if not s.chk(c): return False
            s.other = s.model; s.model = s.solver.model()
        return None
    def valid(s, c):
        if type(c) is bool:
            if c: return True
            return not s.feasible()
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if s.model is not None and z3.is_false(s.model.eval(c, True)): return False
        return not s.chk(z3.Not(c))
    def branch(s, c):
        d = s.decide_or_fork(c)
        return d
    def decide_or_fork(s, c):
        if type(c) is bool: return c
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        i = len(s.dec)
        if i < len(s.prefix):
            v = s.prefix[i]
            s.dec.append(v)
            if v in (0, 1):
                s.assume(c if v else z3.Not(c)); s.und += 1
                if i == len(s.prefix) - 1 and s.model0 is not None: s.model = s.model0
            elif v in ('T', 'F'): v = v == 'T'
            return bool(v)
        d = s.decide(c)
        if d is not None:
            s.dec.append('T' if d else 'F'); return d
        s.alts.append((s.dec + [0], s.other)); s.dec.append(1); s.assume(c); s.und += 1
        return True
    def pick(s, e, w, limit=80):
        """fork over the feasible values of e"""
        if isc(e): return e
        e = z3.simplify(e)
        if z3.is_bv_value(e): return e.as_long()
        i = len(s.dec)
        if i < len(s.prefix):
            v = s.prefix[i]; s.dec.append(v); s.assume(e == v[1]); s.und += 1; return v[1]
        if not s.feasible(): raise Infeasible()
        vals = [s.model.eval(e, True).as_long()]
        if s.chk(e != vals[0]):
            vals.append(s.solver.model().eval(e, True).as_long())
            s.solver.push(); s.solver.add(e != vals[0])
            while s.chk(e != vals[-1]):
                m = s.solver.model().eval(e, True).as_long(); s.solver.add(e != vals[-1]); vals.append(m)
                if len(vals) > limit: s.solver.pop(); raise Undecided('more than %d values' % limit)
            s.solver.pop()
        if not vals: raise Infeasible()
        for v in vals[1:]: s.alts.append((s.dec + [('v', v)], None))
        s.dec.append(('v', vals[0])); s.assume(e == vals[0]); s.und += 1
        return vals[0]

_memo = {}
class Exec:
    def __init__(s, M, path, ext=None):
        s.M = M; s.p = path; s.ext = ext or {}; s.ob = 0; s.where = ''; s.glob = {}; s.touched = set(); s.nins = 0
        s.cuts = set(); s.split = {}; s.visits = {}; s.maxvis = 18; s.fails = []; s.depth = 0; s.fresh = 0; s.pick_shift = False
        s.check_nsw = True; s.allocs = []; s.linear = None
    # ---------------------------------------------------------- obligations
    def need(s, c, what):
        if len(s.p.dec) < len(s.p.prefix): return   # same state as on the path this one forked from, discharged there
        s.ob += 1
        if c is True: return
        if c is False:
            if not s.p.feasible(): raise Infeasible()
            raise Fail('%s: %s' % (s.where, what))
        if not s.p.valid(c):
            s.p.model = None; s.p.chk(z3.Not(c))
            m = s.p.solver.model()
            raise Fail('%s: %s  [counterexample: %s]' % (s.where, what, ', '.join('%s=%s' % (d.name(), m[d]) for d in m.decls()[:14])[:700]))
    def truth(s, c):
        if isc(c): return bool(c & 1)
        if type(c) is bool: return c
        c = z3.simplify(c)
        if z3.is_true(c): return True
        if z3.is_false(c): return False
        if s.split:
            i = len(s.p.dec)
            if i >= len(s.p.prefix):
                d = s.p.decide(c)
                if d is None:
                    for v in cvars(c):
                        if v in s.split: raise SplitNeeded(v)
        return s.p.decide_or_fork(c)
    # ---------------------------------------------------------- memory
    def inb(s, o, off, w):
        if o.inb: 
            r = o.inb(off, w)
            if r is not None: return r
        if isc(off) and isc(o.size): return 0 <= off and off + w <= o.size
        off = BV(off, 64); size = BV(o.size, 64)
        return z3.And(z3.ULE(off, size), z3.ULE(BV(w, 64), size - off))
    def chkobj(s, p, w, what):
        o = p.o
        if not isinstance(p, Ptr): raise Undecided('%s: not a pointer: %r' % (s.where, p))
        if o is None: s.need(False, 'null dereference'); raise Infeasible()
        if o.freed: s.need(False, '%s of freed memory %s' % (what, o.name))
        s.need(s.inb(o, p.off, w), '%s of %d bytes outside %s' % (what, w, o.name))
        return o
    def load(s, p, w):
        o = s.chkobj(p, w, 'read')
        if o.onload: return o.onload(s, o, p.off, w)
        if o.kind == 'arr': return s.aload(o, p.off, w)
        off = p.off
        if not isc(off): off = s.p.pick(off, 64); off = sgn(off, 64)
        c = o.c.get(off)
        if c is not None and c[0] == w: return c[1]
        r = None
        for i in range(w):
            b = s.byte(o, off + i)
            r = b if r is None else s.concat(b, r, 8, 8 * i)
        return r
    def concat(s, hi, lo, wh, wl):
        if isc(hi) and isc(lo): return hi << wl | lo
        return z3.Concat(BV(hi, wh), BV(lo, wl))
    def byte(s, o, off):
        for w in (1, 2, 4, 8, 16):
            for b in range(off - w + 1, off + 1):
                c = o.c.get(b)
                if c is not None and c[0] == w:
                    v = c[1]; k = 8 * (off - b)
                    if isinstance(v, (Ptr, FnPtr)): raise Undecided('%s: bytes of a pointer' % s.where)
                    if isc(v): return v >> k & 255
                    return simp(z3.Extract(k + 7, k, v)) if w > 1 else v
        s.need(False, 'read of uninitialised memory %s+%d' % (o.name, off)); raise Infeasible()
    def aload(s, o, off, w):
        off = BV(off, 64)
        if w == o.ew:
            if w > 1: s.need(simp(z3.Extract(w.bit_length() - 2, 0, off) == 0), 'misaligned access to ' + o.name)
            return simp(z3.Select(o.arr, off))
        if o.ew == 1:
            r = None
            for i in range(w):
                b = simp(z3.Select(o.arr, simp_bv(off + i))); r = b if r is None else s.concat(b, r, 8, 8 * i)
            return r
        raise Undecided('%s: access of %d bytes to %d-byte elements' % (s.where, w, o.ew))
    def store(s, p, w, v):
        o = s.chkobj(p, w, 'write')
        if o.ro: s.need(False, 'write to read-only ' + o.name)
        if o.onstore: return o.onstore(s, o, p.off, w, v)
        if o.kind == 'arr': return s.astore(o, p.off, w, v)
        off = p.off
        if not isc(off): off = s.p.pick(off, 64); off = sgn(off, 64)
        c = o.c.get(off)
        if c is None or c[0] != w: s.clear(o, off, w)
        o.c[off] = (w, v)
    def astore(s, o, off, w, v):
        off = BV(off, 64)
        if w == o.ew:
            if w > 1: s.need(simp(z3.Extract(w.bit_length() - 2, 0, off) == 0), 'misaligned access to ' + o.name)
            o.arr = z3.Store(o.arr, off, BV(v, 8 * w))
            if o.log is not None: o.log.append((off, w, v))
        elif o.ew == 1:
            for i in range(w): s.astore(o, simp_bv(off + i), 1, (v >> 8 * i & 255) if isc(v) else z3.Extract(8 * i + 7, 8 * i, v))
        else: raise Undecided('%s: access of %d bytes to %d-byte elements' % (s.where, w, o.ew))
    def clear(s, o, off, w):
        for b in range(off - 15, off + w):
            c = o.c.get(b)
            if c is None or b + c[0] <= off: continue
            if b == off and c[0] == w: continue
            keep = {}
            for i in range(c[0]):
                if not (off <= b + i < off + w): keep[b + i] = s.byte(o, b + i)
            del o.c[b]
            for k, x in keep.items(): o.c[k] = (1, x)
    def memcpy(s, d, p, n):
        if isc(n) and n == 0: return
        if not isc(n): raise Undecided('%s: memcpy of symbolic length' % s.where)
        s.chkobj(p, n, 'read'); s.chkobj(d, n, 'write')
        vals = []; i = 0
        while i < n:
            if p.o.kind == 'cells' and isc(p.off) and p.o.onload is None:
                c = p.o.c.get(p.off + i)
                if c is not None and i + c[0] <= n: vals.append((i, c)); i += c[0]; continue
            vals.append((i, (p.o.ew if p.o.kind == 'arr' else 1, s.load(Ptr(p.o, s.addo(p.off, i)), p.o.ew if p.o.kind == 'arr' else 1)))); i += vals[-1][1][0]
        for i, c in vals: s.store(Ptr(d.o, s.addo(d.off, i)), c[0], c[1])
    def addo(s, a, b):
        if isc(a) and isc(b): return a + b
        return simp(BV(a, 64) + BV(b, 64)) if not (isc(b) and b == 0) else a
    def newvar(s, name, w):
        s.fresh += 1
        return z3.BitVec('%s!%d' % (name, s.fresh), w)
    # ---------------------------------------------------------- globals
    def globl(s, name):
        if name in s.glob: return s.glob[name]
        if name in s.M.globals:
            ty, init, const = s.M.globals[name]
            o = Obj(name, s.M.sizeof(ty), ro=const); s.init(o, 0, ty, init); r = Ptr(o, 0)
        else: r = FnPtr(name)
        s.glob[name] = r
        return r
    def init(s, o, off, ty, v):
        if v is None: return
        if v[0] == 'bytes':
            for i, b in enumerate(v[1]): o.c[off + i] = (1, b)
        elif v[0] == 'arr':
            es = s.M.sizeof(ty.e)
            for i, x in enumerate(v[1]): s.init(o, off + i * es, ty.e, x)
        elif v[0] == 'st':
            offs, _ = s.M.layout(ty)
            for (t, x), f in zip(v[1], offs): s.init(o, off + f, t, x)
        elif v[0] == 'zero':
            for i in range(s.M.sizeof(ty)): o.c[off + i] = (1, 0)
        elif v[0] == 'c': w = s.M.sizeof(ty); o.c[off] = (w, v[1] & ((1 << 8 * w) - 1))
        elif v[0] == 'g': o.c[off] = (8, s.globl(v[1]))
        elif v[0] == 'null': o.c[off] = (8, NULL)
        else: raise Undecided('global initialiser')
    # ---------------------------------------------------------- execution
    def call(s, name, args):
        if name in s.ext: return s.ext[name](s, args)
        if name not in s.M.funcs: raise Undecided('call to unknown function ' + name)
        F = s.M.funcs[name]
        s.depth += 1
        if s.depth > 40: raise Undecided('recursion')
        r = s.run(F, F.order[0], None, dict(zip(F.args, args)))
        s.depth -= 1
        return r
    def run(s, F, blk, prev, env, first=False):
        """execute from the start of blk; first: the phis of blk are already in env (a cut header being started)"""
        s.touched.add(F.name)
        blk = F.blocks[blk]; L = F.loops()
        while True:
            if blk.name in L:
                key = (F.name, blk.name)
                if not first:
                    if key in s.cuts and s.depth <= 1: raise Arrive(key, prev, env)
                    n, u = s.visits.get((key, s.depth), (0, s.p.und))
                    if s.p.und != u or n == 0: s.visits[(key, s.depth)] = (n + 1, s.p.und)
                    if n > s.maxvis: raise CutLoop(key)
            if blk.phis and not first:
                vals = [s.opv(env, ph.a[prev], ph.ty) for ph in blk.phis]
                for ph, v in zip(blk.phis, vals): env[ph.d] = v
            first = False
            for I in blk.ins:
                s.nins += 1
                if s.nins > 400000: raise Undecided('path too long')
                op = I.op
                if op == 'br':
                    a = I.a
                    if a[0] is None: nxt = a[1]
                    else:
                        s.where = F.name.lstrip('@') + ': branch'
                        nxt = a[1] if s.truth(s.opv(env, a[0], llir.INT(1))) else a[2]
                    prev = blk.name; blk = F.blocks[nxt]; break
                if op == 'ret': return None if I.a[0] is None else s.opv(env, I.a[0], I.ty)
                if op == 'switch':
                    v = s.opv(env, I.a[0], I.ty); w = I.ty.n; nxt = I.a[1]
                    for c, l in I.a[2]:
                        c &= (1 << w) - 1
                        if s.truth(v == c if isc(v) else v == c): nxt = l; break
                    prev = blk.name; blk = F.blocks[nxt]; break
                if op == 'unreachable': s.need(False, 'unreachable code reached'); raise Infeasible()
                s.where = F.name.lstrip('@') + ': ' + I.txt.split(', !')[0]
                r = s.step(env, I)
                if I.d is not None: env[I.d] = r
            else: raise Undecided('fell off block')
    def opv(s, env, a, ty):
        k = a[0]
        if k == 'v': return env[a[1]]
        if k == 'c': return a[1] & ((1 << ty.n) - 1) if ty.k == 'int' else a[1]
        if k == 'null': return NULL
        if k == 'zero': return 0 if ty.k != 'ptr' else NULL
        if k == 'undef':
            if ty.k == 'int': return s.newvar('undef', ty.n) if ty.n > 1 else False
            return NULL
        if k == 'g': return s.globl(a[1])
        if k == 'gep': return s.gep(env, a[1], a[2][0][1], a[2][1:])
        raise Undecided('operand %r' % (a,))
    def gep(s, env, ty, base, idx):
        p = s.opv(env, base, llir.PTR)
        if not isinstance(p, Ptr): raise Undecided('%s: address arithmetic on %r' % (s.where, p))
        off = p.off; t = ty
        for n, (it, iv) in enumerate(idx):
            i = s.opv(env, iv, it)
            if n and t.k == 'struct': off = s.addo(off, s.M.layout(t)[0][i]); t = t.fs[i]; continue
            if n: t = t.e
            sz = s.M.sizeof(t)
            if isc(i): off = s.addo(off, sgn(i, it.n) * sz)
            else:
                i = z3.SignExt(64 - it.n, i) if it.n < 64 else i
                off = s.addo(off, simp(i * sz))
        return Ptr(p.o, off)
    def b2bv(s, v, w):
        if type(v) is bool: return int(v)
        if isc(v): return v & 1
        return z3.If(v, z3.BitVecVal(1, w), z3.BitVecVal(0, w))
    def step(s, env, I):
        op = I.op; a = I.a
        if op == 'load':
            v = s.load(s.opv(env, a[0], llir.PTR), s.M.sizeof(I.ty))
            if I.ty.k == 'ptr' and v == 0 and isc(v): return NULL
            return v
        if op == 'store':
            s.store(s.opv(env, a[1], llir.PTR), s.M.sizeof(I.ty), s.opv(env, a[0], I.ty)); return
        if op == 'gep': return s.gep(env, I.ty, a[0], a[1])
        if op in llir.BIN: return s.binop(op, I.ty.n, s.opv(env, a[0], I.ty), s.opv(env, a[1], I.ty), I.fl)
        if op == 'sext':
            v = s.opv(env, a[0], a[1]); w = a[1].n; n = I.ty.n
            if w == 1:
                b = s.b2bv(v, n)
                return (-b) & ((1 << n) - 1) if isc(b) else simp(-b)
            if isc(v): return sgn(v, w) & ((1 << n) - 1)
            return simp(z3.SignExt(n - w, v))
        if op == 'zext':
            v = s.opv(env, a[0], a[1]); w = a[1].n; n = I.ty.n
            if w == 1: return s.b2bv(v, n)
            if isc(v): return v
            return simp(z3.ZeroExt(n - w, v))
        if op == 'trunc':
            v = s.opv(env, a[0], a[1]); n = I.ty.n
            if isinstance(v, Ptr): raise Undecided('truncated pointer')
            if n == 1: return bool(v & 1) if isc(v) else simp(z3.Extract(0, 0, v) == 1)
            return v & ((1 << n) - 1) if isc(v) else simp(z3.Extract(n - 1, 0, v))
        if op == 'icmp': return s.icmp(a[0], I.ty, s.opv(env, a[1], I.ty), s.opv(env, a[2], I.ty))
        if op == 'select':
            c = s.opv(env, a[0], llir.INT(1)); x = s.opv(env, a[1], I.ty); y = s.opv(env, a[2], I.ty)
            if isc(c): c = bool(c & 1)
            if type(c) is bool: return x if c else y
            if I.ty.k == 'int':
                if I.ty.n == 1: return simp(z3.If(c, B(bool(x) if isc(x) else x), B(bool(y) if isc(y) else y)))
                if isinstance(x, Ptr) or isinstance(y, Ptr): return x if s.truth(c) else y
                return simp(z3.If(c, BV(x, I.ty.n), BV(y, I.ty.n)))
            if isinstance(x, Ptr) and isinstance(y, Ptr) and x.o is y.o: return Ptr(x.o, simp(z3.If(c, BV(x.off, 64), BV(y.off, 64))))
            return x if s.truth(c) else y
        if op == 'alloca':
            o = Obj('local ' + str(I.d), s.M.sizeof(I.ty) * (a[0][1] if a[0] else 1)); o.local = True
            return Ptr(o, 0)
        if op == 'call': return s.docall(env, I)
        if op == 'ptrtoint':
            p = s.opv(env, a[0], llir.PTR)
            if isinstance(p, Ptr) and p.o is None: return p.off & ((1 << 64) - 1) if isc(p.off) else p.off
            return p
        if op == 'inttoptr':
            p = s.opv(env, a[0], a[1])
            if isinstance(p, Ptr): return p
            if isc(p) and p == 0: return NULL
            raise Undecided('inttoptr')
        if op in ('freeze', 'bitcast'): return s.opv(env, a[0], I.ty)
        raise Undecided('instruction ' + I.txt)
    def docall(s, env, I):
        fn, args = I.a
        if fn.startswith(('@llvm.lifetime', '@llvm.dbg', '@llvm.assume', '@llvm.experimental.noalias')): return None
        av = [s.opv(env, x, t) for t, x in args]
        if fn.startswith(('@llvm.memcpy', '@llvm.memmove', '@memcpy', '@memmove')):
            if fn in s.ext: return s.ext[fn](s, av)
            if s.ext.get('memcpy'): return s.ext['memcpy'](s, av)
            s.memcpy(av[0], av[1], av[2]); return av[0]
        if fn.startswith(('@llvm.memset', '@memset')):
            if s.ext.get('memset'): return s.ext['memset'](s, av)
            if not isc(av[2]): raise Undecided('memset of symbolic length')
            for i in range(av[2]): s.store(Ptr(av[0].o, s.addo(av[0].off, i)), 1, av[1] & 255 if isc(av[1]) else simp(z3.Extract(7, 0, av[1])))
            return av[0]
        if fn.startswith('@llvm.'):
            w = I.ty.n if I.ty.k == 'int' else 0
            if '.smax' in fn or '.smin' in fn or '.umax' in fn or '.umin' in fn:
                pr = ('u' if '.u' in fn else 's') + 'ge'
                c = s.icmp(pr, I.ty, av[0], av[1]); x, y = (av[0], av[1]) if 'max' in fn else (av[1], av[0])
                if type(c) is bool: return x if c else y
                return simp(z3.If(c, BV(x, w), BV(y, w)))
            if '.abs' in fn:
                x = av[0]; c = s.icmp('sge', I.ty, x, 0)
                n = s.binop('sub', w, 0, x, ('nsw',))
                if type(c) is bool: return x if c else n
                return simp(z3.If(c, x, n))
            if '.ctlz' in fn:
                x = av[0]
                if not isc(x):
                    # fork over the position of the leading one
                    n = s.p.pick(bitlen(x, w), w)
                    x = 1 << n - 1 if n else 0
                if x == 0 and av[1] in (1, True): return s.newvar('poison', w)
                return w - x.bit_length()
            if '.fshl' in fn or '.bswap' in fn: raise Undecided(fn)
            raise Undecided('intrinsic ' + fn)
        if fn[0] == '%':
            f = env[fn]
            if not isinstance(f, FnPtr): raise Undecided('indirect call through %r' % (f,))
            fn = f.name
        wh = s.where
        r = s.call(fn, av)
        s.where = wh
        return r
    def icmp(s, pr, ty, x, y):
        if isinstance(x, FnPtr) or isinstance(y, FnPtr):
            e = isinstance(x, FnPtr) and isinstance(y, FnPtr) and x.name == y.name
            return e if pr == 'eq' else not e
        if isinstance(x, Ptr) or isinstance(y, Ptr):
            if isc(x) and x == 0: x = NULL
            if isc(y) and y == 0: y = NULL
            if not (isinstance(x, Ptr) and isinstance(y, Ptr)): raise Undecided('pointer/integer compare')
            if x.o is not y.o:
                if pr == 'eq': return False
                if pr == 'ne': return True
                s.need(False, 'ordering of pointers to different objects'); raise Infeasible()
            x, y = x.off, y.off
            if isc(x): x &= (1 << 64) - 1
            if isc(y): y &= (1 << 64) - 1
            if pr[0] == 'u': pr = 's' + pr[1:]
            w = 64
        else: w = ty.n if ty.k == 'int' else 64
        if w == 1 or isinstance(x, (bool, z3.BoolRef)) or isinstance(y, (bool, z3.BoolRef)):
            x = bool(x & 1) if isc(x) else x; y = bool(y & 1) if isc(y) else y
            if type(x) is bool and type(y) is bool: e = x == y
            else: e = simp(B(x) == B(y))
            if pr == 'eq': return e
            if pr == 'ne': return (not e) if type(e) is bool else simp(z3.Not(e))
            raise Undecided('i1 compare')
        if isc(x) and isc(y):
            if pr[0] == 's': x = sgn(x, w); y = sgn(y, w)
            return {'eq': x == y, 'ne': x != y}[pr] if pr in ('eq', 'ne') else {'lt': x < y, 'le': x <= y, 'gt': x > y, 'ge': x >= y}[pr[1:]]
        x = BV(x, w); y = BV(y, w)
        if s.linear:
            r = s.linear.cmp(pr, x, y)
            if r is not None: return r
        f = {'eq': lambda: x == y, 'ne': lambda: x != y, 'slt': lambda: x < y, 'sle': lambda: x <= y, 'sgt': lambda: x > y, 'sge': lambda: x >= y,
             'ult': lambda: z3.ULT(x, y), 'ule': lambda: z3.ULE(x, y), 'ugt': lambda: z3.UGT(x, y), 'uge': lambda: z3.UGE(x, y)}[pr]
        return simp(f())
    def binop(s, op, w, x, y, fl):
        if op in ('and', 'or', 'xor') or (op in ('add', 'sub', 'mul') and len(s.p.dec) < len(s.p.prefix)):
            if (isc(x) or z3.is_bv(x)) and (isc(y) or z3.is_bv(y)) and w > 1:
                k = (op, w, x if isc(x) else x.ast.value, y if isc(y) else y.ast.value, isc(x), isc(y)); r = _memo.get(k)
                if r is None:
                    r = s.binop1(op, w, x, y, fl)
                    _memo[k] = (r, x, y)
                    return r
                return r[0]
        return s.binop1(op, w, x, y, fl)
    def binop1(s, op, w, x, y, fl):
        M = (1 << w) - 1
        if isinstance(x, Ptr) or isinstance(y, Ptr):
            if op == 'sub' and isinstance(x, Ptr) and isinstance(y, Ptr) and x.o is y.o:
                r = s.addo(x.off, -y.off if isc(y.off) else -y.off)
                return r & M if isc(r) else r
            if op == 'and' and isinstance(x, Ptr) and isc(y) and x.o is not None and x.o.name and hasattr(x.o, 'align') and isc(x.off):
                if sgn(y, w) == -16: return Ptr(x.o, x.off & -16)
                if y == 15: return x.off & 15
            if op in ('add', 'sub'):
                if isinstance(y, Ptr) and op == 'add': x, y = y, x
                if isinstance(y, Ptr): raise Undecided('pointer difference between objects')
                y = sgn(y, w) if isc(y) else y
                return Ptr(x.o, s.addo(x.off, y if op == 'add' else -y))
            raise Undecided('pointer arithmetic ' + s.where)
        if isinstance(x, (bool, z3.BoolRef)) or isinstance(y, (bool, z3.BoolRef)) or w == 1:
            x = bool(x & 1) if isc(x) else x; y = bool(y & 1) if isc(y) else y
            f = {'and': z3.And, 'or': z3.Or, 'xor': z3.Xor}.get(op)
            if not f: raise Undecided('i1 ' + op)
            return simp(f(B(x), B(y)))
        if isc(x) and isc(y): return s.cbin(op, w, x, y, fl)
        X = BV(x, w); Y = BV(y, w)
        if op in ('add', 'sub', 'mul'):
            if 'nsw' in fl and s.check_nsw: s.nsw(op, w, X, Y)
            return simp(X + Y if op == 'add' else X - Y if op == 'sub' else X * Y)
        if op in ('shl', 'lshr', 'ashr'):
            if not isc(y):
                if s.split:
                    for v in cvars(Y):
                        if v in s.split: raise SplitNeeded(v)
                s.need(simp(z3.ULT(Y, w)), 'shift amount out of range')
            elif y >= w: s.need(False, 'shift amount out of range')
            return simp(X << Y if op == 'shl' else z3.LShR(X, Y) if op == 'lshr' else X >> Y)
        if op == 'and': return simp(X & Y)
        if op == 'or': return simp(X | Y)
        if op == 'xor': return simp(X ^ Y)
        s.need(simp(Y != 0) if not isc(y) else y != 0, 'division by zero')
        if op == 'sdiv':
            if isc(y) and y & (y - 1) == 0 and s.p.valid(X >= 0): return simp(z3.LShR(X, y.bit_length() - 1))
            return simp(X / Y)
        if op == 'udiv': return simp(z3.UDiv(X, Y))
        if op == 'srem': return simp(z3.SRem(X, Y))
        return simp(z3.URem(X, Y))
    def nsw(s, op, w, X, Y):
        if len(s.p.dec) < len(s.p.prefix): return
        if s.linear and w >= 32 and op != 'mul' and s.linear.small(X) and s.linear.small(Y): s.ob += 1; return
        e = w + 1 if op != 'mul' else 2 * w
        a = z3.SignExt(e - w, X); b = z3.SignExt(e - w, Y)
        r = a + b if op == 'add' else a - b if op == 'sub' else a * b
        s.need(simp(r == z3.SignExt(e - w, z3.Extract(w - 1, 0, r))), 'signed overflow')
    def cbin(s, op, w, x, y, fl):
        M = (1 << w) - 1
        if op in ('add', 'sub', 'mul'):
            if 'nsw' in fl:
                a = sgn(x, w); b = sgn(y, w); r = a + b if op == 'add' else a - b if op == 'sub' else a * b
                s.ob += 1
                if not -(1 << w - 1) <= r < 1 << w - 1: s.need(False, 'signed overflow')
                return r & M
            return (x + y if op == 'add' else x - y if op == 'sub' else x * y) & M
        if op in ('shl', 'lshr', 'ashr'):
            if y >= w: s.need(False, 'shift amount out of range')
            return (x << y) & M if op == 'shl' else x >> y if op == 'lshr' else (sgn(x, w) >> y) & M
        if op == 'and': return x & y
        if op == 'or': return x | y
        if op == 'xor': return x ^ y
        if y == 0: s.need(False, 'division by zero')
        if op[0] == 's': x = sgn(x, w); y = sgn(y, w)
        q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
        return (q if op[1:] == 'div' else x - q * y) & M

def simp_bv(x):
    return z3.simplify(x) if not isc(x) else x

def explore(start, stats=None, limit=100000, deadline=None):
    """start(path) runs one path; returns the number of completed paths"""
    stats = stats if stats is not None else dict(t=0.0, q=0)
    work = [([], None)]; n = 0; inc = Inc()
    while work:
        pre, m0 = work.pop()
        p = Path(pre, stats, inc, m0)
        try: start(p)
        except Infeasible: pass
        n += 1
        work.extend(p.alts)
        if n > limit: raise Undecided('too many paths')
        if deadline and time.time() > deadline: raise Undecided('time limit')
    return n
