"""Symbolic executor for the message level.  Integers are polynomials over mathematical symbols; every machine operation that could
leave its width is an obligation (signed) or an explicit wrap (unsigned).  Control forks on what linear arithmetic (z3) leaves open;
loops with a symbolic number of iterations are cut with invariants found by Houdini over a fixed candidate language.
Memory: cells at concrete offsets, read-only input arrays read at symbolic offsets, and the output buffer as a log of writes."""
import time, sys
import z3, llir
sys.setrecursionlimit(20000)
class Undecided(Exception): pass
class Fail(Exception): pass
class CutLoop(Exception):
    def __init__(s, key): Exception.__init__(s, str(key)); s.key = key
class Dead(Exception): pass

# ------------------------------------------------------------------------------------------------- polynomials
class Sym:
    __slots__ = ('id', 'name', 'lo', 'hi', 'ax', 'data', 'key', 'z')
SYMS = []; SK = {}
class Poly:
    __slots__ = ('k', 'lo', 'hi', 'data', 'zz', 'sy')
    def __repr__(p): return ' + '.join(('%d*' % c if c != 1 or not m else '') + ('*'.join(SYMS[i].name for i in m) if m else '1') for m, c in p.k[:6]).replace('*1', '')
_P = {}
INF = 1 << 100
def ii(x): return type(x) is int
def monr(m):
    lo = hi = 1
    for i in m:
        s = SYMS[i]; c = (lo * s.lo, lo * s.hi, hi * s.lo, hi * s.hi); lo = min(c); hi = max(c)
    if len(m) == 2:
        for i in m:
            r = STRIDES.get(i)
            if r: lo = max(lo, -r); hi = min(hi, r - 1)
    return lo, hi
STRIDES = {}      # symbols whose product with another is assumed to stay below a limit (pixel addresses fit an int)
def mk(d):
    it = tuple(sorted((m, c) for m, c in d.items() if c))
    if not it: return 0
    if len(it) == 1 and it[0][0] == (): return it[0][1]
    p = _P.get(it)
    if p is None:
        p = Poly(); p.k = it; p.zz = None; lo = hi = 0; sy = set()
        for m, c in it:
            if m == (): lo += c; hi += c; continue
            a, b = monr(m)
            if c > 0: lo += c * a; hi += c * b
            else: lo += c * b; hi += c * a
            sy.update(m)
        p.lo = lo; p.hi = hi; p.sy = sy; p.data = any(SYMS[i].data for i in sy); _P[it] = p
    return p
def ps(x): return Poly_items(x)
def Poly_items(x): return ((((), x),) if x else ()) if ii(x) else x.k
def padd(a, b, s=1):
    if ii(a) and ii(b): return a + s * b
    if ii(b) and b == 0: return a
    d = dict(Poly_items(a))
    for m, c in Poly_items(b): d[m] = d.get(m, 0) + s * c
    return mk(d)
def psub(a, b): return 0 if a is b else padd(a, b, -1)
def pmul(a, b):
    if ii(a) and ii(b): return a * b
    d = {}
    for m, c in Poly_items(a):
        for n, e in Poly_items(b):
            q = tuple(sorted(m + n)); d[q] = d.get(q, 0) + c * e
    return mk(d)
def plo(x): return x if ii(x) else x.lo
def phi_(x): return x if ii(x) else x.hi
def isdata(x): return not ii(x) and x.data
def sym(key, name, lo, hi, ax=None, data=False):
    s = SK.get(key)
    if s is None:
        s = Sym(); s.id = len(SYMS); s.name = name; s.lo = lo; s.hi = hi; s.ax = ax; s.data = data; s.key = key; s.z = None; SYMS.append(s); SK[key] = s
    return mk({(s.id,): 1})
_fr = [0]
def fresh(name, lo, hi, data=False):
    _fr[0] += 1; return sym(('fresh', _fr[0]), '%s!%d' % (name, _fr[0]), lo, hi, None, data)
def smin(w): return -(1 << w - 1)
def smax(w): return (1 << w - 1) - 1
def fits(x, w): return plo(x) >= smin(w) and phi_(x) <= smax(w)
def strip(x, w):
    """modulo 2^w: inner wraps of at least that width can be dropped"""
    if ii(x): return x
    r = None
    for m, c in x.k:
        if len(m) == 1:
            s = SYMS[m[0]]
            if s.key[0] in ('wrap', 'uns') and s.key[1] >= w:
                r = r if r is not None else x
                r = padd(padd(r, mk({m: c}), -1), pmul(c, s.key[2]))
    return x if r is None else strip(r, w)
def wrap(x, w):
    if ii(x): x &= (1 << w) - 1; return x - (1 << w) if x >> (w - 1) else x
    if fits(x, w): return x
    y = strip(x, w)
    if ii(y): return wrap(y, w)
    M = 1 << w; d = {}
    for m, c in y.k:
        c %= M
        if c >= M // 2: c -= M
        d[m] = c
    y = mk(d)
    if ii(y) or fits(y, w): return y if not ii(y) else wrap(y, w)
    def ax(v):
        q = z3.Int('q_%s' % v); return [zexp(y) == v + M * q]
    return sym(('wrap', w, y), 'wrap%d(%s)' % (w, repr(y)[:40]), smin(w), smax(w), ax, y.data)
def uns(x, w):
    """the unsigned reading of a w-bit value"""
    if ii(x): return x & ((1 << w) - 1)
    if x.lo >= 0: return x
    if x.hi < 0: return padd(x, 1 << w)
    def ax(v): e = zexp(x); return [z3.Or(z3.And(e >= 0, v == e), z3.And(e < 0, v == e + (1 << w)))]
    return sym(('uns', w, x), 'uns%d(%s)' % (w, repr(x)[:40]), 0, (1 << w) - 1, ax, x.data)
def fdiv(x, c):
    if ii(x): return x // c
    if c == 1: return x
    # pull out what divides
    d = {}; rest = {}
    for m, k in x.k:
        if k % c == 0: d[m] = k // c
        else: rest[m] = k
    q = mk(d); r = mk(rest)
    if ii(r): return padd(q, r // c)
    if r.lo // c == r.hi // c: return padd(q, r.lo // c)
    def ax(v): e = zexp(r); return [c * v <= e, e < c * v + c]
    return padd(q, sym(('fdiv', c, r), '(%s)/%d' % (repr(r)[:40], c), r.lo // c, r.hi // c, ax, r.data))
def negsym(x):
    if plo(x) >= 0: return 0
    if phi_(x) < 0: return 1
    return sym(('neg', x), 'neg(%s)' % x, 0, 1, lambda v: [z3.If(zexp(x) < 0, v == 1, v == 0)], isdata(x))
def zsym(i):
    s = SYMS[i]
    if s.z is None: s.z = z3.Int('s%d' % i)
    return s.z
_mz = {}
def zmon(m):
    if len(m) == 1: return zsym(m[0])
    z = _mz.get(m)
    if z is None: z = _mz[m] = z3.Int('m' + '_'.join(map(str, m)))
    return z
def zexp(x):
    if ii(x): return z3.IntVal(x)
    if x.zz is None:
        t = [z3.IntVal(c) if m == () else (c * zmon(m) if c != 1 else zmon(m)) for m, c in x.k]
        x.zz = z3.Sum(t) if len(t) > 1 else t[0]
    return x.zz
_ax = {}
def axioms(syms, mons):
    """defining facts of the symbols and products, transitively"""
    out = []; todo = [('s', i) for i in syms] + [('m', m) for m in mons]; seen = set()
    while todo:
        t = todo.pop()
        if t in seen: continue
        seen.add(t)
        a = _ax.get(t)
        if a is None:
            f = []; sub = []
            if t[0] == 's':
                s = SYMS[t[1]]; v = zsym(t[1])
                if s.lo > -INF: f.append(v >= s.lo)
                if s.hi < INF: f.append(v <= s.hi)
                if s.ax:
                    f += s.ax(v)
                    for k in s.key[1:]:
                        if isinstance(k, Poly): sub += need_syms(k)
                        elif isinstance(k, tuple): sub += cond_syms(k)
            else:
                lo, hi = monr(t[1]); v = zmon(t[1])
                if lo > -INF: f.append(v >= lo)
                if hi < INF: f.append(v <= hi)
            a = _ax[t] = (f, sub)
        out += a[0]; todo += a[1]
    return out
def need_syms(p):
    if ii(p): return []
    return [('s', i) for m, c in p.k if len(m) == 1 for i in m] + [('m', m) for m, c in p.k if len(m) > 1]
# conditions: bool or ('le', p) p<=0, ('eq', p) p==0, ('not', c), ('and', a, b), ('or', a, b), ('null', slot)
def cond_syms(c):
    if type(c) is bool: return []
    if c[0] in ('le', 'eq'): return need_syms(c[1])
    if c[0] == 'null': return []
    r = []
    for x in c[1:]: r += cond_syms(x)
    return r
def cdata(c):
    if type(c) is bool: return False
    if c[0] in ('le', 'eq'): return isdata(c[1])
    if c[0] == 'null': return False
    return any(cdata(x) for x in c[1:])
def cle(p):
    if phi_(p) <= 0: return True
    if plo(p) > 0: return False
    return ('le', p)
def ceq(p):
    if ii(p): return p == 0
    if p.lo > 0 or p.hi < 0: return False
    if p.k[0][1] < 0: p = psub(0, p)
    return ('eq', p)
def cnot(c):
    if type(c) is bool: return not c
    if c[0] == 'not': return c[1]
    if c[0] == 'le': return cle(psub(1, c[1]))
    return ('not', c)
def cand(a, b):
    if type(a) is bool: return b if a else False
    if type(b) is bool: return a if b else False
    return a if a == b else ('and', a, b)
def cor(a, b): return cnot(cand(cnot(a), cnot(b)))
_zc = {}
def zcond(c):
    if type(c) is bool: return z3.BoolVal(c)
    r = _zc.get(c)
    if r is None:
        k = c[0]
        if k == 'le': r = zexp(c[1]) <= 0
        elif k == 'eq': r = zexp(c[1]) == 0
        elif k == 'not': r = z3.Not(zcond(c[1]))
        elif k == 'and': r = z3.And(zcond(c[1]), zcond(c[2]))
        elif k == 'or': r = z3.Or(zcond(c[1]), zcond(c[2]))
        else: r = z3.Bool('c_%s' % (c,))
        _zc[c] = r
    return r
def zfull(c):
    n = cond_syms(c); return z3.And(zcond(c), *axioms([x[1] for x in n if x[0] == 's'], [x[1] for x in n if x[0] == 'm']))
def subst(p, m):
    """replace symbols (by id) in p, including inside defined symbols"""
    if ii(p): return p
    r = 0
    for mon, c in p.k:
        t = c
        for i in mon: t = pmul(t, substsym(i, m))
        r = padd(r, t)
    return r
def substsym(i, m):
    if i in m: return m[i]
    s = SYMS[i]; k = s.key
    if k[0] in ('wrap', 'uns'): return (wrap if k[0] == 'wrap' else uns)(subst(k[2], m), k[1])
    if k[0] == 'fdiv': return fdiv(subst(k[2], m), k[1])
    if k[0] == 'ld': return rdsym(k[1], subst(k[2], m), k[3])
    if k[0] == 'neg': return negsym(subst(k[1], m))
    return mk({(i,): 1})
LDR = {}      # object name -> f(offset poly, width) -> (lo, hi) of what is read there
def rdsym(name, off, w):
    lo, hi, ax = LDR[name](off, w) if name in LDR else (smin(8 * w), smax(8 * w), None)
    return sym(('ld', name, off, w), '%s[%s]' % (name, off), lo, hi, ax, name in DATAOBJ)
def csubst(c, m):
    if type(c) is bool: return c
    if c[0] == 'le': return cle(subst(c[1], m))
    if c[0] == 'eq': return ceq(subst(c[1], m))
    if c[0] == 'not': return cnot(csubst(c[1], m))
    if c[0] == 'and': return cand(csubst(c[1], m), csubst(c[2], m))
    if c[0] == 'or': return cor(csubst(c[1], m), csubst(c[2], m))
    return c
DATAOBJ = set()

class Solver:
    def __init__(s): s.z = z3.SolverFor('QF_LIA'); s.z.set('timeout', 30000); s.st = []; s.t = 0.0; s.q = 0; s.memo = {}
    def check(s, pc, extra):
        """is pc and extra satisfiable"""
        n = 0
        while n < len(s.st) and n < len(pc) and s.st[n] is pc[n]: n += 1
        if len(s.st) > n: s.z.pop(len(s.st) - n); del s.st[n:]
        for c in pc[n:]: s.z.push(); s.z.add(zfull(c)); s.st.append(c)
        t = time.time(); r = s.z.check(zfull(extra)); s.t += time.time() - t; s.q += 1
        if r == z3.unknown: raise Undecided('solver: ' + s.z.reason_unknown())
        return r == z3.sat

# ------------------------------------------------------------------------------------------------- memory
class Ptr:
    __slots__ = ('o', 'off')
    def __init__(s, o, off): s.o = o; s.off = off
    def __repr__(s): return '&%s+%s' % (s.o, s.off)
    def __eq__(s, x): return isinstance(x, Ptr) and s.o == x.o and (s.off is x.off or s.off == x.off)
    def __hash__(s): return hash(s.o)
NULL = Ptr(None, 0)
class FnPtr:
    def __init__(s, name): s.name = name
    def __eq__(s, x): return isinstance(x, FnPtr) and s.name == x.name
    def __hash__(s): return hash(s.name)
class SPtr:
    """what a slot of the reference table held on entry: null or an owned reference tile"""
    def __init__(s, key): s.key = key
    def __eq__(s, x): return isinstance(x, SPtr) and s.key == x.key
    def __hash__(s): return hash(s.key)
UNDEF = ('undef',)
class Obj:
    __slots__ = ('id', 'size', 'kind', 'ro', 'c', 'fills', 'dflt', 'log', 'stamp', 'heap', 'freed', 'gen', 'data', 'ranges', 'align')
    def __init__(s, id, size, kind='cells', dflt=None, ro=False, heap=False, data=False):
        s.id = id; s.size = size; s.kind = kind; s.dflt = dflt; s.ro = ro; s.heap = heap; s.freed = False; s.data = data
        s.c = {}; s.fills = []; s.log = []; s.stamp = 0; s.gen = 0; s.ranges = None; s.align = 16
    def clone(s, stamp):
        n = Obj.__new__(Obj)
        for a in Obj.__slots__: setattr(n, a, getattr(s, a))
        n.c = dict(s.c); n.fills = list(s.fills); n.log = list(s.log); n.stamp = stamp
        return n
class Frame:
    __slots__ = ('F', 'blk', 'ip', 'prev', 'env', 'rd', 'loc', 'vis')
    def clone(f):
        n = Frame(); n.F = f.F; n.blk = f.blk; n.ip = f.ip; n.prev = f.prev; n.env = dict(f.env); n.rd = f.rd; n.loc = list(f.loc); n.vis = dict(f.vis); return n
_stamp = [0]
class State:
    def __init__(s): s.st = []; s.ob = {}; s.pc = []; s.rb = {}; s.sk = (); s.plane = {}; s.nfork = 0; s.note = {}; s.slotfree = {}; s.tags = []; s.univ = []; _stamp[0] += 1; s.stamp = _stamp[0]
    def clone(s):
        n = State(); n.st = [f.clone() for f in s.st]; n.ob = dict(s.ob); n.pc = list(s.pc); n.rb = dict(s.rb); n.sk = s.sk; n.plane = dict(s.plane); n.nfork = s.nfork
        n.note = dict(s.note); n.slotfree = dict(s.slotfree); n.tags = list(s.tags); n.univ = list(s.univ)
        _stamp[0] += 1; s.stamp = _stamp[0]
        return n
    def w(s, oid):
        o = s.ob[oid]
        if o.stamp != s.stamp: o = s.ob[oid] = o.clone(s.stamp)
        return o

PURE = set(llir.BIN) | {'icmp', 'select', 'sext', 'zext', 'trunc', 'gep', 'freeze', 'ptrtoint', 'inttoptr', 'bitcast'}
class Exec:
    def __init__(s, M, off):
        s.M = M; s.off = off; s.sol = Solver(); s.ob = 0; s.soft = False; s.ext = {}; s.cuts = set(); s.where = ''; s.touched = set(); s.nins = 0; s.npaths = 0
        s.oid = 0; s.glob = {}; s.bounds = []; s.rates = []; s.deadline = None; s.loops = []; s.fatal = None
        s.rbs = (off['rfxencode.rbs'], off['rfxencode.rbs'] + 8 * 4096); s.darea = (off['rfxencode.a_buffer'], off['rfxencode.dwt_buffer']); s.trace = None; s.allow_fail = None
    # ------------------------------------------------------------------ obligations
    def valid(s, st, c):
        if type(c) is bool: return c or not s.sol.check(st.pc, True)
        return not s.sol.check(st.pc, cnot(c) if c[0] != 'not' else c[1])
    def need(s, st, c, what):
        if not s.soft: s.ob += 1
        if c is True: return
        if s.valid(st, c): return
        if s.soft:
            if c is False: raise Dead()
            st.pc = st.pc + [c]; return
        m = ''
        if s.sol.check(st.pc, cnot(c)):
            mod = s.sol.z.model(); v = []
            for d in mod.decls():
                n = d.name()
                if n[0] == 's' and n[1:].isdigit() and not SYMS[int(n[1:])].name.startswith('wrap'): v.append('%s=%s' % (SYMS[int(n[1:])].name, mod[d]))
            m = '  [counterexample: %s]' % ', '.join(sorted(v)[:16])[:700]
        raise Fail('%s: %s%s' % (s.where, what, m))
    def truth(s, st, c):
        """True / False / None (open)"""
        if type(c) is bool: return c
        if cdata(c): return None
        a = s.sol.check(st.pc, c)
        if not a: 
            return False
        if not s.sol.check(st.pc, cnot(c)): return True
        return None
    def assume(s, st, c):
        if c is True: return
        if c is False: raise Dead()
        if cdata(c) or c[0] == 'null': return
        st.pc = st.pc + [c]
    # ------------------------------------------------------------------ objects
    def new(s, st, name, *a, **k):
        s.oid += 1; oid = '%s#%d' % (name, s.oid); o = Obj(oid, *a, **k); o.stamp = st.stamp; st.ob[oid] = o; return oid
    def globl(s, st, name):
        if name in s.M.globals:
            if name not in st.ob:
                ty, init, const = s.M.globals[name]; o = Obj(name, s.M.sizeof(ty), ro=const); o.stamp = st.stamp; s.init(o, 0, ty, init); st.ob[name] = o
            return Ptr(name, 0)
        return FnPtr(name)
    def init(s, o, off, ty, v):
        if v is None: return
        if v[0] == 'bytes':
            for i, b in enumerate(v[1]): o.c[off + i] = (1, wrap(b, 8))
        elif v[0] == 'arr':
            es = s.M.sizeof(ty.e)
            for i, x in enumerate(v[1]): s.init(o, off + i * es, ty.e, x)
        elif v[0] == 'st':
            for (t, x), f in zip(v[1], s.M.layout(ty)[0]): s.init(o, off + f, t, x)
        elif v[0] == 'zero': o.fills.append((off, off + s.M.sizeof(ty), 0))
        elif v[0] == 'c': w = s.M.sizeof(ty); o.c[off] = (w, wrap(v[1], 8 * w))
        elif v[0] == 'g': o.c[off] = (8, FnPtr(v[1]) if v[1] not in s.M.globals else Ptr(v[1], 0))
        elif v[0] == 'null': o.c[off] = (8, NULL)
        else: raise Undecided('global initialiser')
    def inb(s, st, o, off, w, what):
        if o.freed: s.need(st, False, '%s of freed memory %s' % (what, o.id))
        if o.size is None: return
        if type(off) is int and type(w) is int and type(o.size) is int and 0 <= off and off + w <= o.size: s.ob += 0 if s.soft else 2; return
        s.need(st, cle(psub(0, off)), '%s of %s bytes before %s' % (what, w, o.id))
        s.need(st, cle(psub(padd(off, w), o.size)), '%s of %s bytes beyond the end of %s' % (what, w, o.id))
    def deref(s, st, p, what):
        if isinstance(p, SPtr): raise Undecided('%s: access through an unresolved table entry' % s.where)
        if not isinstance(p, Ptr): raise Undecided('%s: %s through %r' % (s.where, what, p))
        if p.o is None: s.need(st, False, 'null dereference'); raise Dead()
        if p.o not in st.ob:
            if p.o in s.M.globals: s.globl(st, p.o)
            else: s.need(st, False, '%s of memory whose lifetime has ended' % what); raise Dead()
        return st.ob[p.o]
    def load(s, st, p, w, ptr=False):
        o = s.deref(st, p, 'read'); off = p.off
        s.inb(st, o, off, w, 'read')
        if o.kind == 'arr': return rdsym(o.id, off, w)
        if o.kind == 'out': raise Undecided('%s: read of the output buffer' % s.where)
        if o.ranges == 'enc' and (not ii(off) or s.rbs[0] <= off < s.rbs[1]): return s.encload(st, o, off, w)
        if not ii(off): 
            if o.data: return fresh('data', smin(8 * w), smax(8 * w), True)
            raise Undecided('%s: read at a symbolic offset' % s.where)
        c = o.c.get(off)
        if c is not None and c[0] == w: return c[1]
        return s.split(st, o, off, w, ptr)
    def split(s, st, o, off, w, ptr):
        hit = [(b, o.c[b]) for b in range(off - 7, off + w) if b in o.c and b + o.c[b][0] > off]
        if not hit:
            for lo, hi, v in reversed(o.fills):
                if lo <= off and off + w <= hi:
                    if v == 0: return NULL if ptr else 0
                    r = sym(('leaf', o.id, v, off, w), '%s.%s[%d]' % (o.id, v, off), smin(8 * w), smax(8 * w), None, True); st.w(o.id).c[off] = (w, r); return r
                if lo < off + w and off < hi: raise Undecided('%s: read across fills' % s.where)
            if o.dflt == 0: return NULL if ptr else 0
            if o.dflt == 'leaf':
                r = sym(('leaf', o.id, o.gen, off, w), '%s[%d]' % (o.id, off), smin(8 * w), smax(8 * w), None, True); st.w(o.id).c[off] = (w, r); return r
            return UNDEF
        r = 0
        for i in range(w):
            b = None
            for q, (cw, cv) in hit:
                if q <= off + i < q + cw:
                    if not ii(cv):
                        if isdata(cv): return fresh('data', smin(8 * w), smax(8 * w), True)
                        if isinstance(cv, Poly): b = psub(fdiv(cv, 1 << 8 * (off + i - q)), pmul(256, fdiv(cv, 1 << 8 * (off + i - q + 1)))); break
                        raise Undecided('%s: part of a stored value' % s.where)
                    b = cv >> 8 * (off + i - q) & 255
            if b is None: b = s.split(st, o, off + i, 1, False); b = b if not ii(b) else b & 255
            if b is UNDEF or b == UNDEF: return UNDEF
            r = padd(r, pmul(b, 1 << 8 * i))
        return wrap(r, 8 * w)
    def encload(s, st, o, off, w):
        lo, hi = s.rbs
        if w == 8 and not ii(off):
            s.need(st, cle(psub(lo, off)), 'reference table index below the table'); s.need(st, cle(psub(padd(off, 8), hi)), 'reference table index beyond the table')
            if any(c % 8 for m, c in Poly_items(psub(off, lo))): raise Undecided('misaligned table access')
            k = s.rbkey(st, off)
            if k in st.rb: return st.rb[k]
            if st.sk: raise Undecided('%s: two different table entries in one step' % s.where)
            if st.rb: st.rb = {}; st.note['rbany'] = True
            st.sk = (k,)
            a = st.clone(); s.alt.append(a)
            r = s.new(a, 'ref', s.off['sizeof.rfx_rb'], dflt='leaf', heap=True, data=True); a.rb[k] = Ptr(r, 0); a.note['ref'] = (k, r, 'held')
            st.rb[k] = NULL; st.note['ref'] = (k, None, 'empty')
            return NULL
        if w == 8: 
            if off in st.rb: return st.rb[off]
            if st.sk: raise Undecided('table access')
            return SPtr(off)
        if s.valid(st, cand(cle(psub(s.darea[0], off)), cle(psub(padd(off, w), s.darea[1])))): return fresh('data', smin(8 * w), smax(8 * w), True)
        raise Undecided('%s: encoder state read at a symbolic offset' % s.where)
    def rbkey(s, st, off):
        if ii(off) or off in st.rb: return off
        for x in st.sk:
            if s.valid(st, ceq(psub(x, off))): return x
        return off
    def store(s, st, p, w, v):
        o = s.deref(st, p, 'write'); off = p.off
        if o.ro: s.need(st, False, 'write to read-only %s' % o.id)
        s.inb(st, o, off, w, 'write')
        if v == UNDEF and isinstance(v, tuple): v = UNDEF
        if o.kind == 'out':
            if v == UNDEF: s.need(st, False, 'undefined value written to the output')
            st.w(p.o).log.append(('w', off, w, v)); return
        if o.ranges == 'enc' and (not ii(off) or s.rbs[0] <= off < s.rbs[1]):
            if w == 8 and (ii(off) or s.valid(st, cand(cle(psub(s.rbs[0], off)), cle(psub(padd(off, 8), s.rbs[1]))))):
                off = s.rbkey(st, off)
                if not ii(off) and any(x is not off for x in st.sk): raise Undecided('%s: two table entries' % s.where)
                if not ii(off) and st.rb.get(off) not in (None, NULL): s.need(st, st.rb[off] == v, 'a held reference tile is overwritten without being released')
                if ii(off) and off not in st.rb and not st.slotfree.get(off): s.need(st, SPtr(off) == v, 'a held reference tile is overwritten without being released')
                if not ii(off) and off not in st.sk: st.sk += (off,)
                st.rb[off] = v; return
            if s.valid(st, cand(cle(psub(s.darea[0], off)), cle(psub(padd(off, w), s.darea[1])))): s.havocdata(st); return
            raise Undecided('%s: encoder state written at a symbolic offset' % s.where)
        if not ii(off):
            if o.data: n = st.w(p.o); n.c = {}; n.fills = []; n.dflt = 'leaf'; n.gen = fresh('g', 0, 0).k[0][0][0]; return
            raise Undecided('%s: write at a symbolic offset' % s.where)
        o = st.w(p.o); c = o.c.get(off)
        if c is None or c[0] != w:
            for b in range(off - 7, off + w):
                if b in o.c and b + o.c[b][0] > off and not (b == off and o.c[b][0] == w):
                    cw, cv = o.c.pop(b)
                    for i in range(cw):
                        if not off <= b + i < off + w:
                            if not ii(cv): raise Undecided('%s: part of a stored value overwritten' % s.where)
                            o.c[b + i] = (1, wrap(cv >> 8 * i, 8))
        o.c[off] = (w, v)
        if o.ranges == 'enc' and st.plane:
            for a, b in list(st.plane):
                if a < off + w and off < b: st.plane = {k: x for k, x in st.plane.items() if k != (a, b)}
    def havocdata(s, st, lo=None, hi=None):
        lo = s.darea[0] if lo is None else lo; hi = s.darea[1] if hi is None else hi
        for oid, o in list(st.ob.items()):
            if o.ranges == 'enc':
                o = st.w(oid)
                for k in [k for k in o.c if lo <= k < hi]: del o.c[k]
                s.oid += 1; o.fills.append((lo, hi, 'g%d' % s.oid))
        st.plane = {k: v for k, v in st.plane.items() if k[1] <= lo or hi <= k[0]}
    def memset(s, st, p, v, n):
        o = s.deref(st, p, 'write')
        if not ii(n): raise Undecided('%s: memset of symbolic length' % s.where)
        if n == 0: return
        if o.kind == 'cells' and n > 16 and ii(v) and v == 0 and ii(p.off):
            if o.ro: s.need(st, False, 'write to read-only')
            s.inb(st, o, p.off, n, 'write')
            if o.ranges == 'enc' and p.off < s.rbs[1] and s.rbs[0] < p.off + n: raise Undecided('memset over the reference table')
            o = st.w(p.o); a, b = p.off, p.off + n
            for k in [k for k in o.c if a <= k < b]: del o.c[k]
            o.fills = [f for f in o.fills if not (a <= f[0] and f[1] <= b)] + [(a, b, 0)]
            st.plane = {k: x for k, x in st.plane.items() if k[1] <= a or b <= k[0]}
            return
        for i in range(n): s.store(st, Ptr(p.o, padd(p.off, i)), 1, v)
    def memcpy(s, st, d, p, n):
        if ii(n) and n == 0: return
        po = s.deref(st, p, 'read'); do = s.deref(st, d, 'write')
        s.need(st, cle(psub(0, n)), 'negative length')
        if do.ro: s.need(st, False, 'write to read-only %s' % do.id)
        if do.kind == 'out' and (po.kind == 'arr' or not ii(n)):
            s.inb(st, po, p.off, n, 'read'); s.inb(st, do, d.off, n, 'write')
            st.w(d.o).log.append(('copy', d.off, n, p)); return
        if not ii(n): raise Undecided('%s: copy of symbolic length' % s.where)
        s.inb(st, po, p.off, n, 'read'); s.inb(st, do, d.off, n, 'write')
        if not ii(p.off) or (not ii(d.off) and do.kind != 'out'): raise Undecided('%s: copy at a symbolic offset' % s.where)
        w0 = 2 if (po.data or po.ranges == 'enc') and n % 2 == 0 else 1
        vals = []; i = 0
        while i < n:
            c = st.ob[p.o].c.get(p.off + i)
            w = c[0] if c is not None and i + c[0] <= n else w0
            vals.append((i, w, s.load(st, Ptr(p.o, p.off + i), w))); i += w
        if do.kind == 'cells' and n > 64 and ii(d.off) and not (do.ranges == 'enc' and d.off < s.rbs[1] and s.rbs[0] < d.off + n):
            o = st.w(d.o)
            for k in range(d.off - 7, d.off + n):
                if k in o.c:
                    if k < d.off and k + o.c[k][0] > d.off: raise Undecided('copy splits a value')
                    if k >= d.off: del o.c[k]
            for i, w, v in vals: o.c[d.off + i] = (w, v)
            if o.ranges == 'enc': st.plane = {k: x for k, x in st.plane.items() if k[1] <= d.off or d.off + n <= k[0]}
            return
        for i, w, v in vals: s.store(st, Ptr(d.o, padd(d.off, i)), w, v)
    # ------------------------------------------------------------------ operands
    def opv(s, st, env, a, ty):
        k = a[0]
        if k == 'v':
            return env[a[1]]
        if k == 'c': return wrap(a[1], ty.n) if ty.k == 'int' and ty.n > 1 else a[1] & 1 if ty.k == 'int' else a[1]
        if k == 'null': return NULL
        if k == 'zero': return 0 if ty.k != 'ptr' else NULL
        if k == 'undef': return UNDEF
        if k == 'g': return s.globl(st, a[1])
        if k == 'gep': return s.gep(st, env, a[1], a[2][0][1], a[2][1:])
        raise Undecided('operand %r' % (a,))
    def b(s, v):
        if ii(v): return bool(v & 1)
        return v
    def gep(s, st, env, ty, base, idx):
        if len(idx) == 1 and base[0] == 'v':
            p = env[base[1]]; i = s.opv(st, env, idx[0][1], idx[0][0])
            if type(p) is Ptr and type(i) is int and type(p.off) is int: return Ptr(p.o, p.off + i * s.M.sizeof(ty))
        p = s.opv(st, env, base, llir.PTR)
        if isinstance(p, SPtr): raise Undecided('address from an unresolved table entry')
        if not isinstance(p, Ptr): raise Undecided('%s: address arithmetic on %r' % (s.where, p))
        off = p.off; t = ty
        for n, (it, iv) in enumerate(idx):
            i = s.opv(st, env, iv, it)
            if i == UNDEF: s.need(st, False, 'undefined value used as an index'); raise Dead()
            if n and t.k == 'struct': off = padd(off, s.M.layout(t)[0][i]); t = t.fs[i]; continue
            if n: t = t.e
            off = padd(off, pmul(i, s.M.sizeof(t)))
        return Ptr(p.o, off)
    # ------------------------------------------------------------------ arithmetic
    def sw(s, st, r, w, fl, what='signed overflow'):
        if ii(r) and smin(w) <= r <= smax(w) or not ii(r) and fits(r, w): return r
        if 'nsw' in fl:
            s.need(st, cand(cle(psub(smin(w), r)), cle(psub(r, smax(w)))), what); return r
        if ii(r) or isdata(r): return wrap(r, w)
        if s.valid(st, cand(cle(psub(smin(w), r)), cle(psub(r, smax(w))))): return r
        return wrap(r, w)
    def binop(s, st, op, w, x, y, fl):
        if x == UNDEF or y == UNDEF: s.need(st, False, 'use of an undefined value'); raise Dead()
        if isinstance(x, Ptr) or isinstance(y, Ptr):
            if op == 'sub' and isinstance(x, Ptr) and isinstance(y, Ptr):
                if x.o != y.o: raise Undecided('%s: difference of pointers to different objects' % s.where)
                return psub(x.off, y.off)
            if op == 'and' and isinstance(x, Ptr) and ii(y) and ii(x.off) and x.o in st.ob and st.ob[x.o].align >= 16:
                if y == -16: return Ptr(x.o, x.off & -16)
                if y == 15: return x.off & 15
            if op in ('add', 'sub'):
                if isinstance(y, Ptr):
                    if op == 'sub': raise Undecided('pointer arithmetic')
                    x, y = y, x
                return Ptr(x.o, padd(x.off, y, 1 if op == 'add' else -1))
            raise Undecided('%s: pointer arithmetic' % s.where)
        if w == 1 or type(x) in (bool, tuple) or type(y) in (bool, tuple):
            x = s.b(x); y = s.b(y)
            if op == 'and': return cand(x, y)
            if op == 'or': return cor(x, y)
            if op == 'xor':
                if type(x) is bool: x, y = y, x
                if type(y) is bool: return cnot(x) if y else x
                return cor(cand(x, cnot(y)), cand(cnot(x), y))
            raise Undecided('i1 ' + op)
        if type(x) is int and type(y) is int and op in ('add', 'sub', 'mul'):
            r = x + y if op == 'add' else x - y if op == 'sub' else x * y
            if smin(w) <= r <= smax(w): return r
        if not (ii(x) or isinstance(x, Poly)) or not (ii(y) or isinstance(y, Poly)): raise Undecided('%s: arithmetic on %r, %r' % (s.where, x, y))
        if op == 'add': return s.sw(st, padd(x, y), w, fl)
        if op == 'sub': return s.sw(st, psub(x, y), w, fl)
        if op == 'mul': return s.sw(st, pmul(x, y), w, fl)
        if op in ('shl', 'lshr', 'ashr'):
            if not ii(y): raise Undecided('%s: symbolic shift' % s.where)
            if not 0 <= y < w: s.need(st, False, 'shift amount out of range'); raise Dead()
            if op == 'shl': return s.sw(st, pmul(x, 1 << y), w, fl)
            if op == 'ashr': return fdiv(x, 1 << y)
            return wrap(fdiv(s.uns(st, x, w), 1 << y), w)
        if op in ('and', 'or', 'xor'):
            if ii(x): x, y = y, x
            if ii(x) and ii(y): return wrap(x & y if op == 'and' else x | y if op == 'or' else x ^ y, w)
            if op == 'and' and ii(y):
                if y == 0: return 0
                if y == -1: return x
                if y > 0 and y & (y + 1) == 0: return psub(x, pmul(y + 1, fdiv(x, y + 1)))
                if y < 0 and -y & (-y - 1) == 0: return pmul(-y, fdiv(x, -y))
                lo, hi = (0, y) if y > 0 else (smin(w), smax(w))
                if y > 0 and y & (y - 1) == 0:
                    q = fdiv(x, y); return pmul(y, psub(q, pmul(2, fdiv(q, 2))))
                return sym(('bit', op, w, x, y), 'and(%s,%d)' % (x, y), lo, hi, None, isdata(x))
            if op == 'or' and ii(y) and y == 0: return x
            if op == 'xor' and ii(y) and y == 0: return x
            if op == 'xor' and ii(y) and y == -1: return psub(-1, x)
            if not ii(y) and id(x) > id(y): x, y = y, x
            lo, hi = smin(w), smax(w)
            if plo(x) >= 0 and plo(y) >= 0: lo = 0; hi = (1 << max(phi_(x).bit_length(), phi_(y).bit_length())) - 1
            return sym(('bit', op, w, x, y), '%s(%s,%s)' % (op, x, y), lo, hi, None, isdata(x) or isdata(y))
        if not ii(y) or y == 0: 
            if ii(y): s.need(st, False, 'division by zero'); raise Dead()
            raise Undecided('%s: symbolic divisor' % s.where)
        if op[0] == 's':
            if ii(x):
                q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1); return q if op == 'sdiv' else x - q * y
            if y < 0: raise Undecided('negative divisor')
            if plo(x) >= 0 or (not isdata(x) and s.valid(st, cle(psub(0, x)))): q = fdiv(x, y)
            elif phi_(x) <= 0: q = psub(0, fdiv(psub(0, x), y))
            else: q = fdiv(padd(x, pmul(y - 1, negsym(x))), y)
        else:
            x = s.uns(st, x, w); y = uns(y, w); q = fdiv(x, y)
        return wrap(q if op[1:] == 'div' else psub(x, pmul(q, y)), w)
    def uns(s, st, x, w):
        if plo(x) < 0 and not ii(x) and not isdata(x) and s.valid(st, cle(psub(0, x))): return x
        return uns(x, w)
    def icmp(s, st, pr, w, x, y):
        for v in (x, y):
            if v == UNDEF: s.need(st, False, 'use of an undefined value'); raise Dead()
        if isinstance(x, FnPtr) or isinstance(y, FnPtr): return (x == y) == (pr == 'eq')
        if isinstance(x, SPtr) or isinstance(y, SPtr):
            if isinstance(y, SPtr): x, y = y, x
            if y == NULL or (ii(y) and y == 0): c = ('null', x.key); return c if pr == 'eq' else cnot(c)
            raise Undecided('comparison of table entries')
        if isinstance(x, Ptr) or isinstance(y, Ptr):
            if ii(x) and x == 0: x = NULL
            if ii(y) and y == 0: y = NULL
            if not (isinstance(x, Ptr) and isinstance(y, Ptr)): raise Undecided('%s: pointer compared with an integer' % s.where)
            if x.o != y.o:
                if pr in ('eq', 'ne'): return pr == 'ne'
                raise Undecided('%s: ordering of pointers to different objects' % s.where)
            x, y = x.off, y.off; pr = 's' + pr[1:] if pr[0] == 'u' else pr
        if w == 1 or type(x) in (bool, tuple) or type(y) in (bool, tuple):
            x = s.b(x); y = s.b(y)
            if type(x) is bool: x, y = y, x
            if type(y) is not bool: raise Undecided('comparison of conditions')
            r = x if y else cnot(x)
            return r if pr == 'eq' else cnot(r)
        if pr == 'eq': return ceq(psub(x, y))
        if pr == 'ne': return cnot(ceq(psub(x, y)))
        if pr[0] == 'u': x = s.uns(st, x, w); y = s.uns(st, y, w)
        k = pr[1:]
        if k == 'le': return cle(psub(x, y))
        if k == 'lt': return cle(padd(psub(x, y), 1))
        if k == 'ge': return cle(psub(y, x))
        return cle(padd(psub(y, x), 1))
    def select(s, st, c, x, y):
        c = s.b(c)
        if type(c) is bool: return x if c else y
        if x == y: return x
        if x in (True, False, 0, 1) or type(x) in (bool, tuple) or type(y) in (bool, tuple):
            if type(x) in (bool, tuple) or type(y) in (bool, tuple): return cor(cand(c, s.b(x)), cand(cnot(c), s.b(y)))
        if (ii(x) or isinstance(x, Poly)) and (ii(y) or isinstance(y, Poly)): return s.sel(c, x, y)
        return None
    def sel(s, c, x, y):
        d = cdata(c)
        def ax(v): return [z3.If(zcond(c), v == zexp(x), v == zexp(y))] + axioms([], [])
        return sym(('sel', c, x, y), 'sel', min(plo(x), plo(y)), max(phi_(x), phi_(y)), None if d else ax, d or isdata(x) or isdata(y))
    # ------------------------------------------------------------------ execution
    def pure(s, st, f, I):
        op = I.op; a = I.a; env = f.env
        if op in llir.BIN: return s.binop(st, op, I.ty.n, s.opv(st, env, a[0], I.ty), s.opv(st, env, a[1], I.ty), I.fl)
        if op == 'gep': return s.gep(st, env, I.ty, a[0], a[1])
        if op == 'icmp': return s.icmp(st, a[0], I.ty.n if I.ty.k == 'int' else 64, s.opv(st, env, a[1], I.ty), s.opv(st, env, a[2], I.ty))
        if op in ('sext', 'zext'):
            v = s.opv(st, env, a[0], a[1])
            if v == UNDEF: return v
            if a[1].n == 1:
                v = s.b(v); one = -1 if op == 'sext' else 1
                if type(v) is bool: return one if v else 0
                return s.sel(v, one, 0)
            return v if op == 'sext' else s.uns(st, v, a[1].n)
        if op == 'trunc':
            v = s.opv(st, env, a[0], a[1])
            if v == UNDEF: return v
            if isinstance(v, (Ptr, SPtr)): raise Undecided('truncated pointer')
            if I.ty.n == 1: return ceq(psub(psub(v, pmul(2, fdiv(v, 2))), 1))
            if not ii(v) and not fits(v, I.ty.n) and not isdata(v) and s.valid(st, cand(cle(psub(smin(I.ty.n), v)), cle(psub(v, smax(I.ty.n))))): return v
            return wrap(v, I.ty.n)
        if op == 'select':
            c = s.opv(st, env, a[0], llir.INT(1)); x = s.opv(st, env, a[1], I.ty); y = s.opv(st, env, a[2], I.ty)
            return s.select(st, c, x, y)
        if op == 'ptrtoint': return s.opv(st, env, a[0], llir.PTR)
        if op == 'inttoptr':
            p = s.opv(st, env, a[0], a[1])
            if isinstance(p, (Ptr, SPtr)): return p
            if ii(p) and p == 0: return NULL
            raise Undecided('inttoptr')
        if op in ('freeze', 'bitcast'): return s.opv(st, env, a[0], I.ty)
        raise Undecided('instruction ' + I.txt)
    def enter(s, st, name, args, rd=None):
        F = s.M.funcs[name]; s.touched.add(name)
        if len(st.st) > 40: raise Undecided('recursion')
        f = Frame(); f.F = F; f.blk = F.order[0]; f.ip = 0; f.prev = None; f.env = dict(zip(F.args, args)); f.rd = rd; f.loc = []; f.vis = {}
        st.st.append(f)
    def goto(s, st, f, blk): f.prev = f.blk; f.blk = blk; f.ip = -1
    def phis(s, st, f):
        B = f.F.blocks[f.blk]
        if B.phis:
            vals = [s.opv(st, f.env, ph.a[f.prev], ph.ty) for ph in B.phis]
            for ph, v in zip(B.phis, vals): f.env[ph.d] = v
    def explore(s, states, stop=None):
        """run to the end; stop = (depth, Func, header, body): also stop at the back edge and when the loop is left"""
        out = []; work = list(states)
        while work:
            st = work.pop(); s.alt = []
            try: r = s.run(st, stop)
            except Dead: r = ('dead',)
            work.extend(s.alt); s.alt = []
            if r[0] == 'fork': work.extend(r[1])
            elif r[0] == 'dead': pass
            else: out.append(r); s.npaths += 1
            if s.deadline and time.time() > s.deadline: raise Undecided('time limit')
        return out
    def counted(s, F, hdr, body, env):
        """some exit of the loop compares a counter with a bound, both known numbers: the loop is unrolled, whatever else it branches on"""
        D = getattr(F, '_defs', None)
        if D is None:
            D = F._defs = {I.d: I for B in F.blocks.values() for I in B.ins if I.d is not None}
        phis = {p.d for p in F.blocks[hdr].phis}
        def counter(a, n=0):
            if not (isinstance(a, tuple) and a[0] == 'v'): return False
            if a[1] in phis: return True
            I = D.get(a[1])
            return I is not None and n < 4 and I.op in ('add', 'sub', 'sext', 'zext', 'trunc', 'gep') and any(counter(x, n + 1) for x in I.a)
        for b in body:
            I = F.blocks[b].ins[-1]
            if I.op != 'br' or I.a[0] is None or not (isinstance(I.a[0], tuple) and I.a[0][0] == 'v') or (I.a[1] in body) == (I.a[2] in body): continue
            c = D.get(I.a[0][1])
            if c is None or c.op != 'icmp' or not any(counter(x) for x in c.a[1:]): continue
            ok = True
            for x in c.a[1:]:
                if isinstance(x, tuple) and x[0] == 'v':
                    v = env.get(x[1]); v = v.off if isinstance(v, Ptr) else v
                    if not ii(v): ok = False
            if ok: return True
        return False
    def run(s, st, stop):
        while True:
            f = st.st[-1]; F = f.F
            if f.ip < 0:
                d = len(st.st)
                if stop and d == stop[0] and F is stop[1]:
                    if f.blk == stop[2]: return ('back', st)
                    if f.blk not in stop[3]: return ('exit', st)
                L = F.loops()
                if f.blk in L:
                    key = (F.name, f.blk)
                    if f.prev not in L[f.blk]:
                        if key in s.cuts: return ('fork', s.cutloop(st, f, L[f.blk]))
                        f.vis[f.blk] = st.nfork; f.vis[(f.blk, 'n')] = 0
                    elif st.nfork > f.vis.get(f.blk, 1 << 60):
                        n = f.vis.get((f.blk, 'n'), 0); f.vis[(f.blk, 'n')] = n + 1
                        if n > 64 or not s.counted(F, f.blk, L[f.blk], f.env): raise CutLoop(key)
                s.phis(st, f); f.ip = 0
            B = F.blocks[f.blk]; ins = B.ins
            while True:
                I = ins[f.ip]; op = I.op; s.nins += 1
                if op in PURE:
                    s.where = F.name[1:] + ': ' + I.txt
                    v = s.pure(st, f, I)
                    if v is None:      # a choice between pointers
                        c = s.b(s.opv(st, f.env, I.a[0], llir.INT(1))); t = s.truth(st, c)
                        if t is None:
                            n = st.clone(); s.assume(n, cnot(c)); s.assume(st, c); st.nfork += 1; n.nfork += 1; st.tags.append((c, 1)); n.tags.append((c, 0))
                            n.st[-1].env[I.d] = s.opv(st, f.env, I.a[2], I.ty); n.st[-1].ip += 1; s.alt.append(n); t = True
                        v = s.opv(st, f.env, I.a[1] if t else I.a[2], I.ty)
                    f.env[I.d] = v; f.ip += 1; continue
                if op == 'br':
                    a = I.a
                    if a[0] is None: s.goto(st, f, a[1]); break
                    s.where = F.name[1:] + ': branch'
                    c = s.b(s.opv(st, f.env, a[0], llir.INT(1)))
                    if c == UNDEF: s.need(st, False, 'branch on an undefined value'); raise Dead()
                    t = s.truth(st, c) if type(c) is not bool else c
                    if t is not None: s.goto(st, f, a[1] if t else a[2]); break
                    if a[1] == a[2]: s.goto(st, f, a[1]); break
                    if cdata(c):
                        if s.ifconv(st, f, c, a[1], a[2]): break
                        st.nfork -= 1     # a choice on data does not make a loop symbolic
                    if c[0] == 'null' or (c[0] == 'not' and c[1][0] == 'null'):
                        # free(NULL) does nothing: the empty case of a slot is the released case
                        k = c[1] if c[0] == 'null' else c[1][1]
                        s.nullslot(st, f, c, k, a); break
                    n = st.clone(); s.assume(n, cnot(c)); s.assume(st, c); st.nfork += 1; n.nfork = st.nfork
                    st.tags.append((c, 1)); n.tags.append((c, 0))
                    s.goto(n, n.st[-1], a[2]); s.goto(st, f, a[1]); s.alt.append(n); break
                if op == 'load':
                    s.where = F.name[1:] + ': ' + I.txt
                    v = s.load(st, s.opv(st, f.env, I.a[0], llir.PTR), s.M.sizeof(I.ty), I.ty.k == 'ptr')
                    if I.ty.k == 'ptr' and ii(v) and v == 0: v = NULL
                    f.env[I.d] = v; f.ip += 1; continue
                if op == 'store':
                    s.where = F.name[1:] + ': ' + I.txt
                    s.store(st, s.opv(st, f.env, I.a[1], llir.PTR), s.M.sizeof(I.ty), s.opv(st, f.env, I.a[0], I.ty)); f.ip += 1; continue
                if op == 'alloca':
                    o = s.new(st, 'local ' + str(I.d), s.M.sizeof(I.ty) * (I.a[0][1] if I.a[0] else 1)); f.loc.append(o); f.env[I.d] = Ptr(o, 0); f.ip += 1; continue
                if op == 'ret':
                    v = None if I.a[0] is None else s.opv(st, f.env, I.a[0], I.ty)
                    for o in f.loc: st.ob.pop(o, None)
                    st.st.pop()
                    if not st.st: return ('ret', st, v)
                    g = st.st[-1]
                    if f.rd is not None: g.env[f.rd] = v
                    if stop and len(st.st) < stop[0]: return ('exit', st)
                    break
                if op == 'switch':
                    s.where = F.name[1:] + ': switch'
                    v = s.opv(st, f.env, I.a[0], I.ty)
                    if v == UNDEF: s.need(st, False, 'switch on an undefined value'); raise Dead()
                    done = False
                    for cv, l in I.a[2]:
                        c = ceq(psub(v, wrap(cv, I.ty.n))); t = s.truth(st, c)
                        if t is True: s.goto(st, f, l); done = True; break
                        if t is None:
                            n = st.clone(); s.assume(n, c); s.assume(st, cnot(c)); st.nfork += 1; n.nfork += 1
                            n.tags.append((c, 1)); st.tags.append((c, 0)); s.goto(n, n.st[-1], l); s.alt.append(n)
                    if not done: s.goto(st, f, I.a[1])
                    break
                if op == 'unreachable': s.need(st, False, 'unreachable code reached'); raise Dead()
                if op == 'call':
                    s.where = F.name[1:] + ': ' + I.txt
                    if s.call(st, f, I): break
                    continue
                raise Undecided('instruction ' + I.txt)
    def nullslot(s, st, f, c, k, a):
        """branch on whether a slot of the table is null: only the held case is followed; the empty case must be the same up to the release"""
        held = a[2] if c[0] == 'null' else a[1]; empty = a[1] if c[0] == 'null' else a[2]
        # the empty arm: straight-line code to the join that stores nothing but null to that slot
        B = f.F.blocks[empty]
        for I in B.ins[:-1]:
            if I.op in PURE or (I.op == 'call' and I.a[0].startswith('@llvm.')): continue
            if I.op == 'store' and I.a[0][0] in ('null', 'zero'): continue
            n = st.clone(); st.nfork += 1; n.nfork += 1; n.rb[k] = NULL; s.goto(n, n.st[-1], empty); s.goto(st, f, held); s.alt.append(n); return
        st.note['nulljoin'] = True; s.goto(st, f, held)
    def ifconv(s, st, f, c, A, B):
        """branch on data: both arms are executed when they only compute values"""
        F = f.F; bl = F.blocks
        def simple(x):
            b = bl[x]
            if b.phis or len(F.preds[x]) != 1: return None
            if any(I.op not in PURE for I in b.ins[:-1]): return None
            t = b.ins[-1]
            if t.op != 'br' or t.a[0] is not None: return None
            return t.a[1]
        F.loops(); ja, jb = simple(A), simple(B); cur = f.blk
        if ja is not None and ja == B: pa, pb, J = A, cur, B
        elif jb is not None and jb == A: pa, pb, J = cur, B, A
        elif ja is not None and ja == jb: pa, pb, J = A, B, ja
        else: return False
        for x in (pa, pb):
            if x != cur:
                for I in bl[x].ins[:-1]: f.env[I.d] = s.pure(st, f, I)
        vals = []
        for ph in bl[J].phis:
            x = s.opv(st, f.env, ph.a[pa], ph.ty); y = s.opv(st, f.env, ph.a[pb], ph.ty); v = s.select(st, c, x, y)
            if v is None: return False
            vals.append((ph.d, v))
        # enter J as from pa with the phis given
        if J in F.loops(): return False
        for d, v in vals: f.env[d] = v
        f.prev = pa; f.blk = J; f.ip = 0
        return True
    def call(s, st, f, I):
        fn, args = I.a
        if fn.startswith(('@llvm.lifetime', '@llvm.dbg', '@llvm.assume', '@llvm.experimental.noalias')): f.ip += 1; return False
        av = [s.opv(st, f.env, x, t) for t, x in args]
        if fn[0] == '%':
            p = f.env[fn]
            if not isinstance(p, FnPtr): 
                if p == NULL: s.need(st, False, 'call through a null pointer'); raise Dead()
                raise Undecided('%s: indirect call through %r' % (s.where, p))
            fn = p.name
        if fn in s.ext:
            alts = s.ext[fn](s, st, av)
            if not isinstance(alts, list): alts = [lambda q, v=alts: v]
            if len(alts) > 1: st.nfork += 1
            states = [st] + [st.clone() for _ in alts[1:]]
            for q, g in zip(states, alts):
                try: v = g(q)
                except Dead:
                    if q is st: raise
                    continue
                h = q.st[-1]; h.ip += 1
                if I.d is not None: h.env[I.d] = v
                if q is not st: s.alt.append(q)
            return False
        if fn.startswith(('@llvm.memcpy', '@llvm.memmove', '@memcpy', '@memmove')): s.memcpy(st, av[0], av[1], av[2]); v = av[0]
        elif fn.startswith(('@llvm.memset', '@memset')): s.memset(st, av[0], av[1], av[2]); v = av[0]
        elif fn.startswith('@llvm.'):
            w = I.ty.n if I.ty.k == 'int' else 0
            if '.smax' in fn or '.smin' in fn or '.umax' in fn or '.umin' in fn:
                c = s.icmp(st, ('u' if '.u' in fn else 's') + 'ge', w, av[0], av[1]); x, y = (av[0], av[1]) if 'max' in fn else (av[1], av[0]); v = s.select(st, c, x, y)
            elif '.abs' in fn: v = s.select(st, cle(psub(0, av[0])), av[0], psub(0, av[0]))
            else: raise Undecided('intrinsic ' + fn)
        elif fn in s.M.funcs:
            f.ip += 1; s.enter(st, fn, av, I.d); return True
        else: raise Undecided('call to unknown function ' + fn)
        if I.d is not None: f.env[I.d] = v
        f.ip += 1
        return False
    # ------------------------------------------------------------------ loops
    def cutloop(s, st, f, body):
        F = f.F; hdr = f.blk; depth = len(st.st); prev = f.prev; B = F.blocks[hdr]
        s.phis(st, f); ent = {ph.d: f.env[ph.d] for ph in B.phis}
        lastalt = s.alt
        chg = {}; hd = [False]; hrb = [False]; dropped = set(); k = fresh('k', 0, 1 << 40); rnd = 0; soft0 = s.soft
        def off(v): return v.off if isinstance(v, Ptr) else v
        def entval(l): return ent[l[1]] if l[0] == 'r' else (st.ob[l[1]].c.get(l[2]) or (l[3], UNDEF))[1]
        syms = {}
        def hval(l):
            m = chg[l]; e = entval(l)
            if m[0] == 'undef': return UNDEF
            if m[0] == 'aff': v = padd(off(e), pmul(k, m[1]))
            else:
                if l not in syms:
                    w = m[1]; syms[l] = fresh('h_' + (str(l[1]) if l[0] == 'r' else '%s+%s' % l[1:3]), -(1 << 40) if isinstance(e, Ptr) else smin(w), (1 << 40) if isinstance(e, Ptr) else smax(w))
                v = syms[l]
            return Ptr(e.o, v) if isinstance(e, Ptr) else v
        def cands():
            out = []; ls = [l for l in chg if chg[l][0] != 'undef' and off(entval(l)) != UNDEF]
            vals = {l: (off(hval(l)), off(entval(l))) for l in ls}
            fr = [l for l in ls if chg[l][0] == 'fresh']
            bnds = []
            for g in st.st:
                for a in g.F.args:
                    v = g.env.get(a)
                    if isinstance(v, Poly) and not v.data and v not in bnds: bnds.append(v)
            for oid, o in st.ob.items():
                if oid.startswith('local'):
                    for q, (w, v) in o.c.items():
                        if isinstance(v, Poly) and not v.data and v not in bnds and ('m', oid, q, w) not in chg: bnds.append(v)
            for v in s.bounds:
                if v not in bnds: bnds.append(v)
            pb = {}      # what the loop compares its variables with
            for v in cmps():
                if isinstance(v, Ptr) and isinstance(v.off, Poly) and not v.off.data: pb.setdefault(v.o, []).append(v.off)
                elif isinstance(v, Poly) and not v.data and v not in bnds: bnds.append(v)
            for l in ls:
                v, e = vals[l]; xb = pb.get(entval(l).o, []) if isinstance(entval(l), Ptr) else []
                if chg[l][0] == 'aff':
                    if chg[l][1] < 0:
                        for b in [0, -1] + bnds + xb: out.append(('lo', l, b))
                    else:
                        for b in bnds + xb: out.append(('le', l, b))
                    continue
                for b in xb: out.append(('le', l, b))
                out.append(('ge', l)); out.append(('k0', l))
                for b in bnds: out.append(('le', l, b)); out.append(('gle', l, b))
                for r in s.rates: out.append(('rate', l, r))
                for m in ls:
                    if m == l: continue
                    d = psub(e, vals[m][1])
                    if ii(d): out.append(('eq', l, m, d))
                    else:
                        if chg[m][0] == 'fresh': out.append(('ge1', l, m))
                    if ii(e) or not ii(d) or True: out.append(('geq', l, m))
            return [c for c in out if c not in dropped]
        def cmps():
            out = []; f0 = st.st[-1]
            for bn in body:
                for I in F.blocks[bn].ins:
                    if I.op != 'icmp': continue
                    for a in I.a:
                        if isinstance(a, tuple) and a[0] == 'v' and a[1] in f0.env and a[1] not in ent:
                            v = f0.env[a[1]]
                            if v not in out: out.append(v)
            return out + seen
        seen = []; grew = [False]
        def look(b):      # loop-invariant values the body compares with, computed inside it
            env = b.st[-1].env; own = {x.k[0][0][0]: padd(x, 1) for x in [k] + list(syms.values())}
            for bn in body:
                for I in F.blocks[bn].ins:
                    if I.op != 'icmp': continue
                    for a in I.a:
                        if isinstance(a, tuple) and a[0] == 'v' and a[1] not in ent and a[1] in env and a[1] not in st.st[-1].env:
                            v = env[a[1]]; q = off(v)
                            if isinstance(v, (Poly, Ptr)) and isinstance(q, Poly) and not q.data and rnd < 4 and subst(q, own) is q and v not in seen: seen.append(v); grew[0] = True
        def cform(c, val, kk):
            """the candidate as a condition over values val(l) and count kk"""
            v = val(c[1])
            if c[0] == 'lo': return cle(psub(c[2], v))
            if c[0] == 'le': return cle(psub(v, c[2]))
            if c[0] == 'gle': return cor(ceq(kk), cle(psub(v, c[2])))
            if c[0] == 'ge': return cle(psub(off(entval(c[1])), v))
            if c[0] == 'k0': return cor(cle(psub(1, kk)), ceq(psub(v, off(entval(c[1])))))
            if c[0] == 'rate': return cle(psub(v, padd(off(entval(c[1])), pmul(c[2], kk))))
            if c[0] == 'eq': return ceq(psub(psub(v, val(c[2])), c[3]))
            if c[0] == 'geq': return cor(ceq(kk), ceq(psub(v, val(c[2]))))
            if c[0] == 'ge1': return cle(psub(val(c[2]), v))
        while True:
            rnd += 1
            if rnd > 25: raise Undecided('loop %s: no invariant found' % hdr)
            H = st.clone(); g = H.st[-1]; g.ip = 0; g.vis = dict(g.vis)
            rec = LoopRec(); rec.k = k; rec.pre = st; rec.ent = {}; rec.hv = {}; rec.key = (F.name, hdr); rec.depth = depth
            for l in chg:
                v = hval(l); rec.ent[l] = entval(l); rec.hv[l] = v
                if l[0] == 'r': g.env[l[1]] = v
                elif v == UNDEF: H.w(l[1]).c.pop(l[2], None)
                else: H.w(l[1]).c[l[2]] = (l[3], v)
            if hd[0]: s.havocdata(H)
            if hrb[0]: H.rb = {}; H.sk = ()
            cs = cands(); cs0 = []
            for c in cs:
                e = cform(c, lambda l: off(entval(l)), 0)
                if s.truth(st, e) is True if type(e) is not bool else e: cs0.append(c)
                else: dropped.add(c)
            cs = cs0
            for c in cs:
                e = cform(c, lambda l: off(hval(l)), k)
                if type(e) is bool:
                    if not e: raise Undecided('candidate')
                    continue
                H.pc = H.pc + [e]
            for ks, K, facts in H.univ:      # facts established for every index below K
                e = cor(cle(psub(K, k)), csubst(facts, {ks: k}))
                if type(e) is not bool: H.pc = H.pc + [e]
            for oid, o in list(H.ob.items()):
                if o.kind == 'out': H.w(oid).log.append(('loop', rec))
            H.note = dict(H.note); H.note['hdr'] = rec; rec.H = H.clone(); rec.log0 = {oid: len(o.log) for oid, o in H.ob.items() if o.kind == 'out'}
            s.soft = True if rnd == 1 or not getattr(s, '_try', None) else s.soft
            s.soft = True
            again = False; grew[0] = False
            for final in (False, True):
                s.soft = soft0 if final else True
                HH = H if final else H.clone()
                res = s.explore([HH], (depth, F, hdr, body))
                if final: break
                backs = [r[1] for r in res if r[0] == 'back']
                newc = {}
                for b in backs:
                    bf = b.st[-1]; look(b)
                    for ph in B.phis:
                        nv = s.opv(b, bf.env, ph.a[bf.prev], ph.ty); s.cmploc(('r', ph.d), rec.H.st[-1].env[ph.d], nv, ph.ty.n if ph.ty.k == 'int' else 64, chg, newc, b, k)
                    for oid, o in b.ob.items():
                        h = rec.H.ob.get(oid)
                        if h is None or h is o or o.kind == 'out': continue
                        if o.data: 
                            continue
                        for q in set(o.c) | set(h.c):
                            if o.c.get(q) == h.c.get(q): continue
                            if o.ranges == 'enc' and s.darea[0] <= q < s.darea[1]:
                                if not hd[0]: hd[0] = True; again = True
                                continue
                            if q not in o.c or q not in h.c:
                                w = (o.c.get(q) or h.c.get(q))[0]
                                if ('m', oid, q, w) not in chg: newc[('m', oid, q, w)] = [('undef',)]
                                continue
                            if o.c[q][0] != h.c[q][0]: raise Undecided('cell width changes in a loop')
                            s.cmploc(('m', oid, q, o.c[q][0]), h.c[q][1], o.c[q][1], 8 * o.c[q][0], chg, newc, b, k)
                        if o.fills != h.fills and o.ranges == 'enc' and not hd[0]: hd[0] = True; again = True
                        if o.fills != h.fills and o.ranges != 'enc': raise Undecided('fill in a loop')
                        if o.freed != h.freed: raise Undecided('release in a loop')
                    if b.rb != rec.H.rb and not hrb[0]: hrb[0] = True; again = True
                if newc:
                    for l, ms in newc.items():
                        if ('undef',) in ms: m = ('undef',)
                        elif l in chg: m = ('fresh', ms[0][-1])
                        elif len(set(ms)) == 1 and ms[0][0] == 'aff': m = ms[0]
                        else: m = ('fresh', ms[0][-1])
                        if chg.get(l) == m: raise Undecided('loop state')
                        chg[l] = m
                    dropped.clear(); again = True
                if again or grew[0]: again = True; break
                drop = []
                for c in cs:
                    for b in backs:
                        def nval(l):
                            if l[0] == 'r':
                                ph = next(p for p in B.phis if p.d == l[1]); v = s.opv(b, b.st[-1].env, ph.a[b.st[-1].prev], ph.ty)
                            else: v = b.ob[l[1]].c[l[2]][1]
                            return off(v)
                        e = cform(c, nval, padd(k, 1))
                        if e is True: continue
                        if e is False or cdata(e) or not s.valid(b, e): drop.append(c); break
                if drop: dropped.update(drop); again = True; break
                # entry form of table and data holds trivially
            if again: continue
            s.soft = soft0
            rec.back = []; exits = []
            for r in res:
                if r[0] == 'back':
                    b = r[1]; m = {k.k[0][0][0]: padd(k, 1)}; bf = b.st[-1]
                    for l in chg:
                        if chg[l][0] != 'fresh': continue
                        nv = s.opv(b, bf.env, next(p for p in B.phis if p.d == l[1]).a[bf.prev], llir.PTR) if l[0] == 'r' else b.ob[l[1]].c[l[2]][1]
                        m[syms[l].k[0][0][0]] = off(nv)
                    m0 = {k.k[0][0][0]: 0}
                    for l in chg:
                        if chg[l][0] == 'fresh': m0[syms[l].k[0][0][0]] = off(entval(l))
                    rec.back.append((b, m)); rec.m0 = m0
                elif r[0] == 'exit': exits.append(r[1])
                else: raise Undecided('loop exit')
            if not rec.back: rec.m0 = {k.k[0][0][0]: 0}
            n0 = len(rec.H.pc)
            if rec.back and not syms and not hd[0] and not hrb[0]:
                u = False
                for b, m in rec.back:
                    e = True
                    for c in b.pc[n0:]: e = cand(e, c)
                    u = cor(u, e)
                if type(u) is not bool:
                    for x in exits: x.univ = x.univ + [(k.k[0][0][0], k, u)]
            rec.exits = exits; rec.cands = len(cs); rec.rounds = rnd; rec.nchg = {str(l): m for l, m in chg.items()}
            if not soft0:
                s.loops.append(rec)
                if s.onloop: s.onloop(s, rec)
            s.alt = lastalt
            return exits
    onloop = None
    def cmploc(s, l, hv, nv, w, chg, newc, b, k):
        """does the value at the back edge match what the header assumes for the next iteration"""
        m = chg.get(l)
        if m is not None and m[0] in ('fresh', 'undef'): return
        if type(hv) in (bool, tuple) and hv != UNDEF or type(nv) in (bool, tuple) and nv != UNDEF: raise Undecided('loop-carried condition')
        if hv == UNDEF or nv == UNDEF:
            if hv != nv: newc.setdefault(l, []).append(('undef',))
            return
        if isinstance(hv, (FnPtr, SPtr)) or isinstance(nv, (FnPtr, SPtr)):
            if hv != nv: raise Undecided('loop-carried function pointer')
            return
        if isinstance(hv, Ptr) or isinstance(nv, Ptr):
            if not (isinstance(hv, Ptr) and isinstance(nv, Ptr)) or hv.o != nv.o:
                newc.setdefault(l, []).append(('undef',)); return
            hv = hv.off; nv = nv.off; w = 64
        d = psub(nv, hv)
        if m is None:
            if ii(d) and d == 0: return
            if not ii(d) and not isdata(d) and s.valid(b, ceq(d)): return
            newc.setdefault(l, []).append(('aff', d, w) if ii(d) else ('fresh', w))
        else:
            if ii(d) and d == m[1]: return
            if not isdata(d) and s.valid(b, ceq(psub(d, m[1]))): return
            newc.setdefault(l, []).append(('fresh', w))
class LoopRec: pass
