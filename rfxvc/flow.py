"""Data-flow executor: runs the real functions (LLVM IR of /repo's sources) with concrete control and symbolic data.
All loops whose bounds are concrete are executed completely, so the resulting terms are exact for every input.
Every memory access, shift amount, signed operation and (optionally) narrowing store is a proof obligation."""
import terms as T
from terms import Lin, Cond
import llir

class Fail(Exception):
    """an obligation that cannot be discharged"""
    def __init__(s, what): Exception.__init__(s, what); s.what = what

class Obj:
    __slots__ = ('name', 'size', 'c', 'ro', 'rd', 'wr')
    def __init__(s, name, size, ro=False):
        s.name = name; s.size = size; s.c = {}; s.ro = ro
        s.rd = None; s.wr = None
    def fill(s, width, vals, base=0):
        for i, v in enumerate(vals): s.c[base + i * width] = (width, v)

class Ptr:
    __slots__ = ('o', 'off')
    def __init__(s, o, off): s.o = o; s.off = off
    def __repr__(s): return '&%s+%s' % (s.o.name if s.o else 'null', s.off)

class FnPtr:
    def __init__(s, name): s.name = name

NULL = Ptr(None, 0)

class Flow:
    def __init__(s, M, externs=None, check_trunc=None):
        s.M = M; s.ext = externs or {}; s.ob = 0; s.check_trunc = check_trunc
        s.events = []; s.nins = 0; s.touched = set(); s.glob = {}; s.where = ''
        s.decide = None
    # ------------------------------------------------ memory
    def need(s, ok, what):
        s.ob += 1
        if not ok: raise Fail('%s: %s' % (s.where, what))
    def load(s, p, w):
        o = p.o
        if o is None: raise Fail('%s: null dereference' % s.where)
        off = p.off
        if type(off) is not int: raise T.Undecided('%s: symbolic load address' % s.where)
        s.need(0 <= off and off + w <= o.size, 'read of %d bytes at %s+%d outside the object (%d bytes)' % (w, o.name, off, o.size))
        c = o.c.get(off)
        if c is not None and c[0] == w: return c[1]
        return s.load_slow(o, off, w)
    def byte(s, o, off):
        for w in (1, 2, 4, 8, 16):
            for b in range(off - w + 1, off + 1):
                c = o.c.get(b)
                if c is not None and c[0] == w:
                    v = c[1]
                    if w == 1: return T.uval(v, 8)
                    if isinstance(v, (Ptr, FnPtr)): raise T.Undecided('%s: pointer bytes' % s.where)
                    return T.modp(T.floor2(T.uval(v, 8 * w), 8 * (off - b)), 8)
        raise Fail('%s: read of uninitialised memory %s+%d' % (s.where, o.name, off))
    def load_slow(s, o, off, w):
        r = 0
        for i in range(w): r = T.add(r, T.mulc(s.byte(o, off + i), 1 << (8 * i)))
        return r
    def store(s, p, w, v):
        o = p.o
        if o is None: raise Fail('%s: null dereference' % s.where)
        off = p.off
        if type(off) is not int: raise T.Undecided('%s: symbolic store address' % s.where)
        s.need(0 <= off and off + w <= o.size, 'write of %d bytes at %s+%d outside the object (%d bytes)' % (w, o.name, off, o.size))
        if o.ro: raise Fail('%s: write to read-only %s+%d' % (s.where, o.name, off))
        if o.wr is not None: o.wr.add(off)
        c = o.c.get(off)
        if c is None or c[0] != w: s.clear(o, off, w)
        o.c[off] = (w, v)
    def clear(s, o, off, w):
        for b in range(off - 15, off + w):
            c = o.c.get(b)
            if c is None or b + c[0] <= off: continue
            if b == off and c[0] == w: continue
            # split into bytes
            keep = {}
            for i in range(c[0]):
                if not (off <= b + i < off + w): keep[b + i] = s.byte(o, b + i)
            del o.c[b]
            for k, x in keep.items(): o.c[k] = (1, x)
    def memcpy(s, d, p, n):
        if n == 0: return
        s.need(0 <= p.off and p.off + n <= p.o.size, 'memcpy source outside %s' % p.o.name)
        s.need(0 <= d.off and d.off + n <= d.o.size, 'memcpy destination outside %s' % d.o.name)
        s.need(p.o is not d.o or p.off + n <= d.off or d.off + n <= p.off, 'memcpy overlap')
        if d.o.ro: raise Fail('%s: write to read-only %s' % (s.where, d.o.name))
        i = 0; vals = []
        while i < n:
            c = p.o.c.get(p.off + i)
            if c is not None and i + c[0] <= n: vals.append((i, c)); i += c[0]
            else: vals.append((i, (1, s.byte(p.o, p.off + i)))); i += 1
        for i, c in vals:
            s.store(Ptr(d.o, d.off + i), c[0], c[1])
    # ------------------------------------------------ globals
    def globl(s, name):
        if name in s.glob: return s.glob[name]
        if name in s.M.globals:
            ty, init, const = s.M.globals[name]
            o = Obj(name, s.M.sizeof(ty), ro=const); s.init(o, 0, ty, init)
            r = Ptr(o, 0)
        else: r = FnPtr(name)
        s.glob[name] = r
        return r
    def init(s, o, off, ty, v):
        if v is None: return
        if v[0] == 'bytes':
            for i, b in enumerate(v[1]): o.c[off + i] = (1, b)
        elif v[0] == 'arr':
            es = s.M.sizeof(ty.e)
            for i, x in enumerate(v[1]): s.init(o, off + i * es, ty.e, x)
        elif v[0] == 'st':
            offs, _ = s.M.layout(ty)
            for (t, x), f in zip(v[1], offs): s.init(o, off + f, t, x)
        elif v[0] == 'zero':
            for i in range(s.M.sizeof(ty)): o.c[off + i] = (1, 0)
        elif v[0] == 'c': o.c[off] = (s.M.sizeof(ty), v[1])
        elif v[0] == 'g': o.c[off] = (8, s.globl(v[1]))
        elif v[0] == 'null': o.c[off] = (8, NULL)
        else: raise T.Undecided('global initialiser')
    # ------------------------------------------------ execution
    def call(s, name, args):
        if name in s.ext: return s.ext[name](s, args)
        if name not in s.M.funcs: raise T.Undecided('call to unknown function ' + name)
        F = s.M.funcs[name]; s.touched.add(name)
        env = dict(zip(F.args, args))
        blk = F.blocks[F.order[0]]; prev = None
        while True:
            if blk.phis:
                vals = [s.opv(env, ph.a[prev]) for ph in blk.phis]
                for ph, v in zip(blk.phis, vals): env[ph.d] = v
            for I in blk.ins:
                s.nins += 1
                op = I.op
                if op == 'br':
                    a = I.a
                    if a[0] is None: nxt = a[1]
                    else:
                        c = s.opv(env, a[0])
                        nxt = a[1] if s.truth(c, F.name) else a[2]
                    prev = blk.name; blk = F.blocks[nxt]; break
                elif op == 'ret':
                    return None if I.a[0] is None else s.opv(env, I.a[0])
                elif op == 'switch':
                    v = s.opv(env, I.a[0]); w = I.ty.n; nxt = I.a[1]
                    for c, l in I.a[2]:
                        if s.truth(T.c_eq(T.uval(v, w), c & ((1 << w) - 1)), F.name): nxt = l; break
                    prev = blk.name; blk = F.blocks[nxt]; break
                else:
                    s.where = F.name + ': ' + I.txt.split(', !')[0]
                    r = s.step(env, I)
                    if I.d is not None: env[I.d] = r
            else: raise T.Undecided('fell off block')
    def truth(s, c, where):
        if type(c) is int: return bool(c & 1)
        if type(c) is bool: return c
        if s.decide: return s.decide(c, where)
        raise T.Undecided('%s: data-dependent branch on %r' % (where, c))
    def opv(s, env, a):
        k = a[0]
        if k == 'v': return env[a[1]]
        if k == 'c': return a[1]
        if k == 'null': return NULL
        if k == 'undef': return 0
        if k == 'g': return s.globl(a[1])
        if k == 'gep': return s.gep(env, a[1], a[2][0][1], a[2][1:])
        if k == 'zero': return 0
        raise T.Undecided('operand %r' % (a,))
    def gep(s, env, ty, base, idx):
        p = s.opv(env, base)
        off = p.off; t = ty
        for n, (it, iv) in enumerate(idx):
            i = s.opv(env, iv)
            i = T.sval(i, it.n) if type(i) is not int else i
            if n == 0: off = T.add(off, T.mulc(i, s.M.sizeof(t)))
            elif t.k == 'struct':
                off = T.add(off, s.M.layout(t)[0][i]); t = t.fs[i]
            else:
                t = t.e; off = T.add(off, T.mulc(i, s.M.sizeof(t)))
        return Ptr(p.o, off)
    def step(s, env, I):
        op = I.op; a = I.a
        if op == 'load':
            return s.load(s.opv(env, a[0]), s.M.sizeof(I.ty))
        if op == 'store':
            s.store(s.opv(env, a[1]), s.M.sizeof(I.ty), s.opv(env, a[0])); return
        if op == 'gep': return s.gep(env, I.ty, a[0], a[1])
        if op in llir.BIN: return s.binop(op, I.ty.n, s.opv(env, a[0]), s.opv(env, a[1]), I.fl)
        if op == 'sext':
            v = s.opv(env, a[0])
            if a[1].n == 1: return T.neg(s.b2i(v))
            return T.sval(v, a[1].n)
        if op == 'zext':
            v = s.opv(env, a[0])
            if a[1].n == 1: return s.b2i(v)
            return T.uval(v, a[1].n)
        if op == 'trunc':
            v = s.opv(env, a[0])
            if I.ty.n == 1: return T.modp(v, 1) if type(v) is int else T.c_eq(T.modp(v, 1), 1)
            if s.check_trunc:
                r = s.check_trunc(s, v, a[1].n, I.ty.n)
                if r is not None: return r
            return v
        if op == 'icmp': return s.icmp(a[0], I.ty, s.opv(env, a[1]), s.opv(env, a[2]))
        if op == 'select':
            c = s.opv(env, a[0]); x = s.opv(env, a[1]); y = s.opv(env, a[2])
            if type(c) is int: c = bool(c & 1)
            if type(c) is bool: return x if c else y
            if isinstance(x, (int, Lin)) and isinstance(y, (int, Lin)) and I.ty.k == 'int' and I.ty.n > 1:
                return T.ite(c, T.sval(x, I.ty.n), T.sval(y, I.ty.n))
            return x if s.truth(c, s.where) else y
        if op == 'alloca':
            return Ptr(Obj('local ' + str(I.d), s.M.sizeof(I.ty) * (a[0][1] if a[0] else 1)), 0)
        if op == 'call':
            fn, args = a
            if fn.startswith('@llvm.lifetime') or fn.startswith('@llvm.dbg'): return None
            av = [s.opv(env, x) for _, x in args]
            if fn.startswith('@llvm.memcpy') or fn.startswith('@llvm.memmove'):
                if type(av[2]) is not int: raise T.Undecided('symbolic memcpy length')
                s.memcpy(av[0], av[1], av[2]); return None
            if fn.startswith('@llvm.memset'):
                if type(av[2]) is not int: raise T.Undecided('symbolic memset length')
                for i in range(av[2]): s.store(Ptr(av[0].o, av[0].off + i), 1, av[1])
                return None
            if fn.startswith('@llvm.') and ('.smax' in fn or '.smin' in fn):
                w = I.ty.n; x = T.sval(av[0], w); y = T.sval(av[1], w); c = T.c_le(x, y)
                return T.ite(c, y, x) if 'smax' in fn else T.ite(c, x, y)
            if fn.startswith('@llvm.abs'):
                w = I.ty.n; x = T.sval(av[0], w); return T.ite(T.c_le(0, x), x, T.neg(x))
            if fn[0] == '%':
                f = env[fn]
                if not isinstance(f, FnPtr): raise T.Undecided('indirect call')
                fn = f.name
            wh = s.where
            r = s.call(fn, av)
            s.where = wh
            return r
        if op == 'ptrtoint':
            p = s.opv(env, a[0])
            if isinstance(p, Ptr): return p
            raise T.Undecided('ptrtoint')
        if op == 'inttoptr':
            p = s.opv(env, a[0])
            if isinstance(p, Ptr): return p
            if p == 0: return NULL
            raise T.Undecided('inttoptr')
        if op == 'freeze' or op == 'bitcast': return s.opv(env, a[0])
        raise T.Undecided('instruction ' + I.txt)
    def b2i(s, v):
        if type(v) is bool: return int(v)
        if type(v) is int: return v & 1
        return T.ite(v, 1, 0)
    def icmp(s, pr, ty, x, y):
        if isinstance(x, Ptr) or isinstance(y, Ptr):
            if not (isinstance(x, Ptr) and isinstance(y, Ptr)): raise T.Undecided('pointer/integer compare')
            if x.o is not y.o:
                if pr == 'eq': return False
                if pr == 'ne': return True
                raise Fail('%s: ordering of pointers to different objects' % s.where)
            x, y = x.off, y.off; pr = {'u': 's'}.get(pr[0], '') + pr[1:] if pr[0] == 'u' else pr
            w = 64
        elif isinstance(x, (Cond, bool)) or isinstance(y, (Cond, bool)):
            x = s.b2i(x); y = s.b2i(y); w = 2
        else: w = ty.n
        if pr in ('eq', 'ne'):
            c = T.c_eq(T.sval(x, w), T.sval(y, w))
            return c if pr == 'eq' else T.c_not(c)
        f = T.sval if pr[0] == 's' else T.uval
        x = f(x, w); y = f(y, w); k = pr[1:]
        if k == 'le': return T.c_le(x, y)
        if k == 'lt': return T.c_le(T.add(x, 1), y)
        if k == 'ge': return T.c_le(y, x)
        return T.c_le(T.add(y, 1), x)
    def binop(s, op, w, x, y, fl):
        if isinstance(x, Ptr) or isinstance(y, Ptr):
            if op == 'sub' and isinstance(x, Ptr) and isinstance(y, Ptr) and x.o is y.o: return T.sub(x.off, y.off)
            if op == 'add': 
                if isinstance(y, Ptr): x, y = y, x
                return Ptr(x.o, T.add(x.off, y))
            if op == 'sub': return Ptr(x.o, T.sub(x.off, y))
            raise T.Undecided('pointer arithmetic ' + s.where)
        if isinstance(x, (Cond, bool)) or isinstance(y, (Cond, bool)):
            x = s.b2i(x); y = s.b2i(y)
            if op == 'xor': r = T.add(x, T.add(y, T.mulc(T.mul(x, y), -2)))
            elif op == 'and': r = T.mul(x, y)
            elif op == 'or': r = T.sub(T.add(x, y), T.mul(x, y))
            else: raise T.Undecided('i1 ' + op)
            return r if type(r) is int else T.c_eq(r, 1)
        if op == 'add' or op == 'sub' or op == 'mul':
            if 'nsw' in fl:
                x = T.sval(x, w); y = T.sval(y, w)
            r = T.add(x, y) if op == 'add' else T.sub(x, y) if op == 'sub' else T.mul(x if 'nsw' in fl or type(y) is int else T.sval(x, w), y if 'nsw' in fl or type(x) is int else T.sval(y, w))
            if 'nsw' in fl:
                s.need(T.fits(r, -(1 << w - 1), (1 << w - 1) - 1), 'signed overflow: %r in %s' % (r, T.rng(r)))
            elif type(r) is int: r = T.sval(r, w)
            return r
        if op == 'shl':
            if type(y) is int:
                s.need(0 <= y < w, 'shift amount'); return T.mulc(x, 1 << y) if type(x) is not int else T.sval(x << y, w)
            y = T.uval(y, w); s.need(T.fits(y, 0, w - 1), 'shift amount %s' % (T.rng(y),))
            return T.mul(T.sval(x, w), T.pow2(y))
        if op == 'ashr' or op == 'lshr':
            x = T.sval(x, w) if op == 'ashr' else T.uval(x, w)
            y = T.uval(y, w); s.need(T.fits(y, 0, w - 1), 'shift amount %s' % (T.rng(y),))
            return T.floors(x, y)
        if op == 'and':
            if type(x) is int: x, y = y, x
            if type(x) is int: return T.sval(x & y, w)
            if type(y) is int: return s.mask(x, y & ((1 << w) - 1), w)
            raise T.Undecided('and of two symbolic values: ' + s.where)
        if op == 'or':
            if type(x) is int and type(y) is int: return T.sval(x | y, w)
            return s.bor(x, y, w)
        if op == 'xor':
            if type(x) is int: x, y = y, x
            if type(x) is int: return T.sval(x ^ y, w)
            if type(y) is int:
                m = y & ((1 << w) - 1)
                if m == (1 << w) - 1: return T.sub(-1, x)
                # x ^ m = x + m - 2*(x & m)
                return T.add(x, T.sub(m, T.mulc(s.mask(x, m, w), 2)))
            lo, hi = T.rng(T.sval(y, w)); 
            if (lo, hi) != (-1, 0): x, y = y, x; lo, hi = T.rng(T.sval(y, w))
            if (lo, hi) == (-1, 0):
                yy = T.sval(y, w); xx = T.sval(x, w)
                return T.ite(T.c_eq(yy, 0), xx, T.sub(-1, xx))
            raise T.Undecided('xor of two symbolic values: ' + s.where)
        if op in ('sdiv', 'srem', 'udiv', 'urem'):
            if type(y) is int and y > 0 and y & (y - 1) == 0:
                k = y.bit_length() - 1
                x = T.sval(x, w) if op[0] == 's' else T.uval(x, w)
                q = T.floor2(x, k) if op[0] == 'u' or T.fits(x, 0, 1 << 200) else \
                    T.ite(T.c_le(0, x), T.floor2(x, k), T.neg(T.floor2(T.neg(x), k)))
                return q if op[1:] == 'div' else T.sub(x, T.mulc(q, y))
            if type(x) is int and type(y) is int and y:
                x = T.sval(x, w) if op[0] == 's' else T.uval(x, w); y = T.sval(y, w) if op[0] == 's' else T.uval(y, w)
                q = abs(x) // abs(y) * (1 if (x < 0) == (y < 0) else -1)
                return q if op[1:] == 'div' else x - q * y
            raise T.Undecided('division')
        raise T.Undecided('op ' + op)
    def mask(s, x, m, w):
        """x & m as a sum of bit fields"""
        r = 0; i = 0
        x0 = x
        if m == (1 << w) - 1: return x
        while i < w:
            if not (m >> i) & 1: i += 1; continue
            j = i
            while j < w and (m >> j) & 1: j += 1
            f = T.floor2(x0, i) if j == w and False else T.modp(T.floor2(x0, i), j - i)
            r = T.add(r, T.mulc(f, 1 << i)); i = j
        return r
    def bor(s, x, y, w):
        for a, b in ((x, y), (y, x)):
            if type(a) is int and type(b) is not int:
                # x | m = x + m - (x & m)
                m = a & ((1 << w) - 1)
                return T.add(b, T.sub(m, s.mask(b, m, w)))
        x = T.uval(x, w); y = T.uval(y, w)
        for a, b in ((x, y), (y, x)):
            lo, hi = T.rng(b); k = hi.bit_length()
            if lo >= 0 and a.c % (1 << k) == 0 and all(c % (1 << k) == 0 for _, c in a.t): return T.add(a, b)
        raise T.Undecided('or of two symbolic values: ' + s.where)
