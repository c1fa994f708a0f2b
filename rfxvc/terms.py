"""Mathematical-integer terms used as verification-condition language.

A value is a Python int or a Lin: an integer-linear combination of atoms.  An i<w> program value is any
representative modulo 2^w; sval/uval return the signed / unsigned representative as an exact integer term.
Atoms are hash-consed, so syntactic identity of normalised terms is equality for all inputs:
  ('leaf', name)            an input with a range
  ('fl', L, k)              floor(L / 2^k), L reduced so that every coefficient lies in (0, 2^k)
  ('fls', L, S)             floor(L / 2^S), S symbolic
  ('p2', S)                 2^S
  ('mul', A, B)             product of two non-constant terms
  ('ite', c, A, B)          c is a Cond
"""

class Undecided(Exception):
    pass

ATOMS = []          # id -> Atom
ASSUMED = {}        # Lin -> (lo, hi): ranges taken as hypotheses (reported by the user of this table)
_index = {}

class Atom:
    __slots__ = ('id', 'key', 'lo', 'hi', 'aff', 'deps')
    def __repr__(s): return 'a%d:%s' % (s.id, s.key[0])

class Lin:
    __slots__ = ('c', 't', 'h', '_r', '_aff')
    def __init__(s, c, t):
        s.c = c; s.t = t; s.h = hash((c, t)); s._r = None; s._aff = None
    def __hash__(s): return s.h
    def __eq__(s, o): return s is o or (isinstance(o, Lin) and s.h == o.h and s.c == o.c and s.t == o.t)
    def __ne__(s, o): return not s == o
    def __repr__(s): return show(s, 2)

def show(v, depth=3):
    if not isinstance(v, Lin): return str(v)
    out = []
    for a, k in v.t:
        A = ATOMS[a]; key = A.key
        if key[0] == 'leaf': n = str(key[1])
        elif depth <= 0: n = 'a%d' % a
        elif key[0] == 'fl': n = 'fl(%s,2^%d)' % (show(key[1], depth - 1), key[2])
        elif key[0] == 'fls': n = 'fl(%s,2^(%s))' % (show(key[1], depth - 1), show(key[2], depth - 1))
        elif key[0] == 'p2': n = '2^(%s)' % show(key[1], depth - 1)
        elif key[0] == 'mul': n = '(%s)*(%s)' % (show(key[1], depth - 1), show(key[2], depth - 1))
        elif key[0] == 'ite': n = 'ite(%r,%s,%s)' % (key[1], show(key[2], depth - 1), show(key[3], depth - 1))
        else: n = repr(key)
        out.append(('%d*' % k if k != 1 else '') + n)
    if v.c: out.append(str(v.c))
    return ' + '.join(out)

def atom(key, lo, hi):
    a = _index.get(key)
    if a is None:
        a = Atom(); a.id = len(ATOMS); a.key = key; a.lo = lo; a.hi = hi; a.aff = None; a.deps = None
        ATOMS.append(a); _index[key] = a
    return a

def lin_atom(a, k=1): return Lin(0, ((a.id, k),))

def leaf(name, lo, hi): return lin_atom(atom(('leaf', name), lo, hi))

def mk(c, d):
    """from dict"""
    t = tuple(sorted((a, k) for a, k in d.items() if k))
    return Lin(c, t) if t else c

def add(a, b):
    if type(a) is int:
        if type(b) is int: return a + b
        if a == 0: return b
        return Lin(b.c + a, b.t)
    if type(b) is int:
        return Lin(a.c + b, a.t) if b else a
    d = dict(a.t)
    for x, k in b.t:
        n = d.get(x, 0) + k
        if n: d[x] = n
        else: del d[x]
    if not d: return a.c + b.c
    return Lin(a.c + b.c, tuple(sorted(d.items())))

def mulc(a, k):
    if type(a) is int: return a * k
    if k == 1: return a
    if k == 0: return 0
    return Lin(a.c * k, tuple((x, c * k) for x, c in a.t))

def sub(a, b): return add(a, mulc(b, -1))
def neg(a): return mulc(a, -1)

def rng(a):
    if type(a) is int: return a, a
    if a._r is None:
        lo = hi = a.c
        for x, k in a.t:
            A = ATOMS[x]
            if k > 0: lo += k * A.lo; hi += k * A.hi
            else: lo += k * A.hi; hi += k * A.lo
        if ASSUMED and a in ASSUMED:
            l, h = ASSUMED[a]; lo = max(lo, l); hi = min(hi, h)
        a._r = (lo, hi)
    return a._r

# ------------------------------------------------------------- affine ranges
# an affine form: (e, const-interval lo, hi, {leaf: coef}) all scaled by 2^e : value = (interval + sum coef*leaf)/2^e

def atom_aff(A):
    if A.aff is not None: return A.aff
    k = A.key
    if k[0] == 'fl':
        e, lo, hi, d = aff(k[1])
        s = k[2]
        # floor(v/2^s) = v/2^s - f, f in [0, (2^s-1)/2^s]
        r = (e + s, lo - ((1 << s) - 1 << e), hi, d)
    else:
        r = (0, 0, 0, {A.id: 1})
    A.aff = r
    return r

def aff(L):
    if type(L) is int: return (0, L, L, {})
    if L._aff is not None: return L._aff
    fs = [(atom_aff(ATOMS[x]), k) for x, k in L.t]
    e = max(f[0] for f, _ in fs)
    lo = hi = L.c << e
    d = {}
    for (fe, flo, fhi, fd), k in fs:
        m = k << (e - fe)
        if m > 0: lo += flo * m; hi += fhi * m
        else: lo += fhi * m; hi += flo * m
        for x, c in fd.items(): d[x] = d.get(x, 0) + c * m
    L._aff = (e, lo, hi, d)
    return L._aff

def affrng(L):
    lo0, hi0 = rng(L)
    if type(L) is int: return lo0, hi0
    e, lo, hi, d = aff(L)
    for x, c in d.items():
        A = ATOMS[x]
        if c > 0: lo += c * A.lo; hi += c * A.hi
        else: lo += c * A.hi; hi += c * A.lo
    lo = -((-lo) >> e); hi = hi >> e        # ceil / floor
    r = (max(lo, lo0), min(hi, hi0))
    L._r = r
    return r

def fits(L, lo, hi):
    a, b = rng(L)
    if lo <= a and b <= hi: return True
    if type(L) is int: return False
    a, b = affrng(L)
    return lo <= a and b <= hi

# ------------------------------------------------------------- floor
def floor2(L, k):
    if k == 0: return L
    if type(L) is int: return L >> k
    m = (1 << k) - 1
    q = {}; r = {}
    for x, c in L.t:
        if c >> k: q[x] = c >> k
        if c & m: r[x] = c & m
    qc = L.c >> k; rc = L.c & m
    if not r: return mk(qc, q)
    # floor((2^j R' + rc)/2^k) with R' integral = floor((R' + floor(rc/2^j))/2^(k-j))
    g = 0
    for c in r.values(): g |= c
    j = (g & -g).bit_length() - 1
    if j:
        R = mk(rc >> j, {x: c >> j for x, c in r.items()})
        return add(mk(qc, q), floor2(R, k - j))
    R = mk(rc, r)
    lo, hi = rng(R)
    if lo >> k == hi >> k: return add(mk(qc, q), lo >> k)
    # nested: floor((fl(M,j) + c)/2^k) = fl(M + c*2^j, j+k)
    if len(R.t) == 1 and R.t[0][1] == 1 and ATOMS[R.t[0][0]].key[0] == 'fl':
        _, M, jj = ATOMS[R.t[0][0]].key
        return add(mk(qc, q), floor2(add(M, R.c << jj), jj + k))
    at = atom(('fl', R, k), lo >> k, hi >> k)
    return add(mk(qc, q), lin_atom(at))

def modp(L, k):
    """L mod 2^k in [0,2^k)"""
    if type(L) is int: return L & ((1 << k) - 1)
    return sub(L, mulc(floor2(L, k), 1 << k))

def uval(L, w):
    if type(L) is int: return L & ((1 << w) - 1)
    if fits(L, 0, (1 << w) - 1): return L
    lo, hi = rng(L)
    k = lo >> w
    if k == hi >> w: return add(L, -k << w)
    return modp(L, w)

def sval(L, w):
    h = 1 << (w - 1)
    if type(L) is int: return ((L + h) & ((1 << w) - 1)) - h
    if fits(L, -h, h - 1): return L
    return add(uval(add(L, h), w), -h)

# ------------------------------------------------------------- symbolic shifts, products
def pow2(S):
    if type(S) is int:
        if S < 0: raise Undecided('2^negative')
        return 1 << S
    lo, hi = rng(S)
    if lo < 0: raise Undecided('2^S with S possibly negative')
    if hi > 200: raise Undecided('2^S with large S')
    return lin_atom(atom(('p2', S), 1 << lo, 1 << hi))

def mul(a, b):
    if type(a) is int: return mulc(b, a)
    if type(b) is int: return mulc(a, b)
    if b.h < a.h: a, b = b, a
    l1, h1 = rng(a); l2, h2 = rng(b)
    ps = (l1 * l2, l1 * h2, h1 * l2, h1 * h2)
    return lin_atom(atom(('mul', a, b), min(ps), max(ps)))

def floors(L, S):
    if type(S) is int:
        if S < 0: raise Undecided('shift by negative')
        return floor2(L, S)
    slo, shi = rng(S)
    if slo < 0 or shi > 200: raise Undecided('shift range')
    lo, hi = affrng(L)
    if type(L) is int and L in (0, -1): return L
    c = (lo >> slo, lo >> shi, hi >> slo, hi >> shi)
    return lin_atom(atom(('fls', L, S), min(c), max(c)))

# ------------------------------------------------------------- conditions
class Cond:
    """L <= 0 ('le') or L == 0 ('eq') or negation"""
    __slots__ = ('k', 'L', 'h')
    def __init__(s, k, L): s.k = k; s.L = L; s.h = hash((k, L))
    def __hash__(s): return s.h
    def __eq__(s, o): return isinstance(o, Cond) and s.k == o.k and s.L == o.L
    def __repr__(s): return '(%s %s)' % (show(s.L, 2), {'le': '<=0', 'eq': '==0', 'ne': '!=0'}[s.k])

def c_le(a, b):
    L = sub(a, b)
    if type(L) is int: return L <= 0
    lo, hi = rng(L)
    if hi <= 0: return True
    if lo > 0: return False
    return Cond('le', L)
def c_not(c):
    if type(c) is bool: return not c
    if c.k == 'le': return c_le(1, c.L)
    return Cond('ne' if c.k == 'eq' else 'eq', c.L)
def c_eq(a, b):
    L = sub(a, b)
    if type(L) is int: return L == 0
    lo, hi = rng(L)
    if lo > 0 or hi < 0: return False
    if L.t[0][1] < 0: L = neg(L)
    return Cond('eq', L)

def ite(c, a, b):
    if type(c) is bool: return a if c else b
    if type(a) is type(b) and a == b: return a
    if c.k == 'ne': c = Cond('eq', c.L); a, b = b, a
    l1, h1 = rng(a); l2, h2 = rng(b)
    return lin_atom(atom(('ite', c, a, b), min(l1, l2), max(h1, h2)))

# ------------------------------------------------------------- substitution / evaluation
def deps(a):
    """set of leaf ids an atom depends on"""
    A = ATOMS[a]
    if A.deps is None:
        k = A.key
        if k[0] == 'leaf': A.deps = frozenset([a])
        else:
            s = set()
            for x in k[1:]:
                if isinstance(x, Cond): x = x.L
                if isinstance(x, Lin):
                    for y, _ in x.t: s |= deps(y)
            A.deps = frozenset(s)
    return A.deps

def ldeps(L):
    s = set()
    if isinstance(L, Lin):
        for a, _ in L.t: s |= deps(a)
    return s

def subst(L, env, memo=None):
    """env: leaf id -> int or Lin"""
    if type(L) is int: return L
    if memo is None: memo = {}
    r = L.c
    for a, k in L.t:
        r = add(r, mulc(_sa(a, env, memo), k))
    return r

def _sa(a, env, memo):
    v = memo.get(a)
    if v is not None: return v
    A = ATOMS[a]; key = A.key
    if not (deps(a) & env.keys()): v = lin_atom(A)
    elif key[0] == 'leaf': v = env[a]
    elif key[0] == 'fl': v = floor2(subst(key[1], env, memo), key[2])
    elif key[0] == 'fls': v = floors(subst(key[1], env, memo), subst(key[2], env, memo))
    elif key[0] == 'p2': v = pow2(subst(key[1], env, memo))
    elif key[0] == 'mul': v = mul(subst(key[1], env, memo), subst(key[2], env, memo))
    elif key[0] == 'ite':
        c = key[1]; CL = subst(c.L, env, memo)
        cc = c_le(CL, 0) if c.k == 'le' else c_eq(CL, 0)
        v = ite(cc, subst(key[2], env, memo), subst(key[3], env, memo))
    else: raise Undecided('subst')
    memo[a] = v
    return v

def evaluate(L, env):
    """env: leaf id -> int; total"""
    memo = {}
    def ev(L):
        if type(L) is int: return L
        return L.c + sum(k * ea(a) for a, k in L.t)
    def ea(a):
        if a in memo: return memo[a]
        key = ATOMS[a].key
        if key[0] == 'leaf': v = env[a]
        elif key[0] == 'fl': v = ev(key[1]) >> key[2]
        elif key[0] == 'fls': v = ev(key[1]) >> ev(key[2])
        elif key[0] == 'p2': v = 1 << ev(key[1])
        elif key[0] == 'mul': v = ev(key[1]) * ev(key[2])
        else:
            c = key[1]; x = ev(c.L)
            t = x <= 0 if c.k == 'le' else x == 0
            v = ev(key[2]) if t else ev(key[3])
        memo[a] = v; return v
    return ev(L)
