"""Reader for textual LLVM 18 IR (the subset clang emits for this code base)."""
import re

class IRError(Exception):
    pass

# ---------------------------------------------------------------- types
class Ty:
    __slots__ = ('k', 'n', 'e', 'fs')
    def __init__(s, k, n=0, e=None, fs=None):
        s.k = k; s.n = n; s.e = e; s.fs = fs
    def __repr__(s):
        return {'int': 'i%d' % s.n, 'ptr': 'ptr', 'void': 'void', 'arr': '[%dx%r]' % (s.n, s.e),
                'struct': '{%r}' % (s.fs,), 'vec': '<%dx%r>' % (s.n, s.e)}.get(s.k, s.k)

PTR = Ty('ptr'); VOID = Ty('void')
_ints = {}
def INT(n):
    if n not in _ints:
        _ints[n] = Ty('int', n)
    return _ints[n]

class Module:
    def __init__(s):
        s.structs = {}; s.globals = {}; s.funcs = {}; s.decls = set(); s.lay = {}
    def sizeof(s, t):
        if t.k == 'int': return max(1, (t.n + 7) // 8)
        if t.k == 'ptr': return 8
        if t.k in ('arr', 'vec'): return t.n * s.sizeof(t.e)
        if t.k == 'struct': return s.layout(t)[1]
        raise IRError('sizeof ' + repr(t))
    def alignof(s, t):
        if t.k == 'int': return max(1, (t.n + 7) // 8)
        if t.k == 'ptr': return 8
        if t.k == 'arr': return s.alignof(t.e)
        if t.k == 'struct': return max([s.alignof(f) for f in t.fs] or [1])
        raise IRError('alignof ' + repr(t))
    def layout(s, t):
        r = s.lay.get(id(t))
        if r is None or r[0] is not t or len(t.fs) != r[2]:
            r = s.lay[id(t)] = (t, s.layout1(t), len(t.fs))
        return r[1]
    def layout1(s, t):
        offs = []; o = 0
        for f in t.fs:
            a = s.alignof(f); o = (o + a - 1) // a * a
            offs.append(o); o += s.sizeof(f)
        a = s.alignof(t)
        return offs, (o + a - 1) // a * a

class Func:
    def __init__(s, name):
        s.name = name; s.args = []; s.argty = []; s.ret = VOID
        s.blocks = {}; s.order = []; s._loops = None
    def succs(s, b):
        t = s.blocks[b].ins[-1]
        if t.op == 'br': return list(t.a[1:]) if t.a[0] is not None else [t.a[1]]
        if t.op == 'switch': return [t.a[1]] + [l for _, l in t.a[2]]
        return []
    def loops(s):
        """header -> set of blocks of the natural loop(s) with that header"""
        if s._loops is not None: return s._loops
        preds = {b: [] for b in s.order}
        for b in s.order:
            for t in s.succs(b): preds[t].append(b)
        entry = s.order[0]
        # iterative dominators
        rpo = []; seen = set()
        st = [(entry, iter(s.succs(entry)))]; seen.add(entry)
        while st:
            b, it = st[-1]
            for t in it:
                if t not in seen:
                    seen.add(t); st.append((t, iter(s.succs(t)))); break
            else:
                rpo.append(b); st.pop()
        rpo.reverse()
        dom = {b: set(rpo) for b in rpo}; dom[entry] = {entry}
        ch = True
        while ch:
            ch = False
            for b in rpo[1:]:
                ps = [dom[p] for p in preds[b] if p in seen]
                n = set.intersection(*ps) | {b}
                if n != dom[b]: dom[b] = n; ch = True
        L = {}
        for b in rpo:
            for t in s.succs(b):
                if t in dom[b]:
                    body = L.setdefault(t, {t})
                    w = [b]
                    while w:
                        x = w.pop()
                        if x not in body:
                            body.add(x); w.extend(p for p in preds[x] if p in seen)
        s._loops = L; s.dom = dom; s.preds = preds
        return L

class Block:
    __slots__ = ('name', 'phis', 'ins')
    def __init__(s, n): s.name = n; s.phis = []; s.ins = []

class Ins:
    __slots__ = ('op', 'd', 'ty', 'a', 'fl', 'txt')
    def __init__(s, op, d, ty, a, fl=(), txt=''):
        s.op = op; s.d = d; s.ty = ty; s.a = a; s.fl = fl; s.txt = txt
    def __repr__(s): return '%s = %s %r %r' % (s.d, s.op, s.ty, s.a)

# ---------------------------------------------------------------- tokenizer
TOK = re.compile(r'''\s*(c"(?:[^"])*"|"(?:[^"])*"|%"[^"]*"|@"[^"]*"|[%@][-a-zA-Z$._0-9]+|![-a-zA-Z$._0-9]*|\#\d+|-?\d+|\.\.\.|[a-zA-Z_][-a-zA-Z0-9_.]*|[{}\[\]()<>,=*:|])''')

def toks(line):
    out = []; i = 0; n = len(line)
    while i < n:
        if line[i] == ';': break
        m = TOK.match(line, i)
        if not m:
            if line[i:].strip() == '' : break
            raise IRError('tok: ' + line[i:i+40])
        out.append(m.group(1)); i = m.end()
    return out

class P:
    def __init__(s, M, t): s.M = M; s.t = t; s.i = 0
    def pk(s, k=0): return s.t[s.i + k] if s.i + k < len(s.t) else None
    def nx(s):
        x = s.t[s.i]; s.i += 1; return x
    def ex(s, x):
        if s.nx() != x: raise IRError('expected %s at %r' % (x, s.t))
    def acc(s, x):
        if s.pk() == x: s.i += 1; return True
        return False
    def type(s):
        x = s.nx()
        if x[0] == 'i' and x[1:].isdigit(): t = INT(int(x[1:]))
        elif x == 'ptr': t = PTR
        elif x == 'void': t = VOID
        elif x == '[':
            n = int(s.nx()); s.ex('x'); e = s.type(); s.ex(']'); t = Ty('arr', n, e)
        elif x == '<':
            if s.pk() == '{':
                raise IRError('packed struct')
            n = int(s.nx()); s.ex('x'); e = s.type(); s.ex('>'); t = Ty('vec', n, e)
        elif x == '{':
            fs = []
            while not s.acc('}'):
                fs.append(s.type()); s.acc(',')
            t = Ty('struct', 0, None, fs)
        elif x[0] == '%':
            if x not in s.M.structs: raise IRError('type ' + x)
            t = s.M.structs[x]
        else: raise IRError('type %s in %r' % (x, s.t))
        while s.pk() == '(':            # function type: skip
            d = 0
            while True:
                y = s.nx()
                d += (y == '(') - (y == ')')
                if d == 0: break
        return t
    ATTR = {'noundef', 'nonnull', 'signext', 'zeroext', 'nocapture', 'readonly', 'writeonly', 'noalias', 'returned',
            'immarg', 'inreg', 'nofree', 'allocptr', 'dead_on_unwind', 'writable'}
    def attrs(s):
        while True:
            x = s.pk()
            if x in s.ATTR: s.i += 1
            elif x in ('align', 'dereferenceable', 'dereferenceable_or_null', 'allocsize', 'captures'):
                s.i += 1
                if s.pk() == '(':
                    while s.nx() != ')': pass
                else: s.i += 1
            else: return
    def val(s, ty):
        x = s.nx()
        if x[0] == '%': return ('v', x)
        if x[0] == '@': return ('g', x)
        if x == 'true': return ('c', 1)
        if x == 'false': return ('c', 0)
        if x == 'null': return ('null',)
        if x in ('undef', 'poison'): return ('undef',)
        if x == 'zeroinitializer': return ('zero',)
        if x.lstrip('-').isdigit(): return ('c', int(x))
        if x == 'getelementptr':
            s.acc('inbounds'); s.ex('('); t = s.type(); s.ex(',')
            ops = []
            while True:
                ot = s.type(); ops.append((ot, s.val(ot)))
                if not s.acc(','): break
            s.ex(')')
            return ('gep', t, ops)
        if x[0] == 'c' and x[1:2] == '"':
            return ('bytes', unesc(x[2:-1]))
        if x == '[':
            el = []
            while not s.acc(']'):
                t = s.type(); el.append(s.val(t)); s.acc(',')
            return ('arr', el)
        if x == '{':
            el = []
            while not s.acc('}'):
                t = s.type(); el.append((t, s.val(t))); s.acc(',')
            return ('st', el)
        raise IRError('value %s in %r' % (x, s.t))

def unesc(x):
    out = bytearray(); i = 0
    while i < len(x):
        if x[i] == '\\':
            out.append(int(x[i+1:i+3], 16)); i += 3
        else:
            out.append(ord(x[i])); i += 1
    return bytes(out)

FLAGS = {'nsw', 'nuw', 'exact', 'inbounds', 'tail', 'musttail', 'notail', 'volatile', 'disjoint', 'nneg', 'nuw'}
BIN = {'add', 'sub', 'mul', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'sdiv', 'udiv', 'srem', 'urem'}
CAST = {'sext', 'zext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast'}

def parse(text):
    M = Module()
    lines = text.split('\n')
    # join switch bodies
    out = []; i = 0
    while i < len(lines):
        l = lines[i]
        if l.strip().startswith('switch ') and l.rstrip().endswith('['):
            while not lines[i].strip().startswith(']'):
                i += 1; l += ' ' + lines[i]
        out.append(l); i += 1
    lines = out
    # structs first (possibly forward refs)
    names = []
    for l in lines:
        m = re.match(r'(%\S+) = type (.*)', l)
        if m: names.append((m.group(1), m.group(2)))
    for n, _ in names: M.structs[n] = Ty('struct', 0, None, [])
    for n, b in names:
        if b.strip() == 'opaque': continue
        t = P(M, toks(b)).type(); M.structs[n].fs = t.fs
    F = None; B = None
    for l in lines:
        if F is None:
            if l.startswith('@'):
                t = toks(l); p = P(M, t); name = p.nx(); p.ex('=')
                while p.pk() in ('private', 'internal', 'unnamed_addr', 'local_unnamed_addr', 'dso_local', 'external', 'global', 'constant', 'common', 'hidden'):
                    x = p.nx()
                    if x in ('global', 'constant'): break
                const = x == 'constant'
                ty = p.type()
                init = p.val(ty) if p.pk() and p.pk() != ',' else None
                M.globals[name] = (ty, init, const)
            elif l.startswith('define '):
                t = toks(l); p = P(M, t); p.nx()
                while p.pk() in ('dso_local', 'internal', 'hidden', 'weak', 'linkonce_odr', 'private', 'noalias', 'zeroext', 'signext', 'noundef', 'unnamed_addr', 'local_unnamed_addr'): p.nx()
                rt = p.type(); name = p.nx()
                F = Func(name); F.ret = rt; p.ex('(')
                k = 0
                while not p.acc(')'):
                    if p.acc('...'): continue
                    at = p.type(); p.attrs()
                    if p.pk() and p.pk()[0] == '%': an = p.nx()
                    else: an = '%%%d' % k
                    k += 1
                    F.args.append(an); F.argty.append(at); p.acc(',')
                M.funcs[name] = F
                B = Block('%%%d' % len(F.args)); F.blocks[B.name] = B; F.order.append(B.name)
            elif l.startswith('declare '):
                m = re.search(r'@([-\w.$]+)', l)
                if m: M.decls.add('@' + m.group(1))
            continue
        if l.startswith('}'):
            F = None; continue
        s = l.strip()
        if not s or s.startswith(';'): continue
        m = re.match(r'("?[-\w.$]+"?):', s)
        if m and not l.startswith(' '):
            nm = '%' + m.group(1)
            if not B.ins and not B.phis and B.name not in ():
                # entry block with an explicit label
                if len(F.order) == 1 and F.order[0] == B.name:
                    F.order = []; F.blocks = {}
            B = Block(nm); F.blocks[nm] = B; F.order.append(nm); continue
        ins = parse_ins(M, s)
        if ins is None: continue
        if ins.op == 'phi': B.phis.append(ins)
        else: B.ins.append(ins)
    return M

def parse_ins(M, s):
    t = toks(s); p = P(M, t)
    d = None
    if p.pk(1) == '=':
        d = p.nx(); p.nx()
    op = p.nx(); fl = []
    while op in ('tail', 'musttail', 'notail'): op = p.nx()
    while p.pk() in FLAGS: fl.append(p.nx())
    fl = tuple(fl)
    if op in BIN:
        ty = p.type(); a = p.val(ty); p.ex(','); b = p.val(ty)
        return Ins(op, d, ty, (a, b), fl, s)
    if op in CAST:
        ty = p.type(); a = p.val(ty); p.ex('to'); t2 = p.type()
        return Ins(op, d, t2, (a, ty), fl, s)
    if op == 'freeze':
        ty = p.type(); return Ins('freeze', d, ty, (p.val(ty),), fl, s)
    if op == 'icmp':
        pr = p.nx(); ty = p.type(); a = p.val(ty); p.ex(','); b = p.val(ty)
        return Ins('icmp', d, ty, (pr, a, b), fl, s)
    if op == 'select':
        ct = p.type(); c = p.val(ct); p.ex(','); ty = p.type(); a = p.val(ty); p.ex(','); p.type(); b = p.val(ty)
        return Ins('select', d, ty, (c, a, b), fl, s)
    if op == 'load':
        ty = p.type(); p.ex(','); p.type(); return Ins('load', d, ty, (p.val(PTR),), fl, s)
    if op == 'store':
        ty = p.type(); v = p.val(ty); p.ex(','); p.type(); return Ins('store', None, ty, (v, p.val(PTR)), fl, s)
    if op == 'getelementptr':
        ty = p.type(); p.ex(','); p.type(); base = p.val(PTR); idx = []
        while p.acc(','):
            if p.pk()[0] == '!': break
            it = p.type(); idx.append((it, p.val(it)))
        return Ins('gep', d, ty, (base, idx), fl, s)
    if op == 'alloca':
        ty = p.type(); n = None
        if p.acc(',') and p.pk() != 'align':
            nt = p.type(); n = p.val(nt)
        return Ins('alloca', d, ty, (n,), fl, s)
    if op == 'phi':
        ty = p.type(); inc = []
        while True:
            p.ex('['); v = p.val(ty); p.ex(','); b = p.nx(); p.ex(']'); inc.append((b, v))
            if not (p.pk() == ',' and p.pk(1) == '['): break
            p.nx()
        return Ins('phi', d, ty, dict(inc), fl, s)
    if op == 'br':
        if p.acc('label'): return Ins('br', None, VOID, (None, p.nx()), fl, s)
        p.type(); c = p.val(INT(1)); p.ex(','); p.ex('label'); a = p.nx(); p.ex(','); p.ex('label'); b = p.nx()
        return Ins('br', None, VOID, (c, a, b), fl, s)
    if op == 'switch':
        ty = p.type(); v = p.val(ty); p.ex(','); p.ex('label'); dl = p.nx(); p.ex('['); cs = []
        while not p.acc(']'):
            p.type(); c = p.val(ty); p.ex(','); p.ex('label'); cs.append((c[1], p.nx()))
        return Ins('switch', None, ty, (v, dl, cs), fl, s)
    if op == 'ret':
        ty = p.type()
        return Ins('ret', None, ty, (None if ty.k == 'void' else p.val(ty),), fl, s)
    if op == 'unreachable':
        return Ins('unreachable', None, VOID, (), fl, s)
    if op == 'call':
        p.attrs(); 
        rt = p.type(); fn = p.nx() ; p.ex('('); args = []
        while not p.acc(')'):
            if p.pk() == 'metadata': return None
            at = p.type(); p.attrs(); args.append((at, p.val(at))); p.acc(',')
        return Ins('call', d, rt, (fn, args), fl, s)
    raise IRError('instruction ' + s)
