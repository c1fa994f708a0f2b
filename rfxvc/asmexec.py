"""Symbolic executor for the x86-64/SSE machine code that nasm produces from /repo's .asm sources.
It runs the disassembled instructions (objdump) of the linked object; loops have concrete trip counts.
An xmm register is kept as 16-bit lanes ('w'), 32-bit lanes ('d') or bytes ('b') of integer terms."""
import re, struct, subprocess, os
import terms as T
from flow import Fail, Obj, Ptr

class Undec(T.Undecided): pass

def build(work, repo, asm, fn):
    o = os.path.join(work, os.path.basename(asm) + '.o'); e = o[:-2] + '.elf'
    subprocess.run(['nasm', '-f', 'elf64', '-DASM_ARCH_AMD64', '-I%s/src/' % repo, '-I%s/src/amd64/' % repo, asm, '-o', o], check=True)
    subprocess.run(['ld', '-e', fn, '-o', e, o], check=True)
    dis = subprocess.run(['objdump', '-d', '-M', 'intel', '--no-show-raw-insn', e], check=True, capture_output=True, text=True).stdout
    code = {}; sym = {}; order = []
    for l in dis.split('\n'):
        m = re.match(r'([0-9a-f]+) <([^>]+)>:', l)
        if m: sym[m.group(2)] = int(m.group(1), 16); continue
        m = re.match(r'\s+([0-9a-f]+):\t(\S+)\s*([^#]*)(?:#\s*([0-9a-f]+))?', l)
        if m:
            a = int(m.group(1), 16); code[a] = (m.group(2), m.group(3).strip(), int(m.group(4), 16) if m.group(4) else None); order.append(a)
    nxt = dict(zip(order, order[1:]))
    # initialised data, straight from the program headers
    d = open(e, 'rb').read(); segs = []
    phoff, = struct.unpack_from('<Q', d, 32); phn, = struct.unpack_from('<H', d, 56); phs, = struct.unpack_from('<H', d, 54)
    for i in range(phn):
        t, fl, off, va, pa, fs, ms = struct.unpack_from('<IIQQQQQ', d, phoff + i * phs)
        if t == 1: segs.append((va, d[off:off+fs]))
    return code, nxt, sym, segs

R64 = ['rax', 'rcx', 'rdx', 'rbx', 'rsp', 'rbp', 'rsi', 'rdi'] + ['r%d' % i for i in range(8, 16)]
SUB = {}
for r in R64:
    SUB[r] = (r, 64)
for a in 'abcd':
    SUB['e%sx' % a] = ('r%sx' % a, 32); SUB['%sx' % a] = ('r%sx' % a, 16); SUB['%sl' % a] = ('r%sx' % a, 8)
for a in ('si', 'di', 'bp', 'sp'):
    SUB['e' + a] = ('r' + a, 32); SUB[a] = ('r' + a, 16); SUB[a + 'l'] = ('r' + a, 8)
for i in range(8, 16):
    SUB['r%dd' % i] = ('r%d' % i, 32); SUB['r%dw' % i] = ('r%d' % i, 16); SUB['r%db' % i] = ('r%d' % i, 8)

class Lanes:
    """an integer register holding 16-bit lanes of terms (zero-extended)"""
    __slots__ = ('l',)
    def __init__(s, l): s.l = list(l)

class X:   # xmm value
    __slots__ = ('k', 'v')
    def __init__(s, k, v): s.k = k; s.v = list(v)

class Asm:
    def __init__(s, prog, args):
        s.code, s.next, s.sym, s.segs = prog
        s.r = {x: ('init', x) for x in R64}
        s.x = {i: None for i in range(16)}
        s.stack = Obj('stack', 4096); s.r['rsp'] = Ptr(s.stack, 2048)
        for reg, v in zip(['rdi', 'rsi', 'rdx', 'rcx', 'r8', 'r9'], args): s.r[reg] = v
        s.zf = None; s.ob = 0; s.n = 0; s.where = ''; s.cs = []
        s.retaddr = object(); s.maxdepth = 2048
    def need(s, ok, what):
        s.ob += 1
        if not ok: raise Fail('%s: %s' % (s.where, what))
    # ---------------------------------------------------------- operands
    def ea(s, op, ripv):
        m = re.match(r'(?:(\w+) PTR )?(?:ds:)?\[(.*)\]$', op)
        size = {'BYTE': 1, 'WORD': 2, 'DWORD': 4, 'QWORD': 8, 'XMMWORD': 16, None: 0}[m.group(1)]
        e = m.group(2)
        if e.startswith('rip'): return size, ('data', ripv)
        acc = 0; base = None
        for sg, t in re.findall(r'([+-]?)([^+-]+)', e):
            k = -1 if sg == '-' else 1
            mm = re.match(r'(\w+)\*(\d+)$', t)
            if mm: v = T.mulc(s.gi(mm.group(1)), int(mm.group(2)))
            elif t.startswith('0x'): v = int(t, 16)
            elif t.isdigit(): v = int(t)
            else: v = s.get(t)
            if isinstance(v, Ptr):
                if base is not None: raise Undec('two bases')
                base = v
            elif isinstance(v, tuple) and v[0] == 'data':
                base = v
            else: acc = T.add(acc, T.mulc(v, k))
        if isinstance(base, Ptr): return size, Ptr(base.o, T.add(base.off, acc))
        if isinstance(base, tuple): return size, ('data', T.add(base[1], acc))
        return size, ('data', acc)
    def get(s, r):
        b, w = SUB[r]; v = s.r[b]
        if w == 64: return v
        if isinstance(v, Lanes):
            if w == 32: return Lanes(v.l[:2])
            if w == 16: return v.l[0]
            return T.modp(v.l[0], 8)
        if isinstance(v, (Ptr, tuple)): raise Undec('partial read of pointer/unknown register %s' % r)
        return T.uval(v, w)
    def gi(s, r):
        v = s.get(r)
        if isinstance(v, Lanes):
            t = 0
            for i, l in enumerate(v.l): t = T.add(t, T.mulc(T.uval(l, 16), 1 << (16 * i)))
            return t
        return v
    def put(s, r, v):
        b, w = SUB[r]
        if w == 64: s.r[b] = v; return
        if w == 32:
            s.r[b] = v if isinstance(v, Lanes) else T.uval(v, 32); return
        old = s.r[b]
        if isinstance(old, (Ptr, tuple, Lanes)):
            raise Undec('partial write to register %s' % r)
        s.r[b] = T.add(T.sub(old, T.uval(old, w)), T.uval(v, w))
    def dbyte(s, a):
        for va, d in s.segs:
            if va <= a < va + len(d): return d[a - va]
        raise Fail('%s: read of unmapped address %#x' % (s.where, a))
    def ld(s, p, n):
        """n bytes as list of (width, value)"""
        if isinstance(p, tuple) and p[0] == 'data':
            a = p[1]
            if type(a) is int:
                return [(2, s.dbyte(a + 2*i) | s.dbyte(a + 2*i + 1) << 8) for i in range(n // 2)] if n > 1 else [(1, s.dbyte(a))]
            # address depends on one small-range leaf: table lookup
            dp = T.ldeps(a)
            if len(dp) != 1: raise Undec('symbolic address')
            lf, = dp; A = T.ATOMS[lf]; L = T.lin_atom(A); rows = []
            for v in range(A.lo, A.hi + 1):
                av = T.subst(a, {lf: v})
                rows.append([s.dbyte(av + 2*i) | s.dbyte(av + 2*i + 1) << 8 for i in range(n // 2)])
                s.need(av % n == 0 if n == 16 else True, 'alignment')
            out = []
            for i in range(n // 2):
                col = [r[i] for r in rows]
                for c in range(-A.lo, 17):
                    if all(col[v - A.lo] == 1 << (v + c) for v in range(A.lo, A.hi + 1)): out.append((2, T.pow2(T.add(L, c)))); break
                else:
                    if len(set(col)) == 1: out.append((2, col[0]))
                    else:
                        t = col[-1]
                        for v in range(A.hi - 1, A.lo - 1, -1): t = T.ite(T.c_eq(L, v), col[v - A.lo], t)
                        out.append((2, t))
            return out
        if not isinstance(p, Ptr): raise Undec('load address')
        if type(p.off) is not int: raise Undec('symbolic load address')
        s.need(0 <= p.off and p.off + n <= p.o.size, 'read of %d bytes at %s%+d outside the object' % (n, p.o.name, p.off))
        out = []; i = 0
        while i < n:
            c = p.o.c.get(p.off + i)
            if c is None: raise Fail('%s: read of uninitialised %s+%d' % (s.where, p.o.name, p.off + i))
            out.append(c); i += c[0]
        if i != n: raise Undec('misaligned cell access')
        return out
    def st(s, p, cells):
        if not isinstance(p, Ptr) or type(p.off) is not int: raise Undec('store address')
        n = sum(c[0] for c in cells)
        s.need(0 <= p.off and p.off + n <= p.o.size, 'write of %d bytes at %s%+d outside the object' % (n, p.o.name, p.off))
        if p.o.ro: raise Fail('%s: write to read-only %s' % (s.where, p.o.name))
        o = p.off
        # drop overlapping cells
        for b in range(o - 7, o + n):
            c = p.o.c.get(b)
            if c and b + c[0] > o:
                if b < o or b + c[0] > o + n: raise Undec('partial cell overwrite')
                del p.o.c[b]
        for c in cells: p.o.c[o] = c; o += c[0]
    # ---------------------------------------------------------- xmm views
    def w(s, x):
        if x is None: raise Fail('%s: use of undefined xmm register' % s.where)
        if x.k == 'w': return x.v
        if x.k == 'd':
            out = []
            for v in x.v: out += [v, T.floor2(T.sval(v, 32), 16)]
            return out
        return [T.add(T.uval(x.v[2*i], 8), T.mulc(T.uval(x.v[2*i+1], 8), 256)) for i in range(8)]
    def d(s, x):
        if x is None: raise Fail('%s: use of undefined xmm register' % s.where)
        if x.k == 'd': return x.v
        w = s.w(x)
        return [T.add(T.uval(w[2*i], 16), T.mulc(w[2*i+1], 65536)) for i in range(4)]
    def b(s, x):
        if x.k == 'b': return x.v
        out = []
        for v in s.w(x):
            if type(v) is int: out += [v & 255, v >> 8 & 255]
            else: out += [T.modp(v, 8), T.floor2(T.uval(v, 16), 8)]
        return out
    def xop(s, op, ripv):
        m = re.match(r'xmm(\d+)$', op)
        if m: return s.x[int(m.group(1))]
        size, p = s.ea(op, ripv)
        s.align(p)
        return s.cells2x(s.ld(p, 16))
    def cells2x(s, cs):
        if all(c[0] == 2 for c in cs): return X('w', [c[1] for c in cs])
        if all(c[0] == 1 for c in cs): return X('b', [c[1] for c in cs])
        raise Undec('mixed cells')
    def align(s, p):
        if isinstance(p, Ptr): s.need(type(p.off) is int and p.off % 16 == 0, 'movdqa operand %s%+d not 16-byte aligned' % (p.o.name, p.off))
        elif type(p[1]) is int: s.need(p[1] % 16 == 0, 'movdqa operand not aligned')
    # ---------------------------------------------------------- run
    def run(s, fn, limit=3000000):
        pc = s.sym[fn]
        rsp0 = s.r['rsp'].off
        s.push(s.retaddr)
        init = dict(s.r)
        while True:
            s.n += 1
            if s.n > limit: raise Undec('too many instructions')
            if pc not in s.code: raise Fail('jump outside the code at %#x' % pc)
            mn, ops, ripv = s.code[pc]
            s.where = '%#x: %s %s' % (pc, mn, ops)
            t = s.step(mn, [o.strip() for o in split(ops)], ripv, pc)
            if t is None: pc = s.next[pc]
            elif t is s.retaddr: break
            else: pc = t
        for r in ('rbx', 'rbp', 'r12', 'r13', 'r14', 'r15'): s.need(s.r[r] == init[r], 'callee-saved register %s changed' % r)
        s.need(s.r['rsp'].off == rsp0, 'stack pointer not restored')
        s.need(s.r['rax'] == 0, 'the return value is not 0: %s' % (s.r['rax'],))
    def push(s, v):
        p = s.r['rsp']; p = Ptr(p.o, p.off - 8); s.r['rsp'] = p
        s.need(p.off >= 0, 'stack'); p.o.c[p.off] = (8, v)
    def pop(s):
        p = s.r['rsp']; v = p.o.c[p.off][1]; s.r['rsp'] = Ptr(p.o, p.off + 8); return v
    def step(s, mn, o, ripv, pc):
        if mn == 'movdqa' or mn == 'movaps' or mn == 'movdqu' or mn == 'movups':
            if o[0].startswith('xmm'):
                if mn in ('movdqu', 'movups') and not o[1].startswith('xmm'):
                    _, p = s.ea(o[1], ripv); s.x[xn(o[0])] = s.cells2x(s.ld(p, 16))
                else: s.x[xn(o[0])] = s.xop(o[1], ripv)
            else:
                _, p = s.ea(o[0], ripv)
                if mn in ('movdqa', 'movaps'): s.align(p)
                s.st(p, [(2, v) for v in s.w(s.x[xn(o[1])])])
            return
        if mn in ('movd', 'movq'):
            nb = 4 if mn == 'movd' else 8
            if o[0].startswith('xmm'):
                if o[1].startswith('xmm'): s.x[xn(o[0])] = X('w', s.w(s.x[xn(o[1])])[:4] + [0] * 4); return
                if '[' in o[1]:
                    _, p = s.ea(o[1], ripv); cs = s.ld(p, nb)
                    if all(c[0] == 2 for c in cs): s.x[xn(o[0])] = X('w', [c[1] for c in cs] + [0] * (8 - len(cs)))
                    elif all(c[0] == 1 for c in cs): s.x[xn(o[0])] = X('b', [c[1] for c in cs] + [0] * (16 - len(cs)))
                    else: raise Undec('movd')
                    return
                v = s.get(o[1])
                if isinstance(v, Lanes): s.x[xn(o[0])] = X('w', v.l[:nb // 2] + [0] * (8 - len(v.l[:nb // 2])))
                else: s.x[xn(o[0])] = X('d', [v, 0, 0, 0])
                return
            v = s.w(s.x[xn(o[1])])
            if '[' in o[0]:
                _, p = s.ea(o[0], ripv); s.st(p, [(2, t) for t in v[:nb // 2]])
            else: s.put(o[0], Lanes(v[:nb // 2]))
            return
        if mn in ('paddw', 'psubw', 'pand', 'por', 'pxor'):
            d = xn(o[0])
            if mn == 'pxor' and o[0] == o[1]: s.x[d] = X('w', [0] * 8); return
            a = s.w(s.x[d]); b = s.w(s.xop(o[1], ripv))
            if mn == 'paddw': r = [norm(T.add(x, y)) for x, y in zip(a, b)]
            elif mn == 'psubw': r = [norm(T.sub(x, y)) for x, y in zip(a, b)]
            else: r = [bit(mn, x, y) for x, y in zip(a, b)]
            s.x[d] = X('w', r); return
        if mn in ('psraw', 'psrlw', 'psllw'):
            d = xn(o[0]); a = s.w(s.x[d])
            if o[1].startswith('xmm'):
                c = s.x[xn(o[1])]; q = s.d(c) 
                cnt = T.uval(q[0], 32); s.need(q[1] == 0, 'shift count')
            else: cnt = int(o[1], 16)
            if not T.fits(cnt, 0, 15): raise Undec('shift count range')
            if mn == 'psraw': r = [T.floors(T.sval(x, 16), cnt) for x in a]
            elif mn == 'psrlw': r = [T.floors(T.uval(x, 16), cnt) for x in a]
            else: r = [norm(T.mul(x, T.pow2(cnt))) for x in a]
            s.x[d] = X('w', r); return
        if mn in ('pslld', 'psrad', 'psrld'):
            d = xn(o[0]); c = int(o[1], 16); x = s.x[d]
            if mn == 'pslld' and c >= 16 and x.k != 'd':
                w = s.w(x); s.x[d] = X('d', [T.mulc(w[2*i], 1 << c) for i in range(4)]); return
            a = s.d(x)
            if mn == 'pslld': r = [T.mulc(v, 1 << c) for v in a]
            elif mn == 'psrad': r = [T.floor2(T.sval(v, 32), c) for v in a]
            else: r = [T.floor2(T.uval(v, 32), c) for v in a]
            s.x[d] = X('d', r); return
        if mn in ('psrldq', 'pslldq'):
            d = xn(o[0]); c = int(o[1], 16)
            if c % 2: 
                a = s.b(s.x[d]); k = 'b'
            else: a = s.w(s.x[d]); c //= 2; k = 'w'
            n = len(a); c = min(c, n)
            r = a[c:] + [0] * c if mn == 'psrldq' else [0] * c + a[:n - c]
            s.x[d] = X(k, r); return
        if mn == 'packssdw':
            d = xn(o[0]); r = []
            for v in s.d(s.x[d]) + s.d(s.xop(o[1], ripv)):
                v = T.sval(v, 32)
                if not T.fits(v, -32768, 32767): v = T.ite(T.c_le(v, -32768), -32768, T.ite(T.c_le(32767, v), 32767, v))
                r.append(v)
            s.x[d] = X('w', r); return
        if mn == 'packusdw':
            d = xn(o[0]); r = []
            for x in (s.x[d], s.xop(o[1], ripv)):
                if x.k == 'w':
                    for i in range(4):
                        if x.v[2*i+1] == 0: r.append(x.v[2*i])
                        else: raise Undec('packusdw saturation')
                else:
                    for v in s.d(x):
                        v = T.sval(v, 32)
                        if not T.fits(v, 0, 65535): raise Undec('packusdw saturation')
                        r.append(v)
            s.x[d] = X('w', r); return
        if mn in ('punpcklbw', 'punpckhbw'):
            d = xn(o[0]); a = s.b(s.x[d]); b = s.b(s.xop(o[1], ripv)); h = 0 if mn == 'punpcklbw' else 8
            r = []
            for i in range(8): r += [a[h + i], b[h + i]]
            if all(v == 0 for v in b[h:h+8] if type(v) is int) and all(type(v) is int for v in b[h:h+8]): s.x[d] = X('w', [T.uval(v, 8) for v in a[h:h+8]])
            else: s.x[d] = X('b', r)
            return
        if mn in ('punpcklwd', 'punpckhwd'):
            d = xn(o[0]); a = s.w(s.x[d]); b = s.w(s.xop(o[1], ripv)); h = 0 if mn == 'punpcklwd' else 4
            r = []
            for i in range(4): r += [a[h + i], b[h + i]]
            s.x[d] = X('w', r); return
        if mn == 'nop': return
        if mn == 'lea':
            _, p = s.ea(o[1], ripv)
            if isinstance(p, tuple) and ripv is None: p = p[1]
            s.put(o[0], p); return
        if mn == 'push': s.push(s.get(o[0])); return
        if mn == 'pop': s.put(o[0], s.pop()); return
        if mn == 'call': s.push(s.next[pc]); return int(o[0].split()[0], 16)
        if mn == 'ret': return s.pop()
        if mn == 'jmp': return int(o[0].split()[0], 16)
        if mn in ('jne', 'jnz', 'je', 'jz'):
            if s.zf is None: raise Undec('branch on symbolic flag')
            return int(o[0].split()[0], 16) if (mn in ('jne', 'jnz')) == (not s.zf) else None
        if mn == 'mov' or mn == 'movzx':
            if '[' in o[0]:
                sz, p = s.ea(o[0], ripv); v = s.get(o[1]) if o[1] in SUB else int(o[1], 16)
                if isinstance(v, Lanes): s.st(p, [(2, t) for t in v.l[:sz // 2]])
                else: s.st(p, [(sz, v)])
                return
            if '[' in o[1]:
                sz, p = s.ea(o[1], ripv)
                if isinstance(p, Ptr) and p.o is s.stack: v = p.o.c[p.off][1]
                else:
                    cs = s.ld(p, sz)
                    if len(cs) == 1: v = cs[0][1]
                    elif all(c[0] == 2 for c in cs): v = Lanes([c[1] for c in cs])
                    else: raise Undec('mov load')
            elif o[1] in SUB: v = s.get(o[1])
            else: v = int(o[1], 16)
            s.put(o[0], v); return
        if mn in ('add', 'sub', 'and', 'or', 'xor', 'cmp', 'test', 'imul', 'shr', 'shl', 'dec', 'inc', 'sar'):
            w = SUB[o[0]][1] if o[0] in SUB else None
            if w is None: raise Undec('memory operand arithmetic')
            if mn in ('dec', 'inc'): b = 1
            elif mn == 'imul' and len(o) == 3: b = int(o[2], 16); 
            elif len(o) == 1: b = 1
            elif o[1] in SUB: b = s.get(o[1])
            elif '[' in o[1]: raise Undec('memory operand')
            else: b = int(o[1], 16)
            a = s.get(o[1]) if mn == 'imul' and len(o) == 3 else s.get(o[0])
            if mn == 'xor' and o[0] == o[1]: s.put(o[0], 0); s.zf = True; return
            if isinstance(a, Lanes) and mn in ('and',) and type(b) is int:
                r = []
                for i, l in enumerate(a.l):
                    m = b >> (16 * i) & 0xffff
                    if m == 0xffff: r.append(l)
                    elif m == 0: r.append(0)
                    else: raise Undec('lane mask')
                s.put(o[0], Lanes(r)); s.zf = None; return
            if isinstance(a, Lanes) and mn in ('shr', 'shl') and type(b) is int and b % 16 == 0:
                k = b // 16; n = len(a.l); r = a.l[k:] + [0] * k if mn == 'shr' else [0] * k + a.l[:n - k]
                s.put(o[0], Lanes(r)); s.zf = None; return
            if isinstance(a, Lanes): a = s.gi(o[0])
            if isinstance(a, Ptr) or isinstance(b, Ptr) or isinstance(a, tuple) or isinstance(b, tuple):
                if mn == 'add' and isinstance(b, (Ptr, tuple)): a, b = b, a
                if mn not in ('add', 'sub') or isinstance(b, (Ptr, tuple)): raise Undec('pointer arithmetic')
                if w == 64 and not isinstance(b, Lanes): b = T.sval(b, 64)
                r = T.add(a.off if isinstance(a, Ptr) else a[1], b if mn == 'add' else T.neg(b))
                s.put(o[0], Ptr(a.o, r) if isinstance(a, Ptr) else ('data', r)); s.zf = None; return
            if mn in ('add', 'inc'): r = T.add(a, b)
            elif mn in ('sub', 'dec', 'cmp'): r = T.sub(a, b)
            elif mn == 'imul': r = T.mul(a, b)
            elif mn == 'shl': r = T.mulc(a, 1 << b)
            elif mn == 'shr': r = T.floor2(T.uval(a, w), b)
            elif mn == 'sar': r = T.floor2(T.sval(a, w), b)
            elif mn in ('and', 'test'):
                if type(a) is int and type(b) is int: r = a & b
                elif type(b) is int and (b & ((1 << w) - 1)) + 1 & (b & ((1 << w) - 1)) == 0: r = T.modp(a, (b & ((1 << w) - 1)).bit_length())
                elif mn == 'test' and o[0] == o[1]: r = a
                else: raise Undec('and')
            elif mn == 'or' and type(a) is int and type(b) is int: r = a | b
            elif mn == 'xor' and type(a) is int and type(b) is int: r = a ^ b
            else: raise Undec(mn)
            r = T.uval(r, w)
            if mn not in ('cmp', 'test'): s.put(o[0], r)
            s.zf = (r == 0) if type(r) is int else None
            return
        raise Undec('instruction %s %s' % (mn, o))

def norm(v): return T.sval(v, 16) if type(v) is int else v
def xn(o): return int(o[3:])
def split(o):
    if not o: return []
    return o.split(',')
def bit(mn, x, y):
    for a, b in ((x, y), (y, x)):
        if type(a) is int:
            m = a & 0xffff
            if type(b) is int:
                b &= 0xffff
                return m & b if mn == 'pand' else m | b if mn == 'por' else m ^ b
            if m == 0: return 0 if mn == 'pand' else b
            if m == 0xffff and mn == 'pand': return b
            if mn == 'pand' and m & (m + 1) == 0: return T.modp(b, m.bit_length())
    raise Undec(mn + ' of symbolic lanes')
