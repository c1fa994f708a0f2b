"""Writes the IR of the current sources in the flat form symx reads, builds symx and runs it."""
import os, subprocess, glob
import core, llir, rlgr

HERE = os.path.dirname(os.path.abspath(__file__))
BIN = ['add', 'sub', 'mul', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor', 'sdiv', 'udiv', 'srem', 'urem']
IOP = {n: 50 + i for i, n in enumerate('load store gep sext zext trunc icmp select alloca call ptrtoint inttoptr freeze br ret switch unreachable phi memcpy memset nop smax smin umax umin abs'.split())}
PR = {n: i for i, n in enumerate('eq ne slt sle sgt sge ult ule ugt uge'.split())}
PROBE = '''#include <stdio.h>
#include <stddef.h>
#include "rfxcodec_encode.h"
#include "rfxcommon.h"
#include "rfxconstants.h"
#include "rfxencode.h"
#include "rfxencode_tile.h"
int main(void) {
#define O(f) printf("rfxencode." #f " %zu\\n", offsetof(struct rfxencode, f));
O(format) O(bits_per_pixel) O(y_r_buffer) O(u_g_buffer) O(v_b_buffer) O(a_buffer) O(dwt_buffer) O(dwt_buffer1) O(pro_ver) O(mode) O(frame_idx) O(header_processed) O(rbs)
O(rfx_encode) O(rfx_encode_rgb_to_yuv) O(rfx_encode_argb_to_yuva) O(width) O(height) O(properties) O(flags) O(dwt_buffer_a) O(dwt_buffer2) O(dwt_buffer3) O(dwt_buffer4) O(dwt_buffer5) O(dwt_buffer6)
#define Q(f) printf("STREAM." #f " %zu\\n", offsetof(STREAM, f));
Q(data) Q(p) Q(size)
printf("sizeof.rfx_rb %zu\\nrb.y %zu\\nrb.u %zu\\nrb.v %zu\\n", sizeof(struct rfx_rb), offsetof(struct rfx_rb, y), offsetof(struct rfx_rb, u), offsetof(struct rfx_rb, v)); printf("sizeof.rfxencode %zu\\nsizeof.STREAM %zu\\n", sizeof(struct rfxencode), sizeof(STREAM)); return 0; }
'''
def opt(work, name, inp, flags):
    p = os.path.join(work, name)
    if not os.path.exists(p):
        t = p + '.%d' % os.getpid()
        subprocess.run(['opt-18', *flags, '-S', inp, '-o', t], check=True, stderr=subprocess.PIPE)
        os.rename(t, p)
    return p

def flat_module(work):
    """helpers inlined, small branches turned into selects: mechanical, by opt"""
    p = opt(work, 'flat.ll', work + '/all.bc0', ['-passes=function(sroa,simplifycfg),cgscc(inline),function(sroa,simplifycfg<bonus-inst-threshold=20>)',
        '-inline-threshold=100000', '-phi-node-folding-threshold=40', '-two-entry-phi-node-folding-threshold=40', '-max-speculation-depth=40'])
    return llir.parse(open(p).read())

def probe(work):
    c = os.path.join(work, 'probe.c'); open(c, 'w').write(PROBE); R = core.REPO
    subprocess.run(['gcc', '-w', *core.DEFS, '-I' + R + '/include', '-I' + R + '/src', c, '-o', c[:-2]], check=True)
    return dict((k, int(v)) for k, v in (l.split() for l in subprocess.run([c[:-2]], check=True, capture_output=True, text=True).stdout.splitlines()))

def s(t): b = t.encode(); return '%d %s' % (len(b), t)

class Dump:
    def __init__(d, M, roots):
        d.M = M; d.fn = []; d.gl = {}; d.out = []; d.ext = []
        seen = []; todo = list(roots)
        while todo:
            f = todo.pop()
            if f in seen or f not in M.funcs: continue
            seen.append(f)
            for b in M.funcs[f].order:
                for I in M.funcs[f].blocks[b].ins:
                    if I.op == 'call' and I.a[0][0] == '@' and not I.a[0].startswith('@llvm.'):
                        if I.a[0] in M.funcs: todo.append(I.a[0])
                        elif I.a[0] not in d.ext: d.ext.append(I.a[0])
        d.fi = {f: i for i, f in enumerate(seen + d.ext)}
        body = [d.func(M.funcs[f]) for f in seen] + ['fun %s 0 0 0' % s(f) for f in d.ext]
        for g in list(d.gl): d.glob(g)
        d.text = '\n'.join(d.out + body) + '\n'
    def glob(d, g):
        ty, init, const = d.M.globals[g]; n = d.M.sizeof(ty); by = [0] * n
        def fill(off, ty, v):
            if v is None or v[0] in ('zero', 'undef'): return
            if v[0] == 'bytes':
                for i, b in enumerate(v[1]): by[off + i] = b
            elif v[0] == 'c':
                w = d.M.sizeof(ty)
                for i in range(w): by[off + i] = v[1] >> 8 * i & 255
            elif v[0] == 'arr':
                for i, x in enumerate(v[1]): fill(off + i * d.M.sizeof(ty.e), ty.e, x)
            elif v[0] == 'st':
                for (t, x), f in zip(v[1], d.M.layout(ty)[0]): fill(off + f, t, x)
            else: raise llir.IRError('global with pointers')
        try: fill(0, ty, init)
        except llir.IRError: by = []
        d.out.append('glob %s %d %d %d %s' % (s(g), n, int(const), len(by), ' '.join(map(str, by))))
    def gid(d, g):
        if g not in d.gl: d.gl[g] = len(d.gl)
        return d.gl[g]
    def opnd(d, a, R, ty=None):
        k = a[0]
        if k == 'v': return (0, R[a[1]])
        if k == 'c':
            v = a[1]
            if ty is not None and ty.k == 'int' and ty.n > 1: v &= (1 << ty.n) - 1; v = v - (1 << ty.n) if v >> ty.n - 1 else v
            return (1, v)
        if k == 'null': return (2, 0)
        if k == 'undef': return (3, 0)
        if k == 'zero': return (1, 0) if ty is None or ty.k != 'ptr' else (2, 0)
        if k == 'g':
            if a[1] in d.fi: return (5, d.fi[a[1]])
            if a[1] in d.M.globals: return (4, d.gid(a[1]))
            return (3, 0)
        if k == 'gep':
            base = a[2][0][1]
            if base[0] != 'g' or base[1] not in d.M.globals: return (3, 0)
            off, idx = d.gepoff(a[1], a[2][1:])
            if idx: return (3, 0)
            return (4, d.gid(base[1]) | off << 16)
        return (3, 0)
    def gepoff(d, ty, idx):
        off = 0; syms = []; t = ty
        for n, (it, iv) in enumerate(idx):
            if n and t.k == 'struct': off += d.M.layout(t)[0][iv[1]]; t = t.fs[iv[1]]; continue
            if n: t = t.e
            sz = d.M.sizeof(t)
            if iv[0] == 'c': off += iv[1] * sz
            else: syms.append((iv, sz))
        return off, syms
    def width(d, t): return t.n if t.k == 'int' else 64 if t.k == 'ptr' else 0
    def ins(d, op, de, w, w2, fl, ops, xs, txt): 
        return '%d %d %d %d %d %d %s %d %s %s' % (op, de, w, w2, fl, len(ops), ' '.join('%d %d' % o for o in ops), len(xs), ' '.join(map(str, xs)), s(txt))
    def func(d, F):
        M = d.M; R = {}; nm = F.name.lstrip('@')
        for a in F.args: R[a] = len(R)
        for b in F.order:
            for I in F.blocks[b].phis + F.blocks[b].ins:
                if I.d is not None: R[I.d] = len(R)
        bi = {b: i for i, b in enumerate(F.order)}; L = F.loops(); chain = lambda b: sorted((h for h in L if b in L[h] or b == h), key=lambda h: -len(L[h])); live = rlgr.liveness(F)
        out = ['fun %s %d %d %d' % (s(F.name), len(R), len(F.args), len(F.order))]
        for b in F.order:
            B = F.blocks[b]
            lv = sorted({R[r] for r in live[b] if r in R} | {R[p.d] for p in B.phis})
            ch = [bi[h] for h in chain(b)]
            out.append('%d %d %s %d %s' % (int(b in L), len(lv), ' '.join(map(str, lv)), len(ch), ' '.join(map(str, ch))))
            out.append(str(len(B.phis)))
            for p in B.phis:
                it = list(p.a.items()); out.append(d.ins(IOP['phi'], R[p.d], d.width(p.ty), 0, 0, [d.opnd(v, R, p.ty) for _, v in it], [bi[x] for x, _ in it], nm))
            out.append(str(len(B.ins)))
            for I in B.ins: out.append(d.one(F, I, R, bi, nm))
        return '\n'.join(out)
    def one(d, F, I, R, bi, nm):
        op = I.op; a = I.a; de = R[I.d] if I.d is not None else -1; t = nm + ': ' + I.txt.split(', !')[0].replace('\n', ' ')
        W = d.width(I.ty)
        if op in BIN: return d.ins(BIN.index(op), de, W, 0, int('nsw' in I.fl), [d.opnd(a[0], R, I.ty), d.opnd(a[1], R, I.ty)], [], t)
        o = IOP.get(op)
        if op == 'load': return d.ins(o, de, d.M.sizeof(I.ty) * 8, int(I.ty.k == 'ptr'), 0, [d.opnd(a[0], R)], [], t)
        if op == 'store': return d.ins(o, -1, d.M.sizeof(I.ty) * 8, 0, 0, [d.opnd(a[0], R, I.ty), d.opnd(a[1], R)], [], t)
        if op == 'gep':
            off, sy = d.gepoff(I.ty, a[1])
            return d.ins(o, de, 64, 0, 0, [d.opnd(a[0], R)] + [d.opnd(v, R) for v, _ in sy], [off] + [z for _, z in sy], t)
        if op in ('sext', 'zext', 'trunc'): return d.ins(o, de, W, d.width(a[1]), 0, [d.opnd(a[0], R, a[1])], [], t)
        if op == 'icmp': return d.ins(o, de, W, 0, 0, [d.opnd(a[1], R, I.ty), d.opnd(a[2], R, I.ty)], [PR[a[0]]], t)
        if op == 'select': return d.ins(o, de, W, 0, 0, [d.opnd(a[0], R), d.opnd(a[1], R, I.ty), d.opnd(a[2], R, I.ty)], [], t)
        if op == 'alloca': return d.ins(o, de, 64, 0, 0, [], [d.M.sizeof(I.ty) * (a[0][1] if a[0] else 1)], t)
        if op in ('ptrtoint', 'inttoptr', 'freeze', 'bitcast'): return d.ins(IOP.get(op, IOP['freeze']), de, W, 0, 0, [d.opnd(a[0], R)], [], t)
        if op == 'br':
            if a[0] is None: return d.ins(o, -1, 0, 0, 0, [], [bi[a[1]]], t)
            return d.ins(o, -1, 1, 0, 0, [d.opnd(a[0], R)], [bi[a[1]], bi[a[2]]], t)
        if op == 'ret': return d.ins(o, -1, W, 0, 0, [] if a[0] is None else [d.opnd(a[0], R, I.ty)], [], t)
        if op == 'switch':
            xs = [bi[a[1]]]
            for c, l in a[2]: xs += [c, bi[l]]
            return d.ins(o, -1, W, 0, 0, [d.opnd(a[0], R, I.ty)], xs, t)
        if op == 'unreachable': return d.ins(o, -1, 0, 0, 0, [], [], t)
        if op == 'call':
            fn, args = a; ops = [d.opnd(x, R, ty) for ty, x in args]
            if fn.startswith(('@llvm.memcpy', '@llvm.memmove')): return d.ins(IOP['memcpy'], -1, 0, 0, 2 if 'memcpy' in fn else 0, ops[:3], [], t)
            if fn.startswith('@llvm.memset'): return d.ins(IOP['memset'], -1, 0, 0, 0, ops[:3], [], t)
            if fn.startswith(('@llvm.lifetime', '@llvm.dbg', '@llvm.assume', '@llvm.experimental.noalias')): return d.ins(IOP['nop'], -1, 0, 0, 0, [], [], t)
            for k in ('smax', 'smin', 'umax', 'umin', 'abs'):
                if fn.startswith('@llvm.%s.' % k): return d.ins(IOP[k], de, W, 0, 0, ops[:2], [], t)
            if fn[0] == '%': return d.ins(o, de, W, 0, 0, ops, [-1, R[fn]], t)
            if fn not in d.fi: d.fi[fn] = len(d.fi); raise llir.IRError('intrinsic ' + fn)
            return d.ins(o, de, W, 0, 0, ops, [d.fi[fn]], t)
        raise llir.IRError('instruction ' + I.txt)

def prepare(ctx, roots):
    """compile symx and dump the program; returns (binary, program file)"""
    w = ctx.work
    cc = subprocess.Popen(['g++', '-O2', '-std=c++17', '-w', os.path.join(HERE, '../symx/symx.cpp'), '-o', w + '/symx'], stderr=subprocess.PIPE)
    M = flat_module(w)
    for r in roots:
        if r not in M.funcs: cc.communicate(); raise RuntimeError('function %s not found' % r)
    D = Dump(M, roots)
    open(w + '/prog.txt', 'w').write('\n'.join('offs %s %d' % (s(k), v) for k, v in probe(w).items()) + '\n' + D.text)
    e = cc.communicate()[1]
    if cc.returncode: raise RuntimeError('symx does not compile: ' + e.decode()[:500])
    return w + '/symx', w + '/prog.txt'

def run(ctx, what, args, limit=600):
    """one symx run; output lines: OK key=value ... | FAIL text | UNDECIDED text"""
    try: r = subprocess.run([ctx.work + '/symx', ctx.work + '/prog.txt', *map(str, args)], capture_output=True, text=True, timeout=limit)
    except subprocess.TimeoutExpired: ctx.bad(what, 'time limit'); return None
    L = r.stdout.strip().split('\n')[-1]
    if L.startswith('OK '):
        d = dict(x.split('=', 1) for x in L[3:].split())
        ctx.good(int(d['ob']), 'symx'); ctx.funcs |= set(d.get('funcs', '').split(',')) - {''}
        return d
    ctx.bad(what, L + r.stderr[-500:])
