"""C07: the SSE2 / SSE4.1 machine code against the mathematical transform-and-quantise (which C08 proves of the portable code)."""
import glob, re, os
import terms as T, core
from flow import Obj, Ptr, Fail
import specdwt as S, p_dwt, asmexec

def find_asm(fn):
    for f in glob.glob(core.REPO + '/src/amd64/*.asm'):
        if re.search(r'\b%s\b' % fn, open(f).read()): return f
    raise Fail('no assembly source defines ' + fn)

def asm_dwt(ctx, fn):
    inp, px = p_dwt.tile(); out = Obj('work1', 8192); tmp = Obj('work2', 8192); qo, nb = p_dwt.qtable()
    prog = asmexec.build(ctx.work, core.REPO, find_asm(fn), fn)
    # C prototype: (const char *qtable, const uint8 *data, sint16 *dwt_buffer1, sint16 *dwt_buffer)
    A = asmexec.Asm(prog, [Ptr(qo, 0), Ptr(inp, 0), Ptr(out, 0), Ptr(tmp, 0)])
    A.run(fn)
    ctx.good(A.ob, 'terms/range'); ctx.funcs.add(fn)
    want = S.transform(px, False)
    res = out
    p_dwt.cmp_quant(ctx, fn, lambda i: p_dwt.sv(res, i), want, False, nb)

def jobs_C07():
    return [(asm_dwt, ('rfxcodec_encode_dwt_shift_amd64_sse2',)), (asm_dwt, ('rfxcodec_encode_dwt_shift_amd64_sse41',))]
