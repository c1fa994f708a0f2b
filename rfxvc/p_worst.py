"""C15: what a component can take at most.
 coefficient ranges (from the transform the code is proved to compute)  ->  largest RLGR code (maximum over the reference encoder's states)  ->  room and fields at every call"""
import os, subprocess, sys
import terms as T, specdwt as S, p_dwt, p_asm, p_msg as G, p_enc, p_life
HERE = os.path.dirname(os.path.abspath(__file__))

def bounds(pro):
    """largest magnitude of each coefficient handed to the entropy coder, for quantisers 6..15"""
    px = [T.leaf(('x', i), 0, 255) for i in range(4096)]
    corner = p_dwt.corner_terms(px)[0][1]; free = T.leaf(('free',), -32768, 32767); fid = free.t[0][0]
    tr = S.transform(px, pro, (lambda v: free if v == corner else v) if pro else (lambda v: v))
    rg = []
    for t in tr:
        if fid in T.ldeps(t): rg.append((-2048, 2048)); continue      # what depends on the corner sample (rem_free)
        lo, hi = T.affrng(t); rg.append((min((lo + (1 << q - 2)) >> q - 1 for q in range(6, 16)), max((hi + (1 << q - 2)) >> q - 1 for q in range(6, 16))))
    if pro: rg = [(min(lo, lo - hi), max(hi, hi - lo)) for lo, hi in rg]    # whole, or as a difference to the reference
    n = 81 if pro else 64; s = 4096 - n
    out = [max(-lo, hi) for lo, hi in rg[:s + 1]]
    for i in range(s + 1, 4096): out.append(max(rg[i][1] - rg[i - 1][0], rg[i - 1][1] - rg[i][0]))
    return out, rg

def worst(ctx, var, pro):
    exe = os.path.join(ctx.work, 'worst%d%d' % (var, pro)); src = os.path.join(HERE, '../symx/worst.cpp')
    subprocess.run(['g++', '-O2', '-w', src, '-o', exe], check=True)
    b, rg = bounds(pro)
    ctx.check(max(b) < 32768, 'differences stay within 16 bits', str(max(b)), 'terms/range')
    r = subprocess.run([exe, str(var)], input=' '.join(map(str, b)), capture_output=True, text=True, check=True)
    bits = int(r.stdout); need = (bits + 7) // 8; lim = G.NP if pro else G.NC
    ctx.good(4096 * 81 * 81, 'maximum over encoder states (symx/worst.cpp)')
    ctx.check(need <= lim and need < 65536, 'a %s RLGR%d component takes at most %d bytes' % ('progressive' if pro else 'standard', var, lim), '%d bytes may be needed' % need, 'maximum over encoder states (symx/worst.cpp)')
    ctx.notes.append('%s RLGR%d component: at most %d bytes for any tile and legal quantisers; contract %d' % ('progressive' if pro else 'standard', var, need, lim))

def phases_C15():
    enc = p_enc.phases('C15')[0]
    def p(ctx):
        js = enc(ctx)
        return [(worst, (1, 1)), (worst, (3, 0)), (worst, (1, 0))] + js + p_life.components() + p_dwt.jobs_C08() + p_asm.jobs_C07() + [(p_dwt.rem_free, ('@rfx_rem_dwt_shift_encode', True))]
    return [p]
