"""C08, C09: the portable transforms and quantisers against the mathematical transform."""
import terms as T, flow
from flow import Flow, Obj, Ptr, Fail
import specdwt as S

def trunc_checker(ctx, allowed=()):
    def ct(fl, v, w, w2):
        if w2 == 16 and w > 16:
            fl.ob += 1
            for name, term in allowed:
                if v == term: fl.events.append(('known', name)); return
            if not T.fits(v, -32768, 32767):
                raise Fail('%s: value %s may leave the 16-bit storage (range %s)' % (fl.where, T.show(v, 1)[:300], T.rng(v)))
    return ct

def tile():
    o = Obj('in', 4096, ro=True); px = [T.leaf(('x', i), 0, 255) for i in range(4096)]; o.fill(1, px)
    return o, px

def qtable():
    nb = S.nibble_leaves(); o = Obj('qtable', 5, ro=True); o.fill(1, S.qbytes(nb))
    return o, nb

def run(ctx, X, name, args):
    r = X.call(name, args)
    ctx.good(X.ob, 'terms/range'); ctx.funcs |= X.touched
    return r

def sv(o, i): 
    c = o.c.get(2 * i)
    if c is None or c[0] != 2: return None
    return T.sval(c[1], 16)

def cmp_all(ctx, what, got, want, idx=None):
    bad = 0
    for i in idx or range(len(want)):
        if got(i) == want[i]: ctx.good()
        else:
            bad += 1
            if bad <= 2: ctx.bad('%s[%d]' % (what, i), 'got %s\nwant %s' % (T.show(got(i), 1)[:600] if got(i) is not None else 'unwritten', T.show(want[i], 1)[:600]))
            else: ctx.n += 1
    return bad

def cmp_quant(ctx, what, got, coef, rem, nb, idx=None):
    """for every legal nibble value: got(i) == round-half-up(coef[i] / 2^(q-1)); decided by substituting the nibbles"""
    band = S.band_of(rem); qid = {nb[k].t[0][0]: k for k in range(10)}
    bad = 0
    for i in idx or range(4096):
        g = got(i); k = S.NIB[band[i]]; me = nb[k].t[0][0]
        if g is None:
            bad += 1; ctx.bad('%s[%d]' % (what, i), 'not written'); 
            if bad > 2: return bad
            continue
        qs = [x for x in T.ldeps(g) if x in qid]
        if not set(qs) <= {me}:
            bad += 1; ctx.bad('%s[%d] (%s)' % (what, i, band[i]), 'depends on quantiser nibbles %s' % sorted(qid[x] for x in qs))
            if bad > 2: return bad
            continue
        for v in range(6, 16):
            if T.subst(g, {me: v}) == S.quantised(coef[i], v): ctx.good(1, 'terms/case-split')
            else:
                bad += 1; ctx.bad('%s[%d] (%s, quantiser %d)' % (what, i, band[i], v), 'got %s' % T.show(T.subst(g, {me: v}), 1)[:600])
                if bad > 2: return bad
                break
    return bad

# ---------------------------------------------------------------- C08
def std_dwt(ctx):
    inp, px = tile(); out = Obj('out', 8192); tmp = Obj('tmp', 8192)
    X = Flow(ctx.M, check_trunc=trunc_checker(ctx))
    run(ctx, X, '@rfx_dwt_2d_encode', [Ptr(inp, 0), Ptr(out, 0), Ptr(tmp, 0)])
    want = S.transform(px, False)
    cmp_all(ctx, 'rfx_dwt_2d_encode: coefficient', lambda i: sv(out, i), want)
    ranges = {}
    for b, w in zip(S.band_of(False), want):
        lo, hi = T.affrng(w); a = ranges.get(b, (0, 0)); ranges[b] = (min(lo, a[0]), max(hi, a[1]))
    ctx.notes.append(('std ranges', ranges))

def quant(ctx, name, rem):
    # pre: every coefficient within the transform's proved range (see std_dwt / rem_dwt); any |c| <= 2^15-1-2^13 will do
    lim = 24575
    cf = [T.leaf(('c', i), -lim, lim) for i in range(4096)]
    buf = Obj('buffer', 8192); buf.fill(2, cf); qo, nb = qtable()
    X = Flow(ctx.M, check_trunc=trunc_checker(ctx))
    run(ctx, X, name, [Ptr(buf, 0), Ptr(qo, 0)])
    cmp_quant(ctx, name[1:], lambda i: sv(buf, i), cf, rem, nb)

def differential(ctx):
    cf = [T.leaf(('c', i), -16384, 16383) for i in range(4096)]
    for n in (64, 81):
        buf = Obj('buffer', 8192); buf.fill(2, cf)
        X = Flow(ctx.M, check_trunc=None)
        run(ctx, X, '@rfx_differential_encode', [Ptr(buf, 2 * (4096 - n)), n])
        want = list(cf)
        for i in range(4096 - n + 1, 4096): want[i] = T.sub(cf[i], cf[i-1])
        cmp_all(ctx, 'rfx_differential_encode(%d)' % n, lambda i: sv(buf, i), want)

# ---------------------------------------------------------------- C09
def corner_terms(px):
    p = lambda y, x: T.mulc(T.add(px[y*64+x], -128), 32)
    t = T.add(T.sub(T.mulc(p(63, 63), 4), T.mulc(T.add(p(63, 62), p(62, 63)), 2)), p(62, 62))
    return [('the doubly extrapolated corner sample LL1[32][32] = 4p(63,63)-2p(63,62)-2p(62,63)+p(62,62) exceeds 16 bits', t)]

def rem_dwt(ctx, name, shift):
    inp, px = tile(); out = Obj('out', 8192); tmp = Obj('tmp', 8192)
    qo, nb = qtable()
    X = Flow(ctx.M, check_trunc=trunc_checker(ctx, corner_terms(px)))
    # known finding: the corner sample itself can exceed 16 bits; here it is taken to fit, rem_free below takes it as anything
    T.ASSUMED[corner_terms(px)[0][1]] = (-32768, 32767)
    args = [Ptr(inp, 0), Ptr(out, 0), Ptr(tmp, 0)] + ([Ptr(qo, 0)] if shift else [])
    run(ctx, X, name, args)
    for k in sorted(set(n for _, n in X.events)): ctx.known.append(name[1:] + ': ' + k)
    want = S.transform(px, True)
    if shift: cmp_quant(ctx, name[1:], lambda i: sv(out, i), want, True, nb)
    else: cmp_all(ctx, name[1:] + ': coefficient', lambda i: sv(out, i), want)
    ranges = {}
    for b, w in zip(S.band_of(True), want):
        lo, hi = T.affrng(w); a = ranges.get(b, (0, 0)); ranges[b] = (min(lo, a[0]), max(hi, a[1]))
    ctx.notes.append(('rem ranges', ranges))

def rem_free(ctx, name, shift):
    """the corner sample is any 16-bit value: every coefficient that does not depend on it is exact, the others stay within 16 bits (or their own range)."""
    inp, px = tile(); out = Obj('out', 8192); tmp = Obj('tmp', 8192); qo, nb = qtable(); corner = corner_terms(px)[0][1]; taint = set()
    def any16():
        l = T.leaf(('free', len(taint)), -32768, 32767); taint.add(l.t[0][0]); return l
    def ct(fl, v, w, w2):
        if w2 != 16 or w <= 16: return
        fl.ob += 1
        if v == corner: return any16()
        if T.fits(v, -32768, 32767): return
        if T.ldeps(v) & taint: return any16()
        raise Fail('%s: value %s may leave the 16-bit storage' % (fl.where, T.show(v, 1)[:300]))
    X = Flow(ctx.M, check_trunc=ct)
    run(ctx, X, name, [Ptr(inp, 0), Ptr(out, 0), Ptr(tmp, 0)] + ([Ptr(qo, 0)] if shift else []))
    want = S.transform(px, True)
    got = []; free = 0
    for i in range(4096):
        g = sv(out, i)
        if g is None: ctx.bad('%s[%d]' % (name, i), 'not written'); return
        if T.ldeps(g) & taint:
            free += 1; got.append(None); me = nb[S.NIB[S.band_of(True)[i]]].t[0][0]
            for v in range(6, 16) if shift else (): ctx.check(T.fits(T.subst(g, {me: v}), -2048, 2048), '%s[%d] (quantiser %d): out of range' % (name, i, v), T.show(g, 1)[:300], 'terms/range')
            ctx.good(1, 'terms/range')
        else: got.append(g)
    idx = [i for i in range(4096) if got[i] is not None]
    if shift: cmp_quant(ctx, name[1:], lambda i: got[i], want, True, nb, idx)
    else: cmp_all(ctx, name[1:] + ': coefficient', lambda i: got[i], want, idx)
    ctx.notes.append('%s: %d coefficients depend on the corner sample' % (name[1:], free))
def jobs_C08():
    return [(std_dwt, ()), (quant, ('@rfx_quantization_encode', False)), (differential, ())]
def jobs_C09():
    return [(rem_free, ('@rfx_rem_dwt_encode', False)), (rem_free, ('@rfx_rem_dwt_shift_encode', True)), (rem_dwt, ('@rfx_rem_dwt_encode', False)), (rem_dwt, ('@rfx_rem_dwt_shift_encode', True)), (quant, ('@rfx_rem_quantization_encode', True))]
