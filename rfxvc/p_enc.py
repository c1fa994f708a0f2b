"""The encode call: what each property says about every terminal state and every tile iteration (C01, C02, C03, C04, C12)."""
import time
import msgx as X, p_msg as G
from msgx import *
from p_msg import Rd, Msg, NC, NP, ROOM, PLANE_MAX, DEFQ

W_STD = 21 + 3 * ROOM + PLANE_MAX        # room that always suffices for one more tile
W_PRO = 22 + 3 * NP

def tile(k, f): return rdsym('tiles', padd(pmul(28, k), dict(x=0, y=4, cx=8, cy=12, qy=16, qu=20, qv=24)[f]), 4)
def fl(ex, bit):
    f = ex.args['flags']; q = fdiv(f, bit); return ceq(psub(psub(q, pmul(2, fdiv(q, 2))), 1))
def cases(ex, st, c):
    """the state, split on a condition the code may not have branched on"""
    t = ex.truth(st, c)
    if t is not None: return [(st, t)]
    a = st.clone(); a.pc = a.pc + [c]; b = st.clone(); b.pc = b.pc + [cnot(c)]
    return [(a, True), (b, False)]
def tiletype(ex): return 0xCCC5 if ex.cfg['pro'] else 0xCAC3
def istile(ex, e): return e[0] == 'w' and ii(e[3]) and (e[2] == 2 and e[3] & 0xFFFF == tiletype(ex) or e[2] == 1 and e[3] & 255 == tiletype(ex) & 255)

# ------------------------------------------------------------------------------------------------- one iteration of the tile loop
def onloop(ex, rec):
    """called for every finished loop; recognises the one that emits tiles and checks that each turn emits exactly tile k at the running position"""
    logs = [(b, m, b.ob['out'].log[rec.log0['out']:]) for b, m in rec.back]
    if not any(istile(ex, e) or e[0] == 'comp' for b, m, l in logs for e in l): return
    if len(rec.H.st) > 12: return
    P = None
    for b, m, l in logs:
        for e in l:
            if istile(ex, e): P = e[1]; break
        if P is not None: break
    if P is None: raise Fail('tile loop %s: no tile block is begun' % (rec.key,))
    rec.P = P; rec.P0 = subst(P, rec.m0); k = rec.k
    for b, m, l in logs:
        for b2, alpha in cases(ex, b, fl(ex, ex.mc['RFX_FLAGS_ALPHAV1'])) if not ex.cfg['pro'] else [(b, False)]:
            ex.where = 'tile loop'
            for e in l:
                if e[0] == 'loop': raise Undecided('a loop inside the tile loop writes the output')
                ex.need(b2, cle(psub(P, e[1])), 'tile %s writes before its own block' % k)
            L = tilecheck(ex, b2, m, rec, P, k, alpha)
            ex.where = 'tile loop'
            ex.need(b2, ceq(psub(subst(P, m), padd(P, L))), 'the next tile does not start where tile %s ends' % k)
    rec.span = (rec.P0, P)
    if ex.cfg['pro']: refcheck_loop(ex, rec)
def tilecheck(ex, st, m, rec, P, k, alpha):
    pro = ex.cfg['pro']; f0 = rec.log0['out']
    M = Msg(ex, st, 'out', P, f0)
    M.f(2, tiletype(ex), 'tile: block type'); M.pos = padd(P, 6)
    for f in ('qy', 'qu', 'qv'): M.f(1, tile(k, f), 'tile: quantiser index ' + f)
    for f in ('x', 'y'): M.f(2, fdiv(tile(k, f), 64), 'tile: grid coordinate ' + f)
    n = 4 if alpha else 3; H = 22 if pro else 13 + 2 * n
    at = padd(P, H); lens = []; toks = []
    for c in range(n):
        ln, tok = M.rd.comp(at); lens.append(ln); toks.append(tok); at = padd(at, ln)
    L = H
    for c in range(n): M.at(padd(P, (14 if pro else 13) + 2 * c), 2, lens[c], 'tile: length of component %d' % c); L = padd(L, lens[c])
    if pro: M.at(padd(P, 20), 2, 0, 'tile: tail length')
    M.at(padd(P, 2), 4, L, 'tile: block length')
    if not pro and ('C12' in ex.want or 'C13' in ex.want): tokcheck(ex, st, k, toks, alpha)
    if pro: ex.where = 'tile flags'; protok(ex, st, k, toks, M.rd.get(padd(P, 13), 1), rec)
    return L
def need(ex, st, c, what): ex.where = 'tile contents'; ex.need(st, c, what)
def srcoff(ex, k, c):
    x, y = tile(k, 'x'), tile(k, 'y'); stride = ex.args['stride']; mc = ex.mc; fmt = ex.cfg['fmt']
    if fmt == mc['RFX_FORMAT_YUV'] or ex.cfg['pro']: return padd(padd(pmul(pmul(256, y), fdiv(stride, 256)), pmul(256, x)), 4096 * c)
    return padd(pmul(y, stride), pmul(x, 4 if fmt in (mc['RFX_FORMAT_BGRA'], mc['RFX_FORMAT_RGBA']) else 3))
def same(ex, st, a, b, what):
    d = psub(a, b); need(ex, st, d == 0 if ii(d) else ceq(d), what)
def quantcheck(ex, st, o, off, k, f):
    if ex.args['q0']:
        same(ex, st, off, pmul(5, tile(k, f)), 'quantiser table of component %s' % f); need(ex, st, o in st.ob or o in ex.M.globals, 'quantiser table')
        for i, v in enumerate(DEFQ): need(ex, st, wrap(psub(ex.load(st, Ptr(o, i), 1), v), 8) == 0, 'built-in quantiser table')
    else:
        need(ex, st, o == 'quants', 'quantisers come from %s' % o); same(ex, st, off, pmul(5, tile(k, f)), 'quantiser table of component %s' % f)
def tokcheck(ex, st, k, toks, alpha):
    fmt = ex.cfg['fmt']; yuv = fmt == ex.mc['RFX_FORMAT_YUV']; bpp24 = fmt in (ex.mc['RFX_FORMAT_BGR'], ex.mc['RFX_FORMAT_RGB'])
    for c, tok in enumerate(toks):
        nm = 'YUVA'[c]
        if c == 3:
            need(ex, st, tok[0] == 'alpha', 'component 3 is not the alpha plane')
            if bpp24: continue
            src = tok[1]
        else:
            need(ex, st, tok[0] == 'code', 'component %d was cut short' % c); need(ex, st, tok[1] == ex.cfg['coder'], 'component %d: entropy coder RLGR%s' % (c, tok[1]))
            src = tok[2]; quantcheck(ex, st, tok[3], tok[4], k, ('qy', 'qu', 'qv')[c])
        if 'C12' not in ex.want: continue
        if yuv:
            need(ex, st, src[0] == 'mem' and src[1] == 'buf', 'component %d is not coded from the caller\'s samples' % c); same(ex, st, src[2], srcoff(ex, k, c), 'samples of component %d' % c)
        else:
            need(ex, st, src[0] == 'conv' and src[1] == nm, 'component %d is coded from %s' % (c, src[:2])); need(ex, st, src[2] == 'buf', 'pixels of component %d' % c)
            same(ex, st, src[3], srcoff(ex, k, 0), 'pixel address of component %d' % c); same(ex, st, src[4], tile(k, 'cx'), 'tile width'); same(ex, st, src[5], tile(k, 'cy'), 'tile height'); same(ex, st, src[6], ex.args['stride'], 'stride')

# ------------------------------------------------------------------------------------------------- progressive tiles
RB = ('rb.y', 'rb.u', 'rb.v')
def slotof(ex, st):
    """the table entry this iteration works on: (offset, object id or None, how it was found)"""
    return st.note.get('ref')
def refval(ex, r, c, j):
    if r[1] is None: return 0
    return sym(('leaf', r[1], 0, ex.off[RB[c]] + 2 * j, 2), 'ref', -32768, 32767, None, True)
def protok(ex, st, k, toks, flag, rec):
    if 'C04' not in ex.want:
        return
    r = slotof(ex, st); need(ex, st, r is not None, 'no reference is looked up for the tile')
    need(ex, st, ii(flag) and flag in (0, 1), 'tile flags are %s' % flag)
    ks = [padd(ex.rbs[0], padd(pmul(512, fdiv(tile(k, a), 64)), pmul(8, fdiv(tile(k, b), 64)))) for a, b in (('x', 'y'), ('y', 'x'))]
    hit = [i for i in (0, 1) if ex.valid(st, ceq(psub(r[0], ks[i])))]
    need(ex, st, bool(hit), 'the reference is not that of the tile\'s own position'); ex.slotform = (ex.slotform or {0, 1}) & set(hit); need(ex, st, bool(ex.slotform), 'references are indexed inconsistently')
    fin = st.rb.get(r[0]); need(ex, st, isinstance(fin, Ptr) and fin.o in st.ob and fin.off == 0, 'no reference is kept for the tile')
    fo = st.ob[fin.o]; need(ex, st, not fo.freed, 'the reference has been released'); need(ex, st, fo.size == ex.off['sizeof.rfx_rb'], 'size of the reference')
    for c, f in enumerate(('qy', 'qu', 'qv')):
        tok = toks[c]; need(ex, st, tok[0] == 'diff1', 'component %d is not coded' % c); em = tok[1]
        q = None; n = 0
        for j in range(4096):
            e = em[j]; base = None
            cf = coefof(ex, st, k, c, f, em, flag)
            v = cf(j)
            want = v if flag == 0 else wrap(psub(v, refval(ex, r, c, j)), 16)
            if want is not e and want != e: need(ex, st, False, 'coefficient %d of component %d does not decode to the transform of the tile (flag %s)' % (j, c, flag))
            cur = ex.load(st, Ptr(fin.o, ex.off[RB[c]] + 2 * j), 2)
            if cur is not v and cur != v: need(ex, st, False, 'the reference kept for component %d differs from what the decoder holds at coefficient %d' % (c, j))
        ex.ob += 8192
_cf = {}
def coefof(ex, st, k, c, f, em, flag):
    """the transform the component is made of: found by its source and quantiser, which are checked once"""
    key = (id(st), c)
    if key in _cf: return _cf[key]
    w = 0
    for m, q in em[0].k if not ii(em[0]) else ():
        for i in m:
            s = SYMS[i]
            if s.key[0] == 'coef': w = s
            elif s.key[0] == 'wrap':
                for m2, q2 in s.key[2].k:
                    for i2 in m2:
                        if SYMS[i2].key[0] == 'coef': w = SYMS[i2]
    need(ex, st, w != 0, 'component %d is not made from the transform of the tile' % c)
    o, off, qo, qoff = w.key[1:5]
    need(ex, st, o == 'buf', 'samples of component %d' % c); same(ex, st, off, srcoff(ex, k, c), 'samples of component %d' % c); quantcheck(ex, st, qo, qoff, k, f)
    src, q = Ptr(o, off), Ptr(qo, qoff)
    r = _cf[key] = lambda j: G.coefsym(src, q, j)
    return r
def unchanged(ex, st, what):
    """every reference still holds what it held when the iteration (or call) began"""
    r = slotof(ex, st)
    if r is None: return
    fin = st.rb.get(r[0]); ex.where = what
    if r[1] is None:
        if fin is None or fin == NULL: return
        o = st.ob[fin.o]; ex.need(st, o.dflt == 0 and not o.c and not o.fills and not o.freed and o.size == ex.off['sizeof.rfx_rb'], 'a new reference tile is not zero although its tile is not sent'); return
    ex.need(st, isinstance(fin, Ptr) and fin.o == r[1] and fin.off == 0, 'the reference of a tile that is not sent is replaced')
    o = st.ob[fin.o]; ex.need(st, not o.freed, 'the reference of a tile that is not sent is released'); ex.need(st, o.gen == 0 and not o.fills, 'the reference of a tile that is not sent is changed')
    for q, (w, v) in o.c.items():
        if v is not sym(('leaf', r[1], 0, q, w), 'ref', smin(8 * w), smax(8 * w), None, True): ex.need(st, False, 'the reference of a tile that is not sent is changed')
    ex.ob += 1
def cleared(ex, st, what):
    ex.where = what; lo, hi = ex.rbs
    ex.need(st, all(st.rb.get(o) == NULL for o in range(lo, hi, 8)), 'a key frame leaves references behind')
def refcheck_loop(ex, rec):
    if 'C04' not in ex.want: return
    for x in rec.exits: unchanged(ex, x, 'tile loop left early')
    for st, key in cases(ex, rec.pre, fl(ex, ex.mc['RFX_FLAGS_PRO_KEY'])):
        if key: cleared(ex, st, 'key frame')
        else: ex.where = 'tile loop'; ex.need(st, not st.rb, 'references change before the tiles are coded')

# ------------------------------------------------------------------------------------------------- terminal states
def loops_in(st): return [e[1] for e in st.ob['out'].log if e[0] == 'loop' and getattr(e[1], 'span', None)]
def terminal(ex, st, v):
    pro = ex.cfg['pro']; hdr = ex.cfg['hdr']; off = ex.off; A = ex.args
    ex.where = 'return value'
    neg = v < 0 if ii(v) else ex.truth(st, cle(padd(v, 1)))
    if neg is None: raise Undecided('the sign of the result is not decided')
    enc = st.ob['enc']; fi = enc.c[off['rfxencode.frame_idx']][1]; hp = enc.c[off['rfxencode.header_processed']][1]
    keys = cases(ex, st, fl(ex, ex.mc['RFX_FLAGS_PRO_KEY'])) if pro else [(st, False)]
    for st, key in keys:
        tl = loops_in(st); ex.where = 'end of the call'
        if len(tl) > 1: raise Undecided('two tile loops in one call')
        rec = tl[0] if tl else None
        fi0, hp0 = (0, 0) if key else (ex.fi0, 0 if hdr else 1)
        if neg:
            if 'C01' in ex.want and not st.note.get('nomem'): nofail(ex, st, rec, v)
            if 'C03' in ex.want:
                same(ex, st, fi, fi0, 'a failed call consumes a frame number'); same(ex, st, hp, hp0, 'a failed call changes whether the header is owed'); frame(ex, st, hp0 == 1)
            if 'C04' in ex.want and pro:
                ex.where = 'failed call'
                if rec is not None: ex.need(st, ceq(rec.k), 'references change in a call that fails')
                elif key: cleared(ex, st, 'failed key-frame call')
                else: ex.need(st, not st.rb, 'references change in a call that fails')
            continue
        T = v
        if pro: ex.need(st, cle(psub(1, T)), 'success without a tile')
        if 'C03' in ex.want: same(ex, st, fi, padd(fi0, 1), 'frame number after the call'); same(ex, st, hp, 1, 'the header is recorded as sent'); frame(ex, st, True)
        if rec is not None: ex.where = 'end of the call'; ex.need(st, ceq(psub(T, rec.k)), 'the result is not the number of tiles emitted')
        else: ex.need(st, T == 0, 'tiles reported but none emitted')
        ex.need(st, cle(psub(T, A['nt'])), 'more tiles than requested')
        if 'C01' in ex.want and not st.note.get('nomem'): nocut(ex, st, T)
        if set(ex.want) & {'C02', 'C03', 'C13', 'C12', 'C01'}:
            for s2, alpha in cases(ex, st, fl(ex, ex.mc['RFX_FLAGS_ALPHAV1'])) if not pro else [(st, 0)]:
                M = Msg(ex, s2, 'out', 0)
                (promsg if pro else stdmsg)(ex, s2, M, hp0 == 0, fi0, T, rec, alpha)
                sz = s2.ob['bytes'].c[0][1]; ex.where = 'reported size'
                same(ex, s2, sz, M.pos, 'the reported size is not the end of the message'); ex.where = 'reported size'; ex.need(s2, cle(psub(sz, A['cap'])), 'the reported size exceeds the capacity')
def worst(ex):
    A = ex.args; nq = A['nqq']
    base = padd(pmul(8, A['nr']), pmul(5, padd(nq, A['nq']) if A['q0'] else nq))
    return padd(base, 12 + 10 + 12 + 18 + 6 if ex.cfg['pro'] else 12 + 13 + 10 + 12 + 14 + 15 + 22 + 8)
def covered(ex):
    """the capacity covers the worst case of everything requested"""
    return cle(psub(padd(worst(ex), pmul(W_PRO if ex.cfg['pro'] else W_STD, ex.args['nt'])), ex.args['cap']))
def nofail(ex, st, rec, v):
    c = covered(ex); ex.where = 'failed call'
    if not ex.cfg['pro']: ex.need(st, cnot(c), 'the call fails although there is room for everything'); return
    if rec is None and tilebad(ex, st): return
    ex.need(st, cnot(cand(c, cle(psub(1, ex.args['nt'])))), 'the call fails although there is room for everything')
def tilebad(ex, st):
    """does the path pass through a rejected tile descriptor: some tile shown to be out of range"""
    n = ex.args['nqq']
    for k in {s.key[2] for s in SYMS if s.key[0] == 'ld' and s.key[1] == 'tiles'}:
        idx = {}; rem = 0
        for m, c in Poly_items(k):
            if m == (): rem = c
            else: idx[m] = c // 28
        kk = padd(mk(idx), rem // 28)
        if not ex.valid(st, cand(cle(psub(0, kk)), cle(padd(psub(kk, ex.args['nt']), 1)))): continue
        g = True
        for f in ('qy', 'qu', 'qv'): g = cand(g, cand(cle(psub(0, tile(kk, f))), cle(padd(psub(tile(kk, f), n), 1))))
        for f in ('x', 'y'): g = cand(g, cand(cle(psub(0, tile(kk, f))), cle(psub(tile(kk, f), 4095))))
        if ex.valid(st, cnot(g)): return True
    return False
def nocut(ex, st, T):
    ex.where = 'shortened message'; ex.need(st, cor(cnot(covered(ex)), ceq(psub(T, ex.args['nt']))), 'tiles are left out although there is room for everything')
def frame(ex, st, props):
    """nothing else of the encoder changes (work areas and references aside)"""
    off = ex.off; enc = st.ob['enc']; ex.where = 'encoder state'
    skip = {off['rfxencode.' + n] for n in ('frame_idx', 'header_processed', 'properties')}
    for q, (w, v) in ex.entry.items():
        if q in skip or ex.darea[0] <= q < ex.darea[1] or ex.rbs[0] <= q < ex.rbs[1]: continue
        c = enc.c.get(q); ex.need(st, c is not None and c[0] == w and c[1] == v, 'the encoder\'s state at offset %d changes' % q)
    for q in enc.c:
        if q not in ex.entry and q not in skip and not ex.darea[0] <= q < ex.darea[1] and not ex.rbs[0] <= q < ex.rbs[1]:
            c = enc.c[q]; ex.need(st, isinstance(c[1], Poly) and c[1] is sym(('leaf', 'enc', 0, q, c[0]), '', 0, 0), 'the encoder\'s state at offset %d changes' % q)
    if props and not ex.cfg['pro']:
        same(ex, st, enc.c[off['rfxencode.properties']][1], G.props_tileset(ex.cfg['coder']), 'recorded tile-set properties')
def rects(ex, st, M, base, n):
    j = fresh('j', 0, 65535); st.pc = st.pc + [cle(padd(psub(j, n), 1))]; 
    if not ex.sol.check(st.pc, True): st.pc = st.pc[:-1]; return
    M.rd.ex.cur_j = [j]
    for i, f in enumerate(('x', 'y', 'cx', 'cy')): M.at(padd(base, padd(pmul(8, j), 2 * i)), 2, rdsym('regions', padd(pmul(16, j), 4 * i), 4), 'rectangle: ' + f, True)
    M.rd.ex.cur_j = None; st.pc = st.pc[:-1]
def quants(ex, st, M, base):
    if ex.args['q0']:
        for i, v in enumerate(DEFQ): M.at(padd(base, i), 1, v, 'built-in quantiser byte %d' % i)
        return
    i = fresh('j', 0, 255); st.pc = st.pc + [cle(padd(psub(i, ex.args['nqq']), 1))]
    for b in range(5):      # byte b of table i, written by a copy, or by a loop over tables or over bytes
        j = padd(pmul(5, i), b); M.rd.ex.cur_j = [j, i]; M.at(padd(base, j), 1, rdsym('quants', j, 1), 'quantiser byte', True)
    M.rd.ex.cur_j = None; st.pc = st.pc[:-1]
def tiles_at(ex, st, M, rec):
    """the tile data lie at the current position and end at the result"""
    if rec is None: return 0
    a, b = rec.span; ex.where = 'tile data'; st2 = st
    ex.need(st, ceq(psub(M.pos, a)), 'the tile data do not follow the quantisers')
    log = st.ob['out'].log; i = max(n for n, e in enumerate(log) if e[0] == 'loop' and e[1] is rec)
    for e in log[i + 1:]:
        if e[0] == 'loop':
            if getattr(e[1], 'back', None) and any(bb.ob['out'].log[e[1].log0['out']:] for bb, m in e[1].back): raise Undecided('a loop writes after the tiles')
            continue
        ex.need(st, cle(psub(0, psub(b, a))), 'tile data of negative size')
        if not M.rd.disj(a, psub(b, a), e[1], e[2]): ex.need(st, False, 'tile data are overwritten')
    M.pos = b
    return psub(b, a)
def stdmsg(ex, st, M, due, fi, T, rec, alpha):
    A = ex.args; coder = ex.cfg['coder']
    if due:
        M.f(2, 0xCCC0, 'sync: type'); M.f(4, 12, 'sync: length'); M.f(4, 0xCACCACCA, 'sync: magic'); M.f(2, 0x100, 'sync: version')
        M.f(2, 0xCCC3, 'context: type'); M.f(4, 13, 'context: length'); M.f(1, 1, 'context: codec'); M.f(1, 255, 'context: channel'); M.f(1, 0, 'context: id'); M.f(2, 0x40, 'context: tile size')
        M.f(2, G.props_context(coder), 'context: properties')
        M.f(2, 0xCCC1, 'versions: type'); M.f(4, 10, 'versions: length'); M.f(1, 1, 'versions: count'); M.f(1, 1, 'versions: codec'); M.f(2, 0x100, 'versions: version')
        M.f(2, 0xCCC2, 'channels: type'); M.f(4, 12, 'channels: length'); M.f(1, 1, 'channels: count'); M.f(1, 0, 'channels: id'); M.f(2, ex.w0, 'channels: width', True); M.f(2, ex.h0, 'channels: height', True)
    M.f(2, 0xCCC4, 'frame begin: type'); M.f(4, 14, 'frame begin: length'); M.f(1, 1, 'frame begin: codec'); M.f(1, 0, 'frame begin: channel'); M.f(4, fi, 'frame begin: number'); M.f(2, 1, 'frame begin: regions')
    r = M.pos; n = A['nr']
    M.f(2, 0xCCC6, 'region: type'); M.f(4, padd(15, pmul(8, n)), 'region: length'); M.f(1, 1, 'region: codec'); M.f(1, 0, 'region: channel'); M.f(1, 1, 'region: flags'); M.f(2, n, 'region: rectangles')
    rects(ex, st, M, M.pos, n); M.pos = padd(M.pos, pmul(8, n))
    M.f(2, 0xCAC1, 'region: region type'); M.f(2, 1, 'region: tile sets')
    t = M.pos; nq = A['nqq']
    M.f(2, 0xDDD7 if alpha else 0xCCC7, 'tile set: type'); M.pos = padd(t, 6); M.f(1, 1, 'tile set: codec'); M.f(1, 0, 'tile set: channel'); M.f(2, 0xCAC2, 'tile set: subtype'); M.f(2, 0, 'tile set: index')
    M.f(2, G.props_tileset(coder), 'tile set: properties'); M.f(1, nq, 'tile set: quantiser sets'); M.f(1, 0x40, 'tile set: tile size'); M.f(2, T, 'tile set: tiles')
    M.pos = padd(t, 22); quants(ex, st, M, M.pos); M.pos = padd(M.pos, pmul(5, nq))
    d = tiles_at(ex, st, M, rec)
    M.at(padd(t, 18), 4, d, 'tile set: data size'); M.at(padd(t, 2), 4, padd(padd(22, pmul(5, nq)), d), 'tile set: length')
    M.f(2, 0xCCC5, 'frame end: type'); M.f(4, 8, 'frame end: length'); M.f(1, 1, 'frame end: codec'); M.f(1, 0, 'frame end: channel')
def promsg(ex, st, M, due, fi, T, rec, alpha):
    A = ex.args
    if due:
        M.f(2, 0xCCC0, 'sync: type'); M.f(4, 12, 'sync: length'); M.f(4, 0xCACCACCA, 'sync: magic'); M.f(2, 0x100, 'sync: version')
        M.f(2, 0xCCC3, 'context: type'); M.f(4, 10, 'context: length'); M.f(1, 0, 'context: id'); M.f(2, 0x40, 'context: tile size'); M.f(1, 1, 'context: flags')
    M.f(2, 0xCCC1, 'frame begin: type'); M.f(4, 12, 'frame begin: length'); M.f(4, fi, 'frame begin: number'); M.f(2, 1, 'frame begin: regions')
    t = M.pos; n = A['nr']; nq = A['nqq']
    M.f(2, 0xCCC4, 'region: type'); M.pos = padd(t, 6); M.f(1, 0x40, 'region: tile size'); M.f(2, n, 'region: rectangles'); M.f(1, nq, 'region: quantiser sets'); M.f(1, 0, 'region: progressive quantisers'); M.f(1, 1, 'region: flags')
    M.f(2, T, 'region: tiles'); M.pos = padd(t, 18); rects(ex, st, M, M.pos, n); M.pos = padd(M.pos, pmul(8, n)); quants(ex, st, M, M.pos); M.pos = padd(M.pos, pmul(5, nq))
    d = tiles_at(ex, st, M, rec)
    M.at(padd(t, 14), 4, d, 'region: data size'); M.at(padd(t, 2), 4, psub(M.pos, t), 'region: length')
    M.f(2, 0xCCC2, 'frame end: type'); M.f(4, 6, 'frame end: length')

# ------------------------------------------------------------------------------------------------- jobs
def encode(ctx, prop, pro, fmt, coder, hdr, q0, key=0):
    t = time.time()
    ex = G.setup(ctx, pro, fmt, coder, hdr, q0, key); ex.want = {prop}; ex.onloop = onloop; ex.slotform = None
    ex.entry = dict(ex.start.ob['enc'].c)
    name = 'rfxcodec_encode_ex (%s, header %s, quantisers %s)' % ('progressive, any format' + (', key frame' if key else '') if pro else 'standard, format %d, RLGR%d' % (fmt, coder), 'owed' if hdr else 'sent', 'built-in' if q0 else 'given')
    try:
        res = G.run(ex)
        ex.soft = False
        for r in res: terminal(ex, r[1], r[2])
        if not any(not ii(r[2]) for r in res): raise Fail('no call succeeds')
        if not any(getattr(l, 'span', None) for l in ex.loops): raise Fail('no tile loop found')
    except Fail as e: ctx.bad(name, e); return
    except X.Undecided as e: ctx.bad(name + ': not decided', e); return
    finally:
        ctx.solver += ex.sol.t; ctx.funcs |= {f for f in ex.touched}
    ctx.good(ex.ob, 'message-level executor, z3 (linear integer arithmetic)')
    if hdr and not q0 and coder == 3: ctx.notes.append('%s: %d paths, %d loops cut, %d solver queries, %.1f s' % (name, len(res), len(ex.loops), ex.sol.q, time.time() - t))
def wrapper(ctx):
    """rfxcodec_encode is rfxcodec_encode_ex without flags"""
    moff, mc = G.facts(ctx); ex = Exec(ctx.M, moff); G.hooks(ex); seen = []
    v = fresh('result', smin(32), smax(32))
    ex.ext['@rfxcodec_encode_ex'] = lambda e, st, a: (seen.append(a), v)[1]
    st = State(); F = ctx.M.funcs['@rfxcodec_encode']
    args = [Ptr('p%d' % i, 0) if t.k == 'ptr' else fresh('a%d' % i, smin(32), smax(32)) for i, t in enumerate(F.argty)]
    ex.enter(st, '@rfxcodec_encode', args); r = ex.explore([st]); ctx.funcs.add('@rfxcodec_encode')
    ctx.check(len(r) == 1 and r[0][2] is v and len(seen) == 1 and seen[0][:13] == args and seen[0][13] == 0, 'rfxcodec_encode passes its arguments on unchanged with no flags', repr(seen)[:300], 'message-level executor')
def phases(prop, pro=True, std=True):
    def p(ctx):
        G.prepare(ctx); js = []
        if pro: js += [(encode, (prop, 1, 4, 3, h, q, y)) for y in (1, 0) for h in (1, 0) for q in (0, 1)]
        if std: js += [(encode, (prop, 0, f, c, h, q)) for f in range(5) for c in (1, 3) for h in (1, 0) for q in (0, 1)]
        return js + [(wrapper, ())]
    return [p]
