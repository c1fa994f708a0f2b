"""Creation, reset and destruction (C13, C14), and the composition of the component coders (C07, C12, C13, C15)."""
import msgx as X, p_msg as G, p_enc
from msgx import *

BPP = {'BGRA': 32, 'RGBA': 32, 'BGR': 24, 'RGB': 24, 'YUV': 32}
BUFS = ['dwt_buffer'] + ['dwt_buffer%d' % i for i in range(1, 7)]
def done(ctx, ex): ctx.solver += ex.sol.t; ctx.funcs |= ex.touched; ctx.good(ex.ob, 'message-level executor, z3 (linear integer arithmetic)')
def guard(fn):
    def f(ctx, *a):
        try: fn(ctx, *a)
        except Fail as e: ctx.bad(fn.__name__ + repr(a), e)
        except X.Undecided as e: ctx.bad(fn.__name__ + repr(a) + ': not decided', e)
    f.__name__ = f.__qualname__ = fn.__name__; return f
def bit(v, n): q = fdiv(v, 1 << n); return ceq(psub(psub(q, pmul(2, fdiv(q, 2))), 1))

def start(ctx):
    moff, mc = G.facts(ctx); ex = Exec(ctx.M, moff); G.hooks(ex); ex.mc = mc; ex.cpu = {}
    def cpuid(ex, st, a):
        if not ii(a[0]): raise Undecided('cpuid leaf')
        for i, p in enumerate(a[2:6]):
            if p != NULL: ex.store(st, p, 4, sym(('cpuid', a[0], i), 'cpuid(%x).%s' % (a[0] & 0xffffffff, 'abcd'[i]), smin(32), smax(32)))
        return 0
    ex.ext['@cpuid_amd64'] = cpuid
    return ex
def outcomes(ex, fn, args, st):
    """all paths; loops with a symbolic number of turns are cut"""
    ex.enter(st, fn, args); ex.start = st; return G.run(ex)

def create(ctx, what, ex_form):
    """rfxcodec_encode_create(_ex): any size, format, flags and CPU"""
    ex = start(ctx); mc = ex.mc; st = State(); w = fresh('width', smin(32), smax(32)); h = fresh('height', smin(32), smax(32)); fmt = fresh('format', smin(32), smax(32)); fl = fresh('flags', smin(32), smax(32))
    def inside(st):
        o = ex.new(st, 'handle', 8); return o
    fmts = {n: mc['RFX_FORMAT_' + n] for n in BPP}
    ho = inside(st) if ex_form else None
    res = outcomes(ex, '@rfxcodec_encode_create_ex' if ex_form else '@rfxcodec_encode_create', [w, h, fmt, fl] + ([Ptr(ho, 0)] if ex_form else []), st)
    n = 0
    for r in res:
        s, v = r[1], r[2]; ex.where = 'creation'
        al = s.note.get('allocs', ())
        ok = (v == 0) if ex_form else isinstance(v, Ptr) and v != NULL
        if ex_form and not ii(v): raise Undecided('result')
        good = False
        for k in fmts.values(): good = cor(good, ceq(psub(fmt, k)))
        if not ok:
            if not ex_form: ex.need(s, v == NULL, 'a failed creation yields a handle')
            if ex_form: ex.need(s, 0 not in s.ob[ho].c, 'a failed creation yields a handle')
            if what == 'C14': ex.need(s, all(s.ob[o].freed for o in al), 'a failed creation leaves memory allocated')
            if not s.note.get('nomem'): ex.need(s, cnot(good), 'creation fails for a supported format')
            continue
        n += 1
        ex.need(s, good, 'creation succeeds for an unsupported format'); ex.need(s, not s.note.get('nomem'), 'creation succeeds without memory')
        hp = s.ob[ho].c[0][1] if ex_form else v
        ex.need(s, isinstance(hp, Ptr) and hp.off == 0 and len(al) == 1 and hp.o == al[0] and not s.ob[hp.o].freed and s.ob[hp.o].size == ex.off['sizeof.rfxencode'], 'the handle is not the new encoder')
        e = s.ob[hp.o]
        def fld(f, w=4): return ex.load(s, Ptr(hp.o, ex.off['rfxencode.' + f]), w, w == 8)
        p_enc.same(ex, s, fld('format'), fmt, 'recorded format'); p_enc.same(ex, s, fld('width'), w, 'recorded width'); p_enc.same(ex, s, fld('height'), h, 'recorded height')
        if what == 'C14':
            for f in ('frame_idx', 'header_processed'): p_enc.same(ex, s, fld(f), 0, 'a new encoder\'s ' + f)
            lo, hi = ex.rbs
            ex.need(s, e.dflt == 0 and not any(lo <= q < hi and (not ii(c[1]) and c[1] != NULL or ii(c[1]) and c[1]) for q, c in e.c.items()) and not any(f[0] < hi and lo < f[1] and f[2] != 0 for f in e.fills), 'a new encoder holds references')
            base = ex.off['rfxencode.dwt_buffer_a']; spans = []
            for b in BUFS:
                p = fld(b, 8); ex.need(s, isinstance(p, Ptr) and p.o == hp.o and ii(p.off), b + ' is not set')
                ex.need(s, p.off % 16 == 0, b + ' is not aligned'); ex.need(s, base <= p.off and p.off + 8192 <= ex.off['rfxencode.dwt_buffer'], b + ' lies outside the work area')
                for a in spans: ex.need(s, abs(a - p.off) >= 8192, b + ' overlaps another work buffer')
                spans.append(p.off)
        if what == 'C13':
            for nme, k in fmts.items():
                for s2, t in p_enc.cases(ex, s, ceq(psub(fmt, k))):
                    if t: p_enc.same(ex, s2, fld('bits_per_pixel'), BPP[nme], 'pixel size of format ' + nme)
            fn = fld('rfx_encode', 8)
            for nme, k in (('rfx_encode_rgb_to_yuv',) * 2, ('rfx_encode_argb_to_yuva',) * 2):
                f = fld(nme, 8); ex.need(s, isinstance(f, FnPtr) and f.name == '@' + nme, 'conversion function ' + nme)
            for s1, pro in p_enc.cases(ex, s, p_enc_fl(fl, mc['RFX_FLAGS_PRO1'])):
                p_enc.same(ex, s1, fld('pro_ver'), 1 if pro else 0, 'stream mode')
                if pro: continue
                for s2, one in p_enc.cases(ex, s1, p_enc_fl(fl, mc['RFX_FLAGS_RLGR1'])):
                    ex.where = 'creation'
                    ex.need(s2, isinstance(fn, FnPtr) and fn.name in G.COMP, 'component coder'); ex.need(s2, G.COMP[fn.name] == (1 if one else 3), 'component coder %s with RLGR%d requested' % (fn.name, 1 if one else 3))
                    if 'sse41' in fn.name: ex.need(s2, bit(sym(('cpuid', 1, 2), '', 0, 0), 19), 'SSE4.1 code on a CPU without SSE4.1')
                    elif 'sse2' in fn.name: ex.need(s2, bit(sym(('cpuid', 1, 3), '', 0, 0), 26), 'SSE2 code on a CPU without SSE2')
                    p_enc.same(ex, s2, fld('mode'), ex_mode(ctx, one), 'recorded entropy coder')
    if not n: raise Fail('creation never succeeds')
    done(ctx, ex)
create = guard(create)
def p_enc_fl(f, b): q = fdiv(f, b); return ceq(psub(psub(q, pmul(2, fdiv(q, 2))), 1))
def ex_mode(ctx, one): return G.facts(ctx)[1]['RLGR1' if one else 'RLGR3']

def destroy(ctx, null):
    """rfxcodec_encode_destroy: an encoder with any references, or nothing"""
    ex = start(ctx); st = State()
    if not null: enc_any(ex, st)
    res = outcomes(ex, '@rfxcodec_encode_destroy', [NULL if null else Ptr('enc', 0)], st)
    for r in res:
        s = r[1]; ex.where = 'destruction'
        if null: ex.need(s, not s.slotfree, 'something is released'); continue
        ex.need(s, s.ob['enc'].freed, 'the encoder is not released')
        ex.need(s, all(s.slotfree.get(o) or s.rb.get(o) == NULL and o in s.rb and s.note.get(('empty', o)) for o in range(*ex.rbs, 8)), 'a reference tile is not released'); ex.ob += 4096
    if not res: raise Fail('destruction does not return')
    done(ctx, ex)
destroy = guard(destroy)
def enc_any(ex, st):
    e = Obj('enc', ex.off['sizeof.rfxencode'], dflt='leaf', heap=True); e.ranges = 'enc'; e.stamp = st.stamp; st.ob['enc'] = e
    return e

def component(ctx, fn):
    """what a component coder does: transform, quantise, difference, entropy-code, in the work buffers"""
    ex = start(ctx); st = State(); e = enc_any(ex, st); off = ex.off; base = off['rfxencode.dwt_buffer_a']
    if fn not in ctx.M.funcs: raise Fail('%s is gone' % fn)
    for i, b in enumerate(BUFS): e.c[off['rfxencode.' + b]] = (8, Ptr('enc', base + 8192 * i))
    for n, sz, ro in (('data', 4096, True), ('q', 5, True), ('size', 4, False)):
        o = Obj(n, sz, 'arr' if ro else 'cells', ro=ro); o.stamp = st.stamp; st.ob[n] = o
    cap = sym(('ncap',), 'room', 0, 1 << 29); o = Obj('out', cap, 'out'); o.stamp = st.stamp; st.ob['out'] = o
    def wbuf(st, p, n, what):
        if not isinstance(p, Ptr) or p.o != 'enc' or not ii(p.off): raise Undecided('%s: %s is not a work buffer' % (ex.where, what))
        ex.need(st, base <= p.off and p.off + n <= off['rfxencode.dwt_buffer'], what + ' lies outside the work buffers'); ex.need(st, p.off % 16 == 0, what + ' is not aligned')
    def put(st, p, tok): st.plane = {k: v for k, v in st.plane.items() if k[1] <= p.off or p.off + 8192 <= k[0]}; st.plane[(p.off, p.off + 8192)] = tok
    def got(st, p): return st.plane.get((p.off, p.off + 8192), ('stale',))
    def samples(st, p): ex.need(st, p == Ptr('data', 0), 'the transform reads something other than the samples')
    def tables(st, p): ex.need(st, p == Ptr('q', 0), 'the quantiser reads something other than its table')
    def dwt(ex, st, a):
        samples(st, a[0]); wbuf(st, a[1], 8192, 'transform output'); wbuf(st, a[2], 8192, 'transform work area'); ex.need(st, abs(a[1].off - a[2].off) >= 8192, 'transform output and work area overlap')
        put(st, a[2], ('junk',)); put(st, a[1], ('dwt',)); return 0
    def quant(ex, st, a): wbuf(st, a[0], 8192, 'coefficients'); tables(st, a[1]); put(st, a[0], ('quant', got(st, a[0]))); return 0
    def simd(ex, st, a): dwt(ex, st, [a[1], a[2], a[3]]); tables(st, a[0]); put(st, a[2], ('quant', ('dwt',))); return 0
    def diff(ex, st, a):
        if not isinstance(a[0], Ptr) or not ii(a[0].off): raise Undecided('differenced run')
        p = Ptr(a[0].o, a[0].off - 2 * 4032); wbuf(st, p, 8192, 'coefficients'); ex.need(st, ii(a[1]) and a[1] == 64, 'length of the differenced run'); put(st, p, ('diff', got(st, p))); return 0
    def code(n, diffs):
        def f(ex, st, a):
            wbuf(st, a[0], 8192, 'coefficients'); t = got(st, a[0])
            if diffs: ex.need(st, ii(a[3]) and a[3] == 64, 'length of the differenced run'); t = ('diff', t); put(st, a[0], ('junk',))
            ex.need(st, a[1] == Ptr('out', 0) and a[2] is cap, 'the room passed on is not the room given'); k = fresh('len', -1, 1 << 29); st.note['coded'] = st.note.get('coded', ()) + ((n, t, k),); return k
        return f
    ex.ext.update({'@rfx_dwt_2d_encode': dwt, '@rfx_quantization_encode': quant, '@rfx_differential_encode': diff, '@rfx_rlgr1_encode': code(1, 0), '@rfx_rlgr3_encode': code(3, 0), '@rfx_encode_diff_rlgr1': code(1, 1), '@rfx_encode_diff_rlgr3': code(3, 1),
        '@rfxcodec_encode_dwt_shift_amd64_sse2': simd, '@rfxcodec_encode_dwt_shift_amd64_sse41': simd})
    for n in list(G.COMP): ex.ext.pop(n, None)
    entry = dict(e.c)
    res = outcomes(ex, fn, [Ptr('enc', 0), Ptr('q', 0), Ptr('data', 0), Ptr('out', 0), cap, Ptr('size', 0)], st)
    for r in res:
        s = r[1]; ex.where = fn[1:]
        ex.need(s, r[2] == 0, 'the component coder fails'); c = s.note.get('coded', ())
        ex.need(s, len(c) == 1 and c[0][:2] == (G.COMP[fn], ('diff', ('quant', ('dwt',)))), 'the component is coded as %s' % (c,))
        p_enc.same(ex, s, s.ob['size'].c[0][1], c[0][2], 'the reported component size'); ex.where = fn[1:]
        ex.need(s, {k: v for k, v in s.ob['enc'].c.items() if not ex.darea[0] <= k < ex.darea[1]} == entry, 'the encoder\'s state changes')
    if not res: raise Fail('no path')
    done(ctx, ex)
component = guard(component)
def components(): return [(component, (f,)) for f in sorted(G.COMP)]

# ------------------------------------------------------------------------------------------------- ownership during encoding
def onloop(ex, rec):
    p_enc.onloop(ex, rec)
    if not any('ref' in b.note for b, m in rec.back): return
    for b, m in rec.back: owned(ex, b)
    for x in rec.exits: owned(ex, x)
def owned(ex, st):
    """what was allocated is in the table, what was held is still held"""
    ex.where = 'references held'; held = [v.o for v in st.rb.values() if isinstance(v, Ptr) and v != NULL]
    ex.need(st, len(set(held)) == len(held), 'a reference tile is held twice')
    for o in st.note.get('allocs', ()): ex.need(st, st.ob[o].freed != (o in held), 'a reference tile is lost' if not st.ob[o].freed else 'a released reference tile is kept')
    r = st.note.get('ref')
    if r and r[1] is not None: ex.need(st, (r[1] in held) != st.ob[r[1]].freed, 'a held reference tile is lost or released while in use')
    if not st.note.get('keyed'): ex.need(st, not st.slotfree, 'a reference tile is released')
def keyed(ex, st):
    ex.where = 'key frame'; lo, hi = ex.rbs
    ex.need(st, all(st.slotfree.get(o) == 1 and st.rb.get(o) == NULL for o in range(lo, hi, 8)), 'a key frame does not release every reference tile'); ex.ob += 4096
def encode(ctx, pro, fmt, hdr, q0, key):
    ex = G.setup(ctx, pro, fmt, 3, hdr, q0, key); ex.want = {'C14'}; ex.slotform = None
    def ol(ex, rec):
        if key and any('ref' in b.note for b, m in rec.back):
            keyed(ex, rec.pre)
            for s in [b for b, m in rec.back] + list(rec.exits): s.note['keyed'] = True
        onloop(ex, rec)
    ex.onloop = ol
    res = G.run(ex); ex.soft = False
    for r in res:
        s, v = r[1], r[2]; ex.where = 'end of the call'
        if not pro: ex.need(s, not s.rb and not s.slotfree and not s.note.get('allocs'), 'a standard-mode call allocates or releases something'); continue
        tl = p_enc.loops_in(s)
        if key and not tl: keyed(ex, s)
        if not tl:
            if not key: ex.need(s, not s.rb and not s.slotfree, 'references change before the tiles are coded')
            ex.need(s, not s.note.get('allocs'), 'memory is allocated before the tiles are coded')
        else: 
            if key: s.note['keyed'] = True
            owned(ex, s)
            if s.note.get('nomem'): ex.need(s, v == -1 or not ii(v), 'an allocation failure is not reported'); ex.need(s, cor(ceq(psub(tl[0].k, 0)) if ii(v) else True, False) , 'an allocation failure loses tiles') if ii(v) else p_enc.same(ex, s, v, tl[0].k, 'tiles reported after an allocation failure')
    done(ctx, ex)
encode = guard(encode)

def phases_C13():
    def p(ctx):
        G.prepare(ctx)
        return [(create, ('C13', 1)), (create, ('C13', 0))] + components() + [(p_enc.encode, ('C13', 0, f, c, h, q)) for f in range(5) for c in (1, 3) for h in (1, 0) for q in (0, 1)] + [(p_enc.wrapper, ())]
    return [p]
def phases_C14():
    def p(ctx):
        G.prepare(ctx)
        return [(encode, (1, 4, h, 0, k)) for k in (1, 0) for h in (0, 1)] + [(create, ('C14', 1)), (create, ('C14', 0)), (destroy, (0,)), (destroy, (1,))] + [(encode, (0, f, h, 0, 0)) for f in range(5) for h in (0, 1)]
    return [p]
