"""Message level: rfxcodec_encode_ex and everything it calls down to the conversion, transform and entropy-coding contracts."""
import time
import llir, symdump, core
import msgx as X
from msgx import *

NC = 10000           # what one standard component may take (C15 shows it never takes more)
NP = 24595           # what one progressive component may take (C15)
PLANE_WORK = 4417    # what coding the alpha plane may touch (C11)
PLANE_MAX = 4098     # what it may leave (C11)
ROOM = 24595         # room insisted on before a component is coded
DEFQ = [0x66, 0x66, 0x77, 0x88, 0x98]
COMP = {'@rfx_encode_component_rlgr1': 1, '@rfx_encode_component_rlgr3': 3, '@rfx_encode_component_rlgr1_amd64_sse2': 1, '@rfx_encode_component_rlgr3_amd64_sse2': 3,
        '@rfx_encode_component_rlgr1_amd64_sse41': 1, '@rfx_encode_component_rlgr3_amd64_sse41': 3}
F_RLGR1, F_PRO1, F_NOACCEL = 1, 4, 2      # re-read from the header in consts()

def consts(ctx):
    import subprocess, os
    c = os.path.join(ctx.work, 'mc.c')
    names = ['RFX_FLAGS_RLGR1', 'RFX_FLAGS_PRO1', 'RFX_FLAGS_NOACCEL', 'RFX_FLAGS_ALPHAV1', 'RFX_FLAGS_PRO_KEY', 'RFX_FORMAT_BGRA', 'RFX_FORMAT_RGBA', 'RFX_FORMAT_BGR', 'RFX_FORMAT_RGB', 'RFX_FORMAT_YUV', 'RLGR1', 'RLGR3']
    open(c, 'w').write('#include <stdio.h>\n#include "rfxcodec_encode.h"\n#include "rfxcommon.h"\n#include "rfxencode.h"\n#include "rfxconstants.h"\nint main(void){%s return 0;}' % ''.join('printf("%s %%d\\n", (int) %s);' % (n, n) for n in names))
    subprocess.run(['gcc', '-w', '-I' + core.REPO + '/include', '-I' + core.REPO + '/src', *core.DEFS, c, '-o', c[:-2]], check=True)
    return dict((k, int(v)) for k, v in (l.split() for l in subprocess.run([c[:-2]], check=True, capture_output=True, text=True).stdout.splitlines()))
def prepare(ctx):
    ctx.moff = symdump.probe(ctx.work); ctx.mc = consts(ctx)
    import json; json.dump([ctx.moff, ctx.mc], open(ctx.work + '/msg.json', 'w'))
def facts(ctx):
    import json; return json.load(open(ctx.work + '/msg.json'))

# ------------------------------------------------------------------------------------------------- contracts of the callees
def cell(ex, st, enc, f): return ex.load(st, Ptr(enc, ex.off['rfxencode.' + f]), 4)
def enc_range(ex, st, p, n, what):
    if not isinstance(p, Ptr) or p.o not in st.ob or st.ob[p.o].ranges != 'enc' or not ii(p.off): raise Undecided('%s: %s is not a work buffer' % (ex.where, what))
    ex.need(st, ex.darea[0] <= p.off and p.off + n <= ex.darea[1], '%s lies outside the work buffers' % what); ex.need(st, p.off % 16 == 0, '%s is not aligned' % what)
def out_room(ex, st, p, n):
    o = ex.deref(st, p, 'write')
    if o.kind != 'out': raise Undecided('%s: coded data goes elsewhere' % ex.where)
    ex.need(st, cle(psub(0, p.off)), 'coded data before the output buffer'); ex.need(st, cle(psub(0, n)), 'negative room'); ex.need(st, cle(psub(padd(p.off, n), o.size)), 'room passed on lies beyond the output buffer')
def h_conv(alpha):
    def f(ex, st, a):
        enc, p, w, h, stride = a[:5]
        for v in (w, h): ex.need(st, cand(cle(psub(1, v)), cle(psub(v, 64))), 'tile size')
        fmt = cell(ex, st, enc.o, 'format'); bpp = cell(ex, st, enc.o, 'bits_per_pixel')
        ex.need(st, ii(fmt) and fmt in ex.rgbfmts, 'pixel format of the conversion')
        ps = [('y_r_buffer', 'Y'), ('u_g_buffer', 'U'), ('v_b_buffer', 'V')] + ([('a_buffer', 'A')] if alpha and bpp == 32 else [])
        for b, n in ps:
            o = ex.off['rfxencode.' + b]; ex.havocdata(st, o, o + 4096)
        st.plane = dict(st.plane)
        for b, n in ps: o = ex.off['rfxencode.' + b]; st.plane[(o, o + 4096)] = ('conv', n, p.o, p.off, w, h, stride, alpha)
        return 0
    return f
def plane_tok(ex, st, p):
    if isinstance(p, Ptr) and p.o in st.ob and st.ob[p.o].ranges == 'enc': return st.plane.get((p.off, p.off + 4096), ('stale', p.off) ) if ii(p.off) else ('stale',)
    return ('mem', p.o, p.off)
def h_comp(coder):
    def f(ex, st, a):
        enc, q, data, buf, n, size = a[:6]
        qo = ex.deref(st, q, 'read'); ex.inb(st, qo, q.off, 5, 'read of quantisers')
        out_room(ex, st, buf, n)
        if 'C15' in ex.want: ex.need(st, cle(psub(ex.nc, n)), 'a component is coded with less room than its code may take')
        tok = ('code', coder, plane_tok(ex, st, data), q.o, q.off)
        d0 = ex.off['rfxencode.dwt_buffer_a']
        def fin(s2, ok):
            if ok: s2.pc = s2.pc + ([c] if type(c := cle(psub(ex.nc, n))) is not bool else [])
            else: ex.assume(s2, cle(psub(padd(n, 1), ex.nc)))
            k = fresh('len', 1, ex.nc)
            if not ok:
                k = fresh('cutlen', -1, ex.nc); ex.assume(s2, cle(psub(k, n)))
            ex.havocdata(s2, d0, ex.darea[1])
            o = s2.w(buf.o); o.log.append(('g', buf.off, n)); o.log.append(('comp', buf.off, k, tok if ok else ('cut',)))
            ex.store(s2, size, 4, k)
            return 0
        t = ex.truth(st, cle(psub(ex.nc, n)))
        if t is True: return [lambda s2: fin(s2, True)]
        if t is False: return [lambda s2: fin(s2, False)]
        return [lambda s2: fin(s2, True), lambda s2: fin(s2, False)]
    return f
def h_plane(ex, st, a):
    enc, plane, w, h, s = a[:5]
    ex.need(st, w == 64 and h == 64, 'size of the alpha plane')
    p = ex.load(st, Ptr(s.o, padd(s.off, ex.off['STREAM.p'])), 8, True)
    out_room(ex, st, p, PLANE_WORK)
    tok = ('alpha', plane_tok(ex, st, plane)); ex.havocdata(st, ex.off['rfxencode.dwt_buffer_a'], ex.darea[1])
    n = fresh('alen', 1, PLANE_MAX)
    o = st.w(p.o); o.log.append(('g', p.off, PLANE_WORK)); o.log.append(('comp', p.off, n, tok))
    ex.store(st, Ptr(s.o, padd(s.off, ex.off['STREAM.p'])), 8, Ptr(p.o, padd(p.off, n)))
    return n
def h_rem(ex, st, a):
    src, dst, work, q = a[:4]
    qo = ex.deref(st, q, 'read'); ex.inb(st, qo, q.off, 5, 'read of quantisers')
    enc_range(ex, st, dst, 8192, 'transform output'); enc_range(ex, st, work, 8192, 'transform work buffer')
    ex.need(st, abs(dst.off - work.off) >= 8192, 'transform output and work buffer overlap')
    ex.havocdata(st, work.off, work.off + 8192); ex.havocdata(st, dst.off, dst.off + 8192)
    o = st.w(dst.o)
    for j in range(4096): o.c[dst.off + 2 * j] = (2, coefsym(src, q, j))
    return 0
def coefsym(src, q, j): return sym(('coef', src.o, src.off, q.o, q.off, j), 'coef(%s)[%d]' % (src, j), -32768, 32767, None, True)
def h_diff1(ex, st, a):
    coef, buf, n, span = a[:4]
    enc_range(ex, st, coef, 8192, 'coefficients'); ex.need(st, ii(span) and span == 81, 'span of the differenced run')
    out_room(ex, st, buf, n)
    em = [ex.load(st, Ptr(coef.o, coef.off + 2 * j), 2) for j in range(4096)]
    def fail(s2):
        ex.assume(s2, cle(psub(padd(n, 1), NP))); ex.havocdata(s2, coef.off, coef.off + 8192); s2.w(buf.o).log.append(('g', buf.off, n)); return -1
    def good(s2):
        k = fresh('plen', 1, NP); ex.assume(s2, cle(psub(k, n)))
        o = s2.w(coef.o)
        for j in range(4095, 4096 - span, -1): o.c[coef.off + 2 * j] = (2, wrap(psub(em[j], em[j - 1]), 16))
        o = s2.w(buf.o); o.log.append(('g', buf.off, n)); o.log.append(('comp', buf.off, k, ('diff1', em))); return k
    return [fail, good]
def h_calloc(ex, st, a):
    n = pmul(a[0], a[1])
    if not ii(n): raise Undecided('allocation of symbolic size')
    def bad(s2): s2.note['nomem'] = True; return NULL
    def good(s2):
        o = ex.new(s2, 'heap', n, dflt=0, heap=True, data=(n == ex.off['sizeof.rfx_rb']))
        if n == ex.off['sizeof.rfxencode']: s2.ob[o].ranges = 'newenc'
        s2.note['allocs'] = s2.note.get('allocs', ()) + (o,); return Ptr(o, 0)
    return [bad, good]
def h_malloc(ex, st, a):
    if not ii(a[0]): raise Undecided('allocation of symbolic size')
    def good(s2):
        o = ex.new(s2, 'heap', a[0], heap=True, data=(a[0] == ex.off['sizeof.rfx_rb'])); s2.note['allocs'] = s2.note.get('allocs', ()) + (o,); return Ptr(o, 0)
    def bad(s2): s2.note['nomem'] = True; return NULL
    return [bad, good]
def h_free(ex, st, a):
    p = a[0]
    if p == NULL: return None
    if isinstance(p, SPtr):
        ex.need(st, not st.slotfree.get(p.key), 'a reference tile is released twice'); st.slotfree[p.key] = 1; return None
    o = ex.deref(st, p, 'release'); ex.need(st, o.heap and p.off == 0, 'release of something not allocated'); ex.need(st, not o.freed, 'released twice')
    st.w(p.o).freed = True
    return None
def h_cpuid(ex, st, a):
    for p in a[2:6]: ex.store(st, p, 4, fresh('cpuid', smin(32), smax(32)))
    return 0
def h_nop(ex, st, a): return 0
def hooks(ex):
    ex.ext = {'@rfx_encode_rgb_to_yuv': h_conv(0), '@rfx_encode_argb_to_yuva': h_conv(1), '@rfx_encode_plane': h_plane, '@rfx_rem_dwt_shift_encode': h_rem, '@rfx_encode_diff_rlgr1': h_diff1,
        '@calloc': h_calloc, '@malloc': h_malloc, '@free': h_free, '@cpuid_amd64': h_cpuid, '@printf': h_nop, '@puts': h_nop, '@putchar': h_nop}
    for n, c in COMP.items(): ex.ext[n] = h_comp(c)

# ------------------------------------------------------------------------------------------------- reading the output back
class Rd:
    """what the output holds at an offset: the last write that covers it (all others are shown disjoint)"""
    def __init__(r, ex, st, oid, frm=0): r.ex = ex; r.st = st; r.log = st.ob[oid].log; r.frm = frm
    def disj(r, a, n, b, m):
        d = psub(b, a)       # [a, a+n) and [b, b+m)
        if plo(psub(d, n)) >= 0 or phi_(padd(d, m)) <= 0: return True
        e = cor(cle(psub(n, d)), cle(padd(d, m)))
        if type(e) is bool: return e
        return r.ex.valid(r.st, e)
    def get(r, off, w):
        """value (signed reading of the width) or None"""
        parts = [None] * w; left = w
        for e in reversed(r.log[r.frm:]):
            if e[0] == 'w':
                d = psub(off, e[1])
                if not ii(d) and not r.disj(off, w, e[1], e[2]):
                    if r.ex.valid(r.st, ceq(d)): d = 0
                    else: raise Fail('output bytes at %s: overlap with a write at %s cannot be excluded' % (off, e[1]))
                if not ii(d): continue
                if d == 0 and e[2] == w and left == w: return e[3]
                for i in range(w):
                    if parts[i] is None and 0 <= d + i < e[2]:
                        v = e[3]
                        if ii(v): parts[i] = v >> 8 * (d + i) & 255
                        else: x = uns(v, 8 * e[2]); parts[i] = psub(fdiv(x, 1 << 8 * (d + i)), pmul(256, fdiv(x, 1 << 8 * (d + i + 1))))
                        left -= 1
                if left == 0: return wrap(sumparts(parts), 8 * w)
            elif e[0] in ('g', 'comp', 'copy'):
                if r.disj(off, w, e[1], e[2]): continue
                if e[0] == 'copy':
                    d = psub(off, e[1])
                    if w == 1 and r.ex.valid(r.st, cand(cle(psub(0, d)), cle(padd(psub(d, e[2]), 1)))): return rdsym(e[3].o, padd(e[3].off, d), 1)
                raise Fail('output bytes at %s are not written (%s)' % (off, e[0]))
            elif e[0] == 'loop':
                v = r.loop(e[1], off, w)
                if v is not False: return v
        raise Fail('output bytes at %s are never written' % off)
    def loop(r, rec, off, w):
        """a write made by some iteration j of a finished loop, all of whose state is a function of j"""
        if not hasattr(rec, 'back'): return False
        if len(rec.back) == 0: return False
        if getattr(rec, 'span', None):         # a tile loop: covers [a, b)
            a, b = rec.span
            if r.disj(off, w, a, psub(b, a)): return False
            raise Fail('output bytes at %s lie inside the tile data' % off)
        ws = []
        for b, m in rec.back:
            for oid, o in b.ob.items():
                if o.kind == 'out': ws.append(o.log[rec.log0[oid]:])
        if not any(ws): return False
        if len(ws) != 1: raise Undecided('several paths write the output in a loop')
        if any(m not in (rec.k.k[0][0][0],) for m in rec.m0): raise Undecided('loop writes at unknown positions')
        ki = rec.k.k[0][0][0]
        # the entries are disjoint in different iterations iff offset moves by the total width
        tot = 0; lo = None
        for e in ws[0]:
            if e[0] != 'w': raise Undecided('loop writes')
            tot += e[2]; st = subst(e[1], {ki: 0}); lo = st if lo is None or plo(psub(st, lo)) < 0 else lo
            d = psub(subst(e[1], {ki: padd(rec.k, 1)}), e[1])
            if not ii(d): raise Undecided('loop writes')
        if any(psub(subst(e[1], {ki: padd(rec.k, 1)}), e[1]) != tot for e in ws[0]): raise Fail('loop writes %d bytes per turn but does not move by that much' % tot)
        K = rec.k
        if r.disj(off, w, lo, pmul(tot, K)): return False
        js = r.ex.cur_j
        if js is None: raise Fail('output bytes at %s lie inside what a loop writes' % off)
        for j in js:
            for e in ws[0]:
                d = psub(subst(e[1], {ki: j}), off)
                if e[2] == w and (d == 0 or not ii(d) and r.ex.valid(r.st, ceq(d))):
                    if not r.ex.valid(r.st, cle(padd(psub(j, K), 1))): raise Fail('entry %s is not written' % j)
                    return subst(e[3], {ki: j})
            parts = []
            for i in range(w):
                for e in ws[0]:
                    d = psub(padd(off, i), subst(e[1], {ki: j}))
                    if not ii(d):
                        for c in range(e[2]):
                            if r.ex.valid(r.st, ceq(psub(d, c))): d = c; break
                    if ii(d) and 0 <= d < e[2]:
                        x = uns(subst(e[3], {ki: j}), 8 * e[2]); parts.append(psub(fdiv(x, 1 << 8 * d), pmul(256, fdiv(x, 1 << 8 * (d + 1)))) if not ii(x) else x >> 8 * d & 255); break
            if len(parts) == w:
                if not r.ex.valid(r.st, cle(padd(psub(j, K), 1))): raise Fail('entry %s is not written' % j)
                return wrap(sumparts(parts), 8 * w)
        raise Fail('output bytes at %s are not an entry' % off)
    def comp(r, off):
        """(length, token) of the coded data at off, checked not to be overwritten later"""
        log = r.log[r.frm:]
        for i in range(len(log) - 1, -1, -1):
            e = log[i]
            if e[0] == 'comp' and psub(e[1], off) == 0 or e[0] == 'comp' and not ii(psub(e[1], off)) and r.ex.valid(r.st, ceq(psub(e[1], off))):
                for l in log[i + 1:]:
                    if l[0] in ('w', 'g', 'copy', 'comp') and not r.disj(off, e[2], l[1], l[2]): raise Fail('coded data at %s is overwritten' % off)
                return e[2], e[3]
        raise Fail('no coded data at %s' % off)
def sumparts(p):
    r = 0
    for i, x in enumerate(p): r = padd(r, pmul(x, 1 << 8 * i))
    return r

def single(v):
    if isinstance(v, Poly) and len(v.k) == 1 and v.k[0][1] == 1 and len(v.k[0][0]) == 1:
        s = SYMS[v.k[0][0][0]]
        return s if s.key[0] != 'wrap' else single(s.key[2]) or s
class Msg:
    """a reader that follows the expected layout; every expectation is an obligation"""
    def __init__(m, ex, st, oid, pos=0, frm=0): m.ex = ex; m.st = st; m.rd = Rd(ex, st, oid, frm); m.pos = pos; m.ex.cur_j = None
    def at(m, off, w, e, what, mod=False):
        v = m.rd.get(off, w); m.ex.where = 'output field %s' % what
        if not mod and not ii(e): m.ex.need(m.st, cand(cle(psub(0, e)), cle(psub(e, (1 << 8 * w) - 1))), '%s = %s does not fit its %d-byte field' % (what, e, w))
        m.ex.ob += 1
        if ii(v) and ii(e) and (v - e) % (1 << 8 * w) == 0: return
        a, b = single(v), single(e)
        if a and b and a.key[0] == b.key[0] == 'ld' and a.key[1] == b.key[1] and a.key[3] == b.key[3] and a is not b: m.ex.need(m.st, ceq(psub(a.key[2], b.key[2])), '%s is %s, expected %s' % (what, v, e)); return
        d = wrap(psub(v, e), 8 * w)
        if not (ii(d) and d == 0): m.ex.need(m.st, ceq(d), '%s is %s, expected %s' % (what, v, e))
    def f(m, w, e, what, mod=False): m.at(m.pos, w, e, what, mod); m.pos = padd(m.pos, w)

# ------------------------------------------------------------------------------------------------- the encode call
def setup(ctx, pro, fmt, coder, hdr, q0, key=0):
    """state on entry of rfxcodec_encode_ex: an encoder as created, after any history"""
    moff, mc = facts(ctx)
    ex = Exec(ctx.M, moff); ex.nc = NC; hooks(ex); ex.rgbfmts = [mc['RFX_FORMAT_' + n] for n in ('BGRA', 'RGBA', 'BGR', 'RGB')]
    ex.mc = mc; ex.cur_j = None
    # the created encoder
    st = State(); o = ex.new(st, 'handle', 8)
    fl = (mc['RFX_FLAGS_PRO1'] if pro else 0) | (mc['RFX_FLAGS_RLGR1'] if coder == 1 else 0)
    w = sym(('w',), 'width', 0, 65535); h = sym(('h',), 'height', 0, 65535)
    ex.enter(st, '@rfxcodec_encode_create_ex', [w, h, fmt, fl, Ptr(o, 0)])
    save = ex.ext['@cpuid_amd64']
    def z(ex_, s2, a):
        for p in a[2:6]: ex_.store(s2, p, 4, 0)
        return 0
    ex.ext['@cpuid_amd64'] = z
    res = [r for r in ex.explore([st]) if r[2] == 0]
    ex.ext['@cpuid_amd64'] = save
    if len(res) != 1: raise Fail('rfxcodec_encode_create_ex does not succeed for format %d' % fmt)
    c = res[0][1]; hp = c.ob[o].c[0][1]; created = c.ob[hp.o]
    st = State(); st.pc = []
    e = Obj('enc', moff['sizeof.rfxencode'], dflt='leaf', heap=True); e.ranges = 'enc'; e.stamp = st.stamp; st.ob['enc'] = e
    for k, (cw, v) in created.c.items(): e.c[k] = (cw, Ptr('enc', v.off) if isinstance(v, Ptr) and v.o == hp.o else v)
    def fld(n): return moff['rfxencode.' + n]
    for n in ('frame_idx', 'header_processed', 'mode', 'properties', 'flags', 'bits_per_pixel', 'format', 'pro_ver', 'width', 'height'):
        e.c.setdefault(fld(n), (4, 0))
    e.c.setdefault(fld('rfx_encode'), (8, NULL))
    ex.inv = {}
    for k, v in e.c.items(): ex.inv[k] = v
    if hdr:
        e.c[fld('frame_idx')] = (4, 0); e.c[fld('header_processed')] = (4, 0); e.c[fld('properties')] = (4, sym(('properties',), 'properties', smin(32), smax(32)))
    else:
        e.c[fld('frame_idx')] = (4, sym(('fi',), 'frame_idx', 0, (1 << 31) - 2)); e.c[fld('header_processed')] = (4, 1)
        if not pro: e.c[fld('properties')] = (4, props_tileset(coder))
    if pro:      # nothing a progressive call does may depend on these
        for n in ('format', 'bits_per_pixel', 'mode', 'flags', 'properties'): e.c[fld(n)] = (4, sym(('field', n), n, 0, 1 << 20))
    ex.fi0 = e.c[fld('frame_idx')][1]; ex.w0 = w; ex.h0 = h
    cap = sym(('cap',), 'capacity', 0, 1 << 29); nr = sym(('nr',), 'num_regions', 0, 65535); nt = sym(('nt',), 'num_tiles', 0, 65535); nq = sym(('nq',), 'num_quants', 0 if q0 else 1, 255)
    def obj(id, size, kind, ro=True):
        b = Obj(id, size, kind, ro=ro); b.stamp = st.stamp; st.ob[id] = b
    obj('out', cap, 'out', False); obj('regions', pmul(16, nr), 'arr'); obj('tiles', pmul(28, nt), 'arr'); obj('quants', pmul(5, nq), 'arr'); obj('buf', None, 'arr')
    b = Obj('bytes', 4); b.stamp = st.stamp; b.c[0] = (4, cap); st.ob['bytes'] = b
    nqq = 1 if q0 else nq
    def tiles_ld(off, w):
        if w != 4: raise Undecided('tile read')
        r = 0
        for m_, c_ in Poly_items(off):
            if m_ == (): r = c_ % 28
            elif c_ % 28: raise Undecided('tile index')
        if pro: return smin(32), smax(32), None
        if r in (0, 4): return 0, 64 * 65536 - 1, None
        if r in (8, 12): return 1, 64, None
        return 0, 254, lambda v: [v < zexp(nqq)]
    LDR['tiles'] = tiles_ld
    stride = sym(('stride',), 'stride', -(1 << 24), 1 << 24); flags = sym(('flags',), 'flags', smin(32), smax(32))
    if pro: q = fdiv(flags, mc['RFX_FLAGS_PRO_KEY']); st.pc = st.pc + [ceq(psub(psub(q, pmul(2, fdiv(q, 2))), key))]
    ex.args = dict(cap=cap, nr=nr, nt=nt, nq=nq, nqq=nqq, stride=stride, flags=flags, q0=q0)
    ex.bounds = [cap, psub(cap, 6), nt, nr]; ex.rates = [22 + 3 * NP if pro else 21 + 3 * ROOM + PLANE_MAX]
    ex.start = st; ex.cfg = dict(pro=pro, fmt=fmt, coder=coder, hdr=hdr, q0=q0)
    # the products in pixel addresses fit an int (the picture is smaller than 2 GB)
    X.STRIDES[stride.k[0][0][0]] = 1 << 31; X.STRIDES[fdiv(stride, 256).k[0][0][0]] = 1 << 23
    ex.enter(st, '@rfxcodec_encode_ex', [Ptr('enc', 0), Ptr('out', 0), Ptr('bytes', 0), Ptr('buf', 0), sym(('pw',), 'pic_width', 0, 65535), sym(('ph',), 'pic_height', 0, 65535), stride,
        Ptr('regions', 0), nr, Ptr('tiles', 0), nt, NULL if q0 else Ptr('quants', 0), nq, flags])
    return ex
def props_context(coder): return (1 << 3) | (1 << 5) | ((1 if coder == 1 else 4) << 9) | (1 << 13)
def props_tileset(coder): return 1 | (1 << 4) | (1 << 6) | ((1 if coder == 1 else 4) << 10) | (1 << 14)

def run(ex):
    """all paths of the call; restarts when a loop turns out to need an invariant"""
    snap = ex.start; fail = None
    while True:
        try:
            ex.loops = []; ex.ob = 0; ex.soft = fail is not None
            r = ex.explore([snap.clone()])
            if fail: ex.soft = False; raise fail
            return r
        except CutLoop as e:
            if e.key in ex.cuts: raise Undecided('loop')
            ex.cuts.add(e.key); fail = None
        except Fail as e:
            if fail: raise
            fail = e
