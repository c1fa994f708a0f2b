"""C05 / C06 jobs: infer the loop invariants of each RLGR encoder, then discharge every obligation."""
import os, subprocess, time, glob, pickle, re, hashlib, ast
import core, llir, rlgr, rlgrlemma

_cache = {}
def module(ctx):
    """IR with every helper inlined into its caller (mechanical, by opt)"""
    p = os.path.join(ctx.work, 'inl.ll')
    if not os.path.exists(p):
        t = p + '.%d' % os.getpid()
        subprocess.run(['opt-18', '-passes=function(sroa,simplifycfg),cgscc(inline),function(sroa,simplifycfg)', '-inline-threshold=100000', '-S',
                        ctx.work + '/all.bc0', '-o', t], check=True)
        os.rename(t, p)
    if p not in _cache: _cache[p] = llir.parse(open(p).read())
    return _cache[p]

def name(fn, diff): return '%s%s' % (fn.lstrip('@'), '' if diff is None else '(span %d)' % diff)

def prover(ctx, fn, var, diff, limit):
    return rlgr.Prover(module(ctx), fn, var, diff, deadline=time.time() + limit)

def spec_file(ctx, fn, diff): return os.path.join(ctx.work, 'inv_%s_%s' % (fn.lstrip('@'), diff))

HINTS = os.path.join(os.path.dirname(os.path.abspath(__file__)), 'hints')
def fingerprint(ctx, fn):
    """text of the function's IR without metadata numbers"""
    t = open(os.path.join(ctx.work, 'inl.ll')).read(); k = t.index('@%s(' % fn.lstrip('@'), 0)
    m = re.search(r'^define [^\n]*%s\(.*?^}' % re.escape(fn), t, re.S | re.M)
    return hashlib.sha256(re.sub(r', ![\w.]+ ?!?\d*|#\d+|; .*', '', m.group(0)).encode()).hexdigest()
def hint_file(fn, diff): return os.path.join(HINTS, '%s_%s' % (fn.lstrip('@'), diff))

def discover(ctx, fn, var, diff, limit=420):
    """find the loop annotations: the committed ones when they were written for this very IR (they are checked all the same), else by inference"""
    hf = hint_file(fn, diff); fp = fingerprint(ctx, fn)
    if os.path.exists(hf):
        h, inv = open(hf).read().split('\n', 1)
        if h == fp:
            ctx.funcs |= {fn}; assoc, cands, cuts = ast.literal_eval(inv)
            pickle.dump((assoc, cands, cuts), open(spec_file(ctx, fn, diff), 'wb')); note(ctx, fn, diff, assoc, cands); return
    P = prover(ctx, fn, var, diff, limit)
    f = P.discover()
    ctx.funcs |= {fn}; ctx.solver += P.stats['t']
    for h, fx, e in f: ctx.bad('%s: invariant of loop %s %s' % (name(fn, diff), h and h[1], fx), e)
    if not f:
        pickle.dump((P.assoc, P.cands, P.cuts), open(spec_file(ctx, fn, diff), 'wb'))
        if os.environ.get('RFX_WRITE_HINTS'):
            os.makedirs(HINTS, exist_ok=True); open(hf, 'w').write('%s\n%r\n' % (fp, (P.assoc, P.cands, P.cuts)))
        note(ctx, fn, diff, P.assoc, P.cands)
def note(ctx, fn, diff, assoc, cands):
    for h in cands:
        ctx.notes.append('%s loop %s invariant: %s stop; %s' % (name(fn, diff), h[1], assoc[h],
            '; '.join('%s=%s' % (r, c[0][1] if c[0][0] != 'low' else 'low bits of the code') for r, c in cands[h].items() if c)))

def verify(ctx, fn, var, diff, h, m, last=False, limit=600):
    P = prover(ctx, fn, var, diff, limit)
    P.assoc, P.cands, P.cuts = pickle.load(open(spec_file(ctx, fn, diff), 'rb'))
    P.changed = False; fails = []
    for hh in P.headers():
        P.state(hh)
    try: P.one(h, {} if h is None else {'m': m}, fails)
    except rlgr.CutLoop as e: fails.append((h, {}, 'loop %s needs an invariant that was not inferred' % (e.key,)))
    n = P.ob - len(fails); ctx.funcs |= P.touched | {fn}; ctx.solver += P.stats['t']; ctx.good(n, 'z3'); ctx.cnt[(fn, diff)] = n
    where = '%s: from %s, bit offset %s' % (name(fn, diff), 'entry' if h is None else 'loop ' + h[1], m)
    for hh, fx, e in fails: ctx.bad('%s %s' % (where, fx), e)
    if P.changed and not fails:
        if last: ctx.bad(where + ': invariant preserved', P.dropped[:3])
        else: pickle.dump((P.assoc, P.cands, P.cuts), open(spec_file(ctx, fn, diff) + '.drop.%s_%d' % (h and h[1], m), 'wb'))

def weaken(ctx, fn, diff):
    """drop from the invariants every candidate some segment did not preserve; True when there was one"""
    f = spec_file(ctx, fn, diff); ds = glob.glob(f + '.drop.*')
    if not ds: return False
    assoc, cands, cuts = pickle.load(open(f, 'rb'))
    for d in ds:
        a, c, _ = pickle.load(open(d, 'rb')); os.remove(d)
        for k, v in a.items():
            if k not in assoc: assoc[k] = v
            elif isinstance(v, bool) and k[1] in ('mem', 'pred'): assoc[k] = assoc[k] and v
        for h in c:
            if h not in cands: cands[h] = c[h]
            else: cands[h] = {r: [x for x in cands[h][r] if x in c[h].get(r, [])] for r in cands[h]}
    pickle.dump((assoc, cands, cuts), open(f, 'wb'))
    return True

ROUNDS = 8
def phases(var, fns, more=lambda ctx: []):
    """discovery, then one job per (loop, bit offset)"""
    def first(ctx):
        module(ctx); return [(discover, f) for f in fns] + [(rlgrlemma.lemma, (var,))] + more(ctx)
    def then(rnd):
        def jobs(ctx):
            jobs = []
            for f in fns:
                if rnd:
                    if not weaken(ctx, f[0], f[2]): continue
                    n = ctx.cnt.pop((f[0], f[2]), 0); ctx.n -= n; ctx.ok -= n; ctx.by['z3'] -= n
                assoc, cands, cuts = pickle.load(open(spec_file(ctx, f[0], f[2]), 'rb'))
                jobs.append((verify, f + (None, 0, rnd == ROUNDS - 1)))
                for h in [x for x in assoc if len(x) == 2 and x in cands]:
                    for m in range(9 if (h, 'm8') in assoc else 8): jobs.append((verify, f + (h, m, rnd == ROUNDS - 1)))
            return jobs
        return jobs
    return [first] + [then(i) for i in range(ROUNDS)]
