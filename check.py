#!/usr/bin/env python3-vt
"""check.py PROPERTY: decide one property for /repo's current working tree.

1. The deductive part: verification conditions generated from the IR / machine code of the current sources are discharged.
2. The replay part: the real code, compiled from the same sources, is run against the reference semantics; it turns a failed
   obligation into a concrete failing input where one can be found, and cross-checks the verifier on every run.
"""
import os, sys, json, time, subprocess, tempfile, shutil, importlib
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'rfxvc'))
import core, props

def conf_run(conf, prop, seed, ms, minc, rf):
    env = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99')
    return subprocess.Popen([conf, 'run', prop, str(seed), str(ms), str(minc), rf], stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env, text=True)

def concrete(conf, work, prop, seed0, ms, minc, n=8, tmo=400):
    """returns (cases, nontrivial, failure or None)"""
    ps = []
    for i in range(n):
        rf = os.path.join(work, 'case_%s_%d' % (prop, i)); ps.append((i, rf, conf_run(conf, prop, seed0 * 1000 + i, ms, minc, rf)))
    cases = nt = 0; bad = None
    for i, rf, p in ps:
        if bad is not None: p.kill(); p.communicate(); continue
        try: out, err = p.communicate(timeout=tmo)
        except subprocess.TimeoutExpired:
            p.kill(); out, err = p.communicate(); out = out or 'FAIL hang'
            if not out.startswith('FAIL'): out = 'FAIL no answer from the code within %d s' % tmo
        if p.returncode == 0 and out.startswith('OK'):
            d = dict(x.split('=') for x in out.split()[1:]); cases += int(d['cases']); nt += int(d['nontrivial'])
        elif bad is None:
            last = open(rf).read().split() if os.path.exists(rf) else []
            bad = dict(message=(out.strip() or 'crash') + ('' if not err else '\n' + err[:3000]), case=last, exit=p.returncode)
    return cases, nt, bad

def main():
    prop = sys.argv[1]; t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick'); seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    if '--thorough' in sys.argv: tier = 'thorough'
    P = props.PROPS[prop]
    work = tempfile.mkdtemp(prefix='rfxvc_')
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True); os.makedirs(os.path.join(HERE, 'replay'), exist_ok=True)
    try:
        hb = subprocess.Popen(['bash', os.path.join(HERE, 'harness/build.sh'), work + '/h', core.REPO], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        ctx = core.Ctx(None, work, tier)
        try:
            ctx.M = core.build_ir(work)
        except Exception as e:
            ctx.bad('IR of the current sources', e)
        hout = hb.communicate()[0]
        conf = work + '/h/conf'
        if hb.returncode: print(hout.decode()[-2000:]); print('error: /repo does not build'); return 2
        tv = time.time()
        if ctx.M is not None: core.phases(ctx, P['phases'], limit=P.get('limit', 600))
        vtime = time.time() - tv
        need = P.get('min_ob', 1)
        if ctx.n < need and not ctx.fails: ctx.bad('vacuity', 'only %d obligations generated' % ctx.n)
        # the real code, run: cross-checks the verifier, and looks for a failing input when an obligation is left
        ms = P.get('ms', 4000) * (10 if tier == 'thorough' else 1)
        cases, nt, bad = concrete(conf, work, prop, seed, ms, P.get('minc', 20)); searched = 0
        if ctx.fails and bad is None:
            searched, n2, bad = concrete(conf, work, prop, seed + 7777, P.get('search_ms', 60000), P.get('minc', 20))
            cases += searched; nt += n2
        kf = known_lines(prop)
        ev = dict(property=prop, tier=tier, seed=seed, level='proof', wall_s=round(time.time() - t0, 2),
            violations=(1 if (bad or ctx.fails) else 0),
            coverage=dict(obligations=ctx.n, discharged=ctx.ok, checker_cmd='python3-vt /verif/check.py %s' % prop,
                trusted_base=props.TRUSTED + P.get('trusted', []), discharged_by=ctx.by, functions_under_contract=sorted(f.lstrip('@') for f in ctx.funcs),
                verifier_s=round(vtime, 2), solver_s=round(ctx.solver, 2), undischarged=[f[0] for f in ctx.fails][:20],
                facts=[str(n)[:600] for n in ctx.notes][:20],
                replay=dict(evaluations=cases, distinct_nontrivial=nt, rule='random inputs of the property (seeded), run on the real code compiled with AddressSanitizer and compared with the reference semantics')),
            assumptions=P.get('assume', []) + sorted(ctx.assume))
        json.dump(ev, open(os.path.join(HERE, 'evidence', prop + '.json'), 'w'), indent=1)
        for l in kf: print(l)
        print('%s: %d obligations, %d discharged, %d functions, verifier %.1f s; replay %d cases (%d non-trivial)' % (prop, ctx.n, ctx.ok, len(ctx.funcs), vtime, cases, nt))
        if bad or ctx.fails:
            rp = os.path.join(HERE, 'replay', prop + '.json')
            json.dump(dict(property=prop, failing_input=bad, how_to_replay=None if not bad else
                'bash /verif/harness/build.sh /tmp/h && /tmp/h/conf one %s' % ' '.join(bad['case']),
                failed_obligations=[dict(obligation=n, verifier_output=d) for n, d in ctx.fails], searched_cases=searched), open(rp, 'w'), indent=1)
            if bad: print('failing input: %s' % bad['message'][:400])
            for n, d in ctx.fails[:3]: print('failed obligation: %s: %s' % (n, d[:300]))
            print('VIOLATION property=%s replay=%s%s' % (prop, rp, '' if bad else ' no-failing-input-found'))
            return 1
        return 0
    finally:
        shutil.rmtree(work, ignore_errors=True)

def known_lines(prop):
    out = []
    f = os.path.join(HERE, 'known-findings.txt')
    for l in open(f):
        l = l.strip()
        if l.startswith('known: property=%s ' % prop): out.append('KNOWN-FINDING: ' + l[len('known: '):])
    return out

if __name__ == '__main__':
    sys.exit(main())
