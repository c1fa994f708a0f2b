#!/usr/bin/env python3
"""seed.py make ID ... | confirm ID ... | check ID ...   (no argument after the verb: all)
make: write /verif/seeded/ID from tools/seeds.py; confirm: patch /repo, build, test, demo, undo; check: patch, run the check, undo."""
import sys, os, subprocess, json, shutil, tempfile
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import seeds
R = '/repo'; V = '/verif'
def sh(c, **k): return subprocess.run(c, shell=True, capture_output=True, text=True, **k)
DEMO = '''#!/bin/bash
# exit 0: the real code, built from the current tree, agrees with the reference on the cases tried; nonzero: it does not
H=$(cd "$(dirname "$0")" && pwd); D=$(mktemp -d); trap 'rm -rf "$D"' EXIT
bash "$H/build.sh" "$D" "$PWD" >"$D/log" 2>&1 || { cat "$D/log"; exit 3; }
export ASAN_OPTIONS=detect_leaks=0:abort_on_error=0:exitcode=99
pids=(); for i in 1 2 3 4 5 6 7 8; do "$D/conf" run %s $((%d + i)) %d 20 "$D/case$i" & pids+=($!); done
rc=0; for p in "${pids[@]}"; do wait $p || rc=1; done; exit $rc
'''
def make(i):
    s = seeds.S[i]; d = f'{V}/seeded/{i}'; shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
    tmp = tempfile.mkdtemp(); 
    try:
        sh(f'git -C {R} archive HEAD | tar x -C {tmp}'); sh('git init -q . && git add -A -f && git -c user.email=a@b -c user.name=a commit -qm x', cwd=tmp)
        for f, old, new in s['edits']:
            p = f'{tmp}/{f}'; t = open(p).read()
            n = 1
            if isinstance(old, tuple): old, n = old      # n-th occurrence
            assert t.count(old) >= n and (n > 1 or t.count(old) == 1 or isinstance(s['edits'][0][1], tuple)), (i, f, old, t.count(old))
            k = -1
            for _ in range(n): k = t.index(old, k + 1)
            open(p, 'w').write(t[:k] + new + t[k+len(old):])
        open(d + '/patch.diff', 'w').write(sh('git diff', cwd=tmp).stdout)
    finally: shutil.rmtree(tmp)
    for f in ('conf.c', 'msg.h', 'ref.h', 'build.sh'): shutil.copy(f'{V}/harness/{f}', d)
    open(d + '/demo.sh', 'w').write(DEMO % (s.get('demo', s['property']), s.get('seed0', 500), s.get('ms', 8000))); os.chmod(d + '/demo.sh', 0o755)
    json.dump(dict(property=s['property'], needs=s['needs'], what_it_breaks=s['breaks']), open(d + '/meta.json', 'w'), indent=1)
def undo(): sh(f'git -C {R} checkout -- .')
def confirm(i):
    d = f'{V}/seeded/{i}'
    assert not sh(f'git -C {R} status --porcelain').stdout.strip()
    try:
        a = sh(f'git -C {R} apply {d}/patch.diff'); assert a.returncode == 0, a.stderr
        b = sh('bash /opt/vp/build.sh'); sh('rm -f /tmp/so.json'); t = sh('bash /opt/vp/test.sh /tmp/so.json')
        base = json.load(open('/opt/vp/BASELINE.json')); out = json.load(open('/tmp/so.json'))
        want = set(base.get('stable', base.get('passed', base)) ) ; got = set(out.get('passed', []))
        r = sh(f'cp -a {d} /tmp/seeddemo && bash /tmp/seeddemo/demo.sh; rc=$?; rm -rf /tmp/seeddemo; exit $rc', cwd=R)
        print(i, 'build', b.returncode, 'missing tests', sorted(want - got)[:5], 'demo with patch', r.returncode, (r.stdout.strip().split('\n') or [''])[0][:150])
    finally:
        undo(); sh('bash /opt/vp/build.sh')
def check(i):
    d = f'{V}/seeded/{i}'; s = seeds.S[i]
    try:
        a = sh(f'git -C {R} apply {d}/patch.diff'); assert a.returncode == 0, a.stderr
        r = sh(f'python3-vt {V}/check.py {s["property"]}', cwd=V)
        L = [l for l in r.stdout.split('\n') if l.startswith(('VIOL', 'failing', 'failed', 'error'))]
        print(i, s['property'], 'exit', r.returncode, '\n   ' + '\n   '.join(x[:220] for x in L[:4]), r.stderr[-300:], flush=True)
    finally: undo()
if __name__ == '__main__':
    ids = sys.argv[2:] or sorted(seeds.S)
    for i in ids: globals()[sys.argv[1]](i)
