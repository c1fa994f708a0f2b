#!/usr/bin/env python3
"""behaviour-preserving edits of /repo, made in copies; the checks must stay quiet on them.
refac.py list | build [ids] | run [ids...] [-p PROPS]"""
import os, sys, re, subprocess, shutil, time, glob
R = {}
def sub(a, b, n=1):
    def f(t):
        c = t.count(a)
        assert c >= 1 and (n is None or c == n), ('count', c, a[:80])
        return t.replace(a, b)
    return f
def rsub(a, b, n=None):
    def f(t):
        t2, c = re.subn(a, lambda m: m.expand(b) if '\\' in b else b, t, flags=re.S)
        assert c >= 1 and (n is None or c == n), ('count', c, a[:80])
        return t2
    return f
def lit(a, b, n=1):
    "regex search, literal replacement"
    def f(t):
        t2, c = re.subn(a, lambda m: b, t, flags=re.S)
        assert c == n, ('count', c, a[:80])
        return t2
    return f
def body(name, new):
    return lit(r'(?:static )?(?:int|void)\n%s\([^;{]*\)\n\{.*?\n\}\n' % re.escape(name), new)
def before(mark, new): return sub(mark, new + mark)
def R_(id, props, *edits): R[id] = (props.split(), edits)
C='src/rfxencode_compose.c'; T='src/rfxencode_tile.c'; E='src/rfxencode.c'; A='src/rfxencode_alpha.c'; Y='src/rfxencode_rgb_to_yuv.c'
MSG='C01 C02 C03 C12 C13 C15'
PRO='C01 C02 C03 C04 C14 C15'
HERE = os.path.dirname(os.path.abspath(__file__))
for f in sorted(glob.glob(HERE + '/r_*.py')): exec(open(f).read())
def copy(id):
    d = '/tmp/rfc_%s' % id
    shutil.rmtree(d, ignore_errors=True); subprocess.check_call(['cp', '-a', '/repo', d])
    for e in R[id][1]:
        p = os.path.join(d, e[0]); t = open(p).read()
        for g in e[1:]: t = g(t)
        open(p, 'w').write(t)
    return d
def run(id, props):
    d = copy(id)
    for p in props or R[id][0]:
        t0 = time.time()
        r = subprocess.run(['python3-vt', os.path.join(HERE, '../../check.py'), p], env=dict(os.environ, RFX_REPO=d, VERIF_SEED='1'), capture_output=True, text=True)
        print('%-14s %s rc=%d %.0fs %s' % (id, p, r.returncode, time.time() - t0, 'quiet' if r.returncode == 0 else 'ALARM'), flush=True)
        if r.returncode:
            print('\n'.join(l[:700] for l in (r.stdout + r.stderr[-1500:]).splitlines()[-8:]), flush=True)
    shutil.rmtree(d)
a = sys.argv[1:]
props = None
if '-p' in a: i = a.index('-p'); props = a[i+1].split(','); del a[i:i+2]
if a[0] == 'list':
    for k in R: print(k, R[k][0])
elif a[0] == 'build':
    for id in a[1:] or R:
        try: d = copy(id)
        except AssertionError as e: print(id, 'EDIT', e); continue
        r = subprocess.run(['bash', os.path.join(HERE, '../../harness/build.sh'), d + '/hb', d], capture_output=True, text=True)
        print(id, r.returncode, (r.stdout + r.stderr)[-1500:] if r.returncode else '')
        shutil.rmtree(d)
elif a[0] == 'keep': print(copy(a[1]))
else:
    for id in a[1:] or R: run(id, props)
