"""Proof context: builds the IR of /repo's current working tree, counts obligations, collects failures."""
import os, subprocess, sys, time, tempfile, shutil, glob, traceback
import llir, terms as T, flow
sys.setrecursionlimit(20000)

REPO = os.environ.get('RFX_REPO', '/repo')
DEFS = ['-DSIMD_USE_ACCEL=1', '-DRFX_USE_ACCEL_AMD64=1']

def build_ir(work, repo=REPO):
    srcs = sorted(glob.glob(repo + '/src/*.c') + glob.glob(repo + '/src/amd64/*.c'))
    inc = ['-I' + repo + '/include', '-I' + repo + '/src', '-I' + repo + '/src/amd64']
    procs = []
    for f in srcs:
        o = os.path.join(work, os.path.basename(f)[:-2] + '.bc')
        procs.append((f, o, subprocess.Popen(['clang-18', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-strict-aliasing', '-w',
            *DEFS, *inc, '-emit-llvm', '-c', f, '-o', o], stderr=subprocess.PIPE)))
    bcs = []
    for f, o, p in procs:
        e = p.communicate()[1]
        if p.returncode: raise RuntimeError('clang failed on %s: %s' % (f, e.decode()[:500]))
        bcs.append(o)
    subprocess.run(['llvm-link-18', *bcs, '-o', work + '/all.bc0'], check=True)
    subprocess.run(['opt-18', '-passes=function(sroa,simplifycfg)', '-S', work + '/all.bc0', '-o', work + '/all.ll'], check=True)
    return llir.parse(open(work + '/all.ll').read())

class Ctx:
    def __init__(s, M, work, tier='quick'):
        s.M = M; s.work = work; s.tier = tier
        s.n = 0; s.ok = 0; s.fails = []; s.by = {}; s.funcs = set(); s.assume = set(); s.solver = 0.0; s.notes = []; s.known = []; s.cnt = {}
    def good(s, n=1, by='terms'):
        s.n += n; s.ok += n; s.by[by] = s.by.get(by, 0) + n
    def bad(s, name, detail):
        s.n += 1; s.fails.append((name, str(detail)[:2000]))
    def check(s, ok, name, detail='', by='terms'):
        if ok: s.good(1, by)
        else: s.bad(name, detail)
        return ok
    def merge(s, d):
        s.n += d['n']; s.ok += d['ok']; s.fails += d['fails']; s.funcs |= d['funcs']; s.assume |= d['assume']
        s.solver += d['solver']; s.notes += d['notes']; s.known += d['known']
        for k, v in d['cnt'].items(): s.cnt[k] = s.cnt.get(k, 0) + v
        for k, v in d['by'].items(): s.by[k] = s.by.get(k, 0) + v
    def dump(s):
        return dict(n=s.n, ok=s.ok, fails=s.fails, funcs=s.funcs, assume=s.assume, solver=s.solver, notes=s.notes, known=s.known, by=s.by, cnt=s.cnt)

def _worker(a):
    fn, M, work, tier, args = a
    c = Ctx(M, work, tier)
    try:
        fn(c, *args)
    except (T.Undecided, flow.Fail) as e:
        c.bad('%s%r' % (fn.__name__, tuple(x for x in args if isinstance(x, (str, int)))), e)
    except Exception as e:
        c.bad('%s%r: verifier gave up' % (fn.__name__, tuple(x for x in args if isinstance(x, (str, int)))), traceback.format_exc()[-1500:])
    return c.dump()

def _child(w, a):
    import pickle
    try: b = pickle.dumps(_worker(a))
    except BaseException: b = b''
    with os.fdopen(w, 'wb') as f: f.write(b)
    os._exit(0)
def parallel(ctx, jobs, procs=8, limit=600):
    """jobs: [(fn, args)]; each runs in its own forked process.  Stops early once an obligation is left."""
    import pickle, select, signal
    end = time.time() + limit; todo = list(jobs); run = {}
    name = lambda j: j[0].__name__ + repr(tuple(x for x in j[1] if isinstance(x, (str, int))))[:80]
    sys.stdout.flush(); sys.stderr.flush()
    try:
        while todo or run:
            while todo and len(run) < procs:
                j = todo.pop(0); r, w = os.pipe(); pid = os.fork()
                if pid == 0:
                    try:
                        os.setpgid(0, 0); os.close(r)
                        for fd in run: os.close(fd)
                        _child(w, (j[0], ctx.M, ctx.work, ctx.tier, j[1]))
                    finally: os._exit(1)
                os.close(w); run[r] = (pid, j, [])
                try: os.setpgid(pid, pid)
                except OSError: pass
            ready, _, _ = select.select(list(run), [], [], 0.5)
            for r in ready:
                d = os.read(r, 1 << 20); pid, j, buf = run[r]
                if d: buf.append(d); continue
                os.close(r); del run[r]; os.waitpid(pid, 0)
                try: ctx.merge(pickle.loads(b''.join(buf)))
                except Exception: ctx.bad(name(j), 'the verifier process ended without an answer')
            if ctx.fails: break
            if time.time() > end:
                for j in ([x[1] for x in run.values()] + todo)[:5]: ctx.bad(name(j), 'not discharged within the time limit')
                break
    finally:
        for r, (pid, j, buf) in run.items():
            try: os.killpg(pid, signal.SIGKILL)
            except ProcessLookupError: pass
            os.close(r)
        for pid, j, buf in run.values():
            try: os.waitpid(pid, 0)
            except ChildProcessError: pass

def phases(ctx, ps, limit=600):
    """ps: functions ctx -> jobs, run one after the other while nothing has failed"""
    end = time.time() + limit
    for p in ps:
        if ctx.fails: return
        try: jobs = p(ctx)
        except Exception as e:
            ctx.bad('verification conditions of the current sources', traceback.format_exc()[-1500:]); return
        parallel(ctx, jobs, limit=max(5, end - time.time()))
