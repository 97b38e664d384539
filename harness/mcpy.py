"""The enumeration driver of mc.h for harnesses written in Python: a family is a finite list of executions, every index of it is
run on the real module in one of 8 forked workers; a worker that dies is a failed execution and a fresh one goes on."""
import hashlib, json, mmap, os, resource, select, signal, struct, sys, time, traceback

class Fail(Exception):
    def __init__(self, key, msg):
        self.key, self.msg = key, msg

class Case:
    def __init__(self, idx):
        self.idx, self.trace, self.trans, self.states = idx, '', 0, []
    def op(self, s):
        if len(self.trace) < 6000:
            self.trace += s + '; '
        self.trans += 1
    def tick(self, n=1):
        self.trans += n
    def state(self, *x):
        self.states.append(hashlib.blake2b(repr(x).encode(), digest_size=8).digest())
    def expect(self, ok, key, msg=''):
        if not ok:
            raise Fail(key, msg() if callable(msg) else msg)
    def near(self, got, want, tol, key, msg=''):
        if not abs(got - want) <= tol * max(1.0, abs(want)):
            raise Fail(key, '%s: got %.17g, expected %.17g' % (msg, got, want))
    def raises(self, types, f, key, msg=''):
        try:
            r = f()
        except types:
            return
        raise Fail(key, '%s: no error (result %r)' % (msg, r))

class Dec:
    def __init__(self, v):
        self.v = v
    def __call__(self, n):
        r = self.v % n
        self.v //= n
        return r

class Explorer:
    def __init__(self, prop):
        self.prop, self.fams, self.nw, self.hang, self.budget = prop, [], 8, 150, 800
        self.thorough = os.environ.get('VERIF_TIER') == 'thorough'
    def family(self, name, bound, count, fn):
        self.fams.append((name, bound, count, fn))

def run_one(fn, idx):
    c = Case(idx)
    try:
        fn(c)
        return c, None
    except Fail as e:
        return c, (e.key, e.msg)
    except Exception as e:
        return c, ('exception', '%s: %s (%s)' % (type(e).__name__, e, traceback.format_exc().strip().splitlines()[-2].strip()))

def quiet():
    d = os.open('/dev/null', os.O_WRONLY)
    os.dup2(d, 1)

def run(E):
    out, d, only, case = 'result.json', '.', None, None
    a = sys.argv[1:]
    while a:
        k = a.pop(0)
        if k == '--out': out = a.pop(0)
        elif k == '--dir': d = a.pop(0)
        elif k == '--only': only = a.pop(0)
        elif k == '--case': case = a.pop(0)
    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    if case:
        n, i = case.rsplit(':', 1)
        for f in E.fams:
            if f[0] == n:
                c, bad = run_one(f[3], int(i))
                print('trace:', c.trace)
                print('FAIL key=%s %s' % bad if bad else 'PASS')
                return 1 if bad else 0
        print('no such family', n)
        return 2
    if only:
        E.fams = [f for f in E.fams if f[0] == only]
    t0 = time.time()
    mm = [mmap.mmap(-1, 64) for _ in range(E.nw)]       # fam, idx, executions, transitions, done
    r, w = os.pipe()
    os.set_blocking(r, False)
    def worker(k, f0, i0):
        quiet()
        ex, tr = struct.unpack_from('qq', mm[k], 16)
        st = set()
        for f in range(f0, len(E.fams)):
            i = i0 if f == f0 else k
            while i < E.fams[f][2]:
                struct.pack_into('qq', mm[k], 0, f, i)
                c, bad = run_one(E.fams[f][3], i)
                ex += 1; tr += c.trans
                struct.pack_into('qq', mm[k], 16, ex, tr)
                st.update(c.states)
                if bad:
                    os.write(w, (json.dumps([f, i, bad[0], bad[1][:1200], c.trace[:1200]]) + '\n').encode())
                i += E.nw
        with open('%s/states.%d.%d' % (d, k, os.getpid()), 'wb') as h:
            h.write(b''.join(st))
        struct.pack_into('q', mm[k], 32, 1)
        os._exit(0)
    pids, beat = {}, {}
    def spawn(k, f, i):
        sys.stdout.flush(); sys.stderr.flush()
        p = os.fork()
        if p == 0:
            try: worker(k, f, i)
            finally: os._exit(3)
        pids[k] = p; beat[k] = (None, time.time())
    for k in range(E.nw): spawn(k, 0, k)
    acc, fails, cnt, crashes, capped = b'', [], {}, 0, False
    def add(rec):
        kk = (rec['family'], rec['key']); cnt[kk] = cnt.get(kk, 0) + 1
        if cnt[kk] <= 20: fails.append(rec)
    def drain():
        nonlocal acc
        while True:
            try: b = os.read(r, 65536)
            except BlockingIOError: break
            acc += b
        while b'\n' in acc:
            l, acc = acc.split(b'\n', 1)
            f, i, key, msg, tr = json.loads(l)
            add(dict(family=E.fams[f][0], idx=i, key=key, msg=msg, trace=tr, crash=False))
    while pids:
        drain()
        for k in list(pids):
            p, st = os.waitpid(pids[k], os.WNOHANG)
            f, i, ex, tr, done = struct.unpack_from('qqqqq', mm[k], 0)
            if beat[k][0] != (f, i): beat[k] = ((f, i), time.time())
            hang = False
            if p == 0 and time.time() - beat[k][1] > E.hang:
                os.kill(pids[k], signal.SIGKILL); os.waitpid(pids[k], 0); hang = True
            if p == 0 and not hang: continue
            del pids[k]
            if not hang and os.WIFEXITED(st) and os.WEXITSTATUS(st) == 0 and done: continue
            add(dict(family=E.fams[f][0], idx=i, key='hang' if hang else 'signal%d' % os.WTERMSIG(st) if os.WIFSIGNALED(st) else 'exit%d' % os.WEXITSTATUS(st), msg='the process died while running this execution', trace='', crash=True))
            crashes += 1
            if crashes > 200: capped = True; continue
            i += E.nw
            while f < len(E.fams) and i >= E.fams[f][2]: f += 1; i = k
            if f < len(E.fams): spawn(k, f, i)
        if time.time() - t0 > E.budget:
            capped = True
            for k in list(pids): os.kill(pids[k], signal.SIGKILL); os.waitpid(pids[k], 0); del pids[k]
        time.sleep(0.005)
    drain()
    states = set()
    for fn in os.listdir(d):
        if fn.startswith('states.'):
            b = open(os.path.join(d, fn), 'rb').read(); os.unlink(os.path.join(d, fn))
            states.update(b[j:j + 8] for j in range(0, len(b), 8))
    samples = []
    for n, b, c, f in E.fams:
        if c:
            pr, pw = os.pipe(); p = os.fork()
            if p == 0:
                quiet(); cc, bad = run_one(f, c // 2); os.write(pw, ('%s:%d %s' % (n, c // 2, cc.trace[:600])).encode()); os._exit(0)
            os.close(pw); os.waitpid(p, 0); samples.append(os.read(pr, 8192).decode()); os.close(pr)
    fails.sort(key=lambda x: (x['family'], x['idx']))
    tot = [struct.unpack_from('qq', m, 16) for m in mm]
    json.dump(dict(property=E.prop, executions=sum(t[0] for t in tot), transitions=sum(t[1] for t in tot), states=len(states), wall=time.time() - t0, capped=capped,
                   families=[dict(name=n, bound=b, count=c) for n, b, c, f in E.fams], failures=fails, samples=samples), open(out, 'w'))
    return 0
