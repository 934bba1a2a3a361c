"""The generated-case engine for the Python parts, the same scheme as pbt.cc: a case is
a list of integer choices; failures (exceptions, crashes, hangs) are reproduced in a
forked child, shrunk on the choice list and written as a replay file."""
import hashlib, json, os, random, select, shutil, signal, struct, sys, tempfile, time, traceback


class Fail(Exception):
    def __init__(self, key, msg):
        Exception.__init__(self, msg)
        self.key, self.msg = key, msg


class Discard(Exception):
    pass


def check(cond, key, msg):
    if not cond:
        raise Fail(key, msg() if callable(msg) else msg)


class Gen(object):
    def __init__(self, rng=None, choices=None, log=None):
        self.rng, self.given, self.log = rng, choices, log
        self.choices = []

    def below(self, n):
        """0 <= result < n; 0 is the simplest choice"""
        if n <= 1:
            return 0
        if self.given is not None:
            i = len(self.choices)
            v = self.given[i] % n if i < len(self.given) else 0
        else:
            v = self.rng.randrange(n)
        self.choices.append(v)
        if self.log is not None:
            os.write(self.log, struct.pack('<q', v))
        return v

    def range(self, a, b):
        return a + self.below(b - a + 1)

    def chance(self, k, n):
        # the improbable answer is the larger choice
        return self.below(n) >= n - k

    def pick(self, xs):
        return xs[self.below(len(xs))]

    def sized(self, a, b):
        """small values preferred"""
        return a + min(self.below(b - a + 1), self.below(b - a + 1))


class Ctx(object):
    def __init__(self, d):
        self.dir = d
        self.text = []
        self.labels = set()
        self.nontrivial = False

    def desc(self, s):
        self.text.append(s)

    def label(self, s):
        self.labels.add(s)

    def path(self, name):
        return os.path.join(self.dir, name)


class Target(object):
    def __init__(self, name, rule, quick, thorough, fn, limit=30):
        self.name, self.rule, self.quick, self.thorough, self.fn, self.limit = name, rule, quick, thorough, fn, limit


def one(t, gen, d):
    """(status, key, message, ctx)"""
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    c = Ctx(d)
    os.chdir(d)
    try:
        if gen.chance(1, 24):  # in a directory of an unusual name
            c.dir = os.path.join(d, 'L' * 240 if gen.chance(1, 2) else 'o%s%d,+@#~.d')
            os.makedirs(c.dir)
        t.fn(gen, c)
        return 'ok', '', '', c
    except Discard:
        return 'discard', '', '', c
    except Fail as e:
        return 'fail', e.key, e.msg, c
    except Exception as e:
        tb = traceback.format_exc()
        return 'fail', 'exception', tb[-1500:], c


def forked(t, choices, scratch, rng=None):
    """run one case in a child: (status, key, message, description, choices)"""
    r, w = os.pipe()
    lr, lw = os.pipe()
    sys.stdout.flush()
    pid = os.fork()
    if pid == 0:
        os.close(r)
        os.close(lr)
        os.setpgid(0, 0)
        try:
            g = Gen(rng, choices, lw)
            s, k, m, c = one(t, g, os.path.join(scratch, 'one'))
            out = json.dumps([s, k, m, '\n'.join(c.text)]).encode()
            os.write(w, out)
        finally:
            os._exit(0)
    os.close(w)
    os.close(lw)
    end = time.time() + t.limit
    buf, log, hung = b'', b'', False
    fds = [r, lr]
    while fds:
        left = end - time.time()
        rd = select.select(fds, [], [], max(0, left))[0]
        if not rd:
            hung = True
            kill_group(pid)
            break
        for f in rd:
            x = os.read(f, 65536)
            if not x:
                fds.remove(f)
            elif f == r:
                buf += x
            else:
                log += x
    os.close(r)
    os.close(lr)
    kill_group(pid) if hung else None
    st = os.waitpid(pid, 0)[1]
    ch = [struct.unpack_from('<q', log, i)[0] for i in range(0, len(log) - 7, 8)]
    if hung:
        return 'fail', 'hang', 'the case did not finish within %d s' % t.limit, '', ch
    try:
        s, k, m, d = json.loads(buf.decode())
        return s, k, m, d, ch
    except ValueError:
        return 'fail', 'crash', 'the process ended with status %d' % st, '', ch


def kill_group(pid):
    for f in (os.killpg, os.kill):
        try:
            f(pid, signal.SIGKILL)
        except OSError:
            pass


def seed_of(seed, t, i):
    return int(hashlib.sha256(('%d/%s/%d' % (seed, t.name, i)).encode()).hexdigest()[:15], 16)


def shrink(t, choices, key, scratch, budget):
    end = time.time() + budget
    best = list(choices)

    def bad(c):
        s, k = forked(t, c, scratch)[:2]
        return s == 'fail' and k == key
    changed = True
    while changed and time.time() < end:
        changed = False
        n = len(best)
        size = max(1, n // 2)
        while size >= 1 and time.time() < end:
            i = 0
            while i < len(best) and time.time() < end:
                c = best[:i] + best[i + size:]
                if bad(c):
                    best, changed = c, True
                else:
                    i += size
            size //= 2
        i = 0
        while i < len(best) and time.time() < end:
            for v in (0, best[i] // 2, best[i] - 1):
                if 0 <= v < best[i]:
                    c = best[:i] + [v] + best[i + 1:]
                    if bad(c):
                        best, changed = c, True
                        break
            i += 1
    return best


def worker(t, seed, start, step, n, d, out):
    """runs cases start, start+step, ...; a line of JSON per event"""
    f = os.fdopen(out, 'w')
    evals = disc = nt = 0
    labels, samples, seen = {}, [], set()
    i = start
    while i < n:
        f.write(json.dumps(['case', i]) + '\n')
        f.flush()
        g = Gen(random.Random(seed_of(seed, t, i)))
        s, k, m, c = one(t, g, os.path.join(d, 'w%d' % start))
        evals += 1
        if s == 'discard':
            disc += 1
        elif s == 'fail':
            f.write(json.dumps(['fail', i, k, m]) + '\n')
            break
        else:
            for x in c.labels:
                labels[x] = labels.get(x, 0) + 1
            if c.nontrivial:
                nt += 1
                seen.add(hashlib.sha1(repr(g.choices).encode()).hexdigest()[:16])
                if len(samples) < 2:
                    samples.append('\n'.join(c.text)[:1500])
        i += step
    f.write(json.dumps(['done', evals, disc, nt, sorted(seen), labels, samples]) + '\n')
    f.flush()


def run_target(t, n, seed, workers, scratch):
    t0 = time.time()
    seen = set()
    starts = list(range(workers))
    res = dict(name=t.name, rule=t.rule, evaluations=0, discarded=0, nontrivial=0, distinct_nontrivial=0, labels={},
               samples=[], stopped_early=False, known_failures=0, unreproduced=[], wall_s=0)
    while True:
        procs = {}
        for k in range(workers):
            r, w = os.pipe()
            pid = os.fork()
            if pid == 0:
                os.close(r)
                os.setpgid(0, 0)
                try:
                    worker(t, seed, starts[k], workers, n, scratch, w)
                finally:
                    os._exit(0)
            os.close(w)
            procs[r] = [pid, b'', None, time.time(), False, k]
        fails, cut = [], set()
        while procs:
            rd = select.select(list(procs), [], [], 1)[0]
            for r in rd:
                p = procs[r]
                x = os.read(r, 1 << 16)
                if x:
                    p[1] += x
                    while b'\n' in p[1]:
                        l, p[1] = p[1].split(b'\n', 1)
                        e = json.loads(l.decode())
                        if e[0] == 'case':
                            p[2], p[3] = e[1], time.time()
                            starts[p[5]] = e[1]  # to go on from
                        elif e[0] == 'fail':
                            fails.append(e[1])
                        else:
                            p[4] = True
                            if not fails:
                                starts[p[5]] = n
                            res['evaluations'] += e[1]
                            res['discarded'] += e[2]
                            res['nontrivial'] += e[3]
                            seen.update(e[4])
                            for a, b in e[5].items():
                                res['labels'][a] = res['labels'].get(a, 0) + b
                            res['samples'] += e[6]
                else:
                    os.close(r)
                    os.waitpid(p[0], 0)
                    if not p[4] and p[2] is not None and p[0] not in cut:
                        fails.append(p[2])  # died in the middle of a case
                    del procs[r]
            for r, p in list(procs.items()):
                if time.time() - p[3] > t.limit * 2:
                    try:
                        os.killpg(p[0], signal.SIGKILL)
                    except OSError:
                        pass
            if fails:  # one failure is enough
                for r, p in list(procs.items()):
                    cut.add(p[0])
                    try:
                        os.killpg(p[0], signal.SIGKILL)
                    except OSError:
                        pass
                res['stopped_early'] = True
        res['distinct_nontrivial'] = len(seen)
        res['samples'] = res['samples'][:6]
        v = None
        for i in sorted(fails):
            for _ in range(3):
                s, k, m, d, ch = forked(t, None, scratch, random.Random(seed_of(seed, t, i)))
                if s == 'fail' and forked(t, ch, scratch)[0] == 'fail':
                    v = (k, ch)
                    break
            if v:
                break
            res['unreproduced'].append('case %d: %s %s' % (i, k, m[:300]))
        if fails and not v and len(res['unreproduced']) < 8:  # go on behind the cases that failed once
            starts = [x + workers if x in fails else x for x in starts]
            continue
        break
    res['wall_s'] = round(time.time() - t0, 2)
    return res, v


def main(targets):
    a = sys.argv[1:]
    opt = {}
    pos = []
    i = 0
    while i < len(a):
        if a[i].startswith('--'):
            opt[a[i][2:]] = a[i + 1]
            i += 2
        else:
            pos.append(a[i])
            i += 1
    scratch = tempfile.mkdtemp(prefix='vpy.')
    try:
        if pos[0] == 'replay':
            head = {}
            for l in open(pos[1]):
                if ': ' in l:
                    k, v = l.rstrip('\n').split(': ', 1)
                    head.setdefault(k, v)
            t = [x for x in targets if x.name == head['target']][0]
            s, k, m, d, ch = forked(t, [int(x) for x in head['choices'].split()], scratch)
            print('%s\n%s %s\n%s' % (d, s, k, m))
            return 1 if s == 'fail' else 0
        seed, tier, out = int(opt['seed']), opt['tier'], opt['out']
        done, viol = [], None
        for t in targets:
            if 'target' in opt and opt['target'] != t.name:
                continue
            n = int((t.quick if tier == 'quick' else t.thorough) * float(opt.get('scale', '1')))
            res, v = run_target(t, max(1, n), seed, int(opt['workers']), scratch)
            done.append(res)
            if v:
                key, ch = v
                best = shrink(t, ch, key, scratch, 40)
                s, k, m, d, _ = forked(t, best, scratch)
                if s != 'fail':
                    best = ch
                    s, k, m, d, _ = forked(t, best, scratch)
                if not d:  # crashed: describe without running? keep the choices only
                    d = '(choices %s)' % best
                rp = os.path.join(out, 'replay-%s.txt' % t.name)
                with open(rp, 'w') as f:
                    f.write('target: %s\nchoices: %s\nkey: %s\ncase:\n%s\nfailure:\n%s\n' % (t.name, ' '.join(map(str, best)), k, d, m))
                viol = dict(target=t.name, key=k, message=m[:1500], case=d[:1500], replay=rp)
                break
        with open(os.path.join(out, 'result.json'), 'w') as f:
            json.dump(dict(targets=done, violation=viol), f)
        return 1 if viol else 0
    finally:
        os.chdir('/')
        shutil.rmtree(scratch, ignore_errors=True)
