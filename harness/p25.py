"""P25: the Python interface (python/pysol.pyx) against the C interface fed with files"""
import ctypes, gc, os, re, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import pbt
from pbt import check, Target
import numpy as np
import pysol                                   # built from /repo/python/pysol.pyx
from scipy.sparse import csr_matrix            # stand-in, see pystub/

L = ctypes.CDLL(pysol.__file__)
P, I, S, F = ctypes.c_void_p, ctypes.c_int, ctypes.c_char_p, ctypes.c_float
PRED = ctypes.CFUNCTYPE(None, P, ctypes.c_double, ctypes.c_double, I, ctypes.POINTER(F))
PAR = ctypes.CFUNCTYPE(None, P, S, S)
ITER = ctypes.CFUNCTYPE(None, P, ctypes.c_longlong, ctypes.c_longlong, ctypes.c_longlong, ctypes.c_double)
for n, r, a in [('sol_CreateDataIter', P, [I, I]), ('sol_ReleaseDataIter', None, [P]), ('sol_LoadData', I, [P, S, S, I]),
                ('sol_CreateModel', P, [S, I]), ('sol_RestoreModel', P, [S]), ('sol_SaveModel', I, [P, S]),
                ('sol_ReleaseModel', None, [P]), ('sol_SetModelParameter', I, [P, S, S]),
                ('sol_GetModelParameters', None, [P, PAR, P]), ('sol_Train', F, [P, P]), ('sol_Test', F, [P, P, S]),
                ('sol_Predict', I, [P, P, PRED, P]), ('sol_model_sparsity', F, [P]), ('sol_InspectOnlineIteration', None, [P, ITER, P])]:
    f = getattr(L, n)
    f.restype, f.argtypes = r, a

ALGOS = ['perceptron', 'ogd', 'pa', 'pa1', 'pa2', 'alma2', 'rda', 'sop', 'cw', 'eccw', 'arow', 'ada-fobos', 'ada-rda',
         'stg', 'fobos-l1', 'rda-l1', 'erda-l1', 'ada-fobos-l1', 'ada-rda-l1', 'pet', 'fofs', 'sofs', 'adafobos-ofs', 'adarda-ofs']


class Ref(object):
    """one model driven through the C interface, data through svm files"""

    def __init__(self, m):
        self.m = m
        self.it = L.sol_CreateDataIter(7, 2)
        self.calls = []
        self.cb = ITER(lambda u, a, b, c, e: self.calls.append((a, b, c, e)))
        L.sol_InspectOnlineIteration(self.m, self.cb, None)

    def load(self, path, dtype, passes):
        assert L.sol_LoadData(self.it, path.encode(), dtype.encode(), passes) == 0

    def fit(self, path, passes):
        self.load(path, 'svm', passes)
        self.calls = []
        return 1 - float(L.sol_Train(self.m, self.it))

    def score(self, path):
        self.load(path, 'svm', 1)
        return 1 - float(L.sol_Test(self.m, self.it, None))

    def predict(self, path):
        self.load(path, 'svm', 1)
        out = []
        cb = PRED(lambda u, l, p, n, s: out.append((l, p, [s[i] for i in range(n)])))
        L.sol_Predict(self.m, self.it, cb, None)
        return out

    def params(self):
        d = {}
        cb = PAR(lambda u, k, v: d.__setitem__(k.decode(), v.decode()))
        L.sol_GetModelParameters(self.m, cb, None)
        return d

    def set(self, k, v):
        return L.sol_SetModelParameter(self.m, k.encode(), v.encode())

    def save(self, path):
        return L.sol_SaveModel(self.m, path.encode())

    def free(self):
        L.sol_ReleaseDataIter(ctypes.byref(ctypes.c_void_p(self.it)))
        L.sol_ReleaseModel(ctypes.byref(ctypes.c_void_p(self.m)))


def val(g):
    return [0.0, 1.0, -1.0, 0.5, 2.0, -0.25, 3.0, 0.125][g.below(8)] if g.chance(2, 3) else g.range(-1000, 1000) / 64.0


def gen_data(g, cls, big):
    """labels and a dense table; every value a float exactly"""
    # arrays of more than 1 KB are given back to the system when freed
    n = (g.range(1000, 2600) if g.chance(1, 8) else g.range(260, 420)) if big else g.range(1, 9)
    d = g.range(20, 40) if g.chance(1, 10) else g.range(1, 6)
    if big:  # a small pool of rows: cheap to draw
        rows = [[val(g) for _ in range(d)] for _ in range(4)]
        X = [list(rows[(i * 7 + i // 3) % 4]) for i in range(n)]
        y = [(i * 5 + i // 7) % cls for i in range(n)]
    else:
        X = [[val(g) for _ in range(d)] for _ in range(n)]
        y = [g.below(cls) for _ in range(n)]
    if cls == 2:
        y = [1 if v else (-1 if (i + len(X)) % 3 else 0) for i, v in enumerate(y)]
    return X, y


def write_svm(path, X, y, spread=1):
    with open(path, 'w') as f:
        for r, l in zip(X, y):
            f.write('%d' % l + ''.join(' %d:%.9g' % (j * spread + 1, v) for j, v in enumerate(r) if v != 0) + '\n')


def write_csv(path, X, y):
    with open(path, 'w') as f:
        f.write('class' + ''.join(',%d' % (j + 1) for j in range(len(X[0]))) + '\n')
        for r, l in zip(X, y):
            f.write('%d' % l + ''.join(',%.9g' % v for v in r) + '\n')


FORMS = ['c', 'svm', 'f', 'rows', 'cols', 'table', 'reversed', 'csr', 'csr64', 'csr-part', 'csv', 'bin', 'csr-unsorted', 'sub']


def deliver(g, c, X, y, with_labels, k, form, spread):
    """the data set in one of the shapes the interface takes: (param1, param2)"""
    c.label('data as ' + form)
    n, d = len(X), len(X[0])
    A = np.array(X, dtype=np.float64).reshape(n, d)
    b = np.array(y, dtype=np.float64)
    if form in ('svm', 'csv', 'bin'):
        p = c.path('d%d.%s' % (k, form))
        if form == 'svm':
            write_svm(p, X, y, spread)
        elif form == 'csv':
            write_csv(p, X, y)
        else:
            write_svm(p + '.svm', X, y, spread)
            check(pysol.convert_data(p + '.svm', 'svm', p, 'bin') == 0, 'convert', 'convert_data failed')
        return (p, form)
    if form == 'f':
        A = np.asfortranarray(A)
    elif form == 'rows':  # every second row of a larger table
        B = np.full((2 * n, d), 99.0)
        B[::2] = A
        A = B[::2]
    elif form == 'cols':  # every second column
        B = np.full((n, 2 * d), 77.0)
        B[:, ::2] = A
        A = B[:, ::2]
    elif form == 'table':  # labels and values in one table, as loaded from a file
        T = np.hstack([b.reshape(n, 1), A])
        b, A = T[:, 0], T[:, 1:]
    elif form == 'sub':
        B = np.full((n, d + 3), -55.0)
        B[:, 1:1 + d] = A
        A = B[:, 1:1 + d]
        bb = np.full((3, n), 44.0)
        bb[1] = b
        b = bb[1]
    elif form == 'reversed':
        A, b = A[::-1].copy()[::-1], b[::-1].copy()[::-1]
    elif form.startswith('csr'):
        data, ind, ptr = [], [], [0]
        for r in X:
            e = [(j * spread, v) for j, v in enumerate(r) if v != 0]
            if form == 'csr-unsorted':
                e = e[::-1]
            ind += [j for j, v in e]
            data += [v for j, v in e]
            ptr.append(len(ind))
        if form == 'csr-part':  # arrays longer than what is used
            ind, data = ind + [0, 1], data + [9.0, 8.0]
        t = np.int64 if form == 'csr64' else np.int32
        A = csr_matrix((np.array(data, dtype=np.float64), np.array(ind, dtype=t), np.array(ptr, dtype=t)), shape=(n, d * spread))
    return (A, b if with_labels else None)


def same(a, b):
    return a == b or (a != a and b != b)


def close_list(got, want):
    got = [float(x) for x in got]
    return len(got) == len(want) and all(same(x, y) for x, y in zip(got, want))


def gen_params(g, algo, cls):
    p = {}

    def num(*few):
        """a plain value, or one with more digits than are printed by default"""
        return g.pick(list(few)) if g.chance(2, 3) else (0.1234567891 + g.below(1000) / 999983.0) * g.pick([1, 1e-4, 3])
    if g.chance(1, 3):
        p['bias_eta'] = num(0.5, 1, 0)
    if g.chance(1, 8):
        p[g.pick(['step_show', 'exp_show'])] = g.range(2, 5)
    if g.chance(1, 8):
        p['loss'] = g.pick(['hinge', 'logistic', 'square', 'bool'] if cls == 2 else ['maxscore-hinge', 'uniform-hinge', 'maxscore-logistic', 'uniform-logistic', 'maxscore-bool'])
    if g.chance(1, 8):
        p['cost_margin'] = num(2, 0.5)
    if g.chance(1, 4):
        p['norm'] = g.pick(['L1', 'L2', 'None'])
    if g.chance(1, 4):
        p['t'] = g.pick([1, 5])
    if algo in ('pa1', 'pa2') and g.chance(1, 2):
        p['C'] = num(0.5, 2, 1)
    if algo in ('ogd', 'stg', 'fobos-l1') and g.chance(1, 2):
        p['eta'] = num(0.5, 0.125, 2.0)
    if algo in ('arow', 'sofs') and g.chance(1, 2):
        p['r'] = num(0.5, 2, 1)
    if algo.endswith('-l1') and g.chance(1, 2):
        p['lambda'] = num(0.125, 0.015625)
    if algo in ('fofs', 'sofs', 'pet', 'adafobos-ofs', 'adarda-ofs'):
        p['B'] = g.pick([1, 2, 3])
    if g.chance(1, 8):
        p['lazy_update'] = 'true'
    return p


class Counter(object):
    """a progress handler that nobody else refers to"""

    def __init__(self, to):
        self.to = to

    def __call__(self, *a):
        self.to.append(a)


def text(b):
    return b.decode() if isinstance(b, bytes) else b


def api_body(g, c):
    algo, cls = g.pick(ALGOS), g.range(5, 12) if g.chance(1, 8) else g.pick([2, 2, 3, 4])
    params = gen_params(g, algo, cls)
    c.desc('%s classes=%d %r' % (algo, cls, params))
    ref = Ref(L.sol_CreateModel(algo.encode(), cls))
    refused = [k for k, v in params.items() if ref.set(k, str(v)) != 0]
    if refused:
        try:
            pysol.SOL(algo=algo, class_num=cls, **params)
            check(False, 'refuse', 'created with the refused setting %s' % refused)
        except RuntimeError:
            pass
        for k in refused:
            del params[k]
    name = ''.join(list(algo))  # a string of its own, freed below
    m = pysol.SOL(algo=name, class_num=cls, batch_size=g.pick([256, 1, 3]), buf_size=g.pick([2, 1]), **params)
    del name
    # a second object, to be left alone
    other = pysol.SOL(algo='pa', class_num=2)
    calls, handler = [], False
    trained = 0
    nops = g.range(1, 7)
    for k in range(nops):
        op = g.pick(['fit', 'fit', 'score', 'decision', 'predict', 'params', 'save', 'handler', 'set', 'load', 'bad', 'fresh'])
        if op in ('fit', 'score', 'decision', 'predict'):
            X, y = gen_data(g, cls, g.chance(1, 12))
            labels = op in ('fit', 'score') or g.chance(1, 2)
            p = c.path('r%d.svm' % k)
            form, spread = g.pick(FORMS), 1
            if g.chance(1, 12) and (form.startswith('csr') or form in ('svm', 'bin')):  # columns far apart
                spread = g.range(2, 400000 // (cls * len(X[0])))
                c.label('columns far apart')
            arg = deliver(g, c, X, y, labels, k, form, spread)
            given = labels or form in ('svm', 'csv', 'bin')
            write_svm(p, X, y if given else [0] * len(y), spread)
            c.desc('%s %s (columns %d apart) %d rows %s' % (op, form, spread, len(X), str(list(zip(y, X)))[:400]))
        if op == 'fit':
            passes = g.range(4, 12) if g.chance(1, 12) else g.pick([1, 2, 3])
            del calls[:]
            got, want = m.fit(arg[0], arg[1], passes), ref.fit(p, passes)
            trained += len(X)
            check(same(got, want), 'fit', 'fit returned %r instead of %r' % (got, want))
            if handler:
                check(calls == ref.calls, 'handler', lambda: 'progress %r instead of %r' % (calls, ref.calls))
                if calls:
                    c.label('progress handler called')
            else:
                check(calls == [], 'handler', lambda: 'progress reported without a handler: %r' % calls)
        elif op == 'score':
            got, want = m.score(arg[0], arg[1]), ref.score(p)
            check(same(got, want), 'score', 'score returned %r instead of %r' % (got, want))
        elif op in ('decision', 'predict'):
            want = ref.predict(p)
            gl = g.chance(1, 2)
            f = m.decision_function if op == 'decision' else m.predict
            args = arg if given or g.chance(1, 2) else arg[:1]
            got = f(*args, get_labels=True) if gl else f(*args)
            got = list(got) if gl else [got]
            if op == 'decision':
                s = np.asarray(got.pop(0))
                nclf = len(want[0][2])
                check(s.shape == ((len(want),) if nclf == 1 else (len(want), nclf)), 'scores', 'scores of shape %s for %d examples' % (s.shape, len(want)))
                check(all(close_list(s[i:i + 1] if nclf == 1 else s[i], w[2]) for i, w in enumerate(want)), 'scores', lambda: 'scores %r instead of %r' % (s.tolist(), [w[2] for w in want]))
                if gl:
                    check(close_list(got.pop(0), [w[1] for w in want]), 'predictions', 'predicted labels differ')
            else:
                check(close_list(got[0], [w[1] for w in want]), 'predictions', lambda: 'predicted %r instead of %r' % (got[0].tolist(), [w[1] for w in want]))
                got.pop(0)
            if gl:
                check(len(got) == 1 and close_list(got[0], [w[0] for w in want]), 'labels', lambda: 'labels %r instead of %r' % (got[0].tolist(), [w[0] for w in want]))
        elif op == 'params':
            got, want = m.get_params(), ref.params()
            check(got == want, 'params', lambda: 'parameters %r instead of %r' % (got, want))
        elif op == 'handler':
            handler = not g.chance(1, 4)
            m.inspect_learning(Counter(calls) if handler else None)
            c.desc('handler %s' % handler)
        elif op == 'set':
            q = gen_params(g, algo, cls)
            q.pop('norm', None)
            if algo in ('fofs', 'sofs', 'pet', 'adafobos-ofs', 'adarda-ofs'):
                q = {}
            c.desc('set %r' % q)
            try:
                m.set_params(**q)
                done = len(q)
            except RuntimeError:
                done = -1
            for i, (a, b) in enumerate(q.items()):  # up to the first that is refused
                if ref.set(a, str(b)) != 0:
                    check(done < 0, 'refuse', 'set_params accepted %s=%s' % (a, b))
                    break
            else:
                check(done >= 0, 'refuse', 'set_params refused %r' % q)
        elif op == 'bad':
            q = g.pick([{'no_such_thing': 1}, {'bias_eta': 'x'}, {'bias_eta': -1}, {'loss': 'nothing'}, {'norm': 'L7'}])
            c.desc('bad %r' % q)
            try:
                m.set_params(**q)
                check(ref.set(*[(a, str(b)) for a, b in q.items()][0]) == 0, 'refuse', 'set_params accepted %r' % q)
            except RuntimeError:
                check(ref.set(*[(a, str(b)) for a, b in q.items()][0]) != 0, 'refuse', 'set_params refused %r' % q)
            if g.chance(1, 2):
                bad = c.path('nowhere/at/all')
                ref.save(bad)  # even a failing attempt to save finishes training
                for call in (lambda: m.fit(bad, 'svm'), lambda: m.score(bad, 'svm'), lambda: m.save(bad), lambda: m.fit([1, 2], [1]),
                             lambda: m.fit(np.zeros((2, 2), dtype=np.float32), np.zeros(2)), lambda: m.fit(np.zeros((2, 2)), np.zeros(2, dtype=np.int32)),
                             lambda: m.fit(np.zeros((3, 2)), np.zeros(2)), lambda: m.fit(np.zeros(2), np.zeros(2)), lambda: m.fit(np.zeros((2, 2)), np.zeros((2, 2)))):
                    try:
                        call()
                    except Exception:
                        continue
                    check(False, 'refuse', 'a call that cannot succeed raised nothing')
        elif op == 'save':
            a, b = c.path('m%d' % k), c.path('n%d' % k)
            if g.chance(1, 4):
                open(a, 'w').write('junk\n' * g.range(1, 900))
            m.save(a)
            ref.save(b)
            x, w = open(a).read(), open(b).read()
            check(x == w, 'save', lambda: 'saved\n%s\ninstead of\n%s' % (x, w))
        elif op in ('load', 'fresh'):
            a = c.path('l%d' % k)
            check(ref.save(a) == 0, 'harness', 'cannot save')
            if re.search(r'\b(nan|inf)\b', open(a).read()):  # the algorithm diverged: such weights have no loadable text form
                raise pbt.Discard()
            if op == 'load':
                check(m.load(a) is m, 'load', 'load does not return the object')
                handler = False
            else:
                m2 = pysol.SOL()
                check(m2.load(c.path('missing')) is None, 'load', 'loading a missing file gave a model')
                check(m2.load(a) is m2, 'load', 'load does not return the object')
                check(text(m2.name) == algo and m2.n_classes == cls, 'load', 'loaded as %r with %r classes' % (m2.name, m2.n_classes))
                m, handler = m2, False
            ref2 = Ref(L.sol_RestoreModel(a.encode()))
            ref.free()
            ref = ref2
        junk = ['%s-%d' % (algo[::-1], i) for i in range(20)]  # reuse freed memory
        check(text(m.name) == algo and m.n_classes == cls, 'name', lambda: 'name %r, classes %r' % (m.name, m.n_classes))
        del junk
    sp = float(L.sol_model_sparsity(ref.m))
    check(same(float(m.sparsity), sp), 'sparsity', 'sparsity %r instead of %r' % (m.sparsity, sp))
    p = other.get_params()
    check(p['model'] == 'pa' and p['dim'] == '1' and p['t'] == '0', 'other', 'another object changed: %r' % p)
    ref.free()
    c.nontrivial = trained >= 2 and nops >= 2


def api_case(g, c):
    live = (L.vf_live_models(), L.vf_live_iters())
    api_body(g, c)
    gc.collect()
    now = (L.vf_live_models(), L.vf_live_iters())
    check(now == live, 'leak', 'the module still holds %d models and %d data iterators of dead objects' % (now[0] - live[0], now[1] - live[1]))


def empty_case(g, c):
    """objects without a model: every use raises an exception, none crashes; a load makes them usable"""
    kind = g.below(4)
    X = np.zeros((2, 2))
    y = np.zeros(2)
    bad = c.path('bad.model')
    with open(bad, 'w') as f:
        f.write(g.pick(['', 'junk', '[', '{"model": "pa"}\n']))
    if kind == 0:
        m = pysol.SOL()
    elif kind == 1:
        m = pysol.SOL(batch_size=g.range(1, 4), buf_size=g.range(1, 3))
    elif kind == 2:
        m = pysol.SOL('pa', 2)
        check(m.load(bad) is None, 'load', 'a broken model file was loaded')
    else:
        m = pysol.SOL(g.pick(['nothing', 'PA3', 'hinge']), g.pick([2, 3]))
    ops = []
    for _ in range(g.range(1, 5)):
        op = g.below(9)
        ops.append(op)
        try:
            r = [lambda: m.fit(X, y), lambda: m.score(X, y), lambda: m.predict(X), lambda: m.decision_function(X, y), lambda: m.save(c.path('x')),
                 lambda: m.get_params(), lambda: m.set_params(C=1), lambda: m.sparsity, lambda: m.inspect_learning(None)][op]()
        except Exception:
            continue
        check(op >= 7, 'empty', lambda: 'operation %d on an object without a model gave %r' % (op, r))
        check(op != 7 or r == 0, 'empty', lambda: 'sparsity %r without a model' % r)
    c.desc('kind %d operations %r' % (kind, ops))
    good = pysol.SOL('pa', 3)
    good.save(c.path('good'))
    check(m.load(c.path('good')) is m and m.n_classes == 3 and text(m.name) == 'pa', 'load', 'the object cannot load a model')
    m.fit(np.array([[1.0, 2.0], [0.0, 1.0]]), np.array([0.0, 2.0]))
    check(list(m.predict(np.array([[1.0, 2.0], [0.0, 1.0]]))) == list(m.predict(np.array([[1.0, 2.0], [0.0, 1.0]]))), 'load', 'predictions differ')
    c.nontrivial = len(ops) > 1


LIBC = ctypes.CDLL(None)


def printed(path, f):
    """what f and the library under it print"""
    sys.stdout.flush()
    LIBC.fflush(None)
    keep = os.dup(1)
    fd = os.open(path, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o600)
    try:
        os.dup2(fd, 1)
        f()
        sys.stdout.flush()
        LIBC.fflush(None)
    finally:
        os.dup2(keep, 1)
        os.close(keep)
        os.close(fd)
    return open(path).read()


def verbose_case(g, c):
    """an object prints the progress of its training exactly when it was created to do so"""
    algo, cls = g.pick(ALGOS), g.pick([2, 3])
    v = g.pick([False, True, None])
    params = {g.pick(['step_show', 'exp_show']): g.range(2, 4)} if g.chance(1, 2) else {}
    init = {} if v is None else {'verbose': v}
    if g.chance(1, 3):  # from a model file
        pysol.SOL(algo, cls, **params).save(c.path('start'))
        m = pysol.SOL(**init)
        m.load(c.path('start'))
        ref = Ref(L.sol_RestoreModel(c.path('start').encode()))
        start = 'loaded'
    else:
        m = pysol.SOL(algo, cls, **dict(init, **params))
        ref = Ref(L.sol_CreateModel(algo.encode(), cls))
        for k in params:
            ref.set(k, str(params[k]))
        start = 'created'
    handler = None
    rounds, shown = g.range(1, 3), 0
    c.desc('%s %s classes=%d verbose=%r %r' % (start, algo, cls, v, params))
    for k in range(rounds):
        X, y = gen_data(g, cls, False)
        p = c.path('v%d.svm' % k)
        write_svm(p, X, y)
        op = g.below(6)
        if op == 0:
            a = c.path('vm%d' % k)
            m.save(a)
            m.load(a)
            r2 = Ref(L.sol_RestoreModel(a.encode()))
            ref.free()
            ref, handler = r2, None
        elif op == 1:
            handler = []
            m.inspect_learning(Counter(handler))
        elif op == 2:
            handler = []
            m.inspect_learning(None)
        if handler is not None:
            del handler[:]
        c.desc('%s, fit %d rows' % (['save and load', 'handler', 'no handler', '-', '-', '-'][op], len(X)))
        passes = g.pick([1, 2])
        out = printed(c.path('out'), lambda: m.fit(p, 'svm', passes))
        ref.fit(p, passes)
        rows = []
        for line in out.split('\n'):
            f = line.split()
            try:
                rows.append((int(f[0]), int(f[1]), f[2], int(f[3])))
            except (IndexError, ValueError):
                pass
        want = [] if handler is not None or not v else [(a, b, '%.6f' % e, u) for a, b, u, e in ref.calls]
        check(rows == want, 'verbose', lambda: 'printed %r, expected %r' % (out, want))
        shown += len(want)
    for f, what in ((lambda: m.predict(p, 'svm'), 'predict'), (lambda: m.score(p, 'svm'), 'score')):
        out = printed(c.path('out'), f)
        check(not [l for l in out.split('\n') if len(l.split()) == 4 and l.split()[0].isdigit()], 'verbose', lambda: '%s printed %r' % (what, out))
    ref.free()
    c.label('rows printed' if shown else 'nothing printed')
    c.nontrivial = bool(v) == (shown > 0)


def data_case(g, c):
    """the dataset functions of the module against direct reading"""
    cls = g.pick([2, 3])
    X, y = gen_data(g, cls, g.chance(1, 10))
    X = [[float('%g' % v) for v in r] for r in X]  # what the text formats carry
    a = c.path('a.svm')
    write_svm(a, X, y)
    rows = [l for l in open(a).read().split('\n') if l]
    c.desc(str(rows)[:600])
    k = g.range(1, 4)
    sh = g.chance(1, 2)
    check(pysol.split_data(a, 'svm', k, c.path('s.'), 'svm', sh) == 0, 'split', 'split_data failed')
    parts = [[l for l in open(c.path('s.%d.svm' % i)).read().split('\n') if l] for i in range(k)]
    flat = [l for p in parts for l in p]
    per = -(-len(rows) // k)
    check(sorted(flat) == sorted(rows) if sh else flat == rows, 'split', lambda: 'parts %r' % parts)
    check([len(p) for p in parts] == [max(0, min(per, len(rows) - i * per)) for i in range(k)], 'split', lambda: 'part sizes %r' % [len(p) for p in parts])
    check(pysol.shuffle_data(a, 'svm', c.path('h.svm'), 'svm') == 0, 'shuffle', 'shuffle_data failed')
    check(sorted(l for l in open(c.path('h.svm')).read().split('\n') if l) == sorted(rows), 'shuffle', 'not a permutation')
    check(pysol.convert_data(a, 'svm', c.path('b.bin'), 'bin') == 0 and pysol.convert_data(c.path('b.bin'), 'bin', c.path('c.svm'), 'svm') == 0, 'convert', 'convert_data failed')
    check([l for l in open(c.path('c.svm')).read().split('\n') if l] == rows, 'convert', 'converting to bin and back differs')
    t = g.pick([0.0, 0.5, -1.0])
    check(pysol.convert_data(a, 'svm', c.path('d.svm'), 'svm', 1, t) == 0, 'binarize', 'convert_data failed')
    B = [[(0 if v == 0 else (1 if v > t else -1)) for v in r] for r in X]
    write_svm(c.path('e.svm'), B, y)
    check(open(c.path('d.svm')).read().split() == open(c.path('e.svm')).read().split(), 'binarize', 'binarised data differ')
    check(pysol.analyze_data(a, 'svm', c.path('i.txt')) == 0, 'analyze', 'analyze_data failed')
    info = dict((l.split(':')[0].strip(), l.split(':')[1].strip()) for l in open(c.path('i.txt')) if l.count(':') == 1)
    dim = max([j + 1 for r in X for j, v in enumerate(r) if v != 0] or [0])
    check(info.get('data number') == str(len(rows)) and info.get('dimension') == str(dim) and info.get('class num') == str(len(set(y))), 'analyze', lambda: 'analysis %r' % info)
    for f in (lambda: pysol.analyze_data(c.path('missing'), 'svm', c.path('j')), lambda: pysol.convert_data(c.path('missing'), 'svm', c.path('j'), 'bin'),
              lambda: pysol.convert_data(a, 'nope', c.path('j'), 'bin'), lambda: pysol.shuffle_data(c.path('missing'), 'svm', c.path('j'), 'svm'),
              lambda: pysol.split_data(c.path('missing'), 'svm', 2, c.path('j'), 'svm', False)):
        check(f() != 0, 'status', 'a failing call reported success')
    c.nontrivial = len(rows) >= 2


if __name__ == '__main__':
    sys.exit(pbt.main([
        Target('python-model', 'learner x parameters x history of fit/score/predict/set/save/load calls on files, arrays of any layout and CSR matrices, compared with the C interface fed with svm files; non-trivial: two calls and two examples trained', 9000, 200000, api_case, 30),
        Target('python-empty', 'objects without a model and a few uses of them, then a load; non-trivial: two uses', 600, 8000, empty_case, 30),
        Target('python-verbose', 'learner x verbose or not x created or loaded x 1-3 fits with reloads and handlers in between, the printed progress against the reports of the C interface; non-trivial: printed rows if asked for', 1500, 20000, verbose_case, 30),
        Target('python-data', 'one data set through split, shuffle, convert, binarise and analyse; non-trivial: at least 2 examples', 2500, 50000, data_case, 30),
    ]))
