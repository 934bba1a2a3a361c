"""P26: cross validation, data set preparation and the training script (python/*.py),
with a stand-in for the pysol module that records what it is asked to do"""
import hashlib, logging, os, sys, types
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import pbt, py2run
from pbt import check, Target
import numpy as np

REPO = os.environ.get('VERIF_REPO', '/repo')
logging.disable(logging.CRITICAL)


def read(p):
    with open(p) as f:
        return f.read().split('\n')[:-1]


def write(p, lines):
    with open(p, 'w') as f:
        f.write(''.join(l + '\n' for l in lines))


def accuracy(*what):
    """a made-up accuracy, the same for the same question; few values, so that there are ties"""
    return (int(hashlib.sha256(repr(what).encode()).hexdigest()[:8], 16) % 16) / 16.0


class SOL(object):
    """stand-in model: accuracies are a function of all that was asked for"""
    made = []
    classes = 2

    def __init__(self, algo=None, class_num=-1, batch_size=256, buf_size=2, verbose=False, **params):
        self.algo, self.class_num, self.extra = algo, class_num, (batch_size, buf_size, verbose)
        self.seen, self.saved, self.loaded, self.scored = [], [], None, []
        self.params = {}
        self.set_params(**params)
        SOL.made.append(self)

    def set_params(self, **params):
        for k, v in params.items():
            if v == 'bad':
                raise RuntimeError('set parameter %s=%s failed' % (k, v))
            self.params[k] = str(v)

    def state(self):
        return [self.algo, self.class_num, sorted(self.params.items()), self.seen]

    def fit(self, path, dtype, pass_num=1):
        d = read(path)
        assert d[:1] == [dtype], 'a %s file read as %s' % (d[:1], dtype)
        for _ in range(pass_num):
            self.seen.append(tuple(d[1:]))
        return accuracy('train', self.state())

    def score(self, path, dtype):
        d = read(path)
        assert d[:1] == [dtype], 'a %s file read as %s' % (d[:1], dtype)
        self.scored.append(tuple(d[1:]))
        return accuracy('test', self.state(), tuple(d[1:]))

    @staticmethod
    def answer(e, classes):
        """label, predicted label, scores"""
        h = int(hashlib.sha256(e.encode()).hexdigest()[:8], 16)
        return int(e.split()[0]), h % classes, [(h // (7 + 4 * i)) % 33 / 8.0 - 2 for i in range(1 if classes == 2 else classes)]

    def decision_function(self, path, dtype=None, get_labels=False):
        d = read(path)
        assert d[:1] == [dtype], 'a %s file read as %s' % (d[:1], dtype)
        self.scored.append(tuple(d[1:]))
        a = [SOL.answer(e, self.class_num) for e in d[1:]]
        s = np.array([x[2] for x in a])
        s = s.reshape(len(a)) if self.class_num == 2 else s
        return (s, np.array([float(x[1]) for x in a]), np.array([float(x[0]) for x in a])) if get_labels else s

    def predict(self, path, dtype=None, get_labels=False):
        s, p, l = self.decision_function(path, dtype, True)
        return (p, l) if get_labels else p

    def save(self, path):
        self.saved.append(path)

    def load(self, path):
        self.algo, self.class_num, self.loaded = 'loaded', SOL.classes, path
        return self

    @property
    def name(self):
        return self.algo

    @property
    def n_classes(self):
        return self.class_num


# stand-in data functions: the first line of a file is its type, the others its examples
calls = []


def analyze_data(path, dtype, out):
    d = read(path)
    if d[:1] != [dtype]:
        return 1
    calls.append('analyze')
    ex = d[1:]
    write(out, ['data number  : %d' % len(ex), 'valid dim    : 3', 'dimension    : %d' % max([int(e.split()[1]) for e in ex]),
                'class num    : %d' % len(set(e.split()[0] for e in ex))])
    return 0


def convert_data(src, st, dst, dt, binarize=0, thresh=0):
    d = read(src)
    if d[:1] != [st]:
        return 1
    calls.append('convert')
    write(dst, [dt] + (['bin%g' % thresh + e for e in d[1:]] if binarize else d[1:]))
    return 0


def shuffle_data(src, st, dst, dt):
    d = read(src)
    if d[:1] != [st]:
        return 1
    calls.append('shuffle')
    write(dst, [dt] + d[:0:-1])
    return 0


generation = [0]


def split_data(src, st, fold, prefix, dt, shuffle):
    d = read(src)
    if d[:1] != [st]:
        return 1
    calls.append('split')
    ex = d[1:]
    generation[0] += 1  # every split deals the examples out differently
    r = generation[0] % max(1, len(ex))
    ex = ex[r:] + ex[:r]
    per = -(-len(ex) // fold)
    for i in range(fold):
        write('%s%d.%s' % (prefix, i, dt), [dt] + ex[i * per:(i + 1) * per])
    return 0


stub = types.ModuleType('pysol')
for f in (SOL, analyze_data, convert_data, shuffle_data, split_data):
    setattr(stub, f.__name__, f)
sys.modules['pysol'] = stub
dataset = py2run.load(os.path.join(REPO, 'python', 'dataset.py'), 'dataset')
cv = py2run.load(os.path.join(REPO, 'python', 'cv.py'), 'cv')
pkg = types.ModuleType('sol')
pkg.__path__ = []
sys.modules['sol'] = pkg
sys.modules['sol.dataset'], sys.modules['sol.cv'] = dataset, cv
pkg.dataset, pkg.cv = dataset, cv
sol_train = py2run.load(os.path.join(REPO, 'python', 'sol_train.py'), 'sol_train')
sol_test = py2run.load(os.path.join(REPO, 'python', 'sol_test.py'), 'sol_test')


def make_data(g, c, name='data'):
    n = g.range(4, 14) if not g.chance(1, 10) else g.range(15, 60)
    ex = ['%d %d ex%d' % (g.below(3), g.range(1, 9), i) for i in range(n)]
    dtype = g.pick(['svm', 'bin', 'csv'])
    p = c.path(name + '.txt')
    write(p, [dtype] + ex)
    return p, dtype, ex


def gen_space(g, bad=False):
    sp = {}
    for k in ['a', 'eta', 'lambda', 'zz'][:g.range(1, 3) if not g.chance(1, 6) else 4]:
        v = [g.pick([0.25, 1, 2, 0.5, 1e-05, 4.0, 8]) for _ in range(g.range(1, 3))]
        v = sorted(set(v), key=v.index)
        if g.chance(1, 4):
            v = np.array(v, dtype=np.float64)
        sp[k] = v
    return sp


def combos(sp):
    out = [{}]
    for k in sp:
        out = [dict(o, **{k: v}) for o in out for v in sp[k]]
    return out


def key(p):
    return tuple(sorted((k, float(v)) for k, v in p.items()))


def space_case(g, c):
    sp = gen_space(g)
    c.desc(repr(sp))
    s = cv.SearchSpace(sp)
    want = combos(sp)
    got = [s.get_param(i) for i in range(int(s.size))]
    check(int(s.size) == len(want) and sorted(map(key, got)) == sorted(map(key, want)), 'space', lambda: 'combinations %r' % got)
    c.nontrivial = len(want) >= 4


def cv_case(g, c):
    p, dtype, ex = make_data(g, c)
    passes = g.pick([1, 1, 2, 3]) if not g.chance(1, 12) else g.range(4, 9)
    dt = dataset.DataSet('d', p, dtype, passes)
    runs = g.pick([1, 1, 2])
    folds, procs = (g.range(2, 4), g.range(1, 3)) if not g.chance(1, 8) else (g.range(5, 12), g.range(1, 6))
    sp = gen_space(g)
    bad = g.chance(1, 12)
    if bad:
        k = sorted(sp)[0]
        sp[k] = [x for x in sp[k]] + ['bad']
    extra = g.pick([{}, {'C': 2}, {'norm': 'L2', 'batch_size': 3}])
    c.desc('%r folds=%d passes=%d processes=%d extra=%r data=%r' % (sp, folds, passes, procs, extra, ex))
    v = cv.CV(dt, folds, sp, dict(extra), process_num=procs)
    if bad:
        c.label('refused parameter value')
        try:
            v.train_val('algo')
            check(False, 'refused', 'a refused parameter value was not reported')
        except Exception as e:
            if isinstance(e, pbt.Fail):
                raise
        c.nontrivial = True
        return
    for r in range(runs):
        algo = 'algo%d' % r
        v.train_val(algo)
        parts = [read(dt.split_path(i))[1:] for i in range(folds)]
        check(sorted(x for q in parts for x in q) == sorted(ex), 'folds', lambda: 'folds %r' % parts)
        table = []
        n = int(v.search_space.size)
        seen = set()
        for i in range(n):
            prm = v.search_space.get_param(i)
            seen.add(key(prm))
            tr, va = [], []
            for f in range(folds):
                m = SOL(algo, len(set(e.split()[0] for e in ex)), **dict(prm, **extra))
                for _ in range(passes):
                    for j in range(folds):
                        if j != f:
                            t = m.fit(dt.split_path(j), 'bin')
                tr.append(t)
                va.append(m.score(dt.split_path(f), 'bin'))
            for what, row, scores in (('training', tr, v.train_scores), ('validation', va, v.val_scores)):
                got = [float(x) for x in scores[i]]
                check(all(abs(a - b) < 1e-9 for a, b in zip(got, row + [sum(row) / folds])) and len(got) == folds + 1, 'scores',
                      lambda: '%s accuracies of %r are %r instead of %r' % (what, prm, got, row + [sum(row) / folds]))
            table.append(sum(va) / folds)
        check(len(seen) == n and seen == set(map(key, combos(sp))), 'space', lambda: 'combinations %r' % seen)
        best, bid = v.get_best_param()
        check(key(best) == key(v.search_space.get_param(int(bid))) and abs(table[int(bid)] - max(table)) < 1e-9, 'best', lambda: 'best is %r of %r' % (best, table))
        out = c.path('cv%d.txt' % r)
        v.save_results(out)
        back = cv.CV.load_results(out)
        check(back == dict(best), 'file', lambda: 'the result file gives %r instead of %r' % (back, best))
        txt = read(out)
        rows = [l for l in txt if l.count('\t') == folds + 1]
        want = ['\t'.join('%.4f' % x for x in s[i]) for s in (v.val_scores, v.train_scores) for i in range(n)]
        check([l.split('\t', 1)[1] for l in rows] == want, 'file', lambda: 'result file\n%s' % '\n'.join(txt))
        if len(set(table)) > 1:
            c.nontrivial = True
        if max(table) != table[-1] and max(table) != table[0]:
            c.label('best in the middle')


def dataset_case(g, c):
    p, dtype, ex = make_data(g, c)
    for i in range(g.range(1, 10)):
        if i == 0 or g.chance(1, 5):
            dt = dataset.DataSet('d', p, dtype, g.range(1, 3) if not g.chance(1, 12) else g.range(4, 9))
            check(dt.data_num == len(ex) and dt.dim == max(int(e.split()[1]) for e in ex) and dt.class_num == len(set(e.split()[0] for e in ex)), 'info',
                  lambda: 'number %r dimension %r classes %r' % (dt.data_num, dt.dim, dt.class_num))
            c.desc('data %s %r' % (dtype, ex))
            k = None
        op = g.below(7)
        if op == 6:  # the data cannot be read any more: nothing is handed out in their stead
            c.label('unreadable data')
            write(p, ['broken'] + ex)
            what = g.below(4)
            t = g.pick(['svm', 'bin', 'csv'])
            c.desc('unreadable: %d %s' % (what, t))
            name = os.path.join(dt.work_dir, dt.data_name)
            dst = name + ('.' + t, '.bin', '-binary-0.75.' + t, '.shuffle.' + t)[what]
            if not os.path.exists(dst) and not (what == 0 and t == dtype) and not (what == 1 and dtype == 'bin'):
                try:
                    r = (lambda: dt.convert(t), dt.cache_path, lambda: dt.binarize(t, 0.75), lambda: dt.rand_path(t))[what]()
                    check(False, 'unreadable', 'the data set gave out %r' % r)
                except (Exception, SystemExit) as e:
                    if isinstance(e, pbt.Fail):
                        raise
            write(p, [dtype] + ex)
        elif op == 0:
            k = g.range(1, 6)
            tt = g.pick(['bin', 'svm', None])
            c.desc('split %d %s' % (k, tt))
            dt.split_file(k, tt)
            c.label('split')
        elif op == 1:
            t = g.pick(['svm', 'bin', 'csv'])
            c.desc('convert ' + t)
            check(read(dt.convert(t)) == [t] + ex, 'convert', 'convert(%s) gives other data' % t)
        elif op == 2:
            c.desc('cache')
            check(read(dt.cache_path()) == ['bin'] + ex, 'convert', 'cache_path gives other data')
        elif op == 3:
            t = g.pick(['svm', 'bin', None])
            c.desc('shuffle %s' % t)
            force = g.chance(1, 3)
            old = os.path.join(dt.work_dir, dt.data_name + '.shuffle.' + (t or dtype))
            if force and os.path.exists(old):  # has to be made again
                with open(old, 'w') as f:
                    f.write('stale\n')
            d = read(dt.rand_path(t, force))
            check(d[:1] == [t or dtype] and sorted(d[1:]) == sorted(ex), 'shuffle', lambda: 'rand_path gives %r' % d)
        elif op == 4:
            t = g.pick(['svm', 'bin'])
            th = g.pick([0.5, 0.5, 0, 1, 0.25])
            c.desc('binarize %s %g' % (t, th))
            d = read(dt.binarize(t, th))
            check(d == [t] + ['bin%g' % th + e for e in ex], 'binarize', lambda: 'binarize gives %r' % d)
        if k:
            parts = [read(dt.split_path(j)) for j in range(k)]
            for j in range(k, 8):
                try:
                    q = dt.split_path(j)
                except Exception:
                    continue
                check(False, 'folds', 'there is a fold %d of %d' % (j, k))
            check(all(q[:1] == [dt.slice_type] for q in parts), 'folds', lambda: 'types of the folds: %r' % parts)
            check(sorted(x for q in parts for x in q[1:]) == sorted(ex), 'folds', lambda: '%d folds: %r' % (k, parts))
            check([len(q) - 1 for q in parts] == [max(0, min(-(-len(ex) // k), len(ex) - j * -(-len(ex) // k))) for j in range(k)], 'folds', lambda: 'folds %r' % parts)
    check(read(p) == [dtype] + ex, 'original', 'the data file was changed')
    c.nontrivial = 'split' in c.labels


def train_case(g, c):
    p, dtype, ex = make_data(g, c)
    dt = dataset.DataSet('d', p, dtype, g.range(1, 3) if not g.chance(1, 12) else g.range(4, 9))
    if dt.class_num < 2:
        raise pbt.Discard()
    params = {}
    if g.chance(1, 2):
        params['C'] = g.pick([1, 2])
    if g.chance(1, 2):
        params['lambda'] = 0.5
    if g.chance(1, 2):
        params['B'] = 3
    params['norm'] = 'None'
    if g.chance(1, 2):
        params['batch_size'] = 5
    sp = {'r': [0.5, 1, 2.0][:g.range(1, 3)]} if g.chance(2, 3) else None
    out = c.path('model') if g.chance(1, 2) else None
    c.desc('params %r cv %r output %r passes %d' % (params, sp, out, dt.pass_num))
    given = dict(params)
    best = {}
    for attempt in range(g.pick([1, 2])):
        SOL.made = []
        ft = g.chance(1, 4)
        if ft:
            accu, _, m = sol_train.finetune(dt, 'old.model', dict(given), out)
            want = SOL(batch_size=given.get('batch_size', 256))
            want.load('old.model')
            want.set_params(**{k: v for k, v in given.items() if k != 'batch_size'})
        else:
            retrain = g.chance(1, 3)
            params = dict(given)
            fn = os.path.join(dt.work_dir, 'cv-algo.txt')
            fresh, folds = retrain or not os.path.exists(fn), g.range(2, 3) if not g.chance(1, 8) else g.range(4, 10)
            accu, _, m = sol_train.train(dt, 'algo', params, out, folds, sp, retrain, g.range(1, 2))
            if sp:
                best = cv.CV.load_results(fn)
                check(key(best) in set(map(key, combos(sp))), 'best', lambda: 'best %r' % best)
                # the table of the file decides
                rows = [l for l in read(fn) if l.startswith('{') and '\t' in l]
                table = [(float(l.split('\t')[-1]), l) for l in rows[:len(combos(sp))]]
                if fresh:  # the folds are still there; B and lambda play no part
                    c.label('table')
                    fixed = {k: v for k, v in given.items() if k not in ('B', 'lambda')}
                    for a, l in table:
                        prm, acc = eval(l.split(':\t')[0]), []
                        for f in range(folds):
                            r = SOL('algo', dt.class_num, **dict(prm, **fixed))
                            for _ in range(dt.pass_num):
                                for j in range(folds):
                                    if j != f:
                                        r.fit(dt.split_path(j), 'bin')
                            acc.append(r.score(dt.split_path(f), 'bin'))
                        check(abs(a - sum(acc) / folds) < 1e-4, 'scores', lambda: 'accuracy of %r is %r in the table, %r' % (prm, a, acc))
                top = [eval(l.split(':\t')[0]) for a, l in table if a == max(table)[0]]
                check(key(best) in map(key, top), 'best', lambda: 'best %r of %r' % (best, table))
            want = SOL('algo', dt.class_num, **dict(given, **best))
        check(m.params == want.params and m.extra == want.extra and m.class_num == want.class_num and m.algo == want.algo and m.loaded == want.loaded, 'model',
              lambda: 'trained %r instead of %r' % (m.state(), want.state()))
        w = want.fit(p, dtype, dt.pass_num)
        check(m.seen == want.seen, 'passes', lambda: 'the model saw %r instead of %r' % (m.seen, want.seen))
        check(accu == w, 'accuracy', 'accuracy %r instead of %r' % (accu, w))
        check(m.saved == ([out] if out else []), 'saved', lambda: 'saved to %r' % m.saved)
        if not ft:
            test = c.path('t.txt')
            write(test, ['svm', '1 2 t0', '0 3 t1'])
            ta = sol_train.train_test(dt, dataset.DataSet('t', test, 'svm'), 'algo', dict(given), None, 2, sp)[0]
            ref = SOL('algo', dt.class_num, **dict(given, **best))
            ref.fit(p, dtype, dt.pass_num)
            check(ta == ref.score(test, 'svm'), 'accuracy', 'test accuracy %r' % ta)
    c.nontrivial = sp is not None


def run_main(mod, args, script=False):
    old, handlers = sys.argv, list(logging.getLogger('').handlers)
    sys.argv = ['prog'] + args
    try:
        if script:
            py2run.load(mod.__file__, mod.__name__, True)
        else:
            mod.main()
    finally:
        sys.argv = old
        for h in list(logging.getLogger('').handlers):
            if h not in handlers:
                logging.getLogger('').removeHandler(h)


def script_case(g, c):
    """the scripts as run from a command line"""
    p, dtype, ex = make_data(g, c)
    if len(set(e.split()[0] for e in ex)) < 2:
        raise pbt.Discard()
    args = [p]
    tune = g.chance(1, 3)
    out = c.path('out.model') if g.chance(1, 2) else None
    if out:
        args.append(out)
    args += ['-m', 'old.model'] if tune else [g.pick(['-a', '--algo']), 'algo']
    args += ['-t', dtype] if dtype != 'svm' or g.chance(1, 2) else []
    passes = g.range(1, 3) if not g.chance(1, 12) else g.range(4, 9)
    args += [g.pick(['-p', '--passes']), str(passes)] if passes > 1 else []
    norm = g.pick(['None', 'L1', 'L2'])
    args += ['--norm', norm] if norm != 'None' else []
    batch, buf = g.pick([256, 3]), g.pick([2, 4])
    args += ['-b', str(batch)] if batch != 256 else []
    args += ['--buf_size', str(buf)] if buf != 2 else []
    params = dict((k, v) for k, v in (('C', '2'), ('lambda', '0.5'), ('B', '3'), ('loss', g.pick(['Hinge', 'maxscore-hinge'])), ('opt', g.pick(['a,B', '[1,2]', '1E-3', '', '-4']))) if g.chance(1, 2))
    if params:
        args += ['--params'] + ['%s=%s' % kv for kv in sorted(params.items())]
    sp = {}
    if not tune and g.chance(1, 2):
        sp = {'r': [0.5, 1, 2.0][:g.range(1, 3)]}
        args += ['--cv'] + ['%s=%s' % (k, str(v).replace(' ', '')) for k, v in sp.items()] + ['-f', str(g.range(2, 3))]
    verbose = g.chance(1, 4)
    args += ['-v'] if verbose else []
    c.desc(' '.join(args))
    if g.chance(1, 10):  # a learner or a model, not both
        try:
            run_main(sol_train, args + (['-a', 'algo'] if tune else ['-m', 'old.model']))
        except (Exception, SystemExit):
            pass
        else:
            check(False, 'both', 'trained although both a learner and a model were given')
    SOL.made = []
    run_main(sol_train, args, g.chance(1, 8))
    m = SOL.made[-1]
    best = {}
    if sp:
        best = cv.CV.load_results(os.path.join('./cache', os.path.basename(p), 'cv-algo.txt'))
        check(key(best) in set(map(key, combos(sp))), 'best', lambda: 'best %r' % best)
    want = dict(params, norm=norm)
    want.update((k, str(v)) for k, v in best.items())
    check(m.params == want, 'params', lambda: 'trained with %r instead of %r' % (m.params, want))
    check(m.extra == (batch, buf, verbose), 'params', lambda: 'batch size, buffers, verbose %r' % (m.extra,))
    check((m.algo, m.loaded) == (('loaded', 'old.model') if tune else ('algo', None)), 'model', 'another model was trained')
    check(m.seen == [tuple(ex)] * passes, 'passes', lambda: 'the model saw %r' % m.seen)
    check(m.saved == ([out] if out else []), 'saved', lambda: 'saved to %r' % m.saved)
    c.label('fine tuning' if tune else 'cross validation' if sp else 'training')
    # the testing script
    SOL.made = []
    pred = c.path('pred.txt') if g.chance(2, 3) else None
    SOL.classes = g.pick([2, 3])
    run_main(sol_test, ['the.model', p] + ([pred] if pred else []) + (['-t', dtype] if dtype != 'svm' else []) + (['-b', str(batch)] if batch != 256 else []), g.chance(1, 8))
    m = SOL.made[-1]
    check(m.loaded == 'the.model' and m.extra[0] == batch and m.seen == [] and m.scored == [tuple(ex)], 'test', lambda: 'tested %r on %r' % (m.loaded, m.scored))
    if pred:
        rows = [l.split('\t') for l in read(pred)]
        want = [SOL.answer(e, SOL.classes) for e in ex]
        check(len(rows) == len(want) and all(int(r[0]) == w[0] and int(r[1]) == w[1] and all(abs(float(a) - b) < 1e-5 for a, b in zip(r[2:], w[2])) and len(r) == 2 + len(w[2])
                                             for r, w in zip(rows, want)), 'test', lambda: 'predictions %r instead of %r' % (rows, want))
    c.nontrivial = bool(sp) or tune or passes > 1


if __name__ == '__main__':
    sys.exit(pbt.main([
        Target('search-space', 'parameter ranges; non-trivial: four or more combinations', 8000, 100000, space_case, 30),
        Target('data-set', 'history of conversions, shuffles and splits of one data set; non-trivial: a split', 8000, 200000, dataset_case, 30),
        Target('cross-validation', 'parameter ranges x folds x passes x processes x data set, accuracies from a stand-in model; non-trivial: accuracies differ', 1200, 50000, cv_case, 30),
        Target('training', 'parameters x cross validation x output x fine tuning of the training script; non-trivial: with cross validation', 2000, 40000, train_case, 30),
        Target('scripts', 'command lines of the training and the testing script; non-trivial: cross validation, fine tuning or several passes', 2500, 50000, script_case, 30),
    ]))
