"""Generated histories of training-data calls, and a reference model of what they mean."""
from common import *


@st.composite
def add_op(draw, d, kinds, lo=0.0, hi=1.0, step=0.05, max_n=4, n_ord=5, f32=False):
    kind = draw(st.sampled_from(kinds))
    n = draw(st.integers(1, max_n))
    X = draw(points(n, d, lo, hi, step))
    op = dict(op=kind, X=X)
    t = draw(st.sampled_from(['', '', '', '', 'int', 'float32' if f32 else '']))
    if t:
        # samples given in another number type; every value is exact in it
        X[:] = [[float(round(v)) if t == 'int' else round(v * 8) / 8 for v in r] for r in X]
        op['xt'] = t
    if kind == 'pairs':
        if n == 1:
            X.append([0.0] * d if t else draw(vec(d, lo, hi, step)))
            n = 2
        m = draw(st.integers(0, 4))
        op['y'] = []
        for _ in range(m):
            u = draw(st.integers(0, n - 1))
            v = draw(st.integers(0, n - 2))
            op['y'].append([draw(st.sampled_from([-1, 1])), u, v if v < u else v + 1])
        op['form'] = draw(st.sampled_from(['list', 'tuples']))
    elif kind == 'ord':
        op['y'] = draw(st.lists(st.integers(1, n_ord), min_size=n, max_size=n))
        op['form'] = draw(st.sampled_from(['list', 'array']))
    elif kind == 'ord_idx':
        m = draw(st.integers(1, 4))
        op['y'] = [[draw(st.integers(1, n_ord)), draw(st.integers(0, n - 1))] for _ in range(m)]
        op['form'] = draw(st.sampled_from(['list', 'array']))
    elif kind == 'abs':
        op['y'] = draw(vec(n, 0.0, 1.0, 0.05))
        if t == 'int':
            op['y'] = [float(round(v)) for v in op['y']]
    elif kind == 'abs_idx':
        m = draw(st.integers(1, 4))
        op['y'] = draw(vec(m, 0.0, 1.0, 0.05))
        op['idx'] = draw(st.lists(st.integers(0, n - 1), min_size=m, max_size=m))
    elif kind == 'bad_ord':
        op['y'] = draw(st.lists(st.integers(1, n_ord), min_size=n, max_size=n))
        op['y'][draw(st.integers(0, n - 1))] = draw(st.integers(-3, 0))
    elif kind == 'bad_abs':
        op['y'] = draw(vec(n, 0.0, 1.0, 0.05))
        op['y'][draw(st.integers(0, n - 1))] = draw(st.sampled_from([-0.05, 1.05, 2.0, -1.0]))
    return op


@st.composite
def bulk_op(draw, d, kinds=('pairs', 'ord', 'ord_idx', 'abs', 'abs_idx'), n_ord=5,
            sizes=(126, 127, 128, 129, 140, 200, 255, 256, 257, 300), labels=60):
    """one call with many samples; the labels name samples of the whole range"""
    kind = draw(st.sampled_from(kinds))
    n = draw(st.sampled_from(sizes))
    g = np.random.RandomState(draw(seeds))
    op = dict(op=kind, X=(g.randint(-40, 41, (n, d)) * 0.05).tolist())
    m = draw(st.sampled_from([1, labels // 2, labels]))
    idx = [int(i) for i in g.randint(0, n, m)]
    idx[0] = n - 1
    if kind == 'pairs':
        op['y'] = [[int(g.choice([-1, 1])), i, int((i + 1 + g.randint(0, n - 1)) % n)]
                   for i in idx]
        op['form'] = 'list'
    elif kind == 'ord':
        op['y'] = [int(v) for v in g.randint(1, n_ord + 1, n)]
        op['form'] = draw(st.sampled_from(['list', 'array']))
    elif kind == 'ord_idx':
        op['y'] = [[int(g.randint(1, n_ord + 1)), i] for i in idx]
        op['form'] = draw(st.sampled_from(['list', 'array']))
    elif kind == 'abs':
        op['y'] = (g.randint(0, 21, n) / 20.0).tolist()
    else:
        op['y'] = (g.randint(0, 21, m) / 20.0).tolist()
        op['idx'] = idx
    return op


ALL_KINDS = ['pairs', 'ord', 'ord_idx', 'abs', 'abs_idx']
BAD_KINDS = ['bad_ord', 'bad_abs']


def typed(values, name):
    """the values as an array of the number type, where they are exact in it"""
    a = arr(values)
    b = a.astype({'int': int, 'float32': np.float32}.get(name, float))
    return b if (b == a).all() else a


def apply_op(model, op):
    """make the call; returns the arrays handed over, to see that they are left alone"""
    k = op['op']
    if k == 'reset':
        model.reset()
        return
    X = typed(op['X'], op.get('xt'))
    if k == 'pairs':
        y = [tuple(p) for p in op['y']] if op['form'] == 'tuples' else [list(p) for p in op['y']]
        model.add(X, y)
    elif k in ('ord', 'ord_idx', 'bad_ord'):
        y = arr(op['y'], int) if op.get('form') == 'array' else [r if isinstance(r, int)
                                                                else tuple(r) for r in op['y']]
        model.add(X, y, type='ordinal')
    elif k in ('abs', 'bad_abs'):
        y = typed(op['y'], op.get('xt') if op.get('xt') == 'int' else None)
        model.add(X, y, type='abs')
    elif k == 'abs_idx':
        y = (arr(op['y']), arr(op['idx'], int))
        model.add(X, y, type='abs')
    check((X == arr(op['X'])).all(), 'adding data changed the caller\'s sample array')
    if k in ('abs', 'bad_abs'):
        check((y == arr(op['y'])).all(), 'adding data changed the caller\'s labels')
    elif k == 'abs_idx':
        check((y[0] == arr(op['y'])).all() and (y[1] == arr(op['idx'])).all(),
              'adding data changed the caller\'s labels')
    elif k == 'pairs':
        check([list(p) for p in y] == op['y'], 'adding data changed the caller\'s pairs')


class RefData(object):
    """samples in order of arrival, and the multiset of statements made about them"""

    def __init__(self, pareto=False):
        self.pareto = pareto
        self.clear()

    def clear(self):
        self.X, self.pairs, self.ords, self.abs = [], [], [], []
        self.n_added = 0

    def apply(self, op):
        k = op['op']
        if k == 'reset':
            self.clear()
            return
        if k.startswith('bad'):
            return
        n = len(self.X)
        self.X += [list(r) for r in op['X']]
        if k == 'pairs':
            # (winner, loser)
            self.pairs += [(u + n, v + n) if d == -1 else (v + n, u + n) for d, u, v in op['y']]
        elif k == 'ord':
            self.ords += [(r, n + i) for i, r in enumerate(op['y'])]
        elif k == 'ord_idx':
            self.ords += [(r, n + i) for r, i in op['y']]
        elif k == 'abs':
            self.abs += [(min(max(r, 0.001), 0.999), n + i) for i, r in enumerate(op['y'])]
        elif k == 'abs_idx':
            self.abs += [(min(max(r, 0.001), 0.999), n + i) for r, i in zip(op['y'], op['idx'])]
        if self.pareto:
            for i in range(n, len(self.X)):
                for j in range(len(self.X)):
                    if j < n or i > j:
                        if all(a > b for a, b in zip(self.X[i], self.X[j])):
                            self.pairs.append((i, j))
                        elif all(a < b for a, b in zip(self.X[i], self.X[j])):
                            self.pairs.append((j, i))

    def drop_unreferenced(self):
        """forget samples no label refers to; returns the indices kept"""
        used = set(i for p in self.pairs for i in p) | set(i for _, i in self.ords) \
            | set(i for _, i in self.abs)
        kept = [i for i in range(len(self.X)) if i in used]
        new = {o: k for k, o in enumerate(kept)}
        self.X = [self.X[i] for i in kept]
        self.pairs = [(new[a], new[b]) for a, b in self.pairs]
        self.ords = [(r, new[i]) for r, i in self.ords]
        self.abs = [(r, new[i]) for r, i in self.abs]
        return kept


def read_model(model):
    """samples and statements held by the model, in the form RefData keeps them"""
    X = [] if model.X_train is None else [list(map(float, r)) for r in model.X_train]
    y = model.y_train
    i = model.probit_idxs
    pr, od, ab = y[i['relative_discrete']], y[i['ordinal']], y[i['abs']]
    pairs = []
    for p in ([] if pr is None else pr):
        d, u, v = [int(t) for t in p]
        check(d in (-1, 1), 'stored comparison has direction %s', d)
        pairs.append((u, v) if d == -1 else (v, u))
    ords = [] if od is None else [(int(r), int(k)) for r, k in zip(od[0], od[1])]
    if od is not None:
        check(len(od[0]) == len(od[1]), 'ratings and rated samples differ in number')
    abs_ = [] if ab is None else [(float(r), int(k)) for r, k in zip(ab[0], ab[1])]
    if ab is not None:
        check(len(ab[0]) == len(ab[1]), 'ratings and rated samples differ in number')
    return X, pairs, ords, abs_


def compare(model, ref, when):
    X, pairs, ords, abs_ = read_model(model)
    check(len(X) == len(ref.X), '%s: model holds %d samples, %d were given', when, len(X),
          len(ref.X))
    if X:
        check(np.allclose(arr(X), arr(ref.X), rtol=0, atol=1e-12), '%s: samples differ: %s, '
              'given %s', when, X, ref.X)
    for name, got, exp in [('comparisons (winner, loser)', pairs, ref.pairs),
                           ('ordinal ratings', ords, ref.ords)]:
        check(sorted(got) == sorted(exp), '%s: %s %s, stated %s', when, name, sorted(got),
              sorted(exp))
    a, b = sorted(abs_, key=lambda t: (t[1], t[0])), sorted(ref.abs, key=lambda t: (t[1], t[0]))
    check(len(a) == len(b) and all(p[1] == q[1] and abs(p[0] - q[0]) < 1e-12
                                   for p, q in zip(a, b)),
          '%s: bounded ratings %s, stated %s', when, a, b)
