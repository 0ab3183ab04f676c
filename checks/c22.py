from learners import *
import lop
import lop.utilities as FF

PROPERTY = 'C22'
RULE = ('a case is non-trivial when the function was evaluated on at least two different points; '
        'distinct = distinct (function, parameters, points)')
ASSUMPTIONS = ['rewards within -2 to 10 (monotony: of rewards that are not negative; the square root of the '
               'largest weighted reward needs one that is not negative), up to 4 dimensions, up to 8 points',
               'parameters are drawn by the functions themselves; the reference reads them back',
               'FakeIntegrate is unfinished in the code (it returns the first reward) and left out']
KINDS = ['Linear', 'Squared', 'Logistic', 'WeightedMax', 'WeightedMin', 'SquaredMinMax', 'SinExp',
         'MixtureGaussian', 'StaticSin', 'MinLog']


def ref(kind, f, r, d):
    """value at one point (list of d rewards)"""
    if kind == 'Linear':
        return sum(w * x for w, x in zip(f.w, r))
    if kind == 'Squared':
        return sum(w * x * x for w, x in zip(f.w, r))
    if kind == 'Logistic':
        z = sum(w * x for w, x in zip(f.w, r)) - (f.M if d > 1 else 0.0)
        return f.A + (f.K - f.A) / (f.C + f.Q * math.exp(-z / f.v))
    wx = [w * x for w, x in zip(f.w, r)] if hasattr(f, 'w') else None
    if kind == 'WeightedMax':
        return max(wx) if d > 1 else r[0]
    if kind == 'WeightedMin':
        return min(wx) if d > 1 else r[0]
    if kind == 'SquaredMinMax':
        return math.sqrt(max(wx)) + min(wx) ** 2 if d > 1 else r[0]
    if kind == 'SinExp':
        return math.sin(sum(k * x for k, x in zip(f.k, r)) + f.phase) * math.exp(-sum(wx))
    if kind == 'MixtureGaussian':
        return sum(math.exp(-0.5 * sum((x - m) ** 2 / s for x, m, s in zip(r, f.means[i], f.sigs[i])))
                   / math.sqrt(np.prod([2 * math.pi * s for s in f.sigs[i]]))
                   for i in range(f.num_kerns))
    if kind == 'StaticSin':
        x = 10 - r[0]
        return 2 * math.cos(math.pi * (x - 2) / 3) * math.exp(-0.99 * x)
    if kind == 'MinLog':
        return f.alpha * ref('WeightedMin', f.min, r, d) + (1 - f.alpha) * ref('Logistic', f.logistic,
                                                                             r, d)
    raise HarnessError(kind)


def make(c):
    cls = getattr(FF, 'Fake' + c['kind'])
    if c['kind'] == 'StaticSin':
        return cls()
    if c['kind'] == 'MinLog':
        return cls(c['d'], c['alpha'])
    if c['d'] == 2 and len(c.get('X', '')) % 2:
        return cls()
    return cls(c['d'])


@st.composite
def s_fun(draw):
    kind = draw(st.sampled_from(KINDS))
    d = 1 if kind == 'StaticSin' else draw(st.integers(1, 4))
    n = draw(st.integers(1, 8))
    return dict(kind=kind, d=d, X=draw(points(n, d, *draw(st.sampled_from([(0, 1), (0, 1), (0, 10), (-2, 2)])), step=0.05)),
                alpha=draw(grid(0, 1, 0.25)), again=draw(st.booleans()), rs=draw(seeds),
                data=draw(st.booleans()), num=draw(st.sampled_from(['float', 'int'])))


def state(f):
    out = []
    for k, v in sorted(vars(f).items()):
        out += state(v) if isinstance(v, FF.FakeFunction) else [(k, np.array(v).tolist())]
    return out


def run_fun(c):
    f = make(c)
    if c['again']:
        f.randomize()
    kind, d = c['kind'], c['d']
    before = state(f)
    X = [[round(x) for x in r] for r in c['X']] if c['num'] == 'int' else c['X']
    A = np.array(X, dtype=int if c['num'] == 'int' else float)
    if kind == 'SquaredMinMax' and d > 1:
        X = [r for r in X if max(w * x for w, x in zip(f.w, r)) >= 0]
        if not X:
            raise Reject
        A = np.array(X, dtype=A.dtype)
    want = [ref(kind, f, r, d) for r in X]
    call = (lambda z: f(z, data='d')) if c['data'] else f
    keep = A.copy()
    tol = dict(rtol=1e-9, atol=1e-12)
    if d == 1:
        # one reward per point: a vector of points
        got = call(A[:, 0])
        check(np.shape(got) == (len(X),), 'values of %d points have shape %s', len(X), np.shape(got))
        same(got, want, kind + ' of a vector of points', **tol)
        for r, w in zip(X, want):
            v = call(r[0])
            check(np.size(v) == 1, 'value of one point is %s', v)
            same(float(np.ravel(v)[0]), w, kind + ' of one point', **tol)
        if kind not in ('StaticSin', 'MixtureGaussian'):
            same(np.ravel(call(list(r[0] for r in X))), want, kind + ' of a list of points', **tol)
    else:
        got = call(A)
        check(np.shape(got) == (len(X),), 'values of %d points have shape %s', len(X), np.shape(got))
        same(got, want, kind + ' of several points', **tol)
        for r, w in zip(A, want):
            v = call(r)
            check(np.ndim(v) == 0, 'value of one point is %s', v)
            same(v, w, kind + ' of one point', **tol)
        same(np.ravel(call(A[:1])), want[:1], kind + ' of one row', **tol)
    check((A == keep).all(), 'the rewards were changed')
    check(state(f) == before, 'evaluating changed the function')
    text = str(f)
    check(isinstance(text, str) and text, 'no description')
    return kind + ',%d-d' % d, len(set(map(tuple, X))) > 1


# ---- documented form of the random parameters, and what follows from it
def run_form(c):
    kind, d = c['kind'], c['d']
    f = make(c)
    seen = [str(state(f))]
    for t in range(4):
        w = getattr(f, 'w', None)
        if w is not None:
            check(np.shape(w) == (d,) and (w >= 0).all() and finite(w), 'weights %s in %d dimensions',
                  w, d)
        if kind in ('Linear', 'Squared', 'SquaredMinMax'):
            same(np.sum(w), 1.0, 'sum of the weights')
        if kind in ('WeightedMax', 'WeightedMin'):
            same(np.max(w), 1.0, 'largest weight')
        if kind == 'SinExp':
            same(np.sum(f.k), 1.0, 'sum of the frequencies')
            check(0 <= f.phase <= math.pi, 'phase %s', f.phase)
        if kind == 'MixtureGaussian':
            check(2 <= f.num_kerns <= 9 and np.shape(f.means) == (f.num_kerns, d) and
                  np.shape(f.sigs) == (f.num_kerns, d) and (f.sigs > 0).all() and
                  (f.means >= 0).all() and (f.means <= 3).all(), 'mixture %s', f)
        lo, hi = arr(c['X'][0]), arr(c['X'][0]) + arr(c['up'])[:d]
        P = lo if d > 1 else lo
        Q = hi
        a, b = (float(np.ravel(f(z))[0]) for z in (P, Q))
        if kind in ('Linear', 'Squared', 'Logistic', 'WeightedMax', 'WeightedMin', 'MinLog',
                    'SquaredMinMax'):
            check(b >= a - 1e-12, 'better rewards %s have the lower value %s than %s with %s', hi, b,
                  lo, a)
        if kind == 'Linear':
            check(lo.min() - 1e-9 <= a <= lo.max() + 1e-9, 'weighted mean %s of %s', a, lo)
        if kind == 'Logistic':
            check(0 < a < 1, 'value %s', a)
        if kind == 'WeightedMin' and d > 1:
            check(a <= lo.min() + 1e-9, 'weighted minimum %s of %s', a, lo)
        if kind == 'WeightedMax' and d > 1:
            check(a <= lo.max() + 1e-9, 'weighted maximum %s of %s', a, lo)
        if kind == 'SinExp':
            check(abs(a) <= 1 + 1e-12, 'value %s', a)
        f.randomize()
        seen.append(str(state(f)))
    if kind == 'StaticSin' or (d == 1 and kind in ('Linear', 'Squared', 'WeightedMax', 'WeightedMin',
                                                   'SquaredMinMax')):
        return kind, False
    check(len(set(seen)) == len(seen), 'drawing new parameters gave the same ones')
    return kind, True


@st.composite
def s_form(draw):
    c = draw(s_fun())
    c['X'] = [[abs(x) for x in r] for r in c['X']]
    c['up'] = draw(vec(4, 0, 2, 0.25))
    return c


# ---- drawn weights are uniform before they are normalised: no weight is favoured
def run_weights(c):
    f = make(c)
    d = c['d']
    n = 400
    W = []
    for _ in range(n):
        f.randomize()
        W.append(np.array(f.w))
    W = np.array(W)
    for i in range(d):
        for j in range(i):
            t = np.mean(W[:, i] > W[:, j])
            check(abs(t - 0.5) < 6 * 0.5 / math.sqrt(n), 'weight %d exceeds weight %d in %s of the '
                  'draws', i, j, t)
    return c['kind'], d > 1


@st.composite
def s_weights(draw):
    return dict(kind=draw(st.sampled_from(['Linear', 'Squared', 'Logistic', 'WeightedMax',
                                           'WeightedMin', 'SquaredMinMax', 'SinExp'])),
                d=draw(st.integers(2, 4)), rs=draw(seeds))


SUBS = [
    Sub('values', s_fun(), run_fun, quick=3000, thorough=100000),
    Sub('form', s_form(), run_form, quick=1500, thorough=40000),
    Sub('weights', s_weights(), run_weights, quick=60, thorough=1000),
]
