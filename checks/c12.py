from gps import *
import lop

PROPERTY = 'C12'
RULE = ('a case is non-trivial when predictions were made from at least one training sample; '
        'distinct = distinct histories of additions, resets and predictions')
ASSUMPTIONS = ['up to 4 additions of up to 5 samples (doubles or integers) in up to 3 dimensions, in several units; noise variances as a '
               'number, a list or an array, at least 5e-4 (the default) so the covariance can be '
               'factorised', 'reference: textbook regression formulas with numpy.linalg.solve']

MEANS = {
    'none': None,
    'const': lambda X: 1.5 * np.ones(len(X)),
    'linear': lambda X: X @ np.arange(1, X.shape[1] + 1) * 0.5 - 1.0,
    'wave': lambda X: np.sin(3 * X[:, 0]) + 0.2,
}


@st.composite
def s_hist(draw):
    d = draw(st.integers(1, 3))
    # values in units of u, points in units of w
    u, w = draw(UNITS)
    steps = []
    for _ in range(draw(st.integers(1, 6))):
        k = draw(st.sampled_from(['add', 'add', 'add', 'predict', 'predict', 'reset']))
        if k == 'add':
            n = draw(st.integers(1, 5))
            form = draw(st.sampled_from(['default', 'number', 'list', 'array']))
            s = None
            if form == 'number':
                s = u * u * draw(st.one_of(grid(0.01, 1, 0.01), st.sampled_from([1e-3, 1e-4])))
            elif form != 'default':
                t = draw(st.sampled_from([1.0, 1.0, 0.01]))
                s = [u * u * t * v for v in draw(vec(n, 0.01, 1, 0.01))]
            X = [[w * t for t in r] for r in draw(points(n, d, -2, 2))]
            y = [u * t for t in draw(vec(n, -3, 3))]
            # samples and values in other number types, exact in them
            xt, yt = [draw(st.sampled_from(['', '', '', 'int'])) for _ in range(2)]
            conv = {'': float, 'int': lambda v: float(round(v))}
            steps.append(dict(op='add', X=[[conv[xt](v) for v in r] for r in X],
                              y=[conv[yt](v) for v in y], form=form, noise=s, xt=xt, yt=yt))
        elif k == 'predict':
            steps.append(dict(op='predict', X=[[w * t for t in r] for r in draw(
                points(draw(st.integers(1, 4)), d, -3, 3))],
                              large=draw(st.booleans())))
        else:
            steps.append(dict(op='reset'))
    steps.append(dict(op='predict', X=[[w * t for t in r] for r in draw(
        points(draw(st.integers(1, 5)), d, -3, 3))],
                      large=draw(st.booleans())))
    return dict(d=d, u=u, kernel=rescale_kernel(draw(gp_kernel(d, noise_lo=0.0)), u, w), steps=steps,
                mean=draw(st.sampled_from(sorted(MEANS))), rs=draw(seeds))


def run_hist(c):
    mf = MEANS[c['mean']]
    m = lop.GP(build_kernel(c['kernel']), mean_func=mf)
    mean = mf if mf is not None else (lambda X: np.zeros(len(X)))
    X, y, s = [], [], []
    nontriv = False
    for op in c['steps']:
        if op['op'] == 'reset':
            m.reset()
            X, y, s = [], [], []
            continue
        if op['op'] == 'add':
            num = {'int': int, '': float}
            A, b = arr(op['X'], num[op.get('xt', '')]), arr(op['y'], num[op.get('yt', '')])
            if op['form'] == 'default':
                m.add(A, b)
                s = s + [0.0005] * len(b)
            elif op['form'] == 'number':
                m.add(A, b, training_sigma=op['noise'])
                s = s + [op['noise']] * len(b)
            else:
                m.add(A, b, training_sigma=list(op['noise']) if op['form'] == 'list'
                      else arr(op['noise']))
                s = s + list(op['noise'])
            check((A == arr(op['X'])).all() and (b == arr(op['y'])).all(), 'adding data changed '
                  'the caller\'s arrays')
            X, y = X + op['X'], y + op['y']
            continue
        T = arr(op['X'])
        mu, var = (m.predict_large if op['large'] else m.predict)(T)
        Kss = ref_cov(c['kernel'], op['X'], op['X'])
        if not X:
            rmu, rcov = mean(T), Kss
        else:
            K = ref_cov(c['kernel'], X, X) + np.diag(s)
            Ks = ref_cov(c['kernel'], op['X'], X)
            rmu = mean(T) + Ks @ np.linalg.solve(K, arr(y) - mean(arr(X)))
            rcov = Kss - Ks @ np.linalg.solve(K, Ks.T)
            nontriv = True
            check((np.asarray(var) <= np.diag(Kss) + 1e-6 * c['u'] ** 2).all(), 'variance above the prior')
        sc_, t = max(min(1.0, c['u']), np.abs(rmu).max()), 1e-6 * c['u'] ** 2
        same(mu, rmu, 'predicted means', 1e-5, 1e-5 * sc_)
        same(var, np.maximum(np.diag(rcov), 0), 'predicted variances', 1e-5, t)
        same(m.cov, rcov, 'predicted covariance', 1e-5, t)
        check((np.asarray(var) >= 0).all(), 'negative variance')
        same(m(T), mu, 'calling the model', 0, 1e-12)
        check(mu[m.select_best(T)] >= np.max(mu) - 1e-12, 'best point is not the highest')
    return c['mean'] + (',data' if nontriv else ',prior'), nontriv


@st.composite
def s_interp(draw):
    d = draw(st.integers(1, 3))
    n = draw(st.integers(1, 6))
    return dict(X=draw(points(n, d, -2, 2, 0.25, dup=False)), y=draw(vec(n, -3, 3)),
                l=draw(grid(0.2, 0.6, 0.05)), s=draw(grid(0.5, 2, 0.05)), rs=draw(seeds),
                mean=draw(st.sampled_from(sorted(MEANS))))


def run_interp(c):
    if not distinct(c['X']):
        raise Reject
    X, y = arr(c['X']), arr(c['y'])
    m = lop.GP(lop.RBF_kern(c['s'], c['l'], sigma_noise=0), mean_func=MEANS[c['mean']])
    m.add(X, y, training_sigma=1e-8)
    mu, var = m.predict(X)
    same(mu, y, 'predictions at exactly known samples', 1e-3, 1e-3)
    same(var, np.zeros(len(y)), 'variances at exactly known samples', 0, 1e-5)
    far, fv = m.predict(np.full((1, X.shape[1]), 500.0))
    f = MEANS[c['mean']]
    same(far, f(np.full((1, X.shape[1]), 500.0)) if f else [0.0], 'prediction far from all '
         'samples', 1e-9, 1e-9)
    same(fv, [c['s'] ** 2], 'variance far from all samples', 1e-9, 1e-9)
    return 'n%d' % len(y), True


SUBS = [
    Sub('history', s_hist(), run_hist, quick=2500, thorough=60000),
    Sub('interpolation', s_interp(), run_interp, quick=500, thorough=10000),
]
