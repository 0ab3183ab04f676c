from gps import *
import lop

PROPERTY = 'C04'
RULE = ('a case is non-trivial when the model holds at least one label; distinct = distinct '
        '(kernel, label parameters, history of additions, test points)')
ASSUMPTIONS = [
    'up to 4 additions of up to 4 samples in up to 3 dimensions, up to 20 test points including '
    'training points, blocks of up to 151 points; latent values in units of 0.003 (comparisons only) to 30; kernels with at least 0.02 observation noise',
    'the latent values of the fit are taken from the model (C03 decides them), their curvature '
    'is computed by independent formulas',
    'upper bound on the variance: comparisons and ordinal ratings (concave likelihoods) only']


@st.composite
def s_pred(draw, kinds=ALL_KINDS, nmax=6):
    g = draw(gp_case_units(kinds))
    d = g['d']
    X = draw(points(draw(st.integers(1, nmax)), d, -2, 2, 0.05))
    for _ in range(draw(st.integers(0, 2))):
        op = draw(st.sampled_from(g['ops']))
        X.append(list(draw(st.sampled_from(op['X']))))
    if draw(st.integers(0, 4)) == 4:
        # all training samples, one of them slightly moved: not the samples themselves
        X = [list(r) for op in g['ops'] for r in op['X']]
        X[draw(st.integers(0, len(X) - 1))][draw(st.integers(0, d - 1))] += draw(
            st.sampled_from([1e-9, 1e-7, -1e-6, 1e-4]))
    return dict(g=g, X=X, perm=draw(st.permutations(range(len(X)))), rs=draw(seeds),
                cut=draw(st.integers(0, len(X))), positive=draw(st.booleans()),
                norm=draw(st.sampled_from([False, False, False, True])))


def fitted(c, **kw):
    m, ref = build_gp(c['g'], **kw)
    return m, ref


def run_formula(c):
    m, ref = fitted(c, normalize_gp=c['norm'])
    X = arr(c['X'])
    mu, var = m.predict(X)
    check((X == arr(c['X'])).all(), 'predicting changed the test points')
    F = np.asarray(m.F)
    if not finite(F):
        raise Reject
    post = Posterior(ref, c['g']['probits'], c['g']['kernel'])
    if not post.in_range(F):
        raise Reject
    _, _, W = post.lik(F)
    rmu, rcov = post.predict(F, W, c['X'], c['g']['kernel'])
    u = c['g']['unit']
    sc_ = u * max(1.0, u * np.abs(np.linalg.solve(post.K, F)).max())
    same(mu, rmu, 'predicted means', 1e-6, 1e-7 * sc_)
    cond = np.linalg.cond(np.eye(len(F)) + W @ post.K)
    if cond > 1e6:
        raise Reject
    tol = 1e-7 * max(1.0, cond ** 0.5) * max(u * u, np.abs(rcov).max())
    same(var, np.maximum(np.diagonal(rcov), 0), 'predicted variances', 1e-5, tol)
    same(m.cov, rcov, 'predicted covariance', 1e-5, tol)
    check(np.asarray(mu).shape == (len(X),) and np.asarray(var).shape == (len(X),),
          'predictions have shapes %s and %s for %d points', np.shape(mu), np.shape(var), len(X))
    check((np.asarray(var) >= 0).all(), 'negative variance')
    mu2, var2 = m.predict(X)
    same(mu2, mu, 'means predicted again', 0, 1e-12 * u)
    same(var2, var, 'variances predicted again', 0, 1e-12 * u * u)
    return ','.join(label_mix(ref) + (['normalised'] if c['norm'] else [])), \
        bool(ref.pairs or ref.ords or ref.abs)


def run_batch(c):
    m, ref = fitted(c)
    if c['X'] == ref.X:
        raise Reject
    X = arr(c['X'])
    mu, var = m.predict(X)
    p = list(c['perm'])
    u = c['g']['unit']
    sc_ = max(u, np.abs(np.asarray(mu)).max())
    parts = [(p, X[p])]
    parts += [(list(range(a, b)), X[a:b]) for a, b in [(0, c['cut']), (c['cut'], len(X))]
              if b > a]
    parts += [([i], X[i:i + 1]) for i in range(min(3, len(X)))]
    for idx, Y in parts:
        if [list(map(float, r)) for r in Y] == ref.X:
            continue        # observation noise belongs to the training samples themselves
        a, b = m.predict(Y)
        same(a, np.asarray(mu)[idx], 'means of points %s predicted by themselves' % (idx,), 1e-7,
             1e-8 * sc_)
        same(b, np.asarray(var)[idx], 'variances of points %s predicted by themselves' % (idx,),
             1e-6, 1e-8 * u * u)
    same(m(X), mu, 'calling the model', 0, 1e-12 * u)
    best = m.select_best(X)
    check(mu[best] >= np.max(mu) - 1e-9 * sc_, 'best point has mean %s, another %s', mu[best],
          np.max(mu))
    # identical test points get identical predictions
    for i in range(len(X)):
        for j in range(i):
            if c['X'][i] == c['X'][j]:
                check(abs(mu[i] - mu[j]) < 1e-8 * sc_ and abs(var[i] - var[j]) < 1e-8 * u * u,
                      'the same point has two predictions')
    return ','.join(label_mix(ref)), bool(ref.pairs or ref.ords or ref.abs)


@st.composite
def s_large(draw):
    g = draw(gp_case_units(ALL_KINDS))
    d = g['d']
    n = draw(st.sampled_from([1, 14, 15, 16, 29, 30, 31, 44, 45, 46, 61, 75, 76, 91, 107, 128, 151]))
    # a lattice of distinct points, generated from few numbers
    base, stepv = draw(vec(d, -1, 1, 0.05)), draw(vec(d, 0.01, 0.1, 0.01))
    return dict(g=g, n=n, base=base, step=stepv, rs=draw(seeds), empty=draw(st.integers(0, 4)))


def run_large(c):
    X = arr(c['base']) + np.arange(c['n'])[:, None] * arr(c['step'])
    if c['empty'] == 0:
        m = new_gp(c['g'])
    else:
        m, ref = fitted(c)
    mu, var = m.predict_large(X)
    check(np.shape(mu) == (c['n'],) and np.shape(var) == (c['n'],), 'shapes %s and %s for %d '
          'points', np.shape(mu), np.shape(var), c['n'])
    u = c['g']['unit']
    a, b = m.predict(X)
    same(mu, a, 'means predicted in blocks', 1e-7, 1e-8 * u)
    same(var, b, 'variances predicted in blocks', 1e-6, 1e-8 * u * u)
    return 'n%d' % c['n'], c['n'] > 15


def run_bounds(c):
    m, ref = fitted(c)
    X = arr(c['X'])
    _, var = m.predict(X)
    u = c['g']['unit']
    empty = new_gp(c['g'])
    mu0, var0 = empty.predict(X)
    same(mu0, np.zeros(len(X)), 'means without data', 0, 0)
    same(var0, np.diagonal(ref_cov(c['g']['kernel'], c['X'], c['X'])),
         'variances without data', 1e-9, 1e-9 * u * u)
    same(empty.cov, ref_cov(c['g']['kernel'], c['X'], c['X']), 'covariance without data', 1e-9,
         1e-9 * u * u)
    check((np.asarray(var) <= np.asarray(var0) + 1e-7 * (u * u + np.abs(var0))).all(),
          'variance %s above the prior variance %s', var, var0)
    C = np.asarray(m.cov)
    check(np.abs(C - C.T).max() < 1e-6 * max(u * u, np.abs(C).max()), 'covariance is not symmetric')
    ev = np.linalg.eigvalsh((C + C.T) / 2)
    check(ev[0] > -1e-6 * max(u * u, np.abs(C).max()), 'covariance has eigenvalue %s', ev[0])
    if c['g']['kernel'][0] == 'rbf':
        far = np.full((1, c['g']['d']), 300.0)
        a, b = m.predict(far)
        check(abs(a[0]) < 1e-9 * u and abs(b[0] - empty.predict(far)[1][0]) < 1e-9 * u * u, 'far from all '
              'data the prediction is %s +- %s', a, b)
    return ','.join(label_mix(ref)), bool(ref.pairs or ref.ords)


SUBS = [
    Sub('formula', s_pred(), run_formula, quick=1500, thorough=40000),
    Sub('batches', s_pred(), run_batch, quick=1000, thorough=25000),
    Sub('blocks', s_large(), run_large, quick=400, thorough=8000),
    Sub('bounds', s_pred(LOGCONCAVE), run_bounds, quick=800, thorough=20000),
]
