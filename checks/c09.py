from common import *
import lop

PROPERTY = 'C09'
RULE = ('a case is non-trivial when it has at least two sample points (or a composed kernel); '
        'distinct = distinct generated (kernel, hyper-parameters, points) values')
ASSUMPTIONS = [
    'hyper-parameters 0.2..3 in units of 0.01 to 50, points in [-3, 3]^d with d 1..4 (at times far from '
    'the origin), up to 7 points per set',
    'the periodic kernel is only required to be positive semi-definite in one dimension '
    '(it uses the sum of absolute differences, which gives no such guarantee above one)']


@st.composite
def s_cov(draw):
    d = draw(st.integers(1, 4))
    n = draw(st.integers(1, 7))
    m = draw(st.integers(1, 7))
    X = draw(points(n, d, -3, 3))
    mode = draw(st.sampled_from(['other', 'share', 'same', 'prefix', 'perm', 'near']))
    if mode == 'same':
        Y = [list(r) for r in X]
    elif mode == 'prefix':
        Y = [list(r) for r in X[:draw(st.integers(1, n))]]
    elif mode == 'perm':
        Y = [list(r) for r in draw(st.permutations(X))]
    elif mode == 'near':
        # almost the same points: not the same samples, so no sampling noise between them
        Y = [list(r) for r in X]
        Y[draw(st.integers(0, n - 1))][draw(st.integers(0, d - 1))] += draw(
            st.sampled_from([1e-9, 1e-7, -1e-6, 1e-4]))
    else:
        Y = draw(points(m, d, -3, 3))
        if mode == 'share':
            Y[draw(st.integers(0, m - 1))] = list(X[draw(st.integers(0, n - 1))])
            if draw(st.booleans()):
                Y[0] = list(X[0])
    if draw(st.integers(0, 5)) == 5:
        # far from the origin only the differences of the points count as before
        t = [draw(st.sampled_from([0.0, 1e3, -1e5, 1e6])) for _ in range(d)]
        X, Y = [[[a + b for a, b in zip(r, t)] for r in Z] for Z in (X, Y)]
        mode += '-far'
    k = draw(kernel_spec(d, depth=2))
    u, w = draw(UNITS)
    if w != 1 and not mode.endswith('-far'):
        X, Y = [[[w * a for a in r] for r in Z] for Z in (X, Y)]
    elif w != 1:
        w = 1
    return dict(k=rescale_kernel(k, u, w), X=X, Y=Y, mode=mode, u=u)


def run_cov(c):
    K = build_kernel(c['k'])
    X, Y = arr(c['X']), arr(c['Y'])
    X0, Y0 = X.copy(), Y.copy()
    tol = 1e-11 * min(1, c['u'] ** 2)
    C = K.cov(X, Y)
    check(C.shape == (len(X), len(Y)), 'covariance has shape %s for %d and %d points',
          C.shape, len(X), len(Y))
    same(C, ref_cov(c['k'], c['X'], c['Y']), 'covariance matrix', 1e-9, tol)
    check((X == X0).all() and (Y == Y0).all(), 'the covariance changed its input points')
    same(K.cov(Y, X), C.T, 'covariance of swapped sample sets', 1e-9, tol)
    # pointwise evaluation agrees with the matrix of unrelated sample sets
    P = np.array([[float(K(u, v)) for v in Y] for u in X])
    R = np.array([[ref_k(c['k'], u, v) for v in c['Y']] for u in c['X']])
    same(P, R, 'pointwise covariance', 1e-9, tol)
    # repeated evaluation gives the same answer
    same(K.cov(X, Y), C, 'second evaluation of the covariance', 1e-12, 1e-2 * tol)
    return '%s,%s' % (c['mode'], kernel_label(c['k'])), \
        len(X) > 1 or len(c['k']) == 3


@st.composite
def s_psd(draw):
    d = draw(st.integers(1, 4))
    n = draw(st.integers(2, 9))
    kinds = KERNELS if d == 1 else ['rbf', 'zeroed', 'linear']
    u, w = draw(UNITS)
    X = [[w * a for a in r] for r in draw(points(n, d, -3, 3))]
    return dict(k=rescale_kernel(draw(kernel_spec(d, kinds, depth=2)), u, w), X=X, u=u)


def run_psd(c):
    K = build_kernel(c['k'])
    X = arr(c['X'])
    C = K.cov(X, X)
    check(finite(C), 'covariance is not finite')
    t = min(1, c['u'] ** 2)
    same(C, C.T, 'covariance symmetry', 1e-10, 1e-12 * t)
    check((np.diag(C) >= -1e-10 * max(t, abs(C).max())).all(), 'negative variance %s',
          np.diag(C))
    w = np.linalg.eigvalsh((C + C.T) / 2)
    check(w.min() >= -1e-9 * max(t, w.max()) * len(X),
          'covariance is not positive semi-definite, smallest eigenvalue %g of %s',
          w.min(), w.max())
    if c['k'][0] == 'zeroed':
        z = np.zeros(X.shape[1]) if c['k'][4] is None else arr(c['k'][4])
        same(np.array([float(K(x, z)) for x in X]), np.zeros(len(X)),
             'pointwise covariance with the zero point', 0, 1e-10)
        # one more row than X, so the two sample sets are never the same set
        Z = np.vstack([z] * (len(X) + 1))
        same(K.cov(X, Z), np.zeros((len(X), len(X) + 1)),
             'covariance with the zero point', 0, 1e-10)
    return kernel_label(c['k'])


# translation structure: stationary kernels only depend on differences, periodic ones repeat
@st.composite
def s_inv(draw):
    d = draw(st.integers(1, 3))
    return dict(kind=draw(st.sampled_from(['rbf', 'periodic'])),
                p=[draw(grid(0.2, 3)), draw(grid(0.2, 3)), draw(grid(0.3, 3))],
                X=draw(points(draw(st.integers(1, 5)), d)),
                Y=draw(points(draw(st.integers(1, 5)), d)),
                t=draw(vec(d, -3, 3)), reps=draw(st.integers(1, 4)), rs=draw(seeds))


def run_inv(c):
    X, Y, t = arr(c['X']), arr(c['Y']), arr(c['t'])
    if c['kind'] == 'rbf':
        K = lop.RBF_kern(c['p'][0], c['p'][1], sigma_noise=0.0)
    else:
        K = lop.PeriodicKern(*c['p'])
        if X.shape[1] == 1:
            same(K.cov(X, Y + c['reps'] * c['p'][2]), K.cov(X, Y), 'one full period later',
                 1e-7, 1e-8)
    same(K.cov(X + t, Y + t), K.cov(X, Y), 'covariance of translated points', 1e-8, 1e-9)
    s2 = c['p'][0] ** 2
    C = K.cov(X, Y)
    check((C <= s2 * (1 + 1e-12)).all(), 'covariance above the variance of the points')
    return c['kind'], True


SUBS = [
    Sub('covariance', s_cov(), run_cov, quick=3000, thorough=100000),
    Sub('psd', s_psd(), run_psd, quick=2000, thorough=60000),
    Sub('invariance', s_inv(), run_inv, quick=1000, thorough=30000),
]
