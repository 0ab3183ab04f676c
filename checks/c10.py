from common import *
import lop
import scipy.stats as sps

PROPERTY = 'C10'
RULE = ('a case is non-trivial when at least two points take part; distinct = distinct '
        '(kernel, hyper-parameters, points)')
ASSUMPTIONS = [
    'derivatives are compared with the complex-step derivative of an independent reference '
    'formula (exact to rounding)',
    'prior draws are judged by mean and variance over 1500 draws with a 7 sigma band']


def bumped(spec, i, h=1e-30):
    th = kernel_theta(spec)
    th[i] = complex(th[i], h)
    return with_theta(spec, th)


def deriv_cov(spec, X, Y, h=1e-30):
    """complex-step derivative of the reference covariance: exact to rounding"""
    return [ref_cov(bumped(spec, i, h), X, Y).imag / h for i in range(len(kernel_theta(spec)))]


@st.composite
def s_grad(draw):
    d = draw(st.integers(1, 3))
    n = draw(st.integers(1, 6))
    X = draw(points(n, d, -2, 2))
    if draw(st.booleans()):
        Y = [list(r) for r in X]
    else:
        Y = draw(points(draw(st.integers(1, 6)), d, -2, 2))
    u, w = draw(UNITS)
    X, Y = [[[w * a for a in r] for r in Z] for Z in (X, Y)]
    return dict(k=rescale_kernel(draw(kernel_spec(d, depth=2, lo=0.4)), u, w), X=X, Y=Y, u=u)


def run_grad(c):
    K = build_kernel(c['k'])
    X, Y = arr(c['X']), arr(c['Y'])
    th = kernel_theta(c['k'])
    check(len(K) == len(th), 'kernel reports %d hyper-parameters, expected %d', len(K), len(th))
    same(K.get_param(), th, 'hyper-parameters', 1e-12, 1e-12)
    G = K.cov_gradient(X, Y)
    check(len(G) == len(th), '%d covariance gradients for %d hyper-parameters', len(G), len(th))
    ref = deriv_cov(c['k'], c['X'], c['Y'])
    low = 1e-3 * min(1, c['u'] ** 2)
    for i in range(len(th)):
        scale = max(low, np.abs(ref[i]).max(), np.abs(K.cov(X, Y)).max())
        same(G[i], ref[i], 'covariance gradient for hyper-parameter %d' % i,
             1e-8, 1e-10 * scale)
    # pointwise derivative: the same function without the diagonal noise
    for u, v in [(0, 0), (len(X) - 1, 0), (0, len(Y) - 1)]:
        g = np.asarray(K.gradient(X[u], Y[v]), dtype=float)
        check(g.shape == (len(th),), 'pointwise gradient has shape %s', g.shape)
        for i in range(len(th)):
            r = ref_k(bumped(c['k'], i), c['X'][u], c['Y'][v])
            r = complex(r).imag / 1e-30
            k0 = abs(ref_k(c['k'], c['X'][u], c['Y'][v]))
            check(abs(g[i] - r) <= 1e-8 * abs(r) + 1e-10 * max(low, k0),
                  'pointwise gradient for hyper-parameter %d is %g, derivative is %g',
                  i, g[i], r)
    same(K.get_param(), th, 'hyper-parameters after taking gradients', 1e-12, 1e-12)
    return kernel_label(c['k']), len(X) * len(Y) > 1


def offsets(spec):
    """which hyper-parameters are offsets"""
    if spec[0] in '+*':
        return offsets(spec[1]) + offsets(spec[2])
    return [spec[0] == 'linear' and i == 2 for i in range(len(kernel_theta(spec)))]


@st.composite
def s_param(draw):
    d = draw(st.integers(1, 3))
    spec = draw(kernel_spec(d, depth=2))
    n = len(kernel_theta(spec))
    u = draw(st.sampled_from([1, 1, 1, 0.05, 30]))
    th = [u * t for t in draw(vec(n, 0.2, 3))]
    th2 = draw(vec(n, 0.2, 3))
    # the offset of a linear kernel may be anything
    off = offsets(spec)
    for t in (th, th2):
        for i in range(n):
            if off[i]:
                t[i] = draw(grid(-2, 2, 0.1))
    return dict(k=spec, th=th, th2=th2, X=draw(points(draw(st.integers(1, 5)), d)))


def run_param(c):
    K = build_kernel(c['k'])
    X = arr(c['X'])
    for th in (c['th'], c['th2'], c['th']):
        K.set_param(np.array(th))
        same(K.get_param(), th, 'hyper-parameters read back', 1e-12, 1e-12)
        sp = with_theta(c['k'], th)
        same(K.cov(X, X), ref_cov(sp, c['X'], c['X']),
             'covariance after setting the hyper-parameters', 1e-9, 1e-11)
    K.set_param(K.get_param())
    same(K.get_param(), c['th'], 'hyper-parameters written back', 1e-12, 1e-12)
    return kernel_label(c['k']), True


PRIORS = {'rbf': [(10, 0.1), (3.0, 0.4)], 'zeroed': [(10, 0.1), (3.0, 0.4)],
          'periodic': [(4.0, 0.25), (3.0, 0.2), (2.0, 0.5)],
          'linear': [(4.0, 0.25), (3.0, 0.2), (2.0, 0.5)]}


def priors(K):
    """shape and scale of each hyper-parameter's prior, as the kernel declares them"""
    if isinstance(K, lop.DualKern):
        return priors(K.a) + priors(K.b)
    if isinstance(K, lop.RBF_kern):
        names = ['sigma', 'l']
    elif isinstance(K, lop.PeriodicKern):
        names = ['sigma', 'l', 'p']
    else:
        names = ['sigma', 'sigma_b', 'c']
    return [(getattr(K, n + '_k'), getattr(K, n + '_theta')) for n in names]


@st.composite
def s_prior(draw):
    d = draw(st.integers(1, 3))
    spec = draw(kernel_spec(d, depth=2))
    n = len(kernel_theta(spec))
    th = draw(vec(n, 0.1, 4))
    if draw(st.integers(0, 3)) == 3:
        u = draw(st.sampled_from([0.01, 0.001, 20]))
        th = [u * t for t in th]
    return dict(k=spec, th=th, rs=draw(seeds),
                pri=[[draw(grid(1.0, 8, 0.5)), draw(grid(0.1, 1, 0.1))] for _ in range(3)],
                custom=draw(st.booleans()))


def set_priors(K, pri):
    if isinstance(K, lop.DualKern):
        set_priors(K.a, pri)
        set_priors(K.b, pri[1:] + pri[:1])
        return
    names = ['sigma', 'l'] if isinstance(K, lop.RBF_kern) else \
        ['sigma', 'l', 'p'] if isinstance(K, lop.PeriodicKern) else ['sigma', 'sigma_b', 'c']
    for n, (k, t) in zip(names, pri):
        setattr(K, n + '_k', k)
        setattr(K, n + '_theta', t)


def run_prior(c):
    K = build_kernel(c['k'])
    if c['custom']:
        set_priors(K, c['pri'])
    pr = priors(K)
    th = c['th']
    K.set_param(np.array(th))
    ll = sum(sps.gamma.logpdf(x, k, scale=t) for x, (k, t) in zip(th, pr))
    same(K.param_likli(), ll, 'prior log likelihood of the hyper-parameters', 1e-9, 1e-9)
    g = np.asarray(K.grad_param_likli(), dtype=float)
    same(g, [(k - 1) / x - 1 / t for x, (k, t) in zip(th, pr)],
         'gradient of the prior log likelihood', 1e-9, 1e-9)
    # no prior probability for negative parameters
    i = c['rs'] % len(th)
    K.set_param(np.array([-t if j == i else t for j, t in enumerate(th)]))
    v = float(K.param_likli())
    check(v == -np.inf, 'prior log likelihood %s of the negative hyper-parameter %d', v, i)
    return ('custom' if c['custom'] else 'default'), True


def run_draw(c):
    K = build_kernel(c['k'])
    if c['custom']:
        set_priors(K, c['pri'])
    pr = priors(K)
    before = np.array(K.get_param())
    N = 1500
    S = np.array([K.randomize_hyper() for _ in range(N)], dtype=float)
    check(S.shape == (N, len(pr)), 'random hyper-parameters have shape %s', S.shape)
    check((S > 0).all(), 'non-positive random hyper-parameter')
    same(K.get_param(), before, 'hyper-parameters after drawing', 1e-12, 1e-12)
    for i, (k, t) in enumerate(pr):
        m, v = k * t, k * t * t
        check(abs(S[:, i].mean() - m) < 7 * math.sqrt(v / N),
              'random hyper-parameter %d has mean %g, prior mean %g', i, S[:, i].mean(), m)
        # the variance of the sample variance of a gamma: v^2 (2 + 6/k) / N
        check(abs(S[:, i].var() - v) < 8 * v * math.sqrt((2 + 6.0 / k) / N),
              'random hyper-parameter %d has variance %g, prior variance %g',
              i, S[:, i].var(), v)
    return 'draw', True


SUBS = [
    Sub('gradient', s_grad(), run_grad, quick=2000, thorough=60000),
    Sub('parameters', s_param(), run_param, quick=1500, thorough=40000),
    Sub('prior', s_prior(), run_prior, quick=1000, thorough=30000),
    Sub('prior_draws', s_prior(), run_draw, quick=150, thorough=3000),
]
