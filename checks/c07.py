from common import *
from labels import *
import lop
import scipy.stats as sps
import scipy.integrate as si

PROPERTY = 'C07'
RULE = ('a case is non-trivial when it has at least one label; distinct = distinct generated '
        '(labels, latent values, parameters)')
ASSUMPTIONS = ['latent values in [-4, 4] and noise scales 0.2..2, or both in another unit '
               '(0.002 to 30); precision 0.2..150; pairwise '
               'arguments beyond 30 standard deviations are clipped by design and not generated',
               'the density of bounded ratings is integrated by adaptive quadrature (rel. 1e-6)']

latent = lambda n: vec(n, -4, 4, 0.05)


@st.composite
def s_pair(draw):
    n = draw(st.integers(2, 7))
    pairs = draw(st.lists(st.tuples(st.sampled_from([-1, 1]), st.integers(0, n - 1),
                                    st.integers(0, n - 1)), min_size=1, max_size=8))
    pairs = [[d, u, v if v != u else (u + 1) % n] for d, u, v in pairs]
    return dict(F=draw(latent(n)), pairs=pairs, sigma=draw(grid(0.2, 2, 0.05)),
                shift=draw(grid(-5, 5, 0.5)))


def run_pair(c):
    F, y, s = arr(c['F']), arr(c['pairs'], int), c['sigma']
    P = lop.PreferenceProbit(sigma=s)
    L = P.likelihood(y, F)
    # the label (-1, u, v) states that sample u is preferred over sample v
    win = [(u, v) if d == -1 else (v, u) for d, u, v in c['pairs']]
    ref = np.array([sps.norm.cdf((F[a] - F[b]) / (math.sqrt(2) * s)) for a, b in win])
    same(L, ref, 'probability of each pairwise label', 1e-9, 1e-14)
    check(((L >= 0) & (L <= 1)).all(), 'probability outside [0, 1]')
    same(P.log_likelihood(y, F), np.sum([sps.norm.logcdf((F[a] - F[b]) / (math.sqrt(2) * s))
                                         for a, b in win]), 'log likelihood of the labels',
         1e-9, 1e-9)
    opp = y.copy()
    opp[:, 0] *= -1
    same(L + P.likelihood(opp, F), np.ones(len(y)), 'both outcomes of a comparison', 0, 1e-9)
    sw = y[:, [0, 2, 1]] * np.array([-1, 1, 1])
    same(P.likelihood(sw, F), L, 'the same preference stated the other way round', 1e-9, 1e-12)
    same(P.likelihood(y, F + c['shift']), L, 'preference after adding a constant', 1e-8, 1e-12)
    A = P.likelihood_all_pairs(F)
    refA = np.array([[sps.norm.cdf((a - b) / (math.sqrt(2) * s)) for b in F] for a in F])
    same(A, refA, 'table of pairwise win probabilities', 1e-9, 1e-14)
    # raising the preferred sample never lowers the probability of its label
    a, b = win[0]
    G = F.copy()
    G[a] += 0.7 * c.get('unit', 1)
    if a != b:
        check(P.likelihood(y[:1], G)[0] >= L[0], 'label got less likely as its winner rose')
        check(P.likelihood(y[:1], G)[0] > L[0] or L[0] > 1 - 1e-9 or
              abs(F[a] - F[b]) / s > 10, 'likelihood ignores the winner')
    return 'pairs%d' % min(3, len(y)), True


@st.composite
def s_ord(draw):
    n = draw(st.integers(1, 6))
    k = draw(st.integers(3, 9))
    m = draw(st.integers(1, 6))
    return dict(F=draw(latent(n)), k=k, sigma=draw(grid(0.2, 2, 0.05)), br=draw(s_breaks(k)),
                y=draw(st.lists(st.integers(1, k), min_size=m, max_size=m)),
                idx=draw(st.lists(st.integers(0, n - 1), min_size=m, max_size=m)))


def run_ord(c):
    F, k = arr(c['F']), c['k']
    P = ordinal_with(c['br'], k, c['sigma'])
    br = stated_breaks(c['br'], k)
    same(P.b[1:-1], br[1:-1], 'category boundaries', 1e-9, 1e-9)
    y = (arr(c['y'], int), arr(c['idx'], int))
    L = P.likelihood_each(y, F)
    ref = np.array([p_ord(F[i], r, c['sigma'], br) for r, i in zip(c['y'], c['idx'])])
    same(L, ref, 'probability of each rating', 1e-9, 1e-13)
    same(P.likelihood(y, F), np.prod(ref), 'likelihood of all ratings', 1e-7, 1e-13)
    if ref.min() > 1e-7:
        same(P.log_likelihood(y, F), np.sum(np.log(ref)), 'log likelihood of all ratings',
             1e-6, 1e-6)
    # the categories cover everything
    for i in range(len(F)):
        cats = P.likelihood_each((np.arange(1, k + 1), np.full(k, i)), F)
        check((cats >= -1e-15).all(), 'negative rating probability %s', cats)
        same(np.sum(cats), 1.0, 'sum over all ratings', 0, 1e-9)
    # the expected rating does not fall when the latent value rises
    fs = np.sort(F)
    ev = [np.dot(np.arange(1, k + 1), P.likelihood_each((np.arange(1, k + 1), np.full(k, i)), fs))
          for i in range(len(fs))]
    check((np.diff(ev) >= -1e-9).all(), 'expected rating falls as the latent value rises')
    bad = (np.array([0]), np.array([0]))
    try:
        P.likelihood(bad, F)
    except Exception:
        pass
    else:
        fail('a rating of 0 was accepted')
    return '%s,%s' % (c['br']['form'], c['br']['via']), True


@st.composite
def s_abs(draw):
    n = draw(st.integers(1, 6))
    m = draw(st.integers(1, 6))
    s = draw(grid(0.5, 2, 0.05))
    F = draw(vec(n, -2.5, 2.5))
    if draw(st.sampled_from([False, False, True])):     # expected ratings at the very ends
        F = [s * math.sqrt(2) * q for q in draw(vec(n, -5.6, 5.6, 0.1))]
    return dict(F=F, sigma=s,
                v=draw(st.one_of(grid(2, 150, 1), grid(2, 150, 1), grid(0.2, 2.0, 0.1))), y=draw(vec(m, 0.01, 0.99, 0.01)),
                idx=draw(st.lists(st.integers(0, n - 1), min_size=m, max_size=m)))


def run_abs(c):
    F, s, v = arr(c['F']), c['sigma'], c['v']
    P = lop.AbsBoundProbit(sigma=s, v=v)
    y = (arr(c['y']), arr(c['idx'], int))
    m = sps.norm.cdf(F / (math.sqrt(2) * s))
    o = sps.norm.sf(F / (math.sqrt(2) * s))
    same(P.mean_link(F), m, 'expected rating of each sample', 1e-8, 1e-9)
    ref = np.sum([sps.beta.logpdf(r, v * m[i], v * o[i]) for r, i in zip(*y)])
    tol = 1e-8 + 1e-14 / min(o)
    same(P.log_likelihood(y, F), ref, 'log likelihood of the ratings', 1e-8, tol)
    same(P.likelihood(y, F), np.exp(ref), 'likelihood of the ratings', 1e-7 + 10 * tol, 1e-12)
    f1 = F[:1]
    for q in c['y'][:2]:
        same(P.cdf(np.array([q]), f1), [sps.beta.cdf(q, v * m[0], v * o[0])],
             'cumulative probability of a rating', 1e-8, 1e-9)
    # density integrates to one with the linked mean (smooth cases only)
    if v * m[0] > 1.5 and v * (1 - m[0]) > 1.5:
        g = lambda t: float(P.likelihood((np.array([t]), np.array([0])), f1))
        sd = math.sqrt(m[0] * (1 - m[0]) / (v + 1))
        tot = si.quad(g, 0, 1, points=[m[0], max(1e-9, m[0] - 4 * sd),
                                       min(1 - 1e-9, m[0] + 4 * sd)], limit=200)[0]
        mean = si.quad(lambda t: t * g(t), 0, 1, points=[m[0], max(1e-9, m[0] - 4 * sd),
                                                         min(1 - 1e-9, m[0] + 4 * sd)],
                       limit=200)[0]
        same(tot, 1.0, 'integral of the rating density', 0, 1e-5)
        same(mean, m[0], 'mean of the rating density', 0, 1e-5)
        return 'integrated', True
    return ('far' if min(min(m), min(o)) < 1e-4 else 'pointwise'), True


# likelihood of mixed label sets, as a model sees them
@st.composite
def s_mix(draw):
    n = draw(st.integers(2, 6))
    pairs = draw(st.lists(st.tuples(st.sampled_from([-1, 1]), st.integers(0, n - 1),
                                    st.integers(0, n - 1)), max_size=5))
    pairs = [[d, u, v if v != u else (u + 1) % n] for d, u, v in pairs]
    k = draw(st.integers(0, 4))
    m = draw(st.integers(0, 4))
    ix = lambda q: draw(st.lists(st.integers(0, n - 1), min_size=q, max_size=q))
    return dict(F=draw(vec(n, -2, 2)), X=draw(matrix(n, 2)), pairs=pairs,
                ords=[draw(st.lists(st.integers(1, 5), min_size=k, max_size=k)), ix(k)],
                abs=[draw(vec(m, 0.01, 0.99, 0.01)), ix(m)],
                linear=draw(st.booleans()))


def run_mix(c):
    F, X = arr(c['F']), arr(c['X'])
    m = lop.PreferenceGP(lop.RBF_kern(1.0, 1.0))
    y = [None, None, None]
    ref = 0.0
    if c['pairs']:
        y[0] = arr(c['pairs'], int)
        ref += sum(float(np.real(ll_pref(F[v] - F[u], d, m.probits[0].sigma)))
                   for d, u, v in c['pairs'])
    if c['ords'][0]:
        y[1] = (arr(c['ords'][0], int), arr(c['ords'][1], int))
        p = m.probits[1]
        pr = [p_ord(F[i], r, p.sigma, p.b) for r, i in zip(*c['ords'])]
        if min(pr) < 1e-7:
            raise Reject
        ref += sum(math.log(q) for q in pr)
    if c['abs'][0]:
        y[2] = (arr(c['abs'][0]), arr(c['abs'][1], int))
        p = m.probits[2]
        ref += sum(float(np.real(ll_abs(F[i], r, p.sigma, p.v))) for r, i in zip(*c['abs']))
    same(m.log_likelyhood_training(F, y), ref, 'log likelihood of all labels', 1e-6, 1e-6)
    # the joint objective adds the log prior of the latent values
    K = m.cov_func.cov(X, X)
    L = np.linalg.cholesky(K)
    quad = -0.5 * F @ np.linalg.solve(K, F) - 0.5 * np.linalg.slogdet(K)[1] \
        - 0.5 * len(F) * math.log(2 * math.pi)
    same(m.likli_f(F, X, y, K, L), ref + quad, 'joint log density', 1e-5, 1e-5)
    kinds = [k for k, v in zip(['pairs', 'ordinal', 'abs'], y) if v is not None]
    return ','.join(kinds) or 'none', bool(kinds)


SUBS = [
    Sub('pairwise', in_unit(s_pair()), run_pair, quick=2500, thorough=60000),
    Sub('ordinal', in_unit(s_ord()), run_ord, quick=2500, thorough=60000),
    Sub('bounded', in_unit(s_abs()), run_abs, quick=500, thorough=15000),
    Sub('training_set', s_mix(), run_mix, quick=1500, thorough=40000),
]
