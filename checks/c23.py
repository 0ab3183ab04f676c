import random
from learners import *
import lop
from lop.utilities import metropolis_hastings, sample_unique_sets, calc_cdf
import lop.utilities.gamma_dist as G
import lop.utilities.sample_utility as SU
from scipy import stats

PROPERTY = 'C23'
RULE = ('a case is non-trivial when the target or the covariance is not the trivial one (constant '
        'density, one variable, all subsets); distinct = distinct (target, parameters)')
ASSUMPTIONS = [
    'sampled distributions: frequencies within 7 standard deviations of their sampling error, which '
    'is known exactly for two-state and independent chains and estimated from batches otherwise',
    'approxcdf is not installed; the arguments handed to it are checked, and its answer is '
    'replaced by the exact one',
    'gamma parameters 0.5 to 12 and 0.05 to 3',
    'the switching approximation of the normal probability is exact, and compared, when every '
    'variable is correlated with at most one other']


# ---- Markov chain with two states: jumps between them follow the acceptance rule exactly
@st.composite
def s_two(draw):
    return dict(a=draw(grid(-3, 3, 0.25)), burn=draw(st.sampled_from([0, 0, 1, 50])),
                n=draw(st.integers(1, 2000)), d=draw(st.integers(1, 3)), rs=draw(seeds),
                c=draw(grid(-50, 50, 5)))


def run_two(c):
    a, d = c['a'], c['d']
    seen = []

    def ll(x):
        check(np.shape(x) == (d,), 'state of shape %s', np.shape(x))
        seen.append(np.array(x))
        return (a if x[0] > 0 else 0.0) + c['c']

    def flip(x):
        return -np.asarray(x)
    S = np.array(metropolis_hastings(ll, c['n'], dim=d, num_to_burn=c['burn'], prop_distribution=flip))
    check(S.shape == (c['n'], d), '%d samples in %d dimensions have shape %s', c['n'], d, S.shape)
    check((np.abs(seen[0]) <= 1).all(), 'the chain starts at %s', seen[0])
    check((np.abs(S) == np.abs(seen[0])).all(), 'the chain left the proposed states')
    up = S[:, 0] > 0
    n = len(up)
    # moves to the better state are always made, to the worse one with exp(-|a|)
    q = math.exp(-abs(a))
    better = up if a > 0 else ~up
    if a != 0:
        stay = np.where(better[:-1])[0]
        down = sum(1 for i in stay if not better[i + 1])
        sd = math.sqrt(len(stay) * q * (1 - q)) + 1
        check(abs(down - q * len(stay)) <= 7 * sd, 'the worse state (difference %s) was accepted %d '
              'times of %d', a, down, len(stay))
        for i in np.where(~better[:-1])[0]:
            check(better[i + 1], 'the better state was refused')
    elif n > 1:
        check((up[:-1] != up[1:]).all(), 'an equally good state was refused')
    return 'a%d' % round(a), a != 0 and n > 50


# ---- independent proposals: the chain is exactly reproducible from its proposals
@st.composite
def s_walk(draw):
    return dict(kind=draw(st.sampled_from(['up', 'wall', 'const'])), n=draw(st.integers(1, 60)),
                burn=draw(st.integers(0, 40)), d=draw(st.integers(1, 3)), rs=draw(seeds))


def run_walk(c):
    n, b, d = c['n'], c['burn'], c['d']
    props, start = [], []

    def ll(x):
        if not start:
            start.append(np.array(x))
        if c['kind'] == 'up':
            return float(np.sum(x))
        if c['kind'] == 'wall':
            return 0.0 if x[0] < 5 else -math.inf
        return 0.0

    def prop(x):
        props.append(np.asarray(x) + 1.0)
        return props[-1]
    check(np.shape(metropolis_hastings(lambda x: 0.0, n)) == (n, 1), 'samples without a dimension')
    S = np.array(metropolis_hastings(ll, n, dim=d, num_to_burn=b, prop_distribution=prop))
    check(S.shape == (n, d), 'samples of shape %s', S.shape)
    for i in range(n):
        k = b + i + 1
        if c['kind'] == 'wall':
            k = min(k, int(math.ceil(5 - start[0][0])) - 1)
        same(S[i], start[0] + k, 'sample %d after %d burnt (%s)' % (i, b, c['kind']), 1e-9, 1e-9)
    return c['kind'], n > 1


# ---- several states: every step follows from the densities of the state and of the proposal
@st.composite
def s_steps(draw):
    k = draw(st.sampled_from([3, 3, 4, 5, 7]))
    return dict(L=draw(st.lists(grid(-5, 5, 0.25), min_size=k, max_size=k)), rs=draw(seeds),
                kind=draw(st.sampled_from(['ring', 'any'])), n=draw(st.integers(1, 1500)),
                burn=draw(st.sampled_from([0, 0, 7, 200])))


def run_steps(c):
    L, k = c['L'], len(c['L'])
    # the sampler's own start is mapped to a state, then it only moves between whole numbers
    where, trail = [], []

    def state(x):
        return int(round(float(x[0]))) % k

    def ll(x):
        return L[state(x)]

    def prop(x):
        s = state(x)
        t = (s + rng.choice([-1, 1])) % k if c['kind'] == 'ring' else rng.randrange(k)
        trail.append((s, t))
        return np.array([float(t)])
    rng = random.Random(c['rs'])
    S = np.array(metropolis_hastings(ll, c['n'], num_to_burn=c['burn'], prop_distribution=prop))
    got = [state(x) for x in S]
    check(len(got) == c['n'], '%d samples, not %d', len(got), c['n'])
    check(len(trail) == c['n'] + c['burn'], '%d steps for %d samples and %d burnt', len(trail), c['n'],
          c['burn'])
    after = [s for s, t in trail[1:]] + got[-1:]
    check(got == after[c['burn']:], 'the samples are not the states of the chain')
    cnt = {}
    for (s, t), a in zip(trail, after):
        check(a in (s, t), 'from %d with proposal %d to %d', s, t, a)
        if L[t] >= L[s]:
            check(a == t, 'the step from density %s to %s was refused', L[s], L[t])
        else:
            cnt.setdefault((s, t), []).append(a == t)
    for (s, t), v in cnt.items():
        q, m = math.exp(L[t] - L[s]), len(v)
        check(abs(sum(v) - q * m) <= 7 * math.sqrt(m * q * (1 - q)) + 3, 'the step from density %s to '
              '%s was made %d times of %d', L[s], L[t], sum(v), m)
    return c['kind'], len(set(L)) > 2 and c['n'] > 50


# ---- the usual proposals sample the target
@st.composite
def s_target(draw):
    d = draw(st.integers(1, 2))
    return dict(kind=draw(st.sampled_from(['normal', 'box', 'exp'])), d=d,
                mu=draw(vec(d, -1, 1, 0.25)), s=draw(vec(d, 0.5, 2, 0.25)), rs=draw(seeds))


def run_target(c):
    d, mu, s = c['d'], arr(c['mu']), arr(c['s'])
    n = 12000
    if c['kind'] == 'normal':
        ll = lambda x: -0.5 * np.sum(((x - mu) / s) ** 2)
        u = lambda X: sc.ndtr((X - mu) / s)
    elif c['kind'] == 'box':
        ll = lambda x: 0.0 if (np.abs(x) <= 2 * s).all() else -np.inf
        u = lambda X: (X + 2 * s) / (4 * s)
    else:
        # the chain may start below zero, where the density is flat and low
        ll = lambda x: -np.sum(np.abs(x) / s)
        u = lambda X: np.where(X > 0, 1 - 0.5 * np.exp(-np.abs(X) / s), 0.5 * np.exp(-np.abs(X) / s))
    X = np.array(metropolis_hastings(ll, n, dim=d))
    check(X.shape == (n, d) and finite(X), 'samples of shape %s', X.shape)
    U = u(X)
    for j in range(d):
        for t, v in (('mean', U[:, j] - 0.5), ('square', (U[:, j] - 0.5) ** 2 - 1 / 12.0),
                     ('lower quarter', (U[:, j] < 0.25) - 0.25),
                     ('upper quarter', (U[:, j] > 0.75) - 0.25)):
            b = v.reshape(40, -1).mean(axis=1)
            se = b.std(ddof=1) / math.sqrt(40)
            check(abs(v.mean()) < 7 * se + 0.004, '%s of the samples in their distribution is off by '
                  '%s (error %s)', t, v.mean(), se)
    if d == 2:
        v = (U[:, 0] - 0.5) * (U[:, 1] - 0.5)
        se = v.reshape(40, -1).mean(axis=1).std(ddof=1) / math.sqrt(40)
        check(abs(v.mean()) < 7 * se + 0.004, 'independent coordinates are correlated: %s', v.mean())
    return c['kind'], True


# ---- gamma distribution
def run_gamma(c):
    k, t = c['k'], c['t']
    x = arr(c['x'])
    same(G.pdf_gamma(x, k, t), stats.gamma.pdf(x, k, scale=t), 'density', 1e-8, 1e-12)
    same(G.log_pdf_gamma(x, k, t), stats.gamma.logpdf(x, k, scale=t), 'log density', 1e-8, 1e-8)
    same(np.exp(G.log_pdf_gamma(x, k, t)), G.pdf_gamma(x, k, t), 'density and log density', 1e-7,
         1e-12)
    for v in c['x']:
        h = 1e-5 * v
        same(G.d_log_pdf_gamma(v, k, t), (stats.gamma.logpdf(v + h, k, scale=t) -
                                          stats.gamma.logpdf(v - h, k, scale=t)) / (2 * h),
             'derivative of the log density at %s' % v, 1e-4, 1e-4)
        same(float(G.log_pdf_gamma(v, k, t)), stats.gamma.logpdf(v, k, scale=t), 'log density', 1e-8,
             1e-8)
    neg = -x
    check((G.log_pdf_gamma(neg, k, t) == -np.inf).all(), 'log density below zero %s',
          G.log_pdf_gamma(neg, k, t))
    check(finite(G.log_pdf_gamma(np.zeros(1), k, t)) and finite(G.d_log_pdf_gamma(0.0, k, t)),
          'not finite at zero')
    return 'k<1' if k < 1 else 'k>=1', True


# ---- sets
@st.composite
def s_sets(draw):
    n = draw(st.integers(1, 9))
    k = draw(st.integers(1, n))
    m = draw(st.integers(1, math.comb(n, k)))
    src = draw(st.sampled_from(['int', 'list', 'array']))
    items = sorted(draw(st.lists(st.integers(0, 50), min_size=n, max_size=n, unique=True)))
    return dict(n=n, k=k, m=m, src=src, items=items, rs=draw(seeds))


def run_sets(c):
    n, k, m = c['n'], c['k'], c['m']
    items = list(range(n)) if c['src'] == 'int' else c['items']
    s = n if c['src'] == 'int' else list(items) if c['src'] == 'list' else np.array(items)
    S = sample_unique_sets(s, m, k)
    check(np.shape(S) == (m, k), '%d sets of %d have shape %s', m, k, np.shape(S))
    check(np.issubdtype(S.dtype, np.integer), 'sets of %s', S.dtype)
    rows = [tuple(int(x) for x in r) for r in S]
    check(all(set(r) <= set(items) and len(set(r)) == k for r in rows), 'sets %s of %s', rows, items)
    check(len(set(frozenset(r) for r in rows)) == m, 'a set was given twice: %s', rows)
    T = SU.sample_nonunique_sets(s, m, k)
    check(np.shape(T) == (m, k) and all(set(r) <= set(items) and len(set(r)) == k
                                        for r in T.tolist()), 'sets %s of %s', T, items)
    return 'all' if m == math.comb(n, k) else 'some', m < math.comb(n, k)


def run_sets_even(c):
    """every element is equally likely to be in a set"""
    n, k = c['n'], c['k']
    N = 600
    cnt = np.zeros(n)
    for _ in range(N):
        for i in np.ravel(sample_unique_sets(n, 1, k)):
            cnt[i] += 1
    p = k / float(n)
    sd = math.sqrt(N * p * (1 - p))
    check((np.abs(cnt - N * p) <= 6 * sd + 1e-9).all(), 'elements were drawn %s times of %d', cnt, N)
    return 'k%d' % k, k < n


# ---- probability that all variables are below zero
@st.composite
def s_cdf(draw):
    n = draw(st.integers(1, 4))
    A = draw(matrix(n, n, -1, 1, 0.1))
    return dict(n=n, mu=draw(vec(n, -2, 2, 0.1)), A=A, jit=draw(grid(0.1, 1, 0.1)),
                shape=draw(st.sampled_from(['full', 'diag', 'pairs', 'pairs'])),
                order=draw(st.permutations(range(n))), rs=draw(seeds))


def bvn(mu, C):
    """P(both below zero) by one-dimensional integration"""
    from scipy.integrate import quad
    s1 = math.sqrt(C[0][0])
    rho = C[0][1] / C[0][0]
    s2 = math.sqrt(C[1][1] - C[0][1] ** 2 / C[0][0])
    lim = -mu[0] / s1
    f = lambda z: math.exp(-0.5 * z * z) / math.sqrt(2 * math.pi) * sc.ndtr(
        (-mu[1] - rho * s1 * z) / s2)
    return quad(f, lim - 12, lim, points=None, limit=200, epsabs=1e-10)[0] if lim > -12 else 0.0


def run_cdf(c):
    prepare()
    n, mu = c['n'], arr(c['mu'])
    A = arr(c['A'])
    C = A @ A.T + c['jit'] * np.eye(n)
    if c['shape'] != 'full':
        keep = np.eye(n)
        if c['shape'] == 'pairs':
            o = c['order']
            for i in range(0, n - 1, 2):
                keep[o[i], o[i + 1]] = keep[o[i + 1], o[i]] = 1
        C = C * keep
    exact = None
    if c['shape'] == 'diag' or n == 1:
        exact = np.prod([sc.ndtr(-m / math.sqrt(v)) for m, v in zip(mu, np.diag(C))])
    elif n == 2:
        exact = bvn(mu, C)
    elif c['shape'] == 'pairs':
        o = c['order']
        exact = 1.0
        for i in range(0, n, 2):
            if i + 1 < n:
                j = [o[i], o[i + 1]]
                exact *= bvn(mu[j], C[np.ix_(j, j)])
            else:
                exact *= sc.ndtr(-mu[o[i]] / math.sqrt(C[o[i], o[i]]))
    m0, C0 = mu.copy(), C.copy()
    p = {k: float(calc_cdf(mu, C, method=k)) for k in ('full', 'mvn', 'auto', 'independent', 'switch')}
    check((mu == m0).all() and (C == C0).all(), 'the mean or covariance was changed')
    for k, v in p.items():
        check(-1e-9 <= v <= 1 + 1e-9, 'probability %s by %s', v, k)
    same(p['auto'], p['mvn'], 'automatic method', 1e-3, 1e-4)
    same(float(calc_cdf(mu, C)), p['mvn'], 'default method', 1e-3, 1e-4)
    same(p['mvn'], p['full'], 'methods agree', 1e-2, 1e-3)
    ind = np.prod([sc.ndtr(-m / math.sqrt(v)) for m, v in zip(mu, np.diag(C))])
    same(p['independent'], ind, 'independent approximation', 1e-8, 1e-12)
    if exact is not None:
        for k in ('full', 'mvn', 'switch'):
            same(p[k], exact, 'probability by ' + k, 1e-3, 2e-5 if n <= 2 else 1e-4)
    else:
        # sampling
        X = np.random.multivariate_normal(mu, C, size=4000)
        f = np.mean((X <= 0).all(axis=1))
        check(abs(f - p['full']) < 6 * math.sqrt(p['full'] * (1 - p['full']) / 4000) + 0.002,
              'probability %s, sampled %s', p['full'], f)
    up = float(calc_cdf(mu + 0.5, C, method='switch'))
    check(up <= p['switch'] + 1e-4, 'higher means raised the probability from %s to %s', p['switch'],
          up)
    return c['shape'] + ',n%d' % n, n > 1 and c['shape'] != 'diag'


SUBS = [
    Sub('acceptance', s_two(), run_two, quick=400, thorough=8000),
    Sub('walk', s_walk(), run_walk, quick=600, thorough=15000),
    Sub('steps', s_steps(), run_steps, quick=400, thorough=10000),
    Sub('target', s_target(), run_target, quick=40, thorough=700),
    Sub('gamma', st.fixed_dictionaries(dict(
        k=grid(0.5, 12, 0.1), t=grid(0.05, 3, 0.05),
        x=st.lists(grid(0.05, 6, 0.05), min_size=1, max_size=6))), run_gamma, quick=800,
        thorough=30000),
    Sub('sets', s_sets(), run_sets, quick=800, thorough=25000),
    Sub('sets_even', st.fixed_dictionaries(dict(n=st.integers(2, 6), k=st.integers(1, 4), rs=seeds))
        .filter(lambda c: c['k'] <= c['n']), run_sets_even, quick=40, thorough=600),
    Sub('normal_probability', s_cdf(), run_cdf, quick=500, thorough=12000),
]
