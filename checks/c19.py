from learners import *
import lop
from lop.utilities import p_human_choice, sample_human_choice
from scipy.special import logit, ndtr, expit

PROPERTY = 'C19'
RULE = ('a case is non-trivial when there are at least two options with different rewards; '
        'distinct = distinct (rewards, user, parameters)')
ASSUMPTIONS = [
    'rewards within +-5, in part within +-2000, up to 8 options, up to 6 rows; peakiness 0 to 50',
    'frequencies and moments: 6 standard deviations of their sampling error',
    'training a user: the probability it reaches is compared where some setting within the '
    'documented search range reaches it',
    'the sampled training of the first user accepts any setting whose sampled probability is within '
    '0.142 of the one wanted; further 0.12 are allowed for sampling']


def softmax(r, p):
    m = max(r)
    e = [math.exp(max((x - m) * p, -745.0)) for x in r]
    return [x / sum(e) for x in e]


# ---- choice probabilities
@st.composite
def s_prob(draw):
    n = draw(st.integers(1, 8))
    num = draw(st.sampled_from([grid(-5, 5, 0.25), grid(-5, 5, 0.25), grid(-2000, 2000, 50)]))
    row = st.lists(num, min_size=n, max_size=n)
    return dict(R=draw(st.lists(row, min_size=1, max_size=6)), p=draw(grid(0, 50, 0.25)),
                shift=draw(st.lists(grid(-20, 20, 0.5), min_size=6, max_size=6)),
                order=draw(st.permutations(range(n))), i=draw(st.integers(0, 5)))


def run_prob(c):
    R = c['R']
    A = arr(R)
    keep = A.copy()
    P = p_human_choice(A, c['p'])
    check((A == keep).all(), 'the rewards were changed')
    check(P.shape == A.shape and finite(P), 'probabilities %s', P)
    for r, p in zip(R, P):
        same(p, softmax(r, c['p']), 'choice probabilities of %s with peakiness %s' % (r, c['p']))
    same(P.sum(axis=1), np.ones(len(R)), 'sum of the probabilities')
    i = c['i'] % len(R)
    one = p_human_choice(arr(R[i]), c['p'])
    same(one, P[i], 'probabilities of a row alone and among others')
    same(p_human_choice(arr(R[i])), softmax(R[i], 1.0), 'default peakiness')
    same(p_human_choice(arr(R[i])[list(c['order'])], p=c['p']), P[i][list(c['order'])],
         'probabilities of reordered options')
    S = p_human_choice(A + arr(c['shift'][:len(R)])[:, None], c['p'])
    same(S, P, 'probabilities after adding a constant to the rewards', 1e-6, 1e-8)
    for a in range(len(R[i])):
        for b in range(len(R[i])):
            if R[i][a] > R[i][b]:
                check(P[i][a] >= P[i][b], 'a lower reward is more likely')
    return 'peak' if c['p'] > 1 else 'flat', len(set(R[i])) > 1


# ---- sampled choices
@st.composite
def s_sample(draw):
    n = draw(st.integers(1, 6))
    return dict(r=draw(vec(n, -3, 3, 0.25)), p=draw(grid(0, 3, 0.25)), rs=draw(seeds),
                one=draw(st.booleans()))


def freq(cnt, p, n, what):
    for i, (c, q) in enumerate(zip(cnt, p)):
        sd = math.sqrt(n * q * (1 - q)) + 1
        check(abs(c - n * q) <= 6 * sd, '%s: option %d chosen %d times of %d, expected %.1f', what,
              i, c, n, n * q)


def run_sample(c):
    r = arr(c['r'])
    p = softmax(c['r'], c['p'])
    N = 1500
    if c['one']:
        s = [sample_human_choice(r, c['p']) for _ in range(N)]
        check(all(np.ndim(x) == 0 for x in s), 'a single sample is %r', s[0])
    else:
        s = sample_human_choice(r, p=c['p'], samples=N)
        check(np.shape(s) == (N,), 'samples of shape %s', np.shape(s))
    s = np.array(s)
    check(((s >= 0) & (s < len(r))).all(), 'sampled an option that does not exist')
    freq(np.bincount(s.astype(int), minlength=len(r)), p, N, 'sampled choices')
    return 'one' if c['one'] else 'many', len(set(c['r'])) > 1


# ---- users
def linear(w):
    return lambda X: (np.asarray(X) * w).sum(axis=-1)


@st.composite
def s_user(draw):
    d = draw(st.integers(1, 3))
    n = draw(st.integers(1, 6))
    return dict(kind=draw(st.sampled_from(['Perfect', 'HumanChoice', 'HumanChoice2'])),
                X=draw(points(n, d, -1, 1, 0.1)), w=draw(vec(d, -1, 1, 0.1)),
                beta=draw(grid(0.1, 4, 0.1)), sigma=draw(grid(0.1, 2, 0.1)),
                kb=draw(st.one_of(st.none(), st.tuples(grid(0.5, 6, 0.5), grid(-2, 2, 0.25)))),
                i=draw(st.integers(0, 5)), form=draw(st.sampled_from(['one', 'row'])),
                rs=draw(seeds))


def run_user(c):
    X = arr(c['X'])
    n = len(X)
    f = linear(arr(c['w']))
    y = [float(v) for v in f(X)]
    i = c['i'] % n
    if c['kind'] == 'Perfect':
        u = lop.PerfectUser(f)
        best = int(u.choose(X))
        check(y[best] == max(y), 'chose %d with %s', best, y)
        pairs = u.choose_pairs(X)
        losers = [int(b) for _, a, b in pairs]
        check(all(d == -1 and y[a] == max(y) for d, a, _ in pairs), 'pairs %s of %s', pairs, y)
        check(len(set(int(a) for _, a, _ in pairs)) <= 1, 'several winners: %s', pairs)
        if n > 1:
            w = int(pairs[0][1])
            check(sorted(losers) == [j for j in range(n) if j != w], 'losers %s of %d options',
                  losers, n)
        else:
            check(pairs == [], 'pairs %s of one option', pairs)
        q = X[i] if c['form'] == 'one' else X[[i]]
        same(np.ravel(u.rate(q)), [expit(4 * y[i])], 'rating')
        r = np.ravel(u.rate(X))
        same(r, [expit(4 * v) for v in y], 'ratings of several options')
        return 'Perfect', len(set(y)) > 1
    cls = lop.HumanChoiceUser if c['kind'] == 'HumanChoice' else lop.HumanChoiceUser2
    u = cls(f)
    same([u.beta, u.sigma, u.bot_range, u.top_range], [1, 1, 0.1, 0.9], 'settings not given')
    u = cls(f, beta=c['beta'], sigma=c['sigma'])
    k, b = 4.0, 0.0
    if c['kb']:
        k, b = c['kb']
        u.k, u.b = k, b
    lat = [k * v + b for v in y]
    p = softmax(lat, c['beta'])
    N = 400
    cnt = np.bincount([int(u.choose(X)) for _ in range(N)], minlength=n)
    check(len(cnt) == n, 'chose an option that does not exist')
    freq(cnt, p, N, 'choices of the user')
    cnt = np.zeros(n)
    for _ in range(N):
        pairs = u.choose_pairs(X)
        check(len(pairs) == n - 1 and len(set(int(a) for _, a, _ in pairs)) <= 1 and
              all(d == -1 for d, _, _ in pairs), 'pairs %s of %d options', pairs, n)
        if n > 1:
            w = int(pairs[0][1])
            check(sorted(int(x) for _, _, x in pairs) == [j for j in range(n) if j != w],
                  'pairs %s of %d options', pairs, n)
            cnt[w] += 1
    if n > 1:
        freq(cnt, p, N, 'winners of the user\'s pairs')
    q = X[i] if c['form'] == 'one' else X[[i]]
    r = np.array([float(np.ravel(u.rate(q))[0]) for _ in range(N)])
    check(((r > 0) & (r < 1)).all(), 'rating outside of 0 to 1')
    moments(logit(r), lat[i], c['sigma'], 'rating')
    R = np.array([u.rate(X) for _ in range(N)])
    check(R.shape == (N, n), 'ratings of several options have shape %s', R.shape[1:])
    moments(logit(R)[:, i], lat[i], c['sigma'], 'rating among several options')
    if n > 1:
        Z = (logit(R) - arr(lat)) / c['sigma']
        rho = np.mean(Z[:, 0] * Z[:, 1])
        check(abs(rho) < 6 / math.sqrt(N), 'ratings of different options have correlation %s', rho)
    return c['kind'], len(set(y)) > 1


def moments(z, mu, s, what):
    n = len(z)
    check(abs(np.mean(z) - mu) <= 6 * s / math.sqrt(n), '%s: mean of the noisy value %s, expected '
          '%s', what, np.mean(z), mu)
    v = np.var(z)
    check(abs(v - s * s) <= 6 * s * s * math.sqrt(2.0 / n), '%s: variance of the noisy value %s, '
          'expected %s', what, v, s * s)


# ---- training a user to choose the better option with a given probability
@st.composite
def s_train2(draw):
    d = draw(st.integers(1, 2))
    m = draw(st.integers(2, 8))
    envs = draw(st.integers(1, 2))
    probs = draw(st.integers(1, 2))
    rew = [[draw(matrix(m, d, 0, 1, 0.05)) for _ in range(probs)] for _ in range(envs)]
    return dict(rew=rew, w=draw(vec(d, 0.1, 1, 0.1)), p=draw(grid(0.55, 0.95, 0.05)),
                ps=draw(st.one_of(st.none(), grid(0.55, 0.95, 0.05))),
                bot=draw(grid(0.05, 0.4, 0.05)), top=draw(grid(0.6, 0.95, 0.05)), rs=draw(seeds))


def bisect(f, lo, hi, inc):
    for _ in range(200):
        mid = 0.5 * (lo + hi)
        if (f(mid) > 0) == inc:
            hi = mid
        else:
            lo = mid
    return 0.5 * (lo + hi)


def run_train2(c):
    f = linear(arr(c['w']))
    rew = [[arr(r) for r in env] for env in c['rew']]
    vals = [f(r) for env in rew for r in env]
    lo, hi = min(v.min() for v in vals), max(v.max() for v in vals)
    if hi - lo < 0.05:
        raise Reject        # all options are equally good
    u = lop.HumanChoiceUser2(f, bot_range=c['bot'], top_range=c['top'])
    u.learn_beta(rew, c['p'], p_sigma=c['ps'])
    same(u.k * lo + u.b, logit(c['bot']), 'worst option on the rating scale', 1e-7, 1e-9)
    same(u.k * hi + u.b, logit(c['top']), 'best option on the rating scale', 1e-7, 1e-9)
    D = np.array([abs(u.k * (v[i] - v[j])) for v in vals for i in range(len(v)) for j in range(i)])
    if ((D > 0) & (D < 1e-9)).any():
        raise Reject        # a tie up to rounding
    D = D[D > 0]

    def choose(b):
        return np.mean(expit(b * D))

    def rate(s):
        return np.mean(ndtr(D / (SQ2 * s)))
    check(0.01 <= u.beta <= 200 and 0.001 <= u.sigma <= 5, 'settings %s, %s outside of the search '
          'range', u.beta, u.sigma)
    p, ps = c['p'], c['ps'] if c['ps'] is not None else c['p']
    if len(D) == 0:
        return 'ties', False
    best = min(max(p, choose(0.01)), choose(200))
    check(abs(choose(u.beta) - best) <= 0.01, 'chooses the better option with probability %s, '
          'wanted %s', choose(u.beta), p)
    best = min(max(ps, rate(5)), rate(0.001))
    check(abs(rate(u.sigma) - best) <= 0.01, 'rates the better option higher with probability %s, '
          'wanted %s', rate(u.sigma), ps)
    return 'reached' if abs(best - ps) < 1e-9 else 'limit', True


# ---- training by sampling
@st.composite
def s_train(draw):
    p = draw(st.sampled_from([0.6, 0.65, 0.7, 0.75, 0.8, 0.85, 0.9, 0.95]))
    return dict(p=p, ps=draw(st.sampled_from([None, 0.95 if p < 0.8 else 0.6, 1.55 - p])),
                n=draw(st.integers(45, 60)), Q=draw(st.sampled_from([2, 2, 3])),
                w=draw(vec(2, 0.1, 1, 0.1)), rs=draw(seeds),
                via=draw(st.sampled_from(['both', 'separate'])))


def run_train(c):
    X = np.random.random((c['n'], 2))
    f = linear(arr(c['w']))
    u = lop.HumanChoiceUser(f)
    for t in range(5):
        # an unlucky search is allowed to give up
        try:
            if c['via'] == 'both':
                u.learn_beta(X, c['p'], Q_size=c['Q'], p_sigma=c['ps'])
            else:
                u.learn_beta_pairwise(X, c['p'], c['Q'])
                u.learn_sigma(X, c['p'] if c['ps'] is None else c['ps'], c['Q'])
            break
        except Exception as e:
            check('Bad setting' in str(e), 'training failed: %r', e)
            check(t < 4, 'training for %s, %s failed again and again: %s', c['p'], c['ps'], e)
    Qs = np.array([np.random.choice(c['n'], c['Q'], replace=False) for _ in range(4000)])
    Y = u.k * f(X)[Qs] + u.b
    pm = np.mean([max(softmax(list(y), u.beta)) for y in Y])
    check(abs(pm - c['p']) < 0.142 + 0.12, 'the best option is chosen with probability %s, wanted '
          '%s', pm, c['p'])
    R = np.random.normal(Y, u.sigma)
    pr = np.mean(R.argmax(axis=1) == Y.argmax(axis=1))
    ps = c['ps'] if c['ps'] is not None else c['p']
    check(abs(pr - ps) < 0.142 + 0.12, 'the best option is rated best with probability %s, wanted %s',
          pr, ps)
    return 'Q%d' % c['Q'], True


SUBS = [
    Sub('probabilities', s_prob(), run_prob, quick=2000, thorough=80000),
    Sub('samples', s_sample(), run_sample, quick=150, thorough=3000),
    Sub('users', s_user(), run_user, quick=200, thorough=4000),
    Sub('train_exact', s_train2(), run_train2, quick=300, thorough=8000),
    Sub('train_sampled', s_train(), run_train, quick=16, thorough=300),
]
