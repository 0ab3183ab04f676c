from learners import *
import lop
from scipy import stats

PROPERTY = 'C24'
RULE = ('a case is non-trivial when there were at least two queries of different value to choose '
        'from; distinct = distinct (samples or model, query)')
ASSUMPTIONS = [
    'up to 7 candidates; predicted means and covariances are taken from the model (C04, C12 decide '
    'them)',
    'values that differ by less than 1e-9 count as equal',
    'approxcdf is not installed; the normal probabilities it computes come from scipy',
    'sampled quantities: 7 standard deviations of their sampling error',
    'with the default answer model the greedy Bayesian learner may report no gain at all '
    '(known finding); then any choice is accepted']


# ---- mutual information of the answer and the reward
def ref_mutual(R, p):
    """R: samples x options; bits"""
    Q = []
    for r in R:
        m = max(r)
        e = [math.exp((x - m) * p) for x in r]
        Q.append([x / sum(e) for x in e])
    M, n = len(R), len(R[0])
    mean = [sum(q[j] for q in Q) / M for j in range(n)]
    return sum(q[j] * math.log2(q[j] / mean[j]) for q in Q for j in range(n)
               if q[j] > 0 and mean[j] > 0) / M


@st.composite
def s_value(draw):
    n = draw(st.sampled_from([1, 2, 3, 4, 5, 6, 7]))
    M = draw(st.sampled_from([1, 2, 3, 4, 6, 8]))
    R = draw(st.lists(vec(n, -3, 3, draw(st.sampled_from([0.05, 1.0]))), min_size=M, max_size=M))
    big = draw(st.sampled_from([1, 1, 1, 200]))
    k = min(n, draw(st.sampled_from([1, 2, 2, 3, 4, 5])))
    return dict(R=[[big * x for x in r] for r in R], Q=list(draw(st.permutations(range(n))))[:k],
                p=draw(st.sampled_from([10, 10, 1, 0.25, 3])), order=draw(st.permutations(range(k))),
                rows=draw(st.permutations(range(M))), shift=draw(grid(-2, 2, 0.5)))


def run_value(c):
    al = lop.MutualInfoLearner()
    R, Q = arr(c['R']), c['Q']
    keep = R.copy()
    al.M, al.peakiness = len(R), c['p']
    v = float(al.calc_info_gain(list(Q), R))
    check((R == keep).all(), 'the rewards were changed')
    e = ref_mutual([[r[i] for i in Q] for r in c['R']], c['p'])
    same(v, e, 'information gain of query %s' % (Q,), 1e-7, 1e-9)
    check(-1e-9 <= v <= math.log2(len(Q)) + 1e-9, 'information gain %s with %d options', v, len(Q))
    check(v <= math.log2(len(R)) + 1e-9, 'information gain %s from %d samples', v, len(R))
    same(float(al.calc_info_gain([Q[i] for i in c['order']], R)), v, 'options in another order', 1e-7)
    same(float(al.calc_info_gain(list(Q), R[list(c['rows'])])), v, 'samples in another order', 1e-7)
    same(float(al.calc_info_gain(list(Q), R + c['shift'])), v, 'rewards moved by a constant', 1e-6,
         1e-7)
    return 'M%d,Q%d' % (len(R), len(Q)), e > 1e-6


# ---- selection of the mutual information learner
@st.composite
def s_mutual(draw):
    c = draw(model_case(('gp', 'GP', 'linear')))
    N = draw(st.sampled_from([1, 2, 3, 4, 5, 6, 7]))
    free = list(draw(st.permutations(range(N))))
    k = min(N - 1, draw(st.sampled_from([0, 1, 1, 1, 2, 3])))
    m = draw(st.sampled_from(range(1, N - k + 1)))
    return dict(m=c, X=draw(points(N, c['d'], -2, 2, 0.25)), prev=free[:k], idx=free[k:k + m],
                form=draw(st.sampled_from(['set', 'list'])), M=draw(st.sampled_from([75, 20])),
                fake=draw(st.sampled_from([False, False, True])), rs=draw(seeds),
                p=draw(st.sampled_from([10, 10, 2])))


def watch(al):
    """records the values the learner computes"""
    log = []
    real = al.calc_info_gain

    def calc(Q, all_w):
        v = real(Q, all_w)
        log.append(([int(i) for i in Q], np.array(all_w), float(v)))
        return v
    al.calc_info_gain = calc
    return log


def run_mutual(c):
    fake = (lambda X: 3.0 + np.sum(np.asarray(X) ** 2, axis=1)) if c['fake'] else None
    al = lop.MutualInfoLearner(fake)
    al.M, al.peakiness = c['M'], c['p']
    m = make_model(c['m'], al)
    X = arr(c['X'])
    mu, data = m.predict(X)
    mu = np.array(mu)
    if not finite(mu) or np.abs(mu).max() > 1e3:
        raise Reject        # weights hardly determined, see C13
    if c['fake'] and c['m']['model'] == 'linear' and not np.abs(X.sum(axis=0)).max() > 0:
        raise Reject        # every sample has mean 0, there is nothing to scale
    log = watch(al)
    idx = set(c['idx']) if c['form'] == 'set' else list(c['idx'])
    al.sel_metric = None
    sel = al.select_greedy(X, mu, data, idx, set(c['prev']))
    check(sel in c['idx'], 'selected %s of %s', sel, c['idx'])
    check(np.ndim(al.sel_metric) == 0 and al.sel_metric is not None, 'metric %s', al.sel_metric)
    nt = False
    if log:
        W = log[0][1]
        check(all(w.shape == W.shape and (w == W).all() for _, w, _ in log),
              'candidates were compared on different samples')
        check(W.shape == (c['M'], len(X)), 'samples of shape %s', W.shape)
        val = {j: ref_mutual([[w[i] for i in c['prev'] + [j]] for w in W], c['p']) for j in c['idx']}
        top = max(val.values())
        check(val[int(sel)] >= top - 1e-9, 'selected %s with information gain %s, the best is %s '
              '(after %s)', sel, val[int(sel)], val, c['prev'])
        same(float(al.sel_metric), val[int(sel)], 'reported metric', 1e-7, 1e-9)
        nt = top > min(val.values()) + 1e-6
        if fake is not None:
            # scaled to the mean of the given function
            if np.abs(W).max() < 1e6:
                same(W.mean(), fake(X).mean(), 'mean of the scaled samples', 1e-6)
        elif c['m']['model'] == 'linear':
            coef = np.linalg.lstsq(X, W.T, rcond=None)[0]
            same(X @ coef, W.T, 'rewards of samples are not linear', 1e-8, 1e-8 * np.abs(W).max())
        same_pt = [(i, j) for i in range(len(X)) for j in range(i) if (X[i] == X[j]).all()]
        if c['m']['model'] == 'linear':
            for i, j in same_pt:
                same(W[:, i], W[:, j], 'rewards of the same point', 1e-8, 1e-8)
    return '%s%s%s,prev%d' % (c['m']['model'], '' if has_data(c['m']) else ',no-data',
                              ',scaled' if c['fake'] else '', len(c['prev'])), nt


RX = [[1.0, 0.25], [0.25, 1.0], [-0.5, 0.75], [0.75, -0.5]]
_g = np.linspace(-12, 12, 161)
GRID = np.array([[a, b] for a in _g for b in _g])


def linear_posterior(y, sig, v):
    """weights of the grid points given ratings y of RX"""
    ml = np.clip(sc.ndtr(GRID @ arr(RX).T / (SQ2 * sig)), 1e-12, 1 - 1e-12)
    lp = stats.beta.logpdf(arr(y), v * ml, v * (1 - ml)).sum(axis=1)
    p = np.exp(lp - lp.max())
    p /= p.sum()
    P = p.reshape(161, 161)
    if max(P[:8].sum(), P[-8:].sum(), P[:, :8].sum(), P[:, -8:].sum()) > 1e-4 or p.max() > 0.1:
        raise Reject        # not determined on the grid
    return p


# ---- the samples follow the model
@st.composite
def s_samples(draw):
    kind = draw(st.sampled_from(['gp', 'GP', 'linear']))
    if kind == 'linear':
        y = draw(st.lists(grid(0.2, 0.8, 0.05), min_size=4, max_size=4))
        c = dict(model='linear', d=2, ops=[], rate=[RX, y], sig=draw(grid(0.5, 1, 0.1)),
                 v=draw(grid(3, 8, 1)))
    else:
        c = draw(model_case([kind], empty=True))
    return dict(m=c, X=draw(points(draw(st.integers(2, 4)), c['d'], -1, 1, 0.25)), rs=draw(seeds))


def run_samples(c):
    al = lop.MutualInfoLearner()
    al.M = n = 6000
    X = arr(c['X'])
    lin = c['m']['model'] == 'linear'
    if lin:
        m = lop.PreferenceLinear(active_learner=al)
        m.probits[2].set_sigma(c['m']['sig'])
        m.probits[2].set_v(c['m']['v'])
        m.add(arr(c['m']['rate'][0]), arr(c['m']['rate'][1]), type='abs')
    else:
        m = make_model(c['m'], al)
    mu, data = m.predict(X)
    mu = np.array(mu)
    if not finite(mu) or np.abs(mu).max() > 1e3:
        raise Reject
    log = watch(al)
    al.select_greedy(X, mu, data, list(range(len(X))), [])
    if not log:
        raise Reject
    W = log[0][1]
    if not lin:
        C = np.array(m.cov)
        s = np.sqrt(np.maximum(np.diagonal(C), 0))
        check((np.abs(W.mean(axis=0) - mu) <= 7 * s / math.sqrt(n) + 1e-6).all(),
              'mean of the samples %s, of the model %s', W.mean(axis=0), mu)
        Z = W - mu
        for i in range(len(X)):
            for j in range(i + 1):
                v = np.mean(Z[:, i] * Z[:, j])
                se = math.sqrt((max(0, C[i, i] * C[j, j]) + C[i, j] ** 2) / n)
                check(abs(v - C[i, j]) <= 7 * se + 1e-6, 'covariance of the samples %s, of the model '
                      '%s', v, C[i, j])
        return c['m']['model'] + ('' if has_data(c['m']) else ',no-data'), s.max() > 1e-3
    p = linear_posterior(c['m']['rate'][1], c['m']['sig'], c['m']['v'])
    for i in range(len(X)):
        f, w = np.tanh(GRID @ X[i]), np.tanh(W[:, i])
        b = w.reshape(30, -1).mean(axis=1)
        se = b.std(ddof=1) / math.sqrt(30)
        check(abs(w.mean() - f @ p) <= 7 * se + 0.01, 'samples of the reward of %s have mean %s, '
              'expected %s (error %s)', X[i], w.mean(), f @ p, se)
    return 'linear', True


# ---- information about which candidate is the best
def entropy(p):
    return -sum(x * math.log(x) for x in p if x > 0)


def answers(Q, pm, best, method):
    """probability of each option of the query being chosen, if best is known to be the best"""
    out = []
    for i, a in enumerate(Q):
        v = 1.0
        for j, b in enumerate(Q):
            if i == j:
                continue
            q = pm[a][b]
            if best is not None and a == best:
                q = dict(probit=max(q, 1 - q))[method] if method == 'probit' else float('0.' + method)
            v *= q
        out.append(v)
    s = sum(out)
    return [x / s for x in out]


def ref_gain(Q, pB, pm, method):
    pq = answers(Q, pm, None, method)
    cond = [answers(Q, pm, B if B in Q else None, method) for B in range(len(pB))]
    h = 0.0
    for i in range(len(Q)):
        post = [cond[B][i] * pB[B] for B in range(len(pB))]
        s = sum(post)
        h += pq[i] * entropy([x / s for x in post])
    return entropy(pB) - h


def ref_pair_gain(i, j, pB, pm, method):
    """gain of the pair of two different candidates"""
    def one(a, b):
        q = pm[a][b]
        post = []
        for B in range(len(pB)):
            v = q
            if B in (a, b):
                w = max(q, 1 - q) if method == 'probit' else float('0.' + method)
                v = w if B == a else 1 - w
            post.append(v * pB[B])
        s = sum(post)
        return q * entropy([x / s for x in post])
    return entropy(pB) - one(i, j) - one(j, i)


@st.composite
def s_bayes(draw, pair=False):
    N = draw(st.sampled_from([2, 3, 4, 5, 6, 7]))
    free = list(draw(st.permutations(range(N))))
    k = 0 if pair else min(N - 1, draw(st.sampled_from([1, 1, 2, 3])))
    m = draw(st.sampled_from(range(2 if pair else 1, N - k + 1)))
    w = draw(st.lists(st.integers(1, 20), min_size=N, max_size=N))
    if draw(st.integers(0, 3)) == 3:
        w[draw(st.integers(0, N - 1))] = 0
    return dict(N=N, prev=free[:k], idx=free[k:k + m], w=w, mu=draw(vec(N, -2, 2, draw(
        st.sampled_from([0.05, 0.5])))), method=draw(st.sampled_from(['99', '999', 'probit'])),
        model=draw(st.sampled_from(['gp', 'linear'])), rs=draw(seeds), sig=draw(grid(0.3, 2, 0.1)),
        form=draw(st.sampled_from(['list', 'set'])))


def bayes_setup(c, method=None):
    prepare()
    al = lop.BayesInfoGain(p_q_B_method=method or c['method'])
    m = lop.PreferenceGP(lop.RBF_kern(1.0, 1.0), active_learner=al) if c['model'] == 'gp' else \
        lop.PreferenceLinear(active_learner=al)
    m.probits[0].set_sigma(c['sig'])
    X = np.arange(2.0 * c['N']).reshape(-1, 2)
    m.add(np.vstack([X[:1] + 1, X[:1] - 1]), [lop.preference(0, 1)])
    pB = arr(c['w']) / sum(c['w'])
    al.p_B_pref_gp = al.p_B_pref_linear = lambda *a, **k: np.array(pB)
    mu = arr(c['mu'])
    pm = sc.ndtr((mu[:, None] - mu[None, :]) / (SQ2 * c['sig']))
    return al, X, mu, pB, pm


def run_greedy(c):
    al, X, mu, pB, pm = bayes_setup(c)
    idx = set(c['idx']) if c['form'] == 'set' else list(c['idx'])
    al.sel_metric = None
    sel = al.select_greedy(X, mu, None, idx, list(c['prev']))
    check(sel in c['idx'], 'selected %s of %s', sel, c['idx'])
    v = {j: ref_gain(c['prev'] + [j], pB, pm, c['method']) for j in c['idx']}
    top = max(v.values())
    if c['method'] == 'probit' and abs(al.sel_metric) < 1e-9:
        return 'greedy,probit,known', False     # see KNOWN
    same(float(al.sel_metric), v[int(sel)], 'reported information gain of %s after %s' % (
        sel, c['prev']), 1e-7, 1e-9)
    check(v[int(sel)] >= top - 1e-9, 'selected %s, information gains %s after %s', sel, v, c['prev'])
    # selecting again without a new query uses the same probabilities
    sel = al.select_greedy(X, mu, None, idx, list(c['prev']))
    check(v[int(sel)] >= top - 1e-9, 'selected %s the second time, information gains %s', sel, v)
    return 'greedy,%s' % c['method'], top > min(v.values()) + 1e-7


def run_pair(c):
    al, X, mu, pB, pm = bayes_setup(c)
    idx = set(c['idx']) if c['form'] == 'set' else list(c['idx'])
    al.sel_metric = None
    sel = [int(i) for i in al.select_pair(X, mu, None, idx, set())]
    check(len(sel) == 2 and sel[0] != sel[1] and set(sel) <= set(c['idx']), 'selected %s of %s', sel,
          c['idx'])
    v = {(i, j): ref_pair_gain(i, j, pB, pm, c['method']) for i in c['idx'] for j in c['idx'] if i != j}
    top = max(v.values())
    check(v[tuple(sel)] >= top - 1e-9, 'selected the pair %s with information gain %s, %s has %s', sel,
          v[tuple(sel)], max(v, key=v.get), top)
    same(float(al.sel_metric), v[tuple(sel)], 'reported information gain of the pair %s' % (sel,), 1e-7,
         1e-9)
    return 'pair,%s' % c['method'], top > min(v.values()) + 1e-7


def run_probit_known(c):
    c = dict(c, method='probit')
    al, X, mu, pB, pm = bayes_setup(c)
    al.select_greedy(X, mu, None, list(c['idx']), list(c['prev']))
    v = {j: ref_gain(c['prev'] + [j], pB, pm, 'probit') for j in c['idx']}
    if max(v.values()) > 1e-6:
        same(float(al.sel_metric), max(v.values()), 'reported information gain', 1e-7, 1e-9)
    return 'probit', True


# ---- through a whole query
def run_query(c):
    """first point at random (or a pair), the next ones with the most information; later queries
    use what the model says then"""
    al, X, mu, pB, pm = bayes_setup(c, '99')
    m = al.model
    nt = False
    for turn, (w, mu, pair) in enumerate([(c['w'], c['mu'], c['pairs'][0])] + list(zip(
            c['w2'], c['mu2'], c['pairs'][1:]))):
        N = len(w)
        X = np.arange(2.0 * N).reshape(-1, 2)
        pB, mu = arr(w) / sum(w), arr(mu)
        al.p_B_pref_gp = al.p_B_pref_linear = lambda *a, **k: np.array(pB)
        pm = sc.ndtr((mu[:, None] - mu[None, :]) / (SQ2 * c['sig']))
        m.predict = lambda Z: (mu, np.ones(len(mu)))
        n = min(N, 4)
        sel = [int(i) for i in al.select(X, n, select_pair_first=pair)]
        check(len(set(sel)) == n, 'selected %s', sel)
        start = 1
        if pair:
            v = {(i, j): ref_pair_gain(i, j, pB, pm, '99') for i in range(N) for j in range(N)
                 if i != j}
            check(v[tuple(sel[:2])] >= max(v.values()) - 1e-9, 'query %d starts with the pair %s with '
                  'information gain %s, the best is %s', turn + 1, sel[:2], v[tuple(sel[:2])],
                  max(v.values()))
            start, v = 2, {sel[-1]: v[tuple(sel[:2])]}
        for t in range(start, n):
            free = [j for j in range(N) if j not in sel[:t]]
            # a selection is without order: previous points may be handed on in any order
            v = {j: ref_gain(sel[:t] + [j], pB, pm, '99') for j in free}
            check(v[sel[t]] >= max(v.values()) - 1e-9, 'query %d, choice %d is %d, information gains '
                  '%s after %s', turn + 1, t + 1, sel[t], v, sel[:t])
            nt = nt or max(v.values()) > min(v.values()) + 1e-7
        same(float(al.sel_metric), v[sel[-1]], 'reported metric of query %d' % (turn + 1), 1e-7, 1e-9)
    return 'queries%d' % (turn + 1), nt


@st.composite
def s_query(draw):
    c = draw(s_bayes())
    k = draw(st.sampled_from([0, 1, 2]))
    c['w2'], c['mu2'] = [], []
    for _ in range(k):
        N = draw(st.sampled_from([c['N'], 2, 3, 5]))
        c['w2'].append(draw(st.lists(st.integers(1, 20), min_size=N, max_size=N)))
        c['mu2'].append(draw(vec(N, -2, 2, 0.05)))
    c['pairs'] = [draw(st.booleans()) for _ in range(k + 1)]
    return c


# ---- probability of each candidate being the best
@st.composite
def s_best(draw):
    n = draw(st.sampled_from([1, 2, 2, 3, 4, 5]))
    u = draw(st.sampled_from([1, 1, 1, 0.02, 20]))
    L = [[draw(grid(-1, 1, 0.25)) for _ in range(n)] for _ in range(n)]
    t = u * draw(st.sampled_from([1, 1, 3]))
    return dict(n=n, L=[[u * x for x in r] for r in L], e=u * u * draw(grid(0.1, 1, 0.1)),
                mu=[t * x for x in draw(vec(n, -1, 1, 0.25))], rs=draw(seeds))


def run_best(c):
    prepare()
    n = c['n']
    L = arr(c['L']).reshape(n, n)
    C = L @ L.T + c['e'] * np.eye(n)
    mu = arr(c['mu'])
    al = lop.BayesInfoGain()
    m = lop.PreferenceGP(lop.RBF_kern(1.0, 1.0), active_learner=al)
    m.cov = C
    p = np.array(al.p_B_pref_gp(np.zeros((n, 2)), mu))
    check(p.shape == (n,), 'probabilities %s of %d candidates', p, n)
    same(p.sum(), 1.0, 'sum of the probabilities')
    if n == 2:
        s = math.sqrt(C[0, 0] + C[1, 1] - 2 * C[0, 1])
        same(p, sc.ndtr(arr([mu[0] - mu[1], mu[1] - mu[0]]) / s), 'probability of being the best', 1e-6)
    Z = np.random.multivariate_normal(mu, C, size=20000)
    f = np.bincount(np.argmax(Z, axis=1), minlength=n) / 20000.0
    check((np.abs(f - p) <= 7 * np.sqrt(np.maximum(p * (1 - p), 1e-4) / 20000) + 0.003).all(),
          'probabilities of being the best %s, frequencies %s', p, f)
    return 'n%d' % n, n > 1 and np.ptp(p) > 1e-3


@st.composite
def s_best_linear(draw):
    X = draw(points(draw(st.sampled_from([2, 3, 4, 5])), 2, -1, 1, 0.25))
    y = draw(st.lists(grid(0.2, 0.8, 0.05), min_size=4, max_size=4))
    return dict(X=X, y=y, sig=draw(grid(0.5, 1, 0.1)), v=draw(grid(3, 8, 1)), rs=draw(seeds))


def run_best_linear(c):
    prepare()
    al = lop.BayesInfoGain()
    m = lop.PreferenceLinear(active_learner=al)
    m.probits[2].set_sigma(c['sig'])
    m.probits[2].set_v(c['v'])
    m.add(arr(RX), arr(c['y']), type='abs')
    X = arr(c['X'])
    mu, _ = m.predict(X)
    ps = np.array([al.p_B_pref_linear(X, mu) for _ in range(6)])
    check(ps.shape == (6, len(X)) and (ps >= 0).all(), 'probabilities %s', ps)
    same(ps.sum(axis=1), np.ones(6), 'sum of the probabilities')
    w = linear_posterior(c['y'], c['sig'], c['v'])
    V = GRID @ X.T
    top = V >= V.max(axis=1, keepdims=True) - 1e-9
    best, lone = top.T @ w, (top & (top.sum(axis=1, keepdims=True) == 1)).T @ w
    se = ps.std(axis=0, ddof=1) / math.sqrt(6)
    # chains are correlated: their spread estimates the error; the grid is 0.15 wide
    p = ps.mean(axis=0)
    tol = 7 * se + 0.04
    check((p <= best + tol).all() and (p >= lone - tol).all(), 'probabilities of being the best %s, '
          'expected %s', p, best)
    return 'n%d' % len(X), len(X) > 1


KNOWN = [Sub('probit_gain', None, run_probit_known)]
SUBS = [
    Sub('mutual_value', s_value(), run_value, quick=1500, thorough=60000),
    Sub('mutual_choice', s_mutual(), run_mutual, quick=500, thorough=10000),
    Sub('mutual_samples', s_samples(), run_samples, quick=40, thorough=800),
    Sub('greedy', s_bayes(), run_greedy, quick=1000, thorough=40000),
    Sub('pair', s_bayes(True), run_pair, quick=800, thorough=30000),
    Sub('query', s_query(), run_query, quick=300, thorough=10000),
    Sub('best', s_best(), run_best, quick=150, thorough=5000),
    Sub('best_linear', s_best_linear(), run_best_linear, quick=16, thorough=300),
]
