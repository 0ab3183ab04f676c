from learners import *
import lop

PROPERTY = 'C15'
RULE = ('a case is non-trivial when there were at least two candidates with different scores to '
        'choose from; distinct = distinct (model, learner, query)')
ASSUMPTIONS = [
    'up to 8 candidates, also repeated ones; predicted means and covariances are taken from the '
    'model (C04, C12 decide them)',
    'scores that differ by less than rounding (1e-9; for determinants 1e-12 of their size) count '
    'as equal',
    'linear models draw their weights at random, so only the limits (no exploration; exploration '
    'only, on candidates along one direction) are checked for them',
    'frequencies of the random learner: 6 standard deviations']


def prior_mean(d):
    return lambda X: X @ (np.arange(1, d + 1) * 0.3)


@st.composite
def s_greedy(draw):
    c = draw(model_case(('gp', 'gp', 'GP'), labels=ALL_KINDS))
    if draw(st.booleans()) and (c['model'] == 'GP' or not c['ops']):
        c['kernel'] = ['rbf', draw(grid(0.3, 2)), draw(grid(0.3, 2)), 0.0]
    N = draw(st.integers(1, 8))
    X = draw(candidates(N, c['d']))
    q = draw(query(N))
    q['rest'] = False
    q['num'] = min(q['num'], N - len(q['prev']))
    sp = draw(learner_spec(['Best', 'Worst', 'UCB', 'UCB', 'GV_UCB', 'GV_UCB']))
    sp['alpha'] = draw(grid(0, 5, 0.25))
    return dict(m=c, X=X, q=q, spec=sp, rs=draw(seeds))


def score(kind, alpha, mu, cov, prev, i):
    """interval of the score of point i"""
    if kind == 'Best':
        return mu[i], mu[i]
    if kind == 'Worst':
        return -mu[i], -mu[i]
    if kind == 'UCB':
        v = [max(0.0, cov[i, i] + e) for e in (-1e-12, 1e-12)]
        return [mu[i] + alpha * math.sqrt(x) for x in v]
    idx = list(prev) + [i]
    D = cov[np.ix_(idx, idx)]
    det = np.linalg.det(D)
    eps = 1e-12 * max(1.0, np.abs(D).max()) ** len(idx)
    return [mu[i] + alpha * max(0.0, det + e) ** (1.0 / len(idx)) for e in (-eps, eps)]


def run_greedy(c):
    sp, q, X = c['spec'], c['q'], c['X']
    al = make_learner(sp)
    m = make_model(c['m'], al)
    mu, _ = m.predict(arr(X))
    mu, cov = np.array(mu), np.array(m.cov)
    al.sel_metric = None
    sel, _ = run_select(al, m, X, q)
    check_contract(X, q, sel, None, q['num'], sp['pareto'])
    pref = prefer_set(q, X, sp['pareto']) - set(q['prev'])
    chosen = list(q['prev'])
    nt = False
    last = None
    for t, i in enumerate(sel):
        pool = pref - set(chosen) or set(range(len(X))) - set(chosen)
        kind = sp['learner']
        if t == 0 and sp['best'] and not q['prev']:
            kind = 'Best'
            # the metric belongs to points the learner chose itself
            last = None
        else:
            last = score(kind, sp['alpha'], mu, cov, chosen, i)
        s = {j: score(kind, sp['alpha'], mu, cov, chosen, j) for j in pool}
        top = max(s[j][0] for j in pool)
        check(i in pool and s[i][1] >= top - 1e-9, '%s: choice %d is point %d with score %s, the '
              'best is %s with %s (after %s)', kind, t + 1, i, s.get(i, [None])[0],
              max(pool, key=lambda j: s[j][0]), top, chosen)
        nt = nt or max(s[j][0] for j in pool) > min(s[j][1] for j in pool) + 1e-6
        chosen.append(i)
    if last is not None:
        v = float(al.sel_metric) * (-1 if sp['learner'] == 'Worst' else 1)
        check(last[0] - 1e-8 <= v <= last[1] + 1e-8, 'reported metric %s of the last selection, '
              'expected %s', al.sel_metric, last[0])
    return '%s,%s%s' % (sp['learner'], c['m']['model'], '' if has_data(c['m']) else ',no-data'), nt


# ---- linear models
@st.composite
def s_linear(draw):
    d = draw(st.integers(2, 3))
    c = dict(model='linear', d=d, probits=dict(pair=1.0, ord_s=1.0, ord_b=2.0, abs_s=1.0,
                                               abs_v=10.0),
             ops=[draw(add_op(d, ['pairs'], lo=-1, hi=1, max_n=2))
                  for _ in range(draw(st.integers(1, 2)))])
    N = draw(st.sampled_from([2, 3, 4, 6, 8, 12]))
    dirn = draw(vec(d, -1, 1, 0.25).filter(lambda v: sum(abs(x) for x in v) > 0.5))
    t = draw(st.permutations(range(1, 13)))[:N]
    return dict(m=c, X=draw(points(N, d, -2, 2)), dirn=dirn, t=t, rs=draw(seeds),
                q=draw(query(N)),
                kind=draw(st.sampled_from(['UCB', 'GV_UCB'])), num=draw(st.integers(1, 3)))


def run_linear(c):
    sp = dict(learner=c['kind'], alpha=1e7)
    al = make_learner(sp)
    m = make_model(c['m'], al)
    X = [[k * x for x in c['dirn']] for k in c['t']]
    mu = np.array(m.predict(arr(X))[0])
    if not finite(mu) or np.abs(mu).max() > 1e3:
        raise Reject        # weights hardly determined, see C13
    sel = m.select(arr(X), 1)
    check(len(sel) == 1 and c['t'][sel[0]] == max(c['t']), 'along one direction with multiples %s '
          'the most uncertain point is not the one selected (%s)', c['t'], sel)
    # among the points it may choose from, after earlier selections
    q = dict(c['q'], num=min(c['num'], len(X) - len(c['q']['prev'])), rest=False)
    pref = prefer_set(q, X, False)
    if c['kind'] == 'UCB':
        sel, _ = run_select(al, m, X, q)
        gone = set(q['prev'])
        for i in sel:
            pool = pref - gone or set(range(len(X))) - gone
            check(i in pool and c['t'][i] == max(c['t'][j] for j in pool), 'multiples %s, after %s: '
                  'selected %s, the most uncertain of %s was another', c['t'], sorted(gone), i, pool)
            gone.add(i)
    elif c['m']['d'] == 2:
        # the generalised variance of two points grows with the area they span, for any weights
        X, p = c['X'], c['q']['prev'][:1] or [0]
        area = [abs(x[0] * X[p[0]][1] - x[1] * X[p[0]][0]) for x in X]
        pool = prefer_set(q, X, False) - set(p) or set(range(len(X))) - set(p)
        sel = m.select(arr(X), 1, prev_selection=list(p), prefer_pts=prefer_arg(q))
        top = max(area[i] for i in pool)
        if top > 0.3:
            check(sel[0] in pool and area[sel[0]] >= top - 1e-3, 'after %s: selected %s of %s, areas '
                  'spanned %s', p, sel, pool, area)
    al.alpha = 0.0
    X = c['X']
    n = min(c['num'], len(X)) if c['kind'] == 'UCB' else 1
    mu = np.array(m.predict(arr(X))[0])
    sel = [int(i) for i in m.select(arr(X), n)]
    top = np.sort(mu)[::-1][:n]
    same([mu[i] for i in sel], top, 'values of the points selected without exploration', 0,
         1e-9 * max(1, np.abs(mu).max()))
    return c['kind'], True


# ---- random learner
def run_random(c):
    al = lop.RandomLearner()
    m = lop.SimplelestModel(active_learner=al)
    X = arr(c['X'])
    N, k, prev = len(X), c['k'], c['prev']
    free = [i for i in range(N) if i not in prev]
    k = min(k, len(free))
    n = 600
    cnt = np.zeros(N)
    for _ in range(n):
        for i in m.select(X, k, prev_selection=list(prev)):
            cnt[i] += 1
    p = k / float(len(free))
    for i in range(N):
        e = n * p if i in free else 0.0
        sd = math.sqrt(n * p * (1 - p)) if i in free else 0.0
        check(abs(cnt[i] - e) <= 6 * sd + 1e-9, 'point %d of %s was drawn %d times of %d, '
              'expected %.0f', i, free, cnt[i], n, e)
    return 'random', 0 < p < 1


@st.composite
def s_random(draw):
    N = draw(st.integers(2, 6))
    return dict(X=draw(points(N, 2, -1, 1)), k=draw(st.integers(1, N)), rs=draw(seeds),
                prev=sorted(draw(st.sets(st.integers(0, N - 1), max_size=N - 1))))


SUBS = [
    Sub('greedy', s_greedy(), run_greedy, quick=2500, thorough=60000),
    Sub('linear', s_linear(), run_linear, quick=240, thorough=2500),
    Sub('random', s_random(), run_random, quick=60, thorough=1000),
]
