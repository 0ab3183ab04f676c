from learners import *
import lop

PROPERTY = 'C14'
RULE = ('a case is non-trivial when at least one selection was made among two or more candidates; '
        'distinct = distinct (model, learner, sequence of queries)')
ASSUMPTIONS = [
    'up to 20 candidates (70 or 135 now and then) in up to 3 dimensions (8 where a model is fitted), queries for up to one more point than candidates; '
    'learners paired with the model types they support',
    'correlation measures need at least two different representative points',
    'preferred indices refer to existing candidates',
    'the bounded-rating learner rates one point per query',
    'approxcdf is not installed and is replaced by the multivariate normal probabilities of scipy']


@st.composite
def s_sel(draw, kinds, models=('gp', 'GP', 'linear', 'simple')):
    sp = draw(learner_spec(kinds))
    c = draw(model_case(models))
    if sp['learner'] == 'AbsAcquisition':
        tame(c)
    qs = []
    for _ in range(draw(st.integers(1, 3))):
        X = draw(candidates(draw(st.integers(1, 8)), c['d']))
        qs.append(dict(X=X, q=draw(query(len(X)))))
    return dict(spec=sp, m=c, qs=qs, rs=draw(seeds))


def attempt(f):
    try:
        return f(), None
    except (Violation, HarnessError, Reject):
        raise
    except Exception as e:
        return None, e


def degenerate(sp, m, X):
    # equal representative points: the correlation of rewards is undefined
    if sp['align'] not in ('epic', 'spearman') or getattr(m, 'X_train', None) is None:
        return False
    p = [tuple(r) for r in m.X_train] + [tuple(r) for r in X]
    return len(set(p)) < 2 or max(p.count(r) for r in p) > 3


def run_sel(c):
    sp = c['spec']
    if not usable(sp, c['m']):
        raise Reject
    al = make_learner(sp)
    m = make_model(c['m'], al)
    nt = False
    for s in c['qs']:
        X, q = s['X'], s['q']
        if sp['learner'] in ('AcquisitionSelection', 'AbsAcquisition') and degenerate(sp, m, X):
            raise Reject
        k = 1 if sp['learner'] == 'AbsAcquisition' else q['num']
        free = len(X) - len(q['prev'])
        mu = np.array(m.predict(arr(X))[0])
        if c['m']['model'] == 'linear' and not finite(mu):
            raise Reject        # the data leave the weights undetermined, see C13
        if k > free:
            res, e = attempt(lambda: run_select(al, m, X, q))
            check(e is not None, '%d of %d free candidates were selected: %s', k, free, res)
            continue
        sel, rest = run_select(al, m, X, q)
        check_contract(X, q, sel, rest, k, sp['pareto'], mu if sp['best']
                       and (c['m']['model'] != 'linear' or has_data(c['m'])) else None)
        nt = nt or len(X) > 1
    return sp['learner'] + ',' + c['m']['model'] + ('' if has_data(c['m']) else ',no-data'), nt


# ---- a learner of the user: the base class asks it only among the points it may choose from
@st.composite
def s_own(draw):
    N = draw(st.sampled_from([1, 2, 3, 4, 5, 6, 8, 12, 20, 70, 135]))
    X = draw(candidates(N, draw(st.integers(1, 3)), 0.25))
    return dict(X=X, scores=draw(st.permutations(range(N))), q=draw(query(N)),
                pareto=draw(st.booleans()), best=draw(st.booleans()),
                pair=draw(st.booleans()), pscores=draw(st.permutations(range(N))), rs=draw(seeds))


def run_own(c):
    X, q = c['X'], c['q']
    N = len(X)
    log = []

    class Own(lop.ActiveLearner):
        def select_greedy(self, candidate_pts, mu, data, indicies, prev_selection):
            log.append(('one', set(indicies), set(prev_selection), np.array(mu)))
            check((np.asarray(candidate_pts) == arr(X)).all(), 'candidates were changed')
            return max(indicies, key=lambda i: c['scores'][i])

    class OwnPair(Own):
        def select_pair(self, candidate_pts, mu, data, indicies, prev_selection):
            log.append(('pair', set(indicies), set(prev_selection), np.array(mu)))
            return tuple(sorted(indicies, key=lambda i: -c['pscores'][i])[:2])

    al = (OwnPair if c['pair'] else Own)(default_to_pareto=c['pareto'],
                                         always_select_best=c['best'])
    m = lop.SimplelestModel(active_learner=al)
    mu = arr(X).sum(axis=1)
    free = N - len(q['prev'])
    k = q['num']
    if k > free:
        res, e = attempt(lambda: run_select(al, m, X, q))
        check(e is not None, '%d of %d free candidates were selected: %s', k, free, res)
        return 'too-many', N > 1
    sel, rest = run_select(al, m, X, q)
    check_contract(X, q, sel, rest, k, c['pareto'], mu if c['best'] else None)
    pref = prefer_set(q, X, c['pareto']) - set(q['prev'])
    used_pair = any(a == 'pair' for a, _, _, _ in log)
    for kind, ind, prev, m_ in log:
        check(ind and ind <= set(range(N)), 'asked to choose from %s', ind)
        check(not ind & set(q['prev']), 'asked to choose from %s with %s selected earlier', ind,
              q['prev'])
        check(not ind & prev, 'asked to choose from %s, of which %s are selected', ind, prev)
        check(prev >= set(q['prev']), 'earlier selection %s reported as %s', q['prev'], prev)
        check(prev <= set(q['prev']) | set(sel), 'reported as selected: %s, in fact %s', prev,
              sel)
        same(m_, mu, 'predictions handed to the learner')
        if kind == 'pair' and rest is None:
            check(not prev, 'a pair was asked for after points had been selected')
    pf = q['pair_first'] or q['via'] == 'model'
    if used_pair:
        check(pf, 'a pair was asked for although single points were wanted')
        check(k > 1, 'a pair was asked for to select one point')
    start = [] if q['prev'] or not c['best'] else sel[:1]
    if not used_pair:
        # best first, by the learner's own order
        want = list(start)
        for pool in (pref, set(range(N)) - pref - set(q['prev'])):
            for i in sorted(pool - set(want), key=lambda i: -c['scores'][i]):
                if len(want) < k:
                    want.append(i)
        check(sel == want, 'selected %s, the learner prefers %s', sel, want)
        if rest is not None and len(pref) >= k and len(sel) > len(start):
            last = min(c['scores'][i] for i in sel[len(start):])
            over = sorted([i for i in range(N) if i not in pref and i not in q['prev']
                           and i not in sel and c['scores'][i] > last],
                          key=lambda i: -c['scores'][i])
            check(rest == over, 'passed over %s, the learner preferred %s', rest, over)
    else:
        top = set(sorted(log[0][1], key=lambda i: -c['pscores'][i])[:2])
        check(log[0][0] == 'pair', 'single points were selected before the pair')
        check(rest is not None or len([1 for a in log if a[0] == 'pair']) == 1,
              'a pair was selected twice')
        if rest is None or len(pref) == free:
            check(set(sel[:2]) == top, 'selected %s, the learner chose the pair %s', sel, top)
    if c['pair'] and pf and not q['prev'] and not c['best'] and k > 1:
        if rest is not None or len(pref) != 1:
            check(used_pair, 'the first two points were not selected as a pair')
    return ('pair' if used_pair else 'single') + (',rest' if rest is not None else ''), N > 1


# ---- the preferred points and the best point
@st.composite
def s_pref(draw):
    N = draw(st.sampled_from([1, 2, 3, 4, 5, 6, 8, 12, 20, 70, 135]))
    X = draw(candidates(N, draw(st.integers(1, 3)), 0.5))
    return dict(X=X, q=draw(query(N)), pareto=draw(st.booleans()), mu=draw(vec(N, -2, 2, 0.25)),
                bad=draw(st.one_of(st.integers(-5, -1), st.sampled_from(['best', 'all', '']))),
                as_list=draw(st.booleans()), rs=draw(seeds))


def run_pref(c):
    X, q = c['X'], c['q']
    al = lop.BestLearner(default_to_pareto=c['pareto'])
    got = al.get_prefered_set_of_pts(arr(X), prefer_arg(q))
    want = prefer_set(q, X, c['pareto'])
    check(isinstance(got, set) and set(int(i) for i in got) == want, 'preferred points %s, '
          'expected %s', got, want)
    try:
        got = al.get_prefered_set_of_pts(arr(X), c['bad'])
    except ValueError:
        pass
    else:
        fail('accepted %r as preferred points: %s' % (c['bad'], got))
    prev = list(q['prev']) if c['as_list'] else set(q['prev'])
    mu = arr(c['mu'])
    among = want - set(q['prev']) or set(range(len(X))) - set(q['prev'])
    b = al.select_best(mu, set(want), prev)
    check(b in among, 'best point %s is not one of %s', b, among)
    check(mu[b] == max(mu[i] for i in among), 'best point %s of %s, values %s', b, among, mu)
    try:
        b = al.select_best(mu, set(want), set(range(len(X))))
    except Exception:
        pass
    else:
        fail('selected point %s, all points were selected before' % b)
    return q['pk'], len(X) > 1


CHEAP = ['Best', 'Worst', 'Random', 'UCB', 'GV_UCB', 'MutualInfo']
SUBS = [
    Sub('own_learner', s_own(), run_own, quick=3000, thorough=100000),
    Sub('preferred', s_pref(), run_pref, quick=1500, thorough=50000),
    Sub('simple_learners', s_sel(CHEAP), run_sel, quick=600, thorough=15000),
    Sub('query_learners', s_sel(['BayesInfoGain', 'AcquisitionSelection', 'AcquisitionSelection'],
                                ('gp', 'linear')), run_sel, quick=300, thorough=6000),
    Sub('rating_learner', s_sel(['AbsAcquisition'], ('gp', 'linear')), run_sel, quick=60,
        thorough=1200),
]
