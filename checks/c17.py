from learners import *
import lop
from scipy import stats

PROPERTY = 'C17'
RULE = ('a case is non-trivial when both kinds of query were possible and at least two queries were '
        'asked; distinct = distinct (learner, parameters, scripted values, history)')
ASSUMPTIONS = [
    'the decision rules are driven with scripted comparison and rating learners whose values the '
    'case determines, and, for the form of the selection, with the real ones (3-6 samples)',
    'random schedules: frequencies over 300 repetitions within 6 standard deviations',
    'deciding by alignment draws 8000 samples (7-10 s): few cases']


class Script(object):
    """what the scripted learners answer, and what they were given"""

    def __init__(self):
        self.log = []
        self.args = {}
        self.pair = self.rate = self.comp = 0.0
        self.sel = None     # the points a comparison is about


def classes(S):
    def given(al, candidate_pts, kind):
        al.model.predict(candidate_pts)
        R, A = al.get_samples_from_model(candidate_pts, None)
        A = np.asarray(A)
        check(A.shape[1] == len(candidate_pts), '%s learner works with the rewards of %d points, '
              'there are %d candidates', kind, A.shape[1], len(candidate_pts))
        S.log.append((kind, A))

    class Pair(lop.AcquisitionSelection):
        def select(self, candidate_pts, num_alts, prev_selection=[], prefer_pts=None,
                   return_not_selected=False, select_pair_first=True):
            given(self, candidate_pts, 'pair')
            self.sel_metric = S.pair
            S.args['pair'] = (num_alts, set(prev_selection), prefer_pts, return_not_selected)
            r = list(S.sel or range(num_alts))
            return (r, []) if return_not_selected else r

    class Rate(lop.AbsAcquisition):
        def __init__(self, what, **kw):
            super(Rate, self).__init__(**kw)
            self.what = what

        def select(self, candidate_pts, num_alts, prev_selection=[], prefer_pts=None,
                   return_not_selected=False, select_pair_first=True):
            given(self, candidate_pts, self.what)
            self.sel_metric = getattr(S, self.what)
            S.args[self.what] = (num_alts, set(prev_selection), prefer_pts, return_not_selected)
            r = [len(candidate_pts) - 1]
            return (r, []) if return_not_selected else r

        def select_greedy(self, candidate_pts, mu, data, indicies, prev_selection):
            given(self, candidate_pts, self.what)
            check([int(i) for i in indicies] == [len(candidate_pts) - 1], 'the rating is valued at '
                  '%s, it would be asked at %s', indicies, len(candidate_pts) - 1)
            self.sel_metric = getattr(S, self.what)
            return list(indicies)[0]
    return (Pair(M=4, alignment_f='epic'), Rate('rate', M=4, alignment_f='epic'),
            Rate('comp', M=4, alignment_f='epic'))


def build(kind, p, S):
    prepare()
    pair, rate, comp = classes(S)
    if kind == 'RateChoose':
        return lop.RateChooseLearner(pair, rate)
    if kind == 'Comparision':
        return lop.MixedComparision(pair, rate, comp, alpha=p)
    if kind == 'SetFixed':
        return lop.MixedComparisionSetFixed(pair, rate)
    if kind == 'Alternating':
        return lop.MixedAlternating(pair, rate)
    if kind == 'EqualChecking':
        return lop.MixedComparisionEqualChecking(pair, rate, comp, eta_2_limit=p)
    if kind in ('Decision', 'Decision2'):
        return getattr(lop, 'Mixed' + kind)(pair, rate, comp, p)
    return getattr(lop, 'Mixed' + kind)(pair, rate, p)


def model(al):
    m = lop.PreferenceGP(lop.RBF_kern(1.0, 0.7), active_learner=al)
    m.add(np.array([[0.0, 0.5], [1.0, 0.2], [0.4, 0.9], [0.3, 0.1]]),
          [lop.preference(0, 1), lop.preference(2, 3)])
    m.add(np.array([[0.2, 0.2]]), np.array([0.7]), type='abs')
    return m


def asked(r, N, k, rest, sel=None):
    if rest:
        check(isinstance(r, tuple) and len(r) == 2, 'expected selected and not selected points, '
              'got %r', r)
        r = r[0]
    r = [int(i) for i in r]
    if r == [N - 1]:
        return 'rate'
    check(r == list(sel or range(k)), 'selected %s, neither the comparison nor the rating on offer', r)
    return 'pair'


value = st.one_of(grid(-3, 3, 0.25), grid(0.25, 4, 0.25))


# ---- rules without chance
@st.composite
def s_rule(draw, kind):
    turns = kind in ('SetFixed', 'Alternating')
    n = draw(st.sampled_from([1, 9, 10, 12] if turns else [1, 2, 4, 8]))
    calls = []
    for _ in range(n):
        N = draw(st.integers(3, 7))
        calls.append(dict(X=draw(points(N, 2, -1, 1, 0.25)), k=2, pair=draw(value),
                          rate=draw(value), comp=draw(value), rest=draw(st.sampled_from(
                              [False, False, True])), same=draw(st.booleans()),
                          new=draw(st.sampled_from([False] * (29 if turns else 7) + [True])),
                          sel=list(draw(st.permutations(range(N - 1)))),
                          size=draw(st.sampled_from([0.0, 0.3, 0.6, 0.9, 1.5, 2.5, 6.0])),
                          z=draw(vec(8, -1, 1, 0.05)), prev=draw(st.sampled_from([[], [], [0], [1]])),
                          prefer=draw(st.sampled_from([None, None, 2, 'pareto', 0]))))
        if draw(st.integers(0, 4)) == 4:
            calls[-1]['rate'] = calls[-1]['comp'] = calls[-1]['pair']
        if kind in ('RateChoose', 'SetFixed', 'Alternating'):
            calls[-1]['k'] = draw(st.integers(2, min(3, N - 1)))
    return dict(kind=kind, p=draw(grid(0.1, 0.9, 0.1)), calls=calls, rs=draw(seeds))


def run_rule(c):
    S = Script()
    kind = c['kind']
    al = build(kind, c['p'], S)
    m = model(al)
    n = 0
    seen = set()
    for q in c['calls']:
        if q['new']:
            m = model(al)       # the learner is handed to a new model
            n = 0
        S.pair, S.rate, S.comp = q['pair'], q['rate'], q['comp']
        S.log, S.args = [], {}
        X = arr(q['X'])
        N = len(X)
        S.sel = q['sel'][:q['k']]
        i, j = S.sel[:2]
        if kind == 'EqualChecking' and q['same']:
            X[j, 0] = X[i, 0]
        if kind == 'EqualChecking':
            # rewards of the two options, further and further apart
            A = np.random.normal(size=(4, N)) * 3
            z = arr(q['z']).reshape(2, 4)
            A[:, i], A[:, j] = z[0], z[1] - z[1].mean() + z[0].mean() + q['size']
            v = (z[0].var(ddof=1) + z[1].var(ddof=1)) / 2
            if v < 1e-6:
                raise Reject
            h = q['size'] ** 2 / v / 4
            eta = h / (1 + h)
            if abs(eta - c['p']) < 1e-6:
                raise Reject
            al.pairwise_l.get_samples_from_model = _handed(al.pairwise_l, np.zeros((4, 3)), A)
        r = m.select(X, q['k'], prev_selection=list(q['prev']), prefer_pts=q['prefer'],
                     return_not_selected=q['rest'])
        got = asked(r, N, q['k'], q['rest'], S.sel)
        check((X[:, 1] == arr(q['X'])[:, 1]).all(), 'candidates were changed')
        want = (q['k'] if got == 'pair' else 1, set(q['prev']), q['prefer'], q['rest'])
        check(S.args[got] == want, 'the %s was selected with %s (number, earlier selection, preferred '
              'points, others wanted), expected %s', got, S.args[got], want)
        if kind == 'SetFixed':
            want = 'rate' if n < 8 else 'pair'
        elif kind == 'Alternating':
            want = 'pair' if n % 2 == 0 else 'rate'
        else:
            a, b = S.pair, (S.rate if kind == 'RateChoose' else S.comp)
            if kind == 'Comparision':
                a, b = (1 - c['p']) * a, c['p'] * b
            want = 'pair' if a > b + 1e-12 else 'rate' if b > a + 1e-12 else None
            if kind == 'EqualChecking' and eta < c['p'] and \
                    any(X[i, t] == X[j, t] for t in range(2)):
                want = 'rate'
            # both values are computed from the same sampled rewards
            sets = {k: A for k, A in S.log}
            other = 'rate' if kind == 'RateChoose' else 'comp'
            check('pair' in sets and other in sets and np.array_equal(sets['pair'], sets[other]),
                  'comparison and rating were valued with different sampled rewards')
        check(want is None or got == want, '%s, call %d: asked a %s with values %s, expected a %s',
              kind, n + 1, got, (S.pair, S.rate, S.comp), want)
        seen.add(got)
        n += 1
    return kind, len(c['calls']) > 1


def _handed(al, R, A):
    def f(candidate_pts, x_rep, indicies=None):
        return R, A if indicies is None else A[:, indicies]
    return f


# ---- schedules with chance
KINDS = ['Strategy', 'StrategyPeak', 'StrategyPeak2', 'StrategyPeak3', 'StrategyRevPeak',
         'Decision', 'Decision2']


def schedule(kind, p, n):
    if kind == 'Strategy':
        return p
    if kind in ('StrategyRevPeak', 'Decision2'):
        return [0.9, 0.1][n] if n < 2 else p
    if n < 3:
        return [0.1, 0.5, 0.9][n]
    if kind == 'StrategyPeak':
        return 0.8 * math.exp((2 - n) * 0.2) + 0.1
    if kind == 'StrategyPeak2':
        return 0.9 * math.exp((2 - n) * 0.2)
    return 0.9 * math.exp((2 - n) * p)


@st.composite
def s_chance(draw, kind):
    pos = draw(st.sampled_from([True, True, False]))
    v = grid(0.25, 4, 0.25) if pos else grid(-4, -0.25, 0.25)
    return dict(kind=kind, p=draw(grid(0.0, 1.0, 0.1)), n=draw(st.sampled_from([6, 8, 12, 18])),
                metrics=[[draw(v), draw(v)] for _ in range(3)], rs=draw(seeds))


def run_chance(c):
    S = Script()
    kind, n = c['kind'], c['n']
    al = build(kind, c['p'], S)
    m = model(al)
    reps = 400
    cnt = np.zeros(n)
    Xs = [np.random.random((3 + i % 3, 2)) for i in range(n)]
    al.pairwise_l.M = al.abs_l.M = 2
    for r in range(reps):
        al.set_model(m)
        for i in range(n):
            if i in (5, 10, 15):
                S.pair, S.comp = c['metrics'][i // 5 - 1]
                S.rate = 1000.0
            else:
                # only the queries that compare the two kinds may look at their values
                S.pair, S.comp = [(9.0, 1.0), (1.0, 9.0)][i % 2]
                S.rate = S.comp
            if r == 0:
                same(al.mixed_probability(), schedule(kind, c['p'], i), 'probability of a rating at '
                     'query %d' % (i + 1), 1e-9, 1e-12)
            if asked(m.select(Xs[i], 2), len(Xs[i]), 2, False) == 'rate':
                cnt[i] += 1
    state = 0
    for i in range(n):
        e = schedule(kind, c['p'], i)
        if kind in ('Decision', 'Decision2'):
            if i in (5, 10, 15):
                a, b = c['metrics'][i // 5 - 1]
                if max(a / b, b / a) > 2 + 1e-12:
                    state = 'pair' if a > b else 'rate'
                    e = 0.0 if a > b else 1.0
                else:
                    state = 0
            elif state:
                e = 0.05 if state == 'pair' else 0.95
        sd = math.sqrt(reps * e * (1 - e))
        check(abs(cnt[i] - reps * e) <= 6 * sd + 1e-9, '%s: query %d was a rating %d times of %d, '
              'expected %.1f', kind, i + 1, cnt[i], reps, reps * e)
    return kind, True


# ---- the form of the selection, with the real learners
@st.composite
def s_real(draw):
    c = draw(model_case(('gp', 'gp', 'linear'), labels=['pairs', 'abs', 'abs_idx'], max_ops=3))
    kind = draw(st.sampled_from(['RateChoose', 'Comparision', 'EqualChecking', 'SetFixed',
                                 'Alternating'] + KINDS))
    calls = []
    for _ in range(draw(st.integers(1, 3))):
        N = draw(st.integers(3, 6))
        q = draw(query(N))
        q['prev'] = [] if draw(st.booleans()) else q['prev'][:1]
        q['num'] = 2 if kind == 'EqualChecking' else draw(st.integers(2, N - len(q['prev'])))
        calls.append(dict(X=draw(points(N, c['d'], -1, 1)), q=q))
    return dict(m=c, kind=kind, calls=calls, p=draw(grid(0.1, 0.9, 0.1)), M=draw(st.integers(3, 6)),
                align=draw(st.sampled_from(['rho', 'epic', 'spearman', 'one', 'loglikelihood'])),
                rs=draw(seeds))


def run_real(c):
    prepare()
    o = dict(M=c['M'], alignment_f=c['align'], rep_Q_data={'num_pts': 5, 'num_Q': 5})
    parts = [lop.AcquisitionSelection(**o), lop.AbsAcquisition(**o), lop.AbsAcquisition(**o)]
    k, p = c['kind'], c['p']
    two = k in ('RateChoose', 'SetFixed', 'Alternating')
    name = {'RateChoose': 'RateChooseLearner', 'SetFixed': 'MixedComparisionSetFixed',
            'EqualChecking': 'MixedComparisionEqualChecking'}.get(k, 'Mixed' + k)
    if two:
        al = getattr(lop, name)(*parts[:2])
    elif k == 'Comparision':
        al = lop.MixedComparision(*parts, alpha=p)
    elif k == 'EqualChecking':
        al = lop.MixedComparisionEqualChecking(*parts)
    elif k.startswith('Decision'):
        al = getattr(lop, name)(*(parts + [p]))
    else:
        al = getattr(lop, name)(*(parts[:2] + [p]))
    m = make_model(c['m'], al)
    seen = set()
    for s in c['calls']:
        X, q = s['X'], s['q']
        mu = np.array(m.predict(arr(X))[0])
        if c['m']['model'] == 'linear' and (not finite(mu) or np.abs(mu).max() > 10):
            raise Reject
        pts = ([] if m.X_train is None else [tuple(r) for r in m.X_train]) + [tuple(r) for r in X]
        if len(set(pts)) < 4 or max(pts.count(r) for r in pts) > 2:
            raise Reject        # correlation of rewards undefined
        sel, rest = run_select(al, m, X, q)
        n = 1 if len(sel) == 1 else q['num']
        check_contract(X, q, sel, rest, n, False)
        seen.add('rating' if n == 1 else 'comparison')
        if k == 'RateChoose' and m.X_train is not None:
            a, b = float(al.pairwise_l.sel_metric), float(al.abs_l.sel_metric)
            check(a == b or (a > b) == (len(sel) > 1), 'asked a query of %d options with values %s '
                  'and %s', len(sel), a, b)
    return k + ',' + ','.join(sorted(seen)), len(c['calls']) > 1


# ---- deciding by alignment
@st.composite
def s_phase(draw):
    n = draw(st.sampled_from([0, 1, 3, 6, 9, 12]))
    return dict(n=n, ans=draw(st.lists(st.booleans(), min_size=14, max_size=14)),
                new=draw(st.sampled_from([2, 5, 14, 14])), rs=draw(seeds))


def run_phase(c):
    S = Script()
    prepare()
    pair, rate, _ = classes(S)
    al = lop.AlignmentDecision(pair, rate, c['n'])
    it = iter(c['ans'] * 3)
    exp = []

    def decide(X):
        a = next(it)
        exp.append(a)
        return a, 0.25, 0.75
    al.determine_query_type = decide
    m = model(al)
    k = 0
    for i in range(14):
        if i == c['new']:
            m = model(al)
            k = 0
        X = np.random.random((3 + i % 3, 2))
        del exp[:]
        got = asked(m.select(X, 2), len(X), 2, False)
        if k < c['n']:
            check(not exp, 'query %d was already decided by alignment', k + 1)
            want = 'pair' if k % 2 == 0 else 'rate'
        else:
            check(len(exp) == 1, 'query %d was not decided by alignment', k + 1)
            want = 'pair' if exp[0] else 'rate'
            check(al.rating_score == 0.25 and al.pref_score == 0.75, 'scores of the decision')
        check(got == want, 'query %d is a %s, expected a %s', k + 1, got, want)
        k += 1
    return 'phase', True


def run_align(c):
    prepare()
    o = dict(M=c['M'], alignment_f=c['align'], rep_Q_data={'num_pts': 4, 'num_Q': 3})
    al = lop.AlignmentDecision(lop.AcquisitionSelection(**o), lop.AbsAcquisition(**o), 0)
    m = lop.PreferenceGP(lop.RBF_kern(1.0, 0.7), active_learner=al)
    m.add(arr([[0.0, 0.5], [1.0, 0.2], [0.4, 0.9], [0.3, 0.1]]),
          [lop.preference(0, 1), lop.preference(2, 3)])
    m.add(arr([[0.2, 0.2], [0.9, 0.9]]), arr([0.7, 0.3]), type='abs')
    m.add(arr([[0.6, 0.1]]), np.array([4]), type='ordinal')
    X = np.random.random((4, 2))
    before = read_model(m)
    mu = np.array(m.predict(X)[0])
    sel = [int(i) for i in m.select(X, 2)]
    check(read_model(m) == before, 'deciding on the query changed the data of the model')
    same(m.predict(X)[0], mu, 'predictions after deciding on the query', 1e-2, 1e-2)
    r, p = float(al.rating_score), float(al.pref_score)
    lo, hi = (-1, 1) if c['align'] == 'spearman' else (-1, 0)
    check(lo - 1e-9 <= r <= hi + 1e-9 and lo - 1e-9 <= p <= hi + 1e-9, 'alignments %s, %s', r, p)
    check(len(sel) == (2 if p > r else 1), 'query of %d options with alignment %s by comparisons '
          'and %s by ratings', len(sel), p, r)
    check(al.pairwise_l.M == c['M'], 'number of samples left at %s', al.pairwise_l.M)
    return c['align'], True


def mean_alignment(a, b):
    """mean rank correlation of every row of a with every row of b"""
    def unit(z):
        z = stats.rankdata(z, axis=1)
        z = z - z.mean(axis=1, keepdims=True)
        return (z / np.sqrt((z * z).sum(axis=1, keepdims=True))).mean(axis=0)
    return float(unit(a) @ unit(b))


class Ranks(lop.AcquisitionSelection):
    """the rank correlation, only its mean, or values that were given"""
    script = None

    def alignment_between(self, all_rep_1, all_rep_2, Q_rep_1=None, Q_rep_2=None):
        if self.script:
            return np.array([[self.script.pop()]])
        return np.array([[mean_alignment(all_rep_1, all_rep_2)]])


@st.composite
def s_score(draw):
    X = draw(points(draw(st.integers(4, 6)), 2, -1, 1, 0.1, dup=False))
    n = len(X)
    pairs = []
    for _ in range(draw(st.integers(1, 5))):
        a = draw(st.integers(0, n - 1))
        b = draw(st.integers(0, n - 2))
        pairs.append([a, b + (b >= a)])
    idx = draw(st.lists(st.integers(0, n - 1), min_size=1, max_size=5))
    return dict(X=X, pairs=pairs, idx=idx, y=[draw(grid(0.05, 0.95, 0.05)) for _ in idx],
                sig=draw(grid(0.2, 1, 0.1)), v=draw(grid(5, 60, 5)), rs=draw(seeds))


@st.composite
def s_near(draw):
    c = draw(s_score())
    a = draw(grid(-0.9, 0.9, 0.01))
    c['near'] = [a, a + draw(grid(-0.06, 0.06, 0.01))]
    c['M'] = draw(st.sampled_from([5, 20, 130]))
    c['ord'] = [draw(st.integers(1, 5)) for _ in range(draw(st.sampled_from([0, 1, 3])))]
    return c


def run_score(c):
    prepare()
    if not distinct(c['X']):
        raise Reject
    n = len(c['X'])
    o = dict(M=c.get('M', 5), alignment_f='spearman', rep_Q_data={'num_pts': n, 'num_Q': 3})
    al = lop.AlignmentDecision(Ranks(**o), lop.AbsAcquisition(**o), 0)

    def fit(what, learner=None):
        m = lop.PreferenceGP(lop.RBF_kern(1.0, 0.7), active_learner=learner)
        m.probits[0].set_sigma(c['sig'])
        m.probits[2].set_v(c['v'])
        m.add(arr(c['X']), [lop.preference(a, b) for a, b in c['pairs']] if 'p' in what else [])
        if 'r' in what:
            m.add(np.zeros((0, 2)), (arr(c['y']), np.array(c['idx']) - n), type='abs')
        if c.get('ord'):
            m.add(arr(c['X'])[:len(c['ord'])] + 0.02, np.array(c['ord']), type='ordinal')
        return m
    m = fit('pr', al)
    before = read_model(m)
    al.pairwise_l.script = list(c.get('near', []))
    sel = [int(i) for i in m.select(np.random.random((3, 2)), 2)]
    check(read_model(m) == before, 'deciding on the query changed the data of the model')
    check(al.pairwise_l.M == o['M'], 'number of samples left at %s', al.pairwise_l.M)
    r, p = float(al.rating_score), float(al.pref_score)
    check(len(sel) == (2 if p > r else 1), 'query of %d options with alignment %s by comparisons and '
          '%s by ratings', len(sel), p, r)
    if 'near' in c:
        same(sorted([p, r]), sorted(c['near']), 'alignments reported', 1e-12, 1e-12)
        return 'comparison' if p > r else 'rating', p != r
    S = []
    for what in ('pr', 'p', 'r'):
        f = fit(what)
        mu, _ = f.predict(arr(c['X']))
        S.append(np.random.multivariate_normal(mu, f.cov, size=8000))
    same(p, mean_alignment(S[1], S[0]), 'alignment of the comparisons with all data', 0, 0.05)
    same(r, mean_alignment(S[2], S[0]), 'alignment of the ratings with all data', 0, 0.05)
    return 'comparison' if p > r else 'rating', abs(p - r) > 0.05


SUBS = [
    Sub('rule_' + k, s_rule(k), run_rule, quick=n, thorough=25 * n)
    for k, n in (('RateChoose', 80), ('Comparision', 160), ('EqualChecking', 160), ('SetFixed', 60),
                 ('Alternating', 40))
] + [Sub('chance_' + k, s_chance(k), run_chance, quick=12 if 'Dec' in k else 6, thorough=150,
         shards=2) for k in KINDS] + [
    Sub('real', s_real(), run_real, quick=120, thorough=2500, shards=8),
    Sub('decision_phase', s_phase(), run_phase, quick=120, thorough=3000),
    Sub('decision', st.fixed_dictionaries(dict(align=st.sampled_from(['spearman', 'epic']),
                                               M=st.sampled_from([5, 130]), rs=seeds)), run_align, quick=2, thorough=40,
        shards=1, case_limit=240),
    Sub('decision_near', s_near(), run_score, quick=24, thorough=600, shards=4, case_limit=240),
    Sub('decision_score', s_score(), run_score, quick=12, thorough=300, shards=4, case_limit=240),
]
