import random
from learners import *
import lop

PROPERTY = 'C26'
RULE = ('a case is non-trivial when the learner had been asked at least one query before the one that '
        'is compared; distinct = distinct (model, learner, history, query)')
ASSUMPTIONS = [
    'up to 4 earlier queries, also with another model, and additions of data in between; up to 6 '
    'candidates, 3-8 samples of rewards',
    'the random state is the same before both queries; learners with a schedule are handed to the '
    'model again, which restarts it',
    'correlation measures need at least four different representative points; models whose weights '
    'the data leave undetermined are left out (see C13)']
MIXED = ['RateChoose', 'Comparision', 'EqualChecking', 'SetFixed', 'Alternating', 'Strategy',
         'StrategyPeak', 'StrategyPeak2', 'StrategyPeak3', 'StrategyRevPeak', 'Decision', 'Decision2']


def mixed(c):
    prepare()
    o = dict(M=c['spec']['M'], alignment_f=c['spec']['align'], rep_Q_data={'num_pts': 5, 'num_Q': 5})
    parts = [lop.AcquisitionSelection(**o), lop.AbsAcquisition(**o), lop.AbsAcquisition(**o)]
    k, p = c['spec']['learner'], c['p']
    name = {'RateChoose': 'RateChooseLearner', 'SetFixed': 'MixedComparisionSetFixed',
            'EqualChecking': 'MixedComparisionEqualChecking'}.get(k, 'Mixed' + k)
    if k in ('RateChoose', 'SetFixed', 'Alternating'):
        return getattr(lop, name)(*parts[:2])
    if k == 'Comparision':
        return lop.MixedComparision(*parts, alpha=p)
    if k == 'EqualChecking':
        return lop.MixedComparisionEqualChecking(*parts)
    if k.startswith('Decision'):
        return getattr(lop, name)(*(parts + [p]))
    return getattr(lop, name)(*(parts[:2] + [p]))


def make(c):
    return mixed(c) if c['spec']['learner'] in MIXED else make_learner(c['spec'])


@st.composite
def s_hist(draw, kinds, models, max_n=6):
    sp = draw(learner_spec(kinds))
    mix = sp['learner'] in MIXED
    labels = ['pairs', 'abs', 'abs_idx'] if 'linear' in models else ALL_KINDS
    c = draw(model_case(models, labels=labels))
    if sp['method'] == 'probit':
        sp['method'] = '99'     # reports no gain at all, see C24
    steps = []
    for _ in range(draw(st.sampled_from([1, 1, 2, 3, 4])) + 1):
        N = draw(st.sampled_from([3, 4, 5, max_n]))
        q = draw(query(N))
        q['num'] = min(q['num'], N - len(q['prev']))
        if mix:
            q['prev'] = q['prev'][:1]
            q['num'] = 2
        s = dict(X=draw(candidates(N, c['d'])), q=q, new=None, other=draw(st.sampled_from(
            [False, False, False, True])))
        if c['model'] in ('gp', 'linear') and draw(st.sampled_from([False, True])):
            s['new'] = draw(add_op(c['d'], labels, lo=-1, hi=1, max_n=3))
        steps.append(s)
    other = draw(model_case((c['model'],), labels=labels, d=c['d']))
    if mix or sp['learner'] == 'AbsAcquisition':
        tame(c), tame(other)
    return dict(spec=sp, m=c, other=other, steps=steps, p=draw(grid(0.1, 0.9, 0.1)), rs=draw(seeds))


def skip(c, m, X):
    """the query is not defined for this model"""
    sp = c['spec']
    mu = np.array(m.predict(arr(X))[0])
    if not finite(mu) or np.abs(mu).max() > 1e2:
        return True
    if sp['learner'] in MIXED or sp['learner'] in ('AcquisitionSelection', 'AbsAcquisition'):
        t = getattr(m, 'X_train', None)
        pts = ([] if t is None else [tuple(r) for r in t]) + [tuple(r) for r in X]
        near = [tuple(np.round(p, 1)) for p in pts]
        if t is None and sp['learner'] in MIXED:
            return True
        return len(set(near)) < 4 or max(near.count(r) for r in near) > 2
    return False


def watch(a, name, log):
    real = getattr(a, name)

    def f(*args, **kw):
        a.sel_metric = None
        r = real(*args, **kw)
        v = None if a.sel_metric is None else float(a.sel_metric)
        log.append(([int(i) for i in np.ravel(r)], v))
        return r
    setattr(a, name, f)


def ask(al, m, s, seed):
    """the answer, and the choices that led to it"""
    log = []
    parts = [a for a in [al] + [getattr(al, n, None) for n in ('pairwise_l', 'abs_l', 'abs_comp')]
             if a is not None]
    for a in parts:
        for name in ('select_greedy', 'select_pair'):
            if hasattr(a, name):
                watch(a, name, log)
    np.random.seed(seed)
    random.seed(seed)
    r = run_select(al, m, s['X'], s['q'])
    for a in parts:
        for name in ('select_greedy', 'select_pair'):
            vars(a).pop(name, None)
    return r, log


def equal(a, b, what):
    """the same choices with the same values; at a tie they may part"""
    for (i, v), (j, w) in zip(a[1], b[1]):
        if None not in (v, w) and v != v and w != w:
            return      # the model has no proper distribution, see C13
        check((v is None) == (w is None) and (v is None or abs(v - w) <= 1e-4 * max(1, abs(v)) + 2e-4),
              what + ': choices with their values %s and %s', a[1], b[1])
        if i != j and v is not None:
            return
        check(i == j, what + ': choices %s and %s', a[1], b[1])
    check(a[0] == b[0], what + ': %s and %s', a[0], b[0])


def run_hist(c):
    sp = c['spec']
    if not usable(sp, c['m']) and sp['learner'] not in MIXED:
        raise Reject
    mix = sp['learner'] in MIXED
    al = make(c)
    other = make_model(c['other'], al)
    m = make_model(c['m'], al)
    n = 0
    for t, s in enumerate(c['steps']):
        last = t == len(c['steps']) - 1
        if s['new'] is not None:
            apply_op(m, s['new'])
        who = other if s['other'] and not last else m
        if skip(c, who, s['X']):
            if last:
                raise Reject
            continue
        al.set_model(who)
        if last:
            break
        run_select(al, who, s['X'], s['q'])
        n += 1
    data = None if c['m']['model'] in ('GP', 'simple') else read_model(m)
    X = arr(s['X'])
    mu, sd = (np.array(v, dtype=float) if v is not None else 0.0 for v in m.predict(X))
    first = ask(al, m, s, c['rs'])
    if data is not None:
        check(read_model(m) == data, 'asking a query changed the data of the model')
    mu2, sd2 = (np.array(v, dtype=float) if v is not None else 0.0 for v in m.predict(X))
    if c['m']['model'] != 'linear' or m.X_train is not None:
        same(mu2, mu, 'predictions after the query', 1e-9, 1e-12)
        same(sd2, sd, 'variances after the query', 1e-9, 1e-12)
    fresh = make(c)
    fresh.set_model(m)
    m.active_learner = fresh
    second = ask(fresh, m, s, c['rs'])
    equal(first, second, 'a learner asked %d queries before, and a new one' % n)
    m.active_learner = al
    if mix:
        al.set_model(m)
    again = ask(al, m, s, c['rs'])
    equal(first, again, 'the same query asked twice')
    return '%s,%s%s' % (sp['learner'], c['m']['model'], ',%d-before' % n), n > 0


CHEAP = ['Best', 'Worst', 'Random', 'UCB', 'GV_UCB', 'MutualInfo']
SUBS = [
    Sub('simple', s_hist(CHEAP, ('gp', 'GP', 'linear')), run_hist, quick=500, thorough=12000),
    Sub('bayes', s_hist(['BayesInfoGain'], ('gp', 'linear')), run_hist, quick=160, thorough=4000),
    Sub('acquisition', s_hist(['AcquisitionSelection'], ('gp', 'linear')), run_hist, quick=200,
        thorough=5000),
    Sub('rating', s_hist(['AbsAcquisition'], ('gp', 'linear'), 4), run_hist, quick=48, thorough=1000),
    Sub('mixed', s_hist(MIXED, ('gp', 'gp', 'linear'), 4), run_hist, quick=96, thorough=2000),
]
