"""Generated active-learning problems: models, learners, queries."""
import multiprocessing
import sys
import types
from gps import *


def prepare():
    """approxcdf is not installed: the multivariate normal probabilities it computes come from
    scipy.  Numerical integration stays in this process."""
    if 'approxcdf' not in sys.modules:
        from scipy.stats import multivariate_normal
        m = types.ModuleType('approxcdf')
        seen = {}       # scipy integrates with points of its own that are different every time

        def mvn_cdf(x, cov):
            if len(x) == 0:
                return 1.0
            k = (np.asarray(x, dtype=float).tobytes(), np.asarray(cov, dtype=float).tobytes())
            if k not in seen:
                if len(seen) > 5000:
                    seen.clear()
                seen[k] = float(multivariate_normal(mean=np.zeros(len(x)), cov=cov,
                                                    allow_singular=True).cdf(np.asarray(x)))
            return seen[k]
        m.mvn_cdf = mvn_cdf
        sys.modules['approxcdf'] = m
    import lop.utilities.probability_utility as pu
    if not hasattr(pu, 'approxcdf'):
        pu.approxcdf = sys.modules['approxcdf']
    multiprocessing.current_process()._config['daemon'] = False
    import scipy._lib._util as u
    import scipy.integrate._quad_vec as q
    q.MapWrapper = lambda pool=1: u.MapWrapper(1)


@st.composite
def model_case(draw, kinds=('gp', 'GP', 'linear', 'simple'), empty=True, labels=ALL_KINDS,
               d=None, max_ops=3, max_n=4):
    k = draw(st.sampled_from(list(kinds)))
    d = d or draw(st.integers(2, 3) if k in ('linear', 'simple') else st.integers(1, 3))
    n = draw(st.integers(0 if empty else 1, max_ops))
    c = dict(model=k, d=d)
    if k in ('gp', 'linear'):
        c['ops'] = [draw(add_op(d, labels, lo=-1, hi=1, max_n=max_n)) for _ in range(n)]
        c['probits'] = draw(probit_params())
    if k in ('gp', 'GP'):
        c['kernel'] = draw(gp_kernel(d))
    if k == 'GP':
        X = draw(points(draw(st.integers(0 if empty else 1, 5)), d, -1, 1))
        c['X'], c['y'] = X, draw(vec(len(X), -2, 2))
    return c


def tame(c):
    """no sharper ratings than can be integrated: at a precision of 80 the density of a rating
    underflows at the ends of its range, where 0 / 0 is not part of what is promised"""
    if 'probits' in c:
        c['probits']['abs_v'] = min(c['probits']['abs_v'], 20.0)
    return c


def make_model(c, learner=None):
    import lop
    k = c['model']
    if k == 'simple':
        return lop.SimplelestModel(active_learner=learner)
    if k == 'GP':
        m = lop.GP(build_kernel(c['kernel']), active_learner=learner)
        if c['X']:
            m.add(arr(c['X']), arr(c['y']))
        return m
    if k == 'gp':
        m = lop.PreferenceGP(build_kernel(c['kernel']), active_learner=learner)
    else:
        m = lop.PreferenceLinear(active_learner=learner)
    set_probits(m, c['probits'])
    for op in c['ops']:
        apply_op(m, op)
    return m


def has_data(c):
    return bool(c.get('ops') or c.get('X'))


def make_learner(spec, **kw):
    import lop
    prepare()
    k = spec['learner']
    o = dict(default_to_pareto=spec.get('pareto', False),
             always_select_best=spec.get('best', False))
    o.update(kw)
    if k in ('UCB', 'GV_UCB'):
        return getattr(lop, k + 'Learner')(alpha=spec['alpha'], **o)
    if k in ('Best', 'Worst', 'Random', 'MutualInfo'):
        return getattr(lop, k + 'Learner')(**o)
    if k == 'BayesInfoGain':
        return lop.BayesInfoGain(p_q_B_method=spec.get('method', 'probit'), **o)
    if k in ('AcquisitionSelection', 'AbsAcquisition'):
        return getattr(lop, k)(M=spec['M'], alignment_f=spec['align'],
                               rep_Q_data=dict(num_pts=spec['num_pts'], num_Q=spec['num_Q']), **o)
    raise HarnessError(k)


def usable(spec, c):
    """can this learner work with this kind of model"""
    k, m = spec['learner'], c['model']
    if k in ('Best', 'Worst', 'Random'):
        return True
    if m == 'simple':
        return False
    if k in ('UCB', 'GV_UCB', 'MutualInfo'):
        return True
    return m in ('gp', 'linear')


LEARNERS = ['Best', 'Worst', 'Random', 'UCB', 'GV_UCB', 'MutualInfo', 'BayesInfoGain',
            'AcquisitionSelection', 'AbsAcquisition']


@st.composite
def learner_spec(draw, kinds=LEARNERS):
    return dict(learner=draw(st.sampled_from(list(kinds))), alpha=draw(grid(0, 3, 0.25)),
                M=draw(st.integers(3, 8)), num_pts=draw(st.integers(4, 8)),
                num_Q=draw(st.integers(2, 10)),
                align=draw(st.sampled_from(['rho', 'loglikelihood', 'epic', 'spearman', 'one'])),
                method=draw(st.sampled_from(['probit', '99', '999'])),
                pareto=draw(st.sampled_from([False, False, True])),
                best=draw(st.sampled_from([False, False, True])))


@st.composite
def candidates(draw, n, d, step=0.05):
    """candidate points, also points that nearly dominate or nearly equal each other"""
    if n > 20:
        # many points, most of them on the front of the best
        g = np.random.RandomState(draw(seeds))
        X = g.randint(-9, 10, (n, d)) * 0.25
        if d > 1:
            X[:, -1] = -X[:, :-1].sum(axis=1) - (g.rand(n) < 0.4)
        return X.tolist()
    X = draw(points(n, d, -2, 2, step))
    if n and draw(st.sampled_from([False, False, True])):
        base = X[:draw(st.integers(1, max(1, n // 2)))]
        eps = draw(st.sampled_from([1e-2, 1e-3, 1e-4, 1e-6, 1e-9]))
        X = [[x + eps * draw(st.sampled_from([-2, -1, 0, 0, 1, 2])) for x in base[i % len(base)]]
             for i in range(n)]
    return X


def ref_pareto(X):
    """indices of the points no other point dominates; of equal points the first"""
    out = []
    for i, p in enumerate(X):
        dom = any(all(b >= a for a, b in zip(p, q)) and any(b > a for a, b in zip(p, q))
                  for q in X)
        if not dom and not any(list(q) == list(p) for q in X[:i]):
            out.append(i)
    return out


@st.composite
def query(draw, N):
    k = draw(st.sampled_from(['none', 'none', 'int', 'set', 'list', 'pareto', 'zero', 'few']))
    prefer = {'none': None, 'pareto': 'pareto', 'zero': 0}.get(k)
    if k == 'int':
        prefer = draw(st.integers(1, N))
    elif k in ('set', 'list'):
        prefer = sorted(draw(st.sets(st.integers(0, N - 1), max_size=N)))
    elif k == 'few':
        k = draw(st.sampled_from(['set', 'list']))
        prefer = draw(st.permutations(range(N)))[:draw(st.sampled_from([1, 2, 2, 3]))]
    prev = []
    if draw(st.sampled_from([False, True])):
        prev = draw(st.permutations(range(N)))[:draw(st.integers(0, N - 1))]
    return dict(num=draw(st.integers(1, N + 1)), prev=list(prev), pk=k, prefer=prefer,
                rest=draw(st.booleans()), pair_first=draw(st.sampled_from([True, True, False])),
                via=draw(st.sampled_from(['learner', 'model'])),
                prev_as=draw(st.sampled_from(['list', 'set', 'tuple'])))


def prefer_arg(q):
    return set(q['prefer']) if q['pk'] == 'set' else list(q['prefer']) if q['pk'] == 'list' \
        else q['prefer']


def prefer_set(q, X, default_pareto):
    if q['pk'] in ('set', 'list'):
        return set(q['prefer'])
    if q['pk'] == 'int':
        return set(range(q['prefer']))
    if q['pk'] == 'pareto' or (q['pk'] == 'none' and default_pareto):
        return set(ref_pareto(X))
    return set(range(len(X)))


def run_select(learner, model, X, q):
    """make the call; returns (selected, not selected or None)"""
    A = arr(X)
    form = dict(list=list, set=set, tuple=tuple)[q.get('prev_as', 'list')]
    prev, pref = form(q['prev']), prefer_arg(q)
    if q['via'] == 'model' and model is not None:
        r = model.select(A, q['num'], prev_selection=prev, prefer_pts=pref,
                         return_not_selected=q['rest'])
    else:
        r = learner.select(A, q['num'], prev_selection=prev, prefer_pts=pref,
                           return_not_selected=q['rest'], select_pair_first=q['pair_first'])
    check((A == arr(X)).all() and prev == form(q['prev']) and pref == prefer_arg(q),
          'selecting changed the caller\'s arguments')
    if q['rest']:
        check(isinstance(r, tuple) and len(r) == 2, 'expected selected and not selected points, '
              'got %r', r)
        return [int(i) for i in r[0]], [int(i) for i in r[1]]
    return [int(i) for i in r], None


def check_contract(X, q, sel, rest, k, pareto, best_mu=None):
    """k points asked for (after capping); best_mu: predicted values when the best comes first"""
    N = len(X)
    pref = prefer_set(q, X, pareto) - set(q['prev'])
    check(len(sel) == k, '%d points asked for, %d selected: %s', k, len(sel), sel)
    check(len(set(sel)) == len(sel), 'a point was selected twice: %s', sel)
    check(all(0 <= i < N for i in sel), 'selected %s of %d candidates', sel, N)
    check(not set(sel) & set(q['prev']), 'selected %s again, of the earlier %s', sel, q['prev'])
    want = min(k, len(pref))
    got = len(set(sel) & pref)
    check(got == want, '%d preferred points selected (%s of %s), %d were available', got, sel,
          sorted(pref), want)
    if rest is not None:
        check(len(set(rest)) == len(rest), 'a point was left out twice: %s', rest)
        check(not set(rest) & set(sel), 'points both selected and not selected: %s, %s', sel,
              rest)
        check(not set(rest) & set(q['prev']), 'left out %s were selected earlier', rest)
        check(not set(rest) & pref, 'preferred points passed over: %s (preferred %s)', rest,
              sorted(pref))
        check(all(0 <= i < N for i in rest), 'left out %s of %d candidates', rest, N)
    if best_mu is not None and not q['prev']:
        among = sorted(pref) or range(N)
        check(best_mu[sel[0]] >= max(best_mu[i] for i in among) - 1e-9,
              'the first point %d is not the best one: %s', sel[0], best_mu)
