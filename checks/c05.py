from gps import *
import copy
import lop

PROPERTY = 'C05'
RULE = ('a case is non-trivial when the model holds at least one comparison or rating; distinct '
        '= distinct (kernel, label parameters, data, transformation)')
ASSUMPTIONS = [
    'comparisons and ordinal ratings only: their posterior has a single mode, so results do not '
    'depend on the starting point; stopping threshold of the fit set to 1e-9',
    'up to 4 additions of up to 4 samples in up to 3 dimensions; kernels with at least 0.02 noise']


@st.composite
def s_sym(draw, kinds=LOGCONCAVE):
    g = draw(gp_case(kinds, pareto=False))
    d = g['d']
    return dict(g=g, X=draw(points(draw(st.integers(1, 5)), d, -2, 2, 0.05)),
                shift=draw(vec(d, -3, 3, 0.25)), scale=draw(st.sampled_from([0.5, 2.0, 3.0])),
                seed=draw(seeds), rs=draw(seeds), extra=draw(points(2, d, -1, 1, 0.05)),
                pick=draw(st.integers(0, 20)))


def fit_ops(g, ops, test):
    c = dict(g)
    c['ops'] = ops
    m, ref = build_gp(c, tight=True)
    # one more point, so that the batch is never the training set itself (whose own observation
    # noise takes part in its covariance)
    mu, var = m.predict(arr(list(test) + [[7.75] * len(test[0])]))
    F = np.asarray(m.F, dtype=float)
    post = Posterior(ref, g['probits'], g['kernel'])
    if not finite(F) or not post.in_range(F):
        raise Reject
    return np.asarray(mu)[:-1], np.asarray(var)[:-1], F, ref


def eq(a, b, what, k=1.0):
    s = max(1.0, np.abs(a[0]).max(), np.abs(b[0]).max(), np.abs(a[2]).max())
    same(b[0], k * a[0], 'means ' + what, 0, 2e-5 * s)


def run_order(c):
    g, ops = c['g'], c['g']['ops']
    if len(ops) == 0:
        raise Reject
    a = fit_ops(g, ops, c['X'])
    rng = np.random.RandomState(c['seed'])
    new = []
    for op in ops:
        op = copy.deepcopy(op)
        n = len(op['X'])
        p = rng.permutation(n)            # new position k holds old sample p[k]
        inv = np.argsort(p)
        op['X'] = [op['X'][i] for i in p]
        if op['op'] == 'pairs':
            y = []
            for d, u, v in op['y']:
                u, v = int(inv[u]), int(inv[v])
                y.append([d, u, v] if rng.rand() < 0.5 else [-d, v, u])
            op['y'] = [y[i] for i in rng.permutation(len(y))]
        elif op['op'] == 'ord':
            op['y'] = [op['y'][i] for i in p]
        else:
            op['y'] = [[r, int(inv[i])] for r, i in op['y']]
            op['y'] = [op['y'][i] for i in rng.permutation(len(op['y']))]
        new.append(op)
    new = [new[i] for i in rng.permutation(len(new))]
    b = fit_ops(g, new, c['X'])
    eq(a, b, 'after giving the same data in another order and notation')
    same(b[1], a[1], 'variances after giving the same data in another order', 1e-4, 1e-5)
    return ','.join(label_mix(a[3])), bool(a[3].pairs or a[3].ords)


def run_flip(c):
    g = c['g']
    ops = copy.deepcopy([o for o in g['ops'] if o['op'] == 'pairs'])
    if not ops:
        raise Reject
    a = fit_ops(g, ops, c['X'])
    for o in ops:
        o['y'] = [[-d, u, v] for d, u, v in o['y']]
    b = fit_ops(g, ops, c['X'])
    eq(a, b, 'after reversing every comparison', -1.0)
    same(b[1], a[1], 'variances after reversing every comparison', 1e-4, 1e-5)
    return 'flip', bool(a[3].pairs)


def shift_spec(spec, t, d):
    if spec[0] in '+*':
        return [spec[0], shift_spec(spec[1], t, d), shift_spec(spec[2], t, d)]
    if spec[0] == 'zeroed':
        z = spec[4] if spec[4] is not None else [0.0] * d
        return spec[:4] + [[a + b for a, b in zip(z, t)]]
    return spec


def run_shift(c):
    g = copy.deepcopy(c['g'])
    if 'linear' in kinds_in(g['kernel']):
        raise Reject
    a = fit_ops(g, g['ops'], c['X'])
    t = c['shift']
    mv = lambda X: [[p + q for p, q in zip(r, t)] for r in X]
    for op in g['ops']:
        op['X'] = mv(op['X'])
    g['kernel'] = shift_spec(g['kernel'], t, g['d'])
    b = fit_ops(g, g['ops'], mv(c['X']))
    eq(a, b, 'after moving samples and test points together')
    same(b[1], a[1], 'variances after moving all points', 1e-4, 1e-5)
    return ','.join(label_mix(a[3])), any(t) and bool(a[3].pairs or a[3].ords)


def scale_spec(spec, k):
    if spec[0] == '+':
        return ['+', scale_spec(spec[1], k), scale_spec(spec[2], k)]
    if spec[0] == '*':
        return ['*', scale_spec(spec[1], k), spec[2]]
    if spec[0] in ('rbf', 'zeroed'):
        return [spec[0], spec[1] * k, spec[2], spec[3] * k * k] + spec[4:]
    if spec[0] == 'periodic':
        return [spec[0], spec[1] * k] + spec[2:]
    return [spec[0], spec[1] * k, spec[2] * k, spec[3]]


def run_scale(c):
    g = copy.deepcopy(c['g'])
    a = fit_ops(g, g['ops'], c['X'])
    k = c['scale']
    g['kernel'] = scale_spec(g['kernel'], k)
    for p in ('pair', 'ord_s', 'ord_b'):
        g['probits'][p] *= k
    b = fit_ops(g, g['ops'], c['X'])
    eq(a, b, 'after measuring utility in other units', k)
    same(b[1], k * k * a[1], 'variances after measuring utility in other units', 1e-4, 1e-4)
    return ','.join(label_mix(a[3])), bool(a[3].pairs or a[3].ords)


def run_unused(c):
    # samples nobody compared or rated carry no information
    g = c['g']
    a = fit_ops(g, g['ops'], c['X'])
    extra = dict(op='pairs', X=c['extra'], y=[], form='list')
    k = c['pick'] % (len(g['ops']) + 1)
    b = fit_ops(g, g['ops'][:k] + [extra] + g['ops'][k:], c['X'])
    eq(a, b, 'after adding samples without labels')
    same(b[1], a[1], 'variances after adding samples without labels', 1e-4, 1e-5)
    return ','.join(label_mix(a[3])), bool(a[3].pairs or a[3].ords)


def run_repeat(c):
    # hearing a comparison again moves the two options apart, never together
    g = copy.deepcopy(c['g'])
    where = [(i, j) for i, o in enumerate(g['ops']) if o['op'] == 'pairs'
             for j in range(len(o['y']))]
    if not where:
        raise Reject
    i, j = where[c['pick'] % len(where)]
    ref = RefData(False)
    for o in g['ops'][:i]:
        ref.apply(o)
    n0 = len(ref.X)
    d, u, v = g['ops'][i]['y'][j]
    w, l = (u, v) if d == -1 else (v, u)
    a = fit_ops(g, g['ops'], c['X'])
    g['ops'][i]['y'].append([d, u, v])
    b = fit_ops(g, g['ops'], c['X'])
    da, db = a[2][n0 + w] - a[2][n0 + l], b[2][n0 + w] - b[2][n0 + l]
    check(db >= da - 1e-6, 'stating a comparison again moved winner and loser from %.6f to %.6f '
          'apart', da, db)
    return 'moved' if db > da + 1e-4 else 'still', True


def run_raise(c):
    # a higher rating never lowers the rated sample
    g = copy.deepcopy(c['g'])
    where = []
    n = 0
    for i, o in enumerate(g['ops']):
        if o['op'] == 'ord':
            where += [(i, j, n + j) for j in range(len(o['y'])) if o['y'][j] < 5]
        elif o['op'] == 'ord_idx':
            where += [(i, j, n + o['y'][j][1]) for j in range(len(o['y'])) if o['y'][j][0] < 5]
        n += len(o['X'])
    if not where:
        raise Reject
    i, j, s = where[c['pick'] % len(where)]
    a = fit_ops(g, g['ops'], c['X'])
    if g['ops'][i]['op'] == 'ord':
        g['ops'][i]['y'][j] += 1
    else:
        g['ops'][i]['y'][j][0] += 1
    b = fit_ops(g, g['ops'], c['X'])
    check(b[2][s] >= a[2][s] - 1e-6, 'a higher rating moved the sample from %.6f to %.6f',
          a[2][s], b[2][s])
    return 'moved' if b[2][s] > a[2][s] + 1e-4 else 'still', True


@st.composite
def s_single(draw):
    d = draw(st.integers(1, 3))
    return dict(kernel=['rbf', draw(grid(0.3, 2, 0.05)), draw(grid(0.2, 2, 0.05)),
                        draw(grid(0.02, 0.3, 0.01))],
                probits=draw(probit_params()), X=draw(points(2, d, -1, 1, 0.05)),
                rating=draw(st.floats(0.02, 0.98).map(lambda v: round(v, 3))),
                dk=draw(st.sampled_from([-1, 1])), rs=draw(seeds),
                kind=draw(st.sampled_from(['pair', 'pair', 'rate'])))


def run_single(c):
    m = new_gp(c)
    m.delta_f = 1e-9
    X = arr(c['X'])
    if c['kind'] == 'pair':
        m.add(X, [[c['dk'], 0, 1]])
        m.optimize()
        F = m.F
        w, l = (0, 1) if c['dk'] == -1 else (1, 0)
        check(F[w] > 0 > F[l] and abs(F[w] + F[l]) < 1e-6, 'one comparison gives winner %s and '
              'loser %s', F[w], F[l])
        if c['X'][0] != c['X'][1]:
            mu, _ = m.predict(X[::-1])
            check(mu[1 - w] > mu[1 - l], 'winner is predicted below the loser')
            mu = [m.predict(X[[i]])[0][0] for i in (0, 1)]
            check(mu[w] > mu[l], 'winner is predicted below the loser')
    else:
        m.add(X[:1], arr([c['rating']]), type='abs')
        m.optimize()
        f, r = float(m.F[0]), c['rating']
        check(abs(f) < 1e-6 or (f > 0) == (r > 0.5), 'rating %s gives the latent value %s', r, f)
        m2 = new_gp(c)
        m2.delta_f = 1e-9
        m2.add(X[:1], arr([1 - r]), type='abs')
        m2.optimize()
        same(m2.F[0], -f, 'latent value of the opposite rating', 0, 1e-5)
    return c['kind'], True


SUBS = [
    Sub('order_and_notation', s_sym(), run_order, quick=700, thorough=20000),
    Sub('reversed', s_sym(), run_flip, quick=300, thorough=8000),
    Sub('translation', s_sym(), run_shift, quick=300, thorough=8000),
    Sub('units', s_sym(), run_scale, quick=300, thorough=8000),
    Sub('unused_samples', s_sym(), run_unused, quick=400, thorough=10000),
    Sub('repeated_comparison', s_sym(['pairs', 'pairs', 'ord']), run_repeat, quick=400,
        thorough=10000),
    Sub('raised_rating', s_sym(['pairs', 'ord', 'ord_idx']), run_raise, quick=400,
        thorough=10000),
    Sub('single_label', s_single(), run_single, quick=300, thorough=8000),
]
