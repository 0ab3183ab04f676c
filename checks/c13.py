from gps import *
import lop

PROPERTY = 'C13'
RULE = ('a case is non-trivial when the model holds at least one comparison or rating that '
        'constrains the weights; distinct = distinct histories')
ASSUMPTIONS = [
    'at least two features, in units of any size; up to 4 additions of up to 4 samples; comparisons and ordinal ratings '
    'for the maximum-likelihood checks (single maximum)',
    'the default stopping threshold is 2e-3 in the weights; the likelihood has no maximum when the '
    'data can be separated: those cases are only checked for linear and finite predictions',
    'data that leave a direction of the weights undetermined are left out (known finding: the fit '
    'then steps down the likelihood)']


@st.composite
def s_lin(draw, kinds=LOGCONCAVE, max_ops=4):
    d = draw(st.integers(2, 3))
    steps = []
    for _ in range(draw(st.integers(1, max_ops))):
        steps.append(draw(add_op(d, kinds, lo=-1, hi=1, max_n=4)))
    # features in smaller units: larger weights
    unit = draw(st.sampled_from([1, 1, 1, 0.1, 0.01, 10]))
    for op in steps:
        op['X'] = [[v * unit for v in r] for r in op['X']]
        if unit != 1:
            op.pop('xt', None)
    return dict(d=d, probits=draw(probit_params()), ops=steps, rs=draw(seeds), unit=unit,
                pareto=draw(st.sampled_from([False, False, True])),
                X=draw(points(draw(st.integers(1, 6)), d, -2, 2)))


def new_lin(c):
    m = lop.PreferenceLinear(pareto_pairs=c['pareto'])
    set_probits(m, c['probits'])
    return m


def build(c):
    m = new_lin(c)
    ref = RefData(c['pareto'])
    for op in c['ops']:
        apply_op(m, op)
        ref.apply(op)
    return m, ref


def ml(ref, post, d, unit=1):
    """the maximum-likelihood weights, or None if there is no clear finite maximum"""
    X = arr(ref.X)
    w = np.zeros(d)
    for _ in range(60):
        ll, g, W = post.lik(X @ w)
        H = X.T @ W @ X
        if np.linalg.eigvalsh(H)[0] < 0.05 * unit ** 2:
            return None
        step = np.linalg.solve(H, X.T @ g)
        t = 1.0
        while t > 1e-6 and post.lik(X @ (w + t * step))[0] < ll - 1e-12:
            t /= 2
        w = w + t * step
        if np.abs(w).max() > 8 / unit:
            return None
        if np.abs(step).max() < 1e-11 / unit:
            return w
    return None


def run_fit(c):
    m, ref = build(c)
    if not ref.X:
        raise Reject
    post = Posterior(ref, c['probits'])
    T = arr(c['X'])
    best = ml(ref, post, c['d'], c.get('unit', 1))
    if best is None or not post.in_range(arr(ref.X) @ best):
        raise Reject
    m.optimize()
    w = np.asarray(m.w, dtype=float)
    check(w.shape == (c['d'],), 'weights have shape %s for %d features', w.shape, c['d'])
    same(w, best, 'fitted weights against the maximum-likelihood weights', 0,
         0.02 * max(1, np.abs(best).max()))
    m.delta_f = 1e-9
    m.optimize()
    same(m.w, best, 'weights with a tight threshold', 0, 1e-6 * max(1, np.abs(best).max()))
    mu, var = m.predict(T)
    same(mu, T @ best, 'predictions', 1e-6, 1e-5 * max(1, np.abs(best).max()))
    W, g, ll = m.derivatives(m.X_train, m.y_train, best)
    rll, rg, rW = post.lik(arr(ref.X) @ best)
    same(ll, rll, 'log likelihood of the weights', 1e-7, 1e-7)
    same(g, arr(ref.X).T @ rg, 'gradient of the weights', 1e-5, 1e-5)
    same(W, arr(ref.X).T @ rW @ arr(ref.X), 'curvature of the weights', 1e-5, 1e-5)
    return ','.join(label_mix(ref)), True


def run_derivatives(c):
    m, ref = build(c)
    if not ref.X:
        raise Reject
    post = Posterior(ref, c['probits'])
    w = arr(c['X'][0])
    F = arr(ref.X) @ w
    if not post.in_range(F):
        raise Reject
    W, g, ll = m.derivatives(m.X_train, m.y_train, w)
    rll, rg, rW = post.lik(F)
    X = arr(ref.X)
    same(ll, rll, 'log likelihood of the weights', 1e-7, 1e-7)
    same(g, X.T @ rg, 'gradient of the weights', 1e-5, 1e-6 * (1 + np.abs(rg).max()))
    same(W, X.T @ rW @ X, 'curvature of the weights', 1e-5, 1e-6 * (1 + np.abs(rW).max()))
    same(m.loss_func(w), rll, 'objective of the fit', 1e-7, 1e-7)
    return ','.join(label_mix(ref)), bool(ref.pairs or ref.ords or ref.abs)


@st.composite
def s_hist(draw):
    d = draw(st.integers(2, 3))
    steps = []
    for _ in range(draw(st.integers(2, 8))):
        k = draw(st.sampled_from(['add', 'add', 'add', 'predict', 'predict', 'reset', 'optimize']))
        steps.append(draw(add_op(d, ['pairs', 'ord', 'ord', 'ord', 'bad_ord', 'bad_abs'], lo=-1, hi=1,
                            max_n=5))
                     if k == 'add' else dict(op=k))
    return dict(d=d, probits=draw(probit_params()), steps=steps, rs=draw(seeds), pareto=False,
                X=draw(points(draw(st.integers(1, 4)), d, -2, 2)))


def run_hist(c):
    m = new_lin(c)
    m.delta_f = 1e-9
    T = arr(c['X'])
    ref = RefData()
    fitted = interesting = False
    n = 0
    for op in c['steps'] + [dict(op='predict')]:
        if op['op'] == 'reset':
            m.reset()
            ref.clear()
            interesting = interesting or fitted
        elif op['op'].startswith('bad'):
            try:
                apply_op(m, op)
            except Violation:
                raise
            except Exception:
                pass
            else:
                fail('invalid labels were accepted')
        elif op['op'] == 'optimize':
            if ref.X:
                m.optimize()
                fitted = True
        elif op['op'] == 'predict':
            mu, var = m.predict(T)
            check(np.shape(mu) == (len(T),), 'predictions have shape %s', np.shape(mu))
            best = ml(ref, Posterior(ref, c['probits']), c['d']) if ref.X else None
            if ref.X and (singular(ref, c) or best is None and not finite(mu)):
                continue        # undetermined weights, see KNOWN
            check(finite(mu), 'predictions are not finite: %s', mu)
            # linear in the features, whatever the weights
            a, b = m.predict(np.vstack([T[0], 2 * T[0], T[0] + T[-1], T[-1]]))
            if ref.X:
                same(a[0], mu[0], 'same point predicted again', 1e-9, 1e-9)
                same([a[1], a[2]], [2 * a[0], a[0] + a[3]], 'predictions are not linear', 1e-8,
                     1e-8 * max(1, np.abs(a).max()))
                fitted = True
                if best is not None and Posterior(ref, c['probits']).in_range(arr(ref.X) @ best):
                    same(mu, T @ best, 'predictions from the current data', 1e-6,
                         1e-5 * max(1, np.abs(best).max()))
                    n += 1
        else:
            apply_op(m, op)
            ref.apply(op)
            interesting = interesting or fitted
    return 'compared' if n else 'separable', n > 0 and interesting


def singular(ref, c):
    """do labels and features leave a direction of the weights undetermined"""
    X = arr(ref.X)
    W = Posterior(ref, c['probits']).lik(np.zeros(len(X)))[2]
    return np.linalg.eigvalsh(X.T @ W @ X)[0] < 1e-3


def run_singular(c):
    m, ref = build(c)
    m.optimize()
    w0 = np.linalg.norm(np.asarray(m.w))
    check(np.isfinite(w0) and w0 < 100, 'the fitted weights are %s', m.w)
    return 'singular', True


# replayed from known_findings.json
KNOWN = [Sub('singular_fit', None, run_singular)]
SUBS = [
    Sub('maximum_likelihood', s_lin(['pairs', 'ord', 'ord', 'ord_idx'], 5), run_fit, quick=800,
        thorough=20000),
    Sub('derivatives', s_lin(ALL_KINDS), run_derivatives, quick=600, thorough=15000),
    Sub('history', s_hist(), run_hist, quick=1000, thorough=25000),
]
