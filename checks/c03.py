from gps import *
import lop

PROPERTY = 'C03'
RULE = ('a case is non-trivial when the model holds at least one label; distinct = distinct '
        '(kernel, label parameters, history of additions)')
ASSUMPTIONS = [
    'up to 4 additions of up to 4 samples in up to 3 dimensions; latent values in units of 0.003 '
    '(comparisons only) to 30; kernels with at least 0.02 units of '
    'observation noise, so the prior covariance is well conditioned',
    'the default stopping threshold is 2e-4 in the latent values: the remaining Newton step is '
    'allowed 5e-4, and 1e-6 when the threshold is set to 1e-9',
    'labels in the far tails (ordinal probability below 1e-7, bounded ratings 4.5 link standard '
    'deviations out), where the code uses approximations, are left out',
    'absolute ratings have a non-concave likelihood, on which the fit may end at a saddle: there '
    'one of six starting points has to give a local maximum; with comparisons and ordinal ratings '
    'every fit is checked to be the global one']


def case(kinds):
    return st.fixed_dictionaries(dict(g=gp_case_units(kinds), tight=st.booleans(), rs=seeds,
                                      pts=st.lists(vec(16, -1, 1, 0.1), min_size=2, max_size=2)))


def fit(c, **kw):
    m, ref = build_gp(c['g'], c['tight'], **kw)
    if not ref.X:
        raise Reject
    m.optimize()
    F = np.asarray(m.F, dtype=float)
    check(F.shape == (len(ref.X),) and finite(F), 'latent values have shape %s for %d samples',
          F.shape, len(ref.X))
    return m, ref, F


def distance(F, post):
    step, H = post.newton_step(F)
    return np.abs(step).max(), np.linalg.eigvalsh((H + H.T) / 2)[0]


def at_mode(m, ref, post, tight, rs):
    """with comparisons and ordinal ratings the posterior is concave, and every fit has to end at
    the mode.  Absolute ratings make it non-concave: Newton's method may then end at a saddle or
    run out of iterations, so those fits are repeated from other starting points."""
    tol = 1e-6 if tight else 5e-4
    convex_fails = 0
    for k in range(6 if ref.abs else 1):
        if k:
            np.random.seed((rs + 7919 * k) % 2**32)
            m.optimize()
        F = np.asarray(m.F, dtype=float)
        if not post.in_range(F):
            raise Reject
        err, curv = distance(F, post)
        if err <= tol * max(1.0, np.abs(F).max()) and curv > 0:
            return F, k
        check(ref.abs or curv > 0, 'the fitted latent values %s are not a maximum (curvature %s)',
              F, curv)
        convex_fails += curv > 0
    if convex_fails >= min(3, k + 1):
        fail('the fitted latent values %s are not stationary, a Newton step moves them by %.3g'
             % (F, err))
    raise Reject


def run_local(c):
    m, ref, F = fit(c)
    post = Posterior(ref, c['g']['probits'], c['g']['kernel'])
    F, tries = at_mode(m, ref, post, c['tight'], c['rs'])
    v = post.value(F)
    for u in c['pts']:
        G = F + 1e-2 * arr(u)[np.arange(len(F)) % 16]
        check(post.value(G) <= v + 1e-4, 'nearby latent values have a higher posterior')
    ll, g, W = post.lik(F)
    same(m.grad_ll, g, 'likelihood gradient kept with the fit', 1e-5, 1e-5 * (1 + np.abs(g).max()))
    same(m.W, W, 'likelihood curvature kept with the fit', 1e-4, 1e-5 * (1 + np.abs(W).max()))
    same(m.log_likelihood, ll, 'log likelihood kept with the fit', 1e-6, 1e-6)
    return ','.join(label_mix(ref) + (['retried'] if tries else [])), \
        bool(ref.pairs or ref.ords or ref.abs)


def run_global(c):
    m, ref, F = fit(c)
    post = Posterior(ref, c['g']['probits'], c['g']['kernel'])
    best = post.mode()
    if not post.in_range(best):
        raise Reject
    tol = 1e-6 if c['tight'] else 1e-3
    same(F, best, 'fitted latent values against the posterior mode', 0,
         tol * max(1.0, np.abs(best).max()))
    np.random.seed((c['rs'] + 77) % 2**32)
    m.optimize()
    same(m.F, F, 'latent values after fitting the same data again', 0,
         2 * tol * max(1.0, np.abs(best).max()))
    v = post.value(F)
    for u in c['pts']:
        G = F + arr(u)[np.arange(len(F)) % 16]
        check(post.value(G) <= v + 1e-5, 'other latent values have a higher posterior')
    return ','.join(label_mix(ref)), bool(ref.pairs or ref.ords)


def run_unlabelled(c):
    # samples without labels change nothing about the prior: the mode is zero
    m, ref, F = fit(c)
    if ref.pairs:
        raise Reject
    same(F, np.zeros(len(F)), 'latent values without labels', 0, 1e-3)
    return 'unlabelled', True


@st.composite
def s_unlabelled(draw):
    g = draw(gp_case(['pairs']))
    g['pareto'] = False
    for op in g['ops']:
        op['y'] = []
    return dict(g=g, tight=draw(st.booleans()), rs=draw(seeds))


def run_norm(c):
    pos = c['positive']
    m, ref = build_gp(c['g'], normalize_gp=True, normalize_positive=pos)
    if len(ref.X) < 2 or not (ref.pairs or ref.ords or ref.abs):
        raise Reject
    if pos and not distinct(ref.X):
        raise Reject
    m.optimize()
    F = np.asarray(m.F)
    if not finite(F):
        raise Reject        # all latent values equal, nothing to scale
    if pos:
        check(abs(F.min()) < 1e-9 and abs(F.max() - 1) < 1e-9, 'latent values normalised to '
              '[0, 1] span [%s, %s]', F.min(), F.max())
    else:
        check(abs(np.abs(F).max() - 1) < 1e-9, 'normalised latent values reach %s',
              np.abs(F).max())
    return 'positive' if pos else 'symmetric', True


SUBS = [
    Sub('local_maximum', case(ALL_KINDS), run_local, quick=1500, thorough=15000),
    Sub('global_maximum', case(LOGCONCAVE), run_global, quick=1500, thorough=15000),
    Sub('unlabelled', s_unlabelled(), run_unlabelled, quick=40, thorough=1000),
    Sub('normalised', st.fixed_dictionaries(dict(g=gp_case(ALL_KINDS), positive=st.sampled_from([True, False]),
                                                 rs=seeds)), run_norm, quick=100, thorough=3000),
]
