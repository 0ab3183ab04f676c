from gps import *
import lop

PROPERTY = 'C11'
RULE = ('a case is non-trivial when the model holds labels and at least one adjustable parameter; '
        'distinct = distinct (kernel, label parameters, data, flags, new parameters)')
ASSUMPTIONS = [
    'evidence gradient: comparisons and absolute ratings (the code does not implement it for '
    'ordinal ratings); kernel entries are total derivatives at the refitted mode, label-parameter '
    'entries are partial derivatives at the given latent values',
    'reference derivatives by central differences of an independent evidence formula, accurate to '
    'about 1e-6']


@st.composite
def s_params(draw, kinds=ALL_KINDS, max_ops=3, max_n=3):
    g = draw(gp_case(kinds, max_ops=max_ops, max_n=max_n))
    return dict(g=g, only_probit=draw(st.sampled_from([True, False])),
                fix_pair=draw(st.sampled_from([False, False, False, True])),
                fix_abs=draw(st.sampled_from([False, False, False, True])),
                v_only=draw(st.booleans()),
                new=[draw(st.sampled_from([1, 1, 1, 1, 0.01, 20])) * t
                     for t in draw(vec(16, 0.3, 4, 0.05))], rs=draw(seeds))


def build(c):
    m, ref = build_gp(c['g'], tight=True, hyperparam_only_probit=c['only_probit'])
    flags(m, c)
    return m, ref


def flags(m, c):
    m.probits[m.probit_idxs['relative_discrete']].optimize_parameters = not c['fix_pair']
    a = m.probits[m.probit_idxs['abs']]
    a.optimize_parameters = not c['fix_abs']
    a.optimize_v_only = c['v_only']


def current(m):
    """the parameters in use, by name"""
    P = [m.probits[m.probit_idxs[k]] for k in ('relative_discrete', 'ordinal', 'abs')]
    return dict(pair=float(P[0].sigma), ord_s=float(P[1].sigma), ord_b=float(P[1].b[-2]),
                abs_s=float(P[2].sigma), abs_v=float(P[2].v),
                kernel=[float(t) for t in m.cov_func.get_param()])


def names(c, ref):
    out = []
    if ref.pairs and not c['fix_pair']:
        out.append('pair')
    if ref.ords:
        out += ['ord_s', 'ord_b']
    if ref.abs and not c['fix_abs']:
        out += ['abs_v'] if c['v_only'] else ['abs_s', 'abs_v']
    if not c['only_probit']:
        out += [('kernel', i) for i in range(len(kernel_theta(c['g']['kernel'])))]
    return out


def value(cur, n):
    return cur[n] if isinstance(n, str) else cur['kernel'][n[1]]


def pairs_given(c, ref):
    # a call that brings samples but no comparison may or may not create an empty label list
    return any(o['op'] == 'pairs' and not o['y'] for o in c['g']['ops']) and not ref.pairs


def run_roundtrip(c):
    m, ref = build(c)
    if pairs_given(c, ref):
        raise Reject
    ns = names(c, ref)
    before = current(m)
    got = m.get_hyper()
    same(got, [value(before, n) for n in ns], 'parameters read back', 1e-12, 1e-12)
    x = arr(c['new'][:len(ns)])
    m.set_hyper(x.copy())
    same(m.get_hyper(), x, 'parameters read after setting them', 1e-12, 1e-12)
    after = current(m)
    for n, v in zip(ns, x):
        check(abs(value(after, n) - v) < 1e-12, 'parameter %s is %s after setting it to %s', n,
              value(after, n), v)
    for k in before:
        if k == 'kernel':
            if c['only_probit']:
                check(before[k] == after[k], 'kernel parameters changed although they are fixed')
        elif k not in ns:
            check(before[k] == after[k], 'parameter %s changed from %s to %s although it is not '
                  'adjustable', k, before[k], after[k])
    # fitted and predicted with the new parameters
    p = {k: after[k] for k in ('pair', 'ord_s', 'ord_b', 'abs_s', 'abs_v')}
    post = Posterior(ref, p, with_theta(c['g']['kernel'], after['kernel']))
    F = arr(c['new'])[np.arange(len(ref.X)) % 16] - 2
    if post.in_range(F):
        W, g, ll = m.derivatives(m.y_train, F)
        rll, rg, rW = post.lik(F)
        same(ll, rll, 'likelihood under the new parameters', 1e-7, 1e-7)
        same(g, rg, 'likelihood gradient under the new parameters', 1e-5,
             1e-6 * (1 + np.abs(rg).max()))
    return ','.join(label_mix(ref) + (['kernel'] if not c['only_probit'] else [])), bool(ns)


def run_random(c):
    m, ref = build(c)
    if ref.ords or pairs_given(c, ref):
        raise Reject        # ordinal parameters have no random draw
    ns = names(c, ref)
    if not ns:
        raise Reject
    if any('linear' in kinds_in(c['g']['kernel']) for _ in [0]) and not c['only_probit']:
        pos = False
    else:
        pos = True
    before = current(m)
    draws = []
    for k in range(3):
        m.randomize_hyper()
        cur = current(m)
        v = [value(cur, n) for n in ns]
        same(m.get_hyper(), v, 'parameters read after drawing them', 1e-12, 1e-12)
        check(all(np.isfinite(v)), 'random parameters %s', v)
        check(not pos or all(t > 0 for t in v), 'random parameters %s are not positive', v)
        for q in before:
            if q != 'kernel' and q not in ns:
                check(before[q] == cur[q], 'fixed parameter %s changed', q)
        if c['only_probit']:
            check(before['kernel'] == cur['kernel'], 'kernel parameters changed')
        draws.append(v)
    for i, n in enumerate(ns):
        check(not (draws[0][i] == draws[1][i] == draws[2][i]), 'parameter %s is not random: %s', n,
              [d[i] for d in draws])
    return ','.join(label_mix(ref)), True


def run_prior(c):
    m, ref = build(c)
    if ref.ords or pairs_given(c, ref):
        raise Reject
    ns = names(c, ref)
    x = arr(c['new'][:len(ns)])
    m.set_hyper(x.copy())
    g = np.asarray(m.grad_hyper_liklihood(), dtype=float)
    check(g.shape == (len(ns),), 'gradient of the parameter prior has shape %s for %d parameters',
          g.shape, len(ns))
    num = np.zeros(len(ns))
    for i in range(len(ns)):
        v = []
        h = 1e-5 * min(1, x[i])
        for s in (h, -h):
            y = x.copy()
            y[i] += s
            m.set_hyper(y)
            v.append(float(m.hyper_liklihood()))
        num[i] = (v[0] - v[1]) / (2 * h)
    same(g, num, 'gradient of the parameter prior', 1e-5, 1e-5)
    return ','.join(label_mix(ref)), bool(ns)


def evidence(post, F):
    ll, g, W = post.lik(F)
    s, ld = np.linalg.slogdet(np.eye(len(F)) + post.K @ W)
    return ll - 0.5 * F @ post.Ki @ F - 0.5 * ld, s


def refit(post, F):
    for _ in range(30):
        step, _ = post.newton_step(F)
        F = F + step
        if np.abs(step).max() < 1e-12:
            break
    return F


def evidence_gradient(c, ref, ns, post, F):
    F = refit(post, F)
    num = []
    for q in ns:
        v = []
        for s in (1, -1):
            p, k = dict(c['g']['probits']), c['g']['kernel']
            if isinstance(q, str):
                h = 1e-4 * max(0.1, p[q])
                p[q] = p[q] + s * h
                post2 = Posterior(ref, p, k)
                G = F
            else:
                th = kernel_theta(k)
                h = 1e-4 * max(0.1, abs(th[q[1]]))
                th[q[1]] += s * h
                post2 = Posterior(ref, p, with_theta(k, th))
                G = refit(post2, F)
                if np.abs(G - F).max() > 0.3:
                    raise Reject
            v.append(evidence(post2, G)[0])
        num.append((v[0] - v[1]) / (2 * h))
    return num


def run_evidence(c):
    m, ref = build(c)
    if ref.ords or not (ref.pairs or ref.abs) or pairs_given(c, ref):
        raise Reject
    ns = names(c, ref)
    m.optimize()
    post = Posterior(ref, c['g']['probits'], c['g']['kernel'])
    F = np.asarray(m.F, dtype=float)
    if not post.in_range(F):
        raise Reject
    step, H = post.newton_step(F)
    if np.abs(step).max() > 1e-6 or np.linalg.eigvalsh(H)[0] < 0.05:
        raise Reject
    m.debug_print = False
    E, sgn = evidence(post, F)
    n = len(F)
    L = np.linalg.cholesky(post.K)
    ll = post.lik(F)[0]
    logpost = ll - 0.5 * F @ post.Ki @ F - np.sum(np.log(np.diag(L))) - n / 2 * math.log(2 * math.pi)
    same(m.likli_f(F, m.X_train, m.y_train, post.K, L), logpost, 'log posterior', 1e-7, 1e-6)
    if sgn > 0:
        same(m.likli_f_hyper(F, m.X_train, m.y_train), E, 'log evidence', 1e-6, 1e-6)
    else:
        raise Reject
    if not ns:
        raise Reject
    g = np.asarray(m.grad_likli_f_hyper(F, m.X_train, m.y_train), dtype=float)
    check(g.shape == (len(ns),), 'evidence gradient has shape %s for %d parameters', g.shape,
          len(ns))
    num = evidence_gradient(c, ref, ns, post, F)
    sc_ = max(1.0, np.abs(num).max())
    same(g, num, 'evidence gradient (%s)' % (ns,), 1e-3, 2e-4 * sc_)
    return ','.join(label_mix(ref) + (['kernel'] if not c['only_probit'] else [])), True


@st.composite
def s_step(draw, small):
    c = draw(s_params(['pairs', 'pairs', 'abs', 'abs_idx']))
    if small:
        # parameters close to the end of their range, where a plain step would leave it
        p = c['g']['probits']
        p['pair'] = draw(grid(0.02, 0.12, 0.01))
        p['abs_s'] = draw(grid(0.1, 0.4, 0.05))
        p['abs_v'] = draw(st.sampled_from([0.05, 0.1, 0.3, 1.0]))
    return c


def run_step(c):
    # one step of the parameter search from a fitted model
    m, ref = build(c)
    if ref.ords or not (ref.pairs or ref.abs) or pairs_given(c, ref):
        raise Reject
    ns = names(c, ref)
    if not ns:
        raise Reject
    m.optimize()
    F = np.asarray(m.F, dtype=float)
    before = current(m)
    x0 = arr([value(before, n) for n in ns])
    if not finite(F):
        raise Reject
    m.hyperparameter_search(m.X_train, m.y_train, m.X_train, m.y_train, [], 0)
    after = current(m)
    x1 = arr([value(after, n) for n in ns])
    check(finite(x1) and (x1 > 0).all(), 'parameters %s from %s after a step of the search: %s',
          ns, list(x0), list(x1))
    for q in before:
        if q != 'kernel' and q not in ns:
            check(before[q] == after[q], 'fixed parameter %s changed in a step of the search', q)
    if c['only_probit']:
        check(before['kernel'] == after['kernel'], 'kernel parameters changed in a step')
    lab = ','.join(label_mix(ref))
    post = Posterior(ref, c['g']['probits'], c['g']['kernel'])
    if not post.in_range(F):
        return 'valid ' + lab, True
    step, H = post.newton_step(F)
    if np.abs(step).max() > 1e-6 or np.linalg.eigvalsh(H)[0] < 0.05 or evidence(post, F)[1] <= 0:
        return 'valid ' + lab, True
    g = arr(evidence_gradient(c, ref, ns, post, F))
    pr = []
    for i in range(len(ns)):
        v = []
        for s in (1e-5, -1e-5):
            x = x0.copy()
            x[i] += s
            m.set_hyper(x)
            v.append(float(m.hyper_liklihood()))
        pr.append((v[0] - v[1]) / 2e-5)
    g = g + arr(pr)
    m.set_hyper(x0 + 0.01 * g)
    if not finite(g) or (x0 + 0.02 * g < 0.02).any() or float(m.hyper_liklihood()) < -60 or \
            np.abs(g).max() < 1e-3:
        return 'valid ' + lab, True
    up = float((x1 - x0) @ g)
    check(up > 0, 'a step of the search from %s to %s moves against the gradient %s of evidence '
          'and prior', list(x0), list(x1), list(g))
    return 'uphill ' + lab, True


def run_search(c):
    # whatever parameters the search ends with, the model is fitted to all data with them
    m, ref = build(c)
    if ref.ords or not (ref.pairs or ref.abs) or pairs_given(c, ref):
        raise Reject
    if not names(c, ref):
        raise Reject
    fixed = current(m)
    m.optimize(optimize_hyperparameter=True)
    cur = current(m)
    ns = names(c, ref)
    for q in fixed:
        if q != 'kernel' and q not in ns:
            check(fixed[q] == cur[q], 'fixed parameter %s changed in the search', q)
    if c['only_probit']:
        check(fixed['kernel'] == cur['kernel'], 'kernel parameters changed in the search')
    check(len(m.F) == len(ref.X), 'latent values for %d of %d samples after the search', len(m.F),
          len(ref.X))
    ref2 = RefData()
    X, ref2.pairs, ref2.ords, ref2.abs = read_model(m)
    check(X == [list(map(float, r)) for r in ref.X] and sorted(ref2.pairs) == sorted(ref.pairs)
          and len(ref2.abs) == len(ref.abs), 'the search changed the training data')
    # below four samples there is no search
    check(len(ref.X) < 4 or all(np.isfinite(value(cur, n)) and value(cur, n) > 0 for n in ns), 'the search ended with '
          'parameters %s = %s', ns, [value(cur, n) for n in ns])
    if not all(0.05 < value(cur, n) < 100 for n in ns):
        raise Reject
    p = {k: cur[k] for k in ('pair', 'ord_s', 'ord_b', 'abs_s', 'abs_v')}
    post = Posterior(ref, p, with_theta(c['g']['kernel'], cur['kernel']))
    for k in range(6):
        if k:
            m.optimize()
        F = np.asarray(m.F)
        if not finite(F) or not post.in_range(F):
            raise Reject
        step, H = post.newton_step(F)
        if np.abs(step).max() < 1e-5 or not ref.abs:
            break
    check(np.abs(step).max() < 1e-5 * max(1, np.abs(F).max()), 'after the parameter search the '
          'latent values are off by a Newton step of %s', np.abs(step).max())
    return 'searched' if len(ref.X) >= 4 else 'too-small', len(ref.X) >= 4


SUBS = [
    Sub('round_trip', s_params(), run_roundtrip, quick=800, thorough=20000),
    Sub('random_draw', s_params(['pairs', 'abs', 'abs_idx']), run_random, quick=400,
        thorough=10000),
    Sub('prior', s_params(['pairs', 'abs', 'abs_idx']), run_prior, quick=400, thorough=10000),
    Sub('evidence', s_params(['pairs', 'pairs', 'abs', 'abs_idx']), run_evidence, quick=800,
        thorough=20000),
    Sub('step', s_step(False), run_step, quick=400, thorough=10000),
    Sub('step_edge', s_step(True), run_step, quick=1200, thorough=20000),
    Sub('search', s_params(['pairs', 'abs'], 3, 4), run_search, quick=48, thorough=400, shards=8),
]
