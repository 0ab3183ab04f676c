from learners import *
import lop

PROPERTY = 'C16'
RULE = ('a case is non-trivial when at least two queries with different value could be asked; '
        'distinct = distinct (samples, alignment, query)')
ASSUMPTIONS = [
    '3 to 12 samples of the rewards (more for those the learner draws itself), up to 11 candidates, 2 to 6 representative points, rewards '
    'within +-2.5; the samples are handed over, so the expected value is an exact sum',
    'alignment of sampled rewards that are constant over the representative points is undefined '
    'for the correlation measures and left out',
    'bounded ratings: integral over the range 0.0001 to 0.9999 with relative accuracy 1e-3',
    'the measure by likelihood and the one by normalised reward are not defined between two '
    'different sets of samples']
ALIGN = ['rho', 'loglikelihood', 'epic', 'spearman', 'one']


def ranks(v):
    return [sum(1 for b in v if b < a) + (sum(1 for b in v if b == a) + 1) / 2.0 for a in v]


def pearson(a, b):
    a, b = arr(a) - np.mean(a), arr(b) - np.mean(b)
    return float(a @ b / math.sqrt((a @ a) * (b @ b)))


def win(a, b, s):
    return float(sc.ndtr((a - b) / (SQ2 * s)))


def choice(vals, Q, s):
    """probability of each option of the query being chosen"""
    p = [np.prod([win(vals[i], vals[j], s) for j in Q if j != i]) for i in Q]
    return [x / sum(p) for x in p]


def ref_align(kind, A, B, Q, s):
    M = len(A)
    f = np.zeros((M, M))
    for i in range(M):
        for j in range(M):
            a, b = A[i], B[j]
            if kind == 'one':
                f[i, j] = 1
            elif kind == 'rho':
                ea, eb = np.exp(a - np.max(a)), np.exp(b - np.max(b))
                f[i, j] = -math.sqrt(np.sum((ea / ea.sum() - eb / eb.sum()) ** 2))
            elif kind == 'epic':
                f[i, j] = -math.sqrt(max(0, (1 - pearson(a, b)) / 2))
            elif kind == 'spearman':
                f[i, j] = pearson(ranks(a), ranks(b))
            else:
                for q in Q:
                    pa, pb = choice(a, q, s), choice(b, q, s)
                    f[i, j] += math.log(pa[int(np.argmax([b[k] for k in q]))])
                    f[i, j] += math.log(pb[int(np.argmax([a[k] for k in q]))])
    return f


def flat(A):
    return any(max(a) - min(a) < 0.04 for a in A)


def model_and_learner(c, cls, **kw):
    al = make_learner(dict(learner=cls, M=len(c['Q']), align=c['align'], num_pts=c.get('np', 6),
                           num_Q=c.get('nq', 6)), **kw)
    m = lop.PreferenceGP(lop.RBF_kern(1.0, 0.7), active_learner=al)
    set_probits(m, dict(pair=c['s'], ord_s=1.0, ord_b=2.0, abs_s=c.get('as', 1.0),
                        abs_v=c.get('av', 10.0)))
    m.add(np.array([[0.0, 0.5], [1.0, 0.2], [0.4, 0.9], [0.3, 0.1]]), [lop.preference(0, 1)])
    return al, m


@st.composite
def s_val(draw, rating=False):
    N = draw(st.sampled_from([2, 3, 4, 5, 6, 10] if rating else [2, 3, 4, 5, 6, 8, 11]))
    M = draw(st.integers(3, 6)) if draw(st.booleans()) else draw(st.integers(7, 12))
    R = draw(st.integers(2, 6))
    c = dict(Q=draw(matrix(M, N, -2.5, 2.5)), R=draw(matrix(M, R, -2.5, 2.5)), s=draw(grid(0.3, 2)),
             align=draw(st.sampled_from(ALIGN)),
             X=draw(points(N, 2, -1, 1)), q=draw(query(N)), best=draw(st.sampled_from(
                 [False, False, False, True])), rs=draw(seeds))
    k = draw(st.integers(2, min(3, R)))
    c['sets'] = [list(draw(st.permutations(range(R))))[:k] for _ in range(draw(st.integers(1, 4)))]
    c['as'], c['av'] = draw(grid(0.5, 2)), draw(grid(4, 60, 1))
    c['q'].update(rest=False, num=min(c['q']['num'], 3, N - len(c['q']['prev'])))
    return c


def expected(c, f, Q):
    """expected alignment after asking the query and hearing the answer"""
    M = len(c['Q'])
    P = np.array([choice(w, Q, c['s']) for w in c['Q']])
    tot = 0.0
    for k in range(len(Q)):
        tot += sum(f[i, j] * P[i, k] * P[j, k] for i in range(M) for j in range(M)) / M ** 2 \
            / P[:, k].mean()
    return tot


def fixed_samples(al, c):
    al.set_samples(arr(c['R']), arr(c['Q']))
    if c['align'] == 'loglikelihood':
        # the queries belong to the samples handed over
        al.get_representative_Q = lambda *a, **k: (np.zeros((len(c['R'][0]), 2)),
                                                   arr(c['sets'], int))


def run_query(c):
    if flat(c['R']) and c['align'] in ('epic', 'spearman'):
        raise Reject
    al, m = model_and_learner(c, 'AcquisitionSelection', always_select_best=c['best'])
    q, X = c['q'], c['X']
    fixed_samples(al, c)
    f = ref_align(c['align'], arr(c['R']), arr(c['R']), c['sets'], c['s'])
    mu = np.array(m.predict(arr(X))[0])
    al.sel_metric = None
    sel, _ = run_select(al, m, X, q)
    check_contract(X, q, sel, None, q['num'], False, mu if c['best'] else None)
    pref = prefer_set(q, X, False) - set(q['prev'])
    pf = q['pair_first'] or q['via'] == 'model'
    prev = list(q['prev'])
    todo = list(sel)
    if c['best'] and not prev:
        prev, todo = prev + todo[:1], todo[1:]
    first = True
    tol = 1e-7
    v = None
    label, nt = [], False
    while todo:
        pool = pref - set(prev) or set(range(len(X))) - set(prev)
        if first and not prev and pf and len(todo) > 1 and len(pool) > 1:
            pairs = [(i, j) for i in pool for j in pool if i < j]
            vals = {p: expected(c, f, p) for p in pairs}
            got = tuple(sorted(todo[:2]))
            check(got in vals, 'pair %s was not among the permitted points %s', got, pool)
            label.append('pair')
            prev, todo = prev + todo[:2], todo[2:]
        elif not prev:
            # nothing can be learnt from a single option
            prev, todo = prev + todo[:1], todo[1:]
            first = False
            v = 0.0
            continue
        else:
            vals = {i: expected(c, f, prev + [i]) for i in pool}
            got = todo[0]
            label.append('query of %d' % (len(prev) + 1))
            prev, todo = prev + todo[:1], todo[1:]
        first = False
        v = vals[got]
        best = max(vals, key=lambda k: vals[k])
        nt = nt or vals[best] - min(vals.values()) > 1e-5
        check(v >= vals[best] - tol * max(1, abs(v)), 'selected %s with expected alignment %s, '
              '%s has %s', got, v, best, vals[best])
    if v is not None:
        same(float(al.sel_metric), v, 'reported value of the last selection', 1e-6, 1e-7)
    return c['align'] + ',' + (','.join(label) or 'none'), nt


def rating_value(c, f, F):
    """expected alignment after a bounded rating"""
    M = len(F)
    mu = sc.ndtr(arr(F) / (SQ2 * c['as']))
    a, b = c['av'] * mu, c['av'] * (1 - mu)
    tot = 0.0
    # substitute q = x^5 on one half and the mirror image on the other: integrable ends
    x, w = np.polynomial.legendre.leggauss(400)
    for side in (0, 1):
        lo, hi = 0.0001 ** 0.2, 0.5 ** 0.2
        t = lo + (x + 1) / 2 * (hi - lo)
        q = t ** 5
        jac = 5 * t ** 4 * (hi - lo) / 2 * w
        if side:
            q = 1 - q
        lp = (a[:, None] - 1) * np.log(q) + (b[:, None] - 1) * np.log1p(-q) \
            + (sc.gammaln(a + b) - sc.gammaln(a) - sc.gammaln(b))[:, None]
        P = np.exp(lp)
        num = np.einsum('ij,iq,jq->q', f, P, P) / M ** 2
        tot += np.sum(jac * num / P.mean(axis=0))
    return tot


def run_rating(c):
    if flat(c['R']) and c['align'] in ('epic', 'spearman'):
        raise Reject
    al, m = model_and_learner(c, 'AbsAcquisition')
    q, X = c['q'], c['X']
    q['num'] = max(1, q['num'])
    fixed_samples(al, c)
    f = ref_align(c['align'], arr(c['R']), arr(c['R']), c['sets'], c['s'])
    sel, _ = run_select(al, m, X, q)
    check_contract(X, q, sel, None, 1, False)
    pool = prefer_set(q, X, False) - set(q['prev']) or set(range(len(X))) - set(q['prev'])
    vals = {i: rating_value(c, f, [w[i] for w in c['Q']]) for i in pool}
    v, top = vals[sel[0]], max(vals.values())
    tol = 0.004 * max(1e-3, max(abs(x) for x in vals.values())) * math.sqrt(len(pool))
    check(v >= top - tol, 'selected %s for a rating with expected alignment %s, best are %s',
          sel[0], v, vals)
    same(float(al.sel_metric), v, 'reported value of the selection', 0, tol)
    return c['align'], len(pool) > 1 and top - min(vals.values()) > tol


# ---- alignment measures
@st.composite
def s_align(draw):
    M, R = draw(st.integers(2, 6)), draw(st.integers(1, 6))
    c = dict(Q=draw(matrix(M, 2, -2.5, 2.5)), R=draw(matrix(M, R, -3, 3)),
             R2=draw(matrix(M, R, -3, 3)), s=draw(grid(0.3, 2)),
             align=draw(st.sampled_from(ALIGN)), shift=draw(vec(M, -3, 3, 0.25)),
             scale=draw(vec(M, 0.25, 4, 0.25)), perm=draw(st.permutations(range(R))),
             rs=draw(seeds))
    k = draw(st.integers(2, 3))
    c['sets'] = [list(draw(st.permutations(range(R))))[:k] for _ in range(draw(st.integers(1, 4)))]
    return c


def run_align(c):
    al, m = model_and_learner(c, 'AcquisitionSelection')
    R, R2 = arr(c['R']), arr(c['R2'])
    M = len(R)
    sets = arr(c['sets'], int) if R.shape[1] >= len(c['sets'][0]) else arr([[0, 1]], int)
    kind = c['align']
    f = np.asarray(al.alignment(R.copy(), sets))
    check(f.shape == (M, M), 'alignment has shape %s for %d samples', f.shape, M)
    if R.shape[1] < 2:
        same(f, np.zeros((M, M)), 'alignment without two representative points')
        return 'one-point', False
    if kind in ('epic', 'spearman') and (flat(c['R']) or flat(c['R2'])):
        raise Reject
    t = dict(rtol=1e-6, atol=2e-7)
    same(f, ref_align(kind, R, R, c['sets'] if R.shape[1] >= len(c['sets'][0]) else [[0, 1]],
                      c['s']), 'alignment (%s)' % kind, **t)
    same(f, f.T, 'alignment (%s) is not symmetric' % kind, **t)
    if kind != 'loglikelihood':
        d = np.diag(f)
        same(d, np.full(M, {'rho': 0, 'epic': 0, 'spearman': 1, 'one': 1}[kind]),
             'alignment (%s) of a sample with itself' % kind, **t)
        check((f <= d[0] + 1e-6).all(), 'alignment (%s) above that of equal rewards', kind)
        # permuting the representative points changes nothing
        same(al.alignment(R[:, list(c['perm'])], None), f, 'alignment (%s) in another order'
             % kind, **t)
    sh, scl = arr(c['shift'])[:, None], arr(c['scale'])[:, None]
    if kind in ('rho', 'epic', 'spearman', 'loglikelihood'):
        same(al.alignment(R + sh, sets), f, 'alignment (%s) of shifted rewards' % kind, 1e-5,
             1e-6)
    if kind in ('epic', 'spearman'):
        same(al.alignment(scl * R + sh, sets), f, 'alignment (%s) of rescaled rewards' % kind,
             1e-5, 1e-6)
    if kind == 'spearman':
        same(al.alignment(np.exp(R), sets), f, 'rank alignment of transformed rewards', 1e-5, 1e-6)
    if kind in ('epic', 'spearman', 'one'):
        b = np.asarray(al.alignment_between(R.copy(), R2.copy()))
        same(b, ref_align(kind, R, R2, None, c['s']), 'alignment between two sets (%s)' % kind, **t)
        same(al.alignment_between(R2, R), b.T, 'alignment between two sets exchanged', **t)
        same(al.alignment_between(R, R), f, 'alignment between a set and itself', **t)
    try:
        r = al.alignment_between(R, R[:, :-1])
    except Exception:
        pass
    else:
        fail('alignment between samples of different shapes: %s' % r)
    return kind, True


# ---- representative queries
@st.composite
def s_rep(draw):
    c = draw(model_case(('gp', 'linear'), empty=False, max_ops=4, labels=['pairs', 'abs']))
    if draw(st.integers(0, 3)) == 3:
        c['ops'].append(draw(bulk_op(c['d'], ['pairs', 'abs'], sizes=(9, 15, 30), labels=20)))
    N = draw(st.integers(4, 8))
    return dict(m=c, np=draw(st.sampled_from([3, 4, 4, 5, 6, 7, 8, 9, 10])), nq=draw(st.integers(1, 30)), N=N,
                X=draw(points(N, c['d'], -2, 2)), num=draw(st.sampled_from([0, 0, 1, 2, 3])),
                M=draw(st.integers(20, 60)), rs=draw(seeds))


def run_rep(c):
    al = make_learner(dict(learner='AcquisitionSelection', M=c['M'], align='rho',
                           num_pts=c['np'], num_Q=c['nq']))
    m = make_model(c['m'], al)
    X = arr(c['X'])
    mu = np.array(m.predict(X)[0])
    if c['m']['model'] == 'linear' and (not finite(mu) or np.abs(mu).max() > 1e3):
        raise Reject
    if c['num']:
        al.select(X, c['num'])
    k = max(2, c['num'])
    before = m.X_train.copy()
    P, Q = al.get_representative_Q(X)
    P, Q = np.asarray(P), np.asarray(Q)
    src = [tuple(r) for r in m.X_train]
    if len(src) < 4:
        src += [tuple(r) for r in X]
    n = min(c['np'], len(src))
    check((m.X_train == before).all(), 'the samples of the model changed')
    check(len(P) == n, '%d representative points, expected %d', len(P), n)
    # every sample may be chosen: the last ones come up sooner or later
    if 3 * n < 2 * len(src) and len(set(src)) == len(src):
        seen = set(tuple(r) for r in P)
        for _ in range(60):
            seen |= set(tuple(r) for r in al.get_representative_Q(X)[0])
        check(seen == set(src) if n > len(src) / 3.0 else seen - set(src[:n]), 'of %d samples only '
              '%d are ever used as representative points', len(src), len(seen))
    left = list(src)
    for r in P:
        check(tuple(r) in left, 'representative point %s is not a sample, or used twice', r)
        left.remove(tuple(r))
    want = min(c['nq'], math.comb(n, k))
    check(Q.shape == (want, k), 'queries have shape %s, expected %s', Q.shape, (want, k))
    s = [frozenset(int(i) for i in q) for q in Q]
    check(all(len(q) == k and q <= set(range(n)) for q in s), 'a query repeats an option or leaves '
          'the representative points: %s', Q)
    check(len(set(s)) == len(s), 'a query is repeated: %s', Q)
    # rewards sampled from the model, at representative and candidate points together
    al.unset_samples()
    R, A = al.get_samples_from_model(X, P)
    R, A = np.asarray(R), np.asarray(A)
    check(R.shape == (c['M'], n) and A.shape == (c['M'], len(X)), 'sampled rewards have shapes '
          '%s, %s', R.shape, A.shape)
    check(finite(R) and finite(A), 'sampled rewards are not finite')
    both = np.vstack([X, P])
    S = np.hstack([A, R])
    if c['m']['model'] == 'linear':
        if np.linalg.matrix_rank(both, tol=1e-3) == c['m']['d']:
            w = np.linalg.lstsq(both, S.T, rcond=None)[0]
            same(both @ w, S.T, 'rewards are not linear with one weight vector per sample', 1e-6,
                 1e-6 * max(1, np.abs(S).max()))
    else:
        mu, _ = m.predict(both)
        sd = np.sqrt(np.maximum(np.diag(m.cov), 0))
        z = np.abs(S.mean(axis=0) - mu) / (sd + 1e-6) * math.sqrt(c['M'])
        check(z.max() < 7, 'sampled rewards average %s, predictions %s', S.mean(axis=0), mu)
        v = S.std(axis=0)
        check((v < 2.5 * sd + 1e-3).all() and (v > 0.25 * sd - 1e-3).all(), 'sampled rewards '
              'spread %s, predicted %s', v, sd)
        # the same point gets the same reward in one sample
        C = m.cov
        for i in range(len(both)):
            for j in range(i):
                dv = C[i, i] + C[j, j] - 2 * C[i, j]
                dsd = np.std(S[:, i] - S[:, j])
                check(dsd < 2.5 * math.sqrt(max(dv, 0)) + 1e-3, 'rewards of points %s and %s '
                      'differ by %s, predicted %s', both[i], both[j], dsd, math.sqrt(max(dv, 0)))
    al.set_samples(R, A)
    idx = [0, len(X) - 1]
    r2, a2 = al.get_samples_from_model(X, P)
    check(np.array_equal(r2, R) and np.array_equal(a2, A), 'samples handed over are not used')
    r2, a2 = al.get_samples_from_model(X[idx], P, indicies=idx)
    check(np.array_equal(r2, R) and np.array_equal(a2, A[:, idx]), 'samples handed over are not '
          'used for the points asked for')
    return c['m']['model'], len(src) >= 4


# ---- a stored set of representative points
def run_stable(c):
    import os
    E, k, d = c['per'], c['k'], 2
    P = np.random.random((10 * E, d))
    np.save('rep.npy', P)
    al = lop.AcquisitionSelection(M=5, rep_Q_method='stable', rep_Q_data={'filename': 'rep.npy'},
                                  alignment_f='epic')
    m = lop.PreferenceGP(lop.RBF_kern(1.0, 0.7), active_learner=al)
    m.add(np.array([[0.0, 0.5], [1.0, 0.2]]), [lop.preference(0, 1)])
    m.select(np.random.random((4, 2)), k)
    got, Q = al.get_representative_Q(np.zeros((3, 2)))
    same(got, P, 'stored representative points')
    s = sorted(tuple(sorted(int(i) for i in q)) for q in Q)
    import itertools
    want = sorted(tuple(e * E + i for i in t) for e in range(10)
                  for t in itertools.combinations(range(E), k))
    check(s == want, 'queries on stored points: %d, expected all %d within one environment',
          len(s), len(want))
    os.remove('rep.npy')
    bad = lop.AcquisitionSelection(M=5, rep_Q_method='other')
    m = lop.PreferenceGP(lop.RBF_kern(1.0, 0.7), active_learner=bad)
    m.add(np.array([[0.0, 0.5], [1.0, 0.2]]), [lop.preference(0, 1)])
    try:
        bad.get_representative_Q(np.zeros((3, 2)))
    except ValueError:
        pass
    else:
        fail('an unknown way to choose representative queries was accepted')
    return 'stable', True


SUBS = [
    Sub('query', s_val(), run_query, quick=1200, thorough=15000),
    Sub('rating', s_val(True), run_rating, quick=120, thorough=2500),
    Sub('alignment', s_align(), run_align, quick=1500, thorough=50000),
    Sub('representative', s_rep(), run_rep, quick=400, thorough=8000),
    Sub('stored', st.fixed_dictionaries(dict(per=st.integers(2, 5), k=st.integers(2, 3), rs=seeds))
        .filter(lambda c: c['k'] <= c['per']), run_stable, quick=24, thorough=200),
]
