from common import *
from labels import *
import lop

PROPERTY = 'C08'
RULE = ('a case is non-trivial when it has at least one label; distinct = distinct (labels, '
        'latent values, parameters)')
ASSUMPTIONS = [
    'reference derivatives: Cauchy integrals of independent complex-analytic likelihood formulas '
    '(relative error about 1e-10)',
    'label sets of up to 5, now and then of up to 130 labels',
    'ratings with a probability below 1e-9: within 6 percent, as the code approximates there',
    'latent values around one, or with all scales in another unit (0.002 to 30)',
    'domain: pairwise arguments within 20 standard deviations, ordinal label probability above '
    'exp(-600), bounded ratings with |latent| below 4.5 link standard deviations (the code switches '
    'to approximations or clips beyond those)']


def tally(labels):
    """the different labels and how often each was given"""
    n = {}
    for l in labels:
        n[tuple(l)] = n.get(tuple(l), 0) + 1
    return sorted(n.items())


def many(draw, k):
    """now and then: that many labels, drawn from k different ones with repetition"""
    if draw(st.integers(0, 9)) < 9:
        return None
    m = draw(st.sampled_from([33, 41, 65, 90, 130]))
    return [int(i) for i in np.random.RandomState(draw(seeds)).randint(0, k, m)]


@st.composite
def s_pair(draw):
    n = draw(st.integers(2, 6))
    pairs = draw(st.lists(st.tuples(st.sampled_from([-1, 1]), st.integers(0, n - 1),
                                    st.integers(0, n - 1)), min_size=1, max_size=7))
    pairs = [[d, u, v if v != u else (u + 1) % n] for d, u, v in pairs]
    ix = many(draw, len(pairs))
    pairs = [pairs[i] for i in ix] if ix else pairs
    return dict(F=draw(vec(n, -3, 3)), pairs=pairs, sigma=draw(grid(0.2, 2, 0.05)))


def run_pair(c):
    F, y, s = arr(c['F']), arr(c['pairs'], int), c['sigma']
    N = len(F)
    if max(abs(F[v] - F[u]) for _, u, v in c['pairs']) / s > 20:
        raise Reject
    P = lop.PreferenceProbit(sigma=s)
    W, g, ll = P.derivatives(y, F)
    r1, r2, r3 = np.zeros(N), np.zeros((N, N)), np.zeros((N, N, N))
    rs, rws = 0.0, np.zeros((N, N))
    val = 0.0
    for (d, u, v), k in tally(c['pairs']):
        de = F[v] - F[u]
        f = lambda x: ll_pref(x, d, s)
        rad = 0.4 * s
        val += k * float(np.real(f(de)))
        d1, d2, d3 = [k * float(np.real(cauchy(f, de, o, rad))) for o in (1, 2, 3)]
        e = {u: -1.0, v: 1.0}
        for i in e:
            r1[i] += d1 * e[i]
            for j in e:
                r2[i, j] -= d2 * e[i] * e[j]
                for l in e:
                    r3[i, j, l] -= d3 * e[i] * e[j] * e[l]
        rs += k * float(np.real(cauchy(lambda q: ll_pref(de, d, q), s, 1, 0.2 * s)))
        d2s = k * float(np.real(cauchy(
            lambda q: cauchy(lambda x: ll_pref(x, d, q), de, 2, rad), s, 1, 0.2 * s)))
        for i in e:
            for j in e:
                rws[i, j] -= d2s * e[i] * e[j]
    same(ll, val, 'log likelihood', 1e-8, 1e-8)
    u = min(1.0, s)         # scale of one derivative by the latent values
    sc1 = 1e-7 * max(1.0 / u, np.abs(r1).max())
    same(g, r1, 'gradient of the log likelihood', 1e-6, sc1)
    same(W, r2, 'negative Hessian of the log likelihood', 1e-6, 1e-7 * max(u ** -2, np.abs(r2).max()))
    check(np.linalg.eigvalsh(W).min() > -1e-7 * max(1, np.abs(W).max()),
          'pairwise log likelihood is not concave')
    same(P.calc_W_dF(y, F), r3, 'latent derivative of W', 1e-5,
         1e-6 * max(u ** -3, np.abs(r3).max()))
    same(P.grad_hyper(y, F), [rs], 'noise scale derivative of the log likelihood',
         1e-6, 1e-7 * max(1 / u, abs(rs)))
    same(P.calc_W_dHyper(y, F), rws[np.newaxis], 'noise scale derivative of W', 1e-5,
         1e-6 * max(u ** -3, np.abs(rws).max()))
    return ('repeated' if len(set(map(tuple, c['pairs']))) < len(c['pairs']) else 'pairs'), True


@st.composite
def s_ord(draw):
    n = draw(st.integers(1, 5))
    k = draw(st.integers(3, 8))
    m = draw(st.integers(1, 6))
    c = dict(F=draw(vec(n, -2, 3)), k=k, sigma=draw(grid(0.3, 2, 0.05)),
             br=draw(s_breaks(k)),
             y=draw(st.lists(st.integers(1, k), min_size=m, max_size=m)),
             idx=draw(st.lists(st.integers(0, n - 1), min_size=m, max_size=m)))
    ix = many(draw, m)
    if ix:
        c['y'], c['idx'] = [c['y'][i] for i in ix], [c['idx'][i] for i in ix]
    return c


def run_ord(c):
    F, k, s = arr(c['F']), c['k'], c['sigma']
    br = stated_breaks(c['br'], k)
    N = len(F)
    if min(p_ord(F[i], r, s, br) for r, i in zip(c['y'], c['idx'])) < 1e-5:
        raise Reject
    P = ordinal_with(c['br'], k, s)
    y = (arr(c['y'], int), arr(c['idx'], int))
    W, g, ll = P.derivatives(y, F)
    r1, r2, val = np.zeros(N), np.zeros((N, N)), 0.0
    width = br[2] - br[1]
    for (r, i), m in tally(zip(c['y'], c['idx'])):
        p0 = p_ord(F[i], r, s, br)
        f = lambda x: np.log(p_ord(F[i] + (x - F[i]), r, s, br) / p0)
        rad = 0.15 * s
        val += m * math.log(p0)
        r1[i] += m * float(np.real(cauchy(f, F[i], 1, rad)))
        r2[i, i] -= m * float(np.real(cauchy(f, F[i], 2, rad)))
    same(ll, val, 'log likelihood', 1e-6, 1e-6)
    same(g, r1, 'gradient of the log likelihood', 1e-5, 1e-5 * max(1, np.abs(r1).max()))
    same(W, r2, 'negative Hessian of the log likelihood', 1e-5, 1e-5 * max(1, np.abs(r2).max()))
    return ('shared' if len(set(c['idx'])) < len(c['idx']) else 'single'), True


@st.composite
def s_tail(draw):
    k = draw(st.integers(3, 8))
    m = draw(st.integers(1, 4))
    s = draw(grid(0.1, 2, 0.05))
    return dict(F=draw(vec(m, -35, 35, 0.25)), k=k, sigma=s, br=draw(s_breaks(k)),
                y=draw(st.lists(st.sampled_from([1, 1, k, k] + list(range(1, k + 1))),
                                min_size=m, max_size=m)))


def tail_ord(f, y, s, br):
    """log probability of a rating, its slope and its negative curvature, in log space"""
    lo, hi = (br[y - 1] - f) / s, (br[y] - f) / s
    a, b = (-hi, -lo) if lo > 0 else (lo, hi)
    lp = sc.log_ndtr(b)
    if np.isfinite(a):
        lp = lp + math.log1p(-math.exp(sc.log_ndtr(a) - lp))
    dens = lambda z: math.exp(-z * z / 2 - 0.5 * math.log(2 * math.pi) - lp) \
        if np.isfinite(z) else 0.0
    pl, ph = dens(lo), dens(hi)
    d1 = (pl - ph) / s
    d2 = ((lo * pl if pl else 0.0) - (hi * ph if ph else 0.0)) / s ** 2 - d1 ** 2
    return lp, d1, -d2


def run_tail(c):
    """ratings that the latent values make next to impossible"""
    k, s = c['k'], c['sigma']
    br = stated_breaks(c['br'], k)
    F = s * arr(c['F'])
    ref = [tail_ord(f, y, s, br) for f, y in zip(F, c['y'])]
    keep = [i for i in range(len(F)) if -600 < ref[i][0] < math.log(1e-4)]
    if not keep:
        raise Reject
    F = F[keep]
    ref = np.array([ref[i] for i in keep])
    P = ordinal_with(c['br'], k, s)
    W, g, ll = P.derivatives((arr([c['y'][i] for i in keep], int), np.arange(len(keep))), F)
    tol = np.where(ref[:, 0] > math.log(1e-9), 1e-4, 0.06)
    check((np.abs(g - ref[:, 1]) <= tol * np.abs(ref[:, 1])).all(),
          'gradient of the log likelihood of unlikely ratings: got %s, expected %s', g, ref[:, 1])
    check((np.abs(np.diagonal(W) - ref[:, 2]) <= tol * np.abs(ref[:, 2])).all(),
          'negative Hessian of the log likelihood of unlikely ratings: got %s, expected %s',
          np.diagonal(W), ref[:, 2])
    check((W == np.diag(np.diagonal(W))).all(), 'unlikely ratings of different samples interact')
    return 'tail' if (ref[:, 0] < math.log(1e-11)).any() else 'rare', True


@st.composite
def s_abs(draw):
    n = draw(st.integers(1, 5))
    m = draw(st.integers(1, 6))
    c = dict(F=draw(vec(n, -2.5, 2.5)), sigma=draw(grid(0.5, 2, 0.05)),
             v=draw(st.one_of(grid(1, 150, 1), grid(1, 150, 1), grid(0.3, 1, 0.1))), y=draw(vec(m, 0.01, 0.99, 0.01)),
             idx=draw(st.lists(st.integers(0, n - 1), min_size=m, max_size=m)),
             v_only=draw(st.booleans()))
    ix = many(draw, m)
    if ix:
        c['y'], c['idx'] = [c['y'][i] for i in ix], [c['idx'][i] for i in ix]
    return c


def run_abs(c):
    F, s, v = arr(c['F']), c['sigma'], c['v']
    N = len(F)
    P = lop.AbsBoundProbit(sigma=s, v=v, optimize_v_only=c['v_only'])
    y = (arr(c['y']), arr(c['idx'], int))
    W, g, ll = P.derivatives(y, F)
    r1, r2, r3 = np.zeros(N), np.zeros((N, N)), np.zeros((N, N, N))
    val, rs, rv = 0.0, 0.0, 0.0
    ws, wv = np.zeros((N, N)), np.zeros((N, N))
    rad = 0.25 * s
    for (r, i), m in tally(zip(c['y'], c['idx'])):
        f = lambda x: ll_abs(x, r, s, v)
        val += m * float(np.real(f(F[i])))
        r1[i] += m * float(np.real(cauchy(f, F[i], 1, rad)))
        r2[i, i] -= m * float(np.real(cauchy(f, F[i], 2, rad)))
        r3[i, i, i] -= m * float(np.real(cauchy(f, F[i], 3, rad)))
        rs += m * float(np.real(cauchy(lambda q: ll_abs(F[i], r, q, v), s, 1, 0.1 * s)))
        rv += m * float(np.real(cauchy(lambda q: ll_abs(F[i], r, s, q), v, 1, 0.1 * v)))
        ws[i, i] -= m * float(np.real(cauchy(
            lambda q: cauchy(lambda x: ll_abs(x, r, q, v), F[i], 2, rad), s, 1, 0.1 * s)))
        wv[i, i] -= m * float(np.real(cauchy(
            lambda q: cauchy(lambda x: ll_abs(x, r, s, q), F[i], 2, rad), v, 1, 0.1 * v)))
    t = lambda a: 1e-6 * max(1.0, np.abs(a).max())
    same(ll, val, 'log likelihood', 1e-7, 1e-7)
    same(g, r1, 'gradient of the log likelihood', 1e-6, t(r1))
    same(W, r2, 'negative Hessian of the log likelihood', 1e-6, t(r2))
    same(P.calc_W_dF(y, F), r3, 'latent derivative of W', 1e-5, 10 * t(r3))
    gh = np.asarray(P.grad_hyper(y, F), dtype=float)
    wh = np.asarray(P.calc_W_dHyper(y, F), dtype=float)
    if c['v_only']:
        same(gh, [rv], 'precision derivative of the log likelihood', 1e-6, t(rv))
        same(wh, wv[np.newaxis], 'precision derivative of W', 1e-5, 10 * t(wv))
    else:
        same(gh, [rs, rv], 'parameter derivatives of the log likelihood', 1e-6,
             t(np.array([rs, rv])))
        same(wh, np.stack([ws, wv]), 'parameter derivatives of W', 1e-5,
             10 * t(np.stack([ws, wv])))
    return ('shared' if len(set(c['idx'])) < len(c['idx']) else 'single'), True


# the three label types together, as the model sums them
@st.composite
def s_sum(draw):
    n = draw(st.integers(2, 5))
    ab, od, pr = draw(s_abs()), draw(s_ord()), draw(s_pair())
    fix = lambda ix: [i % n for i in ix]
    pairs = [[d, u % n, v % n if v % n != u % n else (u + 1) % n] for d, u, v in pr['pairs']]
    return dict(F=draw(vec(n, -2, 2)), pairs=pairs,
                ords=[[min(r, 5) for r in od['y']], fix(od['idx'])],
                abs=[ab['y'], fix(ab['idx'])], use=draw(st.sampled_from([7, 3, 5, 6, 1, 2, 4])))


def run_sum(c):
    F = arr(c['F'])
    m = lop.PreferenceGP(lop.RBF_kern(1.0, 1.0))
    y = [None, None, None]
    if c['use'] & 1:
        y[0] = arr(c['pairs'], int)
    if c['use'] & 2:
        y[1] = (arr(c['ords'][0], int), arr(c['ords'][1], int))
    if c['use'] & 4:
        y[2] = (arr(c['abs'][0]), arr(c['abs'][1], int))
    W, g, ll = m.derivatives(y, F)
    rW, rg, rl = np.zeros((len(F), len(F))), np.zeros(len(F)), 0.0
    for i in range(3):
        if y[i] is not None:
            a, b, d = m.probits[i].derivatives(y[i], F)
            rW, rg, rl = rW + a, rg + b, rl + d
    same(W, rW, 'summed W', 1e-9, 1e-9)
    same(g, rg, 'summed gradient', 1e-9, 1e-9)
    same(ll, rl, 'summed log likelihood', 1e-9, 1e-9)
    return 'types%d' % bin(c['use']).count('1'), True


SUBS = [
    Sub('pairwise', in_unit(s_pair()), run_pair, quick=1200, thorough=30000),
    Sub('ordinal', in_unit(s_ord()), run_ord, quick=1500, thorough=40000),
    Sub('ordinal_tail', s_tail(), run_tail, quick=500, thorough=12000),
    Sub('bounded', in_unit(s_abs()), run_abs, quick=600, thorough=15000),
    Sub('all_types', s_sum(), run_sum, quick=600, thorough=15000),
]
