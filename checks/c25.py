from gps import *
import lop

PROPERTY = 'C25'
RULE = 'a case is non-trivial when the start is not the maximum; distinct = distinct (objective, start)'
ASSUMPTIONS = ['concave quadratic objectives in up to 5 variables and several units (every direction through them is '
               'a parabola, for which the halving search is exact), and for the search over '
               'equally spaced steps also arbitrary values',
               'steps searched: 0 to 1.5 by halving, 0.01 to 1.5 in equal steps']


@st.composite
def s_step(draw):
    n = draw(st.integers(1, 5))
    # variables in units of w, objective in units of k
    w, k = draw(st.sampled_from([[1, 1], [1, 1], [1, 1], [200, 1], [1e-3, 1], [1, 1e-6], [1, 1e4],
                                 [200, 1e-6]]))
    return dict(n=n, L=draw(matrix(n, n, -1, 1, 0.1)), e=draw(grid(0.5, 2, 0.1)), w=w, k=k,
                top=[w * x for x in draw(vec(n, -2, 2, 0.1))],
                F=[w * x for x in draw(vec(n, -2, 2, 0.1))],
                h=draw(st.sampled_from([1.0, 1.0, 2.0, 0.75, 4.0, 0.5])), itr=draw(st.integers(1, 8)),
                kind=draw(st.sampled_from(['binary', 'iter', 'static', 'default', 'other'])),
                model=draw(st.sampled_from(['gp', 'linear'])), lam=draw(grid(0.1, 1.5, 0.1)),
                inv=draw(st.sampled_from(['own', 'default', 'fails'])),
                lo=draw(grid(0, 0.5, 0.1)), hi=draw(grid(1, 3, 0.25)), args=draw(st.booleans()))


def make(c):
    return lop.PreferenceGP(lop.RBF_kern(1.0, 1.0)) if c['model'] == 'gp' else lop.PreferenceLinear()


def quadratic(c):
    L = arr(c['L']).reshape(c['n'], c['n'])
    A = c['k'] * (L @ L.T + c['e'] * np.eye(c['n']))
    top = arr(c['top'])
    return A, top, lambda F: -0.5 * (F - top) @ A @ (F - top)


def run_step(c):
    m = make(c)
    A, top, f = quadratic(c)
    F = arr(c['F'])
    # a Hessian that is off by a factor: the full step is that factor of the best one
    H = -A * c['h']
    g = -(A @ (F - top))
    m.lambda_gp = c['lam']
    extra = ()
    seen = []

    def loss(z, *a):
        check(a == extra, 'objective called with %s', a)
        seen.append(np.array(z))
        return f(np.asarray(z))
    kw = dict(lambda_type=c['kind'], line_search_max_itr=c['itr'])
    if c['kind'] == 'default':
        kw = {}
    if c['args']:
        extra = (3, 'x')
        kw['loss_args'] = extra
    if c['inv'] == 'own':
        kw['invert_function'] = np.linalg.pinv
    if c['inv'] == 'fails':
        def no(M):
            raise np.linalg.LinAlgError('singular')
        kw['invert_function'] = no
    keep = F.copy(), g.copy(), H.copy()
    if c['kind'] == 'other':
        try:
            m.newton_update(F, g, H, loss, **kw)
        except ValueError:
            return 'other', False
        fail('an unknown kind of search was accepted')
    try:
        new = np.asarray(m.newton_update(F, g, H, loss, **kw))
    except Exception as e:
        # every trial step of the equally spaced search may not be infinitely bad
        fail('update failed: %r', e)
    check((F == keep[0]).all() and (g == keep[1]).all() and (H == keep[2]).all(), 'arguments changed')
    check(new.shape == F.shape, 'update of shape %s', new.shape)
    if c['inv'] == 'fails':
        return 'gradient', False
    d = np.linalg.solve(H, g)           # the update is F - step * d
    w = c['w']
    if np.abs(d).max() < 1e-9 * w:
        same(new, F, 'update at the maximum', 0, 1e-9 * w)
        return 'at-maximum', False
    step = (F - new) @ d / (d @ d)
    same(new, F - step * d, 'update leaves the Newton direction', 1e-7, 1e-9 * w)
    best = c['h']       # parabola: the maximum along the line
    if c['kind'] in ('static', 'default'):
        same(step, c['lam'], 'fixed step', 1e-7, 1e-9)
        return c['kind'], True
    if c['kind'] == 'binary':
        res = 1.5 / 2 ** (c['itr'] + 1)
        check(abs(step - min(max(best, 0), 1.5)) <= res + 1e-7, 'step %s after %d halvings of 0 to 1.5, '
              'the best is %s', step, c['itr'], best)
        return 'binary', True
    spaced(step, lambda s: f(F - s * d), 0.01, 1.5, c['itr'])
    return 'iter', True


def spaced(step, f, lo, hi, n):
    # rounding can make the end of the range one more step
    t = [lo + i * (hi - lo) / n for i in range(n + 1)]
    k = int(np.argmin([abs(x - step) for x in t]))
    check(abs(t[k] - step) < 1e-6, 'step %s is not one of %d equal steps from %s', step, n, lo)
    v = [f(x) for x in t]
    check(v[k] >= max(v[:n]) - 1e-9 * abs(max(v[:n])), 'step %s has value %s, the best is %s', step, v[k],
          max(v))


# ---- the searches themselves, with generated ranges and any values
def run_search(c):
    m = make(c)
    A, top, f = quadratic(c)
    F = arr(c['F'])
    d = np.linalg.solve(-A * c['h'], -(A @ (F - top)))
    lo, hi, n = c['lo'], c['hi'], c['itr']
    if np.abs(d).max() < 1e-9 * c['w']:
        return 'at-maximum', False
    L = (lambda z, k: f(z) + k) if c['args'] else f
    args = (2.0 * c['k'] * c['w'] ** 2,) if c['args'] else ()
    s = float(m.binary_line_search(F, d, L, args, min_lambda=lo, max_lambda=hi, max_itr=n))
    check(abs(s - min(max(c['h'], lo), hi)) <= (hi - lo) / 2 ** (n + 1) + 1e-7, 'step %s after %d halvings '
          'of %s to %s, the best is %s', s, n, lo, hi, c['h'])
    s = float(m.iterative_line_search(F, d, L, args, min_lambda=lo, max_lambda=hi, max_itr=n))
    spaced(s, lambda t: f(F - t * d), lo, hi, n)
    # any values
    bumps = lambda z: math.sin(9 * float(np.sum(z))) - 0.1 * float(np.sum(z * z))
    s = float(m.iterative_line_search(F, d, bumps, (), min_lambda=lo, max_lambda=hi, max_itr=n))
    spaced(s, lambda t: bumps(F - t * d), lo, hi, n)
    try:
        m.iterative_line_search(F, d, lambda z: -np.inf, (), max_itr=n)
    except Exception:
        pass
    else:
        fail('a search without any finite value succeeded')
    return 'search', True


SUBS = [
    Sub('step', s_step(), run_step, quick=2500, thorough=80000),
    Sub('search', s_step(), run_search, quick=1000, thorough=40000),
]
