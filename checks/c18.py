from learners import *
import lop
from lop.utilities import get_pareto

PROPERTY = 'C18'
RULE = ('a case is non-trivial when some point is dominated and at least two are not; '
        'distinct = distinct arrays')
ASSUMPTIONS = ['up to 14 points (at times up to 260) in up to 5 dimensions, nearly equal or very '
               'large values, finite values and infinities, with many ties '
               'and repeated points; larger is better in every dimension',
               'of exactly equal points the first stands for all of them']


def s_values(inf=True):
    @st.composite
    def f(draw):
        d = draw(st.integers(1, 5))
        n = draw(st.integers(0, 14))
        step = draw(st.sampled_from([1.0, 1.0, 0.5, 0.05]))
        num = grid(-2, 2, step)
        if inf and draw(st.integers(0, 5)) == 5:
            num = st.one_of(num, st.sampled_from([math.inf, -math.inf]))
        X = [[draw(num) for _ in range(d)] for _ in range(n)]
        if n > 1 and draw(st.booleans()):
            for _ in range(draw(st.integers(1, 3))):
                X[draw(st.integers(0, n - 1))] = list(X[draw(st.integers(0, n - 1))])
        fine = False
        many = draw(st.integers(0, 9)) == 9
        if many:
            # many points, most of them on or near the front
            g, n = np.random.RandomState(draw(seeds)), draw(st.sampled_from([33, 65, 70, 130, 260]))
            X = g.randint(-9, 10, (n, d)) * 0.25
            X[:, -1] = -X[:, :-1].sum(axis=1) - (g.rand(n) < 0.4) if d > 1 else X[:, -1]
            X = X.tolist()
        elif draw(st.integers(0, 4)) == 4 and not any(math.isinf(x) for r in X for x in r):
            # points that differ by very little, at values of any size
            by, up = draw(st.sampled_from([(1e-9, 1.0), (1e-9, 0.0), (1.0, 1e9), (1e-6, 100.0),
                                           (1e-300, 0.0)]))
            X = [[x * by + up for x in r] for r in X]
            fine = True
        return dict(X=[[str(x) if math.isinf(x) else x for x in r] for r in X], d=d, n=n,
                    fine=fine,
                    dtype=draw(st.sampled_from(['float', 'float', 'float32', 'int'])),
                    order=list(np.random.RandomState(draw(seeds)).permutation(n).tolist()), t=draw(st.integers(0, 3)),
                    shift=draw(grid(-3, 3, 0.5)), scale=draw(grid(0.5, 4, 0.5)),
                    layout=draw(st.sampled_from(['C', 'F', 'slice'])))
    return f()


def build(c, X=None):
    X = [[float(x) for x in r] for r in (c['X'] if X is None else X)]
    if c['dtype'] == 'int':
        X = [[round(2 * x) if math.isfinite(x) else (99 if x > 0 else -99) for x in r] for r in X]
    A = np.array(X, dtype=dict(float=float, float32=np.float32, int=int)[c['dtype']])
    A = A.reshape(len(X), c['d'])
    if c['layout'] == 'F':
        A = np.asfortranarray(A)
    elif c['layout'] == 'slice':
        B = np.full((2 * len(X), c['d'] + 1), 77, dtype=A.dtype)
        B[::2, :-1] = A
        A = B[::2, :-1]
    return A


def run_front(c):
    A = build(c)
    keep = np.array(A)
    X = [list(r) for r in A.tolist()]
    want = ref_pareto(X)
    got = get_pareto(A)
    check((A == keep).all(), 'the values were changed')
    check(sorted(int(i) for i in got) == want, 'front %s, expected %s', list(got), want)
    check(len(X) == 0 or len(want) > 0, 'nothing is on the front')
    mask = get_pareto(A, return_mask=True)
    check(mask.shape == (len(X),) and mask.dtype == bool, 'mask %s of %s', mask.shape, mask.dtype)
    check([i for i in range(len(X)) if mask[i]] == want, 'mask %s, expected %s', mask, want)
    nt = len(want) > 1 and len(want) < len(X)
    return '%d-d%s' % (c['d'], ',' + c['dtype']), nt


def front_set(A):
    return sorted(tuple(r) for r in A[get_pareto(A)].tolist())


def run_relations(c):
    A = build(c)
    n = len(A)
    F = front_set(A)
    P = A[list(c['order'])]
    check(front_set(P) == F, 'the front depends on the order of the points')
    # a front is its own front
    G = A[get_pareto(A)]
    check(len(get_pareto(G)) == len(G), 'the front of a front is smaller')
    if n:
        # adding a point no better than an existing one changes nothing
        i = c['t'] % n
        worse = np.array(A[i])
        if c['dtype'] != 'int':
            worse = worse - np.abs(c['shift'])
        else:
            worse = worse - int(abs(c['shift']))
        check(front_set(np.vstack([A, worse[None, :]])) == F, 'a dominated point changed the front')
        top = A.max(axis=0) + 1
        check(front_set(np.vstack([A, top[None, :]])) == [tuple(top.tolist())] or not
              np.isfinite(top.astype(float)).all(), 'a point better than all is not the only one left')
    if c['dtype'] == 'float' and np.isfinite(A).all() and not c.get('fine'):
        B = A * c['scale'] + c['shift']
        check(list(get_pareto(B)) == list(get_pareto(A)), 'rescaling the values changed the front')
    al = lop.BestLearner()
    if n:
        pref = al.get_prefered_set_of_pts(A, 'pareto')
        check(set(int(i) for i in pref) == set(int(i) for i in get_pareto(A)), 'preferred points '
              '%s', pref)
    return '%d-d' % c['d'], len(F) > 1 and len(F) < n


SUBS = [
    Sub('front', s_values(), run_front, quick=3000, thorough=150000),
    Sub('relations', s_values(), run_relations, quick=2000, thorough=80000),
]
