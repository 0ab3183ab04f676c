from common import *
from histories import *
import lop

PROPERTY = 'C02'
RULE = ('a case is non-trivial when prior points were added to a model and at least one sample '
        'remains; distinct = distinct histories')
ASSUMPTIONS = ['dominance pairs enabled; prior points in [0, 1]^d (or generated bounds), up to 12 '
               'prior points given exactly, up to 25 drawn at random']


@st.composite
def s_exact(draw):
    d = draw(st.integers(1, 3))
    step = draw(st.sampled_from([0.05, 0.25]))
    before = [draw(add_op(d, ALL_KINDS, step=step)) for _ in range(draw(st.integers(0, 4)))]
    n = draw(st.sampled_from([0] * 9 + [130, 256]))
    if n:
        # one sample that carries many labels
        before.append(dict(op='abs_idx', X=[draw(vec(d, 0, 1, step))], y=[0.5] * n, idx=[0] * n))
    priors = [draw(points(draw(st.integers(1, 6)), d, 0, 1, step))
              for _ in range(draw(st.integers(1, 2)))]
    after = [draw(add_op(d, ALL_KINDS, step=step)) for _ in range(draw(st.integers(0, 2)))]
    return dict(before=before, priors=priors, after=after, rs=draw(seeds),
                model=draw(st.sampled_from(['gp', 'linear'])), between=draw(st.booleans()))


def mk(kind, pareto=True):
    if kind == 'gp':
        return lop.PreferenceGP(lop.RBF_kern(0.8, 0.6), pareto_pairs=pareto)
    return lop.PreferenceLinear(pareto_pairs=pareto)


def prior_of(m):
    p = m.get_prior_pts()
    return None if p is None else [list(map(float, r)) for r in p]


def run_exact(c):
    m = mk(c['model'])
    ref = RefData(True)
    for op in c['before']:
        apply_op(m, op)
        ref.apply(op)
    check(m.get_prior_pts() is None, 'prior points before any were added')
    exp = None
    for pts in c['priors']:
        start = len(ref.X)
        P = arr(pts)
        m.add_prior(method='exact', pts=P)
        check((P == arr(pts)).all(), 'the given prior points were changed')
        ref.apply(dict(op='pairs', X=pts, y=[]))
        kept = ref.drop_unreferenced()
        exp = [pts[i - start] for i in kept if i >= start]
        compare(m, ref, 'after adding prior points')
        got = prior_of(m)
        check((got or []) == exp, 'prior points %s, expected %s', got, exp)
    for op in c['after']:
        apply_op(m, op)
        ref.apply(op)
        compare(m, ref, 'after adding data to a model with prior points')
        got = prior_of(m)
        check((got or []) == exp, 'prior points %s after more data, expected %s', got, exp)
    lab = ['rated' if ref.ords or ref.abs else 'pairs-only',
           'dropped' if len(exp) < len(c['priors'][-1]) else 'kept']
    return ','.join(lab), bool(ref.X)


@st.composite
def s_random(draw):
    d = draw(st.integers(1, 3))
    lo = draw(vec(d, -2, 1, 0.5))
    w = draw(vec(d, 0.5, 3, 0.5))
    return dict(bounds=[[a, a + b] for a, b in zip(lo, w)], n=draw(st.integers(3, 25)),
                before=[draw(add_op(d, ALL_KINDS)) for _ in range(draw(st.integers(0, 2)))],
                rs=draw(seeds))


def run_random(c):
    m = mk('gp')
    ref = RefData(True)
    for op in c['before']:
        apply_op(m, op)
        ref.apply(op)
    n0 = len(ref.X)
    B = arr(c['bounds'])
    m.add_prior(bounds=B, num_pts=c['n'])
    check((B == arr(c['bounds'])).all(), 'the bounds were changed')
    P = m.get_prior_pts()
    # the largest corner dominates every random point, so all points take part in a pair
    check(P is not None and len(P) == c['n'], '%s prior points kept of %d',
          None if P is None else len(P), c['n'])
    check((P >= B[:, 0] - 1e-12).all() and (P <= B[:, 1] + 1e-12).all(),
          'prior points outside the bounds')
    for corner in (B[:, 0], B[:, 1]):
        check((np.abs(P - corner).max(axis=1) < 1e-12).any(), 'corner %s of the bounds is not a '
              'prior point', corner)
    ref.apply(dict(op='pairs', X=[list(map(float, r)) for r in P], y=[]))
    ref.drop_unreferenced()
    compare(m, ref, 'after adding random prior points')
    return 'n%d' % (c['n'] // 10 * 10), True


# the direct call, on models that hold unlabelled samples
@st.composite
def s_remove(draw):
    d = draw(st.integers(1, 2))
    ops = [draw(add_op(d, ALL_KINDS)) for _ in range(draw(st.integers(1, 6)))]
    return dict(ops=ops, pareto=draw(st.booleans()), rs=draw(seeds), T=draw(points(2, d, 0, 1)))


def run_remove(c):
    m = mk('gp', c['pareto'])
    ref = RefData(c['pareto'])
    for op in c['ops']:
        apply_op(m, op)
        ref.apply(op)
    n = len(ref.X)
    m.remove_without_reference()
    kept = ref.drop_unreferenced()
    compare(m, ref, 'after removing unlabelled samples')
    if ref.X:
        m.remove_without_reference()
        compare(m, ref, 'after removing unlabelled samples twice')
    return 'removed' if len(kept) < n else 'all-used', n > 1


def run_noprior(c):
    m = mk('gp', False)
    ref = RefData(False)
    for op in c['ops']:
        apply_op(m, op)
        ref.apply(op)
    m.add_prior(method='exact', pts=arr(c['T']))
    compare(m, ref, 'prior points without dominance pairs enabled')
    check(m.get_prior_pts() is None, 'prior points without dominance pairs enabled')
    return 'disabled', True


SUBS = [
    Sub('exact', s_exact(), run_exact, quick=2500, thorough=60000),
    Sub('random', s_random(), run_random, quick=600, thorough=15000),
    Sub('remove', s_remove(), run_remove, quick=1500, thorough=40000),
    Sub('disabled', s_remove(), run_noprior, quick=300, thorough=6000),
]
