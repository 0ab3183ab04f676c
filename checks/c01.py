from common import *
from histories import *
import lop

PROPERTY = 'C01'
RULE = ('a history is non-trivial when it has at least two calls that carry samples; distinct = '
        'distinct histories')
ASSUMPTIONS = ['ratings are given in every documented form (one per sample, or with explicit '
               'sample indices), as lists or arrays of double, single or integer type; histories '
               'of up to 8 calls with up to 4 samples each, 1 to 3 dimensions; also up to 300 '
               'samples in one call',
               'bounded ratings are stored clipped to [0.001, 0.999], the repository\'s choice',
               'comparisons are read back through the public X_train / y_train attributes']


def make(kind, pareto):
    if kind == 'gp':
        return lop.PreferenceGP(lop.RBF_kern(0.8, 0.6), pareto_pairs=pareto)
    return lop.PreferenceLinear(pareto_pairs=pareto)


@st.composite
def s_hist(draw, pareto=False):
    d = draw(st.integers(1, 3))
    ops = []
    for _ in range(draw(st.integers(1, 8))):
        if draw(st.integers(0, 11)) == 11:
            ops.append(dict(op='reset'))
        else:
            ops.append(draw(add_op(d, ALL_KINDS * 2 + BAD_KINDS,
                                   step=0.25 if pareto and draw(st.booleans()) else 0.05,
                                   f32=True)))
    return dict(ops=ops, model=draw(st.sampled_from(['gp', 'linear'])), pareto=pareto,
                rs=draw(seeds))


def run_hist(c):
    m = make(c['model'], c['pareto'])
    ref = RefData(c['pareto'])
    n = 0
    labels = set()
    for i, op in enumerate(c['ops']):
        before = (ref.X[:], ref.pairs[:], ref.ords[:], ref.abs[:])
        if op['op'].startswith('bad'):
            try:
                apply_op(m, op)
            except Violation:
                raise
            except Exception:
                labels.add('rejected')
            else:
                fail('step %d: labels %s were accepted' % (i, op['y']))
        else:
            apply_op(m, op)
        ref.apply(op)
        compare(m, ref, 'after step %d (%s)' % (i, op['op']))
        n += 'X' in op
        if op['op'] == 'reset' and i > 0:
            labels.add('reset')
        else:
            labels.add(op['op'])
    if ref.pareto and len(ref.pairs) > sum(len(o['y']) for o in c['ops'] if o['op'] == 'pairs'):
        labels.add('dominance')
    return ','.join(sorted(labels)), n >= 2


# a rejected call in the middle of a history has no effect on what is learned later
@st.composite
def s_reject(draw):
    d = draw(st.integers(1, 2))
    a = [draw(add_op(d, ALL_KINDS)) for _ in range(draw(st.integers(0, 2)))]
    b = [draw(add_op(d, ALL_KINDS)) for _ in range(draw(st.integers(1, 2)))]
    return dict(a=a, bad=draw(add_op(d, BAD_KINDS)), b=b, T=draw(points(3, d, 0, 1)),
                rs=draw(seeds))


def run_reject(c):
    out = []
    for with_bad in (False, True):
        np.random.seed(c['rs'])
        m = lop.PreferenceGP(lop.RBF_kern(0.8, 0.6, sigma_noise=0.1))
        for op in c['a']:
            apply_op(m, op)
        if with_bad:
            try:
                apply_op(m, c['bad'])
            except Violation:
                raise
            except Exception:
                pass
            else:
                fail('labels %s were accepted' % c['bad']['y'])
        for op in c['b']:
            apply_op(m, op)
        np.random.seed(c['rs'])
        out.append(m.predict(arr(c['T'])))
    same(out[1][0], out[0][0], 'prediction after a rejected call', 1e-9, 1e-9)
    same(out[1][1], out[0][1], 'variance after a rejected call', 1e-9, 1e-9)
    return c['bad']['op'], True


# many samples: the positions of the labels are right however many there are
@st.composite
def s_many(draw):
    d = draw(st.integers(1, 2))
    ops = [draw(add_op(d, ALL_KINDS)) for _ in range(draw(st.integers(0, 1)))]
    ops += [draw(bulk_op(d))]
    ops += [draw(add_op(d, ALL_KINDS)) for _ in range(draw(st.integers(1, 4)))]
    if draw(st.integers(0, 3)) == 3:
        ops += [draw(bulk_op(d)), draw(add_op(d, ALL_KINDS))]
    pareto = draw(st.sampled_from([False, False, False, True]))
    return dict(ops=ops, model=draw(st.sampled_from(['gp', 'linear'])), pareto=pareto,
                rs=draw(seeds))


SUBS = [
    Sub('history', s_hist(False), run_hist, quick=2500, thorough=60000),
    Sub('history_pareto', s_hist(True), run_hist, quick=2000, thorough=50000),
    Sub('many_samples', s_many(), run_hist, quick=120, thorough=3000),
    Sub('rejected_call', s_reject(), run_reject, quick=300, thorough=8000),
]
