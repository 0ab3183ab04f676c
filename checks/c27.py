from learners import *
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
from matplotlib.colors import to_rgb
import lop

PROPERTY = 'C27'
RULE = ('a case is non-trivial when a model with at least one comparison between two different '
        'places was drawn; distinct = distinct histories and options')
ASSUMPTIONS = ['one feature given as a flat array, or two features; up to 5 additions, resets and '
               'predictions before and between two drawings',
               'the drawing is read from the lines, arrows and marks on the axes, not from pixels']


@st.composite
def s_plot(draw):
    d = draw(st.sampled_from([1, 1, 2, 2, 2]))
    model = 'gp' if d == 1 else draw(st.sampled_from(['gp', 'gp', 'linear']))
    kinds = ['pairs', 'pairs', 'abs', 'abs_idx', 'ord', 'ord_idx']
    steps = [draw(add_op(d, ['pairs'], lo=-1, hi=1))]
    for _ in range(draw(st.integers(0, 4))):
        k = draw(st.sampled_from(['add', 'add', 'add', 'add', 'predict', 'fit', 'plot', 'reset']))
        steps.append(draw(add_op(d, kinds, lo=-1, hi=1)) if k == 'add' else dict(op=k))
    return dict(d=d, model=model, steps=steps, pareto=d == 2 and draw(st.booleans()),
                where=draw(st.sampled_from(['given', 'current'])),
                style=draw(st.sampled_from([None, ['red', 0.5, 2.0], ['#102030', 1.0, 0.5]])),
                flip=draw(st.sampled_from([False, False, False, True])), rs=draw(seeds))


FIG = []


def canvas():
    if not FIG or not plt.fignum_exists(FIG[0].number):
        FIG[:] = [plt.figure()]
    FIG[0].clf()
    return [FIG[0].add_axes([0, 0, 0.4, 1]), FIG[0].add_axes([0.5, 0, 0.4, 1])]


def look(m, ref, c, when, **kw):
    """draw the model and compare what is on the axes with the statements it was given"""
    axes = canvas()
    plt.sca(axes[1])
    ax = axes[0] if c['where'] == 'given' else axes[1]
    if c['style']:
        kw.update(color=c['style'][0], alpha=c['style'][1], width=c['style'][2])
    if c['where'] == 'given':
        kw['ax'] = ax
    m.plot_preference(**kw)
    other = axes[1] if ax is axes[0] else axes[0]
    check(not other.lines and not other.texts and not other.collections, '%s: drawn on other axes',
          when)
    F = None
    if c['d'] == 1 and ref.X:
        F = kw['F'] if 'F' in kw else m.predict(arr(ref.X)[:, 0])[0]
        check(len(F) == len(ref.X), 'latent values')

    def place(i):
        return arr([ref.X[i][0], F[i]]) if c['d'] == 1 else arr(ref.X[i])
    lines = [arr(l.get_xydata()) for l in ax.lines]
    arrows = [(arr(t.xyann), arr(t.xy)) for t in ax.texts]
    check(len(lines) == len(arrows) == len(ref.pairs), '%s: %d lines and %d arrows for %d '
          'comparisons', when, len(lines), len(arrows), len(ref.pairs))
    for l in ax.lines:
        if c['style']:
            check(to_rgb(l.get_color()) == to_rgb(c['style'][0]) and l.get_alpha() == c['style'][1]
                  and l.get_linewidth() == c['style'][2], '%s: style of a line', when)
    tol = 1e-6
    for w, l in ref.pairs:
        a, b = place(l), place(w)
        k = [i for i, s in enumerate(lines) if
             min(np.abs(s - [a, b]).max(), np.abs(s - [b, a]).max()) < tol]
        check(k, '%s: no line for the comparison of %s (winner) and %s', when, b, a)
        del lines[k[0]]
        u = b - a
        if np.abs(u).max() < 1e-3:
            # no direction to see
            k = [i for i, (s, e) in enumerate(arrows) if np.abs(s - a).max() < 2e-3]
        else:
            k = []
            for i, (s, e) in enumerate(arrows):
                t = float((s - a) @ u / (u @ u))
                cross = abs((s - a)[0] * u[1] - (s - a)[1] * u[0]) / math.sqrt(float(u @ u))
                dire = float((e - s) @ u)
                if 0.05 < t < 0.95 and cross < 1e-5 and dire > 0:
                    k.append(i)
        check(k, '%s: no arrow towards the winner %s from %s', when, b, a)
        # equal comparisons have equal arrows, others differ in where they are
        k.sort(key=lambda i: np.abs((arrows[i][0] - a) - u / 2).max())
        del arrows[k[0]]
    marks = [tuple(map(float, p)) for s in ax.collections for p in s.get_offsets()]
    want = [(ref.X[i][0], v) if c['d'] == 1 else tuple(ref.X[i]) for v, i in ref.abs]
    check(len(marks) == len(want) and np.allclose(sorted(marks), sorted(want), rtol=0, atol=1e-9),
          '%s: marks at %s, rated samples at %s', when, sorted(marks), sorted(want))
    return any(np.abs(place(w) - place(l)).max() > 1e-3 for w, l in ref.pairs)


def flat(m, op, d):
    """the call with one feature given as a flat array"""
    if d == 1:
        class Flat(object):
            def add(self, X, *a, **kw):
                m.add(X[:, 0].copy(), *a, **kw)

            def reset(self):
                m.reset()
        apply_op(Flat(), op)
    else:
        apply_op(m, op)


def run_plot(c):
    d = c['d']
    if c['model'] == 'gp':
        m = lop.PreferenceGP(lop.RBF_kern(0.9, 0.6), pareto_pairs=c['pareto'])
    else:
        m = lop.PreferenceLinear(pareto_pairs=c['pareto'])
    ref = RefData(c['pareto'])
    Z = arr([0.3, -0.4]) if d == 1 else arr([[0.3, 0.1], [-0.4, 0.2]])
    nt = False
    seen = set()
    for i, op in enumerate(c['steps'] + [dict(op='plot')]):
        k = op['op']
        if k == 'predict':
            m.predict(Z)
        elif k == 'fit':
            if ref.X:
                m.optimize()
        elif k == 'plot':
            if ref.X and seen & {'predict', 'fit'}:
                seen.add('fitted')
            nt = look(m, ref, c, 'step %d' % (i + 1)) or nt
            compare(m, ref, 'after drawing') if d == 2 else None
            if ref.X:
                mu = np.array(m.predict(Z)[0])
                look(m, ref, c, 'step %d, again' % (i + 1))
                if finite(mu):
                    same(m.predict(Z)[0], mu, 'means after drawing', 1e-12, 1e-12)
        else:
            flat(m, op, d)
            ref.apply(op)
        seen.add(k)
    if c['flip'] and ref.pairs:
        # statements and values given instead of the model's own
        keep = ref.pairs
        ref.pairs, ref.abs = [(l, w) for w, l in keep][:3], []
        y = list(m.y_train)
        y[m.probit_idxs['relative_discrete']] = np.array([lop.preference(w, l)
                                                          for w, l in ref.pairs])
        y[m.probit_idxs['abs']] = None
        kw = dict(y_train=y)
        if d == 1:
            kw['F'] = np.random.RandomState(c['rs']).rand(len(ref.X))
        look(m, ref, c, 'given statements', **kw)
        check(read_pairs(m) == sorted(keep), 'the comparisons were changed')
        seen.add('given')
    return '%s-%dd%s' % (c['model'], d, ',given' if 'given' in seen else ''), nt


def read_pairs(m):
    return sorted((int(u), int(v)) if dk == -1 else (int(v), int(u))
                  for dk, u, v in m.y_train[m.probit_idxs['relative_discrete']])


def run_refuse(c):
    m = lop.PreferenceGP(lop.RBF_kern(0.9, 0.6))
    m.add(arr(c['X']), [lop.preference(0, 1)])
    ax = canvas()[0]
    try:
        m.plot_preference(ax=ax)
        check(False, 'a model with %d features was drawn', len(c['X'][0]))
    except ValueError:
        pass
    check(not ax.lines and not ax.texts, 'something was drawn')
    return '%dd' % len(c['X'][0]), True


SUBS = [
    Sub('plot', s_plot(), run_plot, quick=400, thorough=6000, shards=8, case_limit=60),
    Sub('refuse', st.integers(3, 5).flatmap(lambda d: st.fixed_dictionaries(
        dict(X=matrix(2, d, -1, 1, 0.1), rs=seeds))), run_refuse, quick=10, thorough=100),
]
