from learners import *
import lop
from lop.utilities import (get_dk, preference, gen_pairs_from_idx, ranked_pairs_from_fake,
                           generate_fake_pairs, generate_ranking_pairs)

PROPERTY = 'C20'
RULE = ('a case is non-trivial when at least two options have different values; '
        'distinct = distinct (options, values)')
ASSUMPTIONS = ['up to 9 options with values of any size; comparisons of equal values may go either way, but exist',
               'a comparison is read by the models: the winner is the option whose higher latent '
               'value makes the comparison more likely']


def winner(p):
    d, u, v = p
    check(d in (-1, 1), 'comparison %s', p)
    return (int(u), int(v)) if d == -1 else (int(v), int(u))


@st.composite
def s_case(draw):
    n = draw(st.integers(1, 9))
    d = draw(st.integers(1, 3))
    y = draw(vec(n, -2, 2, draw(st.sampled_from([0.05, 1.0]))))
    # values of any size, nearly equal values
    by, up = draw(st.sampled_from([(1.0, 0.0)] * 4 + [(1.0, 100.0), (1.0, -1e4), (1e6, 0.0),
                                                      (1e-9, 0.0), (1e-9, 1.0), (1e-5, 60.0)]))
    y = [v * by + up for v in y]
    return dict(X=draw(points(n, d, -2, 2, 0.25)), y=y, scale=[by, up], i=draw(st.integers(0, n - 1)),
        num=draw(st.sampled_from(['float', 'int', 'np'])), use=draw(st.booleans()),
        idx=draw(st.lists(st.one_of(st.integers(0, 20), st.integers(120, 400)), max_size=8,
                          unique=True)),
        best=draw(st.one_of(st.integers(0, 20), st.integers(120, 400))), form=draw(st.sampled_from(['list', 'array', 'range'])))


def value(c):
    """function of the samples with the given values, called once per set of samples"""
    X = arr(c['X'])

    def f(Z, data=None):
        check(np.shape(Z) == X.shape and (Z == X).all(), 'the function was given %s', Z)
        f.data = data
        return arr(c['y'])
    f.data = 'none'
    return f, X


def agree(pairs, y, what):
    for p in pairs:
        w, l = winner(p)
        check(w != l and 0 <= w < len(y) and 0 <= l < len(y), '%s: comparison %s', what, p)
        check(y[w] >= y[l], '%s: %d with value %s is preferred to %d with value %s', what, w, y[w],
              l, y[l])


def run_pairs(c):
    n, y, i = len(c['X']), c['y'], c['i']
    for a in y:
        for b in y:
            conv = dict(float=float, int=lambda v: int(round(v)), np=np.float64)[c['num']]
            a_, b_ = conv(a), conv(b)
            d = get_dk(a_, b_)
            check(d in (-1, 1) and (a_ == b_ or d == (-1 if a_ > b_ else 1)), 'direction of %s, %s '
                  'is %s', a_, b_, d)
    for bad in ([1.0], arr([1.0, 2.0]), (1, 2)):
        for args in ((bad, 1.0), (1.0, bad), (bad, bad)):
            try:
                get_dk(*args)
            except TypeError:
                pass
            else:
                fail('direction of vectors %s' % (args,))
    f, X = value(c)
    every = set((a, b) for a in range(n) for b in range(a))
    P = ranked_pairs_from_fake(X, f)
    agree(P, y, 'all comparisons')
    both = sorted(tuple(sorted(winner(p), reverse=True)) for p in P)
    check(both == sorted(every), 'all comparisons: %s', P)
    P = generate_fake_pairs(X, f, i, data='d') if c['use'] else generate_fake_pairs(X, f, i)
    check(f.data == ('d' if c['use'] else None), 'data handed to the function: %s', f.data)
    agree(P, y, 'comparisons with one option')
    both = [tuple(sorted(winner(p))) for p in P]
    check(sorted(both) == sorted(tuple(sorted((i, j))) for j in range(n) if j != i),
          'comparisons with option %d: %s', i, P)
    P = generate_ranking_pairs(X, f)
    agree(P, y, 'ranking')
    both = sorted(tuple(sorted(winner(p), reverse=True)) for p in P)
    check(both == sorted(every), 'comparisons of the ranking: %s', P)
    wins = [sum(1 for p in P if winner(p)[0] == j) for j in range(n)]
    check(sorted(wins) == list(range(n)), 'number of wins in a ranking: %s', wins)
    return 'n%d' % n, len(set(y)) > 1


def run_choice(c):
    idx = c['idx']
    form = dict(list=list, array=lambda v: np.array(v, dtype=int), range=tuple)[c['form']]
    P = gen_pairs_from_idx(c['best'], form(idx))
    check([winner(p) for p in P] == [(c['best'], j) for j in idx if j != c['best']],
          'comparisons of the choice %d among %s: %s', c['best'], idx, P)
    a, b = c['best'], (idx or [c['best'] + 1])[0]
    check(winner(preference(a, b)) == (a, b), 'preference of %d over %d is %s', a, b,
          preference(a, b))
    return 'choice', len(P) > 0


# ---- comparisons made here mean the same to the models
def run_model(c):
    f, X = value(c)
    y, n = c['y'], len(c['y'])
    P = {'all': lambda: ranked_pairs_from_fake(X, f), 'one': lambda: generate_fake_pairs(X, f, c['i']),
         'rank': lambda: generate_ranking_pairs(X, f)}
    nt = False
    for k in sorted(P):
        pairs = P[k]()
        if not pairs:
            continue
        m = lop.PreferenceGP(lop.RBF_kern(1.0, 1.0))
        m.add(X, pairs)
        F = arr(y)
        up = m.log_likelyhood_training(F)
        down = m.log_likelyhood_training(-F)
        lik = m.probits[0].likelihood(np.array(m.y_train[0]), F)
        for p, q in zip(pairs, np.ravel(lik)):
            w, l = winner(p)
            same(q, sc.ndtr((y[w] - y[l]) / (SQ2 * m.probits[0].sigma)), 'probability of %s' % (p,), 1e-6)
        if len(set(y)) > 1:
            check(up >= down, 'the values the comparisons were made from (%s) are less likely than '
                  'their opposites (%s)', up, down)
            nt = True
        if k == 'rank' and len(set(y)) == n and n < 7:
            # points far apart: the prior is the same for every order, so the ranking decides
            m = lop.PreferenceGP(lop.RBF_kern(1.0, 1.0))
            m.add(20.0 * np.arange(n)[:, None] + X[:, :1], pairs)
            m.optimize()
            check(list(np.argsort(m.F)) == list(np.argsort(y)), 'model trained on a ranking of %s '
                  'has the values %s', y, m.F)
    return 'n%d' % n, nt


SUBS = [
    Sub('functions', s_case(), run_pairs, quick=1500, thorough=60000),
    Sub('choice', s_case(), run_choice, quick=1000, thorough=30000),
    Sub('models', s_case(), run_model, quick=250, thorough=6000),
]
