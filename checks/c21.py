from learners import *
import lop
from lop.utilities import k_fold_x_y, get_y_with_idx, normalize_0_1

PROPERTY = 'C21'
RULE = ('a case is non-trivial when there are at least two parts (or a proper subset) and some label '
        'is left out of a part; distinct = distinct (samples, labels, parts)')
ASSUMPTIONS = ['up to 16 samples (40 and 300 now and then), up to 280 labels of each of the three '
               'types, with repeated and shared samples',
               'parts may be empty when comparisons make others full',
               'comparisons that link samples in separate couples fit in parts of even size']


@st.composite
def labels(draw, n):
    def pairs():
        out = []
        for _ in range(draw(st.integers(0, 8))):
            a, b = draw(st.integers(0, n - 1)), draw(st.integers(0, n - 1))
            if a != b:
                out.append([draw(st.sampled_from([-1, 1])), a, b])
        return out
    if draw(st.integers(0, 7)) == 7:
        # many labels of all types
        g, m = np.random.RandomState(draw(seeds)), draw(st.sampled_from([40, 65, 90, 130, 280]))
        ix = lambda: [int(i) for i in g.randint(0, n, m)]
        return [[[int(g.choice([-1, 1])), i, int((i + 1 + g.randint(0, n - 1)) % n)]
                 for i in ix()] if n > 1 else None,
                [[int(v) for v in g.randint(1, 6, m)], ix()],
                [(g.randint(1, 20, m) * 0.05).tolist(), ix()]]
    y = [pairs() if n > 1 and draw(st.booleans()) else None, None, None]
    if not y[0]:
        y[0] = None
    for t in (1, 2):
        if draw(st.booleans()):
            m = draw(st.integers(1, 6))
            idx = draw(st.lists(st.integers(0, n - 1), min_size=m, max_size=m))
            y[t] = [draw(st.lists(st.integers(1, 5) if t == 1 else grid(0.05, 0.95, 0.05),
                                  min_size=m, max_size=m)), idx]
    return y


def real(y):
    return [None if y[0] is None else np.array(y[0], dtype=int).reshape(-1, 3)] + [
        None if y[t] is None else (arr(y[t][0], int if t == 1 else float), arr(y[t][1], int))
        for t in (1, 2)]


def plain(y):
    return [None if y[0] is None else [tuple(int(v) for v in p) for p in y[0]]] + [
        None if v is None else [(float(a), int(b)) for a, b in zip(*v)] for v in y[1:]]


# ---- parts
@st.composite
def s_fold(draw):
    n = draw(st.sampled_from(list(range(2, 17)) * 2 + [33, 40, 300]))
    return dict(n=n, d=draw(st.integers(1, 2)), k=draw(st.integers(1, 10)), y=draw(labels(n)),
                rs=draw(seeds), couples=draw(st.permutations(range(n))),
                kind=draw(st.sampled_from(['any', 'any', 'couples'])))


def run_fold(c):
    n, k = c['n'], c['k']
    X = np.arange(n * c['d'], dtype=float).reshape(n, c['d'])
    y = c['y']
    if c['kind'] == 'couples':
        o = list(c['couples'])
        y = [[[-1, o[2 * i], o[2 * i + 1]] for i in range(n // 2)], None, None]
    Y = real(y)
    before = plain(Y)
    S = k_fold_x_y(X, Y, k)
    check(plain(Y) == before and (X == np.arange(n * c['d']).reshape(n, c['d'])).all(),
          'the data were changed')
    if k > n // 2:
        k = n // 2
        if k < 2:
            check(S is None, '%d samples were split: %s', n, S)
            return 'too-few', False
    check(S is not None and len(S) == k, '%d parts asked for, got %s', k, S)
    size = -(-n // k)
    for s in S:
        s = [int(i) for i in s]
        check(s == sorted(s), 'a part is not in order: %s', s)
        check(len(s) <= size, 'part %s has more than %d of %d samples', s, size, n)
    allp = sorted(int(i) for s in S for i in s)
    check(allp == list(range(n)), 'parts %s of %d samples', S, n)
    if not y[0]:
        check(max(len(s) for s in S) - min(len(s) for s in S) <= 1, 'parts of unrelated samples have '
              'sizes %s', [len(s) for s in S])
    if c['kind'] == 'couples' and size % 2 == 0:
        for _, a, b in y[0]:
            check(any(a in s and b in s for s in S), 'compared samples %d and %d are in different '
                  'parts %s', a, b, S)
    if k == 1:
        return 'one', False
    return c['kind'] + ',k%d' % k, k > 1


# ---- labels of a subset
@st.composite
def s_sub(draw):
    n = draw(st.sampled_from(list(range(1, 13)) * 2 + [40, 300]))
    sub = draw(st.permutations(range(n)))[:draw(st.integers(1, n))]
    return dict(n=n, y=draw(labels(n)), sub=sub, f=draw(vec(n, -2, 2, 0.1)),
                form=draw(st.sampled_from(['list', 'array'])))


def run_sub(c):
    Y = real(c['y'])
    before = plain(Y)
    sub = list(c['sub'])
    Z = get_y_with_idx(Y, np.array(sub) if c['form'] == 'array' else list(sub))
    check(plain(Y) == before, 'the labels were changed')
    check(len(Z) == 3, 'labels %s', Z)
    pos = {s: i for i, s in enumerate(sub)}
    want = [None if v is None else [p for p in v if all(i in pos for i in (p[1:] if t == 0 else
                                                                           p[1:2]))]
            for t, v in enumerate(before)]
    got = plain(Z)
    for t in range(3):
        w = [(p[0],) + tuple(pos[i] for i in p[1:]) for p in want[t] or []]
        check(sorted(got[t] or []) == sorted(w), 'labels %s of type %d, expected %s (samples %s)',
              got[t], t, w, sub)
        check(got[t] is None or len(got[t]) > 0, 'type %d without labels is not None', t)
    # the labels of the subset are worth the same on the values of the subset
    F = arr(c['f'])
    m = lop.PreferenceGP(lop.RBF_kern(1.0, 1.0))
    keep = [None if not want[t] else (np.array(want[t], dtype=int) if t == 0 else
                                      (arr([p[0] for p in want[t]], int if t == 1 else float),
                                       arr([p[1] for p in want[t]], int)))
            for t in range(3)]
    a = m.log_likelyhood_training(F, keep)
    b = m.log_likelyhood_training(F[sub], Z)
    same(b, a, 'log-likelihood of the labels of a subset', 1e-9, 1e-9)
    left = sum(len(v or []) for v in before) > sum(len(v or []) for v in got)
    return 'some' if left else 'all', left and len(sub) < c['n']


# ---- parts and their labels: every label of one part is found once
def run_both(c):
    n = c['n']
    Y = real(c['y'])
    S = k_fold_x_y(np.zeros((n, 2)), Y, c['k'])
    if S is None:
        raise Reject
    tot = [0, 0, 0]
    for s in S:
        if not len(s):
            continue
        Z = get_y_with_idx(Y, s)
        for t, v in enumerate(plain(Z)):
            tot[t] += len(v or [])
            for p in v or []:
                check(all(0 <= i < len(s) for i in (p[1:] if t == 0 else p[1:2])), 'label %s of a '
                      'part of %d samples', p, len(s))
    full = [len(v or []) for v in plain(Y)]
    inside = sum(1 for p in plain(Y)[0] or [] if any(p[1] in s and p[2] in s for s in S))
    check(tot == [inside] + full[1:], '%s labels in the parts of %s', tot, full)
    return 'k%d' % len(S), len(S) > 1 and sum(full) > 0


# ---- rescaling to 0..1
def run_norm(c):
    x = arr(c['x'])
    keep = x.copy()
    r = normalize_0_1(x, c['eps']) if c['eps'] else normalize_0_1(x)
    eps = c['eps'] or 1e-4
    check((x == keep).all(), 'the values were changed')
    lo, hi = x.min(), x.max()
    same(r, (x - lo + eps) / (hi - lo + 2 * eps), 'rescaled values', 1e-9)
    check((r > 0).all() and (r < 1).all(), 'rescaled values %s are not within 0 to 1', r)
    same(r.min() + r.max(), 1.0, 'sum of the extremes')
    o = np.argsort(x, kind='stable')
    check((np.diff(r[o]) >= 0).all(), 'the order changed')
    return 'const' if lo == hi else 'range', lo < hi


SUBS = [
    Sub('parts', s_fold(), run_fold, quick=2500, thorough=100000),
    Sub('subset', s_sub(), run_sub, quick=1200, thorough=40000),
    Sub('parts_labels', s_fold(), run_both, quick=800, thorough=30000),
    Sub('rescale', st.fixed_dictionaries(dict(
        x=st.integers(1, 8).flatmap(lambda n: vec(n, -100, 100, 0.25)),
        eps=st.sampled_from([None, 0.001, 0.1]))), run_norm, quick=800, thorough=20000),
]
