"""Independent reference formulas of the label likelihoods (complex-analytic)."""
import numpy as np
import scipy.special as sc
from common import *

SQRT2 = np.sqrt(2.0)


def log_ndtr(z):
    """log of the normal cdf, analytic (no branch jumps) in a strip around the real axis"""
    z = complex(z)
    if z.real < 0.5:
        return -z * z / 2 + np.log(sc.wofz(-1j * z / SQRT2) / 2)
    return np.log(sc.ndtr(z))


def ll_pref(delta, dk, sigma):
    """log probability of one pairwise label; delta = latent(second) - latent(first)"""
    return log_ndtr(dk * delta / (SQRT2 * sigma))


def ordinal_breaks(b, n):
    return [-np.inf] + [b * i / (n - 2.0) for i in range(n - 1)] + [np.inf]


@st.composite
def in_unit(draw, s):
    """the same case with the latent values measured in another unit"""
    c, u = draw(s), draw(st.sampled_from([1, 1, 1, 0.02, 0.002, 30]))
    if u != 1:
        c['F'] = [v * u for v in c['F']]
        c['sigma'] *= u
        c['unit'] = u
        if 'br' in c:
            c['br'] = dict(c['br'], top=c['br']['top'] * u, start=c['br']['start'] * u,
                           inc=[v * u for v in c['br']['inc']])
        if 'shift' in c:
            c['shift'] *= u
    return c


@st.composite
def s_breaks(draw, k):
    """one of the ways to state the boundaries of k categories"""
    return dict(via=draw(st.sampled_from(['new', 'new', 'set_b', 'set_hyper', 'model'])),
                form=draw(st.sampled_from(['scalar', 'scalar', 'negative', 'inner', 'list',
                                           'full'])),
                top=draw(grid(0.3, 4, 0.1)), start=draw(grid(-2, 1, 0.1)),
                inc=draw(vec(k - 2, 0.2, 1.5, 0.1)))


def stated_breaks(c, k):
    if c['form'] in ('scalar', 'negative') or c['via'] == 'model':
        return ordinal_breaks(c['top'], k)
    b = [c['start']]
    for t in c['inc']:
        b.append(b[-1] + t)
    return [-np.inf] + b + [np.inf]


def ordinal_with(c, k, sigma):
    """the label type under test, with its boundaries stated as the case says"""
    import lop
    br = stated_breaks(c, k)
    b = {'scalar': c['top'], 'negative': -c['top'], 'inner': np.array(br[1:-1]),
         'list': br[1:-1], 'full': np.array(br)}[c['form']]
    if c['via'] == 'new':
        return lop.OrdinalProbit(sigma=sigma, b=b, n_ordinals=k)
    if c['via'] == 'model':
        m = lop.PreferenceGP(lop.RBF_kern(1.0, 1.0))
        P = m.probits[m.probit_idxs['ordinal']]
        P.set_sigma(sigma)
        P.set_b(c['top'])
        m.set_num_ordinals(k)
        return P
    P = lop.OrdinalProbit(n_ordinals=k)
    if c['via'] == 'set_b':
        P.set_sigma(sigma)
        P.set_b(b)
    else:
        P.set_hyper([sigma, b])
    return P


def p_ord(f, y, sigma, breaks):
    """probability of ordinal label y (1..n) for latent f"""
    def cdf(t, flip):
        if np.isinf(t):
            return (0.0 if t < 0 else 1.0) if not flip else (1.0 if t < 0 else 0.0)
        return sc.ndtr((f - t) / sigma) if flip else sc.ndtr((t - f) / sigma)
    lo, hi = breaks[y - 1], breaks[y]
    mid = [t for t in (lo, hi) if np.isfinite(t)]
    flip = np.real(np.mean(f)) < np.mean(mid)      # use the side without cancellation
    if flip:
        return cdf(lo, True) - cdf(hi, True)
    return cdf(hi, False) - cdf(lo, False)


def ll_ord(f, y, sigma, breaks):
    return np.log(p_ord(f, y, sigma, breaks))


def ll_abs(f, y, sigma, v):
    """log density of a bounded rating y for latent f"""
    m = sc.ndtr(f / (SQRT2 * sigma))
    a, b = v * m, v * (1 - m)
    return (sc.loggamma(a + b) - sc.loggamma(a) - sc.loggamma(b)
            + (a - 1) * np.log(y) + (b - 1) * np.log(1 - y))


def cauchy(g, x, order, r=0.25, N=32):
    """order-th derivative of the analytic function g at real x (Cauchy integral)"""
    w = np.exp(2j * np.pi * np.arange(N) / N)
    vals = np.array([g(x + r * wi) for wi in w])
    fac = float(np.prod(np.arange(1, order + 1))) if order else 1.0
    return fac / (N * r ** order) * np.sum(vals * w ** (-order))
