"""Shared generators and reference pieces."""
import cmath
import math

import numpy as np
import hypothesis.strategies as st

from harness import Sub, Violation, Reject, HarnessError, check, fail  # noqa: F401

seeds = st.integers(0, 10**6)


def grid(lo, hi, step=0.05):
    """numbers on a grid; shrink towards 0"""
    a, b = int(math.ceil(lo / step - 1e-9)), int(math.floor(hi / step + 1e-9))
    inv = round(1.0 / step) if abs(round(1.0 / step) * step - 1) < 1e-12 else None
    if inv:
        return st.integers(a, b).map(lambda k: k / inv)
    return st.integers(a, b).map(lambda k: round(k * step, 10))


def matrix(n, d, lo=-2.0, hi=2.0, step=0.05):
    """n x d list of lists"""
    return st.lists(st.lists(grid(lo, hi, step), min_size=d, max_size=d),
                    min_size=n, max_size=n)


def vec(n, lo=-2.0, hi=2.0, step=0.05):
    return st.lists(grid(lo, hi, step), min_size=n, max_size=n)


@st.composite
def points(draw, n, d, lo=-2.0, hi=2.0, step=0.05, dup=True):
    """n points in d dimensions, now and then with repeated points"""
    X = draw(matrix(n, d, lo, hi, step))
    if dup and n > 1 and draw(st.integers(0, 3)) == 3:
        i = draw(st.integers(0, n - 1))
        j = draw(st.integers(0, n - 1))
        X[j] = list(X[i])
    return X


def distinct(X):
    return len(set(tuple(r) for r in X)) == len(X)


def arr(x, dtype=float):
    return np.array(x, dtype=dtype)


def finite(a):
    return np.all(np.isfinite(np.asarray(a, dtype=float)))


def close(a, b, rtol=1e-7, atol=1e-9):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    return a.shape == b.shape and np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=False)


def maxerr(a, b):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return 'shapes %s and %s' % (a.shape, b.shape)
    return 'largest difference %.6g' % np.max(np.abs(a - b)) if a.size else 'empty'


def same(a, b, what, rtol=1e-7, atol=1e-9):
    if not close(a, b, rtol, atol):
        fail('%s: got %s, expected %s (%s)' % (
            what, np.array2string(np.asarray(a), threshold=20, precision=8),
            np.array2string(np.asarray(b), threshold=20, precision=8), maxerr(a, b)))


# ---------------------------------------------------------------- kernels
# a kernel is described by a JSON list: [kind, params...] or [op, spec, spec]
#   ['rbf', sigma, l, noise]  ['zeroed', sigma, l, noise, zero point or None]
#   ['periodic', sigma, l, p]  ['linear', sigma, sigma_b, c]
KERNELS = ['rbf', 'zeroed', 'periodic', 'linear']


@st.composite
def kernel_spec(draw, d=2, kinds=None, depth=1, lo=0.2, hi=3.0):
    kinds = kinds or KERNELS
    if depth > 0 and draw(st.integers(0, 2)) == 2:
        op = draw(st.sampled_from(['+', '*']))
        return [op, draw(kernel_spec(d, kinds, depth - 1, lo, hi)),
                draw(kernel_spec(d, kinds, depth - 1, lo, hi))]
    k = draw(st.sampled_from(kinds))
    pos = grid(lo, hi, 0.05)
    if k == 'rbf':
        return [k, draw(pos), draw(pos), draw(grid(0.0, 0.5, 0.01))]
    if k == 'zeroed':
        z = draw(st.one_of(st.none(), vec(d, -2, 2, 0.1)))
        return [k, draw(pos), draw(pos), draw(grid(0.0, 0.5, 0.01)), z]
    if k == 'periodic':
        return [k, draw(pos), draw(pos), draw(grid(max(lo, 0.3), hi, 0.05))]
    return [k, draw(pos), draw(pos), draw(grid(-1, 2, 0.1))]


def rescale_kernel(k, u, w):
    """the covariance u*u times as large, of points in space stretched by w"""
    if k[0] == '+':
        return ['+', rescale_kernel(k[1], u, w), rescale_kernel(k[2], u, w)]
    if k[0] == '*':
        return ['*', rescale_kernel(k[1], u, w), rescale_kernel(k[2], 1, w)]
    if k[0] == 'linear':
        return [k[0], u / w * k[1], u * k[2], w * k[3]]
    if k[0] == 'periodic':
        return [k[0], u * k[1], k[2], w * k[3]]
    out = [k[0], u * k[1], w * k[2], u * u * k[3]]
    if k[0] == 'zeroed':
        out.append(None if k[4] is None else [w * z for z in k[4]])
    return out


UNITS = st.sampled_from([[1, 1], [1, 1], [1, 1], [0.01, 1], [50, 1], [1, 0.01], [1, 40], [0.02, 30]])


def build_kernel(spec):
    import lop
    k = spec[0]
    if k == '+':
        return build_kernel(spec[1]) + build_kernel(spec[2])
    if k == '*':
        return build_kernel(spec[1]) * build_kernel(spec[2])
    if k == 'rbf':
        return lop.RBF_kern(spec[1], spec[2], sigma_noise=spec[3])
    if k == 'zeroed':
        z = None if spec[4] is None else np.array(spec[4], dtype=float)
        return lop.RBF_kern_zeroed(spec[1], spec[2], zero_pt=z, sigma_noise=spec[3])
    if k == 'periodic':
        return lop.PeriodicKern(spec[1], spec[2], spec[3])
    return lop.LinearKern(spec[1], spec[2], spec[3])


def kernel_theta(spec):
    """the hyper-parameters in order"""
    if spec[0] in '+*':
        return kernel_theta(spec[1]) + kernel_theta(spec[2])
    return list(spec[1:3]) if spec[0] in ('rbf', 'zeroed') else list(spec[1:4])


def with_theta(spec, theta):
    theta = list(theta)
    if spec[0] in '+*':
        n = len(kernel_theta(spec[1]))
        return [spec[0], with_theta(spec[1], theta[:n]), with_theta(spec[2], theta[n:])]
    return [spec[0]] + theta + list(spec[1 + len(theta):])


def cexp(x):
    return cmath.exp(x) if isinstance(x, complex) else math.exp(x)


def csin(x):
    return cmath.sin(x) if isinstance(x, complex) else math.sin(x)


def ref_k(spec, u, v):
    """reference covariance of two points without observation noise"""
    k = spec[0]
    if k == '+':
        return ref_k(spec[1], u, v) + ref_k(spec[2], u, v)
    if k == '*':
        return ref_k(spec[1], u, v) * ref_k(spec[2], u, v)
    if k == 'rbf':
        return spec[1] ** 2 * cexp(-sum((a - b) ** 2 for a, b in zip(u, v))
                                       / (2.0 * spec[2] ** 2))
    if k == 'zeroed':
        z = spec[4] if spec[4] is not None else [0.0] * len(u)
        r = ['rbf', spec[1], spec[2], 0]
        return ref_k(r, u, v) - ref_k(r, u, z) * ref_k(r, z, v) / ref_k(r, z, z)
    if k == 'periodic':
        dist = sum(abs(a - b) for a, b in zip(u, v))
        return spec[1] ** 2 * cexp(-2.0 * csin(math.pi * dist / spec[3]) ** 2
                                       / spec[2] ** 2)
    return spec[2] ** 2 + spec[1] ** 2 * sum((a - spec[3]) * (b - spec[3])
                                             for a, b in zip(u, v))


def ref_cov(spec, X, Y):
    """reference covariance matrix; noise only on the diagonal of one sample set with itself"""
    if spec[0] == '+':
        return ref_cov(spec[1], X, Y) + ref_cov(spec[2], X, Y)
    if spec[0] == '*':
        return ref_cov(spec[1], X, Y) * ref_cov(spec[2], X, Y)
    K = np.array([[ref_k(spec, u, v) for v in Y] for u in X])
    if spec[0] in ('rbf', 'zeroed') and X == Y:
        K = K + spec[3] * np.eye(len(X))
    return K


def kinds_in(spec):
    if spec[0] in '+*':
        return kinds_in(spec[1]) | kinds_in(spec[2]) | {spec[0]}
    return {spec[0]}


def kernel_label(spec):
    k = kinds_in(spec)
    return ','.join(sorted(k - set('+*')) + (['composed'] if k & set('+*') else []))
