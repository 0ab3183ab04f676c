"""Generated preference models and an independent reference posterior."""
import scipy.special as sc
from common import *
from histories import *

SQ2 = math.sqrt(2.0)


@st.composite
def gp_kernel(draw, d, noise_lo=0.02):
    nz = grid(noise_lo, 0.3, 0.01)
    s, l = grid(0.3, 2.0, 0.05), grid(0.2, 2.0, 0.05)
    rbf = ['rbf', draw(s), draw(l), draw(nz)]
    k = draw(st.sampled_from(['rbf', 'rbf', 'rbf', 'zeroed', 'sum_lin', 'sum_rbf', 'prod_lin',
                              'sum_per']))
    if k == 'zeroed':
        return ['zeroed', rbf[1], rbf[2], rbf[3],
                draw(st.one_of(st.none(), vec(d, -1, 1, 0.1)))]
    if k == 'sum_lin':
        return ['+', rbf, ['linear', draw(s), draw(s), draw(grid(-1, 1, 0.1))]]
    if k == 'sum_rbf':
        return ['+', rbf, ['rbf', draw(s), draw(l), 0.0]]
    if k == 'prod_lin':
        return ['+', ['*', ['rbf', draw(s), draw(l), 0.0],
                      ['linear', draw(s), draw(s), draw(grid(-1, 1, 0.1))]], rbf]
    if k == 'sum_per' and d == 1:
        return ['+', rbf, ['periodic', draw(s), draw(l), draw(grid(0.4, 2, 0.1))]]
    return rbf


@st.composite
def probit_params(draw):
    return dict(pair=draw(grid(0.3, 2, 0.05)), ord_s=draw(grid(0.3, 2, 0.05)),
                ord_b=draw(grid(0.5, 4, 0.1)), abs_s=draw(grid(0.3, 2, 0.05)),
                abs_v=draw(grid(3, 90, 1)))


LOGCONCAVE = ['pairs', 'pairs', 'ord', 'ord_idx']


@st.composite
def gp_case(draw, kinds=ALL_KINDS, max_ops=4, dmax=3, pareto=True, max_n=4):
    d = draw(st.integers(1, dmax))
    return dict(d=d, kernel=draw(gp_kernel(d)), probits=draw(probit_params()),
                ops=[draw(add_op(d, kinds, lo=-1, hi=1, max_n=max_n))
                     for _ in range(draw(st.integers(1, max_ops)))],
                pareto=draw(st.booleans()) if pareto else False, rs=draw(seeds))


def scale_kernel(k, u):
    """the same covariance for latent values u times as large"""
    if k[0] == '+':
        return ['+', scale_kernel(k[1], u), scale_kernel(k[2], u)]
    if k[0] == '*':
        return ['*', scale_kernel(k[1], u), k[2]]
    if k[0] in ('rbf', 'zeroed'):
        return [k[0], u * k[1], k[2], u * u * k[3]] + list(k[4:])
    if k[0] == 'linear':
        return [k[0], u * k[1], u * k[2], k[3]]
    return [k[0], u * k[1]] + list(k[2:])


@st.composite
def gp_case_units(draw, kinds=ALL_KINDS, **kw):
    """latent values in another unit; small units only for comparisons (the search for the mode
    starts at values up to 1, far in the tails of the other labels)"""
    u = draw(st.sampled_from([1, 1, 1, 30, 0.05, 0.003]))
    c = draw(gp_case([k for k in kinds if k.startswith('pair')] if u < 1 else kinds, **kw))
    c['kernel'] = scale_kernel(c['kernel'], u)
    c['probits'] = {k: (v if k == 'abs_v' else u * v) for k, v in c['probits'].items()}
    return dict(c, unit=u)


def set_probits(m, p):
    m.probits[m.probit_idxs['relative_discrete']].set_sigma(p['pair'])
    o = m.probits[m.probit_idxs['ordinal']]
    o.set_sigma(p['ord_s'])
    o.set_b(p['ord_b'])
    a = m.probits[m.probit_idxs['abs']]
    a.set_sigma(p['abs_s'])
    a.set_v(p['abs_v'])


def new_gp(c, **kw):
    import lop
    m = lop.PreferenceGP(build_kernel(c['kernel']), pareto_pairs=c.get('pareto', False), **kw)
    set_probits(m, c['probits'])
    return m


def build_gp(c, tight=False, **kw):
    m = new_gp(c, **kw)
    if tight:
        m.delta_f = 1e-9
    ref = RefData(c.get('pareto', False))
    for op in c['ops']:
        apply_op(m, op)
        ref.apply(op)
    return m, ref


def phi(z):
    return np.exp(-0.5 * z * z) / math.sqrt(2 * math.pi)


class Posterior(object):
    """log posterior of the latent values at the samples, by textbook formulas"""

    def __init__(self, ref, probits, kernel=None, n_ord=5):
        self.ref, self.p = ref, probits
        self.K = None
        if kernel is not None:
            self.K = ref_cov(kernel, ref.X, ref.X)
            self.Ki = np.linalg.inv(self.K)
        b = probits['ord_b']
        self.br = [-np.inf] + [b * i / (n_ord - 2.0) for i in range(n_ord - 1)] + [np.inf]

    def lik(self, F):
        """log likelihood, gradient, negative Hessian"""
        n = len(F)
        g, W, ll = np.zeros(n), np.zeros((n, n)), 0.0
        s = SQ2 * self.p['pair']
        for a, b in self.ref.pairs:
            z = (F[a] - F[b]) / s
            lp = sc.log_ndtr(z)
            r = math.exp(-0.5 * z * z - lp) / math.sqrt(2 * math.pi)
            ll += lp
            g[a] += r / s
            g[b] -= r / s
            h = r * (z + r) / s ** 2
            W[a, a] += h
            W[b, b] += h
            W[a, b] -= h
            W[b, a] -= h
        s = self.p['ord_s']
        for y, i in self.ref.ords:
            lo, hi = (self.br[y - 1] - F[i]) / s, (self.br[y] - F[i]) / s
            if lo > 0:
                P = sc.ndtr(-lo) - sc.ndtr(-hi)
            else:
                P = sc.ndtr(hi) - sc.ndtr(lo)
            pl, ph = phi(lo), phi(hi)
            d1 = (pl - ph) / s
            d2 = ((lo * pl if np.isfinite(lo) else 0) - (hi * ph if np.isfinite(hi) else 0)) \
                / s ** 2
            ll += math.log(P) if P > 0 else -np.inf
            g[i] += d1 / P
            W[i, i] -= d2 / P - (d1 / P) ** 2
        s, v = SQ2 * self.p['abs_s'], self.p['abs_v']
        for y, i in self.ref.abs:
            z = F[i] / s
            mu = sc.ndtr(z)
            m1 = phi(z) / s
            m2 = -z * phi(z) / s ** 2
            a, b = v * mu, v * (1 - mu)
            ll += sc.gammaln(a + b) - sc.gammaln(a) - sc.gammaln(b) \
                + (a - 1) * math.log(y) + (b - 1) * math.log(1 - y)
            t = math.log(y) - math.log(1 - y) - sc.digamma(a) + sc.digamma(b)
            g[i] += v * m1 * t
            W[i, i] -= v * m2 * t - (v * m1) ** 2 * (sc.polygamma(1, a) + sc.polygamma(1, b))
        return ll, g, W

    def in_range(self, F):
        """are all labels away from the tails where the code uses approximations (see C08)"""
        s = self.p['ord_s']
        for y, i in self.ref.ords:
            lo, hi = (self.br[y - 1] - F[i]) / s, (self.br[y] - F[i]) / s
            P = sc.ndtr(-lo) - sc.ndtr(-hi) if lo > 0 else sc.ndtr(hi) - sc.ndtr(lo)
            if P < 1e-7:
                return False
        s = SQ2 * self.p['abs_s']
        if any(abs(F[i]) / s > 4.5 for _, i in self.ref.abs):
            return False
        s = SQ2 * self.p['pair']
        return all(abs(F[a] - F[b]) / s < 20 for a, b in self.ref.pairs)

    def value(self, F):
        return self.lik(F)[0] - 0.5 * F @ self.Ki @ F

    def newton_step(self, F):
        ll, g, W = self.lik(F)
        H = W + self.Ki
        return np.linalg.solve(H, g - self.Ki @ F), H

    def mode(self):
        """the mode, for log-concave label types"""
        F = np.zeros(len(self.ref.X))
        v = self.value(F)
        for _ in range(200):
            step, _ = self.newton_step(F)
            t = 1.0
            while t > 1e-8:
                w = self.value(F + t * step)
                if w >= v - 1e-13 * abs(v):
                    break
                t /= 2
            F = F + t * step
            v = w
            if np.abs(step).max() < 1e-11:
                break
        return F

    def predict(self, F, W, X, kernel):
        """mean and covariance at X, given latent values and negative Hessian at the samples"""
        Ks = ref_cov(kernel, X, self.ref.X)
        Kss = ref_cov(kernel, X, X)
        n = len(self.ref.X)
        mu = Ks @ (self.Ki @ F)
        A = np.linalg.solve((np.eye(n) + W @ self.K), W @ Ks.T)
        return mu, Kss - Ks @ A


def label_mix(ref):
    l = []
    if ref.pairs:
        l.append('pairs')
    if ref.ords:
        l.append('ordinal')
    if ref.abs:
        l.append('rated')
    return l or ['unlabelled']
