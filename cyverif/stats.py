"""Statistics with known null distributions, thresholds beyond 6 sigma."""
import numpy as np
from scipy import special

# P(sqrt(n) D > 3.5) = 2 exp(-2 * 3.5^2) = 5e-11
KS_LIMIT = 3.5
Z_LIMIT = 6.5


def ks(values, cdf=None):
    """Scaled one-sample Kolmogorov-Smirnov distance."""
    u = np.sort(np.asarray(values, float).ravel())
    if cdf is not None:
        u = cdf(u)
    n = len(u)
    i = np.arange(n)
    return float(np.sqrt(n) * max(np.max((i + 1) / n - u), np.max(u - i / n)))


# P(largest gap > (ln n + 18) / n) = exp(-18) = 1.5e-8
GAP_LIMIT = 18.


def gap(values, cdf=None):
    """Largest gap between neighbours of a uniform sample, ends included."""
    u = np.sort(np.asarray(values, float).ravel())
    if cdf is not None:
        u = cdf(u)
    n = len(u)
    return float(np.diff(u, prepend=0., append=1.).max() * n - np.log(n))


def ks2(a, b):
    """Scaled two-sample Kolmogorov-Smirnov distance."""
    a, b = np.sort(np.ravel(a)), np.sort(np.ravel(b))
    x = np.concatenate([a, b])
    d = np.abs(np.searchsorted(a, x, side='right') / len(a)
               - np.searchsorted(b, x, side='right') / len(b))
    return float(d.max() * np.sqrt(len(a) * len(b) / (len(a) + len(b))))


def beta_cdf(a, b):
    return lambda x: special.betainc(a, b, np.clip(x, 0, 1))


def phase01(z):
    return np.angle(z) / (2 * np.pi) % 1.


def ranks(x):
    r = np.empty(len(x))
    r[np.argsort(x, kind='stable')] = (np.arange(len(x)) + .5) / len(x)
    return r


def corr_z(x, y):
    """Rank correlation in units of its standard error."""
    x, y = ranks(np.ravel(x)) - .5, ranks(np.ravel(y)) - .5
    return float(np.abs(np.sum(x * y)) / np.sqrt(np.sum(x * x) * np.sum(y * y)) * np.sqrt(len(x)))


def dependence(u, v, k=6):
    """Chi square statistic of independence of two variables, in sigma."""
    u, v = ranks(np.ravel(u)), ranks(np.ravel(v))
    h, _, _ = np.histogram2d(u, v, bins=k, range=[[0, 1], [0, 1]])
    e = len(u) / k ** 2
    chi = np.sum((h - e) ** 2 / e)
    dof = (k - 1) ** 2
    # Wilson-Hilferty
    return float(((chi / dof) ** (1 / 3) - (1 - 2 / (9 * dof))) / np.sqrt(2 / (9 * dof)))


def mean_z(x, expected):
    """Deviation of a sample mean from its expectation in standard errors."""
    x = np.ravel(np.asarray(x, float))
    s = x.std(ddof=1)
    if s == 0:
        return 0. if abs(x.mean() - expected) < 1e-9 * (1 + abs(expected)) else np.inf
    return float(abs(x.mean() - expected) / s * np.sqrt(len(x)))
