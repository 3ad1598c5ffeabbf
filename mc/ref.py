"""Boring textbook reference for families, links and the penalised objective.

Nothing here is imported from glum; formulas are the ones of McCullagh & Nelder
and Jorgensen's EDM tables, evaluated in float64 numpy.
"""

import numpy as np
from scipy import special, stats

# --------------------------------------------------------------------------
# links: name -> (g, g', h, h', h'')


def tl(p):
    """Tweedie link x^(1-p)."""
    q = 1.0 - p
    if p == 0:
        return LINKS["identity"]
    if p == 1:
        return LINKS["log"]
    return (
        lambda m: m**q,
        lambda m: q * m ** (q - 1),
        lambda e: e ** (1 / q),
        lambda e: (1 / q) * e ** (1 / q - 1),
        lambda e: (1 / q) * (1 / q - 1) * e ** (1 / q - 2),
    )


def _sig(e):
    return 1.0 / (1.0 + np.exp(-e))


LINKS = {
    "identity": (
        lambda m: m + 0.0,
        lambda m: m * 0 + 1.0,
        lambda e: e + 0.0,
        lambda e: e * 0 + 1.0,
        lambda e: e * 0.0,
    ),
    "log": (np.log, lambda m: 1 / m, np.exp, np.exp, np.exp),
    "logit": (
        lambda m: np.log(m) - np.log1p(-m),
        lambda m: 1 / (m * (1 - m)),
        _sig,
        lambda e: _sig(e) * _sig(-e),
        lambda e: _sig(e) * _sig(-e) * (_sig(-e) - _sig(e)),
    ),
    "cloglog": (
        lambda m: np.log(-np.log1p(-m)),
        lambda m: -1.0 / ((1 - m) * np.log1p(-m)),
        lambda e: -np.expm1(-np.exp(e)),
        lambda e: np.exp(e) * np.exp(-np.exp(e)),
        lambda e: np.exp(e) * np.exp(-np.exp(e)) * (1 - np.exp(e)),
    ),
}


def link(name):
    if name.startswith("tweedie:"):
        return tl(float(name.split(":")[1]))
    return LINKS[name]


# --------------------------------------------------------------------------
# families: "normal", "poisson", "gamma", "invgauss", "ghs", "binomial",
# "tweedie:p", "negbin:theta"


class Fam:
    def __init__(self, name):
        self.name = name
        self.kind, _, par = name.partition(":")
        self.par = float(par) if par else None
        if self.kind == "tweedie":
            # glum stores the parameter in single precision (documented in code as
            # a way not to upcast); the reference uses the stored number
            self.par = float(np.float32(self.par))
        self.p = dict(normal=0.0, poisson=1.0, gamma=2.0, invgauss=3.0).get(
            self.kind, self.par if self.kind == "tweedie" else None
        )
        if self.kind == "negbin":
            self.theta = float(np.float32(self.par))

    # domain of y
    def y_ok(self, y):
        y = np.asarray(y, float)
        if self.kind == "ghs":
            return np.isfinite(y)
        if self.kind == "binomial":
            return (y >= 0) & (y <= 1)
        if self.kind == "negbin":
            return (y >= 0) & np.isfinite(y)
        p = self.p
        if p <= 0:
            return np.isfinite(y)
        if p < 2:
            return (y >= 0) & np.isfinite(y)
        return (y > 0) & np.isfinite(y)

    def default_link(self):
        if self.kind == "ghs":
            return "identity"
        if self.kind == "binomial":
            return "logit"
        if self.kind == "negbin":
            return "log"
        return "identity" if self.p <= 0 else "log"

    def var(self, m):
        if self.kind == "ghs":
            return 1 + m * m
        if self.kind == "binomial":
            return m * (1 - m)
        if self.kind == "negbin":
            return m + self.theta * m * m
        return m**self.p

    def dvar(self, m):
        if self.kind == "ghs":
            return 2 * m
        if self.kind == "binomial":
            return 1 - 2 * m
        if self.kind == "negbin":
            return 1 + 2 * self.theta * m
        if self.p == 0:
            return 0 * m
        return self.p * m ** (self.p - 1)

    def udev(self, y, m):
        """Unit deviance."""
        y = np.asarray(y, float)
        m = np.asarray(m, float)
        if self.kind == "ghs":
            return 2 * y * (np.arctan(y) - np.arctan(m)) + np.log1p(m * m) - np.log1p(y * y)
        if self.kind == "binomial":
            # quasi-likelihood of Wooldridge & Papke: -2 * Bernoulli log-likelihood
            return -2 * (special.xlogy(y, m) + special.xlog1py(1 - y, -m))
        if self.kind == "negbin":
            r = 1 / self.theta
            with np.errstate(divide="ignore", invalid="ignore"):
                a = np.where(y > 0, y * np.log(np.where(y > 0, y, 1) / m), 0.0)
            return 2 * (a - (y + r) * np.log((y + r) / (m + r)))
        p = self.p
        if p == 0:
            return (y - m) ** 2
        if p == 1:
            a = np.where(y > 0, y * np.log(np.where(y > 0, y, 1) / m), 0.0)
            return 2 * (a - y + m)
        if p == 2:
            return 2 * (np.log(m) - np.log(y) + y / m - 1)
        return 2 * (
            np.maximum(y, 0) ** (2 - p) / ((1 - p) * (2 - p))
            - y * m ** (1 - p) / (1 - p)
            + m ** (2 - p) / (2 - p)
        )

    def dudev(self, y, m):
        return -2 * (y - m) / self.var(m)

    def loglik(self, y, m, phi=1.0):
        """log density / mass of one observation; None where glum has none."""
        if self.kind == "ghs":
            return None
        if self.kind == "binomial":
            return special.xlogy(y, m) + special.xlog1py(1 - y, -m)
        if self.kind == "negbin":
            r = 1 / self.theta
            return (
                special.gammaln(y + r) - special.gammaln(r) - special.gammaln(y + 1)
                + special.xlogy(y, m / (m + r)) + r * np.log(r / (m + r))
            )
        p = self.p
        if p == 0:
            return stats.norm.logpdf(y, m, np.sqrt(phi))
        if p == 1:
            return special.xlogy(y, m) - m - special.gammaln(y + 1)
        if p == 2:
            return stats.gamma.logpdf(y, 1 / phi, scale=m * phi)
        if p == 3:
            return stats.invgauss.logpdf(y, m * phi, scale=1 / phi)
        if 1 < p < 2:
            return tweedie_logpdf(y, m, p, phi)
        return None


def tweedie_logpdf(y, m, p, phi):
    """Compound Poisson-gamma mixture density, summed directly."""
    y, m = np.broadcast_arrays(np.asarray(y, float), np.asarray(m, float))
    out = np.empty(y.shape)
    for ix in np.ndindex(y.shape):
        yy, mm = y[ix], m[ix]
        lam = mm ** (2 - p) / (phi * (2 - p))
        if yy == 0:
            out[ix] = -lam
            continue
        shape1 = (2 - p) / (p - 1)
        scale = phi * (p - 1) * mm ** (p - 1)
        # the mode of the summands is near y^(2-p)/(phi (2-p)); sum far around it
        jm = yy ** (2 - p) / (phi * (2 - p))
        lo = max(1, int(jm - 60 * np.sqrt(jm + 1) - 60))
        hi = int(jm + 60 * np.sqrt(jm + 1) + 120)
        j = np.arange(lo, hi + 1)
        t = stats.poisson.logpmf(j, lam) + stats.gamma.logpdf(yy, j * shape1, scale=scale)
        out[ix] = special.logsumexp(t)
    return out


# --------------------------------------------------------------------------
# the documented objective


def objective_parts(fam, lk, X, y, w, off, coef, icpt):
    """(mean 1/2 deviance gradient wrt intercept and coef, half deviance)."""
    g, dg, h, dh, d2h = link(lk)
    eta = X @ coef + icpt + off
    mu = h(eta)
    ws = w / w.sum()
    half_dev = 0.5 * np.sum(ws * fam.udev(y, mu))
    r = -ws * (y - mu) / fam.var(mu) * dh(eta)
    return half_dev, np.concatenate(([r.sum()], X.T @ r)), eta, mu


def information(fam, lk, X, y, w, eta, mu, kind):
    """sum_i w_i W_i x_i x_i^T with expected / observed weights (phi=1)."""
    g, dg, h, dh, d2h = link(lk)
    v = fam.var(mu)
    W = dh(eta) ** 2 / v
    if kind == "observed":
        W = W - (y - mu) * (d2h(eta) / v - dh(eta) ** 2 * fam.dvar(mu) / v**2)
    return (X * (w * W)[:, None]).T @ X
