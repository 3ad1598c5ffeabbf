"""C23: families and links written by the user are treated like the built-in ones."""

import itertools

import glum
import numpy as np
import pandas as pd
from glum import ExponentialDispersionModel
from glum._link import Link
from scipy import special

from .. import data, fit, g, ref
from .c21 import COVARGS, penalties, solvers, tols, usable
from .c22 import same, store

ID = "C23"
RULE = (
    "Every built-in family and link has a twin written from the abstract interface only (bounds, unit variance and "
    "its derivative, unit deviance; link, derivative, inverse and its derivatives). Every configuration of a finite "
    "grid (family, link, table, penalty, solver, scaling, intercept, weights, offset, container, precision) is run "
    "with the built-in objects, with the family, the link and both replaced by their twins; fits, paths, "
    "cross-validation, predictions, scores, covariances, tables and tests must agree. Families and links that glum "
    "does not have must satisfy the optimality conditions of their own objective. A state is one (configuration, "
    "replacement), a transition one fit or query."
)
ASSUMPTIONS = [
    "automatic grids of alphas start from an approximate null model for links that glum does not know: only given grids",
    "fits that report no convergence are outside the premise",
    "user-written objects follow the abstract interface and are written for arrays",
]


class UserFamily(ExponentialDispersionModel):
    """Only what the abstract base class asks for."""

    def __init__(self, name, spec=None):
        self.name = name
        self.spec = spec if spec is not None else ref.Fam(name)

    def _box(self):
        k = self.spec
        if hasattr(k, "box"):
            return k.box
        if k.kind == "binomial":
            return 0.0, 1.0, True, True
        if k.kind == "ghs" or (k.p is not None and k.p <= 0):
            return -np.inf, np.inf, False, False
        if k.kind == "negbin" or k.p < 2:
            return 0.0, np.inf, True, False
        return 0.0, np.inf, False, False

    @property
    def lower_bound(self):
        return self._box()[0]

    @property
    def upper_bound(self):
        return self._box()[1]

    @property
    def include_lower_bound(self):
        return self._box()[2]

    @property
    def include_upper_bound(self):
        return self._box()[3]

    def unit_variance(self, mu):
        return self.spec.var(mu)

    def unit_variance_derivative(self, mu):
        return self.spec.dvar(mu)

    def unit_deviance(self, y, mu):
        return self.spec.udev(y, mu)


class UserLink(Link):
    def __init__(self, name):
        self.name = name
        self.f = ref.link(name)

    def link(self, mu):
        return self.f[0](mu)

    def derivative(self, mu):
        return self.f[1](mu)

    def inverse(self, lin_pred):
        mu = self.f[2](lin_pred)
        if self.name in ("logit", "cloglog", "probit"):  # stay inside the open interval
            eps = np.finfo(mu.dtype).eps
            mu = np.clip(mu, eps, 1 - eps)
        return mu

    def inverse_derivative(self, lin_pred):
        return self.f[3](lin_pred)

    def inverse_derivative2(self, lin_pred):
        return self.f[4](lin_pred)


# families and links that glum does not have
_phi = lambda e: np.exp(-e * e / 2) / np.sqrt(2 * np.pi)
ref.LINKS.update({
    "probit": (special.ndtri, lambda m: 1 / _phi(special.ndtri(m)), special.ndtr, _phi, lambda e: -e * _phi(e)),
    "inverse": (lambda m: 1 / m, lambda m: -1 / m**2, lambda e: 1 / e, lambda e: -1 / e**2, lambda e: 2 / e**3),
    "softplus": (lambda m: np.log(np.expm1(m)), lambda m: 1 / -np.expm1(-m), lambda e: np.logaddexp(0, e),
                 special.expit, lambda e: special.expit(e) * special.expit(-e)),
})


class Exponential:  # V(mu) = exp(mu), on the real line
    kind, p, box = "user", None, (-np.inf, np.inf, False, False)
    var = dvar = staticmethod(np.exp)

    @staticmethod
    def udev(y, m):
        return 2 * (np.exp(-y) - np.exp(-m) * (m - y + 1))


class Wedderburn:  # V(mu) = mu^2 (1 - mu)^2, y strictly inside
    kind, p, box = "user", None, (0.0, 1.0, False, False)

    @staticmethod
    def var(m):
        return (m * (1 - m)) ** 2

    @staticmethod
    def dvar(m):
        return 2 * m * (1 - m) * (1 - 2 * m)

    @staticmethod
    def udev(y, m):
        q = lambda t: (2 * y - 1) * np.log(t / (1 - t)) - y / t - (1 - y) / (1 - t)
        return 2 * (q(y) - q(m))


class Quasi:  # V(mu) = mu + mu^2 / 2 + mu^3 / 10
    kind, p, box = "user", None, (0.0, np.inf, False, False)

    @staticmethod
    def var(m):
        return m + m**2 / 2 + m**3 / 10

    @staticmethod
    def dvar(m):
        return 1 + m + 0.3 * m**2

    @staticmethod
    def udev(y, m):
        # integral of (y - t) / (t (1 + t/2 + t^2/10)) by partial fractions:
        # y/t - (A t + B) / (10 + 5 t + t^2) with the numerator below
        def q(t):
            # 10 (y - t) / (t (t^2 + 5 t + 10)) = y / t + (-y t - 5 y - 10) / (t^2 + 5 t + 10)
            s = np.sqrt(10 - 25 / 4)
            return y * np.log(t) - y / 2 * np.log(t * t + 5 * t + 10) - (5 * y / 2 + 10) / s * np.arctan((t + 2.5) / s)
        return 2 * (q(y) - q(m))


NEW = {"exponential": Exponential, "wedderburn": Wedderburn, "quasi": Quasi}
for _k in NEW.values():
    _k.dudev = staticmethod(lambda y, m, k=_k: -2 * (y - m) / k.var(m))


def new_target(name, t):
    e = data.eta_true(t)
    n = len(e)
    noise = np.resize([0.4, -0.6, 0.1, 0.7, -0.3, -0.8, 0.5, 0.2, -0.4, 0.3, -0.2], n)
    if name == "exponential":
        return np.round(0.3 + 0.5 * e + 0.5 * noise, 2)
    if name == "wedderburn":
        return np.round(special.expit(e + noise), 3)
    if name in ("poisson", "negbin:1", "gamma", "normal", "binomial"):
        return data.y(t, name)
    return np.round(np.exp(0.4 + e + 0.5 * noise), 2)


FL = [("normal", "identity"), ("normal", "log"), ("poisson", "log"), ("poisson", "identity"), ("gamma", "log"),
      ("invgauss", "log"), ("tweedie:1.5", "log"), ("tweedie:1.5", "tweedie:1.5"), ("tweedie:2.5", "log"),
      ("tweedie:3", "log"), ("tweedie:0", "identity"), ("tweedie:1", "log"), ("tweedie:2", "log"),
      ("binomial", "logit"), ("binomial", "cloglog"), ("negbin:1", "log"), ("negbin:0.4", "log"), ("ghs", "identity")]
CORE = [FL[i] for i in (0, 2, 4, 6, 13, 14, 15, 17)]
NEWFL = [("exponential", "identity"), ("wedderburn", "logit"), ("wedderburn", "probit"), ("quasi", "log"),
         ("quasi", "softplus"), ("binomial", "probit"), ("poisson", "softplus"), ("gamma", "softplus"),
         ("negbin:1", "softplus"), ("gamma", "inverse"), ("normal", "softplus")]
BUILTIN_LINKS = [("wedderburn", "logit"), ("wedderburn", "cloglog"), ("quasi", "log"), ("exponential", "identity"),
                 ("normal", "logit"), ("gamma", "logit"), ("poisson", "cloglog"), ("normal", "cloglog")]
ODD = [("normal", "logit"), ("gamma", "logit"), ("poisson", "cloglog"), ("normal", "cloglog"), ("tweedie:1.5", "identity"), ("negbin:1", "identity"),
       ("invgauss", "tweedie:1.5"), ("ghs", "logit"), ("binomial", "log"), ("binomial", "identity"), ("negbin:1", "logit"), ("tweedie:1.5", "logit")]
TWINS = ("family", "link", "both")
ISC = [(True, False), (True, True), (False, False)]


def cases(tier):
    deep = tier == "thorough"
    out = []
    for f, lk in ODD:
        out.append(dict(block="parts", fam=f, link=lk))
    for f, lk in FL:
        out.append(dict(block="parts", fam=f, link=lk))
        tabs = ["three", "scales"] + (["onehot", "corr", "tall", "one", "sparse"] if deep else ["onehot"] if (f, lk) in CORE else [])
        for t in tabs:
            if lk in ("identity", "tweedie:1.5") and (f, lk) not in CORE and t not in ("three", "scales", "one"):
                continue
            for sc in range(3):
                out.append(dict(block="twin", fam=f, link=lk, table=t, isc=sc))
    for f, lk in FL if deep else CORE:
        out.append(dict(block="path", fam=f, link=lk, table="three"))
        out.append(dict(block="cv", fam=f, link=lk, table="three"))
        out.append(dict(block="frame", fam=f, link=lk))
        out.append(dict(block="single", fam=f, link=lk))
    for f, lk in NEWFL:
        for t in ["three", "scales"] + (["onehot", "corr"] if deep else []):
            out.append(dict(block="new", fam=f, link=lk, table=t))
    for f, lk in BUILTIN_LINKS:
        for t in ["three", "scales"] + (["onehot", "corr"] if deep else []):
            out.append(dict(block="new", fam=f, link=lk, table=t, builtin=True))
    for c in out:
        c["deep"] = deep
    return out


def parts_of(twin, f, lk):
    fam = UserFamily(f) if twin in ("family", "both") else g.family(f)
    link = UserLink(lk) if twin in ("link", "both") else g.link(lk)
    return dict(family=fam, link=link)


def run_parts(case, ctx):
    """The methods that the base class builds from the interface."""
    f, lk = case["fam"], case["link"]
    a, u = g.family(f), UserFamily(f)
    la, lu = g.link(lk), UserLink(lk)
    y = np.asarray(data.y("three", f), float)
    n = len(y)
    grid = ref.link(lk)[0](np.array([0.2, 0.5, 0.8]) if f == "binomial" or lk in ("logit", "cloglog") else np.array([0.3, 1.0, 2.5]))
    X = data.X("three")
    coef = np.append(grid[1], np.zeros(3))
    probe = np.array([-1.0, 0.0, 0.3, 1.0, 2.0, np.inf])
    ctx.check(np.array_equal(a.in_y_range(probe), u.in_y_range(probe)), "range", f"{f}: {a.in_y_range(probe)} and {u.in_y_range(probe)}")
    inexact = f in ("negbin:0.4",)  # the parameter is kept in single precision
    for dt, tol in ((np.float64, 1e-6 if inexact else 1e-10), (np.float32, 2e-4)):
        for (e0, e1), wt in itertools.product(itertools.product(grid, grid), ("none", "varied", "zeros")):
            w = data.weights("three", wt)
            w = (np.ones(n) if w is None else np.array(w, float)).astype(dt)
            eta = np.where(np.arange(n) % 2, e0, e1).astype(dt)
            yy = y.astype(dt)
            what = f"{f}/{lk} {dt.__name__} eta={e0:.3f},{e1:.3f} w={wt}"
            ctx.state("parts", f, lk, dt.__name__, float(e0), float(e1), wt)
            mu = np.asarray(ref.link(lk)[2](eta.astype(float))).astype(dt)
            with np.errstate(all="ignore"):
                for name, args in (("unit_variance", (mu,)), ("unit_variance_derivative", (mu,)), ("unit_deviance", (yy, mu)),
                                   ("deviance_derivative", (yy, mu, w)), ("variance_derivative", (mu, 1.3, w)),
                                   ("deviance", (yy, mu, w)), ("dispersion", (yy, mu, w)),
                                   ("dispersion", (yy, mu, w, 2, "deviance")), ("dispersion", (yy, mu, None, 2))):
                    if name == "variance_derivative" and wt == "zeros":
                        continue
                    ctx.trace()
                    same(ctx, f"part:{name}", getattr(u, name)(*args), getattr(a, name)(*args), tol * 3, what)
                for lnk in (la, lu):
                    ctx.trace()
                    r = [d.rowwise_gradient_hessian(k, coef=None, dispersion=1, X=None, y=yy, sample_weight=w, eta=eta, mu=mu) for d, k in ((a, lnk), (u, lnk), (u, lu))]
                    # the specialised code may use the observed information
                    same(ctx, "part:gradient", r[1][0], r[0][0], tol * 10, what)
                    same(ctx, "part:gradient-link", r[1][0], r[2][0], tol * 10, what)
                    same(ctx, "part:curvature-link", r[1][1], r[2][1], tol * 10, what)
                    ctx.check(np.all(r[1][1] >= 0), "part:curvature", what)
                    if dt is np.float64 and wt != "zeros":
                        for kind in ("_fisher_information", "_observed_information"):
                            m = [np.asarray(getattr(d, kind)(k, fit_X(X), yy, mu, w, 1.7, True)) for d, k in ((a, lnk), (u, lnk), (u, lu))]
                            same(ctx, "part:" + kind, m[1], m[0], 1e-7, what)
                            same(ctx, "part:" + kind + "-link", m[1], m[2], 1e-7, what)
        # deviance while a step is tried
        step = np.resize([0.2, -0.1, 0.05], n).astype(dt)
        for lnk, factor, e0 in itertools.product((la, lu), (1.0, 0.25), grid[1:2]):
            eta = np.full(n, e0, dt)
            y32 = y.astype(dt)
            one = np.ones(n, dt)
            out = []
            for d in (a, u):
                e1, m1, dev1 = d.eta_mu_deviance(lnk, factor, eta, step, y32, one)
                dev0 = d.eta_mu_deviance(lnk, 0.0, eta, step, y32, one)[2]
                out.append((e1, m1, dev1 - dev0))
            for i, nm in enumerate(("eta", "mu", "difference")):
                same(ctx, f"step:{nm}", out[1][i], out[0][i], tol * 100, f"{f}/{lk} {dt.__name__} factor={factor}")


def fit_X(X):
    import tabmat as tm

    return tm.DenseMatrix(np.asfortranarray(X))


def theta(e):
    return np.append(float(e.intercept_), np.asarray(e.coef_, float))


def compare(ctx, a, b, X, y, w, o, tol, tag, what, deep, cov=True):
    t1, t2 = theta(a), theta(b)
    Xd = np.asarray(X, float)
    sd = np.append(1.0, np.where(Xd.std(0) > 1e-9, Xd.std(0), 1.0))
    d = np.abs((t1 - t2) * sd)
    d[0] = abs(t1[0] - t2[0] + Xd.mean(0) @ (t1 - t2)[1:])
    q = d.max() / (1 + np.abs(t1 * sd)[1:].max(initial=0))
    ctx.outcome(np.round(t2, 3).tolist())
    ctx.trace()
    if not ctx.check(np.isfinite(q) and q <= tol, f"coef:{tag}", lambda: f"{what}: {t2} instead of {t1} ({q:.1e})"):
        return
    kw = dict(offset=o)
    same(ctx, f"linear:{tag}", b.linear_predictor(X, **kw), a.linear_predictor(X, **kw), 10 * tol, what)
    same(ctx, f"mean:{tag}", b.predict(X, **kw), a.predict(X, **kw), 10 * tol, what)
    same(ctx, f"score:{tag}", b.score(X, y, sample_weight=w, **kw), a.score(X, y, sample_weight=w, **kw), 10 * tol, what)
    if not cov:
        return
    for ca in COVARGS[: 4 if deep else 2]:
        va, vb = (m.covariance_matrix(X, y, sample_weight=w, **kw, **ca) for m in (a, b))
        s = np.sqrt(np.abs(np.diag(va)))
        ctx.op(2)
        q = np.abs((va - vb) / np.outer(s, s)).max()
        ctx.check(q < 1e-4 + 100 * tol, f"cov:{tag}", lambda: f"{what} {ca}: {q:.1e}")
    same(ctx, f"table:{tag}", b.coef_table(X=X, y=y, sample_weight=w, **kw).iloc[:, 1:3], a.coef_table(X=X, y=y, sample_weight=w, **kw).iloc[:, 1:3], 1e-3, what)


def run_twin(case, ctx):
    f, lk, t = case["fam"], case["link"], case["table"]
    fi, sp = ISC[case["isc"]]
    X, y = data.X(t), data.y(t, f)
    p = X.shape[1]
    edge = lk in ("identity", "tweedie:1.5") and f not in ("normal", "ghs", "tweedie:0")
    if edge and not fi:
        return
    k = -1
    for (alpha, l1, P1, P2), wt, of in itertools.product(penalties(f), ("none", "varied", "zeros"), ("none", "varied")):
        if not usable(f, lk, t, alpha, l1, P1, P2, fi) or edge and of != "none":
            continue
        for s in solvers(l1 > 0 and alpha > 0, False):
            k += 1
            if not case["deep"] and k % 3:
                continue
            if t == "scales" and s in ("lbfgs", "trust-constr") or s == "trust-constr" and not case["deep"] and k % 2:
                continue
            if edge and s in ("lbfgs", "trust-constr") or f in ("invgauss", "tweedie:3", "tweedie:2.5") and s in ("lbfgs", "trust-constr"):
                continue
            w, o = data.weights(t, wt), data.offset(t, of)
            kw, tol = tols(s)
            kw.update(alpha=alpha, l1_ratio=l1, fit_intercept=fi, scale_predictors=sp, solver=s, P1=fit.make_P1(P1, p), P2=fit.make_P2(P2, p))
            if k % 4 == 1 and not edge:
                kw["start_params"] = np.append(0.2, np.resize([0.02, -0.01], p))[0 if fi else 1:]
            what = f"{f}/{lk} {t} {kw} w={wt} o={of}"
            try:
                a, ok, _ = fit.fit(glum.GeneralizedLinearRegressor(**parts_of("none", f, lk), **kw), store(X, ("array", "csc", "F")[k % 3]), y, sample_weight=w, offset=o)
            except (ValueError, np.linalg.LinAlgError):
                if not edge:
                    raise
                ctx.skipped += 1
                continue
            ctx.op()
            if not ok:
                ctx.skipped += 1
                continue
            top = np.max(X @ a.coef_ + a.intercept_ + (0 if o is None else o))
            if lk == "cloglog" and top > 2.5:
                ctx.skipped += 1
                continue
            for twin in TWINS:
                b, ok, bad = fit.fit(glum.GeneralizedLinearRegressor(**parts_of(twin, f, lk), **kw), store(X, ("array", "csc", "F")[k % 3]), y, sample_weight=w, offset=o)
                ctx.op()
                ctx.state(f, lk, t, case["isc"], k, twin)
                if not ok:
                    # Fisher scoring and the observed information differ, lbfgs and trust-constr start elsewhere
                    if s in ("lbfgs", "trust-constr") or edge:
                        ctx.skipped += 1
                    else:
                        ctx.check(False, f"converge:{twin}", f"{what}: {bad}")
                    continue
                cov = t not in ("onehot", "sparse") and wt != "zeros" and s in ("auto", "irls-ls", "irls-cd")
                compare(ctx, a, b, X, y, w, o, tol, twin, what, case["deep"] or k % 5 == 0, cov)


def run_path(case, ctx):
    f, lk, t = case["fam"], case["link"], case["table"]
    X, y = data.X(t), data.y(t, f)
    for (fi, sp), l1, wt, of in itertools.product(ISC, (0.0, 0.5, 1.0), ("none", "varied"), ("none", "varied")):
        w, o = data.weights(t, wt), data.offset(t, of)
        kw = dict(alpha=[0.5, 0.1, 0.02], alpha_search=True, l1_ratio=l1, fit_intercept=fi, scale_predictors=sp, gradient_tol=1e-10, max_iter=3000)
        a, ok, _ = fit.fit(glum.GeneralizedLinearRegressor(**parts_of("none", f, lk), **kw), X, y, sample_weight=w, offset=o)
        ctx.op()
        if not ok:
            ctx.skipped += 1
            continue
        for twin in TWINS:
            what = f"path {f}/{lk} {kw} w={wt} o={of} {twin}"
            b, ok, bad = fit.fit(glum.GeneralizedLinearRegressor(**parts_of(twin, f, lk), **kw), X, y, sample_weight=w, offset=o)
            ctx.op()
            ctx.state("path", f, lk, fi, sp, l1, wt, of, twin)
            ctx.trace()
            if not ctx.check(ok, f"path-converge:{twin}", f"{what}: {bad}"):
                continue
            same(ctx, f"path:{twin}", b.coef_path_, a.coef_path_, 2e-6, what)
            same(ctx, f"path-intercept:{twin}", b.intercept_path_, a.intercept_path_, 2e-6, what)
            for i in (0, [0, 2]):
                same(ctx, f"path-predict:{twin}", b.predict(X, alpha_index=i, offset=o), a.predict(X, alpha_index=i, offset=o), 2e-5, what)


def run_cv(case, ctx):
    f, lk, t = case["fam"], case["link"], case["table"]
    X, y = data.X(t), data.y(t, f)
    for (fi, sp), l1, wt, of in itertools.product(ISC, (0.5, [0.0, 1.0]), ("none", "varied"), ("none", "varied")):
        w, o = data.weights(t, wt), data.offset(t, of)
        kw = dict(alphas=[0.5, 0.1, 0.02], l1_ratio=l1, cv=3, fit_intercept=fi, scale_predictors=sp, gradient_tol=1e-10, max_iter=3000)
        a, ok, _ = fit.fit(glum.GeneralizedLinearRegressorCV(**parts_of("none", f, lk), **kw), X, y, sample_weight=w, offset=o)
        ctx.op()
        if not ok:
            ctx.skipped += 1
            continue
        for twin in TWINS:
            what = f"cv {f}/{lk} {kw} w={wt} o={of} {twin}"
            b, ok, bad = fit.fit(glum.GeneralizedLinearRegressorCV(**parts_of(twin, f, lk), **kw), X, y, sample_weight=w, offset=o)
            ctx.op()
            ctx.state("cv", f, lk, fi, sp, str(l1), wt, of, twin)
            ctx.trace()
            if not ctx.check(ok, f"cv-converge:{twin}", f"{what}: {bad}"):
                continue
            da, db = np.asarray(a.deviance_path_), np.asarray(b.deviance_path_)
            if lk == "cloglog" and da.shape == db.shape:  # links clip saturated means each in their own way
                da, db = np.where(da > 12, 0, da), np.where(da > 12, 0, db)
            same(ctx, f"cv-deviance:{twin}", db, da, 1e-5, what)
            same(ctx, f"cv-alpha:{twin}", b.alpha_, a.alpha_, 1e-9, what)
            same(ctx, f"cv-l1:{twin}", b.l1_ratio_, a.l1_ratio_, 1e-9, what)
            compare(ctx, a, b, X, y, w, o, 5e-6, "cv-" + twin, what, False)


def run_frame(case, ctx):
    """A frame with a categorical column, and a formula."""
    f, lk = case["fam"], case["link"]
    X, y = data.X("onehot"), data.y("onehot", f)
    df = pd.DataFrame(X[:, 3:], columns=["u", "v"])
    df["g"] = pd.Categorical(np.array(list("abc"))[X[:, :3].argmax(1)])
    for kw, wt, of in itertools.product((dict(drop_first=False), dict(drop_first=True), dict(formula="u + g", drop_first=True), dict(formula="u * g - v")), ("none", "varied"), ("none", "varied")):
        w, o = data.weights("onehot", wt), data.offset("onehot", of)
        kw = dict(kw, alpha=0.1, gradient_tol=1e-10, max_iter=3000)
        a, ok, _ = fit.fit(glum.GeneralizedLinearRegressor(**parts_of("none", f, lk), **kw), df, y, sample_weight=w, offset=o)
        ctx.op()
        if not ok:
            ctx.skipped += 1
            continue
        for twin in TWINS:
            what = f"frame {f}/{lk} {kw} w={wt} o={of} {twin}"
            b, ok, bad = fit.fit(glum.GeneralizedLinearRegressor(**parts_of(twin, f, lk), **kw), df, y, sample_weight=w, offset=o)
            ctx.state("frame", f, lk, str(kw), wt, of, twin)
            ctx.trace()
            if not ctx.check(ok, f"frame-converge:{twin}", f"{what}: {bad}"):
                continue
            ctx.check(list(a.feature_names_) == list(b.feature_names_), f"frame-names:{twin}", what)
            same(ctx, f"frame:{twin}", theta(b), theta(a), 5e-6, what)
            same(ctx, f"frame-mean:{twin}", b.predict(df, offset=o), a.predict(df, offset=o), 5e-5, what)
            same(ctx, f"frame-score:{twin}", b.score(df, y, sample_weight=w, offset=o), a.score(df, y, sample_weight=w, offset=o), 5e-5, what)
            if kw["drop_first"] if "drop_first" in kw else False:
                same(ctx, f"frame-errors:{twin}", b.std_errors(df, y, sample_weight=w, offset=o), a.std_errors(df, y, sample_weight=w, offset=o), 1e-4, what)
                r = [m.wald_test(df, y, sample_weight=w, offset=o, terms=["g"]) for m in (a, b)]
                same(ctx, f"frame-wald:{twin}", r[1].test_statistic, r[0].test_statistic, 1e-3, what)
                ctx.check(r[0].df == r[1].df, f"frame-df:{twin}", what)


def run_single(case, ctx):
    """Single precision."""
    f, lk = case["fam"], case["link"]
    for t, (fi, sp), l1, of in itertools.product(("three", "one"), ISC, (0.0, 0.5), ("none", "varied")):
        X, y = data.X(t).astype(np.float32), np.asarray(data.y(t, f), np.float32)
        if t == "three":
            X = X - X.mean(0)
        o = data.offset(t, of)
        kw = dict(alpha=0.1, l1_ratio=l1, fit_intercept=fi, scale_predictors=sp, gradient_tol=1e-4)
        a, ok, _ = fit.fit(glum.GeneralizedLinearRegressor(**parts_of("none", f, lk), **kw), X, y, offset=o)
        ctx.op()
        if not ok:
            ctx.skipped += 1
            continue
        for twin in TWINS:
            what = f"float32 {f}/{lk} {t} {kw} o={of} {twin}"
            b, ok, bad = fit.fit(glum.GeneralizedLinearRegressor(**parts_of(twin, f, lk), **kw), X, y, offset=o)
            ctx.op()
            ctx.state("single", f, lk, t, fi, sp, l1, of, twin)
            ctx.trace()
            if not ok:
                ctx.skipped += 1
                continue
            same(ctx, f"single:{twin}", theta(b), theta(a), 3e-3, what)
            ctx.check(b.coef_.dtype == a.coef_.dtype, f"single-dtype:{twin}", f"{what}: {b.coef_.dtype}")
            same(ctx, f"single-mean:{twin}", b.predict(X, offset=o), a.predict(X, offset=o), 5e-3, what)


def run_new(case, ctx):
    f, lk, t = case["fam"], case["link"], case["table"]
    X, y = data.X(t), new_target(f, t)
    if case.get("builtin") and lk in ("logit", "cloglog"):
        y = new_target("wedderburn", t)
    p = X.shape[1]
    spec = NEW[f]() if f in NEW else ref.Fam(f)
    rough = lk == "inverse" or f == "exponential"
    for (fi, sp), (alpha, l1, P1, P2), wt, of in itertools.product(ISC, penalties("poisson"), ("none", "varied"), ("none", "varied")):
        if not usable("binomial", lk, t, alpha, l1, P1, P2, fi) or lk == "inverse" and (not fi or of != "none"):
            continue
        for s in solvers(l1 > 0 and alpha > 0, False):
            if s == "trust-constr" or s == "lbfgs" and (rough or t == "scales"):
                continue
            w, o = data.weights(t, wt), data.offset(t, of)
            kw, tol = tols(s)
            kw.update(alpha=alpha, l1_ratio=l1, fit_intercept=fi, scale_predictors=sp, solver=s, P1=fit.make_P1(P1, p), P2=fit.make_P2(P2, p), max_iter=500)
            what = f"{f}/{lk} {t} {kw} w={wt} o={of}"
            fam = UserFamily(f, spec) if f in NEW else g.family(f)
            e = glum.GeneralizedLinearRegressor(family=fam, link=g.link(lk) if case.get("builtin") else UserLink(lk), **kw)
            try:
                e, ok, bad = fit.fit(e, X, y, sample_weight=w, offset=o)
            except (ValueError, np.linalg.LinAlgError):
                if not rough:
                    raise
                ctx.skipped += 1
                continue
            ctx.op()
            ctx.state("new", f, lk, t, fi, sp, alpha, l1, P1, P2, wt, of, s)
            if not ok:
                ctx.skipped += 1
                ctx.note(f"unconverged:{f}/{lk}:{s}")
                continue
            res, sc, _ = fit.kkt(spec, lk, X, np.asarray(y, float), w, o, np.asarray(e.coef_, float), float(e.intercept_), alpha=alpha, l1_ratio=l1,
                                 P1=fit.make_P1(P1, p), P2=fit.make_P2(P2, p), fit_intercept=fi, scale=sp)
            ctx.trace()
            ctx.outcome(np.round(theta(e), 3).tolist())
            q = np.max(np.abs(res) / sc)
            ctx.check(q <= (1e-8 if s != "lbfgs" else 3e-5), f"kkt:{f}/{lk}", lambda: f"{what}: {res} at {theta(e)}")
            eta = X @ e.coef_ + e.intercept_ + (0 if o is None else o)
            mu = ref.link(lk)[2](eta)
            same(ctx, f"new-mean:{f}/{lk}", e.predict(X, offset=o), mu, 1e-9, what)
            ww = np.ones(len(y)) if w is None else w
            ybar = np.average(y, weights=ww)
            d2 = 1 - (ww @ spec.udev(y, mu)) / (ww @ spec.udev(y, np.full(len(y), ybar)))
            same(ctx, f"new-score:{f}/{lk}", e.score(X, y, sample_weight=w, offset=o), d2, 1e-9, what)
            # covariances from the textbook information
            if s in ("auto", "irls-cd") and t not in ("onehot",):
                h = ref.link(lk)
                v, dm = spec.var(mu), h[3](eta)
                Z = np.c_[np.ones(len(y)), X] if fi else X
                fisher = Z.T @ (Z * (ww * dm**2 / v)[:, None])
                W = dm**2 / v + (y - mu) * (dm**2 * spec.dvar(mu) / v**2 - h[4](eta) / v)
                observed = Z.T @ (Z * (ww * W)[:, None])
                if min(conditioned(fisher), conditioned(observed)) < 1e-6:
                    continue
                phi = (ww @ ((y - mu) ** 2 / v)) / (ww.sum() - Z.shape[1])
                if f in ("binomial", "poisson", "negbin:1"):
                    phi = 1.0
                score = Z * (ww * dm * (y - mu) / v)[:, None]
                fac = ww.sum() / (ww.sum() - Z.shape[1])
                for ca, V in ((dict(robust=False), phi * np.linalg.inv(fisher)),
                              (dict(robust=True, expected_information=True), np.linalg.inv(fisher) @ score.T @ score @ np.linalg.inv(fisher)),
                              (dict(robust=True, expected_information=False), np.linalg.inv(observed) @ score.T @ score @ np.linalg.inv(observed))):
                    G = e.covariance_matrix(X, y, sample_weight=w, offset=o, dispersion=phi, **ca)
                    ctx.op()
                    dd = np.sqrt(np.diag(V))
                    q2 = np.abs((G - fac * V) / np.outer(dd, dd)).max()
                    ctx.check(q2 < 1e-6, f"new-cov:{f}/{lk}:{len(ca)}", lambda: f"{what} {ca}: {q2:.1e}")
                    if f in NEW:
                        G2 = e.covariance_matrix(X, y, sample_weight=w, offset=o, **ca)
                        ctx.check(np.allclose(G, G2, rtol=1e-7, atol=1e-12), f"new-dispersion:{f}/{lk}", f"{what} {ca}")


def conditioned(info):
    """Smallest eigenvalue of the scaled information matrix."""
    d = np.diag(info)
    if not np.all(np.isfinite(info)) or d.min() <= 0:
        return 0.0
    return np.linalg.eigvalsh(info / np.sqrt(np.outer(d, d))).min()


def run(case, ctx):
    globals()["run_" + case["block"]](case, ctx)
