"""C10: covariance matrices against the textbook formulas at the fitted means."""

import itertools
import warnings

import glum
import numpy as np
import pandas as pd
import scipy.sparse as sps
import tabmat as tm

from .. import data, fit, g, ref

ID = "C10"
RULE = (
    "Every (family, link, table, weights, offset, intercept, storage) of a finite product with every "
    "(robust, expected information, dispersion, means given or not); every set partition of five (thorough: "
    "six) groups of rows into clusters under every labelling of a list of label types; every way of obtaining "
    "the matrix. A state is one such tuple; a transition one real call."
)
ASSUMPTIONS = ["matrices are compared to 1e-6 relative to the product of the standard errors (1e-4 where a link or power is kept in single precision)"]
FL = [("normal", "identity"), ("poisson", "log"), ("gamma", "log"), ("binomial", "logit"), ("tweedie:1.5", "log"), ("invgauss", "log"),
      ("ghs", "identity"), ("negbin:1", "log"), ("binomial", "cloglog"), ("normal", "log"), ("gamma", "identity"), ("tweedie:2.5", "log"),
      ("poisson", "identity"), ("negbin:0.5", "identity"), ("tweedie:1.5", "tweedie:1.5"), ("gamma", "tweedie:2"), ("tweedie:1.2", "identity"), ("normal", "tweedie:1.5")]
FORMS = {
    "C": np.ascontiguousarray, "csc": sps.csc_matrix, "csr": sps.csr_matrix,
    "split": lambda X: tm.SplitMatrix([tm.DenseMatrix(np.asfortranarray(X[:, :1])), tm.SparseMatrix(sps.csc_matrix(X[:, 1:]))]),
    "pandas": lambda X: pd.DataFrame(X, columns=[f"v{j}" for j in range(X.shape[1])], index=np.arange(len(X))[::-1]),
}


def cases(tier):
    out = []
    for fl in FL:
        for kind in ("three", "corr", "scales") if tier == "quick" else ("three", "corr", "scales", "sparse", "tall", "one"):
            for icpt in (True, False):
                out.append(dict(block="product", fam=fl[0], link=fl[1], kind=kind, icpt=icpt))
    for fl in FL[:8]:
        out.append(dict(block="clusters", fam=fl[0], link=fl[1], n=5 if tier == "quick" else 6))
    for fl in FL[:6]:
        out.append(dict(block="ways", fam=fl[0], link=fl[1]))
        out.append(dict(block="frames", fam=fl[0], link=fl[1]))
    return out


def design(X, icpt):
    return np.hstack([np.ones((len(X), 1)), X]) if icpt else np.array(X)


def want(fl, X, y, w, off, icpt, coef, b0, *, robust=True, expected=False, dispersion=None, clusters=None, mu=None):
    F = ref.Fam(fl[0])
    Gl, dG, H, dH, d2H = ref.link(fl[1]) if not fl[1].startswith("tweedie") else ref.tl(float(np.float32(float(fl[1].split(":")[1]))))
    n = len(y)
    w = np.ones(n) if w is None else np.asarray(w, float)
    eta = X @ coef + b0 + (0 if off is None else off)
    if mu is None:
        mu = H(eta)
    else:
        eta = Gl(mu)
    D = design(X, icpt)
    k, N = D.shape[1], w.sum()
    v = F.var(mu)
    if dispersion is None:
        dispersion = np.sum(w * (y - mu) ** 2 / v) / (N - k)
    W = dH(eta) ** 2 / v
    fisher = (D * (w * W / dispersion)[:, None]).T @ D
    obs = W - (y - mu) * (d2H(eta) / v - dH(eta) ** 2 * F.dvar(mu) / v**2)
    obs = (D * (w * obs / dispersion)[:, None]).T @ D
    S = D * (w * dH(eta) * (y - mu) / v / dispersion)[:, None]
    if clusters is not None:
        lab = sorted(set(clusters))
        S = np.array([S[[i for i in range(n) if clusters[i] == c]].sum(0) for c in lab])
        M = len(lab)
        corr = M / (M - 1) * (N - 1) / (N - k)
    elif robust:
        corr = N / (N - k)
    else:
        return np.linalg.inv(fisher) * N / (N - k)
    Hm = np.linalg.inv(fisher if expected else obs)
    return Hm @ (S.T @ S) @ Hm.T * corr


def close(a, b, t, ref_=None):
    """Relative to the standard errors (with few clusters the clustered ones may cancel to almost nothing: then to the larger of these and the plain ones)."""
    a, b = np.asarray(a, float), np.asarray(b, float)
    if a.shape != b.shape:
        return False
    s = np.sqrt(np.maximum(np.abs(np.diag(b)), 0 if ref_ is None else np.abs(np.diag(ref_))))
    return bool(np.all(np.abs(a - b) <= t * s[:, None] * s[None, :] + 1e-14))


def tolof(fl):
    return 2e-4 if (float(fl[1].split(":")[1]) % 1 if ":" in fl[1] else 0) else 1e-6


def ill(fl, X, y, w, off, icpt, coef, b0):
    """Observed information (nearly) singular: no textbook value to compare with."""
    F = ref.Fam(fl[0])
    eta = X @ coef + b0 + (0 if off is None else off)
    D = design(X, icpt)
    ws = np.ones(len(y)) if w is None else np.asarray(w, float)
    I = ref.information(F, fl[1], D, y, ws, eta, ref.link(fl[1])[2](eta), "observed")
    s = np.sqrt(np.abs(np.diag(I)))
    return np.linalg.cond(I / s[:, None] / s[None, :]) > 1e7


def fitted(fl, Xf, y, w, off, icpt, **kw):
    return fit.fit(fit.estimator(fl[0], fl[1], alpha=0, fit_intercept=icpt, gradient_tol=1e-7, max_iter=300, **kw), Xf, y, sample_weight=w, offset=off)


def good(fl, e, X, off):
    eta = X @ e.coef_ + e.intercept_ + (0 if off is None else off)
    if not np.isfinite(eta).all() or np.abs(eta).max() > 20:
        return False
    if fl[0] == "binomial" and (np.abs(eta).max() > 12 or fl[1] == "cloglog" and eta.max() > 2.5):  # classes (nearly) separated
        return False
    if fl[1] in ("identity",) or fl[1].startswith("tweedie"):
        if ref.Fam(fl[0]).kind not in ("normal", "ghs") and eta.min() <= 1e-3:
            return False
    return True


def run_product(case, ctx):
    fl, kind, icpt = (case["fam"], case["link"]), case["kind"], case["icpt"]
    if not icpt and fl in (("gamma", "identity"), ("poisson", "identity"), ("negbin:0.5", "identity"), ("tweedie:1.2", "identity")) or not icpt and fl[1].startswith("tweedie"):
        return
    X, y = np.array(data.X(kind)), np.asarray(data.y(kind, fl[0]), float)
    if fl == ("normal", "log") or fl == ("normal", "tweedie:1.5"):
        y = np.abs(y) + 0.3
    tol = tolof(fl)
    for wk, ok_ in (("none", None), ("varied", "varied"), ("zeros", None), ("big", None), (None, "varied")):
        w, off = data.weights(kind, wk), data.offset(kind, ok_)
        if off is not None and fl[1].startswith("tweedie"):
            continue
        forms = FORMS if wk in ("varied", "none") else {"C": FORMS["C"]}
        for fn, f in forms.items():
            ctx.op()
            e, ok, _ = fitted(fl, f(X), y, w, off, icpt)
            if not good(fl, e, X, off):
                ctx.skipped += 1
                continue
            mus = [None]
            if fn == "C":
                mus.append(np.asarray(e.predict(X, offset=off)) * (1.02 if fl[0] != "binomial" else 0.97))
            bad = ill(fl, X, y, w, off, icpt, e.coef_, e.intercept_)
            for robust, exp, disp, mu in itertools.product((True, False, None), (True, False, None), (None, 0.7, 2, 1.0), mus):
                if (disp in (2, 1.0) and (robust is None or exp is None)) or (fn != "C" and disp == 2):
                    continue
                r, x = robust is not False, exp is True
                if r and not x and bad:
                    ctx.skipped += 1
                    continue
                ref_ = want(fl, X, y, w, off, icpt, e.coef_, e.intercept_, robust=r, expected=x, dispersion=disp, mu=mu)
                ctx.op(2)
                ctx.state(case, wk, ok_, fn, robust, exp, disp, mu is None)
                kw = dict(sample_weight=w, offset=off, robust=robust, expected_information=exp, dispersion=disp, mu=mu)
                V = e.covariance_matrix(f(X), y, **kw)
                sig = f"{'robust' if r else 'plain'}:{'expected' if x else 'observed'}:{fn}"
                ctx.check(close(V, ref_, tol), f"covariance:{sig}", lambda: f"weights {wk} offset {ok_} dispersion {disp} mu {mu is not None}: {np.diag(V)} instead of {np.diag(ref_)}")
                se = e.std_errors(f(X), y, **kw)
                ctx.check(g.close(se, np.sqrt(np.diag(V)), 1e-9), f"std-errors:{sig}", se)
                ctx.outcome(np.round(np.log(np.abs(np.diag(V)) + 1e-300), 3).tolist())
                ctx.trace()


def setpartitions(n):
    def rec(i, lab, used):
        if i == n:
            if used > 1:
                yield lab
            return
        for v in range(used + 1):
            yield from rec(i + 1, lab + [v], max(used, v + 1))
    return rec(0, [], 0)


LABELS = {
    "int": lambda c: np.array(c), "shifted": lambda c: np.array(c) * 7 - 3, "reversed": lambda c: 10 - np.array(c),
    "float": lambda c: np.array(c) / 2 + 0.25, "str": lambda c: np.array([f"k{10 - v}" for v in c]), "object": lambda c: np.array([f"z{v}" for v in c], dtype=object),
    "list": lambda c: [int(v) + 4 for v in c], "series": lambda c: pd.Series(c, index=np.arange(len(c))[::-1]), "series-str": lambda c: pd.Series([f"s{v}" for v in c]),
    "categorical": lambda c: pd.Categorical([f"s{v}" for v in c], categories=[f"s{v}" for v in range(max(c) + 2)][::-1]), "bool": lambda c: np.array(c) > 0,
    "int8": lambda c: np.array(c, np.int8), "uint": lambda c: np.array(c, np.uint64),
    "catseries": lambda c: pd.Series(pd.Categorical([f"s{v}" for v in c], categories=[f"s{v}" for v in range(max(c) + 2)])),
    "huge": lambda c: np.array(c) * 10**15 + 5,
}


def run_clusters(case, ctx):
    fl = (case["fam"], case["link"])
    X, y = np.array(data.X("corr")), np.asarray(data.y("corr", fl[0]), float)
    n = len(y)
    w, off = data.weights("corr", "varied"), data.offset("corr", "varied")
    tol = tolof(fl)
    for icpt, ww, oo in ((True, w, off), (False, None, None)):
        e, ok, _ = fitted(fl, X, y, ww, oo, icpt)
        if not good(fl, e, X, oo):
            ctx.skipped += 1
            continue
        bad = ill(fl, X, y, ww, oo, icpt, e.coef_, e.intercept_)
        plain = want(fl, X, y, ww, oo, icpt, e.coef_, e.intercept_, expected=True)
        for part in setpartitions(case["n"]):
            c = np.array([part[i % case["n"]] for i in range(n)])  # rows of a residue class stay together
            names = list(LABELS) if len(set(part)) <= 3 else ["int", "reversed", "str", "huge"]
            for x in (True, False):
                if bad and not x:
                    continue
                W = want(fl, X, y, ww, oo, icpt, e.coef_, e.intercept_, expected=x, clusters=c.tolist())
                for nm in names:
                    if nm == "bool" and len(set(part)) != 2:
                        continue
                    ctx.op()
                    ctx.state(case, icpt, part, x, nm)
                    V = e.covariance_matrix(X, y, sample_weight=ww, offset=oo, clusters=LABELS[nm](c), expected_information=x)
                    ctx.check(close(V, W, tol, plain), f"clustered:{nm}", lambda: f"{part}: {np.diag(V)} instead of {np.diag(W)}")
                    ctx.trace()
                V = e.covariance_matrix(X, y, sample_weight=ww, offset=oo, clusters=c, expected_information=x, robust=False)
                ctx.check(close(V, W, tol, plain), "clustered-robust-false", "clusters given")
                ctx.outcome(np.round(np.log(np.abs(np.diag(V)) + 1e-300), 2).tolist())
                # a permutation of the rows
                p = np.argsort(c, kind="stable")[::-1]
                V = e.covariance_matrix(X[p], y[p], sample_weight=None if ww is None else ww[p], offset=None if oo is None else oo[p], clusters=c[p], expected_information=x)
                ctx.check(close(V, W, tol, plain), "clustered-permuted", part)
                ctx.op(2)


def run_ways(case, ctx):
    """At fit time, afterwards, stored, by the estimator's own settings."""
    fl = (case["fam"], case["link"])
    X, y = np.array(data.X("three")), np.asarray(data.y("three", fl[0]), float)
    w, off = data.weights("three", "varied"), data.offset("three", "varied")
    cl = np.resize([3, 1, 2, 1], len(y))
    for icpt, scale, robust, exp, cc, cv, solver in itertools.product((True, False), (True, False), (True, False), (True, False), (None, cl), (False, True), ("auto", "irls-cd")):
        if scale and not icpt or cv and solver != "auto":
            continue
        kw = dict(fit_intercept=icpt, scale_predictors=scale, robust=robust, expected_information=exp, solver=solver, gradient_tol=1e-7, max_iter=300)
        mk = (lambda: glum.GeneralizedLinearRegressorCV(family=g.family(fl[0]), link=g.link(fl[1]), alphas=[0.0], cv=2, **kw)) if cv else (  # noqa
            lambda: fit.estimator(fl[0], fl[1], alpha=0, **kw))
        ctx.op(6)
        ctx.state(case, icpt, scale, robust, exp, cc is None, cv, solver)
        a, ok, _ = fit.fit(mk(), X, y, sample_weight=w, offset=off, store_covariance_matrix=True, clusters=cc)
        b, ok, _ = fit.fit(mk(), X, y, sample_weight=w, offset=off)
        if not good(fl, a, X, off) or ill(fl, X, y, w, off, icpt, a.coef_, a.intercept_):
            ctx.skipped += 1
            continue
        W = want(fl, X, y, w, off, icpt, a.coef_, a.intercept_, robust=robust, expected=exp, clusters=None if cc is None else cc.tolist())
        tag = f"cv={cv}"
        ctx.check(close(a.covariance_matrix(), W, 1e-6), f"stored:{tag}", lambda: f"{np.diag(a.covariance_matrix())} instead of {np.diag(W)}")
        ctx.check(close(a.covariance_matrix_, W, 1e-6), f"attribute:{tag}", "")
        ctx.check(g.close(a.std_errors(), np.sqrt(np.diag(W)), 1e-5), f"stored-se:{tag}", "")
        ctx.check(b.covariance_matrix_ is None, f"unasked:{tag}", "")
        for q in (b.covariance_matrix, b.std_errors):
            try:
                q()
            except ValueError:
                ctx.check(True, "")
            else:
                ctx.check(False, f"nothing-stored:{tag}", "")
        V = b.covariance_matrix(X, y, sample_weight=w, offset=off, clusters=cc)
        ctx.check(close(V, W, 1e-6), f"defaults:{tag}", lambda: f"{np.diag(V)} instead of {np.diag(W)}")
        ctx.check(b.covariance_matrix_ is None, f"stored-unasked:{tag}", "")
        V = b.covariance_matrix(X, y, sample_weight=w, offset=off, clusters=cc, store_covariance_matrix=True)
        ctx.check(close(b.covariance_matrix(), W, 1e-6), f"stored-later:{tag}", "")
        mu = np.asarray(b.predict(X, offset=off))
        V = b.covariance_matrix(X, y, sample_weight=w, offset=off, clusters=cc, mu=mu)
        ctx.check(close(V, W, 1e-6), f"from-mu:{tag}", "")
        V = b.covariance_matrix(X, y, sample_weight=w, clusters=cc, mu=mu)
        ctx.check(close(V, W, 1e-6), f"from-mu-without-offset:{tag}", "")
        # another call with other options does not disturb what is stored
        b.covariance_matrix(X, y, robust=not robust, expected_information=not exp)
        ctx.check(close(b.covariance_matrix(), W, 1e-6), f"undisturbed:{tag}", "")
        b.covariance_matrix(X, y, robust=not robust, expected_information=exp, sample_weight=w, offset=off, store_covariance_matrix=True)
        W2 = want(fl, X, y, w, off, icpt, a.coef_, a.intercept_, robust=not robust, expected=exp)
        ctx.check(close(b.covariance_matrix(), W2, 1e-6), f"overwritten:{tag}", "")
        # std_errors has the same arguments
        for rb in (True, False):
            c2 = cc if rb else None
            W3 = np.sqrt(np.diag(want(fl, X, y, w, off, icpt, a.coef_, a.intercept_, robust=rb, expected=exp, clusters=None if c2 is None else c2.tolist())))
            d3 = dict(sample_weight=w, offset=off, robust=rb, expected_information=exp, clusters=c2)
            ctx.check(g.close(b.std_errors(X, y, **d3), W3, 1e-5), f"se-options:{tag}", lambda: f"instead of {W3}")
            ctx.check(g.close(b.std_errors(), np.sqrt(np.diag(W2)), 1e-5), f"se-undisturbed:{tag}", "")
            ctx.check(g.close(b.std_errors(X, y, mu=mu, **d3), W3, 1e-5), f"se-from-mu:{tag}", "")
        b.std_errors(X, y, store_covariance_matrix=True, **d3)
        ctx.check(g.close(np.sqrt(np.diag(b.covariance_matrix())), W3, 1e-5), f"se-stored:{tag}", "")
        for bad in (dict(robust=True), dict(dispersion=1.0), dict(mu=mu), dict(clusters=cl), dict(sample_weight=w), dict(offset=off), dict(expected_information=True)):
            try:
                b.covariance_matrix(**bad)
            except ValueError:
                ctx.check(True, "")
            else:
                ctx.check(False, f"re-estimated-without-data:{sorted(bad)}", "")
        ctx.outcome(np.round(np.log(np.diag(W)), 2).tolist())
        ctx.trace()
    # on a path: the last point
    e, ok, _ = fit.fit(fit.estimator(fl[0], fl[1], alpha=[1.0, 0.0], alpha_search=True, gradient_tol=1e-7), X, y, sample_weight=w, offset=off, store_covariance_matrix=True)
    if good(fl, e, X, off):
        W = want(fl, X, y, w, off, True, e.coef_, e.intercept_)
        ctx.check(close(e.covariance_matrix(), W, 1e-6), "path", "")
        ctx.check(close(e.covariance_matrix(X, y, sample_weight=w, offset=off), W, 1e-6), "path-later", "")


def run_frames(case, ctx):
    """Categorical frames and formulas."""
    fl = (case["fam"], case["link"])
    n = 14
    c = np.array([0, 1, 2, 0, 1, 2, 2, 1, 0, 0, 1, 2, 2, 0])
    z = data.X("corr")[:, 2].copy()
    y = np.asarray(data.y("cats", fl[0]), float)
    w, off = np.resize([1.0, 2.0, 0.5], n), np.resize([0.2, -0.1, 0.4], n)
    df = pd.DataFrame({"c": pd.Categorical(np.array(["a", "b", "cc"])[c]), "z": z, "y": y}, index=np.arange(n)[::-1])
    X = np.hstack([(c[:, None] == np.arange(3))[:, 1:].astype(float), z[:, None]])
    clus = np.resize([1, 5, 2, 2], n)
    variants = {
        "frame": (dict(drop_first=True), df[["c", "z"]], y), "formula1": (dict(formula="c + z", drop_first=True), df, y),
        "formula2": (dict(formula="y ~ c + z", drop_first=True), df, None),
    }
    for nm, (kw, Z, yy) in variants.items():
        for store in (False, True):
            for cc in (None, clus):
                e = fit.estimator(fl[0], fl[1], alpha=0, gradient_tol=1e-7, max_iter=300, **kw)
                e, ok, _ = fit.fit(e, Z, yy, sample_weight=w, offset=off, store_covariance_matrix=store, clusters=cc)
                ctx.op(2)
                ctx.state(case, nm, store, cc is None)
                if not good(fl, e, X, off) or ill(fl, X, y, w, off, True, e.coef_, e.intercept_):
                    ctx.skipped += 1
                    continue
                W = want(fl, X, y, w, off, True, e.coef_, e.intercept_, clusters=None if cc is None else cc.tolist())
                if store:
                    ctx.check(close(e.covariance_matrix(), W, 1e-6), f"stored:{nm}", lambda: f"{np.diag(e.covariance_matrix())} instead of {np.diag(W)}")
                V = e.covariance_matrix(Z, yy, sample_weight=w, offset=off, clusters=cc)
                ctx.check(close(V, W, 1e-6), f"later:{nm}", lambda: f"{np.diag(V)} instead of {np.diag(W)}")
                # on other rows, with the fitted coefficients
                r = np.r_[0:9, 11:14]
                F = want(fl, X[r], y[r], w[r], off[r], True, e.coef_, e.intercept_, robust=False)
                V = e.covariance_matrix(Z.iloc[r], None if yy is None else y[r], sample_weight=w[r], offset=off[r], robust=False)
                ctx.check(close(V, F, 1e-6), f"other-rows:{nm}", "")
                ctx.outcome(nm, np.round(np.log(np.diag(W)), 2).tolist())
                ctx.trace()


def run(case, ctx):
    globals()["run_" + case["block"]](case, ctx)
