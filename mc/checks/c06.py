"""C06: weights as repetition counts; permutation and scale invariance.

Differential: the real fit with weights w against the real fit on the data in
which row i is written w_i times (and never when w_i = 0).
"""

import itertools

import numpy as np

from .. import data, fit, g, ref

ID = "C06"
RULE = (
    "Every weight vector of {0,1,2}^n (n = 5, and a longer table with a fixed list of vectors) for every "
    "configuration of a finite product of family, link, solver, scaling, intercept, penalty; every row "
    "permutation of five rows, every column permutation; a list of constant factors. A state is one "
    "(configuration, weight vector or permutation); a transition one real fit."
)
ASSUMPTIONS = [
    "weight vectors that leave fewer than two distinct rows are not covered",
    "solutions are compared to 1e-5 relative (5e-4 for the gradient-based solvers) after fitting both sides to a tight tolerance",
]

FAMLINK = [("normal", "identity"), ("poisson", "log"), ("gamma", "log"), ("binomial", "logit"), ("tweedie:1.5", "log"),
           ("invgauss", "log"), ("ghs", "identity"), ("negbin:1", "log"), ("binomial", "cloglog"), ("gamma", "identity"),
           ("normal", "log"), ("tweedie:2.5", "log")]
ISC = [(True, False), (True, True), (False, False)]
PEN = {"ridge": dict(alpha=0.1, l1_ratio=0.0), "enet": dict(alpha=0.05, l1_ratio=0.5), "lasso": dict(alpha=0.03, l1_ratio=1.0)}


def cases(tier):
    out = []
    # every vector of {0,1,2}^5
    for fl in FAMLINK[: 8 if tier == "quick" else 12]:
        for first in (0, 1, 2) if tier != "quick" else (0, 1, 2):
            out.append(dict(block="cube", fam=fl[0], link=fl[1], first=first))
    for fl in FAMLINK:
        for solver in ("auto", "irls-ls", "irls-cd", "lbfgs", "trust-constr"):
            for isc in ISC:
                if fl == ("gamma", "identity") and not isc[0]:
                    continue  # no admissible start: every coefficient zero is mean zero
                pens = [p for p in PEN if not (p != "ridge" and solver in ("irls-ls", "lbfgs", "trust-constr"))]
                if tier == "quick":
                    if solver in ("lbfgs", "trust-constr") and isc[1]:
                        continue
                    if solver == "irls-cd":
                        pens = ["lasso"]
                    if solver == "auto":
                        pens = ["enet"]
                for p in pens:
                    out.append(dict(block="product", fam=fl[0], link=fl[1], solver=solver, isc=list(isc), pen=p))
    for fl in FAMLINK[:8]:
        out.append(dict(block="path", fam=fl[0], link=fl[1]))
        out.append(dict(block="metrics", fam=fl[0], link=fl[1]))
        for pen in ("ridge", "enet"):
            out.append(dict(block="perm", fam=fl[0], link=fl[1], pen=pen))
        for solver in ("irls-ls", "irls-cd"):
            out.append(dict(block="colperm", fam=fl[0], link=fl[1], solver=solver))
    return out


def close(a, b, t):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= t * (1 + np.abs(b))))


def go(ctx, fl, X, y, w, tol, off=None, **kw):
    kw.setdefault("gradient_tol", tol)
    kw.setdefault("max_iter", 1000)
    est = fit.estimator(fl[0], fl[1], **kw)
    ctx.op()
    est, ok, msgs = fit.fit(est, X, y, sample_weight=w, **({} if off is None else dict(offset=off)))
    return est, ok


def pair(ctx, case, fl, X, y, wi, off=None, tol=1e-9, eq=1e-5, sig="", **kw):
    """weights wi against repeated rows."""
    rep = np.repeat(np.arange(len(y)), wi)
    a, oka = go(ctx, fl, X, y, np.asarray(wi, float), tol, off, **kw)
    b, okb = go(ctx, fl, X[rep], y[rep], None, tol, None if off is None else off[rep], **kw)
    ctx.state(case, list(map(int, wi)))
    if not (oka and okb):
        ctx.note("not converged")
        if oka != okb:
            ctx.note("convergence differs")
        return None
    ctx.outcome(np.round(a.coef_, 3).tolist())
    ctx.check(close(a.coef_, b.coef_, eq) and close(a.intercept_, b.intercept_, eq), f"repetition:{sig}",
              lambda: f"w={list(wi)} weighted {a.intercept_} {a.coef_} repeated {b.intercept_} {b.coef_}")
    ctx.trace()
    return a, b, rep


def run_cube(case, ctx):
    fl = (case["fam"], case["link"])
    sel = [0, 2, 3, 4, 7]
    X, y = data.X("three")[sel][:, [0, 1]], np.asarray(data.y("three", fl[0]), float)[sel]
    if fl[0] == "binomial":
        y = np.array([1.0, 0.0, 1.0, 0.0, 1.0])
    for rest in itertools.product((0, 1, 2), repeat=4):
        w = np.array((case["first"],) + rest)
        if (w > 0).sum() < 2 or np.ptp(y[w > 0]) == 0 or y[w > 0].max() <= 0:
            continue
        for kw in (dict(alpha=0.2, l1_ratio=0.0), dict(alpha=0.05, l1_ratio=0.6)):
            pair(ctx, case, fl, X, y, w, sig="cube:" + fl[0], **kw)


def wvecs(n):
    base = [np.resize([1, 2, 1, 3], n), np.resize([2, 1, 0, 1, 1], n), np.resize([1, 1, 1, 1, 1, 7], n)]
    z = np.ones(n, int)
    z[n // 2:] = 2
    z[0] = 0
    base.append(z)
    base.append(np.ones(n, int) * 3)
    return base


def run_product(case, ctx):
    fl, solver = (case["fam"], case["link"]), case["solver"]
    icpt, scale = case["isc"]
    loose = solver in ("lbfgs", "trust-constr")
    kw = dict(PEN[case["pen"]], solver=solver, fit_intercept=icpt, scale_predictors=scale)
    for kind, offk in (("three", None), ("onehot", "varied")):
        X, y, off = data.X(kind), np.asarray(data.y(kind, fl[0]), float), data.offset(kind, offk)
        for wi in wvecs(len(y))[: 3 if loose else 5]:
            pair(ctx, case, fl, X, y, wi, off, tol=1e-7 if loose else 1e-9, eq=5e-4 if loose else 1e-5,
                 sig=f"{solver}", **kw)
        # a row of weight zero may hold anything that is valid on its own
        Xz, yz = np.vstack([X, X[:1] * 0 + 4.0]), np.append(y, y[2])
        wz = np.append(np.resize([1.0, 2.5, 0.5], len(y)), 0.0)
        oz = None if off is None else np.append(off, 1.5)
        a, oka = go(ctx, fl, Xz, yz, wz, 1e-7 if loose else 1e-9, oz, **kw)
        b, okb = go(ctx, fl, X, y, wz[:-1], 1e-7 if loose else 1e-9, off, **kw)
        ctx.state(case, kind, "zero row")
        if oka and okb:
            ctx.check(close(a.coef_, b.coef_, 5e-4 if loose else 1e-5) and close(a.intercept_, b.intercept_, 5e-4 if loose else 1e-5),
                      f"zero-row:{solver}", lambda: f"{a.coef_} {b.coef_}")
        else:
            ctx.note("not converged")
        # constant factors
        w0 = np.resize([1.0, 2.5, 0.5], len(y))
        b, okb = go(ctx, fl, X, y, w0, 1e-7 if loose else 1e-9, off, **kw)
        for c in (1e-12, 1e-6, 0.1, 3.0, 1e5, 1e12):
            a, oka = go(ctx, fl, X, y, w0 * c, 1e-7 if loose else 1e-9, off, **kw)
            ctx.state(case, kind, c)
            if oka and okb:
                ctx.check(close(a.coef_, b.coef_, 5e-4 if loose else 1e-6) and close(a.intercept_, b.intercept_, 5e-4 if loose else 1e-6),
                          f"factor:{solver}", lambda: f"factor {c}: {a.coef_} {b.coef_}")
            else:
                ctx.note("not converged")
            ctx.trace()
        # one weight for all rows, in every documented form, is no weight
        b, okb = go(ctx, fl, X, y, None, 1e-7 if loose else 1e-9, off, **kw)
        for c in (1, 2.5, np.full(len(y), 4), np.full(len(y), 0.25, np.float32), [2] * len(y)):
            a, oka = go(ctx, fl, X, y, c, 1e-7 if loose else 1e-9, off, **kw)
            if oka and okb:
                ctx.check(close(a.coef_, b.coef_, 5e-4 if loose else 1e-6) and close(a.intercept_, b.intercept_, 5e-4 if loose else 1e-6),
                          f"constant-weight:{solver}", lambda: f"{c}: {a.coef_} {b.coef_}")
            ctx.trace()


def run_path(case, ctx):
    fl = (case["fam"], case["link"])
    for kind, offk in (("three", None), ("onehot", "varied"), ("scales", None)):
        X, y, off = data.X(kind), np.asarray(data.y(kind, fl[0]), float), data.offset(kind, offk)
        for isc in ISC:
            for l1 in (1.0, 0.5, 0.0):
                for wi in wvecs(len(y))[:4]:
                    kw = dict(alpha_search=True, l1_ratio=l1, n_alphas=4, min_alpha_ratio=0.05, fit_intercept=isc[0], scale_predictors=isc[1])
                    r = pair(ctx, [case, kind, isc, l1], fl, X, y, wi, off, sig="path-last", **kw)
                    if r is None:
                        continue
                    a, b, rep = r
                    ctx.check(g.close(a._alphas, b._alphas, 1e-6), "path-alphas", lambda: f"w={wi.tolist()} {a._alphas} {b._alphas}")
                    ctx.check(close(a.coef_path_, b.coef_path_, 1e-5) and close(a.intercept_path_, b.intercept_path_, 1e-5), "path",
                              lambda: f"w={wi.tolist()} {a.coef_path_} {b.coef_path_}")


def run_metrics(case, ctx):
    fl = (case["fam"], case["link"])
    F = g.family(fl[0])
    for kind, offk in (("three", None), ("onehot", "varied"), ("tall", None)):
        X, y, off = data.X(kind), np.asarray(data.y(kind, fl[0]), float), data.offset(kind, offk)
        est, ok = go(ctx, fl, X, y, None, 1e-8, off, alpha=0.1)
        mu = np.asarray(est.predict(X, offset=off))
        ws = wvecs(len(y)) + [np.resize(v, len(y)) for v in itertools.product((0, 1, 3), repeat=3) if sum(v)]
        for wi in ws:
            rep = np.repeat(np.arange(len(y)), wi)
            orep = None if off is None else off[rep]
            w = np.asarray(wi, float)
            ctx.op(8)
            ctx.state(case, kind, wi.tolist())
            if np.ptp(y[rep]) > 0:
                s1, s2 = est.score(X, y, sample_weight=w, offset=off), est.score(X[rep], y[rep], offset=orep)
                ctx.check(g.close(s1, s2, 1e-8), "score", lambda: f"{wi.tolist()} {s1} {s2}")
                ctx.check(g.close(s1, est.score(X, y, sample_weight=w * 8.5, offset=off), 1e-8), "score-factor", "")
                ctx.check(g.close(est.score(X, y, sample_weight=2, offset=off), est.score(X, y, offset=off), 1e-8), "score-constant", "")
            d1, d2 = F.deviance(y, mu, w), F.deviance(y[rep], mu[rep])
            ctx.check(g.close(d1, d2, 1e-9), "deviance", lambda: f"{d1} {d2}")
            if ref.Fam(fl[0]).kind not in ("ghs",) and fl[0] != "tweedie:2.5":
                l1, l2 = F.log_likelihood(y, mu, w, dispersion=0.7), F.log_likelihood(y[rep], mu[rep], dispersion=0.7)
                ctx.check(g.close(l1, l2, 1e-9), "log-likelihood", lambda: f"{l1} {l2}")
            ctx.outcome(round(float(d1), 4))
            ctx.trace()


def run_perm(case, ctx):
    fl = (case["fam"], case["link"])
    X, y = data.X("three"), np.asarray(data.y("three", fl[0]), float)
    w, off = data.weights("three", "varied"), data.offset("three", "varied")
    kw = dict(PEN[case["pen"]])
    sel = np.array([0, 1, 2, 3, 4])
    n = len(y)
    b, okb = go(ctx, fl, X, y, w, 1e-9, off, **kw)
    perms = []
    for p in itertools.permutations(range(5)):  # every order of the first five rows
        perms.append(np.concatenate([sel[list(p)], np.arange(5, n)]))
    perms += [np.roll(np.arange(n), k) for k in range(1, n)] + [np.arange(n)[::-1]]
    for p in perms:
        a, oka = go(ctx, fl, X[p], y[p], w[p], 1e-9, off[p], **kw)
        ctx.state(case, p.tolist())
        if oka and okb:
            ctx.check(close(a.coef_, b.coef_, 1e-6) and close(a.intercept_, b.intercept_, 1e-6), "row-permutation",
                      lambda: f"{p.tolist()}: {a.coef_} {b.coef_}")
        s = a.score(X, y, sample_weight=w, offset=off)
        s2 = b.score(X[p], y[p], sample_weight=w[p], offset=off[p])
        ctx.check(close(s, s2, 1e-6), "row-permutation-score", lambda: f"{s} {s2}")
        ctx.check(close(a.std_errors(X[p], y[p], sample_weight=w[p], offset=off[p]), b.std_errors(X, y, sample_weight=w, offset=off), 1e-5)
                  if kw["l1_ratio"] == 0 and p[0] > 2 else True, "row-permutation-se", "")
        ctx.trace()


def run_colperm(case, ctx):
    fl, solver = (case["fam"], case["link"]), case["solver"]
    for kind in ("three", "corr"):
        X, y = data.X(kind), np.asarray(data.y(kind, fl[0]), float)
        w = data.weights(kind, "varied")
        k = X.shape[1]
        P2 = data.P2_dense(k)
        lb = np.full(k, -np.inf)
        ub = np.full(k, np.inf)
        lb[0], ub[1] = 0.05, -0.01
        for isc in ISC:
            for pen in ("vec", "mat", "bounds"):
                if pen == "bounds" and solver != "irls-cd":
                    continue

                def kws(p):
                    if pen == "vec":
                        d = dict(alpha=0.1, P2=data.vec2(k)[p] + 0.1)
                        if solver == "irls-cd":
                            d.update(l1_ratio=0.5, P1=data.vec1(k)[p])
                        return d
                    if pen == "mat":
                        d = dict(alpha=0.1, P2=P2[np.ix_(p, p)])
                        if solver == "irls-cd":
                            d.update(l1_ratio=0.3)
                        return d
                    return dict(alpha=0.1, lower_bounds=lb[p], upper_bounds=ub[p])

                base = dict(solver=solver, fit_intercept=isc[0], scale_predictors=isc[1])
                b, okb = go(ctx, fl, X, y, w, 1e-9, None, **base, **kws(np.arange(k)))
                for p in itertools.permutations(range(k)):
                    p = np.array(p)
                    a, oka = go(ctx, fl, X[:, p], y, w, 1e-9, None, **base, **kws(p))
                    ctx.state(case, kind, isc, pen, p.tolist())
                    if oka and okb:
                        ctx.check(close(a.coef_, b.coef_[p], 2e-5) and close(a.intercept_, b.intercept_, 2e-5), f"column-permutation:{pen}",
                                  lambda: f"{kind} {isc} {p.tolist()}: {a.coef_} {b.coef_[p]}")
                    else:
                        ctx.note("not converged")
                    ctx.outcome(np.round(a.coef_, 3).tolist())
                    ctx.trace()


def run(case, ctx):
    globals()["run_" + case["block"]](case, ctx)
