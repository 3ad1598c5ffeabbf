"""C20: the answer does not depend on where the search starts."""

import itertools

import glum
import numpy as np
import pandas as pd
import scipy.sparse as sps

from .. import data, fit, g, ref
from .c21 import make, tols, usable

ID = "C20"
RULE = (
    "For every strictly convex problem of a finite grid (family, link, table, solver, scaling, intercept, "
    "penalty, weights, offset, bounds) the fit is repeated from every start of an alphabet (default, zeros, "
    "ones, alternating, far, the optimum, near it, all in original units and in every documented form) and "
    "warm-started from every earlier fit of an alphabet (other penalty, data, weights, scaling, intercept, "
    "solver, family, path), and compared with the default start. A state is one (problem, start) or "
    "history, a transition one fit."
)
ASSUMPTIONS = [
    "starts whose fit reports no convergence are outside the premise",
    "a search by scipy that overflows and raises has reported no convergence",
    "the optimum of the default start is verified against the optimality conditions of the documented objective",
]

FAMS = [("normal", "identity"), ("poisson", "log"), ("gamma", "log"), ("tweedie:1.5", "log"),
        ("binomial", "logit"), ("negbin:1", "log"), ("binomial", "cloglog")]
MORE = [("tweedie:0", "identity"), ("tweedie:2", "log"), ("tweedie:1.2", "log"), ("negbin:0.3", "log"),
        ("tweedie:1", "log"), ("normal", "tweedie:0")]
ISC = [(True, False), (True, True), (False, False)]
PENS = [(0, 0, "identity", "identity"), (0.05, 0.0, "identity", "identity"), (0.05, 0.5, "identity", "identity"),
        (0.03, 1.0, "vec", "identity"), (0.05, 0.3, "vec", "dense"), (0.08, 0.0, "identity", "vec"), (0.3, 1.0, "identity", "identity")]


def cases(tier):
    deep = tier == "thorough"
    tabs = ["three", "corr", "scales", "one", "const"] + (["onehot", "sparse", "tall"] if deep else [])
    out = []
    for f, lk in FAMS + (MORE if deep else []):
        for t in tabs:
            if t == "scales" and not deep and f not in ("normal", "poisson", "binomial"):
                continue
            for fi, sp in ISC:
                if t == "const" and (not fi or not deep and f not in ("normal", "poisson", "binomial")):
                    continue
                out.append(dict(block="starts", fam=f, link=lk, table=t, fi=fi, sp=sp))
    for f, lk in FAMS if deep else FAMS[:5]:
        for fi, sp in ISC:
            out.append(dict(block="warm", fam=f, link=lk, fi=fi, sp=sp))
            out.append(dict(block="path", fam=f, link=lk, table="three", fi=fi, sp=sp))
            out.append(dict(block="cv", fam=f, link=lk, table="three", fi=fi, sp=sp))
    for c in out:
        c["deep"] = deep
    return out


def solvers(l1, bounds):
    if l1 or bounds:
        return ["auto", "irls-cd"]
    return ["auto", "irls-ls", "irls-cd", "lbfgs", "trust-constr"]


def starts(X, opt, icpt, fi, far):
    """Start vectors in original units, by name."""
    p = X.shape[1]
    sd = np.where(X.std(0) > 0, X.std(0), 1.0)
    m = X.mean(0)

    def mk(slopes, centre):  # slopes per standard deviation; the intercept keeps eta near `centre`
        c = np.asarray(slopes, float) / sd
        return np.concatenate(([centre - m @ c], c)) if fi else c

    best = np.concatenate(([icpt], opt)) if fi else opt.copy()
    alt = np.resize([1.0, -1.0], p)
    unit = np.zeros(p)
    unit[-1] = 1.0
    out = {
        "zeros": np.zeros(p + fi), "ones": mk(0.3 * np.ones(p), 0.2), "alt": mk(0.4 * alt, -0.3),
        "unit": mk(0.5 * unit, 0.5), "opt": best, "near": best * 1.02, "half": best * 0.5,
        "neg": mk(-0.2 * np.ones(p), 0.1), "tiny": best * 0 + 1e-9,
    }
    if far:
        out["far"] = mk(1.0 * alt, 1.5)
        out["far2"] = mk(-1.0 * np.ones(p), -1.5)
    return out


def vforms(v):
    big = np.zeros(2 * len(v))
    big[::2] = v
    ro = v.copy()
    ro.flags.writeable = False
    return {"array": v.copy(), "list": list(v), "tuple": tuple(v), "strided": big[::2], "readonly": ro,
            "series": pd.Series(v, index=np.arange(len(v))[::-1])}


def equal(ctx, sig, a, ci, tol, what, scale=None):
    coef, icpt = ci
    s = np.ones(len(coef)) if scale is None else scale
    sc = 1 + np.abs(coef * s).max() + abs(icpt)
    e = max(np.abs((a.coef_ - coef) * s).max(), abs(a.intercept_ - icpt)) / sc
    ctx.outcome(sig, np.round(a.coef_, 3).tolist())
    ctx.check(e <= tol, sig, lambda: f"{what}: {a.coef_} {a.intercept_} instead of {coef} {icpt} (error {e:.2e})")
    ctx.trace()


def problems(case, quick_step):
    f, t, fi, sp = (case[k] for k in ("fam", "table", "fi", "sp"))
    k = -1
    for (alpha, l1, P1, P2), wt, bd, off in itertools.product(PENS, ("none", "varied", "zeros"), (None, "box"), ("none", "varied")):
        if not usable(f, case["link"], t, alpha, l1, P1, P2, fi) or (l1 == 1 and alpha > 0.1 and t == "corr" and f == "binomial"):
            continue
        if t == "const" and (alpha == 0 or l1 == 1 or "vec" in (P1, P2)):
            continue  # the constant column needs its own curvature
        for s in solvers(l1 > 0 and alpha > 0, bd is not None):
            k += 1
            if not case["deep"] and k % quick_step:
                continue
            yield k, alpha, l1, P1, P2, wt, bd, off, s


def bounds(bd, p, coef=None):
    if bd is None:
        return {}
    lo, up = np.full(p, -np.inf), np.full(p, np.inf)
    lo[0], up[0] = -0.2, 0.1
    lo[-1] = -0.05
    return dict(lower_bounds=lo, upper_bounds=up)


def run_starts(case, ctx):
    f, lk, t, fi, sp = (case[k] for k in ("fam", "link", "table", "fi", "sp"))
    X, y = data.X(t), data.y(t, f)
    n, p = X.shape
    sdx = np.where(X.std(0) > 0, X.std(0), 1.0)
    for k, alpha, l1, P1, P2, wt, bd, off, s in problems(case, 7):
        w, o = data.weights(t, wt), data.offset(t, off)
        kw, tol = tols(s)
        if t == "scales" and s in ("lbfgs", "trust-constr") and not sp:
            continue  # raw units three orders of magnitude apart: the quasi-Newton searches stop early
        kw.update(alpha=alpha, l1_ratio=l1, fit_intercept=fi, scale_predictors=sp, P1=fit.make_P1(P1, p), P2=fit.make_P2(P2, p))
        bkw = bounds(bd, p)
        ref0, ok, _ = fit.fit(make(f, lk, **dict(kw, **tols("auto")[0]), **bkw), X, y, sample_weight=w, offset=o)
        ctx.op()
        if not ok:
            ctx.skipped += 1
            continue
        opt = (ref0.coef_.copy(), float(ref0.intercept_))
        if lk == "cloglog" and np.max(X @ opt[0] + opt[1] + (0 if o is None else o)) > 2.5:
            ctx.skipped += 1  # means that round to one
            continue
        res, sc, _ = fit.kkt(f, lk, X, y, w, o, *opt, alpha=alpha, l1_ratio=l1, P1=kw["P1"], P2=kw["P2"],
                             fit_intercept=fi, scale=sp, lb=bkw.get("lower_bounds"), ub=bkw.get("upper_bounds"))
        ctx.check(np.all(np.abs(res) <= 1e-7 * sc * (1 + np.abs(X).max())), f"reference:{f}", lambda: f"{kw} {wt} {bd} {off}: {res}")
        what0 = f"{kw} w={wt} off={off} bounds={bd} solver={s}"
        for name, v in starts(X, *opt, fi, far=True).items():
            if name in ("far", "far2") and (lk == "cloglog" or s in ("lbfgs", "trust-constr") or f.startswith("tweedie") or f == "gamma"):
                continue
            if lk == "cloglog" and np.max(X @ v[int(fi):] + (v[0] if fi else 0)) > 2:
                continue  # means that round to one
            forms = vforms(v) if name in ("alt", "opt") else {"array": v.copy()}
            for fn, V in forms.items():
                if fn != "array" and s != "auto":
                    continue
                keep = np.array(V, float)
                if s in ("auto", "irls-ls", "irls-cd"):
                    kw["max_iter"] = 200  # a diverging search takes seconds per thousand iterations
                a, ok, msg = fit.fit(make(f, lk, solver=s, start_params=V, **kw, **bkw), X, y, sample_weight=w, offset=o)
                ctx.op()
                ctx.state(f, lk, t, fi, sp, k, name, fn)
                what = f"{what0} start={name}/{fn}"
                ctx.check(a.start_params is V and np.array_equal(np.array(V, float), keep), "start-changed", what)
                if not ok:
                    ctx.skipped += 1
                    ctx.note(f"unconverged:{f}:{s}:{name}")
                    continue
                equal(ctx, f"start:{name}:{f}:{s}", a, opt, tol, what, sdx)
                if name == "opt" and s in ("auto", "irls-ls", "irls-cd", "lbfgs"):
                    # from the optimum the search has nothing left to do
                    b, ok, _ = fit.fit(make(f, lk, **dict(kw, gradient_tol=1e-6), solver=s, start_params=V, **bkw), X, y, sample_weight=w, offset=o)
                    ctx.op()
                    ctx.check(ok and b.n_iter_ <= 1, f"iterates-away:{f}:{s}", f"{what} n_iter={b.n_iter_}")
                    equal(ctx, f"stay:{f}:{s}", b, opt, 1e-6 if s != "lbfgs" else 1e-5, what, sdx)
        # single precision starts and data
        if s == "auto":
            v = starts(X, *opt, fi, False)["alt"].astype("f")
            if lk == "cloglog":
                v = (0.9 * starts(X, *opt, fi, False)["opt"]).astype("f")
            a, ok, _ = fit.fit(make(f, lk, solver=s, start_params=v, **kw, **bkw), X, y, sample_weight=w, offset=o)
            ctx.op()
            equal(ctx, f"start:f32:{f}", a, opt, tol, what0, sdx)
            # a solver-independent fact: one more fit from the result (warm) stays there
            a.set_params(warm_start=True, start_params=starts(X, *opt, fi, False)["neg"], gradient_tol=1e-6)
            held = (a.coef_, a.coef_.copy(), a.start_params.copy())
            fit.fit(a, X, y, sample_weight=w, offset=o)
            ctx.op()
            ctx.check(a.n_iter_ <= 1, f"warm-iterates:{f}", lambda: f"{what0} n_iter={a.n_iter_}")
            equal(ctx, f"warm-stay:{f}", a, opt, 1e-6, what0, sdx)
            ctx.check(np.array_equal(*held[:2]) and np.array_equal(a.start_params, held[2]), "warm-changed-held", what0)


def histories(case):
    """Earlier fits: (name, parameters changed, data key)."""
    return {
        "same": ({}, "A"), "alpha": (dict(alpha=2.0), "A"), "alpha0": (dict(alpha=0.001), "A"), "l1": (dict(alpha=0.2, l1_ratio=1.0), "A"),
        "unscaled": (dict(scale_predictors=False), "A"), "scaled": (dict(scale_predictors=True, fit_intercept=True), "A"),
        "noicpt": (dict(fit_intercept=False, scale_predictors=False), "A"), "icpt": (dict(fit_intercept=True), "A"),
        "lbfgs": (dict(solver="lbfgs", l1_ratio=0, lower_bounds=None), "A"), "y": ({}, "B"), "weights": ({}, "W"), "offset": ({}, "O"),
        "path": (dict(alpha_search=True, alpha=[0.5, 0.1, 0.01]), "A"), "autopath": (dict(alpha_search=True, alpha=None, n_alphas=4, l1_ratio=0.5), "A"),
        "sparse": ({}, "S"), "few": (dict(max_iter=1), "A"), "bounded": (dict(lower_bounds=np.array([-0.1, 0.0, -1.0]), solver="irls-cd"), "A"),
        "start": (dict(start_params="alt"), "A"), "f32": ({}, "F"), "frame": ({}, "D"), "family": (dict(family="normal", link="identity"), "A"),
    }


def run_warm(case, ctx):
    f, lk, fi, sp = (case[k] for k in ("fam", "link", "fi", "sp"))
    t = "three"
    X, y = data.X(t), data.y(t, f)
    n, p = X.shape
    sdx = X.std(0)
    yB = np.roll(y, 3)
    D = {"A": (X, y, {}), "B": (X, yB, {}), "W": (X, y, dict(sample_weight=data.weights(t, "varied"))),
         "O": (X, y, dict(offset=data.offset(t, "varied"))), "S": (sps.csc_matrix(X), y, {}), "F": (X.astype("f"), y.astype("f"), {}),
         "D": (pd.DataFrame(X, columns=list("abc")), y, {})}
    finals = {
        "ridge": dict(alpha=0.05, l1_ratio=0.0), "lasso": dict(alpha=0.03, l1_ratio=1.0), "net": dict(alpha=0.05, l1_ratio=0.5),
        "cd": dict(alpha=0.05, solver="irls-cd"), "box": dict(alpha=0.05, l1_ratio=0.3, lower_bounds=np.array([-0.2, -0.3, 0.0]), upper_bounds=np.array([0.1, 0.3, 0.2])),
        "P2": dict(alpha=0.05, P2=data.P2_dense(p)), "lbfgs": dict(alpha=0.05, solver="lbfgs"),
        "Arows": dict(alpha=0.05, A_ineq=np.array([[1.0, 1.0, 0.0]]), b_ineq=np.array([0.05])),
    }
    H = histories(case)
    depth2 = [(h,) for h in H] + list(itertools.permutations(list(H) if case["deep"] else ["alpha", "l1", "unscaled", "scaled", "noicpt", "path", "y", "f32"], 2))
    base = dict(fit_intercept=fi, scale_predictors=sp, family=g.family(f), link=g.link(lk))
    for fn, fkw in finals.items():
        tkw, tol = tols(fkw.get("solver", "auto"))
        if fn == "Arows":
            tol = 8e-2
            tkw = dict(gradient_tol=1e-7, max_iter=2000)
        defaults = dict(glum.GeneralizedLinearRegressor().get_params(), **base, **tkw)
        final = dict(defaults, **fkw)
        cold, ok, _ = fit.fit(glum.GeneralizedLinearRegressor(**final), X, y)
        ctx.op()
        if not ok:
            ctx.skipped += 1
            continue
        opt = (cold.coef_.copy(), float(cold.intercept_))
        st = starts(X, *opt, fi, False)
        for hist in depth2:
            if fn not in ("ridge", "lasso", "box") and len(hist) > 1 and not case["deep"]:
                continue
            for extra in ("none", "start") if len(hist) == 1 else ("none",):
                est = None
                okh = True
                for h in hist:
                    hk, dk = H[h]
                    hk = dict(hk)
                    if hk.get("link"):
                        hk["family"], hk["link"] = g.family(hk["family"]), g.link(hk["link"])
                    pars = dict(defaults, **{k: v for k, v in fkw.items() if k in ("alpha", "l1_ratio")}, **{})
                    pars.update(hk)
                    if pars["start_params"] == "alt" if isinstance(pars["start_params"], str) else False:
                        pars["start_params"] = np.full(p + pars["fit_intercept"], 0.1)
                    if pars["solver"] == "lbfgs":
                        pars["l1_ratio"] = 0
                    if pars["scale_predictors"] and not pars["fit_intercept"]:
                        pars["scale_predictors"] = False
                    pars.update(warm_start=True, gradient_tol=1e-4 if dk == "F" else 1e-6, max_iter=min(pars["max_iter"], 200))
                    if est is None:
                        est = glum.GeneralizedLinearRegressor(**pars)
                    else:
                        est.set_params(**pars)
                    Xh, yh, dkw = D[dk]
                    fit.fit(est, Xh, yh, **dkw)
                    ctx.op()
                held = (est.coef_, est.coef_.copy(), getattr(est, "coef_path_", None), est.intercept_)
                heldp = None if held[2] is None else held[2].copy()
                pars = dict(final, warm_start=True)
                if extra == "start":
                    pars["start_params"] = st["alt"].copy()
                est.set_params(**pars)
                ctx.op()
                ctx.state(f, lk, fi, sp, fn, hist, extra)
                try:
                    a, ok, _ = fit.fit(est, X, y)
                except ValueError as e:
                    if fn != "Arows" or "infs or NaNs" not in str(e):
                        raise
                    ok = False  # scipy's search overflowed: no answer, and it says so
                what = f"final={fn} history={hist} {extra}"
                ctx.check(np.array_equal(held[0], held[1]), "earlier-coef-changed", what)
                ctx.check(heldp is None or np.array_equal(held[2], heldp), "earlier-path-changed", what)
                if extra == "start":
                    ctx.check(np.array_equal(est.start_params, st["alt"]), "start-params-changed", what)
                if not ok:
                    ctx.skipped += 1
                    ctx.note(f"warm-unconverged:{fn}:{hist[-1]}")
                    continue
                equal(ctx, f"warm:{fn}:{hist[-1]}", a, opt, tol, what, sdx)
        # warm starts supersede start values; without them start values are used
        if fn in ("Arows",):
            continue
        est = glum.GeneralizedLinearRegressor(**dict(final, start_params=st["alt"]))
        fit.fit(est, X, y)
        ctx.op()
        n_cold = est.n_iter_
        loose = dict(gradient_tol=1e-5)
        est.set_params(warm_start=True, **loose)
        fit.fit(est, X, y)
        n_warm = est.n_iter_
        est.set_params(warm_start=False, **loose)
        fit.fit(est, X, y)
        n_start = est.n_iter_
        ctx.op(2)
        ctx.check(n_warm <= 1, "superseded", f"{fn}: {n_warm} iterations from the earlier optimum")
        quadratic = lk == "identity" and fn in ("ridge", "P2")
        ctx.check(n_start > n_warm or quadratic, "start-ignored", f"{fn}: {n_start} vs {n_warm} iterations, cold {n_cold}")
        # before the first fit a warm start uses the start values
        est = glum.GeneralizedLinearRegressor(**dict(final, start_params=st["opt"], warm_start=True, **loose))
        fit.fit(est, X, y)
        ctx.op()
        ctx.check(est.n_iter_ <= 1, "first-warm", f"{fn}: {est.n_iter_}")


def run_path(case, ctx):
    f, lk, t, fi, sp = (case[k] for k in ("fam", "link", "table", "fi", "sp"))
    X, y = data.X(t), data.y(t, f)
    n, p = X.shape
    for l1, al, wt, s in itertools.product((0.0, 0.5, 1.0), ("auto", "given"), ("none", "varied"), ("auto", "irls-cd", "lbfgs")):
        if l1 == 0 and al == "auto" or (s == "lbfgs" and l1 > 0):
            continue
        w = data.weights(t, wt)
        kw, tol = tols(s)
        kw.update(alpha_search=True, l1_ratio=l1, fit_intercept=fi, scale_predictors=sp, solver=s)
        kw.update(dict(alpha=[0.3, 0.1, 0.02]) if al == "given" else dict(n_alphas=5, min_alpha_ratio=0.05))
        a0, ok, _ = fit.fit(make(f, lk, **kw), X, y, sample_weight=w)
        ctx.op()
        if not ok:
            ctx.skipped += 1
            continue
        S = starts(X, a0.coef_, float(a0.intercept_), fi, False)
        for name, v in S.items():
            for warm in (False, True):
                keep = v.copy()
                a, ok, _ = fit.fit(make(f, lk, start_params=v, warm_start=warm, **kw), X, y, sample_weight=w)
                ctx.op()
                ctx.state(f, fi, sp, l1, al, wt, s, name, warm)
                if warm:  # a second fit starts from the end of the path
                    held = (a.coef_path_, a.coef_path_.copy(), a.coef_, a.coef_.copy())
                    a, ok, _ = fit.fit(a, X, y, sample_weight=w)
                    ctx.op()
                    ctx.check(np.array_equal(*held[:2]) and np.array_equal(*held[2:]), "path-held-changed", f"{kw} {name}")
                if not ok:
                    ctx.skipped += 1
                    continue
                ctx.check(np.array_equal(v, keep), "path-start-changed", f"{kw} {name}")
                what = f"{kw} w={wt} start={name} warm={warm}"
                ctx.check(g.close(a._alphas, a0._alphas, 1e-9), "path-alphas", what)
                ctx.check(g.close(a.coef_path_, a0.coef_path_, tol, 5 * tol), f"path:{name}:{s}", lambda: f"{what} {a.coef_path_} vs {a0.coef_path_}")
                ctx.check(g.close(a.intercept_path_, a0.intercept_path_, tol, 5 * tol), f"path-icpt:{name}:{s}", what)
                ctx.trace()


def run_cv(case, ctx):
    f, lk, t, fi, sp = (case[k] for k in ("fam", "link", "table", "fi", "sp"))
    X, y = data.X(t), data.y(t, f)
    for l1, al, wt in itertools.product((0.5, [0.3, 1.0]), ("auto", "given"), ("none", "varied")):
        w = data.weights(t, wt)
        kw, tol = tols("auto")
        kw.update(est="cv", max_iter=300, l1_ratio=l1, fit_intercept=fi, scale_predictors=sp, cv=3)
        kw.update(dict(alphas=[0.3, 0.1, 0.02]) if al == "given" else dict(n_alphas=4, min_alpha_ratio=0.05))
        a0, ok, _ = fit.fit(make(f, lk, **kw), X, y, sample_weight=w)
        ctx.op()
        if not ok:
            ctx.skipped += 1
            continue
        S = starts(X, a0.coef_, float(a0.intercept_), fi, False)
        for name in ("zeros", "alt", "opt", "neg"):
            for warm in (False, True):
                v = S[name]
                keep = v.copy()
                a, ok, _ = fit.fit(make(f, lk, start_params=v, warm_start=warm, **kw), X, y, sample_weight=w)
                ctx.op()
                if warm:
                    held = (a.coef_path_, np.array(a.coef_path_), a.coef_, a.coef_.copy())
                    a, ok, _ = fit.fit(a, X, y, sample_weight=w)
                    ctx.op()
                    ctx.check(np.array_equal(*held[:2]) and np.array_equal(*held[2:]), "cv-held-changed", f"{kw} {name}")
                ctx.state(f, fi, sp, str(l1), al, wt, name, warm)
                if not ok:
                    ctx.skipped += 1
                    continue
                what = f"{kw} w={wt} start={name} warm={warm}"
                ctx.check(np.array_equal(v, keep), "cv-start-changed", what)
                ctx.check(g.close(a.alphas_, a0.alphas_, 1e-9), "cv-alphas", what)
                ctx.check(g.close(a.deviance_path_, a0.deviance_path_, 1e-5, 1e-5), "cv-dev", what)
                ctx.check(a.alpha_ == a0.alpha_ and a.l1_ratio_ == a0.l1_ratio_, "cv-choice", what)
                ctx.check(g.close(a.coef_path_, a0.coef_path_, 1e-5, 1e-5), "cv-path", what)
                equal(ctx, "cv", a, (a0.coef_, float(a0.intercept_)), 1e-5, what)


def run(case, ctx):
    globals()["run_" + case["block"]](case, ctx)
