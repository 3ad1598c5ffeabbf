"""C19: iterations descend and convergence is reported truthfully."""

import itertools
import warnings

import glum
import numpy as np
from sklearn.exceptions import ConvergenceWarning

from .. import data, fit, g, ref

ID = "C19"
RULE = (
    "For every combination of family and link, solver, penalty, intercept and scaling, table, start, bounds or "
    "inequalities, tolerance and Hessian approximation of a finite product: every iteration budget from one to two beyond the "
    "count at which the fit with an unlimited budget stops (at most 40), then 1000. A state is one (problem, budget) "
    "pair, i.e. one prefix of the sequence of iterates; a transition one real fit. Objective and optimality residuals "
    "are computed from the textbook formulas. Paths and cross-validation refits: every budget on a list of alphas."
)
ASSUMPTIONS = [
    "objectives are compared to 1e-9 relative: the line search accepts a step that decreases the gradient when the objective no longer resolves it",
    "with inequality constraints (barrier and penalty methods) only feasible iterates are compared with the start; descent is required without inequalities",
    "IRLS solvers make one exact step for the normal family with identity link whatever the budget (documented in code), so that at most one iteration is reported",
    "lbfgs: at the last budgeted iteration scipy cannot tell 'stopped by the relative reduction' from 'out of budget'; coefficients and counts are compared there, the warning only against the residual",
]
FL = [("normal", "identity"), ("poisson", "log"), ("gamma", "log"), ("binomial", "logit"), ("tweedie:1.5", "log"), ("invgauss", "log"), ("negbin:1", "log"),
      ("ghs", "identity"), ("binomial", "cloglog"), ("normal", "log"), ("poisson", "identity"), ("gamma", "identity"), ("tweedie:3", "log")]
ISC = [(True, False), (True, True), (False, False)]
# solver, l1_ratio, alpha
PEN = [("irls-ls", 0.0, 0.0), ("irls-ls", 0.0, 0.3), ("irls-cd", 0.0, 0.1), ("irls-cd", 0.5, 0.1), ("irls-cd", 1.0, 0.05), ("lbfgs", 0.0, 0.1), ("trust-constr", 0.0, 0.1), ("auto", 0.5, 0.05), ("auto", 0.0, 0.1)]


def cases(tier):
    out = []
    tables = ["three", "corr", "sparse", "wide", "scales"] if tier == "thorough" else ["three", "corr", "wide"]
    for fl, isc, pen, tab in itertools.product(FL, ISC, PEN, tables):
        if tab == "wide" and pen[2] == 0 or not isc[0] and fl[1] == "identity" and fl[0] in ("poisson", "gamma"):
            continue
        if tier == "quick" and pen[0] in ("lbfgs", "trust-constr", "auto") and (tab == "wide" or isc == ISC[1]):
            continue
        if fl == ("poisson", "identity") and (tab not in ("three", "corr") or pen[0] in ("lbfgs", "trust-constr")):
            continue  # the optimum of the saturated problem is on the boundary of the domain; see the domain block for lbfgs
        if fl == ("binomial", "cloglog") and pen[2] == 0 and tab != "three":
            continue  # separated
        if pen[0] == "trust-constr" and (tab != "three" or tier == "quick" and isc != ISC[0]):
            continue
        out.append(dict(block="budget", tier=tier, fam=fl[0], link=fl[1], isc=list(isc), pen=list(pen), table=tab))
    for fl, isc in itertools.product(FL[:8], ISC):
        out.append(dict(block="bounds", tier=tier, fam=fl[0], link=fl[1], isc=list(isc)))
        out.append(dict(block="path", tier=tier, fam=fl[0], link=fl[1], isc=list(isc)))
    for k in range(1, 9):
        out.append(dict(block="domain", solver="lbfgs", fam="poisson", link="identity", table="corr", budget=k))
    for fl, dt in itertools.product(FL, ("float64", "float32")):
        out.append(dict(block="first", fam=fl[0], link=fl[1], dtype=dt))
    for fl in FL[:5]:
        out.append(dict(block="inequality", tier=tier, fam=fl[0], link=fl[1]))
    return out


def fitted(case, kw, k, X, y, w, off):
    isc = case["isc"]
    e = fit.estimator(case["fam"], case["link"], fit_intercept=isc[0], scale_predictors=isc[1], **{**kw, "max_iter": k})
    return fit.fit(e, X, y, sample_weight=w, offset=off)


def residual(case, kw, X, y, w, off, e):
    """Optimality residuals (l1 norm, sup norm) of the standardised problem."""
    w = np.ones(len(y)) if w is None else w
    ws = w / w.sum()
    mean = ws @ X
    s = np.sqrt(np.maximum(ws @ (X - mean) ** 2, 0))
    s = np.where(s < 1e-7, 1.0, s)
    m = mean if case["isc"][0] else 0 * mean
    Xs = (X - m) / s
    c = e.coef_ * s
    b = e.intercept_ + m @ e.coef_
    a, l1 = kw["alpha"], kw.get("l1_ratio", 0.0)
    d = np.ones(len(s)) if case["isc"][1] else 1 / s
    lb, ub = kw.get("lower_bounds"), kw.get("upper_bounds")
    r, _, _ = fit.kkt(case["fam"], case["link"], Xs, y, w, off, c, b, alpha=a, l1_ratio=l1, P1=d, P2=np.diag(d * d), fit_intercept=case["isc"][0],
                      lb=None if lb is None else np.asarray(lb) * s, ub=None if ub is None else np.asarray(ub) * s)
    return np.abs(r).sum(), np.abs(r).max()


def objective(case, kw, X, y, w, off, coef, icpt):
    with np.errstate(all="ignore"):
        return fit.objective(case["fam"], case["link"], X, y, w, off, coef, icpt, alpha=kw["alpha"], l1_ratio=kw.get("l1_ratio", 0.0), P1=None, P2=None, scale=case["isc"][1])


def walk(case, ctx, kw, X, y, w, off, start=None, sig="", feasible=None, cap=40):
    """Every budget of one problem."""
    exact = case["fam"] == "normal" and case["link"] == "identity" and kw["solver"] != "lbfgs" and kw["solver"] != "trust-constr" and "A_ineq" not in kw
    tol = kw["gradient_tol"]
    what = f"{sig} { {k: v for k, v in kw.items()} }"
    try:
        last, ok_last, msgs = fitted(case, kw, 1000, X, y, w, off)
    except Exception as ex:
        ctx.fail(f"raised:{kw['solver']}", f"{what}: {ex!r}")
        return
    n = last.n_iter_
    first = objective(case, kw, X, y, w, off, *start) if start is not None else None
    prev, best = first, None
    solver = last._solver
    for k in list(range(1, min(n + 2, cap) + 1)):
        try:
            e, ok, msgs = fitted(case, kw, k, X, y, w, off)
        except Exception as ex:
            ctx.fail(f"raised:{solver}", f"{what} budget {k}: {ex!r}")
            return
        ctx.op()
        ctx.state(case, what, k)
        o = objective(case, kw, X, y, w, off, e.coef_, e.intercept_)
        ctx.check(0 <= e.n_iter_ <= k, f"over-budget:{solver}", lambda: f"{what}: {e.n_iter_} iterations of {k}")
        ctx.check(np.all(np.isfinite(e.coef_)) and np.isfinite(e.intercept_) and np.isfinite(o), f"not-finite:{solver}", lambda: f"{what} budget {k}: {e.coef_} {o}")
        if prev is not None and np.isfinite(prev) and (feasible is None) and np.isfinite(o):
            ctx.check(o <= prev + 1e-9 * (1 + abs(prev)), f"rises:{solver}", lambda: f"{what} budget {k}: {o} after {prev} ({'start' if k == 1 else 'one less'})")
        if feasible is None:
            prev = o
        if not ok and feasible is None:
            best = None
        if k >= n:
            ctx.check(np.array_equal(e.coef_, last.coef_) and e.intercept_ == last.intercept_ and e.n_iter_ == n and (ok == ok_last or solver == "lbfgs") or exact and g.close(e.coef_, last.coef_, 1e-9),
                      f"depends-on-spare-budget:{solver}", lambda: f"{what} budget {k}: {e.coef_} after {e.n_iter_} instead of {last.coef_} after {n}")
        elif not exact:
            ctx.check(not ok, f"silent:{solver}", lambda: f"{what}: no warning at budget {k} of {n}")
            if solver not in ("trust-constr",):
                ctx.check(e.n_iter_ == k, f"stops-early:{solver}", lambda: f"{what}: {e.n_iter_} of {k} while the whole fit takes {n}")
        if feasible is None:
            l1, sup = residual(case, kw, X, y, w, off, e)
            r = l1 if "irls" in solver else sup
            if not np.isfinite(r):
                ctx.skipped += 1  # a mean that rounds to the end of the range: the textbook score is 0/0
            elif not ok:
                ctx.check(r >= tol * (1 - 1e-3) - 1e-13, f"warns-though-converged:{solver}", lambda: f"{what} budget {k}: residual {r} tolerance {tol}: {msgs}")
            elif "irls" in solver and kw.get("step_size_tol") is None:
                ctx.check(r <= tol * (1 + 1e-3) + 1e-9, f"converged-though-not:{solver}", lambda: f"{what} budget {k}: residual {r} tolerance {tol}")
        else:
            ctx.check(feasible(e) or not ok, f"infeasible:{solver}", lambda: f"{what} budget {k}: {e.coef_}")
    ctx.outcome(case["fam"], solver, n, ok_last)
    ctx.trace()


def starts(case, p, X, y, w):
    """None, zero, far and near start values, where the objective is finite."""
    i = case["isc"][0]
    out = [None]
    if case["link"] == "identity" and case["fam"] not in ("normal", "ghs"):
        return out
    z = np.zeros(p + i)
    far = np.where(np.arange(p + i) % 2, -0.4, 0.3) / np.r_[np.ones(int(i)), np.maximum(1, np.abs(X).max(0) / 3)]
    return out + [z, far]


def split(case, v):
    return None if v is None else (v[1:], v[0]) if case["isc"][0] else (v, 0.0)


def run_budget(case, ctx):
    X = data.X(case["table"])
    y = data.y(case["table"], case["fam"])
    n, p = X.shape
    solver, l1, alpha = case["pen"]
    th = case["tier"] == "thorough"
    w1 = data.weights(case["table"], "varied")
    o1 = data.offset(case["table"], "varied")
    grid = [(1e-6, None, None), (1e-4, w1, o1)] + ([(1e-9, w1, None), (1e-2, None, o1)] if th else [])
    for (tol, w, off), st in itertools.product(grid, starts(case, p, X, y, w1)):
        if case["link"] == "identity" and case["fam"] not in ("normal", "ghs") and off is not None:
            off = None
        for extra in ({}, dict(hessian_approx=0.5), dict(step_size_tol=1e-3)) if solver.startswith("irls") else ({},):
            if not th and extra and (tol != 1e-6 or st is not None):
                continue
            if extra.get("hessian_approx") and solver != "irls-cd":
                continue
            kw = dict(solver=solver, l1_ratio=l1, alpha=alpha, gradient_tol=tol, start_params=st, **extra)
            if solver == "trust-constr" and tol < 1e-4:
                continue
            if st is None:
                # the default start: the intercept that fits the mean (with an offset only approximately), other coefficients zero
                s0 = None
                if off is None:
                    wm = np.average(y, weights=w)
                    s0 = (np.zeros(p), float(ref.link(case["link"])[0](wm))) if case["isc"][0] and np.isfinite(ref.link(case["link"])[0](wm)) else (np.zeros(p), 0.0) if not case["isc"][0] else None
            else:
                s0 = split(case, st)
            walk(case, ctx, kw, X, y, w, off, s0, sig=f"start {None if st is None else np.round(st, 3).tolist()}", cap=40 if th else 25)


def run_domain(case, ctx):
    """A link that does not confine the mean to the family's range."""
    X, y = data.X(case["table"]), data.y(case["table"], case["fam"])
    case = dict(case, isc=[True, False])
    kw = dict(solver=case["solver"], alpha=0.1, gradient_tol=1e-6)
    e, ok, _ = fitted(case, kw, case["budget"], X, y, None, None)
    ctx.op()
    ctx.state(case)
    ctx.check(np.isfinite(objective(case, kw, X, y, None, None, e.coef_, e.intercept_)), "mean-out-of-range", lambda: f"budget {case['budget']}: {e.coef_} has means {X @ e.coef_ + e.intercept_}")
    ctx.check(not ok, "silent", "")
    ctx.outcome(np.round(e.coef_, 5).tolist())
    ctx.trace()


def run_first(case, ctx):
    """Whatever the step tolerance, the number of coefficients and the precision, a start that is no solution is left."""
    n = 24
    cols = np.array([[np.sin(1.3 * i * (j + 1)) + 0.3 * ((i * (j + 3)) % 5) for j in range(10)] for i in range(n)])
    eta = 0.5 * cols[:, 0] + 0.4 * np.cos(np.arange(n))
    f = case["fam"]
    y = {"binomial": (np.arange(n) * 7 % 5 < 2) * 1.0, "poisson": np.round(np.exp(eta) + 0.4), "negbin:1": np.round(np.exp(eta) + 0.4), "normal": np.exp(eta), "ghs": eta}.get(f, np.exp(eta))
    dt = np.dtype(case["dtype"])
    for fi, p, s in itertools.product((True, False), range(1, 11), ("irls-ls", "irls-cd")):
        if case["link"] == "identity" and f not in ("normal", "ghs") and not fi:
            continue
        X, yy = cols[:, :p].astype(dt), y.astype(dt)
        start = np.zeros(p + fi, dt)
        start[0] = 0.1 if case["link"] != "identity" else 1.5
        for tol, cast, st in itertools.product((1e-7, 2e-7, 1e-6, 3e-6, 1e-5, 1e-4, 1e-3, 1e-2, 0.3), (float, np.float64), (None, start)):
            e, ok, _ = fit.fit(fit.estimator(f, case["link"], fit_intercept=fi, solver=s, alpha=0.01, l1_ratio=0.0, gradient_tol=1e-30, step_size_tol=cast(tol), max_iter=2, start_params=st), X, yy)
            ctx.op()
            ctx.state(case, fi, p, s, tol, cast.__name__, st is None)
            sig = f"start-taken-for-solution:{s}"
            what = f"intercept {fi}, {p} columns, step_size_tol {cast.__name__}({tol}), start {st}"
            ctx.check(e.n_iter_ >= 1, sig, lambda: f"{what}: no iteration")
            th = np.append(e.intercept_, e.coef_)
            ctx.check(not np.array_equal(th[1:], start[fi:]) and np.any(th[1:] != 0), sig, lambda: f"{what}: {th}")
        ctx.outcome(np.round(th, 3).tolist())
        ctx.trace()


def run_bounds(case, ctx):
    for tab in ("three", "corr"):
        X = data.X(tab)
        y = data.y(tab, case["fam"])
        n, p = X.shape
        free, _, _ = fitted(case, dict(solver="irls-ls", alpha=0.1, gradient_tol=1e-6), 1000, X, y, None, None)
        c = free.coef_
        for l1 in (0.0, 0.5):
            for lb, ub in itertools.product((None, np.zeros(p), c + 0.3 * np.abs(c)), (None, np.full(p, 0.05), c - 0.3 * np.abs(c))):
                if lb is None and ub is None or lb is not None and ub is not None and np.any(lb > ub):
                    continue
                for st in starts(case, p, X, y, None)[: None if case["tier"] == "thorough" else 2]:
                    kw = dict(solver="irls-cd", l1_ratio=l1, alpha=0.1, gradient_tol=1e-6, lower_bounds=lb, upper_bounds=ub, start_params=st)
                    s0 = split(case, st)
                    if s0 is not None:
                        cc = s0[0]
                        cc = cc if lb is None else np.maximum(cc, lb)
                        cc = cc if ub is None else np.minimum(cc, ub)
                        b = s0[1]
                        # bounds move the start of the centred problem, where the intercept is the one at the means
                        if case["isc"][0]:
                            b = b + X.mean(0) @ s0[0] - X.mean(0) @ cc
                        s0 = (cc, b)
                    walk(case, ctx, kw, X, y, None, None, s0, sig=f"{tab} bounds", cap=25)


def run_inequality(case, ctx):
    case = dict(case, isc=[True, False])
    X = data.X("three")
    y = data.y("three", case["fam"])
    p = X.shape[1]
    for A, b in ((np.array([[1.0, 1.0, 0.0]]), np.array([0.05])), (np.array([[1.0, 0, 0], [0, -1.0, 0]]), np.array([0.1, 0.2]))):
        for st in (None, np.zeros(p + 1)):
            kw = dict(solver="trust-constr", alpha=0.1, gradient_tol=1e-3, A_ineq=A, b_ineq=b, start_params=st)
            walk(case, ctx, kw, X, y, None, None, None, sig="inequality", feasible=lambda e: np.all(A @ e.coef_ <= b + 1e-6), cap=30)


def run_path(case, ctx):
    """A budget applies to every alpha of a path; one point short of convergence is enough to warn."""
    X = data.X("three")
    y = data.y("three", case["fam"])
    alphas = [1.0, 0.3, 0.1, 0.03]
    for solver, l1 in (("irls-cd", 0.5), ("irls-ls", 0.0), ("lbfgs", 0.0)):
        kw = dict(solver=solver, l1_ratio=l1, alpha=alphas, alpha_search=True, gradient_tol=1e-6)
        full, okf, _ = fitted(case, kw, 1000, X, y, None, None)
        for k in range(1, 14 if case["tier"] == "quick" else 30):
            e, ok, _ = fitted(case, kw, k, X, y, None, None)
            ctx.op()
            ctx.state(case, solver, k)
            ctx.check(e.n_iter_ <= k, f"path-over-budget:{solver}", lambda: f"{e.n_iter_} of {k}")
            bad = []
            for i, a in enumerate(alphas):
                e1 = glum.GeneralizedLinearRegressor()
                e1.coef_, e1.intercept_ = e.coef_path_[i], e.intercept_path_[i]
                kk = dict(kw, alpha=a)
                l1n, sup = residual(case, kk, X, y, None, None, e1)
                r = l1n if "irls" in solver else sup
                bad.append(r)
            if case["fam"] == "normal" and case["link"] == "identity" and solver != "lbfgs":
                ctx.check(ok, "path-normal", str(bad))
                continue
            if "irls" in solver:
                ctx.check(ok == (max(bad) < 1e-6 * (1 + 1e-3)) or abs(max(bad) / 1e-6 - 1) < 1e-2, f"path-warning:{solver}", lambda: f"{case} budget {k}: warned {not ok}, residuals {bad}")
            elif not ok:
                ctx.check(max(bad) > 1e-6 * (1 - 1e-3), f"path-warning:{solver}", lambda: f"{case} budget {k}: residuals {bad}")
            if ok:
                ctx.check(g.close(e.coef_path_, full.coef_path_, 1e-12) and okf, f"path-spare-budget:{solver}", lambda: f"{case} budget {k}")
        ctx.outcome(case["fam"], solver, full.n_iter_)
        # cross-validation: the refit obeys the same budget
        for k in (1, 2, 3, 1000):
            cv = glum.GeneralizedLinearRegressorCV(family=g.family(case["fam"]), link=g.link(case["link"]), fit_intercept=case["isc"][0], scale_predictors=case["isc"][1],
                                                  solver=solver, l1_ratio=l1, alphas=alphas, cv=2, max_iter=k, gradient_tol=1e-6)
            with warnings.catch_warnings(record=True) as rec:
                warnings.simplefilter("always")
                cv.fit(X, y)
            ctx.op()
            ctx.check(cv.n_iter_ <= k and np.all(np.isfinite(cv.coef_)), f"cv-over-budget:{solver}", lambda: f"{cv.n_iter_} of {k}")
            warned = any(issubclass(r.category, ConvergenceWarning) for r in rec)
            kk = dict(kw, alpha=float(cv.alpha_))
            l1n, sup = residual(case, kk, X, y, None, None, cv)
            if (l1n if "irls" in solver else sup) > 1e-6 * 1.01 and "irls" in solver:
                ctx.check(warned, f"cv-silent:{solver}", lambda: f"{case} budget {k}: residual {l1n}")
    ctx.trace()


def run(case, ctx):
    globals()["run_" + case["block"]](case, ctx)
