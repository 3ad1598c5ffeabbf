"""C02: bounds, linear inequalities and monotonicity hold in original units, the
constrained optimum satisfies the KKT conditions of the documented objective,
and constraints that cannot be honoured are rejected."""

import itertools

import glum
import numpy as np
import pandas as pd
from scipy.optimize import nnls

from .. import data, fit, ref
from .c01 import PEN

ID = "C02"
RULE = (
    "Complete products: every assignment of {free, >=0, <=0, box, fixed, shifted} to the first "
    "three coefficients x penalties x start values x families x tables x intercept x scaling, every "
    "small iteration budget, bounded paths and warm-start histories; every subset of a set of linear "
    "inequalities with both constrained solvers; formulas with monotone terms; every malformed or "
    "unsupported constraint crossed with solvers. Oracle: feasibility and KKT residuals from "
    "textbook formulas (multipliers by NNLS). A state is one configuration, a transition one fit."
)
ASSUMPTIONS = ["bounds, constraint matrices and formulas outside the stated alphabets are not covered"]

FL = [("normal", "identity"), ("poisson", "log"), ("binomial", "logit"), ("gamma", "log"),
      ("tweedie:1.5", "log"), ("negbin:1", "log"), ("invgauss", "log"), ("binomial", "cloglog"),
      ("ghs", "identity"), ("normal", "log")]
INF = np.inf
ISC = [(True, False), (True, True), (False, False)]  # (intercept, scaling)
# in units of 1/std of the column, so that every kind becomes active
ALPH = [(-INF, INF), (0.0, INF), (-INF, 0.0), (-0.1, 0.12), (0.15, 0.15), (0.2, 0.9), (-0.8, -0.2)]
NEST = dict(A0=[], A1=[0], A2=[1], A3=[0, 1], A4=[2], A5=[0, 2], A6=[1, 2], A7=[0, 1, 2], A8=[3],
            A9=[0, 3], A10=[1, 2, 3])


def cases(tier):
    deep = tier == "thorough"
    out = []
    for i, (f, lk) in enumerate(FL):
        for t in ["three", "scales", "corr"] + (["sparse", "onehot", "const"] if deep else []):
            for ic, sc in ISC:
                if not deep and i >= 5 and (t != "scales" or not ic):
                    continue
                out.append(dict(block="bounds", fam=f, link=lk, table=t, icpt=ic, scale=sc, deep=deep))
    for f, lk in FL[:5]:
        for t in ["three", "scales", "corr"]:
            out.append(dict(block="budget", fam=f, link=lk, table=t))
            out.append(dict(block="path", fam=f, link=lk, table=t))
            out.append(dict(block="history", fam=f, link=lk, table=t))
    for f, lk in FL[: 10 if deep else 5]:
        for t in ["three", "scales"]:
            for ic, sc in ISC:
                out.append(dict(block="ineq", fam=f, link=lk, table=t, icpt=ic, scale=sc, deep=deep))
    for f, lk in FL[:5]:
        for k in range(len(FORMULAS)):
            out.append(dict(block="mono", fam=f, link=lk, k=k, deep=deep))
    for k in ("cat", "bs"):
        out.append(dict(block="effect", kind=k))
    for e in ("reg", "path", "cv"):
        out.append(dict(block="reject", est=e))
    return out


def cols(X, w=None):
    return np.where(X.std(0) > 1e-9, X.std(0), 1.0)


def bounds_of(combo, X):
    s = cols(X)
    p = X.shape[1]
    lb, ub = np.full(p, -INF), np.full(p, INF)
    for j, k in enumerate(combo):
        lb[j], ub[j] = ALPH[k][0] / s[j], ALPH[k][1] / s[j]
    return lb, ub


def feasible(ctx, c, lb, ub, tag, key, tol=1e-11):
    lo = lb - tol * np.maximum(1, np.where(np.isfinite(lb), np.abs(lb), 1))
    hi = ub + tol * np.maximum(1, np.where(np.isfinite(ub), np.abs(ub), 1))
    ctx.check(bool(np.all(c >= lo) and np.all(c <= hi)), f"bound:{tag}",
              lambda: f"{key}: coef {c} outside [{lb}, {ub}]")


def kkt_ok(ctx, f, lk, X, y, w, off, est_coef, icpt, kw, tag, key, lim):
    res, sc, hd = fit.kkt(f, lk, X, y, w, off, est_coef, icpt, **kw)
    if not np.isfinite(res).all():
        ctx.skipped += 1
        return
    ctx.check(float(np.max(np.abs(res) / sc)) <= lim, f"kkt:{tag}",
              lambda: f"{key}: residual {res} coef {est_coef} icpt {icpt}")


def prob(case):
    X = data.X(case["table"])
    return X, np.asarray(data.y(case["table"], case["fam"]), float)


def start(X, ic, sign):
    s = 0.7 * sign * np.resize([1.0, -1.0], X.shape[1]) / cols(X)
    return np.concatenate(([0.3 - s @ X.mean(0)], s)) if ic else s


def run_bounds(case, ctx):
    f, lk, ic, sc = case["fam"], case["link"], case["icpt"], case["scale"]
    X, y = prob(case)
    p = X.shape[1]
    pens = ["ridge.05", "lasso.02", "enetdense"] + (["none"] if case["table"] != "sparse" else [])
    if case["table"] in ("onehot", "const"):
        pens.remove("none") if "none" in pens else None
    combos = list(itertools.product(range(len(ALPH)), repeat=3))
    if not case["deep"]:
        combos = [c for c in combos if c[2] in (0, (c[0] + c[1]) % len(ALPH))]
    free = {}
    for n, combo in enumerate(combos):
        lb, ub = bounds_of(combo, X)
        w = data.weights(case["table"], "varied") if n % 2 else None
        off = data.offset(case["table"], "varied") if n % 3 == 2 else None
        for pen in pens:
            a, l1, P1n, P2n = PEN[pen]
            P1, P2 = fit.make_P1(P1n, p), fit.make_P2(P2n, p)
            for st in (None, 1, -1) if pen != "none" or case["deep"] else (None,):
                kw = dict(alpha=a, l1_ratio=l1, P1=P1, P2=P2, fit_intercept=ic)
                est = fit.estimator(f, lk, lower_bounds=lb, upper_bounds=ub, scale_predictors=sc,
                                    max_iter=2000, gradient_tol=1e-7,
                                    start_params=None if st is None else start(X, ic, st),
                                    solver="auto" if n % 2 else "irls-cd", **kw)
                est, ok, bad = fit.fit(est, X, y, sample_weight=w, offset=off)
                ctx.op()
                key = (f, lk, case["table"], ic, sc, combo, pen, st)
                ctx.state(*key)
                c = est.coef_
                ctx.outcome(np.round(c, 3).tolist())
                tag = f"{pen}"
                feasible(ctx, c, lb, ub, tag, key)
                if not ok and f == "invgauss":  # Fisher scoring may oscillate
                    ctx.skipped += 1
                    continue
                if not ctx.check(ok, f"converge:{tag}", f"{key}: {bad}"):
                    continue
                ctx.trace()
                kkt_ok(ctx, f, lk, X, y, w, off, c, float(est.intercept_),
                       dict(kw, scale=sc, lb=lb, ub=ub), tag, key, 3e-7)


def run_budget(case, ctx):
    f, lk = case["fam"], case["link"]
    X, y = prob(case)
    for combo in itertools.product(range(len(ALPH)), repeat=2):
        lb, ub = bounds_of(combo + (combo[0],), X)
        for (ic, sc), st, mi in itertools.product(ISC, (None, 1), (1, 2, 3)):
            est = fit.estimator(f, lk, lower_bounds=lb, upper_bounds=ub, scale_predictors=sc, max_iter=mi,
                                fit_intercept=ic, alpha=0.02, l1_ratio=0.5,
                                start_params=None if st is None else start(X, ic, st))
            est, ok, bad = fit.fit(est, X, y)
            ctx.op()
            key = (f, lk, case["table"], combo, ic, sc, st, mi)
            ctx.state(*key)
            ctx.outcome(np.round(est.coef_, 3).tolist())
            feasible(ctx, est.coef_, lb, ub, "budget", key)
            ctx.trace()


def run_path(case, ctx):
    f, lk = case["fam"], case["link"]
    X, y = prob(case)
    p = X.shape[1]
    for combo in itertools.product(range(len(ALPH)), repeat=2):
        lb, ub = bounds_of(combo + (combo[1],), X)
        for ic, sc in ISC:
            for l1, al in ((0.5, [1.0, 0.1, 0.02]), (1.0, [0.02, 0.3]), (0.0, [0.5, 0.01])):
                est = fit.estimator(f, lk, lower_bounds=lb, upper_bounds=ub, scale_predictors=sc,
                                    fit_intercept=ic, alpha=al, alpha_search=True, l1_ratio=l1,
                                    gradient_tol=1e-7, max_iter=2000)
                est, ok, bad = fit.fit(est, X, y)
                ctx.op()
                key = (f, lk, case["table"], combo, ic, sc, l1)
                ctx.check(ok, "converge:path", f"{key} {bad}")
                for k, a in enumerate(al):
                    c = est.coef_path_[k]
                    ctx.state(*key, a)
                    ctx.outcome(np.round(c, 3).tolist())
                    feasible(ctx, c, lb, ub, "path", key)
                    if ok:
                        kkt_ok(ctx, f, lk, X, y, None, None, c, float(est.intercept_path_[k]),
                               dict(alpha=a, l1_ratio=l1, P1=None, P2=None, fit_intercept=ic, scale=sc, lb=lb, ub=ub),
                               "path", key, 3e-7)
                ctx.trace()
        # cross-validation: the refit obeys the bounds too
        est = glum.GeneralizedLinearRegressorCV(
            family=fit.g.family(f), link=fit.g.link(lk), alphas=[0.3, 0.03], l1_ratio=0.5, cv=2,
            lower_bounds=lb, upper_bounds=ub, scale_predictors=True, gradient_tol=1e-7, max_iter=2000)
        est, ok, bad = fit.fit(est, X, y)
        ctx.op()
        feasible(ctx, est.coef_, lb, ub, "cv", (f, lk, combo))
        for c in est.coef_path_.reshape(-1, p):
            feasible(ctx, c, lb, ub, "cvpath", (f, lk, combo))
        if ok:
            kkt_ok(ctx, f, lk, X, y, None, None, est.coef_, float(est.intercept_),
                   dict(alpha=est.alpha_, l1_ratio=0.5, P1=None, P2=None, fit_intercept=True, scale=True, lb=lb, ub=ub),
                   "cv", (f, lk, combo), 3e-7)
        ctx.trace()


def run_history(case, ctx):
    """Warm-started sequences of fits under changing bounds."""
    f, lk = case["fam"], case["link"]
    X, y = prob(case)
    sets = [(0, 0, 0), (1, 2, 0), (4, 4, 4), (6, 5, 3), (2, 1, 5)]
    for seq in itertools.product(range(len(sets)), repeat=3):
        for ic, sc in ISC:
            kw = dict(alpha=0.02, l1_ratio=0.5, P1=None, P2=None, fit_intercept=ic)
            est = fit.estimator(f, lk, scale_predictors=sc, gradient_tol=1e-7, max_iter=2000,
                                warm_start=True, solver="irls-cd", **kw)
            for step, k in enumerate(seq):
                lb, ub = bounds_of(sets[k], X)
                if step == 2 and k == 0:
                    est.set_params(lower_bounds=None, upper_bounds=None)
                else:
                    est.set_params(lower_bounds=lb, upper_bounds=list(ub))
                est, ok, bad = fit.fit(est, X, y)
                ctx.op()
                key = (f, lk, case["table"], ic, sc, seq[: step + 1])
                ctx.state(*key)
                ctx.outcome(np.round(est.coef_, 3).tolist())
                feasible(ctx, est.coef_, lb, ub, "warm", key)
                ctx.check(ok, "converge:warm", f"{key} {bad}")
                kkt_ok(ctx, f, lk, X, y, None, None, est.coef_, float(est.intercept_),
                       dict(kw, scale=sc, lb=lb, ub=ub), "warm", key, 3e-7)
            ctx.trace()


def rows_of(X, which):
    """Constraints in units where they bind."""
    s = cols(X)
    p = X.shape[1]
    e = np.eye(p) * s  # row j: standardised coefficient j
    A = np.array([e[0] - e[1], -e[1] + 0.5 * e[2], e[0] + e[1] + e[2], -e[2]])
    return A[which]


def ineq_kkt(f, lk, X, y, w, off, c, b0, kw, A, b, scale, active_tol):
    """Residual of grad + A_act' lam = 0, lam >= 0 (in standardised units)."""
    res, sc, _ = fit.kkt(f, lk, X, y, w, off, c, b0, scale=scale, **kw)
    act = A @ c >= b - active_tol
    s = sc[1:]
    g = res_signed(f, lk, X, y, w, off, c, b0, kw, scale) / s
    M = (A[act] / s).T
    if act.any():
        lam, rn = nnls(M, -g)
        gap = float(lam @ (b - A @ c)[act])
    else:
        rn, gap = np.linalg.norm(g), 0.0
    return max(rn, abs(res[0]), abs(gap))


def res_signed(f, lk, X, y, w, off, c, b0, kw, scale):
    fam = ref.Fam(f)
    n, p = X.shape
    w = np.ones(n) if w is None else w
    off = np.zeros(n) if off is None else off
    _, grad, _, _ = ref.objective_parts(fam, lk, X, y, w, off, c, b0)
    ws = w / w.sum()
    sd = np.sqrt(ws @ (X - ws @ X) ** 2)
    s = np.where(sd < 1e-7, 1.0, sd) if scale else np.ones(p)
    P2m = kw["alpha"] * fit.num_P2(kw["P2"], p) * s[:, None] * s[None, :]
    return grad[1:] + P2m @ c


def run_ineq(case, ctx):
    f, lk, ic, sc = case["fam"], case["link"], case["icpt"], case["scale"]
    X, y = prob(case)
    p = X.shape[1]
    sub = list(NEST.values())[1:] if case["deep"] else [[0], [1], [0, 1], [2], [3], [0, 1, 3], [1, 2, 3]]
    n = 0
    for which in sub:
        A = rows_of(X, which)
        for bv, solver in ((0.0, "irls-ls-monotonic"), (0.0, "auto"), (0.15, "auto"), (-0.2, "trust-constr"),
                           (0.0, "irls-ls-monotonic:far"), (50.0, "trust-constr"), (0.0, "irls-ls-monotonic:dense")):
            n += 1
            solver, _, extra = solver.partition(":")
            b = np.full(len(A), bv)
            w = data.weights(case["table"], "varied") if n % 2 else None
            off = data.offset(case["table"], "varied") if n % 3 == 2 else None
            kw = dict(alpha=0.05, l1_ratio=0, P1=None, P2=data.P2_dense(p) if extra == "dense" else None,
                      fit_intercept=ic)
            est = fit.estimator(f, lk, A_ineq=A, b_ineq=b, scale_predictors=sc, solver=solver,
                                start_params=start(X, ic, 1) if extra == "far" else None,
                                max_iter=3000, gradient_tol=1e-6 if solver != "irls-ls-monotonic" else 1e-5, **kw)
            est, ok, bad = fit.fit(est, X, y, sample_weight=w, offset=off)
            ctx.op()
            mono = solver == "irls-ls-monotonic"
            key = (f, lk, case["table"], ic, sc, which, bv, solver, extra)
            ctx.state(*key)
            c = est.coef_
            ctx.outcome(np.round(c, 2).tolist())
            tag = f"{solver}/{'b' if bv else '0'}"
            if not ok:
                ctx.check(not mono or extra == "far", f"ineq-converge:{tag}", f"{key}: {bad}")
                ctx.skipped += 1
                continue
            ctx.trace()
            ctx.check(np.all(A @ c <= b + 2e-6), f"ineq:{tag}", lambda: f"{key}: A c - b = {A @ c - b}")
            r = ineq_kkt(f, lk, X, y, w, off, c, float(est.intercept_), kw, A, b, sc, 6e-2 if not mono else 1e-4)
            ctx.check(r <= (5e-2 if not mono else 1e-4), f"ineq-kkt:{tag}", lambda: f"{key}: residual {r} c={c}")


# ---------------------------------------------------------------------------
def frame():
    n = 36
    i = np.arange(n)
    g = np.array(["lo", "mid", "hi", "top"])[(i * 7 % 11) % 4]
    c = np.array(["u", "v"])[(i // 3) % 2]
    x = np.round(((i * 13) % 37) / 36.0, 3)
    z = np.resize([0.3, -0.5, 1.1, 0.0, -0.7], n)
    return pd.DataFrame(dict(
        g=pd.Categorical(g, categories=["lo", "mid", "hi", "top"], ordered=True),
        d=(i % 4) * 10.0, c=pd.Categorical(c), x=x, z=z))


def target(df, f):
    k = ref.Fam(f)
    lev = df["g"].cat.codes.to_numpy()
    x = df["x"].to_numpy()
    # not monotone in anything
    e = np.array([0.5, -0.4, 0.6, 0.1])[lev] + np.sin(5 * x) * 0.6 + 0.3 * (df["c"] == "v").to_numpy() - 0.2 * df["z"].to_numpy()
    nz = np.resize([0.4, -0.6, 0.1, 0.7, -0.3, -0.8, 0.5], len(e))
    if k.kind == "binomial":
        return (e + nz > 0.2).astype(float)
    if k.kind == "normal":
        return np.round(e + nz, 2)
    if k.kind == "poisson":
        return np.round(np.exp(e + 0.5 * nz + 0.5))
    return np.round(np.exp(e + 0.5 * nz), 2)


# formula, kwargs, constraint; each is refit with both directions
FORMULAS = [
    ("g", {}, ["g"]),
    ("g + z", dict(drop_first=True), ["g"]),
    ("z", {}, ["z"]),
    ("g + z + c", {}, ["g", "z"]),
    ("C(d) + z", {}, ["d"]),
    ("bs(x, df=4)", {}, ["x"]),
    ("bs(x, df=5) + g", {}, ["x"]),
    ("bs(x, df=5) + g", {}, ["x", "g"]),
    ("bs(x, df=11, degree=2) + z", {}, ["x"]),
    ("cr(x, df=4) + c", {}, ["x"]),
    ("bs(x, df=4):c", {}, ["x"]),
    ("z:c + c", {}, ["z"]),
    ("g:c", {}, ["g"]),
    ("g*c", dict(drop_first=True), ["g"]),
    ("g", dict(categorical_format="{name}[T.{category}]"), ["g"]),
    ("g:c", dict(interaction_separator="__x__"), ["g"]),
]
LEVELS = {"g": ["lo", "mid", "hi", "top"], "d": ["0.0", "10.0", "20.0", "30.0"]}


def expected_rows(names, var, sign, sep):
    """Consecutive pairs of coefficients of the term, from the feature names."""
    groups = {}
    for j, nm in enumerate(names):
        parts = nm.split(sep)
        hit = [q for q in parts if q.split("[")[0].strip() in
               (var, f"C({var})") or q.startswith((f"bs({var},", f"cr({var},"))]
        if not hit:
            continue
        (h,) = hit
        others = tuple(q for q in parts if q != h)
        if "[" in h:
            lab = h[h.rindex("[") + 1:-1].removeprefix("T.")
            key = LEVELS[var].index(lab) if var in LEVELS else float(lab)
        else:
            key = 0
        groups.setdefault(others, []).append((key, j))
    rows = []
    for mem in groups.values():
        mem.sort()
        if len(mem) == 1:
            r = np.zeros(len(names))
            r[mem[0][1]] = -sign
            rows.append(r)
        for (_, i), (_, j) in zip(mem[:-1], mem[1:]):
            r = np.zeros(len(names))
            r[i], r[j] = sign, -sign
            rows.append(r)
    return rows


def run_mono(case, ctx):
    f, lk = case["fam"], case["link"]
    df = frame()
    fm, ekw, vars_ = FORMULAS[case["k"]]
    y = target(df, f)
    n = 0
    for dirs in itertools.product(("increasing", "decreasing"), repeat=len(vars_)):
        for solver in ("auto", "irls-ls-monotonic", "trust-constr"):
            for sc, ic in ((False, True), (True, True), (False, False)):
                if solver == "trust-constr" and (sc or (not case["deep"] and case["k"] % 3)):
                    continue
                n += 1
                df2 = df.iloc[np.r_[5:len(df), 0:5]] if n % 2 else df  # order of appearance of the levels
                y2 = y[np.r_[5:len(df), 0:5]] if n % 2 else y
                mono = dict(zip(vars_, dirs))
                kw = dict(alpha=0.01, l1_ratio=0, P1=None, P2=None, fit_intercept=ic)
                est = fit.estimator(f, lk, formula=fm if ic else fm + " - 1", monotonic_constraints=mono, solver=solver, scale_predictors=sc,
                                    max_iter=3000, gradient_tol=1e-5 if solver != "trust-constr" else 1e-6, **ekw, **kw)
                est, ok, bad = fit.fit(est, df2, y2)
                ctx.op()
                names = [str(a) for a in est.feature_names_]
                key = (f, lk, fm, mono, solver, sc, ic)
                ctx.state(*map(str, key))
                ctx.outcome(np.round(est.coef_, 2).tolist())
                if not ok:
                    ctx.check(solver == "trust-constr", f"mono-converge:{solver}", f"{key}: {bad}")
                    ctx.skipped += 1
                    continue
                sep = ekw.get("interaction_separator", ":")
                A = np.array(sum((expected_rows(names, v, 1.0 if d == "increasing" else -1.0, sep)
                                  for v, d in mono.items()), []))
                assert len(A), names
                ctx.trace()
                c = est.coef_
                ctx.check(np.all(A @ c <= 2e-6), f"mono:{solver}", lambda: f"{key}: {dict(zip(names, c))}")
                X = np.asarray(est.X_model_spec_.get_model_matrix(df2).toarray(), float)
                r = ineq_kkt(f, lk, X, y2, None, None, c, float(est.intercept_), kw, A, np.zeros(len(A)), sc, 6e-2 if solver == "trust-constr" else 1e-3)
                ctx.check(r <= (5e-2 if solver == "trust-constr" else 2e-4), f"mono-kkt:{solver}", lambda: f"{key}: residual {r}, {dict(zip(names, np.round(c, 4)))}")


def run_effect(case, ctx):
    """The effect itself (not only the listed coefficients) goes in the direction asked for."""
    df = frame()
    lev = df["g"].cat.codes.to_numpy()
    if case["kind"] == "cat":
        y = np.array([3.0, 1.0, 2.0, 2.5])[lev]
        est = glum.GeneralizedLinearRegressor(alpha=0, drop_first=True, formula="g", monotonic_constraints={"g": "increasing"})
        new = pd.DataFrame(dict(g=pd.Categorical(LEVELS["g"], categories=LEVELS["g"], ordered=True)))
    else:
        y = 3.0 - 2 * df["x"].to_numpy() ** 0.3
        est = glum.GeneralizedLinearRegressor(alpha=0, formula="bs(x, df=4)", monotonic_constraints={"x": "increasing"})
        new = pd.DataFrame(dict(x=np.linspace(df["x"].min(), df["x"].max(), 41)))
    est, ok, bad = fit.fit(est, df, y)
    ctx.op()
    ctx.state(case["kind"])
    pr = est.predict(new)
    ctx.outcome(np.round(pr, 3).tolist())
    ctx.trace()
    ctx.check(np.all(np.diff(pr) >= -1e-6), "effect-not-monotone", f"{est.feature_names_} {est.coef_}: {pr}")


def run_reject(case, ctx):
    X = data.X("three")
    df = frame()
    A, b = np.array([[1.0, -1, 0]]), np.zeros(1)
    lo = np.zeros(3)

    def mk(**kw):
        if case["est"] == "cv":
            kw.setdefault("l1_ratio", 0)
            if "alpha" in kw:
                kw["alphas"] = [kw.pop("alpha"), 0.01]
            else:
                kw["alphas"] = [0.1, 0.01]
            return glum.GeneralizedLinearRegressorCV(family="poisson", cv=2, **kw)
        if case["est"] == "path":
            kw["alpha_search"] = True
            kw["alpha"] = [kw.pop("alpha", 0.1), 0.01]
            return glum.GeneralizedLinearRegressor(family="poisson", **kw)
        return glum.GeneralizedLinearRegressor(family="poisson", **kw)

    bad = []
    for s in ("irls-ls", "lbfgs", "trust-constr", "closed-form"):
        bad.append((f"bounds+{s}", dict(lower_bounds=lo, solver=s, l1_ratio=0)))
        bad.append((f"ubounds+{s}", dict(upper_bounds=lo, solver=s, l1_ratio=0)))
    for s in ("irls-ls", "lbfgs", "irls-cd", "closed-form"):
        bad.append((f"ineq+{s}", dict(A_ineq=A, b_ineq=b, solver=s)))
        bad.append((f"mono+{s}", dict(formula="g+z", monotonic_constraints={"g": "increasing"}, solver=s)))
    bad += [
        ("lb-short", dict(lower_bounds=lo[:2])), ("ub-long", dict(upper_bounds=np.zeros(4))),
        ("lb-2d", dict(lower_bounds=np.zeros((3, 1)))), ("lb>ub", dict(lower_bounds=lo + 1, upper_bounds=lo)),
        ("lb>ub one", dict(lower_bounds=[0, 0, 1.0], upper_bounds=[1, 1, 0.5])),
        ("lb-str", dict(lower_bounds="abc")), ("A only", dict(A_ineq=A)), ("b only", dict(b_ineq=b)),
        ("A+lb", dict(A_ineq=A, b_ineq=b, lower_bounds=lo)), ("A+ub", dict(A_ineq=A, b_ineq=b, upper_bounds=lo)),
        ("A-cols", dict(A_ineq=A[:, :2], b_ineq=b)), ("A-1d", dict(A_ineq=A[0], b_ineq=b)),
        ("b-len", dict(A_ineq=A, b_ineq=np.zeros(2))), ("b-2d", dict(A_ineq=A, b_ineq=np.zeros((1, 1)))),
        ("A+L1", dict(A_ineq=A, b_ineq=b, l1_ratio=0.5, alpha=0.1)),
        ("b!=0 mono", dict(A_ineq=A, b_ineq=b + 1, solver="irls-ls-monotonic")),
        ("mono no formula", dict(monotonic_constraints={"g": "increasing"})),
        ("mono list", dict(formula="g+z", monotonic_constraints=["g"])),
        ("mono str", dict(formula="g+z", monotonic_constraints="g")),
        ("mono empty", dict(formula="g+z", monotonic_constraints={})),
        ("mono dir", dict(formula="g+z", monotonic_constraints={"g": "up"})),
        ("mono unknown", dict(formula="g+z", monotonic_constraints={"nope": "increasing"})),
        ("mono not in formula", dict(formula="g+z", monotonic_constraints={"x": "increasing"})),
        ("mono poly", dict(formula="poly(x, degree=2)+z", monotonic_constraints={"x": "increasing"})),
        ("mono cc", dict(formula="cc(x, df=3)+z", monotonic_constraints={"x": "increasing"})),
        ("mono+A", dict(formula="g+z", monotonic_constraints={"g": "increasing"}, A_ineq=A, b_ineq=b)),
        ("mono+L1", dict(formula="g+z", monotonic_constraints={"g": "increasing"}, l1_ratio=0.5, alpha=0.1)),
    ]
    for nm, kw in bad:
        for ic, sc in ISC:
            kk = dict(kw, fit_intercept=ic, scale_predictors=sc)
            if "formula" in kk and not ic:
                kk["formula"] += " - 1"
            ctx.op()
            ctx.state(nm, ic, sc)
            try:
                est = mk(**kk)
                if "formula" in kk:
                    est.fit(df, np.round(np.abs(target(df, "normal"))))
                else:
                    est.fit(X, data.y("three", "poisson"))
            except (ValueError, TypeError, NotImplementedError) as e:
                ctx.outcome(type(e).__name__, nm)
                ctx.check(True, nm)
            else:
                ctx.check(False, f"accepted:{nm}", f"{case['est']} {kk}")
            ctx.trace()
    # the documented forms are accepted and mean the same
    ref_c = None
    for nm, kw in [("none", {}), ("inf", dict(lower_bounds=[-INF] * 3, upper_bounds=[INF] * 3)),
                   ("far", dict(lower_bounds=[-1e6] * 3)), ("tuple", dict(upper_bounds=(1e5, 1e5, 1e5))),
                   ("series", dict(upper_bounds=pd.Series([1e5, 1e5, 1e5]))), ("int", dict(lower_bounds=np.array([-99, -99, -99])))]:
        est = mk(alpha=0.05, l1_ratio=0.5, gradient_tol=1e-9, max_iter=1000, **kw)
        est.fit(X, data.y("three", "poisson"))
        ctx.op()
        ctx.trace()
        c = np.append(est.coef_, est.intercept_)
        ref_c = c if ref_c is None else ref_c
        ctx.check(np.allclose(c, ref_c, atol=1e-6), f"inactive:{nm}", f"{c} {ref_c}")


def run(case, ctx):
    globals()["run_" + case["block"]](case, ctx)
