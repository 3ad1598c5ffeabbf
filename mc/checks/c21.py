"""C21: offsets are coefficients fixed at one."""

import itertools

import glum
import numpy as np
import pandas as pd
import scipy.sparse as sps
import tabmat as tm

from .. import data, fit, g, ref

ID = "C21"
RULE = (
    "Every combination in a finite grid of (family, link, table, solver, scaling, intercept, penalty, "
    "weights, bounds, container, estimator) is fitted with and without an offset related by one of the "
    "identities of the property (constant; linear combination of unpenalised columns; extra column with "
    "coefficient fixed at one; exposure; omitted = zero; every documented form) and the two fits, their "
    "paths and every query of them are compared. A state is one (configuration, relation), a transition "
    "one fit or query."
)
ASSUMPTIONS = [
    "configurations whose optimum is not unique are outside the space",
    "fits that report no convergence are outside the premise",
]

FAMS = [("normal", "identity"), ("poisson", "log"), ("gamma", "log"), ("tweedie:1.5", "log"),
        ("binomial", "logit"), ("negbin:1", "log"), ("binomial", "cloglog")]
MORE = [("invgauss", "log"), ("ghs", "identity"), ("tweedie:0", "identity"), ("tweedie:2", "log"),
        ("tweedie:1.2", "log"), ("negbin:0.3", "log"), ("tweedie:1", "log"), ("normal", "tweedie:0")]
ISC = [(True, False), (True, True), (False, False)]
CONST = [0.7, -1.3, 2.0]


def penalties(fam):
    """(alpha, l1_ratio, P1, P2)."""
    out = [(0, 0, "identity", "identity"), (0.05, 0.0, "identity", "identity"),
           (0.05, 0.5, "identity", "identity"), (0.03, 1.0, "vec", "identity"),
           (0.05, 0.3, "vec", "dense"), (0.08, 0.0, "identity", "vec"), (0.05, 0.0, "identity", "csc")]
    return out


def solvers(l1, bounds):
    if bounds:
        return ["auto", "irls-cd"]
    if l1:
        return ["auto", "irls-cd"]
    return ["auto", "irls-ls", "irls-cd", "lbfgs", "trust-constr"]


def cases(tier):
    deep = tier == "thorough"
    fams = FAMS + (MORE if deep else MORE[:3])
    tabs = ["three", "corr"] + (["onehot", "sparse", "scales", "tall"] if deep else ["sparse"])
    out = []
    for (f, lk), t in itertools.product(fams, tabs):
        out.append(dict(block="shift", fam=f, link=lk, table=t, rel="const"))
        out.append(dict(block="shift", fam=f, link=lk, table=t, rel="lin"))
        out.append(dict(block="shift", fam=f, link=lk, table=t, rel="fixed"))
        if lk == "log" and ref.Fam(f).p is not None:
            out.append(dict(block="exposure", fam=f, link=lk, table=t))
    for (f, lk), t in itertools.product(fams, tabs[:3]):
        if deep or (f, lk) in FAMS and t != "sparse":
            out.append(dict(block="forms", fam=f, link=lk, table=t))
        out.append(dict(block="query", fam=f, link=lk, table=t))
    for (f, lk), t in itertools.product(FAMS if deep else FAMS[:5], ("three", "sparse") if deep else ("three",)):
        out.append(dict(block="path", fam=f, link=lk, table=t))
        out.append(dict(block="cv", fam=f, link=lk, table=t))
    for (f, lk) in FAMS if deep else FAMS[:5]:
        out.append(dict(block="hist", fam=f, link=lk))
    if not deep:  # slow, not convex: the thorough tier covers it
        out = [c for c in out if c["fam"] != "invgauss" or (c["table"] == "three" and c["block"] == "shift")]
    for c in out:
        c["deep"] = deep
    return out


def tols(solver, strict=False):
    if solver in ("auto", "irls-ls", "irls-cd"):
        return dict(gradient_tol=1e-10, max_iter=3000), 2e-6
    if solver == "lbfgs":
        return dict(gradient_tol=1e-9, max_iter=3000), 2e-4
    return dict(gradient_tol=1e-8, max_iter=3000), 1e-2


def usable(fam, lk, table, alpha, l1, P1, P2, fi):
    """Is the optimum unique (and finite)?"""
    p = data.X(table).shape[1]
    k = ref.Fam(fam)
    if alpha == 0:
        if table in ("onehot", "cats", "wide", "sparse") and (fi or table == "wide"):
            return False
        if table == "sparse" or (k.kind == "binomial" and table != "three"):
            return False
    if P2 == "vec" or (l1 == 1):  # some columns unpenalised
        if table in ("onehot", "cats", "wide", "sparse"):
            return False
        if k.kind == "binomial" and table != "three":
            return False
    if fam in ("invgauss", "ghs") and alpha == 0 and table in ("sparse", "onehot"):
        return False
    return True


def make(fam, lk, est=None, **kw):
    cls = glum.GeneralizedLinearRegressorCV if est == "cv" else glum.GeneralizedLinearRegressor
    return cls(family=g.family(fam), link=g.link(lk), **kw)


def compare(ctx, sig, a, b, tol, what, dicpt=0.0, dcoef=0.0, skip=False):
    ca, cb = np.asarray(a.coef_, float), np.asarray(b.coef_, float)
    ia, ib = float(a.intercept_), float(b.intercept_)
    sc = 1 + np.abs(cb).max()
    e = max(np.abs(ca + dcoef - cb).max() / sc, abs(ia + dicpt - ib) / (sc + abs(ib)))
    ctx.outcome(sig, np.round(cb, 3).tolist())
    ctx.check(e <= tol, sig, lambda: f"{what}: {ca + dcoef} {ia + dicpt} vs {cb} {ib} (error {e:.2e})")
    ctx.trace()
    return e <= tol


def bnds(kind, p):
    if kind is None:
        return {}
    lo, up = np.full(p, -np.inf), np.full(p, np.inf)
    if kind == "pos":
        lo[1:] = 0.0
    elif kind == "box":
        lo[0], up[0] = -0.2, 0.15
        up[-1] = 0.1
    return dict(lower_bounds=lo, upper_bounds=up)


def run_shift(case, ctx):
    f, lk, t, rel = (case[k] for k in ("fam", "link", "table", "rel"))
    X = data.X(t)
    y = data.y(t, f)
    n, p = X.shape
    step = 1 if case["deep"] else 5
    combos = []
    for (fi, sp), (alpha, l1, P1, P2), wt, bd in itertools.product(
            ISC, penalties(f), ("none", "varied", "zeros"), (None, "pos", "box")):
        if not usable(f, lk, t, alpha, l1, P1, P2, fi):
            continue
        for s in solvers(l1 > 0 and alpha > 0, bd is not None):
            if f == "invgauss" and s in ("lbfgs", "trust-constr"):  # not convex: other stationary points
                continue
            combos.append((fi, sp, alpha, l1, P1, P2, wt, bd, s))
    for k, (fi, sp, alpha, l1, P1, P2, wt, bd, s) in enumerate(combos):
        if k % step:  # the quick tier takes every fifth configuration, in a fixed pattern
            continue
        w = data.weights(t, wt)
        base = data.offset(t, "varied") if k % 2 else np.zeros(n)
        kw, tol = tols(s)
        kw.update(alpha=alpha, l1_ratio=l1, fit_intercept=fi, scale_predictors=sp, solver=s,
                  **bnds(bd, p))
        P1v, P2v = fit.make_P1(P1, p), fit.make_P2(P2, p)
        if rel == "const":
            if not fi:
                continue
            kw.update(P1=P1v, P2=P2v)
            a0, ok0, _ = fit.fit(make(f, lk, **kw), X, y, sample_weight=w, offset=base)
            c = CONST[k % 3]
            a1, ok1, _ = fit.fit(make(f, lk, **kw), X, y, sample_weight=w, offset=base + c)
            ctx.op(2)
            ctx.state(f, lk, t, rel, k)
            if not (ok0 and ok1):
                ctx.skipped += 1
                continue
            compare(ctx, f"const:{f}:{lk}:{s}", a1, a0, tol, f"offset {c} more; {kw} w={wt} P1={P1} P2={P2}", dicpt=c)
        elif rel == "lin":
            # the first column loses its penalty and its bounds
            if f == "binomial" and t != "three" or t in ("onehot", "cats"):
                J = [p - 1] if t != "onehot" else [p - 2]
            else:
                J = [0] if k % 2 else [0, p - 1]
            M1 = np.array(fit.num_P1(P1v, p), float)
            M2 = np.array(fit.num_P2(P2v, p), float)
            M1[J] = 0
            M2[J, :] = 0
            M2[:, J] = 0
            if np.linalg.eigvalsh(M2).min() < -1e-12:
                continue
            M1[[j for j in range(p) if j not in J]] += 0.0
            kw.update(P1=M1, P2=sps.csc_matrix(M2) if P2 == "csc" else (np.diag(M2).copy() if P2 in ("identity", "vec") else M2))
            if "lower_bounds" in kw:
                kw["lower_bounds"][J] = -np.inf
                kw["upper_bounds"][J] = np.inf
            d = np.zeros(p)
            d[J] = [0.4, -0.25][: len(J)]
            a0, ok0, _ = fit.fit(make(f, lk, **kw), X, y, sample_weight=w, offset=base)
            a1, ok1, _ = fit.fit(make(f, lk, **kw), X, y, sample_weight=w, offset=base + X @ d)
            ctx.op(2)
            ctx.state(f, lk, t, rel, k)
            if not (ok0 and ok1):
                ctx.skipped += 1
                continue
            compare(ctx, f"lin:{f}:{lk}:{s}", a1, a0, tol, f"offset X@{d}; {kw} w={wt}", dcoef=d)
        elif rel == "fixed":
            # an extra column equal to the offset whose coefficient is held at one
            s2 = s if s in ("auto", "irls-cd") else "irls-cd"
            o = data.offset(t, "varied")
            kw.update(P1=np.array(fit.num_P1(P1v, p), float), P2=fit.num_P2(P2v, p), solver=s2)
            lo = kw.pop("lower_bounds", np.full(p, -np.inf))
            up = kw.pop("upper_bounds", np.full(p, np.inf))
            a1, ok1, _ = fit.fit(make(f, lk, **kw, lower_bounds=lo, upper_bounds=up), X, y, sample_weight=w, offset=o)
            kw["P1"] = np.append(kw["P1"], 0.0)
            kw["P2"] = np.pad(kw["P2"], ((0, 1), (0, 1)))
            tol = tols(s2)[1]
            a0, ok0, _ = fit.fit(make(f, lk, **kw, lower_bounds=np.append(lo, 1.0), upper_bounds=np.append(up, 1.0)),
                                 np.column_stack([X, o]), y, sample_weight=w)
            ctx.op(2)
            ctx.state(f, lk, t, rel, k)
            if not (ok0 and ok1):
                ctx.skipped += 1
                continue
            ca, cb = a1.coef_, a0.coef_
            e = max(np.abs(ca - cb[:-1]).max(), abs(cb[-1] - 1.0), abs(a1.intercept_ - a0.intercept_)) / (1 + np.abs(cb).max() + abs(a0.intercept_))
            ctx.outcome("fixed", np.round(cb, 3).tolist())
            ctx.check(e <= tol, f"fixed:{f}:{lk}:{s2}",
                      lambda: f"{kw} w={wt} bounds={bd}: {ca} {a1.intercept_} vs {cb} {a0.intercept_} ({e:.2e})")
            ctx.trace()


def run_exposure(case, ctx):
    """Log link: offset log(e) on y equals y/e weighted by w * e**(2-p)."""
    f, lk, t = case["fam"], case["link"], case["table"]
    X, y = data.X(t), data.y(t, f)
    n, p = X.shape
    pw = ref.Fam(f).p
    e = np.resize([0.5, 1.0, 2.0, 3.0, 0.25, 1.5, 0.8], n)
    for (fi, sp), (alpha, l1, P1, P2), wt in itertools.product(ISC, penalties(f), ("none", "varied", "zeros")):
        if not usable(f, lk, t, alpha, l1, P1, P2, fi):
            continue
        if sp and alpha > 0:  # the scaling itself depends on the weights
            continue
        for s in solvers(l1 > 0 and alpha > 0, False):
            if f == "invgauss" and s in ("lbfgs", "trust-constr"):  # not convex: other stationary points
                continue
            kw, tol = tols(s)
            w = data.weights(t, wt)
            wv = np.ones(n) if w is None else w
            w2 = wv * e ** (2 - pw)
            kw.update(l1_ratio=l1, P1=fit.make_P1(P1, p), P2=fit.make_P2(P2, p), fit_intercept=fi, scale_predictors=sp, solver=s)
            a1, ok1, _ = fit.fit(make(f, lk, alpha=alpha, **kw), X, y, sample_weight=w, offset=np.log(e))
            a0, ok0, _ = fit.fit(make(f, lk, alpha=alpha * wv.sum() / w2.sum(), **kw), X, y / e, sample_weight=w2)
            ctx.op(2)
            ctx.state(f, t, fi, sp, alpha, l1, P1, P2, wt, s)
            if not (ok0 and ok1):
                ctx.skipped += 1
                continue
            compare(ctx, f"exposure:{f}:{s}", a1, a0, tol, f"{kw} alpha={alpha} w={wt}")


def forms(o):
    """Every documented form of the same offset."""
    n = len(o)
    big = np.zeros(2 * n)
    big[::2] = o
    ro = o.copy()
    ro.flags.writeable = False
    import polars as pl
    return {
        "array": o.copy(), "list": list(o), "tuple": tuple(o), "series": pd.Series(o, index=np.arange(n)[::-1] * 3),
        "named": pd.Series(o, name="off", index=[f"r{i}" for i in range(n)]), "strided": big[::2], "readonly": ro,
        "nullable": pd.Series(o).astype("Float64"), "polars": pl.Series("o", o), "reversed": o[::-1].copy()[::-1],
        "longlist": [np.float64(v) for v in o],
    }


def same(ctx, sig, got, want, tol, what):
    got, want = np.asarray(got, float), np.asarray(want, float)
    ok = got.shape == want.shape and np.allclose(got, want, rtol=tol, atol=tol, equal_nan=True)
    ctx.check(ok, sig, lambda: f"{what}: {got.ravel()[:6]} vs {want.ravel()[:6]}")
    ctx.op()


def run_forms(case, ctx):
    f, lk, t = case["fam"], case["link"], case["table"]
    X, y = data.X(t), data.y(t, f)
    n, p = X.shape
    o = np.round(data.offset(t, "varied") * 4) / 4  # exact in single precision
    cats = pd.DataFrame(X, columns=[f"c{j}" for j in range(p)])
    conts = {"array": X, "frame": cats, "csc": sps.csc_matrix(X), "fortran": np.asfortranarray(X),
             "tabmat": tm.SplitMatrix([tm.DenseMatrix(X[:, :1].copy()), tm.SparseMatrix(sps.csc_matrix(X[:, 1:]))])}
    cfgs = [dict(alpha=0.05, l1_ratio=0.0), dict(alpha=0.05, l1_ratio=0.5), dict(alpha=0.05, l1_ratio=0.0, scale_predictors=True)]
    h = ref.link(lk)[2]
    for kw, wt in itertools.product(cfgs, ("none", "varied")):
        w = data.weights(t, wt)
        kw = dict(kw, gradient_tol=1e-9, max_iter=1000)
        want, ok, _ = fit.fit(make(f, lk, **kw), X, y, sample_weight=w, offset=o)
        zero, ok2, _ = fit.fit(make(f, lk, **kw), X, y, sample_weight=w)
        ctx.op(2)
        if not (ok and ok2):
            ctx.skipped += 1
            continue
        tol = 1e-9
        eta0 = X @ want.coef_ + want.intercept_
        for cn, C in conts.items():
            for fn, O in forms(o).items():
                ctx.state(f, lk, t, cn, fn, wt, str(kw))
                a, ok, _ = fit.fit(make(f, lk, **kw), C, y, sample_weight=w, offset=O)
                ctx.op()
                compare(ctx, f"form:{fn}:{cn}", a, want, 1e-6, f"{kw} w={wt}")
                for est, e0, wh in ((want, eta0, "eta"),):
                    same(ctx, f"form-eta:{fn}:{cn}", est.linear_predictor(C, offset=O), e0 + o, tol, kw)
                    same(ctx, f"form-mu:{fn}:{cn}", est.predict(C, offset=O), h(e0 + o), tol, kw)
            if cn != "array" and not case["deep"]:
                continue
            sc = want.score(C, y, sample_weight=w, offset=o)
            for fn, O in forms(o).items():
                same(ctx, f"form-score:{fn}:{cn}", want.score(C, y, sample_weight=w, offset=O), sc, tol, kw)
                if t not in ("sparse", "onehot") and cn in ("array", "frame"):
                    cov = want.covariance_matrix(C, y, sample_weight=w, offset=o)
                    same(ctx, f"form-cov:{fn}:{cn}", want.covariance_matrix(C, y, sample_weight=w, offset=O), cov, 1e-8, kw)
        # scalars stand for constant offsets; omitting means zero
        for c in (0, 0.0, 1, -0.5, np.float64(0.25), np.float32(0.5), np.int64(2)):
            O = np.full(n, float(c))
            ctx.state(f, lk, t, "scalar", str(c), wt, str(kw))
            a, _, _ = fit.fit(make(f, lk, **kw), X, y, sample_weight=w, offset=c)
            b, _, _ = fit.fit(make(f, lk, **kw), X, y, sample_weight=w, offset=O)
            ctx.op(2)
            compare(ctx, f"scalar:{type(c).__name__}", a, b, 1e-9, f"{kw} w={wt} {c!r}")
            if float(c) == 0:
                compare(ctx, f"omitted:{type(c).__name__}", a, zero, 1e-9, f"{kw} w={wt} {c!r}")
            same(ctx, "scalar-eta", want.linear_predictor(X, offset=c), eta0 + float(c), tol, repr(c))
            same(ctx, "scalar-mu", want.predict(X, offset=c), h(eta0 + float(c)), tol, repr(c))
            same(ctx, "scalar-score", want.score(X, y, sample_weight=w, offset=c), want.score(X, y, sample_weight=w, offset=O), tol, repr(c))
            if t not in ("sparse", "onehot"):
                same(ctx, "scalar-cov", want.covariance_matrix(X, y, sample_weight=w, offset=c),
                     want.covariance_matrix(X, y, sample_weight=w, offset=O), tol, repr(c))
        same(ctx, "omitted-eta", want.linear_predictor(X), eta0, tol, kw)
        same(ctx, "omitted-mu", want.predict(X), h(eta0), tol, kw)
        same(ctx, "omitted-none", want.predict(X, offset=None), h(eta0), tol, kw)
        same(ctx, "omitted-score", want.score(X, y, sample_weight=w), want.score(X, y, sample_weight=w, offset=np.zeros(n)), tol, kw)
        # integers and single precision hold the same numbers
        oi = np.resize([0, 1, -1, 2, 0], n)
        b, _, _ = fit.fit(make(f, lk, **kw), X, y, sample_weight=w, offset=oi.astype(float))
        for dt in ("i8", "i4", "i1", "f4", "f2"):
            a, _, _ = fit.fit(make(f, lk, **kw), X, y, sample_weight=w, offset=oi.astype(dt))
            ctx.op()
            compare(ctx, f"dtype:{dt}", a, b, 1e-6, f"{kw} w={wt}")
            same(ctx, f"dtype-eta:{dt}", want.linear_predictor(X, offset=oi.astype(dt)), eta0 + oi, tol, kw)


COVARGS = [dict(), dict(robust=False), dict(robust=False, expected_information=True), dict(robust=True, expected_information=True)]


def run_query(case, ctx):
    """Queries of two fits related by an offset agree when the same offset is passed."""
    f, lk, t = case["fam"], case["link"], case["table"]
    X, y = data.X(t), data.y(t, f)
    n, p = X.shape
    base = data.offset(t, "varied")
    h = ref.link(lk)[2]
    d = np.zeros(p)
    d[0], d[-1] = 0.4, -0.25
    for (fi, sp), alpha, wt, s in itertools.product(ISC, (0, 0.05), ("none", "varied", "zeros"), ("auto", "irls-cd")):
        if not usable(f, lk, t, alpha, 0, "identity", "identity", fi):
            continue
        w = data.weights(t, wt)
        kw = dict(alpha=alpha, fit_intercept=fi, scale_predictors=sp, solver=s, gradient_tol=1e-11, max_iter=3000)
        rels = []
        if fi:
            rels.append(("const", 1.1 + np.zeros(n), 1.1, 0 * d))
        if alpha == 0:
            rels.append(("lin", X @ d, 0.0, d))
        a0, ok0, _ = fit.fit(make(f, lk, **kw), X, y, sample_weight=w, offset=base)
        ctx.op()
        if not ok0:
            ctx.skipped += 1
            continue
        for name, o, di, dc in rels:
            a1, ok1, _ = fit.fit(make(f, lk, **kw), X, y, sample_weight=w, offset=base + o)
            ctx.op()
            ctx.state(f, lk, t, fi, sp, alpha, wt, s, name)
            if not ok1:
                ctx.skipped += 1
                continue
            what = f"{kw} w={wt} {name}"
            tol = 2e-6
            compare(ctx, f"q:{name}", a1, a0, tol, what, dicpt=di, dcoef=dc)
            same(ctx, f"q-eta:{name}", a1.linear_predictor(X, offset=base + o), a0.linear_predictor(X, offset=base), 1e-5, what)
            same(ctx, f"q-mu:{name}", a1.predict(X, offset=base + o), a0.predict(X, offset=base), 1e-5, what)
            if w is None:
                same(ctx, f"q-score:{name}", a1.score(X, y, offset=base + o), a0.score(X, y, offset=base), 1e-6, what)
            same(ctx, f"q-wscore:{name}", a1.score(X, y, sample_weight=w, offset=base + o),
                 a0.score(X, y, sample_weight=w, offset=base), 1e-6, what)
            if t in ("sparse", "onehot"):  # no unique inverse
                continue
            for ca in COVARGS:
                v1 = a1.covariance_matrix(X, y, sample_weight=w, offset=base + o, **ca)
                v0 = a0.covariance_matrix(X, y, sample_weight=w, offset=base, **ca)
                same(ctx, f"q-cov:{name}", v1, v0, 1e-4, f"{what} {ca}")
                same(ctx, f"q-se:{name}", a1.std_errors(X, y, sample_weight=w, offset=base + o, **ca), np.sqrt(np.diag(v0)), 1e-4, what)
            st1, _, _ = fit.fit(make(f, lk, **kw), X, y, sample_weight=w, offset=base + o, store_covariance_matrix=True)
            same(ctx, f"q-stored:{name}", st1.covariance_matrix(), a0.covariance_matrix(X, y, sample_weight=w, offset=base), 1e-4, what)
            tab1 = a1.coef_table(X, y, sample_weight=w, offset=base + o)
            tab0 = a0.coef_table(X, y, sample_weight=w, offset=base)
            # se of a shifted model unchanged; the shifted coefficients' t values are not
            same(ctx, f"q-table:{name}", tab1["se"], tab0["se"], 1e-4, what)
            same(ctx, f"q-table-coef:{name}", tab1["coef"].to_numpy()[-p:] + dc, tab0["coef"].to_numpy()[-p:], 1e-5, what)
            R = np.zeros((1, p + fi))
            R[0, -2] = 1.0
            dd = R[0, -p:] @ dc
            wt1 = a1.wald_test(X, y, R=R, r=np.array([0.1 - dd]), sample_weight=w, offset=base + o)
            wt0 = a0.wald_test(X, y, R=R, r=np.array([0.1]), sample_weight=w, offset=base)
            same(ctx, f"q-wald:{name}", wt1.test_statistic, wt0.test_statistic, 1e-3, what)


def run_path(case, ctx):
    f, lk, t = case["fam"], case["link"], case["table"]
    X, y = data.X(t), data.y(t, f)
    n, p = X.shape
    base = data.offset(t, "varied")
    h = ref.link(lk)[2]
    for (sp, l1, wt, al, c, s) in itertools.product((False, True), (0.5, 1.0), ("none", "varied"), ("auto", "given"), CONST[:2], ("auto", "irls-cd")):
        if al == "auto" and lk == "cloglog":  # the largest alpha rests on an approximate null model
            continue
        w = data.weights(t, wt)
        kw = dict(alpha_search=True, l1_ratio=l1, scale_predictors=sp, solver=s, gradient_tol=1e-10, max_iter=3000)
        kw.update(dict(alpha=[0.3, 0.1, 0.02]) if al == "given" else dict(n_alphas=5, min_alpha_ratio=0.05))
        a0, ok0, _ = fit.fit(make(f, lk, **kw), X, y, sample_weight=w, offset=base)
        a1, ok1, _ = fit.fit(make(f, lk, **kw), X, y, sample_weight=w, offset=base + c)
        ctx.op(2)
        ctx.state(f, t, sp, l1, wt, al, c, s)
        if not (ok0 and ok1):
            ctx.skipped += 1
            continue
        what = f"{kw} w={wt} c={c}"
        same(ctx, "path-alphas", a1._alphas, a0._alphas, 1e-7, what)
        same(ctx, "path-coef", a1.coef_path_, a0.coef_path_, 2e-6, what)
        same(ctx, "path-icpt", np.asarray(a1.intercept_path_) + c, a0.intercept_path_, 3e-6, what)
        for k in range(len(a0._alphas)):
            e = X @ a0.coef_path_[k] + a0.intercept_path_[k] + base
            same(ctx, "path-eta", a1.linear_predictor(X, offset=base + c, alpha_index=k), e, 1e-5, what)
            same(ctx, "path-mu", a1.predict(X, offset=base + c, alpha_index=k), h(e), 1e-5, what)
        ks = list(range(len(a0._alphas)))
        E = X @ a0.coef_path_[ks].T + np.asarray(a0.intercept_path_)[ks] + base[:, None]
        same(ctx, "path-etas", a1.linear_predictor(X, offset=base + c, alpha_index=ks), E, 1e-5, what)
        same(ctx, "path-mus", a1.predict(X, offset=base + c, alpha_index=ks), h(E), 1e-5, what)
        ctx.trace()


def run_cv(case, ctx):
    f, lk, t = case["fam"], case["link"], case["table"]
    X, y = data.X(t), data.y(t, f)
    n, p = X.shape
    base = data.offset(t, "varied")
    for (sp, l1, wt, al) in itertools.product((False, True), (0.5, [0.3, 1.0]), ("none", "varied"), ("auto", "given")):
        if al == "auto" and lk == "cloglog":
            continue
        w = data.weights(t, wt)
        c = CONST[0]
        kw = dict(est="cv", l1_ratio=l1, scale_predictors=sp, cv=3, gradient_tol=1e-10, max_iter=3000)
        kw.update(dict(alphas=[0.3, 0.1, 0.02]) if al == "given" else dict(n_alphas=4, min_alpha_ratio=0.05))
        a0, ok0, _ = fit.fit(make(f, lk, **kw), X, y, sample_weight=w, offset=base)
        a1, ok1, _ = fit.fit(make(f, lk, **kw), X, y, sample_weight=w, offset=base + c)
        a2, _, _ = fit.fit(make(f, lk, **kw), X, y, sample_weight=w, offset=c)
        a3, _, _ = fit.fit(make(f, lk, **kw), X, y, sample_weight=w)
        a4, _, _ = fit.fit(make(f, lk, **kw), X, y, sample_weight=w, offset=list(base))
        ctx.op(5)
        ctx.state(f, t, sp, str(l1), wt, al)
        if not (ok0 and ok1):
            ctx.skipped += 1
            continue
        what = f"{kw} w={wt}"
        for nm, b, a, dc in (("const", a1, a0, c), ("scalar", a2, a3, c), ("list", a4, a0, 0.0)):
            same(ctx, f"cv-alphas:{nm}", b.alphas_, a.alphas_, 1e-6, what)
            same(ctx, f"cv-dev:{nm}", b.deviance_path_, a.deviance_path_, 1e-5, what)
            same(ctx, f"cv-alpha:{nm}", b.alpha_, a.alpha_, 1e-6, what)
            same(ctx, f"cv-path:{nm}", b.coef_path_, a.coef_path_, 1e-5, what)
            same(ctx, f"cv-icpts:{nm}", np.asarray(b.intercept_path_) + dc, a.intercept_path_, 1e-5, what)
            compare(ctx, f"cv:{nm}", b, a, 1e-5, what, dicpt=dc)


def run_hist(case, ctx):
    """Offsets of earlier fits and queries leave nothing behind."""
    f, lk = case["fam"], case["link"]
    t = "three"
    X, y = data.X(t), data.y(t, f)
    n = len(y)
    h = ref.link(lk)[2]
    offs = {"no": None, "a": data.offset(t, "varied"), "b": np.resize([1.0, -0.5, 0.3], n), "c": 0.4}
    for kw in (dict(alpha=0.05), dict(alpha=0.05, l1_ratio=0.5, scale_predictors=True), dict(alpha=0, fit_intercept=False)):
        kw = dict(kw, gradient_tol=1e-10, max_iter=2000)
        want = {k: fit.fit(make(f, lk, **kw), X, y, offset=o)[0] for k, o in offs.items()}
        depth = 4 if case["deep"] else 3
        for seq in itertools.product(offs, repeat=depth):
            est = make(f, lk, **kw)
            for i, k in enumerate(seq[:-1]):
                fit.fit(est, X, y, offset=offs[k])
                ctx.op()
            q = seq[-1]
            w = want[seq[-2]]
            ctx.state(f, str(kw), seq)
            compare(ctx, "hist", est, w, 1e-9, f"{kw} {seq}")
            for q2 in (q, seq[0]):
                o = offs[q2]
                e = X @ w.coef_ + w.intercept_ + (0 if o is None else o)
                same(ctx, "hist-eta", est.linear_predictor(X, offset=o), e, 1e-9, f"{seq} {q2}")
                same(ctx, "hist-mu", est.predict(X, offset=o), h(e), 1e-9, f"{seq} {q2}")
                same(ctx, "hist-score", est.score(X, y, offset=o), w.score(X, y, offset=o), 1e-9, f"{seq} {q2}")
                same(ctx, "hist-cov", est.covariance_matrix(X, y, offset=o), w.covariance_matrix(X, y, offset=o), 1e-8, f"{seq} {q2}")


def run(case, ctx):
    globals()["run_" + case["block"]](case, ctx)
