"""C07: the same numbers in every container, layout and element type."""

import itertools

import glum
import numpy as np
import pandas as pd
import polars as pl
import scipy.sparse as sps
import tabmat as tm

from .. import data, fit, g, ref

ID = "C07"
RULE = (
    "Every storage form of X (and of y, weights, offset) of a finite list, crossed with tables and option "
    "sets, is fitted, and every pair (form at fit, form at prediction) is queried; each is compared with the "
    "C-ordered double precision array. A state is one (table, options, form at fit, form at query); a "
    "transition one real call."
)
ASSUMPTIONS = ["single precision is compared to 2e-3, everything else to 1e-6 after fitting to a tight tolerance"]


def strided(X):
    big = np.full((2 * X.shape[0], 3 * X.shape[1]), np.nan)
    big[::2, ::3] = X
    return big[::2, ::3]


def negstride(X):
    return np.ascontiguousarray(X[::-1, ::-1])[::-1, ::-1]


def readonly(X):
    X = X.copy()
    X.flags.writeable = False
    return X


def unsorted_csc(X):
    m = sps.csc_matrix(X)
    idx, dat = m.indices.copy(), m.data.copy()
    for j in range(m.shape[1]):
        s = slice(m.indptr[j], m.indptr[j + 1])
        idx[s], dat[s] = idx[s][::-1].copy(), dat[s][::-1].copy()
    return sps.csc_matrix((dat, idx, m.indptr.copy()), shape=m.shape)


def duplicate_coo(X):
    r, c = np.nonzero(X)
    v = X[r, c]
    return sps.coo_matrix((np.concatenate([v * 0.25, v * 0.75]), (np.tile(r, 2), np.tile(c, 2))), shape=X.shape)


def explicit_zero(X):
    m = sps.csc_matrix(np.where(X == 0, 1.0, X))
    m.data[:] = np.asarray(X).T.ravel()
    return m


def split(X):
    k = X.shape[1] // 2
    return tm.SplitMatrix([tm.DenseMatrix(np.asfortranarray(X[:, :k])), tm.SparseMatrix(sps.csc_matrix(X[:, k:]))])


def split_mixed(X):
    k = X.shape[1]
    a, b = list(range(0, k, 2)), list(range(1, k, 2))
    return tm.SplitMatrix([tm.SparseMatrix(sps.csc_matrix(X[:, a])), tm.DenseMatrix(np.asfortranarray(X[:, b]))], [np.array(a), np.array(b)])


def names(X):
    return [f"v{j}" for j in range(X.shape[1])]


FORMS = {
    "C": lambda X: np.ascontiguousarray(X),
    "F": np.asfortranarray,
    "strided": strided,
    "negstride": negstride,
    "readonly": readonly,
    "list": lambda X: X.tolist(),
    "object": lambda X: X.astype(object),
    "csc": sps.csc_matrix, "csr": sps.csr_matrix, "coo": sps.coo_matrix, "lil": sps.lil_matrix, "dok": sps.dok_matrix,
    "bsr": sps.bsr_matrix, "csc_array": sps.csc_array, "csr_array": sps.csr_array,
    "unsorted": unsorted_csc, "duplicates": duplicate_coo, "explicit0": explicit_zero,
    "csc64": lambda X: sps.csc_matrix((lambda m: (m.data, m.indices.astype(np.int64), m.indptr.astype(np.int64)))(sps.csc_matrix(X)), shape=X.shape),
    "tm.Dense": lambda X: tm.DenseMatrix(np.asfortranarray(X)), "tm.DenseC": lambda X: tm.DenseMatrix(np.ascontiguousarray(X)),
    "tm.Sparse": lambda X: tm.SparseMatrix(sps.csc_matrix(X)), "tm.Split": split, "tm.Mixed": split_mixed,
    "tm.pandas": lambda X: tm.from_df(pd.DataFrame(X, columns=names(X))),
    "pandas": lambda X: pd.DataFrame(X, columns=names(X)),
    "pandas-index": lambda X: pd.DataFrame(X, columns=names(X), index=np.arange(len(X))[::-1] * 3),
    "pandas-F": lambda X: pd.DataFrame(np.asfortranarray(X), columns=names(X)),
    "pandas-percol": lambda X: pd.DataFrame({c: X[:, j].copy() for j, c in enumerate(names(X))}),
    "pandas-slice": lambda X: pd.DataFrame(np.repeat(X, 2, axis=0), columns=names(X)).iloc[::2],
    "polars": lambda X: pl.DataFrame({c: X[:, j].copy() for j, c in enumerate(names(X))}),
    "polars-chunks": lambda X: pl.concat([pl.DataFrame({c: X[s, j].copy() for j, c in enumerate(names(X))}) for s in (slice(0, 3), slice(3, None))], rechunk=False),
    "tm.Sparse-of-F32data": lambda X: tm.SparseMatrix(sps.csc_matrix(np.asfortranarray(X))),
}
LOW = {  # element types (values are integers in the tables used)
    "int64": lambda X: X.astype(np.int64), "int32": lambda X: X.astype(np.int32), "int8": lambda X: X.astype(np.int8),
    "int64F": lambda X: np.asfortranarray(X.astype(np.int64)), "bool": None,
    "float32": lambda X: X.astype(np.float32), "float32F": lambda X: np.asfortranarray(X.astype(np.float32)), "float16": lambda X: X.astype(np.float16),
    "csc32": lambda X: sps.csc_matrix(X.astype(np.float32)), "csr32": lambda X: sps.csr_matrix(X.astype(np.float32)),
    "cscint": lambda X: sps.csc_matrix(X.astype(np.int64)), "csrint8": lambda X: sps.csr_matrix(X.astype(np.int8)),
    "pandas-int": lambda X: pd.DataFrame(X.astype(np.int64), columns=names(X)),
    "pandas-f32": lambda X: pd.DataFrame(X.astype(np.float32), columns=names(X)),
    "pandas-mixed": lambda X: pd.DataFrame({c: X[:, j].astype([np.int64, np.float64, np.int8][j % 3]) for j, c in enumerate(names(X))}),
    "polars-int": lambda X: pl.DataFrame({c: X[:, j].astype(np.int64) for j, c in enumerate(names(X))}),
    "polars-mixed": lambda X: pl.DataFrame({c: X[:, j].astype([np.int16, np.float64, np.int32][j % 3]) for j, c in enumerate(names(X))}),
    "tm.Dense32": lambda X: tm.DenseMatrix(np.asfortranarray(X.astype(np.float32))),
}
YFORMS = {
    "list": lambda v: np.asarray(v).tolist(), "tuple": lambda v: tuple(np.asarray(v).tolist()), "series": lambda v: pd.Series(v, name="t"),
    "series-index": lambda v: pd.Series(v, index=np.arange(len(v))[::-1] + 5), "polars": lambda v: pl.Series("t", v),
    "strided": lambda v: np.repeat(v, 3)[::3], "negstride": lambda v: np.ascontiguousarray(v[::-1])[::-1], "readonly": readonly,
    "object": lambda v: np.asarray(v, object), "column": lambda v: np.asarray(v)[:, None],
    "f32": lambda v: np.asarray(v, np.float32), "int": lambda v: np.asarray(v).astype(np.int64), "int8": lambda v: np.asarray(v).astype(np.int8),
    "frame": lambda v: pd.DataFrame({"t": v}), "bool": lambda v: np.asarray(v).astype(bool), "nullable": lambda v: pd.Series(v, dtype="Float64"),
}
OPTS = [
    dict(fam="poisson", link="log", alpha=0.05, solver="irls-ls"),
    dict(fam="poisson", link="log", alpha=0.05, l1_ratio=0.5, solver="irls-cd"),
    dict(fam="normal", link="identity", alpha=0.05, scale_predictors=True),
    dict(fam="gamma", link="log", alpha=0.05, l1_ratio=0.5, solver="irls-cd", scale_predictors=True),
    dict(fam="poisson", link="log", alpha=0.05, fit_intercept=False, solver="irls-cd", l1_ratio=0.3),
    dict(fam="tweedie:1.5", link="log", alpha=0.05, fit_intercept=False),
    dict(fam="binomial", link="logit", alpha=0.05, solver="lbfgs"),
    dict(fam="normal", link="identity", alpha=0.02, solver="trust-constr"),
    dict(fam="normal", link="identity", alpha=0.02, solver="closed-form", fit_intercept=False),
    dict(fam="normal", link="identity", alpha=0.02, solver="closed-form"),
    dict(fam="poisson", link="log", alpha=0.05, P2="mat", P1="vec", l1_ratio=0.4),
    dict(fam="poisson", link="log", alpha=0.05, bounds=True),
    dict(fam="gamma", link="log", alpha=0.05, hessian_approx=0.01, l1_ratio=0.2),
    dict(fam="normal", link="identity", alpha=0.02, copy_X=True),
    dict(fam="poisson", link="log", alpha_search=True, l1_ratio=0.8, n_alphas=4, min_alpha_ratio=0.05),
]


def cases(tier):
    out = []
    for kind in ("three", "sparse", "scales") + (("onehot", "tall") if tier != "quick" else ()):
        for o in range(len(OPTS)):
            out.append(dict(block="X", kind=kind, opt=o))
    for o in range(len(OPTS)):
        out.append(dict(block="dtype", opt=o))
    for fam in ("poisson", "normal", "binomial"):
        for solver in ("irls-ls", "irls-cd", "lbfgs"):
            out.append(dict(block="yw", fam=fam, solver=solver))
    for fam, lk in (("poisson", "log"), ("gamma", "log"), ("normal", "identity")):
        for lib in ("pandas", "polars-enum", "polars-cat", "tabmat", "tabmat-dense"):
            for drop in (False, True):
                for extra in (False, True):
                    out.append(dict(block="cat", fam=fam, link=lk, lib=lib, drop=drop, extra=extra))
    out.append(dict(block="cross", kind="three"))
    out.append(dict(block="cross", kind="sparse"))
    return out


def close(a, b, t):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= t * (1 + np.abs(b))))


def build(o, p, **over):
    o = dict(o)
    fam, lk = o.pop("fam"), o.pop("link")
    if o.get("P2") == "mat":
        o["P2"] = data.P2_dense(p)
    if o.get("P1") == "vec":
        o["P1"] = data.vec1(p)
    if o.pop("bounds", False):
        o["lower_bounds"] = np.full(p, -0.05)
        o["upper_bounds"] = np.full(p, 0.15)
    o.update(gradient_tol=1e-8, max_iter=500)
    o.update(over)
    return fit.estimator(fam, lk, **o)


def same(ctx, a, b, tol, sig, what):
    ctx.check(close(a.intercept_, b.intercept_, tol) and close(a.coef_, b.coef_, tol), f"coefficients:{sig}",
              lambda: f"{what}: {a.intercept_} {a.coef_} instead of {b.intercept_} {b.coef_}")
    if hasattr(b, "coef_path_") and b.coef_path_ is not None:
        ctx.check(close(a._alphas, b._alphas, tol) and close(a.coef_path_, b.coef_path_, tol * 10), f"path:{sig}", what)


def queries(ctx, est, base, Xf, X, y, w, off, tol, sig, what):
    """Every query, given the form Xf, against the canonical storage."""
    for nm, f in (
        ("linear_predictor", lambda e, Z: e.linear_predictor(Z, offset=off)),
        ("predict", lambda e, Z: e.predict(Z, offset=off)),
        ("score", lambda e, Z: e.score(Z, y, sample_weight=w, offset=off)),
    ):
        ctx.op()
        r = np.asarray(f(est, Xf))
        ctx.check(close(r, f(base, X), tol), f"{nm}:{sig}", lambda: f"{what}: {r}")


def se(ctx, est, base, Xf, X, y, w, off, tol, sig, what):
    for kw in (dict(), dict(robust=False), dict(robust=False, expected_information=True), dict(clusters=np.resize([2, 0, 1, 1, 0], len(y)))):
        ctx.op()
        b = base.std_errors(X, y, sample_weight=w, offset=off, **kw)
        a = est.std_errors(Xf, y, sample_weight=w, offset=off, **kw)
        # a difference of t in the coefficients becomes a larger one here
        ctx.check(close(a / np.maximum(np.abs(b), 1e-3), b / np.maximum(np.abs(b), 1e-3), tol * 50), f"std-errors:{sig}", lambda: f"{what} {kw}: {a} {b}")


def run_X(case, ctx):
    X = data.X(case["kind"])
    o = OPTS[case["opt"]]
    y, w, off = np.asarray(data.y(case["kind"], o["fam"]), float), data.weights(case["kind"], "varied"), data.offset(case["kind"], "varied")
    base = build(o, X.shape[1])
    base, ok, _ = fit.fit(base, np.array(X), y, sample_weight=w, offset=off)
    ctx.note("base converged" if ok else "base not converged")
    loose = o.get("solver") in ("lbfgs", "trust-constr") or not ok
    tol = 2e-3 if loose else 2e-6
    forms = FORMS if o.get("copy_X") is not False else {}
    for nm, f in forms.items():
        Z = f(np.array(X))
        est = build(o, X.shape[1])
        ctx.op()
        ctx.state(case, nm)
        est, ok, _ = fit.fit(est, Z, y, sample_weight=w, offset=off)
        same(ctx, est, base, tol, nm, case)
        if not o.get("alpha_search"):
            Z2 = f(np.array(X))
            queries(ctx, est, base, Z2, X, y, w, off, tol, nm, case)
            if not loose and o.get("l1_ratio", 0) == 0 and not o.get("bounds") and case["kind"] != "onehot":
                se(ctx, est, base, Z2, np.array(X), y, w, off, tol, nm, case)
        else:
            for k in range(4):
                ctx.op()
                ctx.check(close(est.predict(f(np.array(X)), alpha_index=k, offset=off), base.predict(X, alpha_index=k, offset=off), 1e-5), f"predict-path:{nm}", k)
        if hasattr(Z, "columns") or "DataFrame" in type(Z).__name__:
            ctx.check(list(est.feature_names_) == names(X), f"names:{nm}", est.feature_names_)
        ctx.outcome(nm, np.round(est.coef_, 3).tolist())
        ctx.trace()


def run_cross(case, ctx):
    """Fit on one form, query on another."""
    X = data.X(case["kind"])
    y = np.asarray(data.y(case["kind"], "poisson"), float)
    kw = dict(fam="poisson", link="log", alpha=0.05)
    base = build(kw, X.shape[1]).fit(np.array(X), y)
    for fa, fb in itertools.product(FORMS, FORMS):
        if fa not in ("C", "csr", "tm.Split", "pandas", "polars", "tm.Mixed", "F") and fb not in ("C", "csr", "pandas", "polars"):
            continue
        frame = lambda k: k.startswith(("pandas", "polars", "arrow"))  # noqa
        est = build(kw, X.shape[1]).fit(FORMS[fa](np.array(X)), y)
        ctx.state(case, fa, fb)
        ctx.op(2)
        Z = FORMS[fb](np.array(X))
        ctx.check(close(est.predict(Z), base.predict(np.array(X)), 1e-6), f"cross:{fa}:{fb}", "")
        ctx.outcome(fa, fb)
        ctx.trace()


def run_dtype(case, ctx):
    o = OPTS[case["opt"]]
    r = np.arange(24)
    X = np.column_stack([(r * 7) % 5 - 2, (r * 3) % 4, ((r * 5) % 7) > 3]).astype(float)
    y = np.round(np.exp(0.3 + 0.1 * X[:, 0] + 0.1 * X[:, 1] + 0.3 * np.sin(r)), 1) + 1.0
    if o["fam"] == "binomial":
        y = (y > np.median(y)).astype(float)
    if o["fam"] == "poisson":
        y = np.round(y)
    w, off = np.resize([1.0, 2.0, 0.5], 24), np.resize([0.25, -0.25], 24)
    base, ok, _ = fit.fit(build(o, 3), X, y, sample_weight=w, offset=off)
    for nm, f in LOW.items():
        XX = X
        if f is None:
            XX = (X > 0).astype(float)
            f = lambda Z: Z.astype(bool)  # noqa
            bs, _, _ = fit.fit(build(o, 3), XX, y, sample_weight=w, offset=off)
        else:
            bs = base
        single = "32" in nm and "int" not in nm
        ctx.op()
        ctx.state(case, nm)
        est = build(o, 3, **(dict(gradient_tol=2e-5) if single else {}))
        est, _, _ = fit.fit(est, f(XX), y, sample_weight=w, offset=off)
        tol = 3e-3 if single or o.get("solver") in ("lbfgs", "trust-constr") else 1e-6
        same(ctx, est, bs, tol, nm, case)
        ctx.op()
        ctx.check(close(est.predict(f(XX), offset=off), bs.predict(XX, offset=off), tol * 5), f"predict:{nm}", case)
        if not single:
            ctx.check(np.asarray(est.coef_).dtype == np.float64, f"precision:{nm}", est.coef_.dtype)
        ctx.outcome(nm, np.round(est.coef_, 2).tolist())
        ctx.trace()


def run_yw(case, ctx):
    X = np.array(data.X("three"))
    n = len(X)
    fam = case["fam"]
    y = np.round(np.asarray(data.y("three", fam), float))  # whole numbers: exact in every element type
    w = np.resize([1.0, 2.0, 4.0, 1.0, 3.0], n)
    off = np.resize([1.0, 0.0, -1.0], n)
    mk = lambda: fit.estimator(fam, "auto", alpha=0.05, solver=case["solver"], gradient_tol=1e-8, max_iter=500)  # noqa
    base, _, _ = fit.fit(mk(), X, y, sample_weight=w, offset=off)
    tol = 1e-4 if case["solver"] == "lbfgs" else 1e-6
    combos = [(a, None, None) for a in YFORMS] + [(None, b, None) for b in YFORMS] + [(None, None, c) for c in YFORMS]
    combos += [(a, b, None) for a in YFORMS for b in YFORMS][::3] + [(a, None, c) for a in YFORMS for c in YFORMS][1::3]
    for a, b, c in combos:
        if a == "bool" and fam != "binomial" or b in ("bool", "column", "frame", "nullable") or c in ("bool", "column", "frame", "nullable", "object"):
            continue
        if a in ("frame", "nullable", "column") and (b or c):
            continue
        if fam != "binomial" and a == "bool":
            continue
        ctx.op(3)
        ctx.state(case, a, b, c)
        yy = YFORMS[a](y) if a else y
        ww = YFORMS[b](w) if b else w
        oo = YFORMS[c](off) if c else off
        est, _, _ = fit.fit(mk(), X, yy, sample_weight=ww, offset=oo)
        ctx.check(close(est.coef_, base.coef_, tol) and close(est.intercept_, base.intercept_, tol), f"fit:y={a}:w={b}:off={c}",
                  lambda: f"{est.intercept_} {est.coef_} {base.intercept_} {base.coef_}")
        if a not in ("frame",):
            s0 = base.score(X, y, sample_weight=w, offset=off)
            s1 = base.score(X, yy, sample_weight=ww, offset=oo)
            ctx.check(close(s1, s0, 1e-6), f"score:y={a}:w={b}:off={c}", f"{s1} {s0}")
            if c is None and b is None:
                m0 = base.covariance_matrix(X, y, sample_weight=w, offset=off)
                m1 = base.covariance_matrix(X, yy, sample_weight=ww, offset=oo)
                ctx.check(np.allclose(m1, m0, rtol=1e-4), f"covariance:y={a}:w={b}:off={c}", "")
        if c:
            ctx.check(close(base.predict(X, offset=oo), base.predict(X, offset=off), 1e-6), f"predict:off={c}", "")
        ctx.outcome(a, b, c)
        ctx.trace()
    # scalars
    for ws in (1, 2.0, np.float32(3), np.int64(2)):
        for os_ in (None, 0.5, 0, np.float32(0.5), np.int64(1)):
            ctx.op(2)
            ctx.state(case, "scalar", float(ws), os_ if os_ is None else float(os_))
            e1, _, _ = fit.fit(mk(), X, y, sample_weight=ws, offset=os_)
            e2, _, _ = fit.fit(mk(), X, y, sample_weight=np.full(n, float(ws)), offset=None if os_ is None else np.full(n, float(os_)))
            ctx.check(close(e1.coef_, e2.coef_, tol) and close(e1.intercept_, e2.intercept_, tol), "scalar", f"{ws} {os_}")
            ctx.trace()


def run_cat(case, ctx):
    n = 14
    c = np.array([0, 1, 2, 0, 1, 2, 2, 1, 0, 0, 1, 2, 2, 0])
    d = np.array([0, 1, 0, 1, 1, 0, 1, 0, 0, 1, 1, 0, 0, 1])
    z = data.X("corr")[:, 2].copy()
    lev_c, lev_d = ["lo", "mid", "hi"], ["u", "v"]
    if case["lib"] == "polars-cat":  # no declared order: glum (tabmat) sorts the labels
        lev_c = sorted(lev_c)
    fl = (case["fam"], case["link"])
    y = np.asarray(data.y("cats", fl[0]), float)
    w, off = np.resize([1.0, 2.0, 0.5], n), np.resize([0.2, -0.1, 0.4], n)
    drop, lib = case["drop"], case["lib"]
    C = (c[:, None] == np.arange(3)).astype(float)[:, int(drop):]
    D = (d[:, None] == np.arange(2)).astype(float)[:, int(drop):]
    parts, nm = [C], [f"c[{v}]" for v in lev_c[int(drop):]]
    if case["extra"]:
        parts.append(z[:, None])
        nm.append("z")
    parts.append(D)
    nm += [f"d[{v}]" for v in lev_d[int(drop):]]
    X = np.hstack(parts)

    def frame():
        if lib == "pandas":
            cols = {"c": pd.Categorical(np.array(lev_c)[c], categories=lev_c), "z": z, "d": pd.Categorical(np.array(lev_d)[d], categories=lev_d)}
            return pd.DataFrame({k: v for k, v in cols.items() if k != "z" or case["extra"]})
        if lib.startswith("polars"):
            enum = lib.endswith("enum")
            cols = {"c": pl.Series(np.array(lev_c)[c].tolist(), dtype=pl.Enum(lev_c) if enum else pl.Categorical), "z": pl.Series(z),
                    "d": pl.Series(np.array(lev_d)[d].tolist(), dtype=pl.Enum(lev_d) if enum else pl.Categorical)}
            return pl.DataFrame({k: v for k, v in cols.items() if k != "z" or case["extra"]})
        ms = [tm.CategoricalMatrix(pd.Categorical(np.array(lev_c)[c], categories=lev_c), drop_first=drop, column_name="c")]
        if case["extra"]:
            ms.append(tm.DenseMatrix(z[:, None], column_names=["z"]))
        ms.append(tm.CategoricalMatrix(pd.Categorical(np.array(lev_d)[d], categories=lev_d), drop_first=drop, column_name="d"))
        if lib == "tabmat-dense":
            ms = [tm.DenseMatrix(np.asfortranarray(m.toarray())) for m in ms]
        return tm.SplitMatrix(ms)

    isframe = not lib.startswith("tabmat")
    p = X.shape[1]
    for icpt, scale in ((True, False), (True, True), (False, False)):
        for solver in ("irls-ls", "irls-cd", "lbfgs"):
            for pen in ("ridge", "enet", "P1P2", "bounds"):
                if pen != "ridge" and solver != "irls-cd":
                    continue
                if scale and solver == "lbfgs":
                    continue
                kw = dict(alpha=0.08, solver=solver, fit_intercept=icpt, scale_predictors=scale, gradient_tol=1e-9, max_iter=500)
                kf = {}
                if pen == "enet":
                    kw.update(l1_ratio=0.4)
                elif pen == "P1P2":  # a penalty per column of the frame is expanded to its levels
                    kw.update(l1_ratio=0.4)
                    q1 = [1.0, 0.3, 2.0] if case["extra"] else [1.0, 2.0]
                    q2 = [0.5, 1.0, 0.2] if case["extra"] else [0.5, 0.2]
                    reps = [C.shape[1]] + ([1] if case["extra"] else []) + [D.shape[1]]
                    e1, e2 = np.repeat(q1, reps), np.repeat(q2, reps)
                    kf.update(P1=np.array(q1) if isframe else e1, P2=np.array(q2) if isframe else e2)
                    kw.update(P1=e1, P2=e2)
                elif pen == "bounds":
                    kw.update(lower_bounds=np.full(p, -0.1), upper_bounds=np.full(p, 0.2))
                b, okb, _ = fit.fit(fit.estimator(*fl, **kw), X, y, sample_weight=w, offset=off)
                kw.update(kf)
                if lib != "tabmat-dense":
                    kw.update(drop_first=drop, categorical_format="{name}[{category}]")
                a, oka, _ = fit.fit(fit.estimator(*fl, **kw), frame(), y, sample_weight=w, offset=off)
                ctx.op(2)
                ctx.state(case, icpt, scale, solver, pen)
                if not (oka and okb):
                    ctx.note("not converged")
                    continue
                tol = 5e-4 if solver == "lbfgs" else 1e-5
                sig = f"cat:{lib}:{pen}"
                ctx.check(close(a.coef_, b.coef_, tol) and close(a.intercept_, b.intercept_, tol), f"coefficients:{sig}",
                          lambda: f"{icpt} {scale} {solver}: {a.intercept_} {a.coef_} instead of {b.intercept_} {b.coef_}")
                queries(ctx, a, b, frame(), X, y, w, off, tol, sig, case)
                if isframe:
                    ctx.check(list(a.feature_names_) == nm, f"names:{sig}", f"{a.feature_names_} {nm}")
                if pen == "ridge" and solver == "irls-ls" and drop:
                    se(ctx, a, b, frame(), X, y, w, off, 1e-5, sig, case)
                    if isframe:
                        ct = a.coef_table(frame(), y, sample_weight=w, offset=off)
                        ctx.check(list(ct.index) == (["intercept"] if icpt else []) + nm, f"table-names:{sig}", list(ct.index))
                ctx.outcome(np.round(a.coef_, 3).tolist())
                ctx.trace()


def run(case, ctx):
    globals()["run_" + case["block"]](case, ctx)
