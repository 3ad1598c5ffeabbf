"""C13: nothing the caller passes is modified."""

import copy
import itertools
import sys
import warnings

import glum
import numpy as np
import pandas as pd
import polars as pl
import scipy.sparse as sps
import tabmat as tm

from .. import data, g

ID = "C13"
RULE = (
    "Every (storage of X, copying option, intercept, scaling, solver) with every group of passed objects and "
    "every public operation, successful and failing; all reachable bytes (the whole buffer behind a view, "
    "index arrays, labels, categories, flags) are fingerprinted before and after each operation and, for the "
    "monitored block, at every call and return of a function of the package. A state is one (configuration, "
    "operation); a transition one real call or monitored point."
)
ASSUMPTIONS = ["internal caches of scipy, pandas and polars objects that no caller can see are not compared"]


def fp(o, depth=0):
    """Everything a caller can see of an object."""
    if isinstance(o, np.ndarray):
        b = o
        while isinstance(b.base, np.ndarray):
            b = b.base
        raw = (lambda a: repr(a.tolist()) if a.dtype == object else np.asarray(a).tobytes())
        return ("nd", o.dtype.str, o.shape, o.strides, o.flags.writeable, o.flags.c_contiguous, raw(b) if b is not o else None, raw(o))
    if sps.issparse(o):
        fs = {"csr": ("data", "indices", "indptr"), "csc": ("data", "indices", "indptr"), "coo": ("data", "row", "col")}[o.format]
        return (type(o).__name__, o.shape, tuple(fp(getattr(o, f)) for f in fs))
    if isinstance(o, tm.SplitMatrix):
        return ("split", o.shape, tuple(fp(m) for m in o.matrices), tuple(fp(np.asarray(i)) for i in o.indices))
    if isinstance(o, tm.CategoricalMatrix):
        return ("cat", o.shape, fp(np.asarray(o.indices)), fp(np.asarray(o.cat)), o.drop_first, tuple(o.get_names("column")))
    if isinstance(o, (tm.DenseMatrix, tm.SparseMatrix)):
        return (type(o).__name__, o.shape, fp(o.unpack()), tuple(map(str, o.column_names)), tuple(map(str, o.term_names)))
    if isinstance(o, pd.DataFrame):
        return ("df", o.shape, tuple(map(repr, o.columns)), repr(o.columns.name), tuple(fp(o.iloc[:, i]) for i in range(o.shape[1])), fp(o.index), repr(o.attrs))
    if isinstance(o, pd.Series):
        extra = (tuple(map(repr, o.cat.categories)), o.cat.ordered, o.cat.codes.to_numpy().tobytes()) if isinstance(o.dtype, pd.CategoricalDtype) else (o.to_numpy().tobytes() if o.dtype != object else repr(o.tolist()))
        return ("series", repr(o.name), str(o.dtype), extra, fp(o.index))
    if isinstance(o, pd.Index):
        return ("index", type(o).__name__, str(o.dtype), tuple(map(repr, o)))
    if isinstance(o, (pl.DataFrame, pl.Series)):
        return ("polars", repr(o.schema if isinstance(o, pl.DataFrame) else (o.name, o.dtype)), repr(o.to_dict(as_series=False) if isinstance(o, pl.DataFrame) else o.to_list()))
    if isinstance(o, dict):
        return ("dict", tuple((repr(k), fp(v, depth + 1)) for k, v in o.items()))
    if isinstance(o, (list, tuple)):
        return (type(o).__name__, tuple(fp(v, depth + 1) for v in o))
    if isinstance(o, (str, int, float, bool, type(None), np.generic, type)) or callable(o) and not hasattr(o, "__dict__"):
        return (type(o).__name__, repr(o))
    if type(o).__name__ in ("module", "ufunc") or callable(o) and type(o).__name__ in ("function", "builtin_function_or_method", "method"):
        return ("fn", id(o))
    if hasattr(o, "__dict__") and depth < 4:
        return (type(o).__name__, tuple((k, fp(v, depth + 1)) for k, v in sorted(o.__dict__.items())))
    return (type(o).__name__, repr(o))


def X0(kind="three"):
    return np.array(data.X(kind))


def unsorted_csr(X, cls=sps.csr_matrix):
    A = cls(X)
    for i in range(len(A.indptr) - 1):
        s = slice(A.indptr[i], A.indptr[i + 1])
        A.indices[s] = A.indices[s][::-1].copy()
        A.data[s] = A.data[s][::-1].copy()
    A.has_sorted_indices = False
    return A


def dup_coo(X):
    A = sps.coo_matrix(X)
    return sps.coo_matrix((np.r_[A.data[:2] / 2, A.data[:2] / 2, A.data[2:], 0.0], (np.r_[A.row[:2], A.row[:2], A.row[2:], 1], np.r_[A.col[:2], A.col[:2], A.col[2:], 0])), shape=A.shape)


def dup_csr(X):
    A = sps.csr_matrix(X)
    ip = A.indptr.copy()
    k = A.indices[0]
    ip[1:] += 1
    return sps.csr_matrix((np.r_[A.data[0] / 2, A.data[0] / 2, A.data[1:]], np.r_[k, k, A.indices[1:]], ip), shape=A.shape)


def wide_buffer(X):
    b = np.full((X.shape[0] * 2 + 1, X.shape[1] * 2 + 1), 7.25)
    b[1::2, 1::2] = X
    return b[1::2, 1::2]


CATS = ["a", "b", "cc"]


def catframe(X):
    return pd.DataFrame({"k": pd.Categorical(np.resize(CATS, len(X)), categories=["zz", "cc", "b", "a"]), "u": X[:, 0], "v": X[:, 1].astype(np.float32), "b": np.resize([True, False], len(X)), "i": np.resize([1, 0, 2], len(X))}, index=np.arange(len(X))[::-1] * 2)


STORES = {
    "C": lambda X: np.ascontiguousarray(X), "F": np.asfortranarray, "strided": wide_buffer, "reversed": lambda X: np.ascontiguousarray(X[::-1])[::-1],
    "f32": lambda X: X.astype(np.float32), "int": lambda X: np.round(X * 3).astype(int), "bool": lambda X: X > 0, "list": lambda X: X.tolist(),
    "csc": sps.csc_matrix, "csr": sps.csr_matrix, "coo": sps.coo_matrix, "csr-unsorted": unsorted_csr, "csc-unsorted": lambda X: unsorted_csr(X, sps.csc_matrix), "coo-dup": dup_coo, "csr-dup": dup_csr, "csr-f32": lambda X: sps.csr_matrix(X.astype(np.float32)),
    "csc-array": sps.csc_array, "int-csc": lambda X: sps.csc_matrix(np.round(X).astype(int)),
    "dense": lambda X: tm.DenseMatrix(np.array(X)), "dense-F": lambda X: tm.DenseMatrix(np.asfortranarray(X)), "dense-view": lambda X: tm.DenseMatrix(wide_buffer(X)), "sparse": lambda X: tm.SparseMatrix(sps.csc_matrix(X)), "categorical": lambda X: tm.CategoricalMatrix(pd.Categorical(np.resize(CATS, len(X)))),
    "split": lambda X: tm.SplitMatrix([tm.DenseMatrix(np.asfortranarray(X[:, :2])), tm.CategoricalMatrix(pd.Categorical(np.resize(CATS, len(X))), drop_first=True), tm.SparseMatrix(sps.csc_matrix(X[:, 2:]))]),
    "split-mixed": lambda X: tm.SplitMatrix([tm.SparseMatrix(sps.csc_matrix(X[:, :1])), tm.DenseMatrix(np.asfortranarray(X[:, 1:]))], [np.array([1]), np.array([0, 2])]),
    "pandas": lambda X: pd.DataFrame(np.asfortranarray(X), columns=["p", "q", "r"]), "pandas-C": lambda X: pd.DataFrame(np.ascontiguousarray(X), columns=["p", "q", "r"]), "pandas-cat": catframe,
    "polars": lambda X: pl.DataFrame({"p": X[:, 0], "q": X[:, 1], "k": pl.Series(np.resize(CATS, len(X)), dtype=pl.Enum(CATS + ["d"]))}),
}
SOLVERS = ("auto", "irls-ls", "irls-cd", "lbfgs", "trust-constr")


def yform(y, form):
    return {"nd": lambda: np.array(y), "f32": lambda: y.astype(np.float32), "int": lambda: y.astype(int), "list": lambda: y.tolist(), "series": lambda: pd.Series(y, index=np.arange(len(y))[::-1], name="y"),
            "strided": lambda: np.repeat(y, 2)[::2], "column": lambda: y[:, None].copy(), "polars": lambda: pl.Series("y", y)}[form]()


def vec(v, form):
    v = np.asarray(v, float)
    return {"nd": lambda: v.copy(), "f32": lambda: v.astype(np.float32), "list": lambda: v.tolist(), "series": lambda: pd.Series(v, index=np.arange(len(v))[::-1]), "strided": lambda: np.repeat(v, 3)[::3], "int": lambda: np.ceil(np.abs(v)).astype(int)}[form]()


def cases(tier):
    out = []
    for st in STORES:
        for copy_X in (None, True, False):
            out.append(dict(block="store", store=st, copy_X=copy_X, thorough=tier != "quick"))
    for s in SOLVERS:
        for cv in (False, True):
            for nm in GROUPS:
                out.append(dict(block="params", solver=s, cv=cv, name=nm))
    for st in ("C", "F", "csr-unsorted", "csc", "split", "split-mixed", "pandas-cat", "dense-F", "strided", "polars") if tier == "quick" else STORES:
        for s in ("auto", "irls-cd", "lbfgs", "trust-constr"):
            out.append(dict(block="monitor", store=st, solver=s))
    for fam in ("normal", "poisson", "gamma", "tweedie:1.5", "binomial", "ghs", "negbin:1", "invgauss"):
        out.append(dict(block="family", fam=fam))
    for i in range(6):
        out.append(dict(block="formula", which=i))
    for i in range(len(FAILS)):
        out.append(dict(block="fail", which=i))
    out.append(dict(block="cv"))
    return out


GROUPS = ("P1", "P2", "lower_bounds", "upper_bounds", "start_params", "alphas", "ineq", "family", "link")


class Watch:
    """Named objects and their fingerprints."""

    def __init__(self, ctx, tag):
        self.ctx, self.tag, self.objs, self.ref = ctx, tag, {}, {}

    def add(self, **kw):
        for k, v in kw.items():
            self.objs[k] = v
            self.ref[k] = fp(v)
        return self

    def quickcheck(self):
        return [k for k, v in self.objs.items() if fp(v) != self.ref[k]]

    def look(self, when):
        for k, v in self.objs.items():
            ok = fp(v) == self.ref[k]
            self.ctx.check(ok, f"modified:{k}:{when}:{self.tag}", lambda: f"{k} differs after {when}")
            if not ok:
                self.ref[k] = fp(v)

    def call(self, when, f):
        self.ctx.op()
        r = err = None
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                r = f()
            except Exception as ex:
                err = ex
        self.look(when + ("" if err is None else "-failed"))
        self.ctx.outcome(when, type(err).__name__)
        return r, err


def params_of(e):
    return {k: (id(v), fp(v)) for k, v in e.get_params(deep=False).items()}


def operations(e, X, y, w, off, W, Xn, cl):
    """Every public operation on a fitted estimator."""
    kw = dict(sample_weight=w, offset=off)
    mu, _ = W.call("predict", lambda: e.predict(Xn, offset=off))
    W.call("predict-weights", lambda: e.predict(Xn, sample_weight=w))
    W.call("linear_predictor", lambda: e.linear_predictor(Xn, offset=off))
    W.call("index", lambda: e.predict(Xn, alpha_index=[0, 1], offset=off))
    W.call("score", lambda: e.score(X, y, **kw))
    for r, x in ((True, True), (True, False), (False, False)):
        W.call("covariance", lambda: e.covariance_matrix(X, y, robust=r, expected_information=x, **kw))
    W.call("clustered", lambda: e.covariance_matrix(X, y, clusters=cl, **kw))
    if mu is not None:
        mu = np.array(mu)
        W.add(mu=mu)
        W.call("covariance-mu", lambda: e.covariance_matrix(X, y, mu=mu, dispersion=1.0, **kw))
    W.call("store", lambda: e.covariance_matrix(X, y, store_covariance_matrix=True, **kw))
    W.call("std_errors", lambda: e.std_errors(X, y, clusters=cl, **kw))
    W.call("coef_table", lambda: e.coef_table(X, y, **kw))
    W.call("coef_table-stored", lambda: e.coef_table())
    k = len(np.atleast_1d(e.coef_)) + bool(e.fit_intercept)
    R, r = np.eye(k)[:2], np.array([0.5, 1.0])
    feats, vals = list(e.feature_names_[:2]), [0.0, 1.0]
    W.add(R=R, r=r, feats=feats, vals=vals)
    W.call("wald", lambda: e.wald_test(X, y, R=R, r=r, **kw))
    W.call("wald-features", lambda: e.wald_test(features=feats, r=vals))
    W.call("wald-terms", lambda: e.wald_test(terms=feats, r=vals))
    if hasattr(e, "aic"):
        W.call("aic", lambda: e.aic(X, y, sample_weight=w))
        W.call("bic", lambda: e.bic(X, y, sample_weight=w))
    W.call("diagnostics", lambda: e.get_formatted_diagnostics(full_report=True))
    W.call("refit", lambda: e.fit(X, y, **kw))


def selections(e, y, w, off, W, Xn):
    """Queries at points of a path."""
    al = np.array(e._alphas, float)
    forms = dict(i=[0, 1], t=(1, 0), a=np.array([1, 0]), al=[float(al[1])], aa=al[::-1].copy())
    W.add(**{"sel_" + k: v for k, v in forms.items()})
    for name, kw in (("index", dict(alpha_index=1)), ("np-index", dict(alpha_index=np.int64(0))), ("indices", dict(alpha_index=forms["i"])), ("tuple", dict(alpha_index=forms["t"])), ("array", dict(alpha_index=forms["a"])),
                     ("alpha", dict(alpha=float(al[0]))), ("alphas", dict(alpha=forms["al"])), ("alpha-array", dict(alpha=forms["aa"]))):
        for o in (None, off):
            W.call(f"linear_predictor-{name}", lambda: e.linear_predictor(Xn, offset=o, **kw))
            for v in (None, w):
                W.call(f"predict-{name}", lambda: e.predict(Xn, sample_weight=v, offset=o, **kw))


def run_store(case, ctx):
    X = X0()
    fam = "poisson"
    y0 = np.asarray(data.y("three", fam), float)
    w0, o0 = data.weights("three", "varied"), data.offset("three", "varied")
    n = len(y0)
    forms = [("nd", "nd", "nd"), ("f32", "f32", "f32"), ("series", "series", "list"), ("int", "int", "int"), ("strided", "strided", "strided"), ("list", "list", "series")]
    combos = list(itertools.product((True, False), (True, False), SOLVERS))
    for i, (icpt, scale, solver) in enumerate(combos):
        if scale and not icpt:
            continue
        for j, (yf, wf, of) in enumerate(forms):
            if not case["thorough"] and (i + j) % 3:
                continue
            S = STORES[case["store"]](X)
            y, w, off = yform(y0, yf), vec(w0, wf), vec(o0, of)
            Xn = STORES[case["store"]](X)
            cl = np.resize([3, 1, 2], n)
            W = Watch(ctx, case["store"]).add(X=S, y=y, w=w, off=off, Xn=Xn, clusters=cl)
            e = glum.GeneralizedLinearRegressor(family=fam, alpha=0.1, l1_ratio=0.5 if solver == "irls-cd" else 0, fit_intercept=icpt, scale_predictors=scale, solver=solver, copy_X=case["copy_X"], max_iter=20)
            before = params_of(e)
            ctx.state(case, icpt, scale, solver, yf)
            _, err = W.call(f"fit-{solver}", lambda: e.fit(S, y, sample_weight=w, offset=off))
            ctx.check(params_of(e) == before, f"parameters:{case['store']}", "")
            if err is None:
                operations(e, S, y, w, off, W, Xn, cl)
                if solver in ("irls-ls", "irls-cd"):
                    pe = glum.GeneralizedLinearRegressor(family=fam, alpha=[0.3, 0.1], alpha_search=True, fit_intercept=icpt, scale_predictors=scale, solver=solver, copy_X=case["copy_X"], max_iter=20)
                    if W.call("fit-path", lambda: pe.fit(S, y, sample_weight=w, offset=off))[1] is None:
                        selections(pe, y, w, off, W, Xn)
                if solver == "irls-cd" and (case["thorough"] or j == 0):
                    ce = glum.GeneralizedLinearRegressorCV(family=fam, alphas=[0.3, 0.1], cv=2, fit_intercept=icpt, scale_predictors=scale, copy_X=case["copy_X"], max_iter=20)
                    if W.call("fit-cv", lambda: ce.fit(S, y, sample_weight=w, offset=off))[1] is None:
                        operations(ce, S, y, w, off, W, Xn, cl)
                        selections(ce, y, w, off, W, Xn)
            else:
                ctx.check(case["copy_X"] is False and isinstance(err, ValueError), f"refused:{case['store']}", repr(err))
            ctx.check(params_of(e) == before, f"parameters-after:{case['store']}", "")
            ctx.trace()


def run_params(case, ctx):
    """Objects given to the constructor."""
    solver, cv = case["solver"], case["cv"]
    X, y = X0(), np.asarray(data.y("three", "poisson"), float)
    k = 3
    A = np.array([[1.0, -1.0, 0.5]])
    P2d = np.array([[2.0, 0.3, 0.0], [0.3, 1.0, 0.1], [0.0, 0.1, 0.7]])
    groups = {
        "P1": [vec([1, 0, 2], f) for f in ("nd", "list", "f32", "series", "int", "strided")] + [tuple([1.0, 0.0, 2.0])],
        "P2": [vec([1, 0, 2], f) for f in ("nd", "list", "f32", "int", "strided")] + [P2d, np.asfortranarray(P2d), P2d.tolist(), sps.csc_matrix(P2d), sps.csr_matrix(P2d), sps.coo_matrix(P2d), unsorted_csr(P2d), wide_buffer(P2d), sps.dia_matrix(np.diag([1.0, 2, 3])).tocsc(), P2d.astype(np.float32)],
        "lower_bounds": [vec([-0.1, -0.2, 0.0], f) for f in ("nd", "list", "f32", "series", "strided")],
        "upper_bounds": [vec([0.1, 0.2, 0.0], f) for f in ("nd", "list", "f32", "series", "strided")],
        "start_params": [vec([0.1, 0.2, -0.3, 0.1], f) for f in ("nd", "list", "f32", "series", "strided", "int")],
        "alphas": [vec([1.0, 0.3, 0.1], f) for f in ("nd", "list", "f32", "series", "strided")] + [np.array([0.1, 1.0, 0.3])],
        "ineq": [A, A.tolist(), np.asfortranarray(np.vstack([A, -A])), wide_buffer(np.vstack([A, -A - 1]))],
        "family": [glum.TweedieDistribution(1.5), glum.BinomialDistribution(), glum.NegativeBinomialDistribution(0.7), glum.GeneralizedHyperbolicSecant(), glum.NormalDistribution()],
        "link": [glum.LogLink(), glum.IdentityLink(), glum.TweedieLink(1.5)],
    }
    nm, objs = case["name"], groups[case["name"]]
    if cv and solver == "trust-constr":
        objs = objs[:3]
    for icpt, scale, warm in itertools.product((True, False), (True, False), (False, True)):
        if scale and not icpt:
            continue
        for j, o in enumerate(objs):
            o = copy.deepcopy(o)
            kw = dict(family="poisson", l1_ratio=0.5 if solver in ("irls-cd",) else 0, fit_intercept=icpt, scale_predictors=scale, solver=solver, max_iter=15, warm_start=warm)
            if not cv:
                kw["alpha"] = 0.1
            if nm == "alphas":
                kw.update(dict(alphas=o) if cv else dict(alpha=o, alpha_search=True))
            elif nm == "ineq":
                kw.update(A_ineq=o, b_ineq=[0.1] * len(o), solver="auto" if solver != "trust-constr" else solver)
            elif nm in ("lower_bounds", "upper_bounds") and solver not in ("irls-cd", "trust-constr"):
                kw.update({nm: o}, solver="auto")
            elif nm == "start_params" and not icpt:
                kw[nm] = o[1:]
                o = kw[nm]
            else:
                kw[nm] = o
            if cv:
                kw.update(cv=2)
                if nm != "alphas":
                    kw["alphas"] = [0.5, 0.1]
            cls = glum.GeneralizedLinearRegressorCV if cv else glum.GeneralizedLinearRegressor
            e = cls(**kw)
            before = params_of(e)
            yy = y if nm not in ("family", "link") else (np.abs(y) + 0.25) / (np.abs(y).max() + 0.5)
            W = Watch(ctx, f"{nm}-{j}").add(**{k_: v for k_, v in kw.items() if isinstance(v, (np.ndarray, list, pd.Series)) or sps.issparse(v) or hasattr(v, "__dict__")}, X=X, y=yy)
            ctx.state(case, nm, j, icpt, scale, warm)
            _, err = W.call("fit", lambda: e.fit(X, yy))
            W.call("refit", lambda: e.fit(X[::-1], yy[::-1]))
            W.call("predict", lambda: e.predict(X))
            W.call("clone", lambda: glum.GeneralizedLinearRegressor(**{k_: v for k_, v in e.get_params().items() if k_ in glum.GeneralizedLinearRegressor().get_params()}).fit(X, yy))
            ctx.check(params_of(e) == before, f"parameters:{nm}", lambda: f"{j}: {[k_ for k_, v in params_of(e).items() if v != before[k_]]}")
            ctx.note("fits" if err is None else "refused")
            ctx.trace()


SINGULAR = ("pandas-cat", "polars", "split", "categorical")
def run_monitor(case, ctx):
    """Not even for a moment: looked at whenever a function of the package is entered or left."""
    X, y = X0(), np.asarray(data.y("three", "poisson"), float)
    st, solver = case["store"], case["solver"]
    import os

    root = os.path.dirname(glum.__file__)
    for icpt, scale, copy_X in ((True, False, None), (True, True, None), (False, False, None), (True, True, True)):
        S, w, off = STORES[st](X), data.weights("three", "varied").copy(), data.offset("three", "varied").copy()
        yy = y.copy()
        k = S.shape[1] if st not in ("pandas-cat", "polars") else None
        kw = dict(family="poisson", alpha=0.1, l1_ratio=0.5 if solver == "irls-cd" else 0, fit_intercept=icpt, scale_predictors=scale, solver=solver, copy_X=copy_X, max_iter=4 if solver in ("lbfgs", "trust-constr") else 8)
        if k:
            kw.update(P2=np.linspace(1, 2, k), start_params=np.full(k + icpt, 0.05))
            if solver in ("irls-cd",):
                kw.update(P1=np.linspace(0.5, 1, k))
            if solver == "irls-cd":
                kw.update(lower_bounds=np.full(k, -0.3), upper_bounds=np.full(k, 0.4))
        e = glum.GeneralizedLinearRegressor(**kw)
        W = Watch(ctx, f"{st}-{solver}").add(X=S, y=yy, w=w, off=off, **{k_: v for k_, v in kw.items() if isinstance(v, np.ndarray)})
        seen = {"n": 0}

        def prof(frame, event, arg):
            if event not in ("call", "return") or not frame.f_code.co_filename.startswith(root):
                return
            seen["n"] += 1
            bad = W.quickcheck()
            if bad and "bad" not in seen:
                seen["bad"] = (bad, event, frame.f_code.co_name)

        ctx.state(case, icpt, scale, copy_X)
        for nm, f in (("fit", lambda: e.fit(S, yy, sample_weight=w, offset=off, store_covariance_matrix=st not in SINGULAR)), ("predict", lambda: e.predict(S, offset=off)), ("score", lambda: e.score(S, yy, sample_weight=w, offset=off)), ("table", lambda: e.coef_table(S, yy, sample_weight=w, offset=off))):
            if nm == "table" and st in SINGULAR:
                continue
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                sys.setprofile(prof)
                try:
                    f()
                finally:
                    sys.setprofile(None)
            ctx.check("bad" not in seen, f"transient:{nm}:{st}:{solver}", lambda: seen.get("bad"))
            ctx.op(seen["n"])
            seen.clear()
            seen["n"] = 0
        W.look("monitored")
        ctx.outcome(st, solver, np.round(np.asarray(e.coef_, float), 4).tolist())
        ctx.trace()


def run_family(case, ctx):
    """Family and link methods."""
    F = g.family(case["fam"])
    y0 = np.asarray(data.y("three", case["fam"]), float)
    mu0 = np.clip(np.abs(y0) * 0.9 + 0.2, 0.05, 0.9 if case["fam"] == "binomial" else 9)
    X = X0()
    inst = F if not isinstance(F, str) else glum.GeneralizedLinearRegressor(family=F).family_instance
    for form in ("nd", "f32", "strided", "series", "list"):
        y, mu, w, eta = vec(y0, form), vec(mu0, form), vec(np.resize([1.0, 2.0, 0.5], len(y0)), form), vec(np.log(mu0), form)
        W = Watch(ctx, f"{case['fam']}-{form}").add(y=y, mu=mu, w=w, eta=eta, family=inst)
        ctx.state(case, form)
        for nm, f in (("unit_variance", lambda: inst.unit_variance(mu)), ("unit_variance_derivative", lambda: inst.unit_variance_derivative(mu)), ("variance", lambda: inst.variance(mu, 1.5, w)), ("variance_derivative", lambda: inst.variance_derivative(mu, 1.5, w)),
                      ("unit_deviance", lambda: inst.unit_deviance(y, mu)), ("unit_deviance_derivative", lambda: inst.unit_deviance_derivative(y, mu)), ("deviance", lambda: inst.deviance(y, mu, w)), ("deviance_derivative", lambda: inst.deviance_derivative(y, mu, w)),
                      ("in_y_range", lambda: inst.in_y_range(y)), ("log_likelihood", lambda: inst.log_likelihood(y, mu, w)), ("dispersion", lambda: inst.dispersion(y, mu, w, ddof=2, method="pearson")), ("dispersion-deviance", lambda: inst.dispersion(y, mu, w, ddof=2, method="deviance"))):
            W.call(nm, f)
        for link in (glum.LogLink(), glum.IdentityLink(), glum.LogitLink(), glum.CloglogLink(), glum.TweedieLink(1.5)):
            W.add(link=link)
            p = vec(np.clip(mu0 / 10, 0.05, 0.95), form)
            W.add(p=p)
            for m in ("link", "derivative"):
                W.call(m, lambda: getattr(link, m)(p))
            for m in ("inverse", "inverse_derivative", "inverse_derivative2"):
                W.call(m, lambda: getattr(link, m)(eta))
            if form != "nd" or type(link).__name__ in ("LogitLink", "CloglogLink") and case["fam"] != "binomial":
                continue
            coef, off = np.array([0.05, -0.02, 0.03]), np.zeros(len(y0))
            Xm = tm.DenseMatrix(np.asfortranarray(X))
            W.add(coef=coef, Xm=Xm, off=off)
            fac = 0.5
            cur = np.full(len(y0), 0.3)
            xd = np.asarray(Xm @ coef)
            W.add(cur=cur, xd=xd)
            W.call("eta_mu_deviance", lambda: inst.eta_mu_deviance(link, fac, cur, xd, y, w))
            W.call("rowwise", lambda: inst.rowwise_gradient_hessian(link, coef, 1.0, Xm, y, w, cur, mu, None))
        ctx.trace()


FORMULAS = [
    ("y ~ k + u", {}, {}), ("k * u + v", dict(drop_first=True), {}), ("y ~ np.log(u + 9) + C(i)", {}, dict(context={"np": np})), ("f(u) + v", {}, dict(context={"f": np.tanh})),
    ("y ~ bs(u, df=4) + v", dict(monotonic_constraints={"u": "increasing"}), {}), ("k + u - 1", dict(fit_intercept=False, cat_missing_method="zero"), {}),
]


def run_formula(case, ctx):
    f, kw, fk = FORMULAS[case["which"]]
    X = X0()
    y = np.asarray(data.y("three", "poisson"), float)
    import formulaic

    for as_object in (False, True):
        for icpt_cv in (False, True):
            df = catframe(X)
            df["y"] = y
            new = catframe(X[::-1])
            cls = glum.GeneralizedLinearRegressorCV if icpt_cv else glum.GeneralizedLinearRegressor
            if icpt_cv and "monotonic_constraints" in kw:
                continue
            kk = dict(kw, **(dict(alphas=[0.5, 0.1], cv=2) if icpt_cv else dict(alpha=0.1)), l1_ratio=0)
            fo = formulaic.Formula(f) if as_object and "- 1" not in f else f
            e = cls(family="poisson", formula=fo, **kk)
            two = "~" in f
            ctxd = dict(fk.get("context", {}))
            before = {k: v for k, v in params_of(e).items() if k != "formula"}
            text = str(fo)
            W = Watch(ctx, f).add(df=df, new=new, y=y, context=ctxd, **{k: v for k, v in kk.items() if isinstance(v, (dict, list))})
            ctx.state(case, as_object, icpt_cv)
            c = dict(context=ctxd) if fk else {}
            _, err = W.call("fit", lambda: e.fit(df, None if two else y, **c))
            ctx.note("fits" if err is None else "refused")
            W.call("predict", lambda: e.predict(new, **c))
            W.call("score", lambda: e.score(df, y, **c))
            W.call("table", lambda: e.coef_table(df, None if two else y, **c))
            W.call("wald", lambda: e.wald_test(df, None if two else y, features=e.feature_names_[0], **c))
            if not icpt_cv:
                W.call("aic", lambda: e.aic(df, y, **c))
            ctx.check({k: v for k, v in params_of(e).items() if k != "formula"} == before and str(e.formula) == text and e.formula is fo, f"parameters:{f}", "")
            ctx.trace()


FAILS = [
    dict(y=-1.0), dict(y=np.nan), dict(y=None), dict(w="short"), dict(w="negative"), dict(w="zero"), dict(off="short"), dict(off="nan"), dict(X="nan"), dict(X="rows"), dict(p=dict(alpha=-1)), dict(p=dict(family="x")), dict(p=dict(P2=np.array([-1.0, 1, 1]))),
    dict(p=dict(P1=np.array([1.0, 1]))), dict(p=dict(lower_bounds=np.array([1.0, 1, 1]), upper_bounds=np.array([0.0, 0, 0]))), dict(p=dict(start_params=np.array([1.0, 1]))), dict(p=dict(solver="irls-cd", A_ineq=np.ones((1, 3)), b_ineq=np.ones(1))),
    dict(p=dict(A_ineq=np.ones((1, 2)), b_ineq=np.ones(1))), dict(p=dict(start_params=np.array([1e3, 1e3, 1e3, 1e3]))), dict(p=dict(solver="lbfgs", start_params=np.array([800.0, 900, 1e3, 1e3]))), dict(p=dict(max_iter=0)), dict(p=dict(l1_ratio=2)), dict(p=dict(alpha=[1.0, 0.5])), dict(p=dict(P2=np.array([[1.0, 5, 0], [5, 1, 0], [0, 0, 1]]))),
]


def run_fail(case, ctx):
    s = FAILS[case["which"]]
    for st, icpt, scale, warm in itertools.product(("C", "F", "strided", "csr-unsorted", "csc", "dense-F", "split-mixed", "pandas", "f32"), (True, False), (True, False), (False, True)):
        if scale and not icpt:
            continue
        X = X0()
        if s.get("X") == "nan":
            X[2, 1] = np.nan
        if s.get("X") == "rows":
            X = X[:-1]
        S = STORES[st](X)
        y = np.asarray(data.y("three", "poisson"), float)
        if "y" in s:
            y = None if s["y"] is None else np.r_[y[:-1], s["y"]]
        n = 8 if y is None else len(y)
        w = {"short": np.ones(n - 1), "negative": np.r_[np.ones(n - 1), -1.0], "zero": np.zeros(n)}.get(s.get("w"), np.linspace(1, 2, n))
        off = {"short": np.ones(n - 1), "nan": np.r_[np.zeros(n - 1), np.nan]}.get(s.get("off"), np.linspace(0, 0.1, n))
        e = glum.GeneralizedLinearRegressor(family="poisson", fit_intercept=icpt, scale_predictors=scale, warm_start=warm, max_iter=5)
        good = STORES[st](X0())
        yg = np.asarray(data.y("three", "poisson"), float)
        if warm:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                e.set_params(alpha=0.1).fit(good, yg)
        ps = {k: copy.deepcopy(v) for k, v in s.get("p", {}).items()}
        if "start_params" in ps and not icpt and case["which"] != 15:
            ps["start_params"] = ps["start_params"][1:].copy()
        e.set_params(**ps)
        before = params_of(e)
        W = Watch(ctx, f"{case['which']}-{st}").add(X=S, y=y, w=w, off=off, good=good, yg=yg, **{k: v for k, v in ps.items() if isinstance(v, (np.ndarray, list))})
        ctx.state(case, st, icpt, scale, warm)
        _, err = W.call("fit", lambda: e.fit(S, y, sample_weight=w, offset=off))
        W.call("predict", lambda: e.predict(S, offset=off))
        W.call("score", lambda: e.score(S, y, sample_weight=w, offset=off))
        W.call("covariance", lambda: e.covariance_matrix(S, y, sample_weight=w, offset=off))
        W.call("wald", lambda: e.wald_test(S, y, sample_weight=w, offset=off, R=np.eye(4)))
        ctx.check(params_of(e) == before, f"parameters:{case['which']}", "")
        ctx.note("refused" if err else "fits")
        ctx.trace()


def run_cv(case, ctx):
    """Splits, lists of l1_ratios and the rest of what only cross-validation takes."""
    from sklearn.model_selection import KFold, ShuffleSplit

    X, y = X0(), np.asarray(data.y("three", "poisson"), float)
    n = len(y)
    splits = [(np.arange(0, n, 2), np.arange(1, n, 2)), (np.arange(1, n, 2), np.arange(0, n, 2))]
    for (nm, cv), st, icpt, scale in itertools.product((("list", splits), ("lists", [(a.tolist(), b.tolist()) for a, b in splits]), ("kfold", KFold(2)), ("shuffled", KFold(2, shuffle=True, random_state=0)), ("ss", ShuffleSplit(2, random_state=np.random.RandomState(3)))),
                                    ("C", "F", "csr-unsorted", "csc", "strided", "pandas-cat", "split-mixed", "dense-F", "f32"), (True, False), (True, False)):
        if scale and not icpt:
            continue
        S = STORES[st](X)
        l1, al, w, off = [0.0, 0.5, 1.0], [0.1, 0.5, 0.2], np.linspace(1, 2, n), np.linspace(0, 0.2, n)
        kw = dict(l1_ratio=l1, alphas=al, cv=cv, fit_intercept=icpt, scale_predictors=scale, max_iter=10)
        if st not in ("pandas-cat",):
            kw.update(P1=np.array([1.0, 0.5, 2.0]), P2=np.array([1.0, 0.5, 2.0]), lower_bounds=np.array([-0.2] * 3), start_params=np.full(3 + icpt, 0.05))
        e = glum.GeneralizedLinearRegressorCV(family="poisson", **kw)
        W = Watch(ctx, f"{nm}-{st}").add(X=S, y=y, w=w, off=off, **{k: v for k, v in kw.items() if isinstance(v, (list, np.ndarray)) and k != "cv"}, **({"cv": cv} if nm != "ss" else {}))
        before = {k: v for k, v in params_of(e).items() if nm != "ss" or k != "cv"}
        ctx.state(case, nm, st, icpt, scale)
        _, err = W.call("fit", lambda: e.fit(S, y, sample_weight=w, offset=off))
        ctx.note("fits" if err is None else "refused")
        W.call("predict", lambda: e.predict(S, offset=off))
        W.call("score", lambda: e.score(S, y, sample_weight=w, offset=off))
        W.call("table", lambda: e.coef_table(S, y))
        ctx.check({k: v for k, v in params_of(e).items() if k in before} == before, f"parameters:{nm}", "")
        ctx.trace()


def run(case, ctx):
    globals()["run_" + case["block"]](case, ctx)
