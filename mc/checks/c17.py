"""C17: predictions, scores and diagnostics agree with the fitted coefficients."""

import contextlib
import io
import itertools
import warnings

import glum
import numpy as np
import pandas as pd
import polars as pl
import tabmat as tm
from scipy import sparse

from .. import g, ref

ID = "C17"
RULE = (
    "For every family and link (all pairs with a common domain), intercept, fitted with and without offset: every "
    "query (linear_predictor, predict, score) x offset form x weight form x frame of new rows, against the linear "
    "predictor, inverse link and unit deviance written out here. Every storage of the new rows x dtype x single "
    "row; every selection of alphas (index, negative index, value, lists with repeats, in every order up to "
    "length three) for path and cross-validated models. Every solver x verbosity x diagnostics query, each row of "
    "the diagnostics against a refit stopped at that iteration. A state is one (model, query); a transition one "
    "real call."
)
ASSUMPTIONS = ["the null model of the score is the intercept alone, i.e. the weighted mean of y, without the offset (documented)", "rows of the diagnostics describe the standardised problem (first_coef is the intercept at the column means)", "without an intercept, links that exclude a zero linear predictor have no admissible start and are left out"]

FAMS = ["normal", "poisson", "gamma", "invgauss", "binomial", "ghs", "tweedie:1.5", "tweedie:1.2", "tweedie:-1", "tweedie:2.5", "tweedie:4", "negbin:1", "negbin:0.3"]
N = 12
R = np.arange(N)
X = np.column_stack([np.sin(R * 1.3), (R * 5 % 7) / 3 - 1, (R % 3 == 0) * 1.0])
ETA = 0.4 * X[:, 0] + 0.25 * X[:, 1] - 0.3 * X[:, 2]
W = np.array([1, 2, 0.5, 1, 3, 0.25, 1, 1, 2, 0, 1, 1.5])
OFF = 0.3 * np.cos(R * 2.0)
XN = np.array([[0.2, 0.5, 1.0], [-1.0, 0.3, 0.0], [0.9, -0.6, 0.0], [0.0, 0.0, 1.0], [-0.4, 0.8, 0.0]])
OFFN = np.array([0.1, -0.2, 0.3, 0.0, -0.05])
WN = np.array([0.5, 2.0, 1.0, 0.25, 3.0])


def links(fam):
    if fam == "binomial":
        return ["logit", "cloglog"]
    if fam in ("normal", "ghs", "tweedie:-1"):
        return ["identity"] + (["log"] if fam != "tweedie:-1" else [])
    return ["log"] + (["tweedie:1.5"] if fam in ("poisson", "gamma", "tweedie:1.5") else []) + (["identity"] if fam in ("poisson", "gamma") else [])


def target(fam):
    base = {"normal": ETA * 2 + 1.5 + 0.7 * np.cos(R * 5), "ghs": ETA * 2 + 0.5 * np.cos(R * 5) + 1.0, "tweedie:-1": ETA + 2 + 0.5 * np.cos(R * 5)}
    if fam in base:
        return base[fam]
    if fam == "binomial":
        return np.array([0, 1, 1, 0, 1, 0, 1, 1, 0.5, 1, 0, 0.25])
    if fam in ("poisson", "negbin:1", "negbin:0.3", "tweedie:1.5", "tweedie:1.2"):
        return np.round(np.exp(ETA) * (2.5 + 1.5 * np.cos(R * 5))) * (1 if fam in ("poisson", "negbin:1") else 0.5)
    return np.exp(ETA) * (2.0 + np.cos(R * 5))


def cases(tier):
    out = []
    for fam in FAMS:
        for ln in links(fam):
            for icpt, off in itertools.product((True, False), (None, "vector")):
                if not icpt and (ln.startswith("tweedie") or ln == "identity" and fam in ("poisson", "gamma", "tweedie:-1")):
                    continue
                out.append(dict(block="query", fam=fam, link=ln, icpt=icpt, off=off, tier=tier))
    for fam, ln in (("normal", "identity"), ("poisson", "log"), ("binomial", "logit")):
        for icpt in (True, False):
            out.append(dict(block="storage", fam=fam, link=ln, icpt=icpt))
            for kind in ("path", "cv", "cvmulti", "auto", "tiny"):
                out.append(dict(block="select", fam=fam, link=ln, icpt=icpt, kind=kind, tier=tier))
    for solver in ("closed-form", "irls-ls", "irls-cd", "lbfgs", "trust-constr", "irls-ls-monotonic", "auto"):
        for fam, ln in (("normal", "identity"), ("poisson", "log"), ("binomial", "logit"), ("gamma", "log")):
            if solver == "closed-form" and fam != "normal":
                continue
            for icpt, scale in ((True, False), (True, True), (False, False)):
                out.append(dict(block="diagnostics", solver=solver, fam=fam, link=ln, icpt=icpt, scale=scale))
    out.append(dict(block="diagnostics0"))
    return out


def quiet(fn):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return fn()


def attempt(fn):
    try:
        return quiet(fn), None
    except Exception as ex:
        return None, ex


def est(case, cls=glum.GeneralizedLinearRegressor, **kw):
    if cls is glum.GeneralizedLinearRegressor and not kw.get("alpha_search"):
        kw.setdefault("alpha", 0.05)
    return cls(family=g.family(case["fam"]), link=g.link(case["link"]), fit_intercept=case["icpt"], **kw)


def offset_forms(o):
    n = len(o)
    return {
        "none": (None, np.zeros(n)),
        "array": (o, o),
        "list": (o.tolist(), o),
        "series": (pd.Series(o, index=np.arange(n)[::-1] + 4), o),
        "int": (np.arange(n) % 2, np.arange(n) % 2 * 1.0),
        "bool": ((np.arange(n) % 2).astype(bool), np.arange(n) % 2 * 1.0),
        "float32": (o.astype(np.float32), o.astype(np.float32).astype(float)),
        "scalar": (0.25, np.full(n, 0.25)),
        "intscalar": (1, np.ones(n)),
        "zero": (np.zeros(n), np.zeros(n)),
        "strided": (np.repeat(o, 2)[::2], o),
        "readonly": (ro(o), o),
    }


def weight_forms(w):
    n = len(w)
    return {
        "none": (None, np.ones(n)),
        "array": (w, w),
        "list": (w.tolist(), w),
        "series": (pd.Series(w, index=np.arange(n)[::-1] + 9), w),
        "int": (np.arange(n) % 3 + 1, np.arange(n) % 3 + 1.0),
        "scalar": (2.5, np.full(n, 2.5)),
        "readonly": (ro(w), w),
    }


def ro(a):
    a = np.array(a, float)
    a.flags.writeable = False
    return a


def run_query(case, ctx):
    fam, ln, icpt = case["fam"], case["link"], case["icpt"]
    y = target(fam)
    e = est(case)
    fo = OFF if case["off"] else None
    _, err = attempt(lambda: e.fit(X, y, sample_weight=W, offset=fo))
    if not ctx.check(err is None, "fit", repr(err)):
        return
    inv = ref.link(ln)[2]
    F = ref.Fam(fam)
    tol = 1e-9 if not fam.startswith("tweedie") else 1e-5
    for name, (x, o, w) in {"train": (X, OFF, W), "new": (XN, OFFN, WN)}.items():
        eta0 = x @ e.coef_ + e.intercept_
        for of, (ov, oo) in offset_forms(o).items():
            eta = eta0 + oo
            with np.errstate(all="ignore"):
                mu = inv(eta)
            p, err = attempt(lambda: e.linear_predictor(x, offset=ov))
            ctx.op()
            ctx.state(case, name, of)
            ctx.check(err is None and g.close(p, eta, 1e-12), f"linear_predictor:{of}", lambda: f"{case} {name}: {p if err is None else repr(err)} instead of {eta}")
            if not np.all(np.isfinite(mu)):
                continue
            p, err = attempt(lambda: e.predict(x, offset=ov))
            ctx.op()
            ctx.check(err is None and g.close(p, mu, 1e-9 if ln != "cloglog" else 1e-8), f"predict:{of}", lambda: f"{case} {name}: {p if err is None else repr(err)} instead of {mu}")
            for wf, (wv, ww) in weight_forms(w).items():
                if case["tier"] == "quick" and of not in ("none", "array", "scalar") and wf != "array":
                    continue
                p, err = attempt(lambda: e.predict(x, wv, ov))
                ctx.op()
                ctx.check(err is None and g.close(p, mu * ww, 1e-9 if ln != "cloglog" else 1e-8), f"predict-weights:{wf}", lambda: f"{case} {name} {of}: {p if err is None else repr(err)} instead of {mu * ww}")
                if name == "new" or case["tier"] == "quick" and of not in ("none", "array", "list", "scalar"):
                    continue
                if ln == "identity" and fam not in ("normal", "ghs", "tweedie:-1") and np.any(mu <= 0) or fam == "tweedie:-1" and np.any(mu <= 0):
                    continue
                ybar = np.sum(ww * y) / np.sum(ww)
                D = np.sum(ww * F.udev(y, mu))
                D0 = np.sum(ww * F.udev(y, np.full(N, ybar)))
                want = 1 - D / D0
                for yf, yv in (("array", y), ("list", y.tolist()), ("series", pd.Series(y, index=R[::-1])), ("column", y[:, None]), ("object", y.astype(object))):
                    if yf != "array" and (of, wf) not in (("none", "array"), ("array", "none")):
                        continue
                    s, err = attempt(lambda: e.score(x, yv, sample_weight=wv, offset=ov))
                    ctx.op()
                    ctx.check(err is None and abs(s - want) < 1e-9 + tol * (1 + abs(want)) * (1 + abs(D / D0)), f"score:{yf}:{wf}:{of}", lambda: f"{case}: {s if err is None else repr(err)} instead of {want}")
            ctx.outcome(np.round(mu, 6).tolist())
        ctx.trace()
    # integer targets score as the numbers they are
    if fam == "poisson":
        ctx.check(e.score(X, y.astype(int), sample_weight=W) == e.score(X, y, sample_weight=W), "score:int", "")


STORES = {
    "C": lambda x: np.ascontiguousarray(x),
    "F": lambda x: np.asfortranarray(x),
    "strided": lambda x: np.repeat(np.repeat(x, 2, 0), 2, 1)[::2, ::2],
    "reversed": lambda x: x[::-1].copy()[::-1],
    "readonly": ro,
    "list": lambda x: x.tolist(),
    "frame": lambda x: pd.DataFrame(x, columns=list("abc"), index=np.arange(len(x))[::-1]),
    "polars": lambda x: pl.DataFrame({c: x[:, i] for i, c in enumerate("abc")}),
    "csr": sparse.csr_matrix,
    "csc": sparse.csc_matrix,
    "coo": sparse.coo_matrix,
    "csr_array": sparse.csr_array,
    "dense": lambda x: tm.DenseMatrix(x),
    "sparse": lambda x: tm.SparseMatrix(sparse.csc_matrix(x)),
    "split": lambda x: tm.SplitMatrix([tm.DenseMatrix(x[:, :2]), tm.SparseMatrix(sparse.csc_matrix(x[:, 2:]))]),
    "split-mixed": lambda x: tm.SplitMatrix([tm.DenseMatrix(x[:, [0, 2]]), tm.SparseMatrix(sparse.csc_matrix(x[:, [1]]))], [np.array([0, 2]), np.array([1])]),
}


def run_storage(case, ctx):
    y = target(case["fam"])
    inv = ref.link(case["link"])[2]
    for fs in ("C", "F", "frame", "polars", "csr", "csc", "split-mixed"):
        e = est(case)
        _, err = attempt(lambda: e.fit(STORES[fs](X), y, sample_weight=W))
        if not ctx.check(err is None, f"fit:{fs}", repr(err)):
            continue
        for qs, mk in STORES.items():
            for what, xx in (("rows", XN), ("one row", XN[2:3]), ("training", X), ("zeros", np.zeros((2, 3))), ("many", np.tile(XN, (40, 1)))):
                for dt in (np.float64, np.float32, np.int64):
                    if dt != np.float64 and qs in ("frame", "polars", "dense", "sparse", "split", "split-mixed", "list") and dt == np.int64:
                        continue
                    if qs in ("list", "split", "split-mixed") and dt != np.float64:
                        continue  # tabmat refuses to multiply a single precision split matrix by double precision
                    v = np.round(xx * 2).astype(dt) if dt == np.int64 else xx.astype(dt)
                    want = v.astype(float) @ e.coef_ + e.intercept_
                    p, err = attempt(lambda: e.linear_predictor(mk(v) if qs != "readonly" or dt == np.float64 else v))
                    q, err2 = attempt(lambda: e.predict(mk(v) if qs != "readonly" or dt == np.float64 else v))
                    ctx.op(2)
                    ctx.state(case, fs, qs, what, str(dt))
                    t = 1e-11 if dt != np.float32 else 2e-6
                    ctx.check(err is None and g.close(p, want, t, t), f"storage:{qs}", lambda: f"{case} fitted {fs}: {what} {dt}: {p if err is None else repr(err)} instead of {want}")
                    ctx.check(err2 is None and g.close(q, inv(want), 4 * t, t), f"storage-predict:{qs}", lambda: f"{case} fitted {fs}: {what} {dt}: {q if err2 is None else repr(err2)} instead of {inv(want)}")
                    # a scored training set does not depend on its storage
                    if what == "training" and dt == np.float64:
                        s, err3 = attempt(lambda: e.score(mk(v), y, sample_weight=W))
                        w = e.score(X, y, sample_weight=W)
                        ctx.op()
                        ctx.check(err3 is None and abs(s - w) < 1e-9, f"storage-score:{qs}", lambda: f"{s if err3 is None else repr(err3)} instead of {w}")
                    ctx.outcome(np.round(want[:3], 5).tolist())
        for bad in (XN[:, :2], np.hstack([XN, XN[:, :1]]), XN[0], XN[:, :2].tolist(), sparse.csr_matrix(XN[:, :2]), np.zeros((0, 3))):
            for q in (e.predict, e.linear_predictor):
                _, err = attempt(lambda: q(bad))
                ctx.op()
                ctx.check(err is not None, "shape-accepted", lambda: f"{case}: {np.shape(bad)}")
        ctx.trace()


def run_select(case, ctx):
    y = target(case["fam"])
    inv = ref.link(case["link"])[2]
    alphas = [1.0, 1e-4, 1e-9, 1e-12] if case["kind"] == "tiny" else [1.0, 0.3, 0.1, 0.02]
    C = glum.GeneralizedLinearRegressorCV
    folds = [(R[R % 3 != k], R[R % 3 == k]) for k in range(3)]
    if case["kind"] in ("path", "tiny"):
        e = est(case, alpha=alphas, alpha_search=True)
    elif case["kind"] == "auto":
        e = est(case, alpha_search=True, n_alphas=5, l1_ratio=0.5)
    elif case["kind"] == "cv":
        e = est(case, C, alphas=alphas, cv=folds)
    else:
        e = est(case, C, alphas=alphas, cv=folds, l1_ratio=[0.0, 0.5])
    quiet(lambda: e.fit(X, y, sample_weight=W))
    al = np.asarray(e._alphas if not isinstance(e, C) else (e.alphas_ if np.ndim(e.alphas_) == 1 else e.alphas_[0]), float)
    al = np.asarray(e._alphas, float)
    k = len(al)
    if isinstance(e, C):
        path, ipath = e._refit_coef_path, e._refit_intercept_path
        ctx.check(g.close(path[list(al).index(e.alpha_)], e.coef_, 1e-12), "refit-path", "")
    else:
        path, ipath = e.coef_path_, e.intercept_path_
        ctx.check(np.array_equal(path[-1], e.coef_), "last-of-path", "")
    # own fits say what each position of the path is (warm starts only change the tolerance)
    lr = float(np.asarray(getattr(e, "l1_ratio_", 0.5 if case["kind"] == "auto" else 0.0)))
    for i, a in enumerate(al):
        m = est(case, alpha=float(a), l1_ratio=lr, gradient_tol=1e-9, max_iter=500)
        quiet(lambda: m.fit(X, y, sample_weight=W))
        ctx.op()
        ctx.check(g.close(path[i], m.coef_, 5e-2, 2e-2) and g.close(ipath[i], m.intercept_, 5e-2, 2e-2), "path-position", lambda: f"{case} {a}: {path[i]} instead of {m.coef_}")
    seqs = [list(s) for L in (1, 2, 3) for s in itertools.product(range(k), repeat=L)]
    if case["tier"] == "quick":
        seqs = [s for s in seqs if len(s) < 3 or s[0] != s[1]][:60]
    for o, ov in (("none", None), ("vector", OFFN), ("scalar", 0.5)):
        oo = 0 if ov is None else ov
        for wv in (None, WN, 2.0):
            ww = 1.0 if wv is None else wv
            want1 = lambda i: XN @ path[i] + ipath[i] + oo  # noqa: E731
            for i in range(-k, k):
                for form in (i, np.int64(i), np.int32(i)):
                    check_pair(ctx, e, XN, ov, wv, dict(alpha_index=form), want1(i), inv, ww, f"index:{type(form).__name__}")
            for i in range(k):
                for form in (float(al[i]), np.float64(al[i]), float(al[i]) * (1 + 1e-12)):
                    check_pair(ctx, e, XN, ov, wv, dict(alpha=form), want1(i), inv, ww, f"alpha:{type(form).__name__}")
            for s in seqs:
                want = np.stack([want1(i) for i in s], axis=1)
                wt = np.reshape(ww, (-1, 1)) if np.ndim(ww) else ww
                for key, form in (("alpha_index", list(s)), ("alpha_index", tuple(s)), ("alpha_index", np.array(s)), ("alpha", [float(al[i]) for i in s]), ("alpha", al[list(s)])):
                    if len(s) > 1 and not isinstance(form, list) and o != "none":
                        continue
                    check_pair(ctx, e, XN, ov, wv, {key: form}, want, inv, wt, f"list:{key}")
            dflt = XN @ e.coef_ + e.intercept_ + oo
            check_pair(ctx, e, XN, ov, wv, {}, dflt, inv, ww, "default")
    bad = {
        "both": dict(alpha=float(al[0]), alpha_index=0),
        "index out of range": dict(alpha_index=k),
        "negative out of range": dict(alpha_index=-k - 1),
        "list out of range": dict(alpha_index=[0, k]),
        "alpha not on path": dict(alpha=float(al[0]) * 1.5),
        "alpha between": dict(alpha=[float(al[0]), float(al[0] + al[1]) / 2]),
    }
    for i in range(k):
        for f in (1e-3, 0.5, 0.9, 0.999, 1.001, 1.1, 2.0, 1e3, 0.0, -1.0):
            bad[f"alpha {i} times {f}"] = dict(alpha=float(al[i]) * f)
            bad[f"alpha list {i} times {f}"] = dict(alpha=[float(al[i]), float(al[i]) * f])
    for name, kw in bad.items():
        if "times" in name and any(np.isclose(v, al, rtol=5e-4, atol=0).any() for v in np.atleast_1d(kw["alpha"])[-1:]):
            continue  # another point of the path
        for q in (e.predict, e.linear_predictor):
            p, err = attempt(lambda: q(XN, **kw))
            ctx.op()
            ctx.check(isinstance(err, (ValueError, IndexError)), f"reject:{'alpha off the path' if 'times' in name else name}", lambda: f"{case}: {p} {err!r}")
    if case["kind"] == "path":
        m = est(case)
        quiet(lambda: m.fit(X, y))
        for kw in (dict(alpha=0.05), dict(alpha_index=0), dict(alpha_index=[0])):
            _, err = attempt(lambda: m.predict(XN, **kw))
            ctx.op()
            ctx.check(isinstance(err, ValueError), "reject:no path", repr(err))
    ctx.trace()


def check_pair(ctx, e, x, ov, wv, kw, eta, inv, ww, sig):
    ctx.state(sig, repr(kw), repr(ov), repr(wv), e.family.__class__.__name__, e.fit_intercept, type(e).__name__)
    if wv is None:
        p, err = attempt(lambda: e.linear_predictor(x, offset=ov, **kw))
        ctx.op()
        ctx.check(err is None and g.close(p, eta, 1e-11), f"select-eta:{sig}", lambda: f"{kw} offset {ov}: {p if err is None else repr(err)} instead of {eta}")
    p, err = attempt(lambda: e.predict(x, sample_weight=wv, offset=ov, **kw))
    ctx.op()
    ctx.check(err is None and g.close(p, inv(eta) * ww, 1e-10), f"select-mu:{sig}", lambda: f"{kw} offset {ov} weights {wv}: {p if err is None else repr(err)} instead of {inv(eta) * ww}")
    ctx.outcome(np.round(eta, 5).tolist())


def fingerprint(e):
    return {k: (v.tobytes() if isinstance(v, np.ndarray) else repr(v)) for k, v in e.__dict__.items() if not k.endswith("runtime")}


def run_diagnostics(case, ctx):
    y = target(case["fam"])
    w = W + 0.1
    kw = dict(solver=case["solver"], scale_predictors=case["scale"], alpha=0.05, gradient_tol=1e-7, max_iter=100)
    df = None
    if case["solver"] == "irls-ls-monotonic":
        if not case["icpt"]:
            kw["formula"] = "a + b + c - 1"
        else:
            kw["formula"] = "a + b + c"
        kw["monotonic_constraints"] = {"a": "increasing"}
        df = pd.DataFrame(X, columns=list("abc"))
    xx = X if df is None else df
    fits = {}
    for verbose in (0, 1, 2):
        e = est(case, verbose=verbose, **kw)
        buf = io.StringIO()
        with contextlib.redirect_stdout(buf), contextlib.redirect_stderr(buf):
            _, err = attempt(lambda: e.fit(xx, y, sample_weight=w))
        ctx.op()
        ctx.state(case, verbose)
        if not ctx.check(err is None, "verbose-fit", lambda: f"{case} verbose={verbose}: {err!r}"):
            return
        fits[verbose] = e
    e = fits[0]
    for v in (1, 2):
        ctx.check(np.array_equal(e.coef_, fits[v].coef_) and e.intercept_ == fits[v].intercept_ and e.n_iter_ == fits[v].n_iter_, "verbose-changes-result", lambda: f"{case}: {fits[v].coef_} instead of {e.coef_}")
    before = fingerprint(e)
    full = e.get_formatted_diagnostics(full_report=True)
    short = e.get_formatted_diagnostics()
    ctx.op(2)
    if isinstance(full, str):
        ctx.check(full == short and e.diagnostics_ is None and case["solver"] not in ("irls-ls", "irls-cd"), "no-diagnostics", full)
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            e.report_diagnostics()
        ctx.check(full in out.getvalue(), "report-none", out.getvalue())
    else:
        ctx.check(list(short.columns) == ["convergence", "n_cycles", "iteration_runtime", "intercept"] and short.equals(full[short.columns]), "short-report", list(short.columns))
        for cols in (["convergence"], ["objective_fct", "n_cycles"], list(full.columns)[::-1]):
            c = e.get_formatted_diagnostics(custom_columns=cols)
            ctx.op()
            ctx.check(list(c.columns) == cols and c.equals(full[cols]), "custom-columns", cols)
        _, err = attempt(lambda: e.get_formatted_diagnostics(custom_columns=["nope"]))
        ctx.check(err is not None, "unknown-column", "accepted")
        for fr in (False, True):
            out = io.StringIO()
            with contextlib.redirect_stdout(out):
                e.report_diagnostics(full_report=fr)
            ctx.op()
            ctx.check("convergence" in out.getvalue(), "report", out.getvalue()[:100])
        ctx.check(list(full.index) == list(range(1 + 0, len(full) + 1)) or list(full.index) == list(range(len(full))), "row-numbers", list(full.index))
        ctx.check(full.index[-1] == e.n_iter_, "last-row", lambda: f"{full.index[-1]} for n_iter_ {e.n_iter_}")
        ctx.check(np.all(np.diff(full["n_cycles"]) >= 0), "cycles", list(full["n_cycles"]))
        ctx.check(np.all(full["iteration_runtime"].to_numpy() >= 0), "runtime", "")
        if case["icpt"]:
            ctx.check(np.array_equal(full["intercept"], full["first_coef"]), "intercept-column", "")
        else:
            ctx.check(full["intercept"].isna().all(), "intercept-column", "")
        obj = full["objective_fct"].to_numpy(float)
        ctx.check(np.all(np.diff(obj) <= 1e-8 * (1 + np.abs(obj[:-1]))), "objective-rises", lambda: f"{case}: {obj}")
        conv = full["convergence"].to_numpy(float)
        if e.n_iter_ < kw["max_iter"] and len(conv) > 1 and not np.isnan(conv[-1]):
            ctx.check(conv[-1] <= 1e-7, "not-converged", lambda: f"{case}: {conv}")
        # every row is where a fit with that budget stops
        means = np.average(X, weights=w, axis=0) if case["icpt"] else np.zeros(3)
        sd = np.sqrt(np.average((X - np.average(X, weights=w, axis=0)) ** 2, weights=w, axis=0)) if case["icpt"] or True else np.ones(3)
        for n in full.index:
            if n < 1:
                continue
            m = est(case, **{**kw, "max_iter": int(n)})
            quiet(lambda: m.fit(xx, y, sample_weight=w))
            ctx.op()
            ctx.state(case, int(n))
            if case["fam"] == "normal" and case["link"] == "identity":
                continue  # one exact step, whatever the budget
            if case["icpt"]:
                want = m.intercept_ + means @ m.coef_
                ctx.check(abs(full.loc[n, "first_coef"] - want) < 1e-7 * (1 + abs(want)), "first-coef", lambda: f"{case} row {n}: {full.loc[n, 'first_coef']} instead of {want}")
                sc = np.r_[want, m.coef_ * sd]
                l2 = np.linalg.norm(sc)
                if case["solver"] in ("irls-ls", "irls-cd"):
                    ctx.check(abs(full.loc[n, "L2(coef)"] - l2) < 1e-6 * (1 + l2), "l2-coef", lambda: f"{case} row {n}: {full.loc[n, 'L2(coef)']} instead of {l2}")
                    ctx.check(abs(full.loc[n, "L1(coef)"] - np.abs(sc).sum()) < 1e-6 * (1 + l2), "l1-coef", lambda: f"{case} row {n}")
            ctx.check(np.array_equal(m.get_formatted_diagnostics(full_report=True)[["convergence", "objective_fct"]].to_numpy(float), full[["convergence", "objective_fct"]].to_numpy(float)[: len(m.diagnostics_)], equal_nan=True), "prefix", lambda: f"{case} row {n}")
    ctx.check(fingerprint(e) == before, "diagnostics-change-state", lambda: str([k for k in before if fingerprint(e).get(k) != before[k]]))
    ctx.outcome(e.n_iter_, type(full).__name__)
    ctx.trace()


def run_diagnostics0(case, ctx):
    for cls in (glum.GeneralizedLinearRegressor, glum.GeneralizedLinearRegressorCV):
        e = cls()
        before = fingerprint(e)
        s = e.get_formatted_diagnostics()
        out = io.StringIO()
        with contextlib.redirect_stdout(out):
            e.report_diagnostics()
        ctx.op(2)
        ctx.state(cls.__name__)
        ctx.check(isinstance(s, str) and "not been fit" in s and s in out.getvalue() and fingerprint(e) == before, "unfitted", s)
        for q in (lambda: e.predict(X), lambda: e.linear_predictor(X), lambda: e.score(X, np.ones(N))):
            _, err = attempt(q)
            ctx.op()
            ctx.check(err is not None, "unfitted-query", "answered")
        ctx.outcome(cls.__name__)
    ctx.trace()


def run(case, ctx):
    globals()["run_" + case["block"]](case, ctx)
