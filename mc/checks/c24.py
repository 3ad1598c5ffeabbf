"""C24: saved, copied and wrapped models answer like the original."""

import copy
import io
import itertools
import os
import pickle
import subprocess
import sys
import tempfile
import warnings

import glum
import joblib
import numpy as np
import pandas as pd
import scipy.sparse as sps
import sklearn
from sklearn.base import BaseEstimator, TransformerMixin, clone
from sklearn.model_selection import GridSearchCV, KFold, cross_val_predict, cross_validate
from sklearn.pipeline import Pipeline

from .. import data, fit

ID = "C24"
RULE = (
    "Fitted models of a finite list (array, sparse, frame, formula, path, cross-validation; families and links by name "
    "and as objects; penalties, bounds, constraints, missing categories) times every way of saving or copying "
    "(pickle protocols 0 to 5, joblib, copy, deepcopy, a second generation, a new process), times every subset of "
    "the differences between the state written by this version and by versions since 3.0; and times scikit-learn's "
    "wrappers (clone, set_params, Pipeline, GridSearchCV, cross_val_predict, cross_validate, metadata routing), each "
    "compared with the work done by hand. A state is one (model, way); a transition one saved, copied or "
    "wrapped model whose every answer is compared with the original's."
)
ASSUMPTIONS = [
    "bitwise equality, in a new process 1e-12; timings among the diagnostics are ignored",
    "states of earlier versions are emulated by rewriting the state as those versions wrote it (the pickle of version 3.0 in the repository's tests is the model)",
]

N = 24


def arrays():
    i = np.arange(N)
    X = np.column_stack([np.sin(1.7 * i), ((i * 7) % 5 - 2) / 2.0, np.cos(0.9 * i * i)])
    mu = np.exp(0.3 + 0.5 * X[:, 0] - 0.2 * X[:, 1])
    y = np.round(mu + 0.6 * np.sin(5 * i) ** 2)
    return X, y, np.resize([1.0, 2.0, 0.5], N), np.resize([0.1, -0.2, 0.0, 0.3], N)


def frames():
    X, y, w, o = arrays()
    i = np.arange(N)
    df = pd.DataFrame({"a": X[:, 0], "c": pd.Categorical(np.resize(["x", "y", "z", "y", "x"], N)), "b": X[:, 1],
                       "k": pd.Categorical(np.resize([3, 1, 2], N), categories=[1, 2, 3, 4]), "o": pd.Categorical(np.resize(["lo", "hi"], N), categories=["lo", "hi"], ordered=True)})
    dm = df.copy()
    dm["c"] = pd.Categorical(np.where(i % 6 == 5, None, df["c"].astype(object)), categories=["x", "y", "z"])
    return df, dm


def models():
    """name -> (class, parameters, data of the fit, data of the queries, fit parameters)"""
    X, y, w, o = arrays()
    df, dm = frames()
    y01 = (y > 1) * 1.0
    full = df.assign(y=y, w=w)
    G, C = glum.GeneralizedLinearRegressor, glum.GeneralizedLinearRegressorCV
    wo = dict(sample_weight=w, offset=o)
    import polars as pl

    pf = pl.DataFrame({"a": X[:, 0], "c": pl.Series(list(df["c"]), dtype=pl.Enum(["x", "y", "z"]))})
    M = {
        "normal": (G, dict(alpha=0), X, y, {}),
        "poisson": (G, dict(family="poisson", alpha=0.1, l1_ratio=0.5), X, y, wo),
        "stored": (G, dict(family="poisson", alpha=0), X, y, dict(store_covariance_matrix=True, **wo)),
        "random": (G, dict(family="poisson", alpha=0.05, l1_ratio=1.0, selection="random", random_state=3), X, y, {}),
        "random-state": (G, dict(family="poisson", alpha=0.05, l1_ratio=1.0, selection="random", random_state=np.random.RandomState(7)), X, y, {}),
        "csc": (G, dict(family="gamma", alpha=0.1), sps.csc_matrix(np.round(X)), y + 1, {}),
        "float32": (G, dict(family="poisson", alpha=0.1), X.astype(np.float32), y, {}),
        "object": (G, dict(family=glum.TweedieDistribution(1.5), link=glum.TweedieLink(1.0), alpha=0.1, P1=np.ones(3), P2=np.diag([1.0, 2.0, 3.0])), X, y, wo),
        "negbin": (G, dict(family=glum.NegativeBinomialDistribution(0.7), link=glum.LogLink(), alpha=0.1, scale_predictors=True), X, y, {}),
        "binomial": (G, dict(family="binomial", alpha=0.2, fit_intercept=False), X, y01, {}),
        "cloglog": (G, dict(family=glum.BinomialDistribution(), link=glum.CloglogLink(), alpha=0.2, robust=False, expected_information=True), X, y01, {}),
        "ghs": (G, dict(family=glum.GeneralizedHyperbolicSecant(), alpha=0.1), X, y, {}),
        "bounds": (G, dict(family="poisson", alpha=0.05, l1_ratio=0.5, lower_bounds=np.array([0.0, 0, 0]), upper_bounds=np.array([0.2, 1, 1])), X, y, {}),
        "inequality": (G, dict(family="poisson", alpha=0.1, A_ineq=np.array([[1.0, 1.0, 0.0]]), b_ineq=np.array([0.2])), X, y, {}),
        "monotonic": (G, dict(family="poisson", alpha=0.1, formula="a + k", monotonic_constraints={"k": "increasing", "a": "decreasing"}), df[["a", "k"]], y, {}),
        "warm": (G, dict(family="poisson", alpha=0.1, warm_start=True, start_params=np.array([0.1, 0.0, 0.0, 0.0])), X, y, {}),
        "path": (G, dict(family="poisson", alpha_search=True, l1_ratio=0.5, n_alphas=4, min_alpha_ratio=0.1), X, y, wo),
        "path-list": (G, dict(family="poisson", alpha=[0.5, 0.1], alpha_search=True, drop_first=True), df, y, {}),
        "frame": (G, dict(family="poisson", alpha=0.1), df, y, wo),
        "frame-first": (G, dict(family="poisson", alpha=0.02, drop_first=True, categorical_format="{name}__{category}"), df[["c", "a", "k"]], y, {}),
        "missing-convert": (G, dict(family="poisson", alpha=0.1, cat_missing_method="convert", cat_missing_name="none"), dm, y, {}),
        "missing-zero": (G, dict(family="poisson", alpha=0.1, cat_missing_method="zero"), dm[["c", "b"]], y, {}),
        "convert-unused": (G, dict(family="poisson", alpha=0.1, cat_missing_method="convert"), df[["c", "b"]], y, {}),
        "polars": (G, dict(family="poisson", alpha=0.1), pf, y, {}),
        "formula": (G, dict(family="poisson", alpha=0.1, formula="a*c + bs(b, df=4)", interaction_separator="|"), df, y, {}),
        "formula-two": (G, dict(family="poisson", alpha=0, formula="y ~ center(a) + C(k) + poly(b, 2)", drop_first=True), full, None, dict(sample_weight=w)),
        "formula-path": (G, dict(family="poisson", alpha=[0.3, 0.1], alpha_search=True, l1_ratio=0.5, formula="scale(a) + c"), df, y, {}),
        "cv": (C, dict(family="poisson", cv=3, n_alphas=3, l1_ratio=[0.5, 1.0], min_alpha_ratio=0.1), X, y, wo),
        "cv-folds": (C, dict(cv=KFold(3, shuffle=True, random_state=1), alphas=[0.3, 0.1], scale_predictors=True, fit_intercept=True), X, y, {}),
        "cv-frame": (C, dict(family="poisson", cv=2, alphas=[0.3, 0.1]), df, y, wo),
        "cv-formula": (C, dict(family="poisson", cv=2, alphas=[0.3, 0.1], formula="y ~ a + c"), full, None, {}),
    }
    return M


FRAMES = ("frame", "frame-first", "missing-convert", "missing-zero", "convert-unused", "path-list", "cv-frame")
NAMES = ["normal", "poisson", "stored", "random", "random-state", "csc", "float32", "object", "negbin", "binomial", "cloglog", "ghs", "bounds", "inequality", "monotonic", "warm", "path", "path-list", "frame", "frame-first",
         "missing-convert", "missing-zero", "convert-unused", "polars", "formula", "formula-two", "formula-path", "cv", "cv-folds", "cv-frame", "cv-formula"]
WAYS = ["copy", "deepcopy", "joblib", "joblib-z", "second", "of-copy"] + [f"pickle{k}" for k in range(6)]
# what states of earlier versions lack or have in another form
OLD = ["max_inner_iter", "monotonic_constraints", "logs", "colstats", "train", "levels", "extra"]


def cases(tier):
    out = [dict(block="save", model=m) for m in NAMES]
    out += [dict(block="old", model=m) for m in NAMES]
    out += [dict(block="process", model=m) for m in NAMES]
    out += [dict(block="params", model=m) for m in NAMES]
    out += [dict(block="wrap", model=m) for m in NAMES]
    out += [dict(block="pickle30")]
    for c in out:
        c["deep"] = tier == "thorough"
    return out


def kw0(name):
    return models()[name][1]


def made(name):
    cls, kw, X, y, fk = models()[name]
    m = cls(**kw)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        m.fit(X, y, **fk)
    return m


def plain(v):
    """A comparable form of an answer."""
    if isinstance(v, (pd.DataFrame, pd.Series)):
        v = v.drop(columns=[c for c in v.columns if "runtime" in c]) if isinstance(v, pd.DataFrame) else v
        return (tuple(map(str, v.index)), tuple(map(str, getattr(v, "columns", ()))), np.asarray(v, float) if all(np.issubdtype(t, np.number) for t in np.atleast_1d(getattr(v, "dtypes", v.dtype if isinstance(v, pd.Series) else None))) else str(v.values.tolist()))
    if hasattr(v, "_asdict"):
        return tuple(plain(x) for x in v)
    if isinstance(v, (list, tuple)):
        return tuple(plain(x) for x in v)
    if isinstance(v, dict):
        return tuple((k, plain(x)) for k, x in v.items())
    if isinstance(v, (int, float, np.number, np.ndarray)) and not isinstance(v, bool):
        a = np.asarray(v)
        return (str(a.dtype), a) if a.dtype != object else str(a.tolist())
    if sps.issparse(v):
        return v.toarray()
    r = repr(v)
    return r.split(" object at ")[0] if " object at " in r else r


def alike(a, b, tol=0.0):
    if isinstance(a, tuple) and isinstance(b, tuple):
        return len(a) == len(b) and all(alike(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, np.ndarray) and isinstance(b, np.ndarray):
        if a.shape != b.shape:
            return False
        if a.dtype.kind in "fiu" and b.dtype.kind in "fiu":
            return np.array_equal(a, b, equal_nan=True) if tol == 0 else np.allclose(a, b, rtol=tol, atol=tol, equal_nan=True)
        return np.array_equal(a, b)
    return type(a) is type(b) and a == b


def answers(m, name, spoil=True):
    """Everything a fitted model can be asked."""
    cls, kw, X, y, fk = models()[name]
    out = {}

    def ask(key, f):
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            try:
                out[key] = plain(f())
            except Exception as ex:
                out[key] = ("raised", type(ex).__name__, str(ex)[:200])

    w, o = fk.get("sample_weight"), fk.get("offset")
    cut = X[::-1][:7] if not hasattr(X, "iloc") and not sps.issparse(X) else X.iloc[::-1][:7] if hasattr(X, "iloc") else X[3:9]
    ask("predict", lambda: m.predict(X, offset=o))
    ask("predict-few", lambda: m.predict(cut))
    ask("predict-weights", lambda: m.predict(X, sample_weight=w if w is not None else np.ones(X.shape[0])))
    ask("eta", lambda: m.linear_predictor(X, offset=o))
    ask("score", lambda: m.score(X, y, sample_weight=w, offset=o))
    if name.startswith(("path", "formula-path", "cv")):
        ask("predict-index", lambda: m.predict(X, alpha_index=[0, 1]))
        ask("predict-alpha", lambda: m.predict(X, alpha=0.1))
    if isinstance(X, pd.DataFrame) and "c" in X:
        odd = X.copy()
        odd["c"] = pd.Categorical(list(odd["c"]), categories=["z", "y", "x"])
        ask("predict-reordered", lambda: m.predict(odd))
        odd["c"] = pd.Categorical(["q"] + list(X["c"])[1:])
        ask("predict-unseen", lambda: m.predict(odd))
        gone = X.copy()
        gone["c"] = pd.Categorical([None] + list(X["c"])[1:], categories=["x", "y", "z"])
        ask("predict-missing", lambda: m.predict(gone))
        ask("predict-objects", lambda: m.predict(X.assign(c=X["c"].astype(object))))
    if hasattr(X, "select") and not isinstance(X, pd.DataFrame):
        ask("predict-pandas", lambda: m.predict(X.to_pandas()))
    for key, a in {"aic": {}, "aicc": {}, "bic": {}}.items():
        ask(key, lambda: getattr(m, key)(X, y, sample_weight=w, offset=o))
    for r, ex in itertools.product((None, True, False), (None, True, False)):
        ask(f"cov-{r}-{ex}", lambda: m.covariance_matrix(X, y, sample_weight=w, offset=o, robust=r, expected_information=ex))
    ask("cov-clusters", lambda: m.covariance_matrix(X, y, clusters=np.arange(X.shape[0]) // 3))
    ask("cov-bare", lambda: m.covariance_matrix())
    ask("std-errors", lambda: m.std_errors(X, y, sample_weight=w, offset=o))
    ask("coef-table", lambda: m.coef_table(X, y, sample_weight=w, offset=o))
    ask("coef-table-bare", lambda: m.coef_table())
    ask("wald", lambda: m.wald_test(X, y, features=[m.feature_names_[0]]))
    ask("wald-terms", lambda: m.wald_test(X, y, terms=[m.term_names_[-1]]))
    ask("diagnostics", lambda: m.get_formatted_diagnostics(full_report=True))
    ask("family", lambda: m.family_instance)
    ask("link", lambda: m.link_instance)
    ask("dispersion", lambda: m.family_instance.dispersion(y, m.predict(X), sample_weight=w))
    ask("params", lambda: {k: v for k, v in m.get_params().items() if k != "random_state"})
    for k in ("coef_", "intercept_", "n_iter_", "feature_names_", "term_names_", "n_features_in_", "categorical_levels_", "has_missing_category_", "coef_path_", "intercept_path_", "alphas_", "alpha_", "l1_ratio_", "deviance_path_"):
        ask("." + k, lambda: getattr(m, k))
    return out


def compare(ctx, sig, got, want, what, tol=0.0, skip=()):
    ctx.op()
    for k in want:
        if k in skip:
            continue
        ctx.check(k in got and alike(got[k], want[k], tol), f"{sig}:{k.split('-')[0]}", lambda: f"{what}: {k} is {got.get(k)} instead of {want[k]}")
    ctx.trace()


def refit(m, name):
    cls, kw, X, y, fk = models()[name]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        m.fit(X, y, **fk)
    return m


def carry(m, way):
    if way == "copy":
        return copy.copy(m)
    if way == "deepcopy":
        return copy.deepcopy(m)
    if way.startswith("joblib"):
        b = io.BytesIO()
        joblib.dump(m, b, compress=3 if way.endswith("z") else 0)
        b.seek(0)
        return joblib.load(b)
    if way == "second":
        return pickle.loads(pickle.dumps(pickle.loads(pickle.dumps(m))))
    if way == "of-copy":
        return pickle.loads(pickle.dumps(copy.deepcopy(m)))
    return pickle.loads(pickle.dumps(m, protocol=int(way[6:])))


def run_save(case, ctx):
    name = case["model"]
    m = made(name)
    want = answers(m, name)
    keys = set(m.__dict__)
    again = None
    ways = [k for k in WAYS if not ("formula" in kw0(name) and k in ("pickle0", "pickle1"))]
    for way in ways:
        n = carry(m, way)
        ctx.state(name, way)
        ctx.check(set(n.__dict__) == keys, "attributes", lambda: f"{name} {way}: {set(n.__dict__) ^ keys}")
        compare(ctx, f"save:{way}", answers(n, name), want, f"{name} {way}")
        if way == "copy" or name in ("warm", "random-state"):
            continue
        # the copy learns anew without touching the original
        if again is None:
            again = answers(refit(made(name), name), name)
        compare(ctx, f"save-refit:{way}", answers(refit(n, name), name), again, f"{name} {way} fitted again")
    compare(ctx, "original", answers(m, name), want, name)
    # before the fit
    for way in ways:
        cls, kw, X, y, fk = models()[name]
        n = refit(carry(cls(**kw), way), name)
        ctx.state(name, way, "unfitted")
        compare(ctx, f"save-before:{way}", answers(n, name), want, f"{name} {way} before the fit")
    ctx.outcome(name, str(want["predict"])[:80])


def aged(m, lacks):
    """The state an earlier version would have written."""
    d = dict(m.__dict__)
    if "max_inner_iter" in lacks:
        d.pop("max_inner_iter")
    if "monotonic_constraints" in lacks:
        d.pop("monotonic_constraints")
    if "logs" in lacks:
        d.pop("_align_info_logs_emitted", None)
    if "colstats" in lacks:
        d.pop("col_means_", None)
        d.pop("col_stds_", None)
    if "train" in lacks:
        d.pop("train_deviance_path_", None)
    if "levels" in lacks and "_feature_dtypes_" in d:
        d["feature_dtypes_"] = d.pop("_feature_dtypes_")
        d.pop("_categorical_levels_", None)
    if "extra" in lacks:  # parameters that have gone
        d.update(alphas=None) if type(m) is glum.GeneralizedLinearRegressor else d.update(copied=None)
    # as another version's pickle: the state as it stands
    return pickle.loads(pickle.dumps(Raw(type(m), d)))




class Raw:
    """Pickles like an instance of cls with the given state."""

    def __init__(self, cls, state):
        self.cls, self.state = cls, state

    def __reduce__(self):
        return copy_reg_new, (self.cls,), self.state


def copy_reg_new(cls):
    return cls.__new__(cls)


def run_old(case, ctx):
    name = case["model"]
    if name == "monotonic":
        old = [k for k in OLD if k != "monotonic_constraints"]
    else:
        old = OLD
    if name not in FRAMES:
        old = [k for k in old if k != "levels"]
    if not name.startswith("cv"):
        old = [k for k in old if k != "train"]
    m = made(name)
    want = answers(m, name)
    again = answers(refit(made(name), name), name) if name not in ("warm", "random-state") else None
    for r in range(len(old) + 1):
        for lacks in itertools.combinations(old, r):
            if not case["deep"] and r not in (0, 1, len(old) - 1, len(old)):
                continue
            ctx.state(name, lacks)
            n = aged(m, lacks)
            what = f"{name} without {lacks}"
            compare(ctx, "old", answers(n, name), want, what)
            # saved by this version
            for way in ("pickle5", "deepcopy") if case["deep"] or r in (1, len(old)) else ():
                compare(ctx, f"old-{way}", answers(carry(aged(m, lacks), way), name), want, what)
            c = clone(n)
            ctx.check(alike(plain({k: v for k, v in c.get_params().items() if k != "random_state"}), want["params"]), "old-clone", what)
            if again is not None:
                n = refit(n, name)
                compare(ctx, "old-refit", answers(n, name), again, what + " fitted again")
                compare(ctx, "old-refit-saved", answers(carry(n, "pickle5"), name), again, what + " fitted again")
            # trained on arrays thereafter, nothing of the frame remains
            if "levels" in lacks and name in ("frame", "cv-frame", "path-list"):
                X, y, w, o = arrays()
                n = carry(aged(m, lacks).set_params(drop_first=False).fit(X, y), "pickle5")
                b = clone(n).fit(X, y)
                f = pd.DataFrame({"a": X[:, 0], "c": X[:, 1], "k": X[:, 2]})
                for q in (X, f):
                    try:
                        got = n.predict(q)
                    except Exception as ex:
                        got = np.array([repr(ex)])
                    ctx.check(alike(got, b.predict(q)), "old-forgets", lambda: f"{what}: {got[:3]}")
                ctx.check(not hasattr(n, "categorical_levels_"), "old-forgets", what)
    ctx.outcome(name, len(old))


def run_process(case, ctx):
    """Loaded by a new process."""
    name = case["model"]
    m = made(name)
    want = answers(m, name)
    with tempfile.TemporaryDirectory(dir="/dev/shm" if os.path.isdir("/dev/shm") else None) as d:
        src, dst = os.path.join(d, "m.pkl"), os.path.join(d, "a.pkl")
        with open(src, "wb") as fh:
            pickle.dump([carry(m, "pickle4"), m], fh)
        code = ("import sys, pickle\n"
                "ms = pickle.load(open(sys.argv[1], 'rb'))\n"
                "from mc.checks import c24\n"
                "pickle.dump([c24.answers(m, sys.argv[3]) for m in ms], open(sys.argv[2], 'wb'))\n")
        env = dict(os.environ, PYTHONPATH=os.pathsep.join(p for p in sys.path if p), PYTHONHASHSEED=str(len(name)), PYTHONDONTWRITEBYTECODE="1")
        r = subprocess.run([sys.executable, "-W", "ignore", "-c", code, src, dst, name], env=env, capture_output=True, text=True)
        if not ctx.check(r.returncode == 0, "process", lambda: f"{name}: {r.stderr[-400:]}"):
            return
        with open(dst, "rb") as fh:
            for k, got in enumerate(pickle.load(fh)):
                ctx.state(name, k)
                compare(ctx, "process", got, want, f"{name} in a new process", tol=1e-12)
    ctx.outcome(name)


def run_params(case, ctx):
    """clone, get_params and set_params."""
    name = case["model"]
    cls, kw, X, y, fk = models()[name]
    e = cls(**kw)
    pars = e.get_params()
    if name == "random-state":
        return
    m = made(name)
    want = answers(m, name)
    ctx.check(set(pars) >= set(kw) and all(pars[k] is kw[k] for k in kw), "get-params", lambda: f"{name}: {pars}")
    late = cls()
    for way, n in {"clone": clone(e), "clone-fitted": clone(m), "set_params": cls().set_params(**kw), "one-by-one": late, "get-set": cls().set_params(**m.get_params()), "init": cls(**m.get_params(deep=False))}.items():
        if way == "one-by-one":
            for k, v in kw.items():
                ctx.check(n.set_params(**{k: v}) is n, "set-params", name)
        ctx.state(name, way)
        ctx.check(not hasattr(n, "coef_"), f"params:{way}", f"{name}: fitted")
        compare(ctx, f"params:{way}", answers(refit(n, name), name), want, f"{name} {way}")
    # a nested parameter of a family object reaches the fit
    # parameters set after a fit are those of the next
    n = refit(cls(), name) if name in ("normal", "poisson", "csc", "cv", "path") else None
    if n is not None:
        n.set_params(**kw)
        compare(ctx, "params:after-fit", answers(refit(n, name), name), want, f"{name} parameters set after a fit")
    try:
        cls().set_params(no_such=1)
        ctx.check(False, "params:unknown", name)
    except ValueError:
        pass
    # every parameter is kept as given and independent of the others
    for k, v in cls().get_params().items():
        marker = object()
        n = cls(**{k: marker})
        ctx.check(n.get_params()[k] is marker and all(alike(plain(x), plain(cls().get_params()[q])) for q, x in n.get_params().items() if q != k), "params:init-stores", f"{name}: {k}")
        n = cls().set_params(**{k: marker})
        ctx.check(n.get_params()[k] is marker and getattr(n, k) is marker, "params:set-stores", f"{name}: {k}")
    ctx.outcome(name)


class Half(TransformerMixin, BaseEstimator):
    """Halves numeric columns, leaves the container alone."""

    def __init__(self, factor=0.5):
        self.factor = factor

    def fit(self, X, y=None):
        return self

    def transform(self, X):
        if isinstance(X, pd.DataFrame):
            X = X.copy()
            for c in ("a", "b"):
                if c in X:
                    X[c] = X[c] * self.factor
            return X
        return X * self.factor if not hasattr(X, "select") else X


def rows(X, idx):
    return X.iloc[idx] if hasattr(X, "iloc") else X[idx] if not hasattr(X, "select") else X[[int(i) for i in idx]]


def sub(fk, idx):
    return {k: np.asarray(v)[idx] if not np.isscalar(v) else v for k, v in fk.items()}


def run_wrap(case, ctx):
    """scikit-learn's wrappers compared with the same work by hand."""
    name = case["model"]
    cls, kw, X, y, fk = models()[name]
    fk = {k: v for k, v in fk.items() if k in ("sample_weight", "offset")}
    n = X.shape[0]
    same = lambda a, b: np.array_equal(np.asarray(a), np.asarray(b), equal_nan=True)
    warnings.simplefilter("ignore")
    new = lambda **more: cls(**{**kw, **more})
    if name == "random-state":
        kw = dict(kw, random_state=5)
    # Pipeline
    for factor in (0.5, 2.0):
        Z = Half(factor).transform(X)
        by_hand = new().fit(Z, y, **fk)
        p = Pipeline([("half", Half()), ("glm", new())]).set_params(half__factor=factor)
        p.fit(X, y, **{f"glm__{k}": v for k, v in fk.items()})
        ctx.op()
        ctx.state(name, "pipeline", factor)
        ctx.check(same(p.predict(X), by_hand.predict(Z)), "pipeline:predict", name)
        ctx.check(same(p[-1].coef_, by_hand.coef_), "pipeline:coef", name)
        if y is not None:
            ctx.check(p.score(X, y) == by_hand.score(Z, y), "pipeline:score", name)
        q = pickle.loads(pickle.dumps(p))
        ctx.check(same(q.predict(X), by_hand.predict(Z)), "pipeline:saved", name)
        ctx.check(same(clone(p).fit(X, y, **{f"glm__{k}": v for k, v in fk.items()}).predict(X), by_hand.predict(Z)), "pipeline:clone", name)
    if y is None:
        return
    # cross-validation helpers
    cv = KFold(3)
    folds = list(cv.split(np.arange(n)))
    hand = np.empty(n)
    scores, train = [], []
    for tr, te in folds:
        m = new().fit(rows(X, tr), y[tr], **sub(fk, tr))
        hand[te] = m.predict(rows(X, te))
        scores.append(m.score(rows(X, te), y[te]))
        train.append(m.score(rows(X, tr), y[tr]))
    ctx.op(3)
    ctx.state(name, "cross")
    if not sps.issparse(X) or True:
        ctx.check(same(cross_val_predict(new(), X, y, cv=cv, params=fk), hand), "cross_val_predict", name)
        r = cross_validate(new(), X, y, cv=cv, params=fk, return_train_score=True, return_estimator=True)
        ctx.check(same(r["test_score"], scores) and same(r["train_score"], train), "cross_validate", lambda: f"{name}: {r['test_score']} instead of {scores}")
    # searches
    if cls is glum.GeneralizedLinearRegressor and not kw.get("alpha_search"):
        grid = dict(alpha=[0.3, 0.1], scale_predictors=[True, False] if kw.get("fit_intercept", True) else [False])
        gs = GridSearchCV(new(), grid, cv=cv, return_train_score=True).fit(X, y, **fk)
        best = None
        for k, par in enumerate(gs.cv_results_["params"]):
            sc = [new(**par).fit(rows(X, tr), y[tr], **sub(fk, tr)).score(rows(X, te), y[te], **{q: v for q, v in sub(fk, te).items() if q == "sample_weight"}) for tr, te in folds]  # the search hands weights on to the score
            ctx.op()
            ctx.state(name, "grid", k)
            ctx.check(same([gs.cv_results_[f"split{j}_test_score"][k] for j in range(3)], sc), "grid:scores", lambda: f"{name} {par}: {sc}")
            if best is None or np.mean(sc) > best[0]:
                best = (np.mean(sc), par)
        ctx.check(gs.best_params_ == best[1], "grid:best", lambda: f"{name}: {gs.best_params_} instead of {best}")
        by_hand = new(**best[1]).fit(X, y, **fk)
        ctx.check(same(gs.predict(X), by_hand.predict(X)) and gs.score(X, y) == by_hand.score(X, y), "grid:refit", name)
        gs2 = GridSearchCV(new(), grid, cv=cv, n_jobs=2).fit(X, y, **fk) if case["deep"] else gs
        ctx.check(same(gs2.cv_results_["mean_test_score"], gs.cv_results_["mean_test_score"]), "grid:jobs", name)
    # metadata routing: weights and offsets reach the methods that asked for them
    w, o = np.resize([1.0, 0.5, 3.0], n), np.resize([0.2, -0.1], n)
    with sklearn.config_context(enable_metadata_routing=True):
        for req in itertools.product((True, False), repeat=2):
            e = new().set_fit_request(sample_weight=req[0], offset=req[1]).set_score_request(sample_weight=req[1], offset=req[0])
            par = {}
            if any(req):
                par = dict(sample_weight=w, offset=o)
            r = cross_validate(e, X, y, cv=cv, params=par)
            sc = []
            for tr, te in folds:
                f = {k: v[tr] for k, v, q in (("sample_weight", w, req[0]), ("offset", o, req[1])) if q and par}
                s = {k: v[te] for k, v, q in (("sample_weight", w, req[1]), ("offset", o, req[0])) if q and par}
                sc.append(new().fit(rows(X, tr), y[tr], **f).score(rows(X, te), y[te], **s))
            ctx.op()
            ctx.state(name, "routing", req)
            ctx.check(same(r["test_score"], sc), "routing", lambda: f"{name} {req}: {r['test_score']} instead of {sc}")
    ctx.outcome(name, np.round(hand, 4).tolist())
    ctx.trace()


def run_pickle30(case, ctx):
    """The model written by version 3.0 that the repository keeps."""
    root = os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(glum.__file__))))
    path = os.path.join(root, "tests", "glm", "pickles", "glum_v3_0_model.pkl")
    if not os.path.exists(path):
        ctx.note("no pickle of 3.0")
        ctx.op()
        ctx.state("pickle30")
        ctx.trace()
        ctx.outcome("none")
        return
    X = pd.DataFrame({"num": [1.0, 2.0, 3.0, 4.0, 5.0], "cat": pd.Categorical(["x", "y", "x", "y", "x"])})
    y = np.array([1.0, 2.0, 3.0, 2.0, 1.0])

    def load():
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            with open(path, "rb") as fh:
                return pickle.load(fh)

    new = glum.GeneralizedLinearRegressor(alpha=0.1).fit(X, y)
    for k, m in enumerate((load(), carry(load(), "pickle5"), carry(load(), "deepcopy"), load().fit(X, y), clone(load()).fit(X, y))):
        ctx.op()
        ctx.state("pickle30", k)
        for q, v in {"predict": lambda m: m.predict(X), "few": lambda m: m.predict(X[:2]), "eta": lambda m: m.linear_predictor(X, offset=y), "coef": lambda m: m.coef_, "names": lambda m: [float(len(q)) for q in m.feature_names_], "score": lambda m: m.score(X, y)}.items():
            ctx.check(np.allclose(v(m), v(new), rtol=1e-9), f"3.0:{q}", lambda: f"{k}: {v(m)} instead of {v(new)}")
        ctx.check(m.categorical_levels_ == new.categorical_levels_, "3.0:levels", str(k))
        for bad, ex in ((X.assign(cat=pd.Categorical(["q"] * 5)), ValueError),):
            try:
                m.predict(bad)
                ctx.check(False, "3.0:unseen", str(k))
            except ex:
                pass
    ctx.outcome("loaded")
    ctx.trace()


def run(case, ctx):
    globals()["run_" + case["block"]](case, ctx)
