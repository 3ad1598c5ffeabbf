"""C12: explicit-state exploration of operation histories on one estimator.

Breadth first over histories; a history is re-executed from scratch for every transition, a state is the
fingerprint of everything the real estimator carries plus the reference state (parameters, latest fit, what was
stored since). After every operation all answers are compared with those of a fresh estimator.
"""

import copy
import pickle
import warnings

import glum
import numpy as np
import pandas as pd
import polars as pl
import scipy.sparse as sps
import sklearn

from .. import data

ID = "C12"
RULE = (
    "All histories up to a depth of operations from alphabets of parameter settings, fits on different data, "
    "failing fits, queries, failing queries and life-cycle operations (clone, copy, deep copy, pickle), explored "
    "breadth first with states merged when everything the estimator carries is equal. A state is a fingerprint of "
    "the real estimator plus the reference state; a transition one operation, after which all answers are "
    "compared with a fresh estimator's."
)
ASSUMPTIONS = [
    "bitwise equality, except with warm_start or after float32/float64 changes of the data (1e-5)",
    "after a failed fit only later fits are checked; after a change of parameters, until the next fit, only predictions and coefficients (only coefficients if a parameter says how frames are read)",
    "timings among the diagnostics are ignored",
]


def tables():
    X3, X5 = data.X("three"), data.X("corr")
    n = len(X3)
    y3 = np.asarray(data.y("three", "poisson"), float)
    f = pd.DataFrame({"c": pd.Categorical(np.resize(["a", "b", "cc", "a", "b"], 12)), "z": np.resize([0.3, -1.0, 0.5, 1.5, -0.2, 0.8, 0.1], 12), "y": np.resize([1.0, 0, 2, 3, 1, 2], 12)})
    f2 = pd.DataFrame({"z": np.resize([0.7, 0.1, -0.5, 1.1], 10), "c": pd.Categorical(np.resize(["d", "a", "cc"], 10), categories=["d", "b", "cc", "a"]), "y": np.resize([2.0, 0, 1], 10)})
    fm = pd.DataFrame({"c": pd.Categorical(np.resize(["a", None, "cc", "a", "b"], 12)), "z": f["z"], "y": f["y"]})
    T = {}
    T["A"] = (X3, y3, {})
    T["A2"] = (X3[::-1] * 1.5, y3 + 1, {})
    T["B"] = (np.ascontiguousarray(X3[:, :2]), y3, {})
    T["S"] = (sps.csc_matrix(X3), y3, {})
    T["W"] = (X3, y3, dict(sample_weight=np.resize([1.0, 2.0, 0.5], n), offset=np.resize([0.1, -0.2], n)))
    T["H"] = (X3.astype(np.float32), y3, {})
    T["I"] = (np.round(X3 * 2).astype(int), y3, {})
    T["N"] = (pd.DataFrame(X3, columns=["u", "v", "w"]), y3, {})
    T["F"] = (f[["c", "z"]], np.asarray(f["y"]), {})
    T["F2"] = (f2[["z", "c"]], np.asarray(f2["y"]), {})
    T["FM"] = (fm[["c", "z"]], np.asarray(fm["y"]), {})
    T["G"] = (pl.from_pandas(f[["c", "z"]]), np.asarray(f["y"]), {})
    T["Y"] = (f, None, {})  # for a two-sided formula
    T["Y2"] = (f2, None, {})
    T["K"] = (X3, y3, dict(clusters=np.resize([0, 1, 1, 2], n), store_covariance_matrix=True))
    T["C"] = (X3, y3, dict(store_covariance_matrix=True))
    # rejected
    T["bad-y"] = (X3, y3 - 2, {})
    T["bad-w"] = (X3, y3, dict(sample_weight=np.ones(n - 1)))
    T["bad-X"] = (np.where(X3 > 1.0, np.nan, X3), y3, {})
    T["bad-off"] = (X3, y3, dict(offset=np.ones(n + 1)))
    T["bad-frame"] = (fm[["c", "z"]].assign(z=np.nan), np.asarray(fm["y"]), {})
    T["bad-none"] = (X3, None, {})
    T["bad-F"] = (f2[["z", "c"]], np.asarray(f2["y"]) - 9, {})
    T["bad-form"] = (f[["z"]], np.asarray(f["y"]), {})
    return T


class Lazy(dict):
    """Built in the process that uses them (polars does not survive a fork)."""

    def __missing__(self, k):
        self.update(tables())
        return self[k]


TB = Lazy()
R = dict(alpha=0.3, family="poisson", gradient_tol=1e-9, max_iter=200)
RN = dict(alpha=0.3, family="normal", gradient_tol=1e-9, max_iter=200)
GLR, CV = "GeneralizedLinearRegressor", "GeneralizedLinearRegressorCV"
S = lambda **k: ("set", k)  # noqa: E731
F = lambda d: ("fit", d)  # noqa: E731
Q = lambda *a: ("query",) + a  # noqa: E731
L = lambda a: ("life", a)  # noqa: E731

ALPHABETS = {
    "path": (GLR, R, [S(alpha=[1.0, 0.2], alpha_search=True), S(alpha=0.3, alpha_search=False), S(alpha=None, alpha_search=True, n_alphas=3), S(l1_ratio=0.5), F("A"), F("B"), F("C"), F("bad-y"), Q("predict-index"), Q("covariance-store"), Q("aic"), L("pickle")]),
    "storage": (GLR, RN, [F("A"), F("S"), F("H"), F("I"), F("N"), F("G"), F("W"), F("B"), F("bad-X"), Q("all"), Q("bad"), L("copy")]),
    "frames": (GLR, R, [F("F"), F("F2"), F("A"), F("G"), F("FM"), S(cat_missing_method="convert"), S(cat_missing_method="zero"), S(drop_first=True, categorical_format="{name}__{category}"), F("bad-frame"), Q("all"), Q("unseen"), L("deepcopy")]),
    "formula": (GLR, R, [S(formula="c + z"), S(formula="y ~ z + bs(z, df=4)", drop_first=True), S(formula="y ~ c*z"), S(formula=None), F("F"), F("Y"), F("Y2"), F("A"), F("bad-form"), Q("all"), Q("unseen"), L("pickle")]),
    "warm": (GLR, R, [S(warm_start=True), S(warm_start=False), S(start_params=np.array([0.1, 0.2, -0.1, 0.05])), S(scale_predictors=True), S(solver="lbfgs"), S(solver="irls-cd", l1_ratio=0.4), S(alpha=1.0), F("A"), F("A2"), F("W"), F("B"), F("bad-w"), L("clone")]),
    "bounds": (GLR, RN, [S(lower_bounds=np.array([0.0, 0.0, 0.0])), S(upper_bounds=np.array([0.1, 0.1, 0.1])), S(lower_bounds=None, upper_bounds=None), S(A_ineq=np.array([[1.0, -1.0, 0]]), b_ineq=np.array([0.0])), S(A_ineq=None, b_ineq=None), S(solver="auto", P1=[1.0, 0.0, 2.0], P2=np.array([1.0, 2.0, 0.5]), l1_ratio=0.5), S(P1="identity", P2="identity", l1_ratio=0.0), F("A"), F("W"), F("B"), Q("all"), L("copy")]),
    "family": (GLR, R, [S(family="normal"), S(family="gamma"), S(family=glum.TweedieDistribution(1.5)), S(family="negative.binomial"), S(family="poisson", link="auto"), S(link="log"), S(link=glum.IdentityLink()), F("A"), F("A2"), F("bad-y"), Q("aic"), L("deepcopy")]),
    "intercept": (GLR, RN, [S(fit_intercept=False, scale_predictors=False), S(fit_intercept=True), S(scale_predictors=True), S(robust=False), S(expected_information=True), S(alpha=0), F("A"), F("K"), F("C"), F("W"), Q("covariance-store"), Q("covariance-plain"), L("clone"), L("pickle")]),
    "budget": (GLR, dict(R, family="gamma", link="log"), [S(max_iter=1), S(max_iter=200), S(gradient_tol=1e-2), S(gradient_tol=1e-9), S(hessian_approx=0.1), S(alpha=-1.0), S(alpha=0.3), S(solver="nonsense"), S(solver="trust-constr"), F("A2"), F("bad-y"), Q("diagnostics")]),
    "copies": (GLR, R, [F("A"), F("C"), F("F"), F("bad-off"), F("bad-F"), S(alpha=0.9), S(fit_intercept=False), L("clone"), L("copy"), L("deepcopy"), L("pickle"), Q("all"), Q("bad"), Q("covariance-store")]),
    "cv": (CV, dict(family="poisson", alphas=[0.5, 0.1], cv=2, gradient_tol=1e-7), [S(l1_ratio=[0.0, 0.5]), S(l1_ratio=0.5), S(alphas=None, n_alphas=3), S(alphas=[0.5, 0.1]), S(fit_intercept=False), F("A"), F("C"), F("F"), F("bad-y"), F("bad-F"), Q("all"), L("pickle")]),
    "cvwarm": (CV, dict(family="normal", alphas=[0.5, 0.1], cv=2, gradient_tol=1e-9, max_iter=200), [S(warm_start=True), S(warm_start=False), S(scale_predictors=True), S(start_params=np.array([0.1, 0.2, -0.1, 0.05])), S(formula="y ~ z"), S(formula=None), F("A"), F("A2"), F("Y"), F("bad-w"), Q("bad"), L("copy")]),
    # few operations, explored deeper
    "deep-path": (GLR, R, [S(alpha=[1.0, 0.2], alpha_search=True), S(alpha=0.3, alpha_search=False), F("A"), F("B"), Q("predict-index"), L("copy")]),
    "deep-frames": (GLR, R, [F("F"), F("F2"), F("A"), S(cat_missing_method="convert"), S(cat_missing_method="fail"), F("FM"), Q("unseen")]),
    "deep-formula": (GLR, R, [S(formula="y ~ c + z", drop_first=True), S(formula=None), F("F"), F("Y2"), F("A"), F("bad-form"), L("copy")]),
    "deep-warm": (GLR, R, [S(warm_start=True), S(warm_start=False), S(scale_predictors=True), S(scale_predictors=False), F("A"), F("W"), F("bad-y")]),
    "deep-store": (GLR, RN, [F("A"), F("C"), F("W"), Q("covariance-store"), Q("covariance-plain"), Q("aic"), Q("bad"), L("deepcopy")]),
    "deep-family": (GLR, R, [S(family="normal"), S(family="gamma", link="auto"), S(link="identity"), F("A2"), F("bad-y"), Q("all")]),
    "deep-cv": (CV, dict(family="poisson", alphas=[0.5, 0.1], cv=2, gradient_tol=1e-5), [S(l1_ratio=[0.0, 0.5]), S(alphas=None, n_alphas=3, l1_ratio=0.5), F("A"), F("C"), F("bad-w"), L("copy")]),
}
DEPTH = {"quick": 3, "thorough": 4}
DEEP = {"quick": 4, "thorough": 6}


def cases(tier):
    out = []
    for a, (_, _, ops) in ALPHABETS.items():
        d = (DEEP if a.startswith("deep") else DEPTH)[tier] + (a in ("deep-path", "deep-family"))
        for i in range(len(ops)):
            out.append(dict(alphabet=a, first=i, depth=d))
    for b, (_, _, settings, _) in SETTINGS.items():
        for i in range(len(settings)):
            out.append(dict(settings=b, first=i, tier=tier))
    return out


# every ordered pair of settings: fit under the first, return to the base, set the second, fit again
_A3 = np.array([[1.0, -1.0, 0.0]])
_COMMON = [
    {}, dict(l1_ratio=0.5), dict(l1_ratio=1.0), dict(P1=np.array([1.0, 0, 2]), l1_ratio=0.5), dict(P2=np.array([1.0, 0.5, 2])), dict(P2=data.P2_dense(3)), dict(fit_intercept=False),
    dict(family="normal"), dict(family="gamma", link="log"), dict(family="normal", link="log"), dict(family=glum.TweedieDistribution(1.5)), dict(family="negative.binomial"), dict(link=glum.TweedieLink(1)),
    dict(solver="irls-ls"), dict(solver="irls-cd"), dict(solver="lbfgs"), dict(solver="trust-constr"), dict(solver="closed-form", family="normal"), dict(solver="auto", family="normal", A_ineq=_A3, b_ineq=np.zeros(1)),
    dict(max_iter=1), dict(max_inner_iter=1, l1_ratio=0.5), dict(gradient_tol=0.5), dict(gradient_tol=1e-8), dict(step_size_tol=0.1), dict(hessian_approx=0.5, l1_ratio=0.5), dict(start_params=np.array([0.1, 0.2, -0.1, 0.05])),
    dict(selection="random", l1_ratio=0.5, random_state=3), dict(random_state=5), dict(copy_X=False), dict(copy_X=True), dict(check_input=False), dict(scale_predictors=True), dict(lower_bounds=np.zeros(3)), dict(upper_bounds=np.full(3, 0.1)),
    dict(force_all_finite=False), dict(drop_first=True), dict(robust=False), dict(expected_information=True), dict(categorical_format="{name}__{category}"), dict(cat_missing_method="zero"),
]
SETTINGS = {
    "fit": (GLR, dict(family="poisson", alpha=0.3), _COMMON + [dict(alpha=0.0), dict(alpha=None), dict(alpha=[1.0, 0.2], alpha_search=True), dict(alpha=None, alpha_search=True, n_alphas=3, l1_ratio=0.5), dict(alpha=None, alpha_search=True, min_alpha_ratio=0.1, n_alphas=4, l1_ratio=0.5), dict(alpha=-1.0)], ("C", "A2")),
    "cv": (CV, dict(family="poisson", alphas=[0.5, 0.1], cv=2), [s for s in _COMMON if "solver" not in s or s["solver"] in ("irls-ls", "lbfgs")] + [dict(l1_ratio=[0.0, 0.5]), dict(alphas=None, n_alphas=3, l1_ratio=0.5), dict(cv=3), dict(min_alpha_ratio=0.1, alphas=None, n_alphas=2, l1_ratio=0.5)], ("C", "A2")),
}


def run_settings(case, ctx):
    cls, base, settings, (d1, d2) = SETTINGS[case["settings"]]
    a = settings[case["first"]]
    default = make(cls, base).get_params(deep=False)
    back = {k: default[k] for k in a}
    for j, b in enumerate(settings):
        if case["tier"] == "quick" and case["settings"] == "cv" and (case["first"] + j) % 3:
            continue
        hist = [("set", a), ("fit", d1), ("set", back), ("set", b), ("fit", d2)]
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            e, m = execute(cls, base, hist, ctx, "settings", True)
            # the reference names every parameter that was set; a fresh estimator gets them by the constructor
            ctx.state(case["settings"], case["first"], j)
            verify(e, m, ctx, "settings", ["settings"] + hist, True)
            ctx.trace()
    FRESH.clear()


# ---------------------------------------------------------------- answers
ATTRS = ("coef_", "intercept_", "n_features_in_", "feature_names_", "term_names_", "coef_path_", "intercept_path_", "covariance_matrix_", "n_iter_", "has_missing_category_", "col_means_", "col_stds_",
         "categorical_levels_", "feature_dtypes_", "alpha_", "l1_ratio_", "alphas_", "deviance_path_", "train_deviance_path_", "n_alphas_", "feature_names_in_", "_alphas", "_solver", "_num_obs", "_center_predictors")
LIGHT = ("coef_", "intercept_", "coef_path_", "intercept_path_", "feature_names_", "n_features_in_", "predict", "linear_predictor", "predict_other", "categorical_levels_")


def canon(v):
    if isinstance(v, (pd.DataFrame, pd.Series)):
        v = v.drop(columns=[c for c in getattr(v, "columns", []) if "time" in str(c)], errors="ignore") if isinstance(v, pd.DataFrame) else v
        return ("frame", [str(i) for i in v.index], [str(c) for c in getattr(v, "columns", [])], np.asarray(v, float) if all(t.kind in "fiub" for t in np.atleast_1d(v.dtypes)) else np.asarray(v).tolist())
    if isinstance(v, (list, tuple)):
        return [canon(x) for x in v]
    if isinstance(v, dict):
        return {str(k): canon(x) for k, x in v.items()}
    if isinstance(v, (np.floating, np.integer)):
        return v.item()
    if isinstance(v, np.ndarray) and v.dtype.kind in "US":
        return v.tolist()
    if isinstance(v, (np.ndarray, str, int, float, bool, type(None))):
        return v
    if type(v).__module__.startswith("glum") and hasattr(v, "__dict__"):
        return [type(v).__name__, canon(vars(v))]
    return repr(v)


def answer(f):
    try:
        return canon(f())
    except Exception as ex:
        return ("raises", type(ex).__name__)


def probes(d):
    X, y, kw = TB[d]
    kw = {k: v for k, v in kw.items() if k in ("sample_weight", "offset")}
    return X, y, kw


def answers(e, d, light=False):
    out = {}
    for a in ATTRS:
        if not light or a in LIGHT:
            out[a] = answer(lambda: getattr(e, a)) if hasattr(e, a) else "absent"
    if d is None:
        for nm, f in (("predict", lambda: e.predict(TB["A"][0])), ("score", lambda: e.score(*TB["A"][:2])), ("table", lambda: e.coef_table()), ("diagnostics", lambda: e.get_formatted_diagnostics(full_report=True))):
            out[nm] = answer(f)
        return out
    X, y, kw = probes(d)
    off = kw.get("offset")
    out["predict"] = answer(lambda: e.predict(X, offset=off))
    out["linear_predictor"] = answer(lambda: e.linear_predictor(X))
    out["predict_other"] = answer(lambda: e.predict(TB["A2" if d in ("A", "B", "S") else "F"][0]))
    if light:
        return out
    out["index"] = answer(lambda: e.predict(X, alpha_index=0))
    out["indices"] = answer(lambda: e.linear_predictor(X, alpha_index=[0, 1]))
    out["score"] = answer(lambda: e.score(X, y, **kw))
    out["table"] = answer(lambda: e.coef_table())
    out["se"] = answer(lambda: e.std_errors())
    out["wald"] = answer(lambda: e.wald_test(features=e.feature_names_[0]))
    out["covariance"] = answer(lambda: e.covariance_matrix(X, y, **kw))
    if hasattr(e, "aic"):
        out["aic"] = answer(lambda: e.aic(X, y, sample_weight=kw.get("sample_weight")))
        out["bic"] = answer(lambda: e.bic(X, y, sample_weight=kw.get("sample_weight")))
    out["diagnostics"] = answer(lambda: e.get_formatted_diagnostics(full_report=True))
    out["family"] = [(type(o).__name__, canon(vars(o))) for o in (e.family_instance, e.link_instance)]
    return out


def same(a, b, tol):
    if type(a) is not type(b) and not (isinstance(a, (int, float)) and isinstance(b, (int, float))):
        return False
    if isinstance(a, np.ndarray):
        if a.shape != b.shape or a.dtype != b.dtype:
            return False
        if a.dtype.kind != "f" or not tol:
            return np.array_equal(a, b, equal_nan=a.dtype.kind == "f")
        return bool(np.allclose(a, b, rtol=tol, atol=tol, equal_nan=True))
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y, tol) for x, y in zip(a, b))
    if isinstance(a, dict):
        return list(a) == list(b) and all(same(a[k], b[k], tol) for k in a)
    if isinstance(a, float) or isinstance(b, float):
        return a == b or (a != a and b != b) or bool(tol and abs(a - b) <= tol * (1 + abs(b)))
    return a == b


READING = ("drop_first", "cat_missing_method", "cat_missing_name", "categorical_format", "formula")  # also used at prediction
LOOSE = {"n_iter_", "diagnostics", "_info"}


def fingerprint(o, seen=None):
    import hashlib

    h = hashlib.blake2b(digest_size=12)

    def rec(v, depth=0):
        if isinstance(v, np.ndarray):
            h.update(str((v.shape, v.dtype)).encode())
            h.update(np.ascontiguousarray(v).tobytes() if v.dtype != object else repr(v.tolist()).encode())
        elif isinstance(v, dict):
            for k in sorted(v, key=str):
                if k in ("diagnostics_",):
                    h.update(str(type(v[k])).encode())
                    continue
                h.update(b"k" + str(k).encode())
                rec(v[k], depth + 1)
        elif isinstance(v, (list, tuple)):
            h.update(b"l%d" % len(v))
            for x in v:
                rec(x, depth + 1)
        elif isinstance(v, (set, frozenset)):
            h.update(repr(sorted(map(str, v))).encode())
        elif isinstance(v, (str, int, float, bool, type(None), np.generic)):
            h.update(repr(v).encode())
        elif type(v).__module__.startswith("glum") and hasattr(v, "__dict__"):
            h.update(type(v).__name__.encode())
            rec(v.__dict__, depth + 1)
        elif type(v).__name__ == "ModelSpec":
            h.update((str(v.formula) + str(v.column_names) + str(v.transform_state) + str(v.encoder_state)).encode())
        else:
            h.update((type(v).__name__ + str(v)).encode())

    rec(o.__dict__)
    return h.hexdigest()


# ---------------------------------------------------------------- the reference
class Model:
    """What the estimator should answer: parameters, latest fit and what was stored since."""

    def __init__(self, cls, params):
        self.cls, self.params = cls, dict(params)
        self.last = None  # None: unfitted; "?": after a failed fit; (data, parameters, warm, stored)
        self.dirty = False  # parameters changed since
        self.ghosts = []

    def key(self):
        return (pkey(self.params), None if self.last is None else self.last if self.last == "?" else (self.last[0], pkey(self.last[1]), self.last[2], self.last[3]), self.dirty)


def pkey(p):
    return tuple(sorted((k, repr(v)) for k, v in p.items()))


FRESH = {}


def make(cls, params):
    return getattr(glum, cls)(**params)


def dofit(e, d):
    X, y, kw = TB[d]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return e.fit(X, y, **kw)


def store(e, d, how):
    X, y, kw = probes(d)
    e.covariance_matrix(X, y, store_covariance_matrix=True, **kw, **({} if how == "covariance-store" else dict(robust=False)))


def fresh(cls, params, last):
    """(outcome, answers) of a fresh estimator with these parameters, fitted, and with what was stored."""
    d, stored = (None, ()) if last is None else (last[0], last[3])
    k = (cls, pkey(params), d, stored)
    if k not in FRESH:
        e = make(cls, params)
        err = None
        if d is not None:
            try:
                dofit(e, d)
                for s in stored:
                    store(e, d, s)
            except Exception as ex:
                err = type(ex).__name__
        FRESH[k] = (err, None if err else answers(copy.deepcopy(e), d), None if err else e)
    return FRESH[k]


# ---------------------------------------------------------------- operations
def apply(op, e, m, ctx, hist, final):
    """Run one operation on the real estimator, advance the reference, compare. Returns the estimator or None if it ended here."""
    kind, arg = op[0], op[1]
    tag = hist[0]
    if kind == "set":
        r = e.set_params(**arg)
        if final:
            ctx.check(r is e, f"set_params:{tag}", "set_params returns something else")
        m.params = {**m.params, **arg}
        if m.last not in (None, "?"):
            m.dirty = m.dirty or pkey(m.params) != pkey(m.last[1])
    elif kind == "fit":
        err = None
        try:
            dofit(e, arg)
        except Exception as ex:
            err = type(ex).__name__
        warm = bool(m.params.get("warm_start"))
        loose = warm and m.last is not None
        werr, _, _ = fresh(m.cls, m.params if not loose else {**m.params, "warm_start": False, "start_params": None}, (arg, None, 0, ()))
        if final and not (loose and err):  # the earlier coefficients may not fit the new data
            ctx.check(err == werr, f"fit-outcome:{tag}", lambda: f"{hist[1:]}: {err} instead of {werr}")
        if not err:  # a fit that fails leaves the earlier one
            m.last, m.dirty = (arg, dict(m.params), loose, ()), False
    elif kind == "query":
        runquery(arg, e, m, ctx, tag, hist, final)
    elif kind == "life":
        if arg == "clone":
            n = sklearn.clone(e)
            m2 = (None, False)
        else:
            n = {"copy": copy.copy, "deepcopy": copy.deepcopy, "pickle": lambda v: pickle.loads(pickle.dumps(v))}[arg](e)
            m2 = (m.last, m.dirty)
        if final:
            ctx.check(type(n) is type(e) and n is not e, f"{arg}:{tag}", type(n))
        if m.last not in (None, "?"):
            m.ghosts.append((e, m.last, m.dirty, dict(m.params)))
        e = n
        m.last, m.dirty = m2
    return e


def runquery(q, e, m, ctx, tag, hist, final):
    if m.last in (None, "?"):
        d = "A"
    else:
        d = m.last[0]
    X, y, kw = probes(d)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if q == "all":
            answers(e, d)
        elif q == "predict-index":
            answer(lambda: e.predict(X, alpha_index=0))
            answer(lambda: e.predict(X, alpha=[0.2, 1.0]))
        elif q in ("covariance-store", "covariance-plain"):
            if m.last in (None, "?"):
                return
            if m.dirty:  # the estimator's own settings decide: not the reference's business until the next fit
                return
            try:
                store(e, d, q)
            except Exception:
                return
            m.last = m.last[:3] + ((q,),)
        elif q == "aic":
            if hasattr(e, "aic"):
                answer(lambda: e.aic(X, y))
        elif q == "diagnostics":
            answer(lambda: e.get_formatted_diagnostics(full_report=True))
            answer(lambda: e.get_formatted_diagnostics(custom_columns=["n_iter", "bad"]))
            answer(lambda: e.diagnostics_[0].clear() if False else None)
        elif q == "bad":
            answer(lambda: e.predict(np.ones((3, 17))))
            answer(lambda: e.predict(X, offset=np.ones(99)))
            answer(lambda: e.score(X, None if y is None else y[:-1]))
            answer(lambda: e.covariance_matrix(X, None if y is None else y[:-2], sample_weight=np.ones(3), store_covariance_matrix=True))
            answer(lambda: e.wald_test(features="nope"))
            answer(lambda: e.predict(X, alpha_index=0, alpha=1.0))
            answer(lambda: e.predict(np.full(np.shape(X), np.nan) if not isinstance(X, pd.DataFrame) else X.iloc[:, :1]))
        elif q == "unseen":
            answer(lambda: e.predict(pd.DataFrame({"c": pd.Categorical(["q", "a"]), "z": [0.0, 1.0]})))
            answer(lambda: e.predict(pd.DataFrame({"c": pd.Categorical(["cc", "a"]), "z": [0.0, 1.0]})))
            answer(lambda: e.predict(pd.DataFrame({"c": pd.Categorical([None, "a"], categories=["a", "b"]), "z": [0.0, 1.0]})))
    return


def verify(e, m, ctx, tag, hist, real):
    """All answers against the reference."""
    p = e.get_params(deep=False)
    ok = all(k in p and (p[k] is v or same(canon(p[k]), canon(v), 0)) for k, v in m.params.items())
    ctx.check(ok, f"params:{tag}", lambda: f"{hist[1:]}: {p}")
    todo = [(e, m.last, m.dirty, m.params, "")] + [(g_[0], g_[1], g_[2], g_[3], "-original") for g_ in m.ghosts]
    for est, last, dirty, params, who in todo:
        if last == "?":
            continue
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            loose = last is not None and last[2]
            fp = params if last is None else last[1]
            if loose:
                fp = {**fp, "warm_start": False, "start_params": None}
            err, want, fr = fresh(m.cls, fp, last)
            d = None if last is None else last[0]
            if err:
                continue
            if dirty and any(repr(params.get(k)) != repr(fp.get(k)) for k in READING):
                want = {k: v for k, v in want.items() if k in ("coef_", "intercept_")}
            if dirty:
                want = {k: v for k, v in want.items() if k in LIGHT}
            got = answers(est if real else copy.deepcopy(est), d, light=dirty)
        tol = 1e-5 if loose else 0
        for k in want:
            if (loose and k in LOOSE) or k not in got:
                continue
            ctx.check(same(got[k], want[k], tol), f"answer{who}:{k}:{tag}", lambda: f"{hist[1:]}: {str(got[k])[:150]} instead of {str(want[k])[:150]}")
        if not who:
            ctx.outcome(str(want.get("coef_")), d)


def execute(cls, params, ops, ctx, tag, real):
    e, m = make(cls, params), Model(cls, params)
    for i, op in enumerate(ops):
        e = apply(op, e, m, ctx, [tag] + list(ops[: i + 1]), final=i == len(ops) - 1)
        ctx.op()
    return e, m


def run(case, ctx):
    if "settings" in case:
        return run_settings(case, ctx)
    cls, params, ops = ALPHABETS[case["alphabet"]]
    tag, depth = case["alphabet"], case["depth"]
    seen = set()
    frontier = [[ops[case["first"]]]]
    level = 1
    while frontier and level <= depth:
        nxt = []
        for hist in frontier:
            real = level == depth
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                e, m = execute(cls, params, hist, ctx, tag, real)
                key = (fingerprint(e), m.key(), tuple((fingerprint(g_[0]), g_[2]) for g_ in m.ghosts))
                if key in seen:
                    continue
                seen.add(key)
                ctx.state(case["alphabet"], key)
                verify(e, m, ctx, tag, [tag] + hist, real)
                ctx.trace()
            for op in ops:
                nxt.append(hist + [op])
        frontier = nxt
        level += 1
    FRESH.clear()
