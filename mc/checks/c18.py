"""C18: concurrent calls give the sequential results."""

import itertools
import sys
import threading
import types
import warnings

import glum
import joblib
import numpy as np
import pandas as pd
import scipy.sparse as sps
import tabmat as tm

from .. import data
from .c12 import canon

ID = "C18"
RULE = (
    "The real code runs in real threads under a scheduler that lets exactly one thread move and may switch at every "
    "function entry (calls), every line or every bytecode instruction of the package. Enumerated are all schedules with "
    "one switch away from the first call (the other call runs to its end at that point), for every ordered pair of "
    "calls of a group that shares data, penalties, family and link objects or one fitted estimator; all schedules with two switches at "
    "function entries; every order of the folds of a cross-validation with every fold interrupted by all others at every point. "
    "Every ordered pair of calls is also run one after the other in one process. A state is one (pair, schedule), a "
    "transition one executed call."
)
ASSUMPTIONS = [
    "compiled code (glum's extension modules, tabmat, numpy, scipy) is atomic",
    "one thread per call: BLAS, OpenMP and numexpr run single threaded so that results are reproducible bit by bit",
]

N = 12
M = sys.monitoring
TOOL = 3


# ---------------------------------------------------------------- scheduler
def codes():
    """All code objects of the package."""
    seen, todo = set(), []
    for name, mod in list(sys.modules.items()):
        if name == "glum" or name.startswith("glum."):
            todo += [v for v in vars(mod).values()]
    out, visited = set(), set()
    while todo:
        v = todo.pop()
        if id(v) in visited:
            continue
        visited.add(id(v))
        if isinstance(v, types.CodeType):
            if v not in out:
                out.add(v)
                todo += [c for c in v.co_consts if isinstance(c, types.CodeType)]
        elif isinstance(v, types.FunctionType):
            if (v.__module__ or "").startswith("glum"):
                todo.append(v.__code__)
            if hasattr(v, "__wrapped__"):
                todo.append(v.__wrapped__)
        elif isinstance(v, (staticmethod, classmethod)):
            todo.append(v.__func__)
        elif isinstance(v, property):
            todo += [f for f in (v.fget, v.fset, v.fdel) if f]
        elif isinstance(v, type) and (v.__module__ or "").startswith("glum"):
            todo += list(vars(v).values())
        elif hasattr(v, "__wrapped__") and callable(v):
            todo.append(v.__wrapped__)
    return out


class Sched:
    """Cooperative threads: one runs, the others wait; a budget of events per turn."""

    def __init__(self, gran):
        self.event = dict(calls=M.events.PY_START, lines=M.events.LINE, instr=M.events.INSTRUCTION)[gran]
        self.codes = codes()
        self.local = threading.local()
        M.use_tool_id(TOOL, "mc18")
        M.register_callback(TOOL, self.event, self.on_event)
        for c in self.codes:
            M.set_local_events(TOOL, c, self.event)

    def close(self):
        for c in self.codes:
            M.set_local_events(TOOL, c, 0)
        M.register_callback(TOOL, self.event, None)
        M.free_tool_id(TOOL)

    def on_event(self, code, *_):
        me = getattr(self.local, "me", None)
        if me is None:
            return
        me["n"] += 1
        if me["left"] > 0:
            me["left"] -= 1
            if me["left"] == 0:
                self.next()
                me["sem"].acquire()

    def next(self):
        """Hand over to the thread of the next turn."""
        while True:
            if not self.plan:
                # everyone runs to the end, in order of their numbers
                live = [t for t in self.threads if not t["done"]]
                if live:
                    live[0]["left"] = -1
                    live[0]["sem"].release()
                else:
                    self.finished.release()
                return
            i, k = self.plan.pop(0)
            t = self.threads[i]
            if not t["done"]:
                t["left"] = k
                t["sem"].release()
                return

    def body(self, t):
        t["sem"].acquire()
        self.local.me = t
        try:
            t["result"] = ("ok", t["fn"]())
        except BaseException as e:  # noqa: B036
            t["result"] = ("raised", type(e).__name__, str(e)[:200])
        self.local.me = None
        t["done"] = True
        self.next()

    def run(self, fns, plan):
        """Run the calls; plan = [(thread, number of events), ...], -1 = to its end."""
        self.plan = list(plan)
        self.finished = threading.Semaphore(0)
        self.threads = [dict(fn=f, sem=threading.Semaphore(0), done=False, n=0, left=-1) for f in fns]
        for t in self.threads:
            t["thread"] = threading.Thread(target=self.body, args=(t,), daemon=True)
            t["thread"].start()
        self.next()
        self.finished.acquire()
        for t in self.threads:
            t["thread"].join()
        return [t["result"] for t in self.threads], [t["n"] for t in self.threads]


# ---------------------------------------------------------------- worlds
GLR, GLRCV = glum.GeneralizedLinearRegressor, glum.GeneralizedLinearRegressorCV


def attrs(e):
    """What a fit leaves."""
    out = {}
    for k in ("coef_", "intercept_", "n_iter_", "coef_path_", "intercept_path_", "alphas_", "_alphas", "alpha_", "l1_ratio_", "deviance_path_", "train_deviance_path_", "covariance_matrix_", "feature_names_", "term_names_", "col_means_", "col_stds_"):
        v = getattr(e, k, None)
        if v is not None:
            out[k] = np.array(v, copy=True) if not isinstance(v, list) else list(map(str, v))
    d = getattr(e, "diagnostics_", None)
    if d is not None:
        out["diag"] = [{k: v for k, v in row.items() if "runtime" not in k and "time" not in k} if isinstance(row, dict) else row for row in d] if isinstance(d, list) else None
    return out


def same(a, b):
    if type(a) is not type(b):
        return False
    if isinstance(a, np.ndarray):
        return a.shape == b.shape and a.dtype == b.dtype and a.tobytes() == b.tobytes() if a.dtype != object else a.tolist() == b.tolist()
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, (pd.DataFrame, pd.Series)):
        return a.equals(b)
    if isinstance(a, float):
        return a == b or (a != a and b != b)
    return a == b


def res(v):
    """A comparable copy of a query's answer."""
    if isinstance(v, np.ndarray):
        return v.copy()
    if hasattr(v, "_fields"):
        return [res(x) for x in v]
    if isinstance(v, pd.DataFrame):
        return v.copy()
    return v


YS = ([0.4, 1.2, 0.7, 2.5, 0.3, 1.9, 0.8], [3.0, 0.5, 1.1, 0.2, 2.2], [0.6, 0.9, 0.1, 0.8, 0.35, 0.45, 0.7, 0.2, 0.55, 0.3, 0.9])


def yvec(seed, n=N):
    return np.resize(YS[seed], n)


def xmat(p=3, n=N):
    base = np.array(data.X("three"))
    X = np.resize(base[:, :3].ravel(), (n, 3))
    if p > 3:
        X = np.column_stack([X, np.roll(X[:, 0], 3) * X[:, 1]])
    return X[:, :p].copy()


def dofit(e, *a, **k):
    e.fit(*a, **k)
    return attrs(e)


def world_arrays():
    """Fits of separate estimators that share everything that can be shared."""
    X = xmat()
    X4 = xmat(4)
    W = np.resize([1.0, 2.0, 0.5], N)
    O = np.resize([0.2, -0.1, 0.0, 0.3], N)
    P1 = np.array([1.0, 0.5, 2.0])
    P2 = data.P2_dense(3)
    fam = glum.TweedieDistribution(1.5)
    lnk = glum.LogLink()
    start = np.array([0.1, 0.2, -0.1, 0.05])
    lb, ub = np.array([-0.4, -np.inf, -1.0]), np.array([0.4, 0.2, np.inf])
    A, b = np.array([[1.0, -1.0, 0.0]]), np.array([0.0])
    y0, y1, y2 = yvec(0), yvec(1), yvec(2)
    F = dict(family=fam, link=lnk)
    ops = {
        "cd": lambda: dofit(GLR(**F, P1=P1, P2=P2, alpha=0.05, l1_ratio=0.5, start_params=start), X, y0, sample_weight=W, offset=O),
        "cd2": lambda: dofit(GLR(**F, P1=P1, P2=P2, alpha=0.2, l1_ratio=0.9, start_params=start), X, y1, sample_weight=W, offset=O),
        "bounds": lambda: dofit(GLR(**F, P2=P2, alpha=0.01, lower_bounds=lb, upper_bounds=ub, scale_predictors=True), X, y1, sample_weight=W),
        "ls": lambda: dofit(GLR(**F, P2=P2, alpha=0.05, solver="irls-ls"), X, y2, offset=O),
        "approx": lambda: dofit(GLR(family="poisson", alpha=0.05, hessian_approx=0.1, P2=P2), X, y1),
        "lbfgs": lambda: dofit(GLR(**F, P2=P2, alpha=0.1, solver="lbfgs", gradient_tol=1e-3), X, y1, sample_weight=W),
        "path": lambda: dofit(GLR(**F, P1=P1, alpha_search=True, n_alphas=3, min_alpha_ratio=0.1, l1_ratio=0.5), X, y1),
        "closed": lambda: dofit(GLR(family="normal", P2=P2, alpha=0.1, solver="closed-form"), X, y0, sample_weight=W),
        "mono": lambda: dofit(GLR(**F, alpha=0.1, A_ineq=A, b_ineq=b, solver="irls-ls-monotonic"), X, y0),
        "other-size": lambda: dofit(GLR(**F, alpha=0.1, l1_ratio=0.5), X4, y0, sample_weight=W),
        "binomial": lambda: dofit(GLR(family="binomial", alpha=0.05, P1=P1, l1_ratio=0.5), X, y2, offset=O),
        "negbin": lambda: dofit(GLR(family="negative.binomial (0.7)", alpha=0.05, fit_intercept=False, P1=P1, l1_ratio=0.2), X, y0, sample_weight=W),
        "random": lambda: dofit(GLR(**F, alpha=0.05, P1=P1, l1_ratio=0.5, selection="random", random_state=3), X, y1),
        "store": lambda: dofit(GLR(**F, alpha=0, robust=True), X, y1, sample_weight=W, store_covariance_matrix=True),
        "sparse": lambda: dofit(GLR(**F, P1=P1, alpha=0.05, l1_ratio=0.5, scale_predictors=True), S, y1, sample_weight=W),
        "split": lambda: dofit(GLR(**F, P2=P2, alpha=0.05, copy_X=True), T, y0),
        "trust": lambda: dofit(GLR(family="gamma", P2=P2, alpha=0.1, A_ineq=A, b_ineq=b, solver="trust-constr", gradient_tol=1e-1), X, y0),
        "cv": lambda: dofit(GLRCV(**F, P1=P1, alphas=[0.1, 0.01], l1_ratio=[0.5, 1.0], cv=2), X, y1, sample_weight=W, offset=O),
        "fail": lambda: dofit(GLR(**F, alpha=0.05, P1=np.ones(7), l1_ratio=0.5), X, y0),
        "warn": lambda: dofit(GLR(**F, alpha=0.05, P1=P1, l1_ratio=0.5, max_iter=1), X, y0),
    }
    S = sps.csc_matrix(np.round(X, 1) * (np.abs(X) > 0.3))
    T = tm.SplitMatrix([tm.DenseMatrix(X[:, :1].copy()), tm.SparseMatrix(sps.csc_matrix(X[:, 1:]))])
    return ops, [X, X4, W, O, P1, P2, start, lb, ub, A, b, y0, y1, y2, fam, S]


def table(n=N):
    X = xmat(3, n)
    return pd.DataFrame({"a": X[:, 0], "c": X[:, 1], "g": pd.Categorical(np.resize(list("uvwuwvu"), n)), "h": np.resize(["x", "y", None, "y", "x"], n)}).assign(h=lambda d: pd.Categorical(d["h"]), y=yvec(0, n))


def world_frames():
    """Fits on a shared table, with and without formulas."""
    df = table()
    pen = {"bs": 2}
    fam = glum.GammaDistribution()
    y1 = yvec(1)
    scale = 2.0  # noqa: F841  read by the formulas
    ops = {
        "frame": lambda: dofit(GLR(family=fam, alpha=0.1, l1_ratio=0.5, cat_missing_method="convert"), df[["a", "g", "h"]], df["y"]),
        "frame-drop": lambda: dofit(GLR(family=fam, alpha=0.1, drop_first=True, cat_missing_method="zero", cat_missing_name="m"), df[["a", "g", "h"]], y1),
        "formula": lambda: dofit(GLR(family=fam, alpha=0.1, formula="y ~ a + g:c + h", cat_missing_method="convert"), df),
        "formula2": lambda: dofit(GLR(family=fam, alpha=0.1, formula="a * g", drop_first=True, interaction_separator="__x__", categorical_format="{name}__{category}"), df, y1),
        "context": lambda: dofit(GLR(family="normal", alpha=0.1, formula="np.exp(a) + scale_it(c) - 1", fit_intercept=False), df, y1, context=dict(np=np, scale_it=lambda v: v * 2.0)),
        "context2": lambda: dofit(GLR(family="normal", alpha=0.1, formula="np.exp(a) + scale_it(c)"), df, y1, context=dict(np=np, scale_it=lambda v: v * 5.0 + 1)),
        "spline": lambda: dofit(GLR(family=fam, alpha=0.1, formula="bs(a, df=4) + c", monotonic_constraints={"a": "increasing"}), df, y1),
        "frame-fail": lambda: dofit(GLR(family=fam, alpha=0.1, cat_missing_method="fail"), df[["a", "h"]], y1),
        "frame-cv": lambda: dofit(GLRCV(family=fam, alphas=[0.1], l1_ratio=0.5, cv=2, cat_missing_method="convert"), df[["a", "h"]], y1),
    }
    return ops, [df, fam, y1]


def _fitted(kind):
    X, W, O = xmat(), np.resize([1.0, 2.0, 0.5], N), np.resize([0.2, -0.1, 0.0, 0.3], N)
    y = yvec(0)
    if kind == "dense":
        e = GLR(family="gamma", alpha=0.01, robust=False, scale_predictors=True).fit(X, y, sample_weight=W, offset=O)
    elif kind == "path":
        e = GLR(family="gamma", alpha_search=True, alpha=[0.3, 0.1, 0.05], l1_ratio=0.5).fit(X, y)
    elif kind == "frame":
        df = table()
        e = GLR(family="gamma", alpha=0.01, cat_missing_method="convert").fit(df[["a", "g", "h"]], y)
        X = df[["a", "g", "h"]]
    else:
        X = table()
        e = GLR(family="gamma", alpha=0.01, formula="y ~ a + g", drop_first=True).fit(X)
        y = None
    return e, X, y, W, O


def world_query(kind):
    e, X, y, W, O = _fitted(kind)
    fi = 1
    k = len(e.coef_) + fi
    R1, R2 = np.eye(k)[:1], np.eye(k)[1:3]
    half = X.iloc[: N // 2] if isinstance(X, pd.DataFrame) else X[: N // 2]
    cl = np.resize([1, 2, 3, 4], N)
    yy = yvec(0)
    ops = {
        "predict": lambda: res(e.predict(X)),
        "predict-half": lambda: res(e.predict(half)),
        "predict-offset": lambda: res(e.predict(X, offset=O, sample_weight=W)),
        "linpred": lambda: res(e.linear_predictor(X, offset=O)),
        "score": lambda: res(e.score(X, yy, sample_weight=W, offset=O)),
        "cov": lambda: res(e.covariance_matrix(X, y, sample_weight=W)),
        "cov-robust": lambda: res(e.covariance_matrix(X, y, robust=True, offset=O)),
        "cov-obs": lambda: res(e.covariance_matrix(X, y, robust=False, expected_information=False)),
        "cov-clusters": lambda: res(e.covariance_matrix(X, y, clusters=cl)),
        "se": lambda: res(e.std_errors(X, y)),
        "wald": lambda: res(e.wald_test(X, y, R=R1, r=[0.1])),
        "wald2": lambda: res(e.wald_test(X, y, R=R2, sample_weight=W)),
        "table": lambda: res(e.coef_table(X=X, y=y, confidence_level=0.9)),
        "aic": lambda: res(e.aic(X, yy)),
        "bic": lambda: res(e.bic(X, yy, sample_weight=W)),
    }
    if kind == "path":
        for n in ("cov-robust", "cov-obs", "cov-clusters", "wald2", "bic", "table"):
            ops.pop(n)
        ops["predict-1"] = lambda: res(e.predict(X, alpha_index=1))
        ops["predict-list"] = lambda: res(e.predict(X, alpha_index=[2, 0]))
        ops["predict-alpha"] = lambda: res(e.predict(X, alpha=0.3))
        ops["linpred-0"] = lambda: res(e.linear_predictor(half, alpha_index=0))
    if kind == "frame":
        ops["other-levels"] = lambda: res(e.predict(half.assign(g=pd.Categorical(list("wvuwvu"), categories=list("wvu")))))
        ops["unseen"] = lambda: res(e.predict(half.assign(g=pd.Categorical(list("wvuwvz")))))
    return ops, [X, W, O, R1, R2, yy, {k: v for k, v in e.__dict__.items() if not k.startswith("_") and k != "diagnostics_"}]


WORLDS = {"arrays": world_arrays, "frames": world_frames}
for _k in ("dense", "path", "frame", "formula"):
    WORLDS["query-" + _k] = lambda _k=_k: world_query(_k)

# the calls that interrupt the others; those whose pairs are explored more finely
QCORE = ["predict", "score", "cov", "table", "predict-half", "aic"]
SECOND = {"arrays": ["cd2", "ls", "bounds", "path", "lbfgs", "other-size"], "frames": ["frame", "formula2", "context2", "frame-drop"]}
CORE = {"arrays": ["cd", "cd2", "ls", "bounds", "path", "other-size", "lbfgs"], "frames": ["frame", "frame-drop", "formula2", "context", "context2"], "query-path": ["predict-1", "predict-list", "se", "score"]}
FINE = {"arrays": ["cd2"], "frames": ["context2"], "query-path": ["predict-1", "se"]}  # interrupting line by line in the quick tier
HEAVY = ("cv", "frame-cv", "trust", "spline", "mono")


def ambient():
    """Interpreter-wide state that a caller can see.  (The global random state is documented input of a fit.)"""
    return (repr(np.geterr()), repr(warnings.filters[:50]), len(warnings.filters), repr(np.get_printoptions()))


# ---------------------------------------------------------------- cases
def cases(tier):
    deep = tier == "thorough"
    out = []
    for w in WORLDS:
        names = list(WORLDS[w]()[0])
        for a in names:
            out.append(dict(block="history", world=w, first=a))
        core = CORE.get(w, QCORE)
        second = SECOND.get(w, ["predict-half", "cov", "table"] if w in ("query-frame", "query-formula") else names)
        fine = FINE.get(w, core) if deep else FINE.get(w, ["predict-half", "cov"] + (["bic"] if w == "query-dense" else []))
        slow = ("path", "cd2", "bounds", "frame", "frame-drop", "formula2") + (("table",) if w == "query-frame" else ())
        for a in names:
            for b in names:
                if deep and not (a in HEAVY and b in HEAVY):
                    out.append(dict(block="one", world=w, a=a, b=b, gran="calls" if a in HEAVY or b in HEAVY or b not in second else "lines"))
                elif not deep and a not in HEAVY and b in second:
                    out.append(dict(block="one", world=w, a=a, b=b, gran="lines" if a in core and a not in slow and b in fine else "calls"))
        for a, b in itertools.product(core, fine):
            if deep and w.split("-")[-1] not in ("frames", "frame", "formula"):
                out.append(dict(block="one", world=w, a=a, b=b, gran="instr"))
        for a, b in itertools.combinations_with_replacement(core, 2):
            if w.startswith("query") and (deep or w in ("query-dense", "query-path") and (a, b) in (("predict", "predict-half"), ("predict-1", "predict-list"), ("cov", "cov"))):
                out.append(dict(block="two", world=w, a=a, b=b, i=0, k=1))
            elif deep and (a, b) in (("cd", "cd2"), ("cd", "path"), ("ls", "bounds"), ("ls", "ls"), ("frame", "formula2"), ("context", "context2")):
                out.extend(dict(block="two", world=w, a=a, b=b, i=i, k=16) for i in range(16))
    if deep:  # balance the load
        out = [d for c in out for d in ([dict(c, i=i, k=8) for i in range(8)] if c["block"] == "one" and c["gran"] == "instr" else [c])]
    for kind in ("cd", "ls", "weights", "scaled", "sparse"):
        out.extend(dict(block="folds", kind=kind, gran="lines" if deep else "calls", i=i, k=8 if deep else 2) for i in range(8 if deep else 2))
    return out


def solo(w, name):
    ops, _ = WORLDS[w]()
    try:
        return ("ok", ops[name]())
    except Exception as e:
        return ("raised", type(e).__name__, str(e)[:200])


def diff(a, b):
    if a[0] != b[0]:
        return f"{a[:3] if a[0] == 'raised' else 'result'} instead of {b[:3] if b[0] == 'raised' else 'result'}"
    if a[0] == "ok" and isinstance(a[1], dict) and isinstance(b[1], dict):
        return "; ".join(f"{k}: {np.asarray(a[1].get(k)).ravel()[:4]} instead of {np.asarray(b[1].get(k)).ravel()[:4]}" for k in b[1] if not same(a[1].get(k), b[1][k]))[:400]
    return f"{a[1]} instead of {b[1]}"[:400]


def quiet():
    warnings.simplefilter("ignore")
    np.seterr(all="ignore")


def run_history(case, ctx):
    """b after a, in one process, is b."""
    w, a = case["world"], case["first"]
    quiet()
    for b in WORLDS[w]()[0]:
        want = solo(w, b)
        ops, _ = WORLDS[w]()
        before = ambient()
        for n, name in enumerate((a, b)):
            ctx.op()
            try:
                got = ("ok", ops[name]())
            except Exception as e:
                got = ("raised", type(e).__name__, str(e)[:200])
        ctx.state(w, a, b)
        ctx.check(same(got, want), f"history:{w}", lambda: f"{b} after {a}: {diff(got, want)}")
        ctx.check(ambient() == before, f"ambient:{w}", f"{a}, {b} change interpreter-wide settings")
        ctx.trace()


def fps(shared):
    from .c13 import fp

    return [fp(s) for s in shared]


def run_one(case, ctx):
    w, a, b, gran = case["world"], case["a"], case["b"], case["gran"]
    quiet()
    want = [solo(w, a), solo(w, b)]
    s = Sched(gran)
    try:
        ops, _ = WORLDS[w]()
        rs, ns = s.run([ops[a], lambda: None], [(0, -1)])
        if not ctx.check(same(rs[0], want[0]), f"solo:{w}", lambda: f"{a} alone in a thread: {diff(rs[0], want[0])}"):
            return
        ops, shared = WORLDS[w]()
        before, amb = fps(shared), ambient()
        for k in range(1 + case.get("i", 0), ns[0] + 1, case.get("k", 1)):
            rs, _ = s.run([ops[a], ops[b]], [(0, k), (1, -1), (0, -1)])
            ctx.op(2)
            ctx.state(w, a, b, gran, k)
            ok = [ctx.check(same(r, x), f"one:{w}:{'first' if i == 0 else 'second'}", lambda i=i, r=r, x=x: f"{(a, b)[i]}, {b} run within {a} at its event {k} of {ns[0]}: {diff(r, x)}") for i, (r, x) in enumerate(zip(rs, want))]
            if not all(ok):
                return
            ctx.trace()
        ctx.outcome(w, a, b, rs[0][0], rs[1][0])
        ctx.check(fps(shared) == before, f"shared:{w}", f"{a} with {b} changes a shared object")
        ctx.check(ambient() == amb, f"ambient:{w}", f"{a} with {b} changes interpreter-wide settings")
    finally:
        s.close()


def run_two(case, ctx):
    """A to i, B to j, A to its end, B to its end - for all i and j."""
    w, a, b = case["world"], case["a"], case["b"]
    quiet()
    want = [solo(w, a), solo(w, b)]
    s = Sched("calls")
    try:
        ops, _ = WORLDS[w]()
        _, ns = s.run([ops[a], ops[b]], [(0, -1), (1, -1)])
        ops, shared = WORLDS[w]()
        before, amb = fps(shared), ambient()
        for i in range(1 + case["i"], ns[0] + 1, case["k"]):
            for j in range(1, ns[1] + 1):
                rs, _ = s.run([ops[a], ops[b]], [(0, i), (1, j), (0, -1), (1, -1)])
                ctx.op(2)
                ctx.state(w, a, b, i, j)
                ok = [ctx.check(same(r, x), f"two:{w}", lambda q=q, r=r, x=x: f"{(a, b)[q]} with {a} to {i}, {b} to {j}: {diff(r, x)}") for q, (r, x) in enumerate(zip(rs, want))]
                if not all(ok):
                    return
                ctx.trace()
        ctx.check(fps(shared) == before, f"shared:{w}", f"{a} with {b} changes a shared object")
        ctx.check(ambient() == amb, f"ambient:{w}", f"{a} with {b} changes interpreter-wide settings")
    finally:
        s.close()


class Folds:
    """Stands in for joblib's executor: runs the tasks under a schedule."""

    def __init__(self, sched, plan):
        self.sched, self.plan = sched, plan

    def __call__(self, par, iterable):
        tasks = list(iterable)
        fns = [lambda f=f, a=a, k=k: f(*a, **k) for f, a, k in tasks]
        rs, self.ns = self.sched.run(fns, self.plan(len(fns)) if callable(self.plan) else self.plan)
        for r in rs:
            if r[0] != "ok":
                raise RuntimeError(r)
        return [r[1] for r in rs]


def cvfit(kind):
    X, W, O, y = xmat(), np.resize([1.0, 2.0, 0.5], N), np.resize([0.2, -0.1, 0.0, 0.3], N), yvec(1)
    kw, dk = dict(family="poisson", alphas=[0.1, 0.02], l1_ratio=[0.5, 1.0], cv=3, n_jobs=2), {}
    if kind == "ls":
        kw.update(l1_ratio=0, solver="irls-ls", P2=data.P2_dense(3))
    if kind == "weights":
        dk = dict(sample_weight=W, offset=O)
        kw.update(lower_bounds=np.array([-0.1, -1.0, -np.inf]), l1_ratio=0.5)
    if kind == "scaled":
        kw.update(scale_predictors=True, l1_ratio=0.5, P1=np.array([1.0, 0.0, 2.0]), start_params=np.array([0.1, 0.1, 0.2, 0.0]))
    if kind == "sparse":
        X = sps.csc_matrix(np.round(X, 1) * (np.abs(X) > 0.3))
        kw.update(fit_intercept=False, l1_ratio=0.5)
    return dofit(GLRCV(**kw), X, y, **dk)


def run_folds(case, ctx):
    kind = case["kind"]
    quiet()
    real = joblib.Parallel.__call__
    s = Sched(case["gran"])
    try:
        f = Folds(s, lambda n: [(i, -1) for i in range(n)])
        joblib.Parallel.__call__ = lambda par, it: f(par, it)
        want = cvfit(kind)
        ns = f.ns
        joblib.Parallel.__call__ = real
        with joblib.parallel_config(backend="sequential"):
            ctx.check(same(cvfit(kind), want), "folds:sequential", "sequential back end differs from the scheduled one")

        def go(plan, tag):
            f = Folds(s, plan)
            joblib.Parallel.__call__ = lambda par, it: f(par, it)
            try:
                got = ("ok", cvfit(kind))
            except Exception as e:
                got = ("raised", type(e).__name__, str(e)[:200])
            finally:
                joblib.Parallel.__call__ = real
            ctx.op()
            ctx.state(kind, tag)
            r = ctx.check(same(got, ("ok", want)), f"folds:{kind}", lambda: f"schedule {tag}: {diff(got, ('ok', want))}")
            ctx.trace()
            return r

        n = len(ns)
        if case["i"]:
            pass
        elif n <= 3:
            for perm in itertools.permutations(range(n)):
                if not go([(i, -1) for i in perm], ("order", perm)):
                    return
        else:
            for r in range(n):
                if not go([((i + r) % n, -1) for i in range(n)], ("rotate", r)) or not go([((r - i) % n, -1) for i in range(n)], ("reverse", r)):
                    return
        # every task interrupted at every point, the others run there
        for i in range(n if n <= 3 else 2):
            others = [j for j in range(n) if j != i]
            for k in range(1 + case["i"], ns[i] + 1, case["k"]):
                if not go([(i, k)] + [(j, -1) for j in others] + [(i, -1)], (i, k)):
                    return
    finally:
        joblib.Parallel.__call__ = real
        s.close()


def run(case, ctx):
    globals()["run_" + case["block"]](case, ctx)
