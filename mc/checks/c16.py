"""C16: invalid parameters and data are rejected, valid ones are not."""

import itertools
import warnings

import glum
import numpy as np
import pandas as pd
import scipy.sparse as sps
import tabmat as tm

from .. import data, g, ref

ID = "C16"
RULE = (
    "Tables of documented values (accept) and of values outside the documented domain (reject) for every "
    "parameter and every kind of data, for both estimators. Every accept value alone, every pair of accept "
    "values, every reject value combined with every accept value of every other parameter (thorough: with "
    "pairs), every reject value on a fitted model of every kind, every invalid query of every fitted model. "
    "A state is one combination, a transition one fit or query."
)
ASSUMPTIONS = ["values outside the tables are not covered", "any exception counts as a refusal"]

N, P = 10, 3
nan, inf = float("nan"), float("inf")
NAMES = ["a", "b", "c"]
Y = np.array([0.35, 0.8, 0.2, 0.65, 0.9, 0.15, 0.5, 0.7, 0.3, 0.45])
W = np.array([1.0, 2.0, 0.5, 1.5, 3.0, 0.75, 1.25, 1.0, 0.0, 2.0])
O = np.resize([0.2, -0.1, 0.3, 0.0], N)


def Xa():
    return np.array(data.X("three"), copy=True)


def frame():
    return pd.DataFrame(Xa(), columns=NAMES)


def cats():
    df = frame()
    df["b"] = pd.Categorical(["u", "v", "w", "u", "v", "w", "u", "v", "u", "w"])
    return df


def at(a, i, v):
    a = np.array(a, float)
    a.flat[i] = v
    return a


def pol(df):  # built lazily: polars must not start its threads before the workers fork
    import polars as pl

    return pl.DataFrame({c: df[c].to_numpy() for c in df})


class Thing:
    pass


def accepts(cv):
    """name -> settings.  Keys starting with an upper-case letter or underscore are data."""
    A = {}

    def add(key, vals, **extra):
        for name, v in vals.items():
            A[f"{key}={name}"] = dict(extra, **{key: v})

    one = lambda *vs: {str(v): v for v in vs}  # noqa: E731
    F = glum
    if cv:
        add("alphas", {"none": None, "list": [0.3, 0.1], "array": np.array([0.2, 0.05]), "one": [0.1], "zero": [0.1, 0.0], "tuple": (0.3, 0.1), "ints": [2, 1]})
        add("l1_ratio", {"0": 0, "half": 0.5, "1": 1.0, "list": [0.2, 0.5, 1.0], "one": [0.5], "array": np.array([0.0, 1.0])})
        from sklearn.model_selection import KFold

        add("cv", {"none": None, "3": 3, "splitter": KFold(2), "iter": [(list(range(5)), list(range(5, 10))), (list(range(5, 10)), list(range(5)))]})
        add("n_jobs", {"1": 1})
        A["default"] = {}
    else:
        add("alpha", one(None, 0, 0.0, 1e-8, 0.1, 1, 100.0))
        A["alpha=npf"] = dict(alpha=np.float64(0.3))
        A["alpha=inflist"] = dict(alpha_search=True, alpha=[0.3, 0.1])
        A["alpha=array"] = dict(alpha_search=True, alpha=np.array([0.3, 0.1, 0.0]), l1_ratio=0.5)
        A["alpha=tuple"] = dict(alpha_search=True, alpha=(0.3, 0.1))
        A["alpha=auto"] = dict(alpha_search=True, alpha=None, l1_ratio=0.5, n_alphas=3)
        A["alpha=minratio"] = dict(alpha_search=True, alpha=None, l1_ratio=1, n_alphas=3, min_alpha_ratio=0.1)
        A["alpha=min"] = dict(alpha_search=True, alpha=None, l1_ratio=1.0, n_alphas=2, min_alpha=1e-3)
        add("l1_ratio", {"0": 0, "0.0": 0.0, "half": 0.5, "1": 1, "1.0": 1.0, "npf": np.float64(0.2), "f4": np.float32(0.5)})
    add("n_alphas", one(1, 2, 5))
    add("min_alpha_ratio", one(None, 0.5, 1e-3))
    add("P1", {"identity": "identity", "none": None, "vec": np.array([1.0, 0.0, 2.0]), "list": [1.0, 0.5, 2.0], "zeros": np.zeros(3), "f4": np.ones(3, "f"), "ints": np.array([1.0, 2.0, 0.0])})
    add("P2", {"identity": "identity", "none": None, "vec": np.array([1.0, 0.0, 2.0]), "list": [1.0, 0.5, 2.0], "dense": data.P2_dense(3), "diff": data.P2_diff(3),
               "nested": [list(r) for r in data.P2_dense(3)], "csc": sps.csc_matrix(data.P2_dense(3)), "csr": sps.csr_matrix(data.P2_dense(3)), "asym": data.P2_asym(3), "zeros": np.zeros(3), "zero2": np.zeros((3, 3)),
               "ints": np.array([1, 2, 0])})
    add("fit_intercept", one(True, False))
    add("family", {"normal": "normal", "gaussian": "gaussian", "poisson": "poisson", "gamma": "gamma", "invgauss": "inverse.gaussian", "binomial": "binomial", "tweedie": "tweedie",
                   "tw17": "tweedie (1.7)", "tw12": "tweedie(1.2)", "negbin": "negative.binomial", "nb": "negative.binomial (0.5)", "inst": F.PoissonDistribution(), "twi": F.TweedieDistribution(1.5),
                   "tw0": F.TweedieDistribution(0), "ghs": F.GeneralizedHyperbolicSecant(), "nbi": F.NegativeBinomialDistribution(2.0), "gai": F.GammaDistribution()})
    A["link=auto"] = dict(link="auto")
    A["link=log"] = dict(link="log", family="gamma")
    A["link=LogLink"] = dict(link=F.LogLink(), family="normal")
    A["link=identity"] = dict(link="identity", family="normal")
    A["link=logit"] = dict(link="logit", family="binomial")
    A["link=cloglog"] = dict(link="cloglog", family="binomial")
    A["link=tweedie"] = dict(link="tweedie (0)", family="normal")
    A["link=TweedieLink"] = dict(link=F.TweedieLink(1), family="poisson")
    add("solver", one("auto", "irls-ls", "irls-cd", "lbfgs", "trust-constr"))
    A["solver=closed-form"] = dict(solver="closed-form", family="normal")
    add("max_iter", one(1, 2, 100, 10000))
    add("max_inner_iter", one(1, 1000))
    add("gradient_tol", one(None, 1e-3, 1, 1e-6))
    add("step_size_tol", one(None, 1e-4, 1))
    add("hessian_approx", one(0.0, 0.01))
    add("warm_start", one(True, False))
    add("start_params", {"none": None, "zeros": "START0", "list": "STARTL", "f4": "STARTF"})
    add("selection", {"random": "random"}, random_state=3)
    A["selection=rs"] = dict(selection="random", random_state=np.random.RandomState(1))
    add("copy_X", one(None, True, False))
    add("check_input", one(True, False))
    add("verbose", one(0))
    add("scale_predictors", one(True, False))
    add("lower_bounds", {"scalar": -1.0, "list": [-1.0, 0.0, -inf], "array": np.array([-0.5, -0.5, -0.5]), "inf": np.full(3, -inf), "int": 0, "npf": np.float64(-1)})
    add("upper_bounds", {"scalar": 1.0, "list": [1.0, 0.0, inf], "array": np.array([0.5, 0.5, 0.5]), "inf": np.full(3, inf), "int": 2})
    A["bounds=equal"] = dict(lower_bounds=[0.1, -1, -1], upper_bounds=[0.1, 1, 1])
    A["A_ineq=row"] = dict(A_ineq=np.array([[1.0, 1.0, 0.0]]), b_ineq=np.array([0.5]))
    A["A_ineq=rows"] = dict(A_ineq=[[1.0, -1.0, 0.0], [0.0, 1.0, -1.0]], b_ineq=[0.5, 2.0])
    A["A_ineq=irls"] = dict(A_ineq=np.array([[1.0, -1.0, 0.0]]), b_ineq=np.array([0.0]), solver="irls-ls-monotonic")
    add("robust", one(True, False))
    add("expected_information", one(True, False))
    add("drop_first", one(True, False))
    add("categorical_format", {"old": "{name}__{category}"})
    add("X", {"array": Xa(), "fortran": np.asfortranarray(Xa()), "list": [list(r) for r in Xa()], "f32": Xa().astype("f"), "csc": sps.csc_matrix(Xa()), "csr": sps.csr_matrix(Xa()),
              "frame": frame(), "dense": tm.DenseMatrix(Xa()), "tsparse": tm.SparseMatrix(sps.csc_matrix(Xa())),
              "split": tm.SplitMatrix([tm.DenseMatrix(Xa()[:, :1].copy()), tm.SparseMatrix(sps.csc_matrix(Xa()[:, 1:]))]), "int": np.round(Xa()).astype(int), "bool": Xa() > 0.3,
              "polars": pol(frame()), "readonly": data.X("three"), "strided": np.repeat(Xa(), 2, 0)[::2], "cats": cats(), "coo": sps.coo_matrix(Xa()),
              "object": Xa().astype(object), "i32frame": frame().round().astype("int32")})
    add("Y", {"list": list(Y), "series": pd.Series(Y, index=np.arange(N)[::-1]), "f32": Y.astype("f"), "column": Y[:, None], "object": Y.astype(object), "framecol": pd.DataFrame({"y": Y})})
    A["Y=int"] = dict(Y=np.array([1, 0, 1, 1, 0, 0, 1, 1, 0, 1]), family="binomial", alpha=0.1) if not cv else dict(Y=np.array([1, 0, 1, 1, 0, 0, 1, 1, 0, 1]), family="binomial")
    A["Y=bool"] = dict(Y=np.array([1, 0, 1, 1, 0, 0, 1, 1, 0, 1], bool), family="binomial", alpha=0.1) if not cv else dict(Y=np.array([1, 0, 1, 1, 0, 0, 1, 1, 0, 1], bool), family="binomial")
    add("W", {"none": None, "array": W, "list": list(W), "scalar": 2.0, "int": 3, "ints": np.arange(1, N + 1), "series": pd.Series(W + 0.1, index=np.arange(N)[::-1]), "f4": W.astype("f"), "bools": W > 0.6})
    add("O", {"none": None, "array": O, "list": list(O), "scalar": 0.3, "int": 0, "series": pd.Series(O, index=np.arange(N)[::-1]), "f4": O.astype("f"), "ints": np.resize([0, 1], N)})
    A["S=store"] = dict(S=True)
    A["formula=plain"] = dict(formula="a + b + c", X=frame())
    A["formula=two"] = dict(formula="y ~ a + b + c", X=frame().assign(y=Y), Y=None)
    if not cv:
        A["S=clusters"] = dict(S=True, C=np.resize([1, 2, 3], N))
        A["formula=mono"] = dict(formula="a + b + c", X=cats(), monotonic_constraints={"b": "increasing"})
    return A


def rejects(cv):
    """name -> (settings, [predicate of settings under which the value is not wrong])."""
    R = {}

    def add(key, vals, unless=None, **extra):
        for name, v in vals.items():
            R[f"{key}={name}"] = (dict(extra, **{key: v}), unless)

    txt = {"str": "x", "obj": Thing(), "strnum": "0.1"}
    nochk = lambda k: k.get("check_input") is False  # noqa: E731
    if cv:
        add("alphas", {"neg": [0.1, -0.1], "nan": [0.1, nan], "inf": [inf, 0.1], "str": ["x", "y"], "empty": [], "alltiny": [-1e-9]})
        add("l1_ratio", {"neg": -0.1, "big": 1.1, "nan": nan, "str": "0.5", "none": None, "listneg": [0.5, -0.1], "listbig": [1.5, 0.5], "listnan": [0.5, nan], "strs": ["a"], "empty": []})
        add("cv", {"1": 1, "str": "x", "0": 0, "neg": -3, "many": 50})
    else:
        srch = lambda k: k.get("alpha_search")  # noqa: E731
        add("alpha", {"neg": -0.1, "tiny": -1e-12, "nan": nan, "inf": inf, "str": "0.1", "list": [0.1], "array": np.array([0.1]), "neglist": [-0.1], "obj": Thing(), "dict": {}, "complex": 1j}, unless=srch)
        R["alpha=search-scalar"] = (dict(alpha_search=True, alpha=0.1), None)
        R["alpha=search-neg"] = (dict(alpha_search=True, alpha=[0.1, -0.1]), None)
        R["alpha=search-nan"] = (dict(alpha_search=True, alpha=[0.1, nan]), None)
        R["alpha=search-inf"] = (dict(alpha_search=True, alpha=[inf, 0.1]), None)
        R["alpha=search-str"] = (dict(alpha_search=True, alpha=["x"]), None)
        R["alpha=search-empty"] = (dict(alpha_search=True, alpha=[]), None)
        R["alpha=search-text"] = (dict(alpha_search=True, alpha="0.1"), None)
        add("l1_ratio", {"neg": -0.1, "tiny": -1e-12, "big": 1.1, "nan": nan, "inf": inf, "str": "0.5", "none": None, "list": [0.5], "obj": Thing()})
        for nm, kw in {"n0": dict(n_alphas=0), "nneg": dict(n_alphas=-2), "nfloat": dict(n_alphas=2.5), "nstr": dict(n_alphas="3"), "rneg": dict(min_alpha_ratio=-0.1), "r0": dict(min_alpha_ratio=0.0), "rnan": dict(min_alpha_ratio=nan), "rbig": dict(min_alpha_ratio=2.0), "rstr": dict(min_alpha_ratio="x"),
                       "mneg": dict(min_alpha=-1e-3), "m0": dict(min_alpha=0.0), "mnan": dict(min_alpha=nan), "mbig": dict(min_alpha=1e9), "mstr": dict(min_alpha="x")}.items():
            R[f"path={nm}"] = (dict(dict(alpha_search=True, alpha=None, l1_ratio=0.5, n_alphas=3, P1="identity"), **kw), None)
    if cv:
        for nm, kw in {"n0": dict(n_alphas=0), "nneg": dict(n_alphas=-2), "nfloat": dict(n_alphas=2.5), "rneg": dict(min_alpha_ratio=-0.1), "r0": dict(min_alpha_ratio=0.0), "rnan": dict(min_alpha_ratio=nan), "rbig": dict(min_alpha_ratio=2.0),
                       "mneg": dict(min_alpha=-1e-3), "m0": dict(min_alpha=0.0), "mnan": dict(min_alpha=nan), "mbig": dict(min_alpha=1e9)}.items():
            R[f"path={nm}"] = (dict(dict(alphas=None, l1_ratio=0.5, n_alphas=3, P1="identity"), **kw), None)
    add("P1", {"short": np.ones(2), "long": np.ones(9), "two": np.ones((3, 1)), "sq": np.eye(3), "foo": "foo", "strs": ["a", "b", "c"], "scalar": 2.0, "complex": np.array([1j, 0, 0])})
    add("P1", {"neg": np.array([1.0, -0.1, 0.0]), "nan": np.array([1.0, nan, 1.0]), "inf": np.array([1.0, inf, 1.0]), "neglist": [0.0, 0.0, -1e-9]}, unless=nochk)
    add("P2", {"short": np.ones(2), "long": np.ones(9), "rect": np.ones((3, 2)), "big": np.eye(7), "row": np.ones((1, 3)), "foo": "foo", "nan": np.array([1.0, nan, 1.0]), "inf": np.diag([1.0, inf, 1.0]), "3d": np.ones((3, 3, 3)), "strs": ["a", "b", "c"],
               "spshort": sps.csc_matrix(np.eye(2)), "spnan": sps.csc_matrix(np.diag([1.0, nan, 1.0]))})
    bad = np.array([[1.0, 2.0, 0], [2.0, 1.0, 0], [0, 0, 1.0]])
    add("P2", {"neg": np.array([1.0, -0.1, 1.0]), "negdiag": np.diag([1.0, 1.0, -1e-3]), "indef": bad, "spneg": sps.csc_matrix(np.diag([1.0, -0.5, 1.0])), "spindef": sps.csc_matrix(bad), "csrindef": sps.csr_matrix(bad), "neglist": [0.0, -1.0, 0.0],
               "nested": [list(r) for r in bad], "asymindef": np.array([[1.0, 4.0, 0], [0.0, 1.0, 0], [0, 0, 1.0]])}, unless=nochk)
    add("fit_intercept", {"1": 1, "0": 0, "none": None, **txt})
    add("family", {"foo": "foo", "none": None, "int": 3, "class": glum.NormalDistribution, "tw": "tweedie (0.5)", "twx": "tweedie (x)", "nbneg": "negative.binomial (-1)", "nb0": "negative.binomial (0)", "link": glum.LogLink(), "Poisson": "Poisson", "list": ["normal"],
                   "pre": "xtweedie (1.5)", "post": "tweedie (1.5) y", "nan": "tweedie (nan)"})
    add("link", {"foo": "foo", "int": 3, "class": glum.LogLink, "fam": glum.NormalDistribution(), "Log": "Log", "twx": "tweedie (x)", "list": ["log"], "pre": "xtweedie (1.5)", "post": "tweedie (1.5) y"})
    add("solver", {"foo": "foo", "newton": "newton-cg", "none": None, "cd": "cd", "irls": "irls", "int": 1, "LBFGS": "LBFGS"})
    add("max_iter", {"0": 0, "neg": -1, "float": 1.5, "none": None, "nan": nan, **txt})
    add("max_inner_iter", {"0": 0, "neg": -5, "nan": nan, "none": None, **txt})
    add("gradient_tol", {"0": 0, "0.0": 0.0, "neg": -1e-4, "nan": nan, **txt})
    add("step_size_tol", {"0": 0, "neg": -1e-4, "nan": nan, **txt})
    add("hessian_approx", {"nan": nan, "none": None, **txt})
    add("warm_start", {"1": 1, "none": None, **txt})
    add("start_params", {"short": np.zeros(2), "long": np.zeros(9), "two": np.zeros((1, 4)), "str": "x", "nan": "STARTNAN", "inf": "STARTINF", "strs": ["a"] * 4, "scalar": 1.0})
    add("selection", {"foo": "foo", "none": None, "int": 1, "Cyclic": "Cyclic"})
    add("copy_X", {"1": 1, "0": 0, **txt})
    add("check_input", {"1": 1, "none": None, **txt})
    add("scale_predictors", {"none": None, "1": 1, **txt})
    R["scale_predictors=noicpt"] = (dict(scale_predictors=True, fit_intercept=False), None)
    b = {"short": np.zeros(2), "long": np.zeros(9), "two": np.zeros((1, 3)), "nan": np.array([0.0, nan, 0.0]), "scalarnan": nan, "str": "x", "strs": ["a", "b", "c"], "obj": Thing()}
    add("lower_bounds", dict(b, inf=inf, infs=np.array([0, inf, 0])))
    add("upper_bounds", dict(b, inf=-inf, infs=np.array([0, -inf, 0])))
    R["bounds=crossed"] = (dict(lower_bounds=np.array([0.0, 0.5, 0.0]), upper_bounds=np.array([1.0, 0.4, 1.0])), None)
    R["bounds=crossedscalar"] = (dict(lower_bounds=1.0, upper_bounds=-1.0), None)
    R["bounds=crossedmixed"] = (dict(lower_bounds=0.2, upper_bounds=[1.0, 1.0, 0.1]), None)
    R["bounds=crossedlast"] = (dict(lower_bounds=[0, 0, 1e-3], upper_bounds=[0, 0, 0]), None)
    for s in ("irls-ls", "lbfgs", "trust-constr", "closed-form"):
        R[f"bounds={s}"] = (dict(lower_bounds=-1.0, solver=s), None)
        R[f"ubounds={s}"] = (dict(upper_bounds=[1, 1, 1], solver=s), None)
    Aq, bq = np.array([[1.0, 1.0, 0.0]]), np.array([0.5])
    ineq = {"noA": dict(b_ineq=bq), "nob": dict(A_ineq=Aq), "cols": dict(A_ineq=np.ones((1, 2)), b_ineq=bq), "rows": dict(A_ineq=Aq, b_ineq=np.ones(2)), "one": dict(A_ineq=np.ones(3), b_ineq=bq), "two": dict(A_ineq=Aq, b_ineq=np.ones((1, 1))),
            "nanA": dict(A_ineq=at(Aq, 0, nan), b_ineq=bq), "nanb": dict(A_ineq=Aq, b_ineq=np.array([nan])), "infA": dict(A_ineq=at(Aq, 1, inf), b_ineq=bq), "strA": dict(A_ineq="x", b_ineq=bq), "neginf": dict(A_ineq=Aq, b_ineq=np.array([-inf])),
            "bound": dict(A_ineq=Aq, b_ineq=bq, lower_bounds=0.0), "bounds": dict(A_ineq=Aq, b_ineq=bq, upper_bounds=[1, 1, 1]), "cd": dict(A_ineq=Aq, b_ineq=bq, solver="irls-cd"), "ls": dict(A_ineq=Aq, b_ineq=bq, solver="irls-ls"), "lbfgs": dict(A_ineq=Aq, b_ineq=bq, solver="lbfgs"),
            "closed": dict(A_ineq=Aq, b_ineq=bq, solver="closed-form")}
    for nm, kw in ineq.items():
        if nm in ("noA", "nob"):
            R[f"ineq={nm}"] = (dict(dict(A_ineq=None, b_ineq=None), **kw), None)
        else:
            R[f"ineq={nm}"] = (kw, None)
    if not cv:
        R["l1=lbfgs"] = (dict(alpha=0.1, alpha_search=False, l1_ratio=0.5, solver="lbfgs", P1="identity"), None)
        R["l1=irls-ls"] = (dict(alpha=0.1, alpha_search=False, l1_ratio=0.5, solver="irls-ls", P1="identity"), None)
        R["l1=trust"] = (dict(alpha=0.1, alpha_search=False, l1_ratio=0.5, solver="trust-constr", P1=None), None)
        R["l1=closed"] = (dict(alpha=0.1, alpha_search=False, l1_ratio=0.5, solver="closed-form", P1=None, family="normal"), None)
        R["l1=search"] = (dict(alpha=[0.1], alpha_search=True, l1_ratio=0.5, solver="irls-ls", P1=None), None)
        R["l1=ineq"] = (dict(alpha=0.1, alpha_search=False, l1_ratio=0.5, A_ineq=Aq, b_ineq=bq, P1=None), None)
    R["closed=poisson"] = (dict(solver="closed-form", family="poisson"), None)
    R["closed=log"] = (dict(solver="closed-form", family="normal", link="log"), None)
    mono = dict(formula="a + b + c", X=cats())
    m = {"dir": {"b": "up"}, "empty": {}, "list": ["b"], "unknown": {"zz": "increasing"}, "none": {"b": None}, "str": "increasing"}
    for nm, v in m.items():
        R[f"mono={nm}"] = (dict(mono, monotonic_constraints=v), None)
    R["mono=noformula"] = (dict(monotonic_constraints={"b": "increasing"}, X=cats(), formula=None), None)
    R["mono=solver"] = (dict(mono, monotonic_constraints={"b": "increasing"}, solver="irls-cd"), None)
    R["mono=ineq"] = (dict(mono, monotonic_constraints={"b": "increasing"}, A_ineq=np.ones((1, 5)), b_ineq=bq), None)
    R["mono=l1"] = (dict(mono, monotonic_constraints={"b": "increasing"}, l1_ratio=0.5), None)
    R["mono=bounds"] = (dict(mono, monotonic_constraints={"b": "increasing"}, lower_bounds=-1.0), None)
    add("drop_first", {"none": None, **txt})
    add("robust", {"str": "x", "none": None})
    add("expected_information", {"str": "x", "none": None})
    add("cat_missing_method", {"foo": "foo", "none": None}, X=cats())
    R["cats=missing"] = (dict(X=cats().assign(b=cats()["b"].where(np.arange(N) != 2))), None)
    add("formula", {"parse": "a + (", "unknown": "a + zz", "int": 3, "nointercept": "a + b - 1 + 0"}, X=frame(), unless=lambda k: k.get("fit_intercept") is False)
    R["formula=twoy"] = (dict(formula="y ~ a + b", X=frame().assign(y=Y)), lambda k: "Y" in k and k["Y"] is None)
    R["formula=noy"] = (dict(formula="a + b", X=frame(), Y=None), None)
    # data
    x = Xa()
    cx = cats()
    cx.loc[4, "a"] = nan
    nullable = frame().astype("Float64")
    nullable.loc[3, "a"] = pd.NA
    add("X", {"1d": x[:, 0].copy(), "3d": x[:, :, None], "nan": at(x, 7, nan), "inf": at(x, 3, inf), "neginf": at(x, 29, -inf), "strs": x.astype(str).astype(object) + "k", "short": x[:-1].copy(), "long": np.vstack([x, x]), "norows": x[:0], "nocols": x[:, :0], "none": None, "scalar": 3.0, "complex": x.astype(complex),
              "spnan": sps.csc_matrix(at(x, 7, nan)), "csrinf": sps.csr_matrix(at(x, 0, inf)), "spshort": sps.csr_matrix(x[:-1]), "framenan": frame().mask(frame() == 2.0), "catsnan": cx, "frameinf": frame().replace({2.0: inf}), "frameshort": frame().iloc[:-1],
              "tmnan": tm.DenseMatrix(at(x, 7, nan)), "tmspnan": tm.SparseMatrix(sps.csc_matrix(at(x, 7, nan))), "tmshort": tm.DenseMatrix(x[:-1].copy()), "f32nan": at(x, 7, nan).astype("f"), "polnan": pol(frame().mask(frame() == 2.0)), "list": [[1, 2], [3]],
              "split": tm.SplitMatrix([tm.DenseMatrix(at(x, 7, nan)), tm.SparseMatrix(sps.csc_matrix(x))]), "na": nullable})
    R["X=intnocopy"] = (dict(X=np.round(x).astype(int), copy_X=False), None)
    add("Y", {"short": Y[:-1], "long": np.append(Y, 1.0), "nan": at(Y, 2, nan), "inf": at(Y, 2, inf), "neginf": at(Y, 9, -inf), "two": np.column_stack([Y, Y]), "strs": np.array(list("abcdefghij")), "scalar": 1.0, "empty": Y[:0], "listnan": list(at(Y, 2, nan)), "seriesnan": pd.Series(at(Y, 2, nan)),
              "complex": Y.astype(complex) * 1j, "f4nan": at(Y, 0, nan).astype("f"), "frame2": pd.DataFrame({"y": Y, "z": Y}), "objnan": at(Y, 1, nan).astype(object), "row": Y[None, :]})
    add("Y", {"none": None}, unless=lambda k: "y ~" in str(k.get("formula")))
    rng = {"poisson": at(Y, 3, -0.1), "gamma": at(Y, 3, 0.0), "gammaneg": at(Y, 0, -1.0), "inverse.gaussian": at(Y, 3, 0.0), "binomial": at(Y, 3, 1.1), "binomialneg": at(Y, 9, -0.1), "tweedie": at(Y, 3, -1e-9), "negative.binomial": at(Y, 3, -0.5), "tweedie (2.5)": at(Y, 5, 0.0), "tweedie (1.2)": at(Y, 1, -3.0)}
    for f, yy in rng.items():
        R[f"range={f}"] = (dict(family=f.replace("neg", "", 1) if f in ("gammaneg", "binomialneg") else f, Y=yy), nochk)
        if f == "poisson":
            R["range=list"] = (dict(family=f, Y=list(yy)), nochk)
            R["range=frame"] = (dict(family=f, Y=None, X=frame().assign(y=yy), formula="y ~ a + b + c"), nochk)
    wneg = at(W, 4, -0.1)
    add("W", {"short": W[:-1], "long": np.append(W, 1.0), "neg": wneg, "negtiny": at(W, 8, -1e-12), "nan": at(W, 2, nan), "inf": at(W, 2, inf), "zero": np.zeros(N), "two": W[:, None] * np.ones((1, 2)), "col": W[:, None], "scalar0": 0.0, "scalarneg": -1.0, "scalarnan": nan, "scalarinf": inf, "str": "x",
              "listneg": list(wneg), "seriesnan": pd.Series(at(W, 2, nan)), "intneg": np.array([1, 2, -1, 1, 1, 1, 1, 1, 1, 1]), "allneg": -W, "empty": [], "strs": ["a"] * N, "complex": W * 1j})
    add("O", {"short": O[:-1], "long": np.append(O, 1.0), "nan": at(O, 2, nan), "inf": at(O, 2, inf), "neginf": at(O, 9, -inf), "two": np.column_stack([O, O]), "col": O[:, None], "scalarnan": nan, "scalarinf": inf, "str": "x", "strs": ["a"] * N, "listnan": list(at(O, 2, nan)), "empty": [], "complex": O * 1j, "len1": [0.5]})
    add("C", {"short": np.resize([1, 2], N - 1), "long": np.resize([1, 2], N + 3), "two": np.ones((N, 2))}, S=True)
    return R


def build(kw, cv):
    kw = dict(kw)
    d = dict(X=Xa(), Y=Y, W=None, O=None, S=False, C=None)
    for k in list(kw):
        if len(k) == 1 and k.isupper():
            d[k] = kw.pop(k)
    fi = kw.get("fit_intercept", True) is True
    s = kw.get("start_params")
    if isinstance(s, str) and s.startswith("START"):
        p = P
        if d["X"] is not None and isinstance(d["X"], pd.DataFrame) and "b" in d["X"] and str(d["X"]["b"].dtype) == "category":
            p = 5
        v = np.zeros(p + fi)
        if fi:
            v[0] = 0.1
        kw["start_params"] = {"START0": v, "STARTL": list(v), "STARTF": v.astype("f"), "STARTNAN": at(v, 0, nan), "STARTINF": at(v, 1, inf)}[s]
    if not cv and "alpha" not in kw:
        kw["alpha"] = 0.1
    if cv:
        kw.setdefault("cv", 3)
        kw.setdefault("n_alphas", 3)
        kw.setdefault("min_alpha_ratio", 0.1)
    cls = glum.GeneralizedLinearRegressorCV if cv else glum.GeneralizedLinearRegressor
    return cls, kw, d


def dofit(est, d):
    kw = {}
    if d["S"]:
        kw["store_covariance_matrix"] = True
    if d["C"] is not None:
        kw["clusters"] = d["C"]
    args = [d["X"]] + ([d["Y"]] if d["Y"] is not None else [])
    return est.fit(*args, sample_weight=d["W"], offset=d["O"], **kw)


def names(kw):
    f = kw.get("family", "normal")
    return f if isinstance(f, str) else type(f).__name__


def l1on(kw, cv):
    l1 = np.max(np.atleast_1d(np.asarray(kw.get("l1_ratio", 0), float)))
    P1 = kw.get("P1", None)
    p1on = P1 is None or isinstance(P1, str) or np.any(np.asarray(P1) > 0)
    if cv:
        return l1 > 0 and p1on
    al = kw.get("alpha", 0.1)
    aon = np.max(al) > 0 if al is not None else bool(kw.get("alpha_search"))
    return l1 > 0 and aon and p1on


def consistent(kw, cv):
    """Is this combination of individually documented values itself documented to work?"""
    s = kw.get("solver", "auto")
    ineq = kw.get("A_ineq") is not None
    bnd = kw.get("lower_bounds") is not None or kw.get("upper_bounds") is not None
    mono = kw.get("monotonic_constraints") is not None
    fam = names(kw)
    lk = kw.get("link", "auto")
    X = kw.get("X")
    iscat = isinstance(X, pd.DataFrame) and "b" in X and str(X["b"].dtype) == "category"
    normal = fam in ("normal", "gaussian", "NormalDistribution") or (fam == "TweedieDistribution" and kw["family"].power == 0)
    binom = fam.lower().startswith("binomial")
    lname = lk if isinstance(lk, str) else type(lk).__name__
    if kw.get("scale_predictors") and kw.get("fit_intercept", True) is False:
        return False
    if bnd and (ineq or mono or s not in ("auto", "irls-cd")):
        return False
    if ineq and mono or (ineq or mono) and s not in ("auto", "trust-constr", "irls-ls-monotonic"):
        return False
    if s == "irls-ls-monotonic" and not (ineq or mono):
        return False
    l1 = l1on(kw, cv)
    if l1 and (ineq or mono or s in ("irls-ls", "lbfgs", "trust-constr", "closed-form", "irls-ls-monotonic")):
        return False
    if mono and np.any(np.atleast_1d(np.asarray(kw.get("l1_ratio", 0), float)) > 0):
        return False
    if s == "closed-form" and not (normal and lname in ("auto", "identity", "IdentityLink", "TweedieLink", "tweedie (0)") and not bnd):
        return False
    if mono and kw.get("categorical_format", "{name}[{category}]") != "{name}[{category}]":
        return False  # the block "format"
    if s == "irls-ls-monotonic" and isinstance(X, np.ndarray) and X.dtype == np.float32:
        return False  # documented float32 caveat: an error, not an answer
    if s == "closed-form" and lname in ("TweedieLink", "tweedie (0)"):
        return False  # the same function, but another link class
    if lname in ("logit", "cloglog") and not binom or binom and lname not in ("auto", "logit", "cloglog"):
        return False
    if lname in ("identity", "tweedie (0)") and not normal:
        return False
    if kw.get("alpha_search") and kw.get("alpha", 0) is None and not l1:
        pass
    if not cv:
        al = kw.get("alpha", 0.1)
        if not kw.get("alpha_search") and isinstance(al, (list, tuple, np.ndarray)):
            return False
        if kw.get("alpha_search") and (np.isscalar(al)):
            return False
        pen = al is not None and np.min(al) > 1e-6 or kw.get("alpha_search") and al is None
        onlyl1 = np.max(np.atleast_1d(np.asarray(kw.get("l1_ratio", 0), float))) == 1
    else:
        al = kw.get("alphas")
        pen = al is None or np.min(al) > 1e-6
        onlyl1 = np.max(np.atleast_1d(np.asarray(kw.get("l1_ratio", 0), float))) == 1
    # singular problems: unpenalised columns may be collinear (categories, rounded or boolean columns)
    P2 = kw.get("P2")
    weakp2 = not (P2 is None or isinstance(P2, str))
    weakp1 = not (kw.get("P1") is None or isinstance(kw.get("P1"), str))
    weird = X is not None and (iscat or (isinstance(X, np.ndarray) and X.dtype.kind in "ib") or isinstance(X, pd.DataFrame) and X.dtypes.iloc[0] == "int32")
    if weird and (not pen or weakp2 or onlyl1 or weakp1):
        return False
    if not pen and (ineq or mono or cv):
        return not cv
    if kw.get("copy_X") is False and X is not None:
        if isinstance(X, (np.ndarray, list)) and (isinstance(X, list) or X.dtype.kind not in "f" or not (X.flags.c_contiguous or X.flags.f_contiguous)):
            return False
        if not isinstance(X, np.ndarray) and not (isinstance(X, (tm.MatrixBase,))):
            return False
    if iscat:
        for k in ("lower_bounds", "upper_bounds", "P1", "P2", "A_ineq"):
            v = kw.get(k)
            if v is not None and not isinstance(v, str) and not np.isscalar(v):
                return False
    if kw.get("formula") is not None:
        if not isinstance(X, pd.DataFrame):
            return False
        if "y ~" in kw["formula"] and kw.get("Y") is not None or "y ~" not in kw["formula"] and "Y" in kw and kw["Y"] is None:
            return False
    elif "Y" in kw and kw["Y"] is None:
        return False
    if kw.get("C") is not None and not kw.get("S"):
        return False
    if mono and not iscat:
        return False
    if isinstance(X, pd.DataFrame) and X.shape[1] > 3 and kw.get("formula") is None:
        return False
    return True


def describe(kw):
    def s(v):
        t = type(v).__name__
        return f"{t}{np.shape(v)}" if isinstance(v, (np.ndarray, pd.DataFrame, pd.Series, list, tm.MatrixBase)) or sps.issparse(v) else repr(v)[:40]

    return {k: s(v) for k, v in kw.items()}


def merge(*parts):
    """Union of settings, or None if two of them set one key (differently)."""
    out = {}
    for p in parts:
        for k, v in p.items():
            if k in out and out[k] is not v:
                return None
            out[k] = v
    return out


def try_fit(kw, cv):
    cls, params, d = build(kw, cv)
    est = cls(**params)
    try:
        with warnings.catch_warnings(), np.errstate(all="ignore"):
            warnings.simplefilter("ignore")
            dofit(est, d)
    except Exception as e:
        return est, e, d
    return est, None, d


def check_accept(ctx, kw, cv, sig):
    est, e, d = try_fit(kw, cv)
    ctx.op()
    ctx.state("accept", cv, sig)
    ctx.trace()
    if e is not None:
        ctx.check(False, f"refused:{sig}", f"{'CV' if cv else 'GLR'} {describe(kw)}: {type(e).__name__}: {str(e)[:300]}")
        return
    ok = np.all(np.isfinite(est.coef_)) and np.isfinite(est.intercept_)
    ctx.outcome(np.round(np.asarray(est.coef_, float), 3).tolist())
    ctx.check(ok, f"nonfinite:{sig}", lambda: f"{'CV' if cv else 'GLR'} {describe(kw)}: {est.coef_} {est.intercept_}")


def check_reject(ctx, kw, cv, sig, what=""):
    est, e, d = try_fit(kw, cv)
    ctx.op()
    ctx.state("reject", cv, sig, what)
    ctx.trace()
    if e is None:
        ctx.check(False, f"accepted:{sig}", lambda: f"{'CV' if cv else 'GLR'} with {what}: {describe(kw)} gave {est.coef_} {est.intercept_}")
    else:
        ctx.check(True, sig)
        ctx.outcome(sig, type(e).__name__)


NCH = 16


def cases(tier):
    deep = tier == "thorough"
    out = []
    for cv in (False, True):
        out.append(dict(block="single", cv=cv))
        for i in range(NCH * (2 if deep else 1)):
            out.append(dict(block="pairs", cv=cv, i=i, k=NCH * (2 if deep else 1)))
            out.append(dict(block="rejects", cv=cv, i=i, k=NCH * (2 if deep else 1)))
        if deep:
            for i in range(64):
                out.append(dict(block="rejects2", cv=cv, i=i, k=64))
        for m in MODELS:
            out.append(dict(block="refit", cv=cv, model=m))
            out.append(dict(block="query", cv=cv, model=m))
    out.append(dict(block="objects"))
    for c in out:
        c["deep"] = deep
    for f in FORMAT_FORMULAS:
        for labels in FORMAT_LABELS:
            if "C(" not in f or all(v.isalnum() for v in labels):  # they are part of the formula
                out.append(dict(block="format", formula=f, labels=labels))
    return out


def run_single(case, ctx):
    cv = case["cv"]
    for n, a in accepts(cv).items():
        if consistent(a, cv):
            check_accept(ctx, a, cv, n)
        else:
            ctx.skipped += 1
    for n, (r, u) in rejects(cv).items():
        if u is None or not u(r):
            check_reject(ctx, r, cv, n)


def run_pairs(case, ctx):
    cv = case["cv"]
    A = accepts(cv)
    for k, ((n1, a1), (n2, a2)) in enumerate(itertools.combinations(A.items(), 2)):
        if k % case["k"] != case["i"]:
            continue
        if cv and not case["deep"] and (k // case["k"]) % 4:
            continue  # the quick tier runs a fixed quarter of the cross-validated pairs
        kw = merge(a1, a2)
        if kw is None or not consistent(kw, cv):
            ctx.skipped += 1
            continue
        check_accept(ctx, kw, cv, f"{n1}&{n2}")


def run_rejects(case, ctx):
    cv = case["cv"]
    A, R = accepts(cv), rejects(cv)
    for k, ((n, (r, u)), (n2, a)) in enumerate(itertools.product(R.items(), A.items())):
        if k % case["k"] != case["i"]:
            continue
        kw = dict(a, **r)  # the wrong value wins where both set something
        if u is not None and u(kw):
            ctx.skipped += 1
            continue
        if relevant(n, r, kw):
            check_reject(ctx, kw, cv, n, n2)
        else:
            ctx.skipped += 1


def run_rejects2(case, ctx):
    cv = case["cv"]
    A, R = accepts(cv), rejects(cv)
    pairs = [(n1 + "&" + n2, merge(a1, a2)) for (n1, a1), (n2, a2) in itertools.combinations(A.items(), 2)]
    pairs = [(n, a) for n, a in pairs if a is not None and consistent(a, cv)][:: 7]
    for k, ((n, (r, u)), (n2, a)) in enumerate(itertools.product(R.items(), pairs)):
        if k % case["k"] != case["i"]:
            continue
        kw = dict(a, **r)
        if u is not None and u(kw) or not relevant(n, r, kw):
            ctx.skipped += 1
            continue
        check_reject(ctx, kw, cv, n, n2)


def relevant(name, r, kw):
    """Does the wrong value still matter given the other settings?"""
    key = name.split("=")[0]
    X = kw.get("X")
    if key == "range" and kw.get("formula") is not None and "y ~" in str(kw["formula"]) and "list" not in name and "frame" not in name:
        return False
    if key == "C" and not kw.get("S"):
        return False
    if name == "formula=nointercept":
        return kw.get("fit_intercept", True) is True
    if name.startswith("path=m") and "min_alpha" not in kw:
        return False
    if name.startswith("P1=") and name.split("=")[1] == "long" and X is not None:
        return True
    return True


MODELS = {
    "plain": dict(family="poisson"), "scaled": dict(family="poisson", scale_predictors=True, l1_ratio=0.5), "noicpt": dict(family="normal", fit_intercept=False),
    "frame": dict(family="gamma", X=frame()), "cats": dict(family="poisson", X=cats()), "formula": dict(family="poisson", formula="a + b + c", X=frame()),
    "two": dict(family="poisson", formula="y ~ a + b + c", X=frame().assign(y=Y), Y=None), "path": dict(family="poisson", l1_ratio=0.5, PATH=True), "binomial": dict(family="binomial", l1_ratio=0.2), "sparse": dict(family="tweedie", X=sps.csc_matrix(Xa())),
    "bounds": dict(family="poisson", lower_bounds=-0.3, upper_bounds=[0.3, 0.3, 0.3]), "stored": dict(family="poisson", S=True),
}


def model(name, cv):
    kw = dict(MODELS[name])
    if kw.pop("PATH", False):
        kw.update(dict(alphas=[0.3, 0.1]) if cv else dict(alpha_search=True, alpha=[0.3, 0.1, 0.05]))
    cls, params, d = build(kw, cv)
    est = cls(**params)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        dofit(est, d)
    return est, kw, d


def snapshot(est, d, path):
    X = d["X"]
    out = [est.predict(X), est.predict(X, offset=O), est.linear_predictor(X), np.array(est.coef_), float(est.intercept_)]
    if path:
        out += [est.predict(X, alpha_index=i) for i in range(len(path))]
        out += [est.predict(X, alpha_index=[0, 1])]
        out += [est.predict(X, alpha=path[0])]
    return [np.array(v, copy=True) for v in out]


def same_snap(a, b):
    return len(a) == len(b) and all(x.shape == y.shape and np.array_equal(x, y) for x, y in zip(a, b))


LIVE = ("drop_first=", "l1=", "alpha=", "path=", "alphas=", "categorical", "cat_missing")
DATAKEYS = ("X", "Y", "W", "O", "C", "S")


def run_refit(case, ctx):
    """A fit rejected for a wrong hyperparameter leaves the predictions as they were."""
    cv, m = case["cv"], case["model"]
    est, kw, d = model(m, cv)
    path = None if m != "path" or cv else [0.3, 0.1, 0.05]
    base = snapshot(est, d, path)
    good = est.get_params()
    for n, (r, u) in rejects(cv).items():
        if any(k in DATAKEYS for k in r):
            continue
        full = dict(kw, **r)
        cls, params, _ = build(full, cv)
        if u is not None and u(full):
            continue
        est.set_params(**{k: v for k, v in params.items() if k in good})
        ctx.op()
        ctx.state(cv, m, n)
        try:
            with warnings.catch_warnings(), np.errstate(all="ignore"):
                warnings.simplefilter("ignore")
                dofit(est, d)
        except Exception:
            pass
        else:
            ctx.check(False, f"accepted:{n}", f"{m}: {describe(r)} accepted on refit")
            est, kw, d = model(m, cv)
            continue
        if n.startswith(LIVE):  # predict reads these parameters
            est.set_params(**good)
        try:
            now = snapshot(est, d, path)
        except Exception as e:
            ctx.check(False, f"changed:{n}:{m}", f"predictions fail after a rejected fit: {type(e).__name__}: {e}")
            est, kw, d = model(m, cv)
            continue
        if not ctx.check(same_snap(base, now), f"changed:{n}:{m}", f"predictions differ after a rejected fit with {describe(r)}"):
            est, kw, d = model(m, cv)
            continue
        est.set_params(**good)
        ctx.check(same_snap(base, snapshot(est, d, path)), f"changed-reset:{n}:{m}", f"predictions differ after restoring {list(r)}")
        ctx.trace()
    # and it can be fitted again
    dofit(est, d)
    ctx.check(all(np.allclose(x, y, rtol=1e-7, atol=1e-9) for x, y in zip(base, snapshot(est, d, path))), f"refit:{m}", "a refit after rejections differs")


def queries(est, m, d, cv):
    """Invalid queries of a fitted model, by name."""
    X = d["X"]
    y = d["Y"] if d["Y"] is not None else Y
    p = len(est.coef_)
    fi = bool(est.fit_intercept)
    isdf = isinstance(X, pd.DataFrame)
    Q = {}

    def add(name, fn):
        Q[name] = fn

    short = X.iloc[:-1] if isdf else X[:-1]
    if isdf:
        fewer = X.drop(columns=["c"])
        nanX = X.copy()
        nanX.loc[2, "a"] = nan
        infX = X.copy()
        infX.loc[2, "a"] = inf
        more = None if m in ("formula", "two") else X.assign(zz=1.0, zy=2.0)
    else:
        D = X.toarray() if sps.issparse(X) else X
        back = (lambda z: sps.csc_matrix(z)) if sps.issparse(X) else (lambda z: z)
        fewer, more = back(D[:, :2]), back(np.column_stack([D, D]))
        nanX, infX = back(at(D, 5, nan)), back(at(D, 5, inf))
    for meth in ("predict", "linear_predictor"):
        f = getattr(est, meth)
        add(f"{meth}:fewer", lambda f=f: f(fewer))
        if more is not None:
            add(f"{meth}:more", lambda f=f: f(more))
        add(f"{meth}:nan", lambda f=f: f(nanX))
        add(f"{meth}:inf", lambda f=f: f(infX))
        add(f"{meth}:1d", lambda f=f: f(np.arange(float(p))))
        add(f"{meth}:none", lambda f=f: f(None))
        for on, o in {"short": O[:-1], "long": np.append(O, 0.0), "nan": at(O, 1, nan), "inf": at(O, 1, inf), "two": np.column_stack([O, O]), "scalarnan": nan, "str": "x", "len1": [0.5], "strs": ["a"] * N}.items():
            add(f"{meth}:offset-{on}", lambda f=f, o=o: f(X, offset=o))
        if m == "path" and not cv:
            add(f"{meth}:index-big", lambda f=f: f(X, alpha_index=3))
            add(f"{meth}:index-neg", lambda f=f: f(X, alpha_index=-4))
            add(f"{meth}:index-float", lambda f=f: f(X, alpha_index=0.5))
            add(f"{meth}:index-list", lambda f=f: f(X, alpha_index=[0, 7]))
            add(f"{meth}:alpha-off", lambda f=f: f(X, alpha=0.2))
            add(f"{meth}:alpha-list", lambda f=f: f(X, alpha=[0.3, 0.2]))
            add(f"{meth}:alpha-nan", lambda f=f: f(X, alpha=nan))
            add(f"{meth}:both", lambda f=f: f(X, alpha=0.3, alpha_index=0))
        elif not cv:
            add(f"{meth}:index-none", lambda f=f: f(X, alpha_index=0))
            add(f"{meth}:alpha-none", lambda f=f: f(X, alpha=0.1))
    for wn, w in {"short": W[:-1], "neg": at(W, 1, -1.0), "nan": at(W, 1, nan), "zero": np.zeros(N), "two": W[:, None] * np.ones((1, 2)), "scalarnan": nan, "scalarinf": inf, "scalar0": 0.0, "inf": at(W, 1, inf)}.items():
        add(f"predict:weight-{wn}", lambda w=w: est.predict(X, sample_weight=w))
        add(f"score:weight-{wn}", lambda w=w: est.score(X, y, sample_weight=w))
        add(f"cov:weight-{wn}", lambda w=w: est.covariance_matrix(X, y, sample_weight=w))
    for yn, yy in {"short": Y[:-1], "nan": at(Y, 1, nan), "inf": at(Y, 1, inf), "two": np.column_stack([Y, Y]), "strs": np.array(list("abcdefghij"))}.items():
        add(f"score:y-{yn}", lambda yy=yy: est.score(X, yy))
        if m != "two":
            add(f"cov:y-{yn}", lambda yy=yy: est.covariance_matrix(X, yy))
            add(f"se:y-{yn}", lambda yy=yy: est.std_errors(X, yy))
    add("score:short", lambda: est.score(short, y))
    add("score:nan", lambda: est.score(nanX, y))
    for on, o in {"short": O[:-1], "nan": at(O, 1, nan), "two": np.column_stack([O, O]), "scalarnan": nan, "len1": [0.5]}.items():
        add(f"score:offset-{on}", lambda o=o: est.score(X, y, offset=o))
        add(f"cov:offset-{on}", lambda o=o: est.covariance_matrix(X, y, offset=o))
    yq = None if m == "two" else y
    if m != "two":
        add("cov:short", lambda: est.covariance_matrix(short, y))
    add("cov:nan", lambda: est.covariance_matrix(nanX, yq))
    add("cov:fewer", lambda: est.covariance_matrix(fewer, yq))
    if m != "stored":
        add("cov:nodata", lambda: est.covariance_matrix())
        add("se:nodata", lambda: est.std_errors())
    if m != "two":
        add("cov:noy", lambda: est.covariance_matrix(X))
    add("cov:noX", lambda: est.covariance_matrix(None, y))
    add("cov:clusters", lambda: est.covariance_matrix(X, yq, clusters=np.resize([1, 2], N - 1)))
    add("cov:dispnan", lambda: est.covariance_matrix(X, yq, robust=False, dispersion=nan))
    add("cov:dispstr", lambda: est.covariance_matrix(X, yq, robust=False, dispersion="x"))
    k = p + fi
    args = dict() if m == "stored" else dict(X=X, y=yq)
    for rn, kw in {"cols": dict(R=np.ones((1, k + 1)), r=[0.0]), "rlen": dict(R=np.eye(k)[:1], r=[0.0, 0.0]), "nothing": {}, "nan": dict(R=np.full((1, k), nan)), "zero": dict(R=np.zeros((1, k))), "dup": dict(R=np.vstack([np.eye(k)[0], np.eye(k)[0]])), "feature": dict(features="nope"), "features": dict(features=[est.feature_names_[0], "nope"]),
                   "both": dict(R=np.eye(k)[:1], features=est.feature_names_[0]), "rnan": dict(R=np.eye(k)[:1], r=[nan]), "featlen": dict(features=[est.feature_names_[0]], r=[0.0, 1.0]), "term": dict(terms="nope"), "3d": dict(R=np.ones((1, 1, k))), "str": dict(R="x"), "formula": dict(formula="nope = 0")}.items():
        add(f"wald:{rn}", lambda kw=kw: est.wald_test(**args, **kw))
    for c in (-0.1, 1.5, nan):
        add(f"table:{c}", lambda c=c: est.coef_table(**args, confidence_level=c))
    if not cv:
        for crit in ("aic", "aicc", "bic"):
            add(f"{crit}:fewer", lambda crit=crit: getattr(est, crit)(fewer, Y))
            add(f"{crit}:y", lambda crit=crit: getattr(est, crit)(X, Y[:-1]))
            add(f"{crit}:nan", lambda crit=crit: getattr(est, crit)(X, at(Y, 0, nan)))
            add(f"{crit}:weight", lambda crit=crit: getattr(est, crit)(X, Y, sample_weight=at(W, 0, -1.0)))
    return Q


def run_query(case, ctx):
    cv, m = case["cv"], case["model"]
    est, kw, d = model(m, cv)
    path = None if m != "path" or cv else [0.3, 0.1, 0.05]
    base = snapshot(est, d, path)
    for name, fn in queries(est, m, d, cv).items():
        ctx.op()
        ctx.state(cv, m, name)
        try:
            with warnings.catch_warnings(), np.errstate(all="ignore"):
                warnings.simplefilter("ignore")
                v = fn()
        except Exception as e:
            ctx.check(True, name)
            ctx.outcome(name, type(e).__name__)
        else:
            ctx.check(False, f"answered:{name}", lambda: f"{'CV' if cv else 'GLR'} {m}: {np.asarray(v).ravel()[:4] if not hasattr(v, '_fields') else v}")
        ctx.check(same_snap(base, snapshot(est, d, path)), f"query-changed:{name}:{m}", "predictions differ after a failed query")
        ctx.trace()
    # unfitted estimators answer nothing
    cls, params, _ = build({k: v for k, v in kw.items()}, cv)
    for meth, args in (("predict", (d["X"],)), ("linear_predictor", (d["X"],)), ("score", (d["X"], Y)), ("covariance_matrix", (d["X"], Y)), ("coef_table", ()), ("std_errors", (d["X"], Y)), ("wald_test", (d["X"], Y)), ("aic", (d["X"], Y))):
        est = cls(**params)
        if not hasattr(est, meth):
            continue
        ctx.op()
        ctx.state(cv, m, "unfitted", meth)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                getattr(est, meth)(*args)
        except Exception as e:
            ctx.check(True, meth)
        else:
            ctx.check(False, f"unfitted:{meth}", m)


FORMAT_FORMULAS = ["{b}", "a + {b} + c", "a:{b}", "{b}:c", "bs(a, df=4) + {b}", "bs(a, knots=[0.0]):{b}", "C({b}, levels=[{L}])", "{b}*d", "{{{b}}}:{{a * [1][0]}}"]
FORMAT_LABELS = [["u", "v", "w"], ["(0, 1]", "(1, 2]", "(2, 3]"], ["10:30", "11:30", "12:30"], ["[u", "v]", "[w]"], ["u]:d[k", "v]:d[m", "w"], ["a.b*", "(c|d)+", "e\\f"], ["{name}", "{category}", "{0}"], ["x y", " ", ""], ["u\nv", "\t", "w__d"], ["b", "d", "c"]]


def run_format(case, ctx):
    """Monotonic constraints do not depend on how columns and categories are named."""
    plain = frame()
    codes = np.array([0, 1, 2, 0, 1, 2, 0, 1, 0, 2])
    other = np.array([0, 0, 1, 1, 0, 1, 0, 1, 1, 0])

    def table(name, labels, dlabels):
        df = pd.DataFrame({"a": plain["a"], "c": plain["c"]})
        df[name] = pd.Categorical.from_codes(codes, labels)
        df["d"] = pd.Categorical.from_codes(other, dlabels)
        return df

    def estimator(name, labels, direction, drop, **kw):
        quoted = "`" + name + "`" if name != "b" else "b"
        form = case["formula"].format(b=quoted, L=", ".join(map(repr, labels)))
        var = {"a": direction} if "bs(" in form else {name: direction}
        return glum.GeneralizedLinearRegressor(family="poisson", alpha=0.1, formula=form, drop_first=drop, monotonic_constraints=var, **kw)

    labels, dl = case["labels"], ["k", "m"]
    names = ["b", "b c", "b:1", "b[0]", "b.*"]
    for direction, drop in itertools.product(("increasing", "decreasing"), (False, True)):
        base = estimator("b", ["u", "v", "w"], direction, drop).fit(table("b", ["u", "v", "w"], dl), Y)
        for fmt, sep, name in itertools.product(("{name}[{category}]", "{name}__{category}", "{category}", "{category}|{name}", "<{name}:{category}]", "{name}{category}"), (":", " x ", "__", ".*"), names):
            ctx.op()
            ctx.state(case["formula"], labels, direction, drop, fmt, sep, name)
            if name != "b" and (fmt, sep) not in (("{name}[{category}]", ":"), ("{name}__{category}", "__"), ("{category}", ":")):
                continue
            if case["formula"].startswith(("C(", "{{")) and name != "b":
                continue
            try:
                e = estimator(name, labels, direction, drop, categorical_format=fmt, interaction_separator=sep).fit(table(name, labels, dl), Y)
            except Exception as err:
                ctx.check(False, "refused:monotonic-format", f"{labels} {direction} {drop} {fmt} {sep} {name}: {type(err).__name__}: {err}"[:300])
                continue
            ctx.check(np.allclose(e.coef_, base.coef_, 0, 1e-12) and abs(e.intercept_ - base.intercept_) < 1e-12, "format:differs", lambda: f"{labels} {direction} {drop} {fmt} {sep} {name}: {e.coef_} instead of {base.coef_}")
            ctx.trace()
        ctx.outcome(np.round(base.coef_, 4).tolist())


def run_objects(case, ctx):
    """Family and link objects with undefined parameters cannot be built."""
    G = glum
    bad = {
        "tweedie 0.5": lambda: G.TweedieDistribution(0.5), "tweedie 1e-9": lambda: G.TweedieDistribution(1e-9), "tweedie 0.999": lambda: G.TweedieDistribution(0.999), "tweedie nan": lambda: G.TweedieDistribution(nan),
        "tweedie inf": lambda: G.TweedieDistribution(inf), "tweedie str": lambda: G.TweedieDistribution("1.5"), "tweedie none": lambda: G.TweedieDistribution(None), "nb 0": lambda: G.NegativeBinomialDistribution(0), "nb neg": lambda: G.NegativeBinomialDistribution(-1.0),
        "nb nan": lambda: G.NegativeBinomialDistribution(nan), "nb str": lambda: G.NegativeBinomialDistribution("1"), "nb none": lambda: G.NegativeBinomialDistribution(None), "nb inf": lambda: G.NegativeBinomialDistribution(inf),
        "link str": lambda: G.TweedieLink("1"), "link nan": lambda: G.TweedieLink(nan), "link none": lambda: G.TweedieLink(None), "link inf": lambda: G.TweedieLink(inf),
    }
    for n, fn in bad.items():
        ctx.op()
        ctx.state(n)
        try:
            fn()
        except Exception as e:
            ctx.check(True, n)
            ctx.outcome(n, type(e).__name__)
        else:
            ctx.check(False, f"object:{n}")
    for n, fn in {"t0": lambda: G.TweedieDistribution(0), "t1": lambda: G.TweedieDistribution(1), "t1.0": lambda: G.TweedieDistribution(1.0), "t2": lambda: G.TweedieDistribution(2.0), "t1.01": lambda: G.TweedieDistribution(1.01), "t3": lambda: G.TweedieDistribution(3), "t-1": lambda: G.TweedieDistribution(-1.0), "t5": lambda: G.TweedieDistribution(5),
                  "npf": lambda: G.TweedieDistribution(np.float64(1.5)), "nb": lambda: G.NegativeBinomialDistribution(1), "nbs": lambda: G.NegativeBinomialDistribution(1e-3), "nbnp": lambda: G.NegativeBinomialDistribution(np.float64(0.3)), "tl": lambda: G.TweedieLink(0), "tl1": lambda: G.TweedieLink(1.0), "tl15": lambda: G.TweedieLink(1.5)}.items():
        ctx.op()
        ctx.state("ok", n)
        fn()
        ctx.check(True, n)
        ctx.trace()


def run(case, ctx):
    globals()["run_" + case["block"]](case, ctx)
