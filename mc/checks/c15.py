"""C15: a formula model equals the model on the design matrix its formula denotes."""

import itertools
import warnings

import formulaic
import glum
import numpy as np
import pandas as pd
import polars as pl
from scipy.interpolate import BSpline

from .. import g

ID = "C15"
RULE = (
    "Formulas: every pair of atoms (columns, quoted names, transformations, stateful transformations, splines, "
    "user functions, categoricals, booleans) under every operator, and every expression of depth two over numeric "
    "and categorical columns, crossed with dropped level, intercept and family. The design matrix is built term by "
    "term by an own evaluator of the grammar and of each transformation. For every model: names, terms, "
    "coefficients, standard errors, score, and predictions for new rows in every cyclic order, with extra columns and row by row. "
    "Contexts (none, mapping, every caller depth) x query x class x side of the formula. A state is one (formula, "
    "setting); a transition one real fit or query."
)
ASSUMPTIONS = ["formulas follow formulaic's grammar as documented (operators + - : * ** / %in%)", "polars frames have no boolean columns (tabmat cannot encode them)"]
N = 40
R = np.arange(N)
LEVELS = {"c": ["a", "b", "cc"], "d": ["u", "v w"]}


def table():
    return {
        "x": np.sin(R * 1.7) * 2,
        "z": np.cos(R * 2.3),
        "u": 1 + (R * 7 % 11) / 5,
        "odd name": np.sin(R * 3.1) + 0.2 * np.cos(R),
        "c": [["b", "a", "cc"][i * 7 % 3] for i in R],
        "d": [["u", "v w"][(i * i // 3) % 2] for i in R],
        "k": (R * 5 % 7) % 3,
        "b": R % 4 == 1,
        "w": 0.5 + (R * 3 % 5) / 4,
    }


def new_table():
    """Rows not seen in training, covering fewer labels per row block."""
    m = 7
    r = np.arange(m)
    return {
        "x": np.sin(r * 0.9 + 0.3) * 1.5,
        "z": np.cos(r * 1.9) * 2,
        "u": 1.3 + r / 4,
        "odd name": np.sin(r * 2.1),
        "c": ["cc", "a", "cc", "a", "a", "cc", "b"],
        "d": ["v w"] * 4 + ["u"] * 3,
        "k": np.array([2, 2, 0, 0, 1, 2, 1]),
        "b": np.array([True, False, True, True, False, False, True]),
        "w": np.ones(m),
    }


TRAIN, NEW = table(), new_table()
ETA = 0.6 * np.sin(TRAIN["x"]) + 0.3 * TRAIN["z"] + 0.2 * TRAIN["u"]
Y = {"normal": ETA + np.cos(R * 5.0), "poisson": np.round(np.exp(ETA) * (1.2 + np.cos(R * 5.0)))}
W = TRAIN["w"]


def frame(t, lib="pandas", rows=None, extra=False, y=None, drop=()):
    rows = np.arange(len(t["x"])) if rows is None else np.asarray(rows)
    cols = {}
    if extra:
        cols["unused"] = np.full(len(rows), 7.0)
    for k, v in t.items():
        if k in drop or lib == "polars" and k == "b":
            continue
        v = np.asarray(v)[rows]
        if k in LEVELS:
            v = pd.Categorical(v, categories=LEVELS[k]) if lib == "pandas" else pl.Series(k, list(v), dtype=pl.Enum(LEVELS[k]))
        cols[k] = v
    if y is not None:
        cols["y"] = y
    if extra:
        cols["more"] = ["t"] * len(rows)
        if lib == "pandas":
            cols = dict(reversed(cols.items()))
    if lib == "polars":
        return pl.DataFrame(cols)
    return pd.DataFrame(cols, index=rows * 3 + 1)


# --- own evaluator: a factor is a list of (suffix, column function) learnt in training


def fixed(name, f):
    return lambda t: [(name, f)]


def categorical(name, key, levels):
    def learn(t):
        return [(f"{name}[{v}]", (lambda s, v=v: (np.asarray(s[key]) == v).astype(float))) for v in levels]

    return learn


def poly(t):
    x = np.asarray(t["x"])
    m = x.mean()
    q1 = lambda v: v - m  # noqa: E731
    n1 = np.sqrt((q1(x) ** 2).sum())
    a = (x * q1(x) ** 2).sum() / n1**2
    b = n1**2 / len(x)
    q2 = lambda v: (v - a) * q1(v) - b  # noqa: E731
    n2 = np.sqrt((q2(x) ** 2).sum())
    return [("poly(x, 2)[1]", lambda s: q1(np.asarray(s["x"])) / n1), ("poly(x, 2)[2]", lambda s: q2(np.asarray(s["x"])) / n2)]


def bs(t):
    x = np.asarray(t["x"])
    knots = np.r_[[x.min()] * 4, np.quantile(x, 0.5), [x.max()] * 4]

    def col(s, j):
        c = np.zeros(5)
        c[j] = 1
        return BSpline(knots, c, 3)(np.asarray(s["x"]))

    return [(f"bs(x, df=4)[{j}]", (lambda s, j=j: col(s, j))) for j in range(1, 5)]


def center(t):
    m = np.mean(t["x"])
    return [("center(x)", lambda s: s["x"] - m)]


def scale(t):
    m, sd = np.mean(t["z"]), np.std(t["z"], ddof=1)
    return [("scale(z)", lambda s: (s["z"] - m) / sd)]


ATOMS = {
    "x": ("x", fixed("x", lambda s: np.asarray(s["x"]))),
    "z": ("z", fixed("z", lambda s: np.asarray(s["z"]))),
    "odd": ("`odd name`", fixed("odd name", lambda s: np.asarray(s["odd name"]))),
    "log": ("np.log(u)", fixed("np.log(u)", lambda s: np.log(s["u"]))),
    "sq": ("{x**2}", fixed("x ** 2", lambda s: s["x"] ** 2)),
    "I": ("I(x*z)", fixed("I(x * z)", lambda s: s["x"] * s["z"])),
    "center": ("center(x)", center),
    "scale": ("scale(z)", scale),
    "poly": ("poly(x, 2)", poly),
    "bs": ("bs(x, df=4)", bs),
    "f": ("f(x)", fixed("f(x)", lambda s: s["x"] * 2 + 1)),
    "c": ("c", categorical("c", "c", LEVELS["c"])),
    "d": ("d", categorical("d", "d", LEVELS["d"])),
    "Cc": ("C(c)", categorical("C(c)", "c", LEVELS["c"])),
    "Ck": ("C(k)", categorical("C(k)", "k", [0, 1, 2])),
    "b": ("b", categorical("b", "b", [False, True])),
}
CAT = {"c", "d", "Cc", "Ck", "b"}
TERMNAME = {"odd": "odd name", "sq": "x ** 2", "I": "I(x * z)"}


def f(v):
    return v * 2 + 1


def terms_of(e):
    """Terms (frozensets of atoms, in order of appearance) an expression denotes."""
    if isinstance(e, str):
        return [frozenset([e])]
    op, a, b = e
    if op == "^":
        a = terms_of(a)
        return uniq([frozenset().union(*p) for k in (1, 2) for p in itertools.product(a, repeat=k)])
    a, b = terms_of(a), terms_of(b)
    cross = [s | t for s in a for t in b]
    if op == "+":
        return uniq(a + b)
    if op == ":":
        return uniq(cross)
    if op == "*":
        return uniq(a + b + cross)
    if op == "-":
        return [t for t in a if t not in b]
    if op == "/":  # a / b = a + (product of all factors of a):b
        return uniq(a + [frozenset().union(*a) | t for t in b])
    if op == "in":
        return uniq(b + [frozenset().union(*b) | t for t in a])
    raise KeyError(op)


def uniq(ts):
    return list(dict.fromkeys(ts))


def text(e):
    if isinstance(e, str):
        return ATOMS[e][0]
    op, a, b = e
    if op == "^":
        return f"({text(a)})**2"
    return f"({text(a)}) {'%in%' if op == 'in' else op} ({text(b)})" if not isinstance(a, str) or not isinstance(b, str) else f"{text(a)} {'%in%' if op == 'in' else op} {text(b)}"


def design(terms, train):
    """{set of factor names: (term, column function)} of the full design."""
    learnt = {a: ATOMS[a][1](train) for t in terms for a in t}
    out = {}
    for t in terms:
        for combo in itertools.product(*(learnt[a] for a in sorted(t))):
            def col(s, combo=combo):
                v = np.ones(len(s["x"]))
                for _, fn in combo:
                    v = v * fn(s)
                return v

            out[frozenset(n for n, _ in combo)] = (t, col)
    return out


def split(name, sep=":"):
    """Factor names of a column name (separators inside brackets do not count)."""
    parts, depth, cur, i = [], 0, "", 0
    while i < len(name):
        if name[i] in "([":
            depth += 1
        if name[i] in ")]":
            depth -= 1
        if depth == 0 and name.startswith(sep, i):
            parts.append(cur)
            cur, i = "", i + len(sep)
            continue
        cur += name[i]
        i += 1
    return frozenset(parts + [cur])


def termname(t):
    return frozenset(TERMNAME.get(a, ATOMS[a][0]) for a in t)


def quiet(fn):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return fn()


def est(family="normal", cls=glum.GeneralizedLinearRegressor, **kw):
    kw.setdefault("gradient_tol", 1e-10)
    if cls is glum.GeneralizedLinearRegressor:
        kw.setdefault("alpha", 0.3)
    return cls(family=family, **kw)


def attempt(fn):
    try:
        return quiet(fn), None
    except Exception as ex:
        return None, ex


def cases(tier):
    out = []
    atoms = list(ATOMS)
    for a in atoms:
        out.append(dict(block="pairs", left=a, atoms=atoms, tier=tier))
    exprs, seen = deep_expressions(), {}
    for e in exprs:  # quick: two spellings of each set of terms
        seen.setdefault(frozenset(terms_of(e)), []).append(e)
    some = exprs if tier == "thorough" else [e for es in seen.values() for e in es[: 2 if len(es) > 1 else 1]]
    for k in range(0, len(some), 24):
        out.append(dict(block="deep", exprs=some[k : k + 24], tier=tier))
    for cls in ("plain", "cv"):
        for two in (False, True):
            out.append(dict(block="context", cls=cls, two=two))
    for lib in ("pandas", "polars"):
        for drop, icpt in itertools.product((False, True), (True, False)):
            out.append(dict(block="forms", lib=lib, drop=drop, icpt=icpt))
            out.append(dict(block="cv", lib=lib, drop=drop, icpt=icpt))
    out.append(dict(block="intercept"))
    out.append(dict(block="reject"))
    return out


def verify(ctx, formula, terms, drop, icpt, family, lib="pandas", deep=True, fm=None, **kw):
    ctx.op()
    ctx.state(formula if isinstance(formula, str) else str(fm), drop, icpt, family, lib, sorted(kw))
    full = design(terms, TRAIN)
    e = est(family, formula=formula, drop_first=drop, fit_intercept=icpt, **kw)
    what = lambda: f"{formula!r} drop_first={drop} intercept={icpt} {family} {lib} {kw}"  # noqa: E731
    y = Y[family]
    df = frame(TRAIN, lib)
    _, err = attempt(lambda: e.fit(df, y, sample_weight=W, context={"f": f}))
    if err is not None:
        ctx.fail("fit", f"{what()}: {err!r}")
        return None
    sep = kw.get("interaction_separator", ":")
    span = list(full.values())
    if drop:  # columns of lower order may stand in for the dropped levels
        subs = [frozenset(c) for t in terms for k in range(1, len(t)) for c in itertools.combinations(sorted(t), k)]
        full = {**design(uniq(subs), TRAIN), **full}
    keys = [split(n, sep) for n in e.feature_names_]
    if not ctx.check(len(set(keys)) == len(keys) and set(keys) <= set(full), "names", lambda: f"{what()}: {e.feature_names_}"):
        return None
    if not drop:
        ctx.check(set(keys) == set(full), "columns", lambda: f"{what()}: {e.feature_names_} instead of {[sorted(k) for k in full]}")
    ok = all(frozenset(str(tn).split(":")) == termname(full[k][0]) for tn, k in zip(e.term_names_, keys)) and len(e.term_names_) == len(keys)
    # a dropped level moves a column to a term of lower order; then only its factors can be compared
    ctx.check(ok or drop, "terms", lambda: f"{what()}: {e.term_names_}")
    mat = lambda s: np.column_stack([full[k][1](s) for k in keys]) if keys else np.zeros((len(s["x"]), 0))  # noqa: E731
    H = mat(TRAIN)
    if drop:
        A = np.column_stack([v[1](TRAIN) for v in span])
        one = np.ones((N, 1)) if icpt else np.zeros((N, 0))
        rank = lambda *m: np.linalg.matrix_rank(np.hstack(m), tol=1e-8)  # noqa: E731
        ctx.check(rank(one, H) == rank(one, A) == rank(one, A, H), "span", lambda: f"{what()}: {e.feature_names_} does not span the full design")
        if deep and not ({"poly", "bs", "center", "f", "sq", "I", "scale", "log"} & set().union(*terms)) and not {"c", "Cc"} <= set().union(*terms) and not {"Ck", "b"} & set().union(*terms):
            ctx.check(rank(one, H) == H.shape[1] + icpt, "full-rank", lambda: f"{what()}: {e.feature_names_}")
    m = est(family, fit_intercept=icpt)
    quiet(lambda: m.fit(H, y, sample_weight=W))
    ctx.check(g.close(e.coef_, m.coef_, 1e-6, 1e-7) and abs(e.intercept_ - m.intercept_) < 1e-6 * (1 + abs(m.intercept_)), "coefficients", lambda: f"{what()}: {e.coef_} {e.intercept_} instead of {m.coef_} {m.intercept_}")
    inv = np.exp if family == "poisson" else (lambda v: v)
    want = lambda s: inv(mat(s) @ e.coef_ + e.intercept_)  # noqa: E731
    got = {
        "train": (lambda: e.predict(df, context={"f": f}), want(TRAIN)),
        "new": (lambda: e.predict(frame(NEW, lib), context={"f": f}), want(NEW)),
        "eta": (lambda: inv(e.linear_predictor(frame(NEW, lib), context={"f": f})), want(NEW)),
    }
    M = len(NEW["x"])
    if deep:
        for s in (1, 4):
            rows = np.roll(np.arange(M)[::-1], s)
            got[f"order{s}"] = (lambda rows=rows: e.predict(frame(NEW, lib, rows=rows), context={"f": f}), want(NEW)[rows])
        got["extra"] = (lambda: e.predict(frame(NEW, lib, extra=True), context={"f": f}), want(NEW))
        got["other-lib"] = (lambda: e.predict(frame(NEW, "polars" if lib == "pandas" else "pandas"), context={"f": f}), want(NEW))
        if lib == "pandas" and any("b" in t for t in terms):
            del got["other-lib"]
        got["rows"] = (lambda: np.concatenate([e.predict(frame(NEW, lib, rows=[i]), context={"f": f}) for i in (0, 3, 6)]), want(NEW)[[0, 3, 6]])
    for k, (fn, w) in got.items():
        p, err = attempt(fn)
        ctx.op()
        ctx.check(err is None and g.close(p, w, 1e-8), f"predict:{k}", lambda: f"{what()}: {p if err is None else repr(err)[:200]} instead of {w}")
    s1 = quiet(lambda: e.score(df, y, sample_weight=W, context={"f": f}))
    s2 = quiet(lambda: m.score(H, y, sample_weight=W))
    ctx.op()
    ctx.check(abs(s1 - s2) < 1e-7, "score", lambda: f"{what()}: {s1} instead of {s2}")
    if deep:
        one = np.ones((N, 1)) if icpt else np.zeros((N, 0))
        B = np.hstack([one, H])
        sv = np.linalg.svd(B, compute_uv=False)
        if sv[-1] > 1e-3 * sv[0]:
            for rob in (True, False):
                a, err = attempt(lambda: e.std_errors(df, y, sample_weight=W, robust=rob, context={"f": f}))
                b = quiet(lambda: m.std_errors(H, y, sample_weight=W, robust=rob))
                ctx.op()
                ctx.check(err is None and g.close(a, b, 1e-4, 1e-7), "std-errors", lambda: f"{what()}: {a if err is None else repr(err)[:200]} instead of {b}")
    ctx.outcome(np.round(e.coef_, 6).tolist(), icpt)
    ctx.trace()
    return e


def run_pairs(case, ctx):
    a = case["left"]
    combos = list(itertools.product((False, True), (True, False)))
    for drop, icpt in combos:
        for fam in ("normal", "poisson"):
            verify(ctx, text(a), terms_of(a), drop, icpt, fam)
    for i, b in enumerate(case["atoms"]):
        if b == a:
            continue
        for j, (op, (drop, icpt)) in enumerate(itertools.product(("+", ":", "*"), combos)):
            if case["tier"] == "quick" and op == "*" and (drop, icpt) != ((i % 2 == 0), True) and not {a, b} & CAT:
                continue
            e = (op, a, b)
            verify(ctx, text(e), terms_of(e), drop, icpt, "normal" if (i + j) % 3 or case["tier"] == "thorough" else "poisson", deep=case["tier"] == "thorough" or (i + j) % 2 == 0)
            if case["tier"] == "thorough":
                verify(ctx, text(e), terms_of(e), drop, icpt, "poisson", deep=False)


def deep_expressions():
    base, ops = ["x", "z", "c", "d"], ["+", ":", "*", "-", "/", "in"]
    out = []
    for op1, op2, a, b, c in itertools.product(ops, ops, base, base, base):
        for e, inner in (((op2, (op1, a, b), c), (op1, a, b)), ((op1, a, (op2, b, c)), (op2, b, c))):
            if terms_of(inner) and terms_of(e):
                out.append(e)
    for a, b, c in itertools.product(base, base, base):
        out.append(("^", ("+", ("+", a, b), c), None))
    return out


def run_deep(case, ctx):
    thorough = case["tier"] == "thorough"
    for e in case["exprs"]:
        terms = terms_of(e)
        for drop, icpt in ((True, True), (False, True)) + (((True, False), (False, False)) if thorough else ()):
            verify(ctx, text(e), terms, drop, icpt, "normal", deep=thorough and drop)


# --- contexts


def run_context(case, ctx):
    cls = glum.GeneralizedLinearRegressor if case["cls"] == "plain" else glum.GeneralizedLinearRegressorCV
    kw = dict(alpha=0) if case["cls"] == "plain" else dict(alphas=[0.5, 0.1], cv=2)
    y = np.exp(Y["normal"])
    df = frame(TRAIN, y=y)
    two = case["two"]
    form = "gy(y) ~ ff(x) + c + z" if two else "ff(x) + c + z"

    def ff_(v):
        return v * 3 - 1

    def gy_(v):
        return np.sqrt(v)

    H = np.column_stack([ff_(TRAIN["x"])] + [(np.asarray(TRAIN["c"]) == v).astype(float) for v in ("b", "cc")] + [TRAIN["z"]])
    yy = gy_(y) if two else y
    m = est(cls=cls, **kw)
    quiet(lambda: m.fit(H, yy))
    ya = (None,) if two else (y,)
    mapping = {"ff": ff_, "gy": gy_}

    def call(depth, how, fn):
        """Runs fn with the functions visible only at the given depth of callers."""
        if how == "mapping":
            return quiet(lambda: fn(mapping))
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            # the frames in between have functions of the same names that answer something else
            def level0(n):
                ff, gy = (ff_, gy_) if depth == 0 else (np.cos, np.square)
                return fn(n) if ff is not gy else None

            def level1(n):
                ff, gy = (ff_, gy_) if depth == 1 else (np.cos, np.square)
                return level0(n) if ff is not gy else None

            def level2(n):
                ff, gy = (ff_, gy_) if depth == 2 else (np.cos, np.square)
                return level1(n) if ff is not gy else None

            return level2(1 + depth)  # fn is a frame of its own

    fits = {}
    for depth, how in ((0, "mapping"), (0, "frame"), (1, "frame"), (2, "frame")):
        e = est(cls=cls, formula=form, drop_first=True, **kw)
        _, err = attempt(lambda: call(depth, how, lambda c: e.fit(df, *ya, context=c)))
        ctx.op()
        ctx.state(case, how, depth)
        if not ctx.check(err is None, "fit-context", lambda: f"{how} {depth}: {err!r}"):
            continue
        ctx.check(g.close(e.coef_, m.coef_, 1e-7, 1e-8), "context-coefficients", lambda: f"{how} {depth}: {e.coef_} instead of {m.coef_}")
        fits[how, depth] = e
    R_ = np.zeros((1, 5))
    R_[0, 1] = 1
    Q = {
        "predict": (lambda e, c: e.predict(df, context=c), lambda: m.predict(H)),
        "linear_predictor": (lambda e, c: e.linear_predictor(df, context=c), lambda: m.linear_predictor(H)),
        "score": (lambda e, c: e.score(df, yy, context=c), lambda: m.score(H, yy)),
        "std_errors": (lambda e, c: e.std_errors(df, *ya, context=c), lambda: m.std_errors(H, yy)),
        "covariance_matrix": (lambda e, c: e.covariance_matrix(df, *ya, context=c), lambda: m.covariance_matrix(H, yy)),
        "coef_table": (lambda e, c: e.coef_table(df, *ya, context=c).to_numpy(), lambda: m.coef_table(H, yy).to_numpy()),
        "wald_test": (lambda e, c: e.wald_test(df, *ya, R=R_, context=c).test_statistic, lambda: m.wald_test(H, yy, R=R_).test_statistic),
        "wald_features": (lambda e, c: e.wald_test(df, *ya, features="z", context=c).test_statistic, lambda: m.wald_test(H, yy, R=np.eye(5)[[4]]).test_statistic),
    }
    if case["cls"] == "plain":
        for crit in ("aic", "aicc", "bic"):
            Q[crit] = (lambda e, c, crit=crit: getattr(e, crit)(df, yy, context=c), lambda crit=crit: getattr(m, crit)(H, yy))
    else:
        Q["alpha_index"] = (lambda e, c: e.predict(df, alpha_index=0, context=c), lambda: m.predict(H, alpha_index=0))
        Q["lp_index"] = (lambda e, c: e.linear_predictor(df, alpha_index=[0, 1], context=c), lambda: m.linear_predictor(H, alpha_index=[0, 1]))
    for (fh, fd), e in fits.items():
        for name, (fn, wf) in Q.items():
            w = quiet(wf)
            for depth, how in ((0, "mapping"), (0, "frame"), (1, "frame"), (2, "frame")):
                p, err = attempt(lambda: call(depth, how, lambda c: fn(e, c if isinstance(c, dict) else c + 1)))
                ctx.op()
                ctx.state(case, fh, fd, name, how, depth)
                ctx.check(err is None and g.close(p, w, 1e-6, 1e-8), f"context:{name}", lambda: f"{how} {depth}: {p if err is None else repr(err)[:200]} instead of {w}")
                ctx.trace()
            # without a context the functions are unknown
            p, err = attempt(lambda: fn(e, None))
            ctx.op()
            ctx.check(err is not None, f"no-context:{name}", lambda: f"answered {p}")
    ctx.outcome(len(fits))


# --- written forms, libraries, options


def run_forms(case, ctx):
    lib, drop, icpt = case["lib"], case["drop"], case["icpt"]
    sets = [["x", "c"], ["center", "c", "d"], ["bs"], ["poly", "c"], ["x", "z", "log"]]
    pairs = [("*", "x", "c"), (":", "c", "d"), ("*", "center", "d"), (":", "bs", "c")]
    for names in sets:
        e = names[0]
        for n in names[1:]:
            e = ("+", e, n)
        pairs.append(e)
    for e in pairs:
        t, terms = text(e), terms_of(e)
        written = [t, "  " + t.replace(" ", "   ") + " ", t + " + " + t] + (["1 + " + t, t + " + 1"] if icpt else ["0 + " + t, t + " - 1", "-1 + " + t, t + " + 0"])
        base = None
        for wr in written:
            m = verify(ctx, wr, terms, drop, icpt, "normal", lib)
            if m is not None:
                base = base or m
                ctx.check(set(m.feature_names_) == set(base.feature_names_), "written-names", wr)
        fo = formulaic.Formula(t if icpt else t + " - 1")
        before = str(fo)
        verify(ctx, fo, terms, drop, icpt, "normal", lib, fm=t)
        ctx.check(str(fo) == before, "formula-object-changed", t)
        for sep in ("__x__", " & "):
            verify(ctx, t, terms, drop, icpt, "normal", lib, interaction_separator=sep)
        # another name format only renames
        a = est(formula=t, drop_first=drop, fit_intercept=icpt)
        b = est(formula=t, drop_first=drop, fit_intercept=icpt, categorical_format="{name}=={category}")
        df = frame(TRAIN, lib)
        quiet(lambda: a.fit(df, Y["normal"], context={"f": f}))
        quiet(lambda: b.fit(df, Y["normal"], context={"f": f}))
        ctx.op(2)
        ctx.check(np.array_equal(a.coef_, b.coef_) and np.array_equal(a.predict(frame(NEW, lib)), b.predict(frame(NEW, lib))), "format-changes-fit", t)
        ren = [n if not any(c in n for c in ("c[", "d[")) else n for n in a.feature_names_]
        for q, v in (("c", LEVELS["c"]), ("d", LEVELS["d"])):
            for lev in v:
                ren = [n.replace(f"{q}[{lev}]", f"{q}=={lev}") for n in ren]
        ctx.check(ren == b.feature_names_, "format-names", lambda: f"{b.feature_names_} instead of {ren}")
        # two-sided
        for lhs, tr in (("y", lambda v: v), ("np.log(y)", np.log), ("{y*2}", lambda v: v * 2), ("`y`", lambda v: v)):
            yy = np.exp(Y["normal"])
            d2 = frame(TRAIN, lib, y=yy)
            for rhs in (t if icpt else t, "1 + " + t if icpt else t + " - 1"):
                a = est(formula=f"{lhs} ~ {rhs}", drop_first=drop, fit_intercept=icpt)
                _, err = attempt(lambda: a.fit(d2, sample_weight=W))
                b = est(formula=rhs, drop_first=drop, fit_intercept=icpt)
                quiet(lambda: b.fit(d2, tr(yy), sample_weight=W))
                ctx.op(2)
                ctx.state(case, lhs, rhs)
                if not ctx.check(err is None and g.close(a.coef_, b.coef_, 1e-9) and g.close(a.intercept_, b.intercept_, 1e-9), "two-sided", lambda: f"{lhs} ~ {rhs}: {err!r}"):
                    continue
                ctx.check(g.close(a.predict(frame(NEW, lib)), b.predict(frame(NEW, lib)), 1e-9), "two-sided-predict", f"{lhs} ~ {rhs}")
                ctx.check(a.feature_names_ == b.feature_names_, "two-sided-names", f"{lhs} ~ {rhs}")
                if drop:
                    p, err = attempt(lambda: a.std_errors(d2, sample_weight=W))
                    w, err2 = attempt(lambda: b.std_errors(d2, tr(yy), sample_weight=W))
                    ctx.check((err is None) == (err2 is None) and (err is not None or g.close(p, w, 1e-6)), "two-sided-errors", lambda: f"{lhs} ~ {rhs}: {p} {err} {w} {err2}")
                both, err = attempt(lambda: est(formula=f"{lhs} ~ {rhs}", fit_intercept=icpt).fit(d2, yy))
                ctx.check(err is not None, "two-targets", f"{lhs} ~ {rhs}")
                ctx.trace()
    ctx.outcome(len(pairs))


def run_cv(case, ctx):
    lib, drop, icpt = case["lib"], case["drop"], case["icpt"]
    folds = [(np.arange(N)[R % 3 != k], np.arange(N)[R % 3 == k]) for k in range(3)]
    for e, fam in itertools.product((("+", "x", "c"), ("*", "center", "d"), ("+", "poly", "c"), ("+", ("+", "x", "z"), "log")), ("normal", "poisson")):
        t, terms = text(e), terms_of(e)
        full = design(terms, TRAIN)
        for kw in (dict(alphas=[1.0, 0.1]), dict(n_alphas=4, l1_ratio=0.5), dict(l1_ratio=[0.5, 1.0], n_alphas=3)):
            df = frame(TRAIN, lib, y=Y[fam] + (0 if fam == "poisson" else 0.0))
            m = est(fam, glum.GeneralizedLinearRegressorCV, formula=t, drop_first=drop, fit_intercept=icpt, cv=folds, **kw)
            _, err = attempt(lambda: m.fit(df, Y[fam], sample_weight=W))
            ctx.op()
            ctx.state(case, t, fam, sorted(kw))
            if not ctx.check(err is None, "cv-fit", lambda: f"{t} {fam} {kw}: {err!r}"):
                continue
            keys = [split(n) for n in m.feature_names_]
            mat = lambda s: np.column_stack([full[k][1](s) for k in keys])  # noqa: E731
            q = est(fam, glum.GeneralizedLinearRegressorCV, fit_intercept=icpt, cv=folds, **kw)
            quiet(lambda: q.fit(mat(TRAIN), Y[fam], sample_weight=W))
            ctx.op()
            what = f"{t} {fam} {kw} drop={drop} intercept={icpt}"
            ctx.check(g.close(m.alpha_, q.alpha_, 1e-9) and g.close(m.l1_ratio_, q.l1_ratio_), "cv-chosen", lambda: f"{what}: {m.alpha_} {q.alpha_}")
            ctx.check(g.close(m.coef_, q.coef_, 1e-5, 1e-6), "cv-coefficients", lambda: f"{what}: {m.coef_} {q.coef_}")
            ctx.check(g.close(m.deviance_path_, q.deviance_path_, 1e-5, 1e-6), "cv-deviance", lambda: what)
            ctx.check(g.close(m.predict(frame(NEW, lib, extra=True)), q.predict(mat(NEW)), 1e-5, 1e-6), "cv-predict", what)
            two = est(fam, glum.GeneralizedLinearRegressorCV, formula="y ~ " + t, drop_first=drop, fit_intercept=icpt, cv=folds, **kw)
            _, err = attempt(lambda: two.fit(df, sample_weight=W))
            ctx.op()
            ctx.check(err is None and g.close(two.coef_, m.coef_, 1e-9), "cv-two-sided", lambda: f"{what}: {err!r}")
            ctx.outcome(np.round(m.coef_, 4).tolist())
            ctx.trace()


def run_intercept(case, ctx):
    df = frame(TRAIN)
    for cls, (form, has) in itertools.product(
        (glum.GeneralizedLinearRegressor, glum.GeneralizedLinearRegressorCV),
        (("x", None), ("1 + x", True), ("x + 1", True), ("0 + x", False), ("x - 1", False), ("-1 + x", False), ("x + 0", False), ("1 + x + c", True), ("c - 1", False), ("0 + x + 1", True), ("1 + x - 1", False), ("x*c - 1", False)),
    ):
        for icpt, two in itertools.product((True, False), (False, True)):
            e = est(cls=cls, formula=("z ~ " if two else "") + form, fit_intercept=icpt)
            _, err = attempt(lambda: e.fit(df, None if two else Y["normal"]))
            ctx.op()
            ctx.state(form, icpt, two, cls.__name__)
            clash = has is not None and has != icpt
            if clash:
                ctx.check(isinstance(err, ValueError), "intercept-clash", f"{form} {icpt} {err!r}")
            elif ctx.check(err is None, "intercept-agree", f"{form} {icpt} {err!r}"):
                ctx.check((e.intercept_ != 0) == icpt and not any(n in ("1", "Intercept", "intercept") for n in e.feature_names_), "intercept-column", f"{form} {icpt}")
            ctx.outcome(clash, icpt)
            ctx.trace()


def run_reject(case, ctx):
    df = frame(TRAIN)
    y = Y["normal"]
    for cls in (glum.GeneralizedLinearRegressor, glum.GeneralizedLinearRegressorCV):
        for name, fn in {
            "unknown column": lambda: est(cls=cls, formula="x + nope").fit(df, y),
            "two lhs terms": lambda: est(cls=cls, formula="x + z ~ c").fit(df),
            "no target": lambda: est(cls=cls, formula="x + c").fit(df),
            "not a formula": lambda: est(cls=cls, formula=5).fit(df, y),
            "syntax": lambda: est(cls=cls, formula="x + (c").fit(df, y),
            "undefined function": lambda: est(cls=cls, formula="nofun(x)").fit(df, y),
        }.items():
            _, err = attempt(fn)
            ctx.op()
            ctx.state(name, cls.__name__)
            ctx.check(err is not None, f"accepted:{name}", "no error")
            ctx.trace()
        e = quiet(lambda: est(cls=cls, formula="x + c").fit(df, y))
        for col in ("x", "c"):
            for q in (e.predict, e.linear_predictor, lambda d: e.score(d, y)):
                _, err = attempt(lambda: q(frame(TRAIN, drop=(col,))))
                ctx.op()
                ctx.check(err is not None, "missing-column", f"{col} absent")
        ctx.outcome(cls.__name__)


def run(case, ctx):
    globals()["run_" + case["block"]](case, ctx)
