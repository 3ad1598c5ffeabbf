"""C11: coefficient tables and Wald tests."""

import itertools

import glum
import numpy as np
import pandas as pd
from scipy import special

from .. import data, fit, g
from . import c10

ID = "C11"
RULE = (
    "Every fitted model of a finite product (family/link, intercept, frame or array or formula) with: every "
    "covariance option and confidence level of a list for the table; for Wald tests every non-empty subset of "
    "the coefficients, every integer restriction matrix of one or two rows with entries in {-1,0,1} on three "
    "coefficients and every right-hand side of a list, in every spelling that can express it; every way of "
    "naming something unknown. A state is one such tuple; a transition one real call."
)
ASSUMPTIONS = ["p-values are compared absolutely (1e-9), statistics relatively (1e-6)"]
FL = [("normal", "identity"), ("poisson", "log"), ("gamma", "log"), ("binomial", "logit"), ("tweedie:1.5", "log"), ("negbin:1", "log"), ("invgauss", "log"), ("ghs", "identity")]
N = 14
C = np.array([0, 1, 2, 0, 1, 2, 2, 1, 0, 0, 1, 2, 2, 0])
D = np.array([0, 1, 0, 0, 1, 1, 0, 1, 0, 1, 1, 0, 1, 0])


def frame():
    z = data.X("corr")[:, 2].copy()
    return pd.DataFrame({"c": pd.Categorical(np.array(["a", "b", "cc"])[C]), "d e": pd.Categorical(np.array(["u", "v w"])[D]), "z": z, "x2": np.linspace(-1, 1, N) ** 2})


def dummies():
    f = frame()
    return f, np.column_stack([C == 1, C == 2, D == 1, f["z"], f["x2"]]).astype(float)


MODELS = {
    # name: (estimator settings, the data, the design without intercept, feature names, term names)
    "array": lambda: ({}, dummies()[1], dummies()[1], [f"_col_{i}" for i in range(5)], None),
    "named": lambda: ({}, pd.DataFrame(dummies()[1], columns=["a", "intercepts", "a b", "log(q)", "v[1]"]), dummies()[1], ["a", "intercepts", "a b", "log(q)", "v[1]"], None),
    "frame": lambda: (dict(drop_first=True), frame(), dummies()[1], ["c[b]", "c[cc]", "d e[v w]", "z", "x2"], ["c", "c", "d e", "z", "x2"]),
    "format": lambda: (dict(drop_first=True, categorical_format="{name}__{category}"), frame(), dummies()[1], ["c__b", "c__cc", "d e__v w", "z", "x2"], ["c", "c", "d e", "z", "x2"]),
    "formula": lambda: (dict(drop_first=True, formula="c + z + z:x2 + I(x2**2)"), frame(), np.column_stack([dummies()[1][:, [0, 1, 3]], dummies()[1][:, 4] ** 2, dummies()[1][:, 3] * dummies()[1][:, 4]]),
                        ["c[b]", "c[cc]", "z", "I(x2 ** 2)", "z:x2"], ["c", "c", "z", "I(x2 ** 2)", "z:x2"]),
    "inter": lambda: (dict(formula="c*z", drop_first=True, interaction_separator="__x__"), frame(), np.column_stack([dummies()[1][:, [0, 1, 3]], dummies()[1][:, 0] * dummies()[1][:, 3], dummies()[1][:, 1] * dummies()[1][:, 3]]),
                      ["c[b]", "c[cc]", "z", "c[b]__x__z", "c[cc]__x__z"], ["c", "c", "z", "c:z", "c:z"]),
}


def cases(tier):
    out = []
    fls = FL if tier == "thorough" else FL[:5]
    for fl, m, icpt in itertools.product(fls, MODELS, (True, False)):
        if m in ("frame", "format", "formula", "inter") and not icpt:
            continue  # without intercept the formula codes categoricals in full: see the array models
        out.append(dict(block="table", fam=fl[0], link=fl[1], model=m, icpt=icpt))
        if tier == "thorough" or fl in FL[1:4] and m != "array":
            out.append(dict(block="subsets", fam=fl[0], link=fl[1], model=m, icpt=icpt))
    for fl in fls[:3] if tier == "quick" else fls:
        for icpt in (True, False):
            out.append(dict(block="matrices", fam=fl[0], link=fl[1], icpt=icpt))
    for m in MODELS:
        out.append(dict(block="reject", model=m))
    out.append(dict(block="penalised"))
    return out


def weights(m):
    return np.resize([1.0, 2.0, 0.5, 1.5], N), np.resize([0.2, -0.1, 0.4], N)


def model(fl, m, icpt, ctx, **kw):
    st, Z, X, names, terms = MODELS[m]()
    y = np.asarray(data.y("cats", fl[0]), float)
    w, off = weights(m)
    e = fit.estimator(fl[0], fl[1], alpha=0, fit_intercept=icpt, gradient_tol=1e-7, max_iter=300, **st)
    e, ok, _ = fit.fit(e, Z, y, sample_weight=w, offset=off, **kw)
    ctx.op()
    if not c10.good(fl, e, X, off) or c10.ill(fl, X, y, w, off, icpt, e.coef_, e.intercept_):
        ctx.skipped += 1
        return None
    return e, Z, X, y, w, off, (["intercept"] if icpt else []) + names, (["intercept"] if icpt else []) + (terms or names)


def beta(e, icpt):
    return np.r_[e.intercept_, e.coef_] if icpt else np.array(e.coef_)


LEVELS = (0.95, 0.5, 0.8, 0.9, 0.99, 0.999, 1e-6, 0.0, 1 - 1e-9)


def run_table(case, ctx):
    fl, icpt = (case["fam"], case["link"]), case["icpt"]
    r = model(fl, case["model"], icpt, ctx)
    if r is None:
        return
    e, Z, X, y, w, off, names, terms = r
    b = beta(e, icpt)
    t = e.coef_table()
    ctx.check(isinstance(t, pd.Series) and list(t.index) == names and t.name == "coef" and np.array_equal(t, b), "no-covariance", t)
    ctx.check(list(e.feature_names_) == names[icpt:] and list(e.term_names_) == terms[icpt:], "names", (e.feature_names_, e.term_names_))
    clus = np.resize([1, 5, 2, 2, 7, 7, 7, 3], N)
    mu = np.asarray(e.predict(Z, offset=off)) * (1.02 if fl[0] != "binomial" else 0.97)

    def verify(t, V, lev, tag):
        se = np.sqrt(np.diag(V))
        q = special.ndtri(0.5 + lev / 2)
        ctx.state(case, tag, lev)
        ctx.check(list(t.columns) == ["coef", "se", "t_value", "p_value", "ci_lower", "ci_upper"] and list(t.index) == names, f"labels:{tag}", t)
        ctx.check(np.array_equal(t["coef"], b), f"coef:{tag}", t)
        ctx.check(g.close(t["se"], se, 1e-5), f"se:{tag}", lambda: f"{list(t['se'])} instead of {se}")
        ctx.check(g.close(t["t_value"], b / se, 1e-5), f"t:{tag}", lambda: f"{list(t['t_value'])} instead of {b / se}")
        # the rest to full precision from the printed errors
        se = np.asarray(t["se"])
        ctx.check(np.allclose(t["p_value"], special.erfc(np.abs(b / se) / np.sqrt(2)), rtol=0, atol=1e-9), f"p:{tag}", lambda: list(t["p_value"]))
        ctx.check(np.all(np.abs(t["ci_lower"] - b + q * se) <= 1e-6 * se + 1e-9 * np.abs(b)) and np.all(np.abs(t["ci_upper"] - b - q * se) <= 1e-6 * se + 1e-9 * np.abs(b)), f"ci:{tag}", lambda: f"level {lev}: {t[['ci_lower', 'ci_upper']]}")
        ctx.outcome(np.round(t["p_value"], 6).tolist(), lev)

    for robust, exp, disp, cl, muu in itertools.product((None, True, False), (None, True), (None, 0.6), (None, clus), (None, mu)):
        V = c10.want(fl, X, y, w, off, icpt, e.coef_, e.intercept_, robust=robust is not False, expected=exp is True, dispersion=disp, clusters=None if cl is None else cl.tolist(), mu=muu)
        tag = f"{'clus' if cl is not None else robust}:{exp}:{disp is None}:{muu is None}"
        for lev in LEVELS if muu is None and disp is None else LEVELS[:2]:
            ctx.op()
            t = e.coef_table(Z, y, sample_weight=w, offset=off, robust=robust, expected_information=exp, dispersion=disp, clusters=cl, mu=muu, **({} if lev == 0.95 and robust else dict(confidence_level=lev)))
            verify(t, V, lev, tag)
        ctx.check(isinstance(e.coef_table(), pd.Series), "stored-by-a-table", "")
        ctx.trace()
    # stored
    for cl in (None, clus):
        r = model(fl, case["model"], icpt, ctx, store_covariance_matrix=True, clusters=cl)
        e = r[0]
        b = beta(e, icpt)
        V = c10.want(fl, X, y, w, off, icpt, e.coef_, e.intercept_, clusters=None if cl is None else cl.tolist())
        for lev in LEVELS:
            verify(e.coef_table(confidence_level=lev), V, lev, f"stored:{cl is None}")
            ctx.op()
        V = c10.want(fl, X, y, w, off, icpt, e.coef_, e.intercept_, robust=False)
        verify(e.coef_table(Z, y, sample_weight=w, offset=off, robust=False), V, 0.95, "stored-overridden")


def stat(R, r, b, V):
    d = R @ b - r
    M = R @ V @ R.T
    s = np.sqrt(np.diag(M))
    q = d / s
    st = float(q @ np.linalg.solve(M / s[:, None] / s[None, :], q))
    return st, float(special.gammaincc(len(d) / 2, max(st, 0) / 2)), np.linalg.cond(M / s[:, None] / s[None, :])


def agree(ctx, res, st, p, q, sig, msg, tol=1e-6):
    a, b = float(np.squeeze(res.test_statistic)), float(np.squeeze(res.p_value))
    ctx.check(abs(a - st) <= tol * max(1.0, abs(st)) and abs(b - p) <= max(1e-9, 10 * tol * min(1, p * max(st, 1))) and res.df == q,
              sig, lambda: f"{msg}: {a, b, res.df} instead of {st, p, q}")
    ctx.outcome(round(b, 7), q)


def sides(q, b):
    yield None, np.zeros(q)
    yield [0] * q, np.zeros(q)
    yield (np.arange(q) / 4 + 0.5).tolist(), np.arange(q) / 4 + 0.5
    yield np.arange(q)[::-1] - 1, (np.arange(q)[::-1] - 1.0)


def run_subsets(case, ctx):
    fl, icpt, m = (case["fam"], case["link"]), case["icpt"], case["model"]
    r = model(fl, m, icpt, ctx, store_covariance_matrix=True)
    if r is None:
        return
    e, Z, X, y, w, off, names, terms = r
    b, k = beta(e, icpt), len(names)
    mu = np.asarray(e.predict(Z, offset=off)) * (1.02 if fl[0] != "binomial" else 0.97)
    clus = np.resize([1, 5, 2, 2, 7, 7, 7, 3, 9, 11, 12], N)
    I = np.eye(k)
    opts = [
        ("stored", {}, {}),
        ("plain", dict(X=Z, y=y, sample_weight=w, offset=off, robust=False), dict(robust=False)),
        ("options", dict(X=Z, y=y, sample_weight=w, offset=off, expected_information=True, dispersion=0.6, mu=mu), dict(expected=True, dispersion=0.6, mu=mu)),
        ("clusters", dict(X=Z, y=y, sample_weight=w, offset=off, clusters=clus), dict(clusters=clus.tolist())),
    ]
    for tag, kw, wk in opts:
        V = c10.want(fl, X, y, w, off, icpt, e.coef_, e.intercept_, **wk)
        for size in range(1, k + 1):
            if tag != "stored" and size > 2:
                continue
            for sub in itertools.combinations(range(k), size):
                R = I[list(sub)]
                for rv, r0 in sides(size, b) if tag == "stored" else list(sides(size, b))[::3]:
                    st, p, cond = stat(R, r0, b, V)
                    if cond > 1e5 * (100 if tag == "stored" else 1):
                        ctx.skipped += 1
                        continue
                    ctx.state(case, tag, sub, r0.tolist())
                    tol = 1e-5 if cond < 1e4 else 1e-3
                    a = e.wald_test(R=R, r=rv, **kw)
                    agree(ctx, a, st, p, size, f"matrix:{tag}", (sub, rv), tol)
                    agree(ctx, e.wald_test(features=[names[j] for j in sub], r=rv, **kw), st, p, size, f"features:{tag}", (sub, rv), tol)
                    agree(ctx, e.wald_test(features=[names[j] for j in sub][::-1], r=None if rv is None else rv[::-1], **kw), st, p, size, f"features-reversed:{tag}", (sub, rv), tol)
                    ctx.op(3)
                    if rv is not None and r0[0] == 0.5 or size == 1:  # (formulas are slow to parse)
                        f = ", ".join((f"`{names[j]}` = {v!r}" if v >= 0 else f"`{names[j]}` + {-v!r} = 0") for j, v in zip(sub, r0.tolist()))
                        agree(ctx, e.wald_test(formula=f, **kw), st, p, size, f"formula:{tag}", f, tol)
                    if size > 1 and tag == "stored":
                        # an equivalent set of restrictions
                        T = np.triu(np.ones((size, size)))
                        agree(ctx, e.wald_test(R=T @ R, r=T @ r0), st, p, size, f"equivalent:{tag}", (sub, rv), tol * 10)
                    if size == 1:
                        agree(ctx, e.wald_test(features=names[sub[0]], r=rv, **kw), st, p, size, f"one-feature:{tag}", (sub, rv), tol)
                        z = b[sub[0]] - r0[0]
                        ctx.check(abs(st - z * z / V[sub[0], sub[0]]) <= 1e-8 * max(1, st), "oracle", "")
                    ctx.trace()
        # terms
        tn = list(dict.fromkeys(terms))
        for size in range(1, len(tn) + 1 if tag == "stored" else 3):
            for sub in itertools.combinations(tn, size):
                for order in (sub, sub[::-1]):
                    for rv, r0 in sides(size, b):
                        idx = [j for t in order for j in range(k) if terms[j] == t]
                        full = [v for t, v in zip(order, r0.tolist()) for j in range(k) if terms[j] == t]
                        st, p, cond = stat(I[idx], np.array(full), b, V)
                        if cond > 1e5 * (100 if tag == "stored" else 1):
                            ctx.skipped += 1
                            continue
                        ctx.state(case, tag, order, r0.tolist())
                        ctx.op()
                        tol = 1e-5 if cond < 1e4 else 1e-3
                        agree(ctx, e.wald_test(terms=list(order), r=rv, **kw), st, p, len(idx), f"terms:{tag}", (order, rv), tol)
                        if size == 1:
                            agree(ctx, e.wald_test(terms=order[0], r=rv, **kw), st, p, len(idx), f"one-term:{tag}", (order, rv), tol)


def run_matrices(case, ctx):
    """Every restriction matrix with entries -1, 0, 1, as a matrix and as a formula."""
    fl, icpt = (case["fam"], case["link"]), case["icpt"]
    X = dummies()[1][:, [3, 4, 2]][:, : 2 + (not icpt)]
    y = np.asarray(data.y("cats", fl[0]), float)
    cols = ["aa", "b b", "q"][: X.shape[1]]
    e, ok, _ = fit.fit(fit.estimator(fl[0], fl[1], alpha=0, fit_intercept=icpt, gradient_tol=1e-8, max_iter=300), pd.DataFrame(X, columns=cols), y, store_covariance_matrix=True)
    if not c10.good(fl, e, X, None):
        ctx.skipped += 1
        return
    names = (["intercept"] if icpt else []) + cols
    b = beta(e, icpt)
    V = c10.want(fl, X, y, None, None, icpt, e.coef_, e.intercept_)
    rows = [r for r in itertools.product((-1, 0, 1), repeat=3)]

    def text(r, v):
        t = " + ".join(f"{c}*`{n}`" for c, n in zip(r, names) if c).replace("+ -", "- ")
        return ("0 " + t.replace("-", "- ", 1) if t.startswith("-") else t) + (f" = {v}" if v >= 0 else f" + {-v} = 0")

    for q, rv in ((1, [0]), (1, [1.5]), (2, [0, 0]), (2, [1, -2])):
        for rs in itertools.product(rows, repeat=q):
            if q == 2 and rs[0] > rs[1]:
                continue
            R = np.array(rs, float)
            ctx.state(case, rs, rv)
            ctx.op()
            if np.linalg.matrix_rank(R) < q:
                try:
                    res = e.wald_test(R=R, r=rv)
                except np.linalg.LinAlgError:
                    ctx.check(True, "")
                else:
                    ctx.check(False, f"redundant:{q}", lambda: f"{rs}: {res}")
                continue
            st, p, cond = stat(R, np.array(rv, float), b, V)
            if cond > 1e6:
                ctx.skipped += 1
                continue
            agree(ctx, e.wald_test(R=R, r=rv), st, p, q, "matrix", (rs, rv), 1e-5)
            if q == 1 or rv != [0, 0]:
                f = ", ".join(text(r, v) for r, v in zip(rs, rv))
                agree(ctx, e.wald_test(formula=f), st, p, q, "formula", f, 1e-5)
                ctx.op()
            if q == 1:
                agree(ctx, e.wald_test(R=R.astype(int), r=np.array(rv)), st, p, q, "integers", (rs, rv), 1e-5)
                agree(ctx, e.wald_test(R=3 * R, r=3 * np.array(rv)), st, p, q, "scaled", (rs, rv), 1e-5)
            ctx.trace()


def run_reject(case, ctx):
    m = case["model"]
    e, Z, X, y, w, off, names, terms = model(("normal", "identity"), m, True, ctx, store_covariance_matrix=True)
    k, I = len(names), np.eye(len(names))
    n1 = names[1]
    bad = {
        "unknown-feature": dict(features="nope"), "unknown-among": dict(features=[n1, "nope"]), "prefix": dict(features=n1[:-1] if n1[:-1] not in names else n1 + "x"),
        "case": dict(features="INTERCEPT"), "unknown-term": dict(terms="nope"), "unknown-term-among": dict(terms=[terms[1], "nope"]),
        "unknown-formula": dict(formula="nope = 0"), "unknown-formula-among": dict(formula=f"`{n1}` = 0, nope = 1"), "nothing": {},
        "two": dict(R=I[:1], features=n1), "two-b": dict(features=n1, terms=terms[1]), "two-c": dict(terms=terms[1], formula=f"`{n1}`=0"), "three": dict(R=I[:1], features=n1, formula=f"`{n1}`=0"),
        "formula-with-r": dict(formula=f"`{n1}` = 0", r=[0]), "long-r": dict(features=n1, r=[1, 2]), "short-r": dict(features=[n1, names[2]], r=[1]),
        "long-term-r": dict(terms=terms[1], r=[1, 2]), "matrix-r": dict(R=I[:2], r=[1]), "matrix-r3": dict(R=I[:2], r=[1, 2, 3]), "narrow": dict(R=I[:1, :-1]), "wide": dict(R=np.ones((1, k + 1))),
        "duplicate": dict(features=[n1, n1]), "duplicate-term": dict(terms=[terms[1], terms[1]]), "duplicate-formula": dict(formula=f"`{n1}` = 0, 2*`{n1}` = 1"), "zero": dict(R=np.zeros((1, k))),
        "redundant": dict(R=np.array([I[0] + I[1], I[0] - 0.1 * I[2], 0.7 * I[0] + 0.3 * I[1] + 0.04 * I[2] - (0.04 / -0.1 * 0) * I[0]])[[0, 1, 0]]),
        "more-rows": dict(R=np.ones((k + 1, k)) + np.eye(k + 1)[:, :k]),
        "unknown-and-given-data": dict(X=Z, y=y, features="nope"), "empty-terms": dict(terms=[]),
    }
    if terms != names:
        bad["term-as-feature"] = dict(features=terms[1])
        bad["feature-as-term"] = dict(terms=n1)
    for nm, kw in bad.items():
        ctx.op()
        ctx.state(case, nm)
        try:
            res = e.wald_test(**kw)
        except Exception as ex:
            ctx.check(isinstance(ex, (ValueError, KeyError, np.linalg.LinAlgError)), f"refusal:{nm}", repr(ex))
        else:
            ctx.check(False, f"accepted:{nm}", lambda: f"{kw}: {res}")
        ctx.outcome(nm)
        ctx.trace()
    # without stored results and without data there is nothing to test
    f = model(("normal", "identity"), m, True, ctx)[0]
    for kw in (dict(features=n1), dict(R=I[:1]), dict(terms=terms[1]), dict(formula=f"`{n1}`=0")):
        try:
            f.wald_test(**kw)
        except ValueError:
            ctx.check(True, "")
        else:
            ctx.check(False, "nothing-stored", kw)


def run_penalised(case, ctx):
    """With a penalty the table is computed all the same, from the coefficients of the last point."""
    X, y = dummies()[1], np.asarray(data.y("cats", "poisson"), float)
    for mk, nm in ((lambda: glum.GeneralizedLinearRegressor(family="poisson", alpha=0.1), "alpha"), (lambda: glum.GeneralizedLinearRegressor(family="poisson", alpha=[0.1, 0.05], alpha_search=True), "path"),
                   (lambda: glum.GeneralizedLinearRegressorCV(family="poisson", alphas=[0.1, 0.05], l1_ratio=[0.0, 0.5], cv=2), "cv")):
        for scale in (False, True):
            e = mk().set_params(scale_predictors=scale)
            e, ok, msgs = fit.fit(e, X, y)
            V = c10.want(("poisson", "log"), X, y, None, None, True, e.coef_, e.intercept_)
            t, _, msgs = quiet(lambda: e.coef_table(X, y))
            ctx.op(2)
            ctx.state(nm, scale)
            ctx.check(any("penalized" in m for m in msgs), f"warns:{nm}", msgs)
            ctx.check(g.close(t["se"], np.sqrt(np.diag(V)), 1e-6) and np.array_equal(t["coef"], np.r_[e.intercept_, e.coef_]), f"table:{nm}", t)
            R = np.eye(6)[[1, 4]]
            st, p, _ = stat(R, np.zeros(2), np.r_[e.intercept_, e.coef_], V)
            agree(ctx, quiet(lambda: e.wald_test(X, y, R=R))[0], st, p, 2, f"wald:{nm}", "")
            ctx.outcome(nm, scale)
            ctx.trace()


def quiet(f):
    import warnings

    with warnings.catch_warnings(record=True) as ws:
        warnings.simplefilter("always")
        r = f()
    return r, True, [str(w.message) for w in ws]


def run(case, ctx):
    globals()["run_" + case["block"]](case, ctx)
