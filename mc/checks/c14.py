"""C14: categories are matched by label; missing values follow the policy."""

import itertools
import warnings

import glum
import numpy as np
import pandas as pd
import polars as pl

from .. import g

ID = "C14"
RULE = (
    "Training: every order of the declared categories, unused category first/last/none, with and without missing "
    "values, policy, dropped level, intercept, frame library, few or many levels. Prediction: for each trained "
    "model every sequence of up to two (three) labels from {levels, declared-but-unused, missing, unknown}, "
    "every order and subset of declared categories that admits it, every frame library, whole frames and single "
    "rows. A state is one (training, frame) pair; a transition one real call."
)
ASSUMPTIONS = ["a label declared in training but never observed counts as known (its coefficient is zero under the ridge penalty)", "any exception counts as the error"]
N = 12
Z = np.array([0.3, -1.0, 0.5, 1.5, -0.2, 0.8, 0.1, 1.1, -0.7, 0.4, 0.9, -0.3])
Y = np.array([1.0, 3.0, 2.0, 5.0, 4.0, 1.0, 2.0, 6.0, 2.0, 3.0, 1.0, 2.5])
MISS = "(MISSING)"


def column(labels, lib, cats=None):
    """One categorical column of a library's kind, None for a missing value."""
    seen = sorted({v for v in labels if v is not None}, key=str)
    cats = list(cats) if cats is not None else seen
    if lib == "pandas":
        return pd.Series(pd.Categorical(labels, categories=cats), index=np.arange(len(labels))[::-1])
    if lib == "ordered":
        return pd.Series(pd.Categorical(labels, categories=cats, ordered=True))
    if lib == "object":
        return pd.Series(list(labels), dtype=object)
    if lib == "string":
        return pd.Series(list(labels), dtype="string")
    if lib == "enum":
        return pl.Series("c", list(labels), dtype=pl.Enum(cats))
    if lib == "polars":
        return pl.Series("c", list(labels), dtype=pl.Categorical)
    if lib == "polars-str":
        return pl.Series("c", list(labels), dtype=pl.String)
    raise KeyError(lib)


def frame(labels, lib, cats=None, z=None, extra=None):
    z = np.resize(Z, len(labels)) if z is None else z
    c = column(labels, lib, cats)
    cols = {"c": c, "z": z}
    if extra is not None:
        cols = {"c": c, "z": z, "d": extra}
    if lib == "polars" and cats is not None:
        # the categories of a polars column are shared with every column ever made: some are not in use here
        both = pl.concat([pl.Series(list(cats)[::-1] + ["aa", "never"], dtype=pl.Categorical), c])
        cols["c"] = both[len(cats) + 2 :]
    if lib in ("enum", "polars", "polars-str"):
        return pl.DataFrame(cols)
    return pd.DataFrame({k: (v.array if isinstance(v, pd.Series) else v) for k, v in cols.items()}, index=np.arange(len(labels))[::-1] + 3)


def sequence(levels, missing):
    lab = [levels[i % len(levels)] for i in (0, 1, 2, 0, 1, 2, 2, 1, 0, 0, 1, 2)] if len(levels) <= 3 else [levels[i % len(levels)] for i in range(N)]
    if missing:
        lab[3] = lab[8 if len(levels) <= 3 else 9] = None
    return lab


def cases(tier):
    out = []
    for lib, few in itertools.product(("pandas", "ordered", "enum", "polars"), (True, False)):
        for policy, drop in itertools.product(("fail", "zero", "convert"), (False, True)):
            out.append(dict(block="train", lib=lib, few=few, policy=policy, drop=drop, quick=tier == "quick"))
            for missing in (False, True):
                if policy == "fail" and missing:
                    continue
                out.append(dict(block="predict", lib=lib, few=few, policy=policy, drop=drop, missing=missing, length=2 if tier == "quick" else 3))
    for policy in ("fail", "zero", "convert"):
        for form in ("c + z", "c * z", "c:z + z", "C(c) + z", "c + d + z", "c + C(d) + c:d"):
            out.append(dict(block="formula", policy=policy, form=form))
    for policy, drop in itertools.product(("fail", "zero", "convert"), (False, True)):
        out.append(dict(block="two", policy=policy, drop=drop))
    for kind in KINDS:
        out.append(dict(block="labels", kind=kind))
    out.append(dict(block="fail"))
    out.append(dict(block="penalties"))
    return out


def est(policy="fail", drop=False, icpt=True, **kw):
    kw.setdefault("alpha", 0.1)
    return glum.GeneralizedLinearRegressor(family="normal", gradient_tol=1e-10, cat_missing_method=policy, drop_first=drop, fit_intercept=icpt, **kw)


def quiet(f):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        return f()


def attempt(f):
    try:
        return quiet(f), None
    except Exception as ex:
        return None, ex


def declared(lib, levels, order, unused, seen=None):
    """Levels of the model in order."""
    if lib == "polars":
        return sorted(set(levels) if seen is None else {v for v in seen if v is not None})
    lv = list(order)
    return lv + ["unused"] if unused == "last" else ["unused"] + lv if unused == "first" else lv


def onehot(labels, names, values=None):
    return np.array([[float(l == n) for n in names] for l in labels]).reshape(len(labels), len(names))


def model_levels(lib, levels, order, unused, policy, missing, drop):
    lv = declared(lib, levels, order, unused)
    if policy == "convert" and missing:
        lv = lv + [MISS]
    return lv[1:] if drop else lv, lv


LEVELS3 = ["b", "a", "cc"]
LEVELS5 = ["b", "a", "cc", "e", "d"]


def run_train(case, ctx):
    lib, policy, drop = case["lib"], case["policy"], case["drop"]
    levels = LEVELS3 if case["few"] else LEVELS5
    orders = list(itertools.permutations(levels)) if case["few"] else list(itertools.permutations(levels))[:: 17 if case["quick"] else 5]
    if lib == "polars":
        orders = orders[:1]
    for order, unused, missing, icpt in itertools.product(orders, ("none", "first", "last"), (False, True), (True, False)):
        if lib == "polars" and unused != "none":
            continue
        lab = sequence(levels, missing)
        cats = declared(lib, levels, order, unused)
        ctx.op(2)
        ctx.state(case, order, unused, missing, icpt)
        e = est(policy, drop, icpt)
        r, err = attempt(lambda: e.fit(frame(lab, lib, cats), Y))
        if missing and policy == "fail":
            ctx.check(isinstance(err, ValueError), f"fail-policy:{lib}", repr(err))
            ctx.outcome("refused")
            ctx.trace()
            continue
        if err is not None:
            ctx.fail(f"fit:{lib}", f"{order} {unused} {missing}: {err!r}")
            continue
        names, full = model_levels(lib, levels, order, unused, policy, missing, drop)
        H = onehot([MISS if l is None and policy == "convert" else l for l in lab], names)
        f = est("fail", False, icpt).fit(np.column_stack([H, Z]), Y)
        ctx.check(list(e.feature_names_) == [f"c[{n}]" for n in names] + ["z"], f"names:{lib}", e.feature_names_)
        ctx.check(list(e.term_names_) == ["c"] * len(names) + ["z"], f"terms:{lib}", e.term_names_)
        ctx.check(g.close(e.coef_, f.coef_, 1e-7) and abs(e.intercept_ - f.intercept_) < 1e-7, f"coefficients:{lib}:{policy}:{drop}", lambda: f"{order} {unused} {missing}: {e.coef_} instead of {f.coef_}")
        ctx.check(list(e.categorical_levels_["c"]) == cats, f"levels:{lib}", e.categorical_levels_)
        p = quiet(lambda: e.predict(frame(lab, lib, cats)))
        ctx.check(g.close(p, H @ e.coef_[:-1] + Z * e.coef_[-1] + e.intercept_, 1e-9), f"train-rows:{lib}:{policy}", (order, unused, missing))
        # row by row
        one = np.array([quiet(lambda: e.predict(frame([l], lib, cats, z=[z])))[0] for l, z in zip(lab, Z)])
        ctx.check(g.close(one, p, 1e-12), f"single-rows:{lib}:{policy}", (order, unused, missing))
        ctx.outcome(np.round(e.coef_, 6).tolist())
        ctx.trace()


def expected(e, labels, z, names, full, policy, missing_trained):
    """Predictions, or None if the frame must be refused."""
    coef = dict(zip(names, e.coef_))
    out = []
    for l, zz in zip(labels, z):
        if l is None:
            if policy == "fail" or policy == "convert" and not missing_trained:
                return None
            c = 0.0 if policy == "zero" else coef.get(MISS, 0.0)
        elif l == MISS or l not in full:
            return None
        else:
            c = coef.get(l, 0.0)
        out.append(c + zz * e.coef_[-1] + e.intercept_)
    return np.array(out)


def run_predict(case, ctx):
    lib, policy, drop, missing = case["lib"], case["policy"], case["drop"], case["missing"]
    levels = LEVELS3 if case["few"] else LEVELS5
    for unused in ("none", "last") if lib != "polars" else ("none",):
        order = levels if not case["few"] else levels[::-1]
        cats = declared(lib, levels, order, unused)
        e = quiet(lambda: est(policy, drop).fit(frame(sequence(levels, missing), lib, cats), Y))
        names, full = model_levels(lib, levels, order, unused, policy, missing, drop)
        alphabet = levels[:3] + ([levels[-1]] if not case["few"] else []) + ["unused", None, "unknown"]
        for L in range(1, case["length"] + 1):
            for lab in itertools.product(alphabet, repeat=L):
                z = np.resize([0.5, -1.0, 2.0], L)
                want = expected(e, lab, z, names, full, policy, missing)
                present = sorted({v for v in lab if v is not None})
                decl = [present, present[::-1], present + ["zz"], ["zz"] + present[::-1]]
                if want is not None:
                    decl += [full, full[::-1], ["zz"] + full] if MISS not in full else [[v for v in full if v != MISS]]
                for plib in ("pandas", "ordered", "object", "string", "enum", "polars", "polars-str"):
                    if L == 2 and case["length"] == 2 and plib in ("ordered", "string", "polars-str"):
                        continue
                    for i, d in enumerate(decl if plib in ("pandas", "ordered", "enum") else decl[:1]):
                        if not set(present) <= set(d) or L > 2 and i > 1:
                            continue
                        ctx.op()
                        ctx.state(case, unused, lab, plib, i)
                        got, err = attempt(lambda: e.predict(frame(lab, plib, d, z=z)))
                        if plib in ("polars", "polars-str") and not present or plib in ("object", "string", "enum") and not present:
                            # a column of nothing but missing values has no readable type in every library
                            ok = err is not None or want is not None and g.close(got, want, 1e-9)
                        elif want is None:
                            ok = err is not None
                        else:
                            ok = err is None and g.close(got, want, 1e-9)
                        ctx.check(ok, f"predict:{plib}:{policy}:{'refuse' if want is None else 'accept'}", lambda: f"trained {lib} {full} drop={drop} missing={missing}; {lab} declared {d}: {got if err is None else repr(err)[:150]} instead of {want}")
                        ctx.outcome(plib, want is None)
                ctx.trace()


def run_formula(case, ctx):
    policy, form = case["policy"], case["form"]
    lab = sequence(LEVELS3, False)
    dd = ["u", "v w", "u", "v w", "v w", "u", "u", "u", "v w", "u", "v w", "v w"]
    for drop, missing, cats in itertools.product((False, True), (False, True), (LEVELS3, LEVELS3[::-1], ["a", "b", "cc"])):
        if missing and policy == "fail":
            continue
        lab = sequence(LEVELS3, missing)
        df = frame(lab, "pandas", cats, extra=pd.Categorical(dd, categories=["v w", "u"]))
        e = est(policy, drop, formula=form)
        r, err = attempt(lambda: e.fit(df, Y))
        ctx.op()
        ctx.state(case, drop, missing, cats)
        if err is not None:
            ctx.fail(f"formula-fit:{form}", f"{policy} {drop} {missing}: {err!r}"[:300])
            continue
        base = {}
        for i, l in enumerate(["b", "a", "cc", None]):
            for d in ("u", "v w"):
                if l is None and (policy == "fail" or policy == "convert" and not missing):
                    continue
                # a reference from the training rows' own encoding
                base[l, d] = None
        ref = quiet(lambda: e.predict(df))
        # what each training row predicts is what the same row predicts in any other frame
        for plib, order, size in itertools.product(("pandas", "object", "enum", "polars-str", "polars"), (1, -1), (1, 3, 12)):
            for start in range(0, N, max(size, 2)):
                rows = list(range(start, min(start + size, N)))[::order]
                labs = [lab[i] for i in rows]
                if not any(labs):
                    continue
                present = sorted({v for v in labs if v})[::order]
                ds = [dd[i] for i in rows]
                ex = pl.Series("d", ds, dtype=pl.Enum(["u", "q", "v w"])) if plib in ("enum",) else pl.Series("d", ds) if plib.startswith("polars") else pd.Categorical(ds, categories=["u", "v w"]) if plib == "pandas" else np.array(ds, object)
                f = frame(labs, plib, present + ["zz"] if order > 0 else present, z=Z[rows], extra=ex)
                got, err = attempt(lambda: e.predict(f))
                ctx.op()
                ctx.state(case, drop, missing, plib, order, size, start)
                ctx.check(err is None and g.close(got, ref[rows], 1e-9), f"formula-predict:{plib}:{form}", lambda: f"{policy} drop={drop} missing={missing} {labs} {ds}: {got if err is None else repr(err)[:200]} instead of {ref[rows]}")
            ctx.outcome(plib, np.round(ref[:3], 5).tolist())
        # refusals
        for plib in ("pandas", "object", "enum", "polars-str", "polars"):
            for labs in (["unknown"], ["a", "unknown"], ["unknown", "b", "cc"]):
                ds = ["u", "v w", "u"][: len(labs)]
                ex = pl.Series("d", ds, dtype=pl.Enum(["u", "v w"])) if plib == "enum" else pl.Series("d", ds) if plib.startswith("polars") else pd.Categorical(ds)
                got, err = attempt(lambda: e.predict(frame(labs, plib, sorted(labs), extra=ex)))
                ctx.op()
                ctx.check(err is not None, f"formula-unknown:{plib}:{form}", lambda: f"{labs}: {got}")
            got, err = attempt(lambda: e.predict(frame(["a", None], plib, ["a"], extra=["u", "u"] if not plib == "pandas" else pd.Categorical(["u", "u"]))))
            if policy == "fail" or policy == "convert" and not missing:
                ctx.check(err is not None, f"formula-missing:{plib}:{policy}:{form}", lambda: f"trained with missing: {missing}: {got}")
            elif policy == "zero":
                ctx.check(err is None, f"formula-missing-zero:{plib}:{form}", repr(err))
        # the model is the one of its own columns
        names = list(e.feature_names_)
        H = np.column_stack([term(nm, [MISS if v is None and policy == "convert" else v for v in lab], dd, Z) for nm in names])
        q = est("fail", False).fit(H, Y)
        ctx.check(g.close(q.coef_, e.coef_, 1e-6) and abs(q.intercept_ - e.intercept_) < 1e-6, f"formula-coefficients:{form}", lambda: f"{names}: {e.coef_} instead of {q.coef_}")
        ctx.check(g.close(ref, H @ e.coef_ + e.intercept_, 1e-9), f"formula-encoding:{form}", "")
        ctx.trace()


def term(name, lab, dd, z):
    """The column a feature name denotes."""
    v = np.ones(len(lab))
    for part in name.split(":"):
        if part == "z":
            v = v * z
        else:
            var, lev = part.rstrip("]").split("[", 1)
            col = lab if var in ("c", "C(c)") else dd
            v = v * np.array([float(x == lev) for x in col])
    return v


def run_two(case, ctx):
    """Two categorical columns around a number, declared differently from each other and at prediction."""
    policy, drop = case["policy"], case["drop"]
    A, B = ["x", "y", "w"], ["y", "x", "w"]
    la = [A[i % 3] for i in range(N)]
    lb = [B[(i * 2 + i // 3) % 3] for i in range(N)]
    for miss_a, miss_b, lib in itertools.product((False, True), (False, True), ("pandas", "enum")):
        if policy == "fail" and (miss_a or miss_b):
            continue
        a = [None if miss_a and i == 4 else v for i, v in enumerate(la)]
        b = [None if miss_b and i in (2, 7) else v for i, v in enumerate(lb)]

        def make(a, b, z, ca, cb, plib=lib):
            if plib == "enum":
                return pl.DataFrame({"a": pl.Series("a", a, dtype=pl.Enum(ca)), "z": z, "b": pl.Series("b", b, dtype=pl.Enum(cb))})
            if plib == "object":
                return pd.DataFrame({"a": np.array(a, object), "z": z, "b": np.array(b, object)})
            return pd.DataFrame({"a": pd.Categorical(a, categories=ca), "z": z, "b": pd.Categorical(b, categories=cb)})

        e = quiet(lambda: est(policy, drop).fit(make(a, b, Z, A, B), Y))
        na = (A + [MISS] if policy == "convert" and miss_a else A)[drop:]
        nb = (B + [MISS] if policy == "convert" and miss_b else B)[drop:]
        H = np.column_stack([onehot([MISS if v is None and policy == "convert" else v for v in a], na), Z, onehot([MISS if v is None and policy == "convert" else v for v in b], nb)])
        q = est("fail", False).fit(H, Y)
        ctx.check(list(e.feature_names_) == [f"a[{n}]" for n in na] + ["z"] + [f"b[{n}]" for n in nb], "two-names", e.feature_names_)
        ctx.check(g.close(e.coef_, q.coef_, 1e-7), "two-coefficients", lambda: f"{e.coef_} instead of {q.coef_}")
        ea, eb = dict(zip(na, e.coef_)), dict(zip(nb, e.coef_[len(na) + 1:]))
        for va, vb in itertools.product(A + [None, "q"], B + [None, "q"]):
            for ca, cb, plib in itertools.product((A, A[::-1], ["q", "x", "w", "y"]), (B, A, ["w", "q", "y", "x"]), ("pandas", "enum", "object")):
                if va == "q" and "q" not in ca or vb == "q" and "q" not in cb or plib == "object" and (ca != A or cb != B) and "q" not in (va, vb):
                    continue
                zz = [0.25, -2.0]
                refused = "q" in (va, vb) or None in (va, vb) and policy == "fail" or policy == "convert" and (va is None and not miss_a or vb is None and not miss_b)
                got, err = attempt(lambda: e.predict(make([va, "x"], [vb, "y"], zz, ca, cb, plib)))
                ctx.op()
                ctx.state(case, miss_a, miss_b, lib, va, vb, tuple(ca), tuple(cb), plib)
                if refused:
                    ctx.check(err is not None, f"two-refuse:{plib}:{policy}", lambda: f"{va, vb, ca, cb}: {got}")
                else:
                    f = lambda v, m: 0.0 if v is None and policy == "zero" else m.get(MISS if v is None else v, 0.0)  # noqa: E731
                    want = np.array([f(va, ea) + f(vb, eb) + zz[0] * e.coef_[len(na)], f("x", ea) + f("y", eb) + zz[1] * e.coef_[len(na)]]) + e.intercept_
                    ctx.check(err is None and g.close(got, want, 1e-9), f"two-predict:{plib}:{policy}", lambda: f"{va, vb, ca, cb}: {got if err is None else repr(err)[:200]} instead of {want}")
                ctx.outcome(refused, va, vb)
            ctx.trace()


KINDS = {
    "int": [3, 1, 2], "float": [1.5, 0.5, 2.25], "negative": [-1, 10, 9], "date": list(pd.to_datetime(["2021-03-01", "2020-01-05", "2022-02-02"])), "digits": ["10", "9", "1"], "odd": ["a:b", "a[b]", ""],
    "space": ["a", " a", "a "], "case": ["A", "a", "Aa"], "unicode": ["é", "e", "ß"], "like-missing": ["nan", "None", "NaN"], "big": [2**40, 2**40 + 1, 7], "bool": [True, False], "many": [f"l{i}" for i in range(6)][::-1], "one": ["only"],
}


def run_labels(case, ctx):
    lv = KINDS[case["kind"]]
    lab = [lv[i % len(lv)] for i in range(N)]
    unknown = {"int": 7, "float": 9.5, "negative": 0, "date": pd.Timestamp("2030-01-01"), "big": 2**40 + 2, "bool": None}.get(case["kind"], "unknown")
    for order, ordered, policy, drop in itertools.product((lv, lv[::-1], sorted(lv, key=str)), (False, True), ("fail", "zero", "convert"), (False, True)):
        if drop and len(lv) == 1:
            continue
        e = est(policy, drop)
        mk = lambda l, c, z: pd.DataFrame({"c": pd.Categorical(l, categories=c, ordered=ordered), "z": z})  # noqa: E731
        r, err = attempt(lambda: e.fit(mk(lab, order, Z), Y))
        ctx.op()
        ctx.state(case, repr(order), ordered, policy, drop)
        ctx.check(err is None, f"kind-fit:{case['kind']}", repr(err)[:200])
        if err is not None:
            continue
        nm = order[drop:]
        H = np.column_stack([onehot(lab, nm), Z])
        ctx.check(g.close(e.coef_, est().fit(H, Y).coef_, 1e-7), f"kind-coefficients:{case['kind']}", e.coef_)
        ctx.check(len(set(e.feature_names_)) == len(e.feature_names_), f"kind-names:{case['kind']}", e.feature_names_)
        coef = dict(zip(map(repr, nm), e.coef_))
        for l in lv:
            for decl in (order, order[::-1], [l], sorted(lv, key=str)):
                got, err = attempt(lambda: e.predict(mk([l, l], decl, [0.0, 1.0])))
                want = np.array([0.0, e.coef_[-1]]) + coef.get(repr(l), 0.0) + e.intercept_
                ctx.op()
                ctx.check(err is None and g.close(got, want, 1e-9), f"kind-predict:{case['kind']}", lambda: f"{l!r} declared {decl}: {got if err is None else repr(err)[:150]} instead of {want}")
            if unknown is not None:
                got, err = attempt(lambda: e.predict(mk([l, unknown], [unknown] + list(order), [0.0, 1.0])))
                ctx.check(err is not None, f"kind-unknown:{case['kind']}", lambda: f"{unknown!r}: {got}")
        got, err = attempt(lambda: e.predict(mk([lv[0], None], order, [0.0, 1.0])))
        if policy == "zero":
            ctx.check(err is None and g.close(got, np.array([coef.get(repr(lv[0]), 0.0), e.coef_[-1]]) + e.intercept_, 1e-9), f"kind-missing:{case['kind']}", lambda: repr(err) if err else got)
        else:
            ctx.check(err is not None, f"kind-missing:{case['kind']}:{policy}", lambda: got)
        ctx.outcome(case["kind"], np.round(e.coef_, 5).tolist())
        ctx.trace()


def run_fail(case, ctx):
    """Names of the own category, refitting, missing numbers, bad policies."""
    lab = sequence(LEVELS3, True)
    for lib in ("pandas", "ordered", "enum"):
        for name in ("M", "(MISSING)", "zz top"):
            e = quiet(lambda: est("convert", cat_missing_name=name).fit(frame(lab, lib, LEVELS3), Y))
            ctx.check(list(e.feature_names_) == ["c[b]", "c[a]", "c[cc]", f"c[{name}]", "z"], f"own-name:{lib}", e.feature_names_)
            ctx.op()
            ctx.state(lib, name)
            for clash in (["b", "a", "cc", name], [name, "b", "a", "cc"]):
                got, err = attempt(lambda: est("convert", cat_missing_name=name).fit(frame(lab, lib, clash), Y))
                ctx.check(err is not None, f"name-taken:{lib}", clash)
            for plib in ("pandas", "object", "enum", "polars-str"):
                got, err = attempt(lambda: e.predict(frame([name, "a"], plib, [name, "a"])))
                ctx.check(err is not None, f"name-as-label:{lib}:{plib}", lambda: got)
                got, err = attempt(lambda: e.predict(frame([None, "a"], plib, ["a"])))
                ctx.check(err is None and g.close(got[0], e.coef_[3] + Z[0] * e.coef_[4] + e.intercept_, 1e-9), f"own-category:{lib}:{plib}", lambda: repr(err) if err else got)
                ctx.op(2)
            # a custom format that hides the name of the category
            f = quiet(lambda: est("convert", cat_missing_name=name, categorical_format="{category}@{name}").fit(frame(lab, lib, LEVELS3), Y))
            ctx.check(g.close(f.predict(frame([None, "a"], lib, ["a"])), e.predict(frame([None, "a"], lib, ["a"])), 1e-9), f"format:{lib}", f.feature_names_)
            ctx.trace()
    # the name of the own category is also the one a formula shows
    for form, drop, name in itertools.product(("c + z", "z + c:z", "c * z", "c:d"), (False, True), ("(MISSING)", "M", "zz top")):
        ex = pd.Categorical(["u", "v w"] * (N // 2), categories=["v w", "u"])
        df = frame(lab, "pandas", LEVELS3, extra=ex)
        e = est("convert", drop, formula=form, cat_missing_name=name)
        r, err = attempt(lambda: e.fit(df, Y))
        ctx.op()
        ctx.state(form, drop, name)
        if not ctx.check(err is None, f"formula-name-fit:{form}", repr(err)):
            continue
        f = quiet(lambda: est("convert", drop, formula=form, cat_missing_name="@other@").fit(df, Y))
        ctx.check(list(e.feature_names_) == [v.replace("@other@", name) for v in f.feature_names_] and any("@other@" in v for v in f.feature_names_), f"formula-name:{form}", f"{name}: {e.feature_names_}")
        ctx.check(g.close(e.coef_, f.coef_, 1e-9), f"formula-name-coefficients:{form}", e.coef_)
        for plib, labs in itertools.product(("pandas", "enum", "polars-str"), ([None, "a"], ["a", None], [None, None], [name, "a"])):
            new = frame(labs, plib, ["a", name], extra=np.array(["u", "v w"], object))
            got, err = attempt(lambda: e.predict(new))
            ctx.op()
            if name in labs:
                ctx.check(err is not None, f"formula-name-as-label:{plib}", lambda: got)
            else:
                ref = quiet(lambda: f.predict(new))
                ctx.check(err is None and g.close(got, ref, 1e-9), f"formula-own-category:{plib}", lambda: repr(err) if err else got)
        ctx.trace()
    for bad in ("Fail", "nan", None, 1, True):
        r, err = attempt(lambda: est(bad).fit(frame(sequence(LEVELS3, False), "pandas", LEVELS3), Y))
        ctx.check(isinstance(err, (ValueError, TypeError)), "unknown-policy", bad)
        ctx.outcome(bad)
    z = Z.copy()
    z[2] = np.nan
    for policy in ("fail", "zero", "convert"):
        for lib in ("pandas", "enum"):
            r, err = attempt(lambda: est(policy).fit(frame(sequence(LEVELS3, False), lib, LEVELS3, z=z), Y))
            ctx.check(isinstance(err, ValueError), f"missing-number:{lib}", repr(err))
            e = quiet(lambda: est(policy).fit(frame(sequence(LEVELS3, False), lib, LEVELS3), Y))
            r, err = attempt(lambda: e.predict(frame(["a", "b"], lib, LEVELS3, z=[1.0, np.nan])))
            ctx.check(isinstance(err, ValueError), f"missing-number-predict:{lib}", lambda: r)
    # categorical in training, something else at prediction; and the reverse
    e = quiet(lambda: est().fit(frame(sequence(LEVELS3, False), "pandas", LEVELS3), Y))
    for c in (np.zeros(2), np.array([1, 2]), np.array([True, False]), np.array([1.5, None], object)):
        r, err = attempt(lambda: e.predict(pd.DataFrame({"c": c, "z": [0.0, 1.0]})))
        ctx.check(err is not None, "numbers-for-labels", lambda: (c, r))
    r, err = attempt(lambda: e.predict(pd.DataFrame({"z": [0.0, 1.0]})))
    ctx.check(err is not None, "column-missing", lambda: r)


def run_penalties(case, ctx):
    """A penalty per column of the frame is a penalty per column of the model."""
    for lib, drop, missing, few, l1 in itertools.product(("pandas", "ordered", "enum", "polars"), (False, True), (False, True), (True, False), (0.0, 0.5)):
        levels = LEVELS3 if few else LEVELS5
        lab = sequence(levels, missing)
        cats = declared(lib, levels, levels, "none" if lib == "polars" else "last")
        pol = "convert" if missing else "fail"
        names, _ = model_levels(lib, levels, levels, "none" if lib == "polars" else "last", pol, missing, drop)
        df = frame(lab, lib, cats)
        k = len(names)
        for P1, P2 in itertools.product((None, [0.3, 2.0]), ("identity", [0.5, 3.0], np.array([2.0, 0.0]))):
            if P1 is not None and l1 == 0:
                continue
            ex = lambda p: None if p is None else p if isinstance(p, str) else [p[0]] * k + [p[1]]  # noqa: E731
            e = quiet(lambda: est(pol, drop, P1=P1 if P1 is not None else "identity", P2=P2, l1_ratio=l1).fit(df, Y))
            f = quiet(lambda: est(pol, drop, P1=ex(P1) if P1 is not None else "identity", P2=ex(P2), l1_ratio=l1).fit(df, Y))
            H = np.column_stack([onehot([MISS if v is None else v for v in lab], names), Z])
            q = quiet(lambda: est(P1=ex(P1) if P1 is not None else "identity", P2=ex(P2), l1_ratio=l1).fit(H, Y))
            ctx.op(3)
            ctx.state(lib, drop, missing, few, l1, repr(P1), repr(P2))
            ctx.check(np.array_equal(e.coef_, f.coef_), f"expanded:{lib}", lambda: f"{P1, P2}: {e.coef_} instead of {f.coef_}")
            ctx.check(g.close(e.coef_, q.coef_, 1e-5), f"expanded-onehot:{lib}", lambda: f"{P1, P2}: {e.coef_} instead of {q.coef_}")
            ctx.outcome(np.round(e.coef_, 5).tolist())
            ctx.trace()


def run(case, ctx):
    globals()["run_" + case["block"]](case, ctx)
