"""C09: cross-validation against a reference built from separate plain fits on every fold."""

import itertools
import warnings

import glum
import joblib
import numpy as np
import pandas as pd
from sklearn.model_selection import KFold, LeaveOneOut, LeavePOut, RepeatedKFold, ShuffleSplit, TimeSeriesSplit

from .. import data, fit, g, ref

ID = "C09"
RULE = (
    "Every splitter of a list, every division of six rows into two or three folds, every pair of held-out "
    "rows, for every configuration of a product of family, penalty, scaling, weights, offset, bounds, frame: "
    "each (l1_ratio, alpha, fold) is refitted separately with the plain estimator and scored with the "
    "textbook deviance. A state is one (configuration, fold, l1_ratio, alpha); a transition one real fit."
)
ASSUMPTIONS = ["the selection is compared with the recorded deviances, which are compared to 1e-6 with the reference",
               "n_jobs in {None, 1, 2} with processes, 2 and 3 with threads"]
FL = [("normal", "identity"), ("poisson", "log"), ("gamma", "log"), ("binomial", "logit"), ("tweedie:1.5", "log"), ("negbin:1", "log"),
      ("tweedie:1.5", "tweedie:1.5"), ("invgauss", "log"), ("ghs", "identity"), ("binomial", "cloglog")]
ISC = [(True, False), (True, True), (False, False)]


class Fixed:
    def __init__(self, splits):
        self.splits = splits

    def split(self, X, y=None, groups=None):
        for a, b in self.splits:
            yield np.array(a), np.array(b)

    def get_n_splits(self, *a, **k):
        return len(self.splits)


def splitters(n):
    return {
        "int3": (3, KFold(3)), "none": (None, KFold(5)), "kfold2": (KFold(2), KFold(2)),
        "shuffled": (KFold(3, shuffle=True, random_state=4), KFold(3, shuffle=True, random_state=4)),
        "shufflesplit": (ShuffleSplit(3, test_size=0.3, random_state=1), ShuffleSplit(3, test_size=0.3, random_state=1)),
        "repeated": (RepeatedKFold(n_splits=2, n_repeats=2, random_state=2), RepeatedKFold(n_splits=2, n_repeats=2, random_state=2)),
        "timeseries": (TimeSeriesSplit(2), TimeSeriesSplit(2)),
        "loo": (LeaveOneOut(), LeaveOneOut()),
        "list": ([(np.arange(0, n - 3), np.arange(n - 3, n)), (np.arange(n)[::-1][: n - 2], np.arange(0, 2)), (np.arange(2, n), np.arange(n))],) * 2,
        "unsorted": ([(np.arange(n)[::-1][: n - 3].copy(), np.array([2, 0, 1])), (np.array([5, 1, 3, 0, 7, 8, 6]), np.array([4, 2]))],) * 2,
    }


def cases(tier):
    out = []
    for fl in FL if tier != "quick" else FL[:8]:
        for isc in ISC:
            for l1 in (0, 0.5, [0, 0.5, 1.0]):
                out.append(dict(block="product", tier=tier, fam=fl[0], link=fl[1], isc=list(isc), l1=l1))
            if not fl[1].startswith("tweedie"):  # no domain that a step can leave
                out.append(dict(block="empty", fam=fl[0], link=fl[1], isc=list(isc)))
    for fl in FL[:4]:
        for k in (2, 3):
            out.append(dict(block="partitions", fam=fl[0], link=fl[1], k=k))
        out.append(dict(block="auto", tier=tier, fam=fl[0], link=fl[1]))
        out.append(dict(block="frame", fam=fl[0], link=fl[1]))
        out.append(dict(block="select", fam=fl[0], link=fl[1]))
    for j in ("processes-2", "threads-2", "threads-3", "one"):
        out.append(dict(block="jobs", how=j))
    return out


def close(a, b, t):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= t * (1 + np.abs(b))))


def est_cv(fl, **kw):
    kw.setdefault("gradient_tol", 1e-9)
    kw.setdefault("max_iter", 1000)
    return glum.GeneralizedLinearRegressorCV(family=g.family(fl[0]), link=g.link(fl[1]), **kw)


def est(fl, **kw):
    kw.setdefault("gradient_tol", 1e-9)
    kw.setdefault("max_iter", 1000)
    return fit.estimator(fl[0], fl[1], **kw)


def dev(fl, y, eta, w):
    F = ref.Fam(fl[0])
    mu = ref.link(fl[1])[2](eta)
    w = np.ones(len(y)) if w is None else np.asarray(w, float)
    return np.sum(w / w.sum() * F.udev(y, mu))


def compare(ctx, case, fl, X, y, w, off, m, splits, l1s, alphas, kw, tag, tol=2e-5, Xfit=None):
    """``m`` is the fitted real CV object; X is numeric."""
    Xfit = X if Xfit is None else Xfit
    icpt = kw.get("fit_intercept", True)
    p = X.shape[1]
    alphas = np.atleast_2d(np.asarray(alphas, float))
    if len(alphas) == 1:
        alphas = np.repeat(alphas, len(l1s), axis=0)
    nf, na = len(splits), alphas.shape[1]
    ctx.check(m.deviance_path_.shape == (nf, len(l1s), na) and m.train_deviance_path_.shape == (nf, len(l1s), na), f"shape:{tag}", m.deviance_path_.shape)
    ctx.check(m.coef_path_.shape == (nf, len(l1s), na, p) and m.intercept_path_.shape[:3] == (nf, len(l1s), na), f"shape-coef:{tag}", m.coef_path_.shape)
    sub = lambda v, ix: None if v is None else v[ix]  # noqa
    for f, (tr, te) in enumerate(splits):
        for i, l1 in enumerate(l1s):
            for k in range(na):
                e, ok, _ = fit.fit(est(fl, alpha=alphas[i, k], l1_ratio=l1, **kw), Xfit[tr] if not hasattr(Xfit, "iloc") else Xfit.iloc[tr], y[tr], sample_weight=sub(w, tr), offset=sub(off, tr))
                ctx.op()
                ctx.state(case, tag, f, i, k)
                if not ok or np.abs(e.coef_).max() > 15:
                    ctx.note("not converged")
                    continue
                c, b = m.coef_path_[f, i, k], m.intercept_path_[f, i, k].ravel()[0]
                ctx.check(close(c, e.coef_, tol) and close(b, e.intercept_, tol), f"fold-coef:{tag}",
                          lambda: f"fold {f} l1 {l1} alpha {alphas[i, k]}: {b} {c} instead of {e.intercept_} {e.coef_}")
                o = 0 if off is None else off
                eta = X @ e.coef_ + e.intercept_ + o
                for nm, ix, got in (("test", te, m.deviance_path_), ("train", tr, m.train_deviance_path_)):
                    if fl[0] == "binomial" and (eta[ix].min() < -25 or eta[ix].max() > (25 if fl[1] == "logit" else 3)):
                        ctx.note("clipped means")
                        continue
                    if w is not None and w[ix].sum() == 0:
                        continue  # no weight, no deviance; the selection must not depend on it
                    want = dev(fl, y[ix], eta[ix], sub(w, ix))
                    ctx.check(abs(got[f, i, k] - want) <= 3e-5 * (1 + abs(want)), f"{nm}-deviance:{tag}", lambda: f"fold {f} l1 {l1} alpha {alphas[i, k]}: {got[f, i, k]} instead of {want}")
                ctx.outcome(np.round(e.coef_, 2).tolist())
                ctx.trace()
    select(ctx, m, l1s, alphas, tag, [w is None or w[te].sum() > 0 for _, te in splits])
    # final coefficients: a plain fit on everything with the selected values
    e, ok, _ = fit.fit(est(fl, alpha=float(m.alpha_), l1_ratio=float(m.l1_ratio_), **kw), Xfit, y, sample_weight=w, offset=off)
    ctx.op()
    if ok and np.abs(e.coef_).max() < 15:
        ctx.check(close(m.coef_, e.coef_, tol) and close(m.intercept_, e.intercept_, tol), f"final:{tag}", lambda: f"{m.coef_} instead of {e.coef_}")
    ctx.trace()


def select(ctx, m, l1s, alphas, tag, folds=slice(None)):
    avg = m.deviance_path_[folds].mean(axis=0)
    ctx.check(np.isfinite(avg).all(), f"finite:{tag}", avg)
    i = [j for j, l in enumerate(l1s) if l == m.l1_ratio_]
    ok = False
    for j in i:
        for k in range(alphas.shape[1]):
            if alphas[j, k] == m.alpha_ and avg[j, k] <= avg.min() * (1 + 1e-12) + 1e-300:
                ok = True
    ctx.check(ok, f"selection:{tag}", lambda: f"chose l1_ratio {m.l1_ratio_} alpha {m.alpha_}; mean deviances {avg.tolist()} for {alphas.tolist()}")


def run_product(case, ctx):
    fl = (case["fam"], case["link"])
    l1 = case["l1"]
    l1s = list(np.atleast_1d(np.asarray(l1, float)))
    anyl1 = any(v > 0 for v in l1s)
    icpt, scale = case["isc"]
    if fl[1].startswith("tweedie") and not icpt:
        return
    for kind, wk, ok_, var in (("three", None, None, ""), ("onehot", "varied", "varied", "P"), ("corr", "varied", None, "bounds"), ("three", "zeros", "varied", "alphas")):
        X, y = data.X(kind), np.asarray(data.y(kind, fl[0]), float)
        w, off = data.weights(kind, wk), data.offset(kind, ok_)
        if fl[1].startswith("tweedie"):
            off = None
        n, p = X.shape
        kw = dict(fit_intercept=icpt, scale_predictors=scale)
        al = [0.3, 0.05]
        if var == "P":
            kw.update(P2=data.vec2(p) + 0.1, drop_first=True)
            if anyl1:
                kw.update(P1=data.vec1(p) + (0.3 if fl[0] == "binomial" else 0))
        if var == "bounds" :
            kw.update(lower_bounds=np.full(p, -0.08), upper_bounds=np.resize([0.05, 0.3], p))
        if var == "alphas":
            al = [0.05, 0.7, 0.2]
        for nm, (cv, sp) in splitters(n).items():
            if case["tier"] == "quick" and (var == "P") != (nm in ("list", "loo")) and nm not in ("int3",) and (var, nm) not in (("", "shufflesplit"), ("alphas", "unsorted"), ("", "none"), ("bounds", "shuffled"), ("", "timeseries"), ("alphas", "repeated")):
                continue
            if fl[1].startswith("tweedie") and nm != "int3":  # not convex: needs well-behaved data
                continue
            splits = sp if isinstance(sp, list) else list(sp.split(X, y))
            if case["tier"] == "quick" and (nm == "loo" and (len(l1s) > 1 or fl[0] in ("gamma", "negbin:1")) or nm in ("none", "repeated") and icpt == scale):
                continue
            if any(np.ptp(y[a]) == 0 or y[a].max() <= 0 for a, _ in splits):
                ctx.note("degenerate split")
                continue
            m = est_cv(fl, cv=cv, l1_ratio=l1, alphas=np.array(al), **kw)
            ctx.op()
            m, ok, _ = fit.fit(m, X, y, sample_weight=w, offset=off)
            sa = sorted(al)[::-1]
            got = np.asarray(m.alphas_, float)
            ctx.check(got.shape == ((len(sa),) if len(l1s) == 1 else (len(l1s), len(sa))) and np.allclose(got, sa), "alphas", got)
            compare(ctx, [case, kind, nm], fl, X, y, w, off, m, splits, l1s, sa, kw, f"{nm}:{var}")


def run_empty(case, ctx):
    """Every set of rows without weight among nine rows in three folds that leaves each training set something to learn."""
    fl, (icpt, scale) = (case["fam"], case["link"]), case["isc"]
    X, y = data.X("three")[:9], np.asarray(data.y("three", fl[0]), float)[:9]
    splits = list(KFold(3).split(X))
    for k, none in enumerate(itertools.product((0, 1), repeat=3)):
        w = np.resize([1.0, 2.0, 0.5, 1.5], 9)
        for f, z in enumerate(none):
            if z:
                w[splits[f][1]] = 0.0
        if sum(none) > 1:
            continue
        for extra in ((), (0,), (4, 8)):
            w2 = w.copy()
            w2[list(extra)] = 0.0
            if any(np.ptp(y[a][w2[a] > 0]) == 0 for a, _ in splits):
                ctx.note("degenerate split")
                continue
            for al in ([0.5, 0.02], [2.0, 0.4, 0.05]):
                kw = dict(fit_intercept=icpt, scale_predictors=scale)
                m, ok, _ = fit.fit(est_cv(fl, cv=3, l1_ratio=[0.0, 0.5], alphas=np.array(al), **kw), X, y, sample_weight=w2)
                ctx.op()
                if not ok:
                    ctx.note("not converged")
                    continue
                compare(ctx, [case, k, extra, al], fl, X, y, w2, None, m, splits, [0.0, 0.5], al, kw, "empty-fold")


def partitions(n, k):
    """All divisions of range(n) into k non-empty labelled-by-first-element folds."""
    def rec(i, lab, used):
        if i == n:
            if used == k:
                yield tuple(lab)
            return
        for v in range(min(used + 1, k)):
            yield from rec(i + 1, lab + [v], max(used, v + 1))
    return rec(0, [], 0)


def run_partitions(case, ctx):
    fl, k = (case["fam"], case["link"]), case["k"]
    sel = [0, 2, 3, 5, 6, 8]
    X, y = data.X("three")[sel], np.asarray(data.y("three", fl[0]), float)[sel]
    if fl[0] == "binomial":
        y = np.array([1.0, 0, 1, 0, 1, 0])
    w, off = np.resize([1.0, 2.0, 0.5], 6), np.resize([0.1, -0.2], 6)
    for lab in partitions(6, k):
        lab = np.array(lab)
        splits = [(np.flatnonzero(lab != v), np.flatnonzero(lab == v)) for v in range(k)]
        if any(np.ptp(y[a]) == 0 or y[a].max() <= 0 for a, _ in splits):
            continue
        kw = dict(scale_predictors=bool(lab[5]))
        m = est_cv(fl, cv=splits if lab[2] else Fixed(splits), l1_ratio=0.3, alphas=[0.1, 0.6], **kw)
        ctx.op()
        m, ok, _ = fit.fit(m, X, y, sample_weight=w, offset=off)
        compare(ctx, [case, lab.tolist()], fl, X, y, w, off, m, splits, [0.3], [0.6, 0.1], kw, "partition")


def run_auto(case, ctx):
    """Automatic grids: those of a path on all data, per l1_ratio."""
    fl = (case["fam"], case["link"])
    for kind, wk, ok_ in (("three", None, None), ("onehot", "varied", None)):
        X, y = data.X(kind), np.asarray(data.y(kind, fl[0]), float)
        w, off = data.weights(kind, wk), data.offset(kind, ok_)
        for icpt, scale in ISC:
            for l1 in (1.0, 0.5, [0.5], [0.25, 1.0], [1.0, 0.5, 0.1]):
                for opt in (dict(n_alphas=3, min_alpha_ratio=0.1), dict(n_alphas=4, min_alpha=0.01), dict(n_alphas=2)):
                    kw = dict(fit_intercept=icpt, scale_predictors=scale)
                    l1s = list(np.atleast_1d(l1))
                    ctx.op()
                    try:
                        m, ok, _ = fit.fit(est_cv(fl, cv=2, l1_ratio=l1, **opt, **kw), X, y, sample_weight=w, offset=off)
                    except ValueError as e:
                        ctx.check("min_alpha" in str(e) and "min_alpha" in opt, "raised", str(e))
                        continue
                    got = np.atleast_2d(m.alphas_)
                    for i, v in enumerate(l1s):
                        q, _, _ = fit.fit(est(fl, alpha_search=True, l1_ratio=float(v), max_iter=1, **opt, **kw), X, y, sample_weight=w, offset=off)
                        ctx.op()
                        ctx.state(case, kind, icpt, scale, l1, str(opt), i)
                        ctx.check(g.close(got[i], q._alphas, 1e-7), "auto-grid", lambda: f"{got[i]} instead of {q._alphas}")
                        ctx.outcome(np.round(np.log(got[i]), 2).tolist())
                    if case["tier"] == "quick" and (len(l1s) < 2 or opt != dict(n_alphas=3, min_alpha_ratio=0.1)) or not ok:
                        select(ctx, m, l1s, got, "auto")
                        ctx.trace()
                        continue
                    compare(ctx, case, fl, X, y, w, off, m, list(KFold(2).split(X)), l1s, got, kw, "auto")


def run_frame(case, ctx):
    """Categorical columns: folds of the frame against plain fits on one-hot rows."""
    fl = (case["fam"], case["link"])
    n = 14
    c = np.array([0, 1, 2, 0, 1, 2, 2, 1, 0, 0, 1, 2, 2, 0])
    z = data.X("corr")[:, 2].copy()
    y = np.asarray(data.y("cats", fl[0]), float)
    w, off = np.resize([1.0, 2.0, 0.5], n), np.resize([0.2, -0.1, 0.4], n)
    df = pd.DataFrame({"z": z, "c": pd.Categorical(np.array(["a", "b", "cc"])[c])}, index=np.arange(n)[::-1])
    for drop in (False, True):
        X = np.hstack([z[:, None], (c[:, None] == np.arange(3))[:, int(drop):].astype(float)])
        for icpt, scale in ISC:
            for P in (False, True):
                kw = dict(fit_intercept=icpt, scale_predictors=scale)
                splits = list(KFold(3, shuffle=True, random_state=1).split(X))
                extra = dict(P1=[1.0, 2.0], P2=[0.3, 1.5]) if P else {}
                m = est_cv(fl, cv=KFold(3, shuffle=True, random_state=1), l1_ratio=[0.2, 0.8], alphas=[0.3, 0.05], drop_first=drop, **extra, **kw)
                ctx.op()
                m, ok, _ = fit.fit(m, df, y, sample_weight=w, offset=off)
                k2 = dict(kw)
                if P:
                    r = [1, 2 if drop else 3]
                    k2.update(P1=np.repeat([1.0, 2.0], r), P2=np.repeat([0.3, 1.5], r))
                compare(ctx, [case, drop, icpt, scale, P], fl, X, y, w, off, m, splits, [0.2, 0.8], [0.3, 0.05], k2, f"frame:{P}")
                ctx.check(close(m.predict(df.iloc[::-1]), m.predict(df)[::-1], 1e-9), "frame-predict", "")


def run_select(case, ctx):
    """Predictions along the refitted path."""
    fl = (case["fam"], case["link"])
    X, y = data.X("three"), np.asarray(data.y("three", fl[0]), float)
    for l1 in (0.4, [0.1, 0.9]):
        for al in ([0.5, 0.1, 0.02], [0.3], [0.05, 0.6]):
            for icpt, scale in ISC:
                m, ok, _ = fit.fit(est_cv(fl, cv=2, l1_ratio=l1, alphas=al, fit_intercept=icpt, scale_predictors=scale), X, y)
                sa = sorted(al)[::-1]
                want = []
                for a in sa:
                    e, ok, _ = fit.fit(est(fl, alpha=a, l1_ratio=float(m.l1_ratio_), fit_intercept=icpt, scale_predictors=scale), X, y)
                    want.append(np.asarray(e.predict(X)))
                for k, a in enumerate(sa):
                    ctx.op(2)
                    ctx.state(case, l1, al, icpt, scale, k)
                    ctx.check(close(m.predict(X, alpha_index=k), want[k], 2e-5), "index", k)
                    ctx.check(close(m.predict(X, alpha=a), want[k], 2e-5), "alpha", a)
                ctx.check(close(m.predict(X), want[sa.index(m.alpha_)], 2e-5), "default", m.alpha_)
                ctx.check(close(m.predict(X, alpha=sa), np.stack(want, 1), 2e-5), "list", sa)
                for bad in (dict(alpha=0.77), dict(alpha_index=len(sa)), dict(alpha=sa[0], alpha_index=0)):
                    try:
                        m.predict(X, **bad)
                    except (IndexError, ValueError):
                        ctx.check(True, "")
                    else:
                        ctx.check(False, f"accepted:{sorted(bad)}", bad)
                ctx.outcome(l1, al, float(m.alpha_))
                ctx.trace()


def run_jobs(case, ctx):
    how = case["how"]
    for fl in FL[:3]:
        X, y = data.X("three"), np.asarray(data.y("three", fl[0]), float)
        w, off = data.weights("three", "varied"), data.offset("three", "varied")
        for l1, scale in itertools.product((0.5, [0.1, 0.9]), (False, True)):
            kw = dict(cv=3, l1_ratio=l1, alphas=[0.3, 0.1, 0.02], scale_predictors=scale)
            a, _, _ = fit.fit(est_cv(fl, **kw), X, y, sample_weight=w, offset=off)
            ctx.op(2)
            ctx.state(case, fl, l1, scale)
            if how.startswith("threads"):
                with joblib.parallel_config(backend="threading", n_jobs=int(how[-1])):
                    b, _, _ = fit.fit(est_cv(fl, **kw), X, y, sample_weight=w, offset=off)
            else:
                b, _, _ = fit.fit(est_cv(fl, n_jobs=1 if how == "one" else 2, **kw), X, y, sample_weight=w, offset=off)
            for at in ("coef_", "intercept_", "alpha_", "l1_ratio_", "deviance_path_", "train_deviance_path_", "coef_path_", "intercept_path_", "alphas_"):
                ctx.check(close(getattr(a, at), getattr(b, at), 1e-9), f"jobs:{at}", how)
            ctx.outcome(fl, float(b.alpha_))
            ctx.trace()


def run(case, ctx):
    globals()["run_" + case["block"]](case, ctx)
