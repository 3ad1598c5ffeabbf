"""C22: a change of units changes only the units of the answer."""

import itertools

import glum
import numpy as np
import pandas as pd
import scipy.sparse as sps

from .. import data, fit, g, ref
from .c21 import COVARGS, make, penalties, solvers, tols, usable

ID = "C22"
RULE = (
    "Every configuration of a finite grid (family, link, table, solver, scaling, intercept, penalty, weights, "
    "bounds, offset, container) is fitted to the data and to every re-expression of an alphabet (columns "
    "multiplied, shifted, recombined, duplicated, padded with zero or constant columns, with columns that the "
    "fit left out removed; intercept given as a column; target multiplied, negated or with its classes "
    "swapped), with the penalties, bounds and starts expressed in the same units. The coefficients, predictions, "
    "scores, covariance matrices, paths and cross-validation results must map onto each other. A state is "
    "one (configuration, re-expression), a transition one fit or query."
)
ASSUMPTIONS = [
    "configurations whose optimum is not unique are outside the space",
    "fits that report no convergence are outside the premise",
    "columns whose standard deviation rounds to zero count as constant",
]

FAMS = [("normal", "identity"), ("poisson", "log"), ("gamma", "log"), ("tweedie:1.5", "log"),
        ("binomial", "logit"), ("negbin:1", "log"), ("binomial", "cloglog"), ("ghs", "identity")]
MORE = [("tweedie:0", "identity"), ("tweedie:2", "log"), ("tweedie:1.2", "log"), ("negbin:0.3", "log"), ("tweedie:1", "log")]
ISC = [(True, False), (True, True), (False, False)]
RELS = ["scale", "shift", "mix", "target", "neutral", "drop", "ones", "dup"]


def cases(tier):
    deep = tier == "thorough"
    fams = FAMS + (MORE if deep else [])
    tabs = ["three", "corr"] + (["scales", "sparse", "onehot", "tall", "one"] if deep else ["scales", "onehot"])
    out = []
    for (f, lk), t, r in itertools.product(fams, tabs, RELS):
        if r == "target" and (lk not in ("log", "logit") or f.startswith("negbin")) and f not in ("normal", "ghs", "tweedie:0"):
            continue
        if t == "one" and r in ("mix", "drop"):
            continue
        out.append(dict(block="fit", fam=f, link=lk, table=t, rel=r))
    for (f, lk), r in itertools.product(fams if deep else FAMS[:6], ("scale", "shift", "target", "neutral")):
        if r == "target" and f.startswith("negbin"):
            continue
        for t in ("three", "corr") if deep else ("three",):
            out.append(dict(block="path", fam=f, link=lk, table=t, rel=r))
            out.append(dict(block="cv", fam=f, link=lk, table=t, rel=r))
    for c in out:
        c["deep"] = deep
    return out


class Rel:
    """A re-expression: new data and parameters, and the map of (intercept, coef)."""

    def __init__(self, name, X, y, o, kw, T, t0=None, mu=lambda m: m, dev=1.0, free=True):
        self.name, self.X, self.y, self.o, self.kw, self.T = name, X, y, o, kw, T
        self.t0 = np.zeros(len(T)) if t0 is None else t0
        self.mu, self.dev, self.free = mu, dev, free  # free: covariances map too


def times(alpha, k):
    return alpha if alpha is None else [a * k for a in alpha] if isinstance(alpha, list) else alpha * k


def relations(rel, f, lk, X, y, o, kw, fi, sp, base=None):
    """All re-expressions of one kind. kw holds numeric P1 (p,), P2 (p, p), maybe bounds and start_params."""
    n, p = X.shape
    I = np.eye(p + 1)
    P1, P2, alpha, l1 = kw["P1"], kw["P2"], kw["alpha"], kw["l1_ratio"]
    lo, up = kw.get("lower_bounds"), kw.get("upper_bounds")
    start = kw.get("start_params")

    def moved(T, t0, **more):
        out = dict(kw, **more)
        if start is not None:
            full = np.concatenate(([0.0], start)) if not fi else start
            s2 = T @ full + t0
            out["start_params"] = s2 if fi else s2[1:]
        return out

    def boxed(c, out):
        if lo is not None:
            a, b = lo / c, up / c
            out["lower_bounds"], out["upper_bounds"] = np.minimum(a, b), np.maximum(a, b)
        return out

    if rel == "scale":
        cs = {"neg": -np.ones(p), "mixed": np.resize([4.0, -0.25, 2.0, 0.5], p)}
        if sp:
            cs.update(big=np.resize([1e4, 1.0, 1e-3], p), tiny=np.resize([1e-5, 1.0, 1e3, -1e-4], p), all=np.full(p, 3e-5), one=np.where(np.arange(p) == p - 1, 2e-6, 1.0), huge=np.where(np.arange(p) == 0, 1e18, 1.0))
        for nm, c in cs.items():
            T = np.diag(np.concatenate(([1.0], 1 / c)))
            k = moved(T, np.zeros(p + 1))
            if not sp:
                k.update(P1=P1 * np.abs(c), P2=P2 * c[:, None] * c[None, :])
            elif np.any(c < 0):
                k.update(P2=P2 * np.sign(c)[:, None] * np.sign(c)[None, :])
            yield Rel(nm, X * c, y, o, boxed(c, k), T, free=nm != "huge")
    elif rel == "shift" and fi:
        for nm, m in {"up": np.full(p, 3.0), "mixed": np.resize([-20.0, 0.5, 8.0], p), "centre": -X.mean(0), "far": np.full(p, 200.0)}.items():
            if nm == "far" and kw["solver"] in ("lbfgs", "trust-constr"):
                continue
            T = I.copy()
            T[0, 1:] = -m
            yield Rel(nm, X + m, y, o, moved(T, np.zeros(p + 1)), T)
    elif rel == "mix" and (l1 == 0 or alpha == 0) and lo is None and (not sp or alpha == 0) and p > 1:
        A1 = np.eye(p)
        A1[0, 1] = 0.5
        A2 = np.eye(p)[::-1].copy()
        A2[0, 0] += 0.7
        A3 = np.eye(p) + np.triu(np.resize([0.3, -0.4, 0.2], (p, p)), 1)
        A3[:, 0] *= -2
        for nm, A in {"shear": A1, "swap": A2, "tri": A3}.items():
            T = I.copy()
            T[1:, 1:] = np.linalg.inv(A)
            yield Rel(nm, X @ A, y, o, moved(T, np.zeros(p + 1), P2=A.T @ P2 @ A, P1=np.ones(p) if alpha == 0 else P1), T)
    elif rel == "target":
        z = np.zeros(p + 1)
        if f in ("normal", "tweedie:0"):
            for k in (10.0, 0.05, -1.0):
                T = I * k
                out = boxed(1 / k, moved(T, z, P1=P1 * abs(k)))
                yield Rel(f"y*{k}", X, y * k, None if o is None else o * k, out, T, mu=lambda m, k=k: m * k, dev=k * k)
        elif f == "ghs":
            yield Rel("-y", X, -y, None if o is None else -o, boxed(-1.0, moved(-I, z)), -I, mu=lambda m: -m)
        elif f == "binomial" and lk == "logit":
            yield Rel("1-y", X, 1 - y, None if o is None else -o, boxed(-1.0, moved(-I, z)), -I, mu=lambda m: 1 - m)
        elif lk == "log" and fi:
            pw = ref.Fam(f).p
            for k in (10.0, 0.2):
                t0 = z.copy()
                t0[0] = np.log(k)
                yield Rel(f"y*{k}", X, y * k, o, moved(I, t0, alpha=times(alpha, k ** (2 - pw))),
                          I, t0, mu=lambda m, k=k: m * k, dev=k ** (2 - pw))
        elif lk == "log":  # without an intercept the offset takes the factor
            pw = ref.Fam(f).p
            k = 3.0
            yield Rel("y*3,offset", X, y * k, (np.zeros(n) if o is None else o) + np.log(k), moved(I, z, alpha=times(alpha, k ** (2 - pw))), I, mu=lambda m: m * k, dev=k ** (2 - pw))
    elif rel == "neutral" and (alpha is None or np.all(np.asarray(alpha) > 0)):
        for nm, col in {"zero-last": (0.0, p), "zero-first": (0.0, 0), "const-last": (1.5, p), "const-mid": (-40.0, 1)}.items():
            if col[0] and not fi:
                continue
            v, j = col
            X2 = np.insert(X, j, v, axis=1)
            T = np.insert(I, j + 1, 0.0, axis=0)
            P22 = np.insert(np.insert(P2, j, 0.0, axis=0), j, 0.0, axis=1)
            P22[j, j] = 0.7
            out = moved(T, np.zeros(p + 2), P1=np.insert(P1, j, 0.7), P2=P22)
            if lo is not None:
                out["lower_bounds"], out["upper_bounds"] = np.insert(lo, j, -0.3), np.insert(up, j, 0.4)
            yield Rel(nm, X2, y, o, out, T, free=False)
    elif rel == "drop" and base is not None:
        zero = np.abs(base) < 1e-14
        if zero.any() and not zero.all():
            keep = np.flatnonzero(~zero)
            T = I[np.concatenate(([0], keep + 1))]
            out = moved(T, np.zeros(len(T)), P1=P1[keep], P2=P2[np.ix_(keep, keep)])
            if lo is not None:
                out["lower_bounds"], out["upper_bounds"] = lo[keep], up[keep]
            yield Rel("inactive", X[:, keep], y, o, out, T, free=False)
        if kw["solver"] in ("auto", "irls-cd") and p > 2:  # and a column held at zero by its bounds
            j = 1
            keep = np.delete(np.arange(p), j)
            T = I[np.concatenate(([0], keep + 1))]
            out = moved(T, np.zeros(len(T)), P1=P1[keep], P2=P2[np.ix_(keep, keep)])
            L, U = (np.full(p, -np.inf), np.full(p, np.inf)) if lo is None else (lo.copy(), up.copy())
            L[j] = U[j] = 0.0
            if lo is not None:
                out["lower_bounds"], out["upper_bounds"] = lo[keep], up[keep]
            r = Rel("held", X[:, keep], y, o, out, T, free=False)
            r.first = dict(kw, lower_bounds=L, upper_bounds=U)
            yield r
    elif rel == "ones" and fi and not sp:
        X2 = np.column_stack([np.ones(n), X])
        out = dict(kw, fit_intercept=False, P1=np.append(0.0, P1), P2=np.pad(P2, ((1, 0), (1, 0))))
        if lo is not None:
            out["lower_bounds"], out["upper_bounds"] = np.append(-np.inf, lo), np.append(np.inf, up)
        T = np.vstack([np.zeros(p + 1), I])
        r = Rel("column", X2, y, o, out, T)
        r.ones = True
        yield r
    elif rel == "dup" and l1 == 0 and alpha > 0 and lo is None and np.all(np.diag(P2) > 0):
        j = p - 1  # a column given twice shares its coefficient
        X2 = np.column_stack([X, X[:, j]])
        T = np.vstack([I, I[j + 1]])
        T[j + 1] *= 0.5
        T[p + 1] *= 0.5
        P22 = np.pad(P2, ((0, 1), (0, 1)))
        if np.abs(P2[j]).sum() != P2[j, j]:
            return
        P22[j, j] = P22[p, p] = 2 * P2[j, j]
        out = dict(kw, P1=np.append(P1, P1[j]), P2=P22)
        out.pop("start_params", None)
        yield Rel("twice", X2, y, o, out, T, free=False)


def store(X, kind):
    if kind == "csc":
        return sps.csc_matrix(X)
    if kind == "frame":
        return pd.DataFrame(X, columns=[f"c{j}" for j in range(X.shape[1])])
    if kind == "F":
        return np.asfortranarray(X)
    return X


def same(ctx, sig, a, b, tol, what):
    a, b = np.asarray(a, float), np.asarray(b, float)
    ok = a.shape == b.shape and np.all(np.isfinite(a)) and np.abs(a - b).max() <= tol * (1 + np.abs(b).max())
    ctx.check(ok, sig, lambda: f"{what}: {a.ravel()[:8]} instead of {b.ravel()[:8]}")
    ctx.op()


def theta(est):
    return np.concatenate(([float(est.intercept_)], np.asarray(est.coef_, float)))


def mapped(r, th):
    return r.T @ th + r.t0


def gap(r, a, b, X, w):
    """Largest difference in units of the linear predictor."""
    t1, t2 = mapped(r, theta(a)), theta(b)
    ws = np.ones(len(r.X)) if w is None else w
    m = ws @ r.X / ws.sum()
    sd = np.sqrt(np.maximum(ws @ (r.X - m) ** 2 / ws.sum(), 0))
    big = 1 + np.abs(t2[1:] * sd).max(initial=0) + abs(t2[0] + m @ t2[1:])
    d = t2 - t1
    sdz = np.where(sd > 1e-9, sd, 1.0)
    return max(np.abs(d[1:] * sdz).max(initial=0), abs(d[0] + m @ d[1:])) / big, t1, t2


def run_fit(case, ctx):
    f, lk, t, rel = (case[k] for k in ("fam", "link", "table", "rel"))
    X, y = data.X(t), data.y(t, f)
    n, p = X.shape
    step = 1 if case["deep"] else 6 if rel in ("scale", "shift", "neutral") else 4
    k = -1
    conts = ("array", "csc", "frame", "F")
    for (fi, sp), (alpha, l1, P1, P2), wt, bd in itertools.product(ISC, penalties(f), ("none", "varied", "zeros"), (None, "pos", "box")):
        if not usable(f, lk, t, alpha, l1, P1, P2, fi):
            continue
        for s in solvers(l1 > 0 and alpha > 0, bd is not None):
            k += 1
            if k % step:
                continue
            if t == "scales" and s in ("lbfgs", "trust-constr") and not sp:
                continue
            w = data.weights(t, wt)
            o = data.offset(t, "varied") if k % 2 else None
            kw, tol = tols(s)
            kw.update(alpha=alpha, l1_ratio=l1, fit_intercept=fi, scale_predictors=sp, solver=s,
                      P1=np.array(fit.num_P1(fit.make_P1(P1, p), p), float), P2=np.array(fit.num_P2(fit.make_P2(P2, p), p), float))
            if bd:
                lo, up = np.full(p, -np.inf), np.full(p, np.inf)
                if bd == "pos":
                    lo[min(1, p - 1):] = 0.0
                else:
                    lo[0], up[0] = -0.2, 0.15
                    up[-1] = max(0.1, lo[-1])
                kw.update(lower_bounds=lo, upper_bounds=up)
            if k % 3 == 1 and f not in ("gamma",) and t != "scales" and s in ("auto", "irls-cd", "irls-ls"):
                kw["start_params"] = np.append(0.1, np.resize([0.05, -0.05], p))[0 if fi else 1:]
            a0, ok, _ = fit.fit(make(f, lk, **kw), X, y, sample_weight=w, offset=o)
            ctx.op()
            if not ok:
                ctx.skipped += 1
                continue
            eta_top = np.max(X @ a0.coef_ + a0.intercept_ + (0 if o is None else o))
            if lk == "cloglog" and eta_top > 2.5:
                ctx.skipped += 1
                continue
            for r in relations(rel, f, lk, X, y, o, kw, fi, sp, np.asarray(a0.coef_)):
                cont = conts[k % 4] if rel not in ("neutral",) else conts[(k % 2) * 3]
                a = a0
                if hasattr(r, "first"):
                    a, ok, _ = fit.fit(make(f, lk, **r.first), X, y, sample_weight=w, offset=o)
                    ctx.op()
                    if not ok:
                        ctx.skipped += 1
                        continue
                b, ok, _ = fit.fit(make(f, lk, **r.kw), store(r.X, cont), r.y, sample_weight=w, offset=r.o)
                ctx.op()
                ctx.state(f, lk, t, rel, r.name, k)
                what = f"{kw} w={wt} offset={o is not None} {cont} {rel}:{r.name}"
                if not ok:
                    # the search takes the same steps in both units
                    ctx.skipped += 1
                    ctx.note(f"unconverged:{rel}:{r.name}:{s}")
                    continue
                if hasattr(r, "ones"):
                    ctx.check(float(b.intercept_) == 0.0, "ones-intercept", what)
                e, t1, t2 = gap(r, a, b, X, w)
                lim = tol * (20 if r.name == "far" else 3)
                ctx.outcome(rel, r.name, np.round(t2, 3).tolist())
                ctx.trace()
                if not ctx.check(e <= lim, f"coef:{rel}:{r.name}:{s}", lambda: f"{what}: {t2} instead of {t1} (error {e:.2e})"):
                    continue
                if rel == "neutral" or r.name == "inactive":
                    j = np.flatnonzero(np.abs(r.T).sum(1) == 0)
                    ctx.check(np.all(np.abs(t2[j]) <= lim * 5), f"neutral-zero:{r.name}", lambda: f"{what}: {t2[j]}")
                mu = a.predict(X, offset=o)
                same(ctx, f"mu:{rel}:{r.name}", b.predict(store(r.X, cont), offset=r.o), r.mu(mu), 10 * lim, what)
                same(ctx, f"score:{rel}:{r.name}", b.score(store(r.X, cont), r.y, sample_weight=w, offset=r.o), a.score(X, y, sample_weight=w, offset=o), 10 * lim, what)
                if rel in ("scale", "mix", "shift") and s in ("auto", "irls-ls", "irls-cd") and "start_params" in kw and f != "ghs" and r.name not in ("far",):
                    # starts and data in the same units: the same search
                    if rel == "scale" and sp or rel == "shift" and sp:
                        ctx.check(abs(b.n_iter_ - a.n_iter_) <= 1, f"n-iter:{rel}", lambda: f"{what}: {b.n_iter_} iterations instead of {a.n_iter_}")
                if not r.free or t in ("sparse", "onehot") or s in ("lbfgs", "trust-constr") or np.linalg.cond(X - X.mean(0)) > 1e8:
                    continue
                J = r.T if fi else r.T[1:, 1:]
                if hasattr(r, "ones"):
                    J = np.eye(p + 1)
                elif J.shape[0] != J.shape[1]:
                    continue
                for ca in COVARGS[: 4 if case["deep"] or k % 5 == 0 else 1]:
                    v = a.covariance_matrix(X, y, sample_weight=w, offset=o, **ca)
                    v2 = b.covariance_matrix(store(r.X, cont), r.y, sample_weight=w, offset=r.o, **ca)
                    d = np.sqrt(np.diag(J @ v @ J.T))
                    ctx.op(2)
                    q = np.abs((v2 - J @ v @ J.T) / np.outer(d, d)).max()
                    ctx.check(q < 1e-4, f"cov:{rel}:{r.name}", lambda: f"{what} {ca}: relative error {q:.2e}")


def run_path(case, ctx):
    f, lk, t, rel = (case[k] for k in ("fam", "link", "table", "rel"))
    X, y = data.X(t), data.y(t, f)
    n, p = X.shape
    for (fi, sp), l1, wt, al, s in itertools.product(ISC, (0.5, 1.0), ("none", "varied"), ("auto", "given"), ("auto", "irls-cd")):
        if al == "auto" and (lk == "cloglog" or not fi or f == "ghs"):
            continue
        w = data.weights(t, wt)
        base = dict(alpha=[0.3, 0.1, 0.02] if al == "given" else None, l1_ratio=l1, P1=np.ones(p), P2=np.eye(p), fit_intercept=fi, scale_predictors=sp, solver=s)
        extra = dict(alpha_search=True, n_alphas=5, min_alpha_ratio=0.05, gradient_tol=1e-10, max_iter=3000)
        a, ok, _ = fit.fit(make(f, lk, **base, **extra), X, y, sample_weight=w)
        ctx.op()
        if not ok:
            ctx.skipped += 1
            continue
        for r in relations(rel, f, lk, X, y, None, dict(base, alpha=base["alpha"] if al == "given" else None), fi, sp) if not (rel == "target" and al == "auto") else targets(f, lk, X, y, base, fi, sp):
            b, ok, _ = fit.fit(make(f, lk, **r.kw, **extra), r.X, r.y, sample_weight=w, offset=r.o)
            ctx.op()
            ctx.state(f, lk, t, rel, r.name, fi, sp, l1, wt, al, s)
            if not ok:
                ctx.skipped += 1
                continue
            what = f"{base} w={wt} {rel}:{r.name}"
            compare_paths(ctx, r, a, b, what, f, "_alphas")


def targets(f, lk, X, y, base, fi, sp):
    """Target factors with an automatic grid: alphas move with the unit of the deviance."""
    if f in ("normal", "tweedie:0"):
        return  # moves the L1 part alone
    for r in relations("target", f, lk, X, y, None, dict(base, alpha=1.0), fi, sp):
        r.kw["alpha"] = None
        r.alpha = r.dev
        yield r


def compare_paths(ctx, r, a, b, what, f, attr, tol=1e-5):
    fac = getattr(r, "alpha", None)
    if fac is None:
        fac = r.dev if f not in ("normal", "tweedie:0", "ghs", "binomial") else 1.0
    same(ctx, "path-alphas", np.asarray(getattr(b, attr)) , np.asarray(getattr(a, attr)) * fac, 1e-7, what)
    ca, cb = np.asarray(a.coef_path_, float), np.asarray(b.coef_path_, float)
    ia, ib = np.asarray(a.intercept_path_, float), np.asarray(b.intercept_path_, float)
    ca, cb = ca.reshape(-1, ca.shape[-1]), cb.reshape(-1, cb.shape[-1])
    ia, ib = np.broadcast_to(ia.ravel(), len(ca)), np.broadcast_to(ib.ravel(), len(cb))
    if not ctx.check(len(ca) == len(cb), "path-length", what):
        return
    m, sd = r.X.mean(0), np.where(r.X.std(0) > 1e-9, r.X.std(0), 1.0)
    lim = tol * (20 if r.name == "far" else 1)
    for j in range(len(ca)):
        t1 = mapped(r, np.concatenate(([ia[j]], ca[j])))
        t2 = np.concatenate(([ib[j]], cb[j]))
        d = t2 - t1
        e = max(np.abs(d[1:] * sd).max(), abs(d[0] + m @ d[1:])) / (1 + np.abs(t2[1:] * sd).max() + abs(t2[0] + m @ t2[1:]))
        ctx.check(e <= lim, f"path:{r.name}", lambda: f"{what} point {j}: {t2} instead of {t1} ({e:.1e})")
    ctx.outcome("path", np.round(cb[-1], 3).tolist())
    ctx.trace()


def run_cv(case, ctx):
    f, lk, t, rel = (case[k] for k in ("fam", "link", "table", "rel"))
    X, y = data.X(t), data.y(t, f)
    n, p = X.shape
    for (fi, sp), l1, wt, al in itertools.product(ISC, (0.5, [0.3, 1.0]), ("none", "varied"), ("auto", "given")):
        if al == "auto" and (lk == "cloglog" or not fi or f == "ghs"):
            continue
        if f in ("normal", "tweedie:0") and rel == "target" and al == "auto":
            continue
        w = data.weights(t, wt)
        base = dict(alpha=[0.3, 0.1, 0.02] if al == "given" else 1.0, l1_ratio=l1, P1=np.ones(p), P2=np.eye(p), fit_intercept=fi, scale_predictors=sp, solver="auto")
        extra = dict(cv=3, n_alphas=4, min_alpha_ratio=0.05, gradient_tol=1e-10, max_iter=3000)

        def cvkw(k):
            k = dict(k)
            al_ = k.pop("alpha")
            return dict(k, alphas=[float(v) for v in np.ravel(al_)]) if al == "given" else k

        a, ok, _ = fit.fit(make(f, lk, est="cv", **cvkw(base), **extra), X, y, sample_weight=w)
        ctx.op()
        if not ok:
            ctx.skipped += 1
            continue
        for r in relations(rel, f, lk, X, y, None, base, fi, sp):
            b, ok, _ = fit.fit(make(f, lk, est="cv", **cvkw(r.kw), **extra), r.X, r.y, sample_weight=w, offset=r.o)
            ctx.op()
            ctx.state("cv", f, lk, t, rel, r.name, fi, sp, str(l1), wt, al)
            if not ok:
                ctx.skipped += 1
                continue
            what = f"cv {base} w={wt} {rel}:{r.name}"
            fac = r.dev if f not in ("normal", "tweedie:0", "ghs", "binomial") else 1.0
            same(ctx, "cv-alphas", b.alphas_, np.asarray(a.alphas_) * fac, 1e-6, what)
            same(ctx, "cv-dev", np.asarray(b.deviance_path_) / r.dev, a.deviance_path_, 1e-4, what)
            same(ctx, "cv-alpha", b.alpha_ / fac, a.alpha_, 1e-6, what)
            ctx.check(b.l1_ratio_ == a.l1_ratio_, "cv-l1", what)
            e, t1, t2 = gap(r, a, b, X, w)
            ctx.outcome("cv", np.round(t2, 3).tolist())
            ctx.check(e <= 2e-5 * (20 if r.name == "far" else 1), f"cv-coef:{r.name}", lambda: f"{what}: {t2} instead of {t1} ({e:.1e})")
            # fold paths map as well
            ca, cb = np.asarray(a.coef_path_), np.asarray(b.coef_path_)
            ia, ib = np.asarray(a.intercept_path_), np.asarray(b.intercept_path_)
            if ca.ndim == cb.ndim and ca.shape[:-1] == cb.shape[:-1]:
                la, lb = ca.reshape(-1, ca.shape[-1]), cb.reshape(-1, cb.shape[-1])
                th = np.column_stack([np.broadcast_to(ia.ravel(), len(la)), la]) @ r.T.T + r.t0
                sd = np.where(r.X.std(0) > 1e-9, r.X.std(0), 1.0)
                q = np.abs((th[:, 1:] - lb) * sd).max() / (1 + np.abs(lb * sd).max())
                ctx.check(q <= 5e-5 * (20 if r.name == "far" else 1), f"cv-paths:{r.name}", lambda: f"{what}: {q:.1e}")
            ctx.trace()


def run(case, ctx):
    globals()["run_" + case["block"]](case, ctx)
