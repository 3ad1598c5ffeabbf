"""C08: regularisation paths against separate fits, automatic grids, selection by alpha or index."""

import itertools
import warnings

import numpy as np
import pandas as pd

from .. import data, fit, g, ref

ID = "C08"
RULE = (
    "Every ordering of every sub-list of an alphabet of alphas (a warm-started history of solves; at most "
    "three long, plus fixed longer ones with repeats and zero) for a finite product of family, solver, "
    "penalty, scaling, bounds and tables: each point is compared with a separate fit. Every automatic grid of "
    "a product of options; every selection (by value or index, single or list) of every point. A state is "
    "one (configuration, history, point); a transition one real call."
)
ASSUMPTIONS = [
    "points are compared to 2e-5 (5e-4 for gradient-based solvers) after fitting to a tight tolerance",
    "tightness of the first automatic alpha is required where every feature is L1-penalised and the null model is exact",
]
FL = [("normal", "identity"), ("poisson", "log"), ("gamma", "log"), ("binomial", "logit"), ("tweedie:1.5", "log"),
      ("invgauss", "log"), ("negbin:1", "log"), ("ghs", "identity"), ("binomial", "cloglog"), ("normal", "log"), ("poisson", "identity")]
ISC = [(True, False), (True, True), (False, False)]
ALPH = [0.5, 0.1, 0.02]


def cases(tier):
    out = []
    fls = FL[:8] if tier == "quick" else FL[:10]
    for fl in fls:
        for solver, l1 in (("irls-cd", 1.0), ("irls-cd", 0.5), ("irls-cd", 0.0), ("irls-ls", 0.0), ("auto", 0.0), ("auto", 0.6), ("lbfgs", 0.0), ("trust-constr", 0.0)):
            for isc in ISC:
                if tier == "quick" and (solver == "trust-constr" and (isc != ISC[0] or fl[0] not in ("normal", "poisson", "binomial"))
                                        or solver == "lbfgs" and isc == ISC[1]):
                    continue
                out.append(dict(block="fit", tier=tier, fam=fl[0], link=fl[1], solver=solver, l1=l1, isc=list(isc)))
    for fl in FL:
        if fl[1] == "identity" and fl[0] == "poisson":
            continue
        for isc in ISC:
            out.append(dict(block="auto", fam=fl[0], link=fl[1], isc=list(isc)))
    for fl in FL[:4]:
        for frame in (False, True):
            out.append(dict(block="select", tier=tier, fam=fl[0], link=fl[1], frame=frame))
    out.append(dict(block="reject"))
    return out


def close(a, b, t):
    a, b = np.asarray(a, float), np.asarray(b, float)
    return a.shape == b.shape and bool(np.all(np.abs(a - b) <= t * (1 + np.abs(b))))


def mk(fl, **kw):
    kw.setdefault("gradient_tol", 1e-9)
    kw.setdefault("max_iter", 1000)
    return fit.estimator(fl[0], fl[1], **kw)


def histories(tier):
    for k in (1, 2, 3) if tier != "quick" else (2, 3):
        for h in itertools.permutations(ALPH, k):
            if k < 3 or tier != "quick" or h in ((0.5, 0.1, 0.02), (0.02, 0.5, 0.1)):
                yield h
    yield (0.5, 0.5, 0.1)
    yield (0.1, 0.5, 0.1, 0.02, 0.5)
    yield (1e3, 0.02)
    yield (0.02, 1e3, 0.02)


def run_fit(case, ctx):
    fl, solver, l1 = (case["fam"], case["link"]), case["solver"], case["l1"]
    icpt, scale = case["isc"]
    loose = solver in ("lbfgs", "trust-constr")
    tol, gt = (1e-3, 1e-7) if loose else (2e-5, 1e-9)
    variants = [("three", None, None, "plain"), ("corr" if fl[0] == "binomial" else "onehot", "varied", "varied", "P")]
    if solver == "irls-cd":
        variants += [("three", "varied", None, "bounds"), ("wide", None, None, "plain")]
    for kind, wk, ok_, var in variants:
        X, y = data.X(kind), np.asarray(data.y(kind, fl[0]), float)
        w, off = data.weights(kind, wk), data.offset(kind, ok_)
        p = X.shape[1]
        kw = dict(solver=solver, l1_ratio=l1, fit_intercept=icpt, scale_predictors=scale, gradient_tol=gt)
        if var == "P":
            kw.update(P2=data.P2_dense(p))
            if l1:
                kw.update(P1=data.vec1(p))
        if var == "bounds":
            kw.update(lower_bounds=np.full(p, -0.05), upper_bounds=np.resize([0.1, 0.02, 0.3], p))
        single = {}

        def one(a):
            if a not in single:
                ctx.op()
                e, ok, _ = fit.fit(mk(fl, alpha=a, **kw), X, y, sample_weight=w, offset=off)
                single[a] = (e.intercept_, e.coef_, ok)
            return single[a]

        for seq in histories(case["tier"]):
            if loose and len(seq) > 3:
                continue
            form = {0: list, 1: tuple, 2: np.array, 3: lambda s: pd.Series(s, index=np.arange(len(s)) + 3)}[len(seq) % 4 if len(seq) != 3 else (0 if seq[0] == 0.5 else 2)]
            e, ok, _ = fit.fit(mk(fl, alpha=form(seq), alpha_search=True, **kw), X, y, sample_weight=w, offset=off)
            ctx.op()
            if not ok:
                ctx.note("path not converged")
                continue
            cp, ip = np.asarray(e.coef_path_), np.asarray(e.intercept_path_)
            ctx.check(cp.shape == (len(seq), p) and ip.shape == (len(seq),), "shape", f"{cp.shape} {ip.shape}")
            for k, a in enumerate(seq):
                i1, c1, ok1 = one(a)
                ctx.state(case, kind, var, seq, k)
                if not ok1 or np.abs(c1).max() > 15:  # an unpenalised column that separates the classes
                    ctx.note("single not converged")
                    continue
                ctx.check(close(cp[k], c1, tol) and close(ip[k], i1, tol), f"point:{solver}:{var}",
                          lambda: f"{kind} alphas {seq}[{k}]: {ip[k]} {cp[k]} instead of {i1} {c1}")
                ctx.outcome(np.round(c1, 3).tolist())
            ctx.check(close(e.coef_, cp[-1], 0) and close(e.intercept_, ip[-1], 0), "last", "coef_ is the last point")
            ctx.check(list(np.asarray(e._alphas, float)) == list(seq), "alphas", f"{e._alphas}")
            ctx.trace()


def run_auto(case, ctx):
    fl = (case["fam"], case["link"])
    icpt, scale = case["isc"]
    F = ref.Fam(fl[0])
    for kind, wk, ok_ in (("three", None, None), ("three", "varied", None), ("onehot", "zeros", "varied"), ("wide", None, None), ("scales", "varied", "varied")):
        X, y = data.X(kind), np.asarray(data.y(kind, fl[0]), float)
        w, off = data.weights(kind, wk), data.offset(kind, ok_)
        n, p = X.shape
        for l1, P1 in ((1.0, None), (0.5, None), (0.25, "vec"), (1.0, "vec2"), (0.0, None)):
            P1v = {None: np.ones(p), "vec": data.vec1(p), "vec2": np.resize([3.0, 0.5, 1.0], p)}[P1]
            for opt in (dict(n_alphas=3), dict(n_alphas=4, min_alpha_ratio=0.1), dict(n_alphas=3, min_alpha=1e-3), dict(n_alphas=2, min_alpha=1e-3, min_alpha_ratio=0.5)):
                kw = dict(alpha_search=True, l1_ratio=l1, fit_intercept=icpt, scale_predictors=scale, **opt)
                if P1 is not None:
                    kw["P1"] = P1v
                mi = 0 if "min_alpha_ratio" not in opt or opt["n_alphas"] == 2 else 1000
                if mi == 0:  # only the grid is looked at
                    kw["max_iter"] = 1
                    kw["gradient_tol"] = 1e-3
                ctx.op()
                try:
                    e, ok, _ = fit.fit(mk(fl, **kw), X, y, sample_weight=w, offset=off)
                except ValueError as ex:
                    ctx.check("min_alpha would" in str(ex) and "min_alpha" in opt, "auto-raised", str(ex))
                    continue
                a = np.asarray(e._alphas, float)
                ctx.state(case, kind, wk, l1, P1, str(opt))
                ctx.outcome(np.round(np.log(a), 2).tolist())
                ctx.check(len(a) == opt["n_alphas"] == len(e.coef_path_), "grid-length", f"{len(a)}")
                ctx.check(np.all(np.diff(a) < 0), "grid-order", a)
                if len(a) > 2:
                    ctx.check(g.close(np.diff(np.log(a)), np.full(len(a) - 1, np.diff(np.log(a))[0]), 1e-6), "grid-spacing", a)
                if "min_alpha" in opt:
                    ctx.check(g.close(a[-1], opt["min_alpha"], 1e-9), "grid-min", a)
                else:
                    want = opt.get("min_alpha_ratio", 1e-6 if n >= p else 1e-2)
                    ctx.check(g.close(a[-1] / a[0], want, 1e-9), "grid-ratio", f"{a[-1] / a[0]} {want}")
                # the largest alpha: gradient of the null model
                ws = np.ones(n) if w is None else np.asarray(w, float)
                ws = ws / ws.sum()
                o = np.zeros(n) if off is None else off
                Gl, dG, H, dH, d2H = ref.link(fl[1])
                if not icpt:
                    b0 = 0.0
                elif off is None:
                    b0 = Gl(ws @ y)
                elif fl[1] == "identity" and F.p == 0:
                    b0 = ws @ (y - o)
                elif fl[1] == "log" and F.p == 1:
                    b0 = np.log((ws @ y) / (ws @ np.exp(o)))
                else:  # the null model is only approximated
                    b0 = None
                if b0 is not None:
                    eta = b0 + o
                    mu = H(eta)
                    gr = -(ws * (y - mu) / F.var(mu) * dH(eta)) @ X
                    s = np.sqrt(ws @ (X - ws @ X) ** 2)
                    s = np.where(s < 1e-7, 1.0, s) if scale else np.ones(p)
                    gr = np.abs(gr) / s
                    pv = l1 * P1v
                    if l1 > 0:  # for a pure ridge path the largest alpha is a heuristic
                        want = (gr[pv > 0] / pv[pv > 0]).max()
                        ctx.check(g.close(a[0], want, 1e-6), "grid-max", lambda: f"{kind} {l1} {P1}: {a[0]} instead of {want}")
                        if l1 > 0 and np.all(pv > 0) and mi and ok:
                            for fac, zero in ((1.0 + 1e-6, True), (0.97, False)):
                                ctx.op()
                                q, okq, _ = fit.fit(mk(fl, alpha=a[0] * fac, l1_ratio=l1, P1=P1v, fit_intercept=icpt, scale_predictors=scale), X, y, sample_weight=w, offset=off)
                                if okq:
                                    ctx.check(bool(np.all(np.abs(q.coef_) < 1e-7)) == zero, "grid-tight", lambda: f"{kind} alpha {fac} * {a[0]}: {q.coef_}")
                            ctx.check(np.all(np.abs(e.coef_path_[0]) < 1e-6), "grid-first-zero", e.coef_path_[0])
                ctx.trace()


def run_select(case, ctx):
    fl = (case["fam"], case["link"])
    X, y, off = np.array(data.X("three")), np.asarray(data.y("three", fl[0]), float), data.offset("three", "varied")
    wrap = (lambda Z: pd.DataFrame(Z, columns=["a", "b", "c"])) if case["frame"] else np.array
    L = g.link(fl[1])
    for seq in ([0.5, 0.1, 0.02], [0.02, 0.5], [0.3], [0.1, 0.1, 0.5], [1e-9, 2e-9, 1e-3], [0.1, 0.1 + 1e-9], [0.0, 0.1]):
        for icpt, scale in ISC:
            e, ok, _ = fit.fit(mk(fl, alpha=seq, alpha_search=True, fit_intercept=icpt, scale_predictors=scale, l1_ratio=0.2 if min(seq) > 0 else 0, gradient_tol=1e-6), wrap(X), y)
            cp, ip = e.coef_path_, np.asarray(e.intercept_path_)
            for o in (None, off):
                oo = 0 if o is None else o
                eta = [X @ cp[k] + ip[k] + oo for k in range(len(seq))]
                for meth, want in (("linear_predictor", eta), ("predict", [np.asarray(L.inverse(v)) for v in eta])):
                    f = getattr(e, meth)
                    for k, a in enumerate(seq):
                        ctx.op(3)
                        ctx.state(case, seq, icpt, scale, meth, k)
                        first = seq.index(a)
                        ctx.check(g.close(f(wrap(X), offset=o, alpha_index=k), want[k], 1e-9), f"index:{meth}", k)
                        if a != 0:
                            got = f(wrap(X), offset=o, alpha=a)
                            near = [j for j in range(len(seq)) if abs(seq[j] - a) <= 1e-5 * a]
                            ctx.check(any(g.close(got, want[j], 1e-9) for j in near), f"alpha:{meth}", f"{seq} {a}")
                            ctx.check(g.close(f(wrap(X), offset=o, alpha=np.float64(a)), got, 1e-12), f"alpha-numpy:{meth}", a)
                        ctx.check(g.close(f(wrap(X), offset=o, alpha_index=np.int64(k)), want[k], 1e-9), f"index-numpy:{meth}", k)
                        ctx.check(g.close(f(wrap(X), offset=o, alpha_index=k - len(seq)), want[k], 1e-9), f"index-negative:{meth}", k)
                    for r in (1, 2) if case["tier"] == "quick" else (1, 2, 3):
                        for ks in itertools.product(range(len(seq)), repeat=r):
                            ctx.op()
                            got = f(wrap(X), offset=o, alpha_index=list(ks))
                            ctx.check(g.close(got, np.stack([want[k] for k in ks], 1), 1e-9), f"index-list:{meth}", ks)
                            if len(set(seq)) == len(seq) and 0 not in seq and seq[-1] != 0.1 + 1e-9:
                                ctx.op()
                                got = f(wrap(X), offset=o, alpha=[seq[k] for k in ks])
                                ctx.check(g.close(got, np.stack([want[k] for k in ks], 1), 1e-9), f"alpha-list:{meth}", ks)
                    ctx.check(g.close(f(wrap(X), offset=o), want[-1], 1e-9), f"default-last:{meth}", seq)
                    for bad in (dict(alpha=0.777), dict(alpha=seq[0] * 1.01 + 1e-4), dict(alpha_index=len(seq)), dict(alpha_index=[0, len(seq)]),
                                dict(alpha=seq[0], alpha_index=0), dict(alpha=[seq[0], 0.777]), dict(alpha=-1.0)):
                        ctx.op()
                        try:
                            f(wrap(X), offset=o, **bad)
                        except (IndexError, ValueError):
                            ctx.check(True, "bad")
                        else:
                            ctx.check(False, f"accepted:{meth}:{sorted(bad)}", f"{seq} {bad}")
            ctx.check(g.close(e.score(wrap(X), y), _score(fl, y, np.asarray(L.inverse(X @ cp[-1] + ip[-1]))), 1e-8), "score-last", seq)
            ctx.outcome(seq, icpt, scale)
            ctx.trace()


def _score(fl, y, mu):
    F = ref.Fam(fl[0])
    return 1 - F.udev(y, mu).sum() / F.udev(y, np.full(len(y), y.mean())).sum()


def run_reject(case, ctx):
    X, y = data.X("three"), np.asarray(data.y("three", "poisson"), float)
    for kw, why in ((dict(alpha_search=True, alpha=0.1), "scalar alpha"), (dict(alpha=[0.1, 0.2]), "list without search"),
                    (dict(alpha_search=True, alpha=[0.1, -0.1]), "negative"), (dict(alpha_search=True, n_alphas=0), "no alphas"),
                    (dict(alpha_search=True, min_alpha_ratio=0.0), "ratio 0"),
                    (dict(alpha_search=True, min_alpha=0.0), "min alpha 0"), (dict(alpha_search=True, min_alpha=1e9), "min alpha too large"),
                    (dict(alpha_search=True, alpha=[]), "empty")):
        ctx.op()
        ctx.state(why)
        try:
            mk(("poisson", "log"), **kw).fit(X, y)
        except (ValueError, TypeError):
            ctx.check(True, why)
        else:
            ctx.check(False, f"accepted:{why}", kw)
        ctx.trace()
    e = mk(("poisson", "log"), alpha=0.1).fit(X, y)
    for kw in (dict(alpha=0.1), dict(alpha_index=0), dict(alpha=[0.1])):
        for f in (e.predict, e.linear_predictor):
            ctx.op()
            try:
                f(X, **kw)
            except ValueError:
                ctx.check(True, "")
            else:
                ctx.check(False, "selected-without-path", kw)
            ctx.trace()


def run(case, ctx):
    globals()["run_" + case["block"]](case, ctx)
