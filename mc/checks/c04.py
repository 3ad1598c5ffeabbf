"""C04: log-likelihoods against textbook densities, dispersion estimates against
their definition, information criteria against their definition over every
order of queries and refits."""

import itertools

import numpy as np
import pandas as pd

from .. import data, fit, g, ref

ID = "C04"
RULE = (
    "Every (family, y, mu, dispersion, precision) of finite alphabets against textbook densities "
    "(scipy, and the compound Poisson-gamma mixture summed directly); every (family, method, degrees "
    "of freedom, weights, container) for the dispersion; every sequence of up to three operations "
    "{fit on data A/B, aic, aicc, bic} on one estimator against the definition. A state is one "
    "argument tuple or history, a transition one call."
)
ASSUMPTIONS = ["arguments outside the stated alphabets are not covered"]

DENS = ["normal", "poisson", "gamma", "invgauss", "binomial", "tweedie:0", "tweedie:1", "tweedie:2",
        "tweedie:3", "tweedie:1.5", "tweedie:1.01", "tweedie:1.1", "tweedie:1.25", "tweedie:1.7",
        "tweedie:1.9", "tweedie:1.99", "negbin:1", "negbin:0.3", "negbin:2.5", "negbin:0.01"]
NODENS = ["ghs", "tweedie:2.5", "tweedie:4", "tweedie:-1"]
PHI = [0.01, 0.1, 0.5, 1.0, 1.7, 5.0, 30.0]


def ys(fam):
    k = ref.Fam(fam)
    if k.kind == "binomial":
        return [0.0, 1.0, 0.25, 0.5]
    if k.kind in ("negbin", "poisson") or k.p == 1:
        return [0.0, 1.0, 2.0, 7.0, 40.0, 1000.0]
    if k.p == 0:
        return [-3.0, 0.0, 0.5, 20.0]
    base = [1e-3, 0.02, 0.3, 1.0, 2.5, 17.0, 300.0, 5000.0]
    return ([0.0] if k.p < 2 else []) + base


def mus(fam):
    k = ref.Fam(fam)
    if k.kind == "binomial":
        return [0.001, 0.3, 0.5, 0.97, 1 - 1e-6]
    if k.p == 0:
        return [-2.0, 0.0, 0.4, 18.0]
    return [0.01, 0.4, 1.0, 3.0, 25.0, 800.0]


def cases(tier):
    deep = tier == "thorough"
    out = [dict(block="ll", fam=f, phi=p) for f in DENS
           for p in (PHI + [0.003, 0.2, 3.0, 100.0] if deep else PHI)]
    out += [dict(block="none", fam=f) for f in NODENS]
    out += [dict(block="disp", fam=f) for f in DENS + NODENS]
    for f, lk in [("normal", "identity"), ("poisson", "log"), ("binomial", "logit"), ("gamma", "log"),
                  ("tweedie:1.5", "log"), ("negbin:1", "log"), ("invgauss", "log"), ("tweedie:1.2", "log"),
                  ("tweedie:0", "identity"), ("tweedie:2", "log"), ("tweedie:3", "log"), ("binomial", "cloglog")]:
        for t in ("one", "three", "corr", "wide") + (("sparse", "onehot") if deep else ()):
            out.append(dict(block="ic", fam=f, link=lk, table=t))
    for f, lk in [("normal", "identity"), ("poisson", "log"), ("tweedie:1.5", "log")]:
        out.append(dict(block="hist", fam=f, link=lk, depth=5 if deep else 4))
    return out


def run_ll(case, ctx):
    fam, phi = case["fam"], case["phi"]
    F, R = g.family(fam), ref.Fam(fam)
    Y, M = map(np.array, zip(*itertools.product(ys(fam), mus(fam))))
    Y, M = Y.copy(), M.copy()
    want = np.asarray(R.loglik(Y, M, phi), float)
    usesphi = R.kind not in ("poisson", "negbin", "binomial") and R.p != 1
    got = np.array([F.log_likelihood(Y[i:i + 1].copy(), M[i:i + 1].copy(), dispersion=phi) for i in range(len(Y))])
    ctx.op(len(Y))
    for i in range(len(Y)):
        ctx.state(fam, phi, Y[i], M[i])
    ctx.outcome(fam, round(float(np.nansum(got)), 4))
    # cancellation of the normalisation is relative to its own size
    scale = np.abs(want) + 1 + (Y / phi if usesphi else 0 * Y) * 1e-2
    ok = np.abs(got - want) <= 2e-9 * scale
    i = int(np.argmax(np.where(np.isfinite(got), np.abs(got - want) / scale, np.inf)))
    ctx.check(ok.all(), f"density:{fam}", lambda: f"{fam} phi={phi} y={Y[i]} mu={M[i]} got {got[i]} want {want[i]}")
    ctx.trace()
    # sums over vectors, weights and containers
    n = len(Y)
    W = np.resize([1.0, 0.0, 2.5, 0.3, 7.0], n)
    for wname, w in (("none", None), ("w", W), ("list", list(W)), ("series", pd.Series(W, index=np.arange(n)[::-1])),
                     ("int", np.resize([1, 2, 0, 3], n))):
        for cont in ("array", "list", "series", "strided", "readonly", "f32"):
            y, m = Y, M
            if cont == "list":
                y, m = list(Y), list(M)
            elif cont == "series":
                y, m = pd.Series(Y, index=np.arange(n) + 5), pd.Series(M)
            elif cont == "strided":
                y, m = np.repeat(Y, 2)[::2], np.repeat(M, 3)[::3]
            elif cont == "readonly":
                y, m = Y.copy(), M.copy()
                y.flags.writeable = m.flags.writeable = False
            elif cont == "f32":
                # with extreme dispersions single precision cannot hold the normalisation
                if phi < 0.4 or phi > 2:
                    continue
                sel = (Y < 50) & (M < 50) & (M > 0.1) & (M < (0.999 if fam == "binomial" else 99))
                y, m = Y[sel].astype("f"), M[sel].astype("f")
            ww = w
            if cont == "f32" and w is not None:
                ww = np.asarray(w, "f")[sel]
            ctx.op()
            val = F.log_likelihood(y, m, sample_weight=ww, dispersion=phi)
            yy, mm = np.asarray(y, float), np.asarray(m, float)
            wv = np.ones(len(yy)) if ww is None else np.asarray(ww, float)
            ref_l = want if cont != "f32" else np.asarray(R.loglik(yy, mm, phi), float)
            exp = float(np.sum(wv * ref_l))
            size = float(np.sum(wv * (np.abs(ref_l) + 1))) + 1
            tol = 1e-8 if cont != "f32" else 2e-4
            sc = size + (float(np.sum(wv * yy)) / phi * 1e-2 if usesphi else 0)
            ctx.check(abs(val - exp) <= tol * sc, f"loglik:{fam}:{cont}:{wname}", lambda: f"{fam} phi={phi} got {val} want {exp}")
            ctx.state(fam, phi, cont, wname)
            ctx.trace()
    if usesphi:  # dispersion=None means the estimate
        sel = (Y < 50) & (M > 0.1) & (M < 50)
        for w in (None, W[sel]):
            d = F.dispersion(Y[sel], M[sel], sample_weight=w)
            a = F.log_likelihood(Y[sel], M[sel], sample_weight=w)
            b = F.log_likelihood(Y[sel], M[sel], sample_weight=w, dispersion=d)
            ctx.op(2)
            ctx.check(g.close(a, b, 1e-12), f"loglik-default:{fam}", f"{a} {b}")


def run_none(case, ctx):
    F = g.family(case["fam"])
    ctx.state(case["fam"])
    try:
        v = F.log_likelihood(np.array([1.0, 2.0]), np.array([1.5, 1.0]), dispersion=1.0)
    except (NotImplementedError, AttributeError) as e:
        ctx.outcome(type(e).__name__)
        ctx.check(True, "none")
    else:
        ctx.check(False, f"density-of-none:{case['fam']}", v)
    ctx.op()
    ctx.trace()


def run_disp(case, ctx):
    fam = case["fam"]
    F, R = g.family(fam), ref.Fam(fam)
    base = [0.2, 1.0, 2.5, 0.7, 3.0, 1.3, 0.4, 5.0]
    y = np.array(base)
    m = np.array([0.5, 0.8, 2.0, 1.0, 2.5, 1.0, 0.9, 3.5])
    if R.kind == "binomial":
        y, m = np.array([0, 1, 1, 0, 1, 0.25, 0, 1.0]), np.array([0.2, 0.7, 0.5, 0.4, 0.9, 0.3, 0.1, 0.6])
    elif R.kind in ("poisson", "negbin") or R.p == 1:
        y = np.round(y)
    elif R.kind == "ghs" or (R.p is not None and R.p <= 0):
        y = y - 1
    n = len(y)
    ws = {"none": None, "ones": np.ones(n), "w": np.array([1, 0, 2, 0.5, 3, 1, 0.25, 4.0]),
          "int": np.arange(1, n + 1), "list": [2.0] * n, "series": pd.Series(np.arange(1.0, n + 1), index=np.arange(n)[::-1])}
    for method, ddof, (wn, w), dt in itertools.product((None, "pearson", "deviance"), (None, 0, 1, 3), ws.items(), ("d", "f", "list")):
        kw = {}
        if method:
            kw["method"] = method
        if ddof is not None:
            kw["ddof"] = ddof
        if dt == "list":
            yy, mm = list(y), list(m)
        else:
            yy, mm = y.astype(dt), m.astype(dt)
        if dt == "f" and isinstance(w, np.ndarray):
            w = w.astype("f")
        ctx.op()
        ctx.state(fam, method, ddof, wn, dt)
        got = float(F.dispersion(yy, mm, sample_weight=w, **kw))
        wv = np.ones(n) if w is None else np.asarray(w, float)
        if method == "deviance":
            num = float(np.sum(wv * R.udev(y, m)))
        else:
            num = float(np.sum(wv * (y - m) ** 2 / R.var(m)))
        want = num / (wv.sum() - (1 if ddof is None else ddof))
        ctx.outcome(fam, round(got, 6))
        ctx.check(abs(got - want) <= (1e-10 if dt != "f" else 1e-5) * (abs(want) + 1), f"dispersion:{fam}:{method}",
                  lambda: f"{fam} {method} ddof={ddof} w={wn} {dt}: got {got} want {want}")
        ctx.trace()
    for bad in ("nope", "Pearson"):
        try:
            F.dispersion(y, m, method=bad)
        except NotImplementedError:
            ctx.check(True, "method")
        else:
            ctx.check(False, "dispersion-method-accepted", bad)


def criteria(fam, est, lk, X, y, w, coef, icpt):
    R = ref.Fam(fam)
    h = ref.link(lk)[2]
    mu = h(X @ coef + icpt)
    wv = np.ones(len(y)) if w is None else np.asarray(w, float)
    phi = float(np.sum(wv * (y - mu) ** 2 / R.var(mu)) / (wv.sum() - 1))
    ll = float(np.sum(wv * np.asarray(R.loglik(y, mu, phi))))
    k = int(np.sum(coef != 0)) + int(est.fit_intercept)
    n = len(y)
    return dict(aic=-2 * ll + 2 * k, bic=-2 * ll + np.log(n) * k,
                aicc=(-2 * ll + 2 * k + 2 * k * (k + 1) / (n - k - 1)) if n > k + 1 else None)


def same(a, b):
    if a is None or b is None:
        return a is None and b is None
    return abs(a - b) <= 1e-7 * (abs(b) + 1)


def ask(ctx, est, q, X, y, w, want, sig, key):
    ctx.op()
    kw = {} if w is None else dict(sample_weight=w)
    try:
        got = getattr(est, q)(X, y, **kw)
    except ValueError:  # documented for aicc with too few observations
        got = None
        if q != "aicc":
            raise
    ctx.outcome(None if got is None else round(float(got), 4))
    ctx.check(same(got, want[q]), sig, lambda: f"{key}: {q} got {got} want {want[q]}")


def run_ic(case, ctx):
    f, lk, t = case["fam"], case["link"], case["table"]
    X, y = data.X(t), np.asarray(data.y(t, f), float)
    for wn, ic, pen, order in itertools.product(
            ("none", "varied", "zeros"), (True, False),
            ("none", "lasso", "enet", "path", "grid", "grid0"),
            list(itertools.permutations(("aic", "aicc", "bic")))):
        if pen == "none" and t not in ("one", "three", "corr"):
            continue
        w = data.weights(t, wn)
        kw = dict(fit_intercept=ic, max_iter=1000)
        if pen == "path":
            est = fit.estimator(f, lk, alpha_search=True, n_alphas=4, l1_ratio=1.0, **kw)
        elif pen.startswith("grid"):
            grid = np.array([0.5, 0.1, 0.02]) if wn == "varied" else [0.5, 0.1, 0.02] if pen == "grid" else (0.5, 0.1, 0.0)
            est = fit.estimator(f, lk, alpha_search=True, alpha=grid, l1_ratio=0.5 if pen == "grid" else 0, **kw)
            if pen == "grid0" and t not in ("one", "three", "corr"):
                continue
        else:
            a, l1 = dict(none=(0, 0), lasso=(0.1, 1.0), enet=(0.1, 0.5))[pen]
            est = fit.estimator(f, lk, alpha=a, l1_ratio=l1, **kw)
        est, ok, bad = fit.fit(est, X, y, sample_weight=w)
        ctx.op()
        key = (f, lk, t, wn, ic, pen, order)
        ctx.state(*key)
        want = criteria(f, est, lk, X, y, w, est.coef_, float(est.intercept_))
        for q in order:
            ask(ctx, est, q, X, y, w, want, f"criterion:{q}:{pen}", key)
        if order[0] == "aic":  # a different number of rows cannot be the training data
            e2, _, _ = fit.fit(fit.estimator(f, lk, alpha=0.1, l1_ratio=1.0, **kw), X, y, sample_weight=w)
            for q in order:
                try:
                    getattr(e2, q)(X[:-1], y[:-1])
                except ValueError:
                    ctx.check(True, "rows")
                else:
                    ctx.check(False, "criterion-other-data-accepted", key)
        ctx.trace()


def run_hist(case, ctx):
    """Every history over {fit A, fit B, fit A weighted, aic, aicc, bic} up to a depth."""
    f, lk = case["fam"], case["link"]
    X = data.X("three")
    y = np.asarray(data.y("three", f), float)
    XB, yB = X[:, ::-1].copy()[::-1].copy(), np.resize(y[[2, 0, 3, 1]], len(y))
    sets = dict(A=(X, y, None), B=(XB, yB, None), W=(X, y, data.weights("three", "varied")))
    ops = list(sets) + ["aic", "aicc", "bic", "p"]
    cache = {}
    n = 0
    for depth in range(2, case["depth"] + 1):
        for seq in itertools.product(ops, repeat=depth):
            if seq[0] not in sets or seq[-1] in sets:
                continue
            if not any(s in sets for s in seq[1:]) and depth > 2:
                continue
            est = fit.estimator(f, lk, alpha=0.1, l1_ratio=1.0)
            cur = None
            for i, s in enumerate(seq):
                if s in sets:
                    cur = s
                    fit.fit(est, sets[s][0], sets[s][1], sample_weight=sets[s][2])
                    ctx.op()
                    if s not in cache:
                        cache[s] = criteria(f, est, lk, *sets[s][:2], sets[s][2], est.coef_, float(est.intercept_))
                elif s == "p":
                    est.predict(X[:3])
                    est.score(X, y)
                    ctx.op(2)
                else:
                    ask(ctx, est, s, sets[cur][0], sets[cur][1], sets[cur][2], cache[cur], "criterion-history", seq)
                ctx.state(f, seq[: i + 1])
            ctx.trace()
            n += 1


def run(case, ctx):
    globals()["run_" + case["block"]](case, ctx)
