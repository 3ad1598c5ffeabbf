"""C01: a fit that ends without a convergence warning satisfies the optimality
conditions of the documented objective (recomputed here from the textbook), for
every combination of a finite product of options; on the (well-posed) problems
of the product the fit also has to converge."""

import itertools

import numpy as np
import scipy.sparse as sps
import tabmat as tm

from .. import data, fit, ref

ID = "C01"
RULE = (
    "Complete products (family/link x table x solver x penalty form x alpha x l1_ratio x "
    "intercept x weights) and (family/link x table x solver x scaling x offset x weights x "
    "storage x Hessian approximation x selection x tolerance x start); every fit is compared "
    "with the optimality conditions computed from textbook formulas; a state is one "
    "configuration, a transition one fit."
)
ASSUMPTIONS = ["tables, targets and option values outside the stated alphabets are not covered"]

# (family, link, needs an intercept for an admissible start)
FL = [
    ("normal", "identity"), ("normal", "log"), ("poisson", "log"), ("gamma", "log"),
    ("invgauss", "log"), ("binomial", "logit"), ("binomial", "cloglog"),
    ("tweedie:1.5", "log"), ("tweedie:0", "identity"), ("tweedie:1", "log"), ("tweedie:2", "log"),
    ("tweedie:3", "log"), ("tweedie:1.2", "log"), ("tweedie:2.5", "log"),
    ("negbin:1", "log"), ("negbin:0.4", "log"), ("ghs", "identity"),
]
# links whose inverse does not cover every linear predictor: intercept, tame data
FL_EDGE = [
    ("poisson", "identity"), ("gamma", "identity"), ("tweedie:1.5", "identity"),
    ("tweedie:1.5", "tweedie:1.5"), ("poisson", "tweedie:1.5"), ("gamma", "tweedie:2"),
    ("gamma", "tweedie:3"), ("invgauss", "tweedie:3"),
]
CORE = [("normal", "identity"), ("poisson", "log"), ("binomial", "logit"), ("gamma", "log"),
        ("tweedie:1.5", "log")]

ALPHA0_OK = {"one", "three", "scales", "corr", "tall"}

# name -> (alpha, l1_ratio, P1, P2)
PEN = {
    "none": (0, 0, "identity", "identity"),
    "none-l1r": (0, 0.5, "vec", "dense"),
    "ridge.05": (0.05, 0, "identity", "identity"),
    "ridge.5": (0.5, 0, "identity", None),
    "ridge5": (5.0, 0, None, "identity"),
    "vec": (0.5, 0, "identity", "vec"),
    "dense": (0.5, 0, "identity", "dense"),
    "asym": (0.3, 0, "vec", "asym"),
    "diff": (0.5, 0, "identity", "diff"),
    "csc": (0.5, 0, "identity", "csc"),
    "csr": (0.2, 0, "identity", "csr"),
    "diagcsc": (0.5, 0, "identity", "diagcsc"),
    "lasso.02": (0.02, 1, "identity", "identity"),
    "lasso.2": (0.2, 1, None, None),
    "lassovec": (0.1, 1, "vec", "identity"),
    "lassolist": (0.1, 1, "list", "identity"),
    "enet": (0.1, 0.5, "identity", "identity"),
    "enetvec": (0.1, 0.4, "vec", "vec"),
    "enetdense": (0.1, 0.5, "vec", "dense"),
    "enetasym": (0.2, 0.3, "identity", "asym"),
    "enetcsc": (0.1, 0.7, "vec", "csc"),
    "enetcsr": (0.1, 0.7, "identity", "csr"),
    "enetdiff": (0.3, 0.2, "zero", "diff"),
}
SINGULAR = {"vec", "diff", "enetvec", "enetdiff", "lassovec", "lassolist", "none", "none-l1r"}


def solvers_for(f, lk, pen):
    a, l1, P1, _ = PEN[pen]
    out = ["irls-cd", "auto"]
    if a == 0 or l1 == 0:
        out += ["irls-ls", "lbfgs", "trust-constr"]
        if f == "normal" and lk == "identity":
            out.append("closed-form")
    return out


def cases(tier):
    deep = tier == "thorough"
    out = []
    for f, lk in FL:
        tabs = ["one", "three", "sparse", "corr", "wide"]
        if deep or (f, lk) in CORE:
            tabs += ["onehot", "const", "scales"]
        for t in tabs:
            for ic in (True, False):
                for w in ("none", "varied") if not deep else ("none", "varied", "zeros", "big"):
                    out.append(dict(block="pen", fam=f, link=lk, table=t, icpt=ic, w=w))
        for t in ["three", "scales", "sparse", "onehot", "tall"]:
            for sc, ic in ((False, True), (True, True), (False, False)):
                out.append(dict(block="opt", fam=f, link=lk, table=t, icpt=ic, scale=sc,
                                deep=deep))
    for f, lk in FL_EDGE:
        for t in ["one", "three", "scales"]:
            for w in ("none", "varied"):
                out.append(dict(block="pen", fam=f, link=lk, table=t, icpt=True, w=w))
    for f, lk in (("normal", "identity"), ("ghs", "identity"), ("tweedie:0", "identity")):
        out.append(dict(block="row", fam=f, link=lk))
    for f in ("normal", "tweedie:0"):
        for c in SCREEN_C:
            for ic in (True, False):
                out.append(dict(block="screen", fam=f, c=c, icpt=ic))
    for f, lk in (("normal", "identity"), ("tweedie:0", "identity"), ("poisson", "log")):
        for d in range(16):
            for ic in (True, False) if deep or f == "normal" else (True,):
                out.append(dict(block="matrix", fam=f, link=lk, diag=d, icpt=ic, deep=deep))
    return out


PAIRS = list(itertools.combinations(range(4), 2))


def stored_zeros(A):
    """The diagonal and one more entry are stored even where they are zero."""
    r, c = np.nonzero(A + np.eye(len(A)) + np.eye(len(A))[::-1] * (np.arange(len(A)) == 1))
    return sps.csr_matrix((A[r, c], (r, c)), A.shape)


FORMATS = {"dense": lambda A: A, "csc": sps.csc_matrix, "csr": sps.csr_matrix, "coo": sps.coo_matrix, "dia": sps.dia_matrix,
           "csr-array": lambda A: sps.csr_array(A), "zeros": stored_zeros, "asym": lambda A: sps.csr_matrix(2 * np.triu(A, 1) + np.diag(np.diag(A)))}


def matrix(case, ctx):
    """Every pattern of entries of a penalty matrix: ridges and differences of coefficients."""
    f, lk, d, ic = case["fam"], case["link"], case["diag"], case["icpt"]
    X = data.X("tall")[:, :4] if data.X("tall").shape[1] >= 4 else np.c_[data.X("tall"), np.resize([1.0, -0.5, 0.25, 2.0, 0.0, -1.0, 0.7], len(data.X("tall")))]
    y = np.asarray(data.y("tall", f), float)
    k = -1
    for m in range(64):
        P = np.diag([0.5 + 0.25 * j if d >> j & 1 else 0.0 for j in range(4)])
        for e, (i, j) in enumerate(PAIRS):
            if m >> e & 1:
                P[[i, j], [i, j]] += 0.6 + 0.1 * e
                P[[i, j], [j, i]] -= 0.6 + 0.1 * e
        for fmt, (solver, l1) in itertools.product(FORMATS, (("auto", 0.0), ("irls-ls", 0.0), ("irls-cd", 0.4), ("lbfgs", 0.0))):
            k += 1
            if fmt == "asym" and not P.any():
                continue
            # every pattern by the automatic solver, the others in turn
            if not (f == "normal" and solver == "auto" and fmt in ("dense", "csc", "csr")) and k % (3 if case["deep"] else 11):
                continue
            est = fit.estimator(f, lk, alpha=0.7, l1_ratio=l1, P2=FORMATS[fmt](P), fit_intercept=ic, solver=solver, gradient_tol=1e-8, max_iter=500)
            ctx.op()
            est, ok, bad = fit.fit(est, X, y)
            key = (f, lk, d, ic, m, fmt, solver, l1)
            ctx.state("matrix", *key)
            ctx.trace()
            coef = np.asarray(est.coef_, float)
            ctx.outcome(np.round(coef, 3).tolist())
            if not ok:
                ctx.check(solver == "lbfgs", f"matrix-converge:{solver}", lambda: f"{key}: {bad}")
                ctx.skipped += 1
                continue
            res, sc, _ = fit.kkt(f, lk, X, y, None, None, coef, float(est.intercept_), alpha=0.7, l1_ratio=l1, P1="identity", P2=P, fit_intercept=ic)
            r = float(np.max(np.abs(res) / sc))
            ctx.check(r <= (1e-5 if solver == "lbfgs" else 1e-6), f"matrix:{fmt}:{solver}", lambda: f"{key}: residual {res} coef {coef}")


# mixing of the third column: it is correlated with the two that enter first
SCREEN_C = [(c1, c2) for c1 in (0.0, 0.5, 0.7, -0.7) for c2 in (0.0, 0.5, -0.5, 0.7)
            if c1 * c1 + c2 * c2 < 1]


def screen(case, ctx):
    """Lasso on a factorial design: the working set of the search leaves columns out whose
    gradients are small at the start, some of which have to enter later."""
    f, ic, (c1, c2) = case["fam"], case["icpt"], case["c"]
    q = np.array(list(itertools.product((-1.0, 1.0), repeat=3)))
    X = np.c_[q[:, 0], c1 * q[:, 0] + c2 * q[:, 1] + np.sqrt(1 - c1 * c1 - c2 * c2) * q[:, 2], q[:, 1]]
    for b1, b2, b3, l1 in itertools.product((0.0, 1.5, -1.5, 0.8), (0.0, 1.5, -1.5, 3.0),
                                            (-18.0, -8.0, 0.0, 8.0, 18.0), (1.0, 0.5)):
        y = 3.0 + q @ [b1, b2, b3]
        for kw in ({}, dict(P1=[1.0, 0.5, 2.0])) if b1 == 1.5 else ({},):
            est = fit.estimator(f, "identity", alpha=1.0, l1_ratio=l1, fit_intercept=ic,
                                solver="irls-cd", gradient_tol=1e-8, max_iter=500, **kw)
            ctx.op()
            est, ok, bad = fit.fit(est, X, y)
            key = (f, c1, c2, ic, b1, b2, b3, l1, tuple(kw))
            ctx.state("screen", *key)
            ctx.trace()
            coef = np.asarray(est.coef_, float)
            ctx.outcome(np.round(coef, 3).tolist())
            ctx.check(ok, f"screen-converge:{f}", lambda: f"{key}: {bad}")
            if ok:
                res, sc, _ = fit.kkt(f, "identity", X, y, None, None, coef, float(est.intercept_),
                                     alpha=1.0, l1_ratio=l1, P1=kw.get("P1", "identity"),
                                     P2="identity", fit_intercept=ic, scale=False)
                r = float(np.max(np.abs(res) / sc))
                ctx.check(r <= limit("irls-cd", 1e-8), f"screen-kkt:{f}",
                          lambda: f"{key}: residual {res} coef {coef}")


def storage(X, st):
    if st == "F":
        return np.asfortranarray(X)
    if st == "C":
        return np.ascontiguousarray(X)
    if st == "csc":
        return sps.csc_matrix(X)
    if st == "csr":
        return sps.csr_matrix(X)
    if st == "split":
        p = X.shape[1]
        ev, od = np.arange(0, p, 2), np.arange(1, p, 2)
        if not len(od):
            return tm.DenseMatrix(np.asfortranarray(X))
        return tm.SplitMatrix([tm.DenseMatrix(np.asfortranarray(X[:, ev])),
                               tm.SparseMatrix(sps.csc_matrix(X[:, od]))], [ev, od])
    if st == "cat":  # table onehot: first three columns are one categorical
        c = X[:, :3].argmax(1)
        return tm.SplitMatrix([tm.CategoricalMatrix(np.array(c), categories=np.arange(3)),
                               tm.DenseMatrix(np.asfortranarray(X[:, 3:]))])
    raise KeyError(st)


def limit(solver, tol):
    if solver == "closed-form":
        return 1e-8
    if solver == "lbfgs":
        return max(3 * tol, 3e-5)
    if solver == "trust-constr":
        return 2e-4
    return 2 * tol + 1e-8


def one(ctx, f, lk, table, pen, solver, icpt, w, *, scale=False, off="none", st="F", hess=0.0,
        sel="cyclic", tol=1e-7, must=True):
    a, l1, P1n, P2n = PEN[pen]
    X = data.X(table)
    p = X.shape[1]
    y = np.asarray(data.y(table, f), float)
    ww, oo = data.weights(table, w), data.offset(table, off)
    est = fit.estimator(
        f, lk, alpha=a, l1_ratio=l1, P1=fit.make_P1(P1n, p), P2=fit.make_P2(P2n, p),
        solver=solver, fit_intercept=icpt, scale_predictors=scale, max_iter=3000 if must else 150,
        gradient_tol=tol, hessian_approx=hess, selection=sel,
        random_state=0 if sel == "random" else None)
    ctx.op()
    try:
        est, ok, bad = fit.fit(est, storage(X, st), y, sample_weight=ww, offset=oo)
    except (ValueError, np.linalg.LinAlgError) as e:  # left the domain of the link
        if must:
            raise
        ctx.note("edge: " + type(e).__name__)
        ctx.skipped += 1
        return
    key = (f, lk, table, pen, solver, icpt, w, scale, off, st, hess, sel, tol)
    ctx.state(*key)
    coef = np.asarray(est.coef_, float)
    ctx.outcome(np.round(coef, 3).tolist(), round(float(est.intercept_), 3))
    if not icpt:
        ctx.check(est.intercept_ == 0, "intercept", f"{key}: intercept {est.intercept_}")
    tag = f"{pen}/{solver}"
    if not ok:
        # LBFGS/trust-constr may give up a little above the tolerance they were given
        if must and solver not in ("lbfgs", "trust-constr"):
            ctx.check(False, f"converge:{tag}", f"{key}: {bad}")
        else:
            ctx.skipped += 1
        return est
    ctx.trace()
    res, sc, hd = fit.kkt(f, lk, X, y, ww, oo, coef, float(est.intercept_), alpha=a,
                          l1_ratio=l1, P1=fit.make_P1(P1n, p), P2=fit.make_P2(P2n, p),
                          fit_intercept=icpt, scale=scale)
    ctx.check(np.isfinite(coef).all(), f"finite:{tag}", f"{key}: {coef}")
    if np.isfinite(coef).all() and not np.isfinite(res).all():
        ctx.note("reference saturates")
        ctx.skipped += 1
        return est
    r = float(np.max(np.abs(res) / sc))
    ctx.check(r <= limit(est._solver if hasattr(est, "_solver") else solver, tol), f"kkt:{tag}",
              lambda: f"{key}: residual {res} coef {coef} icpt {est.intercept_}")
    return est


def run(case, ctx):
    b = case["block"]
    if b == "screen":
        return screen(case, ctx)
    if b == "matrix":
        return matrix(case, ctx)
    if b == "row":
        for pen, w, ic in itertools.product(("ridge.5", "dense", "lasso.2", "enet"), ("none", "varied"),
                                            (True, False)):
            for s in solvers_for(case["fam"], case["link"], pen):
                one(ctx, case["fam"], case["link"], "row", pen, s, ic, w)
        return
    f, lk, t, ic = case["fam"], case["link"], case["table"], case["icpt"]
    p = data.X(t).shape[1]
    edge = (f, lk) in FL_EDGE
    if b == "pen":
        for pen in PEN:
            a = PEN[pen][0]
            if pen in SINGULAR and t not in ALPHA0_OK:
                continue
            for s in solvers_for(f, lk, pen):
                if s == "trust-constr" and (edge or p > 4 or case["w"] != "none"):
                    continue
                one(ctx, f, lk, t, pen, s, ic, case["w"], must=not edge)
        return
    sts = ["F", "csc", "split"] + (["cat"] if t == "onehot" else []) + (["C", "csr"] if case["deep"] else [])
    pens = ["ridge.05", "enetdense", "lasso.02"] + (["none"] if t in ALPHA0_OK else [])
    for pen, off, w, st in itertools.product(pens, ("none", "varied"), ("none", "zeros", "big"), sts):
        if st == "cat" and PEN[pen][0] == 0:
            continue
        for s in solvers_for(f, lk, pen):
            if s == "trust-constr":
                continue
            if s == "lbfgs" and st != "F":
                continue
            kw = dict(scale=case["scale"], off=off, st=st)
            one(ctx, f, lk, t, pen, s, ic, w, **kw)
            if s.startswith("irls") and st == "F":
                one(ctx, f, lk, t, pen, s, ic, w, hess=0.2, **kw)
                one(ctx, f, lk, t, pen, s, ic, w, tol=1e-4, **kw)
            if s == "irls-cd" and st in ("F", "csc"):
                one(ctx, f, lk, t, pen, s, ic, w, sel="random", **kw)
                if case["deep"]:
                    one(ctx, f, lk, t, pen, s, ic, w, hess=0.7, sel="random", **kw)
