"""Fitting one configuration on the real estimator and checking the result
against the documented objective (KKT conditions)."""

import warnings

import glum
import numpy as np
import scipy.sparse as sps
from sklearn.exceptions import ConvergenceWarning

from . import data, g, ref


def make_P1(name, p):
    if name in ("identity", None):
        return name
    return {"vec": data.vec1(p), "list": list(data.vec1(p)), "zero": np.zeros(p)}[name]


def make_P2(name, p):
    if name in ("identity", None):
        return name
    return {
        "vec": lambda: data.vec2(p),
        "dense": lambda: data.P2_dense(p),
        "asym": lambda: data.P2_asym(p),
        "diff": lambda: data.P2_diff(p),
        "csc": lambda: sps.csc_matrix(data.P2_dense(p)),
        "csr": lambda: sps.csr_matrix(data.P2_dense(p)),
        "diagcsc": lambda: sps.csc_matrix(np.diag(data.vec2(p) + 0.25)),
        "semicsc": lambda: sps.csc_matrix(np.diag(data.vec2(p))),
        "dia": lambda: sps.diags(data.vec2(p) + 0.5).tocsc(),
    }[name]()


def num_P1(P1, p):
    return np.ones(p) if P1 is None or isinstance(P1, str) else np.asarray(P1, float)


def num_P2(P2, p):
    if P2 is None or isinstance(P2, str):
        return np.eye(p)
    if sps.issparse(P2):
        P2 = P2.toarray()
    P2 = np.asarray(P2, float)
    return np.diag(P2) if P2.ndim == 1 else 0.5 * (P2 + P2.T)


def fit(est, *args, **kw):
    """Fit, returning (estimator, converged?)."""
    with warnings.catch_warnings(record=True) as rec:
        warnings.simplefilter("always")
        est.fit(*args, **kw)
    bad = [
        str(r.message) for r in rec
        if "failed to converge" in str(r.message) or "failed with" in str(r.message)
        or "failed for" in str(r.message) or "stopped because its steps" in str(r.message) or "constraint violation" in str(r.message)
    ]
    return est, (not bad), bad


def kkt(fam, lk, X, y, w, off, coef, icpt, *, alpha, l1_ratio, P1, P2, fit_intercept,
        scale=False, lb=None, ub=None):
    """Residuals of the optimality conditions, and their natural scale.

    Returns (residual vector incl. intercept, scale vector).  With
    ``scale_predictors`` the penalty (and the bounds stay in original units)
    applies to coefficients of columns scaled to unit weighted variance.
    """
    fam = ref.Fam(fam) if isinstance(fam, str) else fam
    n, p = X.shape
    w = np.ones(n) if w is None else np.asarray(w, float)
    off = np.zeros(n) if off is None else off
    hd, grad, eta, mu = ref.objective_parts(fam, lk, X, y, w, off, coef, icpt)
    ws = w / w.sum()
    m = ws @ X
    sd = np.sqrt(np.maximum(ws @ (X - m) ** 2, 0))
    s = np.where(sd < 1e-7, 1.0, sd)
    P1v = alpha * l1_ratio * num_P1(P1, p)
    P2m = alpha * (1 - l1_ratio) * num_P2(P2, p)
    if scale:
        P1v = P1v * s
        P2m = P2m * s[:, None] * s[None, :]
    gsm = grad[1:] + P2m @ coef
    res = np.empty(p + 1)
    res[0] = grad[0] if fit_intercept else 0.0
    for j in range(p):
        gj, c = gsm[j], coef[j]
        at_l = lb is not None and c <= lb[j] + 1e-12 * max(1, abs(lb[j]))
        at_u = ub is not None and c >= ub[j] - 1e-12 * max(1, abs(ub[j]))
        # set of subgradients [lo, hi]
        if c == 0:
            lo, hi = gj - P1v[j], gj + P1v[j]
        else:
            lo = hi = gj + P1v[j] * np.sign(c)
        if at_l:  # normal cone (-inf, 0]
            lo = -np.inf
        if at_u:
            hi = np.inf
        res[j + 1] = 0.0 if lo <= 0 <= hi else min(abs(lo), abs(hi))
    sc = np.concatenate(([1.0], s + np.abs(m) * bool(fit_intercept)))
    return res, sc, hd


def objective(fam, lk, X, y, w, off, coef, icpt, *, alpha, l1_ratio, P1, P2, scale=False):
    fam = ref.Fam(fam) if isinstance(fam, str) else fam
    n, p = X.shape
    w = np.ones(n) if w is None else np.asarray(w, float)
    off = np.zeros(n) if off is None else off
    hd, grad, eta, mu = ref.objective_parts(fam, lk, X, y, w, off, coef, icpt)
    ws = w / w.sum()
    sd = np.sqrt(np.maximum(ws @ (X - ws @ X) ** 2, 0))
    s = np.where(sd < 1e-7, 1.0, sd) if scale else np.ones(p)
    c = coef * s
    return (hd + alpha * l1_ratio * np.sum(np.abs(num_P1(P1, p) * c))
            + 0.5 * alpha * (1 - l1_ratio) * c @ num_P2(P2, p) @ c)


def estimator(fam, lk, **kw):
    return glum.GeneralizedLinearRegressor(family=g.family(fam), link=g.link(lk) if lk != "auto" else "auto", **kw)
