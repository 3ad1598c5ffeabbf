"""Fixed small data tables (no randomness at run time: a fixed legacy
RandomState only serves to write the tables down compactly)."""

import functools

import numpy as np

from . import ref


@functools.lru_cache(maxsize=None)
def X(kind):
    r = np.random.RandomState(7)
    if kind == "one":  # one column
        out = np.array([[-1.0], [0.5], [2.0], [0.0], [1.5], [-0.5]])
    elif kind == "three":  # ordinary, indicator, far from zero
        n = 10
        out = np.column_stack([
            [-2, -1, 0, 1, 2, -1.5, 0.5, 1.5, -0.5, 1],
            [1, 0, 0, 1, 1, 0, 1, 0, 0, 0],
            5 + np.array([0.3, -0.2, 0.9, -1.1, 0.4, 0.1, -0.7, 1.2, 0.5, -0.9]),
        ])
    elif kind == "scales":  # standard deviations far apart
        n = 10
        out = np.column_stack([
            np.array([-2, -1, 0, 1, 2, -1.5, 0.5, 1.5, -0.5, 1]) * 0.02,
            np.array([0.3, -0.2, 0.9, -1.1, 0.4, 0.1, -0.7, 1.2, 0.5, -0.9]) * 30 + 100,
            np.array([1, 0, 0, 1, 1, 0, 1, 0, 0, 0.0]),
        ])
    elif kind == "const":  # a constant column (needs a penalty with an intercept)
        out = X("three").copy()
        out[:, 1] = 1.5
    elif kind == "wide":  # more columns than rows
        out = np.round(r.uniform(-1.5, 1.5, size=(6, 9)), 1)
    elif kind == "sparse":  # many columns, mostly zero
        out = np.round(r.uniform(-1.5, 1.5, size=(24, 8)), 1)
        out[r.uniform(size=out.shape) < 0.6] = 0.0
    elif kind == "onehot":  # one-hot block and two numeric columns
        c = np.array([0, 1, 2, 0, 1, 2, 2, 1, 0, 0, 1, 2])
        out = np.column_stack([
            (c[:, None] == np.arange(3)).astype(float),
            np.round(r.uniform(-1, 1, size=12), 1), np.round(r.uniform(0, 2, size=12), 1),
        ])
    elif kind == "corr":  # strongly correlated columns
        a = np.round(r.uniform(-1.5, 1.5, size=14), 1)
        b = np.round(r.uniform(-1.5, 1.5, size=14), 1)
        c = np.round(r.uniform(-1.5, 1.5, size=14), 1)
        out = np.column_stack([a, a + 0.3 * b, b - 0.5 * a + 0.4 * c, c + 0.3 * a * b + 3.0])
    elif kind == "tall":  # longer than any chunk or thread threshold in use
        out = np.round(r.uniform(-1.5, 1.5, size=(400, 5)), 2)
        out[:, 2] = out[:, 2] > 0.3
        out[:, 4] = np.where(out[:, 4] > 0.8, out[:, 4], 0.0)
    elif kind == "row":  # a single observation
        out = np.array([[1.5, -0.5]])
    elif kind == "cats":  # two categorical columns (one-hot) only
        c = np.array([0, 1, 2, 0, 1, 2, 2, 1, 0, 0, 1, 2, 2, 0])
        d = np.array([0, 1, 0, 1, 1, 0, 1, 0, 0, 1, 1, 0, 0, 1])
        out = np.column_stack([c[:, None] == np.arange(3), d[:, None] == np.arange(2)]).astype(float)
    else:
        raise KeyError(kind)
    out = np.asarray(out, float)
    out.flags.writeable = False
    return out


@functools.lru_cache(maxsize=None)
def eta_true(kind):
    x = X(kind)
    z = (x - x.mean(0)) / np.where(x.std(0) > 0, x.std(0), 1)
    if kind == "row":
        return np.zeros(1)
    b = np.array([0.5, -0.4, 0.3, 0.25, -0.2, 0.15, 0.1, -0.1, 0.05])[: x.shape[1]]
    e = z @ b
    return 0.8 * e / max(1e-9, np.abs(e).max()) if len(b) > 1 else 0.5 * z[:, 0]


@functools.lru_cache(maxsize=None)
def y(kind, fam):
    """A target vector in the family's range, not constant, not separable."""
    e = eta_true(kind)
    n = len(e)
    k = ref.Fam(fam)
    noise = np.resize([0.4, -0.6, 0.1, 0.7, -0.3, -0.8, 0.5, 0.2, -0.4, 0.3, -0.2], n)
    if k.kind in ("ghs",) or (k.p is not None and k.p <= 0):
        out = np.round(1.5 + e + noise, 2)
        if n > 1 and k.kind != "normal" and k.p != 0:
            out[1] = -0.4
    elif k.kind == "binomial":
        out = (np.argsort(np.argsort(e + 1.6 * noise)) >= n // 2).astype(float)
        for i in range(0, n, 6):  # no column separates the classes
            out[i] = 1.0 - out[i]
        if n > 3:
            out[0], out[1] = 1.0, 0.0
    elif k.kind in ("poisson", "negbin") or k.p == 1:
        out = np.round(np.exp(0.9 + e + noise))
        out[1 % n] = 0.0
    elif k.p < 2:
        out = np.round(np.exp(0.5 + e + noise), 2)
        out[1 % n] = 0.0
    else:
        out = np.round(np.exp(0.2 + e + 0.8 * noise), 2)
    out.flags.writeable = False
    return out


def weights(kind, which):
    n = len(X(kind))
    if which is None or which == "none":
        return None
    if which == "varied":
        return np.resize([1.0, 2.0, 0.5, 1.5, 3.0, 0.75, 1.25], n)
    if which == "zeros":
        w = np.resize([1.0, 2.0, 0.5, 1.5, 3.0, 0.75, 1.25], n)
        w[3] = 0.0
        return w
    if which == "big":
        return 1000.0 * np.resize([1.0, 2.0, 0.5, 1.5, 3.0], n)
    raise KeyError(which)


def offset(kind, which):
    n = len(X(kind))
    if which is None or which == "none":
        return None
    if which == "varied":
        return np.resize([0.2, -0.1, 0.4, 0.0, -0.3], n)
    raise KeyError(which)


def P2_dense(p):
    A = np.zeros((p, p))
    for i in range(p):
        A[i, i] = 1.0 + 0.5 * i
        if i:
            A[i, i - 1] = A[i - 1, i] = 0.4
    return A


def P2_diff(p):
    """First differences: singular, positive semi-definite."""
    D = np.diff(np.eye(p), axis=0)
    return D.T @ D


def P2_asym(p):
    A = P2_dense(p)
    for i in range(1, p):
        A[i, i - 1] += 0.3
        A[i - 1, i] -= 0.3
    return A


def vec1(p):
    return np.resize([1.0, 0.0, 2.0, 0.5], p)


def vec2(p):
    return np.resize([0.5, 2.0, 0.0, 1.0], p)
