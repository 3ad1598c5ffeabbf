"""C03: every family's deviance, score and curvature are those of the textbook
family, on every specialised and generic code path."""

import ctypes
import itertools

import numpy as np
import tabmat as tm

from .. import g, ref

ID = "C03"
RULE = (
    "Complete product family x link x precision x memory layout; for each, every "
    "vector of length 1 and (thorough: all, quick: every third) of length 2 over the alphabet of (target, mean, weight) atoms, "
    "every step factor of the alphabet, and every (length<=9, threads<=4) partition "
    "of the row loop; a state is one (family, link, precision, layout, vector)."
)
ASSUMPTIONS = ["values outside the alphabets are not covered"]

POS_Y = [0.0, 0.25, 1.0, 3.0, 7.5]
POS_MU = [0.2, 1.0, 2.5, 6.0]
REAL_Y = [-2.0, -0.5, 0.0, 1.0, 3.0]
W = [1.0, 0.5, 2.5]
FACTORS = [0.0, 0.5, 1.0]

FAMS = [
    "normal", "poisson", "gamma", "invgauss", "ghs", "binomial",
    "tweedie:0", "tweedie:1", "tweedie:2", "tweedie:3",
    "tweedie:1.1", "tweedie:1.5", "tweedie:1.9", "tweedie:2.5", "tweedie:4",
    "tweedie:1.01", "tweedie:1.99", "tweedie:2.02", "tweedie:3.03", "negbin:0.02", "negbin:40.3",
    "tweedie:-1", "tweedie:-0.5", "negbin:1", "negbin:0.25", "negbin:3.7", "negbin:2",
]


def links_for(f):
    fam = ref.Fam(f)
    if fam.kind == "binomial":
        return ["logit", "cloglog", "identity", "log"]
    if fam.kind in ("normal", "ghs") or fam.p == 0:
        return ["identity", "log", "logit"]
    return ["log", "identity", "tweedie:1.5", "tweedie:2", "tweedie:3"]


def cases(tier):
    out = []
    for f in FAMS:
        for lk in links_for(f):
            for dt in ("f8", "f4"):
                for lay in ("contig", "strided", "readonly"):
                    out.append(dict(kind="vec", fam=f, link=lk, dt=dt, lay=lay,
                                    deep=tier == "thorough"))
            out.append(dict(kind="threads", fam=f, link=lk))
    for f in FAMS:
        out.append(dict(kind="forms", fam=f))
        out.append(dict(kind="range", fam=f))
    out.append(dict(kind="logit_extreme"))
    return out


def atoms(f, lk, deep=False):
    fam = ref.Fam(f)
    if fam.kind == "binomial":
        ys, mus = [0.0, 0.3, 1.0], [0.05, 0.3, 0.5, 0.9]
    elif fam.kind in ("normal", "ghs") or fam.p == 0:
        ys = REAL_Y
        mus = [-1.5, 0.0, 0.5, 2.0] if lk == "identity" else [0.2, 0.5, 0.7, 0.9]
    elif fam.p is not None and fam.p < 0:
        ys, mus = REAL_Y, POS_MU
    else:
        ys, mus = POS_Y, POS_MU
    ys = [y for y in ys if fam.y_ok(y)]
    if deep:
        mus = mus + [{True: 0.77, False: 1.7}[max(mus) <= 1]]
    return [(y, m, w) for y in ys for m in mus for w in W + ([0.0] if deep else [])]


def layout(a, dt, lay):
    a = np.asarray(a, dtype=dt)
    if lay == "strided":
        b = np.full(2 * len(a), 7.25, dtype=dt)
        b[::2] = a
        return b[::2]
    a = a.copy()
    if lay == "readonly":
        a.flags.writeable = False
    return a


def dev_offset_free(f, lk, y, mu, w):
    return np.sum(w * ref.Fam(f).udev(y, mu))


def run(case, ctx):
    globals()["run_" + case["kind"]](case, ctx)


def run_vec(case, ctx):
    f, lk, dt, lay = case["fam"], case["link"], case["dt"], case["lay"]
    fam, d, L = ref.Fam(f), g.family(f), g.link(lk)
    gl, dgl, hl, dhl, d2hl = ref.link(lk)
    at = atoms(f, lk, case["deep"])
    vecs = [(a,) for a in at] + [
        (a, b) for i, a in enumerate(at) for j, b in enumerate(at)
        if case["deep"] or (i + j) % 3 == 0
    ]
    # float32 data are rounded first: the reference sees what the code sees
    # a parameter is kept in single precision by design (the reference rounds it as well)
    tol = 1e-10 if dt == "f8" else 2e-4
    if lay != "contig":
        vecs = vecs[:: 7 if not case["deep"] else 1] + vecs[: len(at)]
    base_dev = {}
    for vi, vec in enumerate(vecs):
        y = layout([a[0] for a in vec], dt, lay)
        mu_r = np.array([a[1] for a in vec])
        w = layout([a[2] for a in vec], dt, lay)
        eta = layout(gl(mu_r), dt, lay)
        mu = layout(hl(eta.astype(float)), dt, lay)
        y8, m8, w8, e8 = (np.asarray(v, float) for v in (y, mu, w, eta))
        ctx.state(f, lk, dt, lay, vec)
        sig = f"{f}/{lk}/{dt}/{lay}"
        # --- public family functions
        ud = np.asarray(d.unit_deviance(y, mu), float)
        rud = fam.udev(y8, m8)
        mag = 1 + np.abs(rud) + np.abs(y8) ** 2 + m8**2 + np.abs(fam.udev(y8, m8 * 0 + 1 if fam.kind != "binomial" else m8))
        ok = ctx.check(np.all(np.abs(ud - rud) <= tol * mag), f"unit_deviance {sig}", lambda: f"{vec} {ud} {rud}")
        if fam.kind != "binomial" or set(y8) <= {0.0, 1.0}:
            ctx.check(np.all(ud >= -tol * mag), f"unit_deviance>=0 {sig}", lambda: f"{vec} {ud}")
        dv = float(d.deviance(y, mu, w))
        rdv = float(np.sum(w8 * rud))
        ctx.check(abs(dv - rdv) <= tol * np.sum(mag * (w8 + 1)), f"deviance=sum w*unit {sig}", lambda: f"{vec} {dv} {rdv}")
        if vi < len(at) or vi % 5 == 0:
            dvn = float(d.deviance(y, mu, None))
            ctx.check(abs(dvn - rud.sum()) <= tol * np.sum(mag), f"deviance unweighted {sig}", lambda: f"{vec} {dvn} {rud}")
            v, dvv = fam.var(m8), fam.dvar(m8)
            ctx.check(np.allclose(d.unit_variance(mu), v, rtol=tol, atol=tol), f"unit_variance {sig}")
            ctx.check(np.allclose(d.unit_variance_derivative(mu), dvv, rtol=tol, atol=tol), f"unit_variance_derivative {sig}")
            ctx.check(np.allclose(d.variance(mu, 1.7, w8 + 0.25), v * 1.7 / (w8 + 0.25), rtol=tol), f"variance {sig}")
            ctx.check(np.allclose(d.variance_derivative(mu, 1.7, w8 + 0.25), dvv * 1.7 / (w8 + 0.25), rtol=tol, atol=tol), f"variance_derivative {sig}")
            rdd = fam.dudev(y8, m8)
            mg = 1 + np.abs(rdd) + (np.abs(y8) + np.abs(m8)) / v
            ctx.check(np.all(np.abs(d.unit_deviance_derivative(y, mu) - rdd) <= tol * mg), f"unit_deviance_derivative {sig}")
            ctx.check(np.all(np.abs(d.deviance_derivative(y, mu, w) - w8 * rdd) <= tol * mg * (w8 + 1)), f"deviance_derivative {sig}")
            ctx.op(7)
        # --- what fitting uses: eta/mu/deviance update
        for fac in FACTORS if vi < len(at) else FACTORS[1 + vi % 2:2 + vi % 2]:
            step = layout(np.linspace(0.3, -0.2, len(vec)), dt, lay)
            cur = layout(e8 - fac * step.astype(float), dt, lay)
            e2 = cur.astype(float) + fac * step.astype(float)
            if lk not in ("identity", "log", "logit", "cloglog") and np.any(e2 <= 0):
                continue
            eo, mo, dd = d.eta_mu_deviance(L, fac, cur, step, y, w)
            m2 = hl(e2)
            t2 = tol * 20
            ctx.check(np.allclose(eo, e2, rtol=t2, atol=t2), f"eta update {sig}", lambda: f"{vec} {fac} {eo} {e2}")
            ctx.check(np.allclose(mo, m2, rtol=t2, atol=t2), f"mu update {sig}", lambda: f"{vec} {fac} {mo} {m2}")
            # deviance up to a term that does not depend on the mean
            key = tuple((a[0], a[2]) for a in vec)
            D = float(np.sum(w8 * fam.udev(y8, m2)))
            big = np.sum(mag * (w8 + 1)) * 4
            if key in base_dev:
                b1, b2 = base_dev[key]
                ctx.check(abs((dd - b1) - (D - b2)) <= 20 * tol * big, f"eta_mu_deviance {sig}",
                          lambda: f"{vec} factor {fac}: {dd - b1} vs {D - b2}")
            else:
                base_dev[key] = (dd, D)
            ctx.op()
        # --- row-wise gradient and curvature
        X = tm.DenseMatrix(np.array(e8[:, None], dtype=dt, order="F"))
        gr, hr = d.rowwise_gradient_hessian(
            L, np.array([1.0], dtype=dt), 1.0, X, y, w, eta, mu
        )
        v = fam.var(m8)
        rg = w8 * (y8 - m8) / v * dhl(e8)
        He = w8 * dhl(e8) ** 2 / v
        Ho = He - w8 * (y8 - m8) * (d2hl(e8) / v - dhl(e8) ** 2 * fam.dvar(m8) / v**2)
        mg = (1 + w8) * (1 + np.abs(dhl(e8)) * (np.abs(y8) + np.abs(m8)) / v)
        ctx.check(np.all(np.abs(gr - rg) <= 20 * tol * mg), f"row gradient {sig}", lambda: f"{vec} {gr} {rg}")
        mh = 1 + np.abs(He) + np.abs(Ho) + mg
        is_e = np.abs(hr - He) <= 20 * tol * mh
        is_o = np.abs(hr - Ho) <= 20 * tol * mh
        ctx.check(np.all(is_e | is_o), f"row curvature {sig}", lambda: f"{vec} {hr} exp {He} obs {Ho}")
        ctx.check(np.all(np.asarray(hr) >= 0), f"row curvature >= 0 {sig}", lambda: f"{vec} {hr}")
        ctx.op(3)
        ctx.trace()
        ctx.outcome(f, lk, round(dv, 6))


_gomp = None


def set_threads(n):
    global _gomp
    if _gomp is None:
        _gomp = ctypes.CDLL("libgomp.so.1")
    _gomp.omp_set_num_threads(int(n))


def run_threads(case, ctx):
    """Row loops give the same answer however rows are divided among threads."""
    f, lk = case["fam"], case["link"]
    fam, d, L = ref.Fam(f), g.family(f), g.link(lk)
    gl, dgl, hl, dhl, d2hl = ref.link(lk)
    at = atoms(f, lk)
    try:
        for n in range(1, 10):
            vec = [at[(7 * i + n) % len(at)] for i in range(n)]
            y = np.array([a[0] for a in vec])
            mu = np.array([a[1] for a in vec])
            w = np.array([a[2] for a in vec])
            eta = gl(mu)
            X = tm.DenseMatrix(np.asfortranarray(eta[:, None]))
            out = {}
            for t in range(1, 5):
                set_threads(t)
                ll = None
                if fam.loglik(y, mu, 1.0) is not None:
                    ll = d.log_likelihood(y, mu, w, 0.8)
                out[t] = (
                    d.deviance(y, mu, w),
                    *d.eta_mu_deviance(L, 1.0, eta, np.zeros(n), y, w),
                    *d.rowwise_gradient_hessian(L, np.ones(1), 1.0, X, y, w, eta, mu),
                    *([] if ll is None else [ll]),
                )
                ctx.state("thr", f, lk, n, t)
                ctx.op(3)
                ctx.trace()
                for a, b in zip(out[1], out[t]):
                    ctx.check(np.allclose(a, b, rtol=1e-9, atol=1e-9, equal_nan=True),
                              f"thread count changes result {f}/{lk}", f"n={n} threads={t}: {a} {b}")
            ctx.check(abs(out[1][0] - np.sum(w * fam.udev(y, mu))) < 1e-8, f"deviance n={n} {f}")
    finally:
        set_threads(1)


def run_forms(case, ctx):
    """Scalars, lists, integer arrays and weights in every documented form."""
    f = case["fam"]
    fam, d = ref.Fam(f), g.family(f)
    at = atoms(f, fam.default_link())
    full = f.startswith(("normal", "poisson", "gamma", "invgauss", "tweedie", "negbin"))
    for a, b in itertools.product(at, at):
        y = np.array([a[0], b[0]])
        mu = np.array([a[1], b[1]])
        w = np.array([a[2], b[2]])
        want = float(np.sum(w * fam.udev(y, mu)))
        forms = [("array", (y, mu, w))]
        if full:
            forms += [("list", (list(y), list(mu), list(w)))]
        if np.all(y == np.round(y)):
            forms += [("int y", (y.astype(int), mu, w))]
        if a[2] == b[2]:
            forms += [("scalar weight", (y, mu, float(a[2])))]
        if a[1] == b[1] and full:
            forms += [("scalar mu", (y, float(a[1]), w))]
        for nm, args in forms:
            got = float(d.deviance(*args))
            ctx.op()
            ctx.check(abs(got - want) <= 1e-9 * (1 + abs(want)), f"deviance form {nm} {f}",
                      lambda: f"{args} {got} {want}")
        ctx.state("forms", f, a, b)
        ctx.trace()


def run_range(case, ctx):
    f = case["fam"]
    fam, d = ref.Fam(f), g.family(f)
    ys = np.array([-np.inf, -2.0, -1e-12, -0.0, 0.0, 1e-12, 0.5, 1 - 1e-12, 1.0, 1 + 1e-12, 3.0, np.inf, np.nan])
    for i in range(len(ys)):
        one = d.in_y_range(ys[i : i + 1])
        want = fam.y_ok(ys[i : i + 1])
        ctx.check(np.array_equal(np.asarray(one, bool), want), f"in_y_range {f}", f"y={ys[i]} got {one} want {want}")
        ctx.state("range", f, i)
        ctx.op()
    ctx.check(np.array_equal(d.in_y_range(ys), fam.y_ok(ys)), f"in_y_range {f}", "vector")
    ctx.trace()


def run_logit_extreme(case, ctx):
    """The fused binomial/logit path stays exact far out in the tails."""
    d, L = g.family("binomial"), g.link("logit")
    etas = [-700.0, -40.0, -20.0, -1.0, 0.0, 1.0, 20.0, 40.0, 700.0]
    for e1, e2, y1, y2 in itertools.product(etas, etas, (0.0, 1.0), (0.0, 1.0)):
        eta, y, w = np.array([e1, e2]), np.array([y1, y2]), np.array([1.0, 2.0])
        eo, mo, dd = d.eta_mu_deviance(L, 1.0, eta, np.zeros(2), y, w)
        want = 2 * np.sum(w * (np.logaddexp(0, eta) - y * eta))
        ctx.check(np.isfinite(dd) and abs(dd - want) <= 1e-8 * (1 + want), "binomial logit tail deviance",
                  lambda: f"{eta} {y} {dd} {want}")
        mr = np.exp(-np.logaddexp(0, -eta))
        ctx.check(np.allclose(mo, mr, rtol=1e-9, atol=1e-13), "binomial logit tail mean", lambda: f"{eta} {mo} {mr}")
        ctx.state("logit", e1, e2, y1, y2)
        ctx.op()
        ctx.trace()
