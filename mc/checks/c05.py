"""C05: links against textbook functions, round trips, ranges; names, equality."""

import itertools

import glum
import numpy as np

from .. import data, fit, g, ref

ID = "C05"
RULE = (
    "Every (link, linear predictor or mean, precision, scalar/vector) of finite grids that include the "
    "ends of the admissible range; every documented family and link name (with every parameter of an "
    "alphabet, with and without a space) and every invalid one; all pairs for equality. A state is one "
    "argument tuple, name or pair; a transition one call."
)
ASSUMPTIONS = ["arguments outside the stated grids are not covered"]

TW = [-2, -1, -0.5, 0, 1, 1.2, 1.5, 1.9, 2, 2.5, 3, 4]
LINKS = ["identity", "log", "logit", "cloglog"] + [f"tweedie:{p}" for p in TW]
ETA = [-700.0, -100.0, -37.0, -30.0, -20.0, -8.0, -3.0, -1.0, -0.5, -1e-3, -1e-8, 0.0, 1e-8, 1e-3, 0.3, 1.0, 1.7, 3.0,
       4.0, 8.0, 20.0, 30.0, 37.0, 100.0, 700.0]


def cases(tier):
    return ([dict(block="link", link=l) for l in LINKS]
            + [dict(block="names", which=w) for w in ("family", "link", "auto", "bad", "estimator")]
            + [dict(block="eq", which=w) for w in ("family", "link")])


def etas(lk):
    if lk.startswith("tweedie:"):
        p = float(lk.split(":")[1])
        if p == 0:
            return ETA
        if p == 1:
            return [e for e in ETA if abs(e) <= 100]
        return [1e-3, 0.02, 0.3, 0.9, 1.0, 1.4, 3.0, 12.0, 150.0]
    if lk == "log":
        return ETA
    return ETA


def mus(lk):
    if lk in ("logit", "cloglog"):
        return [1e-12, 1e-8, 1e-3, 0.1, 0.3, 0.5, 0.63, 0.9, 0.999, 1 - 1e-8]
    if lk == "identity" or lk == "tweedie:0":
        return [-5.0, -0.1, 0.0, 0.3, 1.0, 800.0]
    return [1e-6, 1e-3, 0.1, 0.5, 1.0, 2.5, 40.0, 3000.0]


def reference(lk):
    if lk == "logit":
        s = lambda e: np.exp(-np.logaddexp(0, -e))  # noqa
        return (lambda m: np.log(m) - np.log1p(-m), lambda m: 1 / m + 1 / (1 - m), s, lambda e: s(e) * s(-e),
                lambda e: s(e) * s(-e) * (-np.tanh(e / 2)))
    if lk.startswith("tweedie:"):
        return ref.tl(float(np.float32(float(lk.split(":")[1]))))
    return ref.link(lk)


def run_link(case, ctx):
    lk = case["link"]
    L = g.link(lk)
    G, dG, H, dH, d2H = reference(lk)
    e = np.array(etas(lk))
    m = np.array(mus(lk))
    # a fractional Tweedie power is kept in single precision, and so is 1 / (1 - power)
    frac = lk.startswith("tweedie:") and float(lk.split(":")[1]) % 1 != 0
    with np.errstate(all="ignore"):
        for fn, x, want in (("inverse", e, H(e)), ("inverse_derivative", e, dH(e)), ("inverse_derivative2", e, d2H(e)),
                            ("link", m, G(m)), ("derivative", m, dG(m))):
            for dt, rt, at in (("d", 1e-5 if frac else 1e-9, 1e-14), ("f", 3e-4, 1e-6)):
                xx = x.astype(dt)
                if dt == "f":
                    keep = (np.abs(x) < 80) if x is e else ((m < 0.999) & (m > 1e-4) if lk in ("logit", "cloglog") else np.abs(m) < 1e4)
                    xx, ww = xx[keep], want[keep]
                    if x is e and lk in ("logit", "cloglog"):
                        at = 1e-5
                else:
                    ww = want
                    if lk in ("logit", "cloglog") and fn == "inverse":
                        ww = np.clip(ww, 50 * np.finfo(float).eps, 1 - 50 * np.finfo(float).eps)
                for i in range(len(xx)):
                    ctx.state(lk, fn, dt, float(xx[i]))
                ctx.op()
                got = np.asarray(getattr(L, fn)(xx.copy()))
                ctx.check(got.shape == xx.shape, f"shape:{lk}:{fn}", f"{got.shape}")
                if dt == "f":
                    ctx.check(got.dtype == np.float32, f"precision:{lk}:{fn}", f"{got.dtype}")
                ok = np.abs(got - ww) <= rt * np.abs(ww) + at
                ok |= (got == ww)
                big = np.isfinite(ww) & (np.abs(ww) < (1e300 if dt == "d" else 1e30))
                bad = ~ok & big
                ctx.check(not bad.any(), f"value:{lk}:{fn}:{dt}", lambda: f"{lk}.{fn} at {xx[bad]}: {got[bad]} expected {ww[bad]}")
                ctx.outcome(lk, fn, dt, np.round(np.nan_to_num(got[: 5].astype(float)), 6).tolist())
                # every element on its own, and strided, gives the same numbers
                if dt == "d":
                    st = np.asarray(getattr(L, fn)(np.repeat(xx, 3)[::3]))
                    ctx.check(np.array_equal(st, got, equal_nan=True), f"strided:{lk}:{fn}", "")
                    for i in range(len(xx)):
                        one = np.asarray(getattr(L, fn)(xx[i:i + 1].copy()))
                        ctx.check(np.allclose(one[0], got[i], rtol=1e-13, atol=1e-15, equal_nan=True),
                                  f"elementwise:{lk}:{fn}", f"{xx[i]} {one[0]} {got[i]}")
                        sc = float(getattr(L, fn)(float(xx[i])) if fn not in ("inverse",) or lk not in ("logit", "cloglog") else one[0])
                        ctx.check(np.allclose(sc, got[i], rtol=1e-5 if frac else 1e-12, atol=1e-15, equal_nan=True), f"scalar:{lk}:{fn}", f"{xx[i]} {sc} {got[i]}")
                        ctx.op(2)
                ctx.trace()
        # round trips and ranges
        for dt in ("d", "f"):
            eps = np.finfo(dt).eps
            mm = m.astype(dt)
            if dt == "f" and lk in ("logit", "cloglog"):
                mm = mm[(m > 1e-4) & (m < 0.999)]
            back = L.inverse(L.link(mm))
            ctx.op(2)
            ctx.check(np.allclose(back, mm, rtol=1e-5 if frac and dt == "d" else 2000 * eps, atol=1e3 * eps if lk in ("logit", "cloglog") else 10 * eps),
                      f"roundtrip-mu:{lk}:{dt}", lambda: f"{mm} {back}")
            sel = np.abs(e) < (15 if dt == "d" else 5)
            if lk == "cloglog":
                sel &= e < (2 if dt == "d" else 1.5)
            ee = e[sel].astype(dt)
            eb = L.link(L.inverse(ee))
            tol = 1e-6 if dt == "d" else 2e-2
            ctx.check(np.allclose(eb, ee, rtol=tol, atol=tol if not lk.startswith("tweedie") else 1e-4), f"roundtrip-eta:{lk}:{dt}", lambda: f"{ee} {eb}")
            if lk in ("logit", "cloglog"):
                for v in list(ETA) + [1e4, -1e4]:
                    mu = L.inverse(np.array([v], dt))
                    ctx.op()
                    ctx.check((mu > 0).all() and (mu < 1).all(), f"range:{lk}:{dt}", f"inverse({v}) = {mu}")
            elif lk == "log":
                mu = L.inverse(np.array([v for v in ETA if abs(v) < (701 if dt == "d" else 80)], dt))
                ctx.check((mu > 0).all() and np.isfinite(mu).all(), f"range:{lk}:{dt}", f"{mu}")
            ctx.trace()
        if lk.startswith("tweedie:") and float(lk.split(":")[1]) not in (0, 1):
            q = 1 / (1 - float(np.float32(float(lk.split(":")[1]))))
            if q != int(q):  # no real mean for a negative linear predictor
                try:
                    v = L.inverse(np.array([-1.0, 2.0]))
                except ValueError:
                    ctx.check(True, "neg")
                else:
                    ctx.check(False, f"negative-accepted:{lk}", v)


FAMS = {"normal": "normal", "gaussian": "normal", "poisson": "poisson", "gamma": "gamma", "inverse.gaussian": "invgauss",
        "binomial": "binomial", "tweedie": "tweedie:1.5", "negative.binomial": "negbin:1"}
PAR = ["1.5", "1.2", "0", "1", "2", "3", "-1", "2.75", "1e0", " 1.5 ", "1.70"]
NBP = ["1", "0.5", "2", "3.25", "1e-1", "0.01"]


def run_names(case, ctx):
    w = case["which"]
    probe = np.array([0.3, 0.7, 0.9])

    def same_family(F, name, what):
        R = ref.Fam(name)
        ctx.op()
        ctx.state(w, what)
        ctx.check(type(F) is type(g.family(name)), f"family-class:{what}", f"{type(F)}")
        ctx.check(g.close(F.unit_variance(probe), R.var(probe) * np.ones(3), 1e-6), f"family:{what}", f"{F.unit_variance(probe)}")
        if R.kind == "negbin":
            ctx.check(np.float32(F.theta) == np.float32(R.par), f"theta:{what}", F.theta)
        if R.kind == "tweedie":
            ctx.check(np.float32(F.power) == np.float32(R.par), f"power:{what}", F.power)
        ctx.outcome(what, type(F).__name__)
        ctx.trace()

    if w == "family":
        for nm, r in FAMS.items():
            same_family(glum.get_family(nm), r, nm)
        for p in PAR:
            for sep in ("", " "):
                same_family(glum.get_family(f"tweedie{sep}({p})"), f"tweedie:{float(p)}", f"tweedie{sep}({p})")
        for p in NBP:
            for sep in ("", " "):
                same_family(glum.get_family(f"negative.binomial{sep}({p})"), f"negbin:{float(p)}", f"nb{sep}({p})")
        for r in ("normal", "poisson", "gamma", "invgauss", "ghs", "binomial", "tweedie:1.3", "negbin:2"):
            F = g.family(r)
            ctx.check(glum.get_family(F) is F, f"instance:{r}", "")
    elif w == "link":
        nm = {"identity": "identity", "log": "log", "logit": "logit", "cloglog": "cloglog", "tweedie": "tweedie:1.5"}
        for p in PAR:
            for sep in ("", " "):
                nm[f"tweedie{sep}({p})"] = f"tweedie:{float(p)}"
        for k, r in nm.items():
            L = glum.get_link(k, glum.NormalDistribution())
            ctx.op()
            ctx.state(k)
            ctx.check(type(L) is type(g.link(r)), f"link-class:{k}", type(L))
            ctx.check(g.close(L.link(probe), reference(r)[0](probe), 1e-6), f"link:{k}", L.link(probe))
            ctx.outcome(k, type(L).__name__)
            ctx.trace()
        for r in LINKS:
            L = g.link(r)
            ctx.check(glum.get_link(L, glum.PoissonDistribution()) is L, f"instance:{r}", "")
    elif w == "auto":
        for r in ["normal", "poisson", "gamma", "invgauss", "ghs", "binomial", "negbin:1", "negbin:0.2"] + [f"tweedie:{p}" for p in TW]:
            for a in ("auto", None):
                L = glum.get_link(a, g.family(r))
                want = ref.Fam(r).default_link()
                ctx.op()
                ctx.state(r, a)
                ctx.check(type(L) is type(g.link(want)), f"auto:{r}", f"{type(L)} {want}")
                ctx.outcome(r, type(L).__name__)
                ctx.trace()
    elif w == "bad":
        for b in ("", "Normal", "normall", "poison", "tweedie()", "tweedie(x)", "tweedie(0.5)", "negative.binomial(0)",
                  "negative.binomial(-1)", "negative.binomial(x)", "log", "ghs", "quasi"):
            ctx.op()
            ctx.state("f", b)
            for how in ("get", "fit"):
                try:
                    if how == "get":
                        glum.get_family(b)
                    else:
                        glum.GeneralizedLinearRegressor(family=b).fit(data.X("three"), data.y("three", "gamma"))
                except (ValueError, TypeError):
                    ctx.check(True, b)
                else:
                    ctx.check(False, f"family-accepted:{b}:{how}", "")
            ctx.trace()
        for b in ("", "Log", "probit", "inverse", "sqrt", "tweedie()", "tweedie(x)", "tweedie(0.5)", "poisson", "automatic"):
            ctx.op()
            ctx.state("l", b)
            for how in ("get", "fit"):
                try:
                    if how == "get":
                        glum.get_link(b, glum.PoissonDistribution())
                    else:
                        glum.GeneralizedLinearRegressor(family="poisson", link=b).fit(data.X("three"), data.y("three", "poisson"))
                except (ValueError, TypeError):
                    ctx.check(True, b)
                else:
                    ctx.check(False, f"link-accepted:{b}:{how}", "")
            ctx.trace()
        for cls, bads in ((glum.TweedieDistribution, (0.5, 0.01, 0.999, "1.5", None)), (glum.TweedieLink, (0.5, 0.01, "1.5", None)),
                          (glum.NegativeBinomialDistribution, (0, -1, -0.5, "1", None))):
            for b in bads:
                ctx.op()
                ctx.state(cls.__name__, str(b))
                try:
                    cls(b)
                except (ValueError, TypeError):
                    ctx.check(True, "par")
                else:
                    ctx.check(False, f"parameter-accepted:{cls.__name__}:{b}", "")
    elif w == "estimator":  # names in the estimator = instances in the estimator
        for nm, r in list(FAMS.items()) + [("tweedie(1.8)", "tweedie:1.8"), ("negative.binomial (0.4)", "negbin:0.4")]:
            for ln in ("auto", "log", "identity" if r == "normal" else "log", "logit" if r == "binomial" else "log",
                       "cloglog" if r == "binomial" else "log"):
                if r == "binomial" and ln == "log":
                    continue
                want = ref.Fam(r).default_link() if ln == "auto" else ln
                X, y = data.X("three"), np.asarray(data.y("three", r), float)
                kw = dict(alpha=0.1, gradient_tol=1e-8)
                a = glum.GeneralizedLinearRegressor(family=nm, link=ln, **kw).fit(X, y)
                b = glum.GeneralizedLinearRegressor(family=g.family(r), link=g.link(want), **kw).fit(X, y)
                ctx.op(2)
                ctx.state(nm, ln)
                ctx.outcome(np.round(a.coef_, 4).tolist())
                ctx.check(g.close(a.coef_, b.coef_, 1e-9) and g.close(a.intercept_, b.intercept_, 1e-9), f"estimator:{nm}:{ln}", f"{a.coef_} {b.coef_}")
                ctx.check(type(a.link_instance) is type(g.link(want)) and type(a.family_instance) is type(g.family(r)), f"instances:{nm}:{ln}", "")
                ctx.trace()


def run_eq(case, ctx):
    if case["which"] == "family":
        names = ["normal", "poisson", "gamma", "invgauss", "ghs", "binomial"] + [f"tweedie:{p}" for p in TW] + [
            "negbin:1", "negbin:0.5", "negbin:2", "negbin:1.5"]
        mk, probe = g.family, (lambda F: tuple(np.round(np.asarray(F.unit_variance(np.array([0.3, 0.7, 0.9])), float), 7)))
    else:
        names = LINKS
        mk, probe = g.link, (lambda L: tuple(np.round(np.asarray(L.link(np.array([0.3, 0.7, 0.9])), float), 7)))
    for a, b in itertools.product(names, repeat=2):
        A, B = mk(a), mk(b)
        ctx.op()
        ctx.state(a, b)
        eq = A == B
        ctx.outcome(a == b, bool(eq))
        ctx.check(bool(eq) == (a == b), f"equality:{case['which']}", f"{a} == {b}: {eq}")
        ctx.check((A != B) == (not eq), "inequality", f"{a} {b}")
        # the Tweedie representation denotes the same function
        for n, o in ((a, A),):
            t = o.to_tweedie(safe=False)
            if t is None:
                has = n.split(":")[0] in ("ghs", "binomial", "negbin", "logit", "cloglog")
                ctx.check(has, f"tweedie-repr:{n}", "missing")
                try:
                    o.to_tweedie()
                except ValueError:
                    pass
                else:
                    ctx.check(False, f"tweedie-safe:{n}", "")
            else:
                ctx.check(n.split(":")[0] not in ("ghs", "binomial", "negbin", "logit", "cloglog"), f"tweedie-repr:{n}", t)
                ctx.check(probe(t) == probe(o), f"tweedie-repr:{n}", f"{probe(t)} {probe(o)}")
        ctx.trace()
    for o in (1, "normal", None, object()):
        for a in names:
            ctx.check(not (mk(a) == o), f"equality-other:{a}", o)


def run(case, ctx):
    globals()["run_" + case["block"]](case, ctx)
