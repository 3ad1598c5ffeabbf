"""Turns the JSON names used in case descriptors into glum objects."""

import glum
import numpy as np


def family(name):
    kind, _, par = name.partition(":")
    if kind == "tweedie":
        p = float(par)
        return glum.TweedieDistribution(int(p) if p == int(p) else p)
    if kind == "negbin":
        t = float(par)
        return glum.NegativeBinomialDistribution(int(t) if t == int(t) else t)
    return dict(
        normal=glum.NormalDistribution,
        poisson=glum.PoissonDistribution,
        gamma=glum.GammaDistribution,
        invgauss=glum.InverseGaussianDistribution,
        ghs=glum.GeneralizedHyperbolicSecant,
        binomial=glum.BinomialDistribution,
    )[kind]()


def link(name):
    kind, _, par = name.partition(":")
    if kind == "tweedie":
        p = float(par)
        return glum.TweedieLink(int(p) if p == int(p) else p)
    return dict(
        identity=glum.IdentityLink, log=glum.LogLink, logit=glum.LogitLink,
        cloglog=glum.CloglogLink,
    )[kind]()


def close(a, b, rtol=1e-9, atol=1e-11):
    a = np.asarray(a, float)
    b = np.asarray(b, float)
    return a.shape == b.shape and bool(np.allclose(a, b, rtol=rtol, atol=atol, equal_nan=True))
