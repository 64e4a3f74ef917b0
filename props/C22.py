"""Transmitted fraction of light"""
from .common import *
from dsps.dust import att_curves as AC


def basic(k, av, fl):
    f = AC._frac_transmission_from_k_lambda(k, av, fl)
    A = jnp.maximum(av * k / 4.05, 0.0)
    e = 10.0 ** (-0.4 * A)
    return out(goal=dict(ref=near(f, fl + (1 - fl) * e, 1e-9), ge=f >= fl, le=f <= 1, nodust=near(AC._frac_transmission_from_k_lambda(k, 0.0, fl), jnp.ones(k.shape), 1e-12),
                         shape=jnp.array(f.shape == k.shape)), obs=dict(f=f))


def thick(k, av):
    """without floor, to relative accuracy however thick the dust is"""
    e = 10.0 ** (-0.4 * jnp.maximum(av * k / 4.05, 0.0))
    return out(goal=dict(default=near(AC._frac_transmission_from_k_lambda(k, av), e, 1e-9 * e), zero=near(AC._frac_transmission_from_k_lambda(k, av, 0.0), e, 1e-9 * e)))


def default(k, av):
    """the default floor is zero"""
    return out(goal=dict(floor=near(AC._frac_transmission_from_k_lambda(k, av), 10.0 ** (-0.4 * jnp.maximum(av * k / 4.05, 0.0)), 1e-9)))


def mono(k, dk, av, dav, fl):
    g = lambda k, av: AC._frac_transmission_from_k_lambda(k, av, fl)
    return out(goal=dict(av=g(k, av + dav) <= g(k, av) + 1e-12, k=g(k + dk, av) <= g(k, av) + 1e-12))


def harnesses(tier):
    n = 3 if tier == "quick" else 8
    K = Box(-5, 30)
    return [H("basic", dict(k=Box(-5, 30, (n,)), av=Box(0, 10), fl=Box(0, 1)), basic),
            H("strong", dict(k=Box(0, 60, (n,)), av=Box(0, 50), fl=Box(0, 1)), basic),
            H("thick", dict(k=Box(-5, 60, (n,)), av=Box(0, 50)), thick),
            H("default", dict(k=K, av=Box(0, 10)), default),
            H("mono", dict(k=K, dk=Box(0, 20), av=Box(0, 10), dav=Box(0, 10), fl=Box(0, 1)), mono)]
