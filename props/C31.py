"""Power-law densities and samples; random numbers are symbolic"""
from .common import *
from dsps import utils as U


class _Ran:
    def __init__(self, r):
        self.r = r

    def uniform(self, key, shape=(), *a, **k):
        assert tuple(np.atleast_1d(shape)) == self.r.shape, "one random number per sample"
        return self.r

    def __getattr__(self, n):
        return getattr(jax.random, n)


def sample(r, a, b, g):
    f = getattr(U.powerlaw_rvs, "__wrapped__", U.powerlaw_rvs)
    old = U.jran
    U.jran = _Ran(r)
    try:
        return f(jax.random.PRNGKey(0), a, b, g)
    finally:
        U.jran = old


def rvs(r, a, q, g):
    b = a * q
    y = sample(r, a, b, g)
    ag, bg = a**g, b**g
    return out(goal=dict(shape=jnp.array(y.shape == r.shape), cdf=near(g * jnp.log(y), jnp.log(ag + (bg - ag) * r), 1e-9)))


def inrange(r, ag, bg):
    """a^g + (b^g-a^g) r lies between a^g and b^g"""
    v = ag + (bg - ag) * r
    return out(goal=dict(between=(v - ag) * (bg - v) >= 0))


def bounds(r, a, b, g):
    y = sample(r, a, b, g)
    return out(goal=dict(lo=y >= a * (1 - 1e-9), hi=y <= b * (1 + 1e-9)), obs=dict(y=y))


def pdf(x, a, q, g):
    b = a * q
    ag, bg = a**g, b**g
    p = U.powerlaw_pdf(x, a, b, g)
    # the density is the derivative of the cumulative (x^g-a^g)/(b^g-a^g), which is 0 at a and 1 at b
    return out(goal=dict(ref=near(p * (bg - ag) * x, g * x**g, 1e-6), pos=p >= 0), obs=dict(p=p))


def harnesses(tier):
    n = 2 if tier == "quick" else 4
    hs = []
    for nm, g in (("pos", Box(0.1, 4, (n,))), ("neg", Box(-4, -0.1, (n,)))):
        I = dict(a=Box(0.1, 10, (n,)), q=Box(1.1, 10, (n,)), g=g)
        hs += [H("rvs_" + nm, dict(r=Box(0, 0.999999, (n,)), **I), rvs, undef_ok=True), H("bounds_" + nm, dict(r=Box(0, 0.999999, (n,)), a=Box(0.1, 4, (n,)), b=Box(4.5, 50, (n,)), g=g), bounds, note="a<=4<4.5<=b"),
               H("pdf_" + nm, dict(x=Box(0.1, 100, (n,)), **I), pdf)]
    return hs
