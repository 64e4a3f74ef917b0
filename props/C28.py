"""Triweight kernel"""
from .common import *
from dsps import utils as U


def body(x, m, h):
    f = U._tw_cuml_kern(x, m, h)
    p = U.triweight_gaussian(x, m, h)
    return out(goal=dict(ge0=f >= -1e-12, le1=f <= 1 + 1e-12, low=jnp.logical_or(x >= m - 3 * h, near(f, 0.0, 1e-12)), high=jnp.logical_or(x <= m + 3 * h, near(f, 1.0, 1e-12)),
                         sym=near(U._tw_cuml_kern(m + (m - x), m, h) + f, 1.0, 1e-9), centre=near(U._tw_cuml_kern(m, m, h), 0.5, 1e-12),
                         density=p >= 0, outside=jnp.logical_or(jnp.abs(x - m) <= 3 * h, p == 0), psym=near(U.triweight_gaussian(m + (m - x), m, h), p, 1e-9)), obs=dict(f=f, p=p))


def unit(z):
    """closed forms in the scaled coordinate"""
    u = z / 3
    # integral of 35/32 (1-u^2)^3 from -1 to u
    F = 0.5 + 35 / 32 * (u - u**3 + 0.6 * u**5 - u**7 / 7)
    ref = jnp.where(z <= -3, 0.0, jnp.where(z >= 3, 1.0, F))
    d = jnp.where(jnp.abs(z) <= 3, 35 / 96 * (1 - u**2) ** 3, 0.0)
    return out(goal=dict(cdf=near(U._tw_cuml_kern(z, 0.0, 1.0), ref, 1e-9), pdf=near(U.triweight_gaussian(z, 0.0, 1.0), d, 1e-9)))


def scale(x, m, h):
    z = (x - m) / h
    return out(goal=dict(cdf=near(U._tw_cuml_kern(x, m, h), U._tw_cuml_kern(z, 0.0, 1.0), 1e-9), pdf=near(U.triweight_gaussian(x, m, h) * h, U.triweight_gaussian(z, 0.0, 1.0), 1e-9)))


def mono(z, dz):
    f = lambda q: U._tw_cuml_kern(q, 0.0, 1.0)
    return out(goal=dict(mono=jnp.logical_or(f(z + dz) >= f(z), f(z + dz) >= f(z) - 1e-12)))


def deriv(x, m, h):
    g = jax.grad(U._tw_cuml_kern)(x, m, h)
    return out(goal=dict(d=near(g * h, U.triweight_gaussian(x, m, h) * h, 1e-9)))


def sig(x, m, h, lo, dy):
    s = U._tw_sigmoid(x, m, h, lo, lo + dy)
    t = U._tw_sig_slope(x, 0.3, 1.5, m, h, lo, lo + dy)
    return out(goal=dict(lo=s >= lo - 1e-9, hi=s <= lo + dy + 1e-9, form=near(s, lo + dy * U._tw_cuml_kern(x, m, h), 1e-9), slope=near(t, 1.5 + s * (x - 0.3), 1e-9)))


def hist(n):
    def fn(x, s, e):
        h = U.triweighted_histogram(x, s, e)
        c = lambda q: 1 - U._tw_cuml_kern(q, x, s)      # mass above
        ref = U._tw_cuml_kern(e[1:], x, s) - U._tw_cuml_kern(e[:-1], x, s)
        return out(goal=dict(shape=jnp.array(h.shape == (n - 1,)), entry=near(h, ref, 1e-9), total=near(jnp.sum(h), ref.sum(), 1e-9), telescope=near(jnp.sum(h), U._tw_cuml_kern(e[-1], x, s) - U._tw_cuml_kern(e[0], x, s), 1e-9)))
    return fn


def harnesses(tier):
    X = dict(x=Box(-10, 10), m=Box(-5, 5), h=Box(0.05, 5))
    hs = [H("body", X, body), H("unit", dict(z=Box(-5, 5)), unit), H("scale", X, scale), H("mono", dict(z=Box(-4, 4), dz=Box(0, 4)), mono), H("deriv", X, deriv),
          H("sigmoid", dict(X, lo=Box(-3, 3), dy=Box(0, 5)), sig)]
    for n in (4,) if tier == "quick" else (4, 8, 13):
        hs.append(H(f"hist{n}", dict(x=Box(-5, 5), s=Box(0.05, 3), e=Grid(n, -10, 10, (0.05, 4), start=(-8, 2))), hist(n)))
    return hs
