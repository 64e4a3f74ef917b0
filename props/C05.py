"""Metallicity weights are localised at, and ordered by, the mean metallicity"""
from .common import *
from dsps.sed.metallicity_weights import calc_lgmet_weights_from_lognormal_mdf as lognormal


def uniform_edges(g0, dg, n):
    return jnp.concatenate([jnp.array([-10.0]), g0 + dg * (jnp.arange(n - 1) + 0.5), jnp.array([10.0])])


def local(n):
    def fn(x, sig, g0, dg):
        g = g0 + dg * jnp.arange(n)
        e = uniform_edges(g0, dg, n)
        w = lognormal(x, sig, g)
        far = (e[:-1] >= x + 3 * sig) | (e[1:] <= x - 3 * sig)
        inside = (e[:-1] <= x - 3 * sig) & (e[1:] >= x + 3 * sig)
        return out(goal=dict(far=~far | near(w, 0.0), inside=~inside | near(w, 1.0)), obs=dict(w=w))
    return fn


def K(z):
    """triweight CDF of a standard deviate"""
    t = jnp.clip(z / 3, -1.0, 1.0)
    return 0.5 + (35 * t - 35 * t**3 + 21 * t**5 - 5 * t**7) / 32


def order(n):
    def fn(x, sig, g0, dg):
        w = lognormal(x, sig, g0 + dg * jnp.arange(n))
        e = uniform_edges(g0, dg, n)
        return out(goal=dict(cum=near(jnp.cumsum(w)[:-1], 1 - K((x - e[1:-1]) / sig))))
    return fn


def mono():
    def fn(a, d):
        # the cumulative weight is 1 - K, which can only fall when the mean rises
        return out(goal=dict(falls=K(a + d) >= K(a)), obs=dict(k=K(a)))
    return fn


def center():
    def fn(sig, g0, dg):
        g = g0 + dg * jnp.arange(3)
        w = lognormal(g[1], sig, g)
        return out(goal=dict(sym=near(w[0], w[2]), peak=(sig > 0.5 * dg) | (w[1] >= w[0])))
    return fn


def harnesses(tier):
    hs = []
    for n in (3, 5):
        hs.append(H(f"local{n}", dict(x=Box(-9, 9), sig=Box(1e-3, 1.5), g0=Box(-4, -2), dg=Box(0.05, 1)), local(n),
                    note="evenly spaced grids, all scatters and means"))
    for n in (3, 4, 12):
        hs.append(H(f"cum{n}", dict(x=Box(-7, 7), sig=Box(1e-3, 1), g0=Box(-4, -2), dg=Box(0.05, 0.2)), order(n),
                    note="cumulative weight of the metal-poor bins is one minus the triweight CDF of (mean-edge)/scatter"))
    hs.append(H("mono", dict(a=Box(-20, 20), d=Box(0, 20)), mono(),
                note="... and that CDF never falls, so raising the mean never favours metal-poor bins"))
    hs.append(H("center", dict(sig=Box(1e-3, 1.5), g0=Box(-4, -2), dg=Box(0.05, 1)), center()))
    return hs
