"""Metallicity weights are a probability distribution"""
from .common import *
from dsps.sed.metallicity_weights import calc_lgmet_weights_from_lognormal_mdf, calc_lgmet_weights_from_lgmet_table


def lognormal(n):
    def fn(x, sig, g):
        w = calc_lgmet_weights_from_lognormal_mdf(x, sig, g)
        c = cut(w, "w")
        below = x < -10 - 3 * sig
        above = x > 10 + 3 * sig
        first = jnp.zeros(n).at[0].set(1.0)
        last = jnp.zeros(n).at[-1].set(1.0)
        return out(goal=dict(shape=jnp.array(w.shape == (n,)), nonneg=c >= -1e-12, sum1=near(c.sum(), 1.0),
                             le1=c <= 1 + 1e-9,
                             below=~below | near(w, first), above=~above | near(w, last)),
                   obs=dict(w=w))
    return fn


def harnesses(tier):
    hs = []
    for n in (3, 4, 6) if tier == "quick" else (3, 4, 5, 6, 8, 12):
        hs.append(H(f"lognormal{n}", dict(x=Box(-20, 20), sig=Box(0.01, 3), g=Grid(n, -5, 1, (0.05, 3), ratio=3)), lognormal(n),
                    note=f"{n} metallicities", outside="grids with adjacent spacing ratio above 3; scatter below 0.01"))
    return hs
