"""Bursty age weights"""
from .common import *
from dsps.sfh import diffburst as D

P = dict(lgfb=Box(-8, 0), pk=Box(5, 8), gap=Box(0.5, 4))
CUT = cut_calls((D, "_pureburst_age_weights_from_params", "burst"))


TW = cut_calls((D, "triweight_gaussian", "tw"))


def burst(g, j):
    """pure burst weights on a grid with at least one age inside the burst"""
    def fn(pk, gap):
        x = g + 9.0
        tw = D.triweight_gaussian(x, pk, gap / 3)
        b = D._pureburst_age_weights_from_params(x, pk, pk + gap)
        return out(assume=dict(inside=(x[j] > pk - gap) & (x[j] < pk + gap)),
                   goal=dict(shape=jnp.array(b.shape == x.shape), a_tw=tw >= 0, b_tw=tw[j] > 0, pos=b >= 0, one=near(jnp.sum(b), 1.0, 1e-9), prop=near(b * jnp.sum(tw), tw, 1e-9),
                             beyond=jnp.logical_or(x <= pk + gap, b == 0), before=jnp.logical_or(x >= pk - gap, b == 0)), obs=dict(b=b))
    return fn


def shape(g, j):
    """the profile is the triweight centred on the peak that vanishes at the maximum age"""
    def fn(pk, gap):
        x = g + 9.0
        u = (x - pk) / gap
        K = jnp.where(jnp.abs(u) < 1, (1 - u**2) ** 3, 0.0)
        return out(goal=dict(form=near(D.triweight_gaussian(x, pk, gap / 3) * gap * 32 / 35, K, 1e-9)))
    return fn


def mix(g):
    n = len(g)

    def fn(lgfb, pk, gap, s):
        mx = pk + gap
        b = D._pureburst_age_weights_from_params(g + 9.0, pk, mx)
        fb = 10.0**lgfb
        ref = fb * b + (1 - fb) * s
        a1 = D.calc_bursty_age_weights(D.BurstParams(lgfb, pk, mx), s, g)
        a2 = D._compute_bursty_age_weights_from_params(g + 9.0, s, D.BurstParams(lgfb, pk, mx))
        return out(goal=dict(shape=jnp.array(a1.shape == (n,)), public=near(a1, ref, 1e-9), lgyr=near(a2, ref, 1e-9), total=near(jnp.sum(a1), fb * jnp.sum(b) + (1 - fb) * jnp.sum(s), 1e-9)))
    return fn


def convex(n):
    """with b and s distributions and 0<=fb<=1 the mixture is one too"""
    def fn(lgfb, s, b):
        fb = 10.0**lgfb
        a = fb * b + (1 - fb) * s
        return out(goal=dict(pos=a >= 0))
    return fn


def upars(g):
    def fn(u, s):
        p = D._get_params_from_u_params(D.BurstUParams(*u))
        r = D.calc_bursty_age_weights(p, s, g)
        return out(goal=dict(public=near(D.calc_bursty_age_weights_from_u_params(D.BurstUParams(*u), s, g), r, 1e-9),
                             lgyr=near(D._compute_bursty_age_weights_from_u_params(g + 9.0, s, D.BurstUParams(*u)), r, 1e-9)))
    return fn


def upure(g):
    def fn(u):
        p = D._get_params_from_u_params(D.BurstUParams(0.0, u[0], u[1]))
        return out(goal=dict(pure=near(D._pureburst_age_weights_from_u_params(g + 9.0, u[0], u[1]), D._pureburst_age_weights_from_params(g + 9.0, p.lgyr_peak, p.lgyr_max), 1e-9)))
    return fn


def harnesses(tier):
    G = {"lga6": (np.array([-3.5, -2.75, -2.0, -1.25, -0.5, 0.5]), 2)}
    if tier != "quick":
        G["lga20"] = (LGA20, 8)
        G["lga5"] = (LGA5, 1)
    hs = []
    B = dict(pk=P["pk"], gap=P["gap"])
    for nm, (g, j) in G.items():
        n = len(g)
        S = Box(0, 1, (n,))
        hs += [H(f"burst_{nm}", B, burst(g, j), patches=TW, use_facts=True), H(f"shape_{nm}", B, shape(g, j), undef_ok=True), H(f"mix_{nm}", dict(P, s=S), mix(g), patches=CUT, undef_ok=True, opaque=True),
               H(f"upars_{nm}", dict(u=Box(-50, 50, (3,)), s=S), upars(g), undef_ok=True, patches=CUT), H(f"upure_{nm}", dict(u=Box(-50, 50, (2,))), upure(g), undef_ok=True, patches=CUT)]
    hs.append(H("convex", dict(lgfb=Box(-8, 0), s=Box(0, 1, (3,)), b=Box(0, 1, (3,))), convex(3), note="a convex mixture of distributions is a distribution"))
    return hs
