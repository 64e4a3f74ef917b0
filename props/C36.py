"""Surviving and remnant mass fractions; the age axis is covered by adjoining slices"""
from .common import *
from dsps.imf import surviving_mstar as S, remnant_mass as R

IMFS = ("SALPETER", "CHABRIER", "KROUPA", "VAN_DOKKUM")


def slices(lo, hi, d):
    n = int(round((hi - lo) / d))
    return lo + d * np.arange(n)


def ages(w, nodes):
    return nodes + w


def surv(P, nodes):
    def fn(w):
        x = nodes + w
        f = S.surviving_mstar(x, **P)
        return out(goal=dict(ge0=f >= 0, le1=f <= 1), obs=dict(f=f))
    return fn


def young(P, nodes):
    def fn(w):
        return out(goal=dict(one=S.surviving_mstar(nodes + w, **P) >= 0.97))
    return fn


def declines(P, nodes):
    def fn(w):
        g = jax.vmap(jax.grad(lambda x: S.surviving_mstar(x, **P)))(nodes + w)
        return out(goal=dict(falls=g <= 0))
    return fn


def rem(P, nodes):
    def fn(w):
        x = nodes + w
        f = R.remnant_mass(x, **P)
        g = jax.vmap(jax.grad(lambda q: R.remnant_mass(q, **P)))(x)
        return out(goal=dict(pos=f > 0, lt1=f < 1, grows=g >= 0), obs=dict(f=f))
    return fn


def forms(SP, RP, rs, rr):
    """rs, rr: the published calibration of this initial mass function"""
    def fn(x):
        s = lambda q, x0, k, a, b: a + (b - a) * jax.nn.sigmoid(k * (q - x0))
        z = rs[0] + s(x, 8.0, 10**-0.5, rs[1], 0.08) * (x - 8.0)
        r = s(x, 6.5, 10**0.7, 0.005, z)
        lr = rr + s(x, 7.0, 10.0, 1.3, 0.2) * (x - 7.0)
        return out(goal=dict(surv=near(S.surviving_mstar(x, **SP), 1 - r, 1e-9), rem=near(R.remnant_mass(x, **RP), 10**lr, 1e-9)))
    return fn


REF_S = dict(SALPETER=(0.13, 0.055), CHABRIER=(0.225, 0.145), KROUPA=(0.211, 0.13), VAN_DOKKUM=(0.238, 0.156))
REF_R = dict(SALPETER=-1.67, CHABRIER=-1.42, KROUPA=-1.45, VAN_DOKKUM=-1.4)


def default(x):
    return out(goal=dict(chab=near(S.surviving_mstar(x), S.surviving_mstar(x, **S.CHABRIER_PARAMS), 1e-12), rchab=near(R.remnant_mass(x), R.remnant_mass(x, **R.CHABRIER_PARAMS), 1e-12)))


def harnesses(tier):
    d = 0.1 if tier == "quick" else 0.05
    hs = [H("default", dict(x=Box(0, 11)), default)]
    for n in IMFS:
        P, Q = dict(getattr(S, n + "_PARAMS")), dict(getattr(R, n + "_PARAMS"))
        hs.append(H(f"{n}_forms", dict(x=Box(0, 11)), forms(P, Q, REF_S[n], REF_R[n])))
        a = slices(3, 10.5, d)
        hs.append(H(f"{n}_fraction", dict(w=Box(0, d, (len(a),))), surv(P, a), note="log10 age/yr in [3,10.5]"))
        b = slices(3, 5.5, d)
        hs.append(H(f"{n}_young", dict(w=Box(0, d, (len(b),))), young(P, b), note="newborn: up to 0.3 Myr"))
        c = slices(6.5, 10.5, d)
        hs.append(H(f"{n}_declines", dict(w=Box(0, d, (len(c),))), declines(P, c), note="from 3 Myr"))
        e = slices(5, 10.2, d)
        hs.append(H(f"{n}_remnant", dict(w=Box(0, d, (len(e),))), rem(Q, e), note="log10 age/yr in [5,10.2]"))
    return hs
