"""Mass-metallicity relation and its evolution"""
from .common import *
from dsps.metallicity import umzr as M, mzr as M1

SUN = float(np.log10(0.012))
T0 = dict(ytp=Box(-1.0, 0.25), x0=Box(10.25, 10.75), k=Box(0.5, 2), lo=Box(0.1, 1.0), hi=Box(0.0, 1.0))
EV = dict(c0=Box(-2, -1), c1=Box(0, 0.5), e0=Box(-1.5, -0.5), e1=Box(0, 0.5))
SM = Box(5, 12.5)


def t0(m, ytp, x0, k, lo, hi):
    z = M.mzr_model_t0(m, ytp, x0, k, lo, hi)
    d = z - (ytp + SUN)
    a, b = lo * (m - 10.5), hi * (m - 10.5)
    s = 1 / (1 + jnp.exp(-k * (m - x0)))
    return out(goal=dict(pivot=near(M.mzr_model_t0(10.5, ytp, x0, k, lo, hi), ytp + SUN, 1e-9), form=near(d, (lo + (hi - lo) * s) * (m - 10.5), 1e-9), between=(d - a) * (d - b) <= 1e-9), obs=dict(z=z))


def orig(m, ytp, x0, k, lo, hi):
    z = M1.mzr_model_t0(m, ytp, x0, k, lo, hi)
    s = 1 / (1 + jnp.exp(-k * (m - x0)))
    return out(goal=dict(form=near(z, ytp + SUN + (lo + (hi - lo) * s) * (m - x0), 1e-9),
                         same=near(M1.mzr_model_t0(m, ytp, 10.5, k, lo, hi), M.mzr_model_t0(m, ytp, 10.5, k, lo, hi), 1e-9)))


def evol(m, t, c0, c1, e0, e1):
    dz = M.mzr_evolution_model(m, t, c0, c1, e0, e1)
    y, e = c0 + c1 * m, e0 + e1 * m
    tl = jnp.where(12.5 - t < 0, 0.0, 12.5 - t)
    late = y / 8.44
    s = jax.nn.sigmoid(1.6 * (tl - 8.44))
    ref = y + (late + (e - late) * s) * (tl - 8.44)
    ref = jnp.where(ref > 0, 0.0, ref)
    return out(goal=dict(nonpos=dz <= 0, form=near(dz, ref, 1e-9), same=near(M1.mzr_evolution_model(m, t, c0, c1, 8.44, e0, e1), dz, 1e-9)), obs=dict(dz=dz))


def today(m, t, c0, c1, e0, e1):
    dz = M.mzr_evolution_model(m, 12.5 + t, c0, c1, e0, e1)
    return out(goal=dict(zero=dz >= -1e-3, const=near(dz, M.mzr_evolution_model(m, 12.5, c0, c1, e0, e1), 1e-12)))


def full(m, t, ytp, x0, k, lo, hi, c0, c1, e0, e1):
    z = M.mzr_model(m, t, ytp, x0, k, lo, hi, c0, c1, e0, e1)
    z0 = M.mzr_model_t0(m, ytp, x0, k, lo, hi)
    dz = M.mzr_evolution_model(m, t, c0, c1, e0, e1)
    a = M1.mzr_model(m, t, ytp, x0, k, lo, hi, c0, c1, 8.44, e0, e1)
    return out(goal=dict(sum=near(z, z0 + dz, 1e-9), orig=near(a, M1.mzr_model_t0(m, ytp, x0, k, lo, hi) + dz, 1e-9), below=z <= z0 + 1e-12,
                         pivots=near(M1.mzr_model(m, t, ytp, 10.5, k, lo, hi, c0, c1, 8.44, e0, e1), M.mzr_model(m, t, ytp, 10.5, k, lo, hi, c0, c1, e0, e1), 1e-9)))


def maiolino(m, m0, k0):
    z = M1.maiolino08_metallicity_evolution(m, m0, k0)
    return out(goal=dict(form=near(z, -12 - 0.0864 * (m - m0) ** 2 + k0, 1e-9), peak=z <= M1.maiolino08_metallicity_evolution(m0, m0, k0) + 1e-9))


def harnesses(tier):
    t = Box(0, 14)
    return [H("present", dict(m=SM, **T0), t0), H("original", dict(m=SM, **T0), orig), H("evolution", dict(m=SM, t=t, **EV), evol), H("today", dict(m=SM, t=Box(0, 5), **EV), today),
            H("full", dict(m=SM, t=t, **T0, **EV), full), H("maiolino", dict(m=SM, m0=Box(11, 13), k0=Box(8, 10)), maiolino)]
