"""Vectorised cosmology functions are the scalar ones applied elementwise"""
from .cosmo import *

PAIRS = [("comoving_distance", "comoving_distance_to_z"), ("luminosity_distance", "luminosity_distance_to_z"),
         ("angular_diameter_distance", "angular_diameter_distance_to_z"), ("distance_modulus", "distance_modulus_to_z"),
         ("lookback_time", "lookback_to_z"), ("differential_comoving_volume", "differential_comoving_volume_at_z")]


def pair(v, s):
    def fn(z, Om0, w0, wa, h):
        a = getattr(FW, v)(z, Om0, w0, wa, h)
        b = jnp.stack([getattr(FW, s)(q, Om0, w0, wa, h) for q in z])
        g = dict(shape=jnp.array(a.shape == z.shape))
        if a.shape == z.shape:
            g["same"] = near(a, b, 1e-7)
        return out(goal=g)
    return fn


def age(z, Om0, w0, wa, h):
    a = FW.age_at_z(z, Om0, w0, wa, h)
    b = jnp.stack([FW.age_at_z(q, Om0, w0, wa, h)[0] for q in z])
    c = FW._Om(z, Om0, w0, wa)
    d = jnp.stack([FW._Om_at_z(q, Om0, w0, wa) for q in z])
    e = FW.virial_dynamical_time(z, Om0, w0, wa, h)
    f = jnp.stack([FW.virial_dynamical_time(q[None], Om0, w0, wa, h)[0] for q in z])
    return out(goal=dict(age=near(a, b, 1e-8), om=near(c, d, 1e-9), vir=near(e, f, 1e-8), rho=near(FW.rho_crit(z, Om0, w0, wa, h), jnp.stack([FW.rho_crit(q, Om0, w0, wa, h) for q in z]), 1e-7)))


def harnesses(tier):
    hs = []
    # redshifts in free order, then in two fixed orders: an implementation that reorders has few cases there
    for nm, b in (("", Box(0.0, 20, (3,))), ("_down", Box([6.0, 1.0, 0.0], [1000.0, 5.0, 0.9], (3,))), ("_mixed", Box([1.0, 30.0, 0.0], [5.0, 1000.0, 0.9], (3,)))):
        I = dict(z=b, **WIDE)
        J = dict(z=Box(np.maximum(b.lo, 1e-4), b.hi, (3,)), **WIDE)   # the modulus at z=0 is minus infinity
        hs += [H(v + nm, J if s == "distance_modulus_to_z" else I, pair(v, s), undef_ok=True, prune=False) for v, s in PAIRS] + [H("age" + nm, I, age, undef_ok=True, prune=False)]
    return hs
