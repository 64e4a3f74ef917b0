"""Ages and lookback times"""
from .cosmo import *


def F(x, Om0, w0, wa):
    return 1 / E(x, Om0, w0, wa) / (1 + x)


# 1/(100 km/s/Mpc) in Gyr, from Mpc in cm and the year in seconds
TH100 = 1e-16 * 3.08567758149e24 / 31556925.2


def hub(h):
    """Hubble time of a present-day rate 100 h km/s/Mpc"""
    return TH100 / h


def lookback(z, Om0, w0, wa, h):
    t = FW.lookback_to_z(z, Om0, w0, wa, h)
    x = jnp.linspace(0, z, 512)
    return out(goal=dict(ref=near(t * h, TH100 * tz(x, F(x, Om0, w0, wa)), 1e-6), zero=near(FW.lookback_to_z(0.0, Om0, w0, wa, h), 0.0, 1e-12),
                         scale=near(FW.lookback_to_z(z, Om0, w0, wa, 2 * h) * 2, t, 1e-8)))


def age(z, Om0, w0, wa, h):
    t = FW.age_at_z(z, Om0, w0, wa, h)
    x = (1 + z) * jnp.logspace(0, 3, 512) - 1
    return out(goal=dict(shape=jnp.array(t.shape == (1,)), ref=near(t[0] * h, TH100 * tz(x, F(x, Om0, w0, wa)), 1e-6)))


def age0(Om0, w0, wa, h):
    t0 = FW.age_at_z0(Om0, w0, wa, h)
    x0 = jnp.logspace(0, 3, 512) - 1
    return out(goal=dict(t0=near(t0 * h, TH100 * tz(x0, F(x0, Om0, w0, wa)), 1e-6), z0=near(FW.age_at_z(0.0, Om0, w0, wa, h)[0], t0, 1e-6)))


def age_terms(z, dz, s, Om0):
    """age is a positive combination of 1/E((1+z) s - 1), s >= 1: each falls with z (w=-1)"""
    a, b = E2((1 + z) * s - 1, Om0, -1.0, 0.0), E2((1 + z + dz) * s - 1, Om0, -1.0, 0.0)
    return out(goal=dict(pos=a > 0, falls=b >= a), obs=dict(f=1 / jnp.sqrt(a)))


def positive(z, Om0, h):
    t = FW.age_at_z(z, Om0, -1.0, 0.0, h)[0]
    return out(goal=dict(pos=t > 0), obs=dict(t=t))


def falls(z, dz, Om0):
    """the integrand falls along the nodes, so the quadratures lie between rectangle sums (w=-1)"""
    g = lambda q: E2(q, Om0, -1.0, 0.0) * (1 + q) ** 2
    return out(goal=dict(falls=g(z + dz) >= g(z)))


def harnesses(tier):
    return [H("lookback", dict(z=Box(0.0, 20), **WIDE), lookback), H("lookback_highz", dict(z=Box(20, 1200), **WIDE), lookback), H("age", dict(z=Box(0, 1200), **WIDE), age, undef_ok=True),
            H("age0", WIDE, age0, undef_ok=True),
            H("age_terms", dict(z=Box(0, 1000), dz=Box(0, 1000), s=Box(1, 1000), Om0=Box(0.05, 0.95)), age_terms),
            H("falls", dict(z=Box(0, 1200), dz=Box(0, 1200), Om0=Box(0.05, 0.95)), falls),
            H("positive", dict(z=Box(0, 1200), **LCDM), positive)]
