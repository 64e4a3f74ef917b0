"""Virial dynamical time"""
from .cosmo import *


def fn(z, Om0, w0, wa, h):
    t = FW.virial_dynamical_time(z[None], Om0, w0, wa, h)
    e2 = E2(z, Om0, w0, wa)
    y = cut(Om0 * (1 + z) ** 3 / e2 - 1, "x")
    delta = cut(18 * jnp.pi**2 + 82 * y - 39 * y**2, "delta")
    th = TH / (h * jnp.sqrt(e2))
    # t = 2^1.5 th / sqrt(delta), squared to stay polynomial
    t = t[0]
    return out(goal=dict(xlo=y >= -1, xhi=y <= 0, delta=delta >= 56, pos=t > 0, ref=near(t * jnp.sqrt(delta) * h, 2**1.5 * TH / jnp.sqrt(e2), 1e-6),
                         dv=near(FW._delta_vir(z[None], Om0, w0, wa)[0], delta, 1e-7), hub=near(FW._hubble_time(z, Om0, w0, wa, h) * h * jnp.sqrt(e2), TH, 1e-6)),
               obs=dict(t=t))


def harnesses(tier):
    return [H("z", dict(z=Box(0, 20), **WIDE), fn), H("highz", dict(z=Box(20, 1200), **WIDE), fn)]
