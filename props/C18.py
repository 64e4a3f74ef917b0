"""Comoving distance integrates c/H(z)"""
from .cosmo import *


def integral(z, Om0, w0, wa, h):
    d = FW.comoving_distance_to_z(z, Om0, w0, wa, h)
    x = jnp.linspace(0, z, 256)
    return out(goal=dict(ref=near(d * h, DH * tz(x, 1 / E(x, Om0, w0, wa)), 1e-7), zero=near(FW.comoving_distance_to_z(0.0, Om0, w0, wa, h), 0.0, 1e-12),
                         scale=near(FW.comoving_distance_to_z(z, Om0, w0, wa, 2 * h) * 2, d, 1e-7)))


def falls(z, dz, Om0):
    """1/E falls along the nodes, so the trapezoid lies between the rectangle sums (w=-1)"""
    a, b = E2(z, Om0, -1.0, 0.0), E2(z + dz, Om0, -1.0, 0.0)
    return out(goal=dict(falls=b >= a, at0=near(E2(0.0, Om0, -1.0, 0.0), 1.0, 1e-12)))


def positive(z, Om0, w0, wa, h):
    """every term of the quadrature is positive"""
    f = 1 / E(z, Om0, w0, wa)
    return out(goal=dict(term=f > 0), obs=dict(f=f))


def mono(z, dz, t, Om0):
    """every term z/E(z t) of the quadrature grows with z (t in [0,1] covers all nodes)"""
    a, b = E2(z * t, Om0, -1.0, 0.0), E2((z + dz) * t, Om0, -1.0, 0.0)
    return out(assume=dict(z=z + dz <= 2), goal=dict(term=(z + dz) ** 2 * a >= z**2 * b))


def harnesses(tier):
    hs = [H("integral", dict(z=Box(0.0, 20), **WIDE), integral), H("integral_highz", dict(z=Box(20, 1200), **WIDE), integral),
          H("falls", dict(z=Box(0, 1200), dz=Box(0, 1200), Om0=Box(0.05, 0.95)), falls, note="left and right rectangle sums bracket the quadrature"),
          H("positive", dict(z=Box(0, 1200), **WIDE), positive),
          H("mono", dict(z=Box(0, 2), dz=Box(0, 2), t=Box(0, 1), Om0=Box(0.05, 0.95)), mono, note="w=-1, z<=2", outside="z>2 or w!=-1: growth is not termwise")]
    return hs
