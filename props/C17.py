"""Distance measures are mutually consistent"""
from .cosmo import *

CUT = cut_calls((FW, "comoving_distance_to_z", "dc"))


def fn(z, Om0, w0, wa, h):
    c = (Om0, w0, wa, h)
    d = FW.comoving_distance_to_z(z, *c)
    dl, da = FW.luminosity_distance_to_z(z, *c), FW.angular_diameter_distance_to_z(z, *c)
    return out(goal=dict(lum=near(dl, d * (1 + z), 1e-6), ang=near(da * (1 + z), d, 1e-6), ratio=near(dl, da * (1 + z) ** 2, 1e-6)))


def mod(z, Om0, w0, wa, h):
    c = (Om0, w0, wa, h)
    dl = FW.luminosity_distance_to_z(z, *c)
    return out(goal=dict(mod=near(FW.distance_modulus_to_z(z, *c), 5 * jnp.log10(dl * 1e6 / 10), 1e-6)))


def vol(z, Om0, w0, wa, h):
    c = (Om0, w0, wa, h)
    d = FW.comoving_distance_to_z(z, *c)
    vol = FW.differential_comoving_volume_at_z(z, *c)
    return out(goal=dict(hub=near(FW.hubble_distance_mpc(h) * h, DH, 1e-6), vol=near(vol * h * E(z, Om0, w0, wa), DH * d**2, 10.0)))


def harnesses(tier):
    hs = []
    for nm, b in (("z", Box(0.0, 20)), ("highz", Box(20, 1200))):
        for f in (fn, mod, vol):
            hs.append(H(f"{nm}_{f.__name__}", dict(z=b, **WIDE), f, patches=CUT, undef_ok=True, opaque=True, note="z in [0,20]" if nm == "z" else "z in [20,1200]"))
    return hs
