"""Expansion rate, critical density and matter fraction"""
from .cosmo import *


def basic(z, Om0, w0, wa, h):
    e = FW._Ez(z, Om0, w0, wa)
    r = E2(z, Om0, w0, wa)
    om = FW._Om_at_z(z, Om0, w0, wa)
    return out(goal=dict(square=near(e**2, r, 1e-9 * r), pos=e > 0, today=near(FW._Ez(0.0, Om0, w0, wa), 1.0, 1e-12),
                         rho=near(FW.rho_crit(z, Om0, w0, wa, h), 277.536627 * h**2 * r, 1e-6 * h**2 * r),
                         om=near(om * r, Om0 * (1 + z) ** 3, 1e-9 * r), om_pos=om > 0, om_le1=om <= 1,
                         om_today=near(FW._Om_at_z(0.0, Om0, w0, wa), Om0, 1e-12)),
               obs=dict(e=e, om=om))


def const():
    """critical density today is 3 H0^2 / (8 pi G)"""
    G = 4.30091e-6  # kpc (km/s)^2 / Msun
    def fn(h):
        return out(goal=dict(rho0=near(FW.rho_crit(0.0, 0.3, -1.0, 0.0, h), 3 * (0.1 * h) ** 2 / (8 * np.pi * G), 0.1 * h**2)))
    return fn


def mono_lcdm(z, dz, Om0, h):
    # matter fraction grows, expansion rate grows (checked through the squares: see goal square in basic)
    a, b = E2(z, Om0, -1.0, 0.0), E2(z + dz, Om0, -1.0, 0.0)
    return out(goal=dict(code=near(FW._Ez(z, Om0, -1.0, 0.0) ** 2, a, 1e-9 * a), e=b >= a, om=(1 + z + dz) ** 3 * a >= (1 + z) ** 3 * b))


def mono_w(z, dz, Om0, w0):
    """rho_de/matter never grows with redshift for w0 < 0 (constant equation of state)"""
    om = lambda q: FW._Om_at_z(q, Om0, w0, 0.0)
    de = lambda q: (1 + q) ** (3 * w0)
    return out(goal=dict(form=near(om(z) * (Om0 + (1 - Om0) * de(z)), Om0, 1e-9), falls=de(z + dz) <= de(z) + 1e-12))


def harnesses(tier):
    return [H("basic", dict(z=Box(0, 30), **WIDE), basic),
            H("highz", dict(z=Box(30, 1200), **WIDE), basic),
            H("rho0", dict(h=Box(0.4, 1.2)), const()),
            H("mono_lcdm", dict(z=Box(0, 20), dz=Box(0, 20), **LCDM), mono_lcdm),
            H("mono_w", dict(z=Box(0, 20), dz=Box(0, 20), Om0=Box(0.05, 0.95), w0=Box(-2, -0.1)), mono_w)]
