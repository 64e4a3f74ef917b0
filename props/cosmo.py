"""independent reference formulas for flat w0-wa cosmologies"""
from .common import *
from dsps.cosmology import flat_wcdm as FW

WIDE = dict(Om0=Box(0.05, 0.95), w0=Box(-2.5, -0.3), wa=Box(-1.0, 1.0), h=Box(0.3, 1.5))
# expansion rate increasing with redshift
NORM = dict(Om0=Box(0.2, 0.5), w0=Box(-1.1, -0.8), wa=Box(-0.2, 0.2), h=Box(0.5, 1.0))
LCDM = dict(Om0=Box(0.05, 0.95), h=Box(0.4, 1.2))


def E2(z, Om0, w0, wa):
    p = 1.0 + z
    return Om0 * p**3 + (1.0 - Om0) * (1.0 / p) ** (-3.0 * (1.0 + w0 + wa)) * jnp.exp(-3.0 * wa * (1.0 - 1.0 / p))


def E(z, Om0, w0, wa):
    return jnp.sqrt(E2(z, Om0, w0, wa))


TH = 3.08567758149e19 / 100.0 / (31556925.2e9)   # 1/(100 km/s/Mpc) in Gyr
DH = 299792.458 / 100.0                          # c/(100 km/s/Mpc) in Mpc


def tz(x, y):
    return 0.5 * jnp.sum((x[1:] - x[:-1]) * (y[1:] + y[:-1]))
