"""shared by the photometry checks: independent reference integrals"""
from .common import *
from dsps.photometry import photometry_kernels as PK
from dsps.photometry import photpop as PP

AB = 3631e-23 * 4 * np.pi * (10 * 3.0856775814913673e18) ** 2 / 3.828e33   # 3631 Jy at 10 pc, Lsun/Hz
CUT_D = cut_calls((PK, "distance_modulus_to_z", "dmod"))


def interp0(x, xp, fp):
    """linear interpolation, zero outside [xp[0], xp[-1]]"""
    return jnp.interp(x, xp, fp, left=0, right=0)


def tz(x, y):
    return sum(0.5 * (x[k] - x[k - 1]) * (y[k] + y[k - 1]) for k in range(1, x.shape[0]))


def ref_flux(ws, L, wf, T, z=0.0):
    """photon flux through the filter relative to the AB reference"""
    lum = interp0(wf, ws * (1 + z), L)
    return tz(wf, T * lum / wf) / tz(wf, T * PK.AB0 / wf)


def mag(f):
    return -2.5 * jnp.log10(f)


WS = np.array([1000.0, 2000, 3500, 5000, 6000, 8000, 11000])
WF = np.array([3000.0, 3750, 4500, 5500, 6500])
