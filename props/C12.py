"""Observed magnitudes = redshifted bandpass magnitude + cosmological dimming"""
from .phot import *
from dsps.photometry.photometry_kernels import calc_obs_mag, calc_rest_mag
from dsps.cosmology.flat_wcdm import luminosity_distance_to_z, distance_modulus_to_z

ws, wf = jnp.array(WS), jnp.array(WF)


def decomp(u=1.0):
    def fn(L, T, z, Om0, w0, wa, h):
        L = u * L if u != 1 else L
        m = calc_obs_mag(ws, L, wf, T, z, Om0, w0, wa, h)
        band = mag(ref_flux(ws, L, wf, T, z))
        dm = cut(distance_modulus_to_z(z, Om0, w0, wa, h), "dmod")
        nod = PK._calc_obs_mag_no_dimming(ws, L, wf, T, z)
        dim = PK._cosmological_dimming(z, Om0, w0, wa, h)
        return out(goal=dict(total=near(m, band + dm - 2.5 * jnp.log10(1 + z), 1e-7), band=near(nod, band, 1e-8),
                             dimming=near(dim, dm - 2.5 * jnp.log10(1 + z), 1e-7)))
    return fn


def dist():
    def fn(z, Om0, w0, wa, h):
        dl = luminosity_distance_to_z(z, Om0, w0, wa, h)
        return out(goal=dict(dimming=near(PK._cosmological_dimming(z, Om0, w0, wa, h), 5 * jnp.log10(dl * 1e6 / 10) - 2.5 * jnp.log10(1 + z), 1e-7)))
    return fn


def z0():
    def fn(L, T):
        return out(goal=dict(z0=near(PK._calc_obs_mag_no_dimming(ws, L, wf, T, 0.0), calc_rest_mag(ws, L, wf, T), 1e-9),
                             kc=near(PP.precompute_ssp_restmags_z_kcorrect(ws, L[None, None], wf[None], T[None], 0.0)[0, 0, 0], calc_rest_mag(ws, L, wf, T), 1e-9)))
    return fn


def table(n):
    def fn(zt, d, f):
        g = {}
        for k in range(n):
            g[f"knot{k}"] = near(PK._cosmological_dimming_from_table(zt[k], zt, d), d[k] - 2.5 * jnp.log10(1 + zt[k]), 1e-8)
        zz = zt[0] + f * (zt[1] - zt[0])
        g["between"] = near(PK._cosmological_dimming_from_table(zz, zt, d), d[0] + f * (d[1] - d[0]) - 2.5 * jnp.log10(1 + zz), 1e-7)
        return out(goal=g)
    return fn


def harnesses(tier):
    C = dict(Om0=Box(0.1, 0.6), w0=Box(-1.5, -0.5), wa=Box(-0.5, 0.5), h=Box(0.5, 1))
    LT = dict(L=Box(0.01, 10, (7,)), T=Box(0.01, 1, (5,)))
    return [H("lowz", dict(**LT, z=Box(1e-5, 0.3), **C), decomp(), patches=CUT_D, undef_ok=True, note="bandpass inside the spectrum"),
            H("faint", dict(**LT, z=Box(1e-5, 0.3), **C), decomp(2.0**-50), patches=CUT_D, undef_ok=True, note="spectra of realistic size, about 1e-15"),
            H("highz", dict(**LT, z=Box(1e-5, 6), **C), decomp(), patches=CUT_D, undef_ok=True),
            H("distance", dict(z=Box(1e-5, 10), **C), dist(), undef_ok=True),
            H("z0", LT, z0()),
            H("table", dict(zt=Grid(4, 0.001, 10, (0.01, 3)), d=Box(20, 60, (4,)), f=Box(0.01, 0.99)), table(4))]
