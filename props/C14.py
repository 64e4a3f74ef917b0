"""Coverage of filter and spectrum: zero outside, locality, linearity"""
from .phot import *
from dsps.photometry.photometry_kernels import calc_rest_flux, calc_obs_mag

ws, wf = jnp.array(WS), jnp.array(WF)


def kflux(L, T, z):
    """flux through the filter at redshift z, relative to AB, through the public table"""
    return 10 ** (-0.4 * PP.precompute_ssp_restmags_z_kcorrect(ws, L[None, None], wf[None], T[None], z)[0, 0, 0])


def linear(u=1.0):
    def fn(L, M, T, z, c):
        s = lambda v: v if u == 1 else v * (1 / u)
        t = lambda v: v if u == 1 else u * v
        of = lambda l: s(PK._obs_flux_ssp(ws, t(l), wf, T, z))
        rf = lambda l: s(calc_rest_flux(ws, t(l), wf, T))
        return out(goal=dict(obs=near(of(L + c * M), of(L) + c * of(M), 1e-9), rest=near(PK.AB0 * rf(L + c * M), PK.AB0 * (rf(L) + c * rf(M)), 1e-9),
                             ref=near(of(L), tz(wf, T * interp0(wf, ws * (1 + z), L) / wf), 1e-9), nonneg=of(L) >= -1e-12))
    return fn


def positive():
    def fn(L, T, z):
        return out(goal=dict(f=near(mag(kflux(L, T, z)), mag(ref_flux(ws, L, wf, T, z)), 1e-8)))
    return fn


def outside():
    """the spectrum is redshifted completely past the filter, or ends below it"""
    def fn(L, T, z):
        a = PK._obs_flux_ssp(ws, L, wf, T, z)           # (1+z)*1000 > 6500
        b = calc_rest_flux(ws * 0.1, L, wf, T)          # ends at 1100
        c = calc_rest_flux(ws * 10.0, L, wf, T)         # starts at 10000
        d = PK._obs_flux_ssp(ws * 0.1, L, wf, T, z * 0.01)
        return out(goal=dict(red=near(a, 0.0, 1e-12), blue=near(b, 0.0, 1e-12), above=near(c, 0.0, 1e-12), zlow=near(d, 0.0, 1e-12)))
    return fn


def local():
    """spectrum values more than one grid step outside the filter are irrelevant"""
    def fn(L, M, T, z):
        used = (ws * (1 + z) >= 2000.0 * 1.0) & (ws <= 8000.0)
        L2 = jnp.where(jnp.arange(7) == 0, M, jnp.where(jnp.arange(7) == 6, M, L))   # 1000 and 11000 Angstrom
        a, b = [calc_rest_flux(ws, x, wf, T) for x in (L, L2)]
        # at redshift z <= 0.3 the filter samples at most 2307..6500 in the rest frame
        c, d = [PK._obs_flux_ssp(ws, x, wf, T, z) for x in (L, L2)]
        return out(goal=dict(rest=near(a, b, 1e-9), obs=near(c, d, 1e-12)))
    return fn


def harnesses(tier):
    LT = dict(L=Box(0, 10, (7,)), T=Box(0, 1, (5,)))
    P = dict(L=Box(0, 10, (7,)), T=Box(0.01, 1, (5,)))
    return [H("linear", dict(L=Box(0, 10, (7,)), M=Box(0, 10, (7,)), T=Box(0.01, 1, (5,)), z=Box(0, 6), c=Box(0, 5)), linear()),
            H("faint", dict(L=Box(0, 10, (7,)), M=Box(0, 10, (7,)), T=Box(0.01, 1, (5,)), z=Box(0, 6), c=Box(0, 5)), linear(2.0**-50), note="spectra of realistic size, about 1e-15"),
            H("positive", dict(L=Box(0.01, 10, (7,)), T=Box(0.01, 1, (5,)), z=Box(0, 1.9)), positive()),
            H("outside", dict(**P, z=Box(5.6, 30)), outside()),
            H("local", dict(L=Box(0, 10, (7,)), M=Box(0, 1000), T=Box(0.01, 1, (5,)), z=Box(0, 0.3)), local())]
