"""Rest-frame AB magnitudes: zero point, scaling, monotonicity, definition"""
from .phot import *
from dsps.photometry.photometry_kernels import calc_rest_mag, calc_rest_flux


def definition(ws, wf, u=1.0, ends=False):
    """u: scale of the spectrum; ends: transmission exactly zero at both ends of the filter"""
    ws, wf = jnp.array(ws), jnp.array(wf)

    def fn(L, T, L2, c):
        L, L2 = (u * L, u * L2) if u != 1 else (L, L2)
        T = jnp.concatenate([jnp.zeros(1), T, jnp.zeros(1)]) if ends else T
        f = calc_rest_flux(ws, L, wf, T)
        m, m2 = calc_rest_mag(ws, L, wf, T), calc_rest_mag(ws, L + L2, wf, T)
        F, F2 = cut(ref_flux(ws, L, wf, T), "F"), cut(ref_flux(ws, L + L2, wf, T), "F2")
        return out(goal=dict(flux=near(f, F, 1e-9 * F), flux2=near(calc_rest_flux(ws, L + L2, wf, T), F2, 1e-9 * F2), mag=near(m, mag(F), 1e-8), mag2=near(m2, mag(F2), 1e-8),
                             grows=F2 >= F - 1e-12 * u, pos=F > 0, brighter=mag(F2) <= mag(F) + 1e-8,
                             scale=near(calc_rest_flux(ws, c * L, wf, T), c * f, 1e-9 * c * f),
                             trans=near(calc_rest_flux(ws, L, wf, c * T), f, 1e-9 * f)),
                   obs=dict(m=m))
    return fn


def free(n, nf):
    """wavelength grids symbolic"""
    def fn(ws, wf, L, T):
        f = calc_rest_flux(ws, L, wf, T)
        src, ab = tz(wf, T * interp0(wf, ws, L) / wf), tz(wf, T / wf)
        return out(goal=dict(flux=near(f * PK.AB0 * ab, src, 1e-9)))
    return fn


def zero(ws, wf):
    ws, wf = jnp.array(ws), jnp.array(wf)

    def fn(T, c):
        L = jnp.full(len(ws), AB)
        m0 = calc_rest_mag(ws, L, wf, T)
        mc = calc_rest_mag(ws, c * jnp.full(len(ws), PK.AB0), wf, T)
        return out(goal=dict(zero=near(m0, 0.0, 1e-3), scaled=near(mc, -2.5 * jnp.log10(c), 1e-8)), obs=dict(m=m0))
    return fn


def harnesses(tier):
    d = dict(L=Box(0.01, 10, (7,)), T=Box(0.01, 1, (5,)), L2=Box(0, 10, (7,)), c=Box(0.01, 100))
    hs = [H("definition", d, definition(WS, WF)),
          H("partial", d, definition(WS * 0.5, WF), note="filter extends beyond the spectrum"),
          H("faint", d, definition(WS, WF, 2.0**-50), note="spectra of realistic size, about 1e-15 Lsun/Hz"), H("bright", d, definition(WS, WF, 2.0**36)),
          H("dim", dict(d, T=Box(1e-6, 1, (5,))), definition(WS, WF), note="transmissions down to 1e-6"),
          H("contrast", dict(d, L=Box(1e-6, 1e3, (7,)), L2=Box(0, 1e3, (7,))), definition(WS, WF), note="nine orders of magnitude between wavelengths"),
          H("ends", dict(d, T=Box(0.01, 1, (3,))), definition(WS, WF, 1.0, True), note="transmission zero at the filter's ends"),
          H("zero", dict(T=Box(0.01, 1, (5,)), c=Box(1e-6, 1e6)), zero(WS, WF)),
          H("zero200", dict(T=Box(0.01, 1, (200,)), c=Box(1e-6, 1e6)), zero(500 + 240.0 * np.arange(50), 3000 + 30.0 * np.arange(200))),
          H("realgrid", dict(L=Box(0.01, 10, (40,)), T=Box(0.01, 1, (30,)), L2=Box(0, 10, (40,)), c=Box(0.01, 100)),
            definition(1000 + 275.0 * np.arange(40), 3017 + 205.0 * np.arange(30))),
          H("freegrid", dict(ws=Grid(3, 1000, 9000, (100, 3000)), wf=Grid(3, 1000, 9000, (100, 3000)), L=Box(0.01, 10, (3,)), T=Box(0.01, 1, (3,))), free(3, 3))]
    return hs
