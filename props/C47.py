"""Photometry does not depend on how spectrum and filter happen to be tabulated"""
from .phot import *
from dsps.photometry.photometry_kernels import calc_rest_flux, calc_rest_mag


def kc(ws, L, wf, T, z):
    return PP.precompute_ssp_restmags_z_kcorrect(ws, L[None, None], wf[None], T[None], z)[0, 0, 0]


def insert(k, WSX, wf):
    """a wavelength inserted into segment k of the spectrum, on the straight line (k=-1, n: a tail of zero... is not added)"""
    a, b = WSX[k], WSX[k + 1]

    def fn(L, T, u):
        ws = jnp.array(WSX)
        x, y = a + u * (b - a), L[k] + u * (L[k + 1] - L[k])
        ws2 = jnp.concatenate([ws[:k + 1], x[None], ws[k + 1:]])
        L2 = jnp.concatenate([L[:k + 1], y[None], L[k + 1:]])
        f, f2 = calc_rest_flux(ws, L, wf, T), calc_rest_flux(ws2, L2, wf, T)
        return out(goal=dict(flux=near(f2, f, 1e-9 * f)))
    return fn


def insert_z(k, z):
    a, b = WS[k], WS[k + 1]

    def fn(L, T, u):
        ws, wf = jnp.array(WS), jnp.array(WF)
        x, y = a + u * (b - a), L[k] + u * (L[k + 1] - L[k])
        ws2 = jnp.concatenate([ws[:k + 1], x[None], ws[k + 1:]])
        L2 = jnp.concatenate([L[:k + 1], y[None], L[k + 1:]])
        return out(goal=dict(mag=near(kc(ws2, L2, wf, T, z), kc(ws, L, wf, T, z), 1e-8)))
    return fn


def pad(nl, nr, u=1.0):
    """a filter that vanishes at its ends may be padded with zeros, anywhere"""
    def fn(L, T, dl, dr, z):
        ws = jnp.array(WS)
        wf = jnp.array(WF)
        L = u * L if u != 1 else L
        T = jnp.concatenate([jnp.zeros(1), T, jnp.zeros(1)])
        lo = wf[0] - jnp.cumsum(dl)[::-1]
        hi = wf[-1] + jnp.cumsum(dr)
        wf2 = jnp.concatenate([lo, wf, hi])
        T2 = jnp.concatenate([jnp.zeros(nl), T, jnp.zeros(nr)])
        return out(goal=dict(rest=near(calc_rest_mag(ws, L, wf2, T2), calc_rest_mag(ws, L, wf, T), 1e-8), obs=near(kc(ws, L, wf2, T2, z), kc(ws, L, wf, T, z), 1e-8)))
    return fn


def tail(u=1.0):
    """a spectrum may be continued beyond the wavelengths the filter sees, with any values"""
    def fn(L, T, E, z):
        ws, wf = jnp.array(WS), jnp.array(WF)
        L, E = (u * L, u * E) if u != 1 else (L, E)
        ws2 = jnp.concatenate([jnp.array([100.0, 400.0]), ws, jnp.array([15000.0, 30000.0])])
        L2 = jnp.concatenate([E[:2], L, E[2:]])
        return out(goal=dict(rest=near(calc_rest_mag(ws2, L2, wf, T), calc_rest_mag(ws, L, wf, T), 1e-8), obs=near(kc(ws2, L2, wf, T, z), kc(ws, L, wf, T, z), 1e-8)))
    return fn


def harnesses(tier):
    wf = jnp.array(WF)
    LT = dict(L=Box(0.01, 10, (7,)), T=Box(0.01, 1, (5,)))
    hs = [H(f"insert{k}", dict(**LT, u=Box(0.01, 0.99)), insert(k, WS, wf), undef_ok=True) for k in range(6)]
    hs += [H(f"insert{k}_z", dict(**LT, u=Box(0.01, 0.99)), insert_z(k, 0.625), undef_ok=True) for k in ((1, 2) if tier == "quick" else range(6))]
    P = dict(L=Box(0.01, 10, (7,)), T=Box(0.01, 1, (3,)))
    hs += [H(f"pad{a}{b}", dict(**P, dl=Box(1, 200, (a,)), dr=Box(1, 200, (b,)), z=Box(0.32, 0.4)), pad(a, b), undef_ok=True) for a, b in ((1, 1), (2, 3))]
    hs.append(H("pad_faint", dict(**P, dl=Box(1, 200, (1,)), dr=Box(1, 200, (1,)), z=Box(0.32, 0.4)), pad(1, 1, 2.0**-50), undef_ok=True, note="spectra of realistic size"))
    hs.append(H("tail", dict(**LT, E=Box(0, 1e12, (4,)), z=Box(0.0, 1.5)), tail(), undef_ok=True))
    hs.append(H("tail_faint", dict(**LT, E=Box(0, 1e12, (4,)), z=Box(0.0, 1.5)), tail(2.0**-50), undef_ok=True, note="spectra of realistic size"))
    return hs
