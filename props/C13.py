"""Photometry tables equal the single-object kernels entry by entry"""
from .phot import *
from dsps.photometry.photometry_kernels import calc_obs_mag, calc_rest_mag


# the single-object kernel itself is compared with the reference integral by C12
one = getattr(PK, "_calc_obs_mag_no_dimming", lambda ws, L, wf, T, z: mag(ref_flux(ws, L, wf, T, z)))


def tables(nz, nm, na, nf, nw, nt, u=1.0):
    def fn(flux, wf, tr, z, zk, Om0, w0, wa, h):
        ws = jnp.array(WS[:nw])
        flux = u * flux if u != 1 else flux
        a = PP.precompute_ssp_obsmags_on_z_table(ws, flux, wf, tr, z, Om0, w0, wa, h)
        b = PP.precompute_ssp_restmags(ws, flux, wf, tr)
        c = PP.precompute_ssp_restmags_z_kcorrect(ws, flux, wf, tr, zk)
        g = dict(shape=jnp.array(a.shape == (nz, nm, na, nf) and b.shape == c.shape == (nm, na, nf)))
        if a.shape == (nz, nm, na, nf) and b.shape == c.shape == (nm, na, nf):
            R = [[[calc_rest_mag(ws, flux[i, j], wf[k], tr[k]) for k in range(nf)] for j in range(na)] for i in range(nm)]
            K = [[[one(ws, flux[i, j], wf[k], tr[k], zk) for k in range(nf)] for j in range(na)] for i in range(nm)]
            O = [[[[calc_obs_mag(ws, flux[i, j], wf[k], tr[k], z[q], Om0, w0, wa, h) for k in range(nf)] for j in range(na)] for i in range(nm)] for q in range(nz)]
            g.update(rest=near(b, jnp.array(R)), kcorrect=near(c, jnp.array(K), 1e-8), obs=near(a, jnp.array(O), 1e-7))
        return out(goal=g)
    return fn


def kcorr(nm, na, nf):
    """k-corrected entries are observed magnitudes without the cosmological dimming"""
    def fn(flux, wf, tr, z, Om0, w0, wa, h):
        ws = jnp.array(WS[:5])
        c = PP.precompute_ssp_restmags_z_kcorrect(ws, flux, wf, tr, z)
        dim = PK.distance_modulus_to_z(z, Om0, w0, wa, h) - 2.5 * jnp.log10(1 + z)
        O = jnp.array([[[calc_obs_mag(ws, flux[i, j], wf[k], tr[k], z, Om0, w0, wa, h) for k in range(nf)] for j in range(na)] for i in range(nm)])
        return out(goal=dict(kcorrect=near(c + dim, O, 1e-7)))
    return fn


def harnesses(tier):
    C = dict(Om0=Box(0.1, 0.6), w0=Box(-1.5, -0.5), wa=Box(-0.5, 0.5), h=Box(0.5, 1))

    def mk(name, nz, nm, na, nf, nw, nt, u=1.0):
        lo = np.linspace(2500, 3000, nf)[:, None] + 900 * np.arange(nt)[None]
        wf = jnp.array(lo)
        f = tables(nz, nm, na, nf, nw, nt, u)
        return H(name, dict(flux=Box(0.01, 10, (nm, na, nw)), tr=Box(0.01, 1, (nf, nt)), z=Box(1e-4, 1.0, (nz,)), zk=Box(0, 0.5), **C),
                 lambda flux, tr, z, zk, Om0, w0, wa, h: f(flux, wf, tr, z, zk, Om0, w0, wa, h), patches=CUT_D, undef_ok=True)
    hs = [mk("z2m3a4f1", 2, 3, 4, 1, 5, 3), mk("z1m2a3f4", 1, 2, 3, 4, 4, 3), mk("z3m1a2f2", 3, 1, 2, 2, 6, 4), mk("faint", 2, 2, 1, 2, 5, 3, 2.0**-50)]
    wk = jnp.array(np.linspace(2500, 3000, 2)[:, None] + 900 * np.arange(3)[None])
    hs.append(H("kcorrect", dict(flux=Box(0.01, 10, (2, 1, 5)), tr=Box(0.01, 1, (2, 3)), z=Box(1e-4, 0.5), **C), lambda flux, tr, z, Om0, w0, wa, h: kcorr(2, 1, 2)(flux, wk, tr, z, Om0, w0, wa, h), patches=CUT_D, undef_ok=True))
    if tier == "thorough":
        hs.append(mk("z2m3a4f5", 2, 3, 4, 5, 6, 4))
    return hs
