"""Automatic derivatives.  The derivative programs are what JAX derives from the real functions
(forward mode: jvp, reverse mode: grad), executed symbolically like any other jaxpr."""
from .common import *
from dsps import utils as U
from dsps.sed import calc_rest_sed_sfh_table_lognormal_mdf
from dsps.sed.metallicity_weights import calc_lgmet_weights_from_lognormal_mdf
from dsps.sed.stellar_age_weights import calc_age_weights_from_sfh_table
from dsps.photometry.photometry_kernels import calc_rest_mag
from dsps.dust import att_curves as A

LN10 = float(np.log(10))


def kern(x, m, h):
    """cumulative triweight, in all three arguments"""
    z = (x - m) / h
    u = z / 3
    d = jnp.where((z < -3) | (z > 3), 0.0, 35 / 96 * (1 - u**2) ** 3)
    gx, gm, gh = jax.grad(U._tw_cuml_kern, argnums=(0, 1, 2))(x, m, h)
    return out(goal=dict(x=near(gx * h, d, 1e-9), m=near(gm * h, -d, 1e-9), h=near(gh * h, -z * d, 1e-9)), obs=dict(gx=gx, gm=gm, gh=gh))


def sigmoid(x, x0, k, lo, dy):
    hi = lo + dy
    gx, g0, gk, gl, gh = jax.grad(U._sigmoid, argnums=(0, 1, 2, 3, 4))(x, x0, k, lo, hi)
    s = jax.nn.sigmoid(k * (x - x0))
    d = dy * s * (1 - s)
    return out(goal=dict(x=near(gx, d * k, 1e-8), x0=near(g0, -d * k, 1e-8), k=near(gk, d * (x - x0), 1e-7), lo=near(gl, 1 - s, 1e-9), hi=near(gh, s, 1e-9)),
               obs=dict(gx=gx, g0=g0, gk=gk, gl=gl, gh=gh))


def invsig(u, x0, k, lo, dy):
    hi = lo + dy
    y = lo + u * dy
    gy, g0 = jax.grad(U._inverse_sigmoid, argnums=(0, 1))(y, x0, k, lo, hi)
    # dx/dy = 1/(k dy u (1-u))
    return out(goal=dict(y=near(gy * k * dy * u * (1 - u), 1.0, 1e-7), x0=near(g0, 1.0, 1e-9)), obs=dict(gy=gy))


def mass(n):
    def fn(t, s, ds):
        m, dm = jax.jvp(lambda q: U.cumulative_mstar_formed(t, q), (s,), (ds,))
        ref = ref_mass_table(t, ds, -1e30) - 0.5 * (t[0] - 1e-3) * 1e-14 * 1e9
        return out(goal=dict(linear=near(dm, ref, 1e-6 * 1e9)), obs=dict(dm=dm))
    return fn


def age(t, lga, tobs):
    t, lga = jnp.array(t), jnp.array(lga)

    def fn(s, ds, ct):
        f = lambda q: calc_age_weights_from_sfh_table(t, q, lga, tobs)
        dw = jax.jvp(f, (s,), (ds,))[1]
        rev = jax.vjp(f, s)[1](ct)[0]
        return out(goal=dict(sum0=near(dw.sum(), 0.0, 1e-6)), obs=dict(dw=dw, rev=rev))
    return fn


def met(n):
    def fn(grid, m, sig, dm, ds, ct):
        f = lambda a, b: calc_lgmet_weights_from_lognormal_mdf(a, b, grid)
        dw = jax.jvp(f, (m, sig), (dm, ds))[1]
        rm, rs = jax.vjp(f, m, sig)[1](ct)
        return out(goal=dict(sum0=near(dw.sum(), 0.0, 1e-6)), obs=dict(dw=dw, rm=rm, rs=rs))
    return fn


def hist(n):
    """histogram of a triweight population, by its centre and width"""
    def fn(x, sig, e):
        gx = jax.jacfwd(U.triweighted_histogram, argnums=0)(x, sig, e)
        gs = jax.jacfwd(U.triweighted_histogram, argnums=1)(x, sig, e)
        # derivatives of the cumulative kernel itself are goal of harness "kern"
        d, r = (jnp.stack([jax.grad(U._tw_cuml_kern, argnums=k)(x, q, sig) for q in e]) for k in (0, 2))
        return out(goal=dict(x=near(gx, d[:-1] - d[1:], 1e-9), sig=near(gs, r[:-1] - r[1:], 1e-9)), obs=dict(gx=gx, gs=gs))
    return fn


def mag(n):
    def fn(f, df, tr):
        w = jnp.array(1000.0 + 500 * np.arange(n))
        m, dm = jax.jvp(lambda q: calc_rest_mag(w, q, w, tr), (f,), (df,))
        num, den = jnp.trapezoid(tr * df / w, w), jnp.trapezoid(tr * f / w, w)
        return out(goal=dict(true=near(dm * den * LN10 / 2.5, -num, 1e-6)), obs=dict(dm=dm))
    return fn


def sed(t, lga, grid):
    t, lga, grid = jnp.array(t), jnp.array(lga), jnp.array(grid)

    def fn(flux, dflux):
        s = 1.0 + 0 * t
        f = lambda q: calc_rest_sed_sfh_table_lognormal_mdf(t, s, -2.0, 0.3, grid, lga, q, 10.0).rest_sed
        d = jax.jvp(f, (flux,), (dflux,))[1]
        return out(goal=dict(linear=close(d, f(dflux), 1e-8, 1.0)), obs=dict(d=d))
    return fn


def dust(k, av, fl):
    g = jax.grad(A._frac_transmission_from_k_lambda, argnums=(0, 1, 2))(k, av, fl)
    T = 10 ** (-0.4 * k * av / 4.05)
    dT = -0.4 * LN10 * T * (1 - fl) / 4.05
    return out(goal=dict(k=near(g[0], jnp.where(k < 0, 0, dT * av), 1e-8), av=near(g[1], jnp.where(k < 0, 0, dT * k), 1e-8), fl=near(g[2], 1 - jnp.where(k < 0, 1, T), 1e-9)), obs=dict(g0=g[0], g1=g[1], g2=g[2]))


def harnesses(tier):
    t5 = 0.5 + 3.5 * np.arange(5)
    B = dict(x0=Box(-5, 5), k=Box(0.05, 5), lo=Box(-5, 5), dy=Box(0.01, 10))
    g3 = np.array([-3.0, -2.0, -1.5])
    hs = [H("kern", dict(x=Box(-10, 10), m=Box(-5, 5), h=Box(0.05, 5)), kern),
          H("sigmoid", dict(x=Box(-20, 20), **B), sigmoid), H("invsig", dict(u=Box(0.001, 0.999), **B), invsig),
          H("mass5", dict(t=Grid(5, 0.01, 20, (0.01, 10)), s=Box(0, 1000, (5,)), ds=Box(-10, 10, (5,))), mass(5)),
          H("age5", dict(s=Box(0, 1000, (5,)), ds=Box(-10, 10, (5,)), ct=Box(-1, 1, (5,))), age(t5, LGA5, 10.0)),
          H("met3", dict(grid=Grid(3, -4, 1, (0.05, 2), ratio=3), m=Box(-20, 20), sig=Box(0.01, 3), dm=Box(-1, 1), ds=Box(-1, 1), ct=Box(-1, 1, (3,))), met(3)),
          H("hist4", dict(x=Box(-5, 5), sig=Box(0.05, 3), e=Grid(4, -10, 10, (0.05, 4), start=(-8, 2))), hist(4)),
          H("mag6", dict(f=Box(0.1, 100, (6,)), df=Box(-10, 10, (6,)), tr=Box(0.01, 1, (6,))), mag(6)),
          H("sed", dict(flux=Box(0, 100, (3, 5, 2)), dflux=Box(-10, 10, (3, 5, 2))), sed(t5, LGA5, g3)),
          H("dust", dict(k=Box(-5, 30), av=Box(0.001, 5), fl=Box(0, 1)), dust)]
    return hs
