"""Random transmission curves; the random number and the given centre are symbolic.  scipy's normal density is
replaced by an arbitrary positive function that notes how it was called, and the curve is sampled at 12 wavelengths
(the real code takes 200)."""
import contextlib
from .common import *
from symx.pe import PH, outcome
from dsps.data_loaders import load_filter_data as M

KEY = jax.random.PRNGKey(3)
ASSUMPTIONS = ["scipy.stats.norm.pdf is the normal density; it is replaced by a stand-in returning arbitrary positive values",
               "jax.random.uniform(minval, maxval) is minval + (maxval-minval) u with u in [0,1)"]


class _Np:
    """numpy with a coarser linspace"""
    N = 12

    def linspace(self, a, b, n=50, **k):
        return np.linspace(a, b, min(n, self.N), **k)

    def __getattr__(self, n):
        return getattr(np, n)


class _Any:
    """a density with arbitrary positive values"""
    def __init__(self, p):
        self.p = p

    def pdf(self, x, loc=0.0, scale=1.0):
        self.args = x, loc, scale
        return self.p


class _Ran:
    def __init__(self, r):
        self.r = r

    def uniform(self, key, shape=(), dtype=None, minval=0.0, maxval=1.0):
        return minval + (maxval - minval) * self.r

    def __getattr__(self, n):
        return getattr(jax.random, n)


@contextlib.contextmanager
def stand_in(norm, r=None):
    old = M.norm, M.jran, M.np
    try:
        M.norm, M.np = norm, _Np()
        if r is not None:
            M.jran = _Ran(r)
        yield
    finally:
        M.norm, M.jran, M.np = old


def curve(lo, hi, s, kw, seeded=True):
    """whatever the density, the curve is the density divided by its largest value: at most one, and one at the top"""
    def fn(r, p):
        d = _Any(p)
        with stand_in(d, r):
            t = M.load_random_transmission_curve(**(dict(ran_key=KEY) if seeded else {}), **kw)
        x, loc, sc = d.args
        T = jnp.asarray(t.transmission)
        w = np.linspace(lo, hi, len(t.wave))
        return out(goal=dict(shape=jnp.array(T.shape == t.wave.shape), wave=jnp.asarray(np.abs(t.wave - w) <= 1e-6), at=jnp.asarray(np.abs(x - t.wave) <= 1e-9), centre=near(loc, lo + 2 * s + (hi - lo - 4 * s) * r, 1e-9),
                             scale=jnp.array(sc == s), le1=T <= 1.0 + 1e-12, ge0=T >= 0.0, top=jnp.any(T >= 1.0 - 1e-12), prop=near(T * jnp.max(p), p, 1e-9)))
    return fn


def given(E):
    """a given centre is used as it is, and refused outside the wavelength range"""
    c = E.real("centre", -5000, 30000)
    d = _Any(np.linspace(0.1, 1, 12))
    lo, hi = [(1000, 10000), (2000.0, 6000.0)][E.choice("range", 2)]
    with stand_in(d):
        kind, r = outcome(M.load_random_transmission_curve, ran_key=KEY, tcurve_center=c, wave_range=(lo, hi))
    inside = (c > lo) & (c < hi)
    if kind == "raise":
        return {"only centres outside the range are refused": ~inside if E.sym else not inside}
    return {"centres outside the range are refused": inside, "centre used": E.eq(d.args[1], c), "scale": d.args[2] == 300}


def harnesses(tier):
    I = dict(r=Box(0, 0.999999), p=Box(1e-9, 1, (12,)))
    return [H("default", I, curve(1000.0, 10000.0, 300, {})),
            H("unseeded", I, curve(1000.0, 10000.0, 300, {}, False)),
            H("range", I, curve(2000.0, 6000.0, 100.0, dict(wave_range=(2000.0, 6000.0), scale=100.0))),
            PH("given", given, bounds="centre in [-5000,30000], two wavelength ranges")]
