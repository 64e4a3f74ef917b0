"""Bin edges and bin widths"""
from .common import *
from dsps import utils as U
from dsps.sed import stellar_age_weights as AW
from dsps.constants import T_BIRTH_MIN as TB


def edges(n):
    def fn(t, a, b):
        lo, hi = t[0] - a, t[-1] + b
        e = U._get_bin_edges(t, lo, hi)
        return out(goal=dict(shape=jnp.array(e.shape == (n + 1,)), lo=e[0] == lo, hi=e[-1] == hi, above=e[1:-1] > t[:-1], below=e[1:-1] < t[1:], rising=e[1:] > e[:-1],
                             form=near(4 * (t[1:-1] - e[1:-2]), t[2:] - t[:-2], 1e-9)), obs=dict(e=e))
    return fn


def even(n):
    def fn(t0, d):
        t = t0 + d * jnp.arange(n)
        e = U._get_bin_edges(t, -100.0, 100.0)
        return out(goal=dict(mid=near(e[1:-1], 0.5 * (t[1:] + t[:-1]), 1e-9), dt=near(U._jax_get_dt_array(t), d * jnp.ones(n), 1e-9)))
    return fn


def widths(n):
    def fn(t):
        w = U._jax_get_dt_array(t)
        return out(goal=dict(shape=jnp.array(w.shape == (n,)), pos=w > 0, inner=near(w[1:-1], 0.5 * (t[2:] - t[:-2]), 1e-9), first=near(w[0], t[1] - t[0], 1e-9),
                             last=near(w[-1], 0.5 * (t[-1] - t[-2]) + 0.25 * (t[-1] - t[-3]), 1e-9)), obs=dict(w=w))
    return fn


def tables(t0):
    """the default time table: evenly spaced from just after the Big Bang to the given age, with its logarithm and its bin widths"""
    t, lg, dt = AW._get_linspace_time_tables(t0)
    n = t.shape[0]
    k = jnp.arange(n)
    return out(goal=dict(shape=jnp.array(n >= 2 and lg.shape == dt.shape == (n,)), even=near(t * (n - 1), TB * (n - 1 - k) + t0 * k, 1e-6), log=near(lg, jnp.log10(t), 1e-9),
                         widths=near(dt * (n - 1), (t0 - TB) * jnp.ones(n), 1e-6)))


def harnesses(tier):
    hs = [H("time_tables", dict(t0=Box(1, 15)), tables, undef_ok=True)]
    for n in (3, 5, 12) if tier == "quick" else (3, 4, 5, 8, 12, 20, 40):
        g = Grid(n, -10, 20, (0.1, 0.28), start=(-5, 5))
        hs += [H(f"edges{n}", dict(t=g, a=Box(0.2, 5), b=Box(0.2, 5)), edges(n), note="adjacent spacings differ by less than a factor of three"),
               H(f"uneven{n}", dict(t=Grid(n, -100, 900, (0.001, 50), start=(-5, 5), ratio=2.9), a=Box(50, 60), b=Box(50, 60)), edges(n), note="spacings may vary by any factor over the whole grid"),
               H(f"even{n}", dict(t0=Box(-5, 5), d=Box(0.05, 1)), even(n)),
               H(f"widths{n}", dict(t=Grid(n, -10, 400, (0.01, 10), start=(-5, 5))), widths(n))]
    return hs
