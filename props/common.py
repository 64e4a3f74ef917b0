import contextlib
import jax
import jax.numpy as jnp
import numpy as np
from symx.harness import H, Box, Grid, out, cut  # noqa: F401


def close(a, b, rtol=1e-9, atol=1e-12):
    """|a-b| <= rtol*|b| + atol, without abs so that the encoding stays polynomial"""
    t = rtol * jnp.abs(b) + atol
    return (a - b <= t) & (b - a <= t)


def near(a, b, tol=1e-9):
    return (a - b <= tol) & (b - a <= tol)


# realistic tables used where a quantity is fixed rather than symbolic
T10 = 0.5 + 1.5 * np.arange(10)            # ends at 14 Gyr
T60 = 0.25 * np.arange(1, 61)              # ends at 15 Gyr
LGA20 = -3.5 + 0.25 * np.arange(20)
LGA107 = -3.5 + np.arange(107) * 3 / 64    # FSPS-like: 107 ages
LGA_UP = -3.5 + np.cumsum([0, 0.05, 0.13, 0.35, 0.95, 2.6, 1.0])     # ages whose spacing changes by up to 2.75 per step
LGA_DOWN = 1.5 - np.cumsum([0, 0.05, 0.13, 0.35, 0.95, 2.6, 1.0])[::-1]
LGA5 = np.array([-3.0, -1.5, -0.4, 0.5, 1.2])
LGMET12 = np.linspace(-3.7, -1.3, 12)      # FSPS-like: 12 metallicities


def lin_interp(x, xp, fp):
    """reference linear interpolation with flat extrapolation, written without library help"""
    r = jnp.full(jnp.shape(x), 0.0) + fp[0]
    n = xp.shape[0]
    for k in range(n - 1):
        v = fp[k] + (x - xp[k]) * (fp[k + 1] - fp[k]) / (xp[k + 1] - xp[k])
        r = jnp.where(x >= xp[k], v, r)
    return jnp.where(x >= xp[-1], fp[-1], r)


def ref_mass_table(t, sfr, sfr_min=1e-14):
    """stellar mass formed by t[k]: trapezoid on (0.001, SFR floor) + table, in Msun"""
    s = jnp.where(sfr < sfr_min, sfr_min, sfr)
    m = [0.5 * (t[0] - 1e-3) * (s[0] + 1e-14) * 1e9]
    for k in range(1, t.shape[0]):
        m.append(m[-1] + 0.5 * (t[k] - t[k - 1]) * (s[k] + s[k - 1]) * 1e9)
    return jnp.stack(m)


@contextlib.contextmanager
def _swap(pairs):
    old = []
    try:
        for mod, name, new in pairs:
            old.append((mod, name, getattr(mod, name)))
            setattr(mod, name, new)
        yield
    finally:
        for mod, name, f in reversed(old):
            setattr(mod, name, f)


def cut_calls(*specs):
    """patches(): while tracing, results of mod.name are passed through cut(., tag), the identity,
    so that goals about the caller may be concluded from goals already discharged about the
    callee.  Names that are not there any more are skipped (no cut, same meaning)."""
    def ctx():
        pairs = []
        for mod, name, tag in specs:
            f = getattr(mod, name, None)
            if f is not None:
                pairs.append((mod, name, (lambda *a, _f=f, _t=tag, **k: jax.tree_util.tree_map(lambda x: cut(x, _t), _f(*a, **k)))))
        return _swap(pairs)
    return ctx
