"""Effective wavelength of a filter"""
from .common import *
from dsps.dust.utils import get_filter_effective_wavelength as EW


def _area(w, t):
    return 0.5 * jnp.sum((w[1:] - w[:-1]) * (t[1:] + t[:-1]))


def fn(dw, w0, t, z):
    w = w0 + jnp.concatenate([jnp.zeros(1), jnp.cumsum(dw)])
    n = _area(w, t)
    e = EW(w, t, z)
    return out(assume=dict(n=n >= 1e-3), goal=dict(ref=near(e * (1 + z) * n, _area(w, t * w), 1e-6)))


def bounds(dw, w0, t):
    w = w0 + jnp.concatenate([jnp.zeros(1), jnp.cumsum(dw)])
    n, m = _area(w, t), _area(w, t * w)
    return out(goal=dict(lo=m >= w[0] * n - 1e-9, hi=m <= w[-1] * n + 1e-9))


def scale(t, c, s, z, w=None):
    w = np.asarray(w)
    n = _area(w, t)
    e0 = EW(w, t, 0.0)
    return out(assume=dict(n=n >= 1e-3), goal=dict(trans=near(EW(w, c * t, 0.0), e0, 1e-6), faint=near(EW(w, 2.0**-60 * t, 0.0), e0, 1e-6), bright=near(EW(w, 2.0**60 * t, 0.0), e0, 1e-6), z=near(EW(w, t, z) * (1 + z), e0, 1e-6), unit=near(EW(s * w, t, 0.0), s * e0, 1e-6), lo=e0 >= w[0] - 1e-6, hi=e0 <= w[-1] + 1e-6),
               obs=dict(e=e0))


def harnesses(tier):
    hs = []
    for n in ((3, 4) if tier == "quick" else (3, 4, 6, 8)):
        I = dict(dw=Box(0.5, 20, (n - 1,)), w0=Box(1, 100), t=Box(0, 1, (n,)))
        hs.append(H(f"ref{n}", dict(**I, z=Box(0, 10)), fn))
        hs.append(H(f"bounds{n}", I, bounds, note="transmission-weighted mean of the grid wavelengths"))
    for n in ((5,) if tier == "quick" else (5, 9)):
        w = 3000.0 + 500 * np.arange(n) + 50 * np.arange(n) ** 2
        hs.append(H(f"scale{n}", dict(t=Box(0, 1, (n,)), c=Box(0.1, 10), s=Box(0.25, 4), z=Box(0, 10)), lambda t, c, s, z, w=w: scale(t, c, s, z, w)))
    return hs
