"""Trapezoid integrals"""
from .common import *
from dsps import utils as U


def gen(n):
    def fn(x, y, y2, c):
        m, m2 = U.cumtrapz(x, y), U.cumtrapz(x, y2)
        return out(goal=dict(shape=jnp.array(m.shape == (n,)), zero=m[0] == 0, total=near(m[-1], U.trapz(x, y), 1e-9),
                             step=near(m[1:] - m[:-1], 0.5 * (x[1:] - x[:-1]) * (y[1:] + y[:-1]), 1e-9),
                             tiny=near(U.cumtrapz(x, 2.0**-60 * y) * 2.0**60, m, 1e-9), ttiny=near(U.trapz(x, 2.0**-60 * y) * 2.0**60, m[-1], 1e-9), dense=near(U.cumtrapz(2.0**-40 * x, y) * 2.0**40, m, 1e-9),
                             linear=near(U.cumtrapz(x, y + c * y2), m + c * m2, 1e-9), tlinear=near(U.trapz(x, y + c * y2), U.trapz(x, y) + c * U.trapz(x, y2), 1e-9)), obs=dict(m=m))
    return fn


def pos(n):
    def fn(x, y):
        m = U.cumtrapz(x, y)
        return out(goal=dict(rising=m[1:] >= m[:-1], pos=U.trapz(x, y) >= 0))
    return fn


def line(n):
    def fn(x, a, b):
        m = U.cumtrapz(x, a + b * x)
        ex = a * (x - x[0]) + 0.5 * b * (x**2 - x[0] ** 2)
        return out(goal=dict(exact=near(m, ex, 1e-8), texact=near(U.trapz(x, a + b * x), ex[-1], 1e-8)))
    return fn


def split(n, k):
    def fn(x, y):
        return out(goal=dict(add=near(U.trapz(x[:k + 1], y[:k + 1]) + U.trapz(x[k:], y[k:]), U.trapz(x, y), 1e-9), cum=near(U.cumtrapz(x[k:], y[k:]) + U.cumtrapz(x, y)[k], U.cumtrapz(x, y)[k:], 1e-9)))
    return fn


def harnesses(tier):
    hs = []
    for n in (2, 3, 7) if tier == "quick" else (2, 3, 4, 7, 12, 24, 48):
        Y = Box(-100, 100, (n,))
        hs += [H(f"gen{n}", dict(x=Box(-10, 10, (n,)), y=Y, y2=Y, c=Box(-3, 3)), gen(n), note="abscissae in any order"),
               H(f"pos{n}", dict(x=Grid(n, -10, 300, (0.001, 5), start=(-5, 5)), y=Box(0, 100, (n,))), pos(n)), H(f"line{n}", dict(x=Box(-10, 10, (n,)), a=Box(-10, 10), b=Box(-10, 10)), line(n))]
        if n >= 3:
            hs.append(H(f"split{n}", dict(x=Box(-10, 10, (n,)), y=Y), split(n, n // 2)))
    return hs
