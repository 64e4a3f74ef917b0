"""Cumulative mass is the exact integral of the tabulated star-formation rate"""
from .common import *
from dsps.utils import cumulative_mstar_formed


def general(n):
    def fn(t, s, s2, c):
        m = cumulative_mstar_formed(t, s)
        m2 = cumulative_mstar_formed(t, s2)
        u = m / 1e9
        tp = jnp.concatenate([jnp.array([1e-3]), t])
        sp = jnp.concatenate([jnp.array([1e-14]), s])
        inc = 0.5 * (tp[1:] - tp[:-1]) * (sp[1:] + sp[:-1])
        du = jnp.concatenate([u[:1], u[1:] - u[:-1]])
        base = cumulative_mstar_formed(t, jnp.zeros(n)) / 1e9
        both = cumulative_mstar_formed(t, s + c * s2) / 1e9
        return out(goal=dict(shape=jnp.array(m.shape == (n,)), increment=near(du, inc, 1e-9), rising=du >= 0, first=near(u[0], 0.5 * (t[0] - 1e-3) * (s[0] + 1e-14), 1e-9),
                             additive=near(both - base, (u - base) + c * (m2 / 1e9 - base), 1e-6)),
                   obs=dict(m=m))
    return fn


def faint(n):
    """rates around the floor 1e-14: s = 1e-14 q"""
    def fn(t, q):
        m = cumulative_mstar_formed(t, 1e-14 * q) * 1e5
        tp = jnp.concatenate([jnp.array([1e-3]), t])
        qp = jnp.concatenate([jnp.array([1.0]), q])
        inc = 0.5 * (tp[1:] - tp[:-1]) * (qp[1:] + qp[:-1])
        return out(goal=dict(first=near(m[0], inc[0], 1e-2), increment=near(m[1:] - m[:-1], inc[1:], 1e-2)), obs=dict(m=m))
    return fn


def line(n):
    """s(t) = a + b t is integrated exactly from the first table entry on"""
    def fn(t, a, b):
        m = cumulative_mstar_formed(t, a + b * t) / 1e9
        ex = a * (t - t[0]) + 0.5 * b * (t**2 - t[0] ** 2)
        return out(assume=dict(pos=(a + b * t[0] >= 0) & (a + b * t[-1] >= 0)), goal=dict(exact=near(m - m[0], ex, 1e-7)))
    return fn


def refine(n, k):
    """inserting a point on the segment between entries k-1 and k changes nothing"""
    def fn(t, s, f):
        tn = t[k - 1] + f * (t[k] - t[k - 1])
        sn = s[k - 1] + f * (s[k] - s[k - 1])
        t2 = jnp.concatenate([t[:k], tn[None], t[k:]])
        s2 = jnp.concatenate([s[:k], sn[None], s[k:]])
        m, m2 = cumulative_mstar_formed(t, s) / 1e9, cumulative_mstar_formed(t2, s2) / 1e9
        return out(goal=dict(before=near(m2[:k], m[:k], 1e-7), after=near(m2[k + 1:], m[k:], 1e-7)))
    return fn


def harnesses(tier):
    hs = []
    for n in (2, 3, 6) if tier == "quick" else (2, 3, 4, 6, 10, 16):
        g = Grid(n, 0.001, 20, (0.01, 10), start=(0.001, 5))
        hs += [H(f"general{n}", dict(t=g, s=Box(0, 1e5, (n,)), s2=Box(0, 1e5, (n,)), c=Box(0, 3)), general(n)),
               H(f"line{n}", dict(t=Grid(n, 0.001, 20, (0.01, 10), start=(0.001, 5)), a=Box(-100, 100), b=Box(-10, 10)), line(n))]
    for n, k in ((3, 1), (4, 3)):
        hs.append(H(f"refine{n}", dict(t=Grid(n, 0.001, 20, (0.01, 10), start=(0.001, 5)), s=Box(0, 1e5, (n,)), f=Box(0.01, 0.99)), refine(n, k)))
    hs.append(H("faint3", dict(t=Grid(3, 0.001, 20, (0.01, 10), start=(0.001, 5)), q=Box(0, 1e7, (3,))), faint(3)))
    t60 = jnp.array(T60)
    hs.append(H("real60", dict(s=Box(0, 1e5, (60,)), s2=Box(0, 1e5, (60,)), c=Box(0, 3)), lambda s, s2, c: general(60)(t60, s, s2, c)))
    return hs
