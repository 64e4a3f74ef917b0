"""Bounded sigmoids"""
from .common import *
from dsps import utils as U


def sig(x, x0, k, lo, dy):
    hi = lo + dy
    s = U._sigmoid(x, x0, k, lo, hi)
    r = U._sigmoid(x, x0, k, hi, lo)
    return out(goal=dict(lo=s >= lo, hi=s <= hi, rlo=r >= lo, rhi=r <= hi, mid=near(U._sigmoid(x0, x0, k, lo, hi), lo + dy / 2, 1e-9),
                         sym=near(s + U._sigmoid(2 * x0 - x, x0, k, lo, hi), 2 * lo + dy, 1e-9), swap=near(s + r, 2 * lo + dy, 1e-9),
                         form=near((s - lo) * (1 + jnp.exp(-k * (x - x0))), dy, 1e-9 * (1 + jnp.exp(-k * (x - x0)))), slope=near(U._sig_slope(x, 0.7, -1.0, x0, k, lo, hi), -1.0 + s * (x - 0.7), 1e-9)), obs=dict(s=s))


def mono(x, dx, x0, k, lo, dy):
    f = lambda q, a, b: U._sigmoid(q, x0, k, a, b)
    return out(goal=dict(up=f(x + dx, lo, lo + dy) >= f(x, lo, lo + dy) - 1e-12, down=f(x + dx, lo + dy, lo) <= f(x, lo + dy, lo) + 1e-12))


def inv(x, x0, k, lo, dy):
    """inverse of the sigmoid's value"""
    y = U._sigmoid(x, x0, k, lo, lo + dy)
    return out(goal=dict(x=near(U._inverse_sigmoid(y, x0, k, lo, lo + dy), x, 1e-6)))


def inv2(u, x0, k, lo, dy):
    y = lo + u * dy
    x = U._inverse_sigmoid(y, x0, k, lo, lo + dy)
    return out(goal=dict(y=near(U._sigmoid(x, x0, k, lo, lo + dy), y, 1e-9)), obs=dict(x=x))


def harnesses(tier):
    B = dict(x0=Box(-5, 5), k=Box(0.05, 5), lo=Box(-5, 5), dy=Box(0.01, 10))
    BN = dict(B, k=Box(-5, -0.05))
    return [H("sigmoid", dict(x=Box(-20, 20), **B), sig), H("negative_k", dict(x=Box(-20, 20), **BN), sig), H("mono", dict(x=Box(-10, 10), dx=Box(0, 10), **B), mono),
            H("inverse", dict(x=Box(-3, 3), **dict(B, k=Box(0.05, 3))), inv, undef_ok=True), H("inverse_neg", dict(x=Box(-3, 3), **dict(BN, k=Box(-3, -0.05))), inv, undef_ok=True), H("roundtrip", dict(u=Box(0.001, 0.999), **B), inv2), H("roundtrip_neg", dict(u=Box(0.001, 0.999), **BN), inv2)]
