"""Weight matrices are outer products"""
from .common import *
from dsps import utils as U


def d2(g, n, m):
    def fn(a, b):
        w = U._get_weight_matrices_2d(a, b)
        ok = w.shape == (g, n, m)
        return out(goal=dict(shape=jnp.array(ok), entry=near(w, a[:, :, None] * b[:, None, :], 1e-12), marg_a=near(w.sum(axis=2), a * b.sum(axis=1)[:, None], 1e-9), marg_b=near(w.sum(axis=1), b * a.sum(axis=1)[:, None], 1e-9)))
    return fn


def d3(g, n, m, k):
    def fn(a, b, c):
        w = U._get_weight_matrices_3d(a, b, c)
        return out(goal=dict(shape=jnp.array(w.shape == (g, n, m, k)), entry=near(w, a[:, :, None, None] * b[:, None, :, None] * c[:, None, None, :], 1e-12),
                             total=near(w.sum(axis=(1, 2, 3)), a.sum(axis=1) * b.sum(axis=1) * c.sum(axis=1), 1e-9)))
    return fn


def harnesses(tier):
    hs = []
    for (g, n, m, k) in ((2, 3, 4, 2), (3, 2, 2, 4), (1, 1, 3, 2), (3, 3, 3, 3)) if tier == "quick" else ((2, 3, 4, 2), (3, 2, 2, 4), (1, 1, 3, 2), (3, 3, 3, 3), (4, 5, 6, 3), (2, 7, 3, 5)):
        A, B, C = Box(0, 1, (g, n)), Box(0, 1, (g, m)), Box(0, 1, (g, k))
        hs += [H(f"two_{g}{n}{m}", dict(a=A, b=B), d2(g, n, m)), H(f"three_{g}{n}{m}{k}", dict(a=A, b=B, c=C), d3(g, n, m, k))]
    return hs
