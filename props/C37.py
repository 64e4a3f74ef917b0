"""Burst parameters"""
from .common import *
from dsps.sfh import diffburst as D


def par(u):
    return jnp.stack([jnp.asarray(x) for x in D._get_params_from_u_params(D.BurstUParams(*u))])


def bounds(u):
    p = par(u)
    return out(goal=dict(fb_lo=p[0] >= -8, fb_hi=p[0] <= -1, pk_lo=p[1] >= 5, pk_hi=p[1] <= 8, mx_hi=p[2] <= 9, gap=p[2] >= p[1] + 1), obs=dict(p=p))


def forms(u):
    p = par(u)
    e = lambda k, x0: 1 + jnp.exp(-0.1 * (u[k] - x0))
    lo = p[1] + 1
    return out(goal=dict(fb=near((p[0] + 8) * e(0, -2.0), 7.0, 1e-9), pk=near((p[1] - 5) * e(1, 6.5), 3.0, 1e-9), mx=near((p[2] - lo) * e(2, 0.5 * (lo + 9)), 9 - lo, 1e-9)))


def there(u):
    p = D._get_params_from_u_params(D.BurstUParams(*u))
    r = jnp.stack([jnp.asarray(x) for x in D._get_u_params_from_params(p)])
    return out(goal=dict(u=near(r, u, 1e-6)))


def back(f):
    pk = 5 + 3 * f[1]
    p = jnp.stack([-8 + 7 * f[0], pk, pk + 1 + f[2] * (8 - pk)])
    u = D._get_u_params_from_params(D.BurstParams(*p))
    q = jnp.stack([jnp.asarray(x) for x in D._get_params_from_u_params(u)])
    return out(goal=dict(p=near(q, p, 1e-7)), obs=dict(u=jnp.stack([jnp.asarray(x) for x in u])))


def harnesses(tier):
    return [H("bounds", dict(u=Box(-1000, 1000, (3,))), bounds), H("forms", dict(u=Box(-100, 100, (3,))), forms), H("there", dict(u=Box(-100, 100, (3,))), there, undef_ok=True), H("back", dict(f=Box(1e-5, 1 - 1e-5, (3,))), back)]
