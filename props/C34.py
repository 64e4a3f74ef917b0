"""Bounded and unbounded mass-metallicity parameters"""
from .common import *
from dsps.metallicity import umzr as M

PB = [(-1.0, 0.25), (10.25, 10.75), (0.5, 2.0), (0.1, 1.0), (0.0, 0.3), (-2.0, -1.0), (0.0, 0.5), (-1.5, -0.5), (0.0, 0.5)]
HI = 4        # index of the high-mass slope, bounded by the low-mass slope (index 3)
LO = np.array([b[0] for b in PB])
UP = np.array([b[1] for b in PB])
OTHER = np.array([i for i in range(9) if i != HI])


def bounds(u):
    p = jnp.stack([jnp.asarray(x) for x in M.get_bounded_mzr_params(M.MZRUParams(*u))])
    return out(goal=dict(shape=jnp.array(p.shape == (9,)), lo=p >= LO, hi=p[OTHER] <= UP[OTHER], slope=p[HI] <= p[3]), obs=dict(p=p))


def forms(u):
    """each parameter depends on its own unbounded parameter through a logistic of slope 0.1 centred on its range"""
    p = jnp.stack([jnp.asarray(x) for x in M.get_bounded_mzr_params(M.MZRUParams(*u))])
    e = jnp.exp(-0.1 * (u - 0.5 * (LO + UP)))
    sq = (p - LO) * (1 + e) - (UP - LO)
    eh = jnp.exp(-0.1 * u[HI])
    return out(goal=dict(square=near(sq[OTHER], 0.0, 1e-9), hi=near(p[HI] * (1 + eh), p[3], 1e-9)))


def there(u):
    """unbounded -> bounded -> unbounded"""
    b = M.get_bounded_mzr_params(M.MZRUParams(*u))
    r = M.get_unbounded_mzr_params(b)
    return out(goal=dict(u=near(jnp.stack([jnp.asarray(x) for x in r]), u, 1e-6)))


def back(f):
    """bounded -> unbounded -> bounded"""
    p = LO + f * (UP - LO)
    ps = [p[i] for i in range(9)]
    ps[HI] = f[HI] * ps[3]
    p = jnp.stack(ps)
    r = M.get_unbounded_mzr_params(M.MZRParams(*ps))
    q = M.get_bounded_mzr_params(r)
    return out(goal=dict(p=near(jnp.stack([jnp.asarray(x) for x in q]), p, 1e-7), names=jnp.array(type(q) is M.MZRParams and type(r) is M.MZRUParams)), obs=dict(u=jnp.stack([jnp.asarray(x) for x in r])))


class _Ran:
    """random numbers in [0,1) are symbolic"""
    def __init__(self, r):
        self.r, self.k = r, 0

    def uniform(self, key, shape=(), dtype=None, minval=0.0, maxval=1.0):
        self.k += 1
        return minval + (maxval - minval) * self.r[self.k - 1]

    def __getattr__(self, n):
        return getattr(jax.random, n)


def ran(r):
    """random present-day parameters lie inside the bounds, one draw per parameter, in order"""
    old, M.jran = M.jran, _Ran(r)
    try:
        p = jnp.stack([jnp.asarray(x) for x in M.get_ran_t0_params(jax.random.PRNGKey(0))])
    finally:
        M.jran = old
    n = p.shape[0]
    return out(goal=dict(count=jnp.array(n == 5), lo=p >= LO[:n], hi=p <= UP[:n], each=near((p - LO[:n]), (UP[:n] - LO[:n]) * r[:n], 1e-12)))


def harnesses(tier):
    return [H("random", dict(r=Box(0, 0.999999, (5,))), ran), H("bounds", dict(u=Box(-1000, 1000, (9,))), bounds), H("forms", dict(u=Box(-100, 100, (9,))), forms),
            H("there", dict(u=Box(-100, 100, (9,))), there, undef_ok=True), H("back", dict(f=Box(1e-5, 1 - 1e-5, (9,))), back)]
