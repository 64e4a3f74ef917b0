"""Modified reddening curves against their published forms"""
from .common import *
from dsps.dust import att_curves as AC


def c00(w):
    y = 1 / w
    return jnp.where(w < 0.63, 2.659 * (-2.156 + 1.509 * y - 0.198 * y**2 + 0.011 * y**3), 2.659 * (-1.857 + 1.04 * y)) + 4.05


def l02(w):
    y = 1 / w
    return 5.472 + 0.671 * y - 9.218e-3 * y**2 + 2.620e-3 * y**3


def base(w):
    return jnp.where(w > 0.15, c00(w), l02(w))


def bump(w, ampl, x0, dw):
    """as a product form: bump * ((w^2-x0^2)^2 + w^2 dw^2) = ampl w^2 dw^2"""
    return (w**2 - x0**2) ** 2 + w**2 * dw**2, ampl * w**2 * dw**2


def parts(w, ampl, x0, dw):
    den, num = bump(w, ampl, x0, dw)
    b = AC._drude_bump(w, x0, dw, ampl)
    pk = AC._drude_bump(x0, x0, dw, 1.0)
    return out(goal=dict(c00=near(AC.calzetti00_k_lambda(w), c00(w), 1e-9), l02=near(AC.leitherer02_k_lambda(w), l02(w), 1e-9), switch=near(AC._l02_below_c00_above(w), base(w), 1e-9),
                         bump=near(b * den, num, 1e-9), peak=near(AC._drude_bump(x0, x0, dw, ampl), ampl, 1e-9), top=AC._drude_bump(w, x0, dw, 1.0) <= pk + 1e-9,
                         pos=AC._drude_bump(w, x0, dw, 1.0) >= 0), obs=dict(b=b))


def plaw(w, s):
    p = AC.power_law_vband_norm(w, s)
    return out(goal=dict(pos=p > 0, log=near(jnp.log(p), s * (jnp.log(w) - np.log(0.55)), 1e-9), v=near(AC.power_law_vband_norm(0.55, s), 1.0, 1e-9), zero=near(AC.power_law_vband_norm(w, 0.0), 1.0, 1e-9)),
               obs=dict(p=p))


CUT = cut_calls((AC, "_drude_bump", "bump"), (AC, "power_law_vband_norm", "pl"), (AC, "_l02_below_c00_above", "base"))


def comb(w, ampl, slope, x0, dw):
    b, p, k = AC._drude_bump(w, x0, dw, ampl), AC.power_law_vband_norm(w, slope), AC._l02_below_c00_above(w)
    n, s = AC.noll09_k_lambda(w, ampl, slope, x0, dw), AC.sbl18_k_lambda(w, ampl, slope, x0, dw)
    return out(goal=dict(noll=near(n, jnp.maximum((k + b) * p, 0), 1e-9), salim=near(s, jnp.maximum(k * p + b, 0), 1e-9), npos=n >= 0, spos=s >= 0))


def reduce_(w, x0, dw):
    r = jnp.maximum(base(w), 0)
    return out(goal=dict(noll=near(AC.noll09_k_lambda(w, 0.0, 0.0, x0, dw), r, 1e-9), salim=near(AC.sbl18_k_lambda(w, 0.0, 0.0, x0, dw), r, 1e-9)))


def triw(w, xtp, ytp, x0, h, lo, hi):
    """smooth approximation: a power law in the wavelength whose slope changes from lo to hi along the triweight transition"""
    x = jnp.log10(w)
    k = AC.triweight_k_lambda(w, xtp, ytp, x0, h, lo, hi)
    z = (x - x0) / h
    s = jnp.where(z < -3, 0.0, jnp.where(z > 3, 1.0, -5 * z**7 / 69984 + 7 * z**5 / 2592 - 35 * z**3 / 864 + 35 * z / 96 + 0.5))
    return out(goal=dict(log=near(jnp.log10(k), ytp + (lo + (hi - lo) * s) * (x - xtp), 1e-8), pos=k > 0), obs=dict(k=k))


def triw_default(w):
    return out(goal=dict(default=near(jnp.log10(AC.triweight_k_lambda(w)), jnp.log10(AC.triweight_k_lambda(w, -1.0, 1.15, 0.5, 0.5, -0.65, -1.95)), 1e-12)))


def eb(d):
    """bump strength from slope, Kriek & Conroy 2013"""
    return out(goal=dict(eb=near(AC._get_eb_from_delta(d), 0.85 - 1.9 * d, 1e-12)))


def harnesses(tier):
    W = Box(0.03, 5.0)
    B = dict(x0=Box(0.1, 0.5), dw=Box(0.01, 0.2))
    return [H("parts", dict(w=W, ampl=Box(-20, 50), **B), parts), H("plaw", dict(w=W, s=Box(-2, 2)), plaw),
            H("comb", dict(w=W, ampl=Box(-20, 50), slope=Box(-2.5, 2.0), **B), comb, patches=CUT, undef_ok=True),
            H("triweight", dict(w=W, xtp=Box(-2, 1), ytp=Box(0, 2), x0=Box(-1, 1), h=Box(0.1, 1), lo=Box(-2, 0), hi=Box(-3, 0)), triw), H("triweight_default", dict(w=W), triw_default), H("bump_slope", dict(d=Box(-2, 2)), eb),
            H("reduce", dict(w=W, **B), reduce_, undef_ok=True)]
