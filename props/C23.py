"""Attenuation curves A = max(k Av / 4.05, 0)"""
from .common import *
from dsps.dust import att_curves as AC

W = Box(0.03, 5.0)
P = dict(av=Box(0, 100), ampl=Box(-20, 50), slope=Box(-2.5, 2.0), x0=Box(0.1, 0.5), dw=Box(0.01, 0.2))


def _mk(kname, aname):
    kf, af = getattr(AC, kname), getattr(AC, aname)

    def full(w, av, ampl, slope, x0, dw):
        k = cut(kf(w, ampl, slope, x0, dw), "k")
        A = af(w, av, ampl, slope, x0, dw)
        return out(goal=dict(ref=near(A, jnp.maximum(av * k / 4.05, 0), 1e-9), pos=A >= 0, zero=near(af(w, 0.0, ampl, slope, x0, dw), 0 * w, 1e-12),
                             prop=near(af(w, 2 * av, ampl, slope, x0, dw), 2 * A, 1e-9)))

    def deflt(w, av, ampl, slope):
        return out(goal=dict(same=near(af(w, av, ampl, slope), af(w, av, ampl, slope, 0.2175, 0.035), 1e-9), k=near(kf(w, ampl, slope), kf(w, ampl, slope, 0.2175, 0.035), 1e-9)))
    return full, deflt


def _simple(kname, aname):
    kf, af = getattr(AC, kname), getattr(AC, aname)

    def fn(w, av):
        k = kf(w)
        A = af(w, av)
        return out(goal=dict(ref=near(A, jnp.maximum(av * k / 4.05, 0), 1e-9), pos=A >= 0, zero=near(af(w, 0.0), 0 * w, 1e-12), prop=near(af(w, 2 * av), 2 * A, 1e-9)), obs=dict(A=A))
    return fn


def harnesses(tier):
    n = 2 if tier == "quick" else 6
    hs = []
    WN = Box(0.03, 5.0, (n,))
    for nm in ("noll09", "sbl18"):
        f, d = _mk(nm + "_k_lambda", nm + "_k_att_curve")
        hs += [H(nm, dict(w=WN, **P), f, undef_ok=True), H(nm + "_default", dict(w=W, av=P["av"], ampl=P["ampl"], slope=P["slope"]), d, undef_ok=True)]
    for nm in ("calzetti00", "leitherer02"):
        hs.append(H(nm, dict(w=WN, av=P["av"]), _simple(nm + "_k_lambda", nm + "_att_curve")))
    return hs
