"""Equivalent widths; wavelengths and windows are fixed tables, the spectrum is symbolic"""
from .common import *
from dsps.em_lines import equivalent_width as E

# (wavelengths, line_lo, line_mid, line_hi, cont_lo_lo, cont_lo_hi, cont_hi_lo, cont_hi_hi)
SETS = {"a": (np.linspace(-3, 3, 25), -0.75, 0.1, 1.0, -2.5, -1.25, 1.25, 2.5),
        "halpha": (np.linspace(6400, 6700, 31), 6545.0, 6562.8, 6580.0, 6440.0, 6520.0, 6600.0, 6670.0),
        "uneven": (np.array([1, 1.5, 1.75, 2.5, 3, 3.25, 4, 4.25, 4.5, 5, 5.5, 6.5, 7, 7.25, 8]), 3.5, 4.2, 5.25, 1.25, 3.0, 5.5, 7.5)}


def tz(x, y):
    return 0.5 * jnp.sum((x[1:] - x[:-1]) * (y[1:] + y[:-1]))


def mk(name, S):
    w, lo, mid, hi, c1, c2, c3, c4 = S
    n = len(w)
    inl = (w >= lo) & (w <= hi)
    inc = ((w >= c1) & (w <= c2)) | ((w >= c3) & (w <= c4))
    x0, sc = w[n // 2], (w[-1] - w[0]) / 2
    xs = (w - x0) / sc                      # scaled abscissa for the reference quadratic
    args = S[1:]
    T = 1e-6 * sc

    def quad(a, b, c):
        q = a + b * xs + c * xs**2
        xm = (mid - x0) / sc
        cm = a + b * xm + c * xm**2
        ew, lf = E._ew_kernel(w, q, *args)
        ew2, lf2, cont, co = E._continuum_line_decomp_kern(w, q, *args)
        return out(goal=dict(flux0=near(lf, 0.0, T), cont=near(cont, cm, 1e-6), lf2=near(lf2, 0.0, T),
                             coef=near(co[0] * w**2 + co[1] * w + co[2], q, 1e-6)))

    def line(a, b, c, g):
        q = a + b * xs + c * xs**2
        f = q + jnp.where(jnp.asarray(inl & ~inc), g, 0.0)
        ew, lf = E._ew_kernel(w, f, *args)
        ew2, lf2, cont, co = E._continuum_line_decomp_kern(w, f, *args)
        ref = tz(w, jnp.where(jnp.asarray(inl & ~inc), g, 0.0))
        return out(assume=dict(c=cont >= 0.1), goal=dict(flux=near(lf, ref, 10 * T), flux2=near(lf2, ref, 10 * T), ew=near(ew * cont, lf, T), ew2=near(ew2 * cont, lf2, T)))

    def linear(f1, f2, k):
        L = lambda f: E._ew_kernel(w, f, *args)[1]
        D = lambda f: E._continuum_line_decomp_kern(w, f, *args)
        return out(goal=dict(flux=near(L(f1 + k * f2), L(f1) + k * L(f2), 100 * T), decomp=near(D(f1 + k * f2)[1], D(f1)[1] + k * D(f2)[1], 100 * T),
                             cont=near(D(f1 + k * f2)[2], D(f1)[2] + k * D(f2)[2], 1e-4)))

    def outside(f, g):
        f2 = jnp.where(jnp.asarray(inl | inc), f, g)
        a, b = E._ew_kernel(w, f, *args), E._ew_kernel(w, f2, *args)
        d, d2 = E._continuum_line_decomp_kern(w, f, *args), E._continuum_line_decomp_kern(w, f2, *args)
        return out(goal=dict(flux=near(a[1], b[1], 1e-9 * sc), cont=near(d[2], d2[2], 1e-9), dec=near(d[1], d2[1], 1e-9 * sc)))

    def rescale(f, k):
        e1, l1, c1_, _ = E._continuum_line_decomp_kern(w, f, *args)
        e2, l2 = E._ew_kernel(w, k * f, *args)
        e3 = E._continuum_line_decomp_kern(w, k * f, *args)[0]
        return out(assume=dict(c=c1_ >= 0.1), goal=dict(kern=near(e2 * c1_, l1, 100 * T), dec=near(e3 * c1_, l1, 100 * T), e1=near(e1 * c1_, l1, T)))

    def faint(f):
        """spectra of any size give the same widths (galaxy spectra are of order 1e-5, SSP spectra 1e-15)"""
        e1, l1, c1_, _ = E._continuum_line_decomp_kern(w, f, *args)
        g = {}
        for nm, k in (("tiny", 2.0**-60), ("huge", 2.0**60)):
            e2, l2 = E._ew_kernel(w, k * f, *args)
            e3, l3, c3_, _ = E._continuum_line_decomp_kern(w, k * f, *args)
            g.update({nm + "_kern": near(e2 * c1_, l1, 100 * T), nm + "_dec": near(e3 * c1_, l1, 100 * T), nm + "_flux": near(l2 * (1 / k), l1, 100 * T), nm + "_flux3": near(l3 * (1 / k), l1, 100 * T), nm + "_cont": near(c3_ * (1 / k), c1_, 1e-4)})
        return out(assume=dict(c=c1_ >= 0.1), goal=g)

    F = Box(0, 10, (n,))
    Q = dict(a=Box(1, 10), b=Box(-5, 5), c=Box(-5, 5))
    return [H(f"{name}_quad", Q, quad, undef_ok=True), H(f"{name}_line", dict(Q, g=Box(-5, 50, (n,))), line),
            H(f"{name}_linear", dict(f1=F, f2=F, k=Box(0, 3)), linear, undef_ok=True), H(f"{name}_outside", dict(f=F, g=Box(-100, 100, (n,))), outside, undef_ok=True),
            H(f"{name}_rescale", dict(f=F, k=Box(0.5, 4)), rescale), H(f"{name}_faint", dict(f=F), faint)]


def harnesses(tier):
    hs = []
    for k, S in SETS.items():
        hs += mk(k, S)
    return hs
