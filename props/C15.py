"""resampling of filter curves to a common length"""
import numpy as np

from symx import pe
from symx.pe import PH, outcome

ASSUMPTIONS = ["np.interp is modelled as exact piecewise-linear interpolation held flat outside the abscissae, np.linspace as exact even spacing"]
DY = [0.0, 1.0, 2.5, 4.0, 4.5, 7.0, 8.0]


def ref_lin(E, x, xs, ys):
    """independent statement of linear interpolation on increasing abscissae"""
    if not E.sym:
        return float(np.interp(x, np.asarray(xs, float), np.asarray(ys, float)))
    z = pe.z3
    t = pe.term
    e = t(ys[0])
    for a, b, p, q in zip(xs, xs[1:], ys, ys[1:]):
        e = z.If(t(x) >= t(a), t(p) + (t(q) - t(p)) * (t(x) - t(a)) / (t(b) - t(a)), e)
    e = z.If(t(x) >= t(xs[-1]), t(ys[-1]), e)
    return pe.SReal(e)


def check(E, ws, ts, n, r, values=True):
    m = min(len(w) for w in ws) if n is None else n
    W, T = r
    g = {"shape": np.shape(W) == (len(ws), m) and np.shape(T) == (len(ws), m)}
    if not g["shape"]:
        return g
    for k, (w, t) in enumerate(zip(ws, ts)):
        lo, hi = w[0], w[-1]
        g[f"filter {k}: first and last wavelength"] = E.all([E.eq(W[k, 0], lo)] + ([E.eq(W[k, -1], hi)] if m > 1 else []))
        g[f"filter {k}: even spacing"] = E.all([E.eq(W[k, i] * (m - 1), lo * (m - 1 - i) + hi * i, 1e-7) for i in range(m)])
        g[f"filter {k}: end values"] = E.all([E.eq(T[k, 0], t[0], 1e-7)] + ([E.eq(T[k, -1], t[-1], 1e-7)] if m > 1 else []))
        if values:
            for i in range(m):
                # the sample position is stated from the inputs, not taken from the output
                x = W[k, i] if not E.sym else lo + (hi - lo) * i / (m - 1) if m > 1 else lo
                v = ref_lin(E, x, w, t)
                g[f"filter {k}: value {i}"] = E.eq(T[k, i], v) if E.sym else bool(abs(T[k, i] - v) <= 1e-9)
    return g


def symt(lens, n, dy):
    """fixed wavelengths, all transmissions"""
    def body(E):
        import dsps.photometry.utils as m
        ws = [E.array(np.array(DY[:L]) * s + o) for L, s, o in zip(lens, dy, (100.0, 250.0, 30.0, 500.0))]
        ts = [E.reals(f"t{k}", L, -1, 2) for k, L in enumerate(lens)]
        with E.module(m):
            kind, r = outcome(m.interpolate_filter_trans_curves, ws, ts, *([] if n is None else [n]))
        if kind == "raise":
            return {"resampling succeeds": False}
        g = check(E, ws, ts, n, r)
        if g["shape"]:
            for k, t in enumerate(ts):
                M = -2 if not E.sym else None
                if E.sym:
                    lo, hi = pe.SReal(pe.term(np.min(t))), pe.SReal(pe.term(np.max(t)))
                else:
                    lo, hi = np.min(t), np.max(t)
                g[f"filter {k}: within the curve's range"] = E.all([E.le(lo, r[1][k, i]) for i in range(r[1].shape[1])]
                                                                  + [E.le(r[1][k, i], hi) for i in range(r[1].shape[1])])
        return g
    return body


def symw(lens, n):
    """all increasing wavelengths, fixed distinct transmissions"""
    def body(E):
        import dsps.photometry.utils as m
        ws = [E.increasing(f"w{k}", L, 1, 1e5, gap=0.01) for k, L in enumerate(lens)]
        ts = [E.array([0.125 + 0.25 * ((3 * i + k) % 4) for i in range(L)]) for k, L in enumerate(lens)]
        with E.module(m):
            kind, r = outcome(m.interpolate_filter_trans_curves, ws, ts, *([] if n is None else [n]))
        if kind == "raise":
            return {"resampling succeeds": False}
        return check(E, ws, ts, n, r)
    return body


def harnesses(tier):
    q = tier == "quick"
    hs = []
    for lens, n in ([((3, 4), None), ((4, 3, 5), None), ((2, 3), 5), ((3,), 2)] if q else
                    [((3, 4), None), ((4, 3, 5), None), ((2, 3), 5), ((3,), 2), ((5, 6, 4, 7), None), ((7, 5), 9), ((4, 6, 5), 3)]):
        hs.append(PH(f"trans-{'-'.join(map(str, lens))}-{n}", symt(lens, n, (1.0, 2.0, 0.5, 4.0)),
                     bounds=f"curves of {lens} samples at fixed uneven wavelengths, all transmissions in [-1,2], n={n}"))
    for lens, n in ([((2, 3), None), ((3, 3), 4), ((4, 2, 3), None)] if q else [((2, 3), None), ((3, 3), 4), ((4, 2, 3), None), ((4, 5), 6), ((5, 4, 6), None)]):
        hs.append(PH(f"wave-{'-'.join(map(str, lens))}-{n}", symw(lens, n),
                     bounds=f"curves of {lens} samples at all increasing wavelengths in [1,1e5] (gaps at least 0.01), fixed distinct transmissions, n={n}"))
    return hs
