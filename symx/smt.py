"""Emission of terms to SMT (z3 / cvc5) with axioms for exp/log/sqrt and univariate lemmas."""
import itertools
import os
import sys
import subprocess
import threading
import time
from fractions import Fraction
import math
import mpmath

_VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if _VT not in sys.path:
    sys.path.append(_VT)
import z3  # noqa: E402

from . import core as C  # noqa: E402
from .core import Poly, Tree, F0, F1, INF  # noqa: E402

DBG = bool(os.environ.get("SMTDBG"))
CVC5 = os.path.join(os.path.dirname(os.path.abspath(__file__)), "cvc5run.py")
STATS = dict(queries=0, solver_s=0.0, side_queries=0, lemma_queries=0, unsat=0, sat=0, unknown=0)


def zq(f):
    f = Fraction(f)
    if f.denominator == 1:
        return z3.RealVal(str(f.numerator))
    return z3.RealVal(f"{f.numerator}/{f.denominator}")


def ffrac(x):
    """float bound -> Fraction (bounds are already widened)"""
    return Fraction(x)


_LN = {"LN10": C.mpf_frac(mpmath.log(10)), "LN2": C.mpf_frac(mpmath.log(2))}


def _linear(t):
    if isinstance(t, Tree):
        return _linear(t.hi) and _linear(t.lo)
    return all(len(m) == 0 or (len(m) == 1 and m[0][1] == 1) for m in t.t)


class Emitter:
    def __init__(self, ctx, level=1, lemmas=None, pair_limit=40):
        self.ctx = ctx
        self.level = level
        self.zv = {}
        self.zp = {}
        self.zb = {}
        self.zc = {}
        self.inv = {}
        self.cons = []       # z3 constraints
        self.exps = []       # (atom, u_z, e_z)
        self.logs = []
        self.interps = []
        self.usigs = {}      # signature -> list of (d_z, v_z)
        self.lemmas = lemmas
        self.pair_limit = pair_limit
        self.abstracted = False
        self.axiom_terms = []

    # ------------------------------------------------------------------ terms
    def var(self, aid):
        v = self.zv.get(aid)
        if v is not None:
            return v
        at = self.ctx.atoms[aid]
        if at.kind == "const":
            v = zq(_LN[at.data])
            self.zv[aid] = v
            return v
        v = z3.Real(f"{at.name or at.kind}#{aid}")
        self.zv[aid] = v
        lo, hi = at.lo, at.hi
        if at.kind == "var":
            b = getattr(self.ctx, "var_bounds", {}).get(aid)
            if b is not None:
                self.cons += [v >= zq(b[0]), v <= zq(b[1])]
                lo, hi = -INF, INF
        if lo > -INF:
            self.cons.append(v >= zq(ffrac(lo)))
        if hi < INF:
            self.cons.append(v <= zq(ffrac(hi)))
        k = at.kind
        if k == "def":
            self.cons.append(v == self.poly(at.data))
        elif k == "ite":
            self._ite(at, v)
        elif k == "sqrt":
            q = self.poly(at.data)
            s = C.quick_sign(at.data)
            self.cons.append(v >= 0)
            body = v * v == q
            self.cons.append(body if s in ("+", ">=") else z3.Implies(q >= 0, body))
        elif k == "exp":
            u = self.poly(at.data)
            self.cons += [v > 0, v >= 1 + u]
            self.exps.append((aid, u, v))
        elif k == "log":
            x = self.poly(at.data)
            known = C.sign(at.data) == "+"
            self.logs.append((aid, v, x, known))
            ax = v <= x - 1
            self.cons.append(ax if known else z3.Implies(x > 0, ax))
        elif k == "abs":
            x = self.poly(at.data)
            self.cons.append(v == z3.If(x >= 0, x, -x))
        elif k == "floor":
            x = self.poly(at.data)
            self.cons += [v <= x, v > x - 1]
        return v

    def _ite(self, at, v):
        meta = self.ctx.interp_meta.get(at.id)
        if meta is not None:
            x, xp, fp = meta
            self.poly(x), [self.poly(q) for q in xp]
            self.interps.append((x, xp, [self.poly(q) for q in fp], v, (xp, fp)))
            if self.level == 0:
                self.abstracted = True
                return
        sig = None
        if self.lemmas is not None and not _linear(at.data):
            sig = self.lemmas.signature(at)
        if sig is not None:
            key, d, k = sig
            dz = self.var(d) if k == 1 else zq(k) * self.var(d)
            iv = (self.ctx.atoms[d].lo, self.ctx.atoms[d].hi)
            kf = float(k)
            iv = (iv[0] * kf, iv[1] * kf) if kf > 0 else (iv[1] * kf, iv[0] * kf)
            self.usigs.setdefault(key, []).append((dz, v, C._w(*iv)))
            if self.level == 0:
                self.abstracted = True
                self.cons.append(v == self._tree(at.data, abstract=True))
                return
        self.cons.append(v == self._tree(at.data))

    def _tree(self, t, abstract=False):
        if isinstance(t, Tree):
            return z3.If(self.cond(t.c), self._tree(t.hi, abstract), self._tree(t.lo, abstract))
        if abstract and not t.is_const():
            return z3.FreshReal("g")
        return self.poly(t)

    def invvar(self, aid):
        w = self.inv.get(aid)
        if w is None:
            v = self.var(aid)
            at = self.ctx.atoms[aid]
            w = z3.Real(f"inv#{aid}")
            self.inv[aid] = w
            if at.lo > 0 or at.kind == "exp":
                self.cons += [v * w == 1, w > 0]
            elif at.hi < 0:
                self.cons += [v * w == 1, w < 0]
            else:
                s = C.sign(C.atom_poly(at))
                if s == "+":
                    self.cons += [v * w == 1, w > 0, v > 0]
                elif s == "-":
                    self.cons += [v * w == 1, w < 0, v < 0]
                else:
                    self.cons += [z3.Implies(v != 0, v * w == 1),
                                  z3.Implies(v > 0, w > 0), z3.Implies(v < 0, w < 0)]
            lo, hi = C._ipow((at.lo, at.hi), -1) if (at.lo > 0 or at.hi < 0) else (-INF, INF)
            lo, hi = C._w(lo, hi)
            if lo > -INF:
                self.cons.append(w >= zq(ffrac(lo)))
            if hi < INF:
                self.cons.append(w <= zq(ffrac(hi)))
        return w

    def poly(self, p):
        z = self.zp.get(p)
        if z is not None:
            return z
        terms = []
        for m, c in p.t.items():
            c = Fraction(c)
            fs = []
            for a, e in m:
                if self.ctx.atoms[a].kind == "const":
                    c = c * _LN[self.ctx.atoms[a].data] ** e
                    continue
                v = self.var(a) if e > 0 else self.invvar(a)
                fs += [v] * abs(e)
            if c.denominator > 10 ** 60 or abs(c.numerator) > 10 ** 90:
                c = c.limit_denominator(10 ** 60) if abs(c) > F1 / 10 ** 20 else c
            if not fs:
                terms.append(zq(c))
            else:
                t = fs[0]
                for f in fs[1:]:
                    t = t * f
                terms.append(t if c == 1 else zq(c) * t)
        z = terms[0] if len(terms) == 1 else (z3.Sum(terms) if terms else z3.RealVal(0))
        self.zp[p] = z
        return z

    def cond(self, cid):
        z = self.zc.get(cid)
        if z is None:
            cd = self.ctx.conds[cid]
            if cd.kind == "b":
                z = self.bool(cd.q)
            else:
                q = self.poly(cd.q)
                z = q > 0 if cd.kind == "g" else q >= 0 if cd.kind == "ge" else q == 0
            self.zc[cid] = z
        return z

    def bool(self, b):
        if b is True:
            return z3.BoolVal(True)
        if b is False:
            return z3.BoolVal(False)
        z = self.zb.get(b)
        if z is None:
            if b.op == "lit":
                z = self.cond(b.args[0])
                if b.args[1]:
                    z = z3.Not(z)
            elif b.op == "and":
                z = z3.And([self.bool(x) for x in b.args])
            elif b.op == "or":
                z = z3.Or([self.bool(x) for x in b.args])
            else:
                z = z3.Bool(f"b!{b.args}")
                if b.op == "nbvar":
                    z = z3.Not(z)
            self.zb[b] = z
        return z

    # ------------------------------------------------------------------ axioms
    def axioms(self, tangents=()):
        """call after all terms have been emitted"""
        out = []
        # closure: emitting axioms may not create new atoms
        pts = []  # (u, e, guard)
        for aid, u, v in self.exps:
            pts.append((u, v, None))
        for aid, l, x, known in self.logs:
            pts.append((l, x, None if known else x > 0))
        one = (z3.RealVal(0), z3.RealVal(1), None)
        pairs = []
        n = len(pts)
        if n <= self.pair_limit:
            pairs = list(itertools.combinations(range(n), 2))
        else:
            # neighbours only (creation order is usually grid order)
            ne = len(self.exps)
            ps = set()
            for lo, hi in ((0, ne), (ne, n)):
                for i in range(lo, hi):
                    ps.update((i, j) for j in (i + 1, i + 2) if j < hi)
                    if i != lo:
                        ps.add((lo, i))
                    if i != hi - 1:
                        ps.add((i, hi - 1))
            lpos = {aid: ne + k for k, (aid, *_) in enumerate(self.logs)}
            for i, (aid, u, v) in enumerate(self.exps):
                for a in self.ctx.atoms[aid].data.atom_ids():
                    if a in lpos:
                        ps.add((i, lpos[a]))
            pairs = sorted(ps)
        for i, j in pairs:
            u1, e1, g1 = pts[i]
            u2, e2, g2 = pts[j]
            ax = z3.And((u1 < u2) == (e1 < e2), (u2 < u1) == (e2 < e1))
            gs = [g for g in (g1, g2) if g is not None]
            out.append(z3.Implies(z3.And(gs), ax) if gs else ax)
        for u, e, g in pts:
            ax = z3.And((u < 0) == (e < 1), (u > 0) == (e > 1))
            out.append(z3.Implies(g, ax) if g is not None else ax)
        # nearly equal exponents: e1 / e2 lies in exp(interval of u1 - u2)
        if len(self.exps) <= 60:
            for (a1, _, v1), (a2, _, v2) in itertools.combinations(self.exps, 2):
                d = C.p_sub(self.ctx.atoms[a1].data, self.ctx.atoms[a2].data)
                if len(d.t) > 12:
                    continue
                lo, hi = C.p_interval(d)
                if -0.7 < lo and hi < 0.7:
                    elo = C.mpf_frac(mpmath.exp(mpmath.mpf(lo)) * (1 - mpmath.mpf(10) ** -25))
                    ehi = C.mpf_frac(mpmath.exp(mpmath.mpf(hi)) * (1 + mpmath.mpf(10) ** -25))
                    out += [v1 <= zq(ehi) * v2, v1 >= zq(elo) * v2]
        # products: u_k = u_i + u_j
        ex = [(self.ctx.atoms[a].data, v) for a, _, v in self.exps]
        idx = {u: v for u, v in ex}
        if len(ex) <= 40:
            for (ui, vi), (uj, vj) in itertools.combinations_with_replacement(ex, 2):
                s = C.p_add(ui, uj)
                if s in idx:
                    out.append(idx[s] == vi * vj)
                    continue
                # up to a constant
                c0 = s.const()
                if c0:
                    s0 = C.p_sub(s, C.const(c0))
                    if s0 in idx:
                        out.append(zq(C.exp_const(c0, F0)) * idx[s0] == vi * vj)
        out += self.interp_axioms()
        # univariate families
        if self.lemmas is not None:
            for key, inst in self.lemmas.merge(self.usigs).items():
                out += self.lemmas.instantiate(key, inst, self.pair_limit)
        for aid, c in tangents:
            out += self.tangent(aid, c)
        return out

    def interp_axioms(self):
        """linear interpolation on an increasing grid (schema proved by interp_schema below)"""
        if not self.interps:
            return []
        if not interp_schema():
            return []
        out = []
        fams = {}

        def ge(p, q):
            return self.bool(C.cmp0(C.p_sub(p, q), ">="))

        def gt(p, q):
            return self.bool(C.cmp0(C.p_sub(p, q), ">"))
        for x, xp, fp, v, key in self.interps:
            fams.setdefault(key, []).append((x, v))
            n = len(xp)
            out.append(z3.Implies(ge(xp[0], x), v == fp[0]))
            out.append(z3.Implies(ge(x, xp[-1]), v == fp[-1]))
            for k in range(n - 1):
                c = z3.And(ge(x, xp[k]), ge(xp[k + 1], x))
                out.append(z3.Implies(c, z3.Or(z3.And(fp[k] <= v, v <= fp[k + 1]),
                                               z3.And(fp[k + 1] <= v, v <= fp[k]))))
        for (xp, fpk), inst in fams.items():
            fp = [self.poly(q) for q in fpk]
            inc = z3.And([ge(b, a) for a, b in zip(fpk, fpk[1:])])
            sinc = z3.And([gt(b, a) for a, b in zip(fpk, fpk[1:])])
            dec = z3.And([ge(a, b) for a, b in zip(fpk, fpk[1:])])
            n = len(xp)
            for x, v in inst:
                # an increasing table: ordering against every knot
                for k in range(n):
                    out.append(z3.Implies(inc, z3.And(z3.Implies(ge(x, xp[k]), v >= fp[k]),
                                                      z3.Implies(ge(xp[k], x), v <= fp[k]))))
                out.append(z3.Implies(sinc, z3.And(z3.Implies(gt(x, xp[0]), v > fp[0]),
                                                   z3.Implies(gt(xp[-1], x), v < fp[-1]))))
            pr = list(itertools.combinations(inst, 2))
            if len(inst) > 30:
                pr = [(inst[i], inst[j]) for i in range(len(inst)) for j in (i + 1, i + 2) if j < len(inst)]
            for (x1, v1), (x2, v2) in pr:
                le, ll = ge(x2, x1), ge(x1, x2)
                out.append(z3.Implies(inc, z3.And(z3.Implies(le, v1 <= v2), z3.Implies(ll, v2 <= v1))))
                out.append(z3.Implies(dec, z3.And(z3.Implies(le, v1 >= v2), z3.Implies(ll, v2 >= v1))))
                lt, gg = gt(x2, x1), gt(x1, x2)
                out.append(z3.Implies(sinc, z3.And(
                    z3.Implies(z3.And(lt, gt(xp[-1], x1), gt(x2, xp[0])), v1 < v2),
                    z3.Implies(z3.And(gg, gt(xp[-1], x2), gt(x1, xp[0])), v2 < v1))))
        return out

    def tangent(self, aid, c):
        """lemmas for exp/log/sqrt atom aid at the rational point c (of its argument)"""
        at = self.ctx.atoms[aid]
        if aid not in self.zv:
            return []
        v = self.zv[aid]
        out = []
        if at.kind == "exp":
            u = self.poly(at.data)
            E = mpmath.exp(_mp(c))
            lo, hi = C.mpf_frac(E * (1 - mpmath.mpf(10) ** -28)), C.mpf_frac(E * (1 + mpmath.mpf(10) ** -28))
            out.append(v >= zq(lo) * (1 + u - zq(c)))     # lo>=0 and valid where 1+u-c>=0
            # lo*(1+u-c) with negative factor: weaker bound still fine since v>0 >= it
            out.append(z3.And(z3.Implies(u <= zq(c), v <= zq(hi)), z3.Implies(u >= zq(c), v >= zq(lo))))
            ulo, uhi = C.p_interval(at.data)
            for b in (ulo, uhi):
                if -INF < b < INF:
                    out += self._secant_exp(u, v, Fraction(b), Fraction(c))
            for dlt in (Fraction(1, 8),):
                out += self._secant_exp(u, v, Fraction(c) - dlt, Fraction(c))
                out += self._secant_exp(u, v, Fraction(c), Fraction(c) + dlt)
        elif at.kind == "log":
            x = self.poly(at.data)
            if c <= 0:
                return []
            L = mpmath.log(_mp(c))
            eps = mpmath.mpf(10) ** -28 * (1 + abs(L))
            lo, hi = C.mpf_frac(L - eps), C.mpf_frac(L + eps)
            cons = [v <= zq(hi) + (x - zq(c)) / zq(c),
                    z3.Implies(x <= zq(c), v <= zq(hi)), z3.Implies(x >= zq(c), v >= zq(lo))]
            xlo, xhi = C.p_interval(at.data)
            for b in (xlo, xhi, float(c) * 0.9, float(c) * 1.1):
                if 0 < b < INF:
                    b = Fraction(b)
                    if b == c:
                        continue
                    Lb = C.mpf_frac(mpmath.log(_mp(b)) - mpmath.mpf(10) ** -26)
                    a0, a1 = (b, c) if b < c else (c, b)
                    l0, l1 = (Lb, lo) if b < c else (lo, Lb)
                    cons.append(z3.Implies(z3.And(x >= zq(a0), x <= zq(a1)),
                                           v >= zq(l0) + (x - zq(a0)) * zq((l1 - l0) / (a1 - a0))))
            known = C.sign(at.data) == "+"
            out += cons if known else [z3.Implies(x > 0, k) for k in cons]
        return out

    def _secant_exp(self, u, v, a, b):
        if a > b:
            a, b = b, a
        if a == b or b > 600:
            return []
        ea = C.mpf_frac(mpmath.exp(_mp(a)) * (1 + mpmath.mpf(10) ** -28))
        eb = C.mpf_frac(mpmath.exp(_mp(b)) * (1 + mpmath.mpf(10) ** -28))
        return [z3.Implies(z3.And(u >= zq(a), u <= zq(b)),
                           v <= zq(ea) + (u - zq(a)) * zq((eb - ea) / (b - a)))]


def _mp(c):
    c = Fraction(c)
    return mpmath.mpf(c.numerator) / c.denominator


_SCHEMA = []


def interp_schema():
    """one cell of linear interpolation: value between the end values, monotone in the query;
    proved by the solver once per process (cells then combine by transitivity)"""
    if not _SCHEMA:
        xa, xb, fa, fb, x, y = z3.Reals("xa xb fa fb x y")

        def f(q):
            return fa * (xb - xa) + (q - xa) * (fb - fa)   # value times the positive cell width
        w = xb - xa
        neg = [z3.And(fa <= fb, z3.Or(f(x) < fa * w, f(x) > fb * w)),
               z3.And(fa >= fb, z3.Or(f(x) > fa * w, f(x) < fb * w)),
               z3.And(fa <= fb, x <= y, f(x) > f(y)), z3.And(fa >= fb, x <= y, f(x) < f(y)),
               z3.And(fa < fb, x < y, f(x) >= f(y))]
        s = z3.Tactic("qfnra-nlsat").solver()
        s.set("timeout", 20000)
        s.add(w > 0, xa <= x, x <= xb, xa <= y, y <= xb, z3.Or(neg))
        t = time.time()
        _SCHEMA.append(s.check() == z3.unsat)
        STATS["lemma_queries"] += 1
        STATS["solver_s"] += time.time() - t
    return _SCHEMA[0]


# ----------------------------------------------------------------- univariate lemmas
class Lemmas:
    """Solver-proved facts about piecewise-polynomial functions of one argument.

    An ite atom all of whose conditions and leaves are functions of a single named
    subterm d is recognised (whatever code produced it); monotonicity and range of the
    function are proved once by z3 for two symbolic arguments, then instantiated.
    """

    def __init__(self, ctx):
        self.ctx = ctx
        self.sig_cache = {}
        self.facts = {}
        self.agree_cache = {}
        self.log = []

    def signature(self, at):
        r = self.sig_cache.get(at.id, 0)
        if r != 0:
            return r
        r = self._signature(at.data)
        if r is not None:
            key, d = r
            key, k = self.canon(key)
            r = (key, d, k)
        self.sig_cache[at.id] = r
        return r

    def canon(self, key):
        """canonical piecewise form, argument rescaled so that the largest threshold is 1
        and oriented; returns (key, k) with key a function of k*d"""
        thr = set()

        def walk(t):
            if t[0] == "l":
                return all(e >= 0 for e, _ in t[1])
            kind, flip, q = t[1]
            dq = dict(q)
            if kind == "eq" or not set(dq) <= {0, 1} or 1 not in dq:
                return False
            thr.add(-dq.get(0, F0) / dq[1])
            return walk(t[2]) and walk(t[3])
        if not walk(key) or not thr:
            return key, F1
        m = max(abs(t) for t in thr)
        k = 1 / m if m else F1

        def leaf(x):
            t = key
            while t[0] != "l":
                kind, flip, q = t[1]
                v = sum(c * x ** e for e, c in q) * flip
                t = t[2] if (v > 0 if kind == "g" else v >= 0) else t[3]
            return t[1]
        ts = sorted(thr)
        mids = [ts[0] - 1] + [(a + b) / 2 for a, b in zip(ts, ts[1:])] + [ts[-1] + 1]
        pieces = [leaf(x) for x in mids]
        vals = [sum((c * t ** e for e, c in leaf(t)), F0) for t in ts]
        hp = max(pieces, key=lambda p: max((e for e, _ in p), default=0))
        odd = [c for e, c in sorted(hp) if e % 2 == 1]
        if odd and odd[-1] < 0:
            k = -k

        def resc(p):
            return tuple((e, c / k ** e) for e, c in p)
        ts2 = [t * k for t in ts]
        ps2 = [resc(p) for p in pieces]
        if k < 0:
            ts2, ps2, vals = ts2[::-1], ps2[::-1], vals[::-1]
        # merge equal adjacent pieces
        i = 0
        while i < len(ts2):
            if ps2[i] == ps2[i + 1] and vals[i] == sum((c * ts2[i] ** e for e, c in ps2[i]), F0):
                del ts2[i], ps2[i + 1], vals[i]
            else:
                i += 1
        return ("pw", tuple(ts2), tuple(ps2), tuple(vals)), k

    def _signature(self, tree):
        ctx = self.ctx
        defs = set()
        polys = []

        def walk(t):
            if isinstance(t, Tree):
                cd = ctx.conds[t.c]
                if cd.kind == "b":
                    return False
                polys.append(cd.q)
                return walk(t.lo) and walk(t.hi)
            polys.append(t)
            for a in t.atom_ids():
                if ctx.atoms[a].kind == "def":
                    defs.add(a)
            return True
        if not walk(tree):
            return None
        atoms = set().union(*[p.atom_ids() for p in polys])
        if len(atoms) == 1:
            (a,) = atoms
            if ctx.atoms[a].kind in ("var", "def"):
                return self._mk(tree, a, lambda p: p), a
        for d in sorted(defs):
            q = ctx.atoms[d].data
            # solve q = d for an atom occurring linearly, alone in its monomial up to powers
            for m, c in q.t.items():
                lin = [a for a, e in m if e == 1 and ctx.atoms[a].kind != "const"]
                for v in lin:
                    if sum(1 for m2 in q.t for a, _ in m2 if a == v) != 1:
                        continue
                    rest = C.p_sub(q, C.P({m: c}))
                    cof = C.P({tuple(x for x in m if x[0] != v): c})
                    expr = C.p_div(C.p_sub(C.atom_poly(ctx.atoms[d]), rest), cof)

                    def sub_(p, v=v, expr=expr):
                        out = C.P({})
                        for mm, cc in p.t.items():
                            dm = dict(mm)
                            e = dm.pop(v, 0)
                            t = C.P({tuple(sorted(dm.items())): cc})
                            if e < 0:
                                return None
                            for _ in range(e):
                                t = C.p_mul(t, expr)
                            out = C.p_add(out, t)
                        return out
                    r = self._mk(tree, d, sub_)
                    if r is not None:
                        return r, d
        return None

    def _mk(self, tree, d, sub_):
        """canonical signature in the single variable d, or None"""
        ctx = self.ctx

        def norm_leaf(p):
            q = sub_(p)
            if q is None or not q.atom_ids() <= {d}:
                return None
            return tuple(sorted((m[0][1] if m else 0, c) for m, c in q.t.items()))

        def norm_cond(kind, p):
            q = sub_(p)
            if q is None:
                return None
            q, flip = C.clear_denoms(q)
            if not q.atom_ids() <= {d}:
                return None
            return (kind, flip, tuple(sorted((m[0][1] if m else 0, c) for m, c in q.t.items())))

        def rec(t):
            if isinstance(t, Tree):
                cd = ctx.conds[t.c]
                c = norm_cond(cd.kind, cd.q)
                if c is None:
                    return None
                lo, hi = rec(t.lo), rec(t.hi)
                if lo is None or hi is None:
                    return None
                return ("n", c, hi, lo)
            l = norm_leaf(t)
            return None if l is None else ("l", l)
        return rec(tree)

    # build / evaluate
    def _z(self, key, x):
        if key[0] == "pw":
            r = self._zp(key[2][-1], x)
            for t, p, v in reversed(list(zip(key[1], key[2], key[3]))):
                r = z3.If(x < zq(t), self._zp(p, x), z3.If(x == zq(t), zq(v), r))
            return r
        if key[0] == "l":
            return self._zp(key[1], x)
        kind, flip, q = key[1]
        p = self._zp(q, x) * flip
        c = p > 0 if kind == "g" else p >= 0 if kind == "ge" else p == 0
        return z3.If(c, self._z(key[2], x), self._z(key[3], x))

    def _zp(self, q, x):
        ts = []
        for e, c in q:
            t = zq(c)
            for _ in range(e):
                t = t * x
            ts.append(t)
        return z3.Sum(ts) if ts else z3.RealVal(0)

    def _f(self, key, x):
        if key[0] == "pw":
            for t, p, v in zip(key[1], key[2], key[3]):
                if x == t:
                    return v
                if x < t:
                    return sum((c * x ** e for e, c in p), F0)
            return sum((c * x ** e for e, c in key[2][-1]), F0)
        while key[0] != "l":
            kind, flip, q = key[1]
            p = sum(c * x ** e for e, c in q) * flip
            c = p > 0 if kind == "g" else p >= 0 if kind == "ge" else p == 0
            key = key[2] if c else key[3]
        return sum((c * x ** e for e, c in key[1]), F0)

    def _has_neg(self, key):
        if key[0] == "pw":
            return False
        if key[0] == "l":
            return any(e < 0 for e, _ in key[1])
        return self._has_neg(key[2]) or self._has_neg(key[3])

    def prove(self, key):
        f = self.facts.get(key)
        if f is not None:
            return f
        f = dict(mono=0, lo=None, hi=None)
        self.facts[key] = f
        if self._has_neg(key):
            return f
        xs = [Fraction(k, 16) for k in range(-160, 161)] + [Fraction(k * 50) for k in (-2, -1, 1, 2)]
        xs.sort()
        ys = [self._f(key, x) for x in xs]
        X, Y = z3.Reals("X Y")

        def unsat(*cs):
            s = z3.Tactic("qfnra-nlsat").solver()
            s.set("timeout", 8000)
            s.add(*cs)
            t = time.time()
            r = s.check()
            STATS["lemma_queries"] += 1
            STATS["solver_s"] += time.time() - t
            return r == z3.unsat
        inc = all(a <= b for a, b in zip(ys, ys[1:]))
        dec = all(a >= b for a, b in zip(ys, ys[1:]))
        fX, fY = self._z(key, X), self._z(key, Y)
        if inc and not dec and unsat(X < Y, fX > fY):
            f["mono"] = 1
        if dec and not inc and unsat(X < Y, fX < fY):
            f["mono"] = -1
        f["strict"] = None
        if f["mono"] and key[0] == "pw" and key[1]:
            t1, tn = key[1][0], key[1][-1]
            g1, g2 = (fX, fY) if f["mono"] > 0 else (fY, fX)
            if unsat(X < Y, X < zq(tn), Y > zq(t1), g1 >= g2):
                f["strict"] = (t1, tn)
        lo, hi = min(ys), max(ys)
        if unsat(fX < zq(lo)):
            f["lo"] = lo
        if unsat(fX > zq(hi)):
            f["hi"] = hi
        self.log.append(f"univariate function: monotone={f['mono']} range=[{f['lo']},{f['hi']}]")
        return f

    def instantiate(self, key, inst, pair_limit):
        f = self.prove(key)
        out = []
        inst = [t[:2] for t in inst]
        if f["mono"] and key[0] == "pw":
            for t in sorted(set(key[1]) | {F0}):
                inst.append((zq(t), zq(self._f(key, t))))
        for d, v in inst:
            if f["lo"] is not None:
                out.append(v >= zq(f["lo"]))
            if f["hi"] is not None:
                out.append(v <= zq(f["hi"]))
        if f["mono"]:
            n = len(inst)
            prs = itertools.combinations(range(n), 2) if n <= pair_limit else \
                [(i, j) for i in range(n) for j in (i + 1, i + 2) if j < n]
            for i, j in prs:
                (d1, v1), (d2, v2) = inst[i], inst[j]
                a, b = (v1, v2) if f["mono"] > 0 else (v2, v1)
                out += [z3.Implies(d1 <= d2, a <= b), z3.Implies(d2 <= d1, b <= a)]
                if f["strict"]:
                    t1, tn = f["strict"]
                    out += [z3.Implies(z3.And(d1 < d2, d1 < zq(tn), d2 > zq(t1)), a < b),
                            z3.Implies(z3.And(d2 < d1, d2 < zq(tn), d1 > zq(t1)), b < a)]
        return out

    def merge(self, usigs):
        """functions simplified on their domain belong to the family they agree with there"""
        keys = [k for k in usigs if k[0] == "pw"]
        out = {k: list(v) for k, v in usigs.items()}
        if len(keys) > 8:
            return out
        for a in keys:
            for b in keys:
                if a == b or len(b[1]) < len(a[1]) or (len(a[1]) == len(b[1])):
                    continue
                lo, hi = min(t[2][0] for t in usigs[a]), max(t[2][1] for t in usigs[a])
                if self.agree(a, b, lo, hi):
                    out[b] += usigs[a]
        return out

    def agree(self, a, b, lo, hi):
        ck = (a, b, lo, hi)
        r = self.agree_cache.get(ck)
        if r is None:
            x = z3.Real("X")
            s = z3.Tactic("qfnra-nlsat").solver()
            s.set("timeout", 3000)
            if lo > -INF:
                s.add(x >= zq(ffrac(lo)))
            if hi < INF:
                s.add(x <= zq(ffrac(hi)))
            s.add(self._z(a, x) != self._z(b, x))
            t = time.time()
            r = s.check() == z3.unsat
            STATS["lemma_queries"] += 1
            STATS["solver_s"] += time.time() - t
            self.agree_cache[ck] = r
        return r


# ----------------------------------------------------------------------- solving
def model_value(m, v):
    r = m.eval(v, model_completion=True)
    if z3.is_algebraic_value(r):
        r = r.approx(30)
    if z3.is_rational_value(r):
        return Fraction(r.numerator_as_long(), r.denominator_as_long())
    try:
        return Fraction(str(r.as_decimal(30)).rstrip("?"))
    except Exception:
        return F0


class GroundEmitter(Emitter):
    """every symbol is emitted as its high-precision value under an assignment of the inputs"""

    def __init__(self, ctx, ev, assign):
        super().__init__(ctx, level=0)
        self.ev, self.assign = ev, assign

    def var(self, aid):
        v = self.zv.get(aid)
        if v is None:
            q = self.assign.get(aid)
            v = self.zv[aid] = zq(C.mpf_frac(mpmath.mpf(self.ev.atom(aid))) if q is None else q)
        return v

    def poly(self, p):
        z = self.zp.get(p)
        if z is None:   # folded here: a cleared denominator may be a product of hundreds of factors
            z = self.zp[p] = zq(C.mpf_frac(self.ev.poly(p)))
        return z


def check(cons, timeout_ms, tactic=None, seed=0):
    if tactic == "cvc5":
        return check_cvc5(cons, timeout_ms)
    if tactic is None:
        s = z3.Solver()
        s.set("random_seed", seed)
    elif tactic == "nlsat":
        s = z3.Tactic("qfnra-nlsat").solver()
    elif tactic == "nra":
        s = z3.SolverFor("QF_NRA")
    elif tactic == "simpnl":
        s = z3.Then("simplify", "propagate-values", "solve-eqs", "purify-arith", "elim-term-ite",
                    "solve-eqs", "tseitin-cnf", "nlsat").solver()
    s.set("timeout", int(timeout_ms))
    s.add(*cons)
    t = time.time()
    wd = threading.Timer(timeout_ms / 1000 + 3, z3.main_ctx().interrupt)
    wd.start()
    try:
        r = s.check()
    except z3.Z3Exception:
        r = z3.unknown
    wd.cancel()
    dt = time.time() - t
    STATS["queries"] += 1
    STATS["solver_s"] += dt
    STATS[str(r)] += 1
    return str(r), (s.model() if r == z3.sat else None), dt


def check_cvc5(cons, timeout_ms):
    """cvc5 runs as a child process: its nonlinear core does not always honour its own limit"""
    s = z3.Solver()
    s.add(*cons)
    text = "(set-logic QF_NRA)\n" + s.to_smt2()
    t = time.time()
    try:
        p = subprocess.run([sys.executable, "-S", CVC5, str(int(timeout_ms))], input=text,
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True,
                           timeout=timeout_ms / 1000 + 2)
        out = p.stdout.split()
        DBG and open("/tmp/w/q.smt2", "w").write(text); DBG and print(p.stdout[:300])
        res = "unsat" if out[:1] == ["unsat"] else "unknown"
    except Exception:
        res = "unknown"
    dt = time.time() - t
    STATS["queries"] += 1
    STATS["solver_s"] += dt
    STATS[res] += 1
    return res, None, dt
