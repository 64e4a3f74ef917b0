"""Symbolic terms: Laurent polynomials over atoms, decision trees, booleans.

Reals are *mathematical reals* (see DESIGN.md: floating point rounding is outside the
claim; all goals carry explicit tolerances and every counterexample is replayed in
float64).  All objects are hash-consed so that syntactically different code computing
the same polynomial gives the identical term.
"""
from fractions import Fraction
import functools
import math
import mpmath

mpmath.mp.dps = 34
INF = float("inf")
F0, F1 = Fraction(0), Fraction(1)


class SymError(Exception):
    """the encoder cannot handle a construct"""


# ----------------------------------------------------------------------------- floats
_LN10 = math.log(10.0)
_INVLN10 = 1.0 / math.log(10.0)
_LN2 = math.log(2.0)


def _close(x, y):
    return abs(x - y) <= 4e-16 * abs(y)


def frac(x):
    """Nice rational within half an ulp of the double x."""
    if isinstance(x, Fraction):
        return x
    if isinstance(x, int):
        return Fraction(x)
    x = float(x)
    if not math.isfinite(x):
        raise SymError("non-finite constant")
    return _nice(x)


@functools.lru_cache(maxsize=200000)
def _nice(x):
    f = Fraction(repr(x))
    if len(str(abs(f.numerator))) > 14 or f.denominator > 10**14:
        # a quotient such as 35/96 computed by the code before it meets a symbolic value
        g = f.limit_denominator(100000)
        if g != 0 and float(g) == x:
            return g
    return f


def mpf_frac(x, digits=32):
    """rational approximation of an mpf"""
    if x == 0:
        return F0
    s = mpmath.nstr(x, digits, strip_zeros=False, min_fixed=0, max_fixed=0)
    return Fraction(s)


# --------------------------------------------------------------------------- context
class Ctx:
    """One symbolic execution: owns the atoms."""

    def __init__(self):
        self.atoms = []
        self.table = {}
        self.poly_table = {}
        self.conds = []
        self.cond_table = {}
        self.def_table = {}
        self.sign_cache = {}
        self.prover = None  # callable(bool) -> True if entailed by input constraints
        self.prove_cache = {}
        self.n_side = 0
        self.tree_table = {}
        self.bool_table = {}
        self.tree_limit = 40
        self.functions = set()
        self.interp_meta = {}

    # atoms
    def atom(self, kind, data, lo=-INF, hi=INF, name=None):
        key = (kind, data)
        a = self.table.get(key)
        if a is None:
            a = Atom(len(self.atoms), kind, data, lo, hi, name)
            self.atoms.append(a)
            self.table[key] = a
        return a


class Atom:
    __slots__ = ("id", "kind", "data", "lo", "hi", "name", "deps")

    def __init__(self, id, kind, data, lo, hi, name):
        self.id, self.kind, self.data, self.lo, self.hi, self.name = (
            id, kind, data, lo, hi, name)
        self.deps = None

    def __repr__(self):
        return self.name or f"{self.kind}{self.id}"


CTX = Ctx()


def new_ctx():
    global CTX
    CTX = Ctx()
    return CTX


# ------------------------------------------------------------------------------ poly
class Poly:
    __slots__ = ("t", "_h", "id", "_iv")

    def __init__(self, t):
        self.t = t
        self._h = hash(frozenset(t.items()))
        self._iv = None

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, Poly) and self._h == o._h and self.t == o.t)

    # queries
    def is_const(self):
        return not self.t or (len(self.t) == 1 and () in self.t)

    def const(self):
        return self.t.get((), F0)

    def nterms(self):
        return len(self.t)

    def atom_ids(self):
        s = set()
        for m in self.t:
            for a, _ in m:
                s.add(a)
        return s

    def __repr__(self):
        return show(self)


def P(t):
    ctx = CTX
    p = Poly(t)
    q = ctx.poly_table.get(p)
    if q is None:
        ctx.poly_table[p] = p
        q = p
    return q


def const(c):
    c = frac(c)
    return P({(): c} if c else {})


def atom_poly(a, e=1):
    return P({((a.id, e),): F1})


def sym_const(name):
    """LN10 / LN2 as exact symbols"""
    v = {"LN10": _LN10, "LN2": _LN2}[name]
    return CTX.atom("const", name, v * (1 - 1e-15), v * (1 + 1e-15), name)


def float_const(x):
    """Poly for a double constant, recognising ln(10) etc. so logs/exps cancel exactly."""
    x = float(x)
    if _close(x, _LN10):
        return atom_poly(sym_const("LN10"))
    if _close(x, _INVLN10):
        return atom_poly(sym_const("LN10"), -1)
    if _close(x, -_LN10):
        return p_scale(atom_poly(sym_const("LN10")), Fraction(-1))
    if _close(x, -_INVLN10):
        return p_scale(atom_poly(sym_const("LN10"), -1), Fraction(-1))
    if _close(x, 1.0 / _LN2):
        return atom_poly(sym_const("LN2"), -1)
    if _close(x, _LN2):
        return atom_poly(sym_const("LN2"))
    return const(x)


def mono_mul(m1, m2):
    if not m1:
        return m2
    if not m2:
        return m1
    d = dict(m1)
    for a, e in m2:
        n = d.get(a, 0) + e
        if n:
            d[a] = n
        else:
            d.pop(a, None)
    return tuple(sorted(d.items()))


def mono_pow(m, k):
    return tuple((a, e * k) for a, e in m)


def p_add(p, q):
    if not p.t:
        return q
    if not q.t:
        return p
    if len(p.t) < len(q.t):
        p, q = q, p
    d = dict(p.t)
    for m, c in q.t.items():
        n = d.get(m, F0) + c
        if n:
            d[m] = n
        else:
            d.pop(m, None)
    return P(d)


def p_scale(p, c):
    if c == 0:
        return P({})
    if c == 1:
        return p
    return P({m: v * c for m, v in p.t.items()})


def p_neg(p):
    return p_scale(p, Fraction(-1))


def p_sub(p, q):
    return p_add(p, p_neg(q))


MAXTERMS = 6000


def p_mul(p, q):
    if not p.t or not q.t:
        return P({})
    if p.is_const():
        return p_scale(q, p.const())
    if q.is_const():
        return p_scale(p, q.const())
    if len(p.t) * len(q.t) > 20000:
        # name the larger factor to keep products small
        if len(p.t) >= len(q.t):
            p = atom_poly(def_atom(p)) if len(p.t) > 1 else p
        else:
            q = atom_poly(def_atom(q)) if len(q.t) > 1 else q
        if len(p.t) * len(q.t) > 20000:
            return p_mul(p, q)
    d = {}
    for m1, c1 in p.t.items():
        for m2, c2 in q.t.items():
            m = mono_mul(m1, m2)
            n = d.get(m, F0) + c1 * c2
            if n:
                d[m] = n
            else:
                d.pop(m, None)
    r = P(d)
    return _reduce(r)


def _reduce(p):
    """apply sqrt(q)^2 = q"""
    ats = CTX.atoms
    for m in p.t:
        for a, e in m:
            at = ats[a]
            if at.kind == "sqrt" and (e >= 2 or e <= -2):
                return _reduce_sqrt(p, at)
            if at.kind == "abs" and e % 2 == 0:
                return _reduce_abs(p, at)
    return p


def _reduce_sqrt(p, at):
    out = P({})
    q = at.data
    for m, c in p.t.items():
        d = dict(m)
        e = d.pop(at.id, 0)
        k = int(e / 2)  # toward zero
        r = e - 2 * k
        if r:
            d[at.id] = r
        term = P({tuple(sorted(d.items())): c})
        if k > 0:
            term = p_mul(term, p_ipow(q, k))
        elif k < 0:
            term = p_mul(term, p_ipow(p_inv(q), -k))
        out = p_add(out, term)
    return _reduce(out)


def _reduce_abs(p, at):
    out = P({})
    q = at.data
    for m, c in p.t.items():
        d = dict(m)
        e = d.get(at.id, 0)
        if e and e % 2 == 0:
            d.pop(at.id)
            term = P({tuple(sorted(d.items())): c})
            term = p_mul(term, p_ipow(q, e) if e > 0 else p_ipow(p_inv(q), -e))
        else:
            term = P({m: c})
        out = p_add(out, term)
    return out


def p_ipow(p, n, name_big=True):
    if n == 0:
        return const(1)
    if n < 0:
        return p_inv(p_ipow(p, -n))
    if n == 1:
        return p
    if len(p.t) == 1:
        (m, c), = p.t.items()
        return _reduce(P({mono_pow(m, n): c ** n}))
    if n >= 3 and len(p.t) > 1:
        # sum of the form (multi-term)^n: name it unless univariate & tiny
        if not (len(p.atom_ids()) == 1 and len(p.t) <= 3 and n <= 4):
            c, q = content(p)
            a = def_atom(q)
            return p_scale(atom_poly(a, n), c ** n)
    r = p
    for _ in range(n - 1):
        r = p_mul(r, p)
    return r


def lead(p):
    """a deterministic leading monomial (highest total degree, then atom ids)"""
    return max(p.t, key=lambda m: (sum(e for _, e in m), m))


def content(p):
    """p = c * q with q having leading coefficient 1"""
    if not p.t:
        return F0, p
    c = p.t[lead(p)]
    if c == 1:
        return F1, p
    return c, P({m: v / c for m, v in p.t.items()})


def common_mono(p):
    """largest Laurent monomial dividing all the terms (min exponents)"""
    it = iter(p.t)
    d = dict(next(it))
    for m in it:
        dm = dict(m)
        for a in list(d):
            e = dm.get(a, 0)
            if e < d[a]:
                d[a] = e
        for a, e in dm.items():
            if a not in d and e < 0:
                d[a] = e
    # atoms absent in first monomial but negative elsewhere have been handled above
    return tuple(sorted((a, e) for a, e in d.items() if e))


def p_mulmono(p, m, c=F1):
    return P({mono_mul(k, m): v * c for k, v in p.t.items()})


def def_atom(q):
    """named subterm d := q"""
    ctx = CTX
    lo, hi = p_interval(q)
    return ctx.atom("def", q, lo, hi)


def simp_small(q):
    """expand named subterms when that makes q smaller"""
    if len(q.t) < 2:
        return q
    e = expand_defs(q, 60)
    if e is not None and len(e.t) < len(q.t) and e.t:
        return e
    return q


def p_inv(q):
    if not q.t:
        raise ZeroDivisionError
    if len(q.t) == 1:
        (m, c), = q.t.items()
        return _reduce(P({mono_pow(m, -1): 1 / c}))
    c, q1 = content(q)
    cm = common_mono(q1)
    if cm:
        q1 = p_mulmono(q1, mono_pow(cm, -1))
    q2 = simp_small(q1)
    if q2 is not q1:
        return p_mul(P({mono_pow(cm, -1): 1 / c}), p_inv(q2))
    if len(q1.t) == 1:
        return p_scale(P({mono_pow(mono_mul(cm, lead(q1)), -1): 1 / q1.t[lead(q1)]}), 1 / c)
    # powers of a named polynomial
    a = def_atom(q1)
    return P({mono_mul(((a.id, -1),), mono_pow(cm, -1)): 1 / c})


def p_exact_div(p, q):
    """p/q if q (multi-term) divides p exactly, else None"""
    if len(p.t) > 300 or len(q.t) > 60 or len(p.t) < len(q.t):
        return None
    lq = lead(q)
    cq = q.t[lq]
    ilq = mono_pow(lq, -1)
    out = {}
    r = p
    for _ in range(400):
        if not r.t:
            return P(out)
        lr = lead(r)
        m = mono_mul(lr, ilq)
        if any(e < 0 for _, e in m):
            # a Laurent quotient would not terminate in general
            return None
        c = r.t[lr] / cq
        out[m] = out.get(m, F0) + c
        r = p_sub(r, P({mono_mul(k, m): v * c for k, v in q.t.items()}))
    return None


def p_div(p, q):
    if not p.t:
        return p
    if q.is_const():
        return p_scale(p, 1 / q.const())
    if len(q.t) > 1:
        c, q1 = content(q)
        cm = common_mono(q1)
        if cm:
            q1 = p_mulmono(q1, mono_pow(cm, -1))
        cp = common_mono(p)
        p1 = p_mulmono(p, mono_pow(cp, -1)) if cp else p
        r = p_exact_div(p1, q1)
        if r is not None:
            return p_mulmono(r, mono_mul(cp, mono_pow(cm, -1)), 1 / c)
        if 1 < len(p1.t) < len(q1.t):
            r = p_exact_div(q1, p1)
            if r is not None:
                return p_mulmono(p_inv(r), mono_mul(cp, mono_pow(cm, -1)), 1 / c)
    return p_mul(p, p_inv(q))


# -------------------------------------------------------------------------- intervals
def _w(lo, hi):
    """widen outwards against rounding of the interval computation itself"""
    if math.isnan(lo):
        lo = -INF
    if math.isnan(hi):
        hi = INF
    if lo != 0 and math.isfinite(lo):
        lo = lo - abs(lo) * 1e-12
    if hi != 0 and math.isfinite(hi):
        hi = hi + abs(hi) * 1e-12
    return lo, hi


TINY, HUGE = 5e-324, 1.7976931348623157e308


def _outer(v, pos, exact_inf):
    """bounds of a non-zero product that was rounded to v: never to zero, never to infinity"""
    if v == 0:
        return (0.0, TINY) if pos else (-TINY, 0.0)
    if math.isinf(v) and not exact_inf:
        return (HUGE, INF) if pos else (-INF, -HUGE)
    return (v, v)


def _imul(a, b):
    lo, hi = INF, -INF
    for x in a:
        for y in b:
            if x == 0 or y == 0:
                u = v = 0.0
            else:
                u, v = _outer(x * y, (x > 0) == (y > 0), math.isinf(x) or math.isinf(y))
            if u < lo:
                lo = u
            if v > hi:
                hi = v
    return lo, hi


def _fpow(x, n):
    """(lower, upper) bound of x**n, n > 0"""
    if x == 0 or math.isinf(x):
        v = x ** n
        return v, v
    pos = x > 0 or n % 2 == 0
    try:
        v = x ** n
    except OverflowError:
        v = INF if pos else -INF
    return _outer(v, pos, False)


def _ipow(a, n):
    lo, hi = a
    if n == 1:
        return a
    if n > 0:
        if n % 2 == 1 or lo >= 0:
            return (_fpow(lo, n)[0], _fpow(hi, n)[1])
        if hi <= 0:
            return (_fpow(hi, n)[0], _fpow(lo, n)[1])
        return (0.0, max(_fpow(lo, n)[1], _fpow(hi, n)[1]))
    # negative
    n = -n
    lo, hi = _ipow(a, n)
    if lo > 0:
        return (0.0 if hi == INF else 1 / hi, 1 / lo)
    if hi < 0:
        return (1 / hi, 0.0 if lo == -INF else 1 / lo)
    if lo == 0 and n % 2 == 0 or lo == 0 and hi > 0:
        return (0.0 if hi == INF else (1 / hi if hi else INF), INF)
    if hi == 0 and lo < 0:
        return (-INF, 0.0 if lo == -INF else 1 / lo)
    return (-INF, INF)


def _fl(c):
    try:
        v = float(c)
        return v if v or not c else (TINY if c > 0 else -TINY)
    except OverflowError:
        return INF if c > 0 else -INF


def mono_interval(m, c):
    r = (_fl(c), _fl(c))
    for a, e in m:
        at = CTX.atoms[a]
        r = _imul(r, _ipow((at.lo, at.hi), e))
    return r


def _fsum(xs, worst):
    try:
        v = math.fsum(xs)
        return worst if math.isnan(v) else v
    except (OverflowError, ValueError):
        return worst


def p_interval(p):
    if p._iv is not None:
        return p._iv
    los, his, el, eh = [], [], 0.0, 0.0
    for m, c in p.t.items():
        a, b = mono_interval(m, c)
        los.append(a)
        his.append(b)
        if m and not (len(m) == 1 and m[0][1] == 1 and (c == 1 or c == -1)):   # rounded products
            k = 4e-16 * (len(m) + 2)
            el += k * abs(a)
            eh += k * abs(b)
    lo = _fsum(los, -INF) - el
    hi = _fsum(his, INF) + eh
    lo, hi = _w(lo, hi)
    # factored refinement: a common monomial keeps correlated factors together
    if len(p.t) > 1:
        cm = common_mono(p)
        if cm:
            q = p_mulmono(p, mono_pow(cm, -1))
            l2, h2 = _imul(p_interval(q), mono_interval(cm, F1))
            l2, h2 = _w(l2, h2)
            lo, hi = max(lo, l2), min(hi, h2)
        # linear-fraction refinement handled by the solver
    p._iv = (lo, hi)
    return lo, hi


def atom_nonneg(a):
    return CTX.atoms[a].lo >= 0


def atom_pos(a):
    at = CTX.atoms[a]
    return at.lo > 0 or at.kind == "exp"


def posynomial(p):
    """+1 if all terms >=0 (and one >0), -1 dually, else 0"""
    s = 0
    strict = False
    for m, c in p.t.items():
        ts = 1 if c > 0 else -1
        tstrict = True
        for a, e in m:
            at = CTX.atoms[a]
            if atom_pos(a):
                continue
            if e % 2 == 0:
                if not (at.lo > 0 or at.hi < 0):
                    tstrict = False
                continue
            if at.hi < 0:
                ts = -ts
            elif at.lo >= 0:
                tstrict = tstrict and at.lo > 0
            elif at.hi <= 0:
                ts = -ts
                tstrict = False
            else:
                return 0, False
        if s == 0:
            s = ts
        elif s != ts:
            return 0, False
        strict = strict or tstrict
    return s, strict


def quick_sign(p):
    """one of '+','-','0','>=','<=',None  by interval / posynomial reasoning"""
    if not p.t:
        return "0"
    if p.is_const():
        return "+" if p.const() > 0 else "-"
    lo, hi = p_interval(p)
    if lo > 0:
        return "+"
    if hi < 0:
        return "-"
    s, st = posynomial(p)
    if s > 0:
        return "+" if st else ">="
    if s < 0:
        return "-" if st else "<="
    if lo >= 0:
        return ">="
    if hi <= 0:
        return "<="
    if len(p.t) > 1:
        cm = common_mono(p)
        if cm:
            s1 = quick_sign(p_mulmono(p, mono_pow(cm, -1)))
            s2 = quick_sign(P({cm: F1}))
            if s1 in ("+", "-") and s2 in ("+", "-"):
                return "+" if s1 == s2 else "-"
    return None


def sign(p, deep=True):
    s = quick_sign(p)
    if s in ("+", "-", "0"):
        return s
    if not deep or CTX.prover is None:
        return s
    key = p
    if key in CTX.sign_cache:
        return CTX.sign_cache[key]
    if CTX.prover.busy:
        return s
    CTX.sign_cache[key] = s  # guards recursion
    r = s
    c, q = content(p)
    c2, e = cmp_norm(q, ">", quick=True)
    if isinstance(e, bool):
        r = ("+" if e else "<=")
        if not e:
            c3, e3 = cmp_norm(p_neg(q), ">", quick=True)
            if e3 is True:
                r = "-"
        if r != "<=" and c < 0:
            r = {"+": "-", "-": "+"}[r]
        elif r == "<=" and c < 0:
            r = ">="
    else:
        if CTX.prover(cmp0(p, ">")):
            r = "+"
        elif CTX.prover(cmp0(p, "<")):
            r = "-"
    CTX.sign_cache[key] = r
    return r


# --------------------------------------------------------------------- exp / log / sqrt
def _exp_iv(lo, hi):
    def e(x):
        if x > 700:
            return INF
        if x < -740:
            return 0.0
        return math.exp(x)
    l, h = _w(e(lo), e(hi))
    return max(l, 0.0), h


def _ln10_part(p):
    """split off c*LN10 with exact 10**c and rational constants"""
    ln10 = sym_const("LN10").id
    c10 = p.t.get(((ln10, 1),), F0)
    c0 = p.t.get((), F0)
    return c0, c10


def exp_const(c0, c10):
    """exp(c0 + c10*ln10) as a rational (exact when c0=0 and c10 integer)"""
    f = F1
    if c10:
        if c10.denominator == 1:
            f *= Fraction(10) ** int(c10)
        else:
            f *= mpf_frac(mpmath.power(10, mpmath.mpf(c10.numerator) / c10.denominator))
    if c0:
        f *= mpf_frac(mpmath.exp(mpmath.mpf(c0.numerator) / c0.denominator))
    return f


def p_exp(p):
    ln10 = sym_const("LN10").id
    c0, c10 = _ln10_part(p)
    coef = exp_const(c0, c10)
    rest = {m: c for m, c in p.t.items() if m != () and m != ((ln10, 1),)}
    outm = P({(): coef})
    r2 = {}
    for m, c in rest.items():
        if len(m) == 1 and m[0][1] == 1 and c.denominator == 1:
            at = CTX.atoms[m[0][0]]
            if at.kind == "log":
                outm = p_mul(outm, p_ipow(at.data, int(c)))
                continue
        if len(m) == 1 and m[0][1] == 1 and c.denominator == 2:
            at = CTX.atoms[m[0][0]]
            if at.kind == "log":
                k = math.floor(c)  # c = k + 1/2
                outm = p_mul(outm, p_ipow(at.data, k))
                outm = p_mul(outm, p_sqrt(at.data))
                continue
        r2[m] = c
    if not r2:
        return outm
    # group by common log/ite structure is unnecessary; single atom, sign canonical
    r = P(r2)
    e = 1
    nr = p_neg(r)
    if ("exp", r) not in CTX.table and ("exp", nr) in CTX.table:
        r, e = nr, -1
    lo, hi = p_interval(r)
    elo, ehi = _exp_iv(lo, hi)
    a = CTX.atom("exp", r, elo, ehi)
    return p_mul(outm, atom_poly(a, e))


def p_log(p, known_pos=False):
    """log of a positive polynomial"""
    if p.is_const():
        c = p.const()
        if c <= 0:
            raise SymError("log of nonpositive constant")
        # exact powers of ten
        k = _pow10(c)
        if k is not None:
            return p_scale(atom_poly(sym_const("LN10")), Fraction(k)) if k else const(0)
        return P({(): mpf_frac(mpmath.log(mpmath.mpf(c.numerator) / c.denominator))})
    c, q = content(p)
    cm = common_mono(q)
    out = const(0)
    rest = q
    coef = c
    if cm:
        take = []
        for a, e in cm:
            at = CTX.atoms[a]
            if at.kind == "exp":
                out = p_add(out, p_scale(at.data, Fraction(e)))
                take.append((a, e))
            elif at.kind == "sqrt" and quick_sign(at.data) == "+":
                out = p_add(out, p_scale(p_log(at.data), Fraction(e, 2)))
                take.append((a, e))
            elif at.kind == "def" and sign(at.data) == "+":
                out = p_add(out, p_scale(p_log(at.data), Fraction(e)))
                take.append((a, e))
            elif sign(atom_poly(at)) == "+":
                out = p_add(out, p_scale(_log_atom(atom_poly(at)), Fraction(e)))
                take.append((a, e))
        if take:
            rest = p_mulmono(q, mono_pow(tuple(take), -1))
    r2 = simp_small(rest)
    if r2 is not rest:
        return p_add(out, p_log(p_scale(r2, coef)))
    if coef < 0:
        rest = p_neg(rest)
        coef = -coef
    if rest.is_const():
        return p_add(out, p_log(p_scale(rest, coef)))
    # numeric content: only split when exact (powers of ten) or rest is a monomial
    if len(rest.t) == 1:
        (m, c1), = rest.t.items()
        coef *= c1
        if coef > 0:
            out = p_add(out, p_log(const(coef)))
            return p_add(out, _log_atom(P({m: F1})))
        return p_add(out, _log_atom(P({m: coef})))
    out = p_add(out, p_log(const(coef)))
    return p_add(out, _log_atom(rest))


def _pow10(c):
    if c == 1:
        return 0
    n, d = c.numerator, c.denominator
    if d == 1:
        s = str(n)
        if s[0] == "1" and set(s[1:]) <= {"0"}:
            return len(s) - 1
    elif n == 1:
        s = str(d)
        if s[0] == "1" and set(s[1:]) <= {"0"}:
            return -(len(s) - 1)
    return None


def _log_atom(p):
    lo, hi = p_interval(p)
    llo = math.log(lo) if lo > 0 and lo < INF else (-INF if lo <= 0 else INF)
    lhi = math.log(hi) if 0 < hi < INF else INF
    llo, lhi = _w(llo, lhi)
    return atom_poly(CTX.atom("log", p, llo, lhi))


def p_sqrt(p):
    if p.is_const():
        c = p.const()
        if c < 0:
            raise SymError("sqrt of negative constant")
        r = Fraction(math.isqrt(c.numerator), math.isqrt(c.denominator))
        if r * r == c:
            return const(r)
        return const(mpf_frac(mpmath.sqrt(mpmath.mpf(c.numerator) / c.denominator)))
    c, q = content(p)
    if c < 0:
        lo, hi = p_interval(p)
        a = CTX.atom("sqrt", p, math.sqrt(max(lo, 0)), math.sqrt(hi) if hi < INF else INF)
        return atom_poly(a)
    out = p_sqrt(const(c))
    cm = common_mono(q)
    take, ex = [], []
    for a, e in cm:
        k = e // 2 if e > 0 else -((-e) // 2)
        if k and sign(atom_poly(CTX.atoms[a])) == "+":
            take.append((a, 2 * k))
            ex.append((a, k))
    if take:
        q = p_mulmono(q, mono_pow(tuple(take), -1))
        out = p_mulmono(out, tuple(ex))
    q2 = simp_small(q)
    if q2 is not q:
        return p_mul(out, p_sqrt(q2))
    if q.is_const():
        return p_mul(out, p_sqrt(q))
    if len(q.t) == 1:
        (m, c1), = q.t.items()
        if len(m) == 1 and CTX.atoms[m[0][0]].kind == "exp" and c1 > 0:
            r = p_exp(p_scale(CTX.atoms[m[0][0]].data, Fraction(m[0][1], 2)))
            return p_mul(p_mul(out, r), p_sqrt(const(c1)))
    lo, hi = p_interval(q)
    slo, shi = _w(math.sqrt(max(lo, 0)), math.sqrt(hi) if hi < INF else INF)
    a = CTX.atom("sqrt", q, max(slo, 0.0), shi)
    return p_mul(out, atom_poly(a))


# ------------------------------------------------------------------------------ bools
# Bool := True | False | BNode
class BNode:
    __slots__ = ("op", "args", "_h", "id")

    def __init__(self, op, args):
        self.op, self.args = op, args
        self._h = hash((op, args))

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, BNode) and self.op == o.op and self.args == o.args)

    def __repr__(self):
        return f"({self.op} {' '.join(map(str, self.args))})"


def B(op, args):
    b = BNode(op, args)
    c = CTX.bool_table.get(b)
    if c is None:
        b.id = len(CTX.bool_table)
        CTX.bool_table[b] = b
        return b
    return c


def b_lit(cid, neg=False):
    return B("lit", (cid, neg))


def b_not(x):
    if x is True:
        return False
    if x is False:
        return True
    if x.op == "lit":
        return b_lit(x.args[0], not x.args[1])
    if x.op == "and":
        return b_or(*[b_not(a) for a in x.args])
    if x.op == "or":
        return b_and(*[b_not(a) for a in x.args])
    if x.op == "bvar":
        return B("nbvar", x.args)
    if x.op == "nbvar":
        return B("bvar", x.args)
    raise SymError(x.op)


def b_and(*xs):
    out = {}
    for x in xs:
        if x is True:
            continue
        if x is False:
            return False
        if x.op == "and":
            for a in x.args:
                out[a] = 1
        else:
            out[x] = 1
    if not out:
        return True
    for a in out:
        if a.op == "lit" and b_lit(a.args[0], not a.args[1]) in out:
            return False
    if len(out) == 1:
        return next(iter(out))
    return B("and", tuple(sorted(out, key=lambda b: b.id)))


def b_or(*xs):
    out = {}
    for x in xs:
        if x is False:
            continue
        if x is True:
            return True
        if x.op == "or":
            for a in x.args:
                out[a] = 1
        else:
            out[x] = 1
    if not out:
        return False
    for a in out:
        if a.op == "lit" and b_lit(a.args[0], not a.args[1]) in out:
            return True
    if len(out) == 1:
        return next(iter(out))
    return B("or", tuple(sorted(out, key=lambda b: b.id)))


def b_xor(a, b):
    return b_or(b_and(a, b_not(b)), b_and(b_not(a), b))


def b_ite(c, a, b):
    if a is b or a == b:
        return a
    return b_or(b_and(c, a), b_and(b_not(c), b))


class Cond:
    """base condition: q > 0 ('g'), q >= 0 ('ge'), q == 0 ('eq'), opaque bool ('b')"""
    __slots__ = ("id", "kind", "q", "name")

    def __init__(self, id, kind, q):
        self.id, self.kind, self.q = id, kind, q


def cond(kind, q):
    key = (kind, q)
    c = CTX.cond_table.get(key)
    if c is None:
        c = Cond(len(CTX.conds), kind, q)
        CTX.conds.append(c)
        CTX.cond_table[key] = c
    return c.id


def expand_defs(p, limit=400):
    """replace Def atoms having positive exponents by their polynomials"""
    for _ in range(6):
        ids = [a for m in p.t for a, e in m if e > 0 and CTX.atoms[a].kind == "def"]
        if not ids:
            return p
        a = max(ids)
        d = CTX.atoms[a].data
        out = {}
        acc = P({})
        for m, c in p.t.items():
            dm = dict(m)
            e = dm.get(a, 0)
            if e > 0:
                if len(d.t) ** min(e, 3) > limit:
                    return None
                dm.pop(a)
                t = P({tuple(sorted(dm.items())): c})
                for _k in range(e):
                    t = p_mul(t, d)
                    if len(t.t) > limit:
                        return None
                acc = p_add(acc, t)
            else:
                out[m] = c
        p = p_add(P(out), acc)
        if len(p.t) > limit:
            return None
    return p


def clear_denoms(p):
    """multiply by positive things only; returns polynomial of the same sign, with
    common factors of known sign removed (sign flips are tracked)"""
    flip = 1
    for _ in range(8):
        if len(p.t) == 0:
            return p, flip
        cm = common_mono(p)
        fac = []
        for a, e in cm:
            at = CTX.atoms[a]
            if atom_pos(a):
                fac.append((a, e))
                continue
            s = sign(atom_poly(at)) if at.kind in ("def", "ite", "sqrt") else quick_sign(atom_poly(at))
            if s == "+":
                fac.append((a, e))
            elif s == "-":
                fac.append((a, e))
                if e % 2:
                    flip = -flip
            elif e < 0:
                # multiply by an even power (a != 0 wherever this is defined)
                fac.append((a, e if e % 2 == 0 else e - 1))
        if not fac or len(p.t) * len(fac) > 20000:   # long sums over distinct denominators stay as quotients
            return p, flip
        p2 = p_mulmono(p, mono_pow(tuple(fac), -1))
        p2 = _reduce(p2)
        if p2 == p:
            return p, flip
        p = p2
    return p, flip


def _log_terms(p):
    """p = sum c_i*log(a_i) + c0 + c10*LN10 exactly? returns (list[(c,a)], c0, c10) or None"""
    ln10 = sym_const("LN10").id
    logs = []
    c0 = c10 = F0
    for m, c in p.t.items():
        if m == ():
            c0 = c
        elif m == ((ln10, 1),):
            c10 = c
        elif len(m) == 1 and m[0][1] == 1 and CTX.atoms[m[0][0]].kind == "log":
            logs.append((c, CTX.atoms[m[0][0]].data))
        else:
            return None
    return logs, c0, c10


def _exp_only(m):
    u = const(0)
    for a, e in m:
        at = CTX.atoms[a]
        if at.kind != "exp":
            return None
        u = p_add(u, p_scale(at.data, Fraction(e)))
    return u


def cmp_norm(p, op, quick=False):
    """normalise p op 0, op in '>', '>=', '=='.  Returns (op, poly) or (None, bool)"""
    for _ in range(4):
        if not p.t:
            return None, op in (">=", "==")
        if p.is_const():
            c = p.const()
            return None, (c > 0 if op == ">" else c >= 0 if op == ">=" else c == 0)
        p, flip = clear_denoms(p)
        if flip < 0:
            p = p_neg(p)
        q = expand_defs(p)
        if q is not None and q is not p:
            q, flip = clear_denoms(q)
            if flip < 0:
                q = p_neg(q)
            if not q.t or q.is_const():
                p = q
                continue
            if quick_sign(q) in ("+", "-") or (len(q.t) <= 2 * len(p.t) + 2):
                p = q
        s = quick_sign(p)
        if s == "+":
            return None, op in (">", ">=")
        if s == "-":
            return None, False
        if s == ">=" and op == ">=":
            return None, True
        if s == "<=" and op == ">":
            return None, False
        # logs
        lt = _log_terms(p)
        if lt is not None and lt[0]:
            logs, c0, c10 = lt
            if len(logs) == 1:
                c, a = logs[0]
                k = exp_const(-c0 / c, -c10 / c)
                p = p_sub(a, const(k)) if c > 0 else p_sub(const(k), a)
                if c < 0 and op == "==":
                    p = p_neg(p)
                continue
            if len(logs) == 2 and logs[0][0] == -logs[1][0]:
                (c1, a1), (c2, a2) = logs
                if c1 < 0:
                    c1, a1, c2, a2 = c2, a2, c1, a1
                k = exp_const(-c0 / c1, -c10 / c1)
                p = p_sub(a1, p_scale(a2, k))
                continue
            if all(c.denominator == 1 and abs(c) <= 4 for c, _ in logs) and c0 == 0 and len(logs) <= 4:
                l, r = const(1), const(1)
                for c, a in logs:
                    if c > 0:
                        l = p_mul(l, p_ipow(a, int(c)))
                    else:
                        r = p_mul(r, p_ipow(a, int(-c)))
                p = p_sub(l, p_scale(r, exp_const(F0, -c10)))
                continue
        # exps: c1*E1 - c2*E2
        if len(p.t) == 2:
            (m1, c1), (m2, c2) = p.t.items()
            if (c1 > 0) != (c2 > 0):
                if c1 < 0:
                    m1, c1, m2, c2 = m2, c2, m1, c1
                u1, u2 = _exp_only(m1), _exp_only(m2)
                if u1 is not None and u2 is not None:
                    k = p_log(const(c1 / -c2))
                    p = p_add(p_sub(u1, u2), k)
                    continue
        break
    return op, p


def cmp0(p, op):
    """Bool for  p op 0, op in > >= < <= == !="""
    if op == "<":
        return cmp0(p_neg(p), ">")
    if op == "<=":
        return cmp0(p_neg(p), ">=")
    if op == "!=":
        return b_not(cmp0(p, "=="))
    op2, q = cmp_norm(p, op)
    if op2 is None:
        return q
    # common_mono / content, sign canonical
    c, r = content(q)
    if op == "==":
        return b_lit(cond("eq", r))
    if op == ">":
        if c > 0:
            return b_lit(cond("g", r))
        return b_lit(cond("ge", r), True)
    if c > 0:
        return b_lit(cond("ge", r))
    return b_lit(cond("g", r), True)


# ------------------------------------------------------------------------------ trees
class Tree:
    """cond ? hi : lo   (reduced, ordered by cond id; leaves are Polys)"""
    __slots__ = ("c", "lo", "hi", "_h", "n", "cs")

    def __init__(self, c, lo, hi):
        self.c, self.lo, self.hi = c, lo, hi
        self._h = hash((c, lo, hi))
        self.n = nleaves(lo) + nleaves(hi)
        self.cs = frozenset([c]) | tconds(lo) | tconds(hi)

    def __hash__(self):
        return self._h

    def __eq__(self, o):
        return self is o or (isinstance(o, Tree) and self.c == o.c and self.lo == o.lo and self.hi == o.hi)

    def __repr__(self):
        return f"[{show_cond(self.c)} ? {self.hi} : {self.lo}]"


def nleaves(v):
    return v.n if isinstance(v, Tree) else 1


_E = frozenset()


def tconds(v):
    return v.cs if isinstance(v, Tree) else _E


def mk_tree(c, lo, hi):
    if lo is hi or lo == hi:
        return lo
    t = Tree(c, lo, hi)
    q = CTX.tree_table.get(t)
    if q is None:
        CTX.tree_table[t] = t
        return t
    return q


def leaves(v):
    """distinct leaves with their path conditions [(list[(cond, bool)], poly)]"""
    out = []

    def rec(x, path):
        if isinstance(x, Tree):
            rec(x.hi, path + [(x.c, True)])
            rec(x.lo, path + [(x.c, False)])
        else:
            out.append((path, x))
    rec(v, [])
    return out


def path_bool(path):
    return b_and(*[b_lit(c, not s) for c, s in path])


def t_apply(f, *vs, limit=None):
    """MTBDD apply of f on polys"""
    memo = {}

    def rec(args):
        top = None
        for a in args:
            if isinstance(a, Tree) and (top is None or a.c < top):
                top = a.c
        if top is None:
            return f(*args)
        r = memo.get(args)
        if r is not None:
            return r
        lo = rec(tuple(a.lo if isinstance(a, Tree) and a.c == top else a for a in args))
        hi = rec(tuple(a.hi if isinstance(a, Tree) and a.c == top else a for a in args))
        r = mk_tree(top, lo, hi)
        memo[args] = r
        return r

    return rec(tuple(vs))


def _iv_under(path, leaf):
    lo, hi = p_interval(leaf)
    for c, s in path:
        cd = CTX.conds[c]
        if cd.kind not in ("g", "ge"):
            continue
        # q > 0 (s) or q <= 0 (not s); look for leaf = k*q + const
        q = cd.q
        lq = lead(q)
        if lq == () or lq not in leaf.t:
            continue
        k = leaf.t[lq] / q.t[lq]
        d = p_sub(leaf, p_scale(q, k))
        if d.is_const():
            b = float(d.const())
            if (k > 0) == s:
                lo = max(lo, b - abs(b) * 1e-12)
            else:
                hi = min(hi, b + abs(b) * 1e-12)
    return lo, hi


def collapse(v):
    """Tree -> Poly holding an ite atom"""
    if not isinstance(v, Tree):
        return v
    # affine factoring: leaves k*x + c share nothing in general
    los, his = [], []
    for path, leaf in leaves(v):
        lo, hi = _iv_under(path, leaf)
        los.append(lo)
        his.append(hi)
    a = CTX.atom("ite", v, min(los), max(his))
    return atom_poly(a)


def lift(f, *vs, small=1):
    """apply poly-op f to values that may be Trees, avoiding cross products"""
    trees = [v for v in vs if isinstance(v, Tree)]
    if not trees:
        return f(*vs)
    if len(trees) == 1:
        return t_apply(f, *vs)
    big = max(trees, key=lambda t: t.n)
    ok = all(t.cs <= big.cs for t in trees)
    if not ok:
        n = 1
        for t in set(trees):
            n *= t.n
        ok = n <= small
    if ok:
        return t_apply(f, *vs)
    return f(*[collapse(v) for v in vs])


def t_prune(v, path=()):
    """drop infeasible branches using the context prover"""
    if not isinstance(v, Tree) or CTX.prover is None:
        return v
    pb = path_bool(path)
    if CTX.prover(b_or(b_not(pb), b_lit(v.c))):
        return t_prune(v.hi, path)
    if CTX.prover(b_or(b_not(pb), b_lit(v.c, True))):
        return t_prune(v.lo, path)
    lo = t_prune(v.lo, tuple(path) + ((v.c, False),))
    hi = t_prune(v.hi, tuple(path) + ((v.c, True),))
    return mk_tree(v.c, lo, hi)


def add(a, b):
    return lift(p_add, a, b)


def sub(a, b):
    return lift(p_sub, a, b)


def _const_leaves(v):
    """Tree with constant leaves only"""
    if isinstance(v, Tree):
        return _const_leaves(v.lo) and _const_leaves(v.hi)
    return v.is_const()


def named(v):
    """value to feed a nonlinear operation: Trees with non-constant leaves get a name"""
    if isinstance(v, Tree) and not _const_leaves(v):
        return collapse(v)
    return v


def mul(a, b):
    if isinstance(a, Poly) and a.is_const():
        if a.const() == 0:
            return a
        if a.const() == 1:
            return b
    if isinstance(b, Poly) and b.is_const():
        if b.const() == 0:
            return b
        if b.const() == 1:
            return a
    if a is not b and not (isinstance(a, Poly) and a.is_const()) and not (isinstance(b, Poly) and b.is_const()):
        if isinstance(a, Tree) != isinstance(b, Tree):
            a, b = named(a), named(b)
    return lift(p_mul, a, b)


def neg(a):
    return lift(p_neg, a)


ZERO = None


def bool_to_val(b):
    """0/1 value of a Bool"""
    return ite(b, const(1), const(0))


def _conds_of(b, acc):
    if isinstance(b, bool):
        return
    if b.op == "lit":
        acc.add(b.args[0])
    elif b.op in ("and", "or"):
        for x in b.args:
            _conds_of(x, acc)
    else:
        acc.add(("x", b))


def b_assign(b, c, val):
    if isinstance(b, bool):
        return b
    if b.op == "lit":
        if b.args[0] == c:
            return val != b.args[1]
        return b
    if b.op == "and":
        return b_and(*[b_assign(x, c, val) for x in b.args])
    if b.op == "or":
        return b_or(*[b_assign(x, c, val) for x in b.args])
    return b


def bool_tree(b, maxc=7):
    """Bool -> BDD with leaves const 1/0"""
    one, zero = const(1), const(0)
    if b is True:
        return one
    if b is False:
        return zero
    acc = set()
    _conds_of(b, acc)
    if len(acc) > maxc or any(isinstance(c, tuple) for c in acc):
        neg_ = False
        key = b
        nb = b_not(b)
        if nb.id < b.id:
            key, neg_ = nb, True
        cid = cond("b", key)
        return mk_tree(cid, one, zero) if neg_ else mk_tree(cid, zero, one)

    memo = {}

    def rec(x):
        if x is True:
            return one
        if x is False:
            return zero
        if x in memo:
            return memo[x]
        s = set()
        _conds_of(x, s)
        c = min(s)
        r = mk_tree(c, rec(b_assign(x, c, False)), rec(b_assign(x, c, True)))
        memo[x] = r
        return r
    return rec(b)


def ite(b, x, y):
    """b ? x : y on values"""
    if b is True:
        return x
    if b is False:
        return y
    if x is y or x == y:
        return x
    bt = bool_tree(b)
    one = const(1)

    def sel(c, u, v):
        return u if c == one else v
    trees = [v for v in (x, y) if isinstance(v, Tree)]
    n = bt.n if isinstance(bt, Tree) else 1
    allc = set(tconds(bt))
    for t in set(trees):
        n += t.n
    if n > CTX.tree_limit:
        # keep the selector, collapse big operands that do not share its conditions
        x = collapse(x) if isinstance(x, Tree) and not (x.cs <= allc) else x
        y = collapse(y) if isinstance(y, Tree) and not (y.cs <= allc) else y
    return t_apply(sel, bt, x, y)


def compare(a, b, op):
    """Bool of two values"""
    d = lift(p_sub, a, b, small=6)
    return val_cmp0(d, op)


def val_cmp0(d, op):
    if isinstance(d, Poly):
        return cmp0(d, op)
    memo = {}

    def rec(x):
        if isinstance(x, Poly):
            return cmp0(x, op)
        r = memo.get(x)
        if r is None:
            r = b_ite(b_lit(x.c), rec(x.hi), rec(x.lo))
            memo[x] = r
        return r
    return rec(d)


# ------------------------------------------------------------------------- evaluation
class Evaluator:
    """numeric evaluation (mpmath) of terms under an assignment of the inputs"""

    def __init__(self, ctx, assign):
        self.ctx = ctx
        self.v = dict(assign)  # atom id -> mpf
        self.c = {}
        self.b = {}

    def atom(self, a):
        r = self.v.get(a)
        if r is not None:
            return r
        at = self.ctx.atoms[a]
        k = at.kind
        if k == "const":
            r = mpmath.log(10) if at.data == "LN10" else mpmath.log(2)
        elif k == "exp":
            u = self.poly(at.data)
            r = mpmath.exp(u) if u < 1e6 else mpmath.mpf("inf")
        elif k == "log":
            x = self.poly(at.data)
            r = mpmath.log(x) if x > 0 else mpmath.nan
        elif k == "sqrt":
            x = self.poly(at.data)
            r = mpmath.sqrt(x) if x >= 0 else mpmath.nan
        elif k == "def":
            r = self.poly(at.data)
        elif k == "abs":
            r = abs(self.poly(at.data))
        elif k == "ite":
            r = self.val(at.data)
        elif k == "cut":
            r = self.val(at.data[2])
        else:
            raise SymError(f"no value for atom {at}")
        self.v[a] = r
        return r

    def poly(self, p):
        s = mpmath.mpf(0)
        for m, c in p.t.items():
            t = mpmath.mpf(c.numerator) / c.denominator
            for a, e in m:
                x = self.atom(a)
                if x == 0 and e < 0:
                    return mpmath.nan
                t = t * x ** e
            s += t
        return s

    def cond(self, cid):
        r = self.c.get(cid)
        if r is None:
            cd = self.ctx.conds[cid]
            if cd.kind == "b":
                r = self.bool(cd.q)
            else:
                x = self.poly(cd.q)
                if cd.kind == "g":
                    r = bool(x > 0)
                elif cd.kind == "ge":
                    r = bool(x >= 0)
                else:
                    r = bool(x == 0)
            self.c[cid] = r
        return r

    def bool(self, b):
        if isinstance(b, bool):
            return b
        r = self.b.get(b)
        if r is None:
            if b.op == "lit":
                r = self.cond(b.args[0]) != b.args[1]
            elif b.op == "and":
                r = all(self.bool(x) for x in b.args)
            elif b.op == "or":
                r = any(self.bool(x) for x in b.args)
            elif b.op == "bvar":
                r = self.v[b.args]
            else:
                r = not self.v[b.args]
            self.b[b] = r
        return r

    def val(self, v):
        while isinstance(v, Tree):
            v = v.hi if self.cond(v.c) else v.lo
        return self.poly(v)


# ------------------------------------------------------------------------------ show
def show(p, depth=2):
    if isinstance(p, Tree):
        return repr(p)
    if not p.t:
        return "0"
    out = []
    for m, c in list(p.t.items())[:12]:
        s = [] if c == 1 and m else [f"{float(c):.6g}"]
        for a, e in m:
            at = CTX.atoms[a]
            n = at.name
            if n is None:
                if depth > 0 and at.kind in ("exp", "log", "sqrt", "def", "abs"):
                    n = f"{at.kind}({show(at.data, depth - 1)})"
                else:
                    n = f"{at.kind}{a}"
            s.append(n if e == 1 else f"{n}^{e}")
        out.append("*".join(s))
    if len(p.t) > 12:
        out.append(f"...{len(p.t)} terms")
    return " + ".join(out)


def show_cond(cid):
    cd = CTX.conds[cid]
    if cd.kind == "b":
        return f"B{cid}"
    return f"{show(cd.q, 1)} {dict(g='>', ge='>=', eq='==')[cd.kind]} 0"


def _atoms_in(d, acc):
    if isinstance(d, Poly):
        acc |= d.atom_ids()
    elif isinstance(d, Tree):
        for c in d.cs:
            _atoms_in(CTX.conds[c].q, acc)
        todo = [d]
        while todo:
            v = todo.pop()
            if isinstance(v, Tree):
                todo += [v.lo, v.hi]
            else:
                _atoms_in(v, acc)
    elif isinstance(d, BNode):
        s = set()
        _conds_of(d, s)
        for c in s:
            if isinstance(c, int):
                _atoms_in(CTX.conds[c].q, acc)
    elif isinstance(d, (tuple, list)):
        for x in d:
            _atoms_in(x, acc)


def deps(aid, _seen=None):
    """all atoms an atom is defined by (not including itself)"""
    a = CTX.atoms[aid]
    if a.deps is None:
        a.deps = frozenset()
        s = set()
        _atoms_in(a.data, s)
        r = set(s)
        for q in s:
            r |= deps(q)
        a.deps = frozenset(r)
    return a.deps


def poly_deps(e):
    r = set()
    _atoms_in(e, r)
    for q in list(r):
        r |= deps(q)
    return r


def subst_poly(p, env):
    r = const(0)
    for m, c in p.t.items():
        t = const(c)
        for a, e in m:
            if a in env and e > 0:
                t = p_mul(t, p_ipow(env[a], e, name_big=False))
            else:
                t = p_mul(t, atom_poly(CTX.atoms[a], e))
        r = p_add(r, t)
    return r


def subst_bool(b, env):
    """replace atoms by their definitions in the top-level conditions of a boolean"""
    if isinstance(b, bool):
        return b
    if b.op == "lit":
        c = CTX.conds[b.args[0]]
        if c.kind not in ("g", "ge", "eq") or not isinstance(c.q, Poly) or not (c.q.atom_ids() & env.keys()):
            return b
        q = subst_poly(c.q, env)
        r = cmp0(q, {"g": ">", "ge": ">=", "eq": "=="}[c.kind])
        return b_not(r) if b.args[1] else r
    if b.op in ("and", "or"):
        f = b_and if b.op == "and" else b_or
        return f(*[subst_bool(x, env) for x in b.args])
    return b
