"""Symbolic interpreter for jaxprs traced from the real functions in /repo."""
import itertools
from fractions import Fraction
import mpmath
import numpy as np
import jax
from jax._src import source_info_util

try:
    from jax.extend.core import Literal
except Exception:  # pragma: no cover
    from jax._src.core import Literal

from . import core as C
from .core import (SymError, Tree, Poly, const, float_const, add, sub, mul, neg, ite,
                   b_and, b_or, b_not, b_ite, compare, val_cmp0, lift, t_apply)


class SA:
    """symbolic array"""
    __slots__ = ("v", "u", "dtype")

    def __init__(self, v, dtype, u=None):
        self.v = v
        self.dtype = np.dtype(dtype)
        self.u = u  # object ndarray of Bool or None

    @property
    def shape(self):
        return self.v.shape

    @property
    def kind(self):
        return self.dtype.kind


def is_sym(x):
    return isinstance(x, SA)


def elem(x, kind, dt=None):
    """concrete scalar -> (value, undef)"""
    if kind == "b":
        return bool(x), False
    if kind in "iu":
        return const(int(x)), False
    x = float(x)
    if not np.isfinite(x):
        return const(0), True
    return float_const(x), False


def to_sa(x):
    if is_sym(x):
        return x
    x = np.asarray(x)
    k = x.dtype.kind
    v = np.empty(x.shape, dtype=object)
    u = None
    for i in np.ndindex(x.shape):
        v[i], uu = elem(x[i], k)
        if uu:
            if u is None:
                u = np.full(x.shape, False, dtype=object)
            u[i] = True
    return SA(v, x.dtype, u)


def und(x, i):
    return False if x.u is None else x.u[i]


def from_flat(vals, unds, shape, dtype):
    v = np.empty(len(vals), dtype=object)
    for i, a in enumerate(vals):
        v[i] = a
    u = None
    if any(a is not False for a in unds):
        u = np.empty(len(unds), dtype=object)
        for i, a in enumerate(unds):
            u[i] = a
        u = u.reshape(shape)
    return maybe_concrete(SA(v.reshape(shape), dtype, u))


def maybe_concrete(sa):
    """SA whose elements are all concrete ints/bools -> numpy (needed for indices)"""
    if sa.u is not None:
        return sa
    k = sa.dtype.kind
    if k == "b":
        if all(isinstance(e, bool) for e in sa.v.flat):
            return np.array(sa.v.astype(bool))
    elif k in "iu":
        if all(isinstance(e, Poly) and e.is_const() for e in sa.v.flat):
            out = np.zeros(sa.shape, dtype=sa.dtype)
            for i in np.ndindex(sa.shape):
                out[i] = int(sa.v[i].const())
            return out
    return sa


def bcast(args):
    shp = np.broadcast_shapes(*[a.shape for a in args])
    return shp, [np.broadcast_to(a.v, shp) for a in args], [
        None if a.u is None else np.broadcast_to(a.u, shp) for a in args]


def elementwise(fn, args, out_dtype):
    """fn(*vals) -> (val, local undef)"""
    args = [to_sa(a) for a in args]
    shp, vs, us = bcast(args)
    memo = {}
    vals, unds = [], []
    for i in np.ndindex(shp):
        key = tuple(v[i] for v in vs)
        r = memo.get(key)
        if r is None:
            r = fn(*key)
            memo[key] = r
        u = r[1]
        for uu in us:
            if uu is not None:
                u = b_or(u, uu[i])
        vals.append(r[0])
        unds.append(u)
    return from_flat(vals, unds, shp, out_dtype)


# ------------------------------------------------------------------ scalar real functions
def _path_und(v, test):
    """Bool: some leaf under its path satisfies test(leaf)"""
    if isinstance(v, Poly):
        return test(v)
    out = False
    for path, leaf in C.leaves(v):
        lo, hi = C._iv_under(path, leaf)
        t = test(leaf, lo, hi) if path else test(leaf)
        if t is not False:
            out = b_or(out, b_and(C.path_bool(path), t))
    return out


def _nonpos(p, lo=None, hi=None):
    if lo is not None and lo > 0:
        return False
    s = C.sign(p)
    if s == "+":
        return False
    return C.cmp0(p, "<=")


def _neg(p, lo=None, hi=None):
    if lo is not None and lo >= 0:
        return False
    s = C.sign(p)
    if s in ("+", ">=", "0"):
        return False
    return C.cmp0(p, "<")


def _zero(p, lo=None, hi=None):
    if lo is not None and (lo > 0 or hi < 0):
        return False
    s = C.sign(p)
    if s in ("+", "-"):
        return False
    return C.cmp0(p, "==")


def f_div(a, b):
    if isinstance(b, Poly) and b.is_const():
        if b.const() == 0:
            return const(0), True
        return lift(lambda x, y: C.p_div(x, y), a, b), False

    def d(x, y):
        if not y.t:
            return const(0)
        return C.p_div(x, y)
    return lift(d, a, b), _path_und(b, _zero)


def f_log(a):
    u0 = _path_und(a, _nonpos)
    a = C.named(a)
    def g(x):
        if x.is_const() and x.const() <= 0:
            return const(0)
        return C.p_log(x)
    return lift(g, a), u0


def f_exp(a):
    return lift(C.p_exp, C.named(a)), False


def f_sqrt(a):
    u0 = _path_und(a, _neg)
    a = C.named(a)
    def g(x):
        if x.is_const() and x.const() < 0:
            return const(0)
        return C.p_sqrt(x)
    return lift(g, a), u0


def f_logistic(a):
    a = C.named(a)
    def g(x):
        if not x.t:
            return const(Fraction(1, 2))
        e = C.p_exp(x)          # c * E^{+-1} * ...
        # 1/(1+1/e):  choose the representation linear in 1/(1+E)
        c, q = C.content(C.p_add(const(1), e))
        return C.p_sub(const(1), C.p_inv(C.p_add(const(1), e))) if _ispos_exp(e) else \
            C.p_inv(C.p_add(const(1), C.p_inv(e)))
    return lift(g, a), False


def _ispos_exp(e):
    if len(e.t) != 1:
        return True
    (m, c), = e.t.items()
    return sum(x for _, x in m) > 0


def f_abs(a):
    def g(x):
        s = C.quick_sign(x)
        if s in ("+", ">=", "0"):
            return x
        if s in ("-", "<="):
            return C.p_neg(x)
        return ite(C.cmp0(x, ">="), x, C.p_neg(x))
    if isinstance(a, Poly):
        return g(a), False
    return ite(val_cmp0(a, ">="), a, neg(a)), False


def f_max(a, b):
    return ite(compare(a, b, ">="), a, b), False


def f_min(a, b):
    return ite(compare(a, b, "<="), a, b), False


def f_ipow(a, n):
    n = int(n)
    u = _path_und(a, _zero) if n < 0 else False

    def g(x):
        if n < 0 and not x.t:
            return const(0)
        return C.p_ipow(x, n)
    return lift(g, a), u


def f_pow(x, y):
    if isinstance(y, Poly) and y.is_const():
        c = y.const()
        if c.denominator == 1:
            return f_ipow(x, int(c))
        if isinstance(x, Poly) and x.is_const():
            if x.const() == 0:
                return const(0), c < 0
        if c.denominator == 2:
            s, u = f_sqrt(x)
            n = c.numerator
            r, u2 = f_ipow(s, n)
            return r, b_or(u, u2)
    if isinstance(x, Poly) and x.is_const():
        b = x.const()
        if b <= 0:
            return C.const(0), True
        if b == 10:
            l = C.atom_poly(C.sym_const("LN10"))
        elif b == 2:
            l = C.atom_poly(C.sym_const("LN2"))
        else:
            l = C.p_log(x)
        return f_exp(mul(y, l))
    # general base: positive required (0**y handled when y>0)
    l, u = f_log(x)
    r, _ = f_exp(mul(y, l))
    if u is not False:
        # allow x == 0 with y > 0
        if isinstance(y, Poly) and C.quick_sign(y) == "+":
            z = val_cmp0(x, "==")
            r = ite(z, const(0), r)
            u = _path_und(x, _neg)
    return r, u


def f_tanh(a):
    s, _ = f_logistic(mul(const(2), a))
    return sub(mul(const(2), s), const(1)), False


def f_sign(a):
    return ite(val_cmp0(a, ">"), const(1), ite(val_cmp0(a, "<"), const(-1), const(0))), False


def f_fresh(name, lo=-C.INF, hi=C.INF):
    a = C.CTX.atom("var", ("fresh", len(C.CTX.atoms), name), lo, hi, f"{name}_{len(C.CTX.atoms)}")
    C.CTX.fresh = getattr(C.CTX, "fresh", [])
    C.CTX.fresh.append(a)
    return C.atom_poly(a)


def f_uninterp(prim):
    def g(*args):
        args = [C.collapse(a) for a in args]
        if all(a.is_const() for a in args):
            pass
        ctx = C.CTX
        a = ctx.atom("app", (prim, tuple(args)), name=f"{prim}{len(ctx.atoms)}")
        ctx.abstracted = getattr(ctx, "abstracted", set()) | {prim}
        return C.atom_poly(a), False
    return g


def f_floor(a):
    def g(x):
        if x.is_const():
            c = x.const()
            return const(Fraction(c.numerator // c.denominator))
        lo, hi = C.p_interval(x)
        if lo > -1e15 and hi < 1e15 and np.floor(lo) == np.floor(hi):
            return const(int(np.floor(lo)))
        at = C.CTX.atom("floor", x, lo - 1, hi)
        return C.atom_poly(at)
    return lift(g, a), False


UNARY = {
    "neg": lambda a: (neg(a), False),
    "exp": f_exp,
    "log": f_log,
    "sqrt": f_sqrt,
    "rsqrt": lambda a: _compose(f_sqrt, lambda s: f_ipow(s, -1))(a),
    "logistic": f_logistic,
    "tanh": f_tanh,
    "abs": f_abs,
    "sign": f_sign,
    "square": lambda a: f_ipow(a, 2),
    "exp2": lambda a: f_exp(mul(a, C.atom_poly(C.sym_const("LN2")))),
    "expm1": lambda a: (sub(f_exp(a)[0], const(1)), False),
    "log1p": lambda a: f_log(add(a, const(1))),
    "floor": f_floor,
    "ceil": lambda a: (neg(f_floor(neg(a))[0]), False),
    "log2": lambda a: _compose(f_log, lambda l: f_div(l, C.atom_poly(C.sym_const("LN2"))))(a),
    "cbrt": lambda a: f_pow(a, const(Fraction(1, 3))),
    "one_minus_square": lambda a: (sub(const(1), mul(a, a)), False),
    "copy": lambda a: (a, False),
    "copy_p": lambda a: (a, False),
    "real": lambda a: (a, False),
    "stop_gradient": lambda a: (a, False),
    "optimization_barrier": lambda a: (a, False),
    "reduce_precision": lambda a: (a, False),
}


def _compose(f, g):
    def h(a):
        r, u = f(a)
        s, u2 = g(r)
        return s, b_or(u, u2)
    return h


BINARY = {
    "add": lambda a, b: (add(a, b), False),
    "add_any": lambda a, b: (add(a, b), False),
    "sub": lambda a, b: (sub(a, b), False),
    "mul": lambda a, b: (mul(a, b), False),
    "div": f_div,
    "max": f_max,
    "min": f_min,
    "pow": f_pow,
}
CMP = {"lt": "<", "le": "<=", "gt": ">", "ge": ">=", "eq": "==", "ne": "!="}

STRUCT = {"broadcast_in_dim", "reshape", "transpose", "rev", "slice", "concatenate", "pad",
          "squeeze", "expand_dims", "gather", "dynamic_slice", "dynamic_update_slice",
          "scatter", "broadcast", "split", "stack", "unstack", "tile", "copy", "copy_p", "select_and_gather_add"}
# positions of index (non-data) operands
INDEX_OPERANDS = {"gather": [1], "dynamic_slice": "1:", "dynamic_update_slice": "2:", "scatter": [1]}


_EXACT = {
    "log": lambda a: mpmath.log(a), "exp": lambda a: mpmath.exp(a), "pow": lambda a, b: mpmath.power(a, b),
    "log1p": lambda a: mpmath.log1p(a), "expm1": lambda a: mpmath.expm1(a),
    "logistic": lambda a: 1 / (1 + mpmath.exp(-a)), "tanh": lambda a: mpmath.tanh(a),
    "log2": lambda a: mpmath.log(a, 2), "exp2": lambda a: mpmath.power(2, a),
}


def _exact(name, ins, shape):
    """correctly rounded value of a transcendental of concrete inputs (independent of how the
    compiler would vectorise it)"""
    arrs = [np.broadcast_to(np.asarray(x, dtype=float), shape) for x in ins]
    if arrs[0].size > 20000:
        return None
    f = _EXACT[name]
    res = np.empty(shape)
    with mpmath.workprec(120):
        for i in np.ndindex(shape):
            a = [float(x[i]) for x in arrs]
            if not all(np.isfinite(a)) or (name in ("log", "log2") and a[0] <= 0) or (name == "pow" and a[0] <= 0) \
                    or (name == "log1p" and a[0] <= -1) or max(map(abs, a)) > 1e300 or (name in ("exp", "exp2", "expm1", "logistic", "tanh") and abs(a[0]) > 700) \
                    or (name == "pow" and abs(a[1] * np.log(a[0])) > 700):
                return None
            res[i] = float(f(*[mpmath.mpf(x) for x in a]))
    return res


class _Sub:
    def __init__(self, constvars, invars, outvars, eqns):
        self.constvars, self.invars, self.outvars, self.eqns = constvars, invars, outvars, eqns


class Interp:
    def __init__(self, repo="/repo", opaque=False):
        self.repo = repo
        self.opaque = opaque  # treat symx_cut values as opaque atoms
        self.ncut = 0
        self.inc_cache = {}
        self.functions = set()
        self.neqn = 0
        self.prims = {}

    # -------------------------------------------------------------- evaluation
    def run(self, closed, args):
        return self.eval(closed.jaxpr, closed.consts, args)

    def run_some(self, closed, args, outidx):
        """evaluate only the equations needed for some outputs"""
        jaxpr = closed.jaxpr
        want = [jaxpr.outvars[k] for k in outidx]
        need = {v for v in want if not isinstance(v, Literal)}
        keep = []
        for eqn in reversed(jaxpr.eqns):
            if any(v in need for v in eqn.outvars):
                keep.append(eqn)
                need |= {v for v in eqn.invars if not isinstance(v, Literal)}
        sub = _Sub(list(jaxpr.constvars), list(jaxpr.invars), want, keep[::-1])
        return self.eval(sub, closed.consts, args)

    def eval(self, jaxpr, consts, args):
        env = {}

        def read(v):
            return v.val if isinstance(v, Literal) else env[v]

        def write(v, x):
            env[v] = x
        for v, x in zip(jaxpr.constvars, consts):
            write(v, x if is_sym(x) else np.asarray(x))
        assert len(jaxpr.invars) == len(args)
        for v, x in zip(jaxpr.invars, args):
            write(v, x)
        for eqn in jaxpr.eqns:
            ins = [read(v) for v in eqn.invars]
            outs = self.eqn(eqn, ins)
            if not isinstance(outs, (list, tuple)):
                outs = [outs]
            for v, x in zip(eqn.outvars, outs):
                if is_sym(x):
                    shp = tuple(v.aval.shape)
                    if tuple(x.shape) != shp:
                        x = SA(np.broadcast_to(x.v, shp).copy(), x.dtype,
                               None if x.u is None else np.broadcast_to(x.u, shp).copy())
                write(v, x)
        return [read(v) for v in jaxpr.outvars]

    def note(self, eqn):
        self.neqn += 1
        n = eqn.primitive.name
        self.prims[n] = self.prims.get(n, 0) + 1
        try:
            for fr in source_info_util.user_frames(eqn.source_info.traceback):
                f = fr.file_name
                if f.startswith(self.repo + "/") and "/tests/" not in f:
                    self.functions.add(f[len(self.repo) + 1:] + ":" + fr.function_name)
        except Exception:
            pass

    def eqn(self, eqn, ins):
        name = eqn.primitive.name
        p = eqn.params
        self.note(eqn)
        if name in ("jit", "pjit", "closed_call", "core_call", "xla_call"):
            j = p.get("jaxpr") or p.get("call_jaxpr")
            if "interp" in str(p.get("name", "")) and len(ins) == 3 and len(eqn.outvars) == 1:
                return self.interp(eqn, j, ins)
            return self.eval(*_jc(j), ins)
        if name in ("custom_jvp_call", "custom_vjp_call", "custom_vjp_call_jaxpr", "remat",
                    "checkpoint", "remat2", "custom_lin"):
            j = p.get("call_jaxpr") or p.get("fun_jaxpr") or p.get("jaxpr")
            return self.eval(*_jc(j), ins)
        if name == "scan":
            return self.scan(p, ins)
        if name == "while":
            return self.while_(p, ins)
        if name == "cond":
            return self.cond(p, ins)
        if not any(is_sym(x) for x in ins):
            if name in _EXACT and len(eqn.outvars) == 1 and np.dtype(eqn.outvars[0].aval.dtype) == np.float64:
                r = _exact(name, ins, eqn.outvars[0].aval.shape)
                if r is not None:
                    return r
            out = eqn.primitive.bind(*[np.asarray(x) if not hasattr(x, "dtype") or isinstance(x, np.generic) else x
                                       for x in ins], **p)
            if eqn.primitive.multiple_results:
                return [_np(o) for o in out]
            return _np(out)
        h = getattr(self, "p_" + name.replace("-", "_").lower(), None)
        if h is not None:
            return h(eqn, p, ins)
        out_dt = eqn.outvars[0].aval.dtype
        if name in UNARY and len(ins) == 1:
            return elementwise(UNARY[name], ins, out_dt)
        if name in CMP:
            return self.compare(name, ins)
        if name in BINARY:
            kind = to_kind(ins[0])
            if kind == "b":
                raise SymError(f"{name} on bools")
            if name == "div" and kind in "iu":
                return elementwise(_intdiv, ins, out_dt)
            return elementwise(BINARY[name], ins, out_dt)
        if name in STRUCT:
            return self.struct(eqn, p, ins)
        # unknown primitive: unconstrained (over-approximation)
        if len(eqn.outvars) == 1 and np.dtype(out_dt).kind == "f":
            shp = eqn.outvars[0].aval.shape
            if all(np.shape(x) in ((), shp) or (is_sym(x) and x.shape in ((), shp)) for x in ins):
                return elementwise(f_uninterp(name), ins, out_dt)
        outs = []
        ctx = C.CTX
        ctx.abstracted = getattr(ctx, "abstracted", set()) | {name}
        for ov in eqn.outvars:
            dt = np.dtype(ov.aval.dtype)
            if dt.kind != "f":
                raise SymError(f"unsupported primitive {name}")
            v = np.empty(ov.aval.shape, dtype=object)
            for i in np.ndindex(v.shape):
                v[i] = f_fresh(name)
            outs.append(SA(v, dt))
        return outs

    def interp(self, eqn, j, ins):
        """jnp.interp(x, xp, fp): evaluated by its own jaxpr; the result elements are named
        and remembered so that the lemmas about linear interpolation can be instantiated"""
        outs = self.eval(*_jc(j), ins)
        r = outs[0]
        if not is_sym(r):
            return outs
        x, xp, fp = [to_sa(a) for a in ins]
        if xp.v.ndim != 1 or fp.v.ndim != 1 or x.shape != r.shape:
            return outs
        ctx = C.CTX
        v = r.v.copy()
        for i in np.ndindex(r.shape):
            if isinstance(v[i], Tree):
                e = C.collapse(v[i])
                (m, _), = e.t.items()
                aid = m[0][0]
                if aid not in ctx.interp_meta:
                    ctx.interp_meta[aid] = (C.collapse(x.v[i]), tuple(C.collapse(q) for q in xp.v),
                                            tuple(C.collapse(q) for q in fp.v))
                    lo = min(C.p_interval(q)[0] for q in ctx.interp_meta[aid][2])
                    hi = max(C.p_interval(q)[1] for q in ctx.interp_meta[aid][2])
                    at = ctx.atoms[aid]
                    if self.increasing(xp):
                        at.lo, at.hi = max(at.lo, lo), min(at.hi, hi)
                    else:
                        del ctx.interp_meta[aid]
                v[i] = e
        return [SA(v, r.dtype, r.u)]

    def increasing(self, xp):
        """all entries of xp provably strictly increasing (otherwise no interpolation lemmas)"""
        ctx = C.CTX
        key = tuple(id(q) for q in xp.v)
        if key not in self.inc_cache:
            ok = True
            for a, b in zip(xp.v[:-1], xp.v[1:]):
                c = compare(a, b, "<")
                if c is True or (c is not False and ctx.prover is not None and ctx.prover(c)):
                    continue
                ok = False
                break
            self.inc_cache[key] = ok
        return self.inc_cache[key]

    # ------------------------------------------------------------ control flow
    def scan(self, p, ins):
        length, rev = p["length"], p["reverse"]
        j, jconsts = _jc(p["jaxpr"])
        if "ft_in" in p:
            nc, nk, _ = [len(list(q)) for q in p["ft_in"].update(list(range(len(ins)))).unpack()]
        else:
            nc, nk = p["num_consts"], p["num_carry"]
        consts, carry, xs = ins[:nc], list(ins[nc:nc + nk]), ins[nc + nk:]
        ys = None
        order = range(length - 1, -1, -1) if rev else range(length)
        rows = {}
        for i in order:
            sl = [index0(x, i) for x in xs]
            outs = self.eval(j, jconsts, list(consts) + carry + sl)
            carry = list(outs[:nk])
            rows[i] = outs[nk:]
        ny = len(j.outvars) - nk
        ys = []
        for k in range(ny):
            av = j.outvars[nk + k].aval
            ys.append(stack([rows[i][k] for i in range(length)], av.dtype, av.shape))
        return carry + ys

    def while_(self, p, ins):
        cn, bn = p["cond_nconsts"], p["body_nconsts"]
        (cj, cjc), (bj, bjc) = _jc(p["cond_jaxpr"]), _jc(p["body_jaxpr"])
        cc, bc, carry = ins[:cn], ins[cn:cn + bn], list(ins[cn + bn:])
        for _ in range(5000):
            t, = self.eval(cj, cjc, list(cc) + carry)
            if is_sym(t):
                b = t.v[()]
                if not isinstance(b, bool):
                    if C.CTX.prover and C.CTX.prover(b):
                        b = True
                    elif C.CTX.prover and C.CTX.prover(b_not(b)):
                        b = False
                    else:
                        raise SymError("while loop with symbolic condition")
                t = b
            if not bool(t):
                return carry
            carry = list(self.eval(bj, bjc, list(bc) + carry))
        raise SymError("while loop did not terminate")

    def cond(self, p, ins):
        idx, ops = ins[0], ins[1:]
        br = p["branches"]
        if not is_sym(idx):
            k = int(np.clip(int(idx), 0, len(br) - 1))
            return self.eval(*_jc(br[k]), ops)
        outs = [self.eval(*_jc(b), ops) for b in br]
        if idx.dtype.kind == "b":
            sel = [b_not(idx.v[()]), idx.v[()]]
        else:
            n = len(br)
            iv = idx.v[()]
            sel = [compare(iv, const(k), "==") for k in range(n)]
            sel[0] = compare(iv, const(0), "<=")
            sel[-1] = compare(iv, const(n - 1), ">=")
        res = []
        for k in range(len(outs[0])):
            cols = [to_sa(o[k]) for o in outs]
            r = cols[-1]
            for s, o in zip(sel[:-1], cols[:-1]):
                r = sel_arrays(s, o, r)
            res.append(maybe_concrete(r))
        return res

    # ------------------------------------------------------------ elementwise misc
    def compare(self, name, ins):
        a, b = ins
        op = CMP[name]
        if is_sym(a) and is_sym(b) and a is b and name in ("ne", "eq"):
            # NaN test
            v = np.empty(a.shape, dtype=object)
            for i in np.ndindex(a.shape):
                u = und(a, i)
                v[i] = u if name == "ne" else b_not(u)
            return maybe_concrete(SA(v, bool))
        ka = to_kind(a)
        if ka == "b":
            def f(x, y):
                r = C.b_xor(x, y)
                return (r if name == "ne" else b_not(r)), False
            return elementwise(f, ins, bool)
        # infinities
        def infs(x):
            return (not is_sym(x)) and np.asarray(x).dtype.kind == "f" and np.isinf(np.asarray(x)).any()
        if infs(a) or infs(b):
            return self._cmp_inf(name, a, b)
        return elementwise(lambda x, y: (compare(x, y, op), False), ins, bool)

    def _cmp_inf(self, name, a, b):
        op = CMP[name]
        shp = np.broadcast_shapes(np.shape(a) if not is_sym(a) else a.shape,
                                  np.shape(b) if not is_sym(b) else b.shape)

        def get(x, i):
            if is_sym(x):
                return np.broadcast_to(x.v, shp)[i], (False if x.u is None else np.broadcast_to(x.u, shp)[i])
            c = float(np.broadcast_to(np.asarray(x), shp)[i])
            return c, False
        vals, unds = [], []
        for i in np.ndindex(shp):
            (x, ux), (y, uy) = get(a, i), get(b, i)
            u = b_or(ux, uy)
            if isinstance(x, float) and isinstance(y, float):
                r = {"<": x < y, "<=": x <= y, ">": x > y, ">=": x >= y, "==": x == y, "!=": x != y}[op]
            elif isinstance(y, float) and np.isinf(y):
                big = y > 0
                r = {"<": big, "<=": big, ">": not big, ">=": not big, "==": False, "!=": True}[op]
            elif isinstance(x, float) and np.isinf(x):
                big = x > 0
                r = {"<": not big, "<=": not big, ">": big, ">=": big, "==": False, "!=": True}[op]
            else:
                x = float_const(x) if isinstance(x, float) else x
                y = float_const(y) if isinstance(y, float) else y
                r = compare(x, y, op)
            vals.append(r)
            unds.append(u)
        return from_flat(vals, unds, shp, bool)

    def p_symx_cut(self, eqn, p, ins):
        x = to_sa(ins[0])
        self.ncut += 1
        if not self.opaque:
            return x
        v = np.empty(x.shape, dtype=object)
        for i in np.ndindex(x.shape):
            e = C.collapse(x.v[i]) if not isinstance(x.v[i], (bool, C.BNode)) else x.v[i]
            if isinstance(e, Poly) and not e.is_const() and len(e.t) + 0 > 0:
                lo, hi = C.p_interval(e)
                a = C.CTX.atom("cut", (p["name"], i, e), lo, hi,
                               p["name"] + "".join(f"_{k}" for k in i))
                e = C.atom_poly(a)
            v[i] = e
        return SA(v, x.dtype, x.u)

    def p_and(self, eqn, p, ins):
        return elementwise(lambda a, b: (b_and(a, b), False), ins, bool)

    def p_or(self, eqn, p, ins):
        return elementwise(lambda a, b: (b_or(a, b), False), ins, bool)

    def p_xor(self, eqn, p, ins):
        return elementwise(lambda a, b: (C.b_xor(a, b), False), ins, bool)

    def p_not(self, eqn, p, ins):
        return elementwise(lambda a: (b_not(a), False), ins, bool)

    def p_integer_pow(self, eqn, p, ins):
        return elementwise(lambda a: f_ipow(a, p["y"]), ins, eqn.outvars[0].aval.dtype)

    def p_is_finite(self, eqn, p, ins):
        a = ins[0]
        v = np.empty(a.shape, dtype=object)
        for i in np.ndindex(a.shape):
            v[i] = b_not(und(a, i))
        return maybe_concrete(SA(v, bool))

    def p_rem(self, eqn, p, ins):
        def f(a, b):
            def g(x, y):
                if x.is_const() and y.is_const():
                    xx, yy = x.const(), y.const()
                    q = int(xx / yy)
                    return const(xx - q * yy)
                raise SymError("symbolic rem")
            return lift(g, a, b), False
        return elementwise(f, ins, eqn.outvars[0].aval.dtype)

    def p_polynomial(self, eqn, p, ins):
        def g(x, *cs):
            r, u = cs[-1], False
            for c in cs[-2::-1]:
                r = add(mul(r, x), c)
            return r, u
        return elementwise(g, ins, eqn.outvars[0].aval.dtype)

    def p_clamp(self, eqn, p, ins):
        lo, x, hi = ins
        r = elementwise(f_max, [x, lo], eqn.outvars[0].aval.dtype)
        return elementwise(f_min, [r, hi], eqn.outvars[0].aval.dtype)

    def p_select_n(self, eqn, p, ins):
        pred, cases = ins[0], ins[1:]
        if not is_sym(pred):
            pr = np.asarray(pred)
            cs = [to_sa(c) for c in cases]
            shp = cs[0].shape
            pr = np.broadcast_to(pr, shp)
            vals = [cs[int(pr[i])].v[i] for i in np.ndindex(shp)]
            unds = [und(cs[int(pr[i])], i) for i in np.ndindex(shp)]
            return from_flat(vals, unds, shp, eqn.outvars[0].aval.dtype)
        if pred.dtype.kind != "b":
            cs = [to_sa(c) for c in cases]
            r = cs[-1]
            for k in range(len(cs) - 2, -1, -1):
                s = elementwise(lambda x: (compare(x, const(k), "=="), False), [pred], bool)
                r = sel_arrays_el(to_sa(s), cs[k], r)
            return maybe_concrete(r)
        return maybe_concrete(sel_arrays_el(pred, to_sa(cases[1]), to_sa(cases[0])))

    def p_convert_element_type(self, eqn, p, ins):
        x = ins[0]
        nd = np.dtype(p["new_dtype"])
        if nd.kind == "f":
            if x.kind == "b":
                return elementwise(lambda a: (C.bool_to_val(a), False), ins, nd)
            if x.kind == "f" and nd.itemsize < x.dtype.itemsize:
                return elementwise(lambda a: (_round32(a), False), ins, nd)
            return SA(x.v, nd, x.u)
        if nd.kind in "iu":
            if x.kind == "b":
                return elementwise(lambda a: (C.bool_to_val(a), False), ins, nd)
            if x.kind in "iu":
                return SA(x.v, nd, x.u)

            def tr(a):
                def g(y):
                    if y.is_const():
                        return const(int(y.const()))
                    lo, hi = C.p_interval(y)
                    if lo >= 0:
                        return f_floor(y)[0]
                    raise SymError("float->int of symbolic value")
                return lift(g, a), False
            return elementwise(tr, ins, nd)
        if nd.kind == "b":
            return elementwise(lambda a: (val_cmp0(a, "!="), False), ins, nd)
        raise SymError(f"convert to {nd}")

    # ------------------------------------------------------------ reductions
    def _reduce(self, eqn, p, ins, f, init, dt=None):
        x = to_sa(ins[0])
        axes = tuple(p["axes"])
        dt = dt or eqn.outvars[0].aval.dtype
        keep = [a for a in range(x.v.ndim) if a not in axes]
        perm = keep + list(axes)
        v = np.transpose(x.v, perm)
        n = int(np.prod([x.shape[a] for a in axes])) if axes else 1
        oshape = tuple(x.shape[a] for a in keep)
        v = v.reshape(oshape + (n,))
        u = None if x.u is None else np.transpose(x.u, perm).reshape(oshape + (n,))
        vals, unds = [], []
        for i in np.ndindex(oshape):
            acc = None
            uu = False
            for k in range(n):
                e = v[i + (k,)]
                acc = e if acc is None else f(acc, e)
                if u is not None:
                    uu = b_or(uu, u[i + (k,)])
            if acc is None:
                acc = init
            vals.append(acc)
            unds.append(uu)
        return from_flat(vals, unds, oshape, dt)

    def p_reduce_sum(self, eqn, p, ins):
        return self._reduce(eqn, p, ins, add, const(0))

    def p_reduce_prod(self, eqn, p, ins):
        return self._reduce(eqn, p, ins, mul, const(1))

    def p_reduce_max(self, eqn, p, ins):
        return self._reduce(eqn, p, ins, lambda a, b: f_max(a, b)[0], None)

    def p_reduce_min(self, eqn, p, ins):
        return self._reduce(eqn, p, ins, lambda a, b: f_min(a, b)[0], None)

    def p_reduce_and(self, eqn, p, ins):
        return self._reduce(eqn, p, ins, b_and, True)

    def p_reduce_or(self, eqn, p, ins):
        return self._reduce(eqn, p, ins, b_or, False)

    def _arg(self, eqn, p, ins, op):
        x = to_sa(ins[0])
        (ax,) = p["axes"]
        v = np.moveaxis(x.v, ax, -1)
        u = None if x.u is None else np.moveaxis(x.u, ax, -1)
        oshape = v.shape[:-1]
        vals, unds = [], []
        for i in np.ndindex(oshape):
            best, bi, uu = v[i + (0,)], const(0), False
            for k in range(1, v.shape[-1]):
                e = v[i + (k,)]
                t = compare(e, best, op)
                best = ite(t, e, best)
                bi = t_apply(lambda c, a, b: a if c.const() == 1 else b, C.bool_tree(t), const(k), bi)
                if u is not None:
                    uu = b_or(uu, u[i + (k,)])
            vals.append(bi)
            unds.append(uu)
        return from_flat(vals, unds, oshape, p["index_dtype"])

    def p_argmax(self, eqn, p, ins):
        return self._arg(eqn, p, ins, ">")

    def p_argmin(self, eqn, p, ins):
        return self._arg(eqn, p, ins, "<")

    def _cum(self, eqn, p, ins, f):
        x = to_sa(ins[0])
        ax, rev = p["axis"], p["reverse"]
        v = np.moveaxis(x.v, ax, -1)
        if rev:
            v = v[..., ::-1]
        out = np.empty(v.shape, dtype=object)
        for i in np.ndindex(v.shape[:-1]):
            acc = None
            for k in range(v.shape[-1]):
                acc = v[i + (k,)] if acc is None else f(acc, v[i + (k,)])
                out[i + (k,)] = acc
        if rev:
            out = out[..., ::-1]
        u = None
        if x.u is not None:
            uv = np.moveaxis(x.u, ax, -1)
            if rev:
                uv = uv[..., ::-1]
            u = np.empty(v.shape, dtype=object)
            for i in np.ndindex(v.shape[:-1]):
                acc = False
                for k in range(v.shape[-1]):
                    acc = b_or(acc, uv[i + (k,)])
                    u[i + (k,)] = acc
            if rev:
                u = u[..., ::-1]
            u = np.moveaxis(u, -1, ax)
        return SA(np.moveaxis(out, -1, ax).copy(), x.dtype, u)

    def p_cumsum(self, eqn, p, ins):
        return self._cum(eqn, p, ins, add)

    def p_cumprod(self, eqn, p, ins):
        return self._cum(eqn, p, ins, mul)

    def p_cummax(self, eqn, p, ins):
        return self._cum(eqn, p, ins, lambda a, b: f_max(a, b)[0])

    def p_cummin(self, eqn, p, ins):
        return self._cum(eqn, p, ins, lambda a, b: f_min(a, b)[0])

    def p_dot_general(self, eqn, p, ins):
        a, b = to_sa(ins[0]), to_sa(ins[1])
        (lc, rc), (lb, rb) = p["dimension_numbers"]
        lfree = [i for i in range(a.v.ndim) if i not in lc and i not in lb]
        rfree = [i for i in range(b.v.ndim) if i not in rc and i not in rb]

        def prep(x, arr, bt, free, con):
            y = np.transpose(arr, list(bt) + free + list(con))
            s = x.shape
            return y.reshape(tuple(s[i] for i in bt) + (-1,) * 0 + (int(np.prod([s[i] for i in free])),
                                                               int(np.prod([s[i] for i in con]))))
        av, bv = prep(a, a.v, lb, lfree, lc), prep(b, b.v, rb, rfree, rc)
        au = None if a.u is None else prep(a, a.u, lb, lfree, lc)
        bu = None if b.u is None else prep(b, b.u, rb, rfree, rc)
        bshape = av.shape[:-2]
        out = np.empty(bshape + (av.shape[-2], bv.shape[-2]), dtype=object)
        u = np.full(out.shape, False, dtype=object)
        for t in np.ndindex(bshape):
            for i in range(av.shape[-2]):
                for j in range(bv.shape[-2]):
                    s = const(0)
                    uu = False
                    for k in range(av.shape[-1]):
                        s = add(s, mul(av[t + (i, k)], bv[t + (j, k)]))
                        if au is not None:
                            uu = b_or(uu, au[t + (i, k)])
                        if bu is not None:
                            uu = b_or(uu, bu[t + (j, k)])
                    out[t + (i, j)] = s
                    u[t + (i, j)] = uu
        shp = tuple(eqn.outvars[0].aval.shape)
        return from_flat(list(out.reshape(-1)), list(u.reshape(-1)), shp, eqn.outvars[0].aval.dtype)

    def p_sort(self, eqn, p, ins):
        sas = [to_sa(x) for x in ins]
        dim = p["dimension"]
        nk = p["num_keys"]
        if nk != 1 or any(s.v.ndim != 1 for s in sas) or sas[0].shape[0] > 8:
            raise SymError("sort")
        cols = [list(s.v) for s in sas]
        n = len(cols[0])
        for i in range(n):
            for j in range(n - 1 - i):
                t = compare(cols[0][j], cols[0][j + 1], ">")
                for c in cols:
                    c[j], c[j + 1] = ite(t, c[j + 1], c[j]), ite(t, c[j], c[j + 1])
        uu = False
        for s in sas:
            if s.u is not None:
                uu = b_or(uu, *list(s.u))
        return [from_flat(c, [uu] * n, (n,), s.dtype) for c, s in zip(cols, sas)]

    def p_call_hi_primitive(self, eqn, p, ins):
        prim = p["_prim"]
        if type(prim).__name__ == "SearchSorted":
            return self._searchsorted(ins[0], ins[1], prim.side, prim.dimension, prim.batch_dims,
                                      eqn.outvars[0].aval.dtype)
        avals = [jax.ShapeDtypeStruct(np.shape(x) if not is_sym(x) else x.shape, x.dtype) for x in ins]
        closed = jax.make_jaxpr(lambda *a: prim.expand(*a))(*avals)
        return self.eval(*_jc(closed), ins)

    def p_searchsorted(self, eqn, p, ins):
        return self._searchsorted(ins[0], ins[1], p.get("side", "left"), p.get("dimension", 0),
                                  p.get("batch_dims", 0), eqn.outvars[0].aval.dtype)

    def _searchsorted(self, a, q, side, dimension, nb, dtype):
        a, q = to_sa(a), to_sa(q)
        if hasattr(side, "name"):
            side = side.name.lower()
        side = str(side)
        av = np.moveaxis(a.v, dimension, -1)
        au = None if a.u is None else np.moveaxis(a.u, dimension, -1)
        batch, extra, rest = av.shape[:nb], av.shape[nb:-1], q.shape[nb:]
        vals, unds = [], []
        for b in np.ndindex(batch):
            for e in np.ndindex(extra):
                row = list(av[b + e])
                uu = False if au is None else b_or(*list(au[b + e]))
                for r in np.ndindex(rest):
                    vals.append(search_tree(row, q.v[b + r], side))
                    unds.append(b_or(uu, und(q, b + r)))
        return from_flat(vals, unds, batch + extra + rest, dtype)

    # ------------------------------------------------------------ structural
    def struct(self, eqn, p, ins):
        name = eqn.primitive.name
        idxpos = INDEX_OPERANDS.get(name, [])
        if isinstance(idxpos, str):
            idxpos = list(range(int(idxpos[:-1]), len(ins)))
        if any(is_sym(ins[k]) for k in idxpos):
            if name == "gather":
                return self.gather_sym(eqn, p, ins)
            if name in ("dynamic_slice", "dynamic_update_slice"):
                return self.dyn_sym(eqn, p, ins, idxpos)
            raise SymError(f"{name} with symbolic indices")
        pool, ids = [], []
        for k, x in enumerate(ins):
            if k in idxpos:
                ids.append(np.asarray(x))
                continue
            s = to_sa(x)
            base = len(pool)
            pool.extend((s.v[i], und(s, i)) for i in np.ndindex(s.shape))
            ids.append(np.arange(base, base + s.v.size, dtype=np.int64).reshape(s.shape))
        p = dict(p)
        if name == "gather":
            p["fill_value"] = -1
        out = eqn.primitive.bind(*ids, **p)
        outs = out if eqn.primitive.multiple_results else [out]
        res = []
        for o, ov in zip(outs, eqn.outvars):
            o = np.asarray(o)
            vals, unds = [], []
            for k in o.reshape(-1):
                k = int(k)
                if 0 <= k < len(pool):
                    vals.append(pool[k][0])
                    unds.append(pool[k][1])
                else:
                    vals.append(const(0))
                    unds.append(True)
            res.append(from_flat(vals, unds, o.shape, ov.aval.dtype))
        return res if eqn.primitive.multiple_results else res[0]

    def gather_sym(self, eqn, p, ins):
        op, idx = to_sa(ins[0]), ins[1]
        p = dict(p)
        p["fill_value"] = -1
        dn = p["dimension_numbers"]
        ids = np.arange(op.v.size, dtype=np.int64).reshape(op.shape)
        flat_v = [op.v[i] for i in np.ndindex(op.shape)]
        flat_u = [und(op, i) for i in np.ndindex(op.shape)]
        k = idx.shape[-1]
        bshape = idx.shape[:-1]
        oshape = tuple(eqn.outvars[0].aval.shape)
        offs = list(dn.offset_dims)
        bdims = [d for d in range(len(oshape)) if d not in offs]
        out_v = np.empty(oshape, dtype=object)
        out_u = np.full(oshape, False, dtype=object)
        cache = {}

        def run(vec):
            # gather with every batch position using this index vector
            if vec not in cache:
                full = np.broadcast_to(np.array(vec, dtype=np.int64), bshape + (k,))
                cache[vec] = np.asarray(eqn.primitive.bind(ids, full.astype(idx.dtype), **p))
            return cache[vec]
        for b in np.ndindex(bshape):
            comps = [idx.v[b + (j,)] for j in range(k)]
            uu = b_or(*[und(idx, b + (j,)) for j in range(k)])
            # positions of the output belonging to this batch index
            sl = [slice(None)] * len(oshape)
            for d, bi in zip(bdims, b):
                sl[d] = bi
            sl = tuple(sl)
            sub_shape = out_v[sl].shape if isinstance(out_v[sl], np.ndarray) else ()
            for o in np.ndindex(sub_shape):
                pos = list(sl)
                it = iter(o)
                for d in range(len(oshape)):
                    if isinstance(pos[d], slice):
                        pos[d] = next(it)
                pos = tuple(pos)

                def pick(vec):
                    kk = int(run(vec)[pos])
                    if 0 <= kk < len(flat_v):
                        return flat_v[kk], flat_u[kk]
                    return const(0), True
                out_v[pos], u2 = self._tree_pick(comps, pick)
                out_u[pos] = b_or(uu, u2)
        return from_flat(list(out_v.reshape(-1)), list(out_u.reshape(-1)), oshape,
                         eqn.outvars[0].aval.dtype)

    def _tree_pick(self, comps, pick):
        """comps: list of int-valued Trees -> (value, undef)"""
        leafs = []
        nonpoly = False
        seen = {}

        def leaf(*ps):
            vec = tuple(int(x.const()) for x in ps)
            for x in ps:
                if not x.is_const():
                    raise SymError("non-constant index leaf")
            return vec
        # joint tree with tuple leaves encoded as const polys of a running number
        table = []

        def enc(*ps):
            vec = leaf(*ps)
            if vec not in seen:
                seen[vec] = len(table)
                table.append(vec)
            return const(seen[vec])
        T = t_apply(enc, *comps)
        T = C.t_prune(T)
        used = {int(l.const()) for _, l in C.leaves(T)}
        vals = {j: pick(table[j]) for j in used}
        u = False
        if any(vals[j][1] is not False for j in used):
            for path, l in C.leaves(T):
                uj = vals[int(l.const())][1]
                if uj is not False:
                    u = b_or(u, b_and(C.path_bool(path), uj))
        if all(not isinstance(vals[j][0], Tree) and not isinstance(vals[j][0], bool) and
               not isinstance(vals[j][0], C.BNode) for j in used):
            return t_apply(lambda l: vals[int(l.const())][0], T), u
        if any(isinstance(vals[j][0], (bool, C.BNode)) for j in used):
            r = None
            for path, l in C.leaves(T):
                t = b_and(C.path_bool(path), vals[int(l.const())][0])
                r = t if r is None else b_or(r, t)
            return r, u

        def rec(t):
            if isinstance(t, Tree):
                return ite(C.b_lit(t.c), rec(t.hi), rec(t.lo))
            return vals[int(t.const())][0]
        n = sum(C.nleaves(vals[j][0]) for j in used)
        if n > C.CTX.tree_limit:
            vals = {j: (C.collapse(v), uu) for j, (v, uu) in vals.items()}
        return rec(T), u

    def dyn_sym(self, eqn, p, ins, idxpos):
        comps = []
        for k in idxpos:
            s = to_sa(ins[k])
            comps.append(s.v[()])
        table = {}

        def run(vec):
            if vec not in table:
                j = list(ins)
                for k, v in zip(idxpos, vec):
                    j[k] = np.asarray(v, dtype=np.int64 if not is_sym(ins[k]) else ins[k].dtype)
                table[vec] = to_sa(self.struct(eqn, p, j))
            return table[vec]
        shp = tuple(eqn.outvars[0].aval.shape)
        vals, unds = [], []
        for pos in np.ndindex(shp):
            def pick(vec):
                r = run(vec)
                return r.v[pos], und(r, pos)
            v, u = self._tree_pick(comps, pick)
            vals.append(v)
            unds.append(u)
        return from_flat(vals, unds, shp, eqn.outvars[0].aval.dtype)

    def p_scatter_add(self, eqn, p, ins):
        op, idx, upd = to_sa(ins[0]), ins[1], to_sa(ins[2])
        if is_sym(idx):
            return self._scatter_add_sym(eqn, p, op, idx, upd)
        out_v = op.v.copy()
        out_u = np.full(op.shape, False, dtype=object) if op.u is None else op.u.copy()
        for n, i in enumerate(np.ndindex(upd.shape)):
            if isinstance(upd.v[i], Poly) and not upd.v[i].t and und(upd, i) is False:
                continue
            one = np.zeros(upd.shape)
            one[i] = 1.0
            r = np.asarray(eqn.primitive.bind(np.zeros(op.shape), np.asarray(idx), one, **p))
            for q in zip(*np.nonzero(r)):
                out_v[q] = add(out_v[q], upd.v[i])
                out_u[q] = b_or(out_u[q], und(upd, i))
        return from_flat(list(out_v.reshape(-1)), list(out_u.reshape(-1)), op.shape,
                         eqn.outvars[0].aval.dtype)

    def _scatter_add_sym(self, eqn, p, op, idx, upd):
        """gradient of a gather with data-dependent indices"""
        dn = p["dimension_numbers"]
        k = idx.shape[-1]
        bshape = idx.shape[:-1]
        uw = list(dn.update_window_dims)
        udims = [d for d in range(upd.v.ndim) if d not in uw]
        out_v = op.v.copy()
        out_u = np.full(op.shape, False, dtype=object) if op.u is None else op.u.copy()
        for i in np.ndindex(upd.shape):
            if isinstance(upd.v[i], Poly) and not upd.v[i].t and und(upd, i) is False:
                continue
            b = tuple(i[d] for d in udims)
            comps = [idx.v[b + (j,)] for j in range(k)]
            one = np.zeros(upd.shape)
            one[i] = 1.0
            vecs = {}

            def enc(*ps):
                vec = tuple(int(x.const()) for x in ps)
                vecs.setdefault(vec, len(vecs))
                return const(vecs[vec])
            T = C.t_prune(t_apply(enc, *comps))
            inv = {v: kk for kk, v in vecs.items()}
            hits = {}
            for _, l in C.leaves(T):
                vec = inv[int(l.const())]
                full = np.zeros(bshape + (k,), dtype=idx.dtype)
                full[b] = vec
                r = np.asarray(eqn.primitive.bind(np.zeros(op.shape), full, one, **p))
                hits[int(l.const())] = set(map(tuple, np.argwhere(r != 0)))
            cells = set().union(*hits.values())
            for q in cells:
                sel = t_apply(lambda l: const(1 if q in hits[int(l.const())] else 0), T)
                out_v[q] = add(out_v[q], mul(sel, upd.v[i]))
                out_u[q] = b_or(out_u[q], und(upd, i))
        return from_flat(list(out_v.reshape(-1)), list(out_u.reshape(-1)), op.shape,
                         eqn.outvars[0].aval.dtype)


def search_tree(a, v, side):
    """number of elements of the sorted list a that are <= v (right) or < v (left)"""
    t = const(len(a))
    cnds = []
    for x in a:
        cnds.append(compare(v, x, "<" if side == "right" else "<="))
    for i in range(len(a) - 1, -1, -1):
        b = cnds[i]
        if b is True:
            t = const(i)
            continue
        if b is False:
            continue
        t = t_apply(lambda c, u, w: u if c.const() == 1 else w, C.bool_tree(b), const(i), t)
    return C.t_prune(t)


def _jc(j):
    """(jaxpr, consts) of a closed or open jaxpr of whichever JAX version"""
    if hasattr(j, "eqns") and hasattr(j, "constvars") and not hasattr(j, "jaxpr"):
        return j, list(getattr(j, "consts", []) or []) if len(j.constvars) else []
    inner = getattr(j, "jaxpr", j)
    return inner, list(getattr(j, "consts", []) or []) if len(inner.constvars) else []


def _np(o):
    try:
        return np.asarray(o)
    except Exception:
        return o


def to_kind(x):
    return x.dtype.kind if is_sym(x) else np.asarray(x).dtype.kind


def _intdiv(a, b):
    def g(x, y):
        if x.is_const() and y.is_const() and y.const() != 0:
            return const(int(x.const() / y.const()))
        raise SymError("symbolic integer division")
    return lift(g, a, b), False


def _round32(a):
    """f64 -> f32: multiplicative rounding noise"""
    def g(x):
        if not x.t:
            return x
        at = C.CTX.atom("var", ("f32", x), -6e-8, 6e-8, f"f32noise{len(C.CTX.atoms)}")
        return C.p_mul(x, C.p_add(const(1), C.atom_poly(at)))
    return lift(g, a)


def sel_arrays(b, x, y):
    """b scalar Bool ? x : y for SAs of one shape"""
    x, y = to_sa(x), to_sa(y)
    m = SA(np.full(x.shape, b, dtype=object), bool)
    return sel_arrays_el(m, x, y)


def sel_arrays_el(m, x, y):
    shp = np.broadcast_shapes(m.shape, x.shape, y.shape)
    mv = np.broadcast_to(m.v, shp)
    vals, unds = [], []
    isb = x.dtype.kind == "b"
    xv, yv = np.broadcast_to(x.v, shp), np.broadcast_to(y.v, shp)
    xu = None if x.u is None else np.broadcast_to(x.u, shp)
    yu = None if y.u is None else np.broadcast_to(y.u, shp)
    mu = None if m.u is None else np.broadcast_to(m.u, shp)
    for i in np.ndindex(shp):
        b = mv[i]
        if isb:
            vals.append(b_ite(b, xv[i], yv[i]))
        else:
            vals.append(ite(b, xv[i], yv[i]))
        u = b_ite(b, False if xu is None else xu[i], False if yu is None else yu[i])
        if mu is not None:
            u = b_or(u, mu[i])
        unds.append(u)
    v = np.empty(len(vals), dtype=object)
    for k, e in enumerate(vals):
        v[k] = e
    u = None
    if any(q is not False for q in unds):
        u = np.empty(len(unds), dtype=object)
        for k, e in enumerate(unds):
            u[k] = e
        u = u.reshape(shp)
    return SA(v.reshape(shp), x.dtype, u)


def index0(x, i):
    if is_sym(x):
        v = x.v[i]
        if not isinstance(v, np.ndarray):
            w = np.empty((), dtype=object)
            w[()] = v
            v = w
        u = None
        if x.u is not None:
            u = x.u[i]
            if not isinstance(u, np.ndarray):
                w = np.empty((), dtype=object)
                w[()] = u
                u = w
        return maybe_concrete(SA(v, x.dtype, u))
    return np.asarray(x)[i]


def stack(rows, dtype, shape):
    if not any(is_sym(r) for r in rows):
        if not rows:
            return np.zeros((0,) + tuple(shape), dtype=dtype)
        return np.stack([np.asarray(r) for r in rows])
    sas = [to_sa(r) for r in rows]
    v = np.empty((len(rows),) + tuple(shape), dtype=object)
    u = np.full(v.shape, False, dtype=object)
    for k, s in enumerate(sas):
        for i in np.ndindex(tuple(shape)):
            v[(k,) + i] = s.v[i]
            u[(k,) + i] = und(s, i)
    return from_flat(list(v.reshape(-1)), list(u.reshape(-1)), v.shape, dtype)
