"""Path-forking symbolic execution of plain Python/numpy code.

The real functions run on numpy object arrays whose entries are z3 terms.  A branch on a symbolic
condition asks the solver which sides are feasible and the engine re-executes the code once per
feasible path; on every path each goal is decided by the solver for all values of the symbolic
inputs.  numpy functions that would branch needlessly (min, clip, isclose, interp, ...) have exact
ite encodings; everything else runs through numpy's own object-array implementation.
"""
import builtins
import contextlib
import inspect
import json
import numbers
import os
import shutil
import sys
import tempfile
import time
import traceback
from collections import OrderedDict
from fractions import Fraction

import numpy as np

from .smt import z3

REPO = os.environ.get("DSPS_REPO", "/repo")
ENG = None


class Unsupported(BaseException):
    pass


class TooManyPaths(BaseException):
    pass


class Infeasible(BaseException):
    """the assumptions made so far cannot hold together: this path does not exist"""


def _q(x):
    if isinstance(x, (bool, np.bool_)):
        return z3.RealVal(int(x))
    if isinstance(x, numbers.Integral):
        return z3.RealVal(int(x))
    f = float(x)
    if not np.isfinite(f):
        raise Unsupported("non-finite constant")
    fr = Fraction(f)
    # decimal literals such as 1e-6 mean the decimal number up to rounding, which is outside the claim
    return z3.RealVal(f"{fr.numerator}/{fr.denominator}")


def term(x):
    if isinstance(x, SReal):
        return x.t
    if isinstance(x, SBool):
        return z3.If(x.t, z3.RealVal(1), z3.RealVal(0))
    if isinstance(x, numbers.Number) or isinstance(x, np.generic):
        return _q(x)
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return term(x.item())
    raise Unsupported(f"cannot use {type(x).__name__} as a number")


def bterm(x):
    if isinstance(x, SBool):
        return x.t
    if isinstance(x, SReal):
        return x.t != 0
    return z3.BoolVal(bool(x))


def issym(x):
    return isinstance(x, Sym)


_FUN = {}


def fun(name):
    if name not in _FUN:
        _FUN[name] = z3.Function(name, z3.RealSort(), z3.RealSort())
    return _FUN[name]


class Sym:
    __array_priority__ = 1000

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return _ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        return _afunc(func, types, args, kwargs)

    def __hash__(self):
        return id(self)

    # numpy-scalar look-alikes
    def item(self):
        return self

    shape = ()
    ndim = 0
    size = 1

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


def interval(t, depth=0):
    """enclosure of a z3 real term from the declared ranges of its variables; None is unbounded"""
    e = ENG
    k = t.get_id()
    if k in e.ivl:
        return e.ivl[k][1]
    r = (None, None)
    d = t.decl().kind()
    if z3.is_rational_value(t):
        f = Fraction(t.numerator_as_long(), t.denominator_as_long())
        r = (f, f)
    elif d == z3.Z3_OP_UNINTERPRETED and t.num_args() == 0:
        r = e.bounds.get(t.decl().name(), r)
    elif depth > 40:
        pass
    elif d == z3.Z3_OP_ADD:
        lo = hi = Fraction(0)
        for c in t.children():
            a, b = interval(c, depth + 1)
            lo = None if lo is None or a is None else lo + a
            hi = None if hi is None or b is None else hi + b
        r = (lo, hi)
    elif d == z3.Z3_OP_UMINUS:
        a, b = interval(t.arg(0), depth + 1)
        r = (None if b is None else -b, None if a is None else -a)
    elif d == z3.Z3_OP_SUB and t.num_args() == 2:
        (a, b), (c, q) = interval(t.arg(0), depth + 1), interval(t.arg(1), depth + 1)
        r = (None if a is None or q is None else a - q, None if b is None or c is None else b - c)
    elif d == z3.Z3_OP_MUL and t.num_args() == 2:
        (a, b), (c, q) = interval(t.arg(0), depth + 1), interval(t.arg(1), depth + 1)
        if None not in (a, b, c, q):
            v = (a * c, a * q, b * c, b * q)
            r = (min(v), max(v))
        elif a is not None and a == b:
            lo, hi = (None if c is None else a * c), (None if q is None else a * q)
            r = (lo, hi) if a >= 0 else (hi, lo)
    elif d == z3.Z3_OP_ITE:
        c = t.arg(0)
        known = None
        if z3.is_le(c) or z3.is_ge(c) or z3.is_lt(c) or z3.is_gt(c):
            known = _decide(c)
        (a, b), (p, q) = interval(t.arg(1), depth + 1), interval(t.arg(2), depth + 1)
        if known is True:
            r = (a, b)
        elif known is False:
            r = (p, q)
        else:
            r = (None if a is None or p is None else min(a, p), None if b is None or q is None else max(b, q))
    e.ivl[k] = (t, r)
    return r


def _decide(c):
    """truth value of a comparison when the declared ranges settle it"""
    (a, b), (p, q) = interval(c.arg(0)), interval(c.arg(1))
    if z3.is_ge(c) or z3.is_gt(c):
        (a, b), (p, q) = (p, q), (a, b)
    strict = z3.is_lt(c) or z3.is_gt(c)
    if b is not None and p is not None and (b < p or (b == p and not strict)):
        return True
    if a is not None and q is not None and (a > q or (a == q and strict)):
        return False
    return None


def _cmp(c):
    if ENG is not None and ENG.bounds and (z3.is_le(c) or z3.is_ge(c) or z3.is_lt(c) or z3.is_gt(c)):
        k = _decide(c)
        if k is not None:
            return SBool(z3.BoolVal(k))
    return SBool(c)


def _bin(f, r=False):
    def g(self, o):
        if isinstance(o, np.ndarray) and o.ndim:
            return NotImplemented
        if not isinstance(o, (numbers.Number, np.generic, Sym, np.ndarray)):
            return NotImplemented
        a, b = term(self), term(o)
        return f(b, a) if r else f(a, b)
    return g


def _div(a, b):
    ENG.division(b)
    return SReal(a / b)


def _pow(a, n):
    if isinstance(n, Sym):
        raise Unsupported("symbolic power")
    if float(n) == int(n) and abs(int(n)) <= 8:
        t = z3.RealVal(1)
        for _ in range(abs(int(n))):
            t = t * a
        return SReal(t) if n >= 0 else _div(z3.RealVal(1), t)
    raise Unsupported("power")


def _prune(t):
    t = z3.simplify(t)
    if ENG is not None and ENG.bounds and z3.is_app_of(t, z3.Z3_OP_ITE):
        c = t.arg(0)
        if z3.is_le(c) or z3.is_ge(c):
            k = _decide(c)
            if k is not None:
                return t.arg(1) if k else t.arg(2)
    return t


class SReal(Sym):
    def __init__(self, t):
        self.t = _prune(t) if not z3.is_const(t) else t

    def __repr__(self):
        return f"<{self.t}>"

    dtype = np.dtype(object)
    __add__, __radd__ = _bin(lambda a, b: SReal(a + b)), _bin(lambda a, b: SReal(a + b), True)
    __sub__, __rsub__ = _bin(lambda a, b: SReal(a - b)), _bin(lambda a, b: SReal(a - b), True)
    __mul__, __rmul__ = _bin(lambda a, b: SReal(a * b)), _bin(lambda a, b: SReal(a * b), True)
    __truediv__, __rtruediv__ = _bin(_div), _bin(_div, True)
    __lt__, __le__ = _bin(lambda a, b: _cmp(a < b)), _bin(lambda a, b: _cmp(a <= b))
    __gt__, __ge__ = _bin(lambda a, b: _cmp(a > b)), _bin(lambda a, b: _cmp(a >= b))

    def __eq__(self, o):
        r = _bin(lambda a, b: SBool(a == b))(self, o)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = _bin(lambda a, b: SBool(a != b))(self, o)
        return True if r is NotImplemented else r

    __hash__ = Sym.__hash__

    def __neg__(self):
        return SReal(-self.t)

    def __pos__(self):
        return self

    def __abs__(self):
        return SReal(z3.If(self.t >= 0, self.t, -self.t))

    def __pow__(self, n):
        return _pow(self.t, n)

    def __rpow__(self, b):
        return SReal(fun(f"pow_{b}")(self.t))

    def __bool__(self):
        return ENG.fork(self.t != 0)

    def __index__(self):
        return int(ENG.concretise([self.t])[0])

    def __int__(self):
        raise Unsupported("int() of a symbolic real")

    def __float__(self):
        v = z3.simplify(self.t)
        if z3.is_rational_value(v):
            return float(Fraction(v.numerator_as_long(), v.denominator_as_long()))
        raise Unsupported("float() of a symbolic real")

    def __round__(self, n=None):
        raise Unsupported("round")

    def min(self, *a, **k):
        return self

    max = sum = mean = min

    def astype(self, *a, **k):
        return self

    def __getattr__(self, n):
        if n in ("log10", "log", "exp", "sqrt"):     # numpy's object loops call these methods
            return lambda: SReal(fun(n)(self.t))
        raise AttributeError(n)


class SBool(Sym):
    def __init__(self, t):
        self.t = z3.simplify(t)

    dtype = np.dtype(object)

    def __repr__(self):
        return f"<{self.t}>"

    def __bool__(self):
        return ENG.fork(self.t)

    def _b(f):
        def g(self, o):
            if isinstance(o, np.ndarray) and o.ndim:
                return NotImplemented
            return SBool(f(self.t, bterm(o)))
        return g
    __and__ = __rand__ = _b(z3.And)
    __or__ = __ror__ = _b(z3.Or)
    __xor__ = __rxor__ = _b(z3.Xor)
    __eq__ = _b(lambda a, b: a == b)
    __ne__ = _b(lambda a, b: a != b)
    __hash__ = Sym.__hash__

    def __invert__(self):
        return SBool(z3.Not(self.t))

    def _r(op):
        def g(self, o):
            return getattr(SReal(term(self)), op)(o)
        return g
    for _n in ("add", "radd", "sub", "rsub", "mul", "rmul", "truediv", "lt", "le", "gt", "ge"):
        locals()[f"__{_n}__"] = _r(f"__{_n}__")
    del _n

    def sum(self, *a, **k):
        return SReal(term(self))

    def any(self, *a, **k):
        return self

    all = any


def ite(c, a, b):
    if not isinstance(c, Sym):
        return a if c else b
    if isinstance(a, (SBool, bool, np.bool_)) and isinstance(b, (SBool, bool, np.bool_)):
        return SBool(z3.If(c.t, bterm(a), bterm(b)))
    return SReal(z3.If(bterm(c), term(a), term(b)))


def smin(a, b):
    return ite(SBool(term(a) <= term(b)), a, b) if issym(a) or issym(b) else min(a, b)


def smax(a, b):
    return ite(SBool(term(a) >= term(b)), a, b) if issym(a) or issym(b) else max(a, b)


def _u1(name):
    def g(a):
        if issym(a):
            return SReal(fun(name)(term(a)))
        return getattr(np, name)(float(a))
    return g


OPS = dict(
    add=lambda a, b: a + b, subtract=lambda a, b: a - b, multiply=lambda a, b: a * b,
    true_divide=lambda a, b: a / b, divide=lambda a, b: a / b, negative=lambda a: -a, positive=lambda a: a,
    absolute=lambda a: abs(a), fabs=lambda a: abs(a), power=lambda a, b: a ** b, square=lambda a: a * a,
    less=lambda a, b: a < b, less_equal=lambda a, b: a <= b, greater=lambda a, b: a > b,
    greater_equal=lambda a, b: a >= b, equal=lambda a, b: a == b, not_equal=lambda a, b: a != b,
    minimum=smin, maximum=smax, fmin=smin, fmax=smax, clip=lambda a, lo, hi: smin(smax(a, lo), hi),
    logical_and=lambda a, b: SBool(z3.And(bterm(a), bterm(b))), logical_or=lambda a, b: SBool(z3.Or(bterm(a), bterm(b))),
    logical_not=lambda a: SBool(z3.Not(bterm(a))), bitwise_and=lambda a, b: SBool(z3.And(bterm(a), bterm(b))),
    bitwise_or=lambda a, b: SBool(z3.Or(bterm(a), bterm(b))), invert=lambda a: SBool(z3.Not(bterm(a))),
    isfinite=lambda a: True, isnan=lambda a: False, isinf=lambda a: False, conjugate=lambda a: a,
    log10=_u1("log10"), log=_u1("log"), exp=_u1("exp"), sqrt=_u1("sqrt"),
)
IDENT = dict(add=0.0, multiply=1.0, logical_and=True, logical_or=False, bitwise_and=True, bitwise_or=False)


def _base(x):
    if isinstance(x, np.ndarray):
        return x.view(np.ndarray)
    return x


def _obj(x):
    if isinstance(x, Sym):
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    a = np.asarray(_base(x))
    return a if a.dtype == object or a.dtype.kind not in "fiub" else a.astype(object)


def hassym(x):
    if isinstance(x, Sym):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object and any(isinstance(q, Sym) for q in x.reshape(-1).view(np.ndarray))
    if isinstance(x, (list, tuple)):
        return any(hassym(q) for q in x)
    return False


def _wrap(a):
    a = np.asarray(a)
    if a.ndim == 0:
        return a.item() if a.dtype == object else a[()]
    return a.view(SArr)


def _ufunc(ufunc, method, inputs, kw):
    kw = dict(kw)
    out = kw.pop("out", None)
    n = ufunc.__name__
    if not any(hassym(i) for i in inputs):
        ins = [_base(i) for i in inputs]
        r = getattr(ufunc, method)(*ins, **{k: _base(v) for k, v in kw.items()})
        r = _wrap(r) if isinstance(r, np.ndarray) else r
    elif n not in OPS:
        raise Unsupported(f"numpy ufunc {n}")
    elif method == "__call__":
        where = kw.pop("where", True)
        if where is not True:
            raise Unsupported("where= argument")
        arrs = np.broadcast_arrays(*[_obj(i) for i in inputs])
        r = np.empty(arrs[0].shape, dtype=object)
        f = OPS[n]
        for i in np.ndindex(r.shape):
            r[i] = f(*[a[i] for a in arrs])
        r = _wrap(r)
    elif method == "reduce":
        a = _obj(inputs[0])
        axis, keep = kw.get("axis", 0), kw.get("keepdims", False)
        if kw.get("where", True) is not True:
            raise Unsupported("where= argument")
        f = OPS[n]
        ax = tuple(range(a.ndim)) if axis is None else tuple(x % a.ndim for x in (axis if isinstance(axis, tuple) else (axis,)))
        rest = [d for d in range(a.ndim) if d not in ax]
        b = a.transpose(rest + list(ax)).reshape([a.shape[d] for d in rest] + [-1])
        r = np.empty(b.shape[:-1], dtype=object)
        for i in np.ndindex(r.shape):
            v = list(b[i])
            ini = kw.get("initial", None)
            if ini is not None and ini is not np._NoValue:
                v = [ini] + v
            if not v:
                v = [IDENT[n]]
            x = v[0]
            for y in v[1:]:
                x = f(x, y)
            r[i] = x
        if keep:
            r = r.reshape([1 if d in ax else a.shape[d] for d in range(a.ndim)])
        r = _wrap(r)
    elif method == "accumulate":
        a = _obj(inputs[0])
        axis = kw.get("axis", 0)
        b = np.moveaxis(a, axis, 0)
        r = b.copy()
        f = OPS[n]
        for k in range(1, len(r)):
            for i in np.ndindex(r.shape[1:]):
                r[(k,) + i] = f(r[(k - 1,) + i], b[(k,) + i])
        r = _wrap(np.moveaxis(r, 0, axis))
    else:
        raise Unsupported(f"numpy {n}.{method}")
    if out is not None and out[0] is not None:
        out[0][...] = r
        return out[0]
    return r


def f_linspace(start, stop, num=50, endpoint=True, retstep=False, dtype=None, axis=0, **k):
    n = int(num)
    if retstep or not endpoint or np.ndim(start) or np.ndim(stop):
        raise Unsupported("linspace options")
    r = np.empty(n, dtype=object)
    for i in range(n):
        r[i] = SReal(term(start) + (term(stop) - term(start)) * z3.Q(i, max(1, n - 1)))
    if n > 1:
        r[-1] = stop
    return r.view(SArr)


def f_isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    return abs(_sa(a) - b) <= atol + rtol * abs(_sa(b))


def _sa(x):
    return x if isinstance(x, (Sym, SArr)) else _wrap(np.asarray(x))


def f_interp(x, xp, fp, left=None, right=None, period=None):
    """np.interp for increasing xp (numpy's precondition; checked as a side goal)"""
    if period is not None:
        raise Unsupported("period")
    xp, fp = list(np.asarray(_base(xp)).reshape(-1)), list(np.asarray(_base(fp)).reshape(-1))
    if len(xp) != len(fp):
        raise ValueError("fp and xp are not of the same length.")
    if len(xp) == 0:
        raise ValueError("array of sample points is empty")
    ENG.require("np.interp is given increasing abscissae", z3.And([term(a) <= term(b) for a, b in zip(xp, xp[1:])] or [z3.BoolVal(True)]))
    xs = _obj(x)
    r = np.empty(xs.shape, dtype=object)
    n = len(xp)
    for i in np.ndindex(xs.shape):
        v = term(xs[i])
        e = term(fp[-1])
        for j in range(n - 2, -1, -1):
            a, b, p, q = term(xp[j]), term(xp[j + 1]), term(fp[j]), term(fp[j + 1])
            e = z3.If(v < b, p + (q - p) * (v - a) / (b - a), e)
        e = z3.If(v < term(xp[0]), term(fp[0] if left is None else left), e)
        e = z3.If(v > term(xp[-1]), term(fp[-1] if right is None else right), e)
        r[i] = SReal(e)
    return _wrap(r)


def f_where(c, *ab):
    if not ab:
        return f_nonzero(c)
    arrs = np.broadcast_arrays(_obj(c), _obj(ab[0]), _obj(ab[1]))
    r = np.empty(arrs[0].shape, dtype=object)
    for i in np.ndindex(r.shape):
        r[i] = ite(arrs[0][i], arrs[1][i], arrs[2][i])
    return _wrap(r)


def f_nonzero(a):
    return np.nonzero(mask(a))


def mask(a):
    """symbolic booleans (or indices) -> concrete ones, one path per feasible value"""
    a = np.asarray(_base(a))
    if a.dtype != object:
        return a
    flat = [q for q in a.reshape(-1)]
    isb = all(isinstance(q, (SBool, bool, np.bool_)) for q in flat)
    vals = ENG.concretise([bterm(q) if isb else term(q) for q in flat])
    r = np.array([bool(v) if isb else int(v) for v in vals]).reshape(a.shape)
    return r.astype(bool) if isb else r.astype(int)


def f_array_equal(a, b, **k):
    a, b = _obj(a), _obj(b)
    if a.shape != b.shape:
        return False
    return SBool(z3.And([term(x) == term(y) for x, y in zip(a.reshape(-1), b.reshape(-1))] or [z3.BoolVal(True)]))


def f_count_nonzero(a, axis=None, **k):
    b = np.empty(_obj(a).shape, dtype=object)
    for i in np.ndindex(b.shape):
        b[i] = SReal(z3.If(bterm(_obj(a)[i]), z3.RealVal(1), z3.RealVal(0)))
    return b.view(SArr).sum(axis=axis)


AF = dict(linspace=f_linspace, isclose=f_isclose, interp=f_interp, where=f_where, nonzero=f_nonzero,
          flatnonzero=lambda a: np.flatnonzero(mask(a).reshape(-1)), argwhere=lambda a: np.argwhere(mask(a)),
          count_nonzero=f_count_nonzero, array_equal=f_array_equal,
          allclose=lambda a, b, **k: _wrap(np.asarray(f_isclose(a, b, **k))).all() if np.ndim(a) or np.ndim(b) else f_isclose(a, b, **k),
          amin=lambda a, axis=None, **k: _sa(a).min(axis=axis), amax=lambda a, axis=None, **k: _sa(a).max(axis=axis))
AF["min"], AF["max"] = AF["amin"], AF["amax"]


def _afunc(func, types, args, kwargs):
    n = func.__name__
    if n in AF and any(hassym(a) for a in list(args) + list(kwargs.values())):
        return AF[n](*args, **kwargs)
    if hasattr(func, "_implementation"):
        return func._implementation(*args, **kwargs)
    raise Unsupported(f"numpy function {n}")


class SArr(np.ndarray):
    __array_priority__ = 100

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return _ufunc(ufunc, method, inputs, kw)

    def __array_function__(self, func, types, args, kwargs):
        n = func.__name__
        if n in AF and any(hassym(a) for a in list(args) + list(kwargs.values())):
            return AF[n](*args, **kwargs)
        return super().__array_function__(func, tuple(SArr if issubclass(t, Sym) else t for t in types), args, kwargs)

    def __getitem__(self, idx):
        def fix(q):
            if isinstance(q, SReal):
                return q.__index__()
            if isinstance(q, (np.ndarray, list)) and hassym(q):
                return mask(np.asarray(q))
            return _base(q)
        idx = tuple(fix(q) for q in idx) if isinstance(idx, tuple) else fix(idx)
        r = super().__getitem__(idx)
        return r

    def astype(self, dtype, *a, **k):
        if hassym(self):
            d = np.dtype(dtype)
            if d.kind == "b" or d.kind in "iu":
                return mask(self).astype(d).view(SArr)
            if d.kind == "f":
                return self.copy()
        return super().astype(dtype, *a, **k)

    def __bool__(self):
        if self.size == 1 and hassym(self):
            return bool(self.reshape(-1)[0])
        return super().__bool__()


class NP:
    """numpy as seen by the module under test: array constructors accept symbolic entries"""

    def __init__(self, real=np):
        self.__dict__["_np"] = real

    def __getattr__(self, n):
        return getattr(self._np, n)

    def array(self, x, dtype=None, **k):
        if isinstance(x, (list, tuple)) or isinstance(x, np.ndarray):
            if self._deep(x) and (dtype is None or np.dtype(dtype).kind == "f"):
                return np.array(x, dtype=object).view(SArr)
        if isinstance(x, Sym):
            return x
        if hasattr(x, "__fake_array__"):
            return x[...]
        return np.array(x, dtype=dtype, **k).view(SArr)

    def asarray(self, x, dtype=None, **k):
        return x if isinstance(x, SArr) and dtype is None else self.array(x, dtype=dtype)

    asanyarray = ascontiguousarray = asarray

    def atleast_1d(self, x):
        return self.array([x]) if isinstance(x, Sym) else np.atleast_1d(x)

    def float64(self, x=0.0):
        return x if isinstance(x, Sym) else np.float64(x)

    def _seq(n):
        def g(self, x, *a, **k):
            if isinstance(x, (list, tuple)) and self._deep(x):
                x = self.array(x)
            return getattr(np, n)(x, *a, **k)
        return g
    for _n in ("min", "max", "amin", "amax", "sum", "mean", "sort", "argsort", "isclose", "allclose", "log10", "diff", "cumsum", "interp"):
        locals()[_n] = _seq(_n)
    del _n

    def empty(self, shape, dtype=None, **k):
        if dtype is None or np.dtype(dtype).kind == "f":
            a = np.empty(shape, dtype=object)
            a[...] = 0.0
            return a.view(SArr)
        return np.empty(shape, dtype=dtype).view(SArr)

    def zeros(self, shape, dtype=None, **k):
        return self.empty(shape, dtype) if dtype is None or np.dtype(dtype).kind == "f" else np.zeros(shape, dtype=dtype).view(SArr)

    def empty_like(self, a, dtype=None, **k):
        return self.empty(np.shape(a), dtype)

    zeros_like = empty_like

    def full(self, shape, v, dtype=None, **k):
        a = np.empty(shape, dtype=object)
        a[...] = v
        return a.view(SArr)

    @staticmethod
    def _deep(x):
        if isinstance(x, Sym):
            return True
        if isinstance(x, np.ndarray):
            return x.dtype == object
        if isinstance(x, (list, tuple)):
            return any(NP._deep(q) for q in x)
        return False


def sym_float(x=0.0):
    return x if isinstance(x, SReal) else builtins.float(x)


class SymStr(Sym):
    """a string of known length whose characters are str or z3 code points"""

    def __init__(self, ch):
        self.ch = list(ch)

    def __repr__(self):
        return "".join(c if isinstance(c, str) else "?" for c in self.ch)

    @staticmethod
    def mk(ch):
        return "".join(ch) if all(isinstance(c, str) for c in ch) else SymStr(ch)

    @staticmethod
    def _is(c, x):
        return c == x if isinstance(c, str) else ENG.fork(c == ord(x))

    def __len__(self):
        return len(self.ch)

    def __iter__(self):
        return iter(SymStr.mk([c]) for c in self.ch)

    def __getitem__(self, i):
        r = self.ch[i]
        return SymStr.mk(r if isinstance(i, slice) else [r])

    def __add__(self, o):
        return SymStr.mk(self.ch + list(o.ch if isinstance(o, SymStr) else o))

    def __radd__(self, o):
        return SymStr.mk(list(o) + self.ch)

    def replace(self, a, b, *n):
        if n or len(a) != 1:
            raise Unsupported("str.replace of a longer string")
        r = []
        for c in self.ch:
            r += list(b) if self._is(c, a) else [c]
        return SymStr.mk(r)

    def translate(self, table):
        r = []
        for c in self.ch:
            for k, v in table.items():
                if self._is(c, chr(k)):
                    r += [] if v is None else [chr(v)] if isinstance(v, int) else list(v)
                    break
            else:
                r.append(c)
        return SymStr.mk(r)

    def strip(self, chars=None):
        return self.lstrip(chars).rstrip(chars) if isinstance(self.lstrip(chars), SymStr) else self.lstrip(chars).rstrip(chars)

    def lstrip(self, chars=None):
        ch = list(self.ch)
        while ch and any(self._is(ch[0], w) for w in (chars or " \t\n\r\x0b\x0c")):
            ch.pop(0)
        return SymStr.mk(ch)

    def rstrip(self, chars=None):
        ch = list(self.ch)
        while ch and any(self._is(ch[-1], w) for w in (chars or " \t\n\r\x0b\x0c")):
            ch.pop()
        return SymStr.mk(ch)

    def split(self, sep=None, maxsplit=-1):
        r, cur = [], []
        for c in self.ch:
            hit = self._is(c, sep) if sep is not None else any(self._is(c, w) for w in " \t\n\r")
            if hit and (maxsplit < 0 or len(r) < maxsplit):
                if sep is not None or cur:
                    r.append(cur)
                cur = []
            else:
                cur.append(c)
        if sep is not None or cur:
            r.append(cur)
        return [SymStr.mk(x) for x in r]

    def partition(self, sep):
        for i, c in enumerate(self.ch):
            if self._is(c, sep):
                return SymStr.mk(self.ch[:i]), sep, SymStr.mk(self.ch[i + 1:])
        return SymStr.mk(self.ch), "", ""

    def eqterm(self, o):
        oc = o.ch if isinstance(o, SymStr) else list(o)
        if len(oc) != len(self.ch):
            return False
        k = [z3.IntVal(ord(c)) if isinstance(c, str) else c for c in self.ch]
        q = [z3.IntVal(ord(c)) if isinstance(c, str) else c for c in oc]
        return SBool(z3.And([a == b for a, b in zip(k, q)]))

    def __eq__(self, o):
        return self.eqterm(o) if isinstance(o, (str, SymStr)) else False

    def __ne__(self, o):
        r = self == o
        return ~r if isinstance(r, SBool) else not r

    __hash__ = Sym.__hash__


# ----------------------------------------------------------------- h5py stand-in
class FakeDataset:
    __fake_array__ = True

    def __init__(self, a):
        self.a = a

    @property
    def shape(self):
        return np.shape(self.a)

    @property
    def dtype(self):
        return np.asarray(self.a).dtype

    size = property(lambda s: int(np.prod(s.shape)))
    ndim = property(lambda s: len(s.shape))

    def __len__(self):
        return self.shape[0]

    def __iter__(self):
        return iter(self.a)

    def __getitem__(self, i):
        if isinstance(i, tuple) and i == ():
            i = Ellipsis
        r = self.a[i]
        return r.copy() if isinstance(r, np.ndarray) else r

    def __array__(self, dtype=None, copy=None):
        return np.array(self.a, dtype=dtype)


def _h5_value(x):
    """what h5py would store"""
    if isinstance(x, FakeDataset):
        x = x.a
    if isinstance(x, np.ndarray):
        if x.dtype.kind == "U":
            raise TypeError("No conversion path for dtype: " + str(x.dtype))
        return x.copy()
    if x is None:
        raise TypeError("Object dtype dtype('O') has no native HDF5 equivalent")
    if isinstance(x, (list, tuple)):
        a = NP().array(list(x))
        return _h5_value(np.asarray(a) if a.dtype.kind == "U" else a)
    return np.asarray(x)


class FakeFile:
    def __init__(self, store, fn, mode="r"):
        fn = os.path.abspath(str(fn))
        if mode in ("w", "w-", "x"):
            store[fn] = OrderedDict()
            open(fn, "w").close()
        elif mode == "a" and fn not in store:
            store[fn] = OrderedDict()
            open(fn, "w").close()
        if fn not in store:
            raise (OSError if os.path.exists(fn) else FileNotFoundError)(f"Unable to open file {fn}")
        self.d, self.mode = store[fn], mode

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False

    def close(self):
        pass

    def __getitem__(self, k):
        if k not in self.d:
            raise KeyError(f"Unable to open object (object '{k}' doesn't exist)")
        return FakeDataset(self.d[k])

    def get(self, k, default=None):
        return self[k] if k in self.d else default

    def __setitem__(self, k, v):
        if self.mode == "r":
            raise OSError("read-only")
        if k in self.d:
            raise OSError("name already exists")
        self.d[k] = _h5_value(v)

    def create_dataset(self, name, shape=None, dtype=None, data=None, **k):
        if dtype is not None and data is not None and np.dtype(dtype).kind in "SO" and not NP._deep(data):
            data = np.array(data, dtype="S")
        self[name] = data
        return self[name]

    def __contains__(self, k):
        return k in self.d

    def keys(self):
        return self.d.keys()

    def items(self):
        return [(k, self[k]) for k in self.d]

    def __iter__(self):
        return iter(self.d)

    def __len__(self):
        return len(self.d)


# ----------------------------------------------------------------- engine
class Engine:
    """one symbolic exploration"""
    sym = True

    def __init__(self, log=lambda *a: None, max_paths=4000, deadline=None):
        self.vars = OrderedDict()
        self.bounds, self.ivl = {}, {}
        self.solver = z3.Solver()
        self.solver.set("timeout", 10000)
        self.max_paths, self.deadline = max_paths, deadline
        self.queries = self.side = 0
        self.solver_s = 0.0
        self.prefix = []
        self.npaths = 0
        self.log = log

    # -- queries
    def check(self, *extra, side=True, timeout=10000):
        t = time.time()
        self.solver.set("timeout", timeout)
        r = self.solver.check(*extra)
        self.solver_s += time.time() - t
        if side:
            self.side += 1
        else:
            self.queries += 1
        return r

    # -- inputs (declared by the body; same names on every path)
    def _var(self, name, mk):
        if name not in self.vars:
            self.vars[name] = mk(name)
        self.used.add(name)
        return self.vars[name]

    def real(self, name, lo=None, hi=None):
        v = self._var(name, z3.Real)
        self.bounds[name] = (None if lo is None else Fraction(float(lo)), None if hi is None else Fraction(float(hi)))
        if lo is not None:
            self.add(v >= _q(lo))
        if hi is not None:
            self.add(v <= _q(hi))
        return SReal(v)

    def reals(self, name, shape, lo=None, hi=None):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        a = np.empty(shape, dtype=object)
        for i in np.ndindex(shape):
            a[i] = self.real(f"{name}{list(i)}", lo, hi)
        return a.view(SArr)

    def increasing(self, name, n, lo=None, hi=None, gap=None):
        a = self.reals(name, n, lo, hi)
        for x, y in zip(a, a[1:]):
            self.assume(y - x >= gap if gap else y > x)
        return a

    def boolean(self, name):
        return SBool(self._var(name, z3.Bool))

    def choice(self, name, n):
        """an integer in 0..n-1, one path per value"""
        v = self._var(name, z3.Int)
        self.add(v >= 0)
        self.add(v < n)
        for k in range(n - 1):
            if self.fork(v == k):
                return k
        return n - 1

    def array(self, x):
        return np.array(x, dtype=float).view(SArr)

    def string(self, name, n, lo=32, hi=126, without=""):
        """a string of n characters with code points in [lo, hi]"""
        ch = []
        for i in range(n):
            v = self._var(f"{name}[{i}]", z3.Int)
            self.add(v >= lo)
            self.add(v <= hi)
            for w in without:
                self.add(v != ord(w))
            ch.append(v)
        return SymStr.mk(ch)

    def add(self, c):
        self.solver.add(c)
        self.pc.append(c)

    def assume(self, c):
        if isinstance(c, np.ndarray):
            for q in np.asarray(c).reshape(-1):
                self.assume(q)
            return
        if not isinstance(c, Sym):
            if not c:
                raise Infeasible
            return
        self.add(bterm(c))

    def division(self, b):
        pass

    def require(self, name, c):
        self.required.append((name, c))

    # -- branching
    def fork(self, cond):
        cond = z3.simplify(cond)
        if z3.is_true(cond):
            return True
        if z3.is_false(cond):
            return False
        if self.pos < len(self.prefix):
            ch = self.prefix[self.pos][0]
        else:
            t = self.check(cond)
            f = self.check(z3.Not(cond)) if t != z3.unsat else z3.sat
            if t == z3.unsat and f == z3.sat and self.check() == z3.unsat:
                raise Infeasible
            ch = t != z3.unsat
            self.prefix.append([ch, ch and f != z3.unsat, None])
        self.pos += 1
        self.add(cond if ch else z3.Not(cond))
        return ch

    def concretise(self, terms):
        while True:
            if self.pos < len(self.prefix):
                vals = self.prefix[self.pos][2]
            else:
                if self.check() != z3.sat:
                    raise Infeasible
                m = self.solver.model()
                vals = []
                for t in terms:
                    v = m.eval(t, model_completion=True)
                    vals.append(z3.is_true(v) if z3.is_bool(v) else Fraction(v.numerator_as_long(), v.denominator_as_long()))
            conds = [(t if v else z3.Not(t)) if isinstance(v, bool) else t == z3.RealVal(f"{v.numerator}/{v.denominator}")
                     for t, v in zip(terms, vals)]
            c = z3.And(conds) if conds else z3.BoolVal(True)
            if self.pos < len(self.prefix):
                ch = self.prefix[self.pos][0]
            else:
                f = self.check(z3.Not(c))
                ch = True
                self.prefix.append([True, f != z3.unsat, vals])
            self.pos += 1
            self.add(c if ch else z3.Not(c))
            if ch:
                return [v if isinstance(v, bool) else int(v) if v.denominator == 1 else v for v in vals]

    # -- exploration
    def explore(self, body):
        """yield (goals, tag) once per path; the solver holds the path condition meanwhile"""
        global ENG
        self.prefix = []
        while True:
            self.pos, self.pc, self.used, self.required = 0, [], set(), []
            self.solver.push()
            old, ENG = ENG, self
            try:
                try:
                    r = body(self)
                    ok = True
                except Infeasible:
                    ok = False
                if ok and self.check() != z3.unsat:
                    self.npaths += 1
                    yield r
            finally:
                ENG = old
                self.solver.pop()
            while self.prefix and not self.prefix[-1][1]:
                self.prefix.pop()
            if not self.prefix:
                return
            self.prefix[-1][:2] = [not self.prefix[-1][0], False]
            if self.npaths >= self.max_paths or (self.deadline and time.time() > self.deadline):
                raise TooManyPaths(f"{self.npaths} paths explored")

    def model_inputs(self, m):
        d = {}
        for n, v in self.vars.items():
            x = m.eval(v, model_completion=True)
            if z3.is_bool(x):
                d[n] = z3.is_true(x)
            elif z3.is_algebraic_value(x):
                x = x.approx(20)
                d[n] = float(Fraction(x.numerator_as_long(), x.denominator_as_long()))
            elif z3.is_int_value(x):
                d[n] = x.as_long()
            else:
                d[n] = float(Fraction(x.numerator_as_long(), x.denominator_as_long()))
        return d

    # -- goals
    def eq(self, a, b, tol=0):
        """equal shape and equal entries"""
        if np.shape(a) != np.shape(b):
            return False
        a, b = _obj(a), _obj(b)
        cs = []
        for x, y in zip(a.reshape(-1), b.reshape(-1)):
            if not issym(x) and not issym(y):
                if isinstance(x, (str, bytes)) or isinstance(y, (str, bytes)):
                    if type(x) is not type(y) or x != y:
                        return False
                    continue
                if x == y:
                    continue
            cs.append(z3.simplify(term(x) == term(y)))
        return SBool(z3.And(cs)) if cs else True

    def le(self, a, b):
        x, y = np.broadcast_arrays(_obj(a), _obj(b))
        return SBool(z3.And([term(p) <= term(q) for p, q in zip(x.reshape(-1), y.reshape(-1))] or [z3.BoolVal(True)]))

    def implies(self, a, b):
        return SBool(z3.Implies(bterm(a), bterm(b)))

    def neg(self, a):
        return SBool(z3.Not(bterm(a)))

    def all(self, cs):
        if any(not issym(c) and not np.all(c) for c in cs):
            return False
        return SBool(z3.And([bterm(c) for c in cs] or [z3.BoolVal(True)]))

    # -- environment of the code under test
    @contextlib.contextmanager
    def module(self, *mods, **names):
        """numpy, float (and anything in names) as seen by these modules become symbolic stand-ins"""
        saved = []
        for m in mods:
            for k, v in list(vars(m).items()):
                if v is np:
                    saved.append((m, k, v))
                    setattr(m, k, NP())
            for k, v in dict(dict(float=sym_float), **names).items():
                saved.append((m, k, vars(m).get(k, saved)))
                setattr(m, k, v)
        try:
            yield
        finally:
            for m, k, v in reversed(saved):
                if v is saved:
                    delattr(m, k)
                else:
                    setattr(m, k, v)

    @contextlib.contextmanager
    def scratch(self):
        d = tempfile.mkdtemp(prefix="symx-")
        self.h5store = {}
        try:
            yield d
        finally:
            shutil.rmtree(d, ignore_errors=True)

    @contextlib.contextmanager
    def h5(self):
        import h5py
        old = h5py.File
        store = self.h5store
        h5py.File = lambda fn, mode="r", *a, **k: FakeFile(store, fn, mode)
        try:
            yield
        finally:
            h5py.File = old

    def write_h5(self, path, data):
        open(path, "w").close()
        self.h5store[os.path.abspath(path)] = OrderedDict((k, _h5_value(v)) for k, v in data.items())


class Concrete:
    """the same body on concrete inputs: the real numpy, h5py and files"""
    sym = False

    def __init__(self, vals):
        self.vals = vals
        self.ok = True

    def real(self, name, lo=None, hi=None):
        v = float(self.vals.get(name, lo if lo is not None else 0.0))
        if (lo is not None and v < lo) or (hi is not None and v > hi):
            self.ok = False
        return v

    def reals(self, name, shape, lo=None, hi=None):
        shape = (shape,) if isinstance(shape, int) else tuple(shape)
        a = np.empty(shape)
        for i in np.ndindex(shape):
            a[i] = self.real(f"{name}{list(i)}", lo, hi)
        return a

    def increasing(self, name, n, lo=None, hi=None, gap=None):
        a = self.reals(name, n, lo, hi)
        self.assume(np.diff(a) > 0)
        return a

    def boolean(self, name):
        return bool(self.vals.get(name, False))

    def choice(self, name, n):
        return int(self.vals.get(name, 0))

    def string(self, name, n, lo=32, hi=126, without=""):
        return "".join(chr(int(self.vals.get(f"{name}[{i}]", lo))) for i in range(n))

    def array(self, x):
        return np.array(x, dtype=float)

    def assume(self, c):
        if not np.all(c):
            self.ok = False

    def require(self, name, c):
        pass

    def eq(self, a, b, tol=1e-9):
        if np.shape(a) != np.shape(b):
            return False
        a, b = np.asarray(a), np.asarray(b)
        if a.dtype.kind in "US" or b.dtype.kind in "US":
            return bool(np.all(a == b))
        return bool(np.all(np.abs(a - b) <= tol * np.maximum(np.abs(a), np.abs(b)) + 1e-300))

    def le(self, a, b):
        a, b = np.broadcast_arrays(np.asarray(a, float), np.asarray(b, float))
        return bool(np.all(a <= b + 1e-9 * np.maximum(np.abs(a), np.abs(b))))

    def implies(self, a, b):
        return not a or bool(b)

    def neg(self, a):
        return not a

    def all(self, cs):
        return all(bool(np.all(c)) for c in cs)

    @contextlib.contextmanager
    def module(self, *mods, **names):
        saved = []
        for m in mods:
            for k, v in names.items():
                saved.append((m, k, vars(m).get(k, saved)))
                setattr(m, k, v)
        try:
            yield
        finally:
            for m, k, v in reversed(saved):
                if v is saved:
                    delattr(m, k)
                else:
                    setattr(m, k, v)

    scratch = Engine.scratch

    @contextlib.contextmanager
    def h5(self):
        yield

    def write_h5(self, path, data):
        import h5py
        with h5py.File(path, "w") as f:
            for k, v in data.items():
                f[k] = v


def outcome(f, *a, **k):
    """-> ('return', value) or ('raise', exception)"""
    try:
        return "return", f(*a, **k)
    except Exception as e:
        return "raise", e


def _mark(fs):
    def prof(frame, event, arg):
        if event == "call":
            fn = frame.f_code.co_filename
            if fn.startswith(REPO + "/"):
                fs.add(fn[len(REPO) + 1:] + ":" + frame.f_code.co_qualname)
    return prof


class PH:
    """one harness: body(E) runs the real code and returns {goal name: condition}"""

    def __init__(self, name, body, note="", outside="", max_paths=4000, cost=1, wall=200, bounds=""):
        self.name, self.body, self.note, self.outside = name, body, note, outside
        self.max_paths, self.cost, self.wall, self.bounds = max_paths, cost, wall, bounds

    def concrete(self, vals):
        """-> list of failing goals on the real code, or None when the assumptions fail"""
        c = Concrete(vals)
        try:
            g = self.body(c)
        except Infeasible:
            return None
        if not c.ok:
            return None
        return [n for n, v in g.items() if not np.all(v)]

    def replay(self, r):
        return self.concrete(r["inputs"])

    def run_custom(self, prop, seed, tier, verbose):
        t0 = time.time()
        res = dict(harness=self.name, prop=prop, note=self.note, outside=self.outside,
                   inputs=self.bounds, obligations=0, discharged=0, by_normal_form=0, inconclusive=[],
                   violations=[], errors=[], functions=[], queries=0, solver_s=0.0, paths=0)
        log = (lambda *a: print("   ", *a, file=sys.stderr, flush=True)) if verbose else (lambda *a: None)
        eng = Engine(log, self.max_paths, t0 + self.wall)
        fs = set()

        def body(e):
            if e.npaths < 400:
                sys.setprofile(_mark(fs))
            try:
                g = self.body(e)
            finally:
                sys.setprofile(None)
            return g
        nval, failed = 0, set()
        try:
            for goals in eng.explore(body):
                goals = dict(goals)
                for n, c in eng.required:
                    goals.setdefault(n, SBool(c))
                for n, g in goals.items():
                    res["obligations"] += 1
                    if isinstance(g, np.ndarray):
                        g = SBool(z3.And([bterm(q) for q in _base(g).reshape(-1)] or [z3.BoolVal(True)]))
                    if not issym(g):
                        if g:
                            res["discharged"] += 1
                            res["by_normal_form"] += 1
                            continue
                        g = SBool(z3.BoolVal(False))
                    r = eng.check(z3.Not(g.t), side=False)
                    log(f"path {eng.npaths} {n}: {r}")
                    if r == z3.unsat:
                        res["discharged"] += 1
                        continue
                    if n in failed:
                        continue
                    if r == z3.sat:
                        vals = eng.model_inputs(eng.solver.model())
                        bad = self._try(vals, log)
                        if bad:
                            failed.add(n)
                            b = n if n in bad else bad[0]
                            res["violations"].append(dict(goal=b, index=[], inputs=vals,
                                                          what=f"{b} fails on the real code at {_brief(vals)}"))
                            log("VIOLATION", b, vals)
                            continue
                    res["inconclusive"].append([n, [], 1, f"path {eng.npaths}: {r}" + ("; the counterexample does not fail on the real code" if r == z3.sat else "")])
                if nval < 12:
                    # cross-check of the encoding: the real code on an input following this path
                    if eng.check() == z3.sat:
                        vals = eng.model_inputs(eng.solver.model())
                        bad = self._try(vals, log)
                        if bad and not (set(bad) & failed) and not res["inconclusive"]:
                            res["inconclusive"].append([bad[0], [], 1, f"concrete run on a path model disagrees with the encoding: {_brief(vals)}"])
                        nval += bad is not None
                        res.setdefault("witness", vals)
                if len(failed) >= 3:
                    break
            if not eng.npaths:
                res["errors"].append("vacuous: no feasible path")
        except (TooManyPaths, Unsupported) as e:
            res["errors"].append(f"{type(e).__name__}: {e}")
        except Exception as e:
            res["errors"].append(f"{type(e).__name__}: {e}")
            res["traceback"] = traceback.format_exc()
            log(res["traceback"])
        res["paths"] = eng.npaths
        res["functions"] = sorted(fs)
        res["queries"], res["side_queries"] = eng.queries, eng.side
        res["translation_checks"] = nval
        res["solver_s"] = round(eng.solver_s, 3)
        res["wall_s"] = round(time.time() - t0, 3)
        return res

    def _try(self, vals, log):
        try:
            return self.concrete(vals)
        except Exception as e:
            log("replay raises", type(e).__name__, e)
            return None


def _brief(v):
    s = json.dumps(v)
    return s if len(s) < 300 else s[:300] + "..."
