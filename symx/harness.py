"""Harnesses: JAX-traceable property statements over the real functions.

fn(*inputs) returns an Out(assume, goal, obs):
  assume : dict name -> bool array   (preconditions)
  goal   : dict name -> bool array   (must hold whenever the preconditions do)
  obs    : dict name -> float array  (outputs that must be finite; also used to validate
                                      the translation against the real code)
The same fn is (a) traced to a jaxpr, executed symbolically and decided by the solver,
and (b) executed in float64 to replay any counterexample.
"""
import contextlib
import copy
import re
from collections import OrderedDict
import json
import os
import sys
import time
import traceback
from fractions import Fraction

import numpy as np
import jax
import jax.numpy as jnp

from . import core as C
from . import jx, smt
from .cut import cut  # noqa: F401
from .core import b_not, b_and, b_or
from .smt import z3


class Out(dict):
    pass


def out(assume=None, goal=None, obs=None, free=None):
    """obs: finite outputs.  free: outputs only used for translation validation."""
    return OrderedDict((k, OrderedDict(v or {})) for k, v in
                       (("assume", assume), ("goal", goal), ("obs", obs), ("free", free)))


# --------------------------------------------------------------------------- inputs
class Inp:
    dtype = np.float64


class Box(Inp):
    """independent reals in [lo, hi] (lo/hi may be arrays)"""

    def __init__(self, lo, hi, shape=(), sample=None):
        self.lo = np.broadcast_to(np.asarray(lo, float), shape)
        self.hi = np.broadcast_to(np.asarray(hi, float), shape)
        self.shape = tuple(shape)
        self.smp = sample

    def build(self, ctx, name):
        v = np.empty(self.shape, dtype=object)
        self.atoms = np.empty(self.shape, dtype=object)
        for i in np.ndindex(self.shape):
            nm = name + ("" if not i else "[" + ",".join(map(str, i)) + "]")
            a = mkvar(ctx, nm, self.lo[i], self.hi[i])
            self.atoms[i] = a
            v[i] = C.atom_poly(a)
        return jx.SA(v, np.float64), []

    def sample(self, rng):
        if self.smp == "log":
            x = np.exp(rng.uniform(np.log(self.lo), np.log(self.hi)))
        else:
            x = rng.uniform(self.lo, self.hi)
        x = np.asarray(x, float).reshape(self.shape)
        return x, {self.atoms[i].id: Fraction(float(x[i])) for i in np.ndindex(self.shape)}

    def edge(self, rng):
        """like sample, with entries drawn towards either end of the interval on a log scale"""
        x = rng.uniform(self.lo, self.hi)
        w = (self.hi - self.lo) * 10.0 ** -rng.uniform(0, 6, self.shape)
        k = rng.integers(0, 4, self.shape) if rng.integers(2) else np.full(self.shape, rng.integers(0, 4))
        x = np.where(k == 0, self.lo + w, np.where(k == 1, self.hi - w, x))
        x = np.clip(np.asarray(x, float), self.lo, self.hi).reshape(self.shape)
        return x, {self.atoms[i].id: Fraction(float(x[i])) for i in np.ndindex(self.shape)}

    def decode(self, val):
        x = np.zeros(self.shape)
        for i in np.ndindex(self.shape):
            x[i] = float(val(self.atoms[i]))
        return x

    def describe(self):
        lo, hi = float(self.lo.min()), float(self.hi.max())
        return f"shape {self.shape} in [{lo:g},{hi:g}]"


class Grid(Inp):
    """strictly increasing array of n reals in [lo, hi], adjacent gaps in [glo, ghi];
    parametrised as first element + positive gaps"""

    def __init__(self, n, lo, hi, gap, start=None, ratio=None):
        self.n, self.lo, self.hi = n, float(lo), float(hi)
        self.glo, self.ghi = map(float, gap)
        self.start = (float(start[0]), float(start[1])) if start else (self.lo, self.hi - (n - 1) * self.glo)
        self.ratio = ratio
        self.shape = (n,)

    def build(self, ctx, name):
        v = np.empty(self.n, dtype=object)
        self.atoms = []
        a = mkvar(ctx, f"{name}[0]", *self.start)
        self.atoms.append(a)
        p = C.atom_poly(a)
        v[0] = p
        cons = []
        for k in range(1, self.n):
            g = mkvar(ctx, f"{name}.gap{k}", self.glo, self.ghi)
            self.atoms.append(g)
            p = C.p_add(p, C.atom_poly(g))
            v[k] = p
        cons.append(C.cmp0(C.p_sub(C.const(self.hi), p), ">="))
        if self.ratio:
            for g, h in zip(self.atoms[1:], self.atoms[2:]):
                for x, y in ((g, h), (h, g)):
                    cons.append(C.cmp0(C.p_sub(C.p_scale(C.atom_poly(x), C.frac(self.ratio)),
                                               C.atom_poly(y)), ">="))
        return jx.SA(v, np.float64), cons

    def sample(self, rng):
        for _ in range(200):
            s = rng.uniform(*self.start)
            g = rng.uniform(self.glo, min(self.ghi, max(self.glo * 1.001, 2 * (self.hi - s) / max(1, self.n - 1))), self.n - 1)
            if self.ratio:
                g = np.clip(g, g.mean() / np.sqrt(self.ratio), g.mean() * np.sqrt(self.ratio))
            if s + g.sum() <= self.hi:
                break
        else:
            s, g = self.start[0], np.full(self.n - 1, self.glo)
        vals = [Fraction(float(s))] + [Fraction(float(x)) for x in g]
        return self._arr(vals), {a.id: v for a, v in zip(self.atoms, vals)}

    def _arr(self, vals):
        x, acc = [], Fraction(0)
        for v in vals:
            acc += v
            x.append(float(acc))
        return np.array(x)

    def decode(self, val):
        return self._arr([val(a) for a in self.atoms])

    def describe(self):
        r = f", adjacent gap ratio <= {self.ratio}" if self.ratio else ""
        return f"increasing grid of {self.n} in [{self.lo:g},{self.hi:g}], gaps in [{self.glo:g},{self.ghi:g}]{r}"


def mkvar(ctx, name, lo, hi):
    lo, hi = float(lo), float(hi)
    a = ctx.atom("var", name, lo, hi, name)
    if not hasattr(ctx, "var_bounds"):
        ctx.var_bounds = {}
    ctx.var_bounds[a.id] = (C.frac(lo), C.frac(hi))
    return a


# --------------------------------------------------------------------------- harness
class H:
    def __init__(self, name, inputs, fn, note="", patches=None, timeout=20000, rounds=6,
                 batch=True, level0=True, outside="", valid_rtol=1e-6, samples=24, prune=True,
                 tactics=None, batch_timeout=6000, goal_budget=None, use_facts=False, undef_ok=False, opaque=False):
        # a Box may be used for several inputs; each gets its own variables
        self.name, self.inputs, self.fn, self.note = name, {k: copy.copy(i) for k, i in inputs.items()}, fn, note
        self.patches = patches or (lambda: contextlib.nullcontext())
        self.timeout, self.rounds, self.batch, self.level0 = timeout, rounds, batch, level0
        self.outside = outside
        self.valid_rtol = valid_rtol
        self.undef_ok = undef_ok
        self.opaque = opaque   # cut values stay free variables throughout (stronger goals)
        self.samples = samples
        self.prune = prune
        self.tactics = tactics
        self.batch_timeout, self.goal_budget, self.use_facts = batch_timeout, goal_budget, use_facts


def _interface(e):
    """a name or signature the harness relies on is not there (any more): nothing is decided"""
    tb, files = e.__traceback__, []
    while tb:
        files.append(tb.tb_frame.f_code.co_filename)
        tb = tb.tb_next
    if any("/dsps/" in f for f in files):
        return False
    return isinstance(e, (AttributeError, ImportError, NameError)) or (isinstance(e, TypeError) and re.search(r"argument|takes|unexpected", str(e)) is not None and "shapes" not in str(e))


def _flat_out(o):
    """Out pytree -> ordered dict (kind, name) -> array"""
    d = {}
    for kind in ("assume", "goal", "obs", "free"):
        for k in o[kind]:
            d[(kind, k)] = o[kind][k]
    return d


class Run:
    """symbolic execution + decision of one harness"""

    def __init__(self, h, prop, seed=1, tier="quick", verbose=False):
        self.h, self.prop, self.seed, self.tier, self.verbose = h, prop, seed, tier, verbose
        self.res = dict(harness=h.name, prop=prop, note=h.note, outside=h.outside,
                        inputs={k: v.describe() for k, v in h.inputs.items()},
                        obligations=0, discharged=0, by_normal_form=0, inconclusive=[],
                        violations=[], errors=[], functions=[], queries=0, solver_s=0.0)
        self.rng = np.random.default_rng(seed)

    def log(self, *a):
        if self.verbose:
            print("   ", *a, file=sys.stderr, flush=True)

    # ------------------------------------------------------------ concrete side
    def concrete_fn(self):
        if not hasattr(self, "_cf"):
            names = list(self.h.inputs)
            jf = jax.jit(lambda *a: self.h.fn(*a))

            def run(vals):
                o = jf(*[jnp.asarray(vals[k]) for k in names])
                return {k: np.asarray(v) for k, v in _flat_out(o).items()}
            self._cf = run
        return self._cf

    def concrete(self, vals):
        """-> (assumptions hold, list of failed goals, outputs)"""
        o = self.concrete_fn()(vals)
        ok = all(bool(np.all(v)) for (k, _), v in o.items() if k == "assume")
        bad = []
        for (k, n), v in o.items():
            if k == "goal":
                for i in np.argwhere(~np.atleast_1d(v)):
                    bad.append((n, tuple(int(q) for q in i) if v.ndim else ()))
            if k == "obs":
                for i in np.argwhere(~np.isfinite(np.atleast_1d(v))):
                    bad.append((n + " finite", tuple(int(q) for q in i) if v.ndim else ()))
        return ok, bad, o

    # ------------------------------------------------------------ main
    def run(self):
        t0 = self.t0 = time.time()
        try:
            self._run()
        except Exception as e:
            self.res["errors"].append(f"{type(e).__name__}: {e}")
            self.res["traceback"] = traceback.format_exc()
            self.fallback()
        self.res["wall_s"] = round(time.time() - t0, 3)
        self.res["queries"] = smt.STATS["queries"]
        self.res["side_queries"] = smt.STATS["side_queries"]
        self.res["lemma_queries"] = smt.STATS["lemma_queries"]
        self.res["solver_s"] = round(smt.STATS["solver_s"], 3)
        return self.res

    def _run(self):
        h = self.h
        ctx = self.ctx = C.new_ctx()
        for k in smt.STATS:
            smt.STATS[k] = 0
        self.cons = []
        sas = []
        for name, inp in h.inputs.items():
            sa, cons = inp.build(ctx, name)
            sas.append(sa)
            self.cons += cons
        if h.prune:
            ctx.prover = Prover(ctx, list(self.cons))
        zeros = [np.zeros(i.shape) for i in h.inputs.values()]
        try:
            with h.patches():
                closed, oshape = jax.make_jaxpr(lambda *a: h.fn(*a), return_shape=True)(*zeros)
        except Exception as e:
            jax.clear_caches()
            return self.raises(e)
        jax.clear_caches()   # concrete runs below must not reuse traces made under the patches
        tree0 = jax.tree_util.tree_structure(oshape)
        kinds = _flat_out(jax.tree_util.tree_unflatten(tree0, list(range(tree0.num_leaves))))
        aidx = [v for (k, n), v in kinds.items() if k == "assume"]
        if aidx and ctx.prover:
            for a in jx.Interp().run_some(closed, sas, aidx):
                ctx.prover.cons += [b for b in jx.to_sa(a).v.reshape(-1) if b is not True]
            ctx.prover.reset()
        interp = jx.Interp(opaque=h.opaque)
        outs = interp.run(closed, sas)
        self.res["functions"] = sorted(interp.functions)
        self.res["primitives"] = interp.neqn
        tree = jax.tree_util.tree_structure(oshape)
        o = jax.tree_util.tree_unflatten(tree, outs)
        flat = _flat_out(o)
        self.flat = {k: jx.to_sa(v) for k, v in flat.items()}
        self.flat_cut = None
        self.facts = []
        if interp.ncut and not h.opaque:
            outs2 = jx.Interp(opaque=True).run(closed, sas)
            flat2 = _flat_out(jax.tree_util.tree_unflatten(tree, outs2))
            self.flat_cut = {k: jx.to_sa(v) for k, v in flat2.items()}
        if getattr(ctx, "abstracted", None):
            self.res["abstracted_primitives"] = sorted(ctx.abstracted)
        self.assume = list(self.cons)
        for (k, n), sa in self.flat.items():
            if k == "assume":
                self.assume += list(sa.v.reshape(-1))
        self.log("encoded", len(ctx.atoms), "atoms", len(ctx.conds), "conds", "eqns", interp.neqn)
        self.witnesses()
        self.obligations()

    def fallback(self):
        """the encoding failed, so nothing can be discharged; concrete inputs on which the
        real code visibly breaks a goal are still reported"""
        try:
            for t in range(self.h.samples):
                vals = {k: i.sample(self.rng)[0] for k, i in self.h.inputs.items()}
                ok, bad, o = self.concrete(vals)
                if ok and bad:
                    self.violation(f"{bad[0][0]} fails at index {list(bad[0][1])} (encoding failed; concrete run)", vals, bad[0][0], bad[0][1])
                    return
        except Exception as e:
            self.log("fallback", e)

    def raises(self, e):
        """tracing failed: replay on concrete inputs"""
        for _ in range(5):
            vals = {k: i.sample(self.rng)[0] for k, i in self.h.inputs.items()}
            try:
                self.h.fn(*[jnp.asarray(v) for v in vals.values()])
            except Exception as e2:
                if _interface(e2):
                    raise
                self.violation(f"the code raises {type(e2).__name__}: {str(e2)[:200]}", vals, "exception", ())
                return
        raise e

    # ------------------------------------------------------------ witnesses
    def witnesses(self):
        h = self.h
        self.wit = []
        self.pool = []
        tried = 0
        want = 3
        for t in range(max(400, h.samples)):
            vals, asg = {}, {}
            for k, i in h.inputs.items():
                v, a = i.sample(self.rng)
                vals[k] = v
                asg.update(a)
            ok, bad, o = self.concrete(vals)
            tried += 1
            if ok:
                self.pool.append((vals, asg, bad, o))
                if len(self.wit) < want:
                    self.wit.append((vals, asg, o))
                if len(self.pool) >= h.samples:
                    break
        # further candidates for counterexamples (used only after a ground query confirms them)
        t0 = time.time()
        for t in range(2 * h.samples):
            vals, asg = {}, {}
            for k, i in h.inputs.items():
                v, a = (i.edge if hasattr(i, "edge") else i.sample)(self.rng)
                vals[k] = v
                asg.update(a)
            try:
                ok, bad, o = self.concrete(vals)
            except Exception:
                continue
            if ok and bad:
                self.pool.append((vals, asg, bad, None))
            if time.time() - t0 > 5:
                break
        if not self.wit:
            r = self.solve_sat([])
            if r is not None:
                vals, asg = r
                ok, bad, o = self.concrete(vals)
                if ok:
                    self.wit.append((vals, asg, o))
                    self.pool.append((vals, asg, bad, o))
        if not self.wit:
            raise C.SymError("vacuous: no input satisfying the assumptions was found")
        self.res["witness"] = {k: np.asarray(v).tolist() for k, v in self.wit[0][0].items()}
        # translator validation
        nchk = 0
        for vals, asg, o in self.wit:
            ev = C.Evaluator(self.ctx, {a: smt._mp(v) for a, v in asg.items()})
            for a in getattr(self.ctx, "fresh", []):
                ev = None
                break
            if ev is None or getattr(self.ctx, "abstracted", None):
                break
            for a in self.ctx.atoms:
                if a.kind == "var" and a.id not in ev.v:
                    ev.v[a.id] = smt.mpmath.mpf(0)
            for (k, n), sa in self.flat.items():
                if k not in ("obs", "free"):
                    continue
                cv = np.asarray(o[(k, n)])
                if cv.dtype.kind not in "fiu":
                    continue
                scale = np.max(np.abs(cv[np.isfinite(cv)])) if np.isfinite(cv).any() else 1.0
                for i in np.ndindex(sa.shape):
                    u = jx.und(sa, i)
                    ud = ev.bool(u) if not isinstance(u, bool) else u
                    if ud or not np.isfinite(cv[i]):
                        if bool(ud) != (not np.isfinite(cv[i])):
                            self.res.setdefault("undef_mismatch", []).append([n, list(i)])
                        continue
                    sv = float(ev.val(sa.v[i]))
                    nchk += 1
                    if not abs(sv - cv[i]) <= h.valid_rtol * (abs(cv[i]) + 1e-6 * scale) + 1e-12:
                        if any(a.kind == "var" and isinstance(a.data, tuple) and a.data[0] == "f32" for a in self.ctx.atoms):
                            continue
                        raise C.SymError(f"translator mismatch at {n}{list(i)}: encoding {sv!r} vs real code {cv[i]!r}")
        self.res["translation_checks"] = nchk

    # ------------------------------------------------------------ obligations
    def flush(self):
        """partial result, in case the wall limit ends this process"""
        if getattr(self, "out", "-") != "-":
            r = dict(self.res, partial=True, queries=smt.STATS["queries"], side_queries=smt.STATS["side_queries"],
                     lemma_queries=smt.STATS["lemma_queries"], solver_s=round(smt.STATS["solver_s"], 3))
            with open(self.out + ".tmp", "w") as f:
                json.dump(r, f)
            os.replace(self.out + ".tmp", self.out)

    def obligations(self):
        obs = []
        cutf = self.flat_cut or {}
        for (k, n), sa in self.flat.items():
            sc = cutf.get((k, n))
            if k == "goal":
                for i in np.ndindex(sa.shape):
                    # undef_ok: definedness is the subject of another harness
                    u = (lambda s: False) if self.h.undef_ok else (lambda s: jx.und(s, i))
                    bad = b_or(b_not(sa.v[i]), u(sa))
                    badc = None if sc is None else b_or(b_not(sc.v[i]), u(sc))
                    obs.append((n, i, bad, badc))
            elif k == "obs":
                for i in np.ndindex(sa.shape):
                    obs.append((n + " finite", i, jx.und(sa, i),
                                None if sc is None else jx.und(sc, i)))
        self.res["obligations"] = len(obs)
        self.assume_cut = None
        if self.flat_cut is not None:
            self.assume_cut = list(self.cons)
            for (k, n), sa in self.flat_cut.items():
                if k == "assume":
                    self.assume_cut += list(sa.v.reshape(-1))
        todo = {}
        for n, i, bad, badc in obs:
            todo.setdefault(n, []).append((i, bad, badc))
        self.failed_goals = set()
        seen_bad = {(b[0], tuple(b[1])) for p in self.pool if p[3] is not None and not self.h.undef_ok for b in p[2]}
        for n, items in todo.items():
            self.flush()
            groups = {}
            for i, bad, badc in items:
                if (bad is False or badc is False) and (n, tuple(i)) in seen_bad:
                    # the real code fails here on a concrete input: never count it as shown
                    self.res["inconclusive"].append([n, list(i), 1, "the encoding disagrees with a concrete run"])
                elif bad is False or badc is False:
                    self.res["discharged"] += 1
                    self.res["by_normal_form"] += 1
                    self.fact(badc)
                else:
                    groups.setdefault((bad, badc), []).append(i)
            if not groups:
                continue
            uniq = list(groups.items())
            if len(self.failed_goals) >= 4:
                self.res["inconclusive"].append([n, [], sum(len(v) for v in groups.values()), "not tried after 4 violations"])
                continue
            hit = {b[1] for p in self.pool for b in p[2] if b[0] == n}
            hit = [(k, i) for k, v in uniq for i in v if i in hit]
            if hit and self.pinned_search(n, hit[0][1], hit[0][0][0]):
                self.failed_goals.add(n)
                continue
            if len(uniq) > 1 and self.h.batch:
                if self.flat_cut is not None and self.quick(b_or(*[k[1] for k, _ in uniq]), "cut", n) \
                        or self.quick(b_or(*[k[0] for k, _ in uniq]), "raw", n):
                    for k, idx in uniq:
                        self.res["discharged"] += len(idx)
                        self.fact(k[1])
                    continue
            for (bad, badc), idx in uniq:
                self.flush()
                t = time.time()
                if time.time() - self.t0 > (self.h.goal_budget or (120 if self.tier == "quick" else 600)) / (4 if self.failed_goals else 1):
                    self.res["inconclusive"].append([n, list(idx[0]), len(idx), "time"])
                    continue
                r = self.decide(n, idx[0], bad, badc)
                self.log(n, idx[0], r, f"{time.time() - t:.2f}s")
                if r == "unsat":
                    self.res["discharged"] += len(idx)
                    self.fact(badc)
                elif r == "violation":
                    self.failed_goals.add(n)
                    break
                else:
                    self.res["inconclusive"].append([n, list(idx[0]), len(idx)])

    def fact(self, badc):
        """a discharged goal, stated over the cut values, may be used by later goals"""
        if badc is not None and badc is not False:
            self.facts.append(b_not(badc))

    def unfold(self, em):
        """equations defining a cut value by means of other cut values"""
        eqs = []
        for aid in list(em.zv):
            at = self.ctx.atoms[aid]
            if at.kind == "cut":
                e = at.data[2]
                if any(self.ctx.atoms[q].kind == "cut" for q in C.poly_deps(e)):
                    eqs.append(em.zv[aid] == em.poly(e))
        return eqs

    def direct_cuts(self, b):
        """cut values mentioned by a goal that are defined by other cut values"""
        s, r = set(), set()
        C._conds_of(b, s)
        for c in s:
            q = self.ctx.conds[c].q if isinstance(c, int) else None
            if isinstance(q, C.Poly):
                for a in q.atom_ids():
                    at = self.ctx.atoms[a]
                    if at.kind == "cut" and any(self.ctx.atoms[d].kind == "cut" for d in C.poly_deps(at.data[2])):
                        r.add(a)
        return r

    def zvars(self, b, unfold=False):
        if not hasattr(self, "_zv"):
            self._zv = {}
        r = self._zv.get((b, unfold))
        if r is None:
            em = smt.Emitter(self.ctx, level=0, lemmas=self.lemmas())
            r, todo, seen = set(), [em.bool(b)], set()
            if unfold:
                todo += self.unfold(em)
            while todo:
                e = todo.pop()
                if e.get_id() in seen:
                    continue
                seen.add(e.get_id())
                if e.num_args() == 0 and e.decl().kind() == z3.Z3_OP_UNINTERPRETED:
                    r.add(e.decl().name())
                todo += e.children()
            self._zv[b, unfold] = r
        return r

    def emit(self, bad, level, form="raw"):
        em = smt.Emitter(self.ctx, level=level, lemmas=self.lemmas())
        src = self.assume if form == "raw" else self.assume_cut + self.facts
        if form[:3] in ("nea", "def"):   # only the facts about the goal's own values
            gv = self.zvars(bad, form[:3] == "def")
            src = self.assume_cut + [f for f in self.facts if not isinstance(f, bool) and self.zvars(f) <= gv]
        if self.h.use_facts and form == "raw":
            src = src + self.facts
        zs = [em.bool(b) for b in src if b is not True]
        zs.append(em.bool(bad))
        if form[:3] == "def":
            zs += self.unfold(em)
        return em, zs

    def lemmas(self):
        if not hasattr(self, "_lem"):
            self._lem = (getattr(self.ctx.prover, "lem", None) if self.ctx.prover else None) or smt.Lemmas(self.ctx)
        return self._lem

    def quick(self, bad, form, n=""):
        em, zs = self.emit(bad, 0 if self.h.level0 else 1, form)
        ax = em.axioms()
        to = min(self.h.batch_timeout, self.h.timeout)
        if self.flat_cut is not None:
            to = min(to, 3000)
        for tac in ((None, "cvc5") if self.h.tactics is None else [t[0] for t in self.h.tactics[:1]]):
            r, m, dt = smt.check(em.cons + zs + ax, to / 2, tac)
            self.log("batch", n, form, r, f"{dt:.2f}s")
            if r == "unsat":
                return True
            if r == "sat":
                return False
        return False

    def decide(self, n, i, bad, badc=None):
        h = self.h
        if badc is not None and badc is not bad and badc is not True:
            done = {}
            env = {a: self.ctx.atoms[a].data[2] for a in self.direct_cuts(badc)}
            if env:
                b = C.subst_bool(badc, env)
                if b is False:
                    self.log("  ", n, i, "normal form after unfolding")
                    return "unsat"
                if not isinstance(b, bool) and b is not badc:
                    for form in ("near", "cut"):
                        em, zs = self.emit(b, 0, form)
                        r, m, dt = smt.check(em.cons + zs + em.axioms(), 1500)
                        self.log("  ", n, i, "unfolded", form, r, f"{dt:.2f}s")
                        if r == "unsat":
                            return "unsat"
            for tac, to, form in ((None, 1500, "near"), ("cvc5", 2000, "near"), (None, 2000, "cut"), (None, 1500, "def"), (None, 1500, "def1"), ("cvc5", 2000, "def1"), ("nlsat", 3000, "near"),
                                  ("nlsat", 3000, "def1"), ("cvc5", 3000, "cut"), ("nlsat", 3000, "cut")):
                if done.get(form):
                    continue
                em, zs = self.emit(badc, 0 if h.level0 and form != "def1" else 1, form)
                r, m, dt = smt.check(em.cons + zs + em.axioms(), min(to, h.timeout), tac)
                self.log("  ", n, i, form, tac, r, f"{dt:.2f}s", f"cons={len(zs)}")
                if r == "unsat":
                    return "unsat"
                done[form] = r == "sat"
        level = 0 if h.level0 else 1
        tang = []
        T = h.timeout
        for rnd in range(h.rounds):
            em, zs = self.emit(bad, level)
            ax = em.axioms(tang)
            base = em.cons + zs + ax
            got = None
            pf = h.tactics or ((None, T * 0.12), ("cvc5", T * 0.2), ("nlsat", T * 0.4), ("simpnl", T * 0.3),
                               (None, T * 0.3), (None, T * 0.5, 7), ("cvc5", T * 0.5))
            for p in pf:
                r, m, dt = smt.check(base, p[1], p[0], seed=p[2] if len(p) > 2 else 0)
                self.log("  ", n, i, "level", level, p[0], r, f"{dt:.2f}s", f"cons={len(base)}")
                if r == "unsat":
                    return "unsat"
                if r == "sat":
                    got = m
                    break
            if got is None:
                if level == 0 and em.abstracted:
                    level = 1
                    continue
                break
            asg = self.decode_model(em, got)
            vals = {k: inp.decode(lambda a: asg.get(a.id, self.mid(a))) for k, inp in h.inputs.items()}
            if self.replay(n, i, vals):
                return "violation"
            if self.jitter(n, i, asg):
                return "violation"
            if level == 0 and em.abstracted:
                level = 1
            # tangents at the true argument values of exp/log atoms
            ev = C.Evaluator(self.ctx, {a: smt._mp(v) for a, v in asg.items()})
            for a in self.ctx.atoms:
                if a.kind == "var" and a.id not in ev.v:
                    ev.v[a.id] = smt._mp(self.mid(a))
            added = 0
            for aid in list(em.zv):
                at = self.ctx.atoms[aid]
                if at.kind in ("exp", "log"):
                    for src in ("true", "model"):
                        try:
                            c = ev.poly(at.data) if src == "true" else smt._mp(smt.model_value(got, em.poly(at.data)))
                            c = Fraction(float(c)).limit_denominator(10 ** 6)
                        except Exception:
                            continue
                        if (aid, c) not in tang:
                            tang.append((aid, c))
                            added += 1
            if not added and not em.abstracted:
                break
        # last resort for finding a counterexample: concrete candidates, each confirmed
        # by a solver query with the inputs pinned
        if self.pinned_search(n, i, bad):
            return "violation"
        return "inconclusive"

    def mid(self, a):
        lo, hi = self.ctx.var_bounds.get(a.id, (Fraction(0), Fraction(0)))
        return (lo + hi) / 2

    def decode_model(self, em, m):
        asg = {}
        for aid, v in em.zv.items():
            at = self.ctx.atoms[aid]
            if at.kind == "var" and aid in self.ctx.var_bounds:
                asg[aid] = smt.model_value(m, v)
        return asg

    def replay(self, n, i, vals):
        try:
            ok, bad, o = self.concrete(vals)
        except Exception as e:
            self.violation(f"the code raises {type(e).__name__}: {str(e)[:200]}", vals, n, i)
            return True
        if ok and any(b[0] == n for b in bad):
            b = [b for b in bad if b[0] == n]
            self.violation(f"{n} fails at index {[x[1] for x in b][:4]}", vals, n, b[0][1])
            return True
        self.log("   spurious model", n, i, "assumptions", ok)
        return False

    def jitter(self, n, i, asg):
        """the model may violate float assumptions marginally or rely on an imprecise exp/log:
        try a few neighbouring points; each is replayed on the real code"""
        h = self.h
        ids = [a for inp in h.inputs.values() for a in np.ravel(np.array(inp.atoms, dtype=object))]
        for t in range(12):
            s = 10.0 ** -self.rng.uniform(1, 5)
            loc = {}
            for a in ids:
                lo, hi = self.ctx.var_bounds[a.id]
                v = asg.get(a.id, self.mid(a))
                v = v + Fraction(float(self.rng.normal() * s)) * (hi - lo)
                loc[a.id] = min(max(v, lo), hi)
            vals = {k: inp.decode(lambda a: loc[a.id]) for k, inp in h.inputs.items()}
            try:
                ok, bad, _ = self.concrete(vals)
            except Exception:
                continue
            if ok and any(b[0] == n for b in bad):
                return self.replay(n, i, vals)
        return False

    def pinned_search(self, n, i, bad):
        tries = 0
        for vals, asg, bads, o in self.pool:
            if any(b[0] == n and b[1] == tuple(i) for b in bads):
                if bad is True or self.ground_query(bad, asg) or (o is not None and tries < 3 and self.pinned_query(bad, asg)):
                    return self.replay(n, i, vals)
                tries += 1
        return False

    def evaluator(self, asg):
        ev = C.Evaluator(self.ctx, {a: smt._mp(v) for a, v in asg.items()})
        for a in self.ctx.atoms:
            if a.kind == "var" and a.id not in ev.v:
                ev.v[a.id] = smt.mpmath.mpf(0)
        return ev

    def ground_query(self, bad, asg):
        """the goal's negation with the inputs and every derived value (root, exponential, quotient, ...)
        at its high-precision value for these inputs"""
        t = time.time()
        try:
            em = smt.GroundEmitter(self.ctx, self.evaluator(asg), asg)
            r, m, dt = smt.check([em.bool(b) for b in self.assume if b is not True] + [em.bool(bad)], 8000)
        except Exception as e:
            r = f"failed {type(e).__name__} {e}"
        self.log("ground query", r, f"{time.time() - t:.2f}s")
        return r == "sat"

    def pinned_query(self, bad, asg):
        em, zs = self.emit(bad, 1)
        pins = [em.var(a) == smt.zq(v) for a, v in asg.items() if a in em.zv]
        ev = self.evaluator(asg)
        tight = []
        for aid, z in list(em.zv.items()):
            at = self.ctx.atoms[aid]
            if at.kind in ("exp", "log", "sqrt"):
                try:
                    x = ev.atom(aid)
                    w = abs(x) * smt.mpmath.mpf(10) ** -25 + smt.mpmath.mpf(10) ** -28
                    tight += [z >= smt.zq(C.mpf_frac(x - w)), z <= smt.zq(C.mpf_frac(x + w))]
                except Exception:
                    pass
        r, m, dt = smt.check(em.cons + zs + pins + tight, 8000)
        self.log("pinned query", r)
        return r == "sat"

    def solve_sat(self, extra):
        em = smt.Emitter(self.ctx, level=1, lemmas=self.lemmas())
        zs = [em.bool(b) for b in self.assume if b is not True] + [em.bool(b) for b in extra]
        r, m, dt = smt.check(em.cons + zs + em.axioms(), 10000)
        if r != "sat":
            return None
        asg = self.decode_model(em, m)
        for inp in self.h.inputs.values():
            for a in np.ravel(np.array(inp.atoms, dtype=object)):
                asg.setdefault(a.id, self.mid(a))
        vals = {k: inp.decode(lambda a: asg[a.id]) for k, inp in self.h.inputs.items()}
        return vals, asg

    def violation(self, what, vals, n, i):
        self.res["violations"].append(dict(goal=n, index=list(i), what=what,
                                           inputs={k: np.asarray(v).tolist() for k, v in vals.items()}))
        self.log("VIOLATION", what)
        self.flush()


class Prover:
    """entailment from the input constraints (used for pruning infeasible branches)"""

    def __init__(self, ctx, cons):
        self.ctx, self.cons = ctx, cons
        self.cache = {}
        self.busy = False
        self.lem = None
        self.budget = 4000
        self.spent = 0.0

    def reset(self):
        self.cache.clear()
        self.ctx.sign_cache.clear()

    def __call__(self, b):
        if isinstance(b, bool):
            return b
        r = self.cache.get(b)
        if r is not None:
            return r
        if self.busy or self.budget <= 0 or self.spent > 60:
            return False
        self.busy = True
        try:
            if self.lem is None:
                self.lem = smt.Lemmas(self.ctx)
            em = smt.Emitter(self.ctx, level=0, lemmas=self.lem)
            zs = [em.bool(c) for c in self.cons if c is not True] + [z3.Not(em.bool(b))]
            t = time.time()
            s = z3.Solver()
            s.set("timeout", 300)
            s.add(*(em.cons + zs + em.axioms()))
            r = s.check() == z3.unsat
            self.spent += time.time() - t
            smt.STATS["side_queries"] += 1
            smt.STATS["solver_s"] += time.time() - t
            self.budget -= 1
        finally:
            self.busy = False
        self.cache[b] = r
        return r
