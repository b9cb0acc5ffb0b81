"""Shapes of the real forward() as functions of symbolic sizes.

forward() runs on torch fake tensors whose sizes are symbolic (torch's own meta kernels compute output sizes); the branches taken are
the path condition.  Further paths are found by asking z3 for sizes outside the regions explored so far.  evaluate_output_shape() runs on
z3-backed integers (symx.scalar).
"""
import itertools
import signal
import time
import traceback

import sympy
import torch
from torch._subclasses.fake_tensor import FakeTensor, FakeTensorMode, unset_fake_temporarily
from torch.fx.experimental.symbolic_shapes import ShapeEnv, DimDynamic, StatelessSymbolicContext
from torch.utils._python_dispatch import TorchDispatchMode
from torch.utils._pytree import tree_any

from . import env, scalar, harness
from .scalar import z3

import logging
logging.getLogger("torch").setLevel(logging.CRITICAL)
logging.getLogger("torch.fx.experimental.symbolic_shapes").setLevel(logging.CRITICAL)
logging.getLogger("torch._subclasses.fake_tensor").setLevel(logging.CRITICAL)

FACT = ("empty", "zeros", "ones", "full", "arange", "rand", "randn", "scalar_tensor", "empty_strided", "linspace", "tensor", "eye", "new_")


class RealSide(TorchDispatchMode):
    """operators on real tensors only (index buffers, parameters) are executed for real"""

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        allargs = (args, kwargs)
        fake = tree_any(lambda x: isinstance(x, (FakeTensor, torch.SymInt, torch.SymFloat, torch.SymBool)), allargs)
        if not fake and tree_any(lambda x: isinstance(x, torch.Tensor), allargs):
            with unset_fake_temporarily():
                return func(*args, **kwargs)
        if func in (torch.ops.aten.is_nonzero.default, torch.ops.aten._local_scalar_dense.default, torch.ops.aten.item.default) and args[0].dtype == torch.bool:
            return False        # a branch on values (e.g. "any nan"): follow what the real run on zeros does; every path is compared with a real run
        return func(*args, **kwargs)


class NotEncodable(Exception):
    pass


def to_z3(e, env_):
    import torch.utils._sympy.functions as F
    def rec(x):
        if isinstance(x, sympy.Symbol):
            return env_[str(x)]
        if isinstance(x, sympy.Integer):
            return z3.IntVal(int(x))
        if isinstance(x, sympy.Rational):
            return z3.Q(int(x.p), int(x.q))
        if isinstance(x, (bool, sympy.logic.boolalg.BooleanTrue, sympy.logic.boolalg.BooleanFalse)):
            return z3.BoolVal(bool(x))
        n = type(x).__name__
        a = [rec(y) for y in x.args]
        if n == "Add":
            return sum(a[1:], a[0])
        if n == "Mul":
            r = a[0]
            for y in a[1:]:
                r = r * y
            return r
        if n == "Pow" and x.args[1].is_Integer and int(x.args[1]) >= 0:
            r = z3.IntVal(1)
            for _ in range(int(x.args[1])):
                r = r * a[0]
            return r
        if n in ("FloorDiv", "CleanDiv"):
            return scalar.lift(scalar._floordiv(a[0], a[1]))
        if n in ("Mod", "PythonMod"):
            return scalar.lift(scalar._mod(a[0], a[1]))
        if n == "Max":
            r = a[0]
            for y in a[1:]:
                r = z3.If(y > r, y, r)
            return r
        if n == "Min":
            r = a[0]
            for y in a[1:]:
                r = z3.If(y < r, y, r)
            return r
        if n == "IntTrueDiv" or n == "FloatTrueDiv":
            return scalar.real(a[0]) / scalar.real(a[1])
        if n in ("ToFloat",):
            return scalar.real(a[0])
        if n in ("FloorToInt", "floor"):
            return z3.ToInt(scalar.real(a[0]))
        if n in ("CeilToInt", "ceiling", "CeilDiv"):
            if n == "CeilDiv":
                return -scalar.lift(scalar._floordiv(-a[0], a[1]))
            return -z3.ToInt(-scalar.real(a[0]))
        if n in ("TruncToInt",):
            return z3.If(scalar.real(a[0]) >= 0, z3.ToInt(scalar.real(a[0])), -z3.ToInt(-scalar.real(a[0])))
        if isinstance(x, sympy.Float):
            return scalar.lift(float(x))
        ops = {"Equality": lambda p, q: p == q, "Unequality": lambda p, q: p != q, "StrictLessThan": lambda p, q: p < q,
               "LessThan": lambda p, q: p <= q, "StrictGreaterThan": lambda p, q: p > q, "GreaterThan": lambda p, q: p >= q}
        if n in ops:
            p, q = a
            if p.is_int() != q.is_int():
                p, q = scalar.real(p), scalar.real(q)
            return ops[n](p, q)
        if n == "And":
            return z3.And(*a)
        if n == "Or":
            return z3.Or(*a)
        if n == "Not":
            return z3.Not(a[0])
        if n == "Piecewise":
            raise NotEncodable("Piecewise")
        if n == "Identity":
            return a[0]
        raise NotEncodable("sympy %s in %s" % (n, x))
    return rec(sympy.sympify(e))


def run_fake(call, sizes, dyn):
    """call(maker) -> output shape tuple; sizes: {name: int}; returns (shape exprs, guards, error, symbol map)"""
    se = ShapeEnv()
    fm = FakeTensorMode(shape_env=se, allow_non_fake_inputs=True)
    names = {}

    def make(shape, dtype=None):
        """shape: ints or names of symbolic sizes"""
        conc = [sizes[s] if isinstance(s, str) else s for s in shape]
        with unset_fake_temporarily():
            t = torch.zeros(conc, dtype=dtype)
        ctx = StatelessSymbolicContext(dynamic_sizes=[DimDynamic.DYNAMIC if isinstance(s, str) else DimDynamic.STATIC for s in shape])
        f = fm.from_tensor(t, symbolic_context=ctx)
        for s, d in zip(shape, f.shape):
            if isinstance(s, str) and hasattr(d, "node"):
                names[str(d.node.expr)] = s
        return f
    err = None
    shape = None
    try:
        with torch.no_grad(), fm, RealSide():
            shape = call(make)
            shape = [s.node.expr if hasattr(s, "node") else int(s) for s in shape]
    except harness.Timeout:
        raise
    except Exception as ex:
        err = ex
    return shape, [g.expr for g in se.guards], err, names


class ShapeInst:
    """build() -> object; call(obj, make) -> shape of forward; predict(obj, dims) -> shape by evaluate_output_shape; dims: {name: (lo, hi)}"""

    def __init__(self, name, build, call, predict, dims, real, cost=1.0, timeout=200, limit=400):
        self.name, self.build, self.call, self.predict, self.dims, self.real = name, build, call, predict, dims, real
        self.cost, self.timeout, self.limit = cost, timeout, limit

    def execute(self, seed):
        t0 = time.time()
        res = {"name": self.name, "status": "held", "claims": 0, "entries": 0, "nontrivial": 0, "vars": len(self.dims), "atoms": 0, "paths": 0, "note": "",
               "solver": {"queries": 0, "unsat": 0, "sat": 0, "unknown": 0, "solver_s": 0.0, "terms": 0}, "validated_points": 0}
        st = res["solver"]
        signal.signal(signal.SIGALRM, harness._alarm)
        signal.alarm(self.timeout)
        harness.CODE_SEEN.clear()
        try:
            return self._go(seed, res, st)
        except harness.Timeout:
            res.update(status="inconclusive", note="timeout")
            return res
        except (NotEncodable, scalar.PathLimit) as e:
            res.update(status="inconclusive", note=str(e))
            return res
        finally:
            signal.alarm(0)
            res["wall"] = round(time.time() - t0, 2)

    def _real(self, obj, vals):
        """(forward shape or exception, predicted shape or exception) on concrete sizes with real tensors"""
        try:
            with torch.no_grad():
                f = tuple(int(s) for s in self.real(obj, vals))
        except harness.Timeout:
            raise
        except Exception as e:
            return e, None
        try:
            p = tuple(self.predict(obj, vals))
        except harness.Timeout:
            raise
        except Exception as e:
            return f, e
        return f, p

    def _bad(self, obj, vals, res):
        f, p = self._real(obj, vals)
        if isinstance(f, Exception):
            return False
        if isinstance(p, Exception):
            res.update(status="violation", kind="counterexample", note="evaluate_output_shape raised %s: %s for %s" % (type(p).__name__, str(p)[:120], vals), values=vals)
            return True
        if tuple(f) != tuple(p) or any(isinstance(q, float) for q in p):
            res.update(status="violation", kind="counterexample", note="forward %s, evaluate_output_shape %s for %s" % (f, p, vals), values=vals)
            return True
        return False

    def _go(self, seed, res, st):
        obj = self.build()
        if isinstance(obj, torch.nn.Module):
            obj.eval()
        zv = {n: z3.Int(n) for n in self.dims}
        box = [z3.And(zv[n] >= lo, zv[n] <= hi) for n, (lo, hi) in self.dims.items()]
        outer = z3.Solver()
        outer.set("timeout", 20000)
        for b in box:
            outer.add(b)

        def ask(s, *cs):
            t = time.time()
            r = s.check(*cs)
            st["solver_s"] += time.time() - t
            st["queries"] += 1
            st["sat" if r == z3.sat else "unsat" if r == z3.unsat else "unknown"] += 1
            return r
        # prediction side: all paths once
        eng = scalar.Engine()
        sv = {n: scalar.int_var(eng, n, lo, hi) for n, (lo, hi) in self.dims.items()}
        harness._trace_on()
        try:
            preds = []
            for e, r, x in scalar.explore(lambda: self.predict(obj, sv), eng=eng):
                preds.append((list(e.pc), r, x))
            st["queries"] += eng.queries
            st["solver_s"] += eng.time
            first = True
            regions = 0
            while True:
                r = ask(outer)
                if r == z3.unsat:
                    break
                if r != z3.sat:
                    res.update(status="inconclusive", note="solver unknown on sizes")
                    return res
                m = outer.model()
                vals = {n: m.eval(zv[n], model_completion=True).as_long() for n in self.dims}
                if first:       # start from a generic point
                    vals = {n: min(hi, max(lo, (lo + 2 * hi) // 3 + k)) for k, (n, (lo, hi)) in enumerate(self.dims.items())}
                    first = False
                shape, guards, err, names = run_fake(lambda mk: self.call(obj, mk), vals, None)
                regions += 1
                if regions > self.limit:
                    res.update(status="inconclusive", note="more than %d regions of sizes" % self.limit)
                    return res
                e2 = {s: zv[n] for s, n in names.items()}
                # symbols specialised away: sizes 0/1 are always concrete in torch's symbolic shapes
                pc = [to_z3(g, e2) for g in guards]
                for n in self.dims:
                    if n not in names.values():
                        pc.append(zv[n] == vals[n])
                    else:
                        pc.append(zv[n] >= 2)
                pt = z3.Solver()
                pt.add(*pc)
                pt.add(*[zv[n] == v for n, v in vals.items()])
                if ask(pt) != z3.sat:
                    raise NotEncodable("path condition excludes its own point %s" % vals)
                f, p = self._real(obj, vals)
                res["validated_points"] += 1
                if err is not None:
                    if not isinstance(f, Exception):
                        # torch's meta kernels reject what the real kernel accepts: fall back to the single point
                        if self._bad(obj, vals, res):
                            return res
                        pc = [zv[n] == v for n, v in vals.items()]
                    outer.add(z3.Not(z3.And(*pc)))
                    continue
                if isinstance(f, Exception):
                    # real kernel rejects the sizes, only this point is known to be outside the precondition
                    pc = [zv[n] == v for n, v in vals.items()]
                    outer.add(z3.Not(z3.And(*pc)))
                    continue
                zs = [to_z3(s, e2) for s in shape]
                got = tuple(z3.simplify(z3.substitute(z, *[(zv[n], z3.IntVal(v)) for n, v in vals.items()])).as_long() for z in zs)
                if got != tuple(f):
                    res.update(status="inconclusive", note="encoder mismatch: symbolic shape %s, real %s at %s" % (got, f, vals))
                    if self._bad(obj, vals, res):
                        return res
                    return res
                for ppc, pr, px in preds:
                    s = z3.Solver()
                    s.set("timeout", 20000)
                    s.add(*box)
                    s.add(*pc)
                    s.add(*ppc)
                    res["claims"] += 1
                    if px is not None:
                        neg = z3.BoolVal(True)
                    elif len(pr) != len(zs):
                        neg = z3.BoolVal(True)
                    else:
                        ds = []
                        for a, b in zip(zs, pr):
                            if isinstance(b, float):
                                ds.append(z3.BoolVal(True))
                                continue
                            b = scalar.lift(b)
                            if not b.is_int():
                                ds.append(z3.BoolVal(True))
                            else:
                                ds.append(a != b)
                        res["entries"] += len(ds)
                        res["nontrivial"] += sum(1 for d in ds if not z3.is_true(z3.simplify(z3.Not(d))))
                        neg = z3.Or(*ds)
                    r = ask(s, neg)
                    while r == z3.sat:
                        mm = s.model()
                        v2 = {n: mm.eval(zv[n], model_completion=True).as_long() for n in self.dims}
                        if self._bad(obj, v2, res):
                            return res
                        fr, _ = self._real(obj, v2)
                        if not isinstance(fr, Exception):
                            res.update(status="inconclusive", note="counterexample not reproduced at %s" % v2)
                            return res
                        s.add(z3.Not(z3.And(*[zv[n] == v for n, v in v2.items()])))     # forward rejects these sizes
                        r = ask(s, neg)
                    if r == z3.unknown:
                        res.update(status="inconclusive", note="solver unknown")
                        return res
                outer.add(z3.Not(z3.And(*pc)))
            res["paths"] = regions * max(1, len(preds))
            res["twin"] = "sat"
            if res["claims"] == 0:
                res.update(status="skip", note="no accepted sizes in the box")
        finally:
            harness._trace_off()
            res["functions"] = sorted(harness.CODE_SEEN)
        return res
