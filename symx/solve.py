"""SMT back end: decide whether polynomial claims can be violated anywhere in the input box"""
import math
import time

from . import poly
from .poly import P, num

INF = float("inf")


class Stats:
    def __init__(self):
        self.queries = 0
        self.unsat = 0
        self.sat = 0
        self.unknown = 0
        self.time = 0.0
        self.terms = 0

    def as_dict(self):
        return {"queries": self.queries, "unsat": self.unsat, "sat": self.sat, "unknown": self.unknown,
                "solver_s": round(self.time, 4), "terms": self.terms}


def _z3():
    from .env import _z3 as z
    return z()


def rv(z3, x):
    from fractions import Fraction
    f = Fraction(x).limit_denominator(10 ** 15) if abs(x) < 1e6 else Fraction(x)
    if f == 0 and x != 0:
        f = Fraction(x)
    return z3.RealVal(str(f))


class Encoder:
    """encodes polynomials as linear real arithmetic over monomials; relu/abs/max/ind/sel atoms get their definition"""

    def __init__(self, solver, z3, nonlinear=False):
        self.s, self.z3 = solver, z3
        self.mono = {}
        self.nonlinear = nonlinear
        self.defined = set()
        self.stats_terms = 0

    def cap(self, b):
        return max(-1e6, min(1e6, b))

    def var(self, m):
        x = self.mono.get(m)
        if x is None:
            z3 = self.z3
            x = z3.Real("m" + "_".join(str(v) for v in m))
            self.mono[m] = x
            lo, hi = poly.mono_bounds(m)
            self.s.add(x >= rv(z3, self.cap(lo)), x <= rv(z3, self.cap(hi)))
            if len(m) == 1:
                self._define(m[0], x)
            elif all(poly.CTX.vars[v].kind == "hot" for v in m):
                for v in m:
                    self.s.add(x <= self.var((v,)))
            elif self.nonlinear:
                e = self.var((m[0],))
                for v in m[1:]:
                    e = e * self.var((v,))
                self.s.add(x == e)
        return x

    def _define(self, v, x):
        if v in self.defined:
            return
        self.defined.add(v)
        z3 = self.z3
        V = poly.CTX.vars[v]
        if V.kind == "hot":
            vs = [self.z3.Real("m%d" % i) for i in V.partner]
            self.defined.update(V.partner)
            for i, y in zip(V.partner, vs):
                self.mono[(i,)] = y
            self.s.add(z3.Sum(vs) == 1, *[z3.Or(y == 0, y == 1) for y in vs])
        if V.kind in ("bool",) or V.fn in ("ind", "sel"):
            self.s.add(z3.Or(x == 0, x == 1))
        if V.fn == "relu":
            a = self.expr(V.args[0])
            self.s.add(x == z3.If(a > 0, a, z3.RealVal(0)))
        elif V.fn == "abs":
            a = self.expr(V.args[0])
            self.s.add(x == z3.If(a > 0, a, -a))
        elif V.fn == "max":
            es = [self.expr(a) for a in V.args]
            self.s.add(z3.And([x >= e for e in es]), z3.Or([x == e for e in es]))
        elif V.fn == "ind":
            a = self.expr(V.args[0])
            self.s.add((x == 1) == (a > 0))
        elif V.fn == "sel":
            es = [self.expr(a) for a in V.args]
            self.s.add(z3.Implies(x == 1, z3.And([es[0] >= e for e in es[1:]])))
            self.s.add(z3.Implies(z3.And([es[0] > e for e in es[1:]]), x == 1))
        if self.nonlinear and V.kind == "cos":
            s = self.var((V.partner,))
            self.s.add(x * x + s * s == 1)

    def expr(self, p, tiny=0.0):
        """(z3 term); coefficients below tiny are not allowed here"""
        z3 = self.z3
        if num(p):
            return rv(z3, float(p))
        ts = []
        c0 = 0.0
        for m, c in p.t.items():
            if m == ():
                c0 = c
                continue
            self.stats_terms += 1
            ts.append(rv(z3, c) * self.var(m))
        if c0:
            ts.append(rv(z3, c0))
        return z3.Sum(ts) if len(ts) != 1 else ts[0]

    def residual(self, d, noise=5e-6):
        """z3 term for d without its rounding-noise terms, plus a sound bound on what was left out"""
        slack = 0.0
        keep = {}
        for m, c in poly.terms(d).items():
            if abs(c) < noise:
                lo, hi = poly.mono_bounds(m)
                b = abs(c) * max(abs(lo), abs(hi), 0.0)
                if b < 1e-4:
                    slack += b
                    continue
            keep[m] = c
        e = self.expr(poly.mk(keep)) if keep else self.z3.RealVal(0)
        return e, slack, keep


def decide(claims, eps, stats, timeout_ms=60000, extra=(), offset=0.0):
    """is there a point of the box where |lhs-rhs| > eps for some claim?  returns (verdict, model values, claim idx)"""
    z3 = _z3()
    t0 = time.time()
    s = z3.Solver()
    s.set("timeout", timeout_ms)
    enc = Encoder(s, z3)
    alts = []
    which = []
    for k, (d, e) in enumerate(claims):
        r, slack, keep = enc.residual(d)
        if offset:
            r = r + rv(z3, offset)
        t = rv(z3, max(e - slack, 0.0)) if slack < e else z3.RealVal(0)
        if slack >= e:
            # the rounding slack alone exceeds the tolerance: keep all terms
            r = enc.expr(d)
            t = rv(z3, e)
        b = z3.Bool("viol_%d" % k)
        s.add(b == z3.Or(r > t, -r > t))
        alts.append(b)
    s.add(z3.Or(alts) if alts else z3.BoolVal(False))
    for c in extra:
        s.add(c(enc))
    r = s.check()
    stats.queries += 1
    stats.terms += enc.stats_terms
    stats.time += time.time() - t0
    if r == z3.unsat:
        stats.unsat += 1
        return "unsat", None, None
    if r != z3.sat:
        stats.unknown += 1
        return "unknown", None, None
    stats.sat += 1
    m = s.model()
    idx = None
    for k, b in enumerate(alts):
        if z3.is_true(m.eval(b)):
            idx = k
            break
    vals = {}
    for mono, x in enc.mono.items():
        if len(mono) == 1:
            V = poly.CTX.vars[mono[0]]
            if V.fn is None:
                v = m.eval(x, model_completion=True)
                vals[V.name] = float(v.as_fraction()) if z3.is_rational_value(v) else float(v.approx(12).as_fraction())
    return "sat", vals, idx


def repair(vals):
    """make a model's angle / quaternion components consistent"""
    V = poly.CTX.byname
    for n, v in list(V.items()):
        if v.kind == "cos":
            nm = n[:-2]
            if n in vals or nm + ".s" in vals:
                c, s = vals.get(n, v.val), vals.get(nm + ".s", poly.CTX.vars[v.partner].val)
                r = math.hypot(c, s)
                if r < 1e-6:
                    c, s, r = v.val, poly.CTX.vars[v.partner].val, 1.0
                vals[n], vals[nm + ".s"] = c / r, s / r
        elif v.kind == "quat" and n.endswith(".x"):
            nm = n[:-2]
            ks = [k for k in "xyzw" if nm + "." + k in V]
            if any(nm + "." + k in vals for k in ks):
                q = [vals.get(nm + "." + k, V[nm + "." + k].val) for k in ks]
                r = math.sqrt(sum(a * a for a in q))
                if r < 1e-6:
                    q, r = [V[nm + "." + k].val for k in ks], 1.0
                for k, a in zip(ks, q):
                    vals[nm + "." + k] = a / r
        elif v.kind == "bool" and n in vals:
            vals[n] = 1.0 if vals[n] > .5 else 0.0
    return vals


def kernel_vector(A, tol, stats, timeout_ms=60000):
    """a vector w with max |w| = 1 and |A w| <= tol, decided by z3 over the reals; (status, w).
    The rows are first replaced by linear combinations B A of them (B: pseudo inverse), |B_i A w| <= tol |B_i|_1: these follow from
    |A w| <= tol, so unsat carries over, and B A is close to a projector, which keeps the rationals small."""
    import time
    import numpy as np
    z3 = _z3()
    m, n = A.shape
    B = np.linalg.pinv(A, rcond=1e-4)
    R = B @ A
    s = z3.SolverFor("QF_LRA")
    s.set("timeout", timeout_ms)
    w = [z3.Real("w%d" % i) for i in range(n)]
    for x in w:
        s.add(x >= -1, x <= 1)
    for b, r in zip(B, R):
        r = [round(float(c), 7) for c in r]
        if not any(r):
            continue
        t = rv(z3, tol * float(abs(b).sum()) + n * 1e-7)
        e = z3.Sum([rv(z3, c) * x for c, x in zip(r, w) if c])
        s.add(e <= t, e >= -t)
    s.add(z3.Or([x == 1 for x in w]))
    t0 = time.time()
    res = str(s.check())
    stats[0] += 1
    stats[1] += time.time() - t0
    if res == "sat":
        mo = s.model()
        return res, [float(mo.eval(x, model_completion=True).as_fraction()) for x in w]
    return res, None
