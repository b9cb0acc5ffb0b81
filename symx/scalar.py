"""Symbolic scalars with path forking: real Python code runs on z3-backed integers and reals.

A comparison on symbolic values builds an SBool; taking its truth value asks z3 which branches are feasible under the path
condition and forks (by re-execution).  Operations that need a concrete integer (indexing, range, hash) fork over its feasible values.
"""
import math
import time
from fractions import Fraction

from . import env

z3 = env._z3()


class PathLimit(Exception):
    pass


class Infeasible(Exception):
    pass


class Engine:
    def __init__(self, timeout=20000):
        self.base = []
        self.queries = 0
        self.time = 0.0
        self.timeout = timeout
        self.vars = {}
        self.feas = {}
        self.begin([])

    def begin(self, prefix):
        self.prefix = list(prefix)
        self.trace = []
        self.pc = list(self.base)
        self.solver = z3.Solver()
        self.solver.set("timeout", self.timeout)
        for c in self.pc:
            self.solver.add(c)
        self.fresh = 0
        self.nch = 0

    def assume(self, c):
        self.base.append(c)
        self.pc.append(c)
        self.solver.add(c)

    def check(self, *cs):
        t = time.time()
        self.queries += 1
        r = self.solver.check(*cs)
        self.time += time.time() - t
        return r

    def add(self, c):
        self.pc.append(c)
        self.solver.add(c)

    def decide(self, c):
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        i = len(self.trace)
        if i < len(self.prefix):
            d, alt = self.prefix[i][:2]
        else:
            t = self.check(c)
            f = self.check(z3.Not(c))
            if t == z3.unsat and f == z3.unsat:
                raise Infeasible()
            if f == z3.unsat:
                d, alt = True, False
            elif t == z3.unsat:
                d, alt = False, False
            else:
                d, alt = True, True
        self.trace.append((d, alt))
        self.add(c if d else z3.Not(c))
        return d

    def value(self, e):
        """fork over the concrete values of an integer term"""
        e = z3.simplify(e)
        if z3.is_int_value(e):
            return e.as_long()
        while True:
            i = len(self.trace)
            if i < len(self.prefix):
                d, alt, v = self.prefix[i]
                self.trace.append((d, alt, v))
                self.add(e == v if d else e != v)
                if d:
                    return v
                continue
            r = self.check()
            if r != z3.sat:
                raise Infeasible() if r == z3.unsat else PathLimit("solver unknown while enumerating an integer")
            v = self.solver.model().eval(e, model_completion=True).as_long()
            self.trace.append((True, self.check(e != v) != z3.unsat, v))
            self.add(e == v)
            return v

    def choose(self, conds):
        """fork over the feasible ones of possibly overlapping conditions"""
        self.nch += 1
        key = (self.nch, tuple(self.trace))
        if key in self.feas and len(self.trace) <= len(self.prefix):
            ok = self.feas[key]
        else:
            ok = self.feas[key] = [i for i, c in enumerate(conds) if self.check(c) != z3.unsat]
        if not ok:
            raise Infeasible()
        for i in ok[:-1]:
            self.fresh += 1
            n = len(self.trace)
            d = self.prefix[n][0] if n < len(self.prefix) else True
            self.trace.append((d, self.prefix[n][1] if n < len(self.prefix) else True))
            if d:
                self.add(conds[i])
                return i
        self.add(conds[ok[-1]])
        return ok[-1]

    def point(self, names):
        if self.check() != z3.sat:
            raise PathLimit("no model of a path")
        m = self.solver.model()
        return {n: m.eval(self.vars[n], model_completion=True).as_long() for n in names}


ENG = None


def explore(fn, limit=4000, eng=None, setup=None):
    """run fn() along every feasible path; yields (engine, result, exception) per path"""
    global ENG
    old = ENG
    e = eng or Engine()
    work = [[]]
    n = 0
    try:
        while work:
            pre = work.pop()
            e.begin(pre)
            ENG = e
            n += 1
            if n > limit:
                raise PathLimit("more than %d paths" % limit)
            try:
                r, x = fn(), None
            except Infeasible:
                r, x = None, Infeasible
            except PathLimit:
                raise
            except Exception as ex:         # noqa: the caller decides what an exception means
                r, x = None, ex
            # alternatives opened beyond the prefix
            for i in range(len(e.trace) - 1, len(pre) - 1, -1):
                t = e.trace[i]
                if t[1] and t[0]:
                    work.append([(s[0], False) + tuple(s[2:]) for s in e.trace[:i]] + [(False, False) + tuple(t[2:])])
            ENG = old
            if x is not Infeasible:
                yield e, r, x
            ENG = e
    finally:
        ENG = old


def lift(x):
    if isinstance(x, (SInt, SReal)):
        return x.e
    if isinstance(x, bool):
        return z3.IntVal(int(x))
    if isinstance(x, int):
        return z3.IntVal(x)
    if isinstance(x, float):
        if x != x or x in (float("inf"), float("-inf")):
            return None
        f = Fraction(x)
        return z3.RealVal(f"{f.numerator}/{f.denominator}")
    if isinstance(x, Fraction):
        return z3.RealVal(f"{x.numerator}/{x.denominator}")
    try:
        import numpy as np
        if isinstance(x, np.integer):
            return z3.IntVal(int(x))
        if isinstance(x, np.floating):
            return lift(float(x))
    except ImportError:
        pass
    return None


def wrap(e):
    if isinstance(e, z3.BoolRef):
        return SBool(e)
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    return SInt(e) if e.is_int() else SReal(e)


def real(e):
    return z3.ToReal(e) if e.is_int() else e


class SBool:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return ENG.decide(self.e)

    def __and__(self, o):
        return SBool(z3.And(self.e, o.e if isinstance(o, SBool) else bool(o)))

    __rand__ = __and__

    def __or__(self, o):
        return SBool(z3.Or(self.e, o.e if isinstance(o, SBool) else bool(o)))

    __ror__ = __or__

    def __invert__(self):
        return SBool(z3.Not(self.e))

    def __rsub__(self, o):
        return o - wrap(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)))

    def __int__(self):
        return int(bool(self))

    __index__ = __int__


def _num(f):
    def g(self, o):
        b = lift(o)
        if b is None:
            return NotImplemented
        return f(self.e, b)
    return g


class SNum:
    __slots__ = ("e",)
    __array_priority__ = 1000

    def __init__(self, e):
        self.e = e

    def _arith(self, o, f):
        b = lift(o)
        if b is None:
            return NotImplemented
        a = self.e
        if a.is_int() != b.is_int():
            a, b = real(a), real(b)
        return wrap(f(a, b))

    def __add__(self, o):
        return self._arith(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._arith(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._arith(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._arith(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __neg__(self):
        return wrap(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return wrap(z3.If(self.e >= 0, self.e, -self.e))

    def __truediv__(self, o):
        b = lift(o)
        if b is None:
            return NotImplemented
        return wrap(real(self.e) / real(b))

    def __rtruediv__(self, o):
        b = lift(o)
        if b is None:
            return NotImplemented
        return wrap(real(b) / real(self.e))

    def __floordiv__(self, o):
        b = lift(o)
        if b is None:
            return NotImplemented
        return _floordiv(self.e, b)

    def __rfloordiv__(self, o):
        b = lift(o)
        if b is None:
            return NotImplemented
        return _floordiv(b, self.e)

    def __mod__(self, o):
        b = lift(o)
        if b is None:
            return NotImplemented
        return _mod(self.e, b)

    def __rmod__(self, o):
        b = lift(o)
        if b is None:
            return NotImplemented
        return _mod(b, self.e)

    def __divmod__(self, o):
        return self // o, self % o

    def __pow__(self, k):
        if isinstance(k, int) and 0 <= k <= 8:
            r = 1
            for _ in range(k):
                r = self * r
            return r
        return NotImplemented

    def __rpow__(self, b):
        if b in (-1, -1.0) and self.e.is_int():
            return wrap(z3.If(self.e % 2 == 0, z3.IntVal(1), z3.IntVal(-1)))
        return b ** ENG.value(self.e)

    def _cmp(self, o, f):
        b = lift(o)
        if b is None:
            if isinstance(o, float):
                raise TypeError("comparison with %r" % o)
            return NotImplemented
        a = self.e
        if a.is_int() != b.is_int():
            a, b = real(a), real(b)
        return SBool(f(a, b))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b)
        return True if r is NotImplemented else r

    def __bool__(self):
        return ENG.decide(self.e != 0)

    def __floor__(self):
        return wrap(self.e if self.e.is_int() else z3.ToInt(self.e))

    def __ceil__(self):
        return wrap(self.e if self.e.is_int() else -z3.ToInt(-self.e))

    def __trunc__(self):
        e = self.e
        return wrap(e if e.is_int() else z3.If(e >= 0, z3.ToInt(e), -z3.ToInt(-e)))

    def __round__(self, n=None):
        e = self.e
        if e.is_int():
            return wrap(e)
        f = z3.ToInt(e)
        d = e - z3.ToReal(f)
        return wrap(z3.If(d < z3.Q(1, 2), f, z3.If(d > z3.Q(1, 2), f + 1, z3.If(f % 2 == 0, f, f + 1))))

    # numpy calls these on object arrays / scalars
    def floor(self):
        return self.__floor__()

    def ceil(self):
        return self.__ceil__()

    def rint(self):
        return self.__round__()

    def __int__(self):
        return ENG.value(self.__trunc__().e) if isinstance(self.__trunc__(), SNum) else self.__trunc__()

    def __float__(self):
        if self.e.is_int():
            return float(ENG.value(self.e))
        raise TypeError("float() of a symbolic real")

    def __repr__(self):
        return "<%s>" % self.e


class SInt(SNum):
    __slots__ = ()

    def __index__(self):
        return ENG.value(self.e)

    def __hash__(self):
        return hash(ENG.value(self.e))

    @property
    def real(self):
        return self


class SReal(SNum):
    __slots__ = ()
    __hash__ = None


def _floordiv(a, b):
    if a.is_int() and b.is_int():
        if z3.is_int_value(b) and b.as_long() > 0:
            return wrap(a / b)                     # z3 int division floors for positive divisors
        return wrap(z3.If(b > 0, a / b, (-a) / (-b)))
    return wrap(z3.ToReal(z3.ToInt(real(a) / real(b))))


def _mod(a, b):
    if a.is_int() and b.is_int():
        if z3.is_int_value(b) and b.as_long() > 0:
            return wrap(a % b)
        return wrap(z3.If(b > 0, a % b, -((-a) % (-b))))
    a, b = real(a), real(b)
    return wrap(a - b * z3.ToReal(z3.ToInt(a / b)))


def int_var(eng, name, lo, hi):
    v = z3.Int(name)
    c = z3.And(v >= lo, v <= hi)
    if name not in eng.vars:
        eng.vars[name] = v
        eng.assume(c)
    return SInt(v)


def real_var(eng, name, lo, hi):
    v = z3.Real(name)
    if name not in eng.vars:
        eng.vars[name] = v
        eng.assume(z3.And(v >= lift(float(lo)), v <= lift(float(hi))))
    return SReal(v)
