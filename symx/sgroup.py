"""Symbolic group elements: integers, angles and unit quaternions that the real group code accepts as its parameters.

FInt   an int subclass over a z3 integer term: arithmetic, % and comparisons stay symbolic, a comparison used as a condition forks the path
FReal  a float subclass: a linear form over angle atoms (measured in turns), integer atoms and rounding-noise atoms.  x % 2pi introduces
       an integer number of turns constrained by z3; cos/sin expand to polynomials in the atoms' (cos, sin) pairs, so that 2pi-periodicity is exact.
       Every % adds a bounded rounding error, so that both sides of a wrap-around are explored, as with real floats.
Rot    stand-in for scipy's Rotation on quaternions with polynomial entries (contract: the conversions are inverse to each other)
wigner stand-in for lie_learn's wigner_D_matrix: the polynomial in the quaternion entries fitted to the real function at start-up
"""
import math
import sys
from fractions import Fraction

import numpy as np

from . import poly, scalar, env
from .poly import P, num, SymbolicDecision

z3 = env._z3()
TAU = 2 * math.pi
NOISE = Fraction(1, 2 ** 50)


def rat(x):
    """a rational with small denominator if x is one up to rounding, else None"""
    f = Fraction(x).limit_denominator(5000)
    return f if abs(float(f) - x) <= 1e-12 * max(1.0, abs(x)) else None


def q(fr):
    return z3.RealVal("%d/%d" % (fr.numerator, fr.denominator))


def eng():
    if scalar.ENG is None:
        raise SymbolicDecision("symbolic group element outside of a path")
    return scalar.ENG


# --------------------------------------------------------------------------------------------- integers
def ilift(o):
    if isinstance(o, FInt):
        return o.e
    if isinstance(o, (bool, int, np.integer)):
        return z3.IntVal(int(o))
    return None


def iwrap(e):
    e = z3.simplify(e)
    return e.as_long() if z3.is_int_value(e) else FInt(e)


class FInt(int):
    __array_priority__ = 1000

    def __new__(cls, e):
        x = int.__new__(cls, -987654321)
        x.e = e
        return x

    def _op(self, o, f):
        b = ilift(o)
        if b is not None:
            return iwrap(f(self.e, b))
        return NotImplemented

    def _real(self):
        return FReal({("i", atom_int(self.e)): Fraction(1)}, Fraction(0), False)

    def __add__(self, o):
        r = self._op(o, lambda a, b: a + b)
        return r if r is not NotImplemented else (self._real() + o if isinstance(o, float) else r)

    __radd__ = __add__

    def __sub__(self, o):
        r = self._op(o, lambda a, b: a - b)
        return r if r is not NotImplemented else (self._real() - o if isinstance(o, float) else r)

    def __rsub__(self, o):
        r = self._op(o, lambda a, b: b - a)
        return r if r is not NotImplemented else (o - self._real() if isinstance(o, float) else r)

    def __mul__(self, o):
        if isinstance(o, float):
            return self._real() * o
        if isinstance(o, np.ndarray):
            return NotImplemented
        return self._op(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._real() / o

    def __rtruediv__(self, o):
        raise SymbolicDecision("division by a symbolic integer")

    def __floordiv__(self, o):
        if isinstance(o, float):
            return (self._real() / o).__floor__()
        b = ilift(o)
        if z3.is_int_value(b) and b.as_long() > 0:
            return iwrap(self.e / b)
        raise SymbolicDecision("division by a symbolic or negative integer")

    def __mod__(self, o):
        if isinstance(o, float):
            return self._real() % o
        b = ilift(o)
        if b is not None and z3.is_int_value(b) and b.as_long() > 0:
            return iwrap(self.e % b)
        raise SymbolicDecision("modulo a symbolic or negative integer")

    def __divmod__(self, o):
        return self // o, self % o

    def __neg__(self):
        return iwrap(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return iwrap(z3.If(self.e >= 0, self.e, -self.e))

    def __pow__(self, k, m=None):
        r = 1
        for _ in range(k):
            r = self * r
        return r

    def __rpow__(self, b):
        if b in (-1, -1.0):
            return iwrap(z3.If(self.e % 2 == 0, z3.IntVal(1), z3.IntVal(-1)))
        return b ** eng().value(self.e)

    def __xor__(self, o):
        return eng().value(self.e) ^ int(o)

    __rxor__ = __xor__

    def __and__(self, o):
        return eng().value(self.e) & int(o)

    __rand__ = __and__

    def __or__(self, o):
        return eng().value(self.e) | int(o)

    __ror__ = __or__

    def _cmp(self, o, f):
        b = ilift(o)
        if b is not None:
            return scalar.SBool(f(self.e, b))
        if isinstance(o, FReal):
            return NotImplemented
        if isinstance(o, float):
            return scalar.SBool(f(z3.ToReal(self.e), q(Fraction(o))))
        return NotImplemented

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        return self._cmp(o, lambda a, b: a != b)

    def __hash__(self):
        return hash(eng().value(self.e))

    def __bool__(self):
        return eng().decide(self.e != 0)

    def __index__(self):
        return eng().value(self.e)

    __int__ = __index__
    __trunc__ = __index__

    def __float__(self):
        return float(eng().value(self.e))

    def __round__(self, n=None):
        return self

    def __floor__(self):
        return self

    def __repr__(self):
        return "<%s>" % self.e

    __str__ = __repr__

    def __format__(self, s):
        return repr(self)


# --------------------------------------------------------------------------------------------- reals / angles
class Atoms:
    def __init__(self):
        self.ints = {}      # z3 ast id -> (index, expr)
        self.list = []
        self.ang = {}       # name -> (z3 real, cos P, sin P, D)
        self.fresh = 0
        self.memo = {}
        self.red = {}
        self.pending = {}   # constraints of integer variables not looked at yet
        self.bnd = {}       # atom -> (lo, hi)
        self.rots = []      # known (quaternion, matrix)
        self.eulers = {}    # key -> quaternion
        self.pins = []      # forms that are zero on this path, up to the tolerance of a closeness test


A = Atoms()


def reset():
    global A
    A = Atoms()


def atom_int(e):
    k = e.get_id()
    for i, x in enumerate(A.list):
        if x.get_id() == k:
            return i
    A.list.append(e)
    return len(A.list) - 1


def ibound(e):
    """bounds of an integer term, None if unknown"""
    if z3.is_int_value(e):
        return e.as_long(), e.as_long()
    k = e.decl().kind()
    if z3.is_const(e):
        return A.bnd.get(e.decl().name())
    ch = [ibound(c) for c in e.children()] if k in (z3.Z3_OP_ADD, z3.Z3_OP_MUL, z3.Z3_OP_SUB, z3.Z3_OP_UMINUS) else []
    if ch and all(c is not None for c in ch):
        if k == z3.Z3_OP_ADD:
            return sum(c[0] for c in ch), sum(c[1] for c in ch)
        if k == z3.Z3_OP_SUB and len(ch) == 2:
            return ch[0][0] - ch[1][1], ch[0][1] - ch[1][0]
        if k == z3.Z3_OP_UMINUS:
            return -ch[0][1], -ch[0][0]
        if k == z3.Z3_OP_MUL:
            r = ch[0]
            for c in ch[1:]:
                v = [a * b for a in r for b in c]
                r = min(v), max(v)
            return r
    if k == z3.Z3_OP_MOD and z3.is_int_value(e.arg(1)):
        return 0, e.arg(1).as_long() - 1
    return None


def lbound(lin, const):
    """bounds of a linear form"""
    lo = hi = const
    for (k, i), c in lin.items():
        if k == "i":
            b = ibound(A.list[i])
        else:
            b = A.bnd.get(("a", i))
        if b is None:
            return None
        v = (c * b[0], c * b[1])
        lo, hi = lo + min(v), hi + max(v)
    return lo, hi


def zatom(a):
    k, i = a
    if k == "i":
        e = A.list[i]
        if z3.is_const(e) and e.decl().name() in A.pending:
            eng().add(A.pending.pop(e.decl().name()))
        return z3.ToReal(e)
    return A.ang[i][0]


class Fuzz:
    """truth value of a comparison of rounded numbers: near the boundary both outcomes are explored"""

    def __init__(self, key, yes, no):
        self.key, self.yes, self.no = key, yes, no

    def __bool__(self):
        r = A.memo.get(self.key)
        if r is None:
            r = A.memo[self.key] = eng().choose([self.yes, self.no]) == 0
        return r

    __index__ = __int__ = lambda self: int(bool(self))

    def __and__(self, o):
        return bool(self) and bool(o)

    def __or__(self, o):
        return bool(self) or bool(o)

    __rand__, __ror__ = __and__, __or__

    def __invert__(self):
        return not bool(self)


class FReal(float):
    """(sum lin + const) * (2 pi if ang else 1), up to a rounding error of err (in the same unit)"""
    __array_priority__ = 1000

    def __new__(cls, lin, const, ang, err=Fraction(0), red=None):
        x = float.__new__(cls, float("nan"))
        x.lin = {k: c for k, c in lin.items() if c}
        x.const, x.ang, x.err, x.red = const, ang, err, red
        return x

    def z(self):
        return z3.Sum([q(self.const)] + [q(c) * zatom(a) for a, c in self.lin.items()])

    def key(self):
        return tuple(sorted((str(k), c) for k, c in self.lin.items())), self.const, self.ang

    def _coerce(self, o):
        """o in this value's unit: (lin, const, err)"""
        if isinstance(o, FInt):
            o = o._real()
        if isinstance(o, FReal):
            if o.ang == self.ang:
                return o.lin, o.const, o.err
            if not o.lin and not o.const:
                return {}, Fraction(0), o.err
            if self.ang:        # radians written without pi
                return {k: Fraction(float(c) / TAU) for k, c in o.lin.items()}, Fraction(float(o.const) / TAU), o.err / 6
            raise SymbolicDecision("angle and number combined")
        if isinstance(o, (int, float, np.integer, np.floating)):
            v = float(o) / (TAU if self.ang else 1.0)
            return {}, rat(v) if rat(v) is not None else Fraction(v), Fraction(0)
        return None

    def turns(self):
        """a number of radians as an angle"""
        if self.ang:
            return self
        return FReal({k: Fraction(float(c) / TAU) for k, c in self.lin.items()}, rat(float(self.const) / TAU) or Fraction(float(self.const) / TAU), True, self.err / 6)

    def _add(self, o, s, t, noise=NOISE):
        if isinstance(o, FReal) and o.ang and not self.ang:
            return o._add(self, t, s, noise)
        c = self._coerce(o)
        if c is None:
            return NotImplemented
        if not c[0] and not c[1] and not c[2] and s == 1:
            return self
        lin = {k: v * s for k, v in self.lin.items()}
        for k, v in c[0].items():
            lin[k] = lin.get(k, 0) + v * t
        return mkreal(lin, self.const * s + c[1] * t, self.ang, self.err + c[2] + noise)

    def __add__(self, o):
        return self._add(o, 1, 1)

    __radd__ = __add__

    def __sub__(self, o):
        return self._add(o, 1, -1)

    def __rsub__(self, o):
        return self._add(o, -1, 1)

    def __neg__(self):
        return mkreal({k: -v for k, v in self.lin.items()}, -self.const, self.ang, self.err)

    def __pos__(self):
        return self

    def __mul__(self, o):
        if isinstance(o, (FInt, FReal)):
            if isinstance(o, FInt):
                return self * eng().value(o.e)
            raise SymbolicDecision("product of symbolic numbers")
        if isinstance(o, P):
            raise SymbolicDecision("product of symbolic numbers")
        if not isinstance(o, (int, float, np.integer, np.floating)):
            return NotImplemented
        m = float(o)
        if m in (1.0, -1.0):
            return self if m > 0 else -self
        ang = self.ang
        r = rat(m)
        if r is None:
            if ang and rat(m * TAU) is not None:
                r, ang = rat(m * TAU), False
            elif not ang and rat(m / TAU) is not None:
                r, ang = rat(m / TAU), True
            else:
                r = Fraction(m)
        return mkreal({k: v * r for k, v in self.lin.items()}, self.const * r, ang, self.err * abs(r) + NOISE)

    __rmul__ = __mul__

    def __truediv__(self, o):
        if isinstance(o, (FReal, P)):
            raise SymbolicDecision("division of symbolic numbers")
        if isinstance(o, FInt):
            return self / eng().value(o.e)
        return self * (1.0 / float(o))

    def __rtruediv__(self, o):
        raise SymbolicDecision("division by a symbolic number")

    def period(self, o):
        if isinstance(o, (FInt, FReal)):
            raise SymbolicDecision("modulo a symbolic number")
        m = float(o)
        if m <= 0:
            raise SymbolicDecision("modulo a negative number")
        v = m / TAU if self.ang else m
        return rat(v) if rat(v) is not None else Fraction(v)

    def _reduce(self, r, lo):
        """self - k r within [lo r, lo r + r] up to rounding"""
        lin = {a: c for a, c in self.lin.items() if not (a[0] == "i" and (c / r).denominator == 1)}
        err = self.err
        b = lbound(lin, self.const)
        if b is None:
            raise SymbolicDecision("unbounded number reduced")
        e = err / r
        ks = list(range(math.floor(b[0] / r - lo - e) - (1 if not lin else 0), math.floor(b[1] / r - lo + e) + 1))
        z = FReal(lin, self.const, self.ang).z()
        if len(ks) == 1:
            return FReal(lin, self.const - ks[0] * r, self.ang, (NOISE if ks[0] else Fraction(0)) if not err else err + NOISE, (r, lo))
        if not lin:
            ks = [k for k in ks if -err <= self.const - (k + lo) * r <= r + err]
            k = ks[0] if len(ks) == 1 else ks[eng().choose([z3.BoolVal(True)] * len(ks))]
            return FReal(lin, self.const - k * r, self.ang, err + NOISE, (r, lo))
        # the number of periods taken off is an integer variable; its constraint is added when it is first looked at
        key = (self.key(), r, lo)
        if key not in A.red:
            A.fresh += 1
            name = "turns%d" % A.fresh
            k = z3.Int(name)
            A.bnd[name] = (ks[0], ks[-1])
            y = z - (z3.ToReal(k) + q(lo)) * q(r)
            A.pending[name] = z3.And(k >= ks[0], k <= ks[-1], y >= q(-err), y <= q(r + err) if err else y < q(r))
            A.red[key] = ("i", atom_int(k))
        lin = dict(lin)
        lin[A.red[key]] = -r
        return FReal(lin, self.const, self.ang, err + NOISE, (r, lo))

    def __mod__(self, o):
        r = self.period(o)
        if self.red == (r, 0):
            return self
        return self._reduce(r, 0)

    def __divmod__(self, o):
        r = self.period(o)
        m = self % o
        d = (self - m)
        return FReal({k: v / r for k, v in d.lin.items()}, d.const / r, False) if isinstance(d, FReal) else d / float(o), m

    def __floordiv__(self, o):
        return (self / o).__floor__()

    def __abs__(self):
        return self if bool(self >= 0) else -self

    def _cmp(self, o, op):
        c = self._coerce(o)
        if c is None:
            return NotImplemented
        if self.red is not None and not c[0] and not c[2]:
            lo, hi = self.red[0] * self.red[1], self.red[0] * (self.red[1] + 1)
            if op in (">=", "<") and c[1] <= lo or op in ("<=", ">") and c[1] >= hi:
                return op in (">=", "<=")
        d = self._add(o, 1, -1, Fraction(0))
        if not isinstance(d, FReal):
            d = FReal({}, Fraction(d), False)
        e, v = d.err, d.z()
        E, M = q(e), q(-e)
        if not e:
            f = {"<": v < 0, "<=": v <= 0, ">": v > 0, ">=": v >= 0, "==": v == 0, "!=": v != 0}[op]
            return scalar.SBool(f)
        yes, no = {"<": (v < E, v >= M), "<=": (v <= E, v > M), ">": (v > M, v <= E), ">=": (v >= M, v < E),
                   "==": (z3.And(v >= M, v <= E), z3.BoolVal(True)), "!=": (z3.BoolVal(True), z3.And(v >= M, v <= E))}[op]
        return Fuzz((d.key(), op), yes, no)

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __eq__(self, o):
        return self._cmp(o, "==")

    def __ne__(self, o):
        return self._cmp(o, "!=")

    def __hash__(self):
        raise SymbolicDecision("hash of a symbolic number")

    def __bool__(self):
        return bool(self != 0)

    def __float__(self):
        raise SymbolicDecision("float() of a symbolic number")

    def _int(self, lo):
        """integer k with self - k in [lo, lo + 1]"""
        if self.ang:
            raise SymbolicDecision("rounding an angle")
        whole = self.const.denominator == 1 and all(a[0] == "i" and c.denominator == 1 for a, c in self.lin.items())
        if whole and (lo == Fraction(-1, 2) or not self.err):
            for a in self.lin:
                zatom(a)
            return iwrap(z3.Sum([z3.IntVal(int(self.const))] + [int(c) * A.list[a[1]] for a, c in self.lin.items()]))
        b = lbound(self.lin, self.const)
        if b is None:
            raise SymbolicDecision("unbounded number rounded")
        ks = list(range(math.floor(b[0] - lo - self.err), math.floor(b[1] - lo + self.err) + 1))
        z, e = self.z(), q(self.err)
        if not self.err:
            strict = lo == 0
            cond = [z3.And(z >= k, z < k + 1) if strict else z3.And(z - k >= q(lo), z - k <= q(lo + 1)) for k in ks]
        else:
            cond = [z3.And(z - k >= q(lo - self.err), z - k <= q(lo + 1 + self.err)) for k in ks]
        return ks[eng().choose(cond)]

    def __round__(self, n=None):
        if n is not None:
            raise SymbolicDecision("rounding to decimals")
        return self._int(Fraction(-1, 2))

    def __floor__(self):
        return self._int(Fraction(0))

    def __ceil__(self):
        return -((-self)._int(Fraction(0))) if isinstance(-self, FReal) else math.ceil(self)

    def __int__(self):
        if bool(self >= 0):
            return self._int(Fraction(0))
        return -((-self)._int(Fraction(0)))

    __trunc__ = __int__

    def __repr__(self):
        return "<%s%s>" % (z3.simplify(self.z()), " turns" if self.ang else "")

    __str__ = __repr__

    def __format__(self, s):
        return repr(self)


def mkreal(lin, const, ang, err=Fraction(0)):
    lin = {k: c for k, c in lin.items() if c}
    if not lin and not err:
        return float(const) * (TAU if ang else 1.0)
    return FReal(lin, const, ang, err)


def angle_atom(name, c, s, D=1, lo=None, hi=None):
    """free angle theta = D * psi with (cos psi, sin psi) = (c, s)"""
    v = z3.Real("t_" + name)
    A.ang[name] = (v, c, s, D)
    if lo is not None:
        A.bnd[("a", name)] = (Fraction(lo), Fraction(hi))
        eng().add(z3.And(v >= q(Fraction(lo)), v <= q(Fraction(hi))))
    return FReal({("a", name): Fraction(1)}, Fraction(0), True)


def cpow(base, k):
    if k < 0:
        base, k = (base[0], -base[1]), -k
    r = (1.0, 0.0)
    for _ in range(k):
        r = poly.cmul(r, base)
    return r


def trig(x):
    """(cos, sin) of an FReal"""
    if not isinstance(x, FReal):
        return math.cos(x), math.sin(x)
    if not x.ang:
        if any(k != "i" for k, _ in x.lin):
            raise SymbolicDecision("trigonometric function of a number which is not an angle")
        x = x.turns()
    cs = (1.0, 0.0)
    turns = x.const
    for (k, i), c in sorted(x.lin.items(), key=str):
        if k == "i":
            d = (c % 1)
            if d:
                zatom((k, i))
                turns += d * eng().value(A.list[i] % d.denominator) if d.denominator <= 5000 else d * eng().value(A.list[i])
            continue
        _, c0, s0, D = A.ang[i]
        m = c * D
        if m.denominator != 1:
            raise SymbolicDecision("angle %s divided too often" % i)
        cs = poly.cmul(cs, cpow((c0, s0), int(m)))
    t = turns % 1
    if t:
        a = float(t) * TAU
        c, s = math.cos(a), math.sin(a)
        exact = {Fraction(1, 4): (0.0, 1.0), Fraction(1, 2): (-1.0, 0.0), Fraction(3, 4): (0.0, -1.0)}.get(t, (c, s))
        cs = poly.cmul(cs, exact)
    return cs


def substitution():
    """variables determined on this path by the closeness tests that held: [(cos var, sin var, cos, sin)]"""
    out = []
    for lin, const in A.pins:
        ang = {}
        for (k, i), c in lin.items():
            if k == "i":
                zatom((k, i))
                const += c * eng().value(A.list[i])
            else:
                ang[i] = ang.get(i, 0) + c
        for b, cb in sorted(ang.items(), key=lambda t: abs(t[1]) * A.ang[t[0]][3]):
            Db = A.ang[b][3]
            ratio = {a: -ca * A.ang[a][3] / (cb * Db) for a, ca in ang.items() if a != b}
            if all(r.denominator == 1 for r in ratio.values()):
                t = -const / (cb * Db)
                cs = (math.cos(float(t) * TAU), math.sin(float(t) * TAU))
                for a, r in ratio.items():
                    cs = poly.cmul(cs, cpow(A.ang[a][1:3], int(r)))
                c0, s0 = A.ang[b][1:3]
                if len(c0.t) == 1 and len(s0.t) == 1:
                    out.append((next(iter(c0.t))[0], next(iter(s0.t))[0], cs[0], cs[1]))
                break
    return out


def principal(x):
    """x reduced to (-pi, pi], up to rounding"""
    if not isinstance(x, FReal):
        return math.atan2(math.sin(x), math.cos(x))
    if x.red == (Fraction(1), Fraction(-1, 2)):
        return x
    return x._reduce(Fraction(1), Fraction(-1, 2))


def atan2(y, x):
    if isinstance(y, np.ndarray) and y.shape == ():
        y = y.item()
    if isinstance(x, np.ndarray) and x.shape == ():
        x = x.item()
    if num(x) and num(y):
        return math.atan2(y, x)
    n2 = x * x + y * y
    if num(n2):
        r = math.sqrt(n2)
    else:
        r = None
        if poly.same(n2, 1.0):
            r = 1.0
        else:
            raise SymbolicDecision("arctan2 of a vector of symbolic length")
    x, y = x * (1.0 / r), y * (1.0 / r)
    # is it an integer combination of the known half angles plus a constant?
    ids = {v for p in (x, y) if not num(p) for m in p.t for v in m}
    cand = []
    for name, (_, c, s, D) in A.ang.items():
        ci = {v for p in (c, s) if not num(p) for m in p.t for v in m}
        if ci & ids:
            cand.append((name, c, s, D))
    from itertools import product
    val = math.atan2(poly.ev(y), poly.ev(x))
    for ms in sorted(product(range(-4, 5), repeat=len(cand)), key=lambda t: sum(map(abs, t))) if len(cand) <= 3 else []:
        cs = (1.0, 0.0)
        a = 0.0
        for m, (name, c, s, D) in zip(ms, cand):
            if m:
                cs = poly.cmul(cs, cpow((c, s), m))
                a += m * math.atan2(poly.ev(s), poly.ev(c))
        d = val - a
        u = rat(d / TAU)
        cs = poly.cmul(cs, (math.cos(d), math.sin(d)))
        if poly.same(cs[0], x) and poly.same(cs[1], y):
            lin = {("a", name): Fraction(m, D) for m, (name, _, _, D) in zip(ms, cand) if m}
            return principal(mkreal(lin, u if u is not None else Fraction(d / TAU), True))
    for name, (_, c, s, D) in A.ang.items():
        if D == 1 and poly.same(c, x) and poly.same(s, y):
            return mkreal({("a", name): Fraction(1)}, Fraction(0), True)
    A.fresh += 1
    return angle_atom("atan2_%d" % A.fresh, x, y, 1, -0.5, 0.5)


# --------------------------------------------------------------------------------------------- quaternions
def qmul(p, r):
    x1, y1, z1, w1 = p
    x2, y2, z2, w2 = r
    D = poly.dot
    return [D([(w1, x2), (x1, w2), (y1, z2), (-z1, y2)]), D([(w1, y2), (y1, w2), (z1, x2), (-x1, z2)]),
            D([(w1, z2), (z1, w2), (x1, y2), (-y1, x2)]), D([(w1, w2), (-x1, x2), (-y1, y2), (-z1, z2)])]


def qmat(qq):
    x, y, z, w = qq
    xx, yy, zz, ww = x * x, y * y, z * z, w * w
    M = np.empty((3, 3), dtype=object)
    M[0] = [xx - yy - zz + ww, (x * y - z * w) * 2, (x * z + y * w) * 2]
    M[1] = [(x * y + z * w) * 2, ww - xx + yy - zz, (y * z - x * w) * 2]
    M[2] = [(x * z - y * w) * 2, (y * z + x * w) * 2, ww - xx - yy + zz]
    return M


def obj(l):
    a = np.empty(len(l), dtype=object)
    for i, v in enumerate(l):
        a[i] = v
    return a


def symbolic(x):
    if isinstance(x, (P, FReal, FInt)):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return any(symbolic(y) for y in x)
    return False


def fork():
    A.fresh += 1
    return eng().decide(z3.Bool("sign%d" % A.fresh))


def same_arr(a, b):
    return all(poly.same(x, y) for x, y in zip(np.ravel(a), np.ravel(b)))


def register(qq):
    for k, m in A.rots:
        if same_arr(k, qq):
            return m
    m = qmat(qq)
    A.rots.append((list(qq), m))
    return m


def make_rot(Real):
    class Rot:
        """quaternion with polynomial entries"""
        __array_priority__ = 1000

        def __init__(self, qq):
            self.q = list(qq)

        @staticmethod
        def _wrap(r):
            a = r.as_quat()
            return Rot(float(x) for x in a) if a.ndim == 1 else r

        def _real(self):
            """scipy's rotation if no entry is symbolic"""
            return None if any(isinstance(x, P) for x in self.q) else Real.from_quat(np.array([float(x) for x in self.q]))

        @staticmethod
        def from_quat(a, **k):
            if not symbolic(a):
                return Rot._wrap(Real.from_quat(a, **k))
            a = [x if isinstance(x, P) else float(x) for x in np.ravel(a)]
            register(a)
            return Rot(a)

        @staticmethod
        def from_matrix(a):
            if not symbolic(a):
                return Rot._wrap(Real.from_matrix(a))
            if not any(isinstance(x, P) for x in np.ravel(a)):
                return Rot._wrap(Real.from_matrix(np.asarray(a).astype(float)))
            for qq, m in A.rots:
                if same_arr(m, a):
                    s = 1.0 if fork() else -1.0
                    return Rot([x * s for x in qq])
            raise SymbolicDecision("rotation matrix of an unknown quaternion")

        @staticmethod
        def _half(axis, ang):
            c, s = trig(ang / 2.0)
            qq = [0.0, 0.0, 0.0, c]
            qq["xyz".index(axis)] = s
            return qq

        @staticmethod
        def from_euler(seq, angles, degrees=False):
            if not symbolic(angles):
                return Rot._wrap(Real.from_euler(seq, angles, degrees))
            angles = list(np.ravel(angles)) if isinstance(angles, np.ndarray) else list(angles)
            k = A.eulers.get((seq, tuple(id(a) for a in angles)))
            if k is not None:
                s = 1.0 if fork() else -1.0
                return Rot([x * s for x in k[0]])
            r = [0.0, 0.0, 0.0, 1.0]
            for ax, an in zip(seq, angles):
                h = Rot._half(ax.lower(), an)
                r = qmul(r, h) if seq.isupper() else qmul(h, r)
            register(r)
            return Rot(r)

        @staticmethod
        def from_rotvec(v, degrees=False):
            if not symbolic(v):
                return Rot._wrap(Real.from_rotvec(v, degrees))
            k = A.eulers.get(("rotvec", tuple(id(a) for a in np.ravel(v))))
            if k is None:
                raise SymbolicDecision("rotation vector of an unknown quaternion")
            s = 1.0 if fork() else -1.0
            return Rot([x * s for x in k[0]])

        @staticmethod
        def identity(*a):
            return Real.identity(*a)

        @staticmethod
        def create_group(*a, **k):
            return Real.create_group(*a, **k)

        @staticmethod
        def random(*a, **k):
            return Real.random(*a, **k)

        def as_quat(self, *a, **k):
            r = self._real()
            return obj(self.q) if r is None else r.as_quat(*a, **k)

        def as_matrix(self):
            r = self._real()
            return register(self.q).copy() if r is None else r.as_matrix()

        def _opaque(self, kind):
            A.fresh += 1
            out = []
            for i in range(3):
                nm = "%s_%d_%d" % (kind, A.fresh, i)
                out.append(angle_atom(nm, *poly.anglevar("opaque!" + nm), D=4, lo=-1, hi=1))
            A.eulers[(kind, tuple(id(a) for a in out))] = (list(self.q), out)
            return obj(out)

        def as_euler(self, seq, degrees=False):
            r = self._real()
            return self._opaque(seq) if r is None else r.as_euler(seq, degrees)

        def as_rotvec(self, degrees=False):
            r = self._real()
            return self._opaque("rotvec") if r is None else r.as_rotvec(degrees)

        def inv(self):
            x, y, z, w = self.q
            return Rot([-x, -y, -z, w])

        def __mul__(self, o):
            a, b = self._real(), (o._real() if isinstance(o, Rot) else o)
            if a is not None and b is not None:
                return Rot._wrap(a * b)
            oq = o.q if isinstance(o, Rot) else list(o.as_quat())
            r = qmul(self.q, oq)
            register(r)
            return Rot(r)

        def apply(self, v, inverse=False):
            m = self.as_matrix()
            return np.asarray(v) @ (m if inverse else m.T)

        def magnitude(self):
            raise SymbolicDecision("magnitude")
    return Rot


_W = {}


def wigner_fit(l, real, Real):
    """coefficients of the entries of D^l as polynomials in (x, y, z, w) of degree 2l"""
    if l in _W:
        return _W[l]
    from itertools import combinations_with_replacement
    mons = [m for m in combinations_with_replacement(range(4), 2 * l) if m.count(3) <= 1]
    lower = [m for d in range(0, 2 * l, 2) for m in combinations_with_replacement(range(4), d) if m.count(3) <= 1]
    mons = mons + lower
    rng = np.random.RandomState(5)
    n = 2 * len(mons) + 20
    qs = rng.randn(n, 4)
    qs /= np.linalg.norm(qs, axis=1, keepdims=True)
    Y = np.stack([real(l, *Real.from_quat(qq).as_euler("ZYZ"), field="real").reshape(-1) for qq in qs])
    X = np.stack([np.prod(qs[:, list(m)], axis=1) if m else np.ones(n) for m in mons], axis=1)
    C, *_ = np.linalg.lstsq(X, Y, rcond=None)
    assert np.abs(X @ C - Y).max() < 1e-8, "wigner_D_matrix is not the expected polynomial"
    C[np.abs(C) < 1e-10] = 0.0
    _W[l] = mons, C
    return _W[l]


def wigner_poly(l, qq, real, Real):
    if l == 0:
        return np.eye(1)
    mons, C = wigner_fit(l, real, Real)
    vals = []
    cache = {(): 1.0}
    for m in sorted(mons, key=len):
        for k in range(1, len(m) + 1):
            if m[:k] not in cache:
                cache[m[:k]] = cache[m[:k - 1]] * qq[m[k - 1]]
    vals = [cache[m] for m in mons]
    d = 2 * l + 1
    out = np.empty(d * d, dtype=object)
    for j in range(d * d):
        out[j] = poly.dot([(v, float(c)) for v, c in zip(vals, C[:, j]) if c])
    return out.reshape(d, d)


def make_wigner(real, Real):
    def wigner_D_matrix(l, a, b, g, *args, **kw):
        ang = [x.item() if isinstance(x, np.ndarray) and x.shape == () else x for x in (a, b, g)]
        if not any(isinstance(x, FReal) for x in ang):
            return real(l, a, b, g, *args, **kw)
        if kw.get("field", args[0] if args else "real") != "real":
            raise SymbolicDecision("complex wigner matrix")
        k = A.eulers.get(("ZYZ", tuple(id(x) for x in ang)))
        qq = k[0] if k is not None else make_rot(Real).from_euler("ZYZ", ang).q
        return wigner_poly(l, qq, real, Real)
    return wigner_D_matrix


# --------------------------------------------------------------------------------------------- numpy / math entry points
class Hashed:
    """rounded symbolic value: hash and equality of the polynomial"""

    def __init__(self, p):
        self.k = poly._argid(p)

    def __hash__(self):
        return hash(("poly", self.k))

    def __eq__(self, o):
        return isinstance(o, Hashed) and o.k == self.k


def close(a, b, rtol, atol):
    d = a - b
    if isinstance(d, FReal):
        tol = atol + rtol * (abs(float(b)) if not symbolic(b) else 0.0)
        tol = Fraction(tol / (TAU if d.ang else 1.0))
        z, e = d.z(), d.err
        r = bool(Fuzz((d.key(), "close", tol), z3.And(z <= q(tol + e), z >= q(-tol - e)), z3.Or(z > q(tol - e), z < q(e - tol))))
        if r and d.ang and tol < Fraction(1, 10 ** 7):
            A.pins.append((dict(d.lin), d.const))
        return r
    if not isinstance(d, P):
        return abs(d) <= atol + rtol * abs(float(b) if not symbolic(b) else 0.0)
    # a non zero polynomial is not close to zero outside of a set of measure zero (documented bound)
    poly.CTX.assumed.add("continuous parameters in general position with respect to the closeness tests of the code (the special positions are separate instances)")
    return all(abs(c) < 1e-6 for c in d.t.values())


_PATCH = [0, None]


def patches():
    if _PATCH[0] != len(sys.modules):
        _PATCH[:] = [len(sys.modules), _patches()]
    return _PATCH[1]


def _patches():
    """(object, attribute, replacement) while a symbolic group path runs"""
    import scipy.spatial.transform as sst
    Real = sst.Rotation
    Rot = make_rot(Real)
    out = []
    wd = None
    try:
        from lie_learn.representations.SO3 import wigner_d as W
        wd = W.wigner_D_matrix
    except Exception:
        pass
    sym_w = make_wigner(wd, Real) if wd else None
    for n, m in list(sys.modules.items()):
        if n.startswith("escnn") and m is not None:
            for k, v in list(vars(m).items()):
                if v is Real:
                    out.append((m, k, Rot))
                elif wd is not None and v is wd:
                    out.append((m, k, sym_w))

    def over(mod, name, f):
        orig = getattr(mod, name)

        def g(*a, **k):
            if any(symbolic(x) for x in a):
                return f(orig, *a, **k)
            return orig(*a, **k)
        out.append((mod, name, g))

    def un(which):
        def f(orig, x, *a, **k):
            if isinstance(x, np.ndarray):
                r = np.empty(x.shape, dtype=object)
                for i in np.ndindex(x.shape):
                    r[i] = f(orig, x[i]) if x.ndim else f(orig, x.item())
                return r
            if isinstance(x, FInt):
                x = x._real()
            if isinstance(x, FReal):
                return trig(x)[which]
            if isinstance(x, P):
                return poly.trig(x)[which]
            return (math.cos, math.sin)[which](x)
        return f
    over(np, "cos", un(0))
    over(np, "sin", un(1))
    over(math, "cos", un(0))
    over(math, "sin", un(1))
    over(np, "arctan2", lambda o, y, x, *a: atan2(y, x))
    over(math, "atan2", lambda o, y, x: atan2(y, x))

    def mclose(o, a, b, *, rel_tol=1e-9, abs_tol=0.0):
        if isinstance(a, (FReal, FInt)) or isinstance(b, (FReal, FInt)):
            if symbolic(a) and symbolic(b):
                raise SymbolicDecision("isclose of two symbolic numbers")
            if symbolic(b):
                a, b = b, a
            return close(a, b, rel_tol, abs_tol)
        return close(a, b, rel_tol, abs_tol)
    over(math, "isclose", mclose)

    def npclose(o, a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
        a, b = np.broadcast_arrays(np.asarray(a, dtype=object), np.asarray(b, dtype=object))
        r = np.empty(a.shape, dtype=bool)
        for i in np.ndindex(a.shape):
            x, y = a[i], b[i]
            if isinstance(x, np.ndarray):
                x = x.item()
            if isinstance(y, np.ndarray):
                y = y.item()
            r[i] = close(x, y, rtol, atol)
        return r if r.shape else bool(r)
    over(np, "isclose", npclose)
    over(np, "allclose", lambda o, a, b, rtol=1e-5, atol=1e-8, equal_nan=False: bool(np.all(npclose(o, a, b, rtol, atol))))

    def rnd(o, x, *a, **k):
        if isinstance(x, np.ndarray):
            r = np.empty(x.shape, dtype=object)
            for i in np.ndindex(x.shape):
                v = x[i]
                r[i] = Hashed(v) if isinstance(v, P) else o(float(v), *a, **k)
            return r
        if isinstance(x, P):
            return Hashed(x)
        return round(x)
    over(np, "around", rnd)
    over(np, "round", rnd)
    over(np, "rint", rnd)
    over(np, "abs", lambda o, x, *a: np.vectorize(abs, otypes=[object])(x) if isinstance(x, np.ndarray) else abs(x))
    over(np, "fabs", lambda o, x, *a: np.vectorize(abs, otypes=[object])(x) if isinstance(x, np.ndarray) else abs(x))
    over(np, "mod", lambda o, x, m: x % m)
    over(np, "remainder", lambda o, x, m: x % m)
    over(math, "fmod", lambda o, x, m: x % m)

    def fl(o, x):
        return x.__floor__()
    over(math, "floor", fl)
    over(np, "floor", fl)

    def alloc(name):
        orig = getattr(np, name)

        def g(shape, dtype=float, *a, **k):
            r = orig(shape, dtype, *a, **k)
            if dtype is float and not a and not k and sys._getframe(1).f_globals.get("__name__", "").startswith("escnn.group"):
                r = np.full(shape, 0.0 if name == "zeros" else float("nan"), dtype=object)
            return r
        out.append((np, name, g))
    alloc("empty")
    alloc("zeros")
    over(np, "sqrt", lambda o, x: np.vectorize(lambda v: poly.fn("sqrt", v) if isinstance(v, P) else math.sqrt(v), otypes=[object])(x)
         if isinstance(x, np.ndarray) else poly.fn("sqrt", x))

    def det(o, M):
        M = np.asarray(M)
        n = M.shape[0]
        if n == 1:
            return M[0, 0]
        if n == 2:
            return M[0, 0] * M[1, 1] - M[0, 1] * M[1, 0]
        s = 0.0
        for j in range(n):
            s = s + (-1) ** j * M[0, j] * det(o, np.delete(np.delete(M, 0, 0), j, 1))
        return s
    over(np.linalg, "det", det)

    def norm(o, x, ord=None, axis=None, keepdims=False):
        if axis is not None or ord not in (None, 2):
            raise SymbolicDecision("norm over an axis")
        r = poly.sum_([v * v for v in np.ravel(x)])
        if not num(r) and poly.same(r, 1.0):
            return 1.0
        if not num(r):
            for _, c, s, D in A.ang.values():
                if poly.same(r, s * s):
                    return s if fork() else -s
        return math.sqrt(r) if num(r) else poly.fn("sqrt", r)
    over(np.linalg, "norm", norm)
    from scipy import sparse

    def block_diag(o, mats, format=None, dtype=None):
        mats = [np.atleast_2d(np.asarray(m)) for m in mats]
        n, k = sum(m.shape[0] for m in mats), sum(m.shape[1] for m in mats)
        R = np.zeros((n, k), dtype=object)
        R[:] = 0.0
        i = j = 0
        for m in mats:
            R[i:i + m.shape[0], j:j + m.shape[1]] = m
            i += m.shape[0]
            j += m.shape[1]
        return R.view(Dense)
    over(sparse, "block_diag", block_diag)
    return out


class Dense(np.ndarray):
    """dense stand-in for a sparse block diagonal matrix"""

    def todense(self):
        return np.asarray(self)

    toarray = todense

    def tocsc(self):
        return self

    tocsr = tocsc


class patched:
    def __enter__(self):
        self.saved = []
        for o, n, f in patches():
            self.saved.append((o, n, getattr(o, n)))
            setattr(o, n, f)
        return self

    def __exit__(self, *a):
        for o, n, f in self.saved:
            setattr(o, n, f)
