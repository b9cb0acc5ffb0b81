"""Symbolic group elements with an independent oracle of what they denote.

For each group: dims() names the symbolic parameters, get() builds the default-parametrization value, mul/inv are the textbook
formulas on those values, conv() gives the value in another parametrization, same() claims that two values denote one element.
The oracles use the documented meaning (rotation by 2 pi k / N, by an angle, the unit quaternion (x, y, z, w), flip first)."""
import math

import numpy as np

from symx import poly, sgroup
from symx.poly import P
from .common import G, H

TAU = 2 * math.pi


def cs(x):
    """(cos, sin) of a number or symbolic angle"""
    if isinstance(x, sgroup.FInt):
        x = x._real()
    if isinstance(x, sgroup.FReal):
        return sgroup.trig(x)
    return math.cos(x), math.sin(x)


def R2(x):
    c, s = cs(x)
    M = np.empty((2, 2), dtype=object if isinstance(c, P) else float)
    M[:] = [[c, -s], [s, c]]
    return M


def quat_arr(q):
    return sgroup.obj(list(q)) if any(isinstance(v, P) for v in q) else np.array([float(v) for v in q])


def R3(q):
    M = sgroup.qmat(list(q))
    return M if any(isinstance(v, P) for v in M.reshape(-1)) else M.astype(float)


def mod(x, n):
    return x % n


def scipy_rot():
    import escnn.group.groups.so3_utils as u
    return u.Rotation


class El:
    full = True

    def __init__(self, g):
        self.g = g

    def params(self):
        return list(self.g.PARAMETRIZATIONS)

    def key(self, h, label, x, y):
        self.same(h, label, x, y)


class Cyc(El):
    params_few = None

    def dims(self, p, wide=False):
        return {p: (0, self.g.order() - 1)}

    def get(self, h, v, p):
        return v[p]

    def mul(self, x, y):
        return mod(x + y, self.g.order())

    def inv(self, x):
        return mod(-x, self.g.order())

    def e(self):
        return 0

    def same(self, h, label, x, y):
        h.true(label + ": type", isinstance(x, (int, np.integer)))
        h.true(label, bool(mod(x - y, self.g.order()) == 0))

    def conv(self, x, param):
        N = self.g.order()
        if param == "int":
            return x
        t = x * TAU / N
        t = t if isinstance(t, float) else float(t)
        return t if param == "radians" else R2(t)

    def unconv(self, h, label, y, param, x):
        """the value y in parametrization param denotes x"""
        if param == "int":
            return self.same(h, label, y, x)
        if param == "radians":
            y = R2(y)
        h.eq(label, y, R2(x * TAU / self.g.order()))

    def mat(self, x):
        return R2(x * TAU / self.g.order())


class SO2(El):
    D = 1           # angles are D times the angle whose cosine and sine are the variables

    def dims(self, p, wide=False):
        return {p: ("angle", self.D) + ((-2, 3) if wide else (0, 1))}

    def get(self, h, v, p):
        return v[p]

    def mul(self, x, y):
        return x + y

    def inv(self, x):
        return -x

    def e(self):
        return 0.0

    def same(self, h, label, x, y):
        h.eq(label, R2(x), R2(y), 1e-6)

    def conv(self, x, param):
        return x if param == "radians" else R2(x)

    def unconv(self, h, label, y, param, x):
        h.eq(label, R2(y) if param == "radians" else y, R2(x), 1e-6)

    def mat(self, x):
        return R2(x)


class Flip2(El):
    """(flip, rotation): first the flip, then the rotation"""

    def __init__(self, g, base):
        super().__init__(g)
        self.b = base

    def dims(self, p, wide=False):
        d = {p + ".f": (0, 1)}
        d.update(self.b.dims(p, wide))
        return d

    def get(self, h, v, p):
        return (v[p + ".f"], self.b.get(h, v, p))

    def sg(self, f, r):
        if isinstance(r, sgroup.FReal) and isinstance(f, sgroup.FInt):
            return -r if f == 1 else r
        return r * (1 - 2 * f)

    def mul(self, x, y):
        r = self.sg(x[0], y[1])
        return (mod(x[0] + y[0], 2), self.b.mul(x[1], r))

    def inv(self, x):
        r = self.sg(x[0], x[1])
        return (x[0], self.b.inv(r))

    def e(self):
        return (0, self.b.e())

    def same(self, h, label, x, y):
        h.true(label + ": flip", bool(x[0] == y[0]))
        self.b.same(h, label, x[1], y[1])

    def conv(self, x, param):
        return (x[0], self.b.conv(x[1], param))

    def unconv(self, h, label, y, param, x):
        h.true(label + ": flip", bool(y[0] == x[0]))
        self.b.unconv(h, label, y[1], param, x[1])

    def mat(self, x):
        M = self.b.mat(x[1])
        s = 1 - 2 * x[0]
        if isinstance(s, sgroup.FInt):
            s = -1 if x[0] == 1 else 1
        F = M.copy()
        F[:, 1] = M[:, 1] * s
        return F


class _N:
    def __init__(self, n):
        self.n = n

    def order(self):
        return self.n


class SO3(El):
    def dims(self, p, wide=False):
        return {}

    def get(self, h, v, p):
        return quat_arr(h.quat(p))

    def mul(self, x, y):
        return quat_arr(sgroup.qmul(list(x), list(y)))

    def inv(self, x):
        return quat_arr([-x[0], -x[1], -x[2], x[3]])

    def e(self):
        return np.array([0., 0., 0., 1.])

    def same(self, h, label, x, y):
        h.eq(label, R3(x), R3(y), 1e-5)

    def conv(self, x, param):
        if param == "Q":
            return x
        r = scipy_rot().from_quat(x)
        return r.as_matrix() if param == "MAT" else r.as_rotvec() if param == "EV" else r.as_euler(param)

    def unconv(self, h, label, y, param, x):
        if param == "Q":
            return self.same(h, label, y, x)
        if param != "MAT":
            y = (scipy_rot().from_rotvec(y) if param == "EV" else scipy_rot().from_euler(param, y)).as_matrix()
        h.eq(label, y, R3(x), 1e-5)

    def mat(self, x):
        return R3(x)


class Inv3(El):
    """O(3): (inversion, rotation)"""

    def __init__(self, g):
        super().__init__(g)
        self.b = SO3(None)

    def dims(self, p, wide=False):
        return {p + ".f": (0, 1)}

    def get(self, h, v, p):
        return (v[p + ".f"], self.b.get(h, v, p))

    def mul(self, x, y):
        return (mod(x[0] + y[0], 2), self.b.mul(x[1], y[1]))

    def inv(self, x):
        return (x[0], self.b.inv(x[1]))

    def e(self):
        return (0, self.b.e())

    def same(self, h, label, x, y):
        h.true(label + ": inversion", bool(x[0] == y[0]))
        self.b.same(h, label, x[1], y[1])

    def conv(self, x, param):
        return (x[0], self.b.conv(x[1], param))

    def unconv(self, h, label, y, param, x):
        h.true(label + ": inversion", bool(y[0] == x[0]))
        self.b.unconv(h, label, y[1], param, x[1])

    def mat(self, x):
        s = 1 - 2 * x[0]
        if isinstance(s, sgroup.FInt):
            s = -1 if x[0] == 1 else 1
        return R3(x[1]) * s


class Finite3(SO3):
    """octahedral / icosahedral group: quaternions of the listed elements"""
    full = False

    def dims(self, p, wide=False):
        return {p: (0, self.g.order() - 1)}

    def table(self):
        if not hasattr(self, "_t"):
            self._t = [np.array(e.to("Q"), dtype=float) for e in self.g.elements]
        return self._t

    def params(self):
        return ["Q", "MAT", "EV", "ZYZ", "xyz"]

    def get(self, h, v, p):
        k = v[p]
        return self.table()[k.__index__()]


class Prod(El):
    def __init__(self, g, generic=False):
        super().__init__(g)
        self.a, self.b = el(g.G1, generic), el(g.G2, generic)
        self.full = self.a.full and self.b.full

    def dims(self, p, wide=False):
        d = self.a.dims(p + "1", wide)
        d.update(self.b.dims(p + "2", wide))
        return d

    def get(self, h, v, p):
        return (self.a.get(h, v, p + "1"), self.b.get(h, v, p + "2"))

    def mul(self, x, y):
        return (self.a.mul(x[0], y[0]), self.b.mul(x[1], y[1]))

    def inv(self, x):
        return (self.a.inv(x[0]), self.b.inv(x[1]))

    def e(self):
        return (self.a.e(), self.b.e())

    def same(self, h, label, x, y):
        self.a.same(h, label + ".1", x[0], y[0])
        self.b.same(h, label + ".2", x[1], y[1])

    def params(self):
        """every parametrization of each factor at least once (a few of the rotations')"""
        A, B = ([p for p in x.params() if len(p) != 3 or p in ("MAT", "ZYZ", "xyz")] for x in (self.a, self.b))
        L = ["[%s | %s]" % (A[i % len(A)], B[i % len(B)]) for i in range(max(len(A), len(B)))] + ["[%s | %s]" % (A[-1], B[0]), "[%s | %s]" % (A[0], B[-1])]
        return list(dict.fromkeys(L))

    @staticmethod
    def split(param):
        a, b = param[1:-1].split(" | ")
        return a, b

    def conv(self, x, param):
        a, b = self.split(param)
        return (self.a.conv(x[0], a), self.b.conv(x[1], b))

    def unconv(self, h, label, y, param, x):
        a, b = self.split(param)
        self.a.unconv(h, label + ".1", y[0], a, x[0])
        self.b.unconv(h, label + ".2", y[1], b, x[1])


def el(g, generic=False):
    """generic: arbitrary rotations instead of the elements of the finite rotation groups"""
    n = type(g).__name__
    if n == "CyclicGroup":
        return Cyc(g)
    if n == "DihedralGroup":
        return Flip2(g, Cyc(_N(g.rotation_order)))
    if n == "SO2":
        return SO2(g)
    if n == "O2":
        return Flip2(g, SO2(None))
    if n == "SO3":
        return SO3(g)
    if n == "O3":
        return Inv3(g)
    if n in ("Octahedral", "Icosahedral"):
        return SO3(g) if generic else Finite3(g)
    if hasattr(g, "G1"):
        return Prod(g, generic)
    raise KeyError(n)
