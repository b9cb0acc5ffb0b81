"""Symbolic real arithmetic: multivariate polynomials over named variables and atoms.

A value is a python float or a P.  P.t maps a monomial (sorted tuple of variable ids, with repetition)
to a float coefficient.  Variables are

* inputs        free reals in a box [lo, hi]
* angle pairs   (c, s) with c^2 + s^2 = 1              (rule  s*s -> 1 - c*c)
* unit quaternions (x, y, z, w)                        (rule  w*w -> 1 - x*x - y*y - z*z)
* boolean vars  b in {0, 1}                            (rule  b*b -> b)
* atoms         the value of a non-polynomial function at polynomial arguments.  Atoms are hash-consed: two
                applications of the same function to arguments whose coefficients agree to ATOL are the same atom
                (the "floats are reals up to rounding" assumption stated in every evidence file).

Every variable carries a value at one fixed pseudo random point, so that every expression can be evaluated there:
this gives the fingerprint used for hash-consing and is what the encoder is validated against.
"""
import math
import random

import numpy as np

ATOL = 5e-6      # coefficients closer than this are the same real number
DROP = 1e-13     # coefficients below this are dropped after cancellation


class Var:
    __slots__ = ("id", "name", "kind", "lo", "hi", "fn", "args", "val", "partner")

    def __init__(self, id, name, kind, lo, hi, val, fn=None, args=()):
        self.id, self.name, self.kind, self.lo, self.hi, self.val = id, name, kind, lo, hi, val
        self.fn, self.args = fn, args
        self.partner = None


class Ctx:
    """all symbolic state of one harness run"""

    def __init__(self, seed=0):
        self.vars = []
        self.rules = {}        # var id -> poly terms replacing v*v
        self.invrule = {}      # (id,id) -> True, product is 1
        self.special = set()
        self.hot = {}          # one-hot selector -> first selector of its group
        self.byname = {}
        self.table = {}        # fn name -> {bucket: [(args, var)]}
        self.rng = random.Random(seed * 7919 + 13)
        self.nonzero = []      # atoms assumed bounded away from zero (denominators)
        self.natoms = 0
        self.fresh = 0
        self.assumed = set()
        self.angledef = {}     # name of a derived angle -> (cos, sin)


CTX = Ctx()


def reset(seed=0):
    global CTX
    CTX = Ctx(seed)
    return CTX


def _newvar(name, kind, lo, hi, val, fn=None, args=()):
    v = Var(len(CTX.vars), name, kind, lo, hi, val, fn, args)
    CTX.vars.append(v)
    if name is not None:
        CTX.byname[name] = v
    return v


def var(name, lo=-1.0, hi=1.0):
    """a free real input (the same name gives the same variable)"""
    v = CTX.byname.get(name)
    if v is None:
        v = _newvar(name, "in", lo, hi, lo + (hi - lo) * (0.1 + 0.8 * CTX.rng.random()))
    return P({(v.id,): 1.0})


def boolvar(name):
    v = CTX.byname.get(name)
    if v is None:
        v = _newvar(name, "bool", 0.0, 1.0, float(CTX.rng.random() < .5))
        CTX.rules[v.id] = {(v.id,): 1.0}
        CTX.special.add(v.id)
    return P({(v.id,): 1.0})


def onehot(name, n):
    """n selectors, exactly one of which is 1"""
    if name + "[0]" not in CTX.byname:
        k = CTX.rng.randrange(n)
        vs = [_newvar("%s[%d]" % (name, i), "hot", 0.0, 1.0, float(i == k)) for i in range(n)]
        ids = tuple(v.id for v in vs)
        for v in vs:
            v.partner = ids
            CTX.rules[v.id] = {(v.id,): 1.0}
            CTX.special.add(v.id)
            CTX.hot[v.id] = ids[0]
    return [P({(CTX.byname["%s[%d]" % (name, i)].id,): 1.0}) for i in range(n)]


def anglevar(name):
    """(cos, sin) of a free angle"""
    v = CTX.byname.get(name + ".c")
    if v is None:
        th = CTX.rng.uniform(0.2, 6.0)
        v = _newvar(name + ".c", "cos", -1.0, 1.0, math.cos(th))
        s = _newvar(name + ".s", "sin", -1.0, 1.0, math.sin(th))
        v.partner = s.id
        s.partner = v.id
        CTX.rules[s.id] = {(): 1.0, (v.id, v.id): -1.0}
        CTX.special.add(s.id)
    s = CTX.vars[v.partner]
    return P({(v.id,): 1.0}), P({(s.id,): 1.0})


def quatvar(name):
    """a free unit quaternion (x, y, z, w)"""
    v = CTX.byname.get(name + ".x")
    if v is None:
        q = [CTX.rng.gauss(0, 1) for _ in range(4)]
        n = math.sqrt(sum(a * a for a in q))
        vs = [_newvar(name + "." + k, "quat", -1.0, 1.0, a / n) for k, a in zip("xyzw", q)]
        CTX.rules[vs[3].id] = {(): 1.0, (vs[0].id,) * 2: -1.0, (vs[1].id,) * 2: -1.0, (vs[2].id,) * 2: -1.0}
        CTX.special.add(vs[3].id)
    return tuple(P({(CTX.byname[name + "." + k].id,): 1.0}) for k in "xyzw")


def spherevar(name):
    """a free unit vector (x, y, z)"""
    if name + ".x" not in CTX.byname:
        q = [CTX.rng.gauss(0, 1) for _ in range(3)]
        n = math.sqrt(sum(a * a for a in q))
        vs = [_newvar(name + "." + k, "quat", -1.0, 1.0, a / n) for k, a in zip("xyz", q)]
        CTX.rules[vs[2].id] = {(): 1.0, (vs[0].id,) * 2: -1.0, (vs[1].id,) * 2: -1.0}
        CTX.special.add(vs[2].id)
    return tuple(P({(CTX.byname[name + "." + k].id,): 1.0}) for k in "xyz")


# --------------------------------------------------------------------------------------------- monomials
def _reduce_into(m, c, acc):
    """add c*m to acc, applying the rewrite rules"""
    rules, inv = CTX.rules, CTX.invrule
    if CTX.hot:
        seen = {}
        for v in m:
            h = CTX.hot.get(v)
            if h is not None and seen.setdefault(h, v) != v:
                return                     # two different selectors of one group
    stack = [(m, c)]
    special = CTX.special
    while stack:
        m, c = stack.pop()
        prev = -1
        hit = None
        for i, v in enumerate(m):
            if v == prev and v in rules:
                hit = i
                break
            prev = v
        if hit is not None:
            rest = m[:hit - 1] + m[hit + 1:]
            for m2, c2 in rules[m[hit]].items():
                stack.append((tuple(sorted(rest + m2)) if m2 else rest, c * c2))
            continue
        if inv:
            done = False
            for v in m:
                w = inv.get(v)
                if w is not None and w in m:
                    l = list(m)
                    l.remove(v)
                    l.remove(w)
                    stack.append((tuple(l), c))
                    done = True
                    break
            if done:
                continue
        acc[m] = acc.get(m, 0.0) + c


def _mono_mul(m1, m2, c, acc):
    if not m1:
        m = m2
    elif not m2:
        m = m1
    else:
        m = tuple(sorted(m1 + m2)) if len(m1) + len(m2) > 2 else ((m1 + m2) if m1[0] <= m2[0] else (m2 + m1))
        sp = CTX.special
        if sp and not sp.isdisjoint(m):
            _reduce_into(m, c, acc)
            return
    acc[m] = acc.get(m, 0.0) + c


def mk(t):
    """normalise a term dict to float or P"""
    dead = [m for m, c in t.items() if -DROP < c < DROP]
    for m in dead:
        del t[m]
    if not t:
        return 0.0
    if len(t) == 1 and () in t:
        return t[()]
    return P(t)


def terms(x):
    if type(x) is P:
        return x.t
    x = float(x)
    return {(): x} if x != 0.0 else {}


def num(x):
    return not isinstance(x, P)


class SymbolicDecision(Exception):
    """the code under test branched on a symbolic value"""
    raised = 0

    def __init__(self, *a):
        SymbolicDecision.raised += 1
        super().__init__(*a)


class P:
    __slots__ = ("t",)
    __array_priority__ = 1000

    def __init__(self, t):
        self.t = t

    # ---- arithmetic
    def __add__(self, o):
        if type(o) is P:
            a, b = (self.t, o.t) if len(self.t) >= len(o.t) else (o.t, self.t)
            acc = dict(a)
            for m, c in b.items():
                acc[m] = acc.get(m, 0.0) + c
            return mk(acc)
        if hasattr(o, "__array__") and getattr(o, "shape", ()) != ():
            return NotImplemented
        o = float(o)
        if o == 0.0:
            return self
        acc = dict(self.t)
        acc[()] = acc.get((), 0.0) + o
        return mk(acc)

    __radd__ = __add__

    def __neg__(self):
        return P({m: -c for m, c in self.t.items()})

    def __pos__(self):
        return self

    def __sub__(self, o):
        if type(o) is P:
            acc = dict(self.t)
            for m, c in o.t.items():
                acc[m] = acc.get(m, 0.0) - c
            return mk(acc)
        if hasattr(o, "__array__") and getattr(o, "shape", ()) != ():
            return NotImplemented
        return self + (-float(o))

    def __rsub__(self, o):
        return (-self) + o

    def __mul__(self, o):
        if type(o) is P:
            acc = {}
            for m1, c1 in self.t.items():
                for m2, c2 in o.t.items():
                    _mono_mul(m1, m2, c1 * c2, acc)
            return mk(acc)
        if hasattr(o, "__array__") and getattr(o, "shape", ()) != ():
            return NotImplemented
        o = float(o)
        if o == 0.0:
            return 0.0
        if o == 1.0:
            return self
        return mk({m: c * o for m, c in self.t.items()})

    __rmul__ = __mul__

    def __truediv__(self, o):
        if type(o) is P:
            return self * inv(o)
        if hasattr(o, "__array__") and getattr(o, "shape", ()) != ():
            return NotImplemented
        return self * (1.0 / float(o))

    def __rtruediv__(self, o):
        return inv(self) * float(o)

    def __pow__(self, k):
        if type(k) is P:
            return fn("pow", self, k)
        k = float(k)
        if k == int(k) and 0 <= k <= 16:
            r = 1.0
            for _ in range(int(k)):
                r = self * r
            return r
        if k == int(k) and k < 0:
            return inv(self ** (-k))
        if k == 0.5:
            return fn("sqrt", self)
        if k == -0.5:
            return inv(fn("sqrt", self))
        return fn("pow", self, k)

    def __abs__(self):
        return fn("abs", self)

    # ---- numpy object-array protocol (np.cos(obj) calls obj.cos())
    def sqrt(self):
        return fn("sqrt", self)

    def exp(self):
        return fn("exp", self)

    def conjugate(self):
        return self

    def cos(self):
        return trig(self)[0]

    def sin(self):
        return trig(self)[1]

    @property
    def real(self):
        return self

    def rint(self):
        return fn("rint", self)

    # ---- comparisons build 0/1 indicator polynomials
    def __gt__(self, o):
        return ind(self - o)

    def __lt__(self, o):
        return ind(o - self)

    def __ge__(self, o):
        return notb(ind(o - self))

    def __le__(self, o):
        return notb(ind(self - o))

    def __eq__(self, o):
        d = self - o
        if num(d):
            return abs(d) < 1e-9
        return same(d, 0.0) or DECIDE(d, "eq")

    def __ne__(self, o):
        return not (self == o)

    __hash__ = None

    def __bool__(self):
        return bool(DECIDE(self, "bool"))

    def __float__(self):
        raise SymbolicDecision("float() of a symbolic value")

    def __repr__(self):
        items = list(self.t.items())
        s = " + ".join("%.4g*%s" % (c, "*".join(vname(v) for v in m)) for m, c in items[:6])
        return s + (" + ...(%d terms)" % len(items) if len(items) > 6 else "")


def _decide_default(p, why):
    raise SymbolicDecision("branch on symbolic value %r (%s)" % (p, why))


DECIDE = _decide_default


def vname(i):
    v = CTX.vars[i]
    return v.name if v.name is not None else "%s#%d" % (v.fn, i)


# --------------------------------------------------------------------------------------------- sums of products
def dot(pairs):
    """sum of a*b over pairs"""
    acc = {}
    get = acc.get
    const = 0.0
    special = CTX.special
    for a, b in pairs:
        ta, tb = type(a) is P, type(b) is P
        if ta and tb:
            bt = b.t
            for m1, c1 in a.t.items():
                for m2, c2 in bt.items():
                    if not m1:
                        m = m2
                    elif not m2:
                        m = m1
                    else:
                        if len(m1) == 1 and len(m2) == 1:
                            m = (m1 + m2) if m1[0] <= m2[0] else (m2 + m1)
                        else:
                            m = tuple(sorted(m1 + m2))
                        if special and not special.isdisjoint(m):
                            _reduce_into(m, c1 * c2, acc)
                            continue
                    acc[m] = get(m, 0.0) + c1 * c2
        elif ta:
            if b == 0.0:
                continue
            for m, c in a.t.items():
                acc[m] = get(m, 0.0) + c * b
        elif tb:
            if a == 0.0:
                continue
            for m, c in b.t.items():
                acc[m] = get(m, 0.0) + c * a
        else:
            const += a * b
    if const:
        acc[()] = acc.get((), 0.0) + const
    return mk(acc)


def sum_(xs):
    acc = {}
    const = 0.0
    for x in xs:
        if type(x) is P:
            for m, c in x.t.items():
                acc[m] = acc.get(m, 0.0) + c
        else:
            const += x
    if const:
        acc[()] = acc.get((), 0.0) + const
    return mk(acc)


# --------------------------------------------------------------------------------------------- evaluation
def ev(x, vals=None):
    """value at the sample point (or at the assignment vals: list indexed by var id)"""
    if type(x) is not P:
        return float(x)
    s = 0.0
    V = CTX.vars
    for m, c in x.t.items():
        p = c
        for v in m:
            p *= V[v].val if vals is None else vals[v]
        s += p
    return s


def assign(values):
    """full assignment (list by var id) from a dict name -> value for the free variables; atoms are recomputed"""
    out = [0.0] * len(CTX.vars)
    for v in CTX.vars:
        if v.fn is None:
            out[v.id] = values.get(v.name, v.val)
        else:
            args = [tuple(ev(a, out) for a in v.args)] if v.fn in ("max", "maxset") else None
            if v.fn == "max":
                out[v.id] = max(args[0])
            elif v.fn == "inv":
                d = ev(v.args[0], out)
                out[v.id] = 1.0 / d if d != 0 else float("inf")
            else:
                try:
                    out[v.id] = NUM[v.fn](*[ev(a, out) for a in v.args])
                except (ValueError, OverflowError):
                    out[v.id] = float("nan")
    return out


def bounds(x):
    """interval of a value from the variables' intervals"""
    if type(x) is not P:
        return float(x), float(x)
    lo = hi = 0.0
    V = CTX.vars
    for m, c in x.t.items():
        a, b = mono_bounds(m)
        if c >= 0:
            lo += c * a
            hi += c * b
        else:
            lo += c * b
            hi += c * a
    if lo < 0.0 < hi and len(x.t) > 1:
        q = _quadratic(x)
        if q is not None:
            c0, e0, e1 = q
            lo = max(lo, c0 + (0.0 if e0 > -1e-9 else lo))
            hi = min(hi, c0 + (0.0 if e1 < 1e-9 else hi))
        q = _radial(x)
        if q is not None:
            lo, hi = max(lo, q[0]), min(hi, q[1])
    return lo, hi


def _radial(x):
    """bounds of a r^2 + b r + c + r (w . u) for one variable r and a unit vector u of variables"""
    r = None
    T, nlo, nhi = {}, 0.0, 0.0
    for m, c in x.t.items():
        if abs(c) < 1e-5 and m:
            lo, hi = mono_bounds(m)
            nlo, nhi = nlo + min(c * lo, c * hi), nhi + max(c * lo, c * hi)
        else:
            T[m] = c
    for m in T:
        if len(m) == 2 and m[0] == m[1]:
            if r is not None:
                return None
            r = m[0]
        elif len(m) > 2:
            return None
    if r is None:
        return None
    a = b = c = 0.0
    w = {}
    for m, k in T.items():
        if m == ():
            c = k
        elif m == (r, r):
            a = k
        elif m == (r,):
            b = k
        elif len(m) == 2 and r in m:
            w[m[1] if m[0] == r else m[0]] = k
        else:
            return None
    if w:
        n = {(CTX.vars[v].name or "")[:-2] for v in w}
        if len(n) != 1 or any(CTX.vars[v].kind not in ("cos", "sin", "quat") for v in w):
            return None
    rho = math.sqrt(sum(k * k for k in w.values()))
    v = CTX.vars[r]
    if not (abs(v.lo) < BIG and abs(v.hi) < BIG):
        return None
    L = []
    for s in (rho, -rho):
        pts = [v.lo, v.hi]
        if a:
            t = -(b + s) / (2 * a)
            if v.lo < t < v.hi:
                pts.append(t)
        L += [a * t * t + (b + s) * t + c for t in pts]
    return min(L) - 1e-9 + nlo, max(L) + 1e-9 + nhi


def _quadratic(x):
    """(constant, smallest, largest eigenvalue) of c + x'Ax, or None if there are other terms (or too many variables)"""
    ids = {}
    ent = []
    c0 = 0.0
    for m, c in x.t.items():
        if len(m) == 0:
            c0 = c
            continue
        if len(m) != 2:
            return None
        for v in m:
            if v not in ids:
                ids[v] = len(ids)
        ent.append((ids[m[0]], ids[m[1]], c))
    if not ent or len(ids) > 120:
        return None
    A = np.zeros((len(ids), len(ids)))
    for i, j, c in ent:
        A[i, j] += c / 2
        A[j, i] += c / 2
    w = np.linalg.eigvalsh(A)
    return c0, w[0], w[-1]


def mono_bounds(m):
    a, b = 1.0, 1.0
    V = CTX.vars
    i = 0
    while i < len(m):
        j = i
        while j < len(m) and m[j] == m[i]:
            j += 1
        k = j - i
        v = V[m[i]]
        lo, hi = v.lo, v.hi
        if k > 1:
            c = (lo ** k, hi ** k)
            if k % 2 == 0:
                hi2 = max(c)
                lo2 = 0.0 if lo <= 0 <= hi else min(c)
                lo, hi = lo2, hi2
            else:
                lo, hi = c
        ps = (a * lo, a * hi, b * lo, b * hi)
        ps = tuple(0.0 if p != p else p for p in ps)   # 0*inf
        a, b = min(ps), max(ps)
        i = j
    return a, b


def subst(x, m):
    """x with the variables m = {id: value}"""
    if num(x) or not any(v in m for k in x.t for v in k):
        return x
    r = 0.0
    for k, c in x.t.items():
        y = P({tuple(v for v in k if v not in m): c}) if any(v not in m for v in k) else c
        for v in k:
            if v in m:
                y = m[v] * y
        r = r + y
    return r


def same(a, b, tol=ATOL):
    """coefficients agree up to rounding"""
    ta, tb = terms(a), terms(b)
    for m, c in ta.items():
        d = abs(c - tb.get(m, 0.0))
        if d > tol and d > tol * abs(c):
            return False
    for m, c in tb.items():
        if m not in ta and abs(c) > tol:
            return False
    return True


# --------------------------------------------------------------------------------------------- atoms
def _sigmoid(x):
    if x >= 0:
        return 1 / (1 + math.exp(-x))
    e = math.exp(x)
    return e / (1 + e)


NUM = {
    "relu": lambda x: max(x, 0.0),
    "abs": abs,
    "sqrt": lambda x: math.sqrt(max(x, 0.0)),
    "exp": lambda x: math.exp(min(x, 700)),
    "log": lambda x: math.log(x) if x > 0 else float("-inf"),
    "sigmoid": _sigmoid,
    "tanh": math.tanh,
    "elu": lambda x: x if x > 0 else math.exp(x) - 1,
    "ind": lambda x: 1.0 if x > 0 else 0.0,
    "pow": lambda x, k: x ** k if x > 0 else 0.0,
    "rint": lambda x: float(round(x)),
    "floor": math.floor,
    "cosf": math.cos,
    "sinf": math.sin,
    "atan2": math.atan2,
    "softplus": lambda x: math.log1p(math.exp(x)) if x < 30 else x,
    "erf": math.erf,
    "acos": lambda x: math.acos(max(-1, min(1, x))),
}

BIG = float("inf")


def _fbounds(name, args):
    b = [bounds(a) for a in args]
    lo, hi = b[0]
    if name == "relu":
        return max(lo, 0.0), max(hi, 0.0)
    if name == "abs":
        return (0.0 if lo <= 0 <= hi else min(abs(lo), abs(hi))), max(abs(lo), abs(hi))
    if name == "sqrt":
        return math.sqrt(max(lo, 0.0)), (math.sqrt(max(hi, 0.0)) if hi < BIG else BIG)
    if name in ("exp",):
        return (math.exp(lo) if lo > -700 else 0.0), (math.exp(hi) if hi < 700 else BIG)
    if name == "sigmoid":
        return 0.0, 1.0
    if name in ("tanh", "cosf", "sinf", "erf"):
        return -1.0, 1.0
    if name == "elu":
        return -1.0, max(hi, 0.0)
    if name == "ind":
        return 0.0, 1.0
    if name == "max":
        return max(l for l, _ in b), max(h for _, h in b)
    if name == "softplus":
        return 0.0, max(hi, 0.0) + 1
    if name == "atan2":
        return -math.pi, math.pi
    if name == "acos":
        return 0.0, math.pi
    return -BIG, BIG


def fingerprint(a):
    return ev(a)


def _bucket(f):
    if f != f or f in (BIG, -BIG):
        return ("x",)
    return round(f * 1e3)


def _near(f):
    b = _bucket(f)
    if isinstance(b, tuple):
        return (b,)
    return (b - 1, b, b + 1)


def atom(name, args, val, lo=None, hi=None):
    """hash-consed atom; returns (var, isnew)"""
    tab = CTX.table.setdefault(name, {})
    f = sum(fingerprint(a) * (1 + 0.37 * i) for i, a in enumerate(args))
    for b in _near(f):
        for (args2, v) in tab.get(b, ()):
            if len(args2) == len(args) and all(same(x, y) for x, y in zip(args, args2)):
                return v, False
    if lo is None:
        lo, hi = _fbounds(name, args)
    v = _newvar(None, "atom", lo, hi, val, name, tuple(args))
    tab.setdefault(_bucket(f), []).append((tuple(args), v))
    CTX.natoms += 1
    return v, True


def V(v):
    return P({(v.id,): 1.0})


def fn(name, *args):
    """apply a non-polynomial function"""
    if all(num(a) for a in args):
        try:
            return float(NUM[name](*[float(a) for a in args]))
        except (ValueError, OverflowError):
            return float("nan")
    x = args[0]
    if name == "sqrt":
        r = _sqrt(x)
        if r is not None:
            return r
    if name == "relu":
        lo, hi = bounds(x)
        if lo >= 0:
            return x
        if hi <= 0:
            return 0.0
    if name == "abs":
        lo, hi = bounds(x)
        if lo >= 0:
            return x
        if hi <= 0:
            return -x
        if lead(x) < 0:
            x = -x
            args = (x,)
    v, new = atom(name, args, NUM[name](*[ev(a) for a in args]))
    if new and name == "sqrt":
        # canonical: n*n -> argument (argument >= 0 is assumed where sqrt is taken)
        CTX.rules[v.id] = dict(terms(x))
        CTX.special.add(v.id)
        CTX.assumed.add("arguments of sqrt are non-negative")
    if new and name == "abs":
        sq = x * x
        CTX.rules[v.id] = dict(terms(sq))
        CTX.special.add(v.id)
    if new and name == "ind":
        CTX.rules[v.id] = {(v.id,): 1.0}
        CTX.special.add(v.id)
        v.kind = "ind"
    return V(v)


def lead(x):
    """sign of a canonical coefficient (the largest one, ties broken by monomial)"""
    t = x.t
    m = min(t, key=lambda k: (-round(abs(t[k]), 4), k))
    return t[m]


def _sqrt(x):
    t = x.t
    if 1 < len(t) <= 60:
        # rounding noise of the coefficients
        t2 = {m: c for m, c in t.items() if abs(c) > 1e-6}
        if len(t2) == 1 and max(map(abs, t2.values())) > 1e-2:
            (m, c), = t2.items()
            t = {m: 1.0 if abs(c - 1) < 1e-6 else c}
    if len(t) == 1:
        (m, c), = t.items()
        # c * v^2k ... with all v >= 0  -> product
        from collections import Counter
        cnt = Counter(m)
        if c >= 0 and all(k % 2 == 0 for k in cnt.values()) and all(CTX.vars[v].lo >= 0 for v in cnt):
            r = math.sqrt(c)
            for v, k in cnt.items():
                for _ in range(k // 2):
                    r = P({(v,): 1.0}) * r
            return r
    return None


def inv(x):
    """1/x (x assumed non-zero)"""
    if num(x):
        return 1.0 / x if x != 0 else (float("inf"))
    t = x.t
    if len(t) == 1:
        (m, c), = t.items()
        r = 1.0 / c
        for v in m:
            r = _invvar(v) * r
        return r
    # canonical scale: normalise by leading coefficient
    l = lead(x)
    y = x * (1.0 / l)
    e = ev(y)
    v, new = atom("inv", (y,), 1.0 / e if e else BIG, *_invb(y))
    if new:
        CTX.nonzero.append(v.id)
        CTX.assumed.add("denominators are at least 1e-3 in magnitude")
    return V(v) * (1.0 / l)


def _invb(y):
    lo, hi = bounds(y)
    if lo > 1e-3:
        return 1.0 / hi, 1.0 / lo
    if lo >= 0:
        return (1.0 / hi if hi < BIG else 0.0), 1e3
    if hi < -1e-3:
        return 1.0 / hi, 1.0 / lo
    return -1e3, 1e3


def _invvar(v):
    w = CTX.invrule.get(v)
    if w is None:
        x = P({(v,): 1.0})
        e = CTX.vars[v].val
        a, new = atom("inv", (x,), 1.0 / e if e else BIG, *_invb(x))
        w = a.id
        CTX.invrule[v] = w
        CTX.invrule[w] = v
        CTX.special.add(v)
        CTX.special.add(w)
        CTX.nonzero.append(w)
        CTX.assumed.add("denominators are at least 1e-3 in magnitude")
    return P({(w,): 1.0})


def ind(d):
    """1 if d > 0 else 0"""
    if num(d):
        return 1.0 if d > 0 else 0.0
    lo, hi = bounds(d)
    if lo > 0:
        return 1.0
    if hi <= 1e-12:
        return 0.0
    # canonical scaling
    l = abs(lead(d))
    return fn("ind", d * (1.0 / l))


def notb(b):
    return 1.0 - b


def ite(c, x, y):
    """c in {0,1}"""
    if num(c):
        return x if c else y
    if not num(x) or not num(y):
        if same(x, y):
            return x
    elif x == y:
        return x
    # recognise relu-like patterns is not needed: c*(x-y)+y with c idempotent is canonical
    return y + c * (x - y)


def relu(x):
    return fn("relu", x)


def maximum(xs):
    """max over a collection (order irrelevant)"""
    const = None
    args = []
    for x in xs:
        if num(x):
            const = float(x) if const is None else max(const, float(x))
        else:
            # flatten nested max
            if len(x.t) == 1:
                (m, c), = x.t.items()
                if len(m) == 1 and c == 1.0 and CTX.vars[m[0]].fn == "max":
                    for y in CTX.vars[m[0]].args:
                        if num(y):
                            const = float(y) if const is None else max(const, float(y))
                        else:
                            args.append(y)
                    continue
            args.append(x)
    if not args:
        return const
    # unique up to rounding, ordered canonically by fingerprint
    args.sort(key=fingerprint)
    uniq = []
    for a in args:
        fa = fingerprint(a)
        dup = False
        for u in reversed(uniq):
            if fa - fingerprint(u) > 1e-4:
                break
            if same(a, u):
                dup = True
                break
        if not dup:
            uniq.append(a)
    if const is not None:
        if all(bounds(a)[0] >= const for a in uniq[-1:]):
            const = None
        elif const == -BIG:
            const = None
    if const == 0.0 and len(uniq) == 1:
        return fn("relu", uniq[0])
    if const is not None:
        uniq = [const] + uniq
    if len(uniq) == 1:
        return uniq[0]
    # canonical id per argument to make the key order-free
    ids = tuple(sorted(_argid(u) for u in uniq))
    tab = CTX.table.setdefault("max", {})
    v = tab.get(ids)
    if v is None:
        lo, hi = _fbounds("max", uniq)
        v = _newvar(None, "atom", lo, hi, max(ev(u) for u in uniq), "max", tuple(uniq))
        tab[ids] = v
        CTX.natoms += 1
    return V(v)


def minimum(xs):
    return -maximum([-x for x in xs])


def _argid(x):
    tab = CTX.table.setdefault("#arg", {})
    f = fingerprint(x)
    for b in _near(f):
        for (y, i) in tab.get(b, ()):
            if same(x, y):
                return i
    i = CTX.fresh = CTX.fresh + 1
    tab.setdefault(_bucket(f), []).append((x, i))
    return i


# --------------------------------------------------------------------------------------------- angles
# an angle-valued expression is a P that is linear in "angle" variables; cos/sin of integer combinations expand
def angle(name):
    """a free angle theta (radians) as a symbolic value whose cos/sin are the pair anglevar(name)"""
    v = CTX.byname.get(name)
    if v is None:
        c, s = anglevar(name)
        cv, sv = CTX.byname[name + ".c"], CTX.byname[name + ".s"]
        th = math.atan2(sv.val, cv.val)
        v = _newvar(name, "angle", -math.pi, math.pi, th)
    return P({(v.id,): 1.0})


def cmul(a, b):
    return (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])


def trig(x):
    """(cos x, sin x)"""
    if num(x):
        return math.cos(x), math.sin(x)
    onehot = None
    for m in x.t:
        if m and not (len(m) == 1 and CTX.vars[m[0]].kind == "sel"):
            onehot = None
            break
        if m:
            onehot = CTX.vars[m[0]].partner
    if onehot and all(m == () or m[0] in onehot for m in x.t):
        # exactly one selector of the group is 1
        c0 = x.t.get((), 0.0)
        return tuple(sum_([P({(i,): 1.0}) * f(c0 + x.t.get((i,), 0.0)) for i in onehot]) for f in (math.cos, math.sin))
    const = 0.0
    cs = (1.0, 0.0)
    for m, c in sorted(x.t.items()):
        if m == ():
            const = c
            continue
        if len(m) == 1 and CTX.vars[m[0]].kind == "angle" and abs(c - round(c)) < 1e-9:
            name = CTX.vars[m[0]].name
            k = int(round(c))
            base = CTX.angledef.get(name) or anglevar(name)
            if k < 0:
                base = (base[0], -base[1])
                k = -k
            for _ in range(k):
                cs = cmul(cs, base)
            continue
        return fn("cosf", x), fn("sinf", x)
    if const:
        cs = cmul(cs, (math.cos(const), math.sin(const)))
    return cs


def atan2(y, x):
    """angle of (x, y)"""
    if num(x) and num(y):
        return math.atan2(y, x)
    # recognise  (r*cos(th), r*sin(th))
    tx = terms(x)
    for m in tx:
        for v in m:
            if CTX.vars[v].kind == "cos":
                name = CTX.vars[v].name[:-2]
                c, s = anglevar(name)
                # find r with x = r*c
                r = {}
                ok = True
                for m2, c2 in tx.items():
                    if v not in m2:
                        ok = False
                        break
                    l = list(m2)
                    l.remove(v)
                    r[tuple(l)] = c2
                if ok:
                    r = mk(r)
                    if same(s * r, y) and bounds(r)[0] >= 0:
                        return angle(name)
    n2 = x * x + y * y
    r = math.sqrt(n2) if num(n2) else _sqrt(n2)
    if r is not None and bounds(r)[0] > 0:
        i = inv(r)
        name = "arg#%d" % len(CTX.angledef)
        CTX.angledef[name] = (x * i, y * i)
        v = _newvar(name, "angle", -math.pi, math.pi, math.atan2(ev(y), ev(x)))
        return P({(v.id,): 1.0})
    return fn("atan2", y, x)
