"""P01 group axioms in every parametrization"""
from .common import *
from .elems import *
from symx import poly

EXPLANATION = ("Each instance runs the real group code (GroupElement, _combine, _inverse, _equal, _change_param, _hash_element) on symbolic parameters: integers are z3 "
               "integers, angles are z3 reals in turns with an integer number of wraps and a rounding error per modulo, rotations are unit quaternions with polynomial "
               "entries. Every comparison is a path condition; all feasible paths are explored, and on each the result is compared with the textbook product, inverse "
               "or conversion of the element denoted.")
ASSUMPTIONS = ["angles range over [-2,3] turns, every modulo has a rounding error of at most 1e-15 turns",
               "scipy's Rotation conversions between parametrizations are inverse to each other (stand-in on symbolic quaternions; the replay and the validation points run scipy)",
               "elements closer than 1e-6 turns and hashes at rounding boundaries are outside the claim",
               "octahedral and icosahedral products are encoded as one-hot tables over the listed elements"]


def group_of(s):
    if s.startswith("X"):
        a, b = s[1:].split("*")
        return G.direct_product(grp(a), grp(b))
    if s.startswith("W"):
        return G.double_group(grp(s[1:]))
    return grp(s)


def hsh(e):
    return hash(e)


def axioms(s):
    def setup():
        g = group_of(s)
        return {"g": g, "el": el(g)}

    def run(h, o):
        g, E = o["g"], o["el"]

        def El(v, k):
            return g.element(E.get(h, v, k))

        one = {
            "denotes": lambda v, a: E.same(h, "denotes", a.value, E.get(h, v, "a")),
            "inverse": lambda v, a: E.same(h, "inverse", (~a).value, E.inv(E.get(h, v, "a"))),
            "inverse in the group": lambda v, a: h.true("inverse in the group", bool(g._is_element((~a).value, g.PARAM))),
            "e a": lambda v, a: h.true("e a", g.identity @ a == a),
            "a e": lambda v, a: h.true("a e", a @ g.identity == a),
            "a a^-1": lambda v, a: h.true("a a^-1", a @ ~a == g.identity),
            "a^-1 a": lambda v, a: h.true("a^-1 a", ~a @ a == g.identity),
            "a^-1^-1": lambda v, a: h.true("inverse of the inverse", ~~a == a),
            "reflexive": lambda v, a: h.true("reflexive", a == a and not (a != a)),
            "hash e a": lambda v, a: h.true("hash of e a", hash(g.identity @ a) == hash(a)),
            "hash a^-1^-1": lambda v, a: h.true("hash of the inverse of the inverse", hash(~~a) == hash(a)),
        }
        two = {
            "product": lambda v, a, b: E.same(h, "product", (a @ b).value, E.mul(E.get(h, v, "a"), E.get(h, v, "b"))),
            "product in the group": lambda v, a, b: h.true("product in the group", bool(g._is_element((a @ b).value, g.PARAM))),
            "product's inverse": lambda v, a, b: h.true("product's inverse", ~(a @ b) == ~b @ ~a),
        }

        def assoc(v):
            a, b, c = (El(v, k) for k in "abc")
            l, r = (a @ b) @ c, a @ (b @ c)
            h.true("associative", l == r)

        def assoc2(v):
            a, b, c = (El(v, k) for k in "abc")
            l, r = (a @ b) @ c, a @ (b @ c)
            E.same(h, "associative value", l.value, r.value)
            h.true("associative hash", hash(l) == hash(r))
        E.same(h, "identity", g.identity.value, E.e())
        for k, f in one.items():
            h.paths(k, E.dims("a", k == "denotes"), lambda v: f(v, El(v, "a")))
        if E.full:
            for k, f in two.items():
                h.paths(k, {**E.dims("a"), **E.dims("b")}, lambda v: f(v, El(v, "a"), El(v, "b")))
            h.paths("assoc", {**E.dims("a"), **E.dims("b"), **E.dims("c")}, assoc)
            h.paths("assoc2", {**E.dims("a"), **E.dims("b"), **E.dims("c")}, assoc2)
    return Instance("axioms[%s]" % s, setup, run, timeout=600, cost=3)


def params(s):
    def setup():
        g = group_of(s)
        return {"g": g, "el": el(g)}

    def run(h, o):
        g, E = o["g"], o["el"]

        def claims(p):
            def conv(v):
                x = E.get(h, v, "a")
                return x, E.conv(x, p)

            def value(v):
                x, y = conv(v)
                E.same(h, "element(%s)" % p, g.element(y, p).value, x)
                h.true("_is_element(%s)" % p, bool(g._is_element(y, p)))

            def eq(v):
                x, y = conv(v)
                h.true("element(%s) ==" % p, g.element(x) == g.element(y, p))

            def hsh(v):
                x, y = conv(v)
                a, b = g.element(x), g.element(y, p)
                h.true("element(%s) hash" % p, hash(a) == hash(b))
                h.true("_hash(%s)" % p, g._hash_element(y, p) == g._hash_element(a.value, g.PARAM))

            def to(v):
                x = E.get(h, v, "a")
                z = g.element(x).to(p)
                E.unconv(h, "to(%s)" % p, z, p, x)
                E.same(h, "round trip", g.element(z, p).value, x)

            def inv(v):
                x, y = conv(v)
                E.unconv(h, "_inverse(%s)" % p, g._inverse(y, p), p, E.inv(x))

            def equal(v):
                x, y = conv(v)
                h.true("_equal(%s)" % p, bool(g._equal(y, x, param1=p, param2=g.PARAM)))

            def equal2(v):
                x, y = conv(v)
                h.true("_equal'(%s)" % p, bool(g._equal(y, y, param=p)))
            return [value, eq, hsh, to, inv, equal, equal2]
        for p in E.params():
            for k, f in enumerate(claims(p)):
                h.paths("param %s %s" % (p, f.__name__), E.dims("a", k == 0), f)
    return Instance("params[%s]" % s, setup, run, timeout=600, cost=2)


def combine(s, few=True):
    def setup():
        g = group_of(s)
        return {"g": g, "el": el(g, True)}

    def run(h, o):
        g, E = o["g"], o["el"]
        L = E.params()
        if len(L) > 6:
            L = [p for p in L if any(t in p for t in ("Q", "MAT", "EV", "ZYZ", "xyz"))]
        d = g.PARAM

        def body(p, p1, p2):
            def f(v):
                xa, xb = E.get(h, v, "a"), E.get(h, v, "b")
                ya, yb = E.conv(xa, p1 or p), E.conv(xb, p2 or p)
                r = g._combine(ya, yb, param=p, param1=p1, param2=p2)
                E.unconv(h, "_combine(%s,%s,%s)" % (p, p1, p2), r, p, E.mul(xa, xb))
            return f
        for i, p in enumerate(L):
            q = L[(i + 1) % len(L)]
            for t in {(p, None, None), (d, p, q), (p, q, d), (p, d, q)}:
                h.paths("combine %s" % (t,), {**E.dims("a"), **E.dims("b")}, body(*t))
    return Instance("combine[%s]" % s, setup, run, timeout=600, cost=4)


def equality(s):
    """equal exactly when the same element is denoted"""
    def setup():
        g = group_of(s)
        return {"g": g, "el": el(g)}

    def run(h, o):
        g, E = o["g"], o["el"]

        def ints(v):
            xa, xb = E.get(h, v, "a"), E.get(h, v, "b")
            a, b = g.element(xa), g.element(xb)
            want = bool(xa == xb) if not isinstance(xa, tuple) else bool(xa[0] == xb[0]) and bool(xa[1] == xb[1])
            h.true("equal iff same", bool(a == b) == want)
            h.true("not equal iff different", bool(a != b) == (not want))
            if want:
                h.true("hash", hash(a) == hash(b))

        n = type(g).__name__
        if n in ("CyclicGroup", "DihedralGroup"):
            h.paths("ints", {**E.dims("a"), **E.dims("b")}, ints)
            return
        if n in ("SO2", "O2"):
            el_ = (lambda f, t: g.element(t)) if n == "SO2" else (lambda f, t: g.element((f, t)))

            def wrap(v):
                a, b = el_(v["f"], v["t"]), el_(v["f"], v["t"] + v["k"] * TAU)
                h.true("same up to turns", a == b)
                h.true("hash", hash(a) == hash(b))

            def apart(v):
                a, b = el_(v["f"], v["t"]), el_(v["f"], v["t"] + v["d"])
                h.true("different angles", not (a == b))

            def flips(v):
                if n == "O2":
                    h.true("different flips", not (el_(0, v["t"]) == el_(1, v["t"] + v["d"])))
            A = {"f": (0, 1 if n == "O2" else 0), "t": ("angle", 1, 0, 1)}
            h.paths("wrap", {**A, "k": (-2, 2)}, wrap)
            h.paths("apart", {**A, "d": ("angle", 1, 1e-6, 1 - 1e-6)}, apart)
            h.paths("flips", {"t": ("angle", 1, 0, 1), "d": ("angle", 1, 0, 1)}, flips)
            return
        # rotations in 3D
        S3 = SO3(None)
        mk = (lambda f, q: g.element(q, "Q")) if n == "SO3" else (lambda f, q: g.element((f, q), "Q"))
        if n in ("SO3", "O3"):
            def sym(v):
                q = S3.get(h, v, "a")
                a, b = mk(v["f"], q), mk(v["f"], quat_arr([-t for t in q]))
                h.true("q and -q", a == b)
                h.true("hash of q and -q", hash(a) == hash(b))
                p = S3.get(h, v, "b")
                h.true("different rotations", not (a == mk(v["f"], p)))
                for ax in range(3):
                    for d in (1e-3, math.pi / 2, math.pi, 3.0):
                        r = [0., 0., 0., math.cos(d / 2)]
                        r[ax] = math.sin(d / 2)
                        h.true("rotated by %g" % d, not (a == mk(v["f"], S3.mul(q, np.array(r)))))
                if n == "O3":
                    h.true("inversion", not (mk(0, q) == mk(1, q)))
                    h.true("inversion and sign", not (mk(0, q) == mk(1, quat_arr([-t for t in q]))))
            h.paths("sym", {"f": (0, 1 if n == "O3" else 0)}, sym)
    return Instance("equality[%s]" % s, setup, run, timeout=600, cost=2)


def listed(s, only_pairs=None):
    """finite groups: the listed elements are the group; products and inverses are encoded as one-hot tables"""
    def setup():
        g = group_of(s)
        els = list(g.elements)
        return {"g": g, "els": els, "el": el(g)}

    def find(els, by, x):
        k = [i for i in by.get(hash(x), ()) if els[i] == x]
        return k[0] if len(k) == 1 else -1

    def run(h, o):
        g, els = o["g"], o["els"]
        n = len(els)
        h.true("number of elements", n == g.order())
        by = {}
        for i, e in enumerate(els):
            by.setdefault(hash(e), []).append(i)
        idx = [find(els, by, e) for e in els]
        u = h.pick("u", n)
        v = h.pick("v", n)
        h.eq("listed once", poly.dot([(a, float(k)) for a, k in zip(u, idx)]), poly.dot([(a, float(k)) for a, k in zip(u, range(n))]), .5)
        h.true("identity", find(els, by, g.identity) >= 0)
        inv = [find(els, by, ~e) for e in els]
        gens = list(range(n)) if n <= 24 else sorted({find(els, by, e) for e in generators(g)})
        tab = {(i, j): find(els, by, els[i] @ els[j]) for i in range(n) for j in gens}
        h.true("products are listed", min(tab.values()) >= 0)
        h.true("inverses are listed", min(inv) >= 0)
        if min(tab.values()) < 0 or min(inv) < 0:
            return
        ref = mats(g, els)
        w = [v[j] for j in gens]
        for k, M in enumerate(ref):
            d = M.shape[1]
            T = np.zeros((n, len(gens), d, d))
            for i in range(n):
                for jj, j in enumerate(gens):
                    T[i, jj] = M[tab[i, j]] - M[i] @ M[j]
            T[np.abs(T) < 1e-9] = 0.
            prod = []
            for r in range(d):
                for c in range(d):
                    nz = np.argwhere(T[:, :, r, c])
                    prod.append(poly.sum_([u[i] * w[j] * float(T[i, j, r, c]) for i, j in nz]) if len(nz) else 0.0)
            h.eq("product table %d" % k, prod, [0.0] * len(prod), 1e-6)
            I = np.stack([M[inv[i]] @ M[i] - np.eye(d) for i in range(n)])
            I[np.abs(I) < 1e-9] = 0.
            out = [poly.sum_([u[i] * float(I[i, r, c]) for i in range(n) if I[i, r, c]]) if I[:, r, c].any() else 0.0 for r in range(d) for c in range(d)]
            h.eq("inverse table %d" % k, out, [0.0] * len(out), 1e-6)
    return Instance("listed[%s]" % s, setup, run, timeout=600, cost=2)


def mats(g, els):
    """faithful matrices of the listed elements, factor by factor, from their parameters"""
    E = el(g)
    if hasattr(g, "G1"):
        from escnn.group import GroupElement
        return mats(g.G1, [g.split_element(e)[0] for e in els]) + mats(g.G2, [g.split_element(e)[1] for e in els])
    return [np.stack([np.asarray(E.mat(e.value), dtype=float) for e in els])]


def instances():
    q = ["C1", "C2", "C3", "C4", "C6", "C7", "D1", "D2", "D3", "D4", "D5", "SO2", "O2", "SO3", "O3", "O", "I", "Oh", "Ih", "CylSO2", "CylO2", "K3", "F2",
         "XC2*C3", "XD2*C2", "XSO2*SO3", "WC3", "WO2", "XO*C2"]
    if THOROUGH:
        q += ["C%d" % n for n in (5, 8, 9, 10, 11, 12, 13, 15, 16, 24)] + ["D%d" % n for n in (6, 7, 8, 9, 10, 12, 15, 16)] + ["XO3*O2", "F4", "XC3*C4", "XD3*C2", "XO*C3", "XD4*D3", "WSO3", "K5", "F3", "XI*C2"]
    L = []
    for s in q:
        L.append(axioms(s))
        if s not in ("Oh", "Ih"):
            L.append(params(s))
            L.append(combine(s))
        if not s[0] in "XWKFI" and s not in ("O", "Oh", "CylSO2", "CylO2"):
            L.append(equality(s))
        if s in ("O", "I", "Oh", "Ih") or s[0] in "CDKF" and s[1:].isdigit() or s[0] in "XW" and "SO" not in s and "O2" not in s and "O3" not in s:
            L.append(listed(s))
    return L
