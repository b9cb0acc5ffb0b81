"""P04 intertwiners: endomorphisms, homomorphism spaces, Clebsch-Gordan coefficients"""
from .common import *
from .common import _flat
from .elems import *
from symx import poly
from .p01 import group_of
from .p02 import mm, kron, bdiag, rnd_cob, tab

EXPLANATION = ("The real code computes the bases. That they commute with the group is decided for a symbolic element (continuous groups: symbolic angles and flips, for the rotations in 3D symbolic angles "
               "around two axes whose rotations generate the group; finite groups: a one-hot choice among the listed elements). Completeness and independence are queries for an arbitrary matrix w: "
               "no w with max |w| = 1 solves the intertwining constraint at a generating set and is orthogonal to all the matrices returned; no combination of them vanishes.")
ASSUMPTIONS = ["irreps up to the stated frequency", "the constraint is imposed at a generating set (two generic elements and one per component for continuous groups)"]


class Elements:
    """runs a claim for every element of the group"""

    def __init__(self, h, g):
        self.h, self.g = h, g
        self.sel = None if g.continuous else h.pick("g", len(list(g.elements)))

    def __call__(self, label, lhs, rhs, eps=1e-5):
        """lhs(x), rhs(x): matrices"""
        h, g = self.h, self.g
        if not g.continuous:
            els = list(g.elements)
            L = np.stack([np.asarray(lhs(x), dtype=float) for x in els])
            R = np.stack([np.asarray(rhs(x), dtype=float) for x in els])
            h.eq(label, tab(h, self.sel, L - R), np.zeros(L.shape[1:]), eps)
            return
        E = el(g)
        for k, (dims, get) in enumerate(self.sub(g, E)):
            def body(v):
                x = g.element(get(v))
                h.eq("%s %d" % (label, k), lhs(x), rhs(x), eps)
            h.paths("%s %d" % (label, k), dims, body)

    def sub(self, g, E):
        n = type(g).__name__
        if n in ("SO3", "O3"):
            for ax in (0, 1, 2):
                def get(v, ax=ax):
                    c, s = cs(v["t"] / 2.0)
                    q = [0.0, 0.0, 0.0, c]
                    q[ax] = s
                    q = quat_arr(q)
                    return (v["f"], q) if n == "O3" else q
                yield dict({"t": ("angle", 2, 0, 1)}, **({"f": (0, 1)} if n == "O3" else {})), get
        elif hasattr(g, "G1"):
            # (a, e) and (e, b) generate the product
            for dims, get in (self.sub(g.G1, E.a) if g.G1.continuous else [(E.a.dims("a1"), lambda v: E.a.get(self.h, v, "a1"))]):
                yield dims, (lambda v, get=get: (get(v), E.b.e()))
            for dims, get in (self.sub(g.G2, E.b) if g.G2.continuous else [(E.b.dims("b1"), lambda v: E.b.get(self.h, v, "b1"))]):
                yield dims, (lambda v, get=get: (E.a.e(), get(v)))
        else:
            yield E.dims("a"), (lambda v: E.get(self.h, v, "a"))


def complete(h, name, B, g, A1, A2):
    """B: (k, d2, d1); A1(x), A2(x): the two representations; every M with A2 M = M A1 is a combination"""
    k, d2, d1 = B.shape
    rows = []
    for x in generators(g):
        rows.append(np.kron(np.asarray(A2(x), dtype=float), np.eye(d1)) - np.kron(np.eye(d2), np.asarray(A1(x), dtype=float).T))
    rows.append(B.reshape(k, d1 * d2))
    h.nokernel("%s: complete" % name, np.concatenate(rows))
    h.nokernel("%s: independent" % name, B.reshape(k, d1 * d2).T)


def endo(s):
    def setup():
        g = group_of(s)
        irreps_of(g)
        return g

    def run(h, g):
        for r in irreps_of(g):
            E = np.asarray(r.endomorphism_basis(), dtype=float)
            all_ = Elements(h, g) if r is irreps_of(g)[0] else all_
            h.true("%s number of endomorphisms" % r.name, E.shape == (r.sum_of_squares_constituents, r.size, r.size) and {"R": 1, "C": 2, "H": 4}[r.type] == len(E))
            for k in range(len(E)):
                all_("%s endomorphism %d" % (r.name, k), lambda x: mm(r(x), E[k]), lambda x: mm(E[k], r(x)))
            if r.size <= 7:
                complete(h, r.name, E, g, r, r)
    return Instance("endomorphisms[%s]" % s, setup, run, timeout=600, cost=2)


def small(g, n):
    """a few irreps of small size: the trivial one, the first ones and the last one"""
    L = [i for i in irreps_of(g) if i.size <= 4]
    if len(L) <= n:
        return L
    two = [i for i in L if i.type != "R"]
    return L[:n - 2] + two[-1:] + L[-1:]


def hom(s):
    def setup():
        g = group_of(s)
        A = small(g, 3)
        R = {"sum": G.directsum([A[0], A[-1], A[-1]], name="p04sum")}
        n = R["sum"].size
        R["basis"] = G.change_basis(R["sum"], rnd_cob(n), name="p04cob")
        T = [A[-1], A[1 % len(A)], A[0]]
        R["other"] = G.directsum(T, change_of_basis=rnd_cob(sum(r.size for r in T), 2), name="p04other")
        R["irrep"] = A[-1]
        R["irrep0"] = A[1 % len(A)]
        if 0 < g.order() <= 12:
            R["regular"] = g.regular_representation
        for sid in {"D3": [(0, 1)], "D4": [(1, 2)], "C4": [2], "C6": [3], "O": [(False, 4)], "D6": [(1, 3)]}.get(s, []):
            R["quotient"] = g.quotient_representation(sid)
        return g, R

    def run(h, o):
        g, R = o
        all_ = Elements(h, g)
        for a in R:
            E = np.asarray(R[a].endomorphism_basis(), dtype=float)
            h.true("%s: endomorphisms" % a, E.shape == (sum(g.irrep(*i).sum_of_squares_constituents for i in R[a].irreps for j in R[a].irreps if i == j), R[a].size, R[a].size))
            if R[a].size <= 9:
                all_("%s: endomorphisms commute" % a, lambda x: mm(R[a](x), np.concatenate(list(E), axis=1)), lambda x: np.concatenate([mm(e, R[a](x)) for e in E], axis=1))
                if R[a].size <= 7:
                    complete(h, "%s: endomorphisms" % a, E, g, R[a], R[a])
            for b in R:
                r1, r2 = R[a], R[b]
                if r1.size * r2.size > 81:
                    continue
                B = np.asarray(G.homomorphism_space(r1, r2), dtype=float)
                n = "%s -> %s" % (a, b)
                dim = sum(g.irrep(*i).sum_of_squares_constituents for i in r1.irreps for j in r2.irreps if i == j)
                h.true("%s: shape" % n, B.shape == (dim, r2.size, r1.size))
                if dim:
                    all_("%s: intertwiners" % n, lambda x: mm(r2(x), np.concatenate(list(B), axis=1)), lambda x: np.concatenate([mm(b_, r1(x)) for b_ in B], axis=1))
                if r1.size * r2.size <= 49:
                    complete(h, n, B, g, r1, r2)
    return Instance("homomorphisms[%s]" % s, setup, run, timeout=600, cost=3)


def cg(s, lim=40, part=None, cap=None if THOROUGH else 24):
    """Clebsch-Gordan coefficients of all pairs of (small) irreps"""
    def setup():
        g = group_of(s)
        L = list(irreps_of(g))
        if g.continuous:
            top = 2 if not THOROUGH else 3
            M = [r for r in L if max(_flat(r.id)) <= top // 2 or (r.size <= 3 and max(_flat(r.id)) <= 1)]
        else:
            M = L
        pairs = [(m, n) for m in M for n in M if m.size * n.size <= lim]
        if part is not None:
            pairs = [p for i, p in enumerate(pairs) if i % part[1] == part[0]]
        if cap and len(pairs) > cap:
            # the pairs with the largest products, and a spread of the others
            big = sorted(pairs, key=lambda p: -p[0].size * p[1].size)
            pairs = big[:cap // 2] + big[cap // 2::len(big) // (cap // 2) + 1]
        # (the numerical solver starts from random samples: computed once)
        CG = {(m, n, j): np.asarray(g._clebsh_gordan_coeff(m, n, j), dtype=float) for m, n in pairs for j in L}
        # the irreps are identified by object, by id or by name
        ids = [(r.name, r.id, [g.get_irrep_id(x) for x in (r, r.id, r.name)]) for r in L]
        names = []
        for m, n in pairs[:4]:
            names.append((m, n, [g._tensor_product_irreps(*a) for a in ((m.name, n.name), (m.id, n.id), (m, n.name))]))
        return g, L, pairs, CG, {p: g._tensor_product_irreps(*p) for p in pairs}, ids, names

    def run(h, o):
        g, L, pairs, CG, listed, ids, names = o
        all_ = Elements(h, g)
        for name, i, got in ids:
            h.true("id of %s" % name, all(tuple(x) == tuple(i) if isinstance(x, tuple) else False for x in got))
        for m, n, got in names:
            h.true("%s x %s: by name" % (m.name, n.name), all(sorted(x) == sorted(listed[m, n]) for x in got))
        for m, n in pairs:
            name = "%s x %s" % (m.name, n.name)
            found, size = {}, 0
            cols = []
            for j in L:
                C = CG[m, n, j]
                h.true("%s -> %s: shape" % (name, j.name), C.ndim == 4 and C.shape[:2] == (m.size, n.size) and C.shape[3] == j.size)
                k = C.shape[2]
                C2 = C.reshape(m.size * n.size, k, j.size)
                E = np.asarray(j.endomorphism_basis(), dtype=float)
                B = np.einsum("ask,eki->seai", C2, E).reshape(k * len(E), m.size * n.size, j.size)
                if m.size * n.size * j.size <= 60 or (THOROUGH and m.size * n.size * j.size <= 90):
                    complete(h, "%s -> %s" % (name, j.name), B, g, j, lambda x: np.kron(m(x), n(x)))
                if k:
                    found[j.id] = k
                    size += k * j.size
                    cols.append(C2.reshape(m.size * n.size, k * j.size))
            h.true("%s: multiplicities listed" % name, sorted(listed[m, n]) == sorted(found.items()))
            h.true("%s: dimensions" % name, size == m.size * n.size)
            if size != m.size * n.size:
                continue
            Q = np.concatenate(cols, axis=1)
            h.eq("%s: orthonormal" % name, Q.T @ Q, np.eye(size), 1e-5)
            js = [g.irrep(*i) for i, k in found.items() for _ in range(k)]
            all_("%s: intertwiners" % name, lambda x: mm(kron(m(x), n(x)), Q), lambda x: mm(Q, bdiag([j(x) for j in js])))
    return Instance("clebsch-gordan[%s]%s" % (s, "" if part is None else " %d/%d" % part), setup, run, timeout=800, cost=6)


def instances():
    L = []
    ct = ["SO2", "O2", "SO3", "O3", "CylSO2", "CylO2", "XSO2*SO2", "XSO3*C2", "WSO2"] + (["XO2*C2", "XSO2*C3", "XC4*SO2"] if THOROUGH else [])
    fi = ["C1", "C2", "C3", "C4", "C5", "C6", "C8", "D1", "D2", "D3", "D4", "D5", "D6", "O", "I", "Oh", "K3", "K4", "F2", "F3", "XC2*C3", "XC3*C3", "XC4*C4", "XD2*C2", "XC3*D3", "WC3", "XC4*C3"]
    if THOROUGH:
        fi += ["C7", "C9", "C10", "C12", "D7", "D8", "D9", "D12", "Ih", "K6", "F4", "XO*C2", "XD3*D3", "XD4*C4", "WC4"]
    for s in ct + fi:
        L.append(endo(s))
        L.append(hom(s))
        if s in ("I", "O", "Oh", "Ih"):
            for p in range(4):
                L.append(cg(s, part=(p, 4), lim=16 if s in ("I", "Ih") and not THOROUGH else 40))
        else:
            L.append(cg(s))
    return L
