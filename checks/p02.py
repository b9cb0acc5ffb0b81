"""P02 representations: homomorphisms with the decomposition they declare"""
from .common import *
from .common import _flat
from .elems import *
from symx import poly
from .p01 import group_of

EXPLANATION = ("Continuous groups: the representation's own code runs on elements with symbolic angles, flips and unit quaternions; the entries become polynomials and the homomorphism, "
               "inverse, orthogonality, character and decomposition identities are decided for all elements. Finite groups: a and b are one-hot choices among the listed elements, "
               "rho(a), rho(b), rho(a@b) are the tables computed by the real code contracted with the selectors, and the identities are decided for all selector values.")
ASSUMPTIONS = ["irreps up to the stated frequency; the frequency-l matrices of SO(3) come from lie_learn's wigner_D_matrix, fitted as a polynomial in the quaternion and validated at start-up",
               "for groups with more than 24 elements b ranges over a generating set (the rest follows by induction)"]


# --------------------------------------------------------------------------------------------- linear algebra over terms
def mm(*Ms):
    r = Ms[0]
    for M in Ms[1:]:
        a, b = np.asarray(r), np.asarray(M)
        if a.dtype != object and b.dtype != object:
            r = a @ b
            continue
        o = np.empty((a.shape[0], b.shape[1]), dtype=object)
        for i in range(a.shape[0]):
            ia = [(k, x) for k, x in enumerate(a[i]) if isinstance(x, P) or x != 0]
            for j in range(b.shape[1]):
                o[i, j] = poly.dot([(x, b[k, j]) for k, x in ia if isinstance(b[k, j], P) or b[k, j] != 0]) if ia else 0.0
        r = o
    return r


def bdiag(Ms):
    n = sum(M.shape[0] for M in Ms)
    sym = any(np.asarray(M).dtype == object for M in Ms)
    R = np.zeros((n, n), dtype=object if sym else float)
    R[:] = 0.0
    p = 0
    for M in Ms:
        R[p:p + M.shape[0], p:p + M.shape[0]] = M
        p += M.shape[0]
    return R


def kron(A, B):
    A, B = np.asarray(A), np.asarray(B)
    if A.dtype != object and B.dtype != object:
        return np.kron(A, B)
    R = np.empty((A.shape[0] * B.shape[0], A.shape[1] * B.shape[1]), dtype=object)
    for i in np.ndindex(A.shape):
        for j in np.ndindex(B.shape):
            R[i[0] * B.shape[0] + j[0], i[1] * B.shape[1] + j[1]] = A[i] * B[j]
    return R


def trace(M):
    return poly.sum_([M[i, i] for i in range(M.shape[0])])


def decomp(rho, x):
    g = rho.group
    return mm(rho.change_of_basis, bdiag([g.irrep(*i)(x) for i in rho.irreps]), rho.change_of_basis_inv)


# --------------------------------------------------------------------------------------------- which representations
def rnd_cob(n, k=0):
    r = np.random.RandomState(100 + n + 7 * k)
    return r.randn(n, n) + 2 * np.eye(n)


def small(g, n=3):
    L = [i for i in irreps_of(g) if i.size <= 3]
    return [L[k % len(L)] for k in (1, 0, -1)][:n] if len(L) > 1 else [L[0]]


def reps(g, s, level):
    """label -> (representation, oracle(x) of its matrices or None)"""
    out = {}
    A = small(g)
    if level == "sum":
        if len(A) > 1:
            out["sum"] = (G.directsum(A, name="p02sum"), lambda x: bdiag([r(x) for r in A]))
            n = sum(r.size for r in A)
            C = rnd_cob(n)
            S = G.directsum(A, change_of_basis=C, name="p02sumcob")
            out["sum with a change of basis"] = (S, lambda x: mm(C, bdiag([r(x) for r in A]), np.linalg.inv(C)))
            out["change_basis"] = (lambda B: (G.change_basis(B, np.linalg.inv(C), name="p02cb"), lambda x: bdiag([r(x) for r in A])))(S)
            out["+"] = (S + A[0], lambda x: bdiag([S(x), A[0](x)]))
            N = G.directsum([S, A[-1], S], name="p02nest")
            out["nested sum"] = (N, lambda x: bdiag([S(x), A[-1](x), S(x)]))
    if level == "tensor":
        # (tensor products of continuous groups need the irreps of the result to be instantiated, as documented)
        B = [i for i in irreps_of(g) if 1 < i.size <= 3 and (not g.continuous or max(_flat(i.id)) <= 1)] or list(irreps_of(g))
        B = [B[0], B[-1]]
        for a, b in {(0, 1), (1, 0), (0, 0)}:
            out["%s x %s" % (B[a].name, B[b].name)] = ((lambda p, q: (p.tensor(q), lambda x: kron(p(x), q(x))))(B[a], B[b]))
        t = g.trivial_representation
        out["trivial x"] = ((lambda q: (t.tensor(q), lambda x: q(x)))(B[0]))
        if len(A) > 1:
            S = G.directsum([B[0], A[0]], change_of_basis=rnd_cob(B[0].size + A[0].size, 1), name="p02tS")
            T = G.directsum([A[0], B[-1]], name="p02tT")
            if S.size * T.size <= 24:
                out["sum x sum"] = (S.tensor(T), lambda x: kron(S(x), T(x)))
    if level == "disentangle":
        L = [i for i in irreps_of(g) if i.size <= 3]
        L = [L[1 % len(L)], L[0], L[-1]]
        C1, C2 = rnd_cob(L[0].size + L[1].size, 2), rnd_cob(L[2].size, 3)
        R = G.directsum([G.directsum(L[:2], change_of_basis=C1, name="p02d1"), G.change_basis(L[2], C2, name="p02d2")], name="p02d")
        perm = np.random.RandomState(3).permutation(R.size)
        R = G.change_basis(R, np.eye(R.size)[perm], name="p02dp")
        cob, parts = G.disentangle(R)
        out["disentangle"] = (R, lambda x: mm(cob.T, bdiag([p(x) for p in parts]), cob))
        for k, p in enumerate(parts):
            out["part %d" % k] = (p, None)
    if level == "big":
        if g.order() > 0:
            out["regular"] = (g.regular_representation, None)
        for n in ("standard_representation", "ico_vertices_representation", "ico_faces_representation", "ico_edges_representation", "cube_vertices_representation",
                  "cube_faces_representation", "cube_edges_representation"):
            if hasattr(g, n):
                r = getattr(g, n)
                r = r() if callable(r) and not isinstance(r, G.Representation) else r
                E = el(g)
                out[n] = (r, (lambda x: E.mat(x.value)) if n.startswith("standard") else None)
        for n, L in (("bl_regular_representation", 2), ("bl_sphere_representation", 2)):
            if hasattr(g, n):
                try:
                    out[n] = (getattr(g, n)(L), None)
                except NotImplementedError:
                    pass
    if level == "irreps":
        for r in irreps_of(g):
            out[str(r.id)] = (r, None)
        out["trivial"] = (g.trivial_representation, lambda x: np.eye(1))
    return out


SUBS = {"C4": [1, 2, 4], "C6": [2, 3], "D3": [(None, 3), (0, 1), (1, 1), (None, 1)], "D4": [(None, 2), (1, 2), (0, 2), (0, 1), (3, 1)], "D6": [(0, 3), (1, 3), (None, 6), (2, 1), (1, 2)],
        "D2": [(None, 2), (0, 1), (1, 1)], "C3": [1], "O": [(False, 4), (True, 3), (False, 2), "tetra"], "K3": [], "XC2*C3": []}


def quotients(g, s):
    out = {}
    for sid in SUBS.get(s, []):
        try:
            H, _, _ = g.subgroup(sid)
        except NotImplementedError:
            continue
        out["quotient %s" % (sid,)] = (g.quotient_representation(sid), None)
        for r in H.irreps():
            if r.size * (g.order() // H.order()) <= 24:
                out["induced %s %s" % (sid, r.id)] = (g.induced_representation(sid, r), None)
    return out


# --------------------------------------------------------------------------------------------- continuous groups
def cont(s, level, lim=None):
    def setup():
        g = group_of(s)
        return {"g": g, "el": el(g), "reps": reps(g, s, level)}

    def run(h, o):
        g, E = o["g"], o["el"]

        def El(v, k):
            return g.element(E.get(h, v, k))
        for name, (rho, oracle) in o["reps"].items():
            irr = level == "irreps" or rho.size <= 3
            h.eq("%s identity" % name, rho(g.identity), np.eye(rho.size))
            h.eq("%s Q Q^-1" % name, rho.change_of_basis @ rho.change_of_basis_inv, np.eye(rho.size))
            h.eq("%s Q^-1 Q" % name, rho.change_of_basis_inv @ rho.change_of_basis, np.eye(rho.size))
            h.true("%s size" % name, rho.size == rho(g.identity).shape[0] == sum(g.irrep(*i).size for i in rho.irreps))
            for i in set(rho.irreps):
                h.true("%s multiplicity" % name, rho.multiplicity(i) == list(rho.irreps).count(i))

            def hom(v):
                a, b = El(v, "a"), El(v, "b")
                h.eq("%s hom" % name, rho(a @ b), mm(rho(a), rho(b)), 1e-5)

            def inv(v):
                a = El(v, "a")
                h.eq("%s inverse" % name, mm(rho(~a), rho(a)), np.eye(rho.size), 1e-5)
                if level == "irreps":
                    h.eq("%s orthogonal" % name, mm(rho(a).T, rho(a)), np.eye(rho.size), 1e-5)

            def dec(v):
                a = El(v, "a")
                h.eq("%s decomposition" % name, rho(a), decomp(rho, a), 1e-5)
                if oracle is not None:
                    h.eq("%s matrices" % name, rho(a), oracle(a), 1e-5)
                inv1 = [i for i in rho.irreps if g.irrep(*i).size == 1 and poly.same(g.irrep(*i)(a)[0, 0], 1.0)] if h.symbolic else None
                return inv1

            def trv(v):
                a = El(v, "a")
                one = [r for r in (g.irrep(*i)(a) for i in rho.irreps) if r.shape == (1, 1)]
                # a generic element acts as 1 exactly in the trivial irreps; flips and inversions are symbolic and forked on
                return any(poly.same(r[0, 0], 1.0) for r in one)
            n3 = "3" in type(g).__name__ or any("3" in type(getattr(g, f, g)).__name__ for f in ("G1", "G2"))
            if irr:
                h.paths("%s hom" % name, {**E.dims("a"), **E.dims("b")}, hom)
                h.paths("%s inv" % name, E.dims("a"), inv)
            if level != "irreps" or oracle is not None:
                h.paths("%s dec" % name, E.dims("a"), dec)
            if not n3:
                def chr_(v):
                    a = El(v, "a")
                    h.eq("%s character" % name, rho.character(a), trace(rho(a)), 1e-5)
                h.paths("%s chr" % name, E.dims("a"), chr_)
            else:
                def chr3(v):
                    q = axis_angle(v)
                    f = v.get("f")
                    a = g.element((f, q) if "O3" == type(g).__name__ else q) if not hasattr(g, "G1") else g.element((E.a.get(h, v, "a1"), q) if type(g.G2).__name__ == "SO3" else (q, E.b.get(h, v, "a2")))
                    h.eq("%s character" % name, rho.character(a), trace(rho(a)), 1e-4)
                d = {"t": ("angle", 2, 0, 1), "al": ("angle", 1, 0, .5), "be": ("angle", 1, 0, 1)}
                if hasattr(g, "G1"):
                    d.update(E.a.dims("a1") if type(g.G2).__name__ == "SO3" else E.b.dims("a2"))
                elif type(g).__name__ == "O3":
                    d["f"] = (0, 1)
                h.paths("%s chr" % name, d, chr3)
            # trivial: acts as 1 on every connected component
            triv = all(all(abs(g.irrep(*i)(x)[0, 0] - 1) < 1e-6 for x in generators(g)) if g.irrep(*i).size == 1 else False for i in rho.irreps[:1])
            cont_ = [i for i in rho.irreps if g.irrep(*i).size == 1 and all(abs(g.irrep(*i)(x)[0, 0] - 1) < 1e-6 for x in generators(g))]
            h.true("%s contains_trivial" % name, rho.contains_trivial() == bool(cont_))
            if rho.size > 1 or level == "irreps":
                h.true("%s is_trivial" % name, rho.is_trivial() == (rho.size == 1 and bool(cont_)))
    return Instance("%s[%s]" % (level, s), setup, run, timeout=600, cost=3)


def axis_angle(v):
    (c, s), (ca, sa), (cb, sb) = cs(v["t"] / 2.0), cs(v["al"]), cs(v["be"])
    return quat_arr([sa * cb * s, sa * sb * s, ca * s, c])


# --------------------------------------------------------------------------------------------- finite groups
def tab(h, sel, Ms):
    """matrix chosen by the selectors"""
    Ms = np.asarray(Ms)
    out = np.empty(Ms.shape[1:], dtype=object if h.symbolic else float)
    for r in np.ndindex(out.shape):
        col = Ms[(slice(None),) + r]
        out[r] = poly.dot([(u, float(c)) for u, c in zip(sel, col) if c != 0]) if np.any(col) else 0.0
    return out


def fin(s, level, split=None):
    def setup():
        g = group_of(s)
        R = quotients(g, s) if level == "quotients" else reps(g, s, level)
        if split is not None:
            R = {k: v for i, (k, v) in enumerate(R.items()) if i % split[1] == split[0]}
        return {"g": g, "reps": R}

    def run(h, o):
        g = o["g"]
        els = list(g.elements)
        n = len(els)
        bs = els if n <= 12 else list(generators(g))
        u, v = h.pick("a", n), h.pick("b", len(bs))
        w = [x * y for x in u for y in v]
        prods = [x @ y for x in els for y in bs]
        invs = [~x for x in els]
        for name, (rho, oracle) in o["reps"].items():
            d = rho.size
            T = np.stack([np.asarray(rho(x), dtype=float) for x in els])
            Tb = np.stack([np.asarray(rho(x), dtype=float) for x in bs])
            Tab = np.stack([np.asarray(rho(x), dtype=float) for x in prods])
            C = np.einsum("irk,jkc->ijrc", T, Tb).reshape(len(w), d, d)
            h.eq("%s hom" % name, tab(h, w, Tab), tab(h, w, C), 1e-6)
            Ti = np.stack([np.asarray(rho(x), dtype=float) for x in invs])
            I = np.eye(d)
            h.eq("%s inverse" % name, tab(h, u, np.einsum("irk,ikc->irc", Ti, T)), I, 1e-6)
            h.eq("%s identity" % name, rho(g.identity), I)
            h.eq("%s Q Q^-1" % name, rho.change_of_basis @ rho.change_of_basis_inv, I)
            h.eq("%s Q^-1 Q" % name, rho.change_of_basis_inv @ rho.change_of_basis, I)
            h.true("%s size" % name, rho.size == T.shape[1] == sum(g.irrep(*i).size for i in rho.irreps))
            if level == "irreps":
                h.eq("%s orthogonal" % name, tab(h, u, np.einsum("ikr,ikc->irc", T, T)), I, 1e-6)
            h.eq("%s character" % name, tab(h, u, np.array([[[float(rho.character(x))]] for x in els])), tab(h, u, np.einsum("irr->i", T).reshape(n, 1, 1)), 1e-6)
            D = np.stack([decomp(rho, x) for x in els])
            h.eq("%s decomposition" % name, tab(h, u, T), tab(h, u, D), 1e-6)
            if oracle is not None:
                O = np.stack([np.asarray(oracle(x), dtype=float) for x in els])
                h.eq("%s matrices" % name, tab(h, u, T), tab(h, u, O), 1e-6)
            if level in ("big", "quotients") and name.split()[0] in ("regular", "quotient"):
                h.eq("%s entries are 0 or 1" % name, tab(h, u, T * (1 - T)), np.zeros((d, d)), 1e-6)
            inv1 = np.einsum("irr->", T) / n
            h.true("%s contains_trivial" % name, rho.contains_trivial() == (inv1 > .5))
            if d > 1 or level == "irreps":
                h.true("%s is_trivial" % name, rho.is_trivial() == (d == 1 and inv1 > .5))
            for i in set(rho.irreps):
                h.true("%s multiplicity" % name, rho.multiplicity(i) == list(rho.irreps).count(i))
                # the declared multiplicity is the true one
                psi = g.irrep(*i)
                ch = np.array([np.trace(psi(x)) for x in els])
                m = float(np.einsum("irr,i->", T, ch)) / n / psi.sum_of_squares_constituents
                h.true("%s multiplicity of %s" % (name, i), abs(m - rho.multiplicity(i)) < 1e-6)
    return Instance("%s[%s]%s" % (level, s, "" if split is None else " %d/%d" % split), setup, run, timeout=600, cost=3)


def instances():
    L = []
    ct = ["SO2", "O2", "SO3", "O3", "CylSO2", "CylO2"] + (["XSO2*SO2", "XSO3*C2", "WSO2"] if not THOROUGH else ["XSO2*SO2", "XSO3*C2", "WSO2", "XO2*C2", "XSO2*C3", "XC4*SO2", "WO2"])
    for s in ct:
        for lv in ("irreps", "sum", "tensor", "disentangle", "big"):
            if s[0] in "XW" and lv == "big":
                continue
            L.append(cont(s, lv))
    fi = ["C1", "C2", "C3", "C4", "C5", "C6", "C8", "D1", "D2", "D3", "D4", "D5", "D6", "O", "I", "Oh", "K3", "K4", "F2", "F3", "XC2*C3", "XC3*C3", "XC4*C4", "XD2*C2", "XC3*D3", "WC3", "XC4*C3"]
    if THOROUGH:
        fi += ["C7", "C9", "C10", "C12", "C16", "D7", "D8", "D9", "D12", "Ih", "K6", "F4", "F5", "XO*C2", "XC5*C5", "XD3*D3", "XD4*C4", "XC4*D4", "WC4", "WD3"]
    for s in fi:
        for lv in ("irreps", "sum", "tensor", "disentangle", "big"):
            if s in ("I", "Ih", "Oh") and lv == "big" and not THOROUGH:
                continue
            if s == "C1" and lv != "irreps" and lv != "big":
                continue
            L.append(fin(s, lv))
    for s in SUBS:
        if SUBS[s]:
            L.append(fin(s, "quotients"))
    return L
