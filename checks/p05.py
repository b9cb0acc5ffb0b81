"""P05 regular, quotient, induced and spectral representations; homogeneous spaces; Fourier transforms"""
from .common import *
from .common import _flat
from .elems import *
from symx import poly
from .p01 import group_of
from .p02 import mm, kron, bdiag, rnd_cob, tab
from .p03 import dim2, A3, rot

EXPLANATION = ("Finite groups: the element g (and h of the subgroup) is a one-hot choice among the listed elements; the coset action, the block structure of induced representations and the "
               "equivariance of the homogeneous space bases are decided for all choices. Continuous groups: the real basis functions run on symbolic elements (angles, flips, unit quaternions). "
               "Completeness of the bases is a query for an arbitrary matrix. Fourier layers: symbolic coefficients of functions that are positive on the grid come back unchanged through the "
               "sampling, ReLU and inverse transform of the layer.")
ASSUMPTIONS = ["the axes of regular, quotient and induced representations are labelled by the elements / by the cosets in order of appearance in group.elements, or by the representatives passed",
               "irreps up to the stated frequency"]


# --------------------------------------------------------------------------------------------- finite: coset actions
def coset_reps(g, H_, par):
    seen, R = [], []
    for x in g.elements:
        if x not in seen:
            R.append(x)
            seen += [x @ par(y) for y in H_.elements]
    return R


def mackey(g, H_, par, psi, R):
    """x -> matrices of the representation induced by psi with the representatives R"""
    where = {}
    for i, r in enumerate(R):
        for y in H_.elements:
            where[r @ par(y)] = (i, y)
    d = psi.size
    P_ = {y: np.asarray(psi(y), dtype=float) for y in H_.elements}

    def m(x):
        M = np.zeros((len(R) * d, len(R) * d))
        for i, r in enumerate(R):
            j, y = where[x @ r]
            M[j * d:(j + 1) * d, i * d:(i + 1) * d] = P_[y]
        return M
    return m


def cosets(s, sids):
    def setup():
        g = group_of(s)
        out = []
        els = list(g.elements)
        reg = g.regular_representation
        ix = {e: i for i, e in enumerate(els)}
        out.append(("regular", reg, lambda x: np.eye(len(els))[:, [ix[e] for e in els]] if False else _perm([ix[x @ e] for e in els])))
        for sid in sids:
            H_, par, chi = g.subgroup(sid)
            R = coset_reps(g, H_, par)
            out.append(("quotient %s" % (sid,), g.quotient_representation(sid), mackey(g, H_, par, H_.trivial_representation, R)))
            for psi in H_.irreps():
                if psi.size * len(R) <= 30:
                    out.append(("induced %s %s" % (sid, psi.id), g.induced_representation(sid, psi), mackey(g, H_, par, psi, R)))
            # representatives chosen by the user
            r = random.Random(str(sid))
            K = [x @ par(r.choice(list(H_.elements))) for x in R]
            r.shuffle(K)
            if len(K) <= 24:
                out.append(("quotient %s with representatives" % (sid,), g.quotient_representation(sid, representatives=K, name="p05 q %s" % (sid,)), mackey(g, H_, par, H_.trivial_representation, K)))
                psi = list(H_.irreps())[-1]
                if psi.size * len(R) <= 30:
                    out.append(("induced %s %s with representatives" % (sid, psi.id), g.induced_representation(sid, psi, representatives=K, name="p05 i %s" % (sid,)), mackey(g, H_, par, psi, K)))
        return g, out

    def run(h, o):
        g, out = o
        els = list(g.elements)
        u = h.pick("g", len(els))
        for name, rho, oracle in out:
            O = np.stack([oracle(x) for x in els])
            h.true("%s: size" % name, rho.size == O.shape[1])
            if rho.size != O.shape[1]:
                continue
            T = np.stack([np.asarray(rho(x), dtype=float) for x in els])
            h.eq("%s: action on the cosets" % name, tab(h, u, T), tab(h, u, O), 1e-6)
            h.eq("%s: orthogonal change of basis" % name, rho.change_of_basis.T @ rho.change_of_basis, np.eye(rho.size), 1e-6)
    return Instance("cosets[%s]" % s, setup, run, timeout=600, cost=3)


def _perm(p):
    M = np.zeros((len(p), len(p)))
    M[p, np.arange(len(p))] = 1
    return M


def induced_o2():
    """O(2) from SO(2): two cosets"""
    def setup():
        g = group_of("O2")
        H_, par, chi = g.subgroup((None, -1))
        return g, H_, par, [(k, g.induced_representation((None, -1), H_.irrep(k))) for k in range(4)], g.quotient_representation((None, -1))

    def run(h, o):
        g, H_, par, reps, quo = o
        E = el(g)
        for k, rho in reps + [("quotient", quo)]:
            psi = H_.irrep(k) if k != "quotient" else H_.trivial_representation
            d = psi.size

            def body(v):
                x = g.element(E.get(h, v, "a"))
                f, t = x.value
                # r_0 = e, r_1 = reflection: g r_j = r_i h
                M = np.empty((2 * d, 2 * d), dtype=object)
                M[:] = 0.0
                a = psi(H_.element(t)) if f == 0 else psi(H_.element(0.0 - t))
                b = psi(H_.element(0.0 - t)) if f == 0 else psi(H_.element(t))
                # (f, t) = rot(t) flip^f;  flip rot(t) = rot(-t) flip
                if f == 0:
                    M[:d, :d], M[d:, d:] = a, b
                else:
                    M[d:, :d], M[:d, d:] = a, b
                h.eq("induced %s" % (k,), rho(x), M, 1e-5)
            h.paths("induced %s" % (k,), E.dims("a"), body)
    return Instance("cosets[O2 / SO2]", setup, run, timeout=300, cost=2)


# --------------------------------------------------------------------------------------------- homogeneous spaces
def homspace(s, sid, tag=None, lim=2):
    def setup():
        g = group_of(s)
        i = sid(g) if callable(sid) else sid
        hs = g.homspace(i)
        H_, par, chi = g.subgroup(i)
        rhos = [r for r in irreps_of(g) if r.size <= 7 and (not g.continuous or max(_flat(r.id)) <= lim)]
        psis = [p for p in irreps_of(H_) if p.size <= 4 and (not H_.continuous or max(_flat(p.id)) <= lim)]
        if len(psis) > 6 and not THOROUGH:
            psis = psis[:3] + psis[-2:]
        return g, hs, H_, par, chi, rhos, psis

    def run(h, o):
        g, hs, H_, par, chi, rhos, psis = o
        E, F = el(g), dim2(el(H_))
        fin = not g.continuous
        B0 = {(r.id, p.id): np.asarray(hs.basis(g.identity, r, p), dtype=float) for r in rhos for p in psis}
        if fin:
            ge, he = list(g.elements), list(H_.elements)
            if len(ge) > 24:
                ge = [g.identity] + list(generators(g))
            u, w = h.pick("g", len(ge)), h.pick("h", len(he))
            uw = [x * y for x in u for y in w]
            uu = [x * y for x in u for y in h.pick("g2", len(ge))] if len(ge) <= 12 else None
        triv = H_.trivial_representation
        for r in rhos:
            for p in psis:
                n = "%s %s" % (r.name, p.name)
                B = B0[r.id, p.id]
                dim = hs.dimension_basis(r.id, p.id)
                h.true("%s: dimension_basis" % n, tuple(dim) == B.shape and dim[0] == r.size and dim[2] == p.size)
                k = B.shape[1]
                # complete: the maps commuting with H are the endomorphisms of rho applied to the basis
                En = np.asarray(r.endomorphism_basis(), dtype=float)
                S = np.einsum("eoi,ijp->jeop", En, B).reshape(k * len(En), r.size, p.size)
                if r.size * p.size <= 49:
                    rows = [np.kron(np.asarray(r(par(y)), dtype=float), np.eye(p.size)) - np.kron(np.eye(r.size), np.asarray(p(y), dtype=float).T) for y in generators(H_)]
                    h.nokernel("%s: complete" % n, np.concatenate(rows + [S.reshape(len(S), r.size * p.size)]))
                    h.nokernel("%s: independent" % n, S.reshape(len(S), r.size * p.size).T)
                if k == 0:
                    continue
                at = (lambda x: np.asarray(hs.basis(x, r, p)).reshape(r.size, k * p.size))
                # (the norm of the basis elements is that of orthonormal functions on the cosets)
                h.eq("%s: orthonormal" % n, np.einsum("ijp,ikp->jk", B, B), p.size * np.eye(k), 1e-5)
                if fin:
                    T = np.stack([at(x) for x in ge])
                    Tgh = np.stack([at(x @ par(y)) for x in ge for y in he])
                    O = np.stack([np.einsum("ijp,pq->ijq", np.asarray(hs.basis(x, r, p)), p(y)).reshape(r.size, k * p.size) for x in ge for y in he])
                    h.eq("%s: f(gh) = f(g) psi(h)" % n, tab(h, uw, Tgh), tab(h, uw, O), 1e-5)
                    h.eq("%s: f(g) = rho(g) f(e)" % n, tab(h, u, T), tab(h, u, np.stack([r(x) @ at(g.identity) for x in ge])), 1e-5)
                else:
                    def cos(v):
                        x, y = g.element(E.get(h, v, "g")), H_.element(F.get(h, v, "h"))
                        b = np.asarray(hs.basis(x, r, p))
                        h.eq("%s: f(gh) = f(g) psi(h)" % n, at(x @ par(y)), np.concatenate([mm(b[:, j, :], p(y)) for j in range(k)], axis=1).reshape(r.size, k, p.size).reshape(r.size, -1), 1e-5)

                    def cosh(v):
                        y = H_.element(F.get(h, v, "h"))
                        h.eq("%s: f(h) = f(e) psi(h)" % n, at(par(y)), np.concatenate([mm(B[:, j, :], p(y)) for j in range(k)], axis=1), 1e-5)

                    def equ(v):
                        x = g.element(E.get(h, v, "g"))
                        h.eq("%s: f(g) = rho(g) f(e)" % n, at(x), mm(r(x), at(g.identity)), 1e-5)
                    n3 = "3" in s
                    if r.size * k * p.size <= 36 and not (n3 and max(_flat(r.id)) > 1):
                        h.paths("%s cos" % n, {**E.dims("g"), **F.dims("h")}, cos)
                    else:
                        h.paths("%s cosh" % n, F.dims("h"), cosh)
                    h.paths("%s equ" % n, E.dims("g"), equ)
        # scalar functions and the complete basis
        for p in psis[:3]:
            ids = [r.id for r in rhos]
            ind = hs.induced_representation(p, ids)
            d = sum(np.prod(hs.dimension_basis(r.id, p.id)[:2]) for r in rhos)
            h.true("%s: size of the induced representation" % p.name, (ind is None and d == 0) or (ind is not None and ind.size == d))
            if ind is None or d > 40:
                continue
            h.true("%s: irreps of the induced representation" % p.name, list(ind.irreps) == [r.id for r in rhos for _ in range(hs.dimension_basis(r.id, p.id)[1])])
            if fin:
                T = np.stack([np.asarray(hs.complete_basis(x, p, ids)).reshape(-1, 1) for x in ge])
                e = T[ge.index(g.identity)]
                h.eq("%s: complete basis" % p.name, tab(h, u, T), tab(h, u, np.stack([ind(x) @ e for x in ge])), 1e-5)
            else:
                e = np.asarray(hs.complete_basis(g.identity, p, ids)).reshape(-1, 1)
                h.eq("%s: complete basis at the identity" % p.name, e.reshape(-1), np.concatenate([B0[r.id, p.id][:, :, 0].T.reshape(-1) for r in rhos]))
        # same_coset
        def same(v):
            x, y = g.element(E.get(h, v, "g")), H_.element(F.get(h, v, "h"))
            h.true("g and gh are in the same coset", hs.same_coset(x, x @ par(y)))
        if fin:
            # one-hot: the table of the answers against membership
            mem = [par(y) for y in he]
            Tm = np.array([[[float(bool(hs.same_coset(x, y)))]] for x in ge for y in ge])
            Om = np.array([[[float((~x @ y) in mem)]] for x in ge for y in ge])
            if uu is not None:
                h.eq("same_coset", tab(h, uu, Tm), tab(h, uu, Om))
        elif type(H_).__name__ not in ("Icosahedral",):
            h.paths("same", {**E.dims("g"), **F.dims("h")} if "3" not in s else F.dims("h"), same if "3" not in s else
                    (lambda v: h.true("h is in the coset of e", hs.same_coset(g.identity, par(H_.element(F.get(h, v, "h")))))))
    return Instance("homspace[%s %s]" % (s, tag or sid), setup, run, timeout=600, cost=3)


# --------------------------------------------------------------------------------------------- band-limited representations
def bandlimited(s, L_, sids):
    def setup():
        g = group_of(s)
        return g

    def run(h, g):
        ids = [tuple(i) for i in g.bl_irreps(L_)]
        h.true("bl_irreps: no repetitions", len(ids) == len(set(ids)))
        # every irrep up to the frequency, and no other
        want = {r.id for r in irreps_of(g) if _freq(g, r) <= L_}
        h.true("bl_irreps: the irreps up to the frequency", set(ids) == want)

        def mult(rho):
            return {i: list(rho.irreps).count(i) for i in set(rho.irreps)}
        if hasattr(g, "bl_regular_representation"):
            R = g.bl_regular_representation(L_)
            h.true("bl_regular: every irrep as often as its size", mult(R) == {i: g.irrep(*i).size // g.irrep(*i).sum_of_squares_constituents for i in ids})
            h.eq("bl_regular: basis", R.change_of_basis, np.eye(R.size))
        S = g.spectral_regular_representation(*ids)
        h.true("spectral_regular: every irrep as often as its size", mult(S) == {i: g.irrep(*i).size // g.irrep(*i).sum_of_squares_constituents for i in ids})
        h.true("spectral_regular: order", [i for k, i in enumerate(S.irreps) if k == 0 or S.irreps[k - 1] != i] == ids)
        for sid in sids:
            H_, par, chi = g.subgroup(sid)
            m = {}
            for i in ids:
                r = g.irrep(*i)
                # invariants under H, from its generators
                A = np.concatenate([np.asarray(r(par(y)), dtype=float) - np.eye(r.size) for y in generators(H_)])
                d = r.size - np.linalg.matrix_rank(A, tol=1e-6)
                if d:
                    m[i] = d // r.sum_of_squares_constituents
            h.true("spectral_quotient %s" % (sid,), mult(g.spectral_quotient_representation(sid, *ids)) == m)
            if hasattr(g, "bl_quotient_representation"):
                h.true("bl_quotient %s" % (sid,), mult(g.bl_quotient_representation(L_, sid)) == m)
            if hasattr(g, "bl_induced_representation"):
                for p in [q for q in irreps_of(H_) if not H_.continuous or max(_flat(q.id)) <= L_][:4]:
                    mi = {}
                    for i in ids:
                        r = g.irrep(*i)
                        A = np.concatenate([np.kron(np.asarray(r(par(y)), dtype=float), np.eye(p.size)) - np.kron(np.eye(r.size), np.asarray(p(y), dtype=float).T) for y in generators(H_)])
                        d = A.shape[1] - np.linalg.matrix_rank(A, tol=1e-6)
                        if d:
                            mi[i] = d // r.sum_of_squares_constituents
                    if mi:
                        h.true("bl_induced %s %s" % (sid, p.id), mult(g.bl_induced_representation(L_, p, sid)) == mi)
        if hasattr(g, "bl_sphere_representation"):
            h.true("bl_sphere", mult(g.bl_sphere_representation(L_)) == ({(l,): 1 for l in range(L_ + 1)} if type(g).__name__ == "SO3" else {(l % 2, l): 1 for l in range(L_ + 1)}))
    return Instance("band-limited[%s %d%s]" % (s, L_, " " + str(sids) if len(sids) > 4 else ""), setup, run, timeout=300, cost=2)


def _freq(g, r):
    n = type(g).__name__
    if n in ("SO2", "CyclicGroup", "SO3", "O2", "DihedralGroup", "O3"):
        return r.attributes["frequency"]
    return 0 if r.is_trivial() else 99


# --------------------------------------------------------------------------------------------- Fourier transforms
def fourier(gsp, irreps, out=None, sub=None, ch=2, cls=None, tag="", grid=None, normalize=True, **kw):
    """coefficients of a function which is positive on the grid come back through ReLU"""
    def setup():
        s = gs(gsp)
        g = s.fibergroup
        irr = g.bl_irreps(irreps) if isinstance(irreps, int) else list(irreps)
        o = None if out is None else (g.bl_irreps(out) if isinstance(out, int) else list(out))
        if sub is None:
            m = nn.FourierPointwise(s, ch, irr, function="p_relu", inplace=False, out_irreps=o, normalize=normalize, **kw)
        else:
            m = nn.QuotientFourierPointwise(s, sub, ch, irr, grid=grid(g), function="p_relu", inplace=False, out_irreps=o, normalize=normalize)
        return {"m": m, "g": g, "irr": irr, "out": o}

    def run(h, ob):
        m, g = ob["m"], ob["g"]
        d = m.in_type.representations[0].size
        ri, ro = m.in_type.representations[0].irreps, m.out_type.representations[0].irreps
        x = np.empty((1, ch * d) + (1,) * m.space.dimensionality, dtype=object if h.symbolic else float)
        vals = []
        for c in range(ch):
            p = 0
            for i in ri:
                r = g.irrep(*i)
                for k in range(r.size):
                    v = h.val("x%d_%d_%s" % (c, p, i), 1.0, 2.0) if r.is_trivial() else h.val("x%d_%d_%s" % (c, p, i), -.3 / d, .3 / d)
                    x[(0, c * d + p) + (0,) * m.space.dimensionality] = v
                    p += 1
        X = h.wrap(x.copy())
        y = m(nn.GeometricTensor(X, m.in_type)).tensor
        y = to_obj(h, y).reshape(ch, -1)
        x = x.reshape(ch, d)
        do = m.out_type.representations[0].size
        h.true("shape", y.shape == (ch, do))
        # positions of the irreps
        def pos(irr):
            P_, p = {}, 0
            for i in irr:
                P_.setdefault(i, []).extend(range(p, p + g.irrep(*i).size))
                p += g.irrep(*i).size
            return P_
        pi, po = pos(ri), pos(ro)
        # the two kernels are normalized separately: the same function has coefficients scaled by their norms
        if normalize and ob["out"] is not None:
            n2 = lambda irr: math.sqrt(sum(len(v) for v in pos(irr).values())) if sub is None else None
            allir = {**pi, **po}
            f = math.sqrt(sum(_dim(g, i) for i in allir) / sum(_dim(g, i) for i in pi)) if sub is None else None
        else:
            f = 1.0
        if f is None:
            return
        for i in po:
            src = pi.get(i)
            want = np.stack([np.array([x[c, k] * f for k in src], dtype=object) if src else np.zeros(len(po[i])) for c in range(ch)])
            h.eq("coefficients of %s" % (i,), y[:, po[i]], want, 1e-4)
    t = "%s[%s %s%s%s]" % ("quotient fourier" if sub is not None else "fourier", gsp, irreps, " -> %s" % (out,) if out is not None else "", tag + (" raw" if not normalize else ""))
    return Instance(t, setup, run, timeout=300, cost=2)


def _dim(g, i):
    # squared norm of the kernel of an irrep: its size times the number of columns
    r = g.irrep(*i)
    return r.size * (r.size // r.sum_of_squares_constituents)


# --------------------------------------------------------------------------------------------- grids
def nearest(A, B):
    """for each matrix of A the closest one of B"""
    d = np.abs(A[:, None] - B[None]).reshape(len(A), len(B), -1).max(-1)
    return B[d.argmin(1)]


def within(h, name, sel, A, B, tol=1e-4):
    """whatever is chosen, A is in the list B"""
    h.eq(name, tab(h, sel, A - nearest(A, B)), np.zeros(A.shape[1:]), tol)


def grids(s):
    """grids of elements: the polyhedral ones are the (conjugated) groups; sphere grids send the pole to the points"""
    def setup():
        g = group_of(s)
        st = g.standard_representation() if s.endswith("O3") else (g.irrep(1) if s == "SO2" else g.irrep(1, 1))
        M = lambda L: np.stack([np.asarray(st(e), dtype=float) for e in L])
        out, sph, conj = [], [], []
        if s in ("SO2", "O2"):
            for N in (1, 2, 3, 4, 5, 8):
                out.append(("regular %d" % N, M(g.grid(N)), N * (1 if s == "SO2" else 2), None, None))
                out.append(("named %d" % N, M(g.grid(type="regular", N=N)), N * (1 if s == "SO2" else 2), None, None))
                if s == "O2":
                    out.append(("so2 %d" % N, M(g.grid_so2(N)), N, None, None))
        else:
            for t, n in (("cube", 24), ("tetra", 12), ("ico", 60)):
                base = M(g.grid(t))
                k = 1 if s == "SO3" else 2
                out.append((t, base, n * k, None, None))
                for kind in (0, 1):
                    a = rot(g, kind)
                    out.append(("%s adj %d" % (t, kind), M(g.grid(t, adj=a)), n * k, np.asarray(st(a), dtype=float), base))
                    if s == "O3":
                        b3 = M(g.grid_so3(t))
                        out.append(("so3 %s adj %d" % (t, kind), M(g.grid_so3(t, adj=a)), n, np.asarray(st(a), dtype=float), b3))
                for P in ("Q", "EV", "MAT", "ZYZ"):
                    conj.append(("%s %s" % (t, P), M(g.grid(t, parametrization=P)), base))
            Gs = {t: M(group_of("SO3").grid(t)) if s == "SO3" else M(g.grid_so3(t)) for t in ("cube", "tetra", "ico")}
            pole = np.array([0., 0., 1.])
            for t, n, G_, pt in (("cube", 6, "cube", pole), ("tetra", 6, "tetra", pole), ("ico", 30, "ico", pole), ("cube_vertices", 8, "cube", np.ones(3) / math.sqrt(3))):
                for kind in (None, 0, 1):
                    a = None if kind is None else rot(g, kind)
                    A = np.eye(3) if a is None else np.asarray(st(a), dtype=float)
                    L = g.sphere_grid(t) if a is None else g.sphere_grid(t, adj=a)
                    sph.append(("sphere %s%s" % (t, "" if a is None else " adj %d" % kind), M(L), n, Gs[G_] @ pt @ A.T))
            for N_, M_ in ((4, 3), (5, 4), (1, 2)):
                pts = [[0., 0., 1.]] + [[math.cos(2 * math.pi * j / N_) * math.sin(math.pi * i / (M_ - 1)), math.sin(2 * math.pi * j / N_) * math.sin(math.pi * i / (M_ - 1)), math.cos(math.pi * i / (M_ - 1))]
                                        for i in range(1, M_ - 1) for j in range(N_)] + [[0., 0., -1.]]
                sph.append(("sphere longlat %d %d" % (N_, M_), M(g.sphere_grid("longlat", N_, M_)), len(pts), np.array(pts)))
        return out, sph, conj

    def run(h, o):
        out, sph, conj = o
        for n, Ms, size, A, base in out:
            h.true("%s: size" % n, len(Ms) == size and len(np.unique(np.round(Ms, 4), axis=0)) == size)
            if len(Ms) != size:
                continue
            u = h.pick("a " + n, size)
            within(h, "%s: contains the identity" % n, [1.0], np.eye(Ms.shape[-1])[None], Ms)
            if A is None and size <= 24:
                w = h.pick("b " + n, size)
                within(h, "%s: closed under products" % n, [x * y for x in u for y in w], np.einsum("aij,bjk->abik", Ms, Ms).reshape((-1,) + Ms.shape[1:]), Ms)
            else:
                # a group closed under the left action of a few of its elements that generate it
                for c in range(0, size, max(1, size // 5)):
                    within(h, "%s: closed under the element %d" % (n, c), u, np.einsum("ij,bjk->bik", Ms[c], Ms), Ms)
            if A is not None:
                within(h, "%s: conjugated by adj" % n, u, A @ base @ A.T, Ms)
        for n, Ms, base in conj:
            h.true("%s: size" % n, Ms.shape == base.shape)
            u = h.pick("p " + n, len(base))
            within(h, "%s: same elements in every parametrization" % n, u, Ms, base)
        for n, Ms, size, pts in sph:
            h.true("%s: size" % n, len(Ms) == size)
            u = h.pick("s " + n, len(Ms))
            within(h, "%s: the pole is mapped into the orbit" % n, u, Ms[:, :, 2], pts)
            w = h.pick("t " + n, len(pts))
            within(h, "%s: every point is reached" % n, w, pts, Ms[:, :, 2])
    return Instance("grids[%s]" % s, setup, run, timeout=300, cost=2)


def instances():
    L = [grids(s) for s in ("SO2", "O2", "SO3", "O3")]
    fc = {"C1": [], "C4": [1, 2, 4], "C6": [2, 3], "C5": [1], "D1": [(None, 1), (0, 1)], "D2": [(None, 2), (0, 1), (1, 1)], "D3": [(None, 3), (0, 1), (1, 1), (2, 1), (None, 1)],
          "D4": [(None, 2), (None, 4), (1, 2), (0, 2), (0, 1), (3, 1)], "D6": [(0, 3), (1, 3), (None, 6), (None, 3), (2, 1), (5, 2)], "O": [(False, 4), (False, 3), (True, 1), (False, 2)],
          "I": [(False, 5), (False, 3), (True, 1)], "K3": [], "XC2*C3": [(1, 3), (2, 1)], "XD4*C2": [((0, 2), 2), ((None, 4), 1)], "XC4*C3": [(2, 3), (1, 1)], "F2": [], "XC3*C3": [(1, 3), (3, 1)]}
    if THOROUGH:
        fc.update({"C8": [2, 4], "C12": [3, 4], "D5": [(None, 5), (3, 1)], "D8": [(1, 4), (None, 8), (5, 2)], "D12": [(2, 4), (None, 6)], "Oh": [], "XD3*D3": [((0, 1), (None, 3))], "WC4": []})
    for s, sids in fc.items():
        L.append(cosets(s, sids))
    L.append(induced_o2())
    for s, sids in {"C4": [1, 2, 4], "C6": [2, 3], "D3": [(None, 3), (1, 1), (None, 1)], "D4": [(None, 4), (1, 2), (3, 1), (0, 4)], "D6": [(1, 3), (None, 6)], "O": [(False, 4), (False, 3), (True, 1)],
                    "I": [(False, 5), (True, 1)], "XC4*C3": [(2, 3)], "XD4*C2": [((1, 2), 2)], "XC3*C3": [(1, 3)]}.items():
        for i in sids:
            L.append(homspace(s, i))
    for s, sids in {"SO2": [1, 2, 3, 5, -1], "O2": [(None, 1), (None, 3), (None, -1), (0.0, 1), (1.0, 1), (0.0, 2), (2.5, 3), (0.0, -1)],
                    "SO3": [(False, 1), (False, 3), (False, -1), (True, 2), (True, -1), "octa", "ico", "so3"],
                    "O3": ["so3", (False, False, 2), (False, False, -1), (False, True, -1), (True, False, 3), (True, True, -1), ("cone", -1), ("cone", 2), (True, "octa")],
                    "CylSO2": [(1, 3), (2, -1)], "XSO2*C3": [(2, 3)]}.items():
        for i in sids:
            L.append(homspace(s, i))
    for i in [(False, 3), (False, -1), (True, -1)]:
        L.append(homspace("SO3", A3(*i), tag="%s adj" % (i,)))
    for i in [("cone", -1), (True, False, 2)]:
        L.append(homspace("O3", A3(*i), tag="%s adj" % (i,)))
    for s, l, sids in (("SO2", 0, []), ("SO2", 3, [1, 2, 3]), ("O2", 2, [(None, -1), (0.0, 2), (1.0, 1)]), ("O2", 0, []), ("SO3", 2, [(False, -1), (True, -1), (False, 2), "octa"]), ("SO3", 1, [(False, 3)]),
                       ("O3", 2, ["so3", ("cone", -1), (True, False, 2)]), ("O3", 1, []), ("C6", 3, [2, 3]), ("C5", 1, []), ("D6", 2, [(None, 6), (1, 2)]), ("D5", 2, []), ("C8", 0, []), ("D4", 2, [(None, 2), (0, 1), (1, 1), (0, 2), (1, 2), (None, 4)]), ("D6", 3, [(0, 1), (1, 1), (None, 2), (0, 3), (1, 3)]),
                       ("O3", 2, [("cone", 3), (False, True, 3), (True, False, 1), (False, False, 2), ("cone", 1), (True, False, 3), (True, True, 2)]), ("SO3", 2, [(True, 2), (True, 3), (False, 4), "ico", (False, 3)])):
        L.append(bandlimited(s, l, sids))
    L += [fourier("r0:SO2", 2, type="regular", N=6), fourier("r0:SO2", 3, type="regular", N=9, normalize=False), fourier("r0:O2", 1, type="regular", N=8), fourier("r0:O2", 2, type="regular", N=10, normalize=False),
          fourier("rot2d:-1", 2, type="regular", N=5), fourier("r0:SO2", 1, out=3, type="regular", N=9), fourier("r0:SO2", 3, out=1, type="regular", N=9), fourier("r0:SO2", 2, out=[(2,), (0,)], type="regular", N=7),
          fourier("r0:C6", [(0,), (1,), (2,), (3,)], type="regular", N=6), fourier("r0:C5", [(1,), (0,)], type="regular", N=5), fourier("r0:D4", [(0, 0), (1, 1), (1, 0)], ch=1, type="regular", N=4),
          fourier("r0:SO3", 1, type="cube"), fourier("r0:SO3", 1, type="ico", ch=1, tag=" ico"), fourier("r0:SO3", 1, out=0, type="cube"), fourier("r0:SO3", 0, out=1, type="cube"), fourier("r0:O3", 1, type="cube", ch=1),
          fourier("r0:SO3", [(1,), (0,)], type="cube", ch=1), fourier("r0:SO3", 2, type="ico", ch=1),
          fourier("r0:SO2", [(0,), (2,), (4,)], sub=2, grid=lambda g: g.grid(12)), fourier("r0:SO2", 3, sub=3, grid=lambda g: g.grid(12)), fourier("r0:SO3", 1, sub=(False, -1), grid=lambda g: g.grid(type="cube")),
          fourier("r0:SO3", 2, sub=(False, -1), grid=lambda g: g.grid(type="ico"), ch=1), fourier("r0:SO3", 2, sub=(False, -1), grid=lambda g: g.grid(type="ico"), ch=1, normalize=False),
          fourier("r0:O2", 2, sub=(0.0, 1), grid=lambda g: g.grid(type="regular", N=12), ch=1), fourier("r0:O3", 2, sub=("cone", -1), grid=lambda g: g.grid(type="ico"), ch=1)]
    return L
