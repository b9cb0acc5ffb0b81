"""P06 steerable kernel bases satisfy the kernel constraint, are linearly independent and complete"""
from .common import *
from .elems import *
from .p02 import mm, bdiag, rnd_cob
from .p03 import dim2
from escnn import kernels as K_

EXPLANATION = ("The real sample / sample_as_dict / sample_harmonics of the kernel bases are executed on a symbolic point (a radius in [0.05, 3] and an arbitrary direction; the origin is a "
               "second point) and on its image under a symbolic group element (z3 integers, angles, unit quaternions) or, for the larger 3D representations, under a set of generators, "
               "which settles the constraint for the whole group as rho is a homomorphism (P02) and the basis is continuous. z3 is asked for a point and element with K(g.x) != rho_out(g) "
               "K(x) rho_in(g)^-1. Completeness: the coefficient tensors of the kernels on the harmonics are read off the real code and z3 is asked for a coefficient tensor which satisfies "
               "the constraint for the generators, is orthogonal to the whole basis and is not zero (linear real arithmetic, expected unsat); independence: for a vanishing combination.")
ASSUMPTIONS = ["radii of the points in {0} or [0.05, 3]; rings and widths are the ones listed in the instance; exp is an uninterpreted function with its bounds",
               "floats are modelled as reals; coefficients closer than 5e-6 are identified; completeness and independence up to 1e-4",
               "frequencies up to the maximum_frequency listed in the instance"]


def split(s):
    """gspace spec with optional conjugation: 'rot2d3:3~' """
    return s.rstrip("~"), s.endswith("~")


def space(s):
    s0, adj = split(s)
    if adj:
        k, _, a = s0.partition(":")
        args = [float(x) if "." in x else int(x) for x in a.split(",")] if a else []
        kind = {"rot2d3": "rot2dOnR3", "dih3": "dihedralOnR3", "conical": "conicalOnR3", "mir": "mirOnR3", "cyl": "cylindricalOnR3"}[k]
        q = np.random.RandomState(3).randn(4)
        return getattr(gspaces, kind)(*args, adjoint=G.o3_group(2).element((0, q / np.linalg.norm(q)), "Q"))
    return gs(s0)


def point(h, d, name="x", lo=0.05, hi=3.0):
    """(2, d): the origin and an arbitrary other point"""
    r = h.val(name + ".r", lo, hi)
    u = h.cs(name + ".u") if d == 2 else h.sphere(name + ".u")
    p = np.zeros((2, d), dtype=object if h.symbolic else float)
    for i in range(d):
        p[1, i] = u[i] * r
    return p


def move(M, p):
    """rows of p mapped by M"""
    q = np.zeros(p.shape, dtype=object if any(not poly.num(a) for a in np.asarray(M, dtype=object).ravel()) else p.dtype)
    for k in range(1, len(p)):
        for i in range(p.shape[1]):
            q[k, i] = poly.sum_([M[i, j] * p[k, j] for j in range(p.shape[1])])
    return q


def conj(Mo, K, Mi):
    """Mo K Mi^T for every kernel of a (S, b, o, i) array"""
    out = np.empty(K.shape, dtype=object)
    for a in np.ndindex(*K.shape[:2]):
        out[a] = mm(Mo, K[a], np.transpose(Mi))
    return out


def pair(g, rin, rout):
    a, b = reps_of(g, rin)[0], reps_of(g, rout)[0]
    return a, b


def kernel(s, rin, rout, mf, sym=True, rings=(0.0, 1.0), cost=1.0, indep=True):
    def setup():
        g = space(s)
        a, b = pair(g, rin, rout)
        try:
            kb = g.build_kernel_basis(a, b, 0.6, list(rings), maximum_frequency=mf)
        except K_.EmptyBasisException:
            kb = None
        return {"g": g, "a": a, "b": b, "kb": kb, "el": dim2(el(g.fibergroup)) if sym else None}

    def run(h, o):
        g, a, b, kb = o["g"], o["a"], o["b"], o["kb"]
        if kb is None:
            raise Skip("empty basis")
        Gp, A = g.fibergroup, g.basespace_action
        x = point(h, g.dimensionality)
        K = to_obj(h, kb.sample(h.wrap(x)))
        h.true("shape", tuple(K.shape) == (2, kb.dim, b.size, a.size) and tuple(kb.shape) == (b.size, a.size))
        buf = h.wrap(h.array("garbage", K.shape))
        h.eq("sample into a given buffer", kb.sample(h.wrap(x), buf), K, 1e-5)
        h.eq("the buffer is filled", buf, K, 1e-5)
        h.eq("forward", kb(h.wrap(x)), K, 1e-5)

        def one(v):
            e = v if v is not None and not isinstance(v, dict) else Gp.element(o["el"].get(h, v, "a"))
            Kg = to_obj(h, kb.sample(h.wrap(move(A(e), x))))
            h.eq("K(g x) = rho_out(g) K(x) rho_in(g)^-1", Kg, conj(b(e), K, a(e)) if _orth(a) else mconj(b(e), K, a(~e)), 1e-3)
        if sym:
            h.paths("g", o["el"].dims("a"), one)
        else:
            for e in generators(Gp):
                one(e)
        if indep and kb.dim <= 48:
            P = np.random.RandomState(5).randn(max(12, 3 * kb.dim // (a.size * b.size) + 8), g.dimensionality)
            P *= (np.linspace(0.1, 1.6, len(P)) / np.linalg.norm(P, axis=1))[:, None]
            Kc = to_obj(h, kb.sample(h.wrap(P))).astype(float)
            h.nokernel("the sampled kernels are linearly independent", np.transpose(Kc, (0, 2, 3, 1)).reshape(-1, kb.dim))
    return Instance("kernel[%s %s->%s mf=%s%s]" % (s, rin, rout, mf, "" if sym else " generators"), setup, run, timeout=600, cost=cost)


def _orth(r):
    Q = r.change_of_basis
    return np.allclose(Q @ Q.T, np.eye(len(Q)), atol=1e-7)


def mconj(Mo, K, MiInv):
    out = np.empty(K.shape, dtype=object)
    for a in np.ndindex(*K.shape[:2]):
        out[a] = mm(Mo, K[a], MiInv)
    return out


def filters(tag, make, sym=True, cost=1.0):
    """the filter basis itself: Y_j(g x) = psi_j(g) Y_j(x)"""
    def setup():
        f = make()
        return {"f": f, "el": dim2(el(f.group)) if sym else None}

    def run(h, o):
        f = o["f"]
        Gp, A = f.group, f.action
        x = point(h, f.dimensionality)
        Y = {j: to_obj(h, y) for j, y in f.sample_as_dict(h.wrap(x)).items()}
        S = to_obj(h, f.sample(h.wrap(x)))
        h.true("irreps", list(Y) == [j for j, _ in f.js])
        h.eq("sample and sample_as_dict", S.reshape(2, -1), np.concatenate([y.reshape(2, -1) for y in Y.values()], axis=1), 1e-6)

        def one(v):
            e = v if v is not None and not isinstance(v, dict) else Gp.element(o["el"].get(h, v, "a"))
            Z = f.sample_as_dict(h.wrap(move(A(e), x)))
            for j, y in Y.items():
                M = Gp.irrep(*j)(e)
                want = np.empty(y.shape, dtype=object)
                for k in np.ndindex(*y.shape[:2]):
                    want[k] = mat(M, y[k].reshape(1, -1)).reshape(-1)
                h.eq("Y_%s(g x) = psi(g) Y(x)" % (j,), Z[j], want, 1e-3)
        if sym:
            h.paths("g", o["el"].dims("a"), one)
        else:
            for e in generators(Gp):
                one(e)
    return Instance("filters[%s]" % tag, setup, run, timeout=600, cost=cost)


class Nothing:
    """the empty basis: complete only if the constraint has no solution"""
    dim = 0

    def sample_harmonics(Y):
        return {}

    def dim_harmonic(j):
        return 0


def coeff(tag, make, sym=True, cost=1.0, complete=True, indep=True):
    """make() -> (filter basis, in, out, inclusion of the group into the group of the filters, kernel basis builder); the kernels as functions of arbitrary harmonics"""
    def setup():
        f, a, b, inc, build = make()
        try:
            kb = build()
        except K_.EmptyBasisException:
            kb = None
        return {"f": f, "kb": kb, "a": a, "b": b, "inc": inc, "el": dim2(el(a.group)) if sym else None}

    def run(h, o):
        kb, f = o["kb"], o["f"]
        a, b, inc = o["a"], o["b"], o["inc"]
        Gp = a.group
        if kb is None:
            kb = Nothing
        js = list(f.js)
        psi = {j: f.group.irrep(*j) for j, _ in js}
        Y = {j: h.array("Y%s" % (j,), (1, m, psi[j].size)) for j, m in js}
        W = {j: h.wrap(y) for j, y in Y.items()}
        K = {j: to_obj(h, k) for j, k in kb.sample_harmonics(W).items()}
        h.true("dimension", kb.dim == sum(k.shape[1] for k in K.values()) and all(kb.dim_harmonic(j) == K[j].shape[1] if j in K else kb.dim_harmonic(j) == 0 for j, _ in js))
        # coefficients: the kernels on unit vectors
        C = {}
        for j, m in js:
            n = m * psi[j].size
            if not n:
                C[j] = np.zeros((0, 0, b.size, a.size))
                continue
            E = {i: np.zeros((n, mi, psi[i].size)) for i, mi in js}
            E[j] = np.eye(n).reshape(n, m, psi[j].size)
            R = kb.sample_harmonics({i: h.wrap(y) for i, y in E.items()})
            C[j] = to_obj(h, R[j]).astype(float) if j in R else np.zeros((n, 0, b.size, a.size))
            if j in K:
                h.eq("linear in the harmonics %s" % (j,), K[j][0].reshape(-1), [poly.sum_([Y[j].ravel()[p] * C[j][(p,) + k] for p in range(n)]) for k in np.ndindex(*K[j].shape[1:])], 1e-4)

        def one(v):
            e = v if v is not None and not isinstance(v, dict) else Gp.element(o["el"].get(h, v, "a"))
            Z = {j: mat(psi[j](inc(e)), y[0]).reshape(y.shape) for j, y in Y.items() if y.size}
            Z.update({j: y for j, y in Y.items() if not y.size})
            R = kb.sample_harmonics({j: h.wrap(z) for j, z in Z.items()})
            Mo, Mi = b(e), a(e)
            for j in K:
                h.eq("constraint %s" % (j,), R[j], conj(Mo, K[j], Mi) if _orth(a) else mconj(Mo, K[j], a(~e)), 1e-3)
        if sym:
            h.paths("g", o["el"].dims("a"), one)
        else:
            for e in generators(Gp):
                one(e)
        for j, m in js:
            n = m * psi[j].size
            if not n:
                continue
            N = n * b.size * a.size
            if complete and N <= 300:
                rows = [C[j][:, k].reshape(-1) for k in range(C[j].shape[1])]
                for e in generators(Gp):
                    L = np.kron(np.eye(m), psi[j](inc(e)))
                    Mo, Mi = np.asarray(b(e), float), np.asarray(a(~e), float)
                    # A[y, o, i]:  sum_y' L[y', y] A[y', o, i] - sum Mo[o, o'] A[y, o', i'] Mi[i', i]
                    T = np.kron(L.T, np.eye(b.size * a.size)) - np.kron(np.eye(n), np.kron(Mo, Mi.T))
                    rows += list(T)
                h.nokernel("no other solution of the constraint at frequency %s" % (j,), np.array(rows))
            if indep and C[j].shape[1]:
                h.nokernel("independent at frequency %s" % (j,), np.transpose(C[j], (0, 2, 3, 1)).reshape(-1, C[j].shape[1]))
    return Instance("coefficients[%s]" % tag, setup, run, timeout=600, cost=cost)


def circ(L, rings=(1.0,), **kw):
    return K_.CircularShellsBasis(L, K_.GaussianRadialProfile(list(rings), 0.6), **kw)


def sph(L, rings=(1.0,), **kw):
    return K_.SphericalShellsBasis(L, K_.GaussianRadialProfile(list(rings), 0.6), **kw)


def two(Gp, rin, rout):
    class S:
        fibergroup = Gp
    return reps_of(S, rin)[0], reps_of(S, rout)[0]


def full(kind, L, rin, rout, rings=(1.0,), **kw):
    def make():
        f = circ(L, rings, **kw) if kind == "O2" else sph(L, rings, **kw)
        a, b = two(f.group, rin, rout)
        return f, a, b, lambda e: e, lambda: K_.SteerableKernelBasis(f, a, b, K_.WignerEckartBasis)
    return make


def sub(kind, sg, L, rin, rout, rings=(1.0,), **kw):
    def make():
        f = circ(L, rings, **kw) if kind == "O2" else sph(L, rings, **kw)
        Gp, inc, _ = f.group.subgroup(sg)
        a, b = two(Gp, rin, rout)
        return f, a, b, inc, lambda: K_.SteerableKernelBasis(f, a, b, K_.RestrictedWignerEckartBasis, sg_id=sg)
    return make


def pt(gname, rin, rout):
    def make():
        Gp = grp(gname)
        a, b = two(Gp, rin, rout)
        return K_.PointBasis(Gp), a, b, lambda e: e, lambda: K_.kernels_on_point(a, b)
    return make


def orbit(Gp, sg, root, sigma=0.5, **kw):
    def make():
        X = Gp().homspace(sg)
        act_ = getattr(X.G, "standard_representation", None)
        if act_ is None:
            act_ = X.G.irrep(1) if isinstance(X.G, G.CyclicGroup) else X.G.irrep(1, 1)
        return K_.SparseOrbitBasis(X, act_, np.asarray(root(X, act_), dtype=float), sigma, **kw)
    return make


def byname(s, cost=1.0):
    """representations which share their name"""
    def setup():
        g = gs(s)
        Gp = g.fibergroup
        irr = [r for r in irreps_of(Gp)]
        big = irr[-1]
        t = Gp.trivial_representation
        R = [G.directsum([t, big], name="same"), G.directsum([big, t], name="same"), G.directsum([t, big], change_of_basis=rnd_cob(1 + big.size, 1), name="same")]
        kw = dict(sigma=0.6, rings=[1.0], maximum_frequency=2) if g.dimensionality else {}
        L = []
        for a in R:
            for b in R:
                L.append((a, b, g.build_kernel_basis(a, b, **kw)))
        return {"g": g, "L": L}

    def run(h, o):
        g = o["g"]
        x = point(h, g.dimensionality) if g.dimensionality else np.zeros((1, 1))
        for k, (a, b, kb) in enumerate(o["L"]):
            K = to_obj(h, kb.sample(h.wrap(x)))
            for e in generators(g.fibergroup)[:2]:
                Kg = to_obj(h, kb.sample(h.wrap(move(g.basespace_action(e), x)) if g.dimensionality else h.wrap(x)))
                h.eq("kernels of pair %d of equally named representations" % k, Kg, mconj(b(e), K, a(~e)), 1e-3)
    return Instance("names[%s]" % s, setup, run, timeout=300, cost=cost)


def refl(al):
    return np.array([[math.cos(2 * al), math.sin(2 * al)], [math.sin(2 * al), -math.cos(2 * al)]])


def rot2(th):
    return np.array([[math.cos(th), -math.sin(th)], [math.sin(th), math.cos(th)]])


def o3sub(sg):
    def A(e):
        o3 = G.o3_group(2)
        return o3.standard_representation()(o3.subgroup(sg)[1](e))
    return A


def wrapper(name, Gp, action, rin, rout, cost=1.0, **kw):
    """the functions escnn.kernels.kernels_*: the constraint with the documented action on the points (given as matrices)"""
    d = 2 if name.endswith("R2") else 3

    def setup():
        g = Gp()
        a, b = two(g, rin, rout)
        k = dict(kw)
        Q = None
        if k.get("adjoint"):
            Q = k["adjoint"] = np.linalg.qr(np.random.RandomState(2).randn(d, d))[0]
        k.setdefault("sigma", [0.6, 0.5])
        kb = getattr(K_, name)(a, b, radii=[0.0, 1.0], **k)
        return {"g": g, "a": a, "b": b, "kb": kb, "Q": Q}

    def run(h, o):
        g, a, b, kb, Q = o["g"], o["a"], o["b"], o["kb"], o["Q"]
        x = point(h, d)
        K = to_obj(h, kb.sample(h.wrap(x)))
        for e in generators(g):
            M = np.asarray(action(e), dtype=float)
            if Q is not None:
                M = Q.T @ M @ Q
            h.eq("K(g x) = rho_out(g) K(x) rho_in(g)^-1", kb.sample(h.wrap(move(M, x))), mconj(b(e), K, a(~e)), 1e-3)
        # union and conjugation
        U = K_.UnionBasis([kb, K_.AdjointBasis(kb, np.eye(d)[::-1].copy())])
        V = to_obj(h, U.sample(h.wrap(x)))
        y = x[:, ::-1].copy()
        h.eq("union", V, np.concatenate([K, to_obj(h, kb.sample(h.wrap(y)))], axis=1), 1e-5)
    return Instance("%s[%s->%s%s]" % (name, rin, rout, " " + ",".join("%s=%s" % (k, v) for k, v in sorted(kw.items()) if not callable(v)) if kw else ""), setup, run, timeout=400, cost=cost)


def wrappers():
    c, d = G.cyclic_group, G.dihedral_group
    ang = lambda e: 2 * math.pi * e.to("int") / e.group.order()
    Cn = lambda e: rot2(ang(e))
    So = lambda e: rot2(e.to("radians"))

    def Dn(al):
        def A(e):
            f, r = e.to("int")
            return rot2(2 * math.pi * r / e.group.rotation_order) @ (refl(al) if f else np.eye(2))
        return A

    def On(al):
        def A(e):
            f, r = e.to("radians")
            return rot2(r) @ (refl(al) if f else np.eye(2))
        return A
    Fl = lambda al: lambda e: refl(al) if e.to("int") else np.eye(2)
    W = wrapper
    L = [W("kernels_CN_act_R2", lambda: c(4), Cn, "r", "i1", maximum_frequency=3), W("kernels_CN_act_R2", lambda: c(5), Cn, "i1", "b3", maximum_frequency=3), W("kernels_DN_act_R2", lambda: d(4), Dn(math.pi / 2), "i4", "i2", maximum_frequency=3),
         W("kernels_DN_act_R2", lambda: d(3), Dn(0.4), "i2", "i2", maximum_frequency=3, axis=0.4), W("kernels_DN_act_R2", lambda: d(3), Dn(math.pi / 2), "i2", "r", maximum_frequency=3, adjoint=True), W("kernels_Flip_act_R2", lambda: c(2), Fl(math.pi / 2), "r", "i1", maximum_frequency=3),
         W("kernels_Flip_act_R2", lambda: c(2), Fl(0.3), "i1", "t", maximum_frequency=3, axis=0.3), W("kernels_Trivial_act_R2", lambda: c(1), lambda e: np.eye(2), "t", "t", maximum_frequency=3), W("kernels_SO2_act_R2", lambda: G.so2_group(6), So, "i1", "b3"), W("kernels_SO2_act_R2", lambda: G.so2_group(6), So, "i1", "i2", maximum_frequency=1),
         W("kernels_O2_act_R2", lambda: G.o2_group(6), On(math.pi / 2), "i2", "i2"), W("kernels_O2_act_R2", lambda: G.o2_group(6), On(0.4), "i2", "b3", axis=0.4), W("kernels_O2_act_R2", lambda: G.o2_group(6), On(0.4), "i3", "i2", axis=0.4, adjoint=True),
         W("kernels_SO2_subgroup_act_R2", lambda: c(3), Cn, "i1", "r", sg_id=3), W("kernels_SO2_subgroup_act_R2", lambda: c(3), Cn, "i1", "r", sg_id=3, adjoint=True), W("kernels_O2_subgroup_act_R2", lambda: d(3), Dn(math.pi / 2), "i2", "i1", sg_id=(0.0, 3)), W("kernels_O2_subgroup_act_R2", lambda: d(3), Dn(0.4), "i2", "i2", sg_id=(0.0, 3), axis=0.4)]
    so3, o3 = lambda: G.so3_group(2), lambda: G.o3_group(2)
    st = lambda e: e.group.standard_representation()(e)
    L += [W("kernels_SO3_act_R3", so3, st, "i1", "t", adjoint=True), W("kernels_SO3_act_R3", so3, st, "t", "i2"), W("kernels_O3_act_R3", o3, st, "i1", "i1"), W("kernels_O3_act_R3", o3, st, "i2", "t", adjoint=True), W("kernels_Octa_act_R3", G.octa_group, o3sub((False, "octa")), "i3", "t", maximum_frequency=2, cost=3),
          W("kernels_SO3_subgroup_act_R3", lambda: c(3), o3sub((False, False, 3)), "i1", "r", sg_id=(False, 3), maximum_frequency=2), W("kernels_O3_subgroup_act_R3", lambda: d(3), o3sub(("cone", 3)), "i2", "t", sg_id=("cone", 3), maximum_frequency=2), W("kernels_SO2_act_R3", lambda: G.so2_group(6), o3sub((False, False, -1)), "i1", "i2", maximum_frequency=2),
          W("kernels_CN_act_R3", lambda: c(4), o3sub((False, False, 4)), "r", "i1", maximum_frequency=2), W("kernels_CN_act_R3", lambda: c(4), o3sub((False, False, 4)), "i1", "i2", maximum_frequency=2, adjoint=True), W("kernels_O2_conical_act_R3", lambda: G.o2_group(6), o3sub(("cone", -1)), "i2", "i1", maximum_frequency=2),
          W("kernels_DN_conical_act_R3", lambda: d(3), o3sub(("cone", 3)), "r", "i2", maximum_frequency=2), W("kernels_O2_dihedral_act_R3", lambda: G.o2_group(6), o3sub((False, True, -1)), "i2", "i1", maximum_frequency=2), W("kernels_DN_dihedral_act_R3", lambda: d(3), o3sub((False, True, 3)), "i2", "b3", maximum_frequency=2),
          W("kernels_full_cylinder_act_R3", lambda: G.full_cylinder_group(6), o3sub((True, True, -1)), "i3", "i1", maximum_frequency=2), W("kernels_full_cylinder_discrete_act_R3", lambda: G.full_cylinder_discrete_group(3), o3sub((True, True, 3)), "i3", "i1", maximum_frequency=2), W("kernels_cylinder_act_R3", lambda: G.cylinder_group(6), o3sub((True, False, -1)), "i2", "i3", maximum_frequency=2),
          W("kernels_cylinder_discrete_act_R3", lambda: G.cylinder_discrete_group(3), o3sub((True, False, 3)), "i2", "i3", maximum_frequency=2), W("kernels_Inv_act_R3", lambda: c(2), o3sub((True, False, 1)), "i1", "r", maximum_frequency=2), W("kernels_Trivial_act_R3", lambda: c(1), lambda e: np.eye(3), "t", "t", maximum_frequency=2)]
    ico = lambda e: G.ico_group().standard_representation(e)
    L += [W("kernels_Ico_act_R3", G.ico_group, o3sub((False, "ico")), "i1", "t", maximum_frequency=2, cost=3)] + [W("kernels_aliased_Ico_act_R3_" + n, G.ico_group, ico, "i1", "t", cost=3) for n in ("dodecahedron", "icosahedron", "icosidodecahedron")]
    L += [W("kernels_aliased_Ico_act_R3_dodecahedron", G.ico_group, ico, "i1", "i1", adjoint=True, cost=3), W("kernels_aliased_Ico_act_R3_icosahedron", G.ico_group, ico, "t", "i1", sigma=0.4, cost=3)]
    L += [W("kernels_O3_subgroup_act_R3", lambda: d(3), o3sub(("cone", 3)), "i2", "i1", sg_id=("cone", 3), maximum_frequency=2, adjoint=True), W("kernels_SO3_subgroup_act_R3", lambda: c(3), o3sub((False, False, 3)), "i1", "t", sg_id=(False, 3), maximum_frequency=2, adjoint=True),
          W("kernels_CN_act_R2", lambda: c(3), Cn, "i1", "i1", maximum_frequency=3, sigma=0.4), W("kernels_SO3_act_R3", so3, st, "i1", "i1", sigma=0.4)]
    return L


def forget():
    """drop the bases remembered by the solvers"""
    from escnn.kernels import wignereckart_solver, steerable_basis
    for m in (wignereckart_solver, steerable_basis):
        for c in vars(m).values():
            d = getattr(c, "_cached_instances", None)
            if isinstance(d, dict):
                d.clear()


def gram(K):
    """sum over the kernels of vec K(x) vec K(x)^T at the two points: (2 * o * i) x (o * i)"""
    S, n = K.shape[:2]
    A = K.reshape(S, n, -1)
    out = np.empty((S, A.shape[2], A.shape[2]), dtype=object)
    for q in range(S):
        for i in range(A.shape[2]):
            for j in range(i + 1):
                out[q, i, j] = out[q, j, i] = poly.sum_([A[q, k, i] * A[q, k, j] for k in range(n)])
    return out


def history(name, confs, cost=3.0):
    """bases are remembered: after any sequence of other requests (other axes, conjugations, widths, rings, frequencies, representations) a request still returns the basis it asks for.
    confs: (space, in, out, sigma, rings, kwargs)"""
    def setup():
        spaces = {}
        req = []
        for s, i, o, sg, rings, kw in confs:
            g = spaces.get(s) or spaces.setdefault(s, space(s))
            a, b = pair(g, i, o)
            req.append((g, a, b, sg, list(rings), kw))
        build = lambda g, a, b, sg, rings, kw: g.build_kernel_basis(a, b, sg, rings, **kw)
        seq = [build(*r) for r in req]
        again = [build(*r) for r in req[::-1]][::-1]
        alone = []
        for (s, *_), (g, a, b, sg, rings, kw) in zip(confs, req):
            forget()
            alone.append(build(space(s), a, b, sg, rings, kw))
        return {"req": req, "seq": seq, "again": again, "alone": alone}

    def run(h, o):
        d = o["req"][0][0].dimensionality
        x = point(h, d)
        for k, ((g, a, b, *_), s1, s2, s3) in enumerate(zip(o["req"], o["seq"], o["again"], o["alone"])):
            h.true("request %d: same number of kernels" % k, len(s1) == len(s2) == len(s3) == s1.dim and list(s1.shape) == [b.size, a.size])
            K = to_obj(h, s1.sample(h.wrap(x)))
            # the kernels within one harmonic are determined up to a rotation only
            h.eq("request %d" % k, gram(K), gram(to_obj(h, s3.sample(h.wrap(x)))), 1e-4)
            if s2 is not s1:
                h.eq("request %d repeated" % k, gram(to_obj(h, s2.sample(h.wrap(x)))), gram(K), 1e-4)
            for e in generators(g.fibergroup):
                M = np.asarray(g.basespace_action(e), dtype=float)
                h.eq("request %d: K(g x) = rho_out(g) K(x) rho_in(g)^-1" % k, s1.sample(h.wrap(move(M, x))), mconj(b(e), K, a(~e)), 1e-3)
    return Instance("history[%s]" % name, setup, run, timeout=400, cost=cost)


def histories():
    R, f3, f2 = (0.0, 1.0), dict(maximum_frequency=3), dict(maximum_frequency=2)
    return [history("D3 axes", [("fliprot2d:3", "i2", "r", 0.6, R, f3), ("fliprot2d:3,0.4", "i2", "r", 0.6, R, f3), ("fliprot2d:3,0.0", "i2", "r", 0.6, R, f3), ("fliprot2d:3", "r", "i2", 0.6, R, f3)]),
            history("C4 profiles", [("rot2d:4", "i1", "r", 0.6, R, f3), ("rot2d:4", "i1", "r", 0.5, R, f3), ("rot2d:4", "i1", "r", 0.6, (0.0, 1.5), f3), ("rot2d:4", "i1", "r", [0.6, 0.5], R, f3), ("rot2d:4", "i1", "r", [0.5, 0.6], R, f3),
                                    ("rot2d:4", "i1", "r", 0.6, R, f2), ("rot2d:4", "r", "i1", 0.6, R, f3), ("rot2d:4", "i1", "b3", 0.6, R, f3), ("rot2d:4", "i1", "c3", 0.6, R, f3), ("rot2d:4", "i1", "s3", 0.6, R, f3)]),
            history("flips", [("flip2d", "r", "i1", 0.6, R, f3), ("flip2d:0.4", "r", "i1", 0.6, R, f3), ("rot2d:2", "r", "i1", 0.6, R, f3), ("flip2d:0.0", "r", "i1", 0.6, R, f3)]),
            history("SO2", [("rot2d:-1", "i1", "i2", 0.6, R, f3), ("rot2d:-1", "i1", "i2", 0.4, R, f3), ("rot2d:-1", "i2", "i1", 0.6, R, f3), ("rot2d:-1", "i1", "i2", 0.6, R, f2)]),
            history("O2 axes", [("fliprot2d:-1", "i2", "i3", 0.6, R, f3), ("fliprot2d:-1,0.5", "i2", "i3", 0.6, R, f3), ("fliprot2d:-1", "i2", "i1", 0.6, R, f3)]),
            history("R3 D3", [("dih3:3", "i2", "r", 0.6, R, f2), ("conical:3", "i2", "r", 0.6, R, f2), ("dih3:3,0.4", "i2", "r", 0.6, R, f2), ("conical:3,0.4", "i2", "r", 0.6, R, f2), ("dih3:3,0.4~", "i2", "r", 0.6, R, f2), ("dih3:3,0.4", "r", "i2", 0.5, R, f2)]),
            history("R3 C2", [("mir", "r", "r", 0.6, R, f2), ("inv", "r", "r", 0.6, R, f2), ("rot2d3:2", "r", "r", 0.6, R, f2), ("mir:0.3", "r", "r", 0.6, R, f2), ("mir:0.4~", "r", "r", 0.6, R, f2), ("rot2d3:2~", "r", "r", 0.6, R, f2)]),
            history("R3 SO3", [("rot3d", "i1", "i1", 0.6, R, f2), ("rot3d", "i1", "i1", 0.5, R, f2), ("rot3d", "i1", "i1", 0.6, R, dict(maximum_frequency=1)), ("rot3d", "i1", "b2", 0.6, R, f2), ("rot3d", "b2", "i1", 0.6, R, f2)])]


def instances():
    L = wrappers() + histories()
    # whole bases of the G-spaces, sampled
    for s, pairs in [("rot2d:1", ["t,t", "b1,t"]), ("rot2d:4", ["t,r", "r,t", "r,r", "i1,b3", "b3,b2"]), ("rot2d:3", ["r,r", "i1,i1", "b2,r"]), ("rot2d:-1", ["t,t", "i1,i1", "i1,i2", "b3,b2", "s3,t"]),
                     ("flip2d", ["t,r", "r,r", "b2,i1"]), ("flip2d:0.4", ["r,r", "i1,t"]), ("fliprot2d:4", ["t,r", "i2,i3", "b4,b3", "i1,r", "qn,4,r"]), ("fliprot2d:3,0.7", ["r,t", "i2,i2", "b3,b3"]), ("fliprot2d:2", ["r,r", "b4,t"]),
                     ("fliprot2d:-1", ["t,t", "i1,i2", "b3,b3", "i2,i3", "i2,i2"]), ("fliprot2d:-1,0.5", ["i2,i2", "b4,i1"]), ("triv2d", ["t,t"])]:
        for p in pairs:
            a, b = (p.rsplit(",", 1) if p.startswith("q") else p.split(","))
            L.append(kernel(s, a, b, 3))
    for s, pairs in [("rot3d", ["t,t", "i1,t", "t,i2", "i1,i1"]), ("fliprot3d", ["i1,i1", "t,i3", "i2,i3", "t,t"]), ("rot2d3:4", ["t,r", "i1,i1", "b3,t"]), ("rot2d3:-1", ["i1,i1", "b2,i1", "t,i2"]), ("dih3:2", ["r,t", "b3,b2"]), ("dih3:3,0.4", ["i2,t", "i2,i2", "b3,b3"]),
                     ("dih3:-1", ["i2,i1", "i2,i2"]), ("conical:3", ["i2,b3", "t,r"]), ("conical:-1,0.7", ["i2,i2", "i1,t"]), ("mir:0.3", ["r,r"]), ("inv", ["r,t", "b2,r"]), ("cyl:3", ["i2,i3", "t,r"]), ("cyl:-1", ["i2,i1"]), ("fullcyl:2", ["i1,i2", "t,r"]), ("fullcyl:-1", ["i3,i1"]),
                     ("triv3d", ["t,t"]), ("rot2d3:3~", ["i1,r"]), ("conical:3,0.4~", ["i2,r"]), ("mir:0.4~", ["r,r"]), ("dih3:3,0.4~", ["i2,b3"]), ("cyl:3~", ["i2,i3"])]:
        for p in pairs:
            a, b = p.split(",")
            L.append(kernel(s, a, b, 2, sym=s not in ("rot3d", "fliprot3d"), cost=2))
    for s, pairs in [("octa", ["t,i1", "i3,i4", "i2,i3", "b3,t"]), ("ico", ["t,i1", "i1,i2"])]:
        for p in pairs:
            a, b = p.split(",")
            L.append(kernel(s, a, b, 2, sym=False, cost=3))
    # filter bases
    L += [filters("circular L=3", lambda: circ(3, (0.0, 1.0))), filters("circular L=3 axis=0.4", lambda: circ(3, (0.5, 1.5), axis=0.4)), filters("circular L=4 filter", lambda: circ(4, (0.0, 1.0), filter=lambda a: a["irrep:frequency"] <= 2 * a["radius"] + 1)),
          filters("spherical L=2", lambda: sph(2, (0.0, 1.0)), sym=False), filters("spherical L=4", lambda: sph(4, (1.0,)), sym=False), filters("spherical L=1 symbolic g", lambda: sph(1, (0.0, 1.0))),
          filters("spherical L=3 filter", lambda: sph(3, (0.0, 1.0), filter=lambda a: a["irrep:frequency"] <= 2 * a["radius"] + 1), sym=False)]
    axis4 = lambda X, A: _fixed(X, A)
    L += [filters("orbit octa/C4", orbit(G.octa_group, (False, 4), axis4), sym=False, cost=2), filters("orbit octa/C3", orbit(G.octa_group, (False, 3), axis4), sym=False, cost=2),
          filters("orbit D3/flip", orbit(lambda: G.dihedral_group(3), (0, 1), axis4), sym=False), filters("orbit D4/flip1", orbit(lambda: G.dihedral_group(4), (1, 1), axis4), sym=False), filters("orbit C5", orbit(lambda: G.cyclic_group(5), 1, lambda X, A: [1.0, 0.3]), sym=False),
          filters("orbit C4 some harmonics", orbit(lambda: G.cyclic_group(4), 1, lambda X, A: [1.0, 0.3], harmonics=[(0,), (2,)]), sym=False)]
    # coefficients on the harmonics: constraint, completeness and independence
    for k, Lm, pairs in [("O2", 4, ["t,t", "t,i1", "i1,i2", "i2,i2", "i2,i3", "i3,i3", "b3,b4"]), ("O3", 3, ["t,t", "t,i1", "i1,i1", "i2,i3", "i3,i3", "i2,t"])]:
        for p in pairs:
            a, b = p.split(",")
            L.append(coeff("%s L=%d %s->%s" % (k, Lm, a, b), full(k, Lm, a, b), sym=k == "O2"))
    L.append(coeff("O2 L=3 b3->i2 two rings", full("O2", 3, "b3", "i2", (0.0, 1.0), filter=lambda a: a["irrep:frequency"] <= 2 * a["radius"] + 1)))
    L.append(coeff("O3 L=2 i1->i3 two rings", full("O3", 2, "i1", "i3", (0.0, 1.0), filter=lambda a: a["irrep:frequency"] <= 2 * a["radius"] + 1), sym=False))
    for k, sg, Lm, pairs in [("O2", (None, -1), 4, ["t,t", "i1,i1", "i1,i2", "b3,b2"]), ("O2", (None, 1), 2, ["t,t"]), ("O2", (None, 4), 4, ["t,r", "r,r", "i1,i1", "b3,i2"]), ("O2", (None, 3), 4, ["i1,i1", "r,i1"]), ("O2", (None, 5), 5, ["i1,i2", "i2,i2"]), ("O2", (0.0, 1), 3, ["r,r", "i1,t"]), ("O2", (1.0, 1), 3, ["r,r"]),
                            ("O2", (0.0, 4), 4, ["i2,i2", "i3,i4", "r,i4"]), ("O2", (1.0, 3), 4, ["i2,i2", "b3,i2"]), ("O2", (0.7, -1), 3, ["i2,i2", "i1,i3"]), ("O2", (0.0, 2), 3, ["r,i1"]), ("O2", (0.0, 5), 4, ["i2,i3"]),
                            ("O3", "so3", 3, ["t,t", "i1,i1", "i1,i2", "i2,i2"]), ("O3", (False, False, 4), 2, ["i1,i1", "t,r"]), ("O3", (False, False, -1), 2, ["i1,i2", "i1,i1"]), ("O3", (False, True, 3), 2, ["i2,i2", "i1,i1"]), ("O3", ("cone", 3), 2, ["i2,i2", "r,t"]), ("O3", ("cone", -1), 2, ["i2,i2", "i2,i3"]), ("O3", (True, False, 2), 2, ["i2,i3", "r,t"]), ("O3", (True, True, 2), 2, ["i3,i3", "i1,i4"]), ("O3", (False, "octa"), 3, ["i3,i3", "i2,i3", "t,i4", "i2,i2"]), ("O3", (True, "octa"), 2, ["i3,i3", "t,i1"]), ("O3", (False, "ico"), 3, ["i1,i1", "t,i2", "i1,i4"]),
                            ("O3", (True, False, 1), 2, ["r,r"]), ("O3", (False, False, 1), 2, ["t,t"])]:
        for p in pairs:
            a, b = p.split(",")
            L.append(coeff("%s %s L=%d %s->%s" % (k, sg, Lm, a, b), sub(k, sg, Lm, a, b), sym=sg != "so3" and "octa" not in sg and "ico" not in sg, cost=2 if k == "O3" else 1))
    for gname, pairs in [("C4", ["r,r", "b3,i1"]), ("C5", ["i1,i1", "b2,r"]), ("D3", ["r,r", "i2,r"]), ("D4", ["b4,b5", "r,i4"]), ("SO2", ["i1,i1", "s3,b3"]), ("O2", ["b3,b3", "i2,i2"]), ("SO3", ["i1,i1", "s3,b2"]), ("O3", ["i1,i3", "b3,b3"]), ("O", ["i3,i3", "b4,b4"]), ("I", ["i1,i1"]), ("K3", ["i2,i2"])]:
        for p in pairs:
            a, b = p.split(",")
            L.append(coeff("point %s %s->%s" % (gname, a, b), pt(gname, a, b), sym=gname not in ("SO3", "O3", "O", "I")))
    for s in ["rot2d:4", "fliprot2d:3", "rot2d:-1", "octa", "r0:D3"]:
        L.append(byname(s))
    return L


def _fixed(X, A):
    """a point fixed exactly by the stabilizer"""
    M = sum(np.asarray(A(X._inclusion(e))) for e in X.H.elements) / X.H.order()
    w, V = np.linalg.eigh((M + M.T) / 2)
    v = V[:, -1]
    return v / np.linalg.norm(v) * 1.1
