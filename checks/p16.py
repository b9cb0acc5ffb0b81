"""P16 field types and G-spaces describe one consistent group action"""
from .common import *
from .elems import *
from .p02 import mm, bdiag, rnd_cob
from .p03 import dim2

EXPLANATION = ("Field types are built from symbolic lists of representations (all lists over a pool, one path per list), feature maps have arbitrary entries and group elements are "
               "symbolic (z3 integers, angles, unit quaternions): the real transform_fibers, transform and basespace_action are executed on them and z3 is asked for a feature map, "
               "element or list for which they differ from rho(g) f(g^-1 x). Restrictions of spaces and types are compared with the action of the included element.")
ASSUMPTIONS = ["on grids: the elements mapping the grid to itself exactly; for other elements, images of affine functions away from the border (scipy's interpolation is linear in "
               "the image, its matrix is taken from scipy; its matrix is float16 in the code, tolerance 0.02)", "feature maps in [-1,1]", "field lists of up to 3 fields over a pool of 4 or 5 representations"]


def pool(Gp):
    irr = list(irreps_of(Gp))
    big = [r for r in irr if r.size > 1] or irr
    L = [Gp.trivial_representation, big[0]]
    a, b = Gp.trivial_representation, big[-1]
    L.append(G.directsum([a, b], change_of_basis=rnd_cob(a.size + b.size, 3), name="same"))
    L.append(G.directsum([b, a], name="same"))          # another representation with the same name
    L.append(G.directsum([b, a, a], name="same"))       # and of another size
    if Gp.order() > 0 and Gp.order() <= 8:
        L.append(Gp.regular_representation)
    return L


def algebra(s):
    def setup():
        g = gs(s)
        return {"g": g, "pool": pool(g.fibergroup), "el": el(g.fibergroup)}

    def run(h, o):
        g, PL = o["g"], o["pool"]

        def lists(v):
            ks = [v["k%d" % i].__index__() for i in range(v["n"].__index__())]
            R = [PL[k] for k in ks]
            t = FieldType(g, R)
            sizes = [r.size for r in R]
            st = [sum(sizes[:i]) for i in range(len(R))]
            h.true("len", len(t) == len(R) and list(t) == R and list(t.representations) == R)
            h.true("size", t.size == sum(sizes))
            h.true("fields_start", list(map(int, t.fields_start)) == st)
            h.true("fields_end", list(map(int, t.fields_end)) == [a + b for a, b in zip(st, sizes)])
            h.true("names", t.fields_names() == [r.name for r in R])
            h.true("irreps", list(t.irreps) == [i for r in R for i in r.irreps])
            h.true("uniform", t.uniform == all(k == ks[0] for k in ks))
            C = bdiag([r.change_of_basis for r in R])
            h.eq("change of basis", t.change_of_basis.toarray(), C, 1e-6)
            h.eq("change of basis inv", mm(C, t.change_of_basis_inv.toarray()), np.eye(t.size), 1e-6)
            h.eq("dense change of basis", t.get_dense_change_of_basis(), C, 1e-5)
            h.eq("dense change of basis inv", mm(C, np.asarray(t.get_dense_change_of_basis_inv().tolist())), np.eye(t.size), 1e-5)
            q = t.sorted()
            order = sorted(range(len(R)), key=lambda i: (R[i].size, i))
            h.true("sorted", list(q.representations) == [R[i] for i in order] and q.gspace == g)
            u = FieldType(g, tuple(R))
            h.true("equal types", t == u and not (t != u) and hash(t) == hash(u))
            w = t + u
            h.true("sum", list(w.representations) == R + R and w.size == 2 * t.size and (w == t) is False)
            h.true("type()", g.type(*R) == t)
            e = t.representation
            h.true("fiber representation", e.size == t.size and list(e.irreps) == list(t.irreps))
            h.eq("fiber representation basis", e.change_of_basis, C, 1e-6)
            h.true("not another thing", t != R and t != None)       # noqa

        def pairs(v):
            a = [PL[v["a%d" % i].__index__()] for i in range(2)]
            b = [PL[v["b%d" % i].__index__()] for i in range(2)]
            s_, t_ = FieldType(g, a), FieldType(g, b)
            eq = all(v["a%d" % i].__index__() == v["b%d" % i].__index__() for i in range(2))
            h.true("equality", (s_ == t_) == eq and (s_ != t_) == (not eq))
            h.true("hash", not eq or hash(s_) == hash(t_))

        def select(v):
            t = FieldType(g, [PL[i % len(PL)] for i in range(4)])
            ix = [v["i%d" % j] for j in range(3)]
            q = t.index_select(ix)
            h.true("index_select", list(q.representations) == [t.representations[i.__index__()] for i in ix] and q.gspace == g)

        def bad(v):
            t = FieldType(g, [PL[0], PL[1]])
            ok = True
            try:
                t.index_select([v["i"], 0])
            except (AssertionError, IndexError, ValueError, TypeError):
                ok = False
            h.true("index out of range is refused", ok == (0 <= v["i"].__index__() < 2))

        def labels(v):
            t = FieldType(g, [PL[i % len(PL)] for i in range(4)])
            lb = ["xyz"[v["l%d" % i].__index__()] for i in range(4)]
            d = t.group_by_labels(lb)
            h.true("labels", set(d) == set(lb))
            for l in set(lb):
                h.true("label %s" % l, list(d[l].representations) == [t.representations[i] for i in range(4) if lb[i] == l] and d[l].gspace == g)
        m = len(PL) - 1
        h.paths("lists", {"n": (1, 3), "k0": (0, m), "k1": (0, m), "k2": (0, m)}, lists)
        h.paths("pairs", {"a0": (0, m), "a1": (0, m), "b0": (0, m), "b1": (0, m)}, pairs)
        h.forall("select", {"i0": (0, 3), "i1": (0, 3), "i2": (0, 3)}, select)
        h.forall("refused", {"i": (-2, 3)}, bad)
        h.paths("labels", {"l%d" % i: (0, 2) for i in range(4)}, labels)
    return Instance("algebra[%s]" % s, setup, run, timeout=600, cost=2)


def Rz(x):
    M = np.zeros((3, 3), dtype=object)
    M[:] = 0.0
    M[:2, :2] = R2(x)
    M[2, 2] = 1.0
    return M


def refl(a):
    return np.array([[math.cos(2 * a), math.sin(2 * a)], [math.sin(2 * a), -math.cos(2 * a)]])


def up(M, z):
    return np.block([[M, np.zeros((2, 1))], [np.zeros((1, 2)), np.array([[z]])]])


def ang(E, x):
    """rotation angle of an integer or angle value"""
    if isinstance(E, Cyc):
        return x * TAU / E.g.order()
    return x


def base(kind, E, x, axis, fl):
    """the documented action on points of the element with (default parametrization) value x; fl: python bool of its flip"""
    if kind == "rot2":
        return R2(ang(E, x))
    if kind == "flip2":
        return refl(axis) if fl else np.eye(2)
    if kind == "fliprot2":
        M = R2(ang(E.b, x[1]))
        return mm(M, refl(axis)) if fl else M
    if kind == "rot23":
        return Rz(ang(E, x))
    if kind == "dih3":
        M = Rz(ang(E.b, x[1]))
        return mm(M, up(refl(axis), -1.0)) if fl else M
    if kind == "cone":
        M = Rz(ang(E.b, x[1]))
        return mm(M, up(refl(axis), 1.0)) if fl else M
    if kind == "mir":
        return up(refl(axis), 1.0) if fl else np.eye(3)
    if kind == "cyl":
        M = Rz(ang(E.b, x[1]))
        return -M if fl else M
    if kind == "inv":
        return -np.eye(3) if fl else np.eye(3)
    if kind == "q":
        return R3(x)
    if kind == "iq":
        M = R3(x[1])
        return -M if fl else M
    return None


KIND = {"rot2d": "rot2", "flip2d": "flip2", "fliprot2d": "fliprot2", "rot2d3": "rot23", "dih3": "dih3", "conical": "cone", "mir": "mir", "cyl": "cyl", "inv": "inv", "octa": "q", "ico": "q", "rot3d": "q",
        "fliprot3d": "iq", "fullocta": "iq", "fullico": "iq"}


def space(s, spec="", adj=None):
    """base action of a G-space and the action on fields, for symbolic elements"""
    k, _, a = s.partition(":")
    args = [float(x) for x in a.split(",")] if a else []
    axis = (args[0] if k in ("flip2d", "mir") else args[-1]) if args and (len(args) > 1 or k in ("flip2d", "mir")) else math.pi / 2

    def setup():
        g = gs(s) if adj is None else adj(s)
        Gp = g.fibergroup
        t = FieldType(g, pool(Gp)[:3])
        return {"g": g, "el": dim2(el(Gp)), "t": t}

    def run(h, o):
        g, E, t = o["g"], o["el"], o["t"]
        Gp, A = g.fibergroup, g.basespace_action
        d = g.dimensionality
        x = h.array("x", (2, t.size))
        y = h.array("y", (2, d))
        h.true("size of the base action", A.size == d and A.group == Gp)

        def hom(v):
            a, b = Gp.element(E.get(h, v, "a")), Gp.element(E.get(h, v, "b"))
            Ma = A(a)
            h.eq("base action is a homomorphism", A(a @ b), mm(Ma, A(b)), 1e-5)

        def one(v):
            a = Gp.element(E.get(h, v, "a"))
            Ma = A(a)
            h.eq("base action is orthogonal", mm(Ma, np.transpose(Ma)), np.eye(d), 1e-5)
            val = a.value
            fl = None
            kind = KIND.get(k)
            if kind in ("flip2", "mir", "inv"):
                fl = bool(val == 1)
            elif kind in ("fliprot2", "dih3", "cone", "cyl", "iq"):
                fl = bool(val[0] == 1)
            want = base(kind, E, val, axis, fl)
            if want is not None:
                if adj is not None:
                    Q = o["g"].adj_mat
                    want = mm(Q.T, want, Q)
                h.eq("base action is the documented one", Ma, want, 1e-5)
            rho = bdiag([r(a) for r in t.representations])
            z = mat(rho, x)
            X, Y = h.wrap(x), h.wrap(y)
            h.eq("fiber representation", t.fiber_representation(a), rho, 1e-5)
            h.eq("transform_fibers", t.transform_fibers(X, a), z, 1e-4)
            out, c = t.transform(X, a, coords=Y)
            h.eq("transform of a point cloud: features", out, z, 1e-4)
            h.eq("transform of a point cloud: coordinates", c, mat(Ma, y), 1e-4)
            w = GeometricTensor(X, t, Y).transform(a)
            h.true("type", w.type == t)
            h.eq("GeometricTensor.transform: features", w.tensor, z, 1e-4)
            h.eq("GeometricTensor.transform: coordinates", w.coords, mat(Ma, y), 1e-4)
            w = GeometricTensor(X, t, Y).transform_fibers(a)
            h.eq("GeometricTensor.transform_fibers: features", w.tensor, z, 1e-4)
            h.eq("GeometricTensor.transform_fibers: coordinates", w.coords, y, 1e-6)
        few = {n: (0, min(q[1], 2)) for n, q in E.dims("b").items()}
        h.paths("hom", {**E.dims("a"), **(E.dims("b") if E.full else few)}, hom)
        h.paths("one", E.dims("a"), one)
    return Instance("space[%s%s]" % (s, " adj" if adj else ""), setup, run, timeout=600, cost=3)


def adjoint(kind, *args):
    def make(s):
        o3 = G.o3_group(2)
        q = np.random.RandomState(3).randn(4)
        q /= np.linalg.norm(q)
        a = o3.element((0, q), "Q")
        g = getattr(gspaces, kind)(*args, adjoint=a)
        g.adj_mat = np.asarray(R3(list(q)), dtype=float)
        return g
    return make


def grid(s, shape):
    """transform on pixel grids: every element which maps the grid to itself, arbitrary feature maps"""
    def setup():
        g = gs(s)
        Gp = g.fibergroup
        if Gp.continuous:
            L = grid_elements(g)
            L = L + [a @ b for a in L for b in L]
        else:
            L = [e for e in Gp.elements if is_signed_perm(g.basespace_action(e))]
        L = [e for e in L if len(set(shape)) == 1 or all(np.abs(g.basespace_action(e)).round()[i, j] == 0 or shape[::-1][i] == shape[::-1][j] for i in range(len(shape)) for j in range(len(shape)))]
        return {"g": g, "t": FieldType(g, pool(Gp)[:3]), "els": L[:16]}

    def run(h, o):
        g, t = o["g"], o["t"]
        x = h.array("x", (1, t.size) + shape)
        for k, e in enumerate(o["els"]):
            want = act(t, e, x)
            h.eq("FieldType.transform %s" % e, t.transform(h.wrap(x), e), want, 1e-4)
            h.eq("GeometricTensor.transform %s" % e, GeometricTensor(h.wrap(x), t).transform(e).tensor, want, 1e-4)
            if k < 3:
                h.eq("featurefield_action %s" % e, g.featurefield_action(x, t.representation, e), want, 1e-4)
    return Instance("grid[%s %s]" % (s, shape), setup, run, timeout=300, cost=2)


def affine(s, shape, order=2):
    """transform by interpolation of images of affine functions"""
    def setup():
        g = gs(s)
        Gp = g.fibergroup
        n = type(Gp).__name__
        if n == "SO2":
            L = [Gp.element(a) for a in (0.3, 1.1, 4.0)]
        elif n == "O2":
            L = [Gp.element((0, 0.7)), Gp.element((1, 0.7)), Gp.element((1, 5.0))]
        elif n in ("SO3", "O3"):
            q = np.array([0.2, 0.3, -0.1, 0.9])
            q /= np.linalg.norm(q)
            L = [Gp.element(q, "Q") if n == "SO3" else Gp.element((1, q), "Q")]
        else:
            L = [e for e in Gp.elements if not is_signed_perm(g.basespace_action(e))][:4]
        return {"g": g, "t": FieldType(g, [irreps_of(Gp)[-1]]), "els": L}

    def run(h, o):
        g, t = o["g"], o["t"]
        d = len(shape)
        co = h.array("f", (t.size, d + 1), -0.2, 0.2)
        c = [(n - 1) / 2 for n in shape]

        def point(p):
            return np.array([(p[d - 1 - k] - c[d - 1 - k]) * (1 if k == 0 else -1) for k in range(d)])

        def f(X):
            return [sum(co[i, k] * float(X[k]) for k in range(d)) + co[i, d] for i in range(t.size)]
        x = np.empty((1, t.size) + shape, dtype=object)
        for p in np.ndindex(*shape):
            for i, v in enumerate(f(point(p))):
                x[(0, i) + p] = v
        if not h.symbolic:
            x = x.astype(float)
        for e in o["els"]:
            out = to_obj(h, t.transform(h.wrap(x), e, order=order))
            A, rho = g.basespace_action(e), rho_of(t, e)
            r = min(c) * 0.5
            for p in np.ndindex(*shape):
                X = point(p)
                if np.linalg.norm(X) > r:
                    continue
                Y = f(np.linalg.inv(A) @ X)
                h.eq("transform %s at %s" % (e, p), [out[(0, i) + p] for i in range(t.size)], [sum(float(rho[i, j]) * Y[j] for j in range(t.size)) for i in range(t.size)], 0.02)
    return Instance("affine[%s %s order %d]" % (s, shape, order), setup, run, timeout=400, cost=3)


def restr(s, sid, mf=True):
    """restriction of a space and of a field type"""
    def setup():
        g = gs(s)
        Gp = g.fibergroup
        sub, inc, res = g.restrict(sid)
        H_, inc2, _ = Gp.subgroup(sid)
        t = FieldType(g, pool(Gp))
        return {"g": g, "sub": sub, "inc": inc, "res": res, "H": H_, "inc2": inc2, "t": t, "tr": t.restrict(sid), "el": dim2(el(H_)), "eg": el(Gp)}

    def run(h, o):
        g, sub, inc, res, H_, t, tr, E = o["g"], o["sub"], o["inc"], o["res"], o["H"], o["t"], o["tr"], o["el"]
        h.true("fiber group", sub.fibergroup == H_ and sub.dimensionality == g.dimensionality and type(sub) is type(g))
        h.true("space of the restricted type", tr.gspace == sub and hash(tr.gspace) == hash(sub))
        h.true("sizes", len(tr) == len(t) and [r.size for r in tr.representations] == [r.size for r in t.representations])
        h.true("groups", all(r.group == H_ for r in tr.representations))

        def one(v):
            val = E.get(h, v, "a")
            a, b = H_.element(val), sub.fibergroup.element(val)
            o["eg"].same(h, "inclusion", inc(a).value, o["inc2"](a).value)
            r = res(inc(a))
            h.true("restriction of the inclusion", r is not None)
            E.same(h, "restriction of the inclusion", r.value, a.value)
            if g.dimensionality:
                h.eq("base action", sub.basespace_action(b), g.basespace_action(inc(a)), 1e-5)
            for i, (x, y) in enumerate(zip(tr.representations, t.representations)):
                h.eq("field %d" % i, x(b), y(inc(a)), 1e-4)
        h.paths("one", E.dims("a"), one)
    return Instance("restrict[%s %s]" % (s, sid), setup, run, timeout=600, cost=2)


def same(tag, pairs):
    """spaces given by different ids"""
    def setup():
        return {"p": [(a(), b(), eq) for a, b, eq in pairs], "one": h_dummy()}

    def run(h, o):
        z = h.val("z")
        for k, (a, b, eq) in enumerate(o["p"]):
            h.true("equality %d" % k, (a == b) == eq and (b == a) == eq and (a != b) == (not eq))
            h.true("hash %d" % k, not eq or hash(a) == hash(b))
            r, q = a.fibergroup.trivial_representation, b.fibergroup.trivial_representation
            s_, t_ = FieldType(a, [r]), FieldType(b, [q])
            h.true("equality of types %d" % k, (s_ == t_) == eq)
            h.true("hash of types %d" % k, not eq or hash(s_) == hash(t_))
        h.eq("z", z, z)
    return Instance("same[%s]" % tag, setup, run, timeout=200)


def h_dummy():
    return None


def instances():
    L = []
    for s in ["rot2d:4", "fliprot2d:3", "fliprot2d:-1", "rot3d", "octa", "r0:D3", "r0:C5", "cyl:3"]:
        L.append(algebra(s))
    for s in ["rot2d:1", "rot2d:4", "rot2d:5", "rot2d:-1", "flip2d", "flip2d:0.4", "fliprot2d:4", "fliprot2d:3,0.7", "fliprot2d:-1", "fliprot2d:-1,0.5", "triv2d", "rot3d", "fliprot3d", "octa", "fullocta", "dih3:2", "dih3:3,0.4",
              "dih3:-1", "dih3:-1,0.4", "rot2d3:4", "rot2d3:-1", "conical:3", "conical:2,0.4", "conical:-1", "conical:-1,0.7", "mir", "mir:0.3", "cyl:3", "cyl:-1", "fullcyl:2", "fullcyl:3", "fullcyl:-1", "inv", "triv3d", "ico"] + (["fullico"] if THOROUGH else []):
        L.append(space(s))
    for s, kind, args in [("rot2d3:3", "rot2dOnR3", (3,)), ("dih3:3,0.4", "dihedralOnR3", (3, 0.4)), ("conical:3,0.4", "conicalOnR3", (3, 0.4)), ("mir:0.4", "mirOnR3", (0.4,)), ("cyl:3", "cylindricalOnR3", (3,)), ("conical:-1,0.4", "conicalOnR3", (-1, 0.4)), ("rot2d3:-1", "rot2dOnR3", (-1,))]:
        L.append(space(s, adj=adjoint(kind, *args)))
    for s, sh in [("rot2d:4", (3, 3)), ("rot2d:4", (4, 4)), ("rot2d:2", (3, 4)), ("rot2d:8", (3, 3)), ("fliprot2d:4", (3, 3)), ("fliprot2d:4", (4, 4)), ("fliprot2d:2", (3, 4)), ("fliprot2d:2,0.0", (3, 2)), ("flip2d", (3, 4)), ("fliprot2d:-1", (4, 4)),
                  ("rot2d:-1", (3, 3)), ("octa", (3, 3, 3)), ("fullocta", (2, 2, 2)), ("rot3d", (3, 3, 3)), ("dih3:4", (3, 3, 3)), ("cyl:2", (2, 3, 4)), ("conical:4", (2, 3, 3)), ("mir", (2, 3, 3)), ("inv", (2, 3, 4)), ("fliprot3d", (2, 2, 2)), ("rot2d3:4", (2, 3, 3)), ("triv2d", (2, 3)),
                  ("fullcyl:4", (3, 3, 3))]:
        L.append(grid(s, sh))
    for s, sh, o in [("rot2d:-1", (9, 9), 1), ("rot2d:8", (9, 9), 2), ("rot2d:6", (8, 10), 1), ("fliprot2d:-1", (9, 9), 1), ("fliprot2d:3", (9, 8), 1), ("rot3d", (6, 6, 6), 1), ("fliprot3d", (6, 6, 6), 1)]:
        L.append(affine(s, sh, o))
    for s, ids in [("rot2d:4", (1, 2, 4)), ("rot2d:-1", (1, 3, -1)), ("fliprot2d:4", ((None, 4), (None, 1), (0, 2), (1, 2), (3, 1), (1, 4))), ("fliprot2d:-1", ((None, -1), (None, 3), (1.0, 2), (0.0, 1), (2.0, -1))), ("fliprot2d:4,0.7", ((None, 2), (1, 2), (3, 1))), ("fliprot2d:-1,0.7", ((1.0, 3), (None, -1), (4.0, 1))), ("flip2d", (1, 2)),
                   ("flip2d:0.3", (2,)), ("rot3d", ((False, 3), (True, 2), (1.0, 3), "octa", (False, -1), (True, -1))), ("fliprot3d", ((False, False, 3), (True, False, 2), ("cone", 3), ("cone", 1.0, 2), (True, True, 2), "so3", (False, True, 3), ("cone", -1))), ("dih3:4", ((None, 2), (1, 2), (3, 1))), ("dih3:-1", ((1.0, 2), (None, 3), (None, -1))),
                   ("conical:4", ((None, 4), (1, 2), (3, 1))), ("conical:-1,0.4", ((1.0, 2), (None, 3), (None, -1), (0.5, -1))), ("rot2d3:-1", (4,)), ("rot2d3:4", (2,)), ("cyl:4", ((2, 2), (1, 4))), ("cyl:-1", ((2, 3), (1, -1))), ("fullcyl:4", ((2, (1, 2)), (1, (None, 2)), (2, (None, 4)))), ("mir", (1, 2)), ("inv", (1, 2)),
                   ("r0:D4", ((None, 2), (1, 2))), ("r0:SO2", (3,)), ("r0:O3", ((True, False, 3),))]:
        for i in ids:
            L.append(restr(s, i))
    f = gspaces
    tau = 2 * math.pi
    L.append(same("2d", [(lambda: f.rot2dOnR2(4), lambda: f.rot2dOnR2(4), True), (lambda: f.rot2dOnR2(4), lambda: f.rot2dOnR2(8), False), (lambda: f.flipRot2dOnR2(4), lambda: f.rot2dOnR2(4), False),
                         (lambda: f.flipRot2dOnR2(4, axis=0.3), lambda: f.flipRot2dOnR2(4, axis=0.3), True), (lambda: f.flipRot2dOnR2(4, axis=0.3), lambda: f.flipRot2dOnR2(4, axis=0.4), False), (lambda: f.rot2dOnR2(-1, 3), lambda: f.rot2dOnR2(-1), True),
                         (lambda: f.flip2dOnR2(), lambda: f.flip2dOnR2(), True), (lambda: f.flip2dOnR2(0.3), lambda: f.flip2dOnR2(), False), (lambda: f.flipRot2dOnR2(1, axis=0.3), lambda: f.flip2dOnR2(0.3), True), (lambda: f.trivialOnR2(), lambda: f.rot2dOnR2(1), True),
                         (lambda: f.rot2dOnR2(4), lambda: f.rot2dOnR3(4), False), (lambda: f.no_base_space(G.cyclic_group(4)), lambda: f.no_base_space(G.cyclic_group(4)), True), (lambda: f.no_base_space(G.cyclic_group(4)), lambda: f.no_base_space(G.cyclic_group(3)), False),
                         (lambda: f.flipRot2dOnR2(4).restrict((None, 2))[0], lambda: f.rot2dOnR2(2), True), (lambda: f.flipRot2dOnR2(-1, axis=0.0).restrict((1.0, 3))[0], lambda: f.flipRot2dOnR2(3, axis=0.5), True)]))
    L.append(same("3d", [(lambda: f.rot3dOnR3(), lambda: f.rot3dOnR3(), True), (lambda: f.rot3dOnR3(), lambda: f.flipRot3dOnR3(), False), (lambda: f.octaOnR3(), lambda: f.octaOnR3(), True), (lambda: f.octaOnR3(), lambda: f.rot3dOnR3(), False),
                         (lambda: f.rot2dOnR3(3), lambda: f.rot2dOnR3(3), True), (lambda: f.rot2dOnR3(3), lambda: f.rot2dOnR3(4), False), (lambda: f.conicalOnR3(3), lambda: f.dihedralOnR3(3), False), (lambda: f.conicalOnR3(3, 0.3), lambda: f.conicalOnR3(3, 0.3), True),
                         (lambda: f.conicalOnR3(3, 0.3), lambda: f.conicalOnR3(3, 0.4), False), (lambda: f.mirOnR3(0.4), lambda: f.conicalOnR3(1, 0.4), True), (lambda: f.invOnR3(), lambda: f.cylindricalOnR3(1), True), (lambda: f.trivialOnR3(), lambda: f.rot2dOnR3(1), True),
                         (lambda: f.rot3dOnR3(3), lambda: f.rot3dOnR3(2), True), (lambda: f.rot3dOnR3().restrict((False, 3))[0], lambda: f.rot2dOnR3(3), True)]))
    return L
