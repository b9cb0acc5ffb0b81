"""P03 subgroups: inclusion and restriction maps, restricted representations, combined ids"""
from .common import *
from .common import _flat
from .elems import *
from symx import poly
from .p01 import group_of
from .p02 import mm, rnd_cob

EXPLANATION = ("Each instance builds a subgroup from its id and runs the real parent and child maps on symbolic elements (integers, angles, unit quaternions; every comparison is a "
               "path condition): parent is a homomorphism, child inverts it, whatever child returns is mapped back to the element it was given, also on families of elements of the "
               "big group around the subgroup. Restricted representations are evaluated on the same symbolic elements and compared with rho(parent(h)); subgroups of subgroups are "
               "compared with their combined id.")
ASSUMPTIONS = ["the conjugating elements in subgroup ids are fixed concrete rotations", "angles in one turn; rounding model of P01", "irreps up to frequency 3 (2D) and 2 (3D)"]


def dim2(E):
    """half angles for embeddings into 3D rotations"""
    for e in (E, getattr(E, "a", None), getattr(E, "b", None)):
        if e is None or e is E and not isinstance(e, SO2):
            if e is not None and e is not E:
                dim2(e)
            continue
        if isinstance(e, SO2):
            e.D = 2
        else:
            dim2(e)
    return E


def rot(g, kind=0):
    """a fixed conjugating element"""
    r = np.random.RandomState(4 + kind)
    q = r.randn(4)
    q /= np.linalg.norm(q)
    return g.element(q, "Q") if type(g).__name__ == "SO3" else g.element((kind % 2, q), "Q")


def family(g, adj, v, h):
    """elements of SO(3) / O(3) around the z axis, conjugated like the subgroup"""
    c, s = cs(v["t"] / 2.0)
    q = [0.0, 0.0, s, c] if v["fl"] == 0 else [c, s, 0.0, 0.0]
    q = quat_arr(q)
    k = g.element(q, "Q") if type(g).__name__ == "SO3" else g.element((v["f"], q), "Q")
    return ~adj @ k @ adj if adj is not None else k


def listed(g):
    gr = (1 + math.sqrt(5)) / 2
    A = [(0, 0, 1), (1, 0, 0), (1, 1, 1), (1, 1, 0), (gr, 0, 1), (1, gr, 0), (0, 1, gr), (1, -1, 1), (gr, 0, 1 / gr), (.3, .5, .7)]
    L = []
    for a in A:
        a = np.array(a, dtype=float) / np.linalg.norm(a)
        for t in (1 / 2, 1 / 3, 1 / 4, 1 / 5, 2 / 5, 3 / 4, 1 / 7):
            q = np.concatenate([a * math.sin(math.pi * t), [math.cos(math.pi * t)]])
            for q_ in (q, -q):
                L += [g.element(q_, "Q")] if type(g).__name__ == "SO3" else [g.element((f, q_), "Q") for f in (0, 1)]
    return L


def sub(s, sid, reps_=True, tag=None):
    def setup():
        g = group_of(s)
        i = sid(g) if callable(sid) else sid
        H_, p, c = g.subgroup(i)
        if reps_:
            lim = 2 if "3" in s else 3
            R = [r for r in irreps_of(g) if r.size <= 7]
            S = R[:1] + [R[-1]]
            C = rnd_cob(sum(r.size for r in S), 5)
            big = G.directsum(S, change_of_basis=C, name="p03")
            res = [(r, r.restrict(i), g.restrict_representation(i, r)) for r in R + [big]]
        else:
            res = []
        return {"g": g, "H": H_, "p": p, "c": c, "el": el(g), "eh": dim2(el(H_)), "res": res, "id": i}

    def run(h, o):
        g, H_, par, chi, E, F = o["g"], o["H"], o["p"], o["c"], o["el"], o["eh"]
        n3 = type(g).__name__ in ("SO3", "O3")

        def k(v, n):
            return H_.element(F.get(h, v, n))

        def hom(v):
            a, b = k(v, "a"), k(v, "b")
            E.same(h, "parent of a product", par(a @ b).value, E.mul(par(a).value, par(b).value))

        def back(v):
            a = k(v, "a")
            r = chi(par(a))
            h.true("child of a parent is not None", r is not None)
            if r is not None:
                h.true("child of a parent is in the subgroup", r.group == H_)
                F.same(h, "child of a parent", r.value, a.value)

        def back2(v):
            # the same element given by the opposite quaternion
            x = par(k(v, "a")).value
            x = g.element((x[0], quat_arr([0.0 - y for y in x[1]]))) if isinstance(x, tuple) else g.element(quat_arr([0.0 - y for y in x]))
            r = chi(x)
            h.true("child of a parent with the opposite quaternion is not None", r is not None)
            if r is not None:
                F.same(h, "child of a parent with the opposite quaternion", r.value, k(v, "a").value)

        def forth(v):
            x = g.element(E.get(h, v, "x"))
            r = chi(x)
            if r is not None:
                E.same(h, "parent of a child", par(r).value, x.value)

        def fam(v):
            i = o["id"]
            adj = i[-1] if isinstance(i, tuple) and hasattr(i[-1], "group") else None
            x = family(g, adj, v, h)
            r = chi(x)
            if r is not None:
                E.same(h, "parent of a child on the axis", par(r).value, x.value)
        E.same(h, "parent of the identity", par(H_.identity).value, g.identity.value)
        few = {n: (0, min(d[1], 2)) for n, d in F.dims("b").items()}        # listed elements: all of them with a few generators
        h.paths("hom", {**F.dims("a"), **(F.dims("b") if F.full else few)}, hom)
        h.paths("back", F.dims("a"), back)
        if n3 or type(g).__name__ in ("Octahedral", "Icosahedral"):
            h.paths("back2", F.dims("a"), back2)
        if not g.continuous and len(g.elements) <= 130:
            # the elements with an image are exactly those of the subgroup
            img = [(par(y), y) for y in H_.elements]
            for n_, x in enumerate(g.elements):
                w = [y for z, y in img if z == x]
                r = chi(x)
                h.true("element %d is in the subgroup" % n_, len(w) == (r is not None) and (not w or w[0] == r))
        elif not H_.continuous and n3:
            # a list of rotations around several axes: those with an image are exactly the ones of the subgroup
            img = [par(y) for y in H_.elements]
            for n_, x in enumerate(listed(g)):
                w = [y for z, y in zip(img, H_.elements) if z == x]
                r = chi(x)
                h.true("listed rotation %d is in the subgroup" % n_, len(w) == (r is not None) and (not w or w[0] == r))
        ico = any(type(x).__name__ == "Icosahedral" for x in (H_, getattr(H_, "G1", None), getattr(H_, "G2", None))) and g != H_
        if not ico:        # a nearest element search over 60 matrices
            h.paths("forth", E.dims("x"), forth)
        if n3 and not ico:
            h.paths("family", {"t": ("angle", 2, 0, 1), "fl": (0, 1), "f": (0, 1 if type(g).__name__ == "O3" else 0)}, fam)
        for j, (r, a_, b_) in enumerate(o["res"]):
            h.true("restriction of %s is of the subgroup" % r.name, a_.group == H_ and b_.group == H_)
            h.true("size of the restriction of %s" % r.name, a_.size == r.size)

            def res(v, r=r, a_=a_, b_=b_):
                a = k(v, "a")
                M = r(par(a))
                h.eq("restriction of %s" % r.name, a_(a), M, 1e-4)
                h.eq("restrict_representation of %s" % r.name, b_(a), M, 1e-4)
                D = mm(a_.change_of_basis, bd(H_, a_.irreps, a), a_.change_of_basis_inv)
                h.eq("decomposition of the restriction of %s" % r.name, D, M, 1e-4)
            h.paths("res%d" % j, F.dims("a"), res)
    return Instance("sub[%s %s]" % (s, tag or sid), setup, run, timeout=600, cost=3)


def whole(s):
    """subgroup_trivial_id, subgroup_self_id and the factors of a product name the subgroups they should"""
    def setup():
        g = group_of(s)
        ids = {"trivial": g.subgroup_trivial_id, "self": g.subgroup_self_id}
        for n in ("subgroup1_id", "subgroup2_id", "subgroup_diagonal_id"):
            if hasattr(g, n):
                ids[n] = getattr(g, n)
        return {"g": g, "el": el(g), "subs": {n: (g.subgroup(i), i) for n, i in ids.items()}}

    def run(h, o):
        g, E = o["g"], o["el"]
        for n, ((H_, par, chi), i) in o["subs"].items():
            E.same(h, n + ": identity", par(H_.identity).value, g.identity.value)
            if n == "trivial":
                h.true("the trivial subgroup has one element", H_.order() == 1)
                h.true("restriction to the trivial subgroup", g.trivial_representation.restrict(i).group == H_)
            elif n == "self":
                h.true("the whole group", H_ == g)
                h.paths("self", E.dims("x"), lambda v: (E.same(h, "self: parent", par(g.element(E.get(h, v, "x"))).value, g.element(E.get(h, v, "x")).value),
                                                        E.same(h, "self: child", chi(g.element(E.get(h, v, "x"))).value, g.element(E.get(h, v, "x")).value)))
            else:
                k = {"subgroup1_id": 0, "subgroup2_id": 1}.get(n)
                h.true(n + ": is the factor", H_ == ((g.G1, g.G2)[k] if k is not None else g.G1))
                F = dim2(el(H_))
                e = ((g.G1, g.G2)[1 - k]).identity if k is not None else None

                def fac(v, H_=H_, par=par, chi=chi, k=k, e=e, F=F, n=n):
                    a = H_.element(F.get(h, v, "a"))
                    want = g.pair_elements(*((a, e) if k == 0 else (e, a) if k == 1 else (a, a)))
                    E.same(h, n + ": parent", par(a).value, want.value)
                    r = chi(want)
                    h.true(n + ": child", r is not None)
                    if r is not None:
                        F.same(h, n + ": child", r.value, a.value)
                h.paths(n, F.dims("a"), fac)
    return Instance("named subgroups[%s]" % s, setup, run, timeout=300, cost=2)


def bd(H_, irr, x):
    from .p02 import bdiag
    return bdiag([H_.irrep(*i)(x) for i in irr])


def comb(s, sid1, sid2, tag=None):
    """the subgroup sid2 of the subgroup sid1, and the combined id"""
    def setup():
        g = group_of(s)
        i = sid1(g) if callable(sid1) else sid1
        H_, p, c = g.subgroup(i)
        j = sid2(H_) if callable(sid2) else sid2
        K, p2, c2 = H_.subgroup(j)
        ij = g._combine_subgroups(i, j)
        K3, p3, c3 = g.subgroup(ij)
        return {"g": g, "K": K, "K3": K3, "maps": (p, p2, p3, c, c2, c3), "el": el(g), "ek": dim2(el(K))}

    def run(h, o):
        g, K, E, F = o["g"], o["K"], o["el"], o["ek"]
        p, p2, p3, c, c2, c3 = o["maps"]
        h.true("same group", K == o["K3"])
        if K != o["K3"]:
            return

        def both(v):
            a = K.element(F.get(h, v, "a"))
            E.same(h, "inclusions", p3(a).value, p(p2(a)).value)

        def back(v):
            a = K.element(F.get(h, v, "a"))
            r = c3(p(p2(a)))
            h.true("restriction is not None", r is not None)
            if r is not None:
                F.same(h, "restrictions", r.value, a.value)
        h.paths("both", F.dims("a"), both)
        h.paths("back", F.dims("a"), back)
    return Instance("comb[%s %s]" % (s, tag or (sid1, sid2)), setup, run, timeout=600, cost=2)


def A3(*sid, kind=0):
    return lambda g: sid + (rot(g, kind),)


def instances():
    L = []

    def S(s, *sids, **kw):
        for i in sids:
            L.append(sub(s, i, tag="%s" % (i,) if not callable(i) else None, **kw))

    def SA(s, *sids, kind=0):
        for i in sids:
            L.append(sub(s, A3(*i, kind=kind), tag="%s adj%d" % (i, kind)))

    def C(s, *pairs):
        for a, b in pairs:
            L.append(comb(s, a, b, tag="%s %s" % (a, b)))
    S("C6", 1, 2, 3, 6)
    S("C8", 2, 4)
    S("D4", (None, 1), (None, 2), (None, 4), (0, 1), (1, 1), (3, 1), (0, 2), (1, 2), (3, 2), (0, 4), (1, 4))
    S("D3", (None, 3), (0, 1), (2, 1), (0, 3), (1, 3))
    S("D6", (None, 3), (1, 3), (2, 3), (5, 3), (1, 2), (4, 2), (4, 6), (5, 1))
    S("SO2", 1, 2, 3, 4, 5, 6, 7, 8, -1)
    S("O2", (None, 1), (None, 2), (None, 5), (None, -1), (0.0, 1), (1.0, 1), (0.0, 2), (1.0, 2), (2.5, 3), (6.0, 4), (0.0, -1), (1.0, -1), (math.pi / 2, 4))
    S("SO3", (False, 1), (False, 2), (False, 3), (False, 5), (False, -1), (True, 1), (True, 2), (True, 3), (True, 4), (True, -1), "so3", "octa", "ico", (1.0, 2), (1.0, 3), (0.5, -1), (1.0, 1))
    SA("SO3", (False, 3), (False, -1), (True, 2), (True, 3), (True, -1), ("so3",), ("octa",), (1.0, 3))
    S("O3", "so3", "o3", (False, False, 1), (False, False, 4), (False, False, -1), (False, True, 1), (False, True, 3), (False, True, -1), (True, False, 1), (True, False, 3), (True, False, 4), (True, False, -1),
      (True, True, 2), (True, True, 3), (True, True, -1), (True, True, 1), ("cone", 1), ("cone", 2), ("cone", 3), ("cone", -1), ("cone", 1.0, 3), ("cone", 1.0, 1), ("cone", 1.0, -1), (False, 1.0, 3), (True, 1.0, 3),
      (False, "octa"), (True, "octa"), (True, "ico"), (False, "ico"))
    SA("O3", (False, "so3"), (True, "so3"), (False, False, 3), (False, True, 3), (True, False, 3), (True, True, -1), ("cone", 3), ("cone", -1), ("cone", 1), ("cone", 1.0, 3))
    SA("O3", ("cone", -1), (False, True, -1), (True, True, 2), kind=1)
    S("O", "octa", (False, 1), (False, 2), (False, 3), (False, 4), (True, 1))
    S("I", "ico", (False, 1), (False, 2), (False, 3), (False, 5), (True, 1))
    S("XC2*C3", (1, 3), (2, 1), (1, 1), (2, 3))
    S("XD4*C2", ((0, 2), 2), ((None, 4), 1), ((1, 1), 2), ((None, 1), 2), ((1, 4), 2))
    S("XC4*C6", (2, 3), (4, 2), (1, 6), (2, 6))
    S("CylSO2", (1, 3), (2, 2), (2, 4), (1, -1), (2, 1))
    S("CylO2", (1, (None, 3)), (2, (0.0, 3)), (2, (1.0, 2)), (2, (None, -1)), (1, (0.0, -1)))
    L.append(sub("XSO3*C2", lambda g: ((False, 3, rot(g.G1, 0)), 2), tag="((False, 3, adj), 2)"))
    L.append(sub("XSO3*C2", lambda g: ((True, 2, rot(g.G1, 1)), 1), tag="((True, 2, adj), 1)"))
    for s_ in ("C5", "D4", "SO2", "O2", "SO3", "O3", "I", "XC2*C3", "XD4*C2", "CylSO2", "CylO2", "WC3", "K3"):
        L.append(whole(s_))
    S("WC3", "diagonal", (1, 3), (3, 1), (3, 3))
    S("WD2", "diagonal")
    S("WSO2", (1, -1), (3, 2))
    L.append(sub("WSO2", "diagonal", reps_=False))
    C("C12" if THOROUGH else "C6", (6, 3), (6, 2), (3, 1))
    C("D4", ((None, 4), 2), ((0, 2), (1, 1)), ((1, 2), (0, 1)), ((1, 2), (1, 1)), ((3, 2), (1, 1)), ((0, 4), (3, 2)), ((1, 4), (3, 2)), ((3, 4), (3, 1)), ((1, 2), (None, 2)), ((2, 1), 1), ((2, 1), 2), ((3, 2), (1, 2)))
    C("D6", ((2, 3), (1, 1)), ((5, 3), (2, 1)), ((1, 6), (5, 3)), ((4, 2), (1, 1)), ((1, 3), (None, 3)))
    C("SO2", (4, 2), (-1, 3), (6, 3))
    C("O2", ((None, -1), 4), ((None, 4), 2), ((1.0, 4), (1, 2)), ((1.0, 4), (3, 1)), ((6.0, 3), (2, 1)), ((1.0, -1), (1.0, 2)), ((1.0, -1), (None, 2)), ((4.0, -1), (4.0, 3)), ((1.0, -1), (None, -1)), ((2.0, 1), 2), ((2.0, 1), 1),
      ((1.0, 4), (None, 2)), ((2.0, -1), (1.0, -1)))
    C("SO3", ("so3", (False, 3)), ((False, -1), 3), ((False, 4), 2), ((True, -1), (None, 3)), ((True, -1), (1.0, 3)), ((True, -1), (0.0, 1)), ((True, -1), (1.0, 1)), ((True, 4), (1, 2)), ((True, 4), (3, 1)), ((True, 4), (None, 2)),
      ((True, -1), (1.0, -1)), ((True, -1), (None, -1)), ("ico", (False, 3)), ("ico", (False, 5)), ("ico", (False, 2)), ("ico", (False, 1)))
    C("O3", ("so3", (False, 3)), ("so3", (True, 3)), ("o3", (True, False, 3)), ("so3", "octa"), ((True, False, -1), (1, 3)), ((True, False, -1), (2, 3)), ((True, True, -1), (2, (1.0, 3))), ((True, True, -1), (1, (None, 3))),
      ((True, False, 4), (2, 2)), ((True, False, 4), (1, 2)), ((True, False, 1), 1), ((True, False, 1), 2), ((True, True, 4), (2, (1, 2))), ((True, True, 4), (1, (None, 2))), ((False, True, -1), (1.0, 3)), ((False, False, -1), 4),
      ((False, True, 4), (1, 2)), ((False, True, 4), (None, 2)), (("cone", -1), (1.0, 3)), (("cone", -1), (None, 3)), (("cone", 4), (1, 2)), (("cone", 4), (3, 1)), (("cone", 4), (None, 2)), (("cone", -1), (None, -1)), (("cone", 1), 1), (("cone", 1), 2), (("cone", -1), (1.0, -1)), (("cone", -1), (1.0, 1)))
    C("XD4*C2", (((1, 4), 2), ((1, 2), 1)), (((None, 1), 2), 1), (((0, 2), 1), (1, 1)))
    C("XC2*D4", ((1, (0, 4)), (1, 2)), ((1, (1, 2)), (1, 1)), ((2, (1, 4)), (1, (1, 2))), ((1, (None, 4)), 2), ((1, (0, 4)), (None, 2)), ((2, (None, 1)), 1), ((2, (1, 4)), (2, (None, 2))))
    C("CylO2", ((1, (0.0, -1)), (1.0, 3)), ((2, (0.0, -1)), (1, (None, 3))), ((2, (1.0, -1)), (2, (2.0, 3))), ((1, (None, -1)), 3), ((2, (1.0, 4)), (1, (1, 2))))
    C("CylSO2", ((1, -1), 3), ((2, -1), (1, 4)), ((2, 4), (2, 2)), ((2, 1), 1))
    C("XC4*C6", ((2, 6), (1, 3)), ((1, 6), 3), ((4, 1), 2))
    return L
