"""P11 structural modules preserve content, types and equivariance"""
from .common import *
from collections import OrderedDict

EXPLANATION = ("Each instance executes the real module symbolically on an arbitrary input (and arbitrary parameters of the submodules) and asks z3 for an "
               "input for which the output differs from the oracle: channels moved unchanged to the position out_type names (reshuffle, branch, merge, "
               "multiple, sequential), an orthogonal map intertwining in_type and out_type (disentangle), the identity together with "
               "rho_out(h) = rho_in(parent(h)) (restriction), and f(g.x) = g.f(x) for generators g.")
ASSUMPTIONS = ["floats are modelled as reals; coefficients closer than 5e-6 are identified", "inputs and parameters range over [-1,1]",
               "equivariance under generators extends to the group because rho is a homomorphism (P02)"]


def splitf(ft, x):
    out, p = [], 0
    for r in ft.representations:
        out.append(x[:, p:p + r.size])
        p += r.size
    return out


def samereps(ft, reps):
    return len(ft.representations) == len(reps) and all(a == b for a, b in zip(ft.representations, reps))


def coords_ok(h, m, spec_dim, x):
    pass


def reshuffle(spec, reps, perm, shape=()):
    def build():
        return nn.ReshuffleModule(ftype(gs(spec), reps), list(perm))

    def run(h, m):
        x = h.array("x", (2, m.in_type.size) + shape)
        y = m(geo(h, x, m.in_type))
        F = splitf(m.in_type, x)
        h.true("type", y.type == m.out_type and samereps(m.out_type, [m.in_type.representations[p] for p in perm]))
        h.eq("content", y.tensor, np.concatenate([F[p] for p in perm], 1))
        for k, g in enumerate(generators(m.in_type.fibergroup)):
            h.eq("g%d" % k, m(geo(h, act(m.in_type, g, x, False), m.in_type)).tensor, act(m.out_type, g, to_obj(h, y.tensor), False))
    return Instance("Reshuffle[%s %s %s %s]" % (spec, reps, perm, shape), build, run)


def disent(spec, reps, shape=()):
    def build():
        sp = gs(spec)
        return nn.DisentangleModule(ftype(sp, reps) if isinstance(reps, str) else FieldType(sp, reps(sp)))

    def run(h, m):
        x = h.array("x", (1, m.in_type.size) + shape)
        y = m(geo(h, x, m.in_type))
        h.true("type", y.type == m.out_type)
        ya = to_obj(h, y.tensor)
        for k, g in enumerate(generators(m.in_type.fibergroup)):
            h.eq("g%d" % k, m(geo(h, act(m.in_type, g, x, False), m.in_type)).tensor, act(m.out_type, g, ya, False))
        # field by field an orthogonal map: inner products are preserved (nothing is lost)
        z = h.array("z", (1, m.in_type.size) + shape)
        za = to_obj(h, m(geo(h, z, m.in_type)).tensor)
        p = 0
        for r in m.in_type.representations:
            a, b, c, d = (v[:, p:p + r.size].reshape(r.size, -1) for v in (x, z, ya, za))
            if np.allclose(r.change_of_basis @ r.change_of_basis.T, np.eye(r.size), atol=1e-6):
                for q in range(a.shape[1]):
                    h.eq("inner product", [sum(c[i, q] * d[i, q] for i in range(r.size))], [sum(a[i, q] * b[i, q] for i in range(r.size))])
            p += r.size
    return Instance("Disentangle[%s %s %s]" % (spec, reps if isinstance(reps, str) else reps.__name__, shape), build, run)


def restriction(spec, reps, sid, shape=()):
    def build():
        m = nn.RestrictionModule(ftype(gs(spec), reps), sid)
        return m

    def run(h, m):
        x = h.array("x", (1, m.in_type.size) + shape)
        y = m(geo(h, x, m.in_type))
        h.true("type", y.type == m.out_type)
        h.eq("content", y.tensor, h.wrap(x))
        sub, mp, _ = m.in_type.gspace.restrict(sid)
        h.true("gspace", sub == m.out_type.gspace)
        h.true("number of fields", len(m.out_type) == len(m.in_type))
        for k, e in enumerate(generators(m.out_type.fibergroup)):
            h.eq("h%d" % k, act(m.out_type, e, x, False), act(m.in_type, mp(e), x, False))
            if m.in_type.gspace.dimensionality:
                h.eq("base space h%d" % k, m.out_type.gspace.basespace_action(e), m.in_type.gspace.basespace_action(mp(e)))
    return Instance("Restriction[%s %s to %s]" % (spec, reps, (sid,)), build, run)


def mk_linear(sp, a, b):
    return nn.Linear(FieldType(sp, a), FieldType(sp, b), initialize=False)


def sequential(spec, chain, how):
    def build():
        sp = gs(spec)
        ms = []
        T = [reps_of(sp, c) for c in chain]
        for a, b in zip(T, T[1:]):
            ms.append(mk_linear(sp, a, b))
            if all("pointwise" in r.supported_nonlinearities for r in b):
                ms.append(nn.ReLU(FieldType(sp, b)))
            else:
                ms.append(nn.IdentityModule(FieldType(sp, b)))
        if how == "list":
            s = nn.SequentialModule(*ms)
        elif how == "dict":
            s = nn.SequentialModule(OrderedDict([("m%d" % (9 - i), m) for i, m in enumerate(ms)]))
        elif how == "append":
            s = nn.SequentialModule(ms[0])
            for m in ms[1:]:
                s.append(m)
        else:
            s = nn.SequentialModule(nn.IdentityModule(ms[0].in_type), *ms, nn.IdentityModule(ms[-1].out_type))
        return {"mod": s, "ms": ms}

    def run(h, d):
        s, ms = d["mod"], d["ms"]
        h.free(s)
        x = h.array("x", (1, s.in_type.size))
        y = s(geo(h, x, s.in_type))
        h.true("type", y.type == s.out_type and s.in_type == ms[0].in_type and s.out_type == ms[-1].out_type)
        z = geo(h, x, s.in_type)
        for m in ms:
            z = m(z)
        h.eq("composition", y.tensor, z.tensor)
        ya = to_obj(h, y.tensor)
        for k, g in enumerate(generators(s.in_type.fibergroup)):
            h.eq("g%d" % k, s(geo(h, act(s.in_type, g, x, False), s.in_type)).tensor, act(s.out_type, g, ya, False))
        if how != "slice":
            n = len(s)
            h.true("len/iter/getitem", n == len(ms) and all(a is b for a, b in zip(s, ms)) and all(s[i] is ms[i] and s[i - n] is ms[i] for i in range(n)))
            a, b = s[:2], s[2:]
            if len(b):
                h.eq("slices compose", b(a(geo(h, x, s.in_type))).tensor, y.tensor)
    return Instance("Sequential[%s %s %s]" % (spec, "->".join(chain), how), build, run)


def branching(spec, reps, labels, reshuffle, shape=()):
    def build():
        return nn.BranchingModule(ftype(gs(spec), reps), list(labels), reshuffle=reshuffle)

    def run(h, m):
        x = h.array("x", (1, m.in_type.size) + shape)
        Y = m(geo(h, x, m.in_type))
        F = splitf(m.in_type, x)
        R = m.in_type.representations
        h.true("labels", set(Y) == set(labels))
        for l in sorted(set(labels)):
            idx = [i for i, q in enumerate(labels) if q == l]
            if reshuffle == 2:
                idx = sorted(idx, key=lambda i: R[i].size)
            h.true("type " + l, Y[l].type == m.out_type[l] and samereps(m.out_type[l], [R[i] for i in idx]))
            h.eq("branch " + l, Y[l].tensor, np.concatenate([F[i] for i in idx], 1))
    return Instance("Branching[%s %s %s reshuffle=%d]" % (spec, reps, "".join(labels), reshuffle), build, run)


def multiple(spec, reps, labels, mods, reshuffle, shape=(), lists=False):
    """mods: list of labels, one Linear (or identity / relu for '!') submodule each"""
    def build():
        sp = gs(spec)
        R = reps_of(sp, reps)
        sub = []
        idxs = []
        for l, kind in mods:
            idx = [i for i, q in enumerate(labels) if q == l]
            if reshuffle == 2:
                idx = sorted(idx, key=lambda i: R[i].size)
            rr = [R[i] for i in idx]
            if kind == "id":
                sm = nn.IdentityModule(FieldType(sp, rr))
            elif kind == "norm":
                sm = nn.NormNonLinearity(FieldType(sp, rr), function="squash", bias=False)
            elif kind == "shuf":
                sm = nn.ReshuffleModule(FieldType(sp, rr), list(range(len(rr)))[::-1])
            else:
                sm = mk_linear(sp, rr, reps_of(sp, kind))
            sub.append((sm, [l] if lists else l))
            idxs.append(idx)
        return {"mod": nn.MultipleModule(FieldType(sp, R), list(labels), list(sub), reshuffle=reshuffle), "sub": [s for s, _ in sub], "idx": idxs}

    def run(h, d):
        m = d["mod"]
        h.free(m)
        x = h.array("x", (1, m.in_type.size) + shape)
        y = m(geo(h, x, m.in_type))
        h.true("type", y.type == m.out_type and samereps(m.out_type, [r for s in d["sub"] for r in s.out_type.representations]))
        F = splitf(m.in_type, x)
        ref = []
        for s, idx in zip(d["sub"], d["idx"]):
            ref.append(to_obj(h, s(geo(h, np.concatenate([F[i] for i in idx], 1), s.in_type)).tensor))
        h.eq("each submodule on its fields", y.tensor, np.concatenate(ref, 1))
        ya = to_obj(h, y.tensor)
        for k, g in enumerate(generators(m.in_type.fibergroup)):
            h.eq("g%d" % k, m(geo(h, act(m.in_type, g, x, False), m.in_type)).tensor, act(m.out_type, g, ya, False))
    return Instance("Multiple[%s %s %s %s reshuffle=%d %s%s]" % (spec, reps, "".join(labels), mods, reshuffle, shape, " lists" if lists else ""), build, run)


def multi_gated(spec, reps, labels, reshuffle):
    """a submodule with two labelled inputs (gates, features)"""
    def build():
        sp = gs(spec)
        R = reps_of(sp, reps)
        sel = lambda l: sorted([i for i, q in enumerate(labels) if q == l], key=lambda i: R[i].size if reshuffle == 2 else 0)
        ty = lambda l: FieldType(sp, [R[i] for i in sel(l)])
        sub = [(nn.GatedNonLinearity2((ty("g"), ty("f"))), ["g", "f"])]
        if "x" in labels:
            sub.insert(0, (nn.IdentityModule(ty("x")), "x"))
        return {"mod": nn.MultipleModule(FieldType(sp, R), list(labels), list(sub), reshuffle=reshuffle), "gated": sub[-1][0], "sel": sel}

    def run(h, d):
        m, gm, sel = d["mod"], d["gated"], d["sel"]
        h.free(m)
        x = h.array("x", (1, m.in_type.size))
        y = m(geo(h, x, m.in_type))
        h.true("type", y.type == m.out_type)
        F = splitf(m.in_type, x)
        cat = lambda l: np.concatenate([F[i] for i in sel(l)], 1)
        ref = [to_obj(h, gm(geo(h, cat("g"), gm.in_type[0]), geo(h, cat("f"), gm.in_type[1])).tensor)]
        if "x" in labels:
            ref.insert(0, cat("x"))
        h.eq("gated by the labelled gates", y.tensor, np.concatenate(ref, 1))
        ya = to_obj(h, y.tensor)
        for k, g in enumerate(generators(m.in_type.fibergroup)):
            h.eq("g%d" % k, m(geo(h, act(m.in_type, g, x, False), m.in_type)).tensor, act(m.out_type, g, ya, False))
    return Instance("Multiple gated[%s %s %s reshuffle=%d]" % (spec, reps, labels, reshuffle), build, run)


def identity(spec, reps, shape=()):
    def build():
        return nn.IdentityModule(ftype(gs(spec), reps))

    def run(h, m):
        x = h.array("x", (1, m.in_type.size) + shape)
        y = m(geo(h, x, m.in_type))
        h.true("type", y.type == m.in_type == m.out_type)
        h.eq("identity", y.tensor, h.wrap(x))
    return Instance("Identity[%s %s]" % (spec, reps), build, run)


def harmonic(L, group):
    def build():
        return nn.HarmonicPolynomialR3(L, group)

    def run(h, m):
        x = h.array("x", (1, 3))
        y = m(geo(h, x, m.in_type))
        h.true("type", y.type == m.out_type)
        ya = to_obj(h, y.tensor)
        for k, g in enumerate(generators(m.G)):
            h.eq("g%d" % k, m(geo(h, act(m.in_type, g, x, False), m.in_type)).tensor, act(m.out_type, g, ya, False), 5e-3)
        # homogeneous polynomials of degree l, with |Y_l(x)| = |x|^l
        y2 = to_obj(h, m(geo(h, x * 0.5, m.in_type)).tensor)
        p = 0
        n2 = sum(v * v for v in x[0])
        for l in range(L + 1):
            s = 2 * l + 1
            h.eq("degree %d" % l, y2[:, p:p + s], ya[:, p:p + s] * (0.5 ** l), 5e-3)
            if l <= 3:
                nl = 1.0
                for _ in range(l):
                    nl = n2 * nl
                h.eq("norm %d" % l, [sum(v * v for v in ya[0, p:p + s])], [nl], 5e-3)
            p += s
    return Instance("HarmonicPolynomialR3[L=%d %s]" % (L, group), build, run, cost=2)


def bigsum(sp):
    r = sp.fibergroup
    return [r.regular_representation, G.directsum([irreps_of(r)[1], irreps_of(r)[0]], name="ab"), irreps_of(r)[-1], G.directsum([irreps_of(r)[1], irreps_of(r)[0]], name="ab")]


def doublereg(sp):
    r = sp.fibergroup
    return [G.directsum([r.regular_representation, r.trivial_representation, r.regular_representation], name="rtr"), r.regular_representation]


def permuted_sum(sp):
    r = sp.fibergroup
    irr = list(irreps_of(r)[:3])
    n = sum(i.size for i in irr)
    P = np.eye(n)[np.random.RandomState(3).permutation(n)]
    return [G.directsum(irr, P, name="permsum"), irr[0]]


def instances():
    L = []
    for perm in [(0, 1, 2, 3), (3, 2, 1, 0), (1, 2, 3, 0), (2, 0, 3, 1), (0, 2, 1, 3), (3, 0, 1, 2), (1, 0, 3, 2)]:
        L += [reshuffle("rot2d:4", "r+t+i1+i2", perm, (1, 2)), reshuffle("r0:D3", "i1+r+i2+t", perm), reshuffle("octa", "i1+t+i3+i1", perm, (1, 1, 1))]
    L += [reshuffle("r0:SO3", "i1+t+i2", (2, 0, 1)), reshuffle("r0:C4", "t+t+i1+i1+r+t", (5, 3, 1, 4, 2, 0)), reshuffle("r0:C4", "i1", (0,)), reshuffle("fliprot2d:4", "i2+q0,2+r+i2", (3, 1, 0, 2), (1, 1))]
    for spec, reps in [("rot2d:4", "r+i1+r"), ("rot2d:4", "t+i1+i2"), ("fliprot2d:3", "r+t+q0,1"), ("r0:D4", "r+i2+q0,2"), ("r0:SO3", "s3+i1+s3"), ("r0:SO3", "b2+i1"), ("r0:O", "s3+t"), ("r0:C6", "b3+r+b3"),
                       ("fliprot2d:4", "vn,4/1+i2"), ("r0:C4", "2*r"), ("r0:O2", "s4+i2"), ("r0:O3", "s3+i1"), ("octa", "r+i1"), ("r0:D3", "2*i2+r+t+r")]:
        L.append(disent(spec, reps, (1,) * gs_dim(spec)))
    for spec in ["r0:C3", "r0:D3", "r0:C4", "r0:D4"]:
        L += [disent(spec, bigsum), disent(spec, doublereg), disent(spec, permuted_sum)]
    for spec, reps, sid in [("rot2d:4", "r+i1+t", 2), ("rot2d:8", "r+i3", 4), ("fliprot2d:4", "r+i2", (None, 4)), ("fliprot2d:4", "i2+r", (0, 2)), ("fliprot2d:4", "i2+r", (1, 1)), ("fliprot2d:4", "i2+r", (None, 2)),
                            ("rot2d:-1", "i1+i3+t", 4), ("rot2d:-1", "i2", 3), ("fliprot2d:-1", "i2+i3+i1", (None, -1)), ("fliprot2d:-1", "i2+i3+i1", (0.0, 4)), ("fliprot2d:-1", "i2+i1", (0.5, 1)), ("fliprot2d:-1", "i2+i1", (None, 3)),
                            ("rot3d", "i1+i2+t", "ico"), ("rot3d", "i1+i2", "octa"), ("rot3d", "i1+i2", (False, 4)), ("rot3d", "i1+i2", (True, 4)), ("rot3d", "i1+i2", (False, -1)), ("fliprot3d", "i1+i4", "so3"),
                            ("r0:D6", "r+i2", (1, 3)), ("r0:C12", "r", 3), ("octa", "i1+i2", (False, 4)) if False else ("r0:D6", "i3+r", (2, 2))]:
        L.append(restriction(spec, reps, sid, (1,) * gs_dim(spec)))
    for how in ["list", "dict", "append", "slice"]:
        L += [sequential("r0:C4", ["r+t", "r+r", "r+t"], how), sequential("r0:D3", ["i2+t", "r", "i2+i1"], how)]
    L += [sequential("r0:SO3", ["i1+t", "i1+i1", "t+i1"], "list"), sequential("r0:O", ["i1", "i1+i3", "t+i2"], "list")]
    for rs in (0, 1, 2):
        for labels in ["aab", "aba", "bab", "abc", "cba", "aaa"]:
            L.append(branching("rot2d:4", "r+t+i1", labels, rs, (1, 2)))
        L += [branching("r0:D3", "i2+t+r+i1+t", "babca", rs), branching("octa", "i1+t+i1+i3", "abab", rs, (1, 1, 1)), branching("r0:C4", "t+r+i1+r+t+i2", "abcabc", rs)]
        L += [multiple("r0:C4", "r+t+i1", "aab", [("a", "r+t"), ("b", "id")], rs), multiple("r0:C4", "i1+t+i1+r", "abab", [("b", "r"), ("a", "i1+t")], rs),
              multiple("r0:D3", "i2+t+r+i2", "xyxz", [("z", "norm"), ("y", "t+t"), ("x", "i2")], rs), multiple("r0:C4", "t+r+i1+t+r", "abcab", [("c", "norm"), ("a", "shuf"), ("b", "shuf")], rs),
              multi_gated("r0:SO3", "i1+t+i1+t", "fgfg", rs), multi_gated("r0:C4", "t+i1+t+i2+t", "gfgfx", rs), multi_gated("r0:D3", "i2+t+i1+t", "fgfg", rs)]
    L += [multiple("rot2d:4", "r+t+i1", "aba", [("b", "id"), ("a", "shuf")], rs, (1, 2)) for rs in (0, 1, 2)]
    L += [identity("rot2d:4", "r+t", (1, 2)), identity("octa", "i1", (1, 1, 1)), identity("r0:SO3", "i1")]
    L += [harmonic(1, "so3"), harmonic(2, "so3"), harmonic(3, "so3"), harmonic(2, "o3"), harmonic(3, "o3")] + ([harmonic(4, "so3"), harmonic(5, "o3")] if THOROUGH else [])
    return L


def gs_dim(spec):
    return 0 if spec.startswith("r0") else (3 if spec.split(":")[0] in ("rot3d", "fliprot3d", "octa", "fullocta", "ico", "fullico", "mir", "rot2d3", "conical", "cyl", "fullcyl", "inv", "triv3d", "dih3") else 2)
