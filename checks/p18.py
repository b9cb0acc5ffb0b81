"""P18 attributes, indexing, equality and expansions of kernel bases agree with what the bases sample"""
from .common import *
from .elems import *
from .p02 import mm, rnd_cob
from .p06 import point, circ, sph, two, orbit, _fixed, space, K_
from escnn.nn.modules import basismanager as BM
from escnn.nn.modules.basismanager.basisexpansion_singleblock import SingleBlockBasisExpansion
from escnn.nn.modules.basismanager.basissampler_singleblock import SingleBlockBasisSampler

EXPLANATION = ("The real __getitem__, __iter__, steerable_attrs*, attrs_j* run on z3 integers (one run per feasible path, all indices covered); the sampled columns are compared, at a symbolic "
               "point, with the function the attributes declare: the Gaussian ring of the declared radius and width (ratio test on two radii of one symbolic direction), the declared frequency "
               "(K(phi+a)+K(phi-a) = 2 cos(f a) K(phi) for all a, or dependence on the declared harmonic alone), the declared block of irreps, the declared fields. The real expansions run "
               "on symbolic weights (and symbolic points for the samplers) and are compared with the sum of weight times normalised element at the declared position. Bases which compare "
               "equal must have equal hashes and equal samples at a symbolic point.")
ASSUMPTIONS = ["radii of the points in [0.05, 3]; rings, widths and maximum frequencies as listed in the instances; exp is an uninterpreted function with its bounds",
               "floats are modelled as reals; the representations of a field type have different names unless they are equal",
               "the normalisation of the expansions (squared norm summed over the grid = size of the output irrep) is read off the documentation of normalize_basis"]


def same(a, b):
    """attribute dictionaries up to the float type of the values"""
    if set(a) != set(b):
        return False
    for k in a:
        x, y = a[k], b[k]
        if isinstance(x, float) or isinstance(y, float):
            if abs(x - y) > 1e-9:
                return False
        elif x != y:
            return False
    return True


def get_all(h, label, n, f, want):
    """f(i) == want[i] for a z3 integer 0 <= i < n"""
    if n == 0:
        return

    def body(v):
        i = v["i"]
        try:
            r = f(i)
        except TypeError:
            if not h.symbolic:
                raise
            r = f(int(i))       # numpy functions without an encoding on z3 integers: one path per index
        k = int(i)
        r = {a: (int(x) if a in ("idx", "m", "i", "id", "block_id") else x) for a, x in r.items()} if isinstance(r, dict) else {}
        ok = same(r, want[k])
        h.true(label if ok else "%s [%d]" % (label, k), ok)
    h.forall(label, {"i": (0, n - 1)}, body)


def gauss(h, r, at):
    d = r - at["radius"]
    e = d * d * (-0.5 / at["sigma"] ** 2)
    return poly.fn("exp", e) if not poly.num(e) else math.exp(e)


def sc(A, w):
    """an array times a scalar"""
    out = np.empty(np.shape(A), dtype=object)
    for k in np.ndindex(*out.shape):
        out[k] = A[k] * w
    return out


def rays(h, d, n=2):
    """n points on one arbitrary ray"""
    u = h.cs("x.u") if d == 2 else h.sphere("x.u")
    rs = [h.val("x.r%d" % k, 0.05, 3.0) for k in range(n)]
    p = np.zeros((n, d), dtype=object if h.symbolic else float)
    for k in range(n):
        for i in range(d):
            p[k, i] = u[i] * rs[k]
    return rs, u, p


def shells(tag, make, cost=1.0):
    """the filter bases: rings times circular or spherical harmonics"""
    def setup():
        return {"f": make()}

    def run(h, o):
        f = o["f"]
        d = f.dimensionality
        at = list(f)
        h.true("length", len(at) == len(f) == f.dim and [a["idx"] for a in at] == list(range(f.dim)) and all(a["shape"] == f.shape == (1, 1) for a in at))
        get_all(h, "basis[i] is the i-th of iter(basis)", f.dim, lambda i: f[i], at)
        st = list(f.steerable_attrs_iter())
        h.true("steerable attributes", [a["idx"] for a in st] == list(range(len(st))) and [a["j"] for a in st] == [j for j, m in f.js for _ in range(m)])
        get_all(h, "steerable_attrs(i)", len(st), lambda i: f.steerable_attrs(i), st)
        for j, m in f.js:
            sj = list(f.steerable_attrs_j_iter(j))
            h.true("steerable_attrs_j_iter %s" % (j,), len(sj) == m == f.multiplicity(j) and all(same(a, b) for a, b in zip(sj, [a for a in st if a["j"] == j])))
            get_all(h, "steerable_attrs_j %s" % (j,), m, lambda i: f.steerable_attrs_j(j, i), sj)
            h.true("dim_harmonic", f.dim_harmonic(j) == m * f.group.irrep(*j).size)
        # element (j, ring, m) is the m-th component of the invariant space (j, ring)
        want = [(a["j"], a["radial_idx"], a["radius"], a["sigma"], m) for a in st for m in range(f.group.irrep(*a["j"]).size)]
        h.true("elements run over the components of the invariant spaces", [(a["j"], a["radial_idx"], a["radius"], a["sigma"], a["m"]) for a in at] == want)
        h.true("frequency", all(a["irrep:frequency"] == a["j"][-1] for a in at))
        rs, u, x = rays(h, d)
        K = to_obj(h, f.sample(h.wrap(x)))[..., 0, 0]
        if d == 2:
            ax = (math.cos(f.axis), math.sin(f.axis))
            v = (u[0] * ax[0] + u[1] * ax[1], u[1] * ax[0] - u[0] * ax[1])
            H, c, s = {(0, 0): 1.0}, 1.0, 0.0
            for j in range(1, f.L + 1):
                c, s = c * v[0] - s * v[1], s * v[0] + c * v[1]
                H[j, 0], H[j, 1] = c, s
        else:
            S = to_obj(h, K_.HarmonicPolynomialR3Generator(f.L)(h.wrap(np.array([list(u)], dtype=object if h.symbolic else float)))).reshape(-1)
            H = {(j, m): S[j * j + m] for j in range(f.L + 1) for m in range(2 * j + 1)}
        h.eq("the elements are the declared ring times the declared harmonic", K, [[gauss(h, r, a) * H[a["j"][-1], a["m"]] for a in at] for r in rs], 1e-4)
    return Instance("shells[%s]" % tag, setup, run, timeout=300, cost=cost)


def filtered(kind, L, rings, cost=1.0):
    """a filter keeps exactly the elements whose attributes pass, for all 2^(rings (L+1)) filters at once (z3 bits)"""
    def run(h, o):
        cls = circ if kind == "O2" else sph
        full = cls(L, rings)
        st = list(full.steerable_attrs_iter())
        at = list(full)
        n = len(st)
        keys = [(a["j"], a["radius"]) for a in st]
        rs, u, x = rays(h, full.dimensionality, 1)
        K = to_obj(h, full.sample(h.wrap(x)))[0, :, 0, 0]

        def body(v):
            sel = {}

            def flt(a):
                k = keys.index((a["j"], a["radius"]))
                sel[k] = bool(v["f%d" % k] == 1)
                return sel[k]
            try:
                f = cls(L, rings, filter=flt)
            except K_.EmptyBasisException:
                h.true("empty only if the filter rejects everything", not any(sel.values()))
                return
            h.true("every invariant space is offered to the filter", sorted(sel) == list(range(n)))
            keep = [k for k, a in enumerate(at) if sel[keys.index((a["j"], a["radius"]))]]
            h.true("dimension", f.dim == len(keep) == len(list(f)))
            drop = lambda a: {k: b for k, b in a.items() if k != "idx"}
            h.true("attributes", all(same(drop(a), drop(at[k])) for a, k in zip(f, keep)) and all(same(drop(f[i]), drop(at[k])) for i, k in enumerate(keep)))
            ss = [k for k in range(n) if sel[k]]
            h.true("steerable attributes", all(same(drop(a), drop(st[k])) for a, k in zip(f.steerable_attrs_iter(), ss)) and all(same(drop(f.steerable_attrs(i)), drop(st[k])) for i, k in enumerate(ss))
                   and [drop(a) for j, _ in f.js for a in f.steerable_attrs_j_iter(j)] == [drop(st[k]) for k in ss] and [drop(f.steerable_attrs_j(j, i)) for j, m in f.js for i in range(m)] == [drop(st[k]) for k in ss])
            h.true("multiplicities", all(f.multiplicity(j) == sum(1 for k in ss if st[k]["j"] == j) for j, _ in full.js))
            h.eq("samples", to_obj(h, f.sample(h.wrap(x)))[0, :, 0, 0], K[keep], 1e-6)
            other = cls(L, rings, filter=lambda a: sel[keys.index((a["j"], a["radius"]))])
            h.true("equal filters give equal bases and hashes", f == other and hash(f) == hash(other) and not f != other)
            h.true("bases with different elements differ", len(keep) == full.dim or not f == full)
        h.forall("filter", {"f%d" % k: (0, 1) for k in range(n)}, body)
    return Instance("filter[%s L=%d rings=%s]" % (kind, L, rings), dict, run, timeout=300, cost=cost)


def irrep_bases(kb):
    return list(kb.irreps_bases.items())


def steer(tag, make, cost=1.0, harm=True):
    """SteerableKernelBasis and the irrep bases below it. make() -> kernel basis"""
    def setup():
        try:
            return {"kb": make()}
        except K_.EmptyBasisException:
            return {"kb": None}

    def run(h, o):
        kb = o["kb"]
        if kb is None:
            raise Skip("empty basis")
        top = kb
        while isinstance(kb, K_.AdjointBasis):
            kb = kb.basis
        if isinstance(kb, K_.UnionBasis):
            raise Skip("union")
        at = list(kb)
        h.true("length", len(at) == len(kb) == kb.dim and [a["idx"] for a in at] == list(range(kb.dim)))
        get_all(h, "basis[i] is the i-th of iter(basis)", kb.dim, lambda i: kb[i], at)
        if top is not kb:
            h.true("attributes of the conjugated basis", all(same(a, b) for a, b in zip(top, at)) and len(top) == kb.dim)
            get_all(h, "conjugated basis[i]", kb.dim, lambda i: top[i], at)
        a, b = kb.in_repr, kb.out_repr
        h.true("in and out irreps", all(t["in_irrep"] == a.irreps[t["in_irrep_idx"]] and t["out_irrep"] == b.irreps[t["out_irrep_idx"]] for t in at))
        size = lambda i: kb.group.irrep(*i).size
        h.true("shape of the block", all(t["shape"] == (size(t["out_irrep"]), size(t["in_irrep"])) for t in at))
        # irrep bases
        f = kb.basis
        for (i, o_), ib in irrep_bases(kb):
            ia = list(ib)
            h.true("irrep basis length %s" % ((i, o_),), len(ia) == ib.dim == len(ib) and [t["idx"] for t in ia] == list(range(ib.dim)) and ib.dim == sum(ib.dim_harmonic(j) for j in ib.js))
            get_all(h, "irrep basis[i] %s" % ((i, o_),), ib.dim, lambda k: ib[k], ia)
            p = 0
            for j in ib.js:
                ja = list(ib.attrs_j_iter(j))
                n = ib.dim_harmonic(j)
                h.true("attrs_j_iter", len(ja) == n and all(same(s, t) for s, t in zip(ja, ia[p:p + n])) and all(t["j"] == j for t in ja))
                get_all(h, "attrs_j %s %s" % ((i, o_), j), n, lambda k: ib.attrs_j(j, k), ja)
                p += n
            fa = {j: list(f.steerable_attrs_j_iter(j)) for j in ib.js}
            drop = ("idx", "j", "i", "shape")
            h.true("attributes of the irrep basis contain those of the harmonics it uses", all(same({k: v for k, v in fa[t["j"]][t["i"]].items() if k not in drop}, {k: t.get(k, "?") for k in fa[t["j"]][t["i"]] if k not in drop}) for t in ia))
        h.true("attributes extend those of the irrep basis", all(same({k: v for k, v in s.items() if k not in ("idx", "shape")}, {k: t.get(k, "?") for k in s if k not in ("idx", "shape")})
                                                           for t in at for s in [kb.irreps_bases[t["in_irrep"], t["out_irrep"]][t["irreps_basis_idx"]]]))
        h.true("harmonics in the declared order", [t["j"] for t in at] == [j for j in kb.js for _ in range(kb.dim_harmonic(j))] and all(t["j_idx"] == t["idx"] - sum(kb.dim_harmonic(j) for j in kb.js[:kb.js.index(t["j"])]) for t in at))
        # the columns
        Y = {j: h.array("Y%s" % (j,), (1, m, f.group.irrep(*j).size)) for j, m in f.js}
        W = lambda Y: {j: h.wrap(y) for j, y in Y.items()}
        flat = lambda R, js: np.concatenate([to_obj(h, R[j])[0] for j in js], axis=0)
        K = flat(kb.sample_harmonics(W(Y)), kb.js)
        I = {io: flat(ib.sample_harmonics(W(Y)), ib.js) for io, ib in irrep_bases(kb)}
        po, pi = np.cumsum([0] + [size(i) for i in b.irreps]), np.cumsum([0] + [size(i) for i in a.irreps])
        want = np.empty(K.shape, dtype=object)
        for t in at:
            M = np.zeros((b.size, a.size), dtype=object)
            o0, i0 = po[t["out_irrep_idx"]], pi[t["in_irrep_idx"]]
            M[o0:o0 + t["shape"][0], i0:i0 + t["shape"][1]] = I[t["in_irrep"], t["out_irrep"]][t["irreps_basis_idx"]]
            want[t["idx"]] = mm(b.change_of_basis, M, a.change_of_basis_inv)
        h.eq("the element fills its block of irreps with the element of the irrep basis", K, want, 1e-4)
        # only the declared harmonic matters
        for (io, ib) in irrep_bases(kb):
            by = {}
            for t in ib:
                by.setdefault((t["j"], t["i"]), []).append(t["idx"])
            for (j, i), ks in by.items():
                Z = {l: np.zeros(y.shape, dtype=y.dtype) for l, y in Y.items()}
                Z[j][0, i] = Y[j][0, i]
                h.eq("the element depends on the declared harmonic only", flat(ib.sample_harmonics(W(Z)), ib.js)[ks], I[io][ks], 1e-5)
        # the radial and angular profile at actual points
        if "radius" in at[0] and harm:
            d = f.dimensionality
            rs, u, x = rays(h, d)
            S = to_obj(h, kb.sample(h.wrap(x)))
            lhs, rhs = [], []
            for t in at:
                lhs.append(sc(S[0, t["idx"]], gauss(h, rs[1], t)))
                rhs.append(sc(S[1, t["idx"]], gauss(h, rs[0], t)))
            h.eq("radial profile of the declared ring", np.array(lhs), np.array(rhs), 1e-3)
            if d == 2:
                al = h.cs("alpha")
                y = np.empty((3, 2), dtype=x.dtype)
                y[0] = x[0]
                y[1] = [x[0, 0] * al[0] - x[0, 1] * al[1], x[0, 1] * al[0] + x[0, 0] * al[1]]
                y[2] = [x[0, 0] * al[0] + x[0, 1] * al[1], x[0, 1] * al[0] - x[0, 0] * al[1]]
                S = to_obj(h, kb.sample(h.wrap(y)))
                ch = [1.0, al[0]]
                while len(ch) <= f.L:
                    ch.append(2 * al[0] * ch[-1] - ch[-2])
                h.eq("angular frequency", S[1] + S[2], np.array([sc(S[0, t["idx"]], ch[t["irrep:frequency"]] * 2) for t in at]), 1e-3)
    return Instance("steerable[%s]" % tag, setup, run, timeout=400, cost=cost)


def equal(tag, make, d, cost=1.0):
    """make() -> list of bases, built twice: rebuilt ones are equal; equal ones have the same hash and the same samples"""
    def setup():
        return {"A": make(), "B": make()}

    def run(h, o):
        A, B = o["A"], o["B"]
        x = point(h, d) if d > 1 else np.zeros((1, 1))
        S = [to_obj(h, a.sample(h.wrap(x))) for a in A]
        for k, (a, b) in enumerate(zip(A, B)):
            h.true("a rebuilt basis is equal, with the same hash %d" % k, a == b and not a != b and hash(a) == hash(b))
            h.true("equal to itself, not to something else", a == a and not a == "x" and not a == None)     # noqa
        for i, a in enumerate(A):
            for j, b in enumerate(B):
                e = bool(a == b)
                h.true("symmetric", e == bool(b == a) and e != bool(a != b))
                if e and i != j:
                    h.true("equal bases have equal hashes %d %d" % (i, j), hash(a) == hash(b))
                    if a.dim != b.dim or a.shape != b.shape:
                        h.true("equal bases have the same size %d %d" % (i, j), False)
                    else:
                        h.eq("equal bases sample the same kernels %d %d" % (i, j), S[i], S[j], 1e-4)
                        h.true("equal bases have the same attributes %d %d" % (i, j), all(same(s, t) for s, t in zip(a, b)))
    return Instance("equality[%s]" % tag, setup, run, timeout=300, cost=cost)


def union(tag, make, d, cost=1.0):
    def setup():
        L = make()
        return {"L": L, "U": K_.UnionBasis(L)}

    def run(h, o):
        L, U = o["L"], o["U"]
        at = list(U)
        h.true("length", len(at) == len(U) == U.dim == sum(b.dim for b in L) and [a["idx"] for a in at] == list(range(U.dim)))
        get_all(h, "union[i]", U.dim, lambda i: U[i], at)
        x = point(h, d)
        K = to_obj(h, U.sample(h.wrap(x)))
        S = [to_obj(h, b.sample(h.wrap(x))) for b in L]
        h.eq("samples", K, np.stack([S[a["basis_id"]][:, a["basis_idx"]] for a in at], axis=1), 1e-6)
        skip = ("idx", "basis_id", "basis_idx", "shape")
        h.true("attributes", all(same({k: v for k, v in a.items() if k not in skip}, {k: v for k, v in L[a["basis_id"]][a["basis_idx"]].items() if k not in skip}) for a in at))
    return Instance("union[%s]" % tag, setup, run, timeout=300, cost=cost)


def fields(gspace, spec):
    return [r for p in spec.split("+") for r in reps_of(gspace, p)]


def grid(n, d):
    g = np.stack(np.meshgrid(*[np.arange(n) - (n - 1) / 2] * d, indexing="ij"), axis=-1).reshape(-1, d)
    return g


def gen(g, mf, rings=(0.0, 1.0)):
    if g.dimensionality == 0:
        return lambda a, b: g.build_kernel_basis(a, b)
    return lambda a, b: g.build_kernel_basis(a, b, [0.6] * len(rings), list(rings), maximum_frequency=mf)


FILTERS = {"": None, "f": lambda a: a["irrep:frequency"] <= 2 * a["radius"] + 0.5, "none": lambda a: False, "in0": lambda a: a["in_irrep_idx"] == 0, "even": lambda a: a["idx"] % 2 == 0}


def info_claims(h, bm, ri, ro, dim):
    """metadata of a basis manager: -> list of the attributes"""
    at = list(bm.get_basis_info())
    h.true("dimension", len(at) == dim == bm.dimension() and [a["id"] for a in at] == list(range(dim)))
    get_all(h, "get_element_info(i)", dim, lambda i: bm.get_element_info(i), at)
    ci, co = np.cumsum([0] + [len(r.irreps) for r in ri]), np.cumsum([0] + [len(r.irreps) for r in ro])
    h.true("names and positions", all(ri[a["in_field_position"]].name == a["in_repr"] and ro[a["out_field_position"]].name == a["out_repr"]
                                      and a["in_irreps_position"] == ci[a["in_field_position"]] + a["in_irrep_idx"] and a["out_irreps_position"] == co[a["out_field_position"]] + a["out_irrep_idx"]
                                      and ri[a["in_field_position"]].irreps[a["in_irrep_idx"]] == a["in_irrep"] and ro[a["out_field_position"]].irreps[a["out_irrep_idx"]] == a["out_irrep"] for a in at))
    return at


def expansion(s, ins, outs, mf=2, n=3, flt="", rings=(0.0, 1.0), recompute=False, cost=1.0):
    def setup():
        g = space(s)
        ri, ro = fields(g, ins), fields(g, outs)
        P = grid(n, g.dimensionality) if g.dimensionality else np.zeros((1, 1))
        b = gen(g, mf, rings)
        e = BM.BlocksBasisExpansion(ri, ro, b, P, basis_filter=FILTERS[flt], recompute=recompute)
        return {"g": g, "ri": ri, "ro": ro, "P": P, "gen": b, "e": e}

    def run(h, o):
        e, ri, ro, P, g = o["e"], o["ri"], o["ro"], o["P"], o["g"]
        N = e.dimension()
        h.true("number of weights", isinstance(N, (int, np.integer)) and N >= 0)
        at = info_claims(h, e, ri, ro, N)
        # normalised elements of every pair, from the samples of the basis
        E, kept = {}, {}
        for i in {r.name: r for r in ri}.values():
            for o_ in {r.name: r for r in ro}.values():
                try:
                    kb = o["gen"](i, o_)
                except K_.EmptyBasisException:
                    continue
                S = kb.sample(torch.tensor(P, dtype=torch.float64)).detach().cpu().numpy()      # (P, dim, o, i)
                for t in kb:
                    nrm = math.sqrt((S[:, t["idx"]] ** 2).sum() / t["shape"][0])
                    if (FILTERS[flt] is None or FILTERS[flt](t)) and nrm > 1e-4:
                        E[i.name, o_.name, t["idx"]] = S[:, t["idx"]] / nrm
                        kept.setdefault((i.name, o_.name), []).append(t["idx"])
        want = [(a.name, b.name, k) for b in ro for a in ri for k in kept.get((a.name, b.name), [])]
        h.true("every element of every pair of fields has one weight", sorted(want) == sorted((a["in_repr"], a["out_repr"], a["idx"]) for a in at)
               and len({(a["in_field_position"], a["out_field_position"], a["idx"]) for a in at}) == N)
        w = h.array("w", (N,))
        F = to_obj(h, e(h.wrap(w)))
        pi, po = np.cumsum([0] + [r.size for r in ri]), np.cumsum([0] + [r.size for r in ro])
        R = np.zeros((po[-1], pi[-1], len(P)), dtype=object)
        for a in at:
            oo, ii = a["out_field_position"], a["in_field_position"]
            R[po[oo]:po[oo + 1], pi[ii]:pi[ii + 1]] += sc(np.transpose(E[a["in_repr"], a["out_repr"], a["idx"]], (1, 2, 0)), w[a["id"]])
        h.true("shape", tuple(F.shape) == R.shape)
        h.eq("the filter is the sum of weight times normalised element at the declared fields", F, R, 1e-3)
        e2 = BM.BlocksBasisExpansion(ri, ro, o["gen"], P, basis_filter=FILTERS[flt], recompute=True)
        h.true("rebuilt expansions are equal, with the same hash", e == e2 and hash(e) == hash(e2) and not e != e2)
    return Instance("expansion[%s %s->%s mf=%s n=%d%s%s]" % (s, ins, outs, mf, n, " filter=" + flt if flt else "", " recompute" if recompute else ""), setup, run, timeout=400, cost=cost)


def sampler(s, ins, outs, mf=2, flt="", groups=1, rings=(0.0, 1.0), edges=2, cost=1.0):
    def setup():
        g = space(s)
        ri, ro = fields(g, ins), fields(g, outs)
        b = gen(g, mf, rings)
        k = len(ri) // groups
        return {"g": g, "ri": ri[:k], "ro": ro, "gen": b, "e": BM.BlocksBasisSampler(ri[:k], ro, b, basis_filter=FILTERS[flt])}

    def run(h, o):
        e, ri, ro, g = o["e"], o["ri"], o["ro"], o["g"]
        N = int(e.dimension())
        at = info_claims(h, e, ri, ro, N)
        d = g.dimensionality
        x = point(h, d)[1:]
        y = np.random.RandomState(1).randn(edges - 1, d)
        P = np.concatenate([x, y.astype(x.dtype)])
        E = {}
        for i in {r.name: r for r in ri}.values():
            for o_ in {r.name: r for r in ro}.values():
                try:
                    kb = o["gen"](i, o_)
                except K_.EmptyBasisException:
                    continue
                S = to_obj(h, kb.sample(h.wrap(P)))
                for t in kb:
                    if FILTERS[flt] is None or FILTERS[flt](t):
                        E[i.name, o_.name, t["idx"]] = sc(S[:, t["idx"]], float(t["shape"][0]))
        want = [(a.name, b.name, k[2]) for b in ro for a in ri for k in E if k[:2] == (a.name, b.name)]
        h.true("every element of every pair of fields has one weight", sorted(want) == sorted((a["in_repr"], a["out_repr"], a["idx"]) for a in at)
               and len({(a["in_field_position"], a["out_field_position"], a["idx"]) for a in at}) == N)
        w = h.array("w", (N,))
        pi, po = np.cumsum([0] + [r.size for r in ri]), np.cumsum([0] + [r.size for r in ro])
        R = np.zeros((edges, po[-1], pi[-1]), dtype=object)
        for a in at:
            oo, ii = a["out_field_position"], a["in_field_position"]
            R[:, po[oo]:po[oo + 1], pi[ii]:pi[ii + 1]] += sc(E[a["in_repr"], a["out_repr"], a["idx"]], w[a["id"]])
        F = to_obj(h, e(h.wrap(w), h.wrap(P)))
        h.true("shape", tuple(F.shape) == R.shape)
        h.eq("the filter is the sum of weight times element at the declared fields", F, R, 1e-3)
        v = h.array("v", (edges, groups * pi[-1]))
        T = np.zeros((edges, po[-1]), dtype=object)
        per = po[-1] // groups
        for p in range(edges):
            for q in range(po[-1]):
                b = (q // per) * pi[-1]
                T[p, q] = poly.sum_([R[p, q, k] * v[p, b + k] for k in range(pi[-1])])
        for first in (True, False):
            h.eq("messages%s" % (" (inputs first)" if first else ""), e.compute_messages(h.wrap(w), h.wrap(v), h.wrap(P), conv_first=first, groups=groups), T, 1e-3)
        e2 = BM.BlocksBasisSampler(ri, ro, o["gen"], basis_filter=FILTERS[flt], recompute=True)
        h.true("rebuilt samplers are equal, with the same hash", e == e2 and hash(e) == hash(e2) and not e != e2)
    return Instance("sampler[%s %s->%s mf=%s groups=%d%s]" % (s, ins, outs, mf, groups, " filter=" + flt if flt else ""), setup, run, timeout=400, cost=cost)


def shared(tag, specs, ins, outs, mf=2, n=3, cost=1.0):
    """layers built one after the other in one process do not get each other's filters"""
    def setup():
        L = []
        for s in specs:
            g = space(s)
            ri, ro = fields(g, ins), fields(g, outs)
            P = grid(n, g.dimensionality)
            for rings in ((0.0, 1.0), (0.0, 1.3)):
                for f in ("", "f"):
                    a = (ri, ro, gen(g, mf, rings), P)
                    L.append((g.dimensionality, BM.BlocksBasisExpansion(*a, basis_filter=FILTERS[f]), BM.BlocksBasisExpansion(*a, basis_filter=FILTERS[f], recompute=True),
                              BM.BlocksBasisSampler(*a[:3], basis_filter=FILTERS[f]), BM.BlocksBasisSampler(*a[:3], basis_filter=FILTERS[f], recompute=True)))
        return {"L": L}

    def run(h, o):
        for k, (dim, a, b, c, d) in enumerate(o["L"]):
            h.true("number of weights %d" % k, a.dimension() == b.dimension())
            w = h.array("w%d" % k, (a.dimension(),))
            h.eq("filters shared through the cache equal recomputed ones, %d" % k, a(h.wrap(w)), b(h.wrap(w)), 1e-4)
            x = point(h, dim)[1:]
            h.true("number of weights of the sampler %d" % k, c.dimension() == d.dimension())
            v = h.array("v%d" % k, (int(c.dimension()),))
            h.eq("samplers shared through the cache equal recomputed ones, %d" % k, c(h.wrap(v), h.wrap(x)), d(h.wrap(v), h.wrap(x)), 1e-4)
    return Instance("shared[%s]" % tag, setup, run, timeout=400, cost=cost)


def skb(s, rin, rout, mf=2, rings=(0.0, 1.0)):
    def make():
        g = space(s)
        a, b = reps_of(g, rin)[0], reps_of(g, rout)[0]
        return gen(g, mf, rings)(a, b)
    return make


def instances():
    lo = lambda a: a["irrep:frequency"] <= 2 * a["radius"] + 1
    hi = lambda a: a["irrep:frequency"] > 0 and a["radius"] > 0.3
    L = [shells("circular L=0", lambda: circ(0, (1.0,))), shells("circular L=3", lambda: circ(3, (0.0, 1.0, 2.0))), shells("circular L=4 axis=0.4", lambda: circ(4, (0.5, 1.5), axis=0.4)),
         shells("circular filter", lambda: circ(4, (0.0, 1.0), filter=lo)), shells("circular filter high", lambda: circ(3, (0.0, 0.7, 1.0), filter=hi, axis=0.0)), shells("spherical L=0", lambda: sph(0, (1.0, 2.0))), shells("spherical L=2", lambda: sph(2, (0.0, 1.0, 2.0))),
         shells("spherical L=4", lambda: sph(4, (0.5, 1.0))), shells("spherical filter", lambda: sph(3, (0.0, 1.0), filter=lo)), shells("spherical filter high", lambda: sph(3, (0.0, 0.7, 1.0), filter=hi)),
         shells("circular two widths", lambda: K_.CircularShellsBasis(2, K_.GaussianRadialProfile([0.0, 1.0], [0.4, 0.7]))), shells("spherical two widths", lambda: K_.SphericalShellsBasis(2, K_.GaussianRadialProfile([0.3, 1.0], [0.4, 0.7])))]
    L += [filtered("O2", 2, (0.0, 1.0)), filtered("O2", 3, (1.0,)), filtered("O2", 1, (0.5, 1.0, 1.5)), filtered("O3", 2, (0.0, 1.0)), filtered("O3", 1, (0.5, 1.0, 1.5))]
    for s, pairs in [("rot2d:1", ["t,t"]), ("rot2d:4", ["t,r", "r,r", "b3,i1", "i1,i1"]), ("rot2d:3", ["b2,r", "i1,i1"]), ("rot2d:-1", ["b3,b2", "i1,i1", "i1,i2"]), ("flip2d", ["r,r"]), ("flip2d:0.4", ["b2,r"]), ("fliprot2d:4", ["b4,b3", "i2,r"]), ("fliprot2d:3,0.7", ["b3,b3", "i2,i2"]),
                     ("fliprot2d:-1", ["b3,b3", "i2,i2"]), ("fliprot2d:-1,0.5", ["b4,i1"]), ("rot3d", ["b2,i1", "i1,i1"]), ("fliprot3d", ["i1,i1", "b3,t"]), ("rot2d3:4", ["i1,b3", "t,r"]), ("dih3:3", ["b3,b3"]), ("conical:-1", ["i2,i2"]), ("cyl:3", ["i2,b3"]), ("inv", ["r,r"]), ("octa", ["i3,b3"]), ("rot2d3:3~", ["i1,r"]),
                     ("r0:C4", ["r,r", "b3,i1"]), ("r0:D3", ["r,b3"]), ("r0:SO3", ["b2,i1"])]:
        for p in pairs:
            a, b = p.split(",")
            L.append(steer("%s %s->%s" % (s, a, b), skb(s, a, b), cost=2 if "3d" in s or "oct" in s else 1))
    L.append(steer("O2 filter b3->b3", lambda: K_.SteerableKernelBasis(circ(3, (0.0, 1.0), filter=hi), *two(G.o2_group(6), "b3", "b3"), K_.WignerEckartBasis)))
    L.append(steer("O3 filter i1->b3", lambda: K_.SteerableKernelBasis(sph(2, (0.0, 1.0), filter=hi), *two(G.o3_group(2), "i1", "b3"), K_.WignerEckartBasis)))
    L.append(steer("orbit D3 r->b3", lambda: K_.SteerableKernelBasis(orbit(lambda: G.dihedral_group(3), (0, 1), _fixed)(), *two(G.dihedral_group(3), "r", "b3"), K_.WignerEckartBasis)))
    L.append(steer("orbit octa i3->i2", lambda: K_.SteerableKernelBasis(orbit(G.octa_group, (False, 4), _fixed)(), *two(G.octa_group(), "i3", "i2"), K_.WignerEckartBasis), cost=2))
    rad = K_.GaussianRadialProfile
    # equality
    L.append(equal("circular", lambda: [circ(2, (1.0,)), circ(3, (1.0,)), circ(2, (1.0, 1.5)), circ(2, (1.2,)), circ(2, (1.0,), axis=0.4), circ(2, (1.0,), axis=0.0), circ(2, (1.0,), filter=lambda a: a["j"][1] > 0), circ(2, (1.0,), filter=lambda a: a["j"][1] < 2), circ(2, (1.0,), filter=lambda a: a["j"][1] < 2, axis=0.4),
                                        K_.CircularShellsBasis(2, rad([1.0], 0.5)), circ(2, (0.5, 1.0), filter=lambda a: a["radius"] > 0.7), circ(2, (0.5, 1.0), filter=lambda a: a["radius"] < 0.7)], 2))
    L.append(equal("spherical", lambda: [sph(1, (1.0,)), sph(2, (1.0,)), sph(1, (1.0, 1.5)), sph(1, (1.2,)), sph(1, (1.0,), filter=lambda a: a["j"][1] > 0), sph(1, (1.0,), filter=lambda a: a["j"][1] < 1), K_.SphericalShellsBasis(1, rad([1.0], 0.5)),
                                         sph(1, (0.5, 1.0), filter=lambda a: a["radius"] > 0.7), sph(1, (0.5, 1.0), filter=lambda a: a["radius"] < 0.7)], 3))

    def kernels2():
        R = []
        for s in ["fliprot2d:-1", "fliprot2d:-1,0.5", "fliprot2d:4", "fliprot2d:4,0.3", "rot2d:4", "rot2d:-1", "flip2d", "flip2d:0.4"]:
            g = space(s)
            for f in (0, 1):
                t, i = g.trivial_repr, irreps_of(g.fibergroup)[1]
                R.append(gen(g, 1 + f, (1.0,))(t, G.directsum([t, i], name="ti")))
        g = space("rot2d:4")
        two_ = [g.irrep(0), g.irrep(1)]
        R += [gen(g, 2, (1.0,))(G.directsum(two_, name="s"), g.trivial_repr), gen(g, 2, (1.0,))(G.directsum(two_[::-1], name="s"), g.trivial_repr), gen(g, 2, (1.0,))(G.directsum(two_, change_of_basis=rnd_cob(3, 1), name="s"), g.trivial_repr), gen(g, 2, (1.0,))(g.trivial_repr, G.directsum(two_, name="s"))]
        th = 0.3
        Q = np.array([[math.cos(th), -math.sin(th)], [math.sin(th), math.cos(th)]])
        R += [K_.AdjointBasis(R[0], Q), K_.AdjointBasis(R[0], Q.T), K_.AdjointBasis(R[1], Q), K_.AdjointBasis(K_.AdjointBasis(R[0], Q), Q)]
        R += [K_.UnionBasis([R[0], R[1]]), K_.UnionBasis([R[1], R[0]])]
        return R

    def kernels3():
        R = []
        for s in ["rot3d", "fliprot3d", "rot2d3:3", "rot2d3:3~", "dih3:3", "dih3:3,0.4", "conical:3", "conical:3,0.4", "cyl:3", "mir:0.3", "mir:0.5", "inv"]:
            g = space(s)
            t, i = g.trivial_repr, irreps_of(g.fibergroup)[1]
            R.append(gen(g, 1, (1.0,))(t, G.directsum([t, i], name="ti")))
        return R
    L += [equal("kernels in 2D", kernels2, 2, cost=3), equal("kernels in 3D", kernels3, 3, cost=4)]
    L += [equal("orbits", lambda: [orbit(lambda: G.dihedral_group(3), (0, 1), _fixed)(), orbit(lambda: G.dihedral_group(3), (1, 1), _fixed)(), orbit(lambda: G.dihedral_group(3), (0, 1), _fixed, sigma=0.6)(), orbit(lambda: G.dihedral_group(3), (0, 1), lambda X, A: 1.3 * _fixed(X, A))(),
                                   orbit(lambda: G.dihedral_group(3), (0, 1), _fixed, harmonics=[(0, 0)])(), orbit(lambda: G.dihedral_group(3), (0, 1), _fixed, change_of_basis=np.array([[0.0, -1.0], [1.0, 0.0]]))(), orbit(lambda: G.dihedral_group(3), (0, 1), _fixed, change_of_basis=np.eye(2))()], 2)]
    L += [equal("radial", lambda: [rad([1.0], 0.6), rad([1.0, 2.0], 0.6), rad([2.0, 1.0], 0.6), rad([1.0], 0.5), rad([1.0, 2.0], [0.6, 0.5])], 1)]
    L.append(union("circular kernels", lambda: [skb("rot2d:4", "i1", "b3")(), skb("fliprot2d:3", "t", "b3")() if False else skb("rot2d:4", "i1", "b3", 1, (2.0,))()], 2))
    L.append(union("three", lambda: [skb("fliprot2d:-1", "t", "b3")(), K_.AdjointBasis(skb("fliprot2d:-1", "t", "b3", 1, (2.0,))(), np.array([[0.0, 1.0], [1.0, 0.0]])), skb("fliprot2d:-1", "t", "b3", 3, (0.5,))()], 2))
    # expansions
    E = expansion
    L += [E("rot2d:4", "r", "r"), E("rot2d:4", "t+i1+t", "i1+t", flt="f"), E("rot2d:4", "c3+t", "i1+c3"), E("fliprot2d:-1", "c3", "c2+t"), E("rot2d:4", "t+t+i1", "r+t+r"), E("rot2d:4", "i1+b3+i1+t", "b3+t+b3", n=5, flt="f"), E("rot2d:3", "r+i1", "i1+r+i1", recompute=True), E("rot2d:-1", "i1+t+i2+i1", "i2+t", n=5, flt="f"), E("fliprot2d:4", "i2+t", "r+i2+i4"),
          E("fliprot2d:-1", "i2+t+i2", "i2+i1", mf=2), E("fliprot2d:-1,0.5", "i2+t", "i2"), E("flip2d", "r+t+r", "i1+r"), E("rot2d:4", "t", "i1", flt="none"), E("rot2d:4", "t+i1", "i1+t", flt="none"), E("rot2d:4", "b3", "b2", flt="in0"), E("rot2d:4", "r+t", "r", flt="even"), E("rot2d:4", "t", "i1", mf=0), E("rot2d:4", "t+t", "i1+i1", mf=0),
          E("rot3d", "i1+t", "t+i1", n=3, cost=2), E("octa", "t+i3", "i3+t+i3", n=3, cost=2), E("rot2d3:4", "i1+t", "r", n=3), E("dih3:3,0.4", "i2+t+i2", "i2", n=3), E("conical:3", "i2+t", "i1+i2", n=2), E("r0:C4", "r+i1+r", "i1+r", n=1), E("r0:D3", "i2+t+i2", "r+i2+t", n=1), E("r0:SO3", "i1+t+i1", "t+i1", n=1), E("r0:C4", "t", "i1", n=1), E("r0:C3", "i1", "i1", n=1)]
    S = sampler
    L += [S("rot2d:4", "r", "i1"), S("rot2d:4", "t+i1+t", "i1+t", flt="f"), S("rot2d:4", "c3+t", "i1+c3"), S("octa", "c2", "t+c2"), S("rot2d:4", "i1+i1", "t+t", groups=2), S("rot2d:4", "i1+t+i1+t", "i1+t+i1+t", groups=2), S("rot2d:4", "i1+t+i1+t", "i1+i1", groups=2), S("rot2d:4", "i1+i1", "i1+t+i1+t", groups=2), S("rot2d:-1", "i1+t", "i2+i1+t"), S("fliprot2d:3", "i2+t", "t+i2+t", flt="even"), S("fliprot2d:-1,0.5", "i2", "i2+t"),
          S("rot3d", "i1+t", "t+i1", mf=1, cost=2), S("octa", "t+i3", "i3", mf=1, cost=2), S("rot2d:4", "b3+t", "b2", flt="in0"), S("rot2d:4", "t", "i1", mf=0), S("rot2d:4", "t+i1", "i1", mf=0)]
    L += [shared("reflection axes O(2)", ["fliprot2d:-1", "fliprot2d:-1,0.5", "fliprot2d:-1,0.0"], "i2+t", "i2"), shared("reflection axes D4", ["fliprot2d:4", "fliprot2d:4,0.3"], "i2+t", "i4"), shared("flips", ["flip2d", "flip2d:0.4"], "r", "r"), shared("rotations", ["rot2d:-1", "rot2d:4", "rot2d:2"], "t", "t", n=5),
          shared("dihedral 3D", ["dih3:3", "dih3:3,0.4", "conical:3", "conical:3,0.4"], "i2", "i1"), shared("conjugated 3D", ["rot2d3:3", "rot2d3:3~", "cyl:3", "cyl:3~"], "t", "i1")]
    return L
