"""P17 point convolutions"""
from .common import *
from .elems import *
from .p02 import mm
from .p03 import dim2
from .p06 import point, move, space, K_
from .p18 import fields, sc

EXPLANATION = ("The real forward of R2PointConv / R3PointConv (message passing, sampling, bias) runs on symbolic features, weights and biases: (a) on star graphs whose offsets are symbolic points "
               "(arbitrary direction, radius in [0.05, 3]) and the origin, or on offsets passed as edge_delta, moved by a symbolic group element (or by generators of the group); "
               "(b) on concrete clouds; (c) on every graph with the stated number of nodes and edges (z3 integers for the end points). It is compared with the mean over the incoming edges of the "
               "kernel times the feature of the neighbour plus the bias, the kernel being the sum of weight times sampled element at the declared position (P18), and with the transformed output.")
ASSUMPTIONS = ["radii of the offsets in {0} or [0.05, 3]; number of nodes and edges as listed; the message passing of torch_geometric is executed, not modelled",
               "floats are modelled as reals; exp is an uninterpreted function with its bounds"]
RINGS, SIGMA, CUT = [0.0, 1.0], [0.6, 0.5], 2.0


def build(cls, s, i, o, groups=1, **kw):
    g = space(s)
    a, b = FieldType(g, fields(g, i)), FieldType(g, fields(g, o))
    k = dict(rings=list(RINGS), sigma=list(SIGMA), frequencies_cutoff=lambda r: CUT, initialize=False)
    k.update(kw)
    return g, a, b, getattr(nn, cls)(a, b, groups=groups, **k)


def kern(h, c, w, P, groups=1, mf=int(CUT), rings=None, sigma=None):
    """(edges, out, in per group) from the sampled bases and the declared positions of the weights"""
    g = c.in_type.gspace
    ri, ro = c.in_type.representations, c.out_type.representations
    ri = ri[:len(ri) // groups]
    pi, po = np.cumsum([0] + [r.size for r in ri]), np.cumsum([0] + [r.size for r in ro])
    R = np.zeros((len(P), po[-1], pi[-1]), dtype=object)
    S = {}
    for t in c.basissampler.get_basis_info():
        ii, oo = t["in_field_position"], t["out_field_position"]
        k = (ri[ii].name, ro[oo].name)
        if k not in S:
            S[k] = to_obj(h, g.build_kernel_basis(ri[ii], ro[oo], list(sigma or SIGMA), list(rings or RINGS), maximum_frequency=mf).sample(h.wrap(P)))
        R[:, po[oo]:po[oo + 1], pi[ii]:pi[ii + 1]] += sc(sc(S[k][:, t["idx"]], float(t["shape"][0])), w[t["id"]])
    return R


def bias_vec(h, c):
    """the bias as a vector: the trivial components of the output fields, in order"""
    if c.bias is None:
        return np.zeros(c.out_type.size)
    b = to_obj(h, c.bias)
    out, k = [], 0
    for r in c.out_type.representations:
        v = np.zeros(r.size, dtype=object)
        p = 0
        for irr in r.irreps:
            i = r.group.irrep(*irr)
            if i.is_trivial():
                v[p] = b[k]
                k += 1
            p += i.size
        out += [poly.sum_([r.change_of_basis[q, l] * v[l] for l in range(r.size)]) for q in range(r.size)]
    return np.array(out, dtype=object)


def oracle(h, c, x, src, dst, D, n, groups=1, w=None, **kw):
    if len(src):
        K = kern(h, c, to_obj(h, c.weights) if w is None else w, D, groups, **kw)
    o = c.out_type.size
    per, fan = o // groups, x.shape[1] // groups
    B = bias_vec(h, c)
    out = np.zeros((n, o), dtype=object)
    for v in range(n):
        E = [e for e in range(len(src)) if dst[e] == v]
        for q in range(o):
            b = (q // per) * fan
            t = [K[e, q, k] * x[src[e], b + k] for e in E for k in range(fan)]
            out[v, q] = (poly.sum_(t) * (1.0 / len(E)) if E else 0.0) + B[q]
    return out


def _mv(M, v):
    return np.array([poly.sum_([M[i, j] * v[j] for j in range(len(v))]) for i in range(M.shape[0])], dtype=object)


def star(cls, s, i, o, sym=True, groups=1, delta=False, cost=1.0, **kw):
    """offsets are arbitrary: node 0 at the origin, node 1 at an arbitrary position; an edge in each direction and a loop (or the offsets given as edge_delta)"""
    def setup():
        g, a, b, c = build(cls, s, i, o, groups, **kw)
        return {"g": g, "a": a, "b": b, "c": c, "el": dim2(el(g.fibergroup)) if sym else None}

    def run(h, o_):
        g, a, b, c = o_["g"], o_["a"], o_["b"], o_["c"]
        h.free(c)
        d = g.dimensionality
        P = point(h, d)
        x = h.array("x", (2, a.size))
        src, dst = [0, 1, 1], [1, 0, 1]
        ei = torch.tensor([src, dst])
        D = np.stack([P[0] - P[1], P[1] - P[0], P[0]])

        def go(X, P):
            if delta:
                D_ = np.stack([P[0] - P[1], P[1] - P[0], P[0]])
                return c(geo(h, X.copy(), a, h.wrap(np.zeros((2, d)))), ei, h.wrap(D_))
            return c(geo(h, X.copy(), a, h.wrap(P.copy())), ei)
        c.train()
        y = go(x, P)
        h.true("type", y.type == b)
        if not delta:
            h.eq("the coordinates are kept", y.coords, P, 1e-9)
        Y = to_obj(h, y.tensor)
        h.eq("mean over the incoming edges of kernel times feature, plus bias", Y, oracle(h, c, x, src, dst, D, 2, groups), 1e-3)
        perm = [2, 0, 1]
        if not delta:
            y2 = c(geo(h, x.copy(), a, h.wrap(P.copy())), ei[:, perm])
            h.eq("the order of the edges does not matter", y2.tensor, Y, 1e-5)
        c.eval()
        h.eq("eval mode", go(x, P).tensor, Y, 1e-5)
        c.train()
        h.eq("train mode again", go(x, P).tensor, Y, 1e-5)
        A = g.basespace_action

        def one(v):
            e = v if v is not None and not isinstance(v, dict) else g.fibergroup.element(o_["el"].get(h, v, "a"))
            Z = to_obj(h, go(_act(a, e, x), move(A(e), P)).tensor)
            h.eq("f(g.x, g.pos) = g.f(x, pos)", Z, _act(b, e, Y), 1e-3)
        if sym:
            h.paths("g", o_["el"].dims("a"), one)
        else:
            for e in generators(g.fibergroup):
                one(e)
    return Instance("%s[%s %s->%s%s%s%s]" % (cls, s, i, o, " groups=%d" % groups if groups > 1 else "", " delta" if delta else "", "".join(" %s" % k for k in sorted(kw))), setup, run, timeout=500, cost=cost)


def _act(ft, e, x):
    """features (nodes, channels) transformed field by field"""
    out = np.empty(x.shape, dtype=object)
    p = 0
    for r in ft.representations:
        M = r(e)
        for k in range(len(x)):
            out[k, p:p + r.size] = _mv(M, x[k, p:p + r.size])
        p += r.size
    return out


GRAPHS = {"loops": (3, [(0, 1), (1, 0), (2, 2), (0, 1)]), "isolated": (4, [(0, 1), (2, 1), (3, 1)]), "complete": (3, [(i, j) for i in range(3) for j in range(3)]), "chain": (4, [(0, 1), (1, 2), (2, 3), (3, 0), (1, 1)])}


def cloud(cls, s, i, o, graph, groups=1, seed=0, cost=1.0, **kw):
    """concrete positions: oracle, equivariance (generators, through GeometricTensor.transform), translations and relabelling of the nodes"""
    def setup():
        g, a, b, c = build(cls, s, i, o, groups, **kw)
        return {"g": g, "a": a, "b": b, "c": c}

    def run(h, o_):
        g, a, b, c = o_["g"], o_["a"], o_["b"], o_["c"]
        h.free(c)
        c.train()
        n, E = GRAPHS[graph]
        d = g.dimensionality
        P = np.random.RandomState(seed).uniform(-1.2, 1.2, (n, d))
        x = h.array("x", (n, a.size))
        src, dst = [e[0] for e in E], [e[1] for e in E]
        ei = torch.tensor([src, dst])
        f = lambda X, P, ei=ei: c(geo(h, X.copy(), a, h.wrap(P.copy())), ei)
        y = f(x, P)
        Y = to_obj(h, y.tensor)
        h.eq("mean over the incoming edges", Y, oracle(h, c, x, src, dst, P[src] - P[dst], n, groups), 1e-3)
        h.eq("translations", f(x, P + np.linspace(0.3, -0.7, d)).tensor, Y, 1e-3)
        perm = np.random.RandomState(seed + 1).permutation(n)           # node k moves to position inv[k]
        inv = np.argsort(perm)
        h.eq("relabelling the nodes", to_obj(h, f(x[perm], P[perm], torch.tensor([[int(inv[k]) for k in src], [int(inv[k]) for k in dst]])).tensor), Y[perm], 1e-4)
        for e in generators(g.fibergroup)[:2]:
            gx = geo(h, x.copy(), a, h.wrap(P.copy())).transform(e)
            z = c(gx, ei)
            t = y.transform(e)
            h.eq("f(g.x) = g.f(x)", z.tensor, t.tensor, 1e-3)
            h.eq("positions", z.coords, t.coords, 1e-4)
            h.eq("the transform is the action", t.tensor, _act(b, e, Y), 1e-3)
        # the filters
        D = P[src] - P[dst]
        K = kern(h, c, to_obj(h, c.weights), D, groups)
        h.eq("expand_filter", c.expand_filter(h.wrap(D)), K, 1e-3)
        F, B = c.expand_parameters(h.wrap(D))
        h.eq("expand_parameters", F, K, 1e-3)
        h.eq("bias", bias_vec(h, c) if B is None else B, bias_vec(h, c), 1e-4)
        h.true("shape", tuple(c.evaluate_output_shape((n, a.size))) == tuple(Y.shape))
    return Instance("cloud[%s %s %s->%s %s%s%s]" % (cls, s, i, o, graph, " groups=%d" % groups if groups > 1 else "", "".join(" %s" % k for k in sorted(kw))), setup, run, timeout=500, cost=cost)


def graphs(cls, s, i, o, n, m, groups=1, cost=1.0):
    """every graph with n nodes and m edges"""
    def setup():
        g, a, b, c = build(cls, s, i, o, groups)
        return {"g": g, "a": a, "b": b, "c": c}

    def run(h, o_):
        g, a, b, c = o_["g"], o_["a"], o_["b"], o_["c"]
        h.free(c)
        P = np.random.RandomState(3).uniform(-1.2, 1.2, (n, g.dimensionality))
        x = h.array("x", (n, a.size))
        N = n * n
        allD = np.array([P[u] - P[v] for u in range(n) for v in range(n)])
        K = kern(h, c, to_obj(h, c.weights), allD, groups)
        w, B = to_obj(h, c.weights), bias_vec(h, c)
        per, fan = b.size // groups, a.size // groups
        M = np.empty((n, n, b.size), dtype=object)      # message u -> v
        for u in range(n):
            for v in range(n):
                for q in range(b.size):
                    M[u, v, q] = poly.sum_([K[u * n + v, q, k] * x[u, (q // per) * fan + k] for k in range(fan)])

        def body(vals):
            E = [divmod(int(vals["e%d" % k]), n) for k in range(m)]
            ei = torch.tensor([[e[0] for e in E], [e[1] for e in E]])
            Y = c(geo(h, x.copy(), a, h.wrap(P.copy())), ei).tensor
            W = np.zeros((n, b.size), dtype=object)
            for v in range(n):
                I = [u for u, t in E if t == v]
                for q in range(b.size):
                    W[v, q] = (poly.sum_([M[u, v, q] for u in I]) * (1.0 / len(I)) if I else 0.0) + B[q]
            h.eq("mean over the incoming edges", Y, W, 1e-3)
        h.forall("edges", {"e%d" % k: (0, N - 1) for k in range(m)}, body)
    return Instance("graphs[%s %s %s->%s nodes=%d edges=%d]" % (cls, s, i, o, n, m), setup, run, timeout=500, cost=cost)


def other_dtype(cls, s, i, o, cost=1.0):
    """converting a layer to double does not disturb the ones built before or after it"""
    def setup():
        g, a, b, c0 = build(cls, s, i, o)
        c1 = build(cls, s, i, o)[3]
        c1.double()
        c2 = build(cls, s, i, o)[3]
        return {"g": g, "a": a, "b": b, "L": [c0, c1, c2]}

    def run(h, o_):
        g, a, b = o_["g"], o_["a"], o_["b"]
        P = np.random.RandomState(0).uniform(-1.2, 1.2, (3, g.dimensionality))
        w = np.random.RandomState(1).randn(len(o_["L"][0].weights))
        x = np.random.RandomState(2).randn(3, a.size)
        ei = torch.tensor([[0, 1, 2], [1, 0, 2]])
        R = []
        for k, c in enumerate(o_["L"]):
            dt = torch.float64 if k == 1 else torch.float32
            with torch.no_grad():
                c.weights.copy_(torch.tensor(w, dtype=c.weights.dtype))
                c.to(dt)
                t = c(GeometricTensor(torch.tensor(x, dtype=dt), a, torch.tensor(P, dtype=dt)), ei).tensor
            R.append(t)
        v = h.val("v", 0.0, 1.0)
        for t in R[1:]:
            h.eq("same output in any precision", [v * float(z) for z in t.reshape(-1)], [v * float(z) for z in R[0].reshape(-1)], 1e-3)
    return Instance("dtype[%s %s %s->%s]" % (cls, s, i, o), setup, run, timeout=100, cost=cost)


def instances():
    A, B = "R2PointConv", "R3PointConv"
    L = []
    for s, ps in [("rot2d:4", ["t,r", "r,r", "i1+t,i1", "b3,t+b2"]), ("rot2d:3", ["i1,r", "t+i1,t+i1"]), ("rot2d:-1", ["t,i1", "i1+t,t+i2", "s3,t"]), ("rot2d:1", ["t,t"]), ("flip2d:0.4", ["r,r+t"]), ("fliprot2d:4", ["i2+t,i4", "r,t"]), ("fliprot2d:3,0.7", ["i2,i2+t"]),
                  ("fliprot2d:-1", ["i2,i2+t", "t+i1,i2"]), ("fliprot2d:-1,0.5", ["i2+t,i2"])]:
        for p in ps:
            L.append(star(A, s, *p.split(",")))
    L += [star(A, "rot2d:4", "i1+i1", "t+t", groups=2), star(A, "rot2d:4", "i1+t+i1+t", "i1+t+i1+t", groups=2), star(A, "fliprot2d:3", "i2+t+i2+t", "i2+i2", groups=2), star(A, "rot2d:4", "r", "i1", delta=True), star(A, "fliprot2d:-1", "i2", "t+i2", delta=True), star(A, "rot2d:4", "r", "r", bias=False),
          star(A, "rot2d:4", "i1", "i1"), star(A, "rot2d:4", "t+t", "i1+r", basis_filter=lambda a: a["radius"] > 0.5), star(A, "rot2d:-1", "t+i1+t", "i1", basis_filter=lambda a: a["irrep:frequency"] == 1)]
    for s, ps in [("rot3d", ["t,i1", "i1,t"]), ("fliprot3d", ["t,i4", "i4,t", "i1,i1"]), ("octa", ["t,i3", "i3,t"]), ("ico", ["t,i1"])]:
        for p in ps:
            L.append(star(B, s, *p.split(","), sym=False, cost=3))
    for s, ps in [("rot2d3:4", ["i1,r", "t+i1,i1"]), ("rot2d3:-1", ["i1,t+i1"]), ("dih3:3,0.4", ["i2+t,i2"]), ("conical:3", ["i2,i2"]), ("mir:0.3", ["r,r"]), ("inv", ["r,t"]), ("cyl:3", ["i2,i3"]), ("rot2d3:3~", ["i1,r"]), ("triv3d", ["t,t"])]:
        for p in ps:
            L.append(star(B, s, *p.split(","), cost=2))
    L += [star(B, "rot2d3:4", "i1+t+i1+t", "t+t", groups=2, cost=2), star(B, "dih3:2", "t+i1", "i2", delta=True, cost=2)]
    for gr in GRAPHS:
        L += [cloud(A, "rot2d:4", "i1+t", "r+i1", gr), cloud(A, "fliprot2d:-1", "i2", "t+i2", gr), cloud(B, "octa", "t+i3", "i3+t", gr, cost=2)]
    L += [cloud(A, "rot2d:4", "i1+t+i1+t", "i1+t+i1+t", "loops", groups=2), cloud(A, "rot2d:4", "i1+t+i1+t", "i1+i1", "chain", groups=2), cloud(A, "rot2d:4", "r+r", "i1+t+i1+t", "chain", groups=2), cloud(B, "rot3d", "i1+t", "i1", "complete", cost=2), cloud(B, "fliprot3d", "i1", "i1+t", "loops", cost=2),
          cloud(B, "rot2d3:4", "i1+t+i1+t", "t+t", "chain", groups=2), cloud(A, "rot2d:4", "r", "r", "chain", bias=False), cloud(A, "fliprot2d:4,0.3", "r", "i2+t", "loops"), cloud(B, "conical:-1", "i2+t", "i2", "chain"), cloud(B, "ico", "t", "i1", "chain", cost=3)]
    L += [graphs(A, "rot2d:2", "i1+t", "t+i1", 2, 3), graphs(A, "rot2d:4", "i1", "t", 3, 2), graphs(A, "rot2d:2", "t+t", "i1+i1", 2, 2, groups=2), graphs(B, "mir:0.0", "t", "r", 2, 3)]
    L += [star(A, "rot2d:4", "c2", "t+c3"), star(A, "fliprot2d:-1", "c3", "c3"), star(B, "dih3:2", "c2", "c2+t", cost=2), cloud(A, "rot2d:4", "c2+t", "c3+i1", "chain")]
    L += [other_dtype(A, "rot2d:4", "r+t", "i1"), other_dtype(B, "octa", "t+i3", "t")]
    return L
