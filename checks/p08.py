"""P08 nonlinearities, invariant maps, gates, tensor products and dropout commute with the fiber action"""
from .common import *

EXPLANATION = ("Each instance executes the real module symbolically on an arbitrary input x and on rho_in(g)x for generators g of the group "
               "(a dense subgroup for continuous groups; the group acting on the sampling grid for Fourier nonlinearities) with arbitrary "
               "parameters, and asks z3 for values with |f(rho_in(g) x) - rho_out(g) f(x)| > 1e-3. relu/max/abs/indicator atoms are "
               "encoded exactly (piecewise linear), exp/sigmoid/tanh/sqrt/1/x as hash-consed uninterpreted functions.")
ASSUMPTIONS = ["floats are modelled as reals; coefficients closer than 5e-6 are identified",
               "inputs and parameters range over [-1,1]; vectors whose norm is divided by are not (numerically) zero; ties in argmax excluded",
               "equivariance under generators extends to the group because rho is a homomorphism (P02) and the module is the same function"]


# --------------------------------------------------------------------------------------------- what representations declare
def declared(s, level):
    """a representation declares the pointwise, norm, gate and induced nonlinearities only if its matrices commute with them"""
    from .p01 import group_of
    from .p02 import reps, quotients, rnd_cob, tab, mm
    from .elems import el

    def setup():
        g = group_of(s)
        R = {}
        if level == "more":
            t = g.trivial_representation
            irr = [r for r in g.irreps() if r.size <= 3][:4]
            A = [t, t] + irr[-1:]
            R["trivials"] = G.directsum([t, t], name="p08t2")
            R["trivials, random basis"] = G.directsum([t, t], change_of_basis=rnd_cob(2, 5), name="p08t2c")
            R["sum, random basis"] = G.directsum(A, change_of_basis=rnd_cob(sum(r.size for r in A), 6), name="p08sc")
            Q = np.linalg.qr(rnd_cob(sum(r.size for r in A), 6))[0]
            R["sum, rotated basis"] = G.directsum(A, change_of_basis=Q, name="p08sq")
            R["trivials, rotated basis"] = G.directsum([t, t], change_of_basis=np.linalg.qr(rnd_cob(2, 5))[0], name="p08t2q")
            R["changed basis"] = G.change_basis(irr[-1], rnd_cob(irr[-1].size, 4), name="p08cb")
            R["changed basis + trivial"] = R["changed basis"] + t
            R["changed basis x irrep"] = R["changed basis"].tensor(t)
            R["irrep x changed basis"] = t.tensor(R["changed basis"])
            if not g.continuous and g.order() <= 12:
                r = g.regular_representation
                R["regular x regular"] = r.tensor(r) if g.order() <= 6 else r
                R["regular x irrep"] = r.tensor(irr[-1])
                R["irrep x regular"] = irr[-1].tensor(r)
                R["regular + irrep"] = r + irr[-1]
                R["regular + trivial"] = r + t
                R["regular, random basis"] = G.directsum([r], change_of_basis=rnd_cob(r.size, 9), name="p08rc")
                R["regular, rotated basis"] = G.directsum([r], change_of_basis=np.linalg.qr(rnd_cob(r.size, 9))[0], name="p08rq")
                for k in range(min(2, len(g.irreps()))):
                    R["spectral regular %d" % k] = g.spectral_regular_representation(*[r_.id for r_ in g.irreps()[k:k + 2]])
                for k, p_ in enumerate(G.disentangle(G.directsum([r, t, irr[-1]], change_of_basis=np.eye(r.size + 1 + irr[-1].size)[::-1].copy(), name="p08dp"))[1]):
                    R["disentangled %d" % k] = p_
        else:
            R = {k: v[0] for k, v in (quotients(g, s) if level == "quotients" else reps(g, s, level)).items()}
        if g.continuous:
            R = {k: r for k, r in R.items() if r.size <= 12}
        return g, R

    def run(h, o):
        g, R = o
        fin = not g.continuous
        E = None if fin else el(g)
        if fin:
            els = list(g.elements)
            u = h.pick("g", len(els))
        for name, rho in R.items():
            S, d = rho.supported_nonlinearities, rho.size
            blocks = sorted({int(x.split("_")[-1]) for x in S if x.startswith(("induced_norm", "induced_gated"))})
            if fin:
                T = np.stack([np.asarray(rho(x), dtype=float) for x in els])
                if "pointwise" in S or "induced_gate" in S:
                    h.eq("%s: pointwise needs a permutation" % name, tab(h, u, T * (1 - T)), np.zeros((d, d)), 1e-5)
                if "norm" in S or "pointwise" in S or "induced_gate" in S:
                    h.eq("%s: norm needs an orthogonal matrix" % name, tab(h, u, np.einsum("gij,gkj->gik", T, T)), np.eye(d), 1e-5)
                if "gate" in S:
                    h.eq("%s: gates are invariant" % name, tab(h, u, T), np.eye(d), 1e-5)
                for k in blocks:
                    h.true("%s: blocks of %d" % (name, k), d % k == 0)
                    B = T.reshape(len(els), d // k, k, d // k, k)
                    n2 = np.einsum("gabcd,gabcd->gac", B, B) / k
                    h.eq("%s: induced norms need blocks" % name, tab(h, u, n2 * (1 - n2)), np.zeros((d // k, d // k)), 1e-5)
                    BB = np.einsum("gabcd,gaecd->gabec", B, B) - np.einsum("gac,be->gabec", n2, np.eye(k))
                    h.eq("%s: induced norms need orthogonal blocks" % name, tab(h, u, BB.reshape(len(els), -1)), np.zeros(BB[0].size), 1e-5)
            elif S & {"pointwise", "norm", "gate", "induced_gate"}:
                def body(v, rho=rho, S=S, d=d, name=name):
                    M = np.asarray(rho(g.element(E.get(h, v, "a"))))
                    if "pointwise" in S or "induced_gate" in S:
                        h.eq("%s: pointwise needs a permutation" % name, np.array([[x * (1.0 - x) for x in r] for r in M], dtype=object), np.zeros((d, d)), 1e-5)
                    if "norm" in S or "pointwise" in S or "induced_gate" in S:
                        h.eq("%s: norm needs an orthogonal matrix" % name, mm(M, M.T), np.eye(d), 1e-5)
                    if "gate" in S:
                        h.eq("%s: gates are invariant" % name, M, np.eye(d), 1e-5)
                h.paths(name, E.dims("a"), body)
            h.true("%s: size" % name, d == len(np.asarray(rho(g.identity))))
    return Instance("declared[%s %s]" % (s, level), setup, run, timeout=300, cost=2)


def inst(name, build, shape=(), elements=None, batch=1, lo=-1.0, hi=1.0, cost=1.0, train=True, eps=1e-3):
    el = elements or (lambda m: generators(m.in_type.fibergroup))
    return Instance(name, build, equivariance(None, shape, el, spatial=False, batch=batch, lo=lo, hi=hi, train=train, eps=eps), cost=cost)


def simple(cls, spec, reps, shape=(), cost=1.0, batch=1, **kw):
    def build():
        sp = gs(spec)
        return getattr(nn, cls)(ftype(sp, reps), **kw)
    return inst("%s[%s %s %s %s]" % (cls, spec, reps, "x".join(map(str, shape)), ",".join("%s=%s" % (k, v if not callable(v) else v.__name__) for k, v in sorted(kw.items()))),
                build, shape, cost=cost, batch=batch)


def fourier(cls, spec, F, ch, gel, cost=1.0, shape=(), out=None, sub=None, irreps=None, **kw):
    def build():
        sp = gs(spec)
        Gp = sp.fibergroup
        irr = irreps if irreps is not None else Gp.bl_irreps(F)
        k2 = dict(kw)
        if out is not None:
            k2["out_irreps"] = Gp.bl_irreps(out)
        if "grid" in k2 and callable(k2["grid"]):
            k2["grid"] = k2["grid"](Gp)
        if sub is not None:
            return getattr(nn, cls)(sp, sub, ch, irr, **k2)
        return getattr(nn, cls)(sp, ch, irr, **k2)
    return inst("%s[%s F=%s out=%s ch=%d sub=%s %s %s]" % (cls, spec, F, out, ch, sub, ",".join("%s=%s" % t for t in sorted(kw.items()) if not callable(t[1])), "x".join(map(str, shape))), build, shape,
                elements=lambda m: gel(m.in_type.fibergroup), cost=cost)


def gated2(spec, feats, gates, shape=(), **kw):
    def build():
        sp = gs(spec)
        return nn.GatedNonLinearity2((ftype(sp, gates), ftype(sp, feats)), **kw)

    def run(h, m):
        h.free(m)
        x = h.array("x", (1, m.in_type[1].size) + shape)
        g_ = h.array("g", (1, m.in_type[0].size) + shape)
        y = m(geo(h, g_, m.in_type[0]), geo(h, x, m.in_type[1]))
        h.true("output type", y.type == m.out_type)
        ya = to_obj(h, y.tensor)
        for k, g in enumerate(generators(m.out_type.fibergroup)):
            gy = m(geo(h, act(m.in_type[0], g, g_, False), m.in_type[0]), geo(h, act(m.in_type[1], g, x, False), m.in_type[1]))
            h.eq("g%d" % k, gy.tensor, act(m.out_type, g, ya, False))
    return Instance("GatedNonLinearity2[%s %s gates %s %s %s]" % (spec, feats, gates, kw, shape), build, run)


def tensorprod(spec, i, o, cost=1.0, shape=(), cls="TensorProductModule"):
    def build():
        sp = gs(spec)
        return nn.TensorProductModule(ftype(sp, i), ftype(sp, o), initialize=False)
    return inst("TensorProductModule[%s %s->%s %s]" % (spec, i, o, shape), build, shape, cost=cost)


def field_dropout(spec, reps, shape, inplace=False):
    """a whole field is kept (rescaled) or dropped: the output is m_f * x_f with one scalar m_f in {0, 1/(1-p)} per sample and field"""
    def build():
        return nn.FieldDropout(ftype(gs(spec), reps), p=0.25, inplace=inplace)

    def run(h, m):
        m.train(True)
        b = 2
        x = h.array("x", (b, m.in_type.size) + shape)
        y = to_obj(h, m(geo(h, x, m.in_type)).tensor)
        for n in range(b):
            p = 0
            for f, r in enumerate(m.in_type.representations):
                # cross ratios: y_i * x_j == y_j * x_i inside the fiber of a field
                xx = x[n, p:p + r.size].reshape(r.size, -1)
                yy = y[n, p:p + r.size].reshape(r.size, -1)
                for q in range(xx.shape[1]):
                    xs, ys = xx[:, q], yy[:, q]
                    for k in range(1, len(xs)):
                        h.eq("ratio%d.%d" % (n, f), np.array(ys[0] * xs[k], dtype=object), np.array(ys[k] * xs[0], dtype=object))
                    # the scalar is 0 or 1/(1-p)
                    h.eq("scale%d.%d" % (n, f), np.array(ys[0] * (ys[0] - xs[0] * (1 / 0.75)), dtype=object), np.array(0.0, dtype=object))
                p += r.size
        m.train(False)
        z = m(geo(h, x, m.in_type)).tensor
        h.eq("eval is identity", z, h.wrap(x))
    return Instance("FieldDropout[%s %s %s inplace=%s]" % (spec, reps, shape, inplace), build, run)


def pw_dropout(spec, reps, shape):
    def build():
        return nn.PointwiseDropout(ftype(gs(spec), reps), p=0.25)

    def run(h, m):
        m.train(True)
        x = h.array("x", (1, m.in_type.size) + shape)
        y = to_obj(h, m(geo(h, x, m.in_type)).tensor)
        ys, xs = y.reshape(-1), x.reshape(-1)
        for k in range(len(xs)):
            h.eq("scale", np.array(ys[k] * (ys[k] - xs[k] * (1 / 0.75)), dtype=object), np.array(0.0, dtype=object))
        m.train(False)
        h.eq("eval is identity", m(geo(h, x, m.in_type)).tensor, h.wrap(x))
    return Instance("PointwiseDropout[%s %s %s]" % (spec, reps, shape), build, run)


def so2g(N):
    return lambda Gp: [Gp.element(2 * np.pi / N)]


def o2g(N):
    return lambda Gp: [Gp.element((0, 2 * np.pi / N)), Gp.element((1, 0.0))]


def gridgen(**kw):
    """generators of the group formed by a grid of SO(3)/O(3)"""
    def f(Gp):
        g = Gp.grid(**kw)
        return [e for e in g if e != Gp.identity][:3]
    return f


def instances():
    L = []
    S2, S3 = (1, 2), (1, 1, 2)
    # pointwise ------------------------------------------------------------------
    for cls in ("ReLU", "ELU", "LeakyReLU"):
        L += [simple(cls, "rot2d:4", "r+t+q2+r", S2), simple(cls, "fliprot2d:3", "r+qn,3+t", S2), simple(cls, "r0:D4", "r+t"),
              simple(cls, "rot2d:4", "r+t", S2, inplace=True)]
    L += [simple("ELU", "r0:C3", "r+t", alpha=0.5), simple("LeakyReLU", "r0:C3", "r+t", negative_slope=0.2), simple("ReLU", "octa", "t+r", S3, cost=3),
          simple("ELU", "r0:C3", "r+t", alpha=0.5, inplace=True), simple("LeakyReLU", "r0:C3", "r", negative_slope=0.2, inplace=True)]
    for f in ("p_relu", "p_sigmoid", "p_tanh", "p_elu"):
        L.append(simple("PointwiseNonLinearity", "rot2d:4", "r+q2+t", S2, function=f))
    L += [simple("PointwiseNonLinearity", "r0:C2", "i1+i1", function="p_tanh") if False else simple("PointwiseNonLinearity", "r0:D4", "q0,2+t", function="p_relu")]
    # concatenated ---------------------------------------------------------------
    L += [simple("ConcatenatedNonLinearity", "rot2d:4", "i2+r+t", S2), simple("ConcatenatedNonLinearity", "fliprot2d:4", "i1+r+i3+i4", S2),
          simple("ConcatenatedNonLinearity", "r0:C2", "i1+i1+t"), simple("ConcatenatedNonLinearity", "r0:D2", "i1+i3+r"),
          simple("ConcatenatedNonLinearity", "r0:C2", "i1+r+t", function="c_sigmoid"), simple("ConcatenatedNonLinearity", "r0:C4", "i2+r+t", function="c_tanh"), simple("ConcatenatedNonLinearity", "r0:C4", "i2+q2+r", batch=2)]
    # norm -----------------------------------------------------------------------
    for f in ("n_relu", "n_sigmoid", "squash", "n_softplus"):
        for b in (True, False):
            if f == "squash" and b:
                continue
            L.append(simple("NormNonLinearity", "rot2d:4", "i1+r+t+i2+i1", S2, function=f, bias=b))
    L += [simple("NormNonLinearity", "r0:SO2", "i1+i2+t+s3"), simple("NormNonLinearity", "r0:O3", "i1+i3+i2"), simple("NormNonLinearity", "r0:SO3", "i1+t+i1"),
          simple("NormNonLinearity", "fliprot2d:3", "i2+r+b3", S2), simple("NormNonLinearity", "octa", "i1+i2", S3, cost=2), simple("NormNonLinearity", "r0:D4", "r+i4+i1+i4", batch=2)]
    # induced norm ----------------------------------------------------------------
    for f in ("n_relu", "n_sigmoid"):
        L.append(simple("InducedNormNonLinearity", "fliprot2d:4", "vn,4/1+vn,4/1+vn,2/1", S2, function=f))
    L += [simple("InducedNormNonLinearity", "fliprot2d:4", "vn,4/1+vn,4/1+vn,2/1", S2, function="squash", bias=False)]
    L += [simple("InducedNormNonLinearity", "rot2d:4", "v2/1+v1/0+v2/1", S2), simple("InducedNormNonLinearity", "fliprot2d:3", "vn,3/1+vn,3/1", S2, bias=False),
          simple("InducedNormNonLinearity", "r0:D3", "v0,1/1+vn,3/1")]
    # invariant maps --------------------------------------------------------------
    L += [simple("NormPool", "rot2d:4", "i1+r+t+i2+i1", S2), simple("NormPool", "fliprot2d:3", "i2+b3+r", S2), simple("NormPool", "r0:SO3", "i1+i2+t"), simple("NormPool", "octa", "i1+i3", S3),
          simple("GroupPooling", "rot2d:4", "r+q2+t+r", S2), simple("GroupPooling", "fliprot2d:3", "r+qn,3+r", S2), simple("GroupPooling", "r0:D4", "r+q0,2"), simple("GroupPooling", "octa", "r", S3, cost=2),
          simple("GroupPooling", "rot2d:8", "r+r", S2),
          simple("InducedNormPool", "fliprot2d:4", "vn,4/1+vn,4/1+vn,2/1", S2), simple("InducedNormPool", "rot2d:4", "v2/1+v1/0+v2/1", S2), simple("InducedNormPool", "r0:D3", "v0,1/1+vn,3/1")]
    # gated -----------------------------------------------------------------------
    L += [simple("GatedNonLinearity1", "rot2d:4", "t+t+i1+r", S2), simple("GatedNonLinearity1", "fliprot2d:3", "t+t+i2+i1", S2), simple("GatedNonLinearity1", "r0:SO3", "t+t+i1+i2"),
          simple("GatedNonLinearity1", "rot2d:4", "i1+t+r+t", S2, gates=["gated", "gate", "gated", "gate"]),
          simple("GatedNonLinearity1", "rot2d:4", "i1+t+i1+t", S2, gates=["gated", "gate", "gated", "gate"], drop_gates=False),
          simple("GatedNonLinearity1", "rot2d:4", "t+t+t+i1+r+t", S2, drop_gates=False),
          simple("GatedNonLinearity1", "rot2d:4", "t+i1+t+i1+t+i2", S2, gates=["gate", "gated", "gate", "gated", "gate", "gated"]),
          simple("GatedNonLinearity1", "octa", "t+t+i1+i2", S3),
          gated2("rot2d:4", "i1+r", "t+t", S2), gated2("r0:SO3", "i1+i2", "t+t"), gated2("fliprot2d:3", "i2+t+i1", "t+t+t", S2), gated2("octa", "i1+i2", "t+t", S3),
          gated2("rot2d:4", "i1+r+i1+t+r", "t+t+t+t+t", S2), gated2("r0:D3", "t+i2+t+i2", "t+t+t+t")]
    def uniform(spec, k, ch, shape=(), gate=torch.sigmoid):
        def build():
            sp = gs(spec)
            Gp = sp.fibergroup
            irr = [irreps_of(Gp)[i] for i in k]
            rho = G.directsum([Gp.trivial_representation] * len(irr) + irr, name="gu%s" % "".join(map(str, k)))
            return nn.GatedNonLinearityUniform(FieldType(sp, [rho] * ch), gate=gate)
        return inst("GatedNonLinearityUniform[%s %s ch=%d %s %s]" % (spec, k, ch, shape, gate.__name__), build, shape)
    L += [uniform("rot2d:4", [1, 2], 2, S2), uniform("r0:SO3", [1, 2], 2), uniform("fliprot2d:3", [2, 0, 2], 2, S2), uniform("r0:O2", [1, 2, 2, 0], 1, gate=torch.tanh), uniform("octa", [1, 1], 2, S3)]
    # induced gates: v<sg>/k gated by the quotient representation
    def igated(spec, sg, k, shape=(), **kw):
        def build():
            sp = gs(spec)
            Gp = sp.fibergroup
            H_, _, _ = Gp.subgroup(sg)
            ind = Gp.induced_representation(sg, irreps_of(H_)[k])
            q = Gp.induced_representation(sg, H_.trivial_representation) if False else Gp.quotient_representation(sg)
            return nn.InducedGatedNonLinearity1(FieldType(sp, [q, q, ind, ind]) if "gates" not in kw else FieldType(sp, [q, ind, q, ind]), **kw)
        return inst("InducedGatedNonLinearity1[%s %s/%d %s %s]" % (spec, sg, k, shape, kw), build, shape)
    L += [igated("fliprot2d:4", (None, 4), 1, S2), igated("rot2d:4", 2, 1, S2), igated("r0:D3", (None, 3), 1),
          igated("fliprot2d:3", (None, 3), 1, S2, gates=["gate", "gated", "gate", "gated"]),
          igated("fliprot2d:4", (None, 4), 1, S2, drop_gates=False), igated("fliprot2d:4", (None, 4), 1, S2, drop_gates=False, gates=["gate", "gated", "gate", "gated"])]
    # vector field -----------------------------------------------------------------
    L += [simple("VectorFieldNonLinearity", "rot2d:%d" % n, "r+r", S2) for n in (3, 4, 5, 8)]
    L += [simple("VectorFieldNonLinearity", "rot2d:2", "r+r", S2)]
    # tensor products --------------------------------------------------------------
    L += [tensorprod("r0:C4", "i1+i1", "r+r"), tensorprod("r0:C3", "r", "r"), tensorprod("rot2d:4", "i1+i1", "i2+i2", shape=(1, 2)), tensorprod("r0:SO3", "i1+i1", "i2+i2", cost=2),
          tensorprod("r0:D3", "i2+i2", "r+r"), tensorprod("r0:SO2", "s2+s2", "s3+s3"), tensorprod("r0:O3", "i4", "i2"), tensorprod("r0:SO3", "s2", "s2", cost=2), tensorprod("octa", "i1", "i2", shape=(1, 1, 1))]
    # Fourier ----------------------------------------------------------------------
    for f in ("p_relu", "p_elu", "p_sigmoid", "p_tanh"):
        L.append(fourier("FourierPointwise", "r0:SO2", 2, 2, so2g(6), function=f, type="regular", N=6))
    L += [
        fourier("FourierPointwise", "r0:SO2", 1, 1, so2g(5), function="p_relu", inplace=False, type="regular", N=5),
        fourier("FourierPointwise", "r0:SO2", 1, 1, so2g(7), out=2, type="regular", N=7),
        fourier("FourierPointwise", "r0:SO2", 2, 1, so2g(7), out=1, type="regular", N=7, normalize=False),
        fourier("FourierELU", "rot2d:-1", 2, 1, so2g(6), shape=S2, type="regular", N=6),
        fourier("FourierELU", "r0:O2", 1, 2, o2g(4), type="regular", N=8),
        fourier("FourierPointwise", "fliprot2d:-1", 1, 1, o2g(4), shape=S2, type="regular", N=8, irreps=[(0, 0), (1, 0), (1, 1)]),
        fourier("FourierPointwise", "r0:C6", None, 1, lambda Gp: [Gp.element(1)], irreps=[(0,), (1,), (2,), (3,)], type="regular", N=6),
        fourier("FourierPointwise", "r0:C5", None, 2, lambda Gp: [Gp.element(1)], irreps=[(0,), (1,)], type="regular", N=5),
        fourier("FourierPointwise", "r0:SO3", 1, 1, gridgen(type="cube"), type="cube", cost=2),
        fourier("FourierELU", "r0:SO3", 1, 1, gridgen(type="cube"), type="cube", out=0, cost=2),
        fourier("FourierPointwise", "r0:SO3", 1, 1, gridgen(type="ico"), type="ico", cost=3),
        fourier("FourierPointwise", "r0:O3", 1, 1, gridgen(type="cube"), type="cube", cost=3),
        fourier("QuotientFourierPointwise", "r0:SO2", 4, 1, so2g(12), sub=2, grid=lambda Gp: Gp.grid(12), irreps=[(0,), (2,)]),
        fourier("QuotientFourierELU", "r0:SO2", 3, 2, so2g(12), sub=3, grid=lambda Gp: Gp.grid(12)),
        fourier("QuotientFourierPointwise", "r0:SO3", 1, 1, gridgen(type="cube"), sub=(False, -1), cost=3, grid=lambda Gp: Gp.grid(type="cube")),
        fourier("QuotientFourierELU", "r0:SO3", 2, 1, gridgen(type="cube"), sub=(False, -1), cost=3, grid=lambda Gp: Gp.grid(type="cube"), out=1),
    ]
    for f in ("p_relu", "p_sigmoid", "p_tanh"):
        for inplace in (False, True):
            L.append(fourier("QuotientFourierPointwise", "r0:SO2", 4, 2, so2g(6), sub=2, function=f, inplace=inplace, type="regular", N=6, irreps=[(0,), (2,)]))
    L += [fourier("QuotientFourierPointwise", "r0:O2", 2, 1, o2g(4), sub=(0., 1), type="regular", N=8), fourier("QuotientFourierELU", "rot2d:-1", 2, 1, so2g(8), shape=S2, sub=2, type="regular", N=8, out=4, normalize=False),
          fourier("FourierPointwise", "r0:SO2", 1, 1, so2g(5), function="p_tanh", inplace=False, type="regular", N=5), fourier("FourierPointwise", "r0:SO2", 1, 1, so2g(5), function="p_sigmoid", inplace=False, type="regular", N=5)]
    # what the constructors trust: the nonlinearities a representation declares
    for g in ("SO2", "O2", "SO3", "O3", "CylO2", "C1", "C2", "C3", "C4", "C6", "D1", "D2", "D3", "D4", "D6", "O", "K3", "XC2*C3", "XC3*C3", "XD2*C2") + (("C8", "D5", "D8", "I", "XC4*D4", "WC3") if THOROUGH else ()):
        for lv in ("irreps", "big", "more") + (("sum", "tensor", "disentangle") if g != "C1" else ()):
            L.append(declared(g, lv))
    for g in ("C4", "C6", "D2", "D3", "D4", "D6", "O"):
        L.append(declared(g, "quotients"))
    # dropout -----------------------------------------------------------------------
    L += [field_dropout("rot2d:4", "r+i1+t", S2), field_dropout("rot2d:4", "i1+t+i1+r", S2), field_dropout("fliprot2d:3", "r+r", S2), field_dropout("r0:SO3", "i1+t+i2", ()),
          field_dropout("octa", "i1+i1", S3), field_dropout("rot2d:4", "i1+i1", S2, inplace=True), field_dropout("rot2d:4", "i1+t+i1+r", S2, inplace=True),
          pw_dropout("rot2d:4", "r+t", S2), pw_dropout("r0:D3", "r", ())]
    if THOROUGH:
        for n in (2, 3, 5, 6, 7, 8, 9, 12):
            L += [simple("NormNonLinearity", "r0:C%d" % n, "r+s3+i1"), simple("NormPool", "r0:C%d" % n, "r+s2+i1"), simple("GroupPooling", "r0:C%d" % n, "r+r"),
                  simple("ReLU", "r0:C%d" % n, "r+t"), simple("NormNonLinearity", "r0:D%d" % n, "i2+s3+r", cost=n), simple("GroupPooling", "r0:D%d" % n, "r+qn,1", cost=n),
                  fourier("FourierPointwise", "r0:SO2", 2, 1, so2g(n + 5), type="regular", N=n + 5), fourier("FourierELU", "r0:O2", 2, 1, o2g(n + 5), type="regular", N=2 * (n + 5)),
                  tensorprod("r0:C%d" % n, "s2", "r"), uniform("r0:D%d" % n, [1, 2], 2), uniform("r0:C%d" % n, [1, 1], 2, gate=torch.tanh)]
        for g in ("SO3", "O3", "SO2", "O2", "I", "O", "F2", "K3"):
            L += [simple("NormNonLinearity", "r0:" + g, "i1+i2+s3", cost=5), simple("NormPool", "r0:" + g, "i1+i2+s3", cost=5), simple("GatedNonLinearity1", "r0:" + g, "t+t+i1+i2", cost=5),
                  tensorprod("r0:" + g, "s2", "s2", cost=8)]
    seen, R = set(), []
    for x in L:
        if x.name not in seen:
            seen.add(x.name)
            R.append(x)
    return R
