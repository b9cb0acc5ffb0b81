"""P15 evaluate_output_shape predicts the shape forward produces"""
from .common import *
from symx.shapes import ShapeInst

EXPLANATION = ("Each instance builds the real module; forward() runs on fake tensors with symbolic batch and spatial sizes (torch's symbolic shape engine, every branch on "
               "a size is a path condition, all regions of the size box are covered) and evaluate_output_shape() runs on z3-backed integers; z3 is asked for sizes "
               "in the box for which the two shapes differ, and a model is replayed with real tensors.")
ASSUMPTIONS = ["sizes for which forward itself raises are outside the property", "torch's meta kernels describe the real kernels' output sizes (validated at one real point per path)",
               "layer hyper-parameters are the enumerated ones; sizes range over the box in the instance"]


def shp(name, build, space=2, lo=1, hi=24, batch=(1, 4), one=False, cost=1.0, reps=None, limit=400):
    dims = {"b": batch}
    axes = []
    for k in range(space):
        if one and k != one - 1:
            axes.append(5)
        else:
            dims["s%d" % k] = (lo, hi)
            axes.append("s%d" % k)

    def it(m):
        return m.in_type

    def call(m, make):
        t = it(m)
        x = make(["b", t.size] + axes)
        return m(GeometricTensor(x, t)).tensor.shape

    def real(m, v):
        t = it(m)
        x = torch.zeros([v["b"], t.size] + [v[a] if isinstance(a, str) else a for a in axes])
        return m(GeometricTensor(x, t)).tensor.shape

    def predict(m, v):
        return m.evaluate_output_shape((v["b"], m.in_type.size) + tuple(v[a] if isinstance(a, str) else a for a in axes))
    return ShapeInst(name, build, call, predict, dims, real, cost, limit=limit)


def mod(cls, spec, reps, space, hi=24, lo=1, one=False, limit=400, bmin=1, bmax=4, **kw):
    def build():
        return getattr(nn, cls)(ftype(gs(spec), reps), **kw)
    return shp("%s[%s %s %s%s]" % (cls, spec, reps, ",".join("%s=%s" % t for t in sorted(kw.items())), " axis %d" % one if one else ""), build, space, lo=lo, hi=hi, one=one, limit=limit, batch=(bmin, bmax))


def conv(cls, spec, i, o, k, space, hi=24, **kw):
    def build():
        sp = gs(spec)
        return getattr(nn, cls)(ftype(sp, i), ftype(sp, o), k, initialize=False, **kw)
    return shp("%s[%s %s->%s k=%d %s]" % (cls, spec, i, o, k, ",".join("%s=%s" % t for t in sorted(kw.items()))), build, space, hi=hi)


def instances():
    L = []
    r4 = "rot2d:4"
    import itertools
    for k, s, p, d in itertools.product((1, 3, 5), (1, 2, 3), (0, 1, 2), (1, 2)):
        if (k == 1 and d > 1) or (not THOROUGH and (k + s + p + d) % 2 and k > 1):
            continue
        L.append(conv("R2Conv", r4, "t", "r+t", k, 2, padding=p, stride=s, dilation=d))
    for pm in ("reflect", "replicate", "circular"):
        L.append(conv("R2Conv", r4, "t", "r", 3, 2, padding=1, stride=2, padding_mode=pm, hi=16))
    L += [conv("R2Conv", r4, "2*t", "2*i1", 3, 2, padding=1, groups=2), conv("R2Conv", "fliprot2d:-1", "t+i1", "i2", 5, 2, stride=2)]
    for k, s, p, op, d in [(3, 1, 0, 0, 1), (3, 2, 1, 1, 1), (3, 2, 0, 0, 1), (4, 2, 1, 0, 1), (3, 3, 1, 2, 2), (5, 2, 0, 1, 1), (5, 1, 2, 0, 2)]:
        L.append(conv("R2ConvTransposed", r4, "t", "r+t", k, 2, padding=p, stride=s, output_padding=op, dilation=d))
    for k, s, p, d in [(3, 1, 0, 1), (3, 2, 1, 1), (1, 2, 0, 1), (3, 3, 2, 2), (5, 2, 1, 1)]:
        L.append(conv("R3Conv", "octa", "t", "t+i1", k, 3, hi=12, padding=p, stride=s, dilation=d))
    for k, s, p, op in [(3, 1, 0, 0), (3, 2, 1, 1), (5, 2, 0, 0)]:
        L.append(conv("R3ConvTransposed", "octa", "t", "t+i1", k, 3, hi=12, padding=p, stride=s, output_padding=op))
    # pooling
    for k, s, p, c in itertools.product((2, 3, (2, 3)), (None, 1, 2, 3, (2, 1)), (0, 1), (False, True)):
        L.append(mod("PointwiseMaxPool2D", r4, "r", 2, hi=16, kernel_size=k, stride=s, padding=p, ceil_mode=c))
        L.append(mod("PointwiseAvgPool2D", r4, "r+i1", 2, hi=16, kernel_size=k, stride=s, padding=p, ceil_mode=c))
        if THOROUGH or (p, k) == (1, 3) or (s == 2 and k != (2, 3)):
            for one in (1, 2):
                L.append(mod("NormMaxPool", r4, "r+i1", 2, hi=9, bmin=2, bmax=2, one=one, kernel_size=k, stride=s, padding=p, ceil_mode=c))
    L += [mod("PointwiseMaxPool2D", r4, "r", 2, hi=16, kernel_size=k, stride=s, padding=p, dilation=d, ceil_mode=c) for k, s, p, d, c in [(2, 1, 0, 2, False), (3, 2, 1, 2, True), (2, 3, 1, 3, False), (3, 1, 0, (1, 2), True)]]
    L += [mod("NormMaxPool", r4, "i1", 2, hi=9, bmin=2, bmax=2, one=1, kernel_size=k, stride=s, padding=p, dilation=d) for k, s, p, d in [(2, 1, 0, 2), (3, 2, 1, 2)]]
    for k, s, p, c in [(2, None, 0, False), (3, 2, 1, False), (2, 2, 0, True), (3, 2, 1, True), ((2, 3, 1), (1, 2, 2), 0, False)]:
        L.append(mod("PointwiseMaxPool3D", "octa", "t", 3, hi=10, kernel_size=k, stride=s, padding=p, ceil_mode=c))
        L.append(mod("PointwiseAvgPool3D", "octa", "t+i1", 3, hi=10, kernel_size=k, stride=s, padding=p, ceil_mode=c))
    for k, s, p, c in [(3, 2, 0, False), (3, 2, 1, False), (2, 2, 0, False), (3, 1, 1, False), (3, 2, 0, True), (3, 2, 1, True)]:
        L.append(mod("PointwiseMaxPoolAntialiased2D", r4, "r", 2, hi=16, kernel_size=k, stride=s, padding=p, ceil_mode=c))
        L.append(mod("PointwiseMaxPoolAntialiased3D", "octa", "t", 3, hi=10, kernel_size=k, stride=s, padding=p, ceil_mode=c))
    for sg, s, p in [(0.6, 2, None), (0.6, 1, 0), (1.0, 3, 1), (0.4, 2, 0)]:
        L.append(mod("PointwiseAvgPoolAntialiased2D", r4, "r+i1", 2, hi=20, sigma=sg, stride=s, padding=p))
        L.append(mod("PointwiseAvgPoolAntialiased3D", "octa", "t", 3, hi=12, sigma=sg, stride=s, padding=p))
    for o in (1, 3, (2, 3)):
        L += [mod("PointwiseAdaptiveMaxPool2D", r4, "r", 2, hi=16, output_size=o), mod("PointwiseAdaptiveAvgPool2D", r4, "r", 2, hi=16, output_size=o)]
    for o in (1, (2, 3, 1)):
        L += [mod("PointwiseAdaptiveMaxPool3D", "octa", "t", 3, hi=8, output_size=o), mod("PointwiseAdaptiveAvgPool3D", "octa", "t", 3, hi=8, output_size=o)]
    # upsampling: torch specialises sizes, so every size is its own path
    for kw in [dict(scale_factor=2), dict(scale_factor=3), dict(scale_factor=1.5), dict(scale_factor=2, mode="nearest"), dict(size=(5, 4)), dict(size=6), dict(scale_factor=2, align_corners=True), dict(scale_factor=1.3)]:
        L.append(mod("R2Upsampling", r4, "r", 2, hi=9, lo=2, bmax=2, limit=700, **kw))
    for kw in [dict(scale_factor=2), dict(scale_factor=1.5), dict(size=(5, 4, 3)), dict(scale_factor=2, mode="nearest")]:
        L.append(mod("R3Upsampling", "octa", "t", 3, hi=4, lo=2, bmax=2, **kw))
    # shape preserving modules
    for spec, sp_ in ((r4, 2), ("octa", 3), ("r0:C4", 0), ("r0:D3", 0)):
        kw = dict(hi=8)
        reps = "r+t" if spec != "octa" else "t+t"
        for cls in ("ReLU", "ELU", "LeakyReLU", "NormNonLinearity", "InnerBatchNorm", "PointwiseDropout", "FieldDropout", "IdentityModule", "NormPool", "PointwiseNonLinearity", "FieldNorm", "GNormBatchNorm"):
            L.append(mod(cls, spec, reps, sp_, **kw))
        if spec != "octa":
            L.append(mod("GroupPooling", spec, "r+r", sp_, **kw))
        L.append(mod("NormBatchNorm", spec, "i1+i1", sp_, **kw))
        L.append(mod({0: "IIDBatchNorm1d", 2: "IIDBatchNorm2d", 3: "IIDBatchNorm3d"}[sp_], spec, reps, sp_, **kw))
        L.append(shp("GatedNonLinearity1[%s]" % spec, lambda spec=spec: _gated(spec), sp_, hi=8))
        L.append(shp("ReshuffleModule[%s]" % spec, lambda spec=spec: nn.ReshuffleModule(ftype(gs(spec), "t+i1+t"), [1, 0, 2]), sp_, hi=8))
        L.append(shp("DisentangleModule[%s]" % spec, lambda spec=spec: nn.DisentangleModule(ftype(gs(spec), reps)), sp_, hi=8))
    L += [mod("VectorFieldNonLinearity", "rot2d:8", "r+r", 2, hi=8), mod("MaskModule", r4, "r", 2, S=7, lo=7, hi=7), shp("RestrictionModule", lambda: nn.RestrictionModule(ftype(gs("rot2d:8"), "r+i1"), 4), 2, hi=8)]
    for i, o in (("r", "r+t"), ("i1+t", "i1")):
        def lin(i=i, o=o):
            sp = gs("r0:D3")
            return nn.Linear(ftype(sp, i), ftype(sp, o), initialize=False)
        L.append(shp("Linear[%s->%s]" % (i, o), lin, 0))
    def four():
        sp = gs("r0:SO2")
        return nn.FourierPointwise(sp, 2, sp.fibergroup.bl_irreps(2), N=8, type="regular")
    def fourE():
        sp = gs("rot2d:-1")
        return nn.FourierELU(sp, 2, sp.fibergroup.bl_irreps(2), N=8, type="regular")
    def qf():
        sp = gs("rot3d")
        return nn.QuotientFourierPointwise(sp, (False, -1), 2, sp.fibergroup.bl_sphere_representation(1).irreps if hasattr(sp.fibergroup, "bl_sphere_representation") else [(0,), (1,)], type="thomson_cube", N=4)
    L += [shp("QuotientFourierPointwise[rot3d]", qf, 3, hi=6), shp("FourierPointwise[SO2]", four, 0), shp("FourierELU[rot2d]", fourE, 2, hi=8)]
    L += [shp("TensorProductModule", lambda: nn.TensorProductModule(ftype(gs("r0:C4"), "2*r"), ftype(gs("r0:C4"), "2*i1"), initialize=False), 0)]
    L += [shp("Sequential[%s]" % n, b, sp_, hi=h_) for n, b, sp_, h_ in [("conv-pool-up", _seq, 2, 12), ("conv-bn-adaptive", _seq2, 2, 16)]]
    L += [shp("MultipleModule", _mult, 2, hi=8)]
    L += [pc(c, s) for c, s in (("R2PointConv", r4),)]
    L += [mod("ConcatenatedNonLinearity", r4, "r+t", 2, hi=8), mod("ConcatenatedNonLinearity", "r0:D2", "i1+i3+r", 0), mod("InducedNormNonLinearity", "fliprot2d:4", "vn,4/1+vn,2/1", 2, hi=8),
          mod("InducedNormBatchNorm", "fliprot2d:4", "vn,4/1+vn,4/1", 2, hi=8), mod("InducedNormPool", "fliprot2d:4", "vn,4/1+vn,2/1", 2, hi=8), mod("InducedNormNonLinearity", "r0:D3", "v0,1/1+vn,3/1", 0)]
    def unif():
        sp = gs(r4)
        return nn.GatedNonLinearityUniform(FieldType(sp, [sp.trivial_repr + sp.irrep(1)] * 2))
    def ig(**kw):
        def build():
            sp = gs("fliprot2d:4")
            q = sp.quotient_repr((None, 4))
            ind = sp.induced_repr((None, 4), sp.fibergroup.subgroup((None, 4))[0].irrep(1))
            return nn.InducedGatedNonLinearity1(FieldType(sp, [q, q, ind, ind]), **kw)
        return build
    L += [shp("GatedNonLinearityUniform", unif, 2, hi=8), shp("InducedGatedNonLinearity1", ig(), 2, hi=8), shp("InducedGatedNonLinearity1[keep gates]", ig(drop_gates=False), 2, hi=8),
          shp("GatedNonLinearity1[keep gates]", lambda: _gated(r4, drop_gates=False), 2, hi=8),
          shp("HarmonicPolynomialR3[so3]", lambda: nn.HarmonicPolynomialR3(2, "so3"), 0), shp("HarmonicPolynomialR3[o3]", lambda: nn.HarmonicPolynomialR3(1, "o3"), 0)]
    L += [conv("R2Conv", r4, "t", "r", 3, 2, padding=(1, 2), stride=2), conv("R2Conv", r4, "t", "r", 3, 2, hi=12, padding=(2, 1), padding_mode="circular"), conv("R2ConvTransposed", r4, "t", "r", 3, 2, hi=12, padding=(1, 0), stride=2, output_padding=(0, 1)),
          conv("R3Conv", "octa", "t", "t", 3, 3, hi=6, padding=(0, 1, 2)), conv("R3ConvTransposed", "octa", "t", "t", 3, 3, hi=6, padding=(0, 1, 2), stride=2, output_padding=1)]
    for cls in ("R3Conv",):
        for pm in ("replicate", "circular"):
            L.append(conv(cls, "octa", "t", "t", 3, 3, hi=6, padding=1, stride=2, padding_mode=pm))
    return L


def _gated(spec, **kw):
    sp = gs(spec)
    return nn.GatedNonLinearity1(FieldType(sp, [sp.trivial_repr] * 2 + [reps_of(sp, "i1")[0]] * 2), **kw)


def _seq():
    sp = gs("rot2d:4")
    a, b = ftype(sp, "t"), ftype(sp, "r")
    return nn.SequentialModule(nn.R2Conv(a, b, 3, stride=2, initialize=False), nn.PointwiseMaxPool2D(b, 2), nn.R2ConvTransposed(b, a, 3, stride=2, padding=1, output_padding=1, initialize=False))


def _seq2():
    sp = gs("rot2d:4")
    a, b = ftype(sp, "t"), ftype(sp, "r")
    return nn.SequentialModule(nn.R2Conv(a, b, 5, padding=1, initialize=False), nn.InnerBatchNorm(b), nn.PointwiseAvgPoolAntialiased2D(b, 0.6, 2), nn.GroupPooling(b))


def _mult():
    sp = gs("rot2d:4")
    t = ftype(sp, "r+i1+t")
    lt = t.group_by_labels(["a", "b", "a"])
    return nn.MultipleModule(t, ["a", "b", "a"], [(nn.ReLU(lt["a"]), "a"), (nn.NormNonLinearity(lt["b"]), "b")])


def pc(cls, spec):
    d = 2 if cls == "R2PointConv" else 3
    dims = {"b": (2, 12)}
    ei = torch.tensor([[0, 1, 1], [0, 0, 1]])

    def build():
        sp = gs(spec)
        return getattr(nn, cls)(ftype(sp, "t+i1"), ftype(sp, "i1+t"), n_rings=2, width=1.5, frequencies_cutoff=1., initialize=False)

    def call(m, make):
        return m(GeometricTensor(make(["b", m.in_type.size]), m.in_type, make(["b", d])), ei).tensor.shape

    def real(m, v):
        return m(GeometricTensor(torch.zeros(v["b"], m.in_type.size), m.in_type, torch.zeros(v["b"], d)), ei).tensor.shape

    def predict(m, v):
        return m.evaluate_output_shape((v["b"], m.in_type.size))
    return ShapeInst("%s[%s]" % (cls, spec), build, call, predict, dims, real)
