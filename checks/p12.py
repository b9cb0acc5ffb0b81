"""P12 exported modules compute the same function"""
from .common import *

EXPLANATION = ("Each instance builds the real equivariant module, makes all parameters and running statistics symbolic, executes it in eval mode on an "
               "arbitrary symbolic input, exports it (the real export() code runs on the symbolic parameters) and executes the exported plain PyTorch "
               "module on the same input; z3 is asked for values for which the outputs differ by more than 1e-3. The original is executed again afterwards.")
ASSUMPTIONS = ["floats are modelled as reals; coefficients closer than 5e-6 are identified", "inputs and parameters range over [-1,1], running variances over [0.2,2]",
               "classes whose export() raises NotImplementedError do not offer export"]


def exp_(name, build, shape, batch=1, cost=1.0, sizes=None, pre=None, refuse=False):
    def run(h, m):
        h.free(m)
        if hasattr(m, "set_symbolic"):
            m.set_symbolic(h)
        for mm in m.modules():
            if type(mm).__name__.startswith("IIDBatchNorm"):
                for r in mm.in_type._unique_representations:
                    k = mm._escape_name(r.name) + "_running_mean"
                    if mm._buffers.get(k) is not None:
                        from .p09 import proj
                        mm._buffers[k] = h.wrap(mat(proj(r), to_obj(h, mm._buffers[k])))
        if pre:
            pre(h, m)
        m.train(True)
        m.eval()
        shapes = sizes or [shape]
        ref = []
        for k, s in enumerate(shapes):
            x = h.array("x%d" % k, (batch, m.in_type.size) + s)
            ref.append((x, m(geo(h, x, m.in_type)).tensor))
        m.train(True)
        try:
            e = m.export()
        except NotImplementedError:
            if not refuse:
                raise
            h.true("export refused for this field layout", True)
            return
        h.true("plain torch module", isinstance(e, torch.nn.Module) and not any(isinstance(mm, nn.EquivariantModule) for mm in e.modules()))
        for k, (x, y) in enumerate(ref):
            h.eq("exported%d" % k, e(h.wrap(x)), y)
            h.eq("original after export%d" % k, m(geo(h, x, m.in_type)).tensor, y)
        h.true("same parameters", True)
    return Instance(name, build, run, cost=cost)


def conv(cls, spec, i, o, k, shape, cost=1.0, **kw):
    def build():
        sp = gs(spec)
        return getattr(nn, cls)(ftype(sp, i), ftype(sp, o), k, initialize=False, **kw)
    return exp_("%s[%s %s->%s k=%s %s %s]" % (cls, spec, i, o, k, shape, ",".join("%s=%s" % t for t in sorted(kw.items()))), build, shape, cost=cost)


def mod(cls, spec, reps, shape, batch=1, cost=1.0, refuse=False, **kw):
    def build():
        return getattr(nn, cls)(ftype(gs(spec), reps), **kw)
    return exp_("%s[%s %s %s %s]" % (cls, spec, reps, shape, ",".join("%s=%s" % t for t in sorted(kw.items()))), build, shape, batch, cost, refuse=refuse)


def linear(spec, i, o, **kw):
    def build():
        sp = gs(spec)
        return nn.Linear(ftype(sp, i), ftype(sp, o), initialize=False, **kw)
    return exp_("Linear[%s %s->%s %s]" % (spec, i, o, kw), build, (), 2)


def seq(name, build, shape, cost=2.0):
    return exp_("Sequential[%s]" % name, build, shape, cost=cost)


def _seq1():
    sp = gs("rot2d:4")
    a, b, c = ftype(sp, "t"), ftype(sp, "r+r"), ftype(sp, "r")
    return nn.SequentialModule(nn.R2Conv(a, b, 3, padding=1, initialize=False), nn.InnerBatchNorm(b), nn.ReLU(b, inplace=False), nn.PointwiseMaxPool2D(b, 2), nn.R2Conv(b, c, 1, initialize=False),
                               nn.GroupPooling(c))


def _seq2():
    sp = gs("octa")
    a, b = ftype(sp, "t+i1"), ftype(sp, "i1+t")
    return nn.SequentialModule(nn.R3Conv(a, b, 3, initialize=False), nn.IIDBatchNorm3d(b), nn.R3Conv(b, ftype(sp, "t"), 1, initialize=False), nn.ELU(ftype(sp, "t"), inplace=False))


def _seq3():
    sp = gs("r0:D3")
    a, b = ftype(sp, "i2+t"), ftype(sp, "r+t")
    return nn.SequentialModule(nn.Linear(a, b, initialize=False), nn.LeakyReLU(b, negative_slope=0.2, inplace=False), nn.Linear(b, a, initialize=False))


def _seq4():
    sp = gs("rot2d:-1")
    a = ftype(sp, "i1+t")
    m = nn.SequentialModule(nn.R2Conv(a, a, 3, initialize=False), nn.RestrictionModule(a, 4))
    b = m.out_type
    m.append(nn.R2Conv(b, FieldType(b.gspace, [b.gspace.regular_repr]), 1, initialize=False))
    m.append(nn.ELU(m.out_type, inplace=False))
    m.append(nn.SequentialModule(nn.IdentityModule(m.out_type), nn.R2Upsampling(m.out_type, 2)))
    return m


def instances():
    L = []
    r4 = "rot2d:4"
    for kw in [dict(), dict(padding=1), dict(stride=2, padding=1), dict(dilation=2), dict(bias=False), dict(groups=2), dict(padding=1, padding_mode="circular"), dict(padding=2, padding_mode="reflect"),
               dict(padding=1, padding_mode="replicate"), dict(padding=2, stride=2, dilation=2, groups=2), dict(padding=1, stride=2, padding_mode="circular", bias=False)]:
        L.append(conv("R2Conv", r4, "2*t" if kw.get("groups") else "i1+t", "2*r" if kw.get("groups") else "r+i1", 3, (5, 5), **kw))
    L += [conv("R2Conv", "fliprot2d:3", "i1+t", "r+i2", 3, (3, 3), padding=1), conv("R2Conv", "rot2d:-1", "i1+t", "i2+i1+t", 5, (5, 5), padding=2), conv("R2Conv", r4, "r", "r", 1, (2, 2)), conv("R2Conv", r4, "c2", "t+c3", 3, (3, 3), padding=1),
          conv("R2Conv", r4, "t", "r+b3", 3, (3, 3), padding=1, recompute=True), conv("R2Conv", "flip2d", "r+t", "r+t", (3), (3, 4))]
    for kw in [dict(), dict(padding=1), dict(stride=2, padding=1), dict(stride=2, output_padding=1), dict(stride=2, padding=1, output_padding=1), dict(bias=False), dict(groups=2), dict(dilation=2)]:
        L.append(conv("R2ConvTransposed", r4, "2*t" if kw.get("groups") else "i1+t", "2*r" if kw.get("groups") else "r+i1", 3, (2, 2), **kw))
    L += [conv("R2ConvTransposed", "rot2d:-1", "i1+t", "i2+i1", 4, (2, 2), stride=2, padding=1)]
    for kw in [dict(), dict(padding=1), dict(stride=2, padding=1), dict(bias=False), dict(groups=2), dict(padding=1, padding_mode="circular"), dict(padding=1, padding_mode="replicate"), dict(padding=1, padding_mode="reflect"), dict(dilation=2, padding=2)]:
        L.append(conv("R3Conv", "octa", "2*t" if kw.get("groups") else "i1+t", "2*i1" if kw.get("groups") else "t+i1", 3, (3, 3, 3), **kw))
    for kw in [dict(), dict(stride=2, output_padding=1), dict(bias=False, padding=1), dict(groups=2), dict(dilation=2)]:
        L.append(conv("R3ConvTransposed", "octa", "2*t" if kw.get("groups") else "i1+t", "2*i1" if kw.get("groups") else "t+i1", 3, (1, 1, 2), **kw))
    L += [conv("R3Conv", "rot3d", "i1+t", "i1+t", 3, (3, 3, 3)), conv("R3Conv", "ico", "t", "i1+t", 3, (3, 3, 3))]
    L += [linear("r0:C4", "r+t+i1", "i1+r"), linear("r0:D3", "r+i2", "t+r+i1"), linear("r0:SO3", "i1+t+i2", "t+i1"), linear("r0:C4", "r", "i1", bias=False), linear("r0:C4", "c2", "t+c3"), linear("r0:D3", "i2+c3", "c3"), linear("r0:O", "i1+t", "t+i2"), linear("r0:C4", "2*t", "b3+t")]
    for spec, reps, shape in [(r4, "2*r+3*t", (1, 2)), ("octa", "t+r", (1, 1, 1)), ("r0:C4", "r+t", ()), ("fliprot2d:4", "2*q0,2+t", (1, 1))]:
        L += [mod("InnerBatchNorm", spec, reps, shape), mod("InnerBatchNorm", spec, reps, shape, affine=False), mod("InnerBatchNorm", spec, reps, shape, eps=0.1, momentum=0.3)]
    for spec, reps, shape in [(r4, "i1+t+2*i2", (1, 2)), ("octa", "t+i1", (1, 1, 1)), ("r0:C4", "i1+i2+t", ())]:
        L += [mod("GNormBatchNorm", spec, reps, shape), mod("GNormBatchNorm", spec, reps, shape, affine=False, eps=0.1)]
    L += [mod("GNormBatchNorm", r4, "r+t", (1, 2))]
    # interleaved fields: InnerBatchNorm and GNormBatchNorm may refuse to export them, but what they export has to agree
    L += [mod("InnerBatchNorm", r4, "r+t+r+q2+t", (1, 1), refuse=True), mod("GNormBatchNorm", r4, "i1+t+i2+i1+t", (1, 1), refuse=True), mod("InnerBatchNorm", "r0:C4", "t+r+t", (), refuse=True)]
    for cls, spec, reps, shape in [("IIDBatchNorm2d", r4, "r+2*i1+t", (1, 2)), ("IIDBatchNorm2d", "fliprot2d:3", "b3+r+i1", (1, 1)), ("IIDBatchNorm3d", "octa", "t+i1+b2", (1, 1, 1)), ("IIDBatchNorm1d", "r0:C4", "r+i1+t", ()),
                                   ("IIDBatchNorm1d", "r0:SO3", "s2+i2", ()), ("IIDBatchNorm2d", r4, "i1+i2", (1, 1)), ("IIDBatchNorm2d", r4, "r+i1+r+i1+t", (1, 1)), ("IIDBatchNorm3d", "octa", "i1+b2+i1+t+b2", (1, 1, 1)), ("IIDBatchNorm1d", "r0:D3", "b3+r+b3", ())]:
        L += [mod(cls, spec, reps, shape), mod(cls, spec, reps, shape, affine=False, eps=0.1), mod(cls, spec, reps, shape, momentum=None)]
    for inplace in (False, True):
        L += [mod("ReLU", r4, "r+t", (1, 2), inplace=inplace), mod("ELU", r4, "r+t", (1, 2), inplace=inplace), mod("ELU", r4, "r+t", (1, 2), inplace=inplace, alpha=0.5), mod("LeakyReLU", r4, "r+t", (1, 2), inplace=inplace),
              mod("LeakyReLU", "r0:D3", "r+t", (), inplace=inplace, negative_slope=0.3), mod("PointwiseDropout", r4, "r+t", (1, 2), inplace=inplace, p=0.3)]
    for kw in [dict(kernel_size=2), dict(kernel_size=3, stride=2, padding=1), dict(kernel_size=2, stride=2, ceil_mode=True), dict(kernel_size=2, dilation=2, stride=1), dict(kernel_size=(2, 1), stride=(1, 2))]:
        L += [mod("PointwiseMaxPool2D", r4, "r+t", (5, 5) if "dil" not in str(kw) else (4, 4), **kw)]
    for kw in [dict(kernel_size=2, stride=1), dict(kernel_size=2, ceil_mode=True), dict(kernel_size=3, stride=2, padding=1)]:
        L += [mod("PointwiseMaxPool3D", "octa", "t", (3, 3, 3), **kw)]
    L += [mod("PointwiseAdaptiveAvgPool2D", r4, "r+t", (4, 4), output_size=(3, 2)), mod("PointwiseAdaptiveMaxPool2D", r4, "r+t", (4, 4), output_size=(3, 2)), mod("PointwiseAdaptiveAvgPool3D", "octa", "t", (3, 3, 2), output_size=(2, 1, 2)),
          mod("PointwiseAdaptiveMaxPool3D", "octa", "t", (3, 3, 2), output_size=(2, 1, 2)), mod("PointwiseAdaptiveAvgPool2D", r4, "r", (4, 4), output_size=1),
          mod("R2Upsampling", r4, "r+i1", (2, 3), scale_factor=2), mod("R2Upsampling", r4, "r+i1", (2, 3), scale_factor=3, mode="nearest"), mod("R2Upsampling", r4, "i1", (2, 3), size=(5, 4)),
          mod("R2Upsampling", r4, "i1", (2, 3), size=5, align_corners=True), mod("R3Upsampling", "octa", "i1", (2, 2, 1), scale_factor=2), mod("R3Upsampling", "octa", "i1", (2, 2, 1), size=3, align_corners=True),
          mod("R3Upsampling", "octa", "i1", (2, 2, 1), scale_factor=2, mode="nearest"),
          mod("GroupPooling", r4, "3*r", (1, 2)), mod("GroupPooling", "r0:D3", "2*r", ()), mod("GroupPooling", "fliprot2d:4", "2*q0,2", (1, 1)), mod("IdentityModule", r4, "r+i1", (1, 2)), mod("RestrictionModule", r4, "r+i1", (1, 2), id=2)]
    L += [seq("conv-bn-relu-pool-conv-gpool", _seq1, (4, 4)), seq("3d conv-bn-conv-elu", _seq2, (3, 3, 3)), seq("linear-leaky-linear", _seq3, ()), seq("restrict and nested", _seq4, (3, 3))]
    return L
