"""P10 pooling, upsampling and masking commute with the grid symmetries and treat fields independently"""
from .common import *

EXPLANATION = ("Each instance executes the real module symbolically on an arbitrary feature map x and on g.x for generators g of the group elements "
               "which map the pixel grid to itself; z3 is asked for an x with |f(g.x) - g.f(x)| > 1e-3 (max is encoded exactly, argmax indices as "
               "symbolic selections). A second claim compares every field of the output with the same module built for that field alone; a third one "
               "feeds a constant (symbolic) map and asks for a deviation in the interior.")
ASSUMPTIONS = ["floats are modelled as reals; coefficients closer than 5e-6 are identified", "inputs range over [-1,1]; ties of norms in NormMaxPool excluded",
               "the sampling lattice of the window maps to itself (H + 2p - d(k-1) - 1 divisible by the stride), otherwise the operation is not symmetric in PyTorch either"]


def pool(cls, spec, reps, shape, cost=1.0, const=None, single=True, **kw):
    def build():
        sp = gs(spec)
        ft = ftype(sp, reps)
        mk = lambda t: getattr(nn, cls)(t, **kw)
        d = {"mod": mk(ft)}
        if single:
            d["one"] = {r.name: mk(FieldType(sp, [r])) for r in ft.representations}
        return d

    def run(h, d):
        m = d["mod"]
        m.eval()
        x = h.array("x", (1, m.in_type.size) + shape)
        y = m(geo(h, x, m.in_type))
        h.true("output type", y.type == m.out_type and m.out_type == m.in_type)
        y = to_obj(h, y.tensor).copy()
        if single:
            p = 0
            for k, r in enumerate(m.in_type.representations):
                o = d["one"][r.name]
                o.eval()
                z = to_obj(h, o(geo(h, x[:, p:p + r.size], o.in_type)).tensor)
                h.eq("field %d alone" % k, h.wrap(z), h.wrap(y[:, p:p + r.size]))
                p += r.size
        for k, g in enumerate(grid_elements(m.in_type.gspace)):
            gy = m(geo(h, act(m.in_type, g, x), m.in_type)).tensor
            h.eq("g%d" % k, gy, act(m.out_type, g, y))
        if const is not None:
            c = h.array("const", (1, m.in_type.size) + (1,) * len(shape))
            xc = np.broadcast_to(c, (1, m.in_type.size) + const).copy()
            yc = to_obj(h, m(geo(h, xc, m.in_type)).tensor)
            mid = (slice(None), slice(None)) + tuple(s // 2 for s in yc.shape[2:])
            h.eq("constant preserved", h.wrap(yc[mid]), h.wrap(c.reshape(1, -1)))
    return Instance("%s[%s %s %s %s]" % (cls, spec, reps, "x".join(map(str, shape)), ",".join("%s=%s" % t for t in sorted(kw.items()))), build, run, cost=cost)


def window(cls, spec, reps, shape, **kw):
    """documented operation: maximum / mean of each channel over each window"""
    def build():
        return getattr(nn, cls)(ftype(gs(spec), reps), **kw)

    def run(h, m):
        m.eval()
        x = h.array("x", (1, m.in_type.size) + shape)
        y = to_obj(h, m(geo(h, x, m.in_type)).tensor)
        D = len(shape)
        tup = lambda v: (v,) * D if isinstance(v, int) else tuple(v)
        K, S, Pd, Dl = tup(kw["kernel_size"]), tup(kw.get("stride") or kw["kernel_size"]), tup(kw.get("padding", 0)), tup(kw.get("dilation", 1))
        ref = np.empty(y.shape, dtype=object)
        for q in np.ndindex(*y.shape):
            vals = []
            for o in np.ndindex(*K):
                pos = [q[2 + i] * S[i] - Pd[i] + o[i] * Dl[i] for i in range(D)]
                inside = all(0 <= pos[i] < shape[i] for i in range(D))
                if inside:
                    vals.append(x[(q[0], q[1]) + tuple(pos)])
                elif "Avg" in cls:
                    vals.append(0.0)
            if "Avg" in cls:
                ref[q] = poly.sum_(vals) * (1.0 / len(vals)) if h.symbolic else sum(vals) / len(vals)
            else:
                ref[q] = poly.maximum(vals) if h.symbolic else max(vals)
        h.eq("window", h.wrap(y), h.wrap(ref))
    return Instance("%s window[%s %s %s %s]" % (cls, spec, reps, "x".join(map(str, shape)), ",".join("%s=%s" % t for t in sorted(kw.items()))), build, run)


def normmax_doc(spec, reps, shape, win, **kw):
    """NormMaxPool returns in each window the vector of maximal norm, unchanged: the position `win` of the window dominates"""
    def build():
        return nn.NormMaxPool(ftype(gs(spec), reps), **kw)

    def run(h, m):
        m.eval()
        K, S = m.kernel_size, m.stride
        x = np.empty((1, m.in_type.size) + shape, dtype=object)
        for p in np.ndindex(*x.shape):
            dom = (p[2] % S[0], p[3] % S[1]) == win
            s = 1 if (sum(p) % 3) else -1
            lo, hi = ((2.0, 3.0) if s > 0 else (-3.0, -2.0)) if dom else (-1.0, 1.0)
            x[p] = h.val("x[%s]" % ",".join(map(str, p)), lo, hi)
        y = to_obj(h, m(geo(h, x, m.in_type)).tensor)
        ref = np.empty(y.shape, dtype=object)
        for q in np.ndindex(*y.shape):
            ref[q] = x[q[0], q[1], q[2] * S[0] + win[0], q[3] * S[1] + win[1]]
        h.eq("argmax", h.wrap(y), h.wrap(ref))
    return Instance("NormMaxPool selection[%s %s %s %s at %s]" % (spec, reps, shape, kw, win), build, run)


def mask(spec, reps, S, **kw):
    def build():
        return nn.MaskModule(ftype(gs(spec), reps), S, **kw)

    def run(h, m):
        d = m.in_type.gspace.dimensionality
        x = h.array("x", (1, m.in_type.size) + (S,) * d)
        y = to_obj(h, m(geo(h, x, m.in_type)).tensor)
        for k, g in enumerate(grid_elements(m.in_type.gspace)):
            gy = m(geo(h, act(m.in_type, g, x), m.in_type)).tensor
            h.eq("g%d" % k, gy, act(m.out_type, g, y))
        # one factor in [0,1] per pixel, shared by all channels; 1 where the pixel lies inside the circle
        one = to_obj(h, m(geo(h, np.ones((1, m.in_type.size) + (S,) * d), m.in_type)).tensor)
        h.eq("same factor for all channels", h.wrap(one), h.wrap(np.broadcast_to(one[:, :1], one.shape).copy()))
        h.eq("factor", h.wrap(y), h.wrap(np.asarray(one) * x))
        c = (S - 1) / 2
        t = c - kw.get("margin", 0.0) / 100 * c
        ok = True
        for p in np.ndindex(*(S,) * d):
            rr = math.sqrt(sum((q - c) ** 2 for q in p))
            v = float(one[(0, 0) + p])
            ok &= -1e-6 <= v <= 1 + 1e-6 and (abs(v - 1) < 1e-6 if rr <= t - 1e-9 else v < 1 or rr <= t + 1e-9)
        h.true("mask is 1 inside the circle and smaller outside", ok)
    return Instance("MaskModule[%s %s S=%d %s]" % (spec, reps, S, kw), build, run)


def instances():
    L = []
    for spec, reps in [("rot2d:4", "r+t+i1"), ("fliprot2d:4", "i2+i1+t"), ("rot2d:-1", "t+i1"), ("flip2d", "r+t+r"), ("fliprot2d:2", "r+i1")]:
        pw = {"rot2d:4": "r+t", "fliprot2d:4": "q0,2+t", "rot2d:-1": "t+t", "flip2d": "r+t", "fliprot2d:2": "r+t"}[spec]
        L += [pool("PointwiseMaxPool2D", spec, pw, (4, 4), kernel_size=2),
              pool("PointwiseMaxPool2D", spec, pw, (3, 3), kernel_size=3, stride=2, padding=1),
              pool("PointwiseAvgPool2D", spec, reps, (4, 4), kernel_size=2),
              pool("PointwiseAvgPool2D", spec, reps, (5, 5), kernel_size=3, stride=2, padding=1),
              pool("PointwiseAvgPoolAntialiased2D", spec, reps, (5, 5), sigma=0.4, stride=2, const=(11, 11)),
              pool("R2Upsampling", spec, reps, (3, 3), scale_factor=2, const=(3, 3)),
              pool("R2Upsampling", spec, reps, (3, 3), scale_factor=2, mode="nearest", const=(3, 3)),
              pool("PointwiseAdaptiveAvgPool2D", spec, pw, (5, 5), output_size=3, const=(5, 5)),
              pool("PointwiseAdaptiveMaxPool2D", spec, pw, (4, 4), output_size=2, const=(5, 5)),
              pool("NormMaxPool", spec, reps, (2, 2) if "r+" in reps else (4, 4), kernel_size=2),
              mask(spec, reps, 5)]
    r4 = "rot2d:4"
    L += [pool("PointwiseMaxPool2D", r4, "t", (5, 5), kernel_size=2, dilation=2, stride=2), pool("PointwiseMaxPool2D", r4, "t", (5, 5), kernel_size=2, stride=3),
          pool("PointwiseMaxPool2D", "flip2d", "r", (4, 3), kernel_size=(2, 3), stride=(2, 1), padding=(0, 1)),
          pool("PointwiseMaxPool2D", "rot2d:2", "r+t", (3, 4), kernel_size=(1, 2), stride=(2, 2)),
          pool("PointwiseMaxPoolAntialiased2D", r4, "r+t", (3, 3), kernel_size=2, stride=1, sigma=0.3, const=(9, 9)),
          pool("PointwiseMaxPoolAntialiased2D", r4, "t", (4, 4), kernel_size=2, stride=2, sigma=0.3, const=(9, 9)),
          pool("PointwiseMaxPoolAntialiased2D", "fliprot2d:4", "t", (3, 3), kernel_size=3, stride=2, padding=1, sigma=0.3),
          pool("PointwiseMaxPoolAntialiased2D", r4, "t", (3, 3), kernel_size=1, stride=1, sigma=0.6, const=(11, 11)),
          pool("PointwiseAvgPoolAntialiased2D", r4, "r+i1", (7, 7), sigma=0.66, stride=2, const=(15, 15)),
          pool("PointwiseAvgPoolAntialiased2D", r4, "r+i1", (7, 7), sigma=0.66, stride=2, padding=0, const=(15, 15)),
          pool("PointwiseAvgPoolAntialiased2D", r4, "t", (9, 9), sigma=1.0, stride=1, const=(19, 19)),
          pool("PointwiseAvgPool2D", r4, "r+i1", (7, 7), kernel_size=3, stride=2, const=(7, 7)), pool("PointwiseAvgPool2D", "flip2d", "r+t", (4, 3), kernel_size=(2, 3), padding=(0, 1), stride=(2, 1)),
          pool("NormMaxPool", r4, "i1+t+i1", (3, 3), kernel_size=3, stride=1, padding=1), pool("NormMaxPool", r4, "i1+i1+t", (4, 4), kernel_size=2),
          pool("NormMaxPool", "rot2d:8", "i1+i2+i4", (2, 2), kernel_size=2), pool("NormMaxPool", r4, "i1", (5, 5), kernel_size=3, stride=2, padding=0),
          pool("NormMaxPool", "flip2d", "t+i1+r", (4, 2), kernel_size=(2, 1)),
          *[normmax_doc(r4, "i1+t+i1", (2, 4), w, kernel_size=2) for w in [(0, 0), (0, 1), (1, 0), (1, 1)]], *[normmax_doc(r4, "t+i1+i1", (3, 6), w, kernel_size=3) for w in [(1, 1), (0, 2), (2, 1)]],
          normmax_doc("fliprot2d:4", "i2+t+i2", (2, 2), (0, 0), kernel_size=1), normmax_doc(r4, "i1", (4, 6), (1, 2), kernel_size=(2, 3)),
          pool("R2Upsampling", r4, "r+i1", (3, 3), size=5, align_corners=True, const=(3, 3)), pool("R2Upsampling", r4, "i1+t", (2, 2), scale_factor=3, align_corners=True, const=(3, 3)),
          pool("R2Upsampling", r4, "i1+t", (2, 2), size=7, const=(3, 3)), pool("R2Upsampling", "flip2d", "r+t", (2, 3), size=(4, 5)),
          pool("R2Upsampling", r4, "r", (2, 2), size=4, mode="nearest"),
          pool("PointwiseAdaptiveAvgPool2D", r4, "r+t", (4, 4), output_size=1), pool("PointwiseAdaptiveAvgPool2D", "flip2d", "r", (4, 5), output_size=(2, 3)),
          pool("PointwiseAdaptiveMaxPool2D", r4, "r+t", (3, 3), output_size=1), pool("PointwiseAdaptiveMaxPool2D", "flip2d", "r", (4, 5), output_size=(2, 3)),
          mask(r4, "r+i1", 6), mask(r4, "t+i1", 7, margin=20.0, sigma=1.5), mask("fliprot2d:4", "i2+t", 4, margin=5.0), mask("octa", "t+i1", 4), mask("fullocta", "t+i1", 5, margin=10.0, sigma=3.0)]
    L += [pool("PointwiseAvgPoolAntialiased2D", r4, "t+i1", (7, 7), sigma=0.4, stride=None), pool("PointwiseAvgPoolAntialiased2D", "flip2d", "t+r", (4, 5), sigma=0.4, stride=(1, 2)),
          pool("PointwiseAvgPoolAntialiased2D", "flip2d", "t", (4, 5), sigma=0.4, stride=(2, 1), padding=(0, 1)), pool("PointwiseAvgPoolAntialiased3D", "mir", "t+i1", (3, 3, 2), sigma=0.3, stride=(1, 2, 1), padding=(1, 0, 1)),
          pool("PointwiseAvgPoolAntialiased3D", "octa", "t", (4, 4, 4), sigma=0.3, stride=None), pool("PointwiseAvgPool3D", "mir", "r+t", (2, 3, 4), kernel_size=(1, 3, 2), padding=(0, 1, 1), stride=(1, 2, 2)),
          pool("NormMaxPool", "flip2d", "t+i1", (3, 2), kernel_size=(3, 1), padding=(1, 0), stride=1), pool("NormMaxPool", r4, "i1", (3, 3), kernel_size=2, dilation=(2, 2), stride=1)]
    for kw in [dict(kernel_size=2), dict(kernel_size=3, stride=1, padding=1), dict(kernel_size=2, stride=3), dict(kernel_size=(1, 2), stride=(2, 1)), dict(kernel_size=3, stride=2, padding=(1, 0))]:
        L += [window("PointwiseMaxPool2D", r4, "r+t", (4, 5), **kw), window("PointwiseAvgPool2D", r4, "i1+t", (4, 5), **kw)]
    L += [window("PointwiseMaxPool2D", r4, "t", (5, 5), kernel_size=2, dilation=(2, 1), stride=1),
          window("PointwiseMaxPool3D", "octa", "t+t", (2, 3, 2), kernel_size=2, stride=1), window("PointwiseAvgPool3D", "octa", "i1+t", (2, 3, 2), kernel_size=2, stride=1, padding=1),
          window("PointwiseAvgPool3D", "octa", "t", (2, 3, 4), kernel_size=(1, 2, 3), stride=(1, 1, 2)), window("PointwiseMaxPool3D", "octa", "t", (2, 3, 4), kernel_size=(1, 2, 3), stride=(1, 1, 2))]
    for spec, reps, pw in [("octa", "i1+t", "t+t"), ("fullocta", "i1+t", ""), ("rot3d", "t+i1", "t"), ("mir", "r+t", "r+t"), ("rot2d3:4", "r+i1", "r+t")]:
        if pw:
            L += [pool("PointwiseMaxPool3D", spec, pw, (2, 2, 2), kernel_size=2), pool("PointwiseMaxPool3D", spec, pw, (3, 3, 3), kernel_size=2, stride=1),
                  pool("PointwiseAdaptiveAvgPool3D", spec, pw, (3, 3, 3), output_size=2), pool("PointwiseAdaptiveMaxPool3D", spec, pw, (2, 2, 2), output_size=1)]
        L += [pool("PointwiseAvgPool3D", spec, reps, (3, 3, 3), kernel_size=3, stride=2, padding=1),
              pool("PointwiseAvgPoolAntialiased3D", spec, reps, (3, 3, 3), sigma=0.3, stride=2, const=(7, 7, 7)),
              pool("R3Upsampling", spec, reps, (2, 2, 2), scale_factor=2, const=(2, 2, 2)), pool("R3Upsampling", spec, reps, (2, 2, 2), scale_factor=2, mode="nearest")]
    L += [pool("PointwiseMaxPoolAntialiased3D", "octa", "t", (2, 2, 2), kernel_size=2, stride=1, sigma=0.2, const=(5, 5, 5)),
          pool("PointwiseMaxPoolAntialiased3D", "octa", "t", (3, 3, 3), kernel_size=1, stride=2, sigma=0.3, const=(7, 7, 7)),
          pool("PointwiseAvgPoolAntialiased3D", "octa", "t", (5, 5, 5), sigma=0.6, stride=2, padding=0, const=(7, 7, 7)),
          pool("R3Upsampling", "octa", "i1+t", (2, 2, 2), size=3, align_corners=True, const=(2, 2, 2))]
    return L
