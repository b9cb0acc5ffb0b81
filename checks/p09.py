"""P09 normalization layers are equivariant in train and eval mode, running statistics are invariant and as documented"""
from .common import *

EXPLANATION = ("Each instance executes the real normalization module symbolically: all batch entries, affine parameters and running statistics are "
               "symbolic. History: (state s) train step on x; (state s) train step on g.x; then eval on a second arbitrary batch z and g.z from the "
               "updated state. z3 is asked for values with |f(g.x) - g.f(x)| > 1e-3, for running statistics which differ between the two histories, "
               "or which differ from (1-momentum)*old + momentum*(documented statistic).")
ASSUMPTIONS = ["floats are modelled as reals; coefficients closer than 5e-6 are identified",
               "1/sqrt(var+eps) is an uninterpreted function of the (polynomial) variance, which is exact for equality",
               "running variances range over [0.2,2], everything else over [-1,1]; batch size 2, up to 4 pixels",
               "the group acts on the fibers and, where the grid is square, on the pixels; generators suffice by P02"]


def irrep_slices(r):
    p = 0
    out = []
    for i in r.irreps:
        irr = r.group.irrep(*i)
        out.append((p, irr.size, irr.is_trivial()))
        p += irr.size
    return out


def proj(r):
    T = np.zeros((r.size, r.size))
    for p, s, t in irrep_slices(r):
        if t:
            T[p, p] = 1
    return r.change_of_basis @ T @ r.change_of_basis_inv


def mean(xs):
    return poly.sum_(list(xs)) * (1.0 / len(xs)) if any(not poly.num(v) for v in xs) else sum(xs) / len(xs)


def sq(xs):
    return [v * v for v in xs]


def fields(ft, x):
    """list of (rep, array (size, N)) over batch and pixels"""
    p = 0
    X = np.moveaxis(np.asarray(x), 1, 0).reshape(x.shape[1], -1)
    for r in ft.representations:
        yield r, X[p:p + r.size]
        p += r.size


def doc_stats(m, x):
    """documented batch statistics per field: list of (means or None, variances) in the layout used by running statistics"""
    cls = type(m).__name__
    out = []
    for r, X in fields(m.in_type, x):
        N = X.shape[1]
        bes = N / (N - 1) if N > 1 else 1.0
        if cls == "NormBatchNorm":
            out.append((None, [mean([v for c in X for v in sq(c)]) * bes]))
        elif cls == "InducedNormBatchNorm":
            k = [int(n.split("_")[-1]) for n in r.supported_nonlinearities if n.startswith("induced_norm")][0]
            M = N * r.size // k
            out.append((None, [mean([v for c in X for v in sq(c)]) * (M / (M - 1) if M > 1 else 1.0)]))
        elif cls == "InnerBatchNorm":
            vals = [v for c in X for v in c]
            mu = mean(vals)
            out.append(([mu], [(mean(sq(vals)) - mu * mu) * (len(vals) / (len(vals) - 1))]))
        elif cls == "GNormBatchNorm":
            Y = mat(r.change_of_basis_inv, X[None])[0]
            mus, vs = [], []
            for p, s, t in irrep_slices(r):
                if t:
                    mu = mean(list(Y[p]))
                    mus.append(mu)
                    vs.append((mean(sq(Y[p])) - mu * mu) * bes)
                else:
                    vs.append(mean([v for c in Y[p:p + s] for v in sq(c)]) * bes)
            out.append((mus, vs))
        else:       # IID
            mu = np.array([mean(list(c)) for c in X], dtype=object)
            vs = mean([(mean(sq(c)) - mean(list(c)) * mean(list(c))) * bes for c in X])
            T = np.zeros((r.size, r.size))
            for p, s, t in irrep_slices(r):
                if t:
                    T[p, p] = 1
            if T.any():
                Pm = r.change_of_basis @ T @ r.change_of_basis_inv
                out.append((list(mat(Pm, mu.reshape(1, -1))[0]), [vs]))
            else:
                out.append((None, [vs]))
    return out


def running(m):
    """running statistics per field in the order of in_type, read through the public buffers"""
    cls = type(m).__name__
    cnt = {}
    out = []
    for r in m.in_type.representations:
        if cls == "NormBatchNorm":
            key = str(r.size)
            bn, mn = getattr(m, key + "_running_var"), None
            bn = bn.reshape(-1, 1)
        elif cls == "InducedNormBatchNorm":
            k = [int(n.split("_")[-1]) for n in r.supported_nonlinearities if n.startswith("induced_norm")][0]
            key = str((r.size, k))
            bn, mn = getattr(m, key + "_running_var").reshape(-1, 1), None
        elif cls == "InnerBatchNorm":
            key = str(r.size)
            b = getattr(m, "batch_norm_[%s]" % key)
            bn, mn = b.running_var.reshape(-1, 1), b.running_mean.reshape(-1, 1)
        else:
            key = m._escape_name(r.name)
            bn = getattr(m, key + "_running_var")
            mn = getattr(m, key + "_running_mean", None)
        i = cnt.get(key, 0)
        cnt[key] = i + 1
        out.append((None if mn is None else list(flat_(mn[i])), list(flat_(bn[i]))))
    return out


def flat_(t):
    from symx.harness import flat
    return flat(t)


def buffers(m):
    return {n: b for n, b in m.named_buffers() if "running_" in n}


def norm(cls, spec, reps, shape, batch=2, spatial=False, cost=1.0, hist=True, affine=True, **kw):
    def build():
        sp = gs(spec)
        k2 = dict(kw)
        if cls != "FieldNorm" or not affine:
            k2["affine"] = affine
        m = getattr(nn, cls)(ftype(sp, reps), **k2)
        if not affine and hasattr(m, "reset_parameters"):
            m.reset_parameters()
        return m

    def run(h, m):
        def start():
            h.free(m)
            if cls.startswith("IID"):
                # any running mean reached by a history lies in the subspace of invariant vectors
                for r in m.in_type._unique_representations:
                    b = getattr(m, m._escape_name(r.name) + "_running_mean", None)
                    if b is not None:
                        b = to_obj(h, b)
                        m._buffers[m._escape_name(r.name) + "_running_mean"] = h.wrap(mat(proj(r), b))
            for n, b in m.named_buffers():
                if n.endswith("num_batches_tracked"):
                    b.zero_()
        track = cls != "FieldNorm" and kw.get("track_running_stats", True)
        x = h.array("x", (batch, m.in_type.size) + shape)
        z = h.array("z", (1 if cls in ("NormBatchNorm", "InducedNormBatchNorm") or track else batch, m.in_type.size) + shape)
        els = grid_elements(m.in_type.gspace) if spatial else generators(m.in_type.fibergroup)
        m.train(True)
        start()
        old = running(m) if track else None
        y = m(geo(h, x, m.in_type))
        h.true("output type", y.type == m.out_type)
        y = to_obj(h, y.tensor).copy()
        st = {n: to_obj(h, b).copy() for n, b in buffers(m).items()} if track else {}
        if track:
            mom = kw.get("momentum", 0.1)
            mom = 1.0 if mom is None else mom
            new = running(m)
            for k, ((om, ov), (nm, nv), (dm, dv)) in enumerate(zip(old, new, doc_stats(m, x))):
                h.eq("running_var[%d]" % k, nv, [a * (1 - mom) + b * mom for a, b in zip(ov, dv)])
                h.true("mean tracked iff trivial [%d]" % k, (not nm) == (not dm))
                if nm and dm:
                    h.eq("running_mean[%d]" % k, nm, [a * (1 - mom) + b * mom for a, b in zip(om, dm)])
            m.train(False)
            ez = to_obj(h, m(geo(h, z, m.in_type)).tensor).copy()
        for k, g in enumerate(els):
            m.train(True)
            start()
            gy = m(geo(h, act(m.in_type, g, x, spatial), m.in_type))
            h.eq("train g%d" % k, gy.tensor, act(m.out_type, g, y, spatial))
            if track:
                for n, b in buffers(m).items():
                    h.eq("invariant %s g%d" % (n, k), b, h.wrap(st[n]))
                m.train(False)
                gz = m(geo(h, act(m.in_type, g, z, spatial), m.in_type))
                h.eq("eval g%d" % k, gz.tensor, act(m.out_type, g, ez, spatial))
    return Instance("%s[%s %s %s b=%d sp=%s%s %s]" % (cls, spec, reps, "x".join(map(str, shape)), batch, spatial, "" if affine else " affine=False",
                                                    ",".join("%s=%s" % t for t in sorted(kw.items()))), build, run, cost=cost)


def momentum_none(cls, spec, reps, shape):
    """momentum=None: after n training batches the running statistics are the plain average of the batch statistics"""
    def build():
        return getattr(nn, cls)(ftype(gs(spec), reps), momentum=None)

    def run(h, m):
        h.free(m)
        for n, b in m.named_buffers():
            if n.endswith("num_batches_tracked"):
                b.zero_()
        m.train(True)
        docs = []
        for k in range(3):
            x = h.array("x%d" % k, (2, m.in_type.size) + shape)
            m(geo(h, x, m.in_type))
            docs.append(doc_stats(m, x))
        new = running(m)
        for f, (nm, nv) in enumerate(new):
            h.eq("var[%d]" % f, nv, [mean([d[f][1][i] for d in docs]) for i in range(len(nv))])
            if nm:
                h.eq("mean[%d]" % f, nm, [mean([d[f][0][i] for d in docs]) for i in range(len(nm))])
    return Instance("%s momentum=None history of 3 [%s %s]" % (cls, spec, reps), build, run)


def resets(cls, spec, reps, shape, **kw):
    """reset_running_stats() forgets the history: the statistics are those of a new layer; reset_parameters() also restores the affine parameters"""
    def build():
        return getattr(nn, cls)(ftype(gs(spec), reps), **kw), getattr(nn, cls)(ftype(gs(spec), reps), **kw)

    def run(h, o):
        m, new = o
        stats = lambda k: {n: b for n, b in k.named_buffers() if n.endswith(("running_mean", "running_var"))}
        h.free(m)
        m.train(True)
        x = h.array("x", (2, m.in_type.size) + shape)
        m(geo(h, x, m.in_type))
        m.reset_running_stats()
        a, b = stats(m), stats(new)
        h.true("same statistics", sorted(a) == sorted(b))
        for n in sorted(a):
            h.eq("reset " + n, a[n], b[n])
        for n, b in m.named_buffers():
            if n.endswith("num_batches_tracked"):
                h.true("counter reset", int(b) == 0)
        z = h.array("z", (1, m.in_type.size) + shape)
        if hasattr(m, "reset_parameters"):
            h.free(m)
            m.train(True)
            m.reset_parameters()
            a, b = stats(m), stats(new)
            for n in sorted(a):
                h.eq("reset all " + n, a[n], b[n])
            if not (cls in ("NormBatchNorm", "InducedNormBatchNorm") and kw.get("affine", True)):    # their weights are reset to random values
                m.eval()
                new.eval()
                h.eq("as new", m(geo(h, z, m.in_type)).tensor, new(geo(h, z, m.in_type)).tensor)
    return Instance("%s reset [%s %s %s]" % (cls, spec, reps, kw), build, run)


def fieldnorm_doc(spec, reps, shape, affine=True):
    """FieldNorm: each field at each sample and point is centered on its invariant part and divided by its rms"""
    def build():
        return nn.FieldNorm(ftype(gs(spec), reps), affine=affine)

    def run(h, m):
        x = h.array("x", (1, m.in_type.size) + shape)
        y = to_obj(h, m(geo(h, x, m.in_type)).tensor)
        for (r, X), (_, Y) in zip(fields(m.in_type, x), fields(m.in_type, y)):
            C = mat(np.eye(r.size) - proj(r), X[None])[0]
            for n in range(X.shape[1]):
                v = h.wrap(np.array([mean(sq(C[:, n])) + m.eps], dtype=object))
                h.eq("y = (x - mean)/sqrt(var + eps)", Y[:, n], h.wrap(C[:, n]) / v.sqrt())
    return Instance("FieldNorm documented formula[%s %s %s]" % (spec, reps, shape), build, run)


def instances():
    L = []
    for spec, reps, shape in [("rot2d:4", "r+t", (1, 2)), ("rot2d:4", "r+t+r+t", (1, 2)), ("fliprot2d:4", "q0,2+r", (1, 1)), ("octa", "t+r+t", (1, 1, 1)),
                              ("r0:C3", "r+t+r", ()), ("r0:D3", "r+2*t", ()), ("rot2d:3", "2*r+t", (2, 1))]:
        try:
            L.append(norm("InnerBatchNorm", spec, reps, shape))
        except KeyError:
            pass
    L += [norm("InnerBatchNorm", "rot2d:4", "r+t", (2, 2), spatial=True),
          norm("InnerBatchNorm", "rot2d:4", "r+t+r", (1, 2), affine=False),
          norm("InnerBatchNorm", "rot2d:4", "r+t+r", (1, 1), momentum=0.4),
          norm("InnerBatchNorm", "rot2d:2", "r+t+r", (1, 1), track_running_stats=False),
          norm("NormBatchNorm", "rot2d:4", "i1+i2+i1", (1, 2)), norm("NormBatchNorm", "rot2d:4", "2*i1+3*i2", (2, 2), spatial=True),
          norm("NormBatchNorm", "rot2d:-1", "i1+i2+i3", (1, 2)), norm("NormBatchNorm", "fliprot2d:3", "i1+i2+i1+i2", (1, 1)),
          norm("NormBatchNorm", "r0:SO3", "i1+i2+i1", ()), norm("NormBatchNorm", "octa", "i1+i2+i3+i4", (1, 1, 2)),
          norm("NormBatchNorm", "rot2d:4", "i1+i2+i1", (1, 1), affine=False), norm("NormBatchNorm", "rot2d:8", "i1+i4+i2+i3", (1, 1), momentum=0.3),
          norm("NormBatchNorm", "r0:D4", "i2+i1+i2+i3", ()),
          norm("InducedNormBatchNorm", "fliprot2d:4", "vn,4/1", (1, 2)), norm("InducedNormBatchNorm", "fliprot2d:4", "vn,4/1+v0,2/1+vn,4/1", (1, 1)),
          norm("InducedNormBatchNorm", "fliprot2d:3", "2*vn,3/1", (1, 2), momentum=0.5), norm("InducedNormBatchNorm", "fliprot2d:4", "vn,4/1", (1, 2), affine=False),
          norm("InducedNormBatchNorm", "fliprot2d:4", "vn,4/1", (2, 2), spatial=True),
          norm("GNormBatchNorm", "rot2d:4", "r+i1+t", (1, 2)), norm("GNormBatchNorm", "rot2d:4", "i1+r+i1+b3", (1, 1)),
          norm("GNormBatchNorm", "rot2d:4", "r", (2, 2), spatial=True), norm("GNormBatchNorm", "fliprot2d:3", "b3+t+b3", (1, 1)),
          norm("GNormBatchNorm", "fliprot2d:4", "i2+i1+t+i2", (1, 1)), norm("GNormBatchNorm", "rot2d:4", "r+i2", (1, 1), affine=False),
          norm("GNormBatchNorm", "rot2d:4", "i1+i2+t", (1, 1), momentum=0.3), norm("GNormBatchNorm", "rot2d:3", "r+t", (1, 1), track_running_stats=False),
          norm("GNormBatchNorm", "octa", "i1+t+i3", (1, 1, 2)), norm("GNormBatchNorm", "r0:SO3", "s2+i2", ()), norm("GNormBatchNorm", "octa", "b2+t", (1, 1, 1)),
          norm("GNormBatchNorm", "r0:D3", "b3+r", ()),
          norm("GNormBatchNorm", "rot2d:-1", "s3+i2", (1, 1)),
          norm("IIDBatchNorm2d", "rot2d:4", "r+i1+t", (1, 2)), norm("IIDBatchNorm2d", "rot2d:4", "i1+r+i1+b3", (1, 1)),
          norm("IIDBatchNorm2d", "rot2d:4", "r+t", (2, 2), spatial=True), norm("IIDBatchNorm2d", "fliprot2d:3", "b3+t+b3", (1, 1)),
          norm("IIDBatchNorm2d", "rot2d:4", "r+i2", (1, 1), affine=False), norm("IIDBatchNorm2d", "rot2d:4", "i1+i2+t", (1, 1), momentum=0.3),
          norm("IIDBatchNorm2d", "rot2d:3", "r+t", (1, 1), track_running_stats=False),
          norm("IIDBatchNorm3d", "octa", "i1+t+i3", (1, 1, 2)), norm("IIDBatchNorm3d", "octa", "b2+t", (1, 1, 1)), norm("IIDBatchNorm3d", "rot3d", "s2+i1", (1, 1, 1)),
          norm("IIDBatchNorm1d", "r0:SO3", "s2+i2", ()), norm("IIDBatchNorm1d", "r0:D3", "b3+r", ()), norm("IIDBatchNorm1d", "r0:C4", "r+t+r", ()),
          norm("FieldNorm", "rot2d:4", "r+i1+r", (1, 2)), norm("FieldNorm", "rot2d:4", "i1+r+i1+b3", (1, 1)), norm("FieldNorm", "octa", "i1+b2+i3", (1, 1, 2)),
          norm("FieldNorm", "r0:SO3", "s2+i2", ()), norm("FieldNorm", "fliprot2d:3", "b3+i1+b3", (1, 1)), norm("FieldNorm", "rot2d:4", "r+i1", (1, 1), affine=False),
          norm("FieldNorm", "rot2d:4", "r+i1", (2, 2), spatial=True),
          fieldnorm_doc("rot2d:4", "r+i1+r", (1, 2)), fieldnorm_doc("fliprot2d:3", "b3+i1+b3", (1, 1)), fieldnorm_doc("r0:SO3", "s2+i2", ()),
          ]
    for cls, spec, reps, shape in [("InnerBatchNorm", "rot2d:2", "r+t+r", (1, 1)), ("NormBatchNorm", "rot2d:4", "i1+i2+i1", (1, 1)),
                                   ("InducedNormBatchNorm", "fliprot2d:3", "2*vn,3/1", (1, 1)), ("GNormBatchNorm", "rot2d:4", "i1+i2+t", (1, 1)),
                                   ("GNormBatchNorm", "rot2d:3", "r+t", (1, 1)),
                                   ("IIDBatchNorm2d", "rot2d:3", "r+t+i1", (1, 1)), ("IIDBatchNorm1d", "r0:C3", "r+t", ()), ("IIDBatchNorm3d", "octa", "t+i1", (1, 1, 1))]:
        L.append(momentum_none(cls, spec, reps, shape))
    for cls, spec, reps, shape in [("InnerBatchNorm", "rot2d:4", "r+t+r", (1, 1)), ("NormBatchNorm", "rot2d:4", "i1+i2+i1", (1, 1)), ("InducedNormBatchNorm", "fliprot2d:3", "2*vn,3/1", (1, 1)), ("GNormBatchNorm", "rot2d:4", "i1+r+t+i1", (1, 1)),
                                   ("IIDBatchNorm2d", "rot2d:3", "r+t+i1+r", (1, 1)), ("IIDBatchNorm1d", "r0:C3", "r+t", ()), ("IIDBatchNorm3d", "octa", "t+i1", (1, 1, 1)), ("FieldNorm", "rot2d:4", "i1+r+t", (1, 1))]:
        L += [resets(cls, spec, reps, shape), resets(cls, spec, reps, shape, affine=False)] if cls != "FieldNorm" else [resets(cls, spec, reps, shape)]
    return L
