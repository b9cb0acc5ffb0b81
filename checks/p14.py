"""P14 GeometricTensor slicing, splitting and arithmetic match plain tensors"""
from .common import *
from symx.harness import Timeout
from symx import scalar

EXPLANATION = ("Each instance runs the real GeometricTensor code on a tensor of arbitrary entries while indices, slice bounds and break points are z3 integers "
               "(every branch on them is a path condition, all paths in the box are explored); z3 is asked for entries for which the result differs from the "
               "oracle: Python's own index semantics applied to the list of fields, and the plain tensor operation elsewhere.")
ASSUMPTIONS = ["tensor entries range over [-1,1]", "index bounds range over the box in the instance, beyond the ends of every axis by 2",
               "an index whose plain meaning is empty over the fields (no FieldType exists) or out of bounds must raise (a non negative index beyond the end of another axis may select nothing instead)"]


class Fails(Exception):
    pass


class Beyond(Fails):
    """an index beyond the end of an axis which is not the field axis: refused, or nothing is selected (the library's tests use the latter)"""


def conc(v):
    return v if v is None or isinstance(v, int) else v.__index__()


def fields_of(ft, x):
    out, p = [], 0
    for r in ft.representations:
        out.append(x[:, p:p + r.size])
        p += r.size
    return out


def expect(h, label, call, oracle, ft):
    """oracle() -> (data array, list of fields, coords) or raises Fails"""
    empty = False
    try:
        want = oracle()
    except Fails as e:
        want, empty = None, isinstance(e, Beyond)
    try:
        got = call()
    except (Timeout, scalar.PathLimit, scalar.Infeasible):
        raise
    except Exception as e:
        if want is not None:
            h.true("%s raised %s: %s" % (label, type(e).__name__, str(e)[:100]), False)
        else:
            h.true(label, True)
        return
    if want is None:
        h.true(label + ": accepted", empty and got.tensor.numel() == 0)
        return
    data, fs, coords = want
    h.true(label + ": type", isinstance(got, GeometricTensor) and len(got.type) == len(fs)
           and all(a == ft.representations[f] for a, f in zip(got.type.representations, fs)) and got.type.gspace == ft.gspace)
    h.eq(label + ": data", got.tensor, data)
    if coords is None:
        h.true(label + ": no coords", got.coords is None)
    else:
        h.eq(label + ": coords", got.coords, coords)


def pick(n, idx, field=False):
    """list of positions selected by one index over an axis of n elements"""
    if isinstance(idx, slice):
        r = list(range(n))[idx]
    elif isinstance(idx, torch.Tensor):
        r = [i for i in range(n) if bool(idx[i])] if idx.dtype == torch.bool else [range(n)[i] for i in idx.tolist()]
    else:
        if not -n <= idx < n:
            raise Beyond if idx >= n and not field else Fails
        r = [idx % n]
    return r


def tensor_of(h, spec, reps, shape, pts):
    ft = ftype(gs(spec), reps)
    if pts:
        x = h.array("x", (pts, ft.size))
        c = h.array("c", (pts, ft.gspace.dimensionality))
        t = GeometricTensor(h.wrap(x), ft, h.wrap(c))
    else:
        x = h.array("x", (shape[0], ft.size) + tuple(shape[1:]))
        c = None
        t = GeometricTensor(h.wrap(x), ft)
    return ft, x, c, t


def select(ft, x, c, idxs):
    """idxs: one index per leading axis (axis 1 counts fields)"""
    n = len(ft)
    idxs = list(idxs) + [slice(None)] * (x.ndim - len(idxs))
    fs = pick(n, idxs[1], True)
    if not fs:
        raise Fails
    F = fields_of(ft, x)
    y = np.concatenate([F[f] for f in fs], 1)
    cc = c
    for ax, i in enumerate(idxs):
        if ax == 1:
            continue
        pos = pick(x.shape[ax], i)
        y = np.take(y, pos, axis=ax)
        if ax == 0 and c is not None:
            cc = c[pos]
    return y, fs, cc


def getitem(name, spec, reps, dims, make, shape=(2, 1, 1), pts=0, plain=None):
    """make(v) -> index object; plain(v) -> index per axis (defaults to the same tuple)"""
    def run(h, obj):
        ft, x, c, t = tensor_of(h, spec, reps, shape, pts)

        def body(v):
            v = {k: conc(w) for k, w in v.items()}      # indices must be machine integers for torch: fork over their values
            idx = make(v)
            full = plain(v) if plain else (idx if isinstance(idx, tuple) else (idx,))
            expect(h, "[%s]" % (idx,), lambda: t[idx], lambda: select(ft, x, c, full), ft)
        if dims:
            h.forall("index", dims, body)
        else:
            body({})
    return Instance("getitem[%s %s %s %s]" % (name, spec, reps, "points" if pts else shape), lambda: gs(spec), run)


def lazy(name, spec, reps, step, opts, pts=0):
    """slice over the fields with lazily decided bounds: the code under test sees symbolic start and stop"""
    L = len(ftype(gs(spec), reps))
    dims = {k: (-L - 2, L + 2) for k in opts}

    def run(h, obj):
        ft, x, c, t = tensor_of(h, spec, reps, (1, 1, 1), pts)

        def body(v):
            sl = slice(v.get("a"), v.get("b"), step)
            def call():
                return t[:, sl]

            def oracle():
                return select(ft, x, c, (slice(None), slice(conc(v.get("a")), conc(v.get("b")), step)))
            expect(h, "[:, %s:%s:%s]" % (v.get("a"), v.get("b"), step), call, oracle, ft)
        if dims:
            h.forall("slice", dims, body)
        else:
            body({})
    return Instance("fields[%s %s %s%s]" % (name, spec, reps, " points" if pts else ""), lambda: gs(spec), run)


def split(spec, reps, k, kind="list", pts=0):
    L = len(ftype(gs(spec), reps))

    def run(h, obj):
        ft, x, c, t = tensor_of(h, spec, reps, (2, 1, 1), pts)
        F = fields_of(ft, x)

        def body(v):
            b = [conc(v["b%d" % i]) for i in range(k)]
            if any(q <= p for p, q in zip(b, b[1:])) or (b and b[-1] >= L):
                return
            cuts = [0] + [q for q in b if q > 0] + [L]
            arg = None if kind == "none" else (list(b) if kind == "list" else tuple(b))
            if kind == "none":
                cuts = list(range(L + 1))
            keep = list(arg) if arg is not None else None
            if kind == "tuple":
                arg = list(arg)
            try:
                got = t.split(arg)
            except Timeout:
                raise
            except Exception as e:
                h.true("split(%s) raised %s: %s" % (arg, type(e).__name__, e), False)
                return
            h.true("split(%s): argument unchanged" % keep, keep is None or arg == keep)
            h.true("split(%s): number of pieces" % keep, len(got) == len(cuts) - 1)
            for p, (lo, hi) in enumerate(zip(cuts, cuts[1:])):
                if p >= len(got):
                    break
                h.true("split(%s)[%d]: type" % (keep, p), len(got[p].type) == hi - lo and all(a == r for a, r in zip(got[p].type.representations, ft.representations[lo:hi])))
                h.eq("split(%s)[%d]" % (keep, p), got[p].tensor, np.concatenate(F[lo:hi], 1))
                if pts:
                    h.eq("split(%s)[%d]: coords" % (keep, p), got[p].coords, c)
            back = nn.tensor_directsum(got)
            h.true("directsum(split(%s)): type" % keep, back.type == ft)
            h.eq("directsum(split(%s))" % keep, back.tensor, x)
            if pts:
                h.eq("directsum: coords", back.coords, c)
        if k:
            h.forall("breaks", {"b%d" % i: (0, L) for i in range(k)}, body)
        else:
            body({})
    return Instance("split[%s %s %d %s%s]" % (spec, reps, k, kind, " points" if pts else ""), lambda: gs(spec), run)


def arith(spec, reps, shape=(2, 2, 1), pts=0):
    def run(h, obj):
        ft, x, c, t = tensor_of(h, spec, reps, shape, pts)
        y = h.array("y", x.shape)
        s = h.val("s", -2., 2.)
        wr = lambda a: GeometricTensor(h.wrap(a), ft, h.wrap(c) if c is not None else None)
        sx = np.full(x.shape, s, dtype=object if h.symbolic else float)
        sc = h.wrap(np.array(s, dtype=object if h.symbolic else float).reshape(()))
        sc1 = h.wrap(np.array([s], dtype=object if h.symbolic else float))

        def ok(label, got, want):
            h.true(label + ": type", isinstance(got, GeometricTensor) and got.type == ft)
            h.eq(label, got.tensor, want)
            if c is not None:
                h.eq(label + ": coords", got.coords, c)
        u, w = wr(x), wr(y)
        ok("add", u + w, x + y)
        ok("sub", u - w, x - y)
        ok("mul", u * sc, x * sx)
        ok("mul1", u * sc1, x * sx)
        ok("mulf", u * 2.5, x * 2.5)
        ok("rmul", -0.5 * u, x * -0.5)
        ok("operands", u, x)
        ok("operands2", w, y)
        a = wr(x)
        b = a
        a += w
        ok("iadd", a, x + y)
        ok("iadd alias", b, x + y)
        a = wr(x)
        b = a
        a -= w
        ok("isub", a, x - y)
        ok("isub alias", b, x - y)
        a = wr(x)
        b = a
        a *= sc
        ok("imul", a, x * sx)
        ok("imul alias", b, x * sx)
        a = wr(x)
        a *= 2.5
        ok("imulf", a, x * 2.5)
        ok("to", wr(x).to("cpu"), x)
        ok("in place: other operand", w, y)
        h.true("shape", tuple(t.shape) == tuple(x.shape) and tuple(t.size()) == tuple(x.shape))
        for k, g in enumerate(generators(ft.fibergroup)[:2]):
            ok("g@%d" % k, g @ wr(x), act(ft, g, x, False))
            ok("transform_fibers%d" % k, wr(x).transform_fibers(g), act(ft, g, x, False))
        # incompatible operands are refused
        other = FieldType(ft.gspace, tuple(reversed(ft.representations)))
        if other != ft:
            z = GeometricTensor(h.wrap(y), other, h.wrap(c) if c is not None else None)
            for nm, f in (("add", lambda: wr(x) + z), ("sub", lambda: wr(x) - z), ("iadd", lambda: wr(x).__iadd__(z)), ("isub", lambda: wr(x).__isub__(z))):
                try:
                    f()
                    h.true(nm + " of different types refused", False)
                except AssertionError:
                    h.true(nm + " of different types refused", True)
    return Instance("arithmetic[%s %s %s]" % (spec, reps, "points" if pts else shape), lambda: gs(spec), run)


def dsum(spec, parts, shape=(2, 2, 1), pts=0):
    def run(h, obj):
        sp = gs(spec)
        fts = [ftype(sp, p) for p in parts]
        c = h.array("c", (3, sp.dimensionality)) if pts else None
        xs = [h.array("x%d" % i, ((3,) if pts else (shape[0],)) + (f.size,) + (() if pts else shape[1:])) for i, f in enumerate(fts)]
        cw = h.wrap(c) if pts else None
        y = nn.tensor_directsum([GeometricTensor(h.wrap(x), f, cw) for x, f in zip(xs, fts)])
        reps = [r for f in fts for r in f.representations]
        h.true("type", len(y.type) == len(reps) and all(a == b for a, b in zip(y.type.representations, reps)) and y.type.gspace == sp)
        h.eq("data", y.tensor, np.concatenate(xs, 1))
        s = sum(fts[1:], fts[0])
        h.true("FieldType sum", s == y.type)
        if pts:
            h.eq("coords", y.coords, c)
    return Instance("directsum[%s %s %s]" % (spec, "|".join(parts), "points" if pts else shape), lambda: gs(spec), run)


def instances():
    L = []
    lay = [("rot2d:4", "t+r+i1+t+i1"), ("rot2d:8", "i1+i1+i2"), ("fliprot2d:3", "r+t")]
    for spec, reps in lay + ([("rot2d:4", "r+i1+2*t+i2+r+t")] if THOROUGH else []):
        for step in (None, 1, 2, -1) + ((3, -2, -3) if THOROUGH else ()):
            for opts in (("a", "b"), ("a",), ("b",)):
                if step in (2, -1) and opts != ("a", "b") and spec != "rot2d:4":
                    continue
                L.append(lazy("%s step=%s" % ("".join(opts), step), spec, reps, step, opts))
        n = len(ftype(gs(spec), reps))
        L.append(getitem("int field", spec, reps, {"i": (-n - 2, n + 1)}, lambda v: (slice(None), v["i"])))
        L.append(getitem("int batch", spec, reps, {"i": (-5, 4)}, lambda v: v["i"], shape=(3, 1, 1)))
        L.append(getitem("batch, field", spec, reps, {"i": (-4, 3), "j": (-n - 1, n)}, lambda v: (v["i"], v["j"]), shape=(2, 1, 1)))
        L += [split(spec, reps, k, kind) for k, kind in ((0, "none"), (0, "list"), (1, "list"), (2, "list")) if k < n]
        L += [split(spec, reps, 1, "list", 3), split(spec, reps, 0, "none", 2), arith(spec, reps), arith(spec, reps, pts=3)]
    L.append(split("rot2d:4", "t+r+i1+t+i1", 3))
    spec, reps = "rot2d:4", "t+r+i1+t"
    L.append(lazy("ab step=1", spec, reps, 1, ("a", "b"), 3))
    L.append(lazy("ab step=-1", spec, reps, -1, ("a", "b"), 3))
    el = Ellipsis
    S = slice
    def full(*ix):
        return lambda v: ix
    L += [getitem("spatial slices", spec, reps, {"a": (-5, 5), "b": (-5, 5)}, lambda v: (S(None), S(None), S(v["a"], v["b"])), shape=(1, 3, 2)),
          getitem("ellipsis spatial", spec, reps, {"a": (-4, 4)}, lambda v: (el, S(v["a"], None), S(None, v["a"])), shape=(1, 3, 3), plain=lambda v: (S(None), S(None), S(v["a"], None), S(None, v["a"]))),
          getitem("ellipsis int", spec, reps, {"a": (-4, 3)}, lambda v: (el, v["a"]), shape=(1, 2, 3), plain=lambda v: (S(None), S(None), S(None), v["a"])),
          getitem("int ellipsis int", spec, reps, {"a": (-4, 3), "b": (-3, 2)}, lambda v: (v["b"], el, v["a"]), shape=(2, 2, 3), plain=lambda v: (v["b"], S(None), S(None), v["a"])),
          getitem("field ellipsis", spec, reps, {"a": (-5, 4)}, lambda v: (S(None), v["a"], el), shape=(1, 2, 2), plain=lambda v: (S(None), v["a"])),
          getitem("double ellipsis", spec, reps, {"a": (-3, 2)}, lambda v: (el, v["a"], el) if False else (v["a"], el, el), shape=(2, 2, 1), plain=lambda v: (v["a"],)),
          getitem("steps", spec, reps, {"a": (1, 4), "b": (0, 3)}, lambda v: (S(None, None, v["a"]), S(None), S(v["b"], None, v["a"])), shape=(3, 3, 1)),
          getitem("only ellipsis", spec, reps, None, lambda v: el, shape=(2, 2, 1), plain=lambda v: (S(None),)),
          getitem("everything", spec, reps, None, lambda v: (S(None),) * 4, shape=(2, 2, 1))]
    bits = lambda v, n, p: torch.tensor([bool(v["%s%d" % (p, i)]) for i in range(n)])
    b01 = lambda n, p: {"%s%d" % (p, i): (0, 1) for i in range(n)}
    L += [getitem("bool fields", spec, reps, b01(4, "m"), lambda v: (S(None), bits(v, 4, "m"))),
          getitem("bool batch", spec, reps, b01(3, "m"), lambda v: bits(v, 3, "m"), shape=(3, 1, 1)),
          getitem("bool batch, fields", spec, reps, dict(b01(3, "m"), a=(-5, 5)), lambda v: (bits(v, 3, "m"), S(v["a"], None)), shape=(3, 1, 1)),
          getitem("long fields", spec, reps, {"i": (-4, 3), "j": (-4, 3)}, lambda v: (S(None), torch.tensor([v["i"], v["j"]]))),
          getitem("long batch", spec, reps, {"i": (-3, 2), "j": (-3, 2)}, lambda v: torch.tensor([v["i"], v["j"]]), shape=(3, 1, 1)),
          getitem("points int", spec, reps, {"i": (-5, 4)}, lambda v: v["i"], pts=3),
          getitem("points slice", spec, reps, {"a": (-5, 5), "b": (-5, 5)}, lambda v: (S(v["a"], v["b"]),), pts=3),
          getitem("points slice fields", spec, reps, {"a": (-4, 4), "j": (-5, 4)}, lambda v: (S(None, v["a"]), v["j"]), pts=3),
          getitem("points bool", spec, reps, b01(3, "m"), lambda v: bits(v, 3, "m"), pts=3),
          getitem("points long", spec, reps, {"i": (-3, 2), "j": (-3, 2)}, lambda v: torch.tensor([v["i"], v["j"]]), pts=3),
          getitem("points fields", spec, reps, {"a": (-6, 6), "b": (-6, 6)}, lambda v: (S(None), S(v["a"], v["b"], 2)), pts=2)]
    L += [arith("octa", "t+i1", (1, 1, 2, 1)), arith("r0:D3", "r+i1", (3,)), dsum("rot2d:4", ["t+r", "i1", "t"]), dsum("octa", ["t", "i1+t"], (1, 1, 1, 2)), dsum("rot2d:4", ["t+r", "i1"], pts=3), dsum("r0:D3", ["r", "r", "t"], (2,))]
    return L
