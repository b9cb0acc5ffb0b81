"""P13 cached filters never go stale"""
from .common import *
from symx import harness as hz
import copy

EXPLANATION = ("Each instance builds the real module three times (subject, donor, reference) and explores every history of operations up to the stated length: "
               "T=train(), E=eval(), U=update of all parameters to fresh symbolic values, L=load_state_dict(strict) of a state saved by a donor in the same mode, "
               "F=forward. All parameter generations and inputs are symbolic. At the end of each history the subject's output must equal the training-mode output of a "
               "never cached reference with the current parameters, and loading its state_dict into another module in the same mode must give the same outputs in both modes; "
               "z3 is asked for parameter values and inputs that make them differ.")
ASSUMPTIONS = ["floats are modelled as reals; coefficients closer than 5e-6 are identified", "inputs and parameters range over [-1,1]",
               "updates made in eval mode are only required to show after the next train() (documented)", "state dicts are loaded in the mode they were saved in (documented)",
               "histories of the listed operations up to the length in the instance name"]


def mods(m):
    return list(m.named_modules())


def params(m):
    return [(n + "." + k, p) for n, mm in mods(m) for k, p in mm._parameters.items() if p is not None]


def assign(h, m, tag):
    with torch.no_grad():
        for n, p in params(m):
            p.copy_(h.wrap(h.array("%s%s" % (tag, n), p.shape)))


def hist(name, build, call, depth, cost=3.0, timeout=300, bn=False):
    def setup():
        return [build(), build(), build()]

    def run(h, obj):
        m, donor, ref = obj
        for k, mm in enumerate(obj):
            h.free(mm, "i%d" % k, buffers=False)
        args = call(h, m)
        # donor states
        donor.train()
        assign(h, donor, "d")
        sd = {}
        sd[True] = {k: v.clone() for k, v in donor.state_dict().items()}
        donor.eval()
        sd[False] = {k: v.clone() for k, v in donor.state_dict().items()}
        ref.train()

        def refout():
            for (_, a), (_, b) in zip(mods(ref), mods(m)):
                for k in a._parameters:
                    a._parameters[k] = b._parameters[k]
            if bn:
                ref.eval()
                ref.train()
                for mm in ref.modules():
                    if "Norm" in type(mm).__name__:
                        mm.train(False)
            return ref(args()).tensor

        cnt = [0]

        def observe(path):
            cnt[0] += 1
            y = m(args()).tensor
            h.eq(path + ":out", y, refout())
            mode = m.training
            donor.train(not mode)
            donor.train(mode)
            donor.load_state_dict(m.state_dict(), strict=True)
            y2 = donor(args()).tensor
            h.eq(path + ":loaded", y2, y)
            donor.train(not mode)
            h.eq(path + ":loaded, other mode", donor(args()).tensor, y)
            donor.train(mode)
            h.eq(path + ":loaded, back", donor(args()).tensor, y)

        def dfs(path, ok, switched, ups):
            if ok and switched:
                s = hz.snapshot([m, donor])
                observe(path)
                _restore(s)
            if len(path) >= depth:
                return
            for op in "TEULF":
                if op == "L" and not switched:
                    continue
                if op in "TE" and path[-2:] == op * 2:
                    continue            # a third identical switch
                if op == "F" and (not ok or not switched or path[-1:] == "F"):
                    continue
                s = hz.snapshot([m])
                o2, s2, u2 = ok, switched, ups
                if op == "T":
                    m.train()
                    o2, s2 = True, True
                elif op == "E":
                    m.eval()
                    s2 = True
                elif op == "U":
                    u2 += 1
                    assign(h, m, "u%d" % u2)
                    if not m.training:
                        o2 = False
                elif op == "L":
                    r = m.load_state_dict(sd[m.training], strict=True)
                    o2 = True
                elif op == "F":
                    m(args())
                dfs(path + op, o2, s2, u2)
                _restore(s)

        dfs("", True, False, 0)
        h.true("histories %d" % cnt[0], cnt[0] > 10)
    return Instance("%s len<=%d" % (name, depth), setup, run, cost=cost, timeout=timeout)


def _restore(s):
    # share the snapshot's tensors (each snapshot is used once)
    for m, d in s:
        m.__dict__.clear()
        m.__dict__.update(d)


def feat(shape, batch=1):
    def call(h, m):
        x = h.array("x", (batch, m.in_type.size) + shape)
        return lambda: geo(h, x.copy(), m.in_type)
    return call


def lin(spec, i, o, depth, **kw):
    def build():
        sp = gs(spec)
        return nn.Linear(ftype(sp, i), ftype(sp, o), initialize=False, **kw)
    return hist("Linear[%s %s->%s %s]" % (spec, i, o, kw), build, feat(()), depth)


def conv(cls, spec, i, o, k, shape, depth, cost=3.0, **kw):
    def build():
        sp = gs(spec)
        return getattr(nn, cls)(ftype(sp, i), ftype(sp, o), k, initialize=False, **kw)
    return hist("%s[%s %s->%s k=%d %s]" % (cls, spec, i, o, k, kw), build, feat(shape), depth, cost)


def tens(spec, i, o, depth):
    def build():
        sp = gs(spec)
        return nn.TensorProductModule(ftype(sp, i), ftype(sp, o), initialize=False)
    return hist("TensorProductModule[%s %s->%s]" % (spec, i, o), build, feat(()), depth)


def pconv(cls, spec, i, o, depth, **kw):
    def build():
        sp = gs(spec)
        return getattr(nn, cls)(ftype(sp, i), ftype(sp, o), n_rings=2, sigma=0.6, width=1.5, frequencies_cutoff=2., initialize=False, **kw) if False else \
            getattr(nn, cls)(ftype(sp, i), ftype(sp, o), n_rings=2, width=1.5, frequencies_cutoff=2., initialize=False, **kw)

    class Wrap(torch.nn.Module):
        def __init__(self, c):
            super().__init__()
            self.c = c
            self.in_type = c.in_type

        def forward(self, a):
            return self.c(*a)

    d = 2 if "R2" in cls else 3

    def call(h, m):
        x = h.array("x", (2, m.in_type.size))
        pos = torch.tensor(np.random.RandomState(1).uniform(-1, 1, (2, d)), dtype=h.dtype)
        ei = torch.tensor([[0, 1, 1], [0, 0, 1]])
        return lambda: (geo(h, x.copy(), m.in_type, pos), ei)
    return hist("%s[%s %s->%s %s]" % (cls, spec, i, o, kw), lambda: Wrap(build()), call, depth)


def seq(name, build, shape, depth, **kw):
    return hist("Sequential[%s]" % name, build, feat(shape), depth, 4.0, **kw)


def _s1():
    sp = gs("rot2d:2")
    a, b = ftype(sp, "t"), ftype(sp, "r")
    return nn.SequentialModule(nn.R2Conv(a, b, 1, initialize=False), nn.R2Conv(b, a, 1, initialize=False))


def _s2():
    sp = gs("rot2d:2")
    a, b = ftype(sp, "i1"), ftype(sp, "i1")
    return nn.SequentialModule(nn.R2Conv(a, b, 1, initialize=False), nn.SequentialModule(nn.IdentityModule(b), nn.R2ConvTransposed(b, b, 3, initialize=False)))


def instances():
    L = []
    D = 5 if THOROUGH else 4
    d3 = D - 1
    L += [lin("r0:C2", "r", "t+i1", D), lin("r0:D3", "i2+t", "r", d3), lin("r0:SO3", "i1+t", "i1+t", d3), lin("r0:C2", "r", "r", D, bias=False), lin("r0:C2", "c2", "t+c2", d3)]
    L += [conv("R2Conv", "rot2d:4", "t", "r", 1, (1, 1), D), conv("R2Conv", "rot2d:4", "i1", "t", 3, (1, 1), D, padding=1), conv("R2Conv", "fliprot2d:3", "t", "i2+t", 3, (1, 1), d3, padding=1, bias=False),
          conv("R2Conv", "rot2d:-1", "i1", "i1+t", 3, (1, 1), d3, padding=1), conv("R2Conv", "rot2d:2", "2*t", "2*r", 1, (1, 1), d3, groups=2), conv("R2Conv", "rot2d:2", "t", "r", 3, (1, 1), d3, padding=1, recompute=True),
          conv("R2Conv", "rot2d:4", "t", "t+i1", 3, (2, 2), d3, padding=1, padding_mode="circular")]
    L += [conv("R2ConvTransposed", "rot2d:4", "t", "r", 1, (1, 1), D), conv("R2ConvTransposed", "rot2d:4", "i1", "t", 3, (1, 1), d3, padding=1), conv("R2ConvTransposed", "flip2d", "r", "t", 1, (1, 1), d3, bias=False)]
    L += [conv("R3Conv", "octa", "t", "t+i1", 3, (1, 1, 1), d3, padding=1), conv("R3Conv", "inv", "t", "t", 1, (1, 1, 1), D), conv("R3ConvTransposed", "octa", "i1", "t", 3, (1, 1, 1), d3, padding=1),
          conv("R3ConvTransposed", "inv", "t", "t", 1, (1, 1, 1), d3, bias=False)]
    L += [tens("r0:C2", "r", "r", D), tens("r0:C4", "2*i1", "2*t", d3), tens("r0:D3", "r", "i2", d3)]
    L += [pconv("R2PointConv", "rot2d:4", "t", "r", d3), pconv("R2PointConv", "rot2d:4", "i1", "t", d3, bias=False), pconv("R3PointConv", "octa", "t", "i1+t", d3)]
    L += [seq("conv-conv", _s1, (1, 1), d3), seq("conv-(id-convT)", _s2, (1, 1), d3)]
    return L
