"""P07 linear and convolutional layers commute with the group action for all weights and inputs"""
from .common import *

EXPLANATION = ("Each instance constructs the real layer, replaces its parameters and input by symbolic reals in [-1,1], executes "
               "forward symbolically on x and on g.x, and asks z3 for a weight/input assignment with |layer(g.x) - g.layer(x)| > 1e-3. "
               "Group elements: generators of the subgroup that maps the pixel grid to itself (R2/R3 layers), generators of (a dense "
               "subgroup of) the group for Linear. unsat = holds for all weights and inputs of the box at that configuration.")
ASSUMPTIONS = ["floats are modelled as reals; coefficients closer than 1e-6 are identified",
               "weights, biases and inputs range over [-1,1]; layer configurations and grid sizes are those listed in coverage.samples",
               "sampled filter bases are taken as the constants the real code computed at construction",
               "g acts by the oracle rho(g)=Q diag(irreps) Q^-1 and the pixel permutation of basespace_action(g) (tied to the code by P02/P16)"]


def conv_instance(kind, spec, i, o, size, k=3, cost=1.0, **kw):
    def setup():
        sp = gs(spec)
        cls = getattr(nn, kind)
        return cls(ftype(sp, i), ftype(sp, o), kernel_size=k, initialize=False, **kw)
    name = "%s[%s %s->%s n=%s k=%d %s]" % (kind, spec, i, o, "x".join(map(str, size)), k, ",".join("%s=%s" % t for t in sorted(kw.items()) if not callable(t[1])))
    return Instance(name, setup, equivariance(None, size, lambda m: grid_elements(m.in_type.gspace)), cost=cost)


def linear_instance(spec, i, o, cost=0.5, **kw):
    def setup():
        sp = gs("r0:" + spec)
        return nn.Linear(ftype(sp, i), ftype(sp, o), initialize=False, **kw)
    return Instance("Linear[%s %s->%s %s]" % (spec, i, o, ",".join("%s=%s" % t for t in kw.items())), setup,
                    equivariance(None, (), lambda m: generators(m.in_type.fibergroup), spatial=False, batch=2), cost=cost)


def instances():
    L = []
    c2, c3, t2, t3 = "R2Conv", "R3Conv", "R2ConvTransposed", "R3ConvTransposed"
    s3, s4, s5 = (3, 3), (4, 4), (5, 5)
    # ---- R2Conv
    L += [
        conv_instance(c2, "triv2d", "2*t", "t+t", s3, padding=1),
        conv_instance(c2, "rot2d:2", "r+i1", "i0+r+i1", s4, padding=1),
        conv_instance(c2, "rot2d:4", "r", "r", s4, padding=1),
        conv_instance(c2, "rot2d:4", "t+i1+i2", "i2+r+i1", s3, padding=1),
        conv_instance(c2, "rot2d:4", "i1+r", "q2+i2", s5, k=5, padding=1),
        conv_instance(c2, "rot2d:4", "i1", "i1+r", s5, k=3, padding=1, stride=2),
        conv_instance(c2, "rot2d:4", "i1", "i2+r", s5, k=3, padding=2, dilation=2),
        conv_instance(c2, "rot2d:4", "r+r", "i1+i1", s3, padding=1, groups=2),
        conv_instance(c2, "rot2d:4", "i1+t+i1+t", "r+i2+r+i2", s3, padding=1, groups=2),
        conv_instance(c2, "rot2d:4", "i1+t", "r", s4, padding=1, padding_mode="circular"),
        conv_instance(c2, "rot2d:4", "i1+t", "r", s4, padding=1, padding_mode="reflect"),
        conv_instance(c2, "rot2d:4", "i1+t", "r", s4, padding=1, padding_mode="replicate"),
        conv_instance(c2, "rot2d:4", "r", "i1", s4, padding=1, bias=False),
        conv_instance(c2, "rot2d:4", "r", "i1", s4, k=2, rings=[0.0, 0.7], sigma=0.6, frequencies_cutoff=3.0),
        conv_instance(c2, "rot2d:4", "i1", "r", s5, k=4),
        conv_instance(c2, "rot2d:4", "b3", "b3+t", s3, padding=1),
        conv_instance(c2, "rot2d:8", "i3+r", "i1+t", s3, padding=1),
        conv_instance(c2, "rot2d:8", "r", "r", s3, k=1),
        conv_instance(c2, "rot2d:6", "i1+i3", "r", s3, padding=1),
        conv_instance(c2, "fliprot2d:4", "r", "r", s3, padding=1, cost=3),
        conv_instance(c2, "fliprot2d:4", "i4+i1+t", "i2+i4+i3", s4, padding=1),
        conv_instance(c2, "fliprot2d:4", "b5", "i4+r", s3, padding=1, cost=2),
        conv_instance(c2, "fliprot2d:2", "r", "i1+r", s4, padding=1),
        conv_instance(c2, "fliprot2d:4", "q0,2", "qn,2+i4", s3, padding=1),
        conv_instance(c2, "flip2d", "r+i1", "i1+t+r", s4, padding=1),
        conv_instance(c2, "flip2d:0.0", "r+i1", "i1+t+r", s4, padding=1),
        conv_instance(c2, "fliprot2d:8", "i5+i4", "i1+i6", s3, padding=1, cost=2),
        conv_instance(c2, "rot2d:-1", "t+i1+i2", "i3+i1+t", s4, padding=1),
        conv_instance(c2, "rot2d:-1", "i1+i2", "s3", s5, k=5, padding=0),
        conv_instance(c2, "fliprot2d:-1", "t+i1+i2", "i3+i1+t", s4, padding=1, cost=2),
        conv_instance(c2, "rot2d:4", "i1+t", "r", s5, k=5, padding=2, rings=[0.0, 1.0, 2.0], sigma=0.6, frequencies_cutoff=2.0),
        conv_instance(c2, "rot2d:4", "i1+t", "r", s5, k=5, padding=2, frequencies_cutoff=-2.0),
        conv_instance(c2, "rot2d:4", "i1+t", "r", s5, k=5, padding=2, frequencies_cutoff=-3.0),
        conv_instance(c2, "rot2d:4", "i1+r", "r+i1", s3, padding=1, recompute=True),
        conv_instance(c2, "rot2d:4", "c2+t", "t+c3", s3, padding=1),
        conv_instance(c2, "fliprot2d:3", "c3", "i2+c2", s3, padding=1),
        conv_instance(c2, "rot2d:-1", "c2+i1", "c3", s3, padding=1),
    ]
    # ---- transposed
    L += [
        conv_instance(t2, "rot2d:4", "i1+t", "r+i1", s3, padding=1, stride=2),
        conv_instance(t2, "rot2d:4", "r", "i2+r", s3, padding=0, stride=1),
        conv_instance(t2, "fliprot2d:4", "i4+t", "r", s3, padding=1, stride=2, cost=2),
        conv_instance(t2, "rot2d:-1", "i1+t", "i2+i1", s3, k=5, padding=2, stride=2),
        conv_instance(t2, "rot2d:4", "i1+i1", "r+r", s3, padding=1, groups=2),
        conv_instance(t2, "rot2d:4", "i1", "r", s3, padding=1, dilation=2),
        conv_instance(t2, "rot2d:4", "i1", "r", s3, padding=1, bias=False),
        conv_instance(t2, "rot2d:4", "c2", "t+c3", s3, padding=1),
    ]
    # ---- R3
    q3 = (3, 3, 3)
    L += [
        conv_instance(c3, "triv3d", "t", "2*t", (2, 2, 2), padding=1),
        conv_instance(c3, "inv", "i1+t", "r", q3, padding=1),
        conv_instance(c3, "mir", "i1+t", "r", q3, padding=1),
        conv_instance(c3, "rot2d3:4", "i1", "r", q3, padding=1, cost=2),
        conv_instance(c3, "rot2d3:4", "i1", "i1+t", (5, 5, 5), padding=1, stride=2, cost=2),
        conv_instance(c3, "dih3:4", "i4", "i1+t", q3, padding=1, cost=2),
        conv_instance(c3, "conical:4", "i4+t", "i4", q3, padding=1, cost=2),
        conv_instance(c3, "cyl:4", "i1+t", "i1", q3, padding=1, cost=2),
        conv_instance(c3, "fullcyl:2", "i1+t", "i2+i3", q3, padding=1, cost=2),
        conv_instance(c3, "octa", "i1+t", "i1+i2", q3, padding=1, cost=5),
        conv_instance(c3, "octa", "i3", "i4", q3, cost=4),
        conv_instance(c3, "fullocta", "i1+t", "i3+t", q3, padding=0, cost=6),
        conv_instance(c3, "rot3d", "i1+t", "i1+i2", q3, padding=0, cost=4),
        conv_instance(c3, "rot3d", "i1", "i2", q3, padding=1, padding_mode="circular", cost=4),
        conv_instance(c3, "fliprot3d", "i1+i3", "i4+t", q3, padding=0, cost=4),
        conv_instance(t3, "octa", "t", "i1", q3, padding=1, stride=2, cost=4),
        conv_instance(t3, "rot2d3:4", "i1", "i2+t", (2, 2, 2), padding=1, stride=1, cost=2),
        conv_instance(c3, "rot2d3:-1", "i1", "i1+t", q3, padding=1, cost=2),
        conv_instance(c3, "conical:-1", "i2+t", "i2", q3, padding=1, cost=2),
        conv_instance(c3, "dih3:-1", "i1+t", "i2", q3, padding=1, cost=2),
        conv_instance(c3, "octa", "c2", "c2+t", q3, cost=4), conv_instance(t3, "rot2d3:4", "c2", "t+c2", (2, 2, 2), padding=1, cost=2),
    ]
    for kw in (dict(frequencies_cutoff="default2"), dict(frequencies_cutoff="default3"), dict(frequencies_cutoff=1.0, rings=[0.0, 1.0], sigma=0.6)):
        L.append(conv_instance(c3, "rot2d3:4", "i1+t", "i1+t", q3, padding=1, cost=2, **kw))
    for smp, i, o in (("ico", "i1+t", "t+i1"), ("dodeca", "t+i1", "i1"), ("icosidodeca", "i1", "t+i1")):
        L.append(conv_instance("R3IcoConv", "ico", i, o, q3, padding=1, samples=smp, cost=6))
    L += [conv_instance("R3IcoConvTransposed", "ico", "i1+t", "i1", (2, 2, 2), samples="ico", cost=6), conv_instance("R3IcoConvTransposed", "ico", "t", "t+i1", (2, 2, 2), samples="dodeca", stride=2, padding=1, cost=6),
          conv_instance(c3, "ico", "i1+t", "t+i1", q3, cost=6)]
    # ---- Linear
    L += [
        linear_instance("C1", "2*t", "3*t"),
        linear_instance("C2", "r+i1", "i1+r+t"),
        linear_instance("C3", "r+i1", "i1+r"),
        linear_instance("C4", "r+i2+i1", "q2+i1+r"),
        linear_instance("C5", "i1+i2", "b3+i2"),
        linear_instance("C6", "r", "r+q3"),
        linear_instance("D3", "r+i1", "i2+r+i1"),
        linear_instance("D4", "i1+r", "r+qn,2+q0,2"),
        linear_instance("D5", "i2+i3", "b4"),
        linear_instance("D6", "i2+i3", "r"),
        linear_instance("SO2", "i1+t+i2", "i1+s3"),
        linear_instance("O2", "i1+t+i2", "i2+s4+i1"),
        linear_instance("SO3", "i1+t+i2", "i2+s3"),
        linear_instance("O3", "i1+t+i3", "i3+s4"),
        linear_instance("O", "i1+i3", "i3+i1+t", cost=3),
        linear_instance("I", "i1+i2", "i2+i1+t", cost=6),
        linear_instance("K4", "r+i1", "i2+r"),
        linear_instance("F2", "i3+r", "r+i1"),
        linear_instance("C4", "r+i1", "r", bias=False),
        linear_instance("C4", "r+i1", "r", recompute=True),
        linear_instance("C4", "c3+t", "r+c3"), linear_instance("D3", "c3", "c2+i2"), linear_instance("SO2", "c3", "c3+i1"), linear_instance("SO3", "c2+i1", "t+c2"), linear_instance("O2", "i2+c3", "c4"),
    ]
    if THOROUGH:
        for sp in ("rot2d:3", "rot2d:4", "rot2d:6", "rot2d:8", "rot2d:12", "rot2d:16", "fliprot2d:3", "fliprot2d:4", "fliprot2d:6",
                   "fliprot2d:8", "fliprot2d:1", "flip2d", "rot2d:-1", "fliprot2d:-1"):
            for i in range(4):
                for o in range(4):
                    L.append(conv_instance(c2, sp, "i%d" % i, "i%d+t" % o, s3, padding=1))
        for sp in ("octa", "rot3d", "fliprot3d", "dih3:3", "dih3:4", "cyl:4", "fullcyl:4", "conical:4", "rot2d3:4", "fullocta", "ico"):
            for i in range(4):
                for o in range(4):
                    L.append(conv_instance(c3, sp, "i%d" % i, "i%d+t" % o, q3, cost=5))
        for g in ("C7", "C8", "C9", "D1", "D2", "D7", "D8", "O", "I", "Oh", "SO2", "O2", "SO3", "O3", "K3", "F3", "CylSO2"):
            for i in range(5):
                L.append(linear_instance(g, "i%d+t" % i, "s4+i%d" % i))
    # several specs clamp to the same irrep for small groups: keep one of each name
    seen, R = set(), []
    for x in L:
        if x.name not in seen:
            seen.add(x.name)
            R.append(x)
    return R
