"""Run one harness symbolically (for every input in the box) and concretely (encoder validation, replay)."""
import json
import math
import os
import random
import signal
import sys
import time
import traceback

import numpy as np
import torch

from . import poly, solve, symt
from .poly import num

EPS = 1e-3


class Skip(Exception):
    """the configuration is outside the property's precondition"""


class Claim:
    __slots__ = ("label", "lhs", "rhs", "eps", "path")

    def __init__(self, label, lhs, rhs, eps):
        self.label, self.lhs, self.rhs, self.eps = label, lhs, rhs, eps
        self.path = None


def flat(x):
    if isinstance(x, symt.SymT):
        return list(x.a.reshape(-1))
    if isinstance(x, torch.Tensor):
        return [float(v) for v in x.detach().double().reshape(-1)]
    if isinstance(x, np.ndarray):
        return list(x.reshape(-1)) if x.dtype == object else [float(v) for v in x.reshape(-1)]
    if isinstance(x, (list, tuple)):
        r = []
        for y in x:
            r += flat(y)
        return r
    return [x]


class H:
    """what a harness sees.  mode 'sym': values are symbolic.  mode 'num': real tensors, values by name."""

    def __init__(self, mode, values=None, seed=0):
        self.mode = mode
        self.values = values if values is not None else {}
        self.rng = random.Random(seed)
        self.claims = []
        self.boxes = {}
        self.facts = []
        self.dtype = torch.float64

    @property
    def symbolic(self):
        return self.mode == "sym"

    # ---- inputs
    def val(self, name, lo=-1.0, hi=1.0):
        if self.symbolic:
            return poly.var(name, lo, hi)
        if name not in self.values:
            self.values[name] = self.rng.uniform(lo, hi)
        self.boxes[name] = (lo, hi)
        return self.values[name]

    def bit(self, name):
        if self.symbolic:
            return poly.boolvar(name)
        if name not in self.values:
            self.values[name] = float(self.rng.random() < .5)
        return self.values[name]

    def array(self, name, shape, lo=-1.0, hi=1.0):
        a = np.empty(tuple(shape), dtype=object if self.symbolic else float)
        for i in np.ndindex(a.shape):
            a[i] = self.val("%s[%s]" % (name, ",".join(map(str, i))), lo, hi)
        return a

    def tensor(self, name, shape, lo=-1.0, hi=1.0):
        return self.wrap(self.array(name, shape, lo, hi))

    def wrap(self, a):
        if self.symbolic:
            return symt.SymT(np.asarray(a, dtype=object).copy())
        return torch.tensor(np.asarray(a, dtype=float), dtype=self.dtype)

    def cs(self, name):
        """(cos, sin) of an arbitrary angle"""
        if self.symbolic:
            return poly.anglevar(name)
        if name + ".c" not in self.values:
            th = self.rng.uniform(0, 2 * math.pi)
            self.values[name + ".c"], self.values[name + ".s"] = math.cos(th), math.sin(th)
        return self.values[name + ".c"], self.values[name + ".s"]

    def angle(self, name):
        c, s = self.cs(name)
        if self.symbolic:
            return poly.angle(name)
        return math.atan2(s, c)

    def quat(self, name):
        if self.symbolic:
            return poly.quatvar(name)
        if name + ".x" not in self.values:
            q = [self.rng.gauss(0, 1) for _ in range(4)]
            n = math.sqrt(sum(a * a for a in q))
            for k, a in zip("xyzw", q):
                self.values[name + "." + k] = a / n
        return tuple(self.values[name + "." + k] for k in "xyzw")

    def sphere(self, name):
        """a free unit vector of R^3"""
        if self.symbolic:
            return poly.spherevar(name)
        if name + ".x" not in self.values:
            q = [self.rng.gauss(0, 1) for _ in range(3)]
            n = math.sqrt(sum(a * a for a in q))
            for k, a in zip("xyz", q):
                self.values[name + "." + k] = a / n
        return tuple(self.values[name + "." + k] for k in "xyz")

    def nokernel(self, label, A, tol=1e-5):
        """A w = 0 only for w = 0: z3 looks for w with max |w| = 1 and |A w| <= tol"""
        A = np.asarray(A, dtype=float)
        if A.shape[1] == 0:
            return self.true(label, True)
        if self.symbolic:
            st = [0, 0.0]
            r, w = solve.kernel_vector(A, tol, st)
            QUERIES[0] += st[0]
            QUERIES[1] += st[1]
            if r == "unknown":
                raise symt.Unsupported("no verdict of the solver: " + label)
            self.true(label, r == "unsat")
        else:
            # replay: the least singular value of the matrix of the real code
            sv = np.linalg.svd(A, compute_uv=False)
            self.true(label, len(sv) >= A.shape[1] and sv[-1] > tol * math.sqrt(A.size))

    def free(self, module, prefix="", lo=-1.0, hi=1.0, buffers=True, params=True):
        """make every parameter (and running statistic) of a module an arbitrary value"""
        for n, m in module.named_modules():
            if params:
                for k, p in list(m._parameters.items()):
                    if p is not None:
                        m._parameters[k] = self._param(self.array("%s%s.%s" % (prefix, n, k), p.shape, lo, hi))
            if buffers:
                for k, b in list(m._buffers.items()):
                    if b is not None and "running_" in k and b.is_floating_point():
                        l, h = (0.2, 2.0) if "var" in k else (lo, hi)
                        m._buffers[k] = self.wrap(self.array("%s%s.%s" % (prefix, n, k), b.shape, l, h))

    def _param(self, a):
        if self.symbolic:
            return symt.parameter(np.asarray(a, dtype=object))
        return torch.nn.Parameter(torch.tensor(np.asarray(a, dtype=float), dtype=self.dtype), requires_grad=False)

    # ---- claims
    def eq(self, label, lhs, rhs, eps=EPS):
        sl = tuple(getattr(lhs, "shape", ()))
        sr = tuple(getattr(rhs, "shape", ()))
        if sl != sr and not (len(sl) == 0 or len(sr) == 0):
            self.claims.append(Claim(label + ":shape %s vs %s" % (sl, sr), [1.0], [0.0], eps))
            return
        l, r = flat(lhs), flat(rhs)
        if len(l) != len(r):
            self.claims.append(Claim(label + ":size", [1.0], [0.0], eps))
            return
        self.claims.append(Claim(label, l, r, eps))

    def forall(self, label, dims, body, limit=3000):
        """body(vals) for all integers in dims = {name: (lo, hi)}: z3-backed integers, one symbolic run of body per path condition"""
        from . import scalar
        if self.symbolic:
            eng = scalar.Engine()

            def fn():
                k = len(self.claims)
                try:
                    body({n: scalar.int_var(eng, n, lo, hi) for n, (lo, hi) in dims.items()})
                except Timeout:
                    raise
                except (scalar.Infeasible, scalar.PathLimit, symt.Unsupported, poly.SymbolicDecision):
                    del self.claims[k:]
                    raise
                except Exception as e:
                    self.claims.append(Claim("%s raised %s: %s" % (label, type(e).__name__, str(e)[:120]), [1.0], [0.0], EPS))
            reps = []
            for e, r, x in scalar.explore(fn, limit=limit, eng=eng):
                if x is not None:
                    raise x
                reps.append(eng.point(dims))
            PATHS[label] = reps
            QUERIES[0] += eng.queries
            QUERIES[1] += eng.time
            QUERIES[2] += len(reps)
            return
        reps = self.values.get("paths:" + label, PATHS.get(label))
        self.values["paths:" + label] = reps
        for v in reps:
            try:
                body(dict(v))
            except Timeout:
                raise
            except Exception as e:
                self.claims.append(Claim("%s%s raised %s: %s" % (label, v, type(e).__name__, str(e)[:120]), [1.0], [0.0], EPS))

    def pick(self, name, n):
        """a one-hot choice among n: list of selectors (symbolic) or 0/1 numbers"""
        if self.symbolic:
            return poly.onehot(name, n)
        if name + "[0]" not in self.values or sum(self.values.get("%s[%d]" % (name, i), 0.0) > .5 for i in range(n)) != 1:
            k = self.rng.randrange(n)
            for i in range(n):
                self.values["%s[%d]" % (name, i)] = float(i == k)
        return [self.values["%s[%d]" % (name, i)] for i in range(n)]

    def paths(self, label, dims, body, limit=4000):
        """body(vals) for all group parameters in dims: name -> (lo, hi) integers, or ("angle", D, lo, hi) in turns.
        The code under test runs on symbolic integers and angles, one run per feasible path."""
        from . import scalar, sgroup
        if self.symbolic:
            eng = scalar.Engine()
            count = [0]
            mine = []

            def fn():
                p = count[0] = count[0] + 1
                sgroup.reset()
                vals = {}
                k = len(self.claims)
                raised = poly.SymbolicDecision.raised
                for n, d in dims.items():
                    if d[0] == "angle":
                        c, s = poly.anglevar("%s@%s#%d" % (n, label, p))
                        vals[n] = sgroup.angle_atom(n, c, s, d[1], d[2], d[3])
                    else:
                        v = z3i(n)
                        eng.vars[n] = v
                        sgroup.A.bnd[n] = (d[0], d[1])
                        eng.add(scalar.z3.And(v >= d[0], v <= d[1]))
                        vals[n] = sgroup.FInt(v)
                try:
                    with sgroup.patched():
                        body(vals)
                        for cv, sv, cc, ss in sgroup.substitution():
                            m = {cv: cc, sv: ss}
                            for cl in self.claims[k:]:
                                cl.lhs = [poly.subst(x, m) for x in cl.lhs]
                                cl.rhs = [poly.subst(x, m) for x in cl.rhs]
                except Timeout:
                    raise
                except (scalar.Infeasible, scalar.PathLimit, symt.Unsupported, poly.SymbolicDecision):
                    del self.claims[k:]
                    raise
                except Exception as e:
                    if poly.SymbolicDecision.raised != raised:
                        raise poly.SymbolicDecision("hidden by the code under test, then %s: %s" % (type(e).__name__, str(e)[:100]))
                    if os.environ.get("SYMX_VERBOSE") == "2":
                        traceback.print_exc()
                    self.claims.append(Claim("%s raised %s: %s" % (label, type(e).__name__, str(e)[:120]), [1.0], [0.0], EPS))
                if poly.SymbolicDecision.raised != raised:
                    raise poly.SymbolicDecision("hidden by the code under test")
                for c in self.claims[k:]:
                    c.path = (label, p)
                return k, p

            z3i = scalar.z3.Int
            for e, r, x in scalar.explore(fn, limit=limit, eng=eng):
                if x is not None:
                    raise x
                k, p = r
                bad = any(num(l) and num(rr) and abs(l - rr) > c.eps for c in self.claims[k:] for l, rr in zip(c.lhs, c.rhs))
                mine += _points(e, dims, p, 80 if bad else 1)
            PATHS[label] = mine
            QUERIES[0] += eng.queries
            QUERIES[1] += eng.time
            QUERIES[2] += count[0]
            if os.environ.get("SYMX_VERBOSE") == "3":
                print("   ", label, count[0], "paths", round(eng.time, 2), "s")
            return
        reps = self.values.get("paths:" + label, PATHS.get(label))
        if reps is None:
            reps = [{**{n: self.rng.uniform(d[2], d[3]) if d[0] == "angle" else self.rng.randint(d[0], d[1]) for n, d in dims.items()}, "#": "r%d" % k}
                    for k in range(6)]
        self.values["paths:" + label] = reps
        for rep in reps:
            p = rep["#"]
            vals = {}
            for n, d in dims.items():
                if d[0] == "angle":
                    a = "%s@%s#%s" % (n, label, p)
                    if a + ".c" in self.values and "raw" not in rep:
                        vals[n] = math.atan2(self.values[a + ".s"], self.values[a + ".c"]) * d[1]
                    else:
                        vals[n] = rep[n] * 2 * math.pi
                        self.values[a + ".c"], self.values[a + ".s"] = math.cos(vals[n] / d[1]), math.sin(vals[n] / d[1])
                else:
                    vals[n] = rep[n]
            k = len(self.claims)
            try:
                body(vals)
            except Timeout:
                raise
            except Exception as e:
                self.claims.append(Claim("%s%s raised %s: %s" % (label, vals, type(e).__name__, str(e)[:120]), [1.0], [0.0], EPS))
            for c in self.claims[k:]:
                c.path = (label, p)

    def true(self, label, cond):
        self.claims.append(Claim(label, [1.0 if cond else 0.0], [1.0], 0.5))


def _points(e, dims, p, n):
    """concrete members of the current path"""
    from . import scalar
    z3 = scalar.z3
    out = []
    rng = random.Random(p)
    ints = [k for k, d in dims.items() if d[0] != "angle"]
    angs = [k for k, d in dims.items() if d[0] == "angle"]
    e.solver.push()
    try:
        while len(out) < n:
            if e.check() != z3.sat:
                break
            m = e.solver.model()
            pt = {}
            if angs:
                # a random member of the path if one is found quickly, the solver's otherwise
                for _ in range(6):
                    t = {a: rng.uniform(dims[a][2], dims[a][3]) for a in angs}
                    if e.check(*[z3.Real("t_" + a) == z3.RealVal(repr(v)) for a, v in t.items()]) == z3.sat:
                        m = e.solver.model()
                        break
                for a in angs:
                    v = m.eval(z3.Real("t_" + a), model_completion=True)
                    pt[a] = float(v.as_fraction())
            for k in ints:
                pt[k] = m.eval(z3.Int(k), model_completion=True).as_long()
            pt["#"] = p if not out else "%d.%d" % (p, len(out))
            if n > 1:
                pt["raw"] = 1
            out.append(pt)
            if not ints or n == 1:
                break
            e.solver.add(z3.Or([z3.Int(k) != pt[k] for k in ints]))
    finally:
        e.solver.pop()
    return out


def snapshot(mods):
    out = []
    for mod in mods:
        for m in mod.modules():
            d = {}
            for k, v in m.__dict__.items():
                if k in ("_parameters", "_buffers"):
                    d[k] = {a: (b.detach().clone() if isinstance(b, torch.Tensor) else b) for a, b in v.items()}
                    if k == "_parameters":
                        d[k] = {a: (torch.nn.Parameter(b, requires_grad=False) if b is not None else None) for a, b in d[k].items()}
                elif isinstance(v, torch.Tensor):
                    d[k] = v.clone()
                elif isinstance(v, (dict, set)):
                    d[k] = v.copy()
                elif isinstance(v, list):
                    d[k] = list(v)
                else:
                    d[k] = v
            out.append((m, d))
    return out


def restore(snap):
    for m, d in snap:
        m.__dict__.clear()
        for k, v in d.items():
            if k in ("_parameters",):
                v = {a: (torch.nn.Parameter(b.detach().clone(), requires_grad=False) if b is not None else None) for a, b in v.items()}
            elif k == "_buffers":
                v = {a: (b.clone() if b is not None else None) for a, b in v.items()}
            elif isinstance(v, (dict, set)):
                v = v.copy()
            elif isinstance(v, list):
                v = list(v)
            m.__dict__[k] = v


class Timeout(Exception):
    pass


def _alarm(*a):
    raise Timeout()


class Instance:
    """name; setup() -> obj (concrete construction of the code under test); run(h, obj) -> claims"""

    def __init__(self, name, setup, run, mods=None, probes=2, timeout=300, cost=1.0, eps=None, expect_error=None):
        self.name, self.setup, self.run, self.mods = name, setup, run, mods
        self.probes, self.timeout, self.cost = probes, timeout, cost


def _modules_of(obj):
    if isinstance(obj, torch.nn.Module):
        return [obj]
    if isinstance(obj, (list, tuple)):
        r = []
        for o in obj:
            r += _modules_of(o)
        return r
    if isinstance(obj, dict):
        return _modules_of(list(obj.values()))
    return []


def numeric(inst, obj, snap, values, seed):
    """run the harness on real tensors: in double precision, or in single precision for code that insists on it"""
    try:
        return _numeric(inst, obj, snap, values, seed, torch.float64)
    except (Skip, Timeout):
        raise
    except Exception as e:
        try:
            return _numeric(inst, obj, snap, values, seed, torch.float32)
        except (Skip, Timeout):
            raise
        except Exception:
            raise e


def _numeric(inst, obj, snap, values, seed, dt):
    restore(snap)
    h = H("num", dict(values), seed)
    h.dtype = dt
    if dt == torch.float32:
        for m, _ in snap:
            m.float()
    torch.manual_seed(seed)
    np.random.seed(seed % (2 ** 31))
    old = torch.get_default_dtype(), torch.FloatTensor
    torch.set_default_dtype(dt)
    if dt == torch.float64:
        torch.FloatTensor = torch.DoubleTensor
    try:
        with torch.no_grad():
            inst.run(h, obj)
    finally:
        torch.set_default_dtype(old[0])
        torch.FloatTensor = old[1]
    return h


def worst(h):
    """(label, gap, lhs, rhs) of the claim violated most"""
    best = None
    for c in h.claims:
        for l, r in zip(c.lhs, c.rhs):
            g = abs(float(l) - float(r))
            if g != g:
                g = float("inf")
            if g > c.eps and (best is None or g / c.eps > best[1]):
                best = (c.label, g / c.eps, float(l), float(r), g)
    return best


CODE_SEEN = set()
PATHS = {}
QUERIES = [0, 0.0, 0]


def _trace_on():
    mon = sys.monitoring
    try:
        mon.use_tool_id(3, "symx")
    except ValueError:
        return
    def cb(code, off):
        if "/escnn/" in code.co_filename:
            CODE_SEEN.add("%s:%s" % (code.co_filename.split("/escnn/", 1)[1], code.co_qualname))
        return mon.DISABLE
    mon.register_callback(3, mon.events.PY_START, cb)
    mon.set_events(3, mon.events.PY_START)


def _trace_off():
    mon = sys.monitoring
    try:
        mon.set_events(3, 0)
        mon.free_tool_id(3)
    except ValueError:
        pass


def run_instance(inst, seed):
    """returns a result dict: status held|violation|inconclusive|skip"""
    t0 = time.time()
    res = {"name": inst.name, "status": "held", "claims": 0, "entries": 0, "nontrivial": 0, "vars": 0, "atoms": 0,
           "paths": 1, "note": "", "assume": []}
    stats = solve.Stats()
    signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(inst.timeout))
    obj = snap = None
    CODE_SEEN.clear()
    PATHS.clear()
    QUERIES[:] = [0, 0.0, 0]
    symt.USED_OPS.clear()
    np.random.seed(seed)
    torch.manual_seed(seed)
    random.seed(seed)
    try:
        try:
            obj = inst.setup()
        except Skip as e:
            res.update(status="skip", note=str(e))
            return res
        except Timeout:
            raise
        except Exception as e:
            # construction is concrete code on a valid configuration
            res.update(status="violation", kind="crash", note="construction raised %s: %s" % (type(e).__name__, str(e)[:300]),
                       trace=traceback.format_exc()[-1500:], values={})
            return res
        mods = inst.mods(obj) if inst.mods else _modules_of(obj)
        for m in mods:
            m.double()
        snap = snapshot(mods)
        # ---------------- symbolic run
        poly.reset(seed)
        h = H("sym")
        err = None
        _trace_on()
        try:
            with torch.no_grad(), symt.SymMode():
                inst.run(h, obj)
        except Skip as e:
            res.update(status="skip", note=str(e))
            return res
        except Timeout:
            raise
        except Exception as e:
            err = e
            res["trace"] = traceback.format_exc()[-1500:]
        finally:
            _trace_off()
        res["functions"] = sorted(CODE_SEEN)
        res["ops"] = dict(symt.USED_OPS)
        if err is not None:
            return _fallback(inst, obj, snap, res, err, seed)
        res["claims"] = len(h.claims)
        res["paths"] = max(1, QUERIES[2])
        stats.queries += QUERIES[0]
        stats.time += QUERIES[1]
        res["assume"] = sorted(poly.CTX.assumed)
        res["vars"] = sum(1 for v in poly.CTX.vars if v.fn is None)
        res["atoms"] = sum(1 for v in poly.CTX.vars if v.fn is not None)
        flatc = []
        labels = []
        for c in h.claims:
            for l, r in zip(c.lhs, c.rhs):
                res["entries"] += 1
                if not num(l) or not num(r):
                    res["nontrivial"] += 1
                flatc.append((l - r, c.eps))
                labels.append(c.label)
        # ---------------- decide
        bad = [(d, e) for d, e in flatc if (d != d if num(d) else any(c != c for c in d.t.values()))]
        verdict, model, idx = ("sat", {}, None) if bad else solve.decide(flatc, EPS, stats)
        res["tsolve"] = round(time.time() - t0, 2)
        # ---------------- validate the encoder on concrete points (same harness, real tensors)
        nums = []
        mism = None
        saved = poly.CTX
        for k in range(inst.probes):
            try:
                hn = numeric(inst, obj, snap, {}, seed * 1000 + k)
            except Timeout:
                raise
            except Skip:
                continue
            except Exception as e:
                res.update(status="violation", kind="crash", note="%s: %s" % (type(e).__name__, str(e)[:300]),
                           trace=traceback.format_exc()[-1500:], values={}, seed=seed * 1000 + k)
                return res
            nums.append(hn)
            w = worst(hn)
            if w:
                res.update(status="violation", kind="probe", note="%s: %.6g vs %.6g" % (w[0], w[2], w[3]), values=hn.values)
            if not any(n.startswith(("rand!", "randn!", "bern!")) for n in saved.byname):
                vals = poly.assign(hn.values)
                pairs = _match(h.claims, hn.claims)
                if pairs is None:
                    mism = "different number of claims"
                else:
                    for cs, cn in pairs:
                        if len(cs.lhs) != len(cn.lhs):
                            mism = "claim shape differs: %s" % cs.label
                            break
                        for a, b in itertools_zip(cs, cn):
                            va = poly.ev(a, vals)
                            if va != va or abs(va) > 1e6:
                                continue
                            if abs(va - b) > (1e-5 if hn.dtype == torch.float64 else 2e-4) * (1 + abs(b)):
                                mism = "encoding %.8g, real code %.8g in %s" % (va, b, cs.label)
                                break
                        if mism:
                            break
        res["validated_points"] = len(nums)
        if verdict == "unsat":
            # reachability twin: shifting every claim by twice the tolerance must be satisfiable
            tw = [c for c in flatc if not num(c[0])] or flatc
            tv, _, _ = solve.decide(tw[:50], EPS, solve.Stats(), offset=2 * max(e for _, e in tw[:50])) if tw else ("sat", 0, 0)
            res["twin"] = tv
            if tv != "sat":
                res.update(status="inconclusive", note="reachability twin is %s" % tv)
        if mism and res["status"] != "violation":
            res.update(status="inconclusive", note="encoder mismatch: " + mism)
            return res
        if verdict == "unknown" and res["status"] != "violation":
            res.update(status="inconclusive", note="solver answered unknown")
            return res
        if verdict == "sat":
            _replay(inst, obj, snap, res, flatc, labels, model, idx, seed)
        return res
    except Timeout:
        res.update(status="inconclusive", note="timeout after %ds" % inst.timeout)
        return res
    except MemoryError:
        res.update(status="inconclusive", note="out of memory")
        return res
    finally:
        signal.alarm(0)
        res["solver"] = stats.as_dict()
        res["wall"] = round(time.time() - t0, 2)


def _match(sym, conc):
    """claims of the symbolic run with those of the concrete run; paths which took another turn on real floats are left out"""
    a = [c for c in sym if c.path is None]
    b = [c for c in conc if c.path is None]
    if len(a) != len(b):
        return None
    out = list(zip(a, b))
    by = {}
    for c in sym:
        if c.path is not None:
            by.setdefault(c.path, [[], []])[0].append(c)
    for c in conc:
        if c.path is not None and c.path in by:
            by[c.path][1].append(c)
    for x, y in by.values():
        if len(x) == len(y) and all(p.label == r.label for p, r in zip(x, y)):
            out += list(zip(x, y))
    return out


def itertools_zip(cs, cn):
    for a, b in zip(cs.lhs, cn.lhs):
        yield a, float(b)
    for a, b in zip(cs.rhs, cn.rhs):
        yield a, float(b)


def _fallback(inst, obj, snap, res, err, seed):
    """the symbolic run did not finish: look at the real code at concrete points"""
    note = "%s: %s" % (type(err).__name__, str(err)[:300])
    engine = isinstance(err, (symt.Unsupported, poly.SymbolicDecision))
    for k in range(6):
        try:
            hn = numeric(inst, obj, snap, {}, seed * 1000 + k)
        except Timeout:
            raise
        except Skip as e:
            res.update(status="skip", note=str(e))
            return res
        except Exception as e:
            res.update(status="violation", kind="crash", note="%s: %s" % (type(e).__name__, str(e)[:300]),
                       trace=traceback.format_exc()[-1500:], values={}, seed=seed * 1000 + k)
            return res
        w = worst(hn)
        if w:
            res.update(status="violation", kind="probe", note="%s: %.6g vs %.6g" % (w[0], w[2], w[3]), values=hn.values)
            return res
    res.update(status="inconclusive", note=("not encodable: " if engine else "engine error: ") + note)
    return res


def _replay(inst, obj, snap, res, flatc, labels, model, idx, seed):
    """turn the solver's model into concrete inputs and run the real code on them"""
    tried = []
    cand = []
    if model is not None:
        cand.append(solve.repair(dict(model)))
    # other points of the box where the encoded residual is large
    rng = random.Random(seed)
    free = [v for v in poly.CTX.vars if v.fn is None]
    score = []
    bad = [(d, e) for d, e in flatc if not num(d) and any(abs(c) > 1e-6 for c in poly.terms(d).values())]
    big = sorted(bad, key=lambda de: -max(abs(c) for c in de[0].t.values()))[:200]
    for k in range(12):
        vals = {}
        for v in free:
            if v.kind == "in":
                vals[v.name] = rng.uniform(v.lo, v.hi) if k % 2 else rng.choice([v.lo, v.hi])
            elif v.kind == "bool":
                vals[v.name] = float(rng.random() < .5)
            elif v.kind == "cos":
                th = rng.uniform(0, 2 * math.pi)
                vals[v.name], vals[v.name[:-2] + ".s"] = math.cos(th), math.sin(th)
            elif v.kind == "quat":
                vals[v.name] = rng.gauss(0, 1)
            elif v.kind == "hot" and v.id == v.partner[0]:
                kk = rng.choice(v.partner)
                for i in v.partner:
                    vals[poly.CTX.vars[i].name] = float(i == kk)
        vals = solve.repair(vals)
        a = poly.assign(vals)
        sc = max([abs(poly.ev(d, a)) / e for d, e in big] or [0.0])
        score.append((sc if sc == sc else 0.0, k, vals))
    score.sort(key=lambda t: -t[0])
    cand += [v for _, _, v in score[:6]]
    for v in cand:
        try:
            hn = numeric(inst, obj, snap, v, seed)
        except Timeout:
            raise
        except Exception as e:
            res.update(status="violation", kind="crash", note="%s: %s" % (type(e).__name__, str(e)[:300]),
                       trace=traceback.format_exc()[-1500:], values=v)
            return
        w = worst(hn)
        if w:
            res.update(status="violation", kind="counterexample", note="%s: %.6g vs %.6g" % (w[0], w[2], w[3]), values=hn.values)
            return
    if res["status"] != "violation":
        res.update(status="inconclusive", note="solver counterexample not reproduced (%s)" % (labels[idx] if idx is not None else "?"))
