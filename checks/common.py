"""Shared oracles: group actions on grids and fibers, generators, field type builders."""
import itertools
import math
import random

import numpy as np
import torch

from symx import poly, symt, env
from symx.harness import Instance, Skip, H
from escnn import gspaces, group as G, nn
from escnn.nn import FieldType, GeometricTensor

THOROUGH = env.TIER == "thorough"


# --------------------------------------------------------------------------------------------- spaces
def gs(spec):
    """gspace from a short spec, e.g. 'rot2d:4', 'octa', 'r0:D3'"""
    k, _, a = spec.partition(":")
    if k == "r0":
        return gspaces.no_base_space(grp(a))
    args = [float(x) if "." in x else int(x) for x in a.split(",")] if a else []
    f = {"rot2d": gspaces.rot2dOnR2, "fliprot2d": gspaces.flipRot2dOnR2, "flip2d": gspaces.flip2dOnR2,
         "triv2d": gspaces.trivialOnR2, "rot3d": gspaces.rot3dOnR3, "fliprot3d": gspaces.flipRot3dOnR3,
         "ico": gspaces.icoOnR3, "fullico": gspaces.fullIcoOnR3, "octa": gspaces.octaOnR3, "fullocta": gspaces.fullOctaOnR3,
         "dih3": gspaces.dihedralOnR3, "rot2d3": gspaces.rot2dOnR3, "conical": gspaces.conicalOnR3, "mir": gspaces.mirOnR3,
         "cyl": gspaces.cylindricalOnR3, "fullcyl": gspaces.fullCylindricalOnR3, "inv": gspaces.invOnR3,
         "triv3d": gspaces.trivialOnR3}[k]
    if k in ("rot2d", "fliprot2d", "rot3d", "fliprot3d", "dih3", "rot2d3", "conical", "cyl", "fullcyl") and (not args or args[0] == -1):
        mf = 3 if "2d" in k and "3" not in k[3:] else 2
        return f(*args[:1], maximum_frequency=mf, **({"axis": args[1]} if len(args) > 1 else {}))
    if k == "fliprot2d" and len(args) > 1:
        return f(args[0], axis=args[1])
    return f(*args)


def grp(a):
    if a in ("SO2", "O2", "SO3", "O3"):
        return {"SO2": G.so2_group, "O2": G.o2_group, "SO3": G.so3_group, "O3": G.o3_group}[a](3 if a.endswith("2") else 2)
    if a == "I":
        return G.ico_group()
    if a == "O":
        return G.octa_group()
    if a == "Oh":
        return G.full_octa_group()
    if a == "Ih":
        return G.full_ico_group()
    if a == "T1":
        return G.trivial_group()
    if a == "CylSO2":
        return G.cylinder_group(3)
    if a == "CylO2":
        return G.full_cylinder_group(3)
    if a.startswith("C"):
        return G.cyclic_group(int(a[1:]))
    if a.startswith("D"):
        return G.dihedral_group(int(a[1:]))
    if a.startswith("K"):       # discrete cylinder C_n x C_2
        return G.cylinder_discrete_group(int(a[1:]))
    if a.startswith("F"):       # discrete full cylinder D_n x C_2
        return G.full_cylinder_discrete_group(int(a[1:]))
    raise KeyError(a)


def _flat(x):
    return [z for y in x for z in _flat(y)] if isinstance(x, (tuple, list)) else [x]


def irreps_of(Gp):
    """the irreps in an order which does not depend on what was built before (continuous groups add irreps on demand)"""
    L = list(Gp.irreps())
    if Gp.continuous:
        three = "3" in type(Gp).__name__
        L = sorted((i for i in L if max(_flat(i.id)) <= (2 if three else 3)), key=lambda i: str(_flat(i.id)))
    return L


def is_signed_perm(A):
    a = np.abs(A)
    return np.allclose(a.sum(0), 1, atol=1e-6) and np.allclose(a.sum(1), 1, atol=1e-6) and np.allclose(a * (1 - a), 0, atol=1e-6)


_GEN = {}


def closure_size(gens, cap=200):
    els = [gens[0].group.identity]
    fr = list(els)
    while fr:
        nx = []
        for e in fr:
            for g in gens:
                x = g @ e
                if not any(x == y for y in els):
                    els.append(x)
                    nx.append(x)
                    if len(els) >= cap:
                        return len(els)
        fr = nx
    return len(els)


def generators(group, seed=0):
    """a small set of elements generating (a dense subgroup of) the group"""
    key = id(group)
    if key in _GEN:
        return _GEN[key]
    rng = random.Random(17)
    if group.continuous:
        st = np.random.get_state()
        np.random.seed(11)
        els = [group.sample() for _ in range(4)]
        np.random.set_state(st)
        # include components: reflections / inversions show up with probability 1/2 each
        els = els + [e for e in group.testing_elements()][:0]
        r = [els[0], els[1]]
        def det(e):
            return tuple(np.sign(np.linalg.det(group.irrep(*i.id)(e)))
                         for i in irreps_of(group) if i.size <= 3)
        have = {det(e) for e in r}
        for e in group.testing_elements():
            d = det(e)
            if d not in have:
                have.add(d)
                r.append(e)
        _GEN[key] = r
        return r
    els = list(group.elements)
    if len(els) == 1:
        _GEN[key] = [els[0]]
        return _GEN[key]
    n = len(els)
    best = None
    for e in els:
        if e != group.identity and n <= 60 and closure_size([e]) == n:
            best = [e]
            break
    k = 2
    t = 0
    while best is None:
        c = rng.sample(els, min(k, n))
        if closure_size(c, n) == n:
            best = c
        t += 1
        if t > 25:
            k, t = k + 1, 0
    _GEN[key] = best
    return best


def grid_elements(gspace):
    """elements of the fiber group which map the pixel grid to itself (a generating set of those)"""
    Gp = gspace.fibergroup
    act = gspace.basespace_action
    if Gp.continuous:
        cand = []
        name = type(Gp).__name__
        if name == "SO2":
            cand = [Gp.element(k * np.pi / 2) for k in (1,)]
        elif name == "O2":
            cand = [Gp.element((0, np.pi / 2)), Gp.element((1, 0.0))]
        elif name == "SO3":
            s = math.sqrt(.5)
            cand = [Gp.element(np.array([s, 0, 0, s]), "Q"), Gp.element(np.array([0, 0, s, s]), "Q")]
        elif name == "O3":
            s = math.sqrt(.5)
            cand = [Gp.element((0, np.array([s, 0, 0, s])), "Q"), Gp.element((1, np.array([0, 0, s, s])), "Q")]
        else:
            sub = []
            for e in Gp.testing_elements():
                sub.append(e)
            cand = sub
        cand = [e for e in cand if is_signed_perm(act(e))]
        cand = [e for e in cand if e != Gp.identity][:3]
        return cand
    els = [e for e in Gp.elements if is_signed_perm(act(e)) and e != Gp.identity]
    if not els:
        return []
    # greedy generators of the subgroup formed by els
    n = len(els) + 1
    gens = []
    size = 1
    rng = random.Random(5)
    pool = list(els)
    rng.shuffle(pool)
    pool.sort(key=lambda e: 0)
    for e in pool:
        s = closure_size(gens + [e], n)
        if s > size:
            gens.append(e)
            size = s
        if size >= n:
            break
    return gens


# --------------------------------------------------------------------------------------------- oracle actions
def to_obj(h, x):
    """numpy array (object if symbolic) of a tensor"""
    if isinstance(x, symt.SymT):
        return x.a
    if isinstance(x, torch.Tensor):
        return x.detach().double().numpy()
    return np.asarray(x)


def mat(M, x):
    """apply a matrix (possibly symbolic) to axis 1 of x"""
    M = np.asarray(M)
    x = np.asarray(x)
    n = M.shape[0]
    assert x.shape[1] == M.shape[1], (x.shape, M.shape)
    if x.dtype != object and M.dtype != object:
        return np.einsum("oi,bi...->bo...", M, x)
    X = np.moveaxis(x, 1, 0).reshape(x.shape[1], -1)
    Mo = M.astype(object) if M.dtype != object else M
    if M.dtype != object:
        Mo = np.where(np.abs(M) < 1e-14, 0.0, M).astype(object)
    R = symt.matmul2(Mo, X.astype(object))
    return np.moveaxis(R.reshape((n,) + (x.shape[0],) + x.shape[2:]), 0, 1)


def spatial_perm(A, shape):
    """for each output pixel the flat index of the input pixel it is taken from: (g.f)(x) = f(A^-1 x)"""
    d = len(shape)
    c = [(s - 1) / 2 for s in shape]
    Ai = np.linalg.inv(A)
    out = np.empty(shape, dtype=int)
    for p in np.ndindex(*shape):
        # world coordinates: last array axis is +x, the others are -y, -z
        X = np.array([(p[d - 1 - k] - c[d - 1 - k]) * (1 if k == 0 else -1) for k in range(d)])
        Y = Ai @ X
        q = [0] * d
        for k in range(d):
            v = Y[k] * (1 if k == 0 else -1) + c[d - 1 - k]
            assert abs(v - round(v)) < 1e-6
            q[d - 1 - k] = int(round(v))
        if not all(0 <= q[i] < shape[i] for i in range(d)):
            raise Skip("grid is not mapped to itself")
        out[p] = np.ravel_multi_index(q, shape)
    return out


def rho_of(ftype, g):
    """block diagonal matrix of a field type at g, assembled from its representations' definition Q diag(irreps) Q^-1"""
    n = ftype.size
    M = np.zeros((n, n))
    p = 0
    cache = {}
    for r in ftype.representations:
        m = cache.get(id(r))
        if m is None:
            m = rep_mat(r, g)
            cache[id(r)] = m
        M[p:p + r.size, p:p + r.size] = m
        p += r.size
    return M


def rep_mat(r, g):
    D = np.zeros((r.size, r.size))
    p = 0
    for i in r.irreps:
        irr = r.group.irrep(*i)
        D[p:p + irr.size, p:p + irr.size] = irr(g)
        p += irr.size
    return r.change_of_basis @ D @ r.change_of_basis_inv


def act(ftype, g, x, spatial=True):
    """the action of g on a feature field (oracle)"""
    y = mat(rho_of(ftype, g), x)
    if spatial and ftype.gspace.dimensionality > 0 and x.ndim > 2:
        A = ftype.gspace.basespace_action(g)
        idx = spatial_perm(A, y.shape[2:])
        y = y.reshape(y.shape[:2] + (-1,))[..., idx.reshape(-1)].reshape(y.shape[:2] + idx.shape)
    return y


# --------------------------------------------------------------------------------------------- field types
def reps_of(gspace, spec):
    """representation list from a spec string: t=trivial, r=regular, i<k>=k-th irrep, q..=quotient, s=sum of first irreps"""
    Gp = gspace.fibergroup
    out = []
    for tok in spec.split("+"):
        n = 1
        if "*" in tok:
            n, tok = tok.split("*")
            n = int(n)
        if tok == "t":
            r = Gp.trivial_representation
        elif tok == "r":
            r = Gp.regular_representation
        elif tok.startswith("i"):
            irr = irreps_of(Gp)
            k = int(tok[1:])
            if k >= len(irr):
                k = len(irr) - 1
            r = irr[k]
        elif tok.startswith("q"):
            r = Gp.quotient_representation(*_sgid(Gp, tok[1:]))
        elif tok.startswith("s"):
            irr = irreps_of(Gp)[:int(tok[1:])]
            r = G.directsum(list(irr), name="sum" + tok[1:])
        elif tok.startswith("v"):
            # induced representation: v<subgroup id>/<k-th irrep of the subgroup>
            sid, kk = tok[1:].split("/")
            sid = _sgid(Gp, sid)[0]
            H_, _, _ = Gp.subgroup(sid)
            r = Gp.induced_representation(sid, irreps_of(H_)[int(kk)])
        elif tok.startswith("b"):
            # spectral representation in a non trivial basis
            irr = list(irreps_of(Gp)[:int(tok[1:])])
            n0 = sum(i.size for i in irr)
            rng = np.random.RandomState(n0)
            Q, _ = np.linalg.qr(rng.randn(n0, n0))
            r = G.directsum(irr, Q, name="rot" + tok[1:])
        elif tok.startswith("c"):
            # the same in a basis which is not orthonormal
            irr = list(irreps_of(Gp)[:int(tok[1:])])
            n0 = sum(i.size for i in irr)
            rng = np.random.RandomState(n0 + 50)
            r = G.directsum(irr, np.linalg.qr(rng.randn(n0, n0))[0] @ np.diag(np.linspace(.6, 1.5, n0)) @ np.linalg.qr(rng.randn(n0, n0))[0], name="skew" + tok[1:])
        else:
            raise KeyError(tok)
        out += [r] * n
    return out


def _sgid(Gp, s):
    if s == "":
        raise KeyError
    parts = []
    for p in s.split(","):
        parts.append(None if p == "n" else int(p))
    return (tuple(parts) if len(parts) > 1 else parts[0],)


def ftype(gspace, spec):
    return FieldType(gspace, reps_of(gspace, spec))


def geo(h, x, ft, coords=None):
    """GeometricTensor from an object/float array"""
    return GeometricTensor(h.wrap(x), ft, coords)


def equivariance(mod, spec_shape, elements, spatial=True, batch=1, free=True, lo=-1.0, hi=1.0, eps=1e-3, train=False, label="",
                 out_spatial=None):
    """harness body: mod(g.x) == g.mod(x) for every input and parameter value, for the given elements"""
    def run(h, obj):
        m = obj["mod"] if isinstance(obj, dict) else obj
        m.train(True)
        if free:
            h.free(m)
        m.train(train)
        x = h.array("x", (batch, m.in_type.size) + tuple(spec_shape), lo, hi)
        y = m(geo(h, x, m.in_type))
        h.true("output type", y.type == m.out_type)
        ya = to_obj(h, y.tensor)
        for k, g in enumerate(elements(m) if callable(elements) else elements):
            gx = act(m.in_type, g, x, spatial)
            gy = m(geo(h, gx, m.in_type)).tensor
            h.eq("%sg%d" % (label, k), gy, act(m.out_type, g, ya, spatial), eps)
    return run
