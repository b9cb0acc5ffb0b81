"""torch tensors whose entries are symbolic values: the real escnn modules are executed on them.

SymT is a torch wrapper subclass; every aten operator that reaches it is interpreted on a numpy object array of
floats / poly.P.  numpy views mirror torch views, so aliasing and in-place updates behave as in torch.
SymMode makes tensor factories (torch.empty, zeros, ...) produce SymT so that code which fills a fresh buffer works.
"""
import itertools
import math

import numpy as np
import torch
from torch.utils._python_dispatch import TorchDispatchMode
from torch.utils._pytree import tree_any, tree_map

from . import poly
from .poly import P, num

aten = torch.ops.aten


class Unsupported(Exception):
    pass


USED_OPS = {}


class Sel:
    """a symbolic index: a 0/1-weighted choice among concrete positions"""
    __slots__ = ("choices",)

    def __init__(self, choices):
        self.choices = choices


def wrap(a, dtype=None):
    return SymT(np.asarray(a, dtype=object), dtype)


class SymT(torch.Tensor):
    @staticmethod
    def __new__(cls, a, dtype=None, requires_grad=False):
        if not (isinstance(a, np.ndarray) and a.dtype == object):
            a = np.asarray(a, dtype=object)
        strides = tuple(s // a.itemsize for s in a.strides)
        r = torch.Tensor._make_wrapper_subclass(
            cls, tuple(a.shape), strides=strides, dtype=dtype or torch.float64, device="cpu", requires_grad=False)
        r.a = a
        return r

    def __init__(self, *a, **k):
        pass

    @classmethod
    def __torch_dispatch__(cls, func, types, args=(), kwargs=None):
        return dispatch(func, args, kwargs or {})

    # python level escapes -------------------------------------------------------------------------------
    def item(self):
        assert self.a.size == 1
        return self.a.reshape(-1)[0]

    def __float__(self):
        v = self.item()
        if num(v):
            return float(v)
        raise poly.SymbolicDecision("float() of symbolic tensor")

    def __bool__(self):
        v = self.item()
        return bool(v)

    def __int__(self):
        return int(float(self))

    def tolist(self):
        return self.a.tolist()

    def numpy(self, *a, **k):
        return self.a

    def __array__(self, *a, **k):
        return self.a

    def cpu(self):
        return self

    def cuda(self, *a, **k):
        return self

    def detach(self):
        return SymT(self.a, self.dtype)

    def requires_grad_(self, flag=True):
        return self

    def __deepcopy__(self, memo):
        r = SymT(self.a.copy(), self.dtype)
        if getattr(self, "_is_param", False):
            r._is_param = True
        memo[id(self)] = r
        return r

    def __repr__(self, *a, **k):
        return "SymT%s" % (tuple(self.shape),)

    @property
    def data(self):
        return SymT(self.a, self.dtype)

    @data.setter
    def data(self, v):
        self.a = arr(v).copy() if not isinstance(v, SymT) else v.a
        if tuple(self.a.shape) != tuple(self.shape):
            raise Unsupported("data setter with another shape")

    @property
    def grad(self):
        return None


def arr(x):
    """object array of any tensor / scalar"""
    if isinstance(x, SymT):
        if x.dtype == torch.int64:
            return np.frompyfunc(lambda v: poly.dot([(w, float(k)) for w, k in v.choices]) if isinstance(v, Sel) else float(v), 1, 1)(x.a) \
                if x.a.ndim else np.asarray(x.a.item())
        return x.a
    if isinstance(x, torch.Tensor):
        x = x.detach()
        if x.is_floating_point():
            n = x.double().numpy()
        elif x.dtype == torch.bool:
            n = x.numpy().astype(float)
        else:
            n = x.numpy().astype(float)
        return n.astype(object)
    return np.asarray(x, dtype=object)


def parameter(a):
    p = SymT(a)
    p._is_param = True
    return p


def is_sym(x):
    return isinstance(x, SymT)


def uf(f, nin=1):
    g = np.frompyfunc(f, nin, 1)

    def call(*xs):
        r = g(*xs)
        return np.asarray(r, dtype=object)
    return call


def _mul(x, y):
    if type(x) is float and x == 0.0 and num(y):
        return 0.0
    return x * y


def _div(x, y):
    if num(x) and num(y):
        x, y = float(x), float(y)
        if y == 0:
            return float("nan") if x == 0 else math.copysign(float("inf"), x)
        return x / y
    if num(x) and x == 0.0:
        return 0.0
    return x / y


NPFN = {
    "relu": uf(poly.relu),
    "abs": uf(lambda x: abs(x)),
    "sqrt": uf(lambda x: poly.fn("sqrt", x)),
    "exp": uf(lambda x: poly.fn("exp", x)),
    "log": uf(lambda x: poly.fn("log", x)),
    "sigmoid": uf(lambda x: poly.fn("sigmoid", x)),
    "tanh": uf(lambda x: poly.fn("tanh", x)),
    "elu": uf(lambda x: poly.fn("elu", x)),
    "erf": uf(lambda x: poly.fn("erf", x)),
    "cos": uf(lambda x: poly.trig(x)[0]),
    "sin": uf(lambda x: poly.trig(x)[1]),
    "acos": uf(lambda x: poly.fn("acos", x)),
    "neg": uf(lambda x: -x),
    "reciprocal": uf(lambda x: poly.inv(x)),
    "rsqrt": uf(lambda x: poly.inv(poly.fn("sqrt", x))),
    "floor": uf(lambda x: poly.fn("floor", x)),
    "round": uf(lambda x: poly.fn("rint", x)),
    "sign": uf(lambda x: (poly.ind(x) - poly.ind(-x))),
    "softplus": uf(lambda x: poly.fn("softplus", x)),
}
ADD = uf(lambda x, y: x + y, 2)
SUB = uf(lambda x, y: x - y, 2)
MUL = uf(_mul, 2)
DIV = uf(_div, 2)
MAX2 = uf(lambda x, y: poly.maximum([x, y]), 2)
MIN2 = uf(lambda x, y: poly.minimum([x, y]), 2)
GT = uf(lambda x, y: poly.ind(x - y), 2)
LT = uf(lambda x, y: poly.ind(y - x), 2)
GE = uf(lambda x, y: poly.notb(poly.ind(y - x)), 2)
LE = uf(lambda x, y: poly.notb(poly.ind(x - y)), 2)
ITE = uf(poly.ite, 3)
ATAN2 = uf(poly.atan2, 2)


def _eq(x, y):
    d = x - y
    if num(d):
        return 1.0 if d == 0 else 0.0
    if poly.same(d, 0.0):
        return 1.0
    lo, hi = poly.bounds(d)
    if lo > 0 or hi < 0:
        return 0.0
    return (1.0 - poly.ind(d)) * (1.0 - poly.ind(-d))


EQ = uf(_eq, 2)

OPS = {}


def op(*names):
    def deco(f):
        for n in names:
            OPS[n] = f
        return f
    return deco


def out(a, dtype=None):
    return SymT(np.asarray(a, dtype=object), dtype)


def boolout(a):
    a = np.asarray(a, dtype=object)
    if all(num(x) for x in a.reshape(-1)):
        return torch.from_numpy(a.astype(float) != 0)
    return SymT(a, torch.bool)


def dispatch(func, args, kwargs):
    name = func.name() if hasattr(func, "name") else str(func)
    pkt = name.split("::")[-1]
    base = pkt.split(".")[0]
    h = OPS.get(pkt) or OPS.get(base)
    if h is not None:
        USED_OPS[base] = USED_OPS.get(base, 0) + 1
        dst = kwargs.get("out")
        if dst is not None:
            kwargs = {k: v for k, v in kwargs.items() if k != "out"}
            r = h(*args, **kwargs)
            if not is_sym(dst):
                if isinstance(r, SymT):
                    raise Unsupported("out= concrete tensor with symbolic arguments in %s" % base)
                dst.copy_(r)
                return dst
            ra = arr(r)
            if tuple(ra.shape) != tuple(dst.a.shape):
                raise Unsupported("out= of another shape in %s" % base)
            dst.a[...] = ra
            return dst
        return h(*args, **kwargs)
    if base.endswith("_") and not base.endswith("__"):
        h = OPS.get(base[:-1])
        if h is not None:
            USED_OPS[base] = USED_OPS.get(base, 0) + 1
            t = args[0]
            if not is_sym(t):
                raise Unsupported("in-place %s on a concrete tensor with symbolic arguments" % base)
            r = h(*args, **kwargs)
            t.a[...] = arr(r)
            return t
    if kwargs.get("out") is not None:
        raise Unsupported("out= variant of %s" % name)
    try:
        r = func.decompose(*args, **kwargs)
        if r is not NotImplemented:
            return r
    except (RuntimeError, NotImplementedError):
        raise
    from torch._decomp import decomposition_table
    d = decomposition_table.get(func)
    if d is not None:
        USED_OPS["decomposed:" + base] = USED_OPS.get("decomposed:" + base, 0) + 1
        return d(*args, **kwargs)
    raise Unsupported("aten operator %s" % name)


_FT, _DT = torch.FloatTensor, torch.DoubleTensor


def _float_tensor(*a, **k):
    if len(a) == 1 and isinstance(a[0], np.ndarray) and a[0].dtype == object:
        return wrap(np.asarray(a[0]).copy())
    """torch.FloatTensor(*sizes) allocates uninitialised memory; FloatTensor(data) converts"""
    if a and all(isinstance(x, int) for x in a):
        return _full(a, NAN)
    if len(a) == 1 and isinstance(a[0], torch.Size):
        return _full(tuple(a[0]), NAN)
    return _FT(*a, **k)


_TT, _FN, _AT = torch.tensor, torch.from_numpy, torch.as_tensor


def _from_objects(f):
    """tensor constructors on arrays with symbolic entries"""
    def g(x, *a, **k):
        if isinstance(x, np.ndarray) and x.dtype == object:
            x = np.asarray(x)
            return wrap(x if f is _FN else x.copy(), k.get("dtype"))
        if f is not _FN and isinstance(x, (list, tuple)) and any(isinstance(v, np.ndarray) and v.dtype == object or isinstance(v, poly.P) for v in x):
            return wrap(np.array([np.asarray(v, dtype=object) for v in x], dtype=object), k.get("dtype"))
        return f(x, *a, **k)
    return g


class SymMode(TorchDispatchMode):
    def __enter__(self):
        torch.FloatTensor = torch.DoubleTensor = _float_tensor
        torch.tensor, torch.from_numpy, torch.as_tensor = _from_objects(_TT), _from_objects(_FN), _from_objects(_AT)
        return super().__enter__()

    def __exit__(self, *a):
        torch.FloatTensor = _FT
        torch.DoubleTensor = _DT
        torch.tensor, torch.from_numpy, torch.as_tensor = _TT, _FN, _AT
        return super().__exit__(*a)

    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        pkt = func.name().split("::")[-1]
        base = pkt.split(".")[0]
        if base in FACTORIES:
            dt = kwargs.get("dtype")
            like = args[0] if args and isinstance(args[0], torch.Tensor) else None
            if dt is None and like is not None:
                dt = like.dtype
            if dt is None:
                dt = torch.get_default_dtype()
                if base in ("full", "full_like", "scalar_tensor"):
                    v = args[1] if base != "scalar_tensor" else args[0]
                    if like is None and isinstance(v, bool):
                        dt = torch.bool
                    elif like is None and isinstance(v, int) and not isinstance(v, bool):
                        dt = torch.int64
            if dt.is_floating_point:
                return FACTORIES[base](*args, **{k: v for k, v in kwargs.items()})
        if base in RANDOM_INPLACE and isinstance(args[0], torch.Tensor) and not is_sym(args[0]):
            return func(*args, **kwargs)
        if tree_any(is_sym, (args, kwargs)):
            return dispatch(func, args, kwargs)
        return func(*args, **kwargs)


NAN = float("nan")        # uninitialised memory
RANDOM_INPLACE = {"uniform_", "normal_", "bernoulli_", "random_"}


def _full(shape, v):
    a = np.empty(tuple(int(s) for s in shape), dtype=object)
    a.fill(v)
    return out(a)


def fresh_rand(shape, kind):
    a = np.empty(tuple(int(s) for s in shape), dtype=object)
    for i in np.ndindex(a.shape):
        poly.CTX.fresh += 1
        n = "%s!%d" % (kind, poly.CTX.fresh)
        a[i] = poly.boolvar(n) if kind == "bern" else poly.var(n, *((0.0, 1.0) if kind == "rand" else (-3.0, 3.0)))
    return out(a)


FACTORIES = {
    "empty": lambda s, **k: _full(s, NAN),
    "empty_strided": lambda s, st, **k: _full(s, NAN),
    "zeros": lambda s, **k: _full(s, 0.0),
    "ones": lambda s, **k: _full(s, 1.0),
    "full": lambda s, v, **k: _full(s, v if isinstance(v, P) else float(v)),
    "scalar_tensor": lambda v, **k: _full((), float(v)),
    "empty_like": lambda t, **k: _full(t.shape, NAN),
    "zeros_like": lambda t, **k: _full(t.shape, 0.0),
    "ones_like": lambda t, **k: _full(t.shape, 1.0),
    "full_like": lambda t, v, **k: _full(t.shape, float(v)),
    "new_empty": lambda t, s, **k: _full(s, NAN),
    "new_zeros": lambda t, s, **k: _full(s, 0.0),
    "new_ones": lambda t, s, **k: _full(s, 1.0),
    "new_full": lambda t, s, v, **k: _full(s, float(v)),
    "new_empty_strided": lambda t, s, st, **k: _full(s, NAN),
    "rand": lambda s, **k: fresh_rand(s, "rand"),
    "randn": lambda s, **k: fresh_rand(s, "randn"),
    "rand_like": lambda t, **k: fresh_rand(t.shape, "rand"),
    "randn_like": lambda t, **k: fresh_rand(t.shape, "randn"),
}
for _n, _f in FACTORIES.items():
    def _mkf(_f):
        def g(*a, **k):
            dt = k.get("dtype")
            r = _f(*a, **k)
            if dt is not None and not dt.is_floating_point:
                return torch.from_numpy(r.a.astype(float)).to(dt)
            if dt is None and a and is_sym(a[0]) and a[0].dtype == torch.bool:
                return SymT(r.a, torch.bool)
            return r
        return g
    OPS[_n] = _mkf(_f)


@op("bernoulli", "bernoulli_")
def _bern(t, p=None, **k):
    r = fresh_rand(t.shape, "bern")
    return r


OPS["bernoulli_"] = lambda t, *a, **k: (t.a.__setitem__(Ellipsis, fresh_rand(t.shape, "bern").a), t)[1]
OPS["uniform_"] = lambda t, *a, **k: (t.a.__setitem__(Ellipsis, fresh_rand(t.shape, "rand").a), t)[1]
OPS["normal_"] = lambda t, *a, **k: (t.a.__setitem__(Ellipsis, fresh_rand(t.shape, "randn").a), t)[1]

# ---- elementwise unary
for _n in list(NPFN):
    if _n in ("elu", "softplus"):
        continue
    OPS[_n] = (lambda f: lambda x, **k: out(f(arr(x))))(NPFN[_n])


@op("elu")
def _elu(x, alpha=1, scale=1, input_scale=1):
    a = arr(x)
    if alpha == 1 and scale == 1 and input_scale == 1:
        return out(NPFN["elu"](a))
    pos = GT(a, 0.0)
    neg = MUL(SUB(NPFN["exp"](MUL(a, float(input_scale))), 1.0), float(alpha))
    return out(MUL(ITE(pos, a, neg), float(scale)))


@op("leaky_relu")
def _lrelu(x, s=0.01):
    a = arr(x)
    return out(ADD(MUL(NPFN["relu"](a), 1.0 - s), MUL(a, float(s))))


@op("softplus")
def _softplus(x, beta=1, threshold=20):
    return out(MUL(NPFN["softplus"](MUL(arr(x), float(beta))), 1.0 / beta))


@op("gelu")
def _gelu(x, approximate="none"):
    a = arr(x)
    return out(MUL(a, MUL(ADD(NPFN["erf"](MUL(a, 1 / math.sqrt(2))), 1.0), 0.5)))


@op("hardtanh")
def _hardtanh(x, lo=-1, hi=1):
    return out(MIN2(MAX2(arr(x), float(lo)), float(hi)))


@op("clamp", "clip")
def _clamp(x, min=None, max=None):
    a = arr(x)
    if min is not None:
        a = MAX2(a, arr(min) if isinstance(min, torch.Tensor) else float(min))
    if max is not None:
        a = MIN2(a, arr(max) if isinstance(max, torch.Tensor) else float(max))
    return out(a)


@op("clamp_min")
def _clamp_min(x, m):
    return _clamp(x, min=m)


@op("clamp_max")
def _clamp_max(x, m):
    return _clamp(x, max=m)


@op("square")
def _square(x):
    a = arr(x)
    return out(MUL(a, a))


@op("pow")
def _pow(x, k):
    if isinstance(k, torch.Tensor) or isinstance(x, (int, float)):
        return out(uf(lambda u, v: u ** v if isinstance(u, P) else (float(u) ** v if num(v) else poly.fn("pow", u, v)), 2)(arr(x), arr(k)))
    return out(uf(lambda v: v ** k if isinstance(v, P) else float(v) ** k)(arr(x)))


@op("add")
def _add(x, y, alpha=1):
    b = arr(y)
    if alpha != 1:
        b = MUL(b, float(alpha))
    return out(ADD(arr(x), b))


@op("sub")
def _sub(x, y, alpha=1):
    b = arr(y)
    if alpha != 1:
        b = MUL(b, float(alpha))
    return out(SUB(arr(x), b))


@op("rsub")
def _rsub(x, y, alpha=1):
    return out(SUB(arr(y), MUL(arr(x), float(alpha))))


@op("mul")
def _m(x, y):
    return out(MUL(arr(x), arr(y)))


@op("div", "true_divide")
def _d(x, y, rounding_mode=None):
    if rounding_mode is not None:
        raise Unsupported("div rounding")
    return out(DIV(arr(x), arr(y)))


@op("addcmul")
def _addcmul(x, a, b, value=1):
    return out(ADD(arr(x), MUL(MUL(arr(a), arr(b)), float(value))))


@op("addcdiv")
def _addcdiv(x, a, b, value=1):
    return out(ADD(arr(x), MUL(DIV(arr(a), arr(b)), float(value))))


@op("lerp")
def _lerp(a, b, w):
    return out(ADD(arr(a), MUL(SUB(arr(b), arr(a)), arr(w))))


@op("maximum")
def _maximum(x, y):
    return out(MAX2(arr(x), arr(y)))


@op("minimum")
def _minimum(x, y):
    return out(MIN2(arr(x), arr(y)))


for _n, _f in (("gt", GT), ("lt", LT), ("ge", GE), ("le", LE), ("eq", EQ)):
    OPS[_n] = (lambda f: lambda x, y: boolout(f(arr(x), arr(y))))(_f)


@op("ne")
def _ne(x, y):
    if x is y:
        return torch.zeros(tuple(x.shape), dtype=torch.bool)
    return boolout(SUB(1.0, EQ(arr(x), arr(y))))


@op("isnan", "isinf", "isneginf", "isposinf")
def _isnan(x):
    return torch.zeros(tuple(x.shape), dtype=torch.bool)


@op("isfinite")
def _isfinite(x):
    return torch.ones(tuple(x.shape), dtype=torch.bool)


@op("logical_not", "bitwise_not")
def _not(x):
    return boolout(SUB(1.0, arr(x)))


@op("logical_and", "bitwise_and", "__and__")
def _and(x, y):
    return boolout(MUL(arr(x), arr(y)))


@op("logical_or", "bitwise_or", "__or__")
def _or(x, y):
    a, b = arr(x), arr(y)
    return boolout(SUB(ADD(a, b), MUL(a, b)))


@op("where.self", "where.ScalarSelf", "where.ScalarOther", "where.Scalar")
def _where(c, x, y):
    return out(ITE(arr(c), arr(x), arr(y)))


@op("masked_fill")
def _masked_fill(x, mask, v):
    return out(ITE(arr(mask), arr(v), arr(x)))


@op("threshold")
def _threshold(x, t, v):
    a = arr(x)
    return out(ITE(GT(a, float(t)), a, float(v)))


@op("atan2")
def _atan2(y, x):
    return out(ATAN2(arr(y), arr(x)))


@op("allclose")
def _allclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    x, y = np.broadcast_arrays(arr(a), arr(b))
    for u, v in zip(x.reshape(-1), y.reshape(-1)):
        d = u - v
        if num(d):
            if abs(d) > max(atol, 1e-5) + rtol * abs(poly.ev(v)):
                return False
        elif not poly.same(d, 0.0, 1e-5):
            return bool(poly.DECIDE(d, "allclose"))
    return True


@op("equal")
def _equal(a, b):
    return tuple(a.shape) == tuple(b.shape) and _allclose(a, b)


# ---- views
def _norm(d, n):
    return d + n if d < 0 else d


@op("view", "_unsafe_view", "_reshape_alias", "reshape")
def _view(x, shape, *a):
    return SymT(x.a.reshape(tuple(int(s) for s in shape)), x.dtype)


@op("view.dtype")
def _viewd(x, dt):
    return x


@op("alias", "detach", "lift_fresh", "lift", "positive", "conj", "resolve_conj", "resolve_neg")
def _alias(x, *a):
    return SymT(x.a, x.dtype)


@op("detach_")
def _detach_(x):
    return x


@op("clone", "contiguous", "lift_fresh_copy", "detach_copy", "view_copy_")
def _clone(x, memory_format=None):
    return SymT(x.a.copy(order="C"), x.dtype)


@op("_to_copy", "to")
def _to_copy(x, *a, dtype=None, **k):
    if dtype is not None and not dtype.is_floating_point and dtype != torch.bool and dtype != x.dtype:
        if all(num(v) for v in x.a.reshape(-1)):
            return torch.from_numpy(x.a.astype(float)).to(dtype)
        raise Unsupported("symbolic to integer conversion")
    if dtype is None or dtype == x.dtype:
        return SymT(x.a.copy(), x.dtype)
    if dtype == torch.bool and x.dtype != torch.bool:
        return boolout(SUB(1.0, EQ(arr(x), 0.0)))
    return SymT(np.array(arr(x), dtype=object), torch.bool if dtype == torch.bool else torch.float64)


@op("expand")
def _expand(x, shape, implicit=False):
    shape = list(shape)
    n = len(shape) - x.a.ndim
    for i, s in enumerate(shape):
        if s == -1:
            shape[i] = x.a.shape[i - n]
    r = np.broadcast_to(x.a, tuple(shape))
    r = np.lib.stride_tricks.as_strided(r, shape=r.shape, strides=r.strides, writeable=True)
    return SymT(r, x.dtype)


@op("permute")
def _permute(x, dims):
    return SymT(x.a.transpose([_norm(d, x.a.ndim) for d in dims]), x.dtype)


@op("transpose.int", "transpose", "swapaxes")
def _transpose(x, a, b):
    return SymT(np.swapaxes(x.a, a, b), x.dtype) if x.a.ndim else x


@op("t", "numpy_T", "mT")
def _t(x):
    return SymT(x.a.T, x.dtype)


@op("unsqueeze")
def _unsqueeze(x, d):
    return SymT(np.expand_dims(x.a, d), x.dtype)


@op("squeeze")
def _squeeze(x, d=None):
    if d is None:
        return SymT(x.a.squeeze(), x.dtype)
    ds = [d] if isinstance(d, int) else list(d)
    ds = tuple(_norm(i, x.a.ndim) for i in ds)
    ds = tuple(i for i in ds if x.a.ndim and x.a.shape[i] == 1)
    return SymT(x.a.squeeze(ds), x.dtype)


@op("select.int", "select")
def _select(x, d, i):
    return SymT(x.a[(slice(None),) * _norm(d, x.a.ndim) + (i if i < x.a.shape[d] else _oob(),)].view() if False else
                _sel_view(x.a, _norm(d, x.a.ndim), int(i)), x.dtype)


def _oob():
    raise IndexError


def _sel_view(a, d, i):
    if i < 0:
        i += a.shape[d]
    sub = a[(slice(None),) * d + (slice(i, i + 1),)]
    return np.squeeze(sub, d)


@op("slice.Tensor", "slice")
def _slice(x, d=0, start=None, end=None, step=1):
    n = x.a.shape[d]
    start = 0 if start is None else start
    end = n if end is None else end
    if start < 0:
        start = max(start + n, 0)
    if end < 0:
        end = max(end + n, 0)
    return SymT(x.a[(slice(None),) * _norm(d, x.a.ndim) + (slice(start, end, step),)], x.dtype)


@op("split.Tensor", "split")
def _split(x, size, d=0):
    if not isinstance(size, int):
        return _splits(x, size, d)
    n = x.a.shape[d]
    return [_slice(x, d, i, min(i + size, n)) for i in range(0, n, size)]


@op("split_with_sizes")
def _splits(x, sizes, d=0):
    r, i = [], 0
    for s in sizes:
        r.append(_slice(x, d, i, i + s))
        i += s
    return r


@op("chunk")
def _chunk(x, k, d=0):
    return _split(x, -(-x.a.shape[d] // k), d)


@op("unbind.int", "unbind")
def _unbind(x, d=0):
    return [_select(x, d, i) for i in range(x.a.shape[d])]


@op("diagonal")
def _diagonal(x, offset=0, dim1=0, dim2=1):
    r = np.diagonal(x.a, offset, dim1, dim2)
    r = np.lib.stride_tricks.as_strided(r, shape=r.shape, strides=r.strides, writeable=True)
    return SymT(r, x.dtype)


@op("as_strided")
def _as_strided(x, size, stride, off=None):
    a = x.a
    base = a
    if off:
        raise Unsupported("as_strided with offset")
    r = np.lib.stride_tricks.as_strided(a, tuple(size), tuple(s * a.itemsize for s in stride), writeable=True)
    return SymT(r, x.dtype)


@op("unfold")
def _unfold(x, d, size, step):
    d = _norm(d, x.a.ndim)
    r = np.lib.stride_tricks.sliding_window_view(x.a, size, axis=d)
    r = r[(slice(None),) * d + (slice(None, None, step),)]
    return SymT(r, x.dtype)


@op("flip")
def _flip(x, dims):
    return SymT(np.flip(x.a, [_norm(d, x.a.ndim) for d in dims]).copy(), x.dtype)


@op("roll")
def _roll(x, shifts, dims=()):
    return SymT(np.roll(x.a, shifts, tuple(dims) if dims else None), x.dtype)


@op("rot90")
def _rot90(x, k=1, dims=(0, 1)):
    return SymT(np.rot90(x.a, k, dims).copy(), x.dtype)


@op("repeat")
def _repeat(x, reps):
    return SymT(np.tile(x.a, tuple(reps)), x.dtype)


@op("repeat_interleave.self_int", "repeat_interleave.self_Tensor", "repeat_interleave")
def _repeat_interleave(x, reps, dim=None, output_size=None):
    if isinstance(reps, torch.Tensor):
        reps = reps.numpy()
    return SymT(np.repeat(x.a, reps, dim), x.dtype)


@op("cat", "concat", "concatenate")
def _cat(ts, d=0):
    ts = [t for t in ts if not (t.dim() == 1 and t.shape[0] == 0)] or list(ts)
    return out(np.concatenate([arr(t) for t in ts], d))


@op("stack")
def _stack(ts, d=0):
    return out(np.stack([arr(t) for t in ts], d))


@op("tril", "triu")
def _tril(x, k=0):
    raise Unsupported("tril")


@op("copy_")
def _copy_(x, src, non_blocking=False):
    if not is_sym(x):
        raise Unsupported("copy of symbolic values into a concrete tensor")
    x.a[...] = arr(src)
    return x


@op("fill_")
def _fill_(x, v):
    x.a[...] = arr(v) if isinstance(v, torch.Tensor) else (v if isinstance(v, P) else float(v))
    return x


@op("zero_")
def _zero_(x):
    x.a[...] = 0.0
    return x


@op("set_.source_Tensor", "set_data")
def _set_(x, src):
    x.a = arr(src)
    return x


@op("resize_")
def _resize_(x, size, **k):
    raise Unsupported("resize_")


# ---- indexing
def _idx(indices):
    r = []
    for i in indices:
        if i is None:
            r.append(slice(None))
        elif is_sym(i):
            r.append(i)
        elif i.dtype == torch.bool or i.dtype == torch.uint8:
            r.append(i.numpy().astype(bool))
        else:
            r.append(i.numpy())
    return r


def _np_index(a, idx):
    # torch semantics: non-adjacent advanced indices behave as numpy
    return a[tuple(idx)]


@op("index.Tensor", "index", "_unsafe_index")
def _index(x, indices):
    idx = _idx(indices)
    if any(is_sym(i) for i in idx):
        if len(idx) == 1 and not is_sym(x):
            pass
        raise Unsupported("gather by a symbolic mask")
    if not is_sym(x):
        raise Unsupported("index")
    return SymT(np.asarray(_np_index(x.a, idx), dtype=object), x.dtype)


@op("index_put_", "_index_put_impl_", "_unsafe_index_put_")
def _index_put_(x, indices, values, accumulate=False, unsafe=False):
    if not is_sym(x):
        raise Unsupported("index_put_ into a concrete tensor")
    idx = _idx(indices)
    if len(idx) == 1 and is_sym(idx[0]):
        m = idx[0].a
        v = arr(values)
        if v.size != 1:
            raise Unsupported("masked assignment of a tensor")
        mm = m.reshape(m.shape + (1,) * (x.a.ndim - m.ndim))
        x.a[...] = ITE(mm, v.reshape(-1)[0], x.a)
        return x
    v = arr(values)
    if accumulate:
        pos = np.arange(x.a.size).reshape(x.a.shape)[tuple(idx)]
        v = np.broadcast_to(v, pos.shape)
        flat = x.a.reshape(-1)
        for p, val in zip(pos.reshape(-1), v.reshape(-1)):
            flat[p] = flat[p] + val
        if not np.shares_memory(flat, x.a):
            x.a[...] = flat.reshape(x.a.shape)
    else:
        x.a[tuple(idx)] = v
    return x


@op("index_put", "_unsafe_index_put")
def _index_put(x, indices, values, accumulate=False):
    return _index_put_(_clone(x) if is_sym(x) else out(arr(x)), indices, values, accumulate)


@op("index_select")
def _index_select(x, d, index):
    return SymT(np.take(x.a, index.numpy(), axis=d), x.dtype)


@op("index_copy")
def _index_copy(x, d, index, src):
    r = arr(x).copy()
    r[(slice(None),) * _norm(d, r.ndim) + (index.numpy(),)] = arr(src)
    return out(r)


@op("index_add")
def _index_add(x, d, index, src, alpha=1):
    r = arr(x).copy()
    s = arr(src)
    d = _norm(d, r.ndim)
    for k, i in enumerate(index.numpy()):
        sl = (slice(None),) * d
        r[sl + (i,)] = ADD(r[sl + (i,)], MUL(s[sl + (k,)], float(alpha)))
    return out(r)


@op("index_fill")
def _index_fill(x, d, index, v):
    r = arr(x).copy()
    r[(slice(None),) * _norm(d, r.ndim) + (index.numpy(),)] = float(v)
    return out(r)


@op("masked_select")
def _masked_select(x, m):
    if is_sym(m):
        raise Unsupported("masked_select with a symbolic mask")
    return out(arr(x)[m.numpy()])


@op("gather")
def _gather(x, d, index, sparse_grad=False):
    a = arr(x)
    d = _norm(d, a.ndim)
    if is_sym(index):
        ia = index.a
        r = np.empty(ia.shape, dtype=object)
        for pos in np.ndindex(ia.shape):
            s = ia[pos]
            def at(k):
                p = list(pos)
                p[d] = int(k)
                return a[tuple(p)]
            if isinstance(s, Sel):
                r[pos] = poly.dot([(w, at(k)) for w, k in s.choices])
            else:
                r[pos] = at(s)
        return out(r)
    i = index.numpy()
    return out(np.take_along_axis(a[tuple(slice(0, i.shape[k]) if k != d else slice(None) for k in range(a.ndim))], i, d))


@op("scatter")
def _scatter(x, d, index, src, **k):
    a = arr(x).copy()
    s = arr(src)
    d = _norm(d, a.ndim)
    i = index.numpy()
    for pos in np.ndindex(i.shape):
        p = list(pos)
        p[d] = int(i[pos])
        a[tuple(p)] = s[pos] if s.ndim else s.reshape(-1)[0]
    return out(a)


@op("scatter_add")
def _scatter_add(x, d, index, src):
    a = arr(x).copy()
    s = arr(src)
    d = _norm(d, a.ndim)
    i = index.numpy()
    for pos in np.ndindex(i.shape):
        p = list(pos)
        p[d] = int(i[pos])
        a[tuple(p)] = a[tuple(p)] + s[pos]
    return out(a)


@op("scatter_reduce")
def _scatter_reduce(x, d, index, src, reduce, include_self=True):
    if reduce != "sum" or not include_self:
        raise Unsupported("scatter_reduce " + reduce)
    return _scatter_add(x, d, index, src)


@op("one_hot")
def _one_hot(*a):
    raise Unsupported("one_hot")


# ---- reductions
def _dims(dim, n):
    if dim is None or (isinstance(dim, (list, tuple)) and len(dim) == 0):
        return tuple(range(n))
    if isinstance(dim, int):
        dim = (dim,)
    return tuple(sorted(_norm(int(d), n) for d in dim))


def reduce_(a, dim, keepdim, f):
    ds = _dims(dim, a.ndim)
    keep = [i for i in range(a.ndim) if i not in ds]
    b = a.transpose(keep + list(ds)).reshape([a.shape[i] for i in keep] + [int(np.prod([a.shape[i] for i in ds]))]) if ds else a[..., None]
    r = np.empty(b.shape[:-1], dtype=object)
    for i in np.ndindex(r.shape):
        r[i] = f(list(b[i]))
    if keepdim:
        r = r.reshape([1 if i in ds else a.shape[i] for i in range(a.ndim)])
    return r


@op("sum")
def _sum(x, dim=None, keepdim=False, dtype=None):
    return out(reduce_(arr(x), dim, keepdim, poly.sum_))


@op("mean")
def _mean(x, dim=None, keepdim=False, dtype=None):
    return out(reduce_(arr(x), dim, keepdim, lambda l: poly.sum_(l) * (1.0 / len(l))))


@op("prod")
def _prod(x, dim=None, keepdim=False, dtype=None):
    def f(l):
        r = 1.0
        for v in l:
            r = v * r
        return r
    return out(reduce_(arr(x), dim, keepdim, f))


def _varf(corr):
    def f(l):
        n = len(l)
        m = poly.sum_(l) * (1.0 / n)
        c = [v - m for v in l]
        return poly.dot([(v, v) for v in c]) * (1.0 / max(n - corr, 1e-30))
    return f


@op("var.correction", "var")
def _var(x, dim=None, correction=None, keepdim=False, unbiased=None):
    if isinstance(dim, bool):
        unbiased, dim = dim, None
    c = 1 if correction is None else correction
    if unbiased is not None:
        c = 1 if unbiased else 0
    return out(reduce_(arr(x), dim, keepdim, _varf(c)))


@op("var_mean")
def _var_mean(x, dim=None, correction=None, keepdim=False):
    return _var(x, dim, correction, keepdim), _mean(x, dim, keepdim)


@op("std")
def _std(x, dim=None, correction=None, keepdim=False, unbiased=None):
    return out(NPFN["sqrt"](_var(x, dim, correction, keepdim, unbiased).a))


@op("amax")
def _amax(x, dim=(), keepdim=False):
    return out(reduce_(arr(x), dim, keepdim, poly.maximum))


@op("amin")
def _amin(x, dim=(), keepdim=False):
    return out(reduce_(arr(x), dim, keepdim, poly.minimum))


def choose(l):
    """Sel of the argmax of l: 0/1 selector per candidate (ties: measure zero, excluded)"""
    if all(num(v) for v in l):
        return int(np.argmax([float(v) for v in l]))
    if len(l) == 1:
        return 0
    bnd = [poly.bounds(v) for v in l]
    top = max(b[0] for b in bnd)
    live = [j for j, b in enumerate(bnd) if b[1] >= top]
    if len(live) == 1:
        return live[0]
    if len(live) < len(l):
        r = choose([l[j] for j in live])
        return Sel([(w, live[j]) for w, j in r.choices]) if isinstance(r, Sel) else live[r]
    ids = [poly._argid(v) if not num(v) else ("c", round(float(v), 9)) for v in l]
    key = tuple(sorted(set(ids), key=str))
    tab = poly.CTX.table.setdefault("#sel", {})
    if key not in tab:
        first = {}
        for v, i in zip(l, ids):
            first.setdefault(i, v)
        best = max(key, key=lambda i: poly.ev(first[i]))
        ent = {}
        for i in key:
            others = tuple(first[j] for j in key if j != i)
            v = poly._newvar(None, "sel", 0.0, 1.0, 1.0 if i == best else 0.0, "sel", (first[i],) + others)
            poly.CTX.rules[v.id] = {(v.id,): 1.0}
            poly.CTX.special.add(v.id)
            ent[i] = v
        grp = tuple(v.id for v in ent.values())
        for v in ent.values():
            v.partner = grp
        tab[key] = ent
    ent = tab[key]
    seen = set()
    res = []
    for k, i in enumerate(ids):
        if i in seen:
            continue
        seen.add(i)
        res.append((poly.V(ent[i]), k))
    return Sel(res)


poly.NUM["sel"] = lambda x, *o: 1.0 if all(x >= y for y in o) else 0.0


@op("max.dim", "max")
def _max(x, dim=None, keepdim=False):
    if dim is None:
        return _amax(x)
    if isinstance(dim, torch.Tensor):
        return _maximum(x, dim)
    a = arr(x)
    v = reduce_(a, dim, keepdim, poly.maximum)
    i = reduce_(a, dim, keepdim, choose)
    return torch.return_types.max((out(v), _intout(i)))


@op("min.dim", "min")
def _min(x, dim=None, keepdim=False):
    if dim is None:
        return _amin(x)
    if isinstance(dim, torch.Tensor):
        return _minimum(x, dim)
    a = arr(x)
    v = reduce_(a, dim, keepdim, poly.minimum)
    i = reduce_(a, dim, keepdim, lambda l: choose([-u for u in l]))
    return torch.return_types.min((out(v), _intout(i)))


@op("argmax")
def _argmax(x, dim=None, keepdim=False):
    return _intout(reduce_(arr(x), dim, keepdim, choose))


def _intout(i):
    if all(not isinstance(v, Sel) for v in i.reshape(-1)):
        return torch.from_numpy(i.astype(int))
    return SymT(i, torch.int64)


@op("any")
def _any(x, dim=None, keepdim=False):
    def f(l):
        r = 1.0
        for v in l:
            r = r * (1.0 - v) if not num(r) or not num(v) else r * (1.0 - v)
        return 1.0 - r
    return boolout(reduce_(arr(x), dim, keepdim, f))


@op("all")
def _all(x, dim=None, keepdim=False):
    def f(l):
        r = 1.0
        for v in l:
            r = v * r
        return r
    return boolout(reduce_(arr(x), dim, keepdim, f))


@op("linalg_vector_norm", "norm")
def _vnorm(x, ord=2, dim=None, keepdim=False, dtype=None):
    a = arr(x)
    if ord is None:
        ord = 2
    if ord == 2:
        return out(reduce_(a, dim, keepdim, lambda l: poly.fn("sqrt", poly.dot([(v, v) for v in l]))))
    if ord == 1:
        return out(reduce_(a, dim, keepdim, lambda l: poly.sum_([abs(v) for v in l])))
    if ord == float("inf"):
        return out(reduce_(a, dim, keepdim, lambda l: poly.maximum([abs(v) for v in l])))
    raise Unsupported("norm %r" % ord)


@op("cumsum")
def _cumsum(x, dim, dtype=None):
    return out(np.cumsum(arr(x), axis=dim))


@op("_softmax", "softmax")
def _softmax(x, dim, half=False):
    a = arr(x)
    e = NPFN["exp"](a)
    s = reduce_(e, dim, True, poly.sum_)
    return out(DIV(e, s))


# ---- linear algebra
def matmul2(a, b):
    n, k = a.shape
    m = b.shape[1]
    r = np.empty((n, m), dtype=object)
    cols = [b[:, j] for j in range(m)]
    # sparse rows
    rows = [[(t, v) for t, v in enumerate(a[i]) if type(v) is P or v != 0.0] for i in range(n)]
    for j in range(m):
        c = cols[j]
        for i in range(n):
            r[i, j] = poly.dot([(v, c[t]) for t, v in rows[i]])
    return r


@op("mm")
def _mm(a, b):
    return out(matmul2(arr(a), arr(b)))


@op("bmm")
def _bmm(a, b):
    x, y = arr(a), arr(b)
    r = np.empty((x.shape[0], x.shape[1], y.shape[2]), dtype=object)
    for i in range(x.shape[0]):
        r[i] = matmul2(x[i], y[i])
    return out(r)


@op("mv")
def _mv(a, b):
    return out(matmul2(arr(a), arr(b)[:, None])[:, 0])


@op("dot", "vdot")
def _dot(a, b):
    return out(np.asarray(poly.dot(list(zip(arr(a), arr(b)))), dtype=object))


@op("addmm")
def _addmm(c, a, b, beta=1, alpha=1):
    r = matmul2(arr(a), arr(b))
    if alpha != 1:
        r = MUL(r, float(alpha))
    cc = arr(c)
    if beta != 1:
        cc = MUL(cc, float(beta))
    return out(ADD(cc, r))


@op("baddbmm")
def _baddbmm(c, a, b, beta=1, alpha=1):
    return out(ADD(MUL(arr(c), float(beta)), MUL(_bmm(a, b).a, float(alpha))))


@op("linear")
def _linear(x, w, b=None):
    a = arr(x)
    r = matmul2(a.reshape(-1, a.shape[-1]), arr(w).T).reshape(a.shape[:-1] + (w.shape[0],))
    if b is not None:
        r = ADD(r, arr(b))
    return out(r)


@op("outer", "ger")
def _outer(a, b):
    return out(MUL(arr(a)[:, None], arr(b)[None, :]))


# ---- convolutions and pooling
def _tup(v, n):
    if isinstance(v, int):
        return (v,) * n
    v = tuple(v)
    return v * n if len(v) == 1 and n > 1 else v


@op("convolution", "_convolution")
def _convolution(x, w, b, stride, padding, dilation, transposed, output_padding, groups, *a):
    X, W = arr(x), arr(w)
    nd = W.ndim - 2
    unb = X.ndim == nd + 1
    if unb:
        X = X[None]
    stride, padding, dilation, output_padding = (_tup(v, nd) for v in (stride, padding, dilation, output_padding))
    K = W.shape[2:]
    S = X.shape[2:]
    B = X.shape[0]
    if transposed:
        cin, cog = W.shape[0], W.shape[1]
        cout = cog * groups
        O = tuple((S[i] - 1) * stride[i] - 2 * padding[i] + dilation[i] * (K[i] - 1) + output_padding[i] + 1 for i in range(nd))
        contrib = {}
        for p in np.ndindex(*S):
            for k in np.ndindex(*K):
                o = tuple(p[i] * stride[i] - padding[i] + k[i] * dilation[i] for i in range(nd))
                if all(0 <= o[i] < O[i] for i in range(nd)):
                    contrib.setdefault(o, []).append((p, k))
        R = np.empty((B, cout) + O, dtype=object)
        cig = cin // groups
        for n in range(B):
            for co in range(cout):
                g = co // cog
                cl = co % cog
                bias = arr(b)[co] if b is not None else 0.0
                for o in np.ndindex(*O):
                    prs = []
                    for p, k in contrib.get(o, ()):
                        for ci in range(g * cig, (g + 1) * cig):
                            prs.append((W[(ci, cl) + k], X[(n, ci) + p]))
                    R[(n, co) + o] = poly.dot(prs) + bias
    else:
        cout, cig = W.shape[0], W.shape[1]
        if X.shape[1] != cig * groups:
            raise RuntimeError("channels mismatch in convolution")
        cog = cout // groups
        O = tuple((S[i] + 2 * padding[i] - dilation[i] * (K[i] - 1) - 1) // stride[i] + 1 for i in range(nd))
        if any(o <= 0 for o in O):
            raise RuntimeError("Kernel size can't be greater than actual input size")
        R = np.empty((B, cout) + O, dtype=object)
        ks = list(np.ndindex(*K))
        wl = {}
        for co in range(cout):
            wl[co] = [(ci, k, W[(co, ci) + k]) for ci in range(cig) for k in ks
                      if type(W[(co, ci) + k]) is P or W[(co, ci) + k] != 0.0]
        for n in range(B):
            for co in range(cout):
                g = co // cog
                bias = arr(b)[co] if b is not None else 0.0
                for o in np.ndindex(*O):
                    prs = []
                    for ci, k, wv in wl[co]:
                        p = tuple(o[i] * stride[i] - padding[i] + k[i] * dilation[i] for i in range(nd))
                        if all(0 <= p[i] < S[i] for i in range(nd)):
                            prs.append((wv, X[(n, g * cig + ci) + p]))
                    R[(n, co) + o] = poly.dot(prs) + bias
    if unb:
        R = R[0]
    return out(R)


def pool_out(i, k, s, p, d, ceil):
    n = i + 2 * p - d * (k - 1) - 1
    o = (-(-n // s) if ceil else n // s) + 1
    if ceil and (o - 1) * s >= i + p:
        o -= 1
    return o


def _windows(S, k, s, p, d, ceil):
    nd = len(S)
    O = tuple(pool_out(S[i], k[i], s[i], p[i], d[i], ceil) for i in range(nd))
    if any(o <= 0 for o in O):
        raise RuntimeError("Output size is too small")
    return O


def _maxpool(x, k, stride=(), padding=0, dilation=1, ceil_mode=False, indices=True):
    X = arr(x)
    nd = len(k) if not isinstance(k, int) else None
    nd = nd or (X.ndim - 2)
    k = _tup(k, nd)
    s = _tup(stride, nd) if not isinstance(stride, int) and len(stride) else (k if not isinstance(stride, int) else _tup(stride, nd))
    p, d = _tup(padding, nd), _tup(dilation, nd)
    lead = X.shape[:-nd]
    S = X.shape[-nd:]
    O = _windows(S, k, s, p, d, ceil_mode)
    X2 = X.reshape((-1,) + S)
    R = np.empty((X2.shape[0],) + O, dtype=object)
    I = np.empty((X2.shape[0],) + O, dtype=object)
    for c in range(X2.shape[0]):
        for o in np.ndindex(*O):
            pos = []
            for kk in np.ndindex(*k):
                q = tuple(o[i] * s[i] - p[i] + kk[i] * d[i] for i in range(nd))
                if all(0 <= q[i] < S[i] for i in range(nd)):
                    pos.append(q)
            vals = [X2[(c,) + q] for q in pos]
            R[(c,) + o] = poly.maximum(vals)
            if indices:
                flat = [int(np.ravel_multi_index(q, S)) for q in pos]
                ch = choose(vals)
                I[(c,) + o] = Sel([(w, flat[j]) for w, j in ch.choices]) if isinstance(ch, Sel) else flat[ch]
    R = R.reshape(lead + O)
    I = I.reshape(lead + O)
    return out(R), (_intout(I) if indices else None)


@op("max_pool2d_with_indices", "max_pool3d_with_indices")
def _mp(x, k, stride=(), padding=0, dilation=1, ceil_mode=False):
    nd = 2 if isinstance(k, int) or len(k) == 2 else 3
    return _maxpool(x, k, stride, padding, dilation, ceil_mode)


@op("max_pool2d", "max_pool3d")
def _mp2(x, k, stride=(), padding=0, dilation=1, ceil_mode=False):
    return _maxpool(x, k, stride, padding, dilation, ceil_mode, False)[0]


@op("avg_pool2d", "avg_pool3d", "avg_pool1d")
def _avgpool(x, k, stride=(), padding=0, ceil_mode=False, count_include_pad=True, divisor_override=None):
    X = arr(x)
    nd = X.ndim - 2 if isinstance(k, int) else len(k)
    k = _tup(k, nd)
    s = k if (not isinstance(stride, int) and len(stride) == 0) else _tup(stride, nd)
    p = _tup(padding, nd)
    S = X.shape[-nd:]
    lead = X.shape[:-nd]
    O = _windows(S, k, s, p, (1,) * nd, ceil_mode)
    X2 = X.reshape((-1,) + S)
    R = np.empty((X2.shape[0],) + O, dtype=object)
    for c in range(X2.shape[0]):
        for o in np.ndindex(*O):
            st = [o[i] * s[i] - p[i] for i in range(nd)]
            en = [min(st[i] + k[i], S[i] + p[i]) for i in range(nd)]
            full = int(np.prod([en[i] - st[i] for i in range(nd)]))
            rng = [range(max(st[i], 0), min(en[i], S[i])) for i in range(nd)]
            vals = [X2[(c,) + q] for q in itertools.product(*rng)]
            div = divisor_override or (full if count_include_pad else len(vals))
            R[(c,) + o] = poly.sum_(vals) * (1.0 / div)
    return out(R.reshape(lead + O))


@op("_adaptive_avg_pool2d", "_adaptive_avg_pool3d", "adaptive_avg_pool2d", "adaptive_avg_pool3d")
def _adapt_avg(x, size):
    return out(_adaptive(arr(x), size, lambda l: poly.sum_(l) * (1.0 / len(l))))


@op("adaptive_max_pool2d", "adaptive_max_pool3d")
def _adapt_max(x, size):
    return out(_adaptive(arr(x), size, poly.maximum)), None


def _adaptive(X, size, f):
    nd = len(size)
    S = X.shape[-nd:]
    R = np.empty(X.shape[:-nd] + tuple(size), dtype=object)
    for lead in np.ndindex(X.shape[:-nd]):
        for o in np.ndindex(*size):
            rng = [range((o[i] * S[i]) // size[i], -(-((o[i] + 1) * S[i]) // size[i])) for i in range(nd)]
            R[lead + o] = f([X[lead + q] for q in itertools.product(*rng)])
    return R


@op("constant_pad_nd")
def _cpad(x, pad, value=0):
    X = arr(x)
    w = [(0, 0)] * X.ndim
    crop = [slice(None)] * X.ndim
    for i in range(len(pad) // 2):
        lo, hi = pad[2 * i], pad[2 * i + 1]
        d = X.ndim - 1 - i
        w[d] = (max(lo, 0), max(hi, 0))
        crop[d] = slice(-lo if lo < 0 else 0, hi if hi < 0 else None)
    return out(np.pad(X[tuple(crop)], w, constant_values=float(value)))


def _padmode(mode):
    def f(x, pad, *a):
        X = arr(x)
        w = [(0, 0)] * X.ndim
        for i in range(len(pad) // 2):
            w[X.ndim - 1 - i] = (pad[2 * i], pad[2 * i + 1])
        return out(np.pad(X, w, mode=mode))
    return f


for _d in ("1d", "2d", "3d"):
    OPS["reflection_pad" + _d] = _padmode("reflect")
    OPS["replication_pad" + _d] = _padmode("edge")


@op("_pad_circular", "_pad_enum")
def _padc(x, pad, mode=None, value=None):
    if mode is None or mode == 3:
        return _padmode("wrap")(x, pad)
    if mode == 1:
        return _padmode("reflect")(x, pad)
    if mode == 2:
        return _padmode("edge")(x, pad)
    return _cpad(x, pad, value or 0)


def _interp_matrix(fname, n_in, args_builder):
    raise Unsupported("interp")


def _linear_resize(x, osize, f):
    """any torch op that is linear and acts channelwise on spatial dims: take its matrix from torch itself"""
    X = arr(x)
    nd = len(osize) if not callable(osize) else None
    S = X.shape[2:]
    n = int(np.prod(S))
    eye = torch.eye(n, dtype=torch.float64).reshape((n, 1) + tuple(S))
    with torch._C._DisableTorchDispatch() if False else _nomode():
        R = f(eye)
    O = tuple(R.shape[2:])
    M = R.reshape(n, -1).numpy()          # n x prod(O)
    Y = X.reshape(-1, n)
    r = np.empty((Y.shape[0], M.shape[1]), dtype=object)
    nz = [[(i, float(M[i, j])) for i in range(n) if M[i, j] != 0.0] for j in range(M.shape[1])]
    for c in range(Y.shape[0]):
        for j in range(M.shape[1]):
            r[c, j] = poly.dot([(v, Y[c, i]) for i, v in nz[j]])
    return out(r.reshape(X.shape[:2] + O))


def _nomode():
    from torch.utils._python_dispatch import _disable_current_modes
    return _disable_current_modes()


def _mkresize(name):
    f = getattr(aten, name)

    def g(x, *a, **k):
        return _linear_resize(x, (), lambda e: f(e, *a, **k))
    return g


for _n in ("upsample_nearest1d", "upsample_nearest2d", "upsample_nearest3d", "upsample_bilinear2d", "upsample_trilinear3d",
           "upsample_linear1d", "upsample_bicubic2d", "_upsample_bilinear2d_aa", "_upsample_nearest_exact2d",
           "_upsample_nearest_exact3d"):
    OPS[_n] = _mkresize(_n)


# ---- normalisation
def _bn(x, w, b, rm, rv, training, momentum, eps, update=True):
    X = arr(x)
    C = X.shape[1]
    ax = [0] + list(range(2, X.ndim))
    shape = [1, C] + [1] * (X.ndim - 2)
    if training:
        mean = reduce_(X, ax, False, lambda l: poly.sum_(l) * (1.0 / len(l)))
        var = reduce_(X, ax, False, _varf(0))
        n = X.size // C
        if update and rm is not None:
            rm.a[...] = ADD(MUL(rm.a, 1.0 - momentum), MUL(mean, float(momentum)))
            rv.a[...] = ADD(MUL(rv.a, 1.0 - momentum), MUL(var, float(momentum) * n / max(n - 1, 1e-30)))
    else:
        mean, var = arr(rm), arr(rv)
    istd = uf(lambda v: poly.inv(poly.fn("sqrt", v + float(eps))))(var)
    Y = MUL(SUB(X, mean.reshape(shape)), istd.reshape(shape))
    if w is not None:
        Y = MUL(Y, arr(w).reshape(shape))
    if b is not None:
        Y = ADD(Y, arr(b).reshape(shape))
    return out(Y), out(mean), out(istd)


@op("native_batch_norm", "_native_batch_norm_legit", "_native_batch_norm_legit.no_stats")
def _nbn(x, w, b, *a):
    if len(a) == 5:
        rm, rv, tr, mom, eps = a
    else:
        rm = rv = None
        tr, mom, eps = a
    return _bn(x, w, b, rm, rv, tr, mom, eps)


@op("_batch_norm_impl_index")
def _bnii(x, w, b, rm, rv, tr, mom, eps, cudnn):
    y, m, s = _bn(x, w, b, rm, rv, tr, mom, eps)
    return y, m, s, None, 0


@op("batch_norm", "cudnn_batch_norm")
def _bn1(x, w, b, rm, rv, tr, mom, eps, cudnn=False):
    return _bn(x, w, b, rm, rv, tr, mom, eps)[0]


@op("batch_norm_update_stats")
def _bnus(*a):
    raise Unsupported("batch_norm_update_stats")


@op("_batch_norm_with_update", "_batch_norm_with_update_functional")
def _bnwu(x, w, b, rm, rv, mom, eps):
    y, m, s = _bn(x, w, b, rm, rv, True, mom, eps)
    return y, m, s, torch.zeros(0)


@op("_batch_norm_no_update")
def _bnnu(x, w, b, rm, rv, mom, eps):
    y, m, s = _bn(x, w, b, rm, rv, rm is None, mom, eps, False)
    return y, m, s, torch.zeros(0)


@op("native_dropout")
def _ndrop(x, p, train):
    if not train:
        return _clone(x), torch.ones(tuple(x.shape), dtype=torch.bool)
    m = fresh_rand(x.shape, "bern")
    return out(MUL(MUL(arr(x), m.a), 1.0 / (1.0 - p))), m


# ---- metadata
@op("is_nonzero")
def _is_nonzero(x):
    return bool(x.item())


@op("_local_scalar_dense")
def _lsd(x):
    v = x.item()
    if num(v):
        return v
    raise poly.SymbolicDecision("item() of a symbolic tensor")


@op("sym_size", "sym_stride", "sym_numel", "sym_storage_offset")
def _meta(*a):
    raise Unsupported("symbolic size")


@op("grid_sampler_2d", "grid_sampler_3d")
def _grid(x, grid, *a):
    if is_sym(grid):
        raise Unsupported("grid_sample on symbolic grid")
    f = aten.grid_sampler_2d if x.dim() == 4 else aten.grid_sampler_3d
    g = grid
    # linear in x; channelwise
    X = arr(x)
    S = X.shape[2:]
    n = int(np.prod(S))
    outs = []
    for bi in range(X.shape[0]):
        outs.append(_linear_resize(out(X[bi:bi + 1]), (), lambda e: f(e, g[bi:bi + 1].double().expand(e.shape[0], *g.shape[1:]), *a)).a)
    return out(np.concatenate(outs, 0))
