"""
Symbolic tensors.

``SymTensor`` is a real ``torch.Tensor`` wrapper subclass whose payload is a numpy
object array of Python numbers / z3 proxies. The *real* model code (and the real
``torch.nn`` / ``torch`` Python code beneath it) runs on it; every ATen operator
that reaches the dispatcher is interpreted exactly over the integers, the booleans
and the (exact) reals. Views alias their base, in-place operators write through.
"""

from __future__ import annotations

import itertools
import math
import os
from fractions import Fraction

os.environ.setdefault("TORCH_COMPILE_DISABLE", "1")

import weakref

import numpy as np
import torch
from torch.utils._python_dispatch import TorchDispatchMode, _disable_current_modes

from symx import core
from symx.core import (
    INF,
    Sym,
    SymBool,
    SymInt,
    SymReal,
    Unsupported,
    and_,
    ite,
    lift,
    mk_bool,
    mk_int,
    mk_real,
    not_,
    or_,
    ufun,
    usqrt,
    z3,
)

aten = torch.ops.aten
NAN = float("nan")

FLOATS = {torch.float16, torch.bfloat16, torch.float32, torch.float64}
COMPLEX = {torch.complex64, torch.complex128, torch.complex32}


def kind(dtype):
    if dtype is torch.bool:
        return "b"
    if dtype in FLOATS:
        return "f"
    if dtype in COMPLEX:
        return "c"
    return "i"


# ---- scalars ----------------------------------------------------------------


class SymComplex:
    __slots__ = ("re", "im")

    def __init__(self, re, im):
        self.re, self.im = re, im

    def __mul__(self, o):
        if isinstance(o, SymComplex):
            return SymComplex(self.re * o.re - self.im * o.im, self.re * o.im + self.im * o.re)
        return SymComplex(self.re * o, self.im * o)

    __rmul__ = __mul__

    def __add__(self, o):
        if isinstance(o, SymComplex):
            return SymComplex(self.re + o.re, self.im + o.im)
        return SymComplex(self.re + o, self.im)

    __radd__ = __add__

    def __sub__(self, o):
        if isinstance(o, SymComplex):
            return SymComplex(self.re - o.re, self.im - o.im)
        return SymComplex(self.re - o, self.im)

    def __neg__(self):
        return SymComplex(-self.re, -self.im)


def special(x):
    return type(x) is float and not math.isfinite(x) if type(x) is float else False


def norm_scalar(x, k=None):
    """Python / numpy scalar -> payload element of kind k."""
    if isinstance(x, (Sym, SymComplex)):
        return conv(x, k) if k else x
    if type(x) is Fraction:
        return conv(x, k) if k else x
    if isinstance(x, np.generic):
        x = x.item()
    if isinstance(x, bool):
        return conv(x, k) if k else x
    if isinstance(x, int):
        return conv(int(x), k) if k else int(x)
    if isinstance(x, float):
        v = Fraction(x) if core._isinf(x) is False and x == x else float(x)
        return conv(v, k) if k else v
    if isinstance(x, complex):
        return SymComplex(norm_scalar(x.real), norm_scalar(x.imag))
    raise Unsupported(f"scalar {type(x)}")


def conv(x, k):
    t = type(x)
    if k == "f":
        if t is Fraction or t is SymReal or t is float:
            return x
        if t is bool or t is int:
            return Fraction(int(x))
        if t is SymInt:
            return mk_real(z3.ToReal(x.e))
        if t is SymBool:
            return ite(x, Fraction(1), Fraction(0))
        if t is SymComplex:
            return x.re
    elif k == "i":
        if t is int or t is SymInt:
            return x
        if t is bool:
            return int(x)
        if t is SymBool:
            return x._int()
        if t is Fraction:
            return math.trunc(x)
        if t is SymReal:
            return x.__trunc__()
        if t is float:
            return -(2**63) if not x > 0 else -(2**63)
    elif k == "b":
        if t is bool or t is SymBool:
            return x
        if t is float:
            return True
        r = x != 0
        return r
    elif k == "c":
        if t is SymComplex:
            return x
        return SymComplex(conv(x, "f"), Fraction(0))
    raise Unsupported(f"cannot convert {t} to kind {k}")


def is_sym(x):
    if isinstance(x, Sym):
        return True
    if type(x) is SymComplex:
        return isinstance(x.re, Sym) or isinstance(x.im, Sym)
    return False


def obj(shape):
    return np.empty(shape, dtype=object)


def fill(shape, v):
    a = np.empty(shape, dtype=object)
    a.fill(v) if not isinstance(v, Sym) else _fill(a, v)
    return a


def _fill(a, v):
    f = a.reshape(-1)
    for i in range(f.size):
        f[i] = v


def ufn(f, nin):
    g = np.frompyfunc(f, nin, 1)

    def run(*arrs):
        shape = np.broadcast_shapes(*[a.shape for a in arrs])
        if shape == ():
            o = obj(())
            o[()] = f(*[a[()] for a in arrs])
            return o
        return g(*arrs)

    return run


def sum_terms(ts):
    """Exact sum of payload elements (one z3 term)."""
    c = 0
    zs = []
    isreal = False
    sp = None
    for t in ts:
        if isinstance(t, Sym):
            e = t.e
            if z3.is_bool(e):
                e = z3.If(e, z3.IntVal(1), z3.IntVal(0))
            zs.append(e)
            isreal = isreal or z3.is_real(e)
        elif type(t) is float:
            sp = t if sp is None else sp + t
        elif type(t) is SymComplex:
            r = ts[0]
            for q in ts[1:]:
                r = r + q
            return r
        else:
            c = c + t
            isreal = isreal or type(t) is Fraction
    if sp is not None:
        return sp
    if not zs:
        return c
    if isreal:
        zs = [z3.ToReal(z) if z3.is_int(z) else z for z in zs]
        if c != 0:
            zs.append(core.real_val(c))
        return SymReal(zs[0] if len(zs) == 1 else z3.Sum(zs))
    if c != 0:
        zs.append(z3.IntVal(int(c)))
    return mk_int(zs[0] if len(zs) == 1 else z3.Sum(zs))


def mul(a, b):
    ta, tb = type(a), type(b)
    if ta is Fraction or ta is int:
        if a == 0 and tb is not float:
            return b * 0 if tb is SymComplex else (a if not (ta is int and tb in (Fraction, SymReal)) else Fraction(0))
        if a == 1 and tb is not bool:
            return b if not (ta is Fraction and tb in (int, SymInt)) else a * b
    return a * b


def dot_terms(xs, ys):
    return sum_terms([mul(x, y) for x, y in zip(xs, ys)])


def p_div(a, b):
    """float division with IEEE specials for a zero denominator"""
    if isinstance(b, Sym):
        if type(b) is SymInt:
            b = conv(b, "f")
        if core.sign(b.e) != 2 and b == 0:
            b = Fraction(0)
        else:
            if special(a):
                return a if b > 0 else -a
            return core.mk_real(core._realterm(a) / b.e)
    if type(b) is float:
        if b != b or special(a):
            return NAN
        return Fraction(0)
    if b == 0:
        if special(a):
            return a
        if isinstance(a, Sym):
            if a == 0:
                return NAN
            return INF if a > 0 else -INF
        return NAN if a == 0 else (INF if a > 0 else -INF)
    if isinstance(a, Sym):
        if b == 1:
            return conv(a, "f")
        return core.div(a, b)
    if type(a) is float:
        return a if b > 0 else -a
    if type(a) is SymComplex:
        return SymComplex(p_div(a.re, b), p_div(a.im, b))
    return Fraction(a) / Fraction(b)


def p_sqrt(x):
    if type(x) is float:
        return x if x > 0 else NAN
    if not isinstance(x, Sym):
        if x < 0:
            return NAN
        return Fraction(usqrt(x))
    return usqrt(x)


def p_fn(name):
    def f(x):
        if type(x) is float:
            if x != x:
                return x
            if name == "exp":
                return INF if x > 0 else Fraction(0)
            if name == "log":
                return INF if x > 0 else NAN
            if name in ("tanh", "erf"):
                return Fraction(1) if x > 0 else Fraction(-1)
            if name == "sigmoid":
                return Fraction(1) if x > 0 else Fraction(0)
            return NAN
        if isinstance(x, Sym):
            return ufun(name, x)
        if name == "sigmoid":
            fx = float(x)
            return Fraction(1 / (1 + math.exp(-fx))) if fx > -700 else Fraction(0)
        if name == "log":
            if x < 0:
                return NAN
            if x == 0:
                return -INF
        if name == "exp" and x > 700:
            return INF
        r = ufun(name, x)
        return Fraction(r) if not special(r) else r

    return f


def p_floor(x):
    return x if type(x) is float else Fraction(math.floor(x)) if not isinstance(x, Sym) else conv(x.__floor__(), "f") if type(x) is SymReal else x


def p_ceil(x):
    return x if type(x) is float else Fraction(math.ceil(x)) if not isinstance(x, Sym) else conv(x.__ceil__(), "f") if type(x) is SymReal else x


def p_trunc(x):
    return x if type(x) is float else Fraction(math.trunc(x)) if not isinstance(x, Sym) else conv(x.__trunc__(), "f") if type(x) is SymReal else x


def p_round(x):
    return x if type(x) is float else Fraction(round(x)) if not isinstance(x, Sym) else conv(x.__round__(), "f") if type(x) is SymReal else x


def p_max(a, b):
    if a is b:
        return a
    if special(a):
        return a if (a > 0 or a != a) else b
    if special(b):
        return b if (b > 0 or b != b) else a
    if isinstance(a, Sym) or isinstance(b, Sym):
        return ite(a >= b, a, b)
    return a if a >= b else b


def p_min(a, b):
    if a is b:
        return a
    if special(a):
        return a if (a < 0 or a != a) else b
    if special(b):
        return b if (b < 0 or b != b) else a
    if isinstance(a, Sym) or isinstance(b, Sym):
        return ite(a <= b, a, b)
    return a if a <= b else b


def p_pow(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        return core.power(a, b)
    if special(a) or special(b):
        r = float(a) ** float(b)
        return r if special(r) else Fraction(r)
    if Fraction(b).denominator == 1:
        if type(a) is int and type(b) is int and b >= 0:
            return a**b
        if a == 0 and b < 0:
            return INF
        return Fraction(a) ** int(b)
    r = float(a) ** float(b)
    if isinstance(r, complex):
        return NAN
    return Fraction(r) if not special(r) else r


def p_floordiv(a, b):
    if special(a) or special(b):
        raise Unsupported("floor_divide on non-finite")
    if isinstance(a, Sym) or isinstance(b, Sym):
        return core.floordiv(a, b)
    if b == 0:
        raise RuntimeError("ZeroDivisionError")
    r = a // b
    return Fraction(r) if isinstance(a, Fraction) or isinstance(b, Fraction) else r


def p_rem(a, b):
    return a - mul(p_floordiv(a, b), b)


def p_truncdiv(a, b):
    if isinstance(a, Sym) or isinstance(b, Sym):
        q = core.floordiv(abs(a), abs(b))
        return ite((a >= 0) == (b > 0) if not (isinstance(a, Sym) or isinstance(b, Sym)) else or_(and_(a >= 0, b > 0), and_(a < 0, b < 0)), q, -q)
    if b == 0:
        raise RuntimeError("ZeroDivisionError")
    q = abs(a) // abs(b)
    return q if (a >= 0) == (b > 0) else -q


# ---- the tensor -------------------------------------------------------------


class SymTensor(torch.Tensor):
    @staticmethod
    def __new__(cls, arr, dtype, device=None, requires_grad=False):
        strides = tuple(s // 8 for s in arr.strides) if arr.size else None
        kw = {}
        if strides is not None:
            kw["strides"] = strides
        return torch.Tensor._make_wrapper_subclass(
            cls, tuple(int(s) for s in arr.shape), dtype=dtype, device=device or torch.device("cpu"), requires_grad=requires_grad, **kw
        )

    def __init__(self, arr, dtype, device=None, requires_grad=False):
        self._a = arr

    def __repr__(self, *a, **k):
        return f"SymTensor({self._a.tolist()}, {self.dtype})"

    __str__ = __repr__

    def __format__(self, spec):
        return "\u27e6symtensor\u27e7"

    def __deepcopy__(self, memo):
        if id(self) in memo:
            return memo[id(self)]
        r = SymTensor(self._a.copy(), self.dtype, self.device)
        if getattr(self, "_is_param", False):
            r = torch.nn.Parameter(r, self.requires_grad)
        elif self.requires_grad:
            r.requires_grad_(True)
        memo[id(self)] = r
        return r

    def __reduce_ex__(self, proto):
        return (_rebuild, (self._a.tolist(), list(self._a.shape), str(self.dtype)))

    @classmethod
    def __torch_function__(cls, func, types, args=(), kwargs=None):
        kwargs = kwargs or {}
        h = TF.get(func)
        if h is not None:
            return h(*args, **kwargs)
        args, kwargs = lift_sym_args(func, args, kwargs)
        with torch._C.DisableTorchFunctionSubclass():
            return func(*args, **kwargs)

    @classmethod
    def __torch_dispatch__(cls, func, types, args=(), kwargs=None):
        return interpret(func, args, kwargs or {})


def _rebuild(lst, shape, dtype):
    dt = getattr(torch, dtype.split(".")[1])
    a = obj(tuple(shape))
    flat = a.reshape(-1)
    for i, x in enumerate(_flat(lst)):
        flat[i] = x
    return SymTensor(a, dt)


def _flat(x):
    if isinstance(x, list):
        for q in x:
            yield from _flat(q)
    else:
        yield x


TF = {}  # torch-function level overrides


def tf(*fs):
    def deco(h):
        for f in fs:
            TF[f] = h
        return h

    return deco


_T = torch.Tensor


def payload(t):
    if isinstance(t, SymTensor):
        return t._a
    if isinstance(t, torch.Tensor):
        return from_real(t)
    k = norm_scalar(t)
    o = obj(())
    o[()] = k
    return o


def from_real(t):
    with _disable_current_modes():
        t = t.detach()
        k = kind(t.dtype)
        a = obj(tuple(t.shape))
        if a.size:
            f = a.reshape(-1)
            vals = t.reshape(-1).tolist()
            for i, x in enumerate(vals):
                f[i] = norm_scalar(x, k)
        return a


def has_sym(a):
    return any(is_sym(x) for x in a.reshape(-1)) if a.size else False


def to_real(t):
    """all-concrete SymTensor -> ordinary tensor"""
    with _disable_current_modes():
        a = t._a
        vals = [pyval(x) for x in a.reshape(-1)]
        r = torch.tensor(vals, dtype=t.dtype).reshape(a.shape)
        return r


def pyval(x):
    if type(x) is Fraction:
        return float(x)
    if type(x) is SymComplex:
        return complex(float(x.re), float(x.im))
    return x


def wrap(arr, dtype, device=None):
    return SymTensor(arr, dtype, device)


def sym_tensor(data, dtype=None):
    """Nested lists (with proxies) -> SymTensor"""
    shape = []
    d = data
    while isinstance(d, (list, tuple)):
        shape.append(len(d))
        d = d[0] if len(d) else None
    flat = list(_flat(_tolists(data)))
    if dtype is None:
        if any(isinstance(x, float) or type(x) is Fraction for x in flat):
            dtype = torch.get_default_dtype()
        elif flat and all(isinstance(x, bool) for x in flat):
            dtype = torch.bool
        elif not flat:
            dtype = torch.get_default_dtype()
        else:
            dtype = torch.int64
    k = kind(dtype)
    a = obj(tuple(shape))
    f = a.reshape(-1)
    for i, x in enumerate(flat):
        if isinstance(x, torch.Tensor):
            x = payload(x).reshape(-1)[0]
        f[i] = norm_scalar(x, k)
    return SymTensor(a, dtype)


def _tolists(x):
    if isinstance(x, (list, tuple)):
        return [_tolists(q) for q in x]
    return x


def contains_sym(x):
    if isinstance(x, Sym) or type(x) is Fraction:
        return True
    if isinstance(x, (list, tuple)):
        return any(contains_sym(q) for q in x)
    if isinstance(x, SymTensor):
        return True
    return False


_ELEMWISE = set()


def _collect_elemwise():
    names = """add sub mul div true_divide __add__ __radd__ __sub__ __rsub__ __mul__ __rmul__ __truediv__ __rtruediv__
    __iadd__ __isub__ __imul__ __itruediv__ __lt__ __le__ __gt__ __ge__ __eq__ __ne__ eq ne lt le gt ge add_ sub_ mul_ div_
    pow __pow__ __rpow__ maximum minimum where rsub __floordiv__ __rfloordiv__ __mod__ __rmod__ floor_divide remainder fmod
    masked_fill masked_fill_ fill_ __setitem__ clamp clamp_ clamp_min clamp_max copy_ logical_and logical_or __and__ __or__ __xor__ lerp atan2 __rmod__ full_like new_full addcdiv addcmul __idiv__ __contains__""".split()
    for n in names:
        for o in (torch, torch.Tensor):
            f = getattr(o, n, None)
            if f is not None:
                _ELEMWISE.add(f)


_collect_elemwise()
_FULL_LIKE = {torch.full_like, torch.Tensor.new_full}


def lift_sym_args(func, args, kwargs):
    ew = func in _ELEMWISE

    def fix(x):
        if isinstance(x, Sym) or type(x) is Fraction:
            if ew:
                return sym_tensor(x, torch.get_default_dtype() if isinstance(x, float) or type(x) is Fraction else (torch.bool if isinstance(x, bool) else torch.int64))
            if type(x) is Fraction:
                return float(x)
            if type(x) is SymBool:
                return bool(x)
            if type(x) is SymInt:
                return int(x)
            return float(x)
        if type(x) is slice:
            return slice(fixi(x.start), fixi(x.stop), fixi(x.step))
        if type(x) is tuple:
            return tuple(fix(q) for q in x)
        if type(x) is list:
            return [fix(q) for q in x]
        return x

    def fixi(x):
        return int(x) if isinstance(x, Sym) else x

    def fixidx(x):
        if isinstance(x, SymBool):
            return bool(x)
        if isinstance(x, Sym):
            return int(x)
        if type(x) is slice:
            return slice(fixi(x.start), fixi(x.stop), fixi(x.step))
        if type(x) is tuple:
            return tuple(fixidx(q) for q in x)
        return x

    if func is _T.__getitem__:
        return (args[0], fixidx(args[1])), kwargs
    if func is _T.__setitem__:
        v = args[2]
        return (args[0], fixidx(args[1]), fix(v)), kwargs
    if func in _FULL_LIKE and any(isinstance(x, Sym) for x in itertools.chain(args, kwargs.values())):
        pass
    return tuple(fix(a) for a in args), {k: fix(v) for k, v in kwargs.items()}


# ---- python-scalar extraction ------------------------------------------------


@tf(_T.item)
def _item(self):
    a = payload(self)
    if a.size != 1:
        raise RuntimeError(f"a Tensor with {a.size} elements cannot be converted to Scalar")
    return out_scalar(a.reshape(-1)[0])


def out_scalar(x):
    if type(x) is Fraction:
        f = float(x)
        return f if Fraction(f) == x else float(x)
    return x


@tf(_T.tolist)
def _tolist(self):
    def go(a):
        if a.ndim == 0:
            return out_scalar(a[()])
        return [go(a[i]) if a.ndim > 1 else out_scalar(a[i]) for i in range(a.shape[0])]

    return go(payload(self))


@tf(_T.__bool__)
def _bool(self):
    x = _item(self)
    if isinstance(x, SymBool):
        return bool(x)
    return bool(x != 0)


@tf(_T.__int__, _T.__index__)
def _int(self):
    x = _item(self)
    return int(x)


@tf(_T.__float__)
def _float(self):
    return float(_item(self))


@tf(_T.__contains__)
def _contains(self, x):
    a = payload(self)
    x = payload(x)[()] if isinstance(x, torch.Tensor) else x
    return bool(or_(*[q == x for q in a.reshape(-1)]))


@tf(_T.numpy)
def _numpy(self, *a, **k):
    if has_sym(self._a):
        raise Unsupported("Tensor.numpy() on symbolic data")
    return to_real(self).numpy()


@tf(torch.equal, _T.equal)
def _equal(a, b):
    x, y = payload(a), payload(b)
    if x.shape != y.shape:
        return False
    return bool(and_(*[p == q for p, q in zip(x.reshape(-1), y.reshape(-1))]))


@tf(_T.data_ptr)
def _data_ptr(self):
    return id(root(self._a))


def root(a):
    while a.base is not None and isinstance(a.base, np.ndarray):
        a = a.base
    return a


@tf(_T.cpu, _T.cuda)
def _cpu(self, *a, **k):
    return self


@tf(_T.pin_memory)
def _pin(self, *a, **k):
    return self


def _scaled_dot_product(query, key, value, attn_mask=None, dropout_p=0.0, is_causal=False, scale=None, enable_gqa=False):
    """Reference semantics from the documentation of scaled_dot_product_attention."""
    L, S = query.size(-2), key.size(-2)
    sc = 1 / math.sqrt(query.size(-1)) if scale is None else scale
    if enable_gqa:
        key = key.repeat_interleave(query.size(-3) // key.size(-3), -3)
        value = value.repeat_interleave(query.size(-3) // value.size(-3), -3)
    w = (query @ key.transpose(-2, -1)) * sc
    if is_causal:
        if attn_mask is not None:
            raise RuntimeError("Explicit attn_mask should not be set when is_causal=True")
        m = torch.ones(L, S, dtype=torch.bool).tril(diagonal=0)
        w = torch.where(m, w, float("-inf"))
    if attn_mask is not None:
        if attn_mask.dtype == torch.bool:
            w = torch.where(attn_mask, w, float("-inf"))
        else:
            w = w + attn_mask
    w = torch.softmax(w, dim=-1)
    if dropout_p > 0.0:
        raise Unsupported("dropout in scaled_dot_product_attention")
    return w @ value


TF[torch.nn.functional.scaled_dot_product_attention] = _scaled_dot_product


@tf(torch.matmul, _T.matmul, _T.__matmul__)
def _matmul(input, other):
    if input.dim() == 1 and other.dim() == 2:
        # PyTorch squeezes the product in place
        return torch.mv(other.t(), input)
    with torch._C.DisableTorchFunctionSubclass():
        return torch.matmul(input, other)


# ---- dispatcher ---------------------------------------------------------------


class SymMode(TorchDispatchMode):
    def __torch_dispatch__(self, func, types, args=(), kwargs=None):
        return interpret(func, args, kwargs or {})


_MISSING = object()
H = {}
OPSTAT = {}


def op(*names):
    def deco(f):
        for n in names:
            H[n] = f
        return f

    return deco


class NS(dict):
    __getattr__ = dict.__getitem__


def bind(func, args, kwargs):
    ns = NS()
    i = 0
    for a in func._schema.arguments:
        if not a.kwarg_only and i < len(args):
            ns[a.name] = args[i]
            i += 1
        elif a.name in kwargs:
            ns[a.name] = kwargs[a.name]
        elif a.has_default_value():
            ns[a.name] = a.default_value
        else:
            ns[a.name] = None
    ns["self_"] = ns.get("self")
    ns["_func"] = func
    return ns


def tree_tensors(x):
    if isinstance(x, torch.Tensor):
        yield x
    elif isinstance(x, (list, tuple)):
        for q in x:
            yield from tree_tensors(q)
    elif isinstance(x, dict):
        for q in x.values():
            yield from tree_tensors(q)


def interpret(func, args, kwargs):
    packet = func._overloadpacket.__name__
    ns = None
    h = H.get(packet)
    if func._overloadname == "out" or func._overloadname.endswith("_out"):
        ns = bind(func, args, kwargs)
        out = ns.get("out")
        if h is None or not isinstance(out, torch.Tensor):
            return fallback(func, args, kwargs)
        r = h(ns)
        if not isinstance(r, torch.Tensor) or tuple(r.shape) != tuple(out.shape):
            raise Unsupported(f"operator {func} with this out argument")
        return write(out, r)
    if h is not None:
        r = h(bind(func, args, kwargs))
        if r is not NotImplemented:
            return round_result(r) if ROUND[0] else r
    if packet in ("squeeze_", "unsqueeze_", "transpose_", "t_", "swapaxes_", "swapdims_") and isinstance(args[0], SymTensor):
        r = func_functional(packet[:-1], func)(*args, **kwargs)
        # update the metadata of the wrapper itself
        with torch.utils._mode_utils.no_dispatch():
            meta_in_tls = torch._C._meta_in_tls_dispatch_include()
            torch._C._set_meta_in_tls_dispatch_include(True)
            try:
                func(*args, **kwargs)
            finally:
                torch._C._set_meta_in_tls_dispatch_include(meta_in_tls)
        args[0]._a = r._a
        if tuple(args[0].shape) != tuple(r._a.shape):
            raise Unsupported(f"in-place change of the shape ({packet})")
        return args[0]
    if packet in ("squeeze_", "unsqueeze_", "transpose_", "t_", "swapaxes_", "swapdims_", "resize_", "set_"):
        raise Unsupported(f"in-place change of the shape ({packet})")
    # in-place variant of a functional handler
    if packet.endswith("_") and not packet.endswith("__"):
        h = H.get(packet[:-1])
        if h is not None:
            ns = bind(func, args, kwargs)
            r = h(ns)
            if r is not NotImplemented:
                return write(ns["self"], round_result(r) if ROUND[0] else r)
    return fallback(func, args, kwargs)


def write(dst, src):
    if not isinstance(dst, SymTensor):
        if not has_sym(src._a):
            with _disable_current_modes():
                dst.copy_(to_real(src))
            return dst
        raise Unsupported("symbolic in-place write to a concrete tensor")
    k = kind(dst.dtype)
    s = src._a
    if kind(src.dtype) != k:
        s = CONV[k](s)
    s = np.broadcast_to(s, dst._a.shape)
    if dst._a.shape == ():
        dst._a[()] = s[()]
    else:
        dst._a[...] = s.copy()
    if k == "c" and _REALS:
        _through(dst._a)
    return dst


_REALS = {}  # id of a complex array -> (weak reference to it, the real array that it views)


def _through(a):
    """writes the contents of a complex view back to the real array"""
    c = root(a)
    ref, real = _REALS.get(id(c), (None, None))
    if ref is not None and ref() is c:
        real[..., 0] = ufn(lambda z: z.re, 1)(c)
        real[..., 1] = ufn(lambda z: z.im, 1)(c)


def _concretes(x):
    if isinstance(x, SymTensor):
        return not has_sym(x._a)
    return True


def func_functional(name, func):
    """the overload of the functional variant of an in-place operator"""
    return getattr(getattr(torch.ops.aten, name), func._overloadname)


def fallback(func, args, kwargs):
    name = str(func)
    ts = list(tree_tensors((args, kwargs)))
    if all(_concretes(t) for t in ts):
        return run_concrete(func, args, kwargs)
    from torch._decomp import decomposition_table

    d = decomposition_table.get(func)
    if d is not None:
        OPSTAT[name] = "decomp"
        return d(*args, **kwargs)
    if func._can_decompose():
        OPSTAT[name] = "composite"
        r = func.decompose(*args, **kwargs)
        if r is not NotImplemented:
            return r
    raise Unsupported(f"operator {name} on symbolic data")


def run_concrete(func, args, kwargs):
    OPSTAT[str(func)] = "concrete"
    mapping = {}

    def conv_in(x):
        if isinstance(x, SymTensor):
            r = to_real(x)
            mapping[id(x)] = (x, r)
            return r
        if isinstance(x, (list, tuple)):
            return type(x)(conv_in(q) for q in x)
        return x

    a2 = tuple(conv_in(a) for a in args)
    k2 = {k: conv_in(v) for k, v in kwargs.items()}
    with _disable_current_modes():
        r = func(*a2, **k2)
    # write back mutated arguments
    rets = {}
    for i, sa in enumerate(func._schema.arguments):
        if sa.alias_info is not None and sa.alias_info.is_write:
            v = args[i] if i < len(args) and not sa.kwarg_only else kwargs.get(sa.name)
            if isinstance(v, SymTensor):
                real = mapping[id(v)][1]
                write(v, wrap(from_real(real), v.dtype))
                rets[id(real)] = v

    def conv_out(x):
        if isinstance(x, torch.Tensor):
            if id(x) in rets:
                return rets[id(x)]
            for _, (s, real) in mapping.items():
                if x is real:
                    return s
            return wrap(from_real(x), x.dtype, x.device if x.device.type == "meta" else None)
        if isinstance(x, (list, tuple)):
            return type(x)(conv_out(q) for q in x)
        return x

    return conv_out(r)


CONV = {k: ufn(lambda x, k=k: conv(x, k), 1) for k in "bifc"}


ROUND = [False]  # whether values of 16-bit types are rounded (an uninterpreted function)
_HALF = (torch.bfloat16, torch.float16)


def _rounded(e):
    k = e.decl().kind()
    if k == z3.Z3_OP_ITE:
        return _rounded(e.arg(1)) and _rounded(e.arg(2))
    if k == z3.Z3_OP_UMINUS:
        return _rounded(e.arg(0))
    return k == z3.Z3_OP_UNINTERPRETED and (e.num_args() == 0 or e.decl().name().startswith("round_"))


def _round(x, dt):
    if not isinstance(x, Sym):
        if type(x) is Fraction:
            with _disable_current_modes():
                return Fraction(torch.tensor(float(x), dtype=dt).item())
        return x
    if type(x) is not SymReal or _rounded(x.e):
        return x
    return mk_real(core.uf("round_" + str(dt).split(".")[1])(x.e))


def round_result(r):
    for t in r if isinstance(r, (tuple, list)) else (r,):
        if isinstance(t, SymTensor) and t.dtype in _HALF:
            a = t._a
            for ix in np.ndindex(*a.shape):
                v = _round(a[ix], t.dtype)
                if v is not a[ix]:
                    a[ix] = v
    return r


def cast(arr, src, dst):
    ks, kd = kind(src), kind(dst)
    if ks == kd:
        if ROUND[0] and dst in _HALF and src != dst:
            return ufn(lambda x: _round(x, dst), 1)(arr)
        if kd == "i" and src != dst and not _fits(src, dst):
            return ufn(lambda x: wrap_int(x, dst), 1)(arr)
        return arr
    r = CONV[kd](arr)
    return r


_BITS = {torch.uint8: (0, 255), torch.int8: (-128, 127), torch.int16: (-(2**15), 2**15 - 1), torch.int32: (-(2**31), 2**31 - 1), torch.int64: (-(2**63), 2**63 - 1)}


def _fits(src, dst):
    return _BITS[src][0] >= _BITS[dst][0] and _BITS[src][1] <= _BITS[dst][1]


def wrap_int(x, dst):
    lo, hi = _BITS[dst]
    if isinstance(x, Sym):
        if mk_bool(z3.And(x.e >= lo, x.e <= hi)):
            return x
        n = hi - lo + 1
        return mk_int((x.e - lo) % n + lo)
    return (x - lo) % (hi - lo + 1) + lo


_RT = {}


def _rt_sample(x):
    if isinstance(x, torch.Tensor):
        k = (x.dtype, x.dim() == 0)
        if k not in _RT:
            _RT[k] = torch.empty(() if k[1] else (1,), dtype=k[0])
        return _RT[k]
    if isinstance(x, SymBool):
        return True
    if isinstance(x, SymInt):
        return 1
    if isinstance(x, SymReal) or type(x) is Fraction:
        return 1.0
    return x


def rtype(*xs):
    with _disable_current_modes():
        s = [_rt_sample(x) for x in xs]
        if len(s) == 1:
            return s[0].dtype if isinstance(s[0], torch.Tensor) else torch.result_type(torch.empty(()), s[0])
        d = torch.result_type(s[0], s[1])
        for i in range(2, len(s)):
            # fold pairwise, good enough for the homogenous cases that occur
            d = torch.promote_types(d, torch.result_type(s[0], s[i]))
        return d


def todtype(x, dtype):
    if isinstance(x, torch.Tensor):
        return cast(payload(x), x.dtype, dtype)
    o = obj(())
    o[()] = norm_scalar(x, kind(dtype))
    return o


def lets(arr):
    """names the large elements, in place: views keep sharing their storage"""
    if not arr.flags.writeable:
        return arr
    for ix in np.ndindex(*arr.shape):
        x = arr[ix]
        if type(x) is SymReal:
            y = core.let(x)
            if y is not x:
                arr[ix] = y
    return arr


def W(arr, dtype):
    if core.LET is not None and arr.size:
        arr = lets(arr)
    return SymTensor(arr, dtype)


def WM(n, arr, dtype):
    """a new tensor on the requested device (or that of its source): only "meta" is told apart"""
    dev = n.get("device")
    if dev is None:
        src = n.get("self")
        dev = src.device if isinstance(src, torch.Tensor) else None
    return SymTensor(arr, dtype, torch.device("meta") if _meta(dev) else None)


def dflt():
    return torch.get_default_dtype()


# ---- factories -----------------------------------------------------------------


def zero_of(dt):
    return {"b": False, "i": 0, "f": Fraction(0), "c": SymComplex(Fraction(0), Fraction(0))}[kind(dt)]


def one_of(dt):
    return {"b": True, "i": 1, "f": Fraction(1), "c": SymComplex(Fraction(1), Fraction(0))}[kind(dt)]


def shp(s):
    return tuple(int(x) for x in s)


def _meta(dev):
    return dev is not None and torch.device(dev).type == "meta"


@op("empty", "zeros", "new_empty", "new_zeros")
def _(n):
    dt = n.get("dtype") or (n["self"].dtype if "self" in n and n["self"] is not None else dflt())
    return WM(n, fill(shp(n["size"]), zero_of(dt)), dt)


@op("ones", "new_ones")
def _(n):
    dt = n.get("dtype") or (n["self"].dtype if "self" in n and n["self"] is not None else dflt())
    return W(fill(shp(n["size"]), one_of(dt)), dt)


@op("empty_strided", "new_empty_strided")
def _(n):
    dt = n.get("dtype") or (n["self"].dtype if n.get("self") is not None else dflt())
    return W(fill(shp(n["size"]), zero_of(dt)), dt)


@op("empty_like", "zeros_like")
def _(n):
    dt = n["dtype"] or n["self"].dtype
    return WM(n, fill(tuple(n["self"].shape), zero_of(dt)), dt)


@op("ones_like")
def _(n):
    dt = n["dtype"] or n["self"].dtype
    return W(fill(tuple(n["self"].shape), one_of(dt)), dt)


@op("full", "new_full")
def _(n):
    v = n["fill_value"]
    dt = n["dtype"]
    if dt is None:
        dt = n["self"].dtype if n.get("self") is not None else (torch.bool if isinstance(v, bool) else torch.int64 if isinstance(v, int) else dflt())
    return W(fill(shp(n["size"]), norm_scalar(v, kind(dt))), dt)


@op("full_like")
def _(n):
    dt = n["dtype"] or n["self"].dtype
    return W(fill(tuple(n["self"].shape), norm_scalar(n["fill_value"], kind(dt))), dt)


@op("scalar_tensor")
def _(n):
    v = n["s"]
    dt = n["dtype"] or dflt()
    return W(fill((), norm_scalar(v, kind(dt))), dt)


@op("lift_fresh", "lift", "lift_fresh_copy")
def _(n):
    t = n["self"]
    return t if isinstance(t, SymTensor) else W(from_real(t), t.dtype)


@op("arange")
def _(n):
    if _meta(n.get("device")):
        return NotImplemented
    start, end, step = n.get("start", 0), n["end"], n.get("step", 1)
    start = 0 if start is None else start
    step = 1 if step is None else step
    dt = n["dtype"] or (dflt() if any(isinstance(x, float) for x in (start, end, step)) else torch.int64)
    start, end, step = (norm_scalar(x) for x in (start, end, step))
    cnt = max(0, math.ceil(Fraction(end - start) / step))
    a = obj((cnt,))
    for i in range(cnt):
        a[i] = norm_scalar(start + i * step, kind(dt))
    return W(a, dt)


@op("eye")
def _(n):
    m = n.get("m")
    m = n["n"] if m is None else m
    dt = n["dtype"] or dflt()
    a = fill((n["n"], m), zero_of(dt))
    for i in range(min(n["n"], m)):
        a[i, i] = one_of(dt)
    return W(a, dt)


# random fills of parameters: arbitrary but fixed concrete values
_RNG = [0]


def _rand_concrete(n, f):
    t = n["self"]
    a = t._a.reshape(-1) if isinstance(t, SymTensor) else None
    if a is None:
        return NotImplemented
    vals = obj(t._a.shape)
    fl = vals.reshape(-1)
    for i in range(fl.size):
        _RNG[0] = (_RNG[0] * 1103515245 + 12345) % (1 << 31)
        fl[i] = f(Fraction(_RNG[0] % 1000, 1024))
    return write(t, W(vals, t.dtype))


@op("normal_", "uniform_", "trunc_normal_")
def _(n):
    return _rand_concrete(n, lambda u: u - Fraction(1, 2))


# ---- views -----------------------------------------------------------------------


def V(n, arr, name="self"):
    src = n[name]
    if core.LET is not None:
        arr = lets(arr)
    return SymTensor(arr, src.dtype, src.device if isinstance(src, torch.Tensor) and src.device.type == "meta" else None)


def nview(a, size):
    size = list(shp(size))
    if -1 in size:
        i = size.index(-1)
        rest = 1
        for j, s in enumerate(size):
            if j != i:
                rest *= s
        if rest == 0 or a.size % rest:
            raise RuntimeError(f"shape '{size}' is invalid for input of size {a.size}")
        size[i] = a.size // rest
    if math.prod(size) != a.size:
        raise RuntimeError(f"shape '{size}' is invalid for input of size {a.size}")
    if a.size == 0:
        return obj(tuple(size))
    try:
        return a.reshape(tuple(size), copy=False)
    except ValueError:
        raise RuntimeError("view size is not compatible with input tensor's size and stride") from None


@op("view", "_unsafe_view", "_reshape_alias")
def _(n):
    if "size" not in n:
        if n["dtype"] == n["self"].dtype:
            return V(n, n["self"]._a)
        raise Unsupported("view as dtype")
    return V(n, nview(payload(n["self"]), n["size"]))


@op("reshape")
def _(n):
    a = payload(n["self"])
    try:
        return V(n, nview(a, n["shape"]))
    except RuntimeError as ex:
        if "invalid" in str(ex):
            raise
        return V(n, nview(a.copy(order="C"), n["shape"]))


@op("expand")
def _(n):
    a = payload(n["self"])
    size = list(shp(n["size"]))
    off = len(size) - a.ndim
    if off < 0:
        raise RuntimeError("expand: the number of sizes provided must be greater or equal to the number of dimensions")
    for i in range(len(size)):
        if size[i] == -1:
            size[i] = a.shape[i - off]
        elif i >= off and a.shape[i - off] not in (1, size[i]):
            raise RuntimeError(f"The expanded size of the tensor ({size[i]}) must match the existing size ({a.shape[i - off]})")
    r = np.broadcast_to(a, tuple(size))
    if r.size and a.size == r.size:
        r = np.lib.stride_tricks.as_strided(a, r.shape, r.strides, writeable=True)  # still the same storage, one element each
    return V(n, r)


@op("permute")
def _(n):
    return V(n, payload(n["self"]).transpose([d % len(n["dims"]) for d in n["dims"]]))


@op("t")
def _(n):
    a = payload(n["self"])
    return V(n, a.T if a.ndim == 2 else a)


@op("transpose", "transpose_int")
def _(n):
    a = payload(n["self"])
    return V(n, a.swapaxes(n["dim0"], n["dim1"]) if a.ndim else a)


@op("unsqueeze")
def _(n):
    return V(n, np.expand_dims(payload(n["self"]), n["dim"]))


@op("squeeze")
def _(n):
    a = payload(n["self"])
    d = n.get("dim")
    if d is None:
        dims = range(a.ndim)
    else:
        dims = [d] if isinstance(d, int) else d
    dims = tuple({x % max(a.ndim, 1) for x in dims if a.ndim and a.shape[x % a.ndim] == 1})
    return V(n, a.squeeze(dims) if dims else a.view())


def ndim_fix(d, nd):
    if not -max(nd, 1) <= d < max(nd, 1):
        raise IndexError(f"Dimension out of range (expected to be in range of [{-nd}, {nd - 1}], but got {d})")
    return d % max(nd, 1)


@op("select")
def _(n):
    a = payload(n["self"])
    d = ndim_fix(n["dim"], a.ndim)
    i = int(n["index"])
    if not -a.shape[d] <= i < a.shape[d]:
        raise IndexError(f"index {i} is out of bounds for dimension {d} with size {a.shape[d]}")
    ix = [slice(None)] * a.ndim
    ix[d] = slice(i, i + 1) if i != -1 else slice(i, None)
    r = a[tuple(ix)]
    return V(n, r.reshape(r.shape[:d] + r.shape[d + 1 :], copy=False))


@op("slice")
def _(n):
    a = payload(n["self"])
    d = ndim_fix(n["dim"], a.ndim)
    st, en = n["start"], n["end"]
    if st is not None:
        st = int(st)
    if en is not None:
        en = int(en)
        if en > 2**60:
            en = None
    ix = [slice(None)] * a.ndim
    size = a.shape[d]
    st = 0 if st is None else (max(0, st + size) if st < 0 else min(st, size))
    en = size if en is None else (max(0, en + size) if en < 0 else min(en, size))
    ix[d] = slice(st, max(st, en), n["step"])
    return V(n, a[tuple(ix)])


@op("narrow")
def _(n):
    a = payload(n["self"])
    d = ndim_fix(n["dim"], a.ndim)
    s, l = int(n["start"]), int(n["length"])
    if s < 0:
        s += a.shape[d]
    if l < 0 or s < 0 or s + l > a.shape[d]:
        raise RuntimeError(f"start ({s}) + length ({l}) exceeds dimension size ({a.shape[d]}).")
    ix = [slice(None)] * a.ndim
    ix[d] = slice(s, s + l)
    return V(n, a[tuple(ix)])


@op("split", "split_with_sizes")
def _(n):
    a = payload(n["self"])
    d = ndim_fix(n["dim"], a.ndim)
    s = n.get("split_sizes", n.get("split_size"))
    if isinstance(s, int):
        tot = a.shape[d]
        if s <= 0 and tot:
            raise RuntimeError("split_size must be positive")
        sizes = [s] * (tot // s) + ([tot % s] if tot % s else []) if tot else [0]
    else:
        sizes = [int(x) for x in s]
        if sum(sizes) != a.shape[d]:
            raise RuntimeError(
                f"split_with_sizes expects split_sizes to sum exactly to {a.shape[d]} (input tensor's size at dimension {d}), but got split_sizes={sizes}"
            )
    out, p = [], 0
    for q in sizes:
        ix = [slice(None)] * a.ndim
        ix[d] = slice(p, p + q)
        out.append(V(n, a[tuple(ix)]))
        p += q
    return out


@op("unbind")
def _(n):
    a = payload(n["self"])
    d = ndim_fix(n["dim"], a.ndim)
    out = []
    for i in range(a.shape[d]):
        ix = [slice(None)] * a.ndim
        ix[d] = slice(i, i + 1)
        r = a[tuple(ix)]
        out.append(V(n, r.reshape(r.shape[:d] + r.shape[d + 1 :], copy=False)))
    return out


@op("alias", "detach", "view_as", "_conj", "resolve_conj", "resolve_neg")
def _(n):
    return V(n, payload(n["self"]).view())


@op("diagonal")
def _(n):
    a = payload(n["self"])
    return V(n, np.diagonal(a, n["offset"], n["dim1"], n["dim2"]))


@op("unfold")
def _(n):
    a = payload(n["self"])
    d = ndim_fix(n["dimension"], a.ndim)
    r = np.lib.stride_tricks.sliding_window_view(a, n["size"], axis=d)
    ix = [slice(None)] * r.ndim
    ix[d] = slice(None, None, n["step"])
    return V(n, r[tuple(ix)])


@op("as_strided")
def _(n):
    a = payload(n["self"])
    off = n["storage_offset"] or 0
    base = root(a).reshape(-1)
    if n["storage_offset"] is None and a.size:
        off = (a.__array_interface__["data"][0] - base.__array_interface__["data"][0]) // 8
    return V(n, np.lib.stride_tricks.as_strided(base[off:], shp(n["size"]), [8 * s for s in n["stride"]]))


@op("view_as_complex")
def _(n):
    a = payload(n["self"])
    dt = torch.complex64 if n["self"].dtype != torch.float64 else torch.complex128
    r = W(ufn(SymComplex, 2)(a[..., 0], a[..., 1]), dt)
    c = root(r._a)
    _REALS[id(c)] = (weakref.ref(c, lambda _, k=id(c): _REALS.pop(k, None)), a)
    if c.shape != a.shape[:-1]:
        raise Unsupported("view_as_complex of a view")
    return r


@op("view_as_real")
def _(n):
    a = payload(n["self"])
    r = obj(a.shape + (2,))
    r[..., 0] = ufn(lambda z: z.re, 1)(a)
    r[..., 1] = ufn(lambda z: z.im, 1)(a)
    return W(r, torch.float32 if n["self"].dtype == torch.complex64 else torch.float64)


@op("polar")
def _(n):
    m, g = payload(n["abs"]), payload(n["angle"])
    c, s = p_fn("cos"), p_fn("sin")
    return W(ufn(lambda r, t: SymComplex(mul(r, c(t)), mul(r, s(t))), 2)(m, g), torch.complex64 if n["abs"].dtype == torch.float32 else torch.complex128)


# ---- copies ------------------------------------------------------------------------


@op("clone", "contiguous")
def _(n):
    a = payload(n["self"])
    return V(n, a.copy(order="C"))


@op("_to_copy")
def _(n):
    t = n["self"]
    dt = n["dtype"] or t.dtype
    return WM(n, cast(payload(t), t.dtype, dt).copy(order="C"), dt)


@op("copy_")
def _(n):
    return write(n["self"], n["src"] if isinstance(n["src"], SymTensor) else W(from_real(n["src"]), n["src"].dtype))


@op("fill_")
def _(n):
    v = n["value"]
    s = v if isinstance(v, SymTensor) else W(payload(v), n["self"].dtype) if not isinstance(v, torch.Tensor) else W(from_real(v), v.dtype)
    if not isinstance(v, torch.Tensor):
        s = W(fill((), norm_scalar(v, kind(n["self"].dtype))), n["self"].dtype)
    return write(n["self"], s)


@op("zero_")
def _(n):
    return write(n["self"], W(fill((), zero_of(n["self"].dtype)), n["self"].dtype))


# ---- pointwise ------------------------------------------------------------------------


def unary(names, f, float_out=False):
    g = ufn(f, 1)

    @op(*names.split())
    def _(n):
        t = n["self"]
        dt = t.dtype
        if float_out and kind(dt) in "bi":
            dt = dflt()
        return W(g(cast(payload(t), t.dtype, dt)), dt)


unary("neg", lambda x: -x)
unary("abs", lambda x: abs(x))
unary("exp", p_fn("exp"), True)
unary("log", p_fn("log"), True)
unary("sin", p_fn("sin"), True)
unary("cos", p_fn("cos"), True)
unary("tanh", p_fn("tanh"), True)
unary("sigmoid", p_fn("sigmoid"), True)
unary("erf", p_fn("erf"), True)
unary("sqrt", p_sqrt, True)
def p_rsqrt(x):
    if isinstance(x, Sym):
        return core.ursqrt(x)
    return p_div(Fraction(1), p_sqrt(x))


unary("rsqrt", p_rsqrt, True)
unary("reciprocal", lambda x: p_div(Fraction(1), x), True)
unary("relu", lambda x: p_max(x, Fraction(0)) if type(x) in (Fraction, SymReal, float) else p_max(x, 0))
unary("floor", p_floor)
unary("ceil", p_ceil)
unary("trunc", p_trunc)
unary("round", p_round)
unary("positive", lambda x: x)
unary("log2", lambda x: p_div(p_fn("log")(x), Fraction(math.log(2))), True)
unary("exp2", lambda x: p_pow(Fraction(2), x), True)
unary("log1p", lambda x: p_fn("log")(x + Fraction(1)), True)
unary("silu", lambda x: mul(x, p_fn("sigmoid")(x)))
unary("sign", lambda x: ite(x > 0, Fraction(1), ite(x < 0, Fraction(-1), Fraction(0))) if type(x) in (Fraction, SymReal, float) else ite(x > 0, 1, ite(x < 0, -1, 0)))


@op("gelu")
def _(n):
    t = n["self"]
    if n["approximate"] == "tanh":
        f = lambda x: mul(mul(Fraction(1, 2), x), Fraction(1) + p_fn("tanh")(mul(Fraction(math.sqrt(2 / math.pi)), x + mul(Fraction(0.044715), x * x * x))))
    else:
        f = lambda x: mul(mul(Fraction(1, 2), x), Fraction(1) + p_fn("erf")(mul(x, Fraction(1 / math.sqrt(2)))))
    return W(ufn(f, 1)(payload(t)), t.dtype)


def logical(names, f):
    g = ufn(f, 1)

    @op(*names.split())
    def _(n):
        return W(g(payload(n["self"])), torch.bool)


logical("isnan", lambda x: type(x) is float and x != x)
logical("isinf", lambda x: type(x) is float and x == x)
logical("isfinite", lambda x: type(x) is not float)
logical("isneginf", lambda x: type(x) is float and x == -INF)
logical("isposinf", lambda x: type(x) is float and x == INF)
logical("logical_not", lambda x: not_(conv(x, "b")))


@op("bitwise_not")
def _(n):
    t = n["self"]
    if t.dtype == torch.bool:
        return W(ufn(not_, 1)(payload(t)), torch.bool)
    return W(ufn(lambda x: -x - 1, 1)(payload(t)), t.dtype)


@op("nan_to_num")
def _(n):
    t = n["self"]
    nan = norm_scalar(n["nan"] or 0.0)
    fi = torch.finfo(t.dtype) if kind(t.dtype) == "f" else None
    pi = norm_scalar(n["posinf"] if n["posinf"] is not None else fi.max)
    ni = norm_scalar(n["neginf"] if n["neginf"] is not None else fi.min)
    return W(ufn(lambda x: x if type(x) is not float else (nan if x != x else pi if x > 0 else ni), 1)(payload(t)), t.dtype)


def operands(n, names=("self", "other")):
    xs = [n[k] for k in names]
    dt = rtype(*xs)
    return [todtype(x, dt) for x in xs], dt


@op("add")
def _(n):
    (a, b), dt = operands(n)
    al = n.get("alpha", 1)
    if al is not None and not (type(al) is int and al == 1):
        alv = norm_scalar(al, kind(dt))
        b = ufn(lambda x: mul(alv, x), 1)(b)
    f = (lambda x, y: or_(x, y)) if dt == torch.bool else p_add
    return W(ufn(f, 2)(a, b), dt)


def p_add(x, y):
    if type(x) is Fraction and x == 0 and type(y) in (SymReal,):
        return y
    return x + y


@op("sub")
def _(n):
    (a, b), dt = operands(n)
    al = n.get("alpha", 1)
    if al is not None and not (type(al) is int and al == 1):
        alv = norm_scalar(al, kind(dt))
        b = ufn(lambda x: mul(alv, x), 1)(b)
    return W(ufn(lambda x, y: x - y, 2)(a, b), dt)


@op("rsub")
def _(n):
    (a, b), dt = operands(n)
    return W(ufn(lambda x, y: y - x, 2)(a, b), dt)


@op("mul")
def _(n):
    (a, b), dt = operands(n)
    f = (lambda x, y: and_(x, y)) if dt == torch.bool else mul
    return W(ufn(f, 2)(a, b), dt)


@op("div")
def _(n):
    (a, b), dt = operands(n)
    m = n.get("rounding_mode")
    if m is None:
        if kind(dt) in "bi":
            dt = dflt()
            a, b = CONV["f"](a), CONV["f"](b)
        return W(ufn(p_div, 2)(a, b), dt)
    if m == "floor":
        return W(ufn(p_floordiv, 2)(a, b), dt)
    if kind(dt) == "i":
        return W(ufn(p_truncdiv, 2)(a, b), dt)
    return W(ufn(lambda x, y: p_trunc(p_div(x, y)), 2)(a, b), dt)


@op("floor_divide")
def _(n):
    (a, b), dt = operands(n)
    return W(ufn(p_floordiv, 2)(a, b), dt)


@op("remainder")
def _(n):
    (a, b), dt = operands(n)
    return W(ufn(p_rem, 2)(a, b), dt)


@op("pow")
def _(n):
    x, e = n["self"], n["exponent"]
    dt = rtype(x, e)
    if isinstance(e, torch.Tensor):
        a, b = todtype(x, dt), todtype(e, dt)
    else:
        a = todtype(x, dt)
        b = obj(())
        b[()] = norm_scalar(e)
    return W(ufn(lambda p, q: conv(p_pow(p, q), kind(dt)), 2)(a, b), dt)


@op("maximum")
def _(n):
    (a, b), dt = operands(n)
    return W(ufn(p_max, 2)(a, b), dt)


@op("minimum")
def _(n):
    (a, b), dt = operands(n)
    return W(ufn(p_min, 2)(a, b), dt)


@op("clamp")
def _(n):
    t = n["self"]
    dt = t.dtype
    xs = [x for x in (n["min"], n["max"]) if x is not None]
    dt = rtype(t, *xs)
    a = todtype(t, dt)
    if n["min"] is not None:
        a = ufn(p_max, 2)(a, todtype(n["min"], dt))
    if n["max"] is not None:
        a = ufn(p_min, 2)(a, todtype(n["max"], dt))
    return W(a, dt)


@op("clamp_min")
def _(n):
    dt = rtype(n["self"], n["min"])
    return W(ufn(p_max, 2)(todtype(n["self"], dt), todtype(n["min"], dt)), dt)


@op("clamp_max")
def _(n):
    dt = rtype(n["self"], n["max"])
    return W(ufn(p_min, 2)(todtype(n["self"], dt), todtype(n["max"], dt)), dt)


def cmpop(name, f):
    @op(name)
    def _(n):
        (a, b), dt = operands(n)
        if dt == torch.bool and name not in ("eq", "ne"):
            a, b = CONV["i"](a), CONV["i"](b)
        return W(ufn(f, 2)(a, b), torch.bool)


cmpop("eq", lambda x, y: x == y)
cmpop("ne", lambda x, y: x != y)
cmpop("lt", lambda x, y: x < y)
cmpop("le", lambda x, y: x <= y)
cmpop("gt", lambda x, y: x > y)
cmpop("ge", lambda x, y: x >= y)


def logic2(names, f, fi):
    @op(*names.split())
    def _(n):
        nm = n["_func"]._overloadpacket.__name__
        (a, b), dt = operands(n)
        if dt == torch.bool or nm.startswith("logical"):
            return W(ufn(lambda x, y: f(conv(x, "b"), conv(y, "b")), 2)(a, b), torch.bool)
        return W(ufn(fi, 2)(a, b), dt)


logic2("logical_and bitwise_and __and__ __iand__", and_, lambda x, y: int(x) & int(y))
logic2("logical_or bitwise_or __or__ __ior__", or_, lambda x, y: int(x) | int(y))
logic2("logical_xor bitwise_xor __xor__", lambda x, y: not_(core.iff(x, y)), lambda x, y: int(x) ^ int(y))


@op("bitwise_and_", "bitwise_or_")
def _(n):
    nm = n["_func"]._overloadpacket.__name__[:-1]
    return write(n["self"], H[nm](n))


@op("where")
def _(n):
    if "self" not in n or n.get("other") is None and "other" not in n:
        return NotImplemented
    c = payload(n["condition"])
    dt = rtype(n["self"], n["other"])
    a, b = todtype(n["self"], dt), todtype(n["other"], dt)
    return W(ufn(ite, 3)(c, a, b), dt)


@op("masked_fill")
def _(n):
    t = n["self"]
    v = todtype(n["value"], t.dtype)
    m = payload(n["mask"])
    return W(ufn(lambda x, c, y: ite(c, y, x), 3)(payload(t), m, v), t.dtype)


@op("lerp")
def _(n):
    t = n["self"]
    w = n["weight"]
    a, b = payload(t), todtype(n["end"], t.dtype)
    w = todtype(w, t.dtype)
    return W(ufn(lambda x, y, q: x + mul(q, y - x), 3)(a, b, w), t.dtype)


@op("addcmul")
def _(n):
    t = n["self"]
    v = norm_scalar(n["value"], kind(t.dtype))
    return W(ufn(lambda x, p, q: x + mul(v, mul(p, q)), 3)(payload(t), payload(n["tensor1"]), payload(n["tensor2"])), t.dtype)


@op("addcdiv")
def _(n):
    t = n["self"]
    v = norm_scalar(n["value"], kind(t.dtype))
    return W(ufn(lambda x, p, q: x + mul(v, p_div(p, q)), 3)(payload(t), payload(n["tensor1"]), payload(n["tensor2"])), t.dtype)


# ---- reductions --------------------------------------------------------------------------


def red_dims(d, nd):
    if d is None or (isinstance(d, (list, tuple)) and not len(d)):
        return tuple(range(nd))
    if isinstance(d, int):
        d = [d]
    return tuple(sorted({ndim_fix(x, nd) for x in d}))


def reduce(a, dims, keepdim, f, out_kind=None):
    """f: list of elements -> element"""
    if a.ndim == 0:
        o = obj(())
        o[()] = f([a[()]])
        return o
    keep = [i for i in range(a.ndim) if i not in dims]
    b = a.transpose(keep + list(dims)).copy()
    ks = [a.shape[i] for i in keep]
    b = b.reshape(tuple(ks) + (math.prod([a.shape[i] for i in dims]),))
    o = obj(tuple(ks))
    for ix in np.ndindex(*ks):
        o[ix] = f(list(b[ix]))
    if keepdim:
        o = o.reshape([1 if i in dims else a.shape[i] for i in range(a.ndim)])
    return o


@op("sum")
def _(n):
    t = n["self"]
    dt = n["dtype"] or (torch.int64 if kind(t.dtype) in "bi" else t.dtype)
    a = cast(payload(t), t.dtype, dt)
    z = zero_of(dt)
    return W(reduce(a, red_dims(n.get("dim"), a.ndim), n.get("keepdim", False), lambda xs: sum_terms(xs) if xs else z), dt)


@op("mean")
def _(n):
    t = n["self"]
    dt = n["dtype"] or t.dtype
    if kind(dt) != "f":
        raise RuntimeError("mean(): could not infer output dtype. Input dtype must be either a floating point or complex dtype.")
    a = cast(payload(t), t.dtype, dt)
    return W(reduce(a, red_dims(n.get("dim"), a.ndim), n.get("keepdim", False), lambda xs: p_div(sum_terms(xs), Fraction(len(xs))) if xs else NAN), dt)


def fold(f):
    def g(xs):
        if not xs:
            raise IndexError("reduction over an empty dimension")
        r = xs[0]
        for x in xs[1:]:
            r = f(r, x)
        return r

    return g


@op("amax")
def _(n):
    a = payload(n["self"])
    return V(n, reduce(a, red_dims(n["dim"], a.ndim), n["keepdim"], fold(p_max)))


@op("amin")
def _(n):
    a = payload(n["self"])
    return V(n, reduce(a, red_dims(n["dim"], a.ndim), n["keepdim"], fold(p_min)))


def argbest(xs, gt):
    bi = 0
    for i in range(1, len(xs)):
        if gt(xs[i], xs[bi]):
            bi = i
    return bi


def _maxmin(n, f, gt):
    t = n["self"]
    if n["_func"]._overloadname == "other":
        (a, b), dt = operands(n)
        return W(ufn(f, 2)(a, b), dt)
    a = payload(t)
    if "dim" not in n:
        return W(reduce(a, red_dims(None, a.ndim), False, fold(f)), t.dtype)
    dims = red_dims(n["dim"], a.ndim)
    idx = reduce(a, dims, n["keepdim"], lambda xs: argbest(xs, gt))
    val = reduce(a, dims, n["keepdim"], fold(f))
    return W(val, t.dtype), W(idx, torch.int64)


def _gt(a, b):
    return bool(a > b)


def _lt(a, b):
    return bool(a < b)


@op("max")
def _(n):
    return _maxmin(n, p_max, _gt)


@op("min")
def _(n):
    return _maxmin(n, p_min, _lt)


@op("argmax")
def _(n):
    a = payload(n["self"])
    return W(reduce(a, red_dims(n["dim"], a.ndim), n["keepdim"], lambda xs: argbest(xs, _gt)), torch.int64)


@op("argmin")
def _(n):
    a = payload(n["self"])
    return W(reduce(a, red_dims(n["dim"], a.ndim), n["keepdim"], lambda xs: argbest(xs, _lt)), torch.int64)


@op("any")
def _(n):
    a = CONV["b"](payload(n["self"]))
    return W(reduce(a, red_dims(n.get("dim"), a.ndim), n.get("keepdim", False), lambda xs: or_(*xs)), torch.bool)


@op("all")
def _(n):
    a = CONV["b"](payload(n["self"]))
    return W(reduce(a, red_dims(n.get("dim"), a.ndim), n.get("keepdim", False), lambda xs: and_(*xs)), torch.bool)


@op("prod")
def _(n):
    t = n["self"]
    dt = n["dtype"] or (torch.int64 if kind(t.dtype) in "bi" else t.dtype)
    a = cast(payload(t), t.dtype, dt)
    o = one_of(dt)
    return W(reduce(a, red_dims(n.get("dim"), a.ndim), n.get("keepdim", False), lambda xs: fold(mul)([o] + xs)), dt)


@op("count_nonzero")
def _(n):
    a = CONV["i"](CONV["b"](payload(n["self"])))
    return W(reduce(a, red_dims(n.get("dim"), a.ndim), False, sum_terms), torch.int64)


@op("linalg_vector_norm")
def _(n):
    t = n["self"]
    a = payload(t)
    o = norm_scalar(n["ord"])
    dims = red_dims(n["dim"], a.ndim)
    dt = n["dtype"] or t.dtype
    if o == 2:
        return W(reduce(a, dims, n["keepdim"], lambda xs: p_sqrt(sum_terms([mul(x, x) for x in xs]))), dt)
    if o == 1:
        return W(reduce(a, dims, n["keepdim"], lambda xs: sum_terms([abs(x) for x in xs])), dt)
    if o == INF:
        return W(reduce(a, dims, n["keepdim"], lambda xs: fold(p_max)([abs(x) for x in xs])), dt)
    raise Unsupported("vector norm")


@op("norm")
def _(n):
    m = NS(n)
    m["ord"] = n["p"] if n["p"] is not None else 2
    m.setdefault("dim", None)
    m.setdefault("keepdim", False)
    m.setdefault("dtype", None)
    return H["linalg_vector_norm"](m)


@op("cumsum")
def _(n):
    t = n["self"]
    dt = n["dtype"] or (torch.int64 if kind(t.dtype) in "bi" else t.dtype)
    a = cast(payload(t), t.dtype, dt)
    if a.ndim == 0:
        return W(a.copy(), dt)
    d = ndim_fix(n["dim"], a.ndim)
    b = a.swapaxes(d, -1)
    r = obj(b.shape)
    for ix in np.ndindex(*b.shape[:-1]):
        acc = zero_of(dt)
        for j in range(b.shape[-1]):
            acc = sum_terms([acc, b[ix][j]])
            r[ix + (j,)] = acc
    return W(r.swapaxes(d, -1), dt)


@op("cumprod")
def _(n):
    t = n["self"]
    dt = n["dtype"] or (torch.int64 if kind(t.dtype) in "bi" else t.dtype)
    a = cast(payload(t), t.dtype, dt)
    d = ndim_fix(n["dim"], a.ndim)
    b = a.swapaxes(d, -1)
    r = obj(b.shape)
    for ix in np.ndindex(*b.shape[:-1]):
        acc = one_of(dt)
        for j in range(b.shape[-1]):
            acc = mul(acc, b[ix][j])
            r[ix + (j,)] = acc
    return W(r.swapaxes(d, -1), dt)


@op("var")
def _(n):
    t = n["self"]
    a = payload(t)
    corr = n.get("correction", None)
    corr = 1 if corr is None else corr
    if n.get("unbiased") is False:
        corr = 0

    def f(xs):
        m = p_div(sum_terms(xs), Fraction(len(xs)))
        return p_div(sum_terms([mul(x - m, x - m) for x in xs]), Fraction(len(xs)) - norm_scalar(corr))

    return W(reduce(a, red_dims(n.get("dim"), a.ndim), n.get("keepdim", False), f), t.dtype)


# ---- matmul ------------------------------------------------------------------------------------


def np_mm(a, b):
    n_, k = a.shape
    m = b.shape[1]
    if b.shape[0] != k:
        raise RuntimeError(f"mat1 and mat2 shapes cannot be multiplied ({n_}x{k} and {b.shape[0]}x{m})")
    o = obj((n_, m))
    cols = [list(b[:, j]) for j in range(m)]
    z = Fraction(0)
    for i in range(n_):
        row = list(a[i])
        for j in range(m):
            o[i, j] = dot_terms(row, cols[j]) if k else z
    return lets(o) if core.LET is not None else o


@op("mm")
def _(n):
    return V(n, np_mm(payload(n["self"]), payload(n["mat2"])))


@op("mv")
def _(n):
    return V(n, np_mm(payload(n["self"]), payload(n["vec"])[:, None])[:, 0])


@op("dot", "vdot")
def _(n):
    return V(n, np_mm(payload(n["self"])[None], payload(n.get("tensor", n.get("other")))[:, None])[0, 0:1].reshape(()))


@op("bmm")
def _(n):
    a, b = payload(n["self"]), payload(n["mat2"])
    if a.shape[0] != b.shape[0]:
        raise RuntimeError("bmm: batch sizes differ")
    o = obj((a.shape[0], a.shape[1], b.shape[2]))
    for i in range(a.shape[0]):
        o[i] = np_mm(a[i], b[i])
    return V(n, o)


def _scale(v, a):
    v = norm_scalar(v)
    if v == 1:
        return a
    return ufn(lambda x: mul(v, x), 1)(a)


@op("addmm")
def _(n):
    r = _scale(n["alpha"], np_mm(payload(n["mat1"]), payload(n["mat2"])))
    return W(ufn(p_add, 2)(r, _scale(n["beta"], payload(n["self"]))), n["self"].dtype)


@op("addmv")
def _(n):
    r = _scale(n["alpha"], np_mm(payload(n["self"]) * 0 + 0, payload(n["vec"])[:, None])) if False else _scale(n["alpha"], np_mm(payload(n["mat"]), payload(n["vec"])[:, None])[:, 0])
    return W(ufn(p_add, 2)(r, _scale(n["beta"], payload(n["self"]))), n["self"].dtype)


@op("baddbmm")
def _(n):
    a, b = payload(n["batch1"]), payload(n["batch2"])
    o = obj((a.shape[0], a.shape[1], b.shape[2]))
    for i in range(a.shape[0]):
        o[i] = np_mm(a[i], b[i])
    return W(ufn(p_add, 2)(_scale(n["alpha"], o), _scale(n["beta"], payload(n["self"]))), n["self"].dtype)


@op("linear")
def _(n):
    x, w = n["input"], n["weight"]
    a = payload(x)
    r = np_mm(a.reshape(-1, a.shape[-1]), payload(w).T)
    r = r.reshape(a.shape[:-1] + (w.shape[0],))
    if n["bias"] is not None:
        r = ufn(p_add, 2)(r, payload(n["bias"]))
    return W(r, x.dtype)


# ---- nn -------------------------------------------------------------------------------------------


def along(a, d, f):
    if a.ndim == 0:
        o = obj(())
        o[()] = f([a[()]])[0]
        return o
    b = a.swapaxes(d, -1)
    r = obj(b.shape)
    for ix in np.ndindex(*b.shape[:-1]):
        v = f(list(b[ix]))
        for j, x in enumerate(v):
            r[ix + (j,)] = x
    return r.swapaxes(d, -1)


def softmax_list(xs):
    # mathematically exp(x_i) / sum_j exp(x_j); no max shift over the exact reals
    if not xs:
        return []
    if all(type(x) is float and x == -INF for x in xs):
        return [NAN] * len(xs)
    if any(type(x) is float and x != x for x in xs):
        return [NAN] * len(xs)
    if not any(isinstance(x, Sym) for x in xs):
        m = max(xs)
        es = [Fraction(math.exp(float(x - m))) if x != -INF else Fraction(0) for x in xs]
    elif sum(1 for x in xs if not (type(x) is float and x == -INF)) == 1:
        return [Fraction(0) if type(x) is float else Fraction(1) for x in xs]
    else:
        es = [p_fn("exp")(x) for x in xs]
    s = sum_terms(es)
    if isinstance(s, Sym):
        return [Fraction(0) if (type(x) is Fraction and x == 0) else mk_real(core._realterm(x) / s.e) for x in es]
    return [p_div(x, s) for x in es]


def logsumexp_list(xs):
    ys = [x for x in xs if not (type(x) is float and x == -INF)]
    if not ys:
        return -INF
    if len(ys) == 1:
        return ys[0]
    if not any(isinstance(x, Sym) for x in ys):
        m = max(ys)
        return m + Fraction(math.log(sum(math.exp(float(x - m)) for x in ys)))
    return p_fn("log")(sum_terms([p_fn("exp")(x) for x in ys]))


def logsoftmax_list(xs):
    l = logsumexp_list(xs)
    if type(l) is float:
        return [NAN] * len(xs)
    return [x if (type(x) is float and x == -INF) else x - l for x in xs]


@op("_softmax", "softmax")
def _(n):
    t = n["self"]
    dt = n.get("dtype") or t.dtype
    return W(along(cast(payload(t), t.dtype, dt), n["dim"], softmax_list), dt)


@op("_log_softmax", "log_softmax")
def _(n):
    t = n["self"]
    dt = n.get("dtype") or t.dtype
    return W(along(cast(payload(t), t.dtype, dt), n["dim"], logsoftmax_list), dt)


@op("logsumexp")
def _(n):
    a = payload(n["self"])
    return V(n, reduce(a, red_dims(n["dim"], a.ndim), n["keepdim"], logsumexp_list))


@op("native_group_norm")
def _(n):
    x = n["input"]
    a = payload(x)
    g, eps = n["group"], norm_scalar(n["eps"])
    b = a.reshape(a.shape[0], g, -1)
    o, mu, rs = obj(b.shape), obj(b.shape[:2]), obj(b.shape[:2])
    for ix in np.ndindex(*b.shape[:2]):
        xs = list(b[ix])
        m = p_div(sum_terms(xs), Fraction(len(xs)))
        v = p_div(sum_terms([mul(q - m, q - m) for q in xs]), Fraction(len(xs)))
        r = p_rsqrt(v + eps)
        mu[ix], rs[ix] = m, r
        for j, q in enumerate(xs):
            o[ix + (j,)] = mul(q - m, r)
    o = o.reshape(a.shape)
    shape = (1, -1) + (1,) * (a.ndim - 2)
    if n["weight"] is not None:
        o = ufn(mul, 2)(o, payload(n["weight"]).reshape(shape))
    if n["bias"] is not None:
        o = ufn(p_add, 2)(o, payload(n["bias"]).reshape(shape))
    return W(o, x.dtype), W(mu, x.dtype), W(rs, x.dtype)


@op("native_layer_norm")
def _(n):
    x = n["input"]
    a = payload(x)
    k = len(n["normalized_shape"])
    lead = a.shape[: a.ndim - k]
    b = a.reshape(lead + (-1,))
    eps = norm_scalar(n["eps"])
    o, mu, rs = obj(b.shape), obj(lead + (1,) * k), obj(lead + (1,) * k)
    for ix in np.ndindex(*lead):
        xs = list(b[ix])
        m = p_div(sum_terms(xs), Fraction(len(xs)))
        v = p_div(sum_terms([mul(q - m, q - m) for q in xs]), Fraction(len(xs)))
        r = p_rsqrt(v + eps)
        mu[ix + (0,) * k], rs[ix + (0,) * k] = m, r
        for j, q in enumerate(xs):
            o[ix + (j,)] = mul(q - m, r)
    o = o.reshape(a.shape)
    if n["weight"] is not None:
        o = ufn(mul, 2)(o, payload(n["weight"]))
    if n["bias"] is not None:
        o = ufn(p_add, 2)(o, payload(n["bias"]))
    return W(o, x.dtype), W(mu, x.dtype), W(rs, x.dtype)


@op("embedding")
def _(n):
    w, ix = payload(n["weight"]), payload(n["indices"])
    o = obj(ix.shape + w.shape[1:])
    for p in np.ndindex(*ix.shape):
        o[p] = take(w, ix[p], 0)
    return W(o, n["weight"].dtype)


def check_index(i, size, what="index"):
    """normalises an index along an axis of ``size``; out-of-range raises (forks)"""
    if isinstance(i, Sym):
        if not mk_bool(z3.And(i.e >= -size, i.e < size)):
            raise IndexError(f"{what} out of range")
        return ite(i < 0, i + size, i)
    if not -size <= i < size:
        raise IndexError(f"{what} {i} out of range for size {size}")
    return i % size


def take(a, i, axis):
    """a[..., i, ...] with a possibly symbolic i, as an array"""
    size = a.shape[axis]
    if isinstance(i, Sym):
        if not mk_bool(z3.And(i.e >= 0, i.e < size)):
            raise IndexError("index out of range in self")
        sl = [np.take(a, j, axis=axis) for j in range(size)]
        sl = [q if isinstance(q, np.ndarray) else _arr0(q) for q in sl]
        r = sl[-1]
        for j in range(size - 2, -1, -1):
            r = ufn(lambda x, y, j=j: ite(i == j, x, y), 2)(sl[j], r)
        return r
    if not 0 <= i < size:
        raise IndexError("index out of range in self")
    r = np.take(a, i, axis=axis)
    return r if isinstance(r, np.ndarray) else _arr0(r)


def _arr0(x):
    o = obj(())
    o[()] = x
    return o


@op("native_dropout")
def _(n):
    a = payload(n["input"])
    p = n["p"]
    if not n["train"] or p == 0:
        return W(a.copy(), n["input"].dtype), W(fill(a.shape, True), torch.bool)
    raise Unsupported("dropout in training mode")


@op("dropout")
def _(n):
    t = n["input"]
    if not n["train"] or n["p"] == 0:
        return t
    raise Unsupported("dropout in training mode")


@op("nll_loss_forward", "nll_loss")
def _(n):
    x, tg = payload(n["self"]), payload(n["target"])
    if n["weight"] is not None:
        raise Unsupported("nll_loss weight")
    ig = n["ignore_index"]
    one = x.ndim == 1
    if one:
        x, tg = x[None], tg.reshape(1)
    vals, cnt = [], []
    for i in range(x.shape[0]):
        t = tg[i]
        ign = (t == ig)
        if not isinstance(ign, Sym):
            if ign:
                vals.append(Fraction(0))
                cnt.append(0)
                continue
            vals.append(-(take(x[i], t, 0)[()]))
            cnt.append(1)
        else:
            if not bool(or_(ign, and_(t >= 0, t < x.shape[1]))):
                raise IndexError("Target out of bounds.")
            r = Fraction(0)
            for j in range(x.shape[1]):
                r = ite(t == j, -x[i, j], r)
            vals.append(ite(ign, Fraction(0), r))
            cnt.append(ite(ign, 0, 1))
    tw = conv(sum_terms(cnt) if cnt else 0, "f")
    red = n["reduction"]
    if red == 0:
        o = obj((len(vals),))
        for i, v in enumerate(vals):
            o[i] = v
        if one:
            o = o.reshape(())
        out = W(o, n["self"].dtype)
    else:
        s = sum_terms(vals) if vals else Fraction(0)
        out = W(_arr0(s if red == 2 else p_div(s, tw)), n["self"].dtype)
    if n["_func"]._overloadpacket.__name__ == "nll_loss":
        return out
    return out, W(_arr0(tw), n["self"].dtype)


@op("_ctc_loss")
def _(n):
    """the sum over all alignments, in the probability domain"""
    lp, tg = payload(n["log_probs"]), payload(n["targets"])
    il, tl = ([int(x) for x in (payload(v).reshape(-1) if isinstance(v, torch.Tensor) else v)] for v in (n["input_lengths"], n["target_lengths"]))
    blank, N = n["blank"], lp.shape[1]
    ex = p_fn("exp")
    out = obj((N,))
    off = 0
    for b in range(N):
        lab = [int(x) for x in (tg[b][: tl[b]] if tg.ndim == 2 else tg[off : off + tl[b]])]
        off += tl[b]
        ext = [blank]
        for c in lab:
            ext += [c, blank]
        prob = {(t, c): ex(lp[t, b, c]) for t in range(il[b]) for c in set(ext)}
        a = {0: prob[0, ext[0]]}
        if len(ext) > 1:
            a[1] = prob[0, ext[1]]
        for t in range(1, il[b]):
            na = {}
            for s in range(len(ext)):
                prev = [a[s]] if s in a else []
                if s - 1 in a:
                    prev.append(a[s - 1])
                if s - 2 in a and ext[s] != blank and ext[s] != ext[s - 2]:
                    prev.append(a[s - 2])
                if prev:
                    na[s] = mul(sum_terms(prev), prob[t, ext[s]])
            a = na
        fin = [a[s] for s in (len(ext) - 1, len(ext) - 2) if s in a]
        out[b] = -p_fn("log")(sum_terms(fin)) if fin else INF
    return W(out, n["log_probs"].dtype), W(fill((N, 1, 1), Fraction(0)), n["log_probs"].dtype)


@op("convolution", "_convolution")
def _(n):
    x, w = payload(n["input"]), payload(n["weight"])
    if n["transposed"]:
        raise Unsupported("transposed convolution")
    nd = x.ndim - 2
    if nd != 1:
        return NotImplemented
    st, pd, dl, g = n["stride"][0], n["padding"][0], n["dilation"][0], n["groups"]
    N, C, L = x.shape
    O, Cg, K = w.shape
    Lo = (L + 2 * pd - dl * (K - 1) - 1) // st + 1
    if Lo <= 0:
        raise RuntimeError("Calculated padded input size per channel is smaller than the kernel size")
    o = obj((N, O, Lo))
    b = payload(n["bias"]) if n["bias"] is not None else None
    for i in range(N):
        for c in range(O):
            gi = c // (O // g)
            for p in range(Lo):
                ts = []
                for cc in range(Cg):
                    for k in range(K):
                        q = p * st + k * dl - pd
                        if 0 <= q < L:
                            ts.append(mul(w[c, cc, k], x[i, gi * Cg + cc, q]))
                if b is not None:
                    ts.append(b[c])
                o[i, c, p] = sum_terms(ts) if ts else Fraction(0)
    return W(o, n["input"].dtype)


@op("constant_pad_nd")
def _(n):
    t = n["self"]
    a = payload(t)
    pad = [int(p) for p in n["pad"]]
    v = norm_scalar(n["value"], kind(t.dtype))
    for i in range(len(pad) // 2):
        ax = a.ndim - 1 - i
        lo, hi = pad[2 * i], pad[2 * i + 1]
        size = a.shape[ax]
        sh = list(a.shape)
        sh[ax] = size + lo + hi
        if sh[ax] < 0:
            raise RuntimeError("negative pad output size")
        r = fill(tuple(sh), v)
        for j in range(sh[ax]):
            s = j - lo
            if 0 <= s < size:
                ix = [slice(None)] * a.ndim
                jx = list(ix)
                ix[ax], jx[ax] = slice(j, j + 1), slice(s, s + 1)
                r[tuple(ix)] = a[tuple(jx)]
        a = r
    return W(a.copy(), t.dtype)


def _pad(input, pad, mode="constant", value=None):
    if mode == "constant":
        return torch.ops.aten.constant_pad_nd(input, [int(p) for p in pad], 0 if value is None else value)
    args = (input, pad, mode, value)
    with torch._C.DisableTorchFunctionSubclass():
        return torch.nn.functional.pad(*args)


TF[torch.nn.functional.pad] = _pad


# ---- structure -----------------------------------------------------------------------------------


@op("cat", "concat")
def _(n):
    ts = list(n["tensors"])
    dt = ts[0].dtype
    for t in ts[1:]:
        dt = torch.promote_types(dt, t.dtype)
    arrs = [cast(payload(t), t.dtype, dt) for t in ts]
    arrs = [a for a in arrs if not (a.ndim == 1 and a.size == 0)] or arrs[:1]
    nd = arrs[0].ndim
    d = ndim_fix(n["dim"], nd)
    for a in arrs:
        if a.ndim != nd or any(a.shape[i] != arrs[0].shape[i] for i in range(nd) if i != d):
            raise RuntimeError("Sizes of tensors must match except in dimension %d" % d)
    return W(np.concatenate(arrs, axis=d), dt)


@op("stack")
def _(n):
    ts = list(n["tensors"])
    dt = ts[0].dtype
    for t in ts[1:]:
        dt = torch.promote_types(dt, t.dtype)
        if tuple(t.shape) != tuple(ts[0].shape):
            raise RuntimeError("stack expects each tensor to be equal size")
    arrs = [cast(payload(t), t.dtype, dt) for t in ts]
    return W(np.stack(arrs, axis=n["dim"]), dt)


@op("repeat")
def _(n):
    a = payload(n["self"])
    r = shp(n["repeats"])
    a = a.reshape((1,) * (len(r) - a.ndim) + a.shape)
    return V(n, np.tile(a, r))


@op("flip")
def _(n):
    return V(n, np.flip(payload(n["self"]), tuple(n["dims"])).copy())


@op("roll")
def _(n):
    d = n["dims"]
    return V(n, np.roll(payload(n["self"]), tuple(n["shifts"]), tuple(d) if d else None))


@op("tril", "triu")
def _(n):
    a = payload(n["self"]).copy()
    z = zero_of(n["self"].dtype)
    k = n["diagonal"]
    lo = n["_func"]._overloadpacket.__name__.startswith("tril")
    for i in range(a.shape[-2]):
        for j in range(a.shape[-1]):
            if (j - i > k) if lo else (j - i < k):
                if a.ndim == 2:
                    a[i, j] = z
                else:
                    for ix in np.ndindex(*a.shape[:-2]):
                        a[ix + (i, j)] = z
    return V(n, a)


@op("repeat_interleave")
def _(n):
    if n.get("self") is None or not isinstance(n.get("self"), torch.Tensor):
        reps = [int(x) for x in payload(n["repeats"])]
        a = obj((sum(reps),))
        p = 0
        for i, r in enumerate(reps):
            for _ in range(r):
                a[p] = i
                p += 1
        return W(a, torch.int64)
    a = payload(n["self"])
    r = n["repeats"]
    d = n["dim"]
    if d is None:
        a, d = a.reshape(-1), 0
    if isinstance(r, torch.Tensor):
        r = [int(x) for x in payload(r).reshape(-1)]
        if len(r) == 1:
            r = r[0]
    return V(n, np.repeat(a, r, axis=d))


# ---- indexing ---------------------------------------------------------------------------------------


def concrete_mask(m):
    """Boolean mask -> concrete (forks)"""
    return ufn(lambda x: bool(x), 1)(m).astype(bool) if m.ndim else np.array(bool(m[()]))


@op("nonzero")
def _(n):
    m = concrete_mask(CONV["b"](payload(n["self"])))
    ix = np.argwhere(m)
    o = obj(ix.shape)
    for p in np.ndindex(*ix.shape):
        o[p] = int(ix[p])
    return W(o, torch.int64)


def expand_indices(self, indices):
    """list of (None | index payload) with masks turned into integer indices"""
    out = []
    for t in indices:
        if t is None:
            out.append(None)
        elif t.dtype in (torch.bool, torch.uint8):
            m = concrete_mask(CONV["b"](payload(t)))
            for col in np.nonzero(m):
                o = obj(col.shape)
                for i, v in enumerate(col):
                    o[i] = int(v)
                out.append(o)
        else:
            out.append(payload(t))
    return out


def split_index(a, idx):
    """-> (advanced dims, broadcast shape, fn building numpy index)"""
    adv = [i for i, x in enumerate(idx) if x is not None]
    return adv


@op("index")
def _(n):
    a = payload(n["self"])
    idx = expand_indices(n["self"], n["indices"])
    adv = [i for i, x in enumerate(idx) if x is not None]
    if not adv:
        return V(n, a.copy())
    if not any(has_sym(idx[i]) for i in adv):
        key = [slice(None)] * a.ndim
        for i in adv:
            key[i] = np.array(idx[i].tolist(), dtype=np.int64).reshape(idx[i].shape)
            if key[i].size and (key[i].min() < -a.shape[i] or key[i].max() >= a.shape[i]):
                raise IndexError(f"index is out of bounds for dimension {i} with size {a.shape[i]}")
        r = a[tuple(key)]
        return V(n, r if isinstance(r, np.ndarray) else _arr0(r))
    # symbolic: move the advanced dims in front, gather elementwise
    bs = np.broadcast_shapes(*[idx[i].shape for i in adv])
    bi = [np.broadcast_to(idx[i], bs) for i in adv]
    rest = [i for i in range(a.ndim) if i not in adv]
    contiguous = adv == list(range(adv[0], adv[-1] + 1))
    b = a.transpose(adv + rest)
    o = obj(bs + tuple(a.shape[i] for i in rest))
    for p in np.ndindex(*bs):
        cur = b
        for q in bi:
            cur = take(cur, check_index(q[p], cur.shape[0]), 0)
        o[p] = cur[()] if cur.ndim == 0 else cur
    if contiguous and adv[0] > 0:
        nb = len(bs)
        perm = list(range(nb, nb + adv[0])) + list(range(nb)) + list(range(nb + adv[0], o.ndim))
        o = o.transpose(perm)
    return V(n, o)


@op("index_put_", "_index_put_impl_")
def _(n):
    t = n["self"]
    if not isinstance(t, SymTensor):
        return NotImplemented
    a = t._a
    vals = cast(payload(n["values"]), n["values"].dtype, t.dtype)
    # boolean mask covering the leading dims with a scalar value: no fork needed
    inds = n["indices"]
    if len(inds) == 1 and inds[0] is not None and inds[0].dtype == torch.bool and vals.size == 1 and not n["accumulate"]:
        m = payload(inds[0])
        if has_sym(m):
            v = vals.reshape(-1)[0]
            mm = m.reshape(m.shape + (1,) * (a.ndim - m.ndim))
            a[...] = ufn(lambda x, c: ite(c, v, x), 2)(a, np.broadcast_to(mm, a.shape))
            return t
    idx = expand_indices(t, inds)
    adv = [i for i, x in enumerate(idx) if x is not None]
    bs = np.broadcast_shapes(*[idx[i].shape for i in adv]) if adv else ()
    bi = {i: np.broadcast_to(idx[i], bs) for i in adv}
    rest = [i for i in range(a.ndim) if i not in adv]
    contiguous = bool(adv) and adv == list(range(adv[0], adv[-1] + 1))
    restshape = tuple(a.shape[i] for i in rest)
    if contiguous and adv[0] > 0:
        tgt = restshape[: adv[0]] + bs + restshape[adv[0] :]
        v = np.broadcast_to(vals, tgt)
        nb = len(bs)
        v = v.transpose(list(range(adv[0], adv[0] + nb)) + list(range(adv[0])) + list(range(adv[0] + nb, v.ndim)))
    else:
        v = np.broadcast_to(vals, bs + restshape)
    b = a.transpose(adv + rest)
    v = v.copy()
    for p in np.ndindex(*bs):
        coords = []
        for i in adv:
            q = check_index(bi[i][p], a.shape[i])
            coords.append(int(q) if isinstance(q, Sym) else q)
        k = tuple(coords)
        if n["accumulate"]:
            b[k] = ufn(p_add, 2)(b[k] if isinstance(b[k], np.ndarray) else _arr0(b[k]), v[p] if isinstance(v[p], np.ndarray) else _arr0(v[p]))[()] if not restshape else ufn(p_add, 2)(b[k], v[p])
        else:
            b[k] = v[p]
    return t


@op("index_put")
def _(n):
    m = NS(n)
    m["self"] = W(payload(n["self"]).copy(), n["self"].dtype)
    return H["index_put_"](m)


@op("gather")
def _(n):
    a, ix = payload(n["self"]), payload(n["index"])
    if a.ndim == 0:
        return V(n, np.broadcast_to(a, ix.shape).copy())
    d = ndim_fix(n["dim"], a.ndim)
    o = obj(ix.shape)
    for p in np.ndindex(*ix.shape):
        line = a[tuple(slice(None) if k == d else p[k] for k in range(a.ndim))]
        o[p] = take(line, ix[p], 0)[()]
    return V(n, o)


@op("index_select")
def _(n):
    a, ix = payload(n["self"]), payload(n["index"]).reshape(-1)
    d = ndim_fix(n["dim"], a.ndim)
    parts = [take(a, i, d) for i in ix]
    if not parts:
        sh = list(a.shape)
        sh[d] = 0
        return V(n, obj(tuple(sh)))
    return V(n, np.stack(parts, axis=d))


def _scatter(n, comb):
    t = n["self"]
    a = payload(t).copy()
    d = ndim_fix(n["dim"], a.ndim)
    ix = payload(n["index"])
    src = n.get("src", n.get("value"))
    sv = None if isinstance(src, torch.Tensor) else norm_scalar(src, kind(t.dtype))
    sa = payload(src) if sv is None else None
    for p in np.ndindex(*ix.shape):
        v = sv if sa is None else sa[p]
        i = ix[p]
        if isinstance(i, Sym):
            if not mk_bool(z3.And(i.e >= 0, i.e < a.shape[d])):
                raise RuntimeError("index out of bounds in scatter")
            for j in range(a.shape[d]):
                q = tuple(j if k == d else p[k] for k in range(a.ndim))
                a[q] = ite(i == j, comb(a[q], v), a[q])
        else:
            if not 0 <= i < a.shape[d]:
                raise RuntimeError(f"index {i} is out of bounds for dimension {d} with size {a.shape[d]}")
            q = tuple(i if k == d else p[k] for k in range(a.ndim))
            a[q] = comb(a[q], v)
    return W(a, t.dtype)


@op("scatter")
def _(n):
    red = n.get("reduce")
    if red is not None:
        return _scatter(n, p_add if red == "add" else mul)
    return _scatter(n, lambda old, new: new)


@op("scatter_add")
def _(n):
    return _scatter(n, lambda old, new: p_add(old, new))


@op("index_copy")
def _(n):
    a = payload(n["self"]).copy()
    d = ndim_fix(n["dim"], a.ndim)
    ix, src = payload(n["index"]).reshape(-1), payload(n["source"])
    for j, i in enumerate(ix):
        i = int(i)
        if not 0 <= i < a.shape[d]:
            raise IndexError("index out of range")
        k1 = tuple(slice(None) if k != d else i for k in range(a.ndim))
        k2 = tuple(slice(None) if k != d else j for k in range(a.ndim))
        a[k1] = src[k2]
    return V(n, a)


@op("index_fill")
def _(n):
    a = payload(n["self"]).copy()
    d = ndim_fix(n["dim"], a.ndim)
    v = todtype(n["value"], n["self"].dtype)[()]
    for i in payload(n["index"]).reshape(-1):
        k1 = tuple(slice(None) if k != d else int(i) for k in range(a.ndim))
        if a.ndim == 1:
            a[k1] = v
        else:
            s = a[k1]
            _fill2(s, v)
    return V(n, a)


def _fill2(s, v):
    for p in np.ndindex(*s.shape):
        s[p] = v


@op("index_add")
def _(n):
    a = payload(n["self"]).copy()
    d = ndim_fix(n["dim"], a.ndim)
    ix, src = payload(n["index"]).reshape(-1), payload(n["source"])
    al = norm_scalar(n["alpha"], kind(n["self"].dtype))
    for j, i in enumerate(ix):
        i = int(i)
        k1 = tuple(slice(None) if k != d else slice(i, i + 1) for k in range(a.ndim))
        k2 = tuple(slice(None) if k != d else slice(j, j + 1) for k in range(a.ndim))
        a[k1] = ufn(lambda x, y: p_add(x, mul(al, y)), 2)(a[k1], src[k2])
    return V(n, a)


@op("masked_scatter")
def _(n):
    a = payload(n["self"])
    m = concrete_mask(payload(n["mask"]))
    m = np.broadcast_to(m, a.shape)
    o = a.copy()
    src = list(payload(n["source"]).reshape(-1))
    p = 0
    for ix in np.ndindex(*a.shape):
        if m[ix]:
            if p >= len(src):
                raise RuntimeError("masked_scatter: expected source to have enough elements")
            o[ix] = src[p]
            p += 1
    return V(n, o)


@op("masked_select")
def _(n):
    a = payload(n["self"])
    m = concrete_mask(payload(n["mask"]))
    a, m = np.broadcast_arrays(a, m)
    xs = [a[ix] for ix in np.ndindex(*a.shape) if m[ix]]
    o = obj((len(xs),))
    for i, x in enumerate(xs):
        o[i] = x
    return V(n, o)


def sort_idx(xs, desc):
    """stable insertion sort; forks on comparisons of symbolic elements"""
    out = []
    for i, x in enumerate(xs):
        j = len(out)
        while j > 0:
            y = xs[out[j - 1]]
            less = (y < x) if desc else (x < y)
            if bool(less):
                j -= 1
            else:
                break
        out.insert(j, i)
    return out


@op("sort", "argsort")
def _(n):
    t = n["self"]
    a = payload(t)
    if a.ndim == 0:
        v, i = a.copy(), _arr0(0)
    else:
        b = a.swapaxes(n["dim"], -1)
        v, i = obj(b.shape), obj(b.shape)
        for p in np.ndindex(*b.shape[:-1]):
            xs = list(b[p])
            for k, s in enumerate(sort_idx(xs, n["descending"])):
                v[p + (k,)], i[p + (k,)] = xs[s], s
        v, i = v.swapaxes(n["dim"], -1), i.swapaxes(n["dim"], -1)
    if n["_func"]._overloadpacket.__name__ == "argsort":
        return W(i, torch.int64)
    return W(v, t.dtype), W(i, torch.int64)


@op("topk")
def _(n):
    t = n["self"]
    a = payload(t)
    k = int(n["k"])
    b = a.swapaxes(n["dim"], -1)
    if k > b.shape[-1]:
        raise RuntimeError("selected index k out of range")
    sh = b.shape[:-1] + (k,)
    v, i = obj(sh), obj(sh)
    for p in np.ndindex(*b.shape[:-1]):
        xs = list(b[p])
        rem = list(range(len(xs)))
        if not n["sorted"] and any(isinstance(x, Sym) for x in xs):
            # no order promised: rank every element symbolically instead of forking over the orders
            beats = (lambda x, y: x > y) if n["largest"] else (lambda x, y: x < y)
            rank = [sum_terms([ite(or_(beats(xs[q], xs[j]), and_(xs[q] == xs[j], q < j)), 1, 0) for q in rem if q != j] or [0]) for j in rem]
            for r in range(k):
                i[p + (r,)], v[p + (r,)] = rem[-1], xs[-1]
                for j in reversed(rem[:-1]):
                    c = rank[j] == r
                    i[p + (r,)], v[p + (r,)] = ite(c, j, i[p + (r,)]), ite(c, xs[j], v[p + (r,)])
            continue
        for r in range(k):
            if any(isinstance(xs[q], Sym) for q in rem):
                # one fork per candidate: the first of the largest
                beats = (lambda x, y: x > y) if n["largest"] else (lambda x, y: x < y)
                for bi in rem[:-1]:
                    if bool(and_(*[beats(xs[bi], xs[q]) if q < bi else not_(beats(xs[q], xs[bi])) for q in rem if q != bi])):
                        break
                else:
                    bi = rem[-1]
                rem.remove(bi)
                v[p + (r,)], i[p + (r,)] = xs[bi], bi
                continue
            bi = rem[0]
            for q in rem[1:]:
                if bool(xs[q] > xs[bi]) if n["largest"] else bool(xs[q] < xs[bi]):
                    bi = q
            rem.remove(bi)
            v[p + (r,)], i[p + (r,)] = xs[bi], bi
    return W(v.swapaxes(n["dim"], -1), t.dtype), W(i.swapaxes(n["dim"], -1), torch.int64)


@op("bincount")
def _(n):
    a = payload(n["self"])
    xs = [int(x) for x in a]
    m = max([n["minlength"]] + [x + 1 for x in xs])
    o = fill((m,), 0)
    if n["weights"] is not None:
        raise Unsupported("bincount weights")
    for x in xs:
        o[x] += 1
    return W(o, torch.int64)


@op("one_hot")
def _(n):
    a = payload(n["self"])
    c = n["num_classes"]
    if c == -1:
        raise Unsupported("one_hot inference of classes")
    o = obj(a.shape + (c,))
    for p in np.ndindex(*a.shape):
        for j in range(c):
            o[p + (j,)] = conv(a[p] == j, "i")
    return W(o, torch.int64)


@op("equal")
def _(n):
    return _equal(n["self"], n["other"])


@op("_local_scalar_dense")
def _(n):
    x = out_scalar(payload(n["self"]).reshape(-1)[0])
    if isinstance(x, SymBool):
        return bool(x)
    if isinstance(x, SymInt):
        return int(x)
    if isinstance(x, SymReal):
        return float(x)
    return x


@op("is_pinned")
def _(n):
    return False


@op("_scaled_dot_product_flash_attention_for_cpu")
def _(n):
    r = _scaled_dot_product(n["query"], n["key"], n["value"], n["attn_mask"], n["dropout_p"], n["is_causal"], n["scale"])
    return r, W(fill((1,), Fraction(0)), torch.float32)


@op("_amp_foreach_non_finite_check_and_unscale_")
def _(n):
    inv = payload(n["inv_scale"]).reshape(-1)[0]
    fi = n["found_inf"]
    bad = False
    for t in n["self"]:
        a = payload(t)
        if any(type(x) is float for x in a.reshape(-1)):
            bad = True
        write(t, W(ufn(lambda x: x if type(x) is float else mul(x, inv), 1)(a), t.dtype))
    if bad:
        write(fi, W(fill(tuple(fi.shape), Fraction(1)), fi.dtype))
    return None


def _foreach(name, base):
    @op(name)
    def _(n):
        packet = getattr(torch, base)
        xs = n["self"]
        o = n.get("other", n.get("scalar", n.get("scalars", n.get("tensors"))))
        inplace = n["_func"]._overloadpacket.__name__.endswith("_")
        res = []
        for i, t in enumerate(xs):
            v = o[i] if isinstance(o, (list, tuple)) else o
            r = packet(t, v) if v is not None else packet(t)
            if inplace:
                write(t, r)
            else:
                res.append(r)
        return None if inplace else res

    H[name + "_"] = H[name]


for _b in ("add", "sub", "mul", "div"):
    _foreach("_foreach_" + _b, _b)


@op("_foreach_norm")
def _(n):
    return [torch.linalg.vector_norm(t, n["ord"]) for t in n["self"]]


def scalar_tensor_binop(opname, s, t):
    st = sym_tensor(s, torch.get_default_dtype() if isinstance(s, float) else (torch.bool if isinstance(s, bool) else torch.int64))
    if opname == "rsub":
        return torch.sub(t, st)
    if opname == "rdiv":
        return torch.div(t, st)
    return getattr(torch, opname)(st, t)


# ---- constructors that must see proxies --------------------------------------------------------------

_patched = False
ORIGINAL = {}  # the functions patch_torch replaced


def patch_torch():
    """torch.tensor & co. accept proxies; item()/tolist() return proxies."""
    global _patched
    if _patched:
        return
    _patched = True
    o_tensor, o_as, o_full = torch.tensor, torch.as_tensor, torch.full

    def tensor(data, *a, dtype=None, device=None, requires_grad=False, **k):
        if core.ENGINE is not None and contains_sym(data):
            r = sym_tensor(data, dtype) if not isinstance(data, SymTensor) else data.detach().clone().to(dtype or data.dtype)
            if requires_grad:
                r.requires_grad_()
            return r
        return o_tensor(data, *a, dtype=dtype, device=device, requires_grad=requires_grad, **k)

    def as_tensor(data, dtype=None, device=None):
        if core.ENGINE is not None and not isinstance(data, torch.Tensor) and contains_sym(data):
            return sym_tensor(data, dtype)
        return o_as(data, dtype=dtype, device=device)

    def full(size, fill_value, *a, dtype=None, device=None, **k):
        if core.ENGINE is not None and contains_sym(fill_value):
            v = fill_value
            dt = dtype or (torch.bool if isinstance(v, bool) else torch.int64 if isinstance(v, int) else dflt())
            if isinstance(v, torch.Tensor):
                v = payload(v).reshape(-1)[0]
            return W(fill(shp(size), norm_scalar(v, kind(dt))), dt)
        return o_full(size, fill_value, *a, dtype=dtype, device=device, **k)

    torch.utils._device._device_constructors()  # cached set of the genuine functions
    ORIGINAL.update(tensor=o_tensor, as_tensor=o_as, full=o_full)
    torch.tensor, torch.as_tensor, torch.full = tensor, as_tensor, full
    o_new_tensor = torch.Tensor.new_tensor

    def new_tensor(self, data, *a, dtype=None, device=None, requires_grad=False, **k):
        if core.ENGINE is not None:
            return torch.tensor(data, dtype=dtype or self.dtype)
        return o_new_tensor(self, data, *a, dtype=dtype, device=device, requires_grad=requires_grad, **k)

    torch.Tensor.new_tensor = new_tensor
