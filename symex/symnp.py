"""
numpy arrays of symbolic reals.

`SymArray` is an object-dtype ndarray subclass; indexing, slicing, broadcasting and assignment are
numpy's own.  Ufuncs are evaluated elementwise with the symbolic operations of `core`; comparisons
return ordinary boolean arrays (each element forks), so masks, np.where, np.flatnonzero etc. work
natively.  `NumpyProxy` stands in for the module-global `np` of the code under test so that freshly
allocated float arrays can hold symbolic values.
"""
import functools
import math
import operator

import numpy as np

from . import core
from .core import SymReal, Unsupported

_real_np = np


def _div(a, b):
    old = core.NUMPY_DIV
    core.NUMPY_DIV = True
    try:
        if isinstance(a, SymReal) or isinstance(b, SymReal):
            return core._arith("div", a, b)
        with np.errstate(all="ignore"):
            return float(np.float64(a) / np.float64(b))
    finally:
        core.NUMPY_DIV = old


def _npow(a, b):
    old = core.NUMPY_DIV
    core.NUMPY_DIV = True
    try:
        if isinstance(a, SymReal) or isinstance(b, SymReal):
            return core._arith("pow", a, b)
        with np.errstate(all="ignore"):
            return float(np.power(np.float64(a), np.float64(b)))
    finally:
        core.NUMPY_DIV = old


def _mod(a, b):
    if isinstance(a, SymReal) or isinstance(b, SymReal):
        return core._arith("mod", a, b)
    with np.errstate(all="ignore"):
        return float(np.mod(np.float64(a), np.float64(b)))


def _floordiv(a, b):
    if isinstance(a, SymReal) or isinstance(b, SymReal):
        return core._arith("floordiv", a, b)
    with np.errstate(all="ignore"):
        return float(np.floor_divide(np.float64(a), np.float64(b)))


def _isnan(x):
    return False if isinstance(x, SymReal) else bool(x != x)


def _isfinite(x):
    return True if isinstance(x, SymReal) else math.isfinite(x)


def _isinf(x):
    return False if isinstance(x, SymReal) else math.isinf(x)


def _sign(x):
    if isinstance(x, SymReal):
        return float(core._sgn(x))
    return float(np.sign(x))


def _b(x):
    return bool(x)


_SCALAR = {
    "add": operator.add,
    "subtract": operator.sub,
    "multiply": operator.mul,
    "divide": _div,
    "true_divide": _div,
    "floor_divide": _floordiv,
    "remainder": _mod,
    "mod": _mod,
    "fmod": _mod,
    "power": _npow,
    "float_power": _npow,
    "negative": operator.neg,
    "positive": operator.pos,
    "absolute": abs,
    "fabs": abs,
    "minimum": core.fn_minimum,
    "maximum": core.fn_maximum,
    "fmin": core.fn_fmin,
    "fmax": core.fn_fmax,
    "exp": core.fn_exp,
    "exp2": lambda x: core.fn_pow(2.0, x),
    "expm1": core.fn_expm1,
    "log": core.fn_log,
    "log10": core.fn_log10,
    "log2": lambda x: core.fn_log(x) * (1 / math.log(2)),
    "log1p": core.fn_log1p,
    "sqrt": core.fn_sqrt,
    "cbrt": lambda x: core.fn_pow(x, 1 / 3),
    "square": lambda x: x * x,
    "reciprocal": lambda x: _div(1.0, x),
    "tanh": core.fn_tanh,
    "sin": core.fn_sin,
    "cos": core.fn_cos,
    "tan": core.fn_tan,
    "arctan": core.fn_arctan,
    "arccos": core.fn_arccos,
    "arcsin": core.fn_arcsin,
    "arctan2": core.fn_arctan2,
    "hypot": core.fn_hypot,
    "deg2rad": lambda x: x * (math.pi / 180),
    "radians": lambda x: x * (math.pi / 180),
    "rad2deg": lambda x: x * (180 / math.pi),
    "degrees": lambda x: x * (180 / math.pi),
    "floor": core.fn_floor,
    "ceil": core.fn_ceil,
    "trunc": core.fn_trunc,
    "rint": core.fn_rint,
    "sign": _sign,
    "isnan": _isnan,
    "isfinite": _isfinite,
    "isinf": _isinf,
    "less": lambda a, b: bool(a < b),
    "less_equal": lambda a, b: bool(a <= b),
    "greater": lambda a, b: bool(a > b),
    "greater_equal": lambda a, b: bool(a >= b),
    "equal": lambda a, b: bool(a == b),
    "not_equal": lambda a, b: bool(a != b),
    "logical_and": lambda a, b: _b(a) and _b(b),
    "logical_or": lambda a, b: _b(a) or _b(b),
    "logical_xor": lambda a, b: _b(a) != _b(b),
    "logical_not": lambda a: not _b(a),
    "bitwise_and": operator.and_,
    "bitwise_or": operator.or_,
    "bitwise_xor": operator.xor,
    "invert": lambda a: (not a) if isinstance(a, bool) else ~a,
    "conjugate": lambda x: x,
}
_BOOL_OUT = {
    "isnan", "isfinite", "isinf", "less", "less_equal", "greater", "greater_equal", "equal",
    "not_equal", "logical_and", "logical_or", "logical_xor", "logical_not",
}
_PRESERVE_NAN_CMP = True


def _py(x):
    """Elements of object arrays: Python scalars or SymReal."""
    if isinstance(x, np.generic):
        return x.item()
    return x


def _objarr(x):
    if isinstance(x, SymReal):
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return x.view(np.ndarray)
        return x.astype(object)
    a = np.asarray(x, dtype=object) if _contains_sym(x) else np.asarray(x)
    if a.dtype != object:
        a = a.astype(object)
    return a.view(np.ndarray)


def _contains_sym(x):
    if isinstance(x, SymReal):
        return True
    if isinstance(x, SymArray):
        return True
    if isinstance(x, np.ndarray):
        return x.dtype == object
    if isinstance(x, (list, tuple)):
        return any(_contains_sym(v) for v in x)
    return False


def wrap(a):
    """Object ndarray -> SymArray."""
    return np.asarray(a, dtype=object).view(SymArray)


def lift(a):
    """Float ndarray -> SymArray of Python floats."""
    a = np.asarray(a)
    return wrap(a.astype(object))


_NP_SCALAR_WARN = dict(all="ignore")


def array_ufunc(ufunc, method, inputs, kwargs):
    name = ufunc.__name__
    out = kwargs.pop("out", None)
    where = kwargs.pop("where", True)
    kwargs.pop("dtype", None)
    kwargs.pop("casting", None)
    kwargs.pop("order", None)
    kwargs.pop("subok", None)
    if name == "matmul":
        r = _matmul(*inputs)
        return _finish(r, out)
    if name not in _SCALAR:
        raise Unsupported(f"ufunc {name}")
    f = _SCALAR[name]
    if method == "__call__":
        ins = [_objarr(x) for x in inputs]
        bc = np.broadcast(*ins) if len(ins) > 1 else ins[0]
        shape = bc.shape
        if where is not True:
            w = np.broadcast_to(np.asarray(where, dtype=bool), shape)
        else:
            w = None
        boolout = name in _BOOL_OUT
        res = np.empty(shape, dtype=bool if boolout else object)
        bins = [np.broadcast_to(x, shape) for x in ins]
        if w is not None:
            o = out[0] if out is not None else None
            base = np.broadcast_to(_objarr(o), shape) if o is not None else None
        with np.errstate(all="ignore"):
            for i in np.ndindex(*shape):
                if w is not None and not w[i]:
                    res[i] = base[i] if base is not None else (False if boolout else math.nan)
                    continue
                res[i] = f(*[_py(b[i]) for b in bins])
        if not boolout and name in ("bitwise_and", "bitwise_or", "bitwise_xor", "invert"):
            if all(isinstance(v, bool) for v in res.flat):
                res = res.astype(bool)
        return _finish(res, out)
    if method == "reduce":
        (a,) = inputs
        return _reduce(f, name, a, out=out, where=where, **kwargs)
    if method == "accumulate":
        (a,) = inputs
        a = _objarr(a)
        axis = kwargs.get("axis", 0)
        a = np.moveaxis(a, axis, 0)
        res = np.empty(a.shape, dtype=object)
        if len(a):
            res[0] = a[0]
            for k in range(1, a.shape[0]):
                for i in np.ndindex(*a.shape[1:]):
                    res[(k, *i)] = f(res[(k - 1, *i)], a[(k, *i)])
        return _finish(np.moveaxis(res, 0, axis), out)
    if method == "outer":
        a, b = (_objarr(x) for x in inputs)
        return array_ufunc(
            ufunc, "__call__", (a.reshape(a.shape + (1,) * b.ndim), b), {}
        )
    if method == "at":
        a, idx = inputs[0], inputs[1]
        rest = inputs[2:]
        idx = np.asarray(idx)
        for n, k in enumerate(idx):
            a[k] = f(a[k], *[(_objarr(r)[n] if np.ndim(r) else r) for r in rest])
        return None
    raise Unsupported(f"ufunc method {name}.{method}")


def _finish(res, out):
    if out is not None:
        o = out[0] if isinstance(out, tuple) else out
        if o is not None:
            if isinstance(o, np.ndarray) and o.dtype != object and res.dtype == object:
                if any(isinstance(v, SymReal) for v in res.flat):
                    raise Unsupported("symbolic result written to a plain float array (out=)")
            np.ndarray.__setitem__(o, Ellipsis, res)
            return o
    if isinstance(res, np.ndarray):
        if res.ndim == 0:
            v = res[()]
            if isinstance(v, float):
                return np.float64(v)
            return v
        if res.dtype == object:
            return res.view(SymArray)
    return res


_IDENT = {
    "add": 0.0,
    "multiply": 1.0,
    "logical_and": True,
    "logical_or": False,
}
_NOVAL = np._NoValue


def _reduce(f, name, a, axis=0, out=None, where=True, keepdims=False, initial=_NOVAL, **kw):
    a = _objarr(a)
    if axis is None:
        axes = tuple(range(a.ndim))
    elif isinstance(axis, tuple):
        axes = tuple(x % a.ndim for x in axis)
    else:
        axes = (axis % max(a.ndim, 1),) if a.ndim else ()
    if keepdims is _NOVAL:
        keepdims = False
    keep = [d for d in range(a.ndim) if d not in axes]
    at = a.transpose(keep + list(axes)) if a.ndim else a
    kshape = tuple(a.shape[d] for d in keep)
    rlen = 1
    for d in axes:
        rlen *= a.shape[d]
    flat = at.reshape(kshape + (rlen,))
    if where is not True and where is not _NOVAL:
        w = np.broadcast_to(np.asarray(where, dtype=bool), a.shape)
        w = w.transpose(keep + list(axes)).reshape(kshape + (rlen,))
    else:
        w = None
    boolout = name in _BOOL_OUT
    res = np.empty(kshape, dtype=bool if boolout else object)
    with np.errstate(all="ignore"):
        for i in np.ndindex(*kshape):
            vals = list(flat[i])
            if w is not None:
                vals = [v for v, ww in zip(vals, w[i]) if ww]
            vals = [_py(v) for v in vals]
            if initial is not _NOVAL and initial is not None:
                vals = [initial] + vals
            elif not vals:
                if name in _IDENT:
                    vals = [_IDENT[name]]
                else:
                    raise ValueError(
                        f"zero-size array to reduction operation {name} which has no identity"
                    )
            if name in ("logical_and", "logical_or"):
                stop = name == "logical_or"
                r = not stop
                for v in vals:
                    if bool(v) == stop:
                        r = stop
                        break
            else:
                r = functools.reduce(f, vals)
            res[i] = r
    if keepdims:
        shp = [1 if d in axes else a.shape[d] for d in range(a.ndim)]
        res = res.reshape(shp)
    return _finish(res, out)


def _matmul(a, b):
    a, b = _objarr(a), _objarr(b)
    if a.ndim == 1 and b.ndim == 1:
        return _dot1(a, b)
    if a.ndim == 2 and b.ndim == 1:
        return wrap([_dot1(r, b) for r in a])
    if a.ndim == 1 and b.ndim == 2:
        return wrap([_dot1(a, b[:, j]) for j in range(b.shape[1])])
    if a.ndim == 2 and b.ndim == 2:
        return wrap([[_dot1(r, b[:, j]) for j in range(b.shape[1])] for r in a])
    raise Unsupported("matmul of higher dimension")


def _dot1(a, b):
    r = 0.0
    for x, y in zip(a, b):
        r = r + _py(x) * _py(y)
    return r


class SymArray(np.ndarray):
    values = property(lambda self: self)  # stands for a DataArray as well

    __array_priority__ = 500

    def __array_ufunc__(self, ufunc, method, *inputs, **kwargs):
        return array_ufunc(ufunc, method, inputs, dict(kwargs))

    def __array_function__(self, func, types, args, kwargs):
        h = _FUNCS.get(func.__name__)
        if h is not None:
            return h(*args, **kwargs)
        return super().__array_function__(func, types, args, kwargs)

    def __getitem__(self, key):
        key = _key(key)
        r = super().__getitem__(key)
        if isinstance(r, float):
            return np.float64(r)
        return r

    def __setitem__(self, key, value):
        key = _key(key)
        if isinstance(value, np.ndarray) and value.dtype != object:
            value = value.astype(object)
        if isinstance(value, np.generic):
            value = value.item()
        super().__setitem__(key, value)

    def astype(self, dtype, *a, **k):
        if dtype in (float, np.float64, "float64", np.dtype("float64"), object, "float", np.float32):
            return self.copy()
        if dtype in (bool, np.bool_):
            return np.array([bool(v) for v in self.flat], dtype=bool).reshape(self.shape)
        if dtype in (int, np.int64, np.int32, "int"):
            return np.array([int(v) for v in self.flat], dtype=int).reshape(self.shape)
        raise Unsupported(f"astype {dtype}")

    def clip(self, min=None, max=None, out=None, **kw):
        r = self
        if min is not None:
            r = np.maximum(r, min)
        if max is not None:
            r = np.minimum(r, max)
        if out is not None:
            out[...] = r
            return out
        return r

    def sum(self, axis=None, **kw):
        return _reduce(operator.add, "add", self, axis=axis, **_rk(kw))

    def prod(self, axis=None, **kw):
        return _reduce(operator.mul, "multiply", self, axis=axis, **_rk(kw))

    def min(self, axis=None, **kw):
        return _reduce(core.fn_minimum, "minimum", self, axis=axis, **_rk(kw))

    def max(self, axis=None, **kw):
        return _reduce(core.fn_maximum, "maximum", self, axis=axis, **_rk(kw))

    def any(self, axis=None, **kw):
        return _reduce(None, "logical_or", self, axis=axis, **_rk(kw))

    def all(self, axis=None, **kw):
        return _reduce(None, "logical_and", self, axis=axis, **_rk(kw))

    def mean(self, axis=None, **kw):
        return _mean(self, axis=axis, **kw)

    def fill(self, v):
        np.ndarray.fill(self, core.pyfloat(v) if not isinstance(v, SymReal) else v)

    def argmin(self, axis=None, **k):
        return _argred(self, axis, lambda a, b: a < b)

    def argmax(self, axis=None, **k):
        return _argred(self, axis, lambda a, b: a > b)

    def cumsum(self, axis=None, **k):
        a = self if axis is not None else self.ravel()
        return array_ufunc(np.add, "accumulate", (a,), {"axis": axis or 0})

    def round(self, decimals=0, **k):
        return wrap(
            np.array([core.fn_round(v, decimals) if decimals else core.fn_rint(v) for v in self.flat],
                     dtype=object).reshape(self.shape)
        )

    def dot(self, b, **k):
        return _matmul(self, b)

    def std(self, axis=None, **k):
        return _var(self, axis, **k) ** 0.5

    def var(self, axis=None, **k):
        return _var(self, axis, **k)

    def searchsorted(self, v, side="left", sorter=None):
        return _searchsorted(self, v, side, sorter)

    def __reduce__(self):
        raise Unsupported("pickling a symbolic array")


def _rk(kw):
    return {k: v for k, v in kw.items() if k in ("keepdims", "initial", "where", "out") and v is not None}


def _key(key):
    if isinstance(key, tuple):
        return tuple(_key1(k) for k in key)
    return _key1(key)


def _key1(k):
    if isinstance(k, np.ndarray) and k.dtype == object:
        vals = list(k.flat)
        if all(isinstance(v, bool) for v in vals):
            return np.array(vals, dtype=bool).reshape(k.shape)
        return np.array([int(v) for v in vals], dtype=int).reshape(k.shape)
    if isinstance(k, SymReal):
        return int(k)
    return k


# -- numpy functions -----------------------------------------------------------------------------
def _mean(a, axis=None, dtype=None, out=None, keepdims=False, where=True):
    a = wrap(_objarr(a))
    if keepdims is _NOVAL:
        keepdims = False
    s = _reduce(operator.add, "add", a, axis=axis, keepdims=keepdims,
                where=True if where is _NOVAL else where)
    if where is not True and where is not _NOVAL:
        n = np.sum(np.broadcast_to(where, a.shape), axis=axis, keepdims=keepdims)
    else:
        n = a.size if axis is None else int(np.prod([a.shape[x] for x in np.atleast_1d(axis)]))
    return np.true_divide(s, n) if not isinstance(s, SymReal) else _div(s, n)


def _var(a, axis=None, ddof=0, **k):
    a = wrap(_objarr(a))
    m = _mean(a, axis=axis, keepdims=True)
    d = (a - m) ** 2
    n = a.size if axis is None else a.shape[axis]
    return _reduce(operator.add, "add", d, axis=axis) / (n - ddof)


def _nan_fill(a, v):
    a = _objarr(a).copy()
    m = np.array([_isnan(x) for x in a.flat], dtype=bool).reshape(a.shape)
    a[m] = v
    return wrap(a), m


def _nansum(a, axis=None, **k):
    return _nan_fill(a, 0.0)[0].sum(axis=axis)


def _nanmean(a, axis=None, **k):
    f, m = _nan_fill(a, 0.0)
    n = (~m).sum(axis=axis)
    s = f.sum(axis=axis)
    return _div(s, float(n)) if np.ndim(s) == 0 else np.true_divide(s, n)


def _nanredu(fn, name):
    def g(a, axis=None, **k):
        r = _reduce(fn, name, a, axis=axis)
        return r

    return g


def _argred(a, axis, better):
    a = _objarr(a)
    if axis is None:
        a = a.ravel()
        best = 0
        for i in range(1, len(a)):
            if _isnan(a[best]):
                return best
            if _isnan(a[i]) or better(a[i], a[best]):
                best = i
        return best
    a = np.moveaxis(a, axis, -1)
    res = np.empty(a.shape[:-1], dtype=int)
    for i in np.ndindex(*res.shape):
        res[i] = _argred(a[i], None, better)
    return res


def _where(cond, *xy):
    cond = np.asarray(cond)
    if cond.dtype == object:
        cond = np.array([bool(v) for v in cond.flat], dtype=bool).reshape(cond.shape)
    if not xy:
        return np.where(cond)
    x, y = (_objarr(v) for v in xy)
    return _finish(np.where(cond, x, y), None) if np.where(cond, x, y).ndim else _scalar(
        np.where(cond, x, y)
    )


def _scalar(a):
    v = a[()]
    return np.float64(v) if isinstance(v, float) else v


def _isclose(a, b, rtol=1e-5, atol=1e-8, equal_nan=False):
    def f(x, y):
        if _isnan(x) or _isnan(y):
            return equal_nan and _isnan(x) and _isnan(y)
        if not _isfinite(x) or not _isfinite(y):
            return x == y
        return bool(abs(x - y) <= atol + rtol * abs(y))

    return _elementwise(f, a, b, boolout=True)


def _elementwise(f, *args, boolout=False):
    ins = [_objarr(x) for x in args]
    shape = np.broadcast(*ins).shape if len(ins) > 1 else ins[0].shape
    res = np.empty(shape, dtype=bool if boolout else object)
    bins = [np.broadcast_to(x, shape) for x in ins]
    for i in np.ndindex(*shape):
        res[i] = f(*[_py(b[i]) for b in bins])
    return _finish(res, None)


def _nan_to_num(x, copy=True, nan=0.0, posinf=None, neginf=None):
    big = 1.7976931348623157e308

    def f(v):
        if isinstance(v, SymReal):
            return v
        if v != v:
            return nan
        if v == math.inf:
            return posinf if posinf is not None else big
        if v == -math.inf:
            return neginf if neginf is not None else -big
        return v

    r = _elementwise(f, x)
    if not copy and isinstance(x, np.ndarray):
        x[...] = r
        return x
    return r


def _interp(x, xp, fp, left=None, right=None, period=None):
    if period is not None:
        raise Unsupported("np.interp(period)")
    xp, fp = list(_objarr(xp)), list(_objarr(fp))

    def f(v):
        if _isnan(v):
            return math.nan
        if v < xp[0]:
            return fp[0] if left is None else left
        if v > xp[-1]:
            return fp[-1] if right is None else right
        for k in range(len(xp) - 1):
            if v == xp[k]:
                return fp[k]
            if v < xp[k + 1]:
                return fp[k] + (fp[k + 1] - fp[k]) * _div(v - xp[k], xp[k + 1] - xp[k])
        return fp[-1]

    return _elementwise(f, x)


def _searchsorted(a, v, side="left", sorter=None):
    a = list(_objarr(a))
    if sorter is not None:
        a = [a[i] for i in sorter]

    def f(x):
        for k, ak in enumerate(a):
            if (ak >= x) if side == "left" else (ak > x):
                return k
        return len(a)

    ins = _objarr(v)
    res = np.empty(ins.shape, dtype=int)
    for i in np.ndindex(*ins.shape):
        res[i] = f(_py(ins[i]))
    return res if res.ndim else int(res)


def _digitize(x, bins, right=False):
    return _searchsorted(bins, x, side="left" if right else "right")


def _clip(a, a_min=None, a_max=None, out=None, min=None, max=None, **k):
    lo = a_min if a_min is not None else min
    hi = a_max if a_max is not None else max
    r = a if isinstance(a, SymReal) else wrap(_objarr(a)) if np.ndim(a) else a
    if lo is not None:
        r = np.maximum(r, lo) if not isinstance(r, SymReal) else np.maximum(r, lo)
    if hi is not None:
        r = np.minimum(r, hi)
    if out is not None:
        out[...] = r
        return out
    return r


def _full_like_val(a):
    return a.view(np.ndarray) if isinstance(a, SymArray) else a


def _zeros_like(a, dtype=None, **k):
    return _alloc(np.shape(a), _like_dtype(a, dtype), 0)


def _ones_like(a, dtype=None, **k):
    return _alloc(np.shape(a), _like_dtype(a, dtype), 1)


def _empty_like(a, dtype=None, **k):
    return _alloc(np.shape(a), _like_dtype(a, dtype), math.nan)


def _full_like(a, fill_value, dtype=None, **k):
    return _full(np.shape(a), fill_value, dtype if dtype is not None else _like_dtype(a, None))


def _like_dtype(a, dtype):
    if dtype is not None:
        return dtype
    if isinstance(a, np.ndarray):
        return float if a.dtype == object else a.dtype
    return np.asarray(a).dtype if not isinstance(a, SymReal) else float


def _is_floaty(dtype):
    if dtype is None:
        return True
    try:
        return np.dtype(dtype).kind in "fO"
    except TypeError:
        return False


def _alloc(shape, dtype, val):
    if _is_floaty(dtype):
        a = np.empty(shape, dtype=object)
        a.fill(float(val))
        return a.view(SymArray)
    return np.full(shape, 0 if val != val else val, dtype=dtype)


def _full(shape, fill_value, dtype=None, **k):
    if dtype is None:
        if isinstance(fill_value, SymReal) or _contains_sym(fill_value):
            dtype = float
        else:
            dtype = np.asarray(fill_value).dtype
    if _is_floaty(dtype):
        a = np.empty(shape, dtype=object)
        if isinstance(fill_value, np.ndarray) or isinstance(fill_value, (list, tuple)):
            a[...] = _objarr(fill_value)
        else:
            v = fill_value
            a.fill(v if isinstance(v, SymReal) else float(v))
        return a.view(SymArray)
    return np.full(shape, fill_value, dtype=dtype)


def _array(x, dtype=None, copy=True, **k):
    k.pop("order", None)
    if isinstance(x, SymArray):
        if dtype is not None and not _is_floaty(dtype):
            return x.astype(dtype)
        return x.copy() if copy else x
    if _contains_sym(x):
        if dtype is not None and not _is_floaty(dtype):
            return wrap(np.array(x, dtype=object)).astype(dtype)
        if isinstance(x, SymReal):
            return wrap(_objarr(x))
        parts = x
        # nested lists of SymArrays/arrays
        return wrap(np.array(_tolist(parts), dtype=object))
    r = np.array(x, dtype=dtype, **k) if copy else np.asarray(x, dtype=dtype)
    if r.dtype.kind == "f":
        return lift(r)
    return r


def _tolist(x):
    if isinstance(x, np.ndarray):
        return x.astype(object).tolist() if x.ndim else x.item()
    if isinstance(x, (list, tuple)):
        return [_tolist(v) for v in x]
    if isinstance(x, np.generic):
        return x.item()
    return x


def _gradient1(a, h, axis):
    a = np.moveaxis(_objarr(a), axis, 0)
    n = a.shape[0]
    if n < 2:
        raise ValueError("Shape of array too small to calculate a numerical gradient")
    res = np.empty(a.shape, dtype=object)
    A = a.view(SymArray)
    res[0] = (A[1] - A[0]) / h
    res[n - 1] = (A[n - 1] - A[n - 2]) / h
    for k in range(1, n - 1):
        res[k] = (A[k + 1] - A[k - 1]) / (2 * h)
    return wrap(np.moveaxis(res, 0, axis))


def _gradient(f, *h, axis=None, edge_order=1):
    nd = np.ndim(f)
    axes = range(nd) if axis is None else ([axis] if np.ndim(axis) == 0 else list(axis))
    hs = list(h)
    if not hs:
        hs = [1.0] * len(list(axes))
    elif len(hs) == 1:
        hs = hs * len(list(axes))
    out = [_gradient1(f, hh, ax) for hh, ax in zip(hs, axes)]
    return out[0] if len(out) == 1 else out


def _sum(a, axis=None, **k):
    return _reduce(operator.add, "add", a, axis=axis, **_rk(k))


def _diff(a, n=1, axis=-1, **k):
    a = wrap(_objarr(a))
    for _ in range(n):
        a = np.moveaxis(a, axis, 0)
        a = a[1:] - a[:-1]
        a = np.moveaxis(a, 0, axis)
    return a


def _average(a, axis=None, weights=None, **k):
    if weights is None:
        return _mean(a, axis=axis)
    a = wrap(_objarr(a))
    w = wrap(_objarr(weights))
    if w.ndim == 1 and a.ndim > 1 and axis is not None:
        shp = [1] * a.ndim
        shp[axis] = -1
        w = w.reshape(shp)
    num = (a * w).sum(axis=axis)
    den = (a * 0 + w).sum(axis=axis)
    return _div(num, den) if np.ndim(num) == 0 else num / den


def _argsort(a, axis=-1, kind=None, **k):
    a = _objarr(a)
    if a.ndim != 1:
        raise Unsupported("argsort of nd")

    def cmp(i, j):
        x, y = a[i], a[j]
        if _isnan(x):
            return 0 if _isnan(y) else 1
        if _isnan(y):
            return -1
        if x < y:
            return -1
        if x > y:
            return 1
        return 0

    return np.array(sorted(range(len(a)), key=functools.cmp_to_key(cmp)), dtype=int)


def _sort(a, axis=-1, **k):
    a = wrap(_objarr(a))
    return a[_argsort(a)]


def _median(a, axis=None, **k):
    s = _sort(wrap(_objarr(a)).ravel())
    n = len(s)
    return s[n // 2] if n % 2 else (s[n // 2 - 1] + s[n // 2]) / 2


def _cumsum(a, axis=None, **k):
    return wrap(_objarr(a)).cumsum(axis=axis)


def _dot(a, b, **k):
    return _matmul(a, b)


def _allclose(a, b, **k):
    return bool(np.all(_isclose(a, b, **k)))


def _array_equal(a, b, **k):
    a, b = _objarr(a), _objarr(b)
    if a.shape != b.shape:
        return False
    return all(bool(x == y) for x, y in zip(a.flat, b.flat))


def _count_nonzero(a, axis=None, **k):
    m = np.asarray(a)
    if m.dtype == object:
        m = wrap(m).astype(bool)
    return np.count_nonzero(m, axis=axis)


def _polyfit(x, y, deg, **k):
    if deg != 1 or k:
        raise Unsupported("polyfit")
    s, i = linreg(x, y)
    return wrap([s, i])


def linreg(x, y):
    x, y = wrap(_objarr(x)), wrap(_objarr(y))
    xm, ym = _mean(x), _mean(y)
    sxx = ((x - xm) ** 2).sum()
    sxy = ((x - xm) * (y - ym)).sum()
    s = _div(sxy, sxx)
    return s, ym - s * xm


def _take(a, indices, axis=None, **k):
    a = wrap(_objarr(a))
    if axis is None:
        return a.ravel()[indices]
    return a[(slice(None),) * axis + (indices,)]


def _select(condlist, choicelist, default=0):
    res = default
    for c, v in list(zip(condlist, choicelist))[::-1]:
        res = _where(c, v, res)
    return res


def _convolve_unsupported(*a, **k):
    raise Unsupported("numpy function not modelled")


def _stackable(name):
    f = getattr(np, name)

    def g(seq, *a, **k):
        k.pop("dtype", None)
        arrs = [_objarr(s) if not np.isscalar(s) else s for s in seq]
        return wrap(f(arrs, *a, **k))

    return g


def _pad(a, pad_width, mode="constant", **k):
    a = _objarr(a)
    if mode == "constant":
        cv = k.get("constant_values", 0)
        return wrap(np.pad(a, pad_width, mode="constant", constant_values=cv))
    return wrap(np.pad(a, pad_width, mode=mode, **k))


def _piecewise(x, condlist, funclist, *args, **kw):
    x = wrap(_objarr(x))
    y = _alloc(x.shape, float, 0.0)
    conds = [np.asarray(c, dtype=bool) for c in condlist]
    funcs = list(funclist)
    if len(funcs) == len(conds) + 1:
        other = ~np.any(conds, axis=0)
        conds.append(other)
    for c, f in zip(conds, funcs):
        y[c] = f(x[c], *args, **kw) if callable(f) else f
    return y


def _isreal_finite(name):
    return None


_FUNCS = {
    "where": _where,
    "isclose": _isclose,
    "allclose": _allclose,
    "array_equal": _array_equal,
    "nan_to_num": _nan_to_num,
    "interp": _interp,
    "searchsorted": _searchsorted,
    "digitize": _digitize,
    "clip": _clip,
    "sum": _sum,
    "prod": lambda a, axis=None, **k: wrap(_objarr(a)).prod(axis=axis),
    "mean": _mean,
    "average": _average,
    "std": lambda a, axis=None, **k: wrap(_objarr(a)).std(axis=axis, **k),
    "var": lambda a, axis=None, **k: wrap(_objarr(a)).var(axis=axis, **k),
    "nansum": _nansum,
    "nanmean": _nanmean,
    "nanmin": _nanredu(core.fn_fmin, "fmin"),
    "nanmax": _nanredu(core.fn_fmax, "fmax"),
    "min": lambda a, axis=None, **k: wrap(_objarr(a)).min(axis=axis, **_rk(k)),
    "max": lambda a, axis=None, **k: wrap(_objarr(a)).max(axis=axis, **_rk(k)),
    "amin": lambda a, axis=None, **k: wrap(_objarr(a)).min(axis=axis, **_rk(k)),
    "amax": lambda a, axis=None, **k: wrap(_objarr(a)).max(axis=axis, **_rk(k)),
    "any": lambda a, axis=None, **k: _reduce(None, "logical_or", a, axis=axis, **_rk(k)),
    "all": lambda a, axis=None, **k: _reduce(None, "logical_and", a, axis=axis, **_rk(k)),
    "argmin": lambda a, axis=None, **k: _argred(a, axis, lambda x, y: x < y),
    "argmax": lambda a, axis=None, **k: _argred(a, axis, lambda x, y: x > y),
    "nanargmin": lambda a, axis=None, **k: _argred(
        _nan_fill(a, math.inf)[0], axis, lambda x, y: x < y),
    "nanargmax": lambda a, axis=None, **k: _argred(
        _nan_fill(a, -math.inf)[0], axis, lambda x, y: x > y),
    "gradient": _gradient,
    "diff": _diff,
    "argsort": _argsort,
    "sort": _sort,
    "median": _median,
    "cumsum": _cumsum,
    "dot": _dot,
    "inner": _dot,
    "polyfit": _polyfit,
    "count_nonzero": _count_nonzero,
    "zeros_like": _zeros_like,
    "ones_like": _ones_like,
    "empty_like": _empty_like,
    "full_like": _full_like,
    "take": _take,
    "select": _select,
    "hstack": _stackable("hstack"),
    "vstack": _stackable("vstack"),
    "stack": _stackable("stack"),
    "concatenate": _stackable("concatenate"),
    "column_stack": _stackable("column_stack"),
    "pad": _pad,
    "round": lambda a, decimals=0, **k: wrap(_objarr(a)).round(decimals),
    "around": lambda a, decimals=0, **k: wrap(_objarr(a)).round(decimals),
    "piecewise": _piecewise,
    "isscalar": lambda x: isinstance(x, SymReal) or np.isscalar(x),
}


def _always(name):
    """Functions the proxy always intercepts (allocation)."""


class NumpyProxy:
    """Stand-in for the `numpy` module inside the code under test."""

    _ALLOC = {
        "zeros": lambda shape, dtype=float, **k: _alloc(shape, dtype, 0),
        "ones": lambda shape, dtype=float, **k: _alloc(shape, dtype, 1),
        "empty": lambda shape, dtype=float, **k: _alloc(shape, dtype, math.nan),
        "full": _full,
        "zeros_like": _zeros_like,
        "ones_like": _ones_like,
        "empty_like": _empty_like,
        "full_like": _full_like,
        "array": _array,
        "asarray": lambda x, dtype=None, **k: _array(x, dtype, copy=False),
        "asanyarray": lambda x, dtype=None, **k: _array(x, dtype, copy=False),
        "ascontiguousarray": lambda x, dtype=None, **k: _array(x, dtype, copy=False),
        "atleast_1d": lambda x: (x if isinstance(x, np.ndarray) else _array(x)) if np.ndim(x) else _array([x]),
        "copy": lambda x, **k: _array(x),
    }

    def __init__(self):
        self.__dict__["_cache"] = {}

    def __getattr__(self, name):
        c = self._cache.get(name)
        if c is not None:
            return c
        if name in self._ALLOC:
            v = self._ALLOC[name]
        elif name in _FUNCS:
            v = self._func(name)
        else:
            v = getattr(np, name)
            if isinstance(v, np.ufunc) and name in _SCALAR:
                v = UfuncProxy(v)
        self._cache[name] = v
        return v

    @staticmethod
    def _func(name):
        real = getattr(np, name)
        sym = _FUNCS[name]

        @functools.wraps(real)
        def f(*args, **kwargs):
            if any(_contains_sym(a) for a in args) or any(_contains_sym(a) for a in kwargs.values()):
                return sym(*args, **kwargs)
            return real(*args, **kwargs)

        return f


class UfuncProxy:
    """A ufunc that accepts SymReal scalars and symbolic lists, else defers to numpy."""

    def __init__(self, uf):
        self._uf = uf
        self.__name__ = uf.__name__

    def __call__(self, *args, **kwargs):
        if any(_contains_sym(a) for a in args):
            return array_ufunc(self._uf, "__call__", args, dict(kwargs))
        return self._uf(*args, **kwargs)

    def reduce(self, a, axis=0, **k):
        if _contains_sym(a):
            return array_ufunc(self._uf, "reduce", (a,), dict(axis=axis, **k))
        return self._uf.reduce(a, axis=axis, **k)

    def __getattr__(self, n):
        return getattr(self._uf, n)


class MathProxy:
    _M = {
        "exp": core.fn_exp, "log": core.fn_log, "log10": core.fn_log10, "sqrt": core.fn_sqrt,
        "tanh": core.fn_tanh, "sin": core.fn_sin, "cos": core.fn_cos, "tan": core.fn_tan,
        "atan": core.fn_arctan, "acos": core.fn_arccos, "asin": core.fn_arcsin,
        "atan2": core.fn_arctan2, "floor": lambda x: int(core.fn_floor(x)),
        "ceil": lambda x: int(core.fn_ceil(x)), "hypot": core.fn_hypot,
        "isnan": _isnan, "isfinite": _isfinite, "isinf": _isinf, "pow": core.fn_pow,
        "fabs": abs, "radians": lambda x: x * (math.pi / 180),
        "degrees": lambda x: x * (180 / math.pi),
    }

    def __getattr__(self, name):
        return self._M.get(name) or getattr(math, name)


NP = NumpyProxy()
MATH = MathProxy()
_patched = []


def patch_modules(prefix="openamundsen"):
    """Replace numpy/math (and functions imported from them) in the modules under test."""
    import sys

    if _patched:
        return
    for mname, mod in list(sys.modules.items()):
        if mod is None or not (mname == prefix or mname.startswith(prefix + ".")):
            continue
        for k, v in list(vars(mod).items()):
            new = None
            if v is np:
                new = NP
            elif v is math:
                new = MATH
            elif isinstance(v, np.ufunc):
                new = getattr(NP, v.__name__)
            elif callable(v) and getattr(v, "__module__", None) in ("numpy",) and not isinstance(v, type):
                new = getattr(NP, getattr(v, "__name__", k), None)
            elif callable(v) and getattr(v, "__module__", None) == "math":
                new = getattr(MATH, v.__name__)
            if new is not None:
                setattr(mod, k, new)
                _patched.append((mod, k, v))


def unpatch_modules():
    while _patched:
        mod, k, v = _patched.pop()
        setattr(mod, k, v)
