"""A numpy look-alike over symbolic values.

Arrays are object-dtype ndarray subclasses (`SArr`) whose elements are `Sym`/`SymBool`
(integers and plain booleans stay concrete), so shapes, views, broadcasting, slicing and
dispatch are numpy's own; only element arithmetic, comparisons, reductions with
comparisons, masks, symbolic indices and linear algebra are replaced.
"""
import builtins
import math
import numbers
import sys

import functools

import numpy as np

from . import expr as E
from .expr import Sym, SymBool


class Unsupported(BaseException):
    """the encoding does not cover this operation"""


ENG = [None]      # current engine (for guards and concretisation)


def is_sym(x):
    return isinstance(x, (Sym, SymBool))


def _elem(x):
    """normalise one array element"""
    if isinstance(x, (Sym, SymBool, bool, int)):
        return x
    if isinstance(x, np.bool_):
        return bool(x)
    if isinstance(x, np.integer):
        return int(x)
    if isinstance(x, (float, np.floating)):
        if math.isfinite(x):
            return Sym.const(x)
        return float(x)
    if isinstance(x, np.ndarray) and x.ndim == 0:
        return _elem(x[()])
    return x


_elem_u = np.frompyfunc(_elem, 1, 1)


def wrap(a):
    """result of a numpy operation -> canonical form"""
    if isinstance(a, MaskedSel):
        return a
    if isinstance(a, np.ndarray):
        if a.dtype == object:
            if a.ndim == 0:
                return a[()]
            r = a if isinstance(a, SArr) else a.view(SArr)
            return r
        if a.dtype.kind == "f":
            return tosarr(a)
        if isinstance(a, SArr):
            return a.view(np.ndarray)
        return a
    if isinstance(a, (float, np.floating)):
        return _elem(a)
    if isinstance(a, tuple):
        return tuple(wrap(x) for x in a)
    if isinstance(a, list):
        return [wrap(x) for x in a]
    return a


def wrap_bool(a):
    """object array of truth values -> plain bool array when concrete"""
    if isinstance(a, np.ndarray) and a.dtype == object:
        if all(isinstance(x, (bool, np.bool_)) for x in a.flat):
            r = np.asarray(a, dtype=bool)
            return r if a.ndim else bool(r)
    elif isinstance(a, np.bool_):
        return bool(a)
    return wrap(a)


def tosarr(x):
    """any array-like -> SArr of canonical elements (copy)"""
    if isinstance(x, MaskedSel):
        x = x.force()
    a = np.empty((), dtype=object)
    if is_sym(x):
        a[()] = x
        return a.view(SArr)
    if isinstance(x, np.ndarray):
        o = x.view(np.ndarray) if isinstance(x, SArr) else x
        if o.ndim == 0:
            a[()] = _elem(o[()])
            return a.view(SArr)
        if o.size == 0:
            return np.empty(o.shape, dtype=object).view(SArr)
        r = _elem_u(o)
        return r.view(SArr)
    return build(x)


def shape_of(x):
    if isinstance(x, MaskedSel):
        x = x.force()
    if isinstance(x, np.ndarray):
        return x.shape
    if is_sym(x) or isinstance(x, (numbers.Number, str)) or x is None:
        return ()
    if isinstance(x, (list, tuple, range)):
        x = list(x)
        if not x:
            return (0,)
        s = shape_of(x[0])
        for y in x[1:]:
            if shape_of(y) != s:
                raise ValueError("setting an array element with a sequence. The requested array has an inhomogeneous shape")
        return (len(x),) + s
    if hasattr(x, "__array__"):
        return np.asarray(x).shape
    return ()


def build(x):
    """nested sequences with symbolic leaves -> SArr (or a plain int/bool/str array)"""
    if not isinstance(x, (list, tuple, range)):
        if isinstance(x, numbers.Number) or is_sym(x) or x is None or isinstance(x, np.generic):
            a = np.empty((), dtype=object)
            a[()] = _elem(x)
            return a.view(SArr)
        if hasattr(x, "__iter__") and not isinstance(x, (str, dict)):
            x = list(x)
        else:
            a = np.empty((), dtype=object)
            a[()] = x
            return a.view(SArr)
    shp = shape_of(x)
    a = np.empty(shp, dtype=object)

    def fill(dst, src):
        if dst.ndim == 0:
            dst[()] = _elem(src)
            return
        if isinstance(src, MaskedSel):
            src = src.force()
        if dst.ndim == 1:
            for i, y in enumerate(src):
                e = _elem(y)
                if isinstance(e, np.ndarray):
                    e = _elem(e.reshape(-1)[0])
                dst[i] = e
        else:
            for i, y in enumerate(src):
                fill(dst[i], y)
    if a.size:
        fill(a, x)
    return a.view(SArr)


def canon(a, dtype=None):
    """object SArr of only ints/bools -> plain numpy array of that type"""
    if dtype is not None and dtype_kind(dtype) == "f":
        r = a
        for i, x in enumerate(a.flat):
            if isinstance(x, (bool, int, SymBool)) and not isinstance(x, Sym):
                if r is a:
                    r = a.copy()
                r.view(np.ndarray).flat[i] = E.coerce(x)
        return r
    if dtype is not None and dtype_kind(dtype) in "iu":
        if all(not isinstance(x, Sym) or x.is_const() for x in a.flat):
            return np.array([int(x) for x in a.flat], dtype=int).reshape(a.shape)
        if all(E.is_integral(_c(x)) for x in a.flat):
            return a
        r = a.copy()
        o = r.view(np.ndarray)
        for i in np.ndindex(o.shape):
            o[i] = E.sym_trunc(_c(o[i]))
        return r
    if dtype is not None and dtype_kind(dtype) == "b":
        return wrap_bool(_tobool_u(a.view(np.ndarray)))
    if dtype is not None and dtype_kind(dtype) == "O":
        return a
    if a.size == 0:
        return a
    t = {type(x) for x in a.flat}
    if t == {bool}:
        return np.asarray(a.view(np.ndarray), dtype=bool)
    if t <= {int, bool}:
        return np.asarray(a.view(np.ndarray), dtype=int)
    if t & {str}:
        return np.asarray(a.view(np.ndarray).tolist())
    return a


_tobool_u = np.frompyfunc(E.tobool, 1, 1)
_coerce_u = np.frompyfunc(lambda x: x if isinstance(x, Sym) else E.coerce(x), 1, 1)


def dtype_kind(dt):
    if dt is None:
        return None
    if getattr(dt, "_symfloat", False) or dt is float or dt is np.floating:
        return "f"
    if getattr(dt, "_symint", False) or dt is int:
        return "i"
    if dt is bool:
        return "b"
    if dt is object:
        return "O"
    try:
        return np.dtype(dt).kind
    except TypeError:
        return "f"


def array(x, dtype=None, copy=True, ndmin=0, order=None, subok=False, **k):
    if isinstance(x, MaskedSel):
        x = x.force()
    if isinstance(x, np.ndarray) and not isinstance(x, SArr) and x.dtype.kind in "iub" and dtype_kind(dtype) not in ("f",):
        r = np.array(x)
    else:
        r = canon(tosarr(x), dtype)
    while r.ndim < ndmin:
        r = r[None]
    return r


def asarray(x, dtype=None, **k):
    if isinstance(x, SArr) and (dtype is None or dtype_kind(dtype) == "f"):
        return x
    if isinstance(x, np.ndarray) and not isinstance(x, SArr) and dtype is None and x.dtype.kind in "iub":
        return x
    return array(x, dtype)


# ------------------------------------------------------------------ element ops
def _un(f):
    def g(x):
        if not isinstance(x, Sym):
            x = E.coerce(x)
            if x is NotImplemented:
                raise Unsupported("numeric function of a non-number")
            if not isinstance(x, Sym):
                return getattr(np, f)(x).item() if hasattr(np, f) else math.nan
        return getattr(x, f)()
    return g


def _cmp(op):
    def g(a, b):
        if not isinstance(a, (Sym, SymBool)) and not isinstance(b, (Sym, SymBool)):
            r = {"<": lambda: a < b, "<=": lambda: a <= b, ">": lambda: a > b, ">=": lambda: a >= b,
                 "==": lambda: a == b, "!=": lambda: a != b}[op]()
            return bool(r) if isinstance(r, (bool, np.bool_)) else r
        if op in ("==", "!=") and (isinstance(a, (SymBool, bool)) and isinstance(b, (SymBool, bool))):
            a, b = E.tobool(a), E.tobool(b)
            r = E.bor(E.band(a, b), E.band(E.bnot(a), E.bnot(b)))
            return r if op == "==" else E.bnot(r)
        a2, b2 = E.coerce(a), E.coerce(b)
        if a2 is NotImplemented or b2 is NotImplemented:
            return op == "!="
        if not isinstance(a2, Sym):          # inf/nan on the left
            fl = {"<": ">", "<=": ">=", ">": "<", ">=": "<=", "==": "==", "!=": "!="}[op]
            a2, b2, o = b2, a2, fl
        else:
            o = op
        if o == "!=":
            return E.bnot(E.compare(a2, b2, "=="))
        return E.compare(a2, b2, o)
    return g


def _e_isnan(x):
    return not isinstance(x, (Sym, SymBool)) and isinstance(x, float) and math.isnan(x)


def _e_isinf(x):
    return not isinstance(x, (Sym, SymBool)) and isinstance(x, float) and math.isinf(x)


def _sgn(x):
    x = E.coerce(x)
    if isinstance(x, Sym):
        return x.sign()
    return math.copysign(1.0, x)


def _c(x):
    return x if isinstance(x, Sym) else E.coerce(x)


def _e_abs(x):
    if isinstance(x, int) and not isinstance(x, bool):
        return abs(x)
    return abs(_c(x))


def _e_pow(a, b):
    if isinstance(a, int) and isinstance(b, int) and not isinstance(a, bool):
        return a ** b if b >= 0 else Sym.const(a) ** b
    if isinstance(b, Sym):
        return _c(a) ** b
    return _c(a) ** b


def _e_div(a, b):
    return _c(a) / _c(b) if isinstance(_c(a), Sym) or isinstance(_c(b), Sym) else math.nan


def _e_hypot(a, b):
    return (_c(a) * _c(a) + _c(b) * _c(b)).sqrt()


def _e_arith(f):
    def g(a, b):
        if isinstance(a, SymBool):
            a = E.ind(a)
        if isinstance(b, SymBool):
            b = E.ind(b)
        r = f(a, b)
        return r
    return g


def _e_logaddexp(a, b):
    return (_c(a).exp() + _c(b).exp()).log()


def _e_arctan2(y, x):
    raise Unsupported("arctan2")


def _max(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return max(a, b)
    return E.sym_max(_c(a), _c(b))


def _min(a, b):
    if isinstance(a, int) and isinstance(b, int):
        return min(a, b)
    return E.sym_min(_c(a), _c(b))


def _and(a, b):
    return E.band(E.tobool(a), E.tobool(b))


def _or(a, b):
    return E.bor(E.tobool(a), E.tobool(b))


def _bitand(a, b):
    if isinstance(a, (SymBool, bool)) or isinstance(b, (SymBool, bool)):
        return _and(a, b)
    return a & b


def _bitor(a, b):
    if isinstance(a, (SymBool, bool)) or isinstance(b, (SymBool, bool)):
        return _or(a, b)
    return a | b


def _inv(a):
    if isinstance(a, (SymBool, bool)):
        return E.bnot(a)
    return ~a


def _xor(a, b):
    a, b = E.tobool(a), E.tobool(b)
    return E.bor(E.band(a, E.bnot(b)), E.band(E.bnot(a), b))


ELEM = {
    "less": _cmp("<"), "less_equal": _cmp("<="), "greater": _cmp(">"), "greater_equal": _cmp(">="),
    "equal": _cmp("=="), "not_equal": _cmp("!="),
    "logical_and": _and, "logical_or": _or, "logical_not": lambda a: E.bnot(E.tobool(a)), "logical_xor": _xor,
    "bitwise_and": _bitand, "bitwise_or": _bitor, "invert": _inv, "bitwise_xor": _xor,
    "maximum": _max, "minimum": _min, "fmax": _max, "fmin": _min,
    "absolute": _e_abs, "fabs": _e_abs, "sign": _sgn, "isnan": _e_isnan, "isinf": _e_isinf,
    "isfinite": lambda x: not _e_isnan(x) and not _e_isinf(x),
    "power": _e_pow, "float_power": _e_pow, "true_divide": _e_div, "divide": _e_div,
    "square": lambda x: x * x if isinstance(x, int) else _c(x) * _c(x), "reciprocal": lambda x: 1 / _c(x),
    "negative": lambda x: -(E.ind(x) if isinstance(x, SymBool) else x), "positive": lambda x: x,
    "exp2": lambda x: E.power(Sym.const(2), _c(x)), "cbrt": lambda x: _c(x) ** E.Fraction(1, 3),
    "deg2rad": lambda x: _c(x) * (math.pi / 180), "radians": lambda x: _c(x) * (math.pi / 180),
    "rad2deg": lambda x: _c(x) * (180 / math.pi), "degrees": lambda x: _c(x) * (180 / math.pi),
    "hypot": _e_hypot, "logaddexp": _e_logaddexp, "arctan2": _e_arctan2,
    "add": _e_arith(lambda a, b: a + b), "subtract": _e_arith(lambda a, b: a - b),
    "multiply": _e_arith(lambda a, b: a * b),
    "conjugate": lambda x: x, "copysign": lambda x, y: E.ite(E.compare(_c(y), 0, "<"), -abs(_c(x)), abs(_c(x))),
    "floor": lambda x: E.sym_floor(_c(x)), "ceil": lambda x: -E.sym_floor(-_c(x)), "rint": lambda x: E.sym_round(_c(x)), "trunc": lambda x: E.sym_trunc(_c(x)),
    "remainder": lambda x, y: _c(x) - E.sym_floor(_c(x) / y) * y, "mod": lambda x, y: _c(x) - E.sym_floor(_c(x) / y) * y, "floor_divide": lambda x, y: E.sym_floor(_c(x) / y),
    "heaviside": lambda x, h: E.ite(_c(x) > 0, E.UNIT, E.ite(E.compare(_c(x), 0, "=="), _c(h), E.ZERO)),
}
for _f in ("exp", "log", "log10", "log2", "log1p", "expm1", "sqrt", "sin", "cos", "tan", "tanh", "sinh", "cosh", "arctan"):
    ELEM[_f] = _un(_f)
BOOLISH = {"less", "less_equal", "greater", "greater_equal", "equal", "not_equal", "logical_and", "logical_or",
           "logical_not", "logical_xor", "bitwise_and", "bitwise_or", "invert", "isnan", "isinf", "isfinite", "bitwise_xor"}
_PYF = {}


def pyf(name, nin):
    f = _PYF.get(name)
    if f is None:
        ident = {"add": 0, "multiply": 1, "logical_and": True, "logical_or": False, "bitwise_or": False, "bitwise_and": True}
        if name in ident:
            f = np.frompyfunc(ELEM[name], nin, 1, identity=ident[name])
        else:
            f = np.frompyfunc(ELEM[name], nin, 1)
        _PYF[name] = f
    return f


def plain(x):
    if isinstance(x, SArr):
        return x.view(np.ndarray)
    if is_sym(x):
        a = np.empty((), dtype=object)
        a[()] = x
        return a
    if isinstance(x, np.ndarray):
        if x.dtype == object:
            return x
        if x.dtype.kind == "f":
            return _elem_u(x) if x.ndim else plain(_elem(x[()]))
        return x.astype(object)
    if isinstance(x, (list, tuple)):
        return plain(tosarr(x))
    if isinstance(x, np.generic):
        x = x.item()
    a = np.empty((), dtype=object)
    a[()] = _elem(x)
    return a


def handle_ufunc(ufunc, method, inputs, kw):
    kw = dict(kw)
    out = kw.pop("out", None)
    if any(isinstance(x, MaskedSel) for x in inputs):
        return MaskedSel.ufunc(ufunc, method, inputs, kw)
    name = ufunc.__name__
    kw.pop("dtype", None)
    kw.pop("casting", None)
    kw.pop("order", None)
    kw.pop("subok", None)
    w = kw.pop("where", True)
    if method == "at":
        raise Unsupported("ufunc.at")
    ins = [plain(x) if i == 0 or method in ("__call__", "outer") else x for i, x in enumerate(inputs)]
    if name in ("vecdot", "vecmat", "matvec"):
        if name == "vecdot":
            return (wrap(ins[0]) * wrap(ins[1])).sum(axis=-1)
        raise Unsupported("numpy.%s on symbolic values" % name)
    if name == "matmul":
        return product(np.asarray(ins[0]), np.asarray(ins[1]), np.matmul)
    elif name in ELEM:
        f = pyf(name, ufunc.nin)
        if method == "reduce":
            if name in ("add", "multiply") and ins[0].size and kw.get("initial", None) is None:
                kw.pop("initial", None)
            if kw.get("initial", 0) is np._NoValue:
                kw.pop("initial")
            if name in ("maximum", "minimum"):
                return _minmax_reduce(ins[0], name, kw)
            res = f.reduce(ins[0], **kw)
            if name == "add":
                res = known_sums(ins[0], kw, res)
        elif method == "__call__":
            res = f(*ins)
        else:
            res = getattr(f, method)(*ins, **kw)
    elif method == "__call__":
        raise Unsupported("numpy ufunc %s on symbolic values" % name)
    else:
        raise Unsupported("numpy ufunc %s.%s" % (name, method))
    if w is not True:
        base = out[0] if out else None
        if base is None:
            raise Unsupported("where= without out=")
        res = where(w, wrap(res), base)
    if out is not None:
        o = out[0] if isinstance(out, tuple) else out
        if not isinstance(o, SArr):
            if isinstance(o, np.ndarray) and o.dtype.kind in "fiub":
                raise Unsupported("in-place update of a concrete array with symbolic values")
        np.ndarray.__setitem__(o, Ellipsis, res if not isinstance(res, SArr) else res.view(np.ndarray))
        return o
    return wrap_bool(res) if name in BOOLISH else wrap(res)


def put_out(out, r):
    o = out[0] if isinstance(out, tuple) else out
    if not isinstance(o, SArr) and any(is_sym(x) for x in np.asarray(r, dtype=object).flat):
        raise Unsupported("in-place update of a concrete array with symbolic values")
    np.ndarray.__setitem__(o, Ellipsis, r.view(np.ndarray) if isinstance(r, SArr) else r)
    return o


def with_out(f):
    @functools.wraps(f)
    def g(*a, out=None, **k):
        r = f(*a, **k)
        return r if out is None else put_out(out, r)
    return g


E.UFUNC[0] = handle_ufunc
E.MKARR[0] = tosarr


def truth(c):
    """fork on a condition"""
    return bool(c)


def pick_extreme(vals, kind, arg):
    """index of the first extreme element, decided by forking on comparisons"""
    best = 0
    for i in range(1, len(vals)):
        a, b = vals[i], vals[best]
        if _e_isnan(b):
            return best
        if _e_isnan(a):
            return i
        c = ELEM["less"](a, b) if kind == "min" else ELEM["greater"](a, b)
        if truth(c):
            best = i
    return best


def _along(a, axis, keepdims, fn):
    """apply fn(list)->element along axis (None: all)"""
    if axis is None:
        r = fn(list(a.flat))
        if keepdims:
            o = np.empty((1,) * a.ndim, dtype=object)
            o[...] = r
            return o.view(SArr)
        return r
    if isinstance(axis, tuple):
        if len(axis) == a.ndim:
            return _along(a, None, keepdims, fn)
        if len(axis) == 1:
            axis = axis[0]
        else:
            raise Unsupported("reduction over several axes")
    axis = axis % a.ndim if -a.ndim <= axis < a.ndim else _axerr(axis, a.ndim)
    m = np.moveaxis(a, axis, -1)
    o = np.empty(m.shape[:-1], dtype=object)
    for idx in np.ndindex(*m.shape[:-1]):
        o[idx] = fn(list(m[idx]))
    if keepdims:
        o = np.expand_dims(o, axis)
    return wrap(canon(o.view(SArr))) if o.ndim else o[()]


def _axerr(axis, nd):
    raise np.exceptions.AxisError(axis, nd)


def _minmax_reduce(a, name, kw):
    kind = "max" if name == "maximum" else "min"

    def f(v):
        if not v:
            raise ValueError("zero-size array to reduction operation %s which has no identity" % name)
        return v[pick_extreme(v, kind, False)]
    return _along(a, kw.get("axis", 0), bool(kw.get("keepdims", False)), f)


# ------------------------------------------------------------------ masks and index sets
def _has_symbool(a):
    return isinstance(a, SymBool) or (isinstance(a, np.ndarray) and a.dtype == object and any(isinstance(x, SymBool) for x in a.flat))


def _is_mask(a):
    return isinstance(a, SArr) and a.size > 0 and all(isinstance(x, (SymBool, bool)) for x in a.flat)


class IndexSel:
    """np.where(cond)[k]: the k-th coordinate of the positions where cond holds"""

    def __init__(self, conds, idx):
        self.conds, self.idx = conds, idx
        self._f = None

    def force(self):
        if self._f is None:
            self._f = np.array([i for c, i in zip(self.conds, self.idx) if truth(c)], dtype=int)
        return self._f

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        if n == "size":
            return _count(self.conds)
        return getattr(self.force(), n)

    def __len__(self):
        return len(self.force())

    def __iter__(self):
        return iter(self.force())

    def __getitem__(self, k):
        return self.force()[k]

    def __array__(self, dtype=None, copy=None):
        return self.force()


def _count(conds):
    n = E.ZERO
    for c in conds:
        n = n + E.ind(c)
    return int(n.cval()) if n.is_const() else n


class MaskedSel:
    """a[mask] with a symbolic mask: the items whose condition holds, in order"""
    __array_priority__ = 2e6

    def __init__(self, conds, items, item_shape):
        self.conds, self.items, self.item_shape = conds, items, item_shape
        self._f = None

    def force(self):
        if self._f is None:
            keep = [x for c, x in zip(self.conds, self.items) if truth(c)]
            o = np.empty((len(keep),) + self.item_shape, dtype=object)
            for i, x in enumerate(keep):
                o[i] = plain(x) if self.item_shape else x
            self._f = o.view(SArr)
        return self._f

    @staticmethod
    def ufunc(ufunc, method, inputs, kw):
        ms = [x for x in inputs if isinstance(x, MaskedSel)]
        conds = ms[0].conds
        same = all(len(m.conds) == len(conds) and all(_samec(a, b) for a, b in zip(m.conds, conds)) for m in ms)
        others = [x for x in inputs if not isinstance(x, MaskedSel)]
        scal = all(np.ndim(plain(o)) == 0 or plain(o).shape == ms[0].item_shape and ms[0].item_shape for o in others)
        if method == "__call__" and same and scal and all(m.item_shape == ms[0].item_shape for m in ms):
            out = []
            for i, c in enumerate(conds):
                args = [m.items[i] if isinstance(m, MaskedSel) else m for m in inputs]
                if c is False:
                    out.append(ms[0].items[i])
                    continue
                with ENG[0].guard(c):
                    out.append(handle_ufunc(ufunc, "__call__", tuple(args), dict(kw)))
            return MaskedSel(conds, out, ms[0].item_shape)
        ins = tuple(x.force() if isinstance(x, MaskedSel) else x for x in inputs)
        return handle_ufunc(ufunc, method, ins, kw)

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return MaskedSel.ufunc(ufunc, method, inputs, {k: v for k, v in kw.items() if k != "out"})

    def _bin(self, name, o, rev=False):
        uf_ = getattr(np, name)
        return MaskedSel.ufunc(uf_, "__call__", (o, self) if rev else (self, o), {})

    def __add__(self, o): return self._bin("add", o)
    def __radd__(self, o): return self._bin("add", o, True)
    def __sub__(self, o): return self._bin("subtract", o)
    def __rsub__(self, o): return self._bin("subtract", o, True)
    def __mul__(self, o): return self._bin("multiply", o)
    def __rmul__(self, o): return self._bin("multiply", o, True)
    def __truediv__(self, o): return self._bin("true_divide", o)
    def __rtruediv__(self, o): return self._bin("true_divide", o, True)
    def __pow__(self, o): return self._bin("power", o)
    def __lt__(self, o): return self._bin("less", o)
    def __le__(self, o): return self._bin("less_equal", o)
    def __gt__(self, o): return self._bin("greater", o)
    def __ge__(self, o): return self._bin("greater_equal", o)
    def __neg__(self): return MaskedSel.ufunc(np.negative, "__call__", (self,), {})
    def __abs__(self): return MaskedSel.ufunc(np.absolute, "__call__", (self,), {})

    def copy(self):
        return self

    @property
    def size(self):
        return _count(self.conds) * (int(np.prod(self.item_shape)) if self.item_shape else 1)

    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        return getattr(self.force(), n)

    def __len__(self):
        return len(self.force())

    def __iter__(self):
        return iter(self.force())

    def __getitem__(self, k):
        return self.force()[k]

    def __array__(self, dtype=None, copy=None):
        return np.asarray(self.force())


def _samec(a, b):
    if isinstance(a, SymBool) and isinstance(b, SymBool):
        return a.key == b.key
    return a is b


def _norm_key(key):
    """object-dtype integer / boolean index arrays -> plain arrays; 0-d objects -> ints"""
    def one(k):
        if isinstance(k, SArr):
            c = canon(k)
            if not isinstance(c, SArr):
                return c
            if all(isinstance(x, Sym) and x.is_const() or isinstance(x, int) for x in k.flat) and k.size:
                return np.array([int(x) for x in k.flat]).reshape(k.shape)
            return k
        if isinstance(k, Sym) and k.is_const():
            return int(k)
        if isinstance(k, list):
            return one(array(k)) if k else np.array([], dtype=int)
        return k
    if isinstance(key, tuple):
        return tuple(one(k) for k in key)
    return one(key)


def _special_key(key):
    ks = key if isinstance(key, tuple) else (key,)
    for k in ks:
        if isinstance(k, (IndexSel, Sym, SymBool)):
            return True
        if isinstance(k, SArr):
            return True
    return False


class SArr(np.ndarray):
    __array_priority__ = 1e5

    def __array_ufunc__(self, ufunc, method, *inputs, **kw):
        return handle_ufunc(ufunc, method, inputs, kw)

    def __array_wrap__(self, a, context=None, return_scalar=False):
        return wrap(a)

    # -- indexing
    def __getitem__(self, key):
        key = _norm_key(key)
        if _special_key(key):
            return get_special(self, key)
        r = np.ndarray.__getitem__(self, key)
        return r

    def __setitem__(self, key, value):
        key = _norm_key(key)
        if _special_key(key):
            return set_special(self, key, value)
        if isinstance(value, MaskedSel):
            value = value.force()
        if isinstance(value, np.ndarray) and value.dtype != object:
            value = plain(value)
        elif isinstance(value, (list, tuple)):
            value = plain(tosarr(value))
        elif not isinstance(value, np.ndarray):
            value = _elem(value)
            if value.__class__ is Sym or isinstance(value, SymBool):
                value = plain(value)
        if isinstance(value, SArr):
            value = value.view(np.ndarray)
        tgt = self.view(np.ndarray)
        if isinstance(value, np.ndarray) and value.ndim:
            try:
                cur = tgt[key]
            except IndexError:
                raise
            if not isinstance(cur, np.ndarray):
                if value.size != 1:
                    raise ValueError("setting an array element with a sequence.")
                tgt[key] = value.reshape(-1)[0]
                return
        elif isinstance(value, np.ndarray):
            v = value[()]
            cur = tgt[key]
            if isinstance(cur, np.ndarray):
                tgt[key] = value
            else:
                tgt[key] = v
            return
        tgt[key] = value

    # -- reductions and methods that need comparisons or numbers
    def min(self, axis=None, out=None, keepdims=False, **k):
        return _minmax_reduce(self.view(np.ndarray), "minimum", {"axis": axis, "keepdims": keepdims})

    def max(self, axis=None, out=None, keepdims=False, **k):
        return _minmax_reduce(self.view(np.ndarray), "maximum", {"axis": axis, "keepdims": keepdims})

    def argmin(self, axis=None, out=None, keepdims=False):
        return _arg(self, axis, "min")

    def argmax(self, axis=None, out=None, keepdims=False):
        return _arg(self, axis, "max")

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return handle_ufunc(np.add, "reduce", (self,), {"axis": axis, "keepdims": keepdims})

    def prod(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        return handle_ufunc(np.multiply, "reduce", (self,), {"axis": axis, "keepdims": keepdims})

    def cumsum(self, axis=None, dtype=None, out=None):
        a = self.ravel() if axis is None else self
        return handle_ufunc(np.add, "accumulate", (a,), {"axis": axis or 0})

    def mean(self, axis=None, dtype=None, out=None, keepdims=False, **k):
        n = _axsize(self, axis)
        return self.sum(axis=axis, keepdims=keepdims) / Sym.const(n)

    def var(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
        n = _axsize(self, axis)
        d = self - self.mean(axis=axis, keepdims=True)
        return handle_ufunc(np.add, "reduce", (d * d,), {"axis": axis, "keepdims": keepdims}) / Sym.const(n - ddof)

    def std(self, axis=None, dtype=None, out=None, ddof=0, keepdims=False, **k):
        v = self.var(axis=axis, ddof=ddof, keepdims=keepdims)
        return handle_ufunc(np.sqrt, "__call__", (v,), {})

    def ptp(self, axis=None, **k):
        return self.max(axis=axis) - self.min(axis=axis)

    def any(self, axis=None, out=None, keepdims=False, **k):
        return _along_bool(self, axis, keepdims, E.bor)

    def all(self, axis=None, out=None, keepdims=False, **k):
        return _along_bool(self, axis, keepdims, E.band)

    def sort(self, axis=-1, **k):
        a = np.moveaxis(self.view(np.ndarray), axis, -1)
        for idx in np.ndindex(*a.shape[:-1]):
            v = list(a[idx])
            o = sort_order(v)
            for j, i in enumerate(o):
                a[idx + (j,)] = v[i]

    def argsort(self, axis=-1, **k):
        a = self.view(np.ndarray)
        if axis is None:
            a, axis = a.reshape(-1), -1
        m = np.moveaxis(a, axis, -1)
        o = np.empty(m.shape, dtype=int)
        for idx in np.ndindex(*m.shape[:-1]):
            o[idx] = sort_order(list(m[idx]))
        return np.moveaxis(o, -1, axis)

    def take(self, idx, axis=None, **k):
        return take(self, idx, axis)

    def compress(self, c, axis=None, **k):
        return self.ravel()[array(c)] if axis is None else self[(slice(None),) * axis + (array(c),)]

    def clip(self, min=None, max=None, out=None, **k):
        r = self
        if min is not None:
            r = handle_ufunc(np.maximum, "__call__", (r, min), {})
        if max is not None:
            r = handle_ufunc(np.minimum, "__call__", (r, max), {})
        return r

    def astype(self, dtype, *a, **k):
        kd = dtype_kind(dtype)
        if kd == "f":
            return canon(self.copy(), float)
        if kd == "b":
            return wrap_bool(_tobool_u(self.view(np.ndarray)))
        if kd in "iu":
            return canon(self, int)
        return self.copy()

    def round(self, decimals=0, *a, **k):
        return np_round(self, decimals)

    def dot(self, o):
        return dot(self, o)

    def conj(self):
        return self

    conjugate = conj

    def nonzero(self):
        return where(self)

    def flatten(self, *a, **k):
        return np.ndarray.flatten(self, *a, **k)

    def trace(self, *a, **k):
        return self.diagonal().sum()

    def fill(self, v):
        self[...] = v

    def __bool__(self):
        if self.size == 1:
            x = self.view(np.ndarray).reshape(-1)[0]
            return bool(E.tobool(x)) if not isinstance(x, float) else bool(x)
        if self.size == 0:
            return False
        raise ValueError("The truth value of an array with more than one element is ambiguous. Use a.any() or a.all()")

    def _scalar(self):
        if self.size != 1:
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        return self.view(np.ndarray).reshape(-1)[0]

    def __float__(self):
        return float(self._scalar())

    def __int__(self):
        return int(self._scalar())

    def __index__(self):
        if self.ndim:
            raise TypeError("only integer scalar arrays can be converted to a scalar index")
        return int(self._scalar())

    def __contains__(self, v):
        return bool(handle_ufunc(np.equal, "__call__", (self, v), {}).any())

    def __format__(self, spec):
        return "<array>"

    def __repr__(self):
        return "SArr(%s)" % (self.view(np.ndarray).tolist(),)

    __str__ = __repr__

    def __reduce__(self):
        return (tosarr, (self.view(np.ndarray),))

    def __deepcopy__(self, memo):
        return self.copy()

    @property
    def real(self):
        return self

    @property
    def dtype(self):
        # the code under check sees the dtype the concrete array would have;
        # everyone else the object dtype of the storage
        if sys._getframe(1).f_builtins.get("__symbolic_module__"):
            return SDtype(self)
        return _OBJ


_OBJ = np.dtype(object)


class SDtype:
    def __init__(self, a):
        els = list(a.flat)
        if els and all(isinstance(x, (SymBool, builtins.bool, np.bool_)) for x in els):
            k, t = "b", np.dtype(builtins.bool)
        elif els and all(isinstance(x, builtins.int) or (isinstance(x, Sym) and not x.is_const() and is_intsym(x)) for x in els):
            k, t = "i", np.dtype(builtins.int)
        else:
            k, t = "f", np.dtype(builtins.float)
        self.kind, self.dtype = k, t

    def __getattr__(self, n):
        if n.startswith("__") or n in ("dtype", "kind"):
            raise AttributeError(n)
        return getattr(self.dtype, n)

    def __eq__(self, o):
        return dtype_kind(o) == self.kind if o is not None else self.kind == "f"

    def __hash__(self):
        return hash(self.dtype)

    def __repr__(self):
        return repr(self.dtype)


def _axsize(a, axis):
    if axis is None:
        return a.size
    if isinstance(axis, tuple):
        return int(np.prod([a.shape[i] for i in axis]))
    return a.shape[axis]


def _arg(a, axis, kind):
    def f(v):
        if not v:
            raise ValueError("attempt to get arg%s of an empty sequence" % kind)
        return pick_extreme(v, kind, True)
    r = _along(a.view(np.ndarray), axis, False, f)
    return r


def _along_bool(a, axis, keepdims, comb):
    r = _along(a.view(np.ndarray), axis, keepdims, lambda v: comb(*[E.tobool(x) for x in v]) if v else (comb is E.band))
    return wrap_bool(r) if isinstance(r, np.ndarray) else r


def sort_order(v):
    o = []
    for i in range(len(v)):
        j = len(o)
        while j > 0 and truth(ELEM["less"](v[i], v[o[j - 1]])):
            j -= 1
        o.insert(j, i)
    return o


def _mask_conds(m):
    return [E.tobool(x) for x in m.flat]


def get_special(a, key):
    ks = list(key) if isinstance(key, tuple) else [key]
    # full-shape boolean mask
    if len(ks) == 1 and isinstance(ks[0], SymBool):
        return MaskedSel([ks[0]], [wrap(a.view(np.ndarray)[...]) if a.ndim else a[()]], a.shape)
    if len(ks) == 1 and _is_mask(ks[0]):
        m = ks[0]
        if m.shape == a.shape:
            return MaskedSel(_mask_conds(m), list(a.view(np.ndarray).flat), ())
        if m.ndim == 1 and m.shape[0] == a.shape[0]:
            return MaskedSel(_mask_conds(m), [wrap(x) for x in a.view(np.ndarray)], a.shape[1:])
        raise IndexError("boolean index did not match indexed array")
    # a[mask, ...] or a[IndexSel, ...]
    if ks and _is_mask(ks[0]) and isinstance(ks[0], SArr) and ks[0].ndim == 1:
        ks[0] = IndexSel(_mask_conds(ks[0]), list(range(len(ks[0]))))
    sel = [i for i, k in enumerate(ks) if isinstance(k, IndexSel)]
    if sel:
        conds = ks[sel[0]].conds
        if all(len(ks[i].conds) == len(conds) and all(_samec(x, y) for x, y in zip(ks[i].conds, conds)) for i in sel):
            if not any(isinstance(k, (Sym, SArr)) for k in ks) and _sel_front(ks, sel):
                items = []
                for p in range(len(conds)):
                    kk = tuple(ks[i].idx[p] if i in sel else k for i, k in enumerate(ks))
                    items.append(wrap(a.view(np.ndarray)[kk]) if isinstance(a.view(np.ndarray)[kk], np.ndarray) else a.view(np.ndarray)[kk])
                shp = items[0].shape if items and isinstance(items[0], np.ndarray) else ()
                return MaskedSel(conds, items, shp)
        ks = [k.force() if isinstance(k, IndexSel) else k for k in ks]
        return a[tuple(ks)]
    # masks combined with other keys: fork
    if any(isinstance(k, SymBool) or _is_mask(k) for k in ks):
        ks = [np.array([truth(c) for c in k.flat]).reshape(k.shape) if isinstance(k, SArr) else (truth(k) if isinstance(k, SymBool) else k) for k in ks]
        return a[tuple(ks)]
    # symbolic integer indices
    for pos, k in enumerate(ks):
        if isinstance(k, Sym):
            ax = _axis_of(a, ks, pos)
            n = a.shape[ax]
            in_range(k, n)
            out = None
            for v in range(n):
                kk = tuple(ks[:pos] + [v] + ks[pos + 1:])
                x = a[kk]
                c = E.compare(k, v, "==")
                out = x if out is None else where(c, x, out)
            return out
        if isinstance(k, SArr):
            parts = [a[tuple(ks[:pos] + [kx] + ks[pos + 1:])] for kx in k.flat]
            nb = sum(1 for q in ks[:pos] if not isinstance(q, (int, Sym)))
            if pos and nb:
                st = stack(parts, axis=nb)
                return st
            st = stack(parts)
            return st.reshape(k.shape + st.shape[1:])
    raise Unsupported("index %r" % (key,))


def _sel_front(ks, sel):
    # selected coordinates lead, or everything besides them is an integer
    rest = [k for i, k in enumerate(ks) if i not in sel]
    return sel[0] == 0 and sel == list(range(len(sel))) or all(isinstance(k, (int, np.integer)) for k in rest)


def _axis_of(a, ks, pos):
    if Ellipsis in [k for k in ks if not isinstance(k, (np.ndarray, Sym))]:
        raise Unsupported("symbolic index with Ellipsis")
    return sum(1 for k in ks[:pos] if k is not None)


def in_range(k, n):
    ok = E.band(E.compare(k, 0, ">="), E.compare(k, n - 1, "<="))
    if not truth(ok):
        raise IndexError("index out of bounds")


def _put(a, kk, cond, value):
    base = a.view(np.ndarray)
    cur = base[kk]
    if isinstance(cur, np.ndarray):
        v = np.broadcast_to(plain(value), cur.shape)
        o = np.empty(cur.shape, dtype=object)
        for i in np.ndindex(*cur.shape):
            o[i] = E.ite(cond, v[i], cur[i])
        base[kk] = o
    else:
        v = value
        if isinstance(v, np.ndarray):
            v = v.reshape(-1)[0] if v.size == 1 else v
        base[kk] = E.ite(cond, _elem(v), cur)


def set_special(a, key, value):
    ks = list(key) if isinstance(key, tuple) else [key]
    if len(ks) == 1 and isinstance(ks[0], SymBool):
        if isinstance(value, MaskedSel):
            value = value.items[0]
        _put(a, Ellipsis, ks[0], value)
        return
    if len(ks) == 1 and _is_mask(ks[0]):
        m = ks[0]
        if m.shape == a.shape:
            pos = list(np.ndindex(*a.shape))
        elif m.ndim == 1 and m.shape[0] == a.shape[0]:
            pos = [(i,) for i in range(a.shape[0])]
        else:
            raise IndexError("boolean index did not match indexed array")
        return _set_positions(a, _mask_conds(m), pos, value)
    if ks and _is_mask(ks[0]) and ks[0].ndim == 1:
        ks[0] = IndexSel(_mask_conds(ks[0]), list(range(len(ks[0]))))
    sel = [i for i, k in enumerate(ks) if isinstance(k, IndexSel)]
    if sel:
        conds = ks[sel[0]].conds
        if not any(isinstance(k, (Sym, SArr)) for k in ks) and all(
                len(ks[i].conds) == len(conds) and all(_samec(x, y) for x, y in zip(ks[i].conds, conds)) for i in sel) and _sel_front(ks, sel):
            pos = [tuple(ks[i].idx[p] if i in sel else k for i, k in enumerate(ks)) for p in range(len(conds))]
            return _set_positions(a, conds, pos, value)
        ks = [k.force() if isinstance(k, IndexSel) else k for k in ks]
        a[tuple(ks)] = value
        return
    if any(isinstance(k, SymBool) or _is_mask(k) for k in ks):
        ks = [np.array([truth(c) for c in k.flat]).reshape(k.shape) if isinstance(k, SArr) else (truth(k) if isinstance(k, SymBool) else k) for k in ks]
        a[tuple(ks)] = value
        return
    for p, k in enumerate(ks):
        if isinstance(k, Sym):
            n = a.shape[_axis_of(a, ks, p)]
            in_range(k, n)
            if any(isinstance(q, Sym) for q in ks[p + 1:]):
                ks[p] = int(k)
                a[tuple(ks)] = value
                return
            for v in range(n):
                _put(a, tuple(ks[:p] + [v] + ks[p + 1:]), E.compare(k, v, "=="), value)
            return
        if isinstance(k, SArr):
            k2 = np.array([int(x) for x in k.flat]).reshape(k.shape)
            a[tuple(ks[:p] + [k2] + ks[p + 1:])] = value
            return
    raise Unsupported("index %r" % (key,))


def _set_positions(a, conds, pos, value):
    if isinstance(value, MaskedSel):
        if len(value.conds) == len(conds) and all(_samec(x, y) for x, y in zip(value.conds, conds)):
            for c, p, v in zip(conds, pos, value.items):
                _put(a, p, c, v)
            return
        value = value.force()
    if isinstance(value, np.ndarray) and value.ndim:
        item = a.view(np.ndarray)[pos[0]]
        ish = item.shape if isinstance(item, np.ndarray) else ()
        if value.ndim <= len(ish) or value.shape[0] == 1:
            v = value if value.ndim <= len(ish) else (value[0] if ish else value.reshape(-1)[0])
            for c, p in zip(conds, pos):
                _put(a, p, c, v)
            return
        # one row per selected position: fork
        idx = [p for c, p in zip(conds, pos) if truth(c)]
        if len(idx) != value.shape[0]:
            raise ValueError("NumPy boolean array indexing assignment cannot assign %d input values" % value.shape[0])
        for p, v in zip(idx, value):
            a[p] = v
        return
    for c, p in zip(conds, pos):
        _put(a, p, c, value)


# ------------------------------------------------------------------ functions
def A(x):
    return x if isinstance(x, (SArr,)) else tosarr(x) if not (isinstance(x, np.ndarray) and x.dtype.kind in "iub") else x


def where(c, *xy):
    if not xy:
        if isinstance(c, MaskedSel):
            c = c.force()
        if isinstance(c, IndexSel):
            c = c.force()
        ca = c if isinstance(c, np.ndarray) else tosarr(c)
        if not isinstance(ca, SArr):
            return np.where(ca)
        conds = [E.tobool(x) for x in ca.flat]
        if all(isinstance(x, bool) for x in conds):
            return np.where(np.array(conds).reshape(ca.shape))
        pos = list(np.ndindex(*ca.shape))
        live = [(cc, p) for cc, p in zip(conds, pos) if cc is not False]
        cs = [cc for cc, _ in live]
        return tuple(IndexSel(cs, [p[d] for _, p in live]) for d in range(ca.ndim))
    x, y = xy
    f = np.frompyfunc(E.ite, 3, 1)
    r = f(plain(c) if not isinstance(c, MaskedSel) else plain(c.force()), plain(x), plain(y))
    return wrap(canon_mixed(r))


def canon_mixed(r):
    return r


def select(condlist, choicelist, default=0):
    r = default
    for c, x in reversed(list(zip(condlist, choicelist))):
        r = where(c, x, r)
    return r


def dot(a, b):
    a, b = A(a), A(b)
    return product(a, b, np.dot)


MATHOOK = [None]      # known values of entries of a matrix product
SUMHOOK = [None]      # known values of sums


def known_sums(a, kw, res):
    """the entries of a sum along one axis (res) that are known quadratic forms replaced"""
    ax = kw.get("axis", 0)
    if SUMHOOK[0] is None or not isinstance(a, np.ndarray) or a.ndim not in (1, 2) or kw.get("where") is not None:
        return res
    if isinstance(ax, tuple):
        if len(ax) != 1:
            return res
        ax = ax[0]
    if ax is None:
        if a.ndim != 1:
            return res
        ax = 0
    if a.ndim == 1:
        v = SUMHOOK[0](list(a))
        if v is None:
            return res
        return np.array([v], dtype=object) if isinstance(res, np.ndarray) and res.ndim else v
    b = np.moveaxis(a, ax, 0)
    for j in range(b.shape[1]):
        v = SUMHOOK[0](list(b[:, j]))
        if v is not None and isinstance(res, np.ndarray):
            res.reshape(-1)[j] = v
    return res


def product(a, b, fn):
    pa, pb = plain(a), plain(b)
    r = wrap(fn(pa, pb))
    if MATHOOK[0] is not None and pa.ndim == 2 and pb.ndim in (1, 2) and isinstance(r, np.ndarray) and r.dtype == object:
        MATHOOK[0](pa, pb, r.view(np.ndarray))
    return naming(r)


def naming(r):
    """results of many terms become named values"""
    if E.NAMING[0]:
        if isinstance(r, np.ndarray) and r.dtype == object:
            o = r.view(np.ndarray)
            for i in np.ndindex(o.shape):
                o[i] = E.named(o[i])
        elif isinstance(r, Sym):
            r = E.named(r)
    return r


def matmul(a, b):
    return product(A(a), A(b), np.matmul)


def stack(xs, axis=0, **k):
    return wrap(np.stack([plain(A(x)) for x in xs], axis=axis)) if any(isinstance(A(x), SArr) for x in xs) else np.stack([A(x) for x in xs], axis=axis)


def _joiner(fn):
    def g(xs, *a, **k):
        k.pop("dtype", None)
        xs = [x.force() if isinstance(x, MaskedSel) else x for x in xs]
        ys = [A(x) for x in xs]
        if any(isinstance(y, SArr) for y in ys):
            return wrap(fn([plain(y) for y in ys], *a, **k))
        return fn(ys, *a, **k)
    return g


def append(a, v, axis=None):
    return _joiner(np.concatenate)([A(a).ravel(), A(v).ravel()]) if axis is None else _joiner(np.concatenate)([a, v], axis=axis)


def filled(shape, v):
    if isinstance(shape, Sym):
        shape = int(shape)
    if isinstance(shape, (list, tuple)):
        shape = tuple(int(s) for s in shape)
    a = np.empty(shape, dtype=object)
    a[...] = v
    if a.ndim == 0:
        return a[()]
    return a.view(SArr)


def zeros(shape, dtype=None, **k):
    if dtype_kind(dtype) in ("i", "b", "u"):
        return np.zeros(shape, dtype=int if dtype_kind(dtype) != "b" else bool)
    return filled(shape, E.ZERO)


def ones(shape, dtype=None, **k):
    if dtype_kind(dtype) in ("i", "b", "u"):
        return np.ones(shape, dtype=int if dtype_kind(dtype) != "b" else bool)
    return filled(shape, E.UNIT)


def empty(shape, dtype=None, **k):
    # uninitialised memory: an arbitrary value
    if dtype_kind(dtype) in ("i", "b", "u"):
        return np.zeros(shape, dtype=int)
    a = filled(shape, E.ZERO)
    for i in np.ndindex(*np.shape(a)):
        a.view(np.ndarray)[i] = ENG[0].fresh("uninit")
    return a


def full(shape, v, dtype=None, **k):
    if isinstance(v, np.ndarray) and v.ndim:
        return wrap(np.broadcast_to(plain(v), shape).copy())
    if isinstance(v, (bool, np.bool_)):
        return np.full(shape, v)
    e = _elem(v)
    if isinstance(e, int) and dtype_kind(dtype) != "f":
        return np.full(shape, e)
    return filled(shape, E.coerce(e) if isinstance(e, int) else e)


def eye(n, m=None, k=0, dtype=None, **kw):
    r = np.eye(n, m, k)
    return tosarr(r) if dtype_kind(dtype) not in ("i", "b") else np.eye(n, m, k, dtype=int)


def like(fn):
    def g(a, dtype=None, **k):
        a = A(a)
        if dtype is None and not isinstance(a, SArr):
            return fn(a.shape, dtype=a.dtype)
        return fn(a.shape, dtype)
    return g


def linspace(a, b, num=50, endpoint=True, **k):
    n = num - 1 if endpoint else num
    a, b = E.coerce(_elem(a)), E.coerce(_elem(b))
    return build([a + (b - a) * E.Fraction(i, n) if n else a for i in range(num)])


def arange(*a, **k):
    r = np.arange(*[x if isinstance(x, int) else (float(x) if not isinstance(x, Sym) else (int(x) if x.cval().denominator == 1 else float(x))) for x in a], **{q: v for q, v in k.items() if q != "dtype"})
    if dtype_kind(k.get("dtype")) == "f" or r.dtype.kind == "f":
        return tosarr(r.astype(float))
    return r


def atleast(n, x):
    a = asarray(x)
    if n >= 1 and a.ndim == 0:
        a = a.reshape(1)
    if n >= 2 and a.ndim == 1:
        a = a[None, :]
    if n >= 3 and a.ndim == 2:
        a = a[:, :, None]
    return a


def _multi(n):
    def g(*xs):
        r = [atleast(n, x) for x in xs]
        return r[0] if len(r) == 1 else tuple(r)
    return g


def red(name):
    def g(a, axis=None, *args, **k):
        if isinstance(a, (list, tuple)):
            a = array(a)
        if isinstance(a, MaskedSel):
            a = a.force()
        if is_sym(a) or isinstance(a, numbers.Number):
            a = tosarr(a)
        k = {q: v for q, v in k.items() if q in ("keepdims", "ddof") and v is not np._NoValue}
        if not isinstance(a, SArr):
            a = np.asarray(a)
            if a.dtype.kind == "f" or name in ("mean", "std", "var"):
                a = tosarr(a)
            else:
                return wrap(getattr(a, name)(axis=axis, **k))
        if name == "sum" and axis is None and not k and a.size and _is_mask(a):
            return _count(list(a.flat))
        return wrap(getattr(a, name)(axis=axis, **k))
    return g


def diag(a, k=0):
    return wrap(np.diag(plain(A(a)), k))


def outer(a, b):
    return wrap(np.multiply.outer(plain(A(a).ravel()), plain(A(b).ravel())))


def tile(a, reps):
    a = A(a)
    return wrap(np.tile(plain(a), reps)) if isinstance(a, SArr) else np.tile(a, reps)


def einsum(spec, *ops, **k):
    t = str(spec).replace(" ", "").split("->")
    if len(ops) == 2 and len(t) == 2 and len(set(t[0].split(","))) == 1 and len(t[0].split(",")[0]) == 2 == len(set(t[0].split(",")[0])) \
            and len(t[1]) == 1:
        p = A(ops[0]) * A(ops[1])
        return p.sum(axis=1 - t[0].split(",")[0].index(t[1]))
    r = np.einsum(spec, *[plain(A(o)) for o in ops])
    return wrap(r)


def sort(a, axis=-1, **k):
    a = A(a)
    if not isinstance(a, SArr):
        return np.sort(a, axis=axis)
    a = a.copy() if axis is not None else a.ravel().copy()
    a.sort(-1 if axis is None else axis)
    return a


def allclose(a, b, rtol=1e-5, atol=1e-8, **k):
    return isclose(a, b, rtol, atol).all()


def isclose(a, b, rtol=1e-5, atol=1e-8, **k):
    a, b = tosarr(a), tosarr(b)
    d = handle_ufunc(np.absolute, "__call__", (a - b,), {})
    s = handle_ufunc(np.absolute, "__call__", (b,), {})
    return tosarr(handle_ufunc(np.less_equal, "__call__", (d, s * rtol + atol), {}))


def array_equal(a, b, **k):
    a, b = tosarr(a), tosarr(b)
    if a.shape != b.shape:
        return False
    return tosarr(handle_ufunc(np.equal, "__call__", (a, b), {})).all()


def nan_to_num(a, *args, **k):
    return a


def logical_reduce(fn):
    def g(*xs, **k):
        return handle_ufunc(fn, "__call__", xs, {})
    return g


def cov_like(*a, **k):
    raise Unsupported("np.cov")


def _unique(a, return_index=False, return_inverse=False, return_counts=False, axis=None, **k):
    """sorted distinct entries (rows when axis=0); deciding the order and the equalities branches"""
    if axis not in (None, 0):
        raise Unsupported("np.unique along axis %r" % (axis,))
    items = [(x,) for x in a.ravel().view(np.ndarray)] if axis is None else [tuple(r.ravel()) for r in a.view(np.ndarray)]

    def cmp(p, q):
        for x, y in zip(p, q):
            if truth(ELEM["less"](x, y)):
                return -1
            if not truth(ELEM["equal"](x, y)):
                return 1
        return 0
    order = sorted(range(len(items)), key=functools.cmp_to_key(lambda i, j: cmp(items[i], items[j])))
    first, inv, cnt = [], [0] * len(items), []
    for i in order:
        if first and cmp(items[first[-1]], items[i]) == 0:
            cnt[-1] += 1
        else:
            first.append(i)
            cnt.append(1)
        inv[i] = len(first) - 1
    first = np.array(first, dtype=int)
    u = a.ravel()[first] if axis is None else a[first]
    out = [u] + [first] * builtins.bool(return_index) + [np.array(inv, dtype=int)] * builtins.bool(return_inverse) + [np.array(cnt, dtype=int)] * builtins.bool(return_counts)
    return out[0] if len(out) == 1 else tuple(out)


def unique(a, *args, **k):
    a = A(a)
    if isinstance(a, SArr):
        try:
            r = np.unique(concrete(a), *args, **k)
        except Unsupported:
            return _unique(a, *args, **k)
        return (tosarr(r[0]),) + r[1:] if isinstance(r, tuple) else tosarr(r)
    return np.unique(a, *args, **k)


def take(a, idx, axis=None, **k):
    a = A(a)
    i = array(idx) if isinstance(idx, (list, tuple)) else idx
    if axis is None:
        return a.ravel()[i]
    ax = axis % a.ndim
    return a[(slice(None),) * ax + (i,)]


def isin(a, vals, invert=False, **k):
    a, v = A(a), list(A(vals).ravel())

    def one(x):
        r = False
        for y in v:
            r = handle_ufunc(np.logical_or, "__call__", (r, E.compare(E.coerce(x), E.coerce(y), "==")), {})
        return r
    if not isinstance(a, SArr) and not any(is_sym(y) for y in v):
        return np.isin(a, [float(y) for y in v], invert=invert)
    o = np.empty(a.shape, dtype=object)
    for i in np.ndindex(*a.shape):
        o[i] = one(a[i])
    r = wrap_bool(o)
    return handle_ufunc(np.logical_not, "__call__", (r,), {}) if invert else r


def interp(x, xp, fp, left=None, right=None, **k):
    xp, fp = [A(q).ravel() for q in (xp, fp)]

    def one(v):
        v = E.coerce(v)
        r = E.coerce(fp[-1] if right is None else right)
        n = len(xp)
        for i in range(n - 2, -1, -1):
            sl = (E.coerce(fp[i + 1]) - fp[i]) / (E.coerce(xp[i + 1]) - xp[i])
            r = E.ite(E.compare(v, E.coerce(xp[i + 1]), "<="), E.coerce(fp[i]) + sl * (v - xp[i]), r)
        return E.ite(E.compare(v, E.coerce(xp[0]), "<"), E.coerce(fp[0] if left is None else left), r)
    return vectorize(one)(x)


def divmod_(a, b):
    q = handle_ufunc(np.floor_divide, "__call__", (a, b), {})
    return q, handle_ufunc(np.remainder, "__call__", (a, b), {})


def modf(a):
    i = handle_ufunc(np.trunc, "__call__", (a,), {})
    return handle_ufunc(np.subtract, "__call__", (a, i), {}), i


def issubdtype(a, b):
    try:
        if np.dtype(a) == object and dtype_kind(b) == "f" or b in (np.number, np.inexact):
            return True
    except TypeError:
        pass
    return np.issubdtype(np.float64 if getattr(a, "_symfloat", False) else a, b)


def meshgrid(*xs, **k):
    return [wrap(y) for y in np.meshgrid(*[plain(A(x)) for x in xs], **k)]


def clip(a, lo=None, hi=None, **k):
    lo = k.get("a_min", k.get("min", lo))
    hi = k.get("a_max", k.get("max", hi))
    r = a
    if lo is not None:
        r = handle_ufunc(np.maximum, "__call__", (r, lo), {})
    if hi is not None:
        r = handle_ufunc(np.minimum, "__call__", (r, hi), {})
    return r


def average(a, axis=None, weights=None, **k):
    a = A(a)
    if weights is None:
        return tosarr(a).mean(axis=axis)
    w = A(weights)
    if axis is not None and w.ndim == 1 and a.ndim > 1:
        w = w.reshape((1,) * (axis % a.ndim) + (-1,) + (1,) * (a.ndim - 1 - axis % a.ndim))
        return (a * w).sum(axis=axis) / w.sum()
    return (a * w).sum(axis=axis) / w.sum(axis=axis)


def diff(a, n=1, axis=-1):
    a = A(a)
    for _ in range(n):
        sl1 = [slice(None)] * a.ndim
        sl2 = [slice(None)] * a.ndim
        sl1[axis] = slice(1, None)
        sl2[axis] = slice(None, -1)
        a = a[tuple(sl1)] - a[tuple(sl2)]
    return a


def count_nonzero(a, axis=None, **k):
    a = tosarr(a)
    b = _tobool_u(a.view(np.ndarray)).view(SArr)
    if axis is None:
        return _count(list(b.flat))
    return b.sum(axis=axis)


def apply_along_axis(f, axis, arr, *a, **k):
    arr = A(arr)
    m = np.moveaxis(arr, axis, -1)
    parts = [f(m[i], *a, **k) for i in np.ndindex(*m.shape[:-1])]
    r = array(parts)
    return r.reshape(m.shape[:-1] + r.shape[1:])


def vectorize(f, *a, **k):
    def g(*xs):
        pf = np.frompyfunc(f, len(xs), 1)
        return wrap(pf(*[plain(A(x)) for x in xs]))
    return g


def fromiter(it, dtype=None, **k):
    return array(list(it), dtype)


def copyto(dst, src, **k):
    dst[...] = src


def nanred(name):
    return red(name)


def fill_diagonal(a, v):
    n = min(a.shape)
    for i in range(n):
        a[i, i] = v if np.ndim(plain(v)) == 0 else v[i]


def _ufunc_proxy(u):
    def g(*xs, **k):
        xs = tuple(tosarr(x) if isinstance(x, (list, tuple)) else x for x in xs)
        if any(isinstance(x, (SArr, Sym, SymBool, MaskedSel, IndexSel)) for x in xs) or isinstance(k.get("out"), SArr):
            xs = tuple(x.force() if isinstance(x, IndexSel) else x for x in xs)
            return handle_ufunc(u, "__call__", xs, k)
        xs2 = tuple(np.asarray(x) if isinstance(x, np.ndarray) else x for x in xs)
        return wrap(u(*xs2, **k))

    def reduce(a, *args, **k):
        if args:
            k["axis"] = args[0]
        k.setdefault("axis", 0)
        return handle_ufunc(u, "reduce", (a,), k)
    g.reduce = reduce
    g.outer = lambda a, b: handle_ufunc(u, "outer", (a, b), {})
    g.accumulate = lambda a, axis=0: handle_ufunc(u, "accumulate", (a,), {"axis": axis})
    g.__name__ = u.__name__
    return g


def _fallback(name):
    f = getattr(np, name)

    def conv(x):
        if isinstance(x, MaskedSel) or isinstance(x, IndexSel):
            return x.force()
        if is_sym(x):
            return tosarr(x)
        if isinstance(x, (list, tuple)) and any(is_sym(y) or isinstance(y, (SArr, MaskedSel)) for y in x):
            return type(x)(conv(y) for y in x)
        if isinstance(x, SArr):
            return x
        return x

    def g(*a, **k):
        try:
            return wrap(f(*[conv(x) for x in a], **{q: conv(v) for q, v in k.items()}))
        except TypeError as e:
            try:
                return wrap(f(*[concrete(x) for x in a], **{q: concrete(v) for q, v in k.items()}))
            except (TypeError, Unsupported):
                raise Unsupported("numpy.%s: %s" % (name, e))
    g.__name__ = name
    return g


def concrete(x):
    """all-constant symbolic data -> floats"""
    if isinstance(x, SArr):
        o = np.empty(x.shape, dtype=float)
        for i in np.ndindex(*x.shape):
            e = x.view(np.ndarray)[i]
            if isinstance(e, SymBool) or (isinstance(e, Sym) and not e.is_const()):
                raise Unsupported("symbolic value where a number is needed")
            o[i] = float(e)
        return o
    if isinstance(x, Sym):
        if not x.is_const():
            raise Unsupported("symbolic value where a number is needed")
        return float(x)
    if isinstance(x, (list, tuple)):
        return type(x)(concrete(y) for y in x)
    return x


class NP:
    """the module object handed to the code under test as `numpy`"""

    def __init__(self, extra):
        self.__dict__.update(extra)
        self.__dict__.update(dict(
            array=array, asarray=asarray, asanyarray=asarray, ascontiguousarray=asarray, asfortranarray=asarray,
            zeros=zeros, ones=ones, empty=empty, full=full, eye=eye,
            identity=lambda n, dtype=None: eye(n, dtype=dtype),
            zeros_like=like(zeros), ones_like=like(ones), empty_like=like(empty),
            full_like=lambda a, v, dtype=None, **k: full(A(a).shape, v, dtype),
            linspace=linspace, arange=arange, atleast_1d=_multi(1), atleast_2d=_multi(2), atleast_3d=_multi(3),
            where=where, select=select, dot=dot, matmul=matmul, stack=stack,
            hstack=_joiner(np.hstack), vstack=_joiner(np.vstack), concatenate=_joiner(np.concatenate),
            column_stack=_joiner(np.column_stack), dstack=_joiner(np.dstack), row_stack=_joiner(np.vstack), append=append,
            block=_fallback("block"),
            sum=red("sum"), prod=red("prod"), mean=red("mean"), std=red("std"), var=red("var"),
            min=red("min"), max=red("max"), amin=red("min"), amax=red("max"), argmin=red("argmin"), argmax=red("argmax"),
            nanmin=red("min"), nanmax=red("max"), nansum=red("sum"), nanmean=red("mean"), nanargmin=red("argmin"),
            any=red("any"), all=red("all"), cumsum=lambda a, axis=None, **k: tosarr(a).cumsum(axis=axis),
            ptp=red("ptp"), average=average,
            diag=diag, outer=outer, tile=tile, einsum=einsum, sort=sort,
            argsort=lambda a, axis=-1, **k: A(a).argsort(axis=axis),
            allclose=allclose, isclose=isclose, array_equal=array_equal, nan_to_num=nan_to_num, unique=unique,
            meshgrid=meshgrid, clip=clip, take=take, isin=isin, in1d=isin, interp=interp, divmod=divmod_, modf=modf, issubdtype=issubdtype,
            compress=lambda c, a, axis=None, **k: A(a).ravel()[array(c)] if axis is None else A(a)[(slice(None),) * axis + (array(c),)],
            extract=lambda c, a: A(a).ravel()[A(c).ravel()],
            nanstd=red("std"), nanvar=red("var"), nanprod=red("prod"), nditer=lambda a, *r, **k: iter(A(a).ravel()), matvec=lambda a, b: matmul(a, b), diff=diff, count_nonzero=count_nonzero, apply_along_axis=apply_along_axis,
            vectorize=vectorize, fromiter=fromiter, copyto=copyto, fill_diagonal=fill_diagonal,
            nonzero=lambda a: where(a), flatnonzero=lambda a: where(A(a).ravel())[0], argwhere=lambda a: array(list(zip(*[list(x) for x in where(a)]))).reshape(-1, A(a).ndim),
            copy=lambda a, **k: A(a).copy(), inner=lambda a, b: wrap(np.inner(plain(A(a)), plain(A(b)))),
            vdot=lambda a, b: dot(A(a).ravel(), A(b).ravel()),
            trace=lambda a, *r, **k: A(a).diagonal().sum(),
            squeeze=lambda a, axis=None: A(a).squeeze(axis) if A(a).size != 1 or axis is not None else (A(a).reshape(()) if isinstance(A(a), np.ndarray) else a),
            ravel=lambda a, **k: A(a).ravel(), reshape=lambda a, s, **k: A(a).reshape(s), transpose=lambda a, axes=None: A(a).transpose(axes) if axes else A(a).transpose(),
            size=lambda a, axis=None: A(a).size if axis is None else A(a).shape[axis], shape=lambda a: A(a).shape, ndim=lambda a: A(a).ndim,
            isscalar=lambda a: is_sym(a) or np.isscalar(a), round=np_round, around=np_round,
            float64=E_float, float32=E_float, float_=E_float, double=E_float, int64=builtins.int, int32=builtins.int, int_=builtins.int, intp=builtins.int,
            bool_=builtins.bool, ndarray=np.ndarray, floating=np.floating, integer=np.integer, number=np.number, generic=np.generic,
            pi=math.pi, e=math.e, inf=math.inf, nan=math.nan, Inf=math.inf, NaN=math.nan, newaxis=None, infty=math.inf,
            finfo=np.finfo, iinfo=np.iinfo, dtype=np.dtype, errstate=np.errstate, seterr=lambda **k: {}, set_printoptions=lambda **k: None,
            printoptions=np.printoptions, exceptions=np.exceptions, ndindex=np.ndindex, ndenumerate=np.ndenumerate, s_=np.s_, r_=R_(), c_=C_(), ix_=np.ix_, mgrid=np.mgrid,
            abs=_ufunc_proxy(np.absolute), deprecate=None, typing=None, asscalar=lambda a: A(a).item(),
            save=lambda *a, **k: None, savetxt=lambda *a, **k: None, isrealobj=lambda a: True, array2string=lambda a, **k: "<array>",
        ))
        for n in ("dot", "matmul", "stack", "hstack", "vstack", "concatenate", "sum", "prod", "mean", "std", "var", "min", "max", "amin", "amax", "cumsum", "clip", "round", "around"):
            self.__dict__[n] = with_out(self.__dict__[n])

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        if not hasattr(np, name):
            raise AttributeError("module 'numpy' has no attribute %r" % name)
        f = getattr(np, name)
        if isinstance(f, np.ufunc):
            g = _ufunc_proxy(f)
        elif callable(f) and not isinstance(f, type):
            g = _fallback(name)
        else:
            g = f
        self.__dict__[name] = g
        return g


class R_:
    def __getitem__(self, k):
        ks = k if isinstance(k, tuple) else (k,)
        return _joiner(np.concatenate)([atleast(1, np.arange(q.start or 0, q.stop, q.step or 1) if isinstance(q, slice) else q) for q in ks])


class C_:
    def __getitem__(self, k):
        ks = k if isinstance(k, tuple) else (k,)
        return _joiner(np.column_stack)([A(q) for q in ks])


class _FloatMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (builtins.float, Sym))

    def __subclasscheck__(cls, c):
        return issubclass(c, (builtins.float, Sym))

    def __call__(cls, x=0.0):
        if isinstance(x, Sym):
            return x
        if isinstance(x, SymBool):
            return E.ind(x)
        if isinstance(x, SArr):
            r = x._scalar()
            return r if is_sym(r) else builtins.float(r)
        if isinstance(x, MaskedSel):
            return cls(x.force())
        return builtins.float(x)

    def __or__(cls, o):
        return builtins.float | o

    def __ror__(cls, o):
        return o | builtins.float

    def __getattr__(cls, n):
        return getattr(builtins.float, n)

    def __eq__(cls, o):
        return o is cls or o is builtins.float or isinstance(o, SDtype) and o.kind == "f"

    def __hash__(cls):
        return hash(builtins.float)


class E_float(metaclass=_FloatMeta):
    _symfloat = True


class _IntMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, builtins.int) or (isinstance(x, Sym) and not x.is_const() and is_intsym(x))

    def __subclasscheck__(cls, c):
        return issubclass(c, builtins.int)

    def __call__(cls, x=0, *a):
        if isinstance(x, Sym) and not x.is_const() and is_intsym(x):
            return x
        if isinstance(x, MaskedSel):
            x = x.force()
        if isinstance(x, SArr):
            x = x._scalar()
        if isinstance(x, Sym):
            return x.__int__()
        return builtins.int(x, *a)

    def __or__(cls, o):
        return builtins.int | o

    def __ror__(cls, o):
        return o | builtins.int

    def __getattr__(cls, n):
        return getattr(builtins.int, n)

    def __eq__(cls, o):
        return o is cls or o is builtins.int or isinstance(o, SDtype) and o.kind == "i"

    def __hash__(cls):
        return hash(builtins.int)


for _n in ("min", "max", "sum", "prod", "cumsum", "mean", "var", "std", "clip", "round", "dot"):
    setattr(SArr, _n, with_out(getattr(SArr, _n)))


def np_round(a, decimals=0):
    if not isinstance(a, SArr):
        if is_sym(a):
            return E.sym_round(_c(a), decimals)
        if not (isinstance(a, (list, tuple)) and any(is_sym(x) for x in np.asarray(a, dtype=object).flat)):
            return np.round(a, decimals)
        a = A(a)
    r = a.copy()
    o = r.view(np.ndarray)
    for i in np.ndindex(o.shape):
        o[i] = E.sym_round(_c(o[i]), decimals)
    return r if r.ndim else o[()]


class E_int(metaclass=_IntMeta):
    _symint = True


def is_intsym(x):
    return E.is_integral(x)


def py_max(*a, **k):
    return _py_ext("max", a, k)


def py_min(*a, **k):
    return _py_ext("min", a, k)


def _py_ext(kind, a, k):
    xs = list(a[0]) if len(a) == 1 else list(a)
    xs = [x._scalar() if isinstance(x, SArr) and x.size == 1 else x for x in xs]
    if not any(is_sym(x) for x in xs):
        if any(is_sym(k["key"](x)) for x in xs) if k.get("key") and xs else False:
            kv = [k["key"](x) for x in xs]
            return xs[pick_extreme(kv, kind, True)]
        return getattr(builtins, kind)(xs, **k)
    if not xs and "default" in k:
        return k["default"]
    kv = [k["key"](x) for x in xs] if k.get("key") else xs
    return xs[pick_extreme(kv, kind, True)]
