"""Stand-ins for numpy / math / numba that let the repository's source run on symbolic
values: arrays are object arrays with a declared (virtual) dtype whose typed stores wrap
machine integers, `empty` gives unconstrained contents, structured arrays are records of
such arrays, and numba decorators only record declared types (which are then enforced)."""
import math as _math
import types
from fractions import Fraction

import numpy as np

from .sym import (SBase, SBool, SInt, SBV, SReal, SNFloat, SLog2, Unsupported, eng,
                  index_of, is_sym, mkbool, mkint, mkreal, not_, to_real_ast, bool_ast,
                  z3, M64, _norm)

INF = float("inf")


# ---------------------------------------------------------------- dtypes and coercion
def vdt(dtype):
    """A requested dtype (numpy dtype, python type, numba type, string) -> np.dtype."""
    if dtype is None:
        return np.dtype(np.float64)
    if isinstance(dtype, NumbaType):
        return dtype.dt
    if isinstance(dtype, np.dtype):
        return dtype
    return np.dtype(dtype)


_RANGE = {}


def int_range(dt):
    r = _RANGE.get(dt)
    if r is None:
        ii = np.iinfo(dt)
        r = _RANGE[dt] = (int(ii.min), int(ii.max))
    return r


def coerce(v, dt):
    """Store semantics of a scalar into a slot of dtype dt."""
    if isinstance(v, np.generic):
        v = v.item()
    k = dt.kind
    if getattr(v, "vf_text", False) and k in "fuib":
        raise ValueError("could not convert string to float")
    if k == "f":
        if type(v) is Fraction or isinstance(v, (SReal, SNFloat)):
            return v
        if isinstance(v, bool):
            return Fraction(int(v))
        if isinstance(v, int):
            return Fraction(v)
        if isinstance(v, float):
            if v != v or v in (INF, -INF):
                return v
            return Fraction(v)
        if isinstance(v, SBV):
            v = SInt.lift(v)
        if isinstance(v, (SInt, SBool)):
            return SReal(to_real_ast(v))
        if v is None:
            return float("nan")
        return v
    if k in "ui":
        lo, hi = int_range(dt)
        if isinstance(v, (Fraction, float)):
            v = int(v)
        if isinstance(v, bool):
            return int(v)
        if isinstance(v, int):
            if lo <= v <= hi:
                return v
            return (v - lo) % (hi - lo + 1) + lo
        if isinstance(v, SBool):
            return v.as_int()
        if isinstance(v, (SReal,)):
            v = v.__trunc__()
            if isinstance(v, int):
                return coerce(v, dt)
        if isinstance(v, SInt):
            if v.lo is not None and v.hi is not None and v.lo >= lo and v.hi <= hi:
                return v
            size = hi - lo + 1
            if bool((v >= lo) & (v <= hi)):
                return SInt(v.e, max(lo, v.lo) if v.lo is not None else lo,
                            min(hi, v.hi) if v.hi is not None else hi)
            return mkint((v.e - lo) % size + lo, lo, hi)
        if isinstance(v, SBV):
            if k == "u":
                nb = dt.itemsize * 8
                if nb == 64:
                    return v
                r = z3.simplify(z3.ZeroExt(64 - nb, z3.Extract(nb - 1, 0, v.e)))
                return r.as_long() if z3.is_bv_value(r) else SBV(r)
            if dt.itemsize == 8:
                # as a signed word: only values below 2**63 are exact here
                return v
            nb = dt.itemsize * 8
            r = z3.simplify(z3.SignExt(64 - nb, z3.Extract(nb - 1, 0, v.e)))
            return r.as_long() if z3.is_bv_value(r) else SBV(r)
        if isinstance(v, SNFloat):
            raise Unsupported("possible NaN stored as an integer")
        return v
    if k == "b":
        if isinstance(v, (bool, SBool)):
            return v
        if is_sym(v):
            return v != 0
        return bool(v)
    return v


def fresh_value(dt):
    e = eng()
    if e is None:
        return 0
    n = e.fresh_name("uninit")
    if dt.kind == "f":
        return SReal(z3.Real(n))
    if dt.kind == "b":
        return SBool(z3.Bool(n))
    if dt.kind == "u" and dt.itemsize == 8 and SArr.word_empty:
        return SBV(z3.BitVec(n, 64))
    if dt.kind in "ui":
        lo, hi = int_range(dt)
        v = z3.Int(n)
        e.assume_fact(z3.And(v >= lo, v <= hi))
        return SInt(v, lo, hi)
    return None


class Lazy:
    """Contents of `empty`: materialised as an unconstrained value on first read."""

    __slots__ = ()


LAZY = Lazy()


def plain(a):
    return a.view(np.ndarray) if isinstance(a, SArr) else a


def conv_index(idx):
    if hasattr(idx, "_vf_values"):
        idx = idx._vf_values()
    if isinstance(idx, tuple):
        return tuple(conv_index(i) for i in idx)
    if isinstance(idx, slice):
        return slice(*(None if x is None else index_of(_norm(x))
                       for x in (idx.start, idx.stop, idx.step)))
    if isinstance(idx, SBool):
        return bool(idx)
    if isinstance(idx, SBase):
        return idx.__index__()
    if isinstance(idx, Fraction):
        return index_of(idx)
    if isinstance(idx, list):
        return [conv_index(i) for i in idx]
    if isinstance(idx, np.ndarray) and idx.dtype == object or isinstance(idx, SArr):
        b = plain(idx)
        k = idx.dtype.kind if isinstance(idx, SArr) else None
        if k == "b" or (k in (None, "O") and b.size and all(
                isinstance(x, (bool, SBool, np.bool_)) for x in b.flat)):
            out = np.empty(b.shape, dtype=bool)
            for i, x in enumerate(b.flat):
                out.flat[i] = bool(x)
            return out
        out = np.empty(b.shape, dtype=np.intp)
        for i, x in enumerate(b.flat):
            x = index_of(_norm(x))
            out.flat[i] = x if x < 2 ** 63 else x - 2 ** 64
        return out
    return idx


class _Flags:
    c_contiguous = f_contiguous = writeable = True

    def __getitem__(self, k):
        return True


class SArr(np.ndarray):
    """Object array with a virtual dtype."""

    watch = None        # called before each write into an existing array
    word_empty = False  # np.empty(uint64) yields machine words instead of integers

    def __new__(cls, data, dtype):
        a = np.asarray(data, dtype=object).view(cls)
        a._vd = vdt(dtype)
        return a

    def __array_finalize__(self, obj):
        if obj is not None:
            self._vd = getattr(obj, "_vd", None)

    @property
    def dtype(self):
        return self._vd if self._vd is not None else np.dtype(object)

    @property
    def itemsize(self):
        return self.dtype.itemsize

    @property
    def nbytes(self):
        return self.dtype.itemsize * self.size

    def _mat(self, base, idx):
        v = base[idx]
        return v

    def __getitem__(self, idx):
        idx = conv_index(idx)
        if type(idx) is int and idx < -M64 // 2:
            raise IndexError("index out of bounds")
        r = np.ndarray.__getitem__(plain(self), idx)
        if isinstance(r, np.ndarray):
            r = r.view(SArr)
            r._vd = self._vd
            return r
        if r is LAZY:
            r = fresh_value(self._vd)
            np.ndarray.__setitem__(plain(self), idx, r)
        return r

    def __setitem__(self, idx, val):
        idx = conv_index(idx)
        base = plain(self)
        if isinstance(val, RecArr):
            raise TypeError("record stored in a plain array")
        if isinstance(val, (list, tuple)):
            val = np_array(val, self._vd)
        if SArr.watch is not None:
            SArr.watch()
        if isinstance(val, np.ndarray):
            val = coerce_arr(val, self._vd)
            base[idx] = plain(val)
        else:
            v = coerce(val, self._vd)
            target = base[idx]
            if isinstance(target, np.ndarray):
                tmp = np.empty((), dtype=object)
                tmp[()] = v
                base[idx] = tmp
            else:
                base[idx] = v

    def _materialize(self):
        b = plain(self)
        for i in np.ndindex(b.shape):
            if b[i] is LAZY:
                b[i] = fresh_value(self._vd)
        return b

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def __array_ufunc__(self, ufunc, method, *inputs, out=None, **kw):
        ins = []
        dts = []
        for x in inputs:
            if isinstance(x, SArr):
                x._materialize()
                ins.append(plain(x))
                dts.append(x.dtype)
            elif isinstance(x, np.ndarray):
                ins.append(x.astype(object) if x.dtype != object else x)
                dts.append(x.dtype)
            else:
                if isinstance(x, np.generic):
                    x = x.item()
                if isinstance(x, float) and x == x and x not in (INF, -INF):
                    x = Fraction(x)
                ins.append(x)
                dts.append(_scalar_dt(x))
        name = ufunc.__name__
        if "dtype" in kw:
            kw.pop("dtype")
        w = kw.pop("where", True)
        if w is not True and (method != "__call__" or ufunc.nout != 1):
            raise Unsupported("ufunc where=")
        if w is not True:
            return _masked(ufunc, ins, w, out, _result_dt(ufunc, name, dts))
        if method == "__call__":
            f = _UFUNC.get(name)
            if f is not None:
                res = f(*ins)
            elif name == "divide" or name == "true_divide":
                res = _objmap2(_div_elem, *ins)
            else:
                res = getattr(ufunc, method)(*ins, **kw)
        elif method == "reduce":
            res = getattr(ufunc, method)(ins[0], **{k: v for k, v in kw.items()
                                                    if k in ("axis", "keepdims")})
        elif method in ("accumulate",):
            res = ufunc.accumulate(ins[0], **{k: v for k, v in kw.items()
                                              if k == "axis"})
        elif method == "at":
            tgt = inputs[0]
            idx = conv_index(inputs[1])
            vals = np.broadcast_to(np.asarray(ins[2], dtype=object),
                                   np.asarray(idx).shape)
            for i, v in zip(np.asarray(idx).flat, vals.flat):
                tgt[i] = ufunc(tgt[i], v)
            return None
        elif method == "outer":
            res = ufunc.outer(*ins)
        else:
            raise Unsupported("ufunc method " + method)
        rd = _result_dt(ufunc, name, dts)
        if out is not None:
            o = out[0] if isinstance(out, tuple) else out
            if isinstance(o, SArr):
                tmp = np.asarray(res, dtype=object).view(SArr)
                tmp._vd = rd
                o[...] = np.broadcast_to(tmp, o.shape)
                return o
            raise Unsupported("ufunc out= real array")
        if isinstance(res, np.ndarray):
            r = np.asarray(res, dtype=object).view(SArr)
            r._vd = rd
            return coerce_arr(r, rd)
        return coerce(res, rd) if rd is not None else res

    # ---- methods with virtual dtype semantics
    def astype(self, dtype, copy=True, **kw):
        dt = vdt(dtype)
        r = np.array(self._materialize(), dtype=object, copy=True).view(SArr)
        r._vd = dt
        return coerce_arr(r, dt, force=True)

    def copy(self, order="C"):
        r = np.array(plain(self), dtype=object, copy=True).view(SArr)
        r._vd = self._vd
        return r

    def fill(self, v):
        self[...] = v

    def sum(self, axis=None, dtype=None, out=None, keepdims=False, **kw):
        b = self._materialize()
        r = _reduce(b, axis, lambda xs: _fold(xs, lambda a, c: a + c, 0), keepdims)
        dt = self.dtype
        if dt.kind == "b":
            dt = np.dtype(np.intp)
        return wrap(r, dt)

    def prod(self, axis=None, **kw):
        b = self._materialize()
        return wrap(_reduce(b, axis, lambda xs: _fold(xs, lambda a, c: a * c, 1)),
                    self.dtype)

    def mean(self, axis=None, **kw):
        b = self._materialize()
        n = b.size if axis is None else b.shape[axis]
        s = self.sum(axis=axis)
        return s / n

    def max(self, axis=None, out=None, initial=None, **kw):
        b = self._materialize()
        r = wrap(_reduce(b, axis, lambda xs: _fold1(xs, _max2, initial)), self.dtype)
        if out is not None:
            out[...] = r
            return out
        return r

    def min(self, axis=None, out=None, initial=None, **kw):
        b = self._materialize()
        r = wrap(_reduce(b, axis, lambda xs: _fold1(xs, _min2, initial)), self.dtype)
        if out is not None:
            out[...] = r
            return out
        return r

    def any(self, axis=None, **kw):
        b = self._materialize()
        return wrap(_reduce(b, axis, lambda xs: _fold(
            [_tobool(x) for x in xs], lambda a, c: a | c, False)), np.dtype(bool))

    def all(self, axis=None, **kw):
        b = self._materialize()
        return wrap(_reduce(b, axis, lambda xs: _fold(
            [_tobool(x) for x in xs], lambda a, c: a & c, True)), np.dtype(bool))

    def cumsum(self, axis=None, **kw):
        b = self._materialize()
        if b.ndim != 1 and axis is not None:
            r = np.array(b, dtype=object)
            r = np.moveaxis(r, axis, 0)
            for i in range(1, r.shape[0]):
                for j in np.ndindex(r.shape[1:]):
                    r[(i,) + j] = r[(i - 1,) + j] + r[(i,) + j]
            return wrap(np.moveaxis(r, 0, axis), self.dtype)
        b = b.ravel()
        out, s = [], 0
        for x in b:
            s = s + x
            out.append(s)
        return np_array(out, self.dtype)

    def dot(self, o):
        return np_dot(self, o)

    def round(self, decimals=0, **kw):
        if decimals:
            raise Unsupported("round to decimals")
        return np.rint(self)

    def argsort(self, axis=-1, kind=None, **kw):
        return np_argsort(self)

    def sort(self, axis=-1, **kw):
        self[...] = np_sort(self)

    def argmax(self, axis=None, **kw):
        return np_argmax(self, axis)

    def argmin(self, axis=None, **kw):
        return np_argmax(self, axis, less=True)

    def take(self, indices, axis=None, **kw):
        indices = conv_index(np_asarray(indices) if not np.isscalar(indices) else indices)
        r = np.take(plain(self), indices, axis=axis)
        return wrap(r, self.dtype)

    def nonzero(self):
        b = self._materialize()
        m = np.empty(b.shape, dtype=bool)
        for i in np.ndindex(b.shape):
            m[i] = bool(_tobool(b[i]))
        return m.nonzero()

    def tolist(self):
        return self._materialize().tolist()

    def item(self, *a):
        return self._materialize().item(*a)

    def searchsorted(self, v, side="left", **kw):
        return np_searchsorted(self, v, side)

    def ravel(self, order="C"):
        return wrap(np.ravel(plain(self)), self.dtype)

    def flatten(self, order="C"):
        return wrap(np.array(plain(self)).ravel(), self.dtype)

    def clip(self, min=None, max=None, out=None, **kw):
        return np_clip(self, min, max, out)

    def view(self, *a, **k):
        if not a and not k:
            return self[...]
        if a and isinstance(a[0], type) and issubclass(a[0], np.ndarray):
            return np.ndarray.view(self, *a, **k)
        if a and not isinstance(a[0], type) or a and a[0] is self.dtype.type:
            if vdt(a[0]) == self.dtype:
                return self[...]
        raise Unsupported("view with a dtype")

    def tobytes(self, *a):
        raise Unsupported("tobytes")

    def __reduce__(self):
        raise Unsupported("pickle of a symbolic array")


def _scalar_dt(x):
    if isinstance(x, (bool, SBool)):
        return np.dtype(bool)
    if isinstance(x, int):
        return np.dtype(np.int64)
    if isinstance(x, SInt):
        return np.dtype(np.int64)
    if isinstance(x, SBV):
        return np.dtype(np.uint64)
    return None


def _result_dt(ufunc, name, dts):
    if name in ("less", "less_equal", "greater", "greater_equal", "equal", "not_equal",
                "logical_not", "logical_and", "logical_or", "logical_xor", "isnan",
                "isfinite", "isinf"):
        return np.dtype(bool)
    ds = [d for d in dts if d is not None]
    arr = [d for d in ds if d.kind in "fuib"]
    if name in ("divide", "true_divide", "log", "exp", "sqrt", "log2", "expm1", "log1p"):
        f = [d for d in arr if d.kind == "f"]
        return f[0] if f else np.dtype(np.float64)
    if name in ("invert",) and arr:
        return arr[0]
    if not arr:
        return np.dtype(np.float64)
    f = [d for d in arr if d.kind == "f"]
    if f or any(d is None for d in dts):
        return f[0] if f else np.dtype(np.float64)
    nb = [d for d in arr if d.kind != "b"]
    if not nb:
        return np.dtype(bool) if name in ("bitwise_and", "bitwise_or", "bitwise_xor",
                                          "maximum", "minimum") else np.dtype(np.intp)
    if len(dts) == 2 and len(nb) == 2:
        # array with python int scalar keeps the array's type
        return nb[0] if nb[0].kind == nb[1].kind or True else nb[1]
    return nb[0]


def wrap(r, dt):
    if isinstance(r, np.ndarray):
        a = np.asarray(r, dtype=object).view(SArr)
        a._vd = dt
        return coerce_arr(a, dt, force=True)
    return coerce(r, dt)


def _tobool(x):
    if isinstance(x, (bool, SBool)):
        return x
    if isinstance(x, np.bool_):
        return bool(x)
    if is_sym(x):
        return x != 0
    return bool(x)


def merge(c, a, b):
    """if c then a else b as one term where both are numbers of one sort (no fork)."""
    if not isinstance(c, SBool):
        return a if c else b
    if isinstance(a, SBV) or isinstance(b, SBV):
        x, y = SBV.lift(a), SBV.lift(b)
        if x is not None and y is not None:
            return SBV(z3.If(c.e, x.e, y.e))
    elif isinstance(a, (SReal, SInt, Fraction, int)) and isinstance(
            b, (SReal, SInt, Fraction, int)) and not isinstance(a, bool):
        ia, ib = (None, None) if isinstance(a, SReal) or isinstance(b, SReal) else (
            SInt.lift(a), SInt.lift(b))
        if ia is not None and ib is not None:
            los, his = (ia.lo, ib.lo), (ia.hi, ib.hi)
            return SInt(z3.If(c.e, ia.e, ib.e), None if None in los else min(los),
                        None if None in his else max(his))
        return SReal(z3.If(c.e, to_real_ast(a), to_real_ast(b)))
    return a if bool(c) else b


def _max2(a, b):
    return merge(a >= b, a, b)


def _min2(a, b):
    return merge(a >= b, b, a)


def s_max(*xs, **kw):
    if len(xs) == 2 and not kw and (is_sym(xs[0]) or is_sym(xs[1])):
        return xs[0] if bool(xs[0] >= xs[1]) else xs[1]
    return max(*xs, **kw)


def s_min(*xs, **kw):
    if len(xs) == 2 and not kw and (is_sym(xs[0]) or is_sym(xs[1])):
        return xs[1] if bool(xs[0] >= xs[1]) else xs[0]
    return min(*xs, **kw)


def _fold(xs, f, init):
    s = init
    for x in xs:
        s = f(s, x)
    return s


def _fold1(xs, f, initial=None):
    xs = list(xs)
    if initial is not None:
        xs = [initial] + xs
    if not xs:
        raise ValueError("zero-size array to reduction operation")
    s = xs[0]
    for x in xs[1:]:
        s = f(s, x)
    return s


def _reduce(b, axis, f, keepdims=False):
    if axis is None:
        r = f(list(b.flat))
        return r
    axis = axis % b.ndim
    mv = np.moveaxis(b, axis, -1)
    out = np.empty(mv.shape[:-1], dtype=object)
    for i in np.ndindex(out.shape):
        out[i] = f(list(mv[i]))
    if keepdims:
        out = np.expand_dims(out, axis)
    if out.ndim == 0:
        return out[()]
    return out


def coerce_arr(a, dt, force=False):
    """Array with every element coerced to dt (a copy unless already of that dtype)."""
    if isinstance(a, SArr) and a._vd == dt and not force:
        return a
    b = plain(a) if isinstance(a, SArr) else np.asarray(a)
    if dt is None or dt.kind not in "fuib":
        r = np.asarray(b, dtype=object).view(SArr)
        r._vd = dt
        return r
    out = np.empty(b.shape, dtype=object)
    src = b if b.dtype == object else b.astype(object)
    of, sf = out.reshape(-1), src.reshape(-1)
    for i in range(sf.size):
        v = sf[i]
        of[i] = v if v is LAZY else coerce(v, dt)
    out = of.reshape(b.shape).view(SArr)
    out._vd = dt
    return out


def _div_elem(a, b):
    if isinstance(a, int) and isinstance(b, int):
        a = Fraction(a)
    try:
        return a / b
    except ZeroDivisionError:
        if is_sym(a):
            raise Unsupported("array division of a symbol by zero")
        if isinstance(a, float):
            return a
        return float("nan") if a == 0 else (INF if a > 0 else -INF)


def _objmap2(f, a, b):
    a, b = np.broadcast_arrays(np.asarray(a, dtype=object), np.asarray(b, dtype=object))
    out = np.empty(a.shape, dtype=object)
    for i in np.ndindex(a.shape):
        out[i] = f(a[i], b[i])
    return out


def _objmap1(f):
    def g(a):
        a = np.asarray(a, dtype=object)
        out = np.empty(a.shape, dtype=object)
        for i in np.ndindex(a.shape):
            out[i] = f(a[i])
        return out if a.ndim else out[()]
    return g


def _masked(ufunc, ins, where, out, rd):
    """ufunc(..., where=mask): the others keep what out holds (or arbitrary contents)."""
    where = np_asarray(where)
    where = where._materialize() if isinstance(where, SArr) else where
    ins = [np.asarray(x, dtype=object) for x in ins]
    shape = np.broadcast_shapes(where.shape, *[x.shape for x in ins])
    o = out[0] if isinstance(out, tuple) else out
    if o is None:
        o = np_empty(shape, rd)
    elif not isinstance(o, SArr):
        raise Unsupported("ufunc out= real array")
    where = np.broadcast_to(where, shape)
    ins = [np.broadcast_to(x, shape) for x in ins]
    for i in np.ndindex(shape):
        if bool(_tobool(where[i])):
            xs = [wrap(np.array([x[i]], dtype=object), rd) for x in ins]
            o[i] = ufunc(*xs)[0]
    return o


def _logaddexp(a, b):
    """Without overflow, as numpy computes it."""
    a, b = _norm(a), _norm(b)
    if bool(a >= b):
        return a + f_log(1 + f_exp(b - a))
    return b + f_log(1 + f_exp(a - b))


def _rint(x):
    x = _norm(x)
    if isinstance(x, SReal):
        f = f_floor(x + Fraction(1, 2))
        if bool((f - x) == Fraction(1, 2)) and bool(f % 2 != 0):
            return f - 1
        return f
    return round(x)


def f_log(x):
    if isinstance(x, SBase):
        return x.log()
    if isinstance(x, (int, Fraction)) and not isinstance(x, bool):
        if x == 1:
            return Fraction(0)
        if x == 0 and getattr(eng(), "exp_range", False):
            return float("-inf")
        if eng() is not None and x > 0:
            return _const_log(Fraction(x))
    return _math.log(x)


def _const_log(x):
    """log of a positive rational constant: kept as LOG(x) so that exp(log x) = x, with
    a numeric enclosure for comparisons."""
    from .sym import LOGF, to_real_ast
    t = LOGF(to_real_ast(x))
    v = Fraction(_math.log(x.numerator) - _math.log(x.denominator))
    e = eng()
    key = ("logc", x)
    if key not in e.exps:
        e.exps[key] = True
        d = Fraction(1, 10 ** 9)
        e.assume_fact(z3.And(t >= to_real_ast(v - d), t <= to_real_ast(v + d)))
    return SReal(t)


def f_exp(x):
    if isinstance(x, SBase):
        if getattr(eng(), "exp_range", False):
            # single precision: overflows to inf, underflows to 0
            if bool(x > 89):
                return float("inf")
            if bool(x < -104):
                return Fraction(0)
        return x.exp()
    if isinstance(x, (int, Fraction)):
        if x == 0:
            return Fraction(1)
        if eng() is not None:
            from .sym import exp_of
            return mkreal(exp_of(to_real_ast(x)))
    return _math.exp(x)


def f_sqrt(x):
    if isinstance(x, SBase):
        return x.sqrt()
    r = _math.sqrt(x)
    if isinstance(x, (int, Fraction)) and Fraction(r) ** 2 == x:
        return Fraction(r)
    return r


def f_isnan(x):
    x = _norm(x)
    if isinstance(x, SNFloat):
        return x.isnan()
    if isinstance(x, float):
        return x != x
    return False


def f_isinf(x):
    x = _norm(x)
    return isinstance(x, float) and x in (INF, -INF)


def f_log2(x):
    x = _norm(x)
    if isinstance(x, SBV):
        return x.log2()
    if isinstance(x, SInt):
        return SLog2(x)
    if isinstance(x, SBase):
        raise Unsupported("log2")
    return float(np.log2(float(x)))


def f_floor(x):
    x = _norm(x)
    if isinstance(x, SBase):
        return x.__floor__()
    return _math.floor(x)


def f_ceil(x):
    x = _norm(x)
    if isinstance(x, SBase):
        return x.__ceil__()
    return _math.ceil(x)


def f_abs(x):
    return abs(x)


_UFUNC = {
    "log": _objmap1(f_log), "exp": _objmap1(f_exp), "sqrt": _objmap1(f_sqrt),
    "isnan": _objmap1(f_isnan), "isinf": _objmap1(f_isinf),
    "isfinite": _objmap1(lambda x: not_(f_isnan(x)) if not f_isinf(x) else False),
    "log2": _objmap1(f_log2), "floor": _objmap1(f_floor), "ceil": _objmap1(f_ceil),
    "absolute": _objmap1(f_abs), "fabs": _objmap1(f_abs),
    "logical_not": _objmap1(lambda x: not_(_tobool(x))),
    "invert": _objmap1(lambda x: not_(x) if isinstance(x, (bool, SBool)) else ~x),
    "logical_and": lambda a, b: _objmap2(lambda x, y: _tobool(x) & _tobool(y), a, b),
    "logical_or": lambda a, b: _objmap2(lambda x, y: _tobool(x) | _tobool(y), a, b),
    "maximum": lambda a, b: _objmap2(_max2, a, b),
    "minimum": lambda a, b: _objmap2(_min2, a, b),
    "rint": _objmap1(_rint), "log1p": _objmap1(lambda x: f_log(1 + x)),
    "expm1": _objmap1(lambda x: f_exp(x) - 1),
    "square": _objmap1(lambda x: x * x),
    "less": lambda a, b: _objmap2(lambda x, y: x < y, a, b),
    "less_equal": lambda a, b: _objmap2(lambda x, y: x <= y, a, b),
    "greater": lambda a, b: _objmap2(lambda x, y: x > y, a, b),
    "greater_equal": lambda a, b: _objmap2(lambda x, y: x >= y, a, b),
    "equal": lambda a, b: _objmap2(lambda x, y: x == y, a, b),
    "not_equal": lambda a, b: _objmap2(lambda x, y: x != y, a, b),
}


# ---------------------------------------------------------------- structured arrays
class RecView:
    __slots__ = ("arr", "i")

    def __init__(self, arr, i):
        self.arr, self.i = arr, i

    def __getitem__(self, name):
        return self.arr.fields[name][self.i]

    def __setitem__(self, name, v):
        self.arr.fields[name][self.i] = v

    def __getattr__(self, name):
        if name in RecView.__slots__:
            raise AttributeError(name)
        return self.arr.fields[name][self.i]


class RecArr:
    def __init__(self, fields, dt):
        self.fields, self.dt = fields, dt

    @classmethod
    def make(cls, n, dt, filler):
        return cls({f: filler((n,), dt.fields[f][0]) for f in dt.names}, dt)

    @property
    def dtype(self):
        return self.dt

    @property
    def size(self):
        return len(self)

    @property
    def shape(self):
        return (len(self),)

    ndim = 1

    def __len__(self):
        return len(self.fields[self.dt.names[0]])

    def __getitem__(self, idx):
        if isinstance(idx, str):
            return self.fields[idx]
        idx = conv_index(idx)
        if isinstance(idx, int):
            n = len(self)
            if idx >= 2 ** 63:
                idx -= 2 ** 64
            if idx >= n or idx < -n:
                raise IndexError("index %d is out of bounds for size %d" % (idx, n))
            return RecView(self, idx if idx >= 0 else idx + n)
        return RecArr({f: a[idx] for f, a in self.fields.items()}, self.dt)

    def __setitem__(self, idx, val):
        if isinstance(idx, str):
            self.fields[idx][...] = val
            return
        idx = conv_index(idx)
        if isinstance(val, RecView):
            for f, a in self.fields.items():
                a[idx] = val[f]
        elif isinstance(val, RecArr):
            if not isinstance(idx, int):
                n = len(plain(self.fields[self.dt.names[0]])[idx])
                if n != len(val) and len(val) != 1:
                    raise ValueError("could not broadcast input array")
            for f, a in self.fields.items():
                a[idx] = val.fields[f]
        else:
            raise Unsupported("store into a record array")

    def __iter__(self):
        for i in range(len(self)):
            yield self[i]

    def copy(self, order="C"):
        return RecArr({f: a.copy() for f, a in self.fields.items()}, self.dt)


# ---------------------------------------------------------------- numpy functions
def _shape(s):
    s = _norm(s)
    if isinstance(s, (tuple, list)):
        return tuple(index_of(_norm(x)) for x in s)
    return (index_of(s),)


def _chk(shape):
    n = 1
    for s in shape:
        if s < 0:
            raise ValueError("negative dimensions are not allowed")
        n *= s
    if n > 5_000_000:
        raise Unsupported("array too large for the symbolic run")


def _filled(value):
    def f(shape, dt):
        a = np.empty(shape, dtype=object)
        a.fill(value(dt) if callable(value) else value)
        a = a.view(SArr)
        a._vd = dt
        return a
    return f


def np_zeros(shape, dtype=None, order="C", **kw):
    shape, dt = _shape(shape), vdt(dtype)
    _chk(shape)
    z = lambda d: Fraction(0) if d.kind == "f" else (False if d.kind == "b" else 0)
    if dt.names:
        return RecArr.make(shape[0], dt, _filled(z))
    return _filled(z)(shape, dt)


def np_empty(shape, dtype=None, order="C", **kw):
    shape, dt = _shape(shape), vdt(dtype)
    _chk(shape)
    if dt.names:
        return RecArr.make(shape[0], dt, _filled(lambda d: LAZY))
    return _filled(lambda d: LAZY)(shape, dt)


def np_full(shape, v, dtype=None, **kw):
    a = np_empty(shape, dtype if dtype is not None else _py_dt(v))
    a[...] = v
    return a


def np_ones(shape, dtype=None, **kw):
    return np_full(shape, 1, dtype if dtype is not None else np.float64)


def _py_dt(v):
    v = _norm(v)
    if isinstance(v, (bool, SBool)):
        return np.dtype(bool)
    if isinstance(v, (int, SInt)):
        return np.dtype(np.int64)
    if isinstance(v, SBV):
        return np.dtype(np.uint64)
    if isinstance(v, (float, Fraction, SReal, SNFloat)):
        return np.dtype(np.float64)
    return np.dtype(object)


def np_zeros_like(a, dtype=None, **kw):
    return np_zeros(a.shape, dtype if dtype is not None else a.dtype)


def np_empty_like(a, dtype=None, **kw):
    return np_empty(a.shape, dtype if dtype is not None else a.dtype)


def np_ones_like(a, dtype=None, **kw):
    return np_ones(a.shape, dtype if dtype is not None else a.dtype)


def np_full_like(a, v, dtype=None, **kw):
    return np_full(a.shape, v, dtype if dtype is not None else a.dtype)


def np_array(x, dtype=None, copy=True, **kw):
    if hasattr(x, "_vf_values"):
        x = x._vf_values()
    if isinstance(x, RecArr):
        return x.copy() if copy else x
    if isinstance(x, SArr):
        if dtype is None or vdt(dtype) == x.dtype:
            return x.copy() if copy else x
        return x.astype(dtype)
    if isinstance(x, np.ndarray):
        dt = vdt(dtype) if dtype is not None else x.dtype
        if dt.kind not in "fuib":
            return np.array(x, dtype=dtype) if copy else np.asarray(x, dtype=dtype)
        return coerce_arr(x, dt, force=True)
    if isinstance(x, (SBase, Fraction)):
        a = np.empty((), dtype=object)
        a[()] = x
    else:
        if isinstance(x, (list, tuple)) and any(isinstance(e, SArr) for e in x):
            for e in x:
                if isinstance(e, SArr):
                    e._materialize()
            x = [list(plain(e)) if isinstance(e, SArr) else e for e in x]
        if dtype is None and not _contains_sym(x):
            r = np.array(x)
            if r.dtype.kind not in "fuib":
                return r
            return coerce_arr(r, r.dtype, force=True)
        a = np.array(x, dtype=object)
    if dtype is None:
        flat = list(a.flat)
        dt = None
        for v in flat:
            d = _py_dt(v)
            if d.kind == "O":
                dt = d
                break
            dt = d if dt is None else (np.result_type(dt, d) if dt != d else dt)
        if dt is None:
            dt = np.dtype(np.float64)
    else:
        dt = vdt(dtype)
    if dt.kind not in "fuib":
        if dtype is not None and not _contains_sym(x):
            return np.array(x, dtype=dtype)
        if any(hasattr(e, "vf_text") for e in a.flat):
            return SArr(a, np.dtype(object))
        return a
    return coerce_arr(a, dt, force=True)


def _contains_sym(x):
    if isinstance(x, (SBase, Fraction)) or hasattr(x, "vf_text"):
        return True
    if isinstance(x, (list, tuple)):
        return any(_contains_sym(e) for e in x)
    if isinstance(x, np.ndarray) and x.dtype == object:
        return any(isinstance(e, (SBase, Fraction)) or hasattr(e, "vf_text")
                   for e in plain(x).flat)
    return False


def np_asarray(x, dtype=None, **kw):
    if isinstance(x, SArr) and (dtype is None or vdt(dtype) == x.dtype):
        return x
    return np_array(x, dtype, copy=False)


def np_arange(*a, dtype=None, **kw):
    a = [index_of(_norm(v)) if not isinstance(v, float) else v for v in a]
    r = np.arange(*a)
    dt = vdt(dtype) if dtype is not None else r.dtype
    return coerce_arr(r, dt, force=True)


def _rows(a):
    return a if isinstance(a, SArr) else np_asarray(a)


def _merge_argsort(vals):
    """Stable argsort by comparisons (each comparison may fork)."""
    idx = []
    for i, v in enumerate(vals):
        j = len(idx)
        while j > 0 and bool(v < vals[idx[j - 1]]):
            j -= 1
        idx.insert(j, i)
    return idx


def _nan_last(vals):
    ok, nan = [], []
    for i, v in enumerate(vals):
        (nan if bool(f_isnan(v)) else ok).append(i)
    return ok, nan


def np_argsort(a, axis=-1, kind=None, **kw):
    a = _rows(a)
    if a.ndim != 1:
        raise Unsupported("argsort nd")
    vals = list(a._materialize())
    ok, nan = _nan_last(vals)
    o = [ok[i] for i in _merge_argsort([vals[i] for i in ok])]
    return np_array(o + nan, np.intp)


def np_sort(a, axis=-1, **kw):
    a = _rows(a)
    return a[plain(np_argsort(a)).astype(np.intp)].copy()


def np_unique(a, return_index=False, return_inverse=False, return_counts=False, **kw):
    if not isinstance(a, SArr):
        if not _contains_sym(a):
            return np.unique(a, return_index=return_index, return_inverse=return_inverse,
                             return_counts=return_counts, **kw)
        a = np_asarray(a)
    if return_index:
        raise Unsupported("unique return_index")
    s = list(a._materialize().flat)
    ok, nan = _nan_last(s)
    order = [ok[i] for i in _merge_argsort([s[i] for i in ok])]
    out, counts, inv = [], [], {}
    for i in order:
        if out and bool(s[i] == out[-1]):
            counts[-1] += 1
        else:
            out.append(s[i])
            counts.append(1)
        inv[i] = len(out) - 1
    if nan:
        out.append(float("nan"))
        counts.append(len(nan))
        for i in nan:
            inv[i] = len(out) - 1
    r = [np_array(out, a.dtype)]
    if return_inverse:
        r.append(np_array([inv[i] for i in range(len(s))], np.intp))
    if return_counts:
        r.append(np_array(counts, np.intp))
    return r[0] if len(r) == 1 else tuple(r)


def np_argmax(a, axis=None, less=False, **kw):
    a = _rows(a)
    b = a._materialize()

    def f(xs):
        best = 0
        for i in range(1, len(xs)):
            if bool(xs[i] < xs[best]) if less else bool(xs[i] > xs[best]):
                best = i
        return best
    return wrap(_reduce(b, axis, f), np.dtype(np.intp))


def np_argmin(a, axis=None, **kw):
    return np_argmax(a, axis, less=True)


def np_searchsorted(a, v, side="left", **kw):
    a = _rows(a)
    vals = list(a._materialize())

    def one(x):
        lo, hi = 0, len(vals)
        while lo < hi:
            m = (lo + hi) // 2
            c = (vals[m] < x) if side == "left" else not_(x < vals[m])
            if bool(c):
                lo = m + 1
            else:
                hi = m
        return lo
    if isinstance(v, np.ndarray):
        return np_array([one(x) for x in _rows(v)], np.intp)
    return one(v)


def np_bincount(x, weights=None, minlength=0):
    x = _rows(x)
    idx = [index_of(_norm(i)) for i in x]
    if any(i < 0 for i in idx):
        raise ValueError("'list' argument must have no negative elements")
    n = max([index_of(_norm(minlength))] + [i + 1 for i in idx])
    out = np_zeros(n, np.intp if weights is None else np.float64)
    for k, i in enumerate(idx):
        out[i] = out[i] + (1 if weights is None else weights[k])
    return out


def np_where(c, *a):
    c = _rows(c)
    if not a:
        return c.nonzero()
    x, y = a
    cb = c._materialize()
    xb = np.broadcast_to(plain(np_asarray(x)) if isinstance(x, np.ndarray) else
                         np.asarray(x, dtype=object), cb.shape)
    yb = np.broadcast_to(plain(np_asarray(y)) if isinstance(y, np.ndarray) else
                         np.asarray(y, dtype=object), cb.shape)
    out = np.empty(cb.shape, dtype=object)
    for i in np.ndindex(cb.shape):
        out[i] = xb[i] if bool(_tobool(cb[i])) else yb[i]
    dx = x.dtype if isinstance(x, np.ndarray) else _py_dt(x)
    dy = y.dtype if isinstance(y, np.ndarray) else _py_dt(y)
    dt = dx if isinstance(x, np.ndarray) and not isinstance(y, np.ndarray) else (
        dy if isinstance(y, np.ndarray) and not isinstance(x, np.ndarray)
        else np.result_type(dx, dy))
    return wrap(out, dt)


def np_clip(a, a_min=None, a_max=None, out=None, **kw):
    a = _rows(a)
    b = a._materialize()
    r = np.empty(b.shape, dtype=object)
    for i in np.ndindex(b.shape):
        v = b[i]
        if a_min is not None and bool(v < a_min):
            v = a_min
        if a_max is not None and bool(v > a_max):
            v = a_max
        r[i] = v
    r = wrap(r, a.dtype)
    if out is not None:
        out[...] = r
        return out
    return r


def np_percentile(a, q, axis=None, out=None, method="linear", **kw):
    """Contract of numpy.percentile for 1-D finite data."""
    a = np_sort(_rows(a))
    n = len(a)
    qs = [q] if not isinstance(q, (np.ndarray, list, tuple)) else list(q)
    res = []
    for p in qs:
        p = _norm(p)
        p = Fraction(p) if not isinstance(p, Fraction) else p
        # the percentiles produced by linspace carry float rounding: snap to the grid
        p = p.limit_denominator(10 ** 6)
        h = p / 100 * (n - 1)
        lo = _math.floor(h)
        hi = min(lo + 1, n - 1)
        fr = h - lo
        if method == "midpoint":
            v = a[lo] if fr == 0 else (a[lo] + a[hi]) / 2
        elif method == "lower":
            v = a[lo]
        elif method == "higher":
            v = a[lo] if fr == 0 else a[hi]
        elif method == "nearest":
            v = a[lo] if fr < Fraction(1, 2) or (fr == Fraction(1, 2) and lo % 2 == 0) else a[hi]
        elif method == "linear":
            v = a[lo] + (a[hi] - a[lo]) * fr
        else:
            raise Unsupported("percentile method " + method)
        res.append(v)
    return np_array(res, np.float64) if isinstance(q, (np.ndarray, list, tuple)) else res[0]


def np_quantile(a, q, **kw):
    if isinstance(q, (np.ndarray, list, tuple)):
        return np_percentile(a, [Fraction(_norm(x)) * 100 for x in q], **kw)
    return np_percentile(a, Fraction(_norm(q)) * 100, **kw)


def np_linspace(start, stop, num=50, endpoint=True, **kw):
    start, stop, num = Fraction(_norm(start)), Fraction(_norm(stop)), index_of(_norm(num))
    d = (num - 1) if endpoint else num
    return np_array([start + (stop - start) * i / d if d else start
                     for i in range(num)], np.float64)


def np_concatenate(arrs, axis=0, **kw):
    arrs = [np_asarray(a) for a in arrs]
    for a in arrs:
        if isinstance(a, SArr):
            a._materialize()
    r = np.concatenate([plain(a).astype(object) for a in arrs], axis=axis)
    dts = [a.dtype for a in arrs if a.size] or [arrs[0].dtype]
    return wrap(r, np.result_type(*dts))


def np_stack_fn(fn):
    def f(arrs, *a, **k):
        arrs = [np_asarray(x) for x in arrs]
        for x in arrs:
            if isinstance(x, SArr):
                x._materialize()
        r = fn([plain(x).astype(object) for x in arrs], *a, **k)
        return wrap(r, np.result_type(*[x.dtype for x in arrs]))
    return f


def np_dot(a, b):
    a, b = _rows(a), _rows(b)
    r = np.dot(a._materialize(), b._materialize())
    dt = a.dtype if a.dtype.kind == "f" else b.dtype
    return wrap(r, dt)


def _viewfn(fn):
    def f(a, *args, **kw):
        if isinstance(a, SArr):
            r = fn(plain(a), *args, **kw)
            r = r.view(SArr)
            r._vd = a._vd
            return r
        return fn(a, *args, **kw)
    return f


def _elem(f, ufname):
    def g(x, *a, **k):
        if isinstance(x, np.ndarray):
            x = np_asarray(x)
            if isinstance(x, SArr):
                out = k.pop("out", None)
                r = x.__array_ufunc__(getattr(np, ufname), "__call__", x)
                if out is not None:
                    out[...] = r
                    return out
                return r
            return getattr(np, ufname)(x, *a, **k)
        if isinstance(x, (list, tuple)):
            return g(np_asarray(x))
        return f(x)
    return g


def _elem2(f):
    def g(a, b, **kw):
        if not isinstance(a, (np.ndarray, list, tuple)) and \
                not isinstance(b, (np.ndarray, list, tuple)):
            return f(a, b)
        a, b = np_asarray(a), np_asarray(b)
        dts = [x.dtype for x in (a, b)]
        a, b = [x._materialize() if isinstance(x, SArr) else x for x in (a, b)]
        x, y = np.broadcast_arrays(np.asarray(a, dtype=object), np.asarray(b, dtype=object))
        r = np.empty(x.shape, dtype=object)
        for i in np.ndindex(x.shape):
            r[i] = f(x[i], y[i])
        return wrap(r, np.result_type(*dts))
    return g


def np_append(arr, values, axis=None):
    arr, values = np_asarray(arr), np_asarray(values)
    if axis is None:
        arr, values = arr.ravel(), values.ravel()
        axis = 0
    return np_concatenate((arr, values), axis=axis)


def np_result_type(*xs):
    return np.result_type(*[x.dtype if isinstance(x, SArr) else _scalar_dt(x)
                            if isinstance(x, (SBase, Fraction)) else x for x in xs])


def np_divmod(a, b, **kw):
    return a // b, a % b


def _tri(fn):
    def g(a, *args, **kw):
        return wrap(fn(_rows(a)._materialize(), *args, **kw), a.dtype)
    return g


def _meth(name):
    def g(a, *args, **kw):
        if isinstance(a, (list, tuple)):
            a = np_asarray(a)
        if isinstance(a, SArr):
            return getattr(a, name)(*args, **kw)
        return getattr(np, name)(a, *args, **kw)
    return g


class RandomStub:
    """np.random as used inside the kernels: every draw is an arbitrary value of its
    range (one symbolic variable per draw)."""

    def __init__(self):
        self.seeds = []
        self.draws = []

    def seed(self, s=None):
        self.seeds.append(s)
        hook = getattr(self, "on_seed", None)
        if hook:
            hook(s)

    def randint(self, low, high=None, size=None, dtype=None):
        if high is None:
            low, high = 0, low
        if size is not None:
            n = _shape(size)
            tot = 1
            for s in n:
                tot *= s
            return np_array([self.randint(low, high) for _ in range(tot)],
                            dtype or np.int64).reshape(n)
        hook = getattr(self, "on_randint", None)
        if hook:
            return hook(low, high)
        e = eng()
        v = z3.Int(e.fresh_name("randint"))
        r = SInt(v, low if isinstance(low, int) else None,
                 high - 1 if isinstance(high, int) else None)
        e.assume((r >= low) & (r < high))
        self.draws.append((r, low, high))
        return r

    def __getattr__(self, name):
        if name in ("RandomState", "Generator", "mtrand"):
            return getattr(np.random, name)
        raise AttributeError(name)


class Text(str):
    """A rendered array: the text and what it shows."""
    arr = None


def np_array2string(a, *args, **kw):
    if not isinstance(a, SArr):
        return np.array2string(a, *args, **kw)
    t = Text("[" + " ".join("?" for _ in a) + "]")
    t.arr = list(a)
    return t


class NumpyShim(types.ModuleType):
    def __init__(self):
        super().__init__("numpy")
        d = self.__dict__
        self.random = RandomStub()
        d.update(
            array2string=np_array2string, append=np_append, result_type=np_result_type,
            logaddexp=_elem2(_logaddexp), divmod=np_divmod,
            log1p=_elem(lambda x: f_log(1 + x), "log1p"),
            expm1=_elem(lambda x: f_exp(x) - 1, "expm1"),
            rint=_elem(_rint, "rint"), round=_elem(_rint, "rint"),
            logical_xor=_elem2(lambda a, b: _tobool(a) != _tobool(b)),
            outer=lambda a, b: wrap(np.outer(_rows(a)._materialize(),
                                             _rows(b)._materialize()),
                                    np.result_type(a.dtype, b.dtype)),
            tril=_tri(np.tril), triu=_tri(np.triu),
            zeros=np_zeros, empty=np_empty, full=np_full, ones=np_ones,
            zeros_like=np_zeros_like, empty_like=np_empty_like, ones_like=np_ones_like,
            full_like=np_full_like, array=np_array, asarray=np_asarray,
            ascontiguousarray=np_asarray, asanyarray=np_asarray,
            asfortranarray=np_asarray, arange=np_arange, sort=np_sort,
            argsort=np_argsort, unique=np_unique, argmax=np_argmax, argmin=np_argmin,
            searchsorted=np_searchsorted, bincount=np_bincount, where=np_where,
            clip=np_clip, percentile=np_percentile, quantile=np_quantile,
            linspace=np_linspace, concatenate=np_concatenate,
            vstack=np_stack_fn(np.vstack), hstack=np_stack_fn(np.hstack),
            stack=np_stack_fn(np.stack), column_stack=np_stack_fn(np.column_stack),
            dot=np_dot, expand_dims=_viewfn(np.expand_dims),
            transpose=_viewfn(np.transpose), reshape=_viewfn(np.reshape),
            ravel=_viewfn(np.ravel), squeeze=_viewfn(np.squeeze),
            atleast_1d=_viewfn(np.atleast_1d), atleast_2d=_viewfn(np.atleast_2d),
            flip=_viewfn(np.flip), tile=_viewfn(np.tile), repeat=_viewfn(np.repeat),
            broadcast_to=_viewfn(np.broadcast_to),
            log=_elem(f_log, "log"), exp=_elem(f_exp, "exp"), sqrt=_elem(f_sqrt, "sqrt"),
            log2=_elem(f_log2, "log2"), isnan=_elem(f_isnan, "isnan"),
            isinf=_elem(f_isinf, "isinf"),
            isfinite=_elem(lambda x: not_(f_isnan(x)) if not f_isinf(x) else False,
                           "isfinite"),
            floor=_elem(f_floor, "floor"), ceil=_elem(f_ceil, "ceil"),
            abs=_elem(f_abs, "absolute"), absolute=_elem(f_abs, "absolute"),
            fabs=_elem(f_abs, "absolute"), square=_elem(lambda x: x * x, "square"),
            logical_not=_elem(lambda x: not_(_tobool(x)), "logical_not"),
            sum=_meth("sum"), prod=_meth("prod"), mean=_meth("mean"), max=_meth("max"),
            min=_meth("min"), amax=_meth("max"), amin=_meth("min"), any=_meth("any"),
            all=_meth("all"), cumsum=_meth("cumsum"), take=_meth("take"),
            nonzero=_meth("nonzero"), copy=_meth("copy"),
            flatnonzero=lambda a: np_asarray(a).ravel().nonzero()[0],
            count_nonzero=lambda a, axis=None: (np_asarray(a) != 0).sum(axis=axis)
            if np_asarray(a).dtype.kind != "b" else np_asarray(a).sum(axis=axis),
            isscalar=lambda x: isinstance(x, (SBase, Fraction)) or np.isscalar(x),
            ones_=None,
        )

    def __getattr__(self, name):
        return getattr(np, name)


class MathShim(types.ModuleType):
    def __init__(self):
        super().__init__("math")
        self.__dict__.update(log=f_log, exp=f_exp, sqrt=f_sqrt, isnan=f_isnan,
                             floor=f_floor, ceil=f_ceil, log2=f_log2, isinf=f_isinf,
                             log1p=lambda x: f_log(1 + x),
                             expm1=lambda x: f_exp(x) - 1,
                             fabs=f_abs, isfinite=lambda x: not_(f_isnan(x))
                             if not f_isinf(x) else False)

    def __getattr__(self, name):
        return getattr(_math, name)


def s_range(*a):
    """range as numba has it: float bounds are truncated, symbolic ones resolved."""
    return range(*(index_of(_norm(x)) for x in a))


# ---------------------------------------------------------------- numba
class Signature:
    def __init__(self, ret, args):
        self.ret, self.args = ret, args


class NumbaType:
    """Scalar type: callable as a cast or as a signature; [..] makes an array type."""

    def __init__(self, name, dt):
        self.name, self.dt = name, np.dtype(dt) if dt is not None else None

    def __call__(self, *args):
        if len(args) == 1 and not _is_type(args[0]):
            return coerce(_norm(args[0]), self.dt)
        return Signature(self, args)

    def __getitem__(self, _):
        return ArrayType(self)

    def __repr__(self):
        return self.name


class ArrayType:
    def __init__(self, base):
        self.base = base

    def __call__(self, *args):
        return Signature(self, args)

    def __getitem__(self, _):
        return self


class RecType(NumbaType):
    def __init__(self, dt):
        self.name, self.dt = "record", dt

    def __call__(self, *args):
        return Signature(self, args)


class OtherType:
    def __init__(self, name, *a):
        self.name, self.a = name, a

    def __call__(self, *args):
        return Signature(self, args)

    def __getitem__(self, _):
        return ArrayType(self)


def _is_type(x):
    return isinstance(x, (NumbaType, ArrayType, OtherType, Signature)) or (
        isinstance(x, types.FunctionType) and x.__name__ == "<lambda>") or x is None


LOCALS = {}  # (module, function) -> declared locals


def coerce_decl(typ, v):
    if isinstance(typ, NumbaType) and not isinstance(typ, RecType) and typ.dt is not None:
        if isinstance(v, (np.ndarray, RecArr)) or v is None:
            return v
        return coerce(_norm(v), typ.dt)
    if isinstance(typ, ArrayType):
        b = typ.base
        if isinstance(v, SArr) and isinstance(b, NumbaType) and b.dt is not None \
                and not b.dt.names and v._vd is not None and v._vd != b.dt \
                and v._vd.kind in "fuib":
            raise TypeError("array of %s bound to a variable declared %s" % (v._vd, b.dt))
        return v
    return v


def make_jit():
    def jit(*args, **kw):
        if len(args) == 1 and isinstance(args[0], types.FunctionType) and not kw:
            return args[0]
        sig = args[0] if args else kw.get("signature")
        locs = kw.get("locals") or {}

        def deco(fn):
            LOCALS[(fn.__module__, fn.__qualname__)] = locs
            sigs = sig if isinstance(sig, (list, tuple)) else ([sig] if sig else [])
            sigs = [s for s in sigs if isinstance(s, Signature)]
            if not sigs:
                return fn
            n = len(sigs[0].args)
            pos = []
            for i in range(n):
                ts = {getattr(s.args[i], "name", None) if isinstance(
                    s.args[i], NumbaType) else None for s in sigs if len(s.args) == n}
                t = sigs[0].args[i]
                pos.append(t if len(ts) == 1 and isinstance(t, NumbaType)
                           and not isinstance(t, RecType) else None)
            rt = sigs[0].ret if len({getattr(s.ret, "name", None) for s in sigs}) == 1 \
                else None

            def wrapper(*a, **k):
                a = list(a)
                for i, t in enumerate(pos):
                    if t is not None and i < len(a):
                        a[i] = coerce_decl(t, a[i])
                r = fn(*a, **k)
                if isinstance(rt, NumbaType) and not isinstance(rt, RecType) \
                        and rt.dt is not None:
                    return coerce_decl(rt, r)
                if isinstance(rt, OtherType) and rt.name == "Tuple" and isinstance(r, tuple):
                    return tuple(coerce_decl(t, v) for t, v in zip(rt.a[0], r))
                return r
            wrapper.__name__ = fn.__name__
            wrapper.__qualname__ = fn.__qualname__
            wrapper.__module__ = fn.__module__
            wrapper.py_func = fn
            return wrapper
        return deco
    return jit


def make_jitclass():
    def jitclass(*args, **kw):
        spec = args[0] if args and not isinstance(args[0], type) else kw.get("spec")

        def deco(cls):
            types_ = dict(spec) if spec else {}
            orig = cls.__setattr__

            def setattr_(self, name, v):
                t = types_.get(name)
                if t is None and spec and name not in types_:
                    raise AttributeError("jitclass %s has no member %s"
                                         % (cls.__name__, name))
                object.__setattr__(self, name, coerce_decl(t, v) if t is not None else v)
            cls.__setattr__ = setattr_
            return cls
        if args and isinstance(args[0], type):
            return args[0]
        return deco
    return jitclass


def make_numba():
    nb = types.ModuleType("numba")
    scal = {}
    for n in ("int8", "int16", "int32", "int64", "uint8", "uint16", "uint32", "uint64",
              "float32", "float64"):
        scal[n] = NumbaType(n, n)
    scal["intp"] = NumbaType("intp", np.intp)
    scal["uintp"] = NumbaType("uintp", np.uintp)
    scal["boolean"] = scal["bool_"] = scal["b1"] = NumbaType("boolean", np.bool_)
    scal["i8"] = scal["int64"]
    scal["u8"] = scal["uint64"]
    scal["f4"] = scal["float32"]
    scal["f8"] = scal["float64"]
    nb.__dict__.update(scal)
    nb.void = OtherType("void")
    nb.none = OtherType("none")
    nb.optional = lambda t: OtherType("optional", t)
    nb.from_dtype = lambda dt: RecType(dt)
    nb.jit = nb.njit = make_jit()
    nb.prange = range
    nb.vectorize = make_jit()
    nb.literal_unroll = lambda x: x
    ty = types.ModuleType("numba.types")
    ty.__dict__.update(scal)
    ty.Tuple = lambda ts: OtherType("Tuple", ts)
    ty.UniTuple = lambda t, n: OtherType("Tuple", [t] * n)
    ty.void = nb.void
    ty.Optional = ty.optional = nb.optional
    nb.types = ty
    ex = types.ModuleType("numba.experimental")
    ex.jitclass = make_jitclass()
    nb.experimental = ex
    core = types.ModuleType("numba.core")
    core.types = ty
    nb.core = core
    nb.__version__ = "0.59.1"
    return {"numba": nb, "numba.types": ty, "numba.experimental": ex, "numba.core": core,
            "numba.core.types": ty}


NUMPY = NumpyShim()
MATH = MathShim()
