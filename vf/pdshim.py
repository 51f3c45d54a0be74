"""A pandas stand-in for the symbolic world: Series and DataFrames whose entries may be
symbolic. Only the contracts the encoding code relies on are modelled (order, missing
entries, categories and their codes); whatever is not modelled raises Unsupported, and
data without symbolic entries goes to the real pandas."""
import types
from fractions import Fraction

import numpy as np
import pandas as rpd

from . import shim
from .shim import SArr, np_unique, np_asarray, np_array, plain, f_isnan, _tobool
from .sym import SBase, Unsupported, eng, mkbool, z3, _norm


class Letter:
    """A text category: the i-th letter (only order and equality are visible)."""
    vf_text = True
    __slots__ = ("i",)

    def __init__(self, i):
        self.i = i

    def _o(self, o):
        return o.i if isinstance(o, Letter) else None

    def __eq__(self, o):
        o = self._o(o)
        return False if o is None else self.i == o

    def __ne__(self, o):
        o = self._o(o)
        return True if o is None else self.i != o

    def _c(self, o, f):
        o = self._o(o)
        if o is None:
            raise TypeError("'<' not supported between instances of 'str' and another type")
        return f(self.i, o)

    def __lt__(self, o):
        return self._c(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._c(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._c(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._c(o, lambda a, b: a >= b)

    def __hash__(self):
        return 77

    def __float__(self):
        raise ValueError("could not convert string to float")

    def __repr__(self):
        return "Letter(%s)" % (self.i,)

    __str__ = __repr__


def missing(x):
    """Is this entry missing (bool or symbolic)?"""
    if x is None or x is rpd.NaT or x is rpd.NA:
        return True
    if isinstance(x, Letter):
        return False
    return f_isnan(x)


def _symbolic(a):
    b = plain(a) if isinstance(a, np.ndarray) else a
    return any(isinstance(x, (SBase, Letter)) for x in np.asarray(b, dtype=object).flat)


def _values(data, dtype=None):
    if isinstance(data, SymSeries):
        return data._vals()
    if isinstance(data, SymIndex):
        return data.values
    if isinstance(data, rpd.Series):
        data = data.values
    if isinstance(data, np.ndarray):
        if isinstance(data, SArr):
            return data
        return shim.coerce_arr(data, data.dtype, force=True)
    data = list(data)
    if any(isinstance(x, Letter) or x is None for x in data):
        return SArr(data, np.dtype(object))
    return np_array(data)


def real_array(a):
    """A concrete SArr as an ordinary array."""
    dt = a.dtype if isinstance(a, SArr) else a.dtype
    b = plain(a)
    if dt.kind in "fuib":
        return np.array([float(x) if isinstance(x, Fraction) else x for x in b.flat],
                        dtype=dt).reshape(b.shape)
    return np.array(b, dtype=object)


def _is_cat(dtype):
    return isinstance(dtype, rpd.CategoricalDtype) or (
        isinstance(dtype, str) and dtype == "category")


class SymIndex:
    def __init__(self, values):
        self.values = values
        self.dtype = values.dtype

    @property
    def size(self):
        return len(self.values)

    shape = property(lambda s: (len(s.values),))

    def __len__(self):
        return len(self.values)

    def __iter__(self):
        return iter(self.values)

    def __getitem__(self, i):
        return self.values[i]

    def __contains__(self, x):
        return any(bool(c == x) for c in self.values)

    def tolist(self):
        return list(self.values)

    to_list = tolist

    def to_numpy(self, *a, **k):
        return self.values

    def get_indexer(self, target):
        return np_array([_find(x, self.values) for x in _values(target)], np.intp)

    def _vf_values(self):
        return self.values

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported("Index." + name)


def _find(x, cats):
    if bool(_tobool(missing(x))):
        return -1
    for j, c in enumerate(cats):
        if bool(x == c):
            return j
    return -1


class _Cat:
    def __init__(self, s):
        self._s = s

    @property
    def categories(self):
        return SymIndex(self._s._cats)

    @property
    def codes(self):
        c = self._s._codes
        n = len(self._s._cats)
        dt = np.int8 if n < 127 else np.int16
        r = SymSeries(np_array(c, np.dtype(dt)), name=self._s.name)
        return r

    @property
    def ordered(self):
        return False

    def set_categories(self, new, **kw):
        if kw.get("rename"):
            raise Unsupported("set_categories(rename=True)")
        new = _values(new)
        old = self._s._cats
        m = {-1: -1}
        for c in set(self._s._codes):
            if c >= 0:
                m[c] = _find(old[c], new)
        r = SymSeries(None, name=self._s.name)
        r._cats, r._codes = new, [m[c] for c in self._s._codes]
        return r

    def remove_unused_categories(self):
        used = sorted({c for c in self._s._codes if c >= 0})
        m = {c: i for i, c in enumerate(used)}
        m[-1] = -1
        r = SymSeries(None, name=self._s.name)
        r._cats = self._s._cats[np.array(used, dtype=np.intp)]
        r._codes = [m[c] for c in self._s._codes]
        return r

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported("Series.cat." + name)


class SymSeries:
    def __init__(self, values, name=None, cats=None, codes=None):
        self._v = values
        self.name = name
        self._cats, self._codes = cats, codes

    # ---- shape and type
    @property
    def dtype(self):
        if self._codes is not None:
            return rpd.CategoricalDtype()
        return self._v.dtype

    dtypes = dtype

    def __len__(self):
        return len(self._codes) if self._codes is not None else len(self._v)

    size = property(__len__)
    shape = property(lambda s: (len(s),))
    ndim = 1

    @property
    def index(self):
        return rpd.RangeIndex(len(self))

    def _vals(self):
        if self._codes is None:
            return self._v
        vals = [float("nan") if c < 0 else self._cats[c] for c in self._codes]
        return SArr(vals, self._cats.dtype if self._cats.dtype.kind == "f"
                    else np.dtype(object))

    _vf_values = _vals

    @property
    def values(self):
        if self._codes is not None:
            raise Unsupported("Series.values of a categorical")
        return self._v

    def to_numpy(self, dtype=None, copy=False, **k):
        v = self._vals()
        if dtype is not None:
            return v.astype(dtype)
        return v.copy() if copy else v

    array = values

    def __iter__(self):
        return iter(self._vals())

    def __getitem__(self, i):
        if isinstance(i, SymSeries):
            i = i._vals()
        r = self._vals()[i]
        if isinstance(r, np.ndarray):
            return self._sub(np.arange(len(self))[shim.conv_index(i)])
        return r

    def _sub(self, idx):
        idx = [int(i) for i in idx]
        if self._codes is not None:
            return SymSeries(None, self.name, self._cats, [self._codes[i] for i in idx])
        return SymSeries(self._v[np.array(idx, dtype=np.intp)], self.name)

    @property
    def iloc(self):
        return self

    loc = iloc

    # ---- missing entries
    def isna(self):
        if self._codes is not None:
            return SymSeries(np_array([c < 0 for c in self._codes], np.dtype(bool)), self.name)
        return SymSeries(isna(self._v), self.name)

    isnull = isna

    def notna(self):
        return SymSeries(isna_not(self.isna()._v), self.name)

    notnull = notna

    @property
    def hasnans(self):
        return bool(_tobool(self.isna()._v.any()))

    def any(self, *a, **k):
        return self._vals().any()

    def all(self, *a, **k):
        return self._vals().all()

    def sum(self, *a, **k):
        return self._vals().sum()

    def dropna(self, *a, **k):
        keep = [i for i, m in enumerate(self.isna()._v) if not bool(_tobool(m))]
        return self._sub(keep)

    def fillna(self, v, **k):
        vals = self._vals().copy()
        for i, m in enumerate(self.isna()._v):
            if bool(_tobool(m)):
                vals[i] = v
        return SymSeries(vals, self.name)

    def __invert__(self):
        return SymSeries(isna_not(self._v), self.name)

    # ---- contents
    def copy(self, *a, **k):
        if self._codes is not None:
            return SymSeries(None, self.name, self._cats, list(self._codes))
        return SymSeries(self._v.copy(), self.name)

    def take(self, idx, **k):
        return self._sub(list(np.asarray(shim.conv_index(np_asarray(idx)))))

    def nunique(self, dropna=True):
        s = self.dropna()
        n = len(np_unique(s._vals())) if len(s) else 0
        if not dropna and len(s) < len(self):
            n += 1
        return n

    def unique(self):
        seen, out = [], []
        for x in self._vals():
            m = bool(_tobool(missing(x)))
            if m:
                if "nan" not in seen:
                    seen.append("nan")
                    out.append(float("nan"))
            elif not any(bool(x == y) for y in out if not (isinstance(y, float) and y != y)):
                out.append(x)
        return SArr(out, self._vals().dtype)

    @property
    def is_unique(self):
        return self.nunique(dropna=False) == len(self)

    def tolist(self):
        return list(self._vals())

    to_list = tolist

    def isin(self, vals):
        vals = list(vals)
        return SymSeries(np_array([any(bool(x == v) for v in vals) for x in self._vals()],
                                  np.dtype(bool)), self.name)

    def map(self, f):
        g = (lambda x: f.get(x, float("nan"))) if isinstance(f, dict) else f
        return SymSeries(np_array([g(x) for x in self._vals()]), self.name)

    apply = map

    def astype(self, dtype, copy=True, **k):
        if isinstance(dtype, rpd.CategoricalDtype) and dtype.categories is not None:
            return self.astype("category").cat.set_categories(dtype.categories)
        if _is_cat(dtype):
            if self._codes is not None:
                return self.copy()
            keep = [i for i, m in enumerate(isna(self._v)) if not bool(_tobool(m))]
            sub = self._v[np.array(keep, dtype=np.intp)]
            if not len(keep):
                cats, inv = SArr([], self._v.dtype), []
            else:
                cats, inv = np_unique(sub, return_inverse=True)
                inv = [int(shim.index_of(_norm(x))) for x in inv]
            codes = [-1] * len(self)
            for i, c in zip(keep, inv):
                codes[i] = c
            return SymSeries(None, self.name, cats, codes)
        return SymSeries(self._vals().astype(dtype), self.name)

    @property
    def cat(self):
        if self._codes is None:
            raise AttributeError("Can only use .cat accessor with a 'category' dtype")
        return _Cat(self)

    def __array__(self, *a, **k):
        raise Unsupported("numpy conversion of a symbolic Series")

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported("Series." + name)


def isna_not(a):
    return np_array([shim.not_(_tobool(x)) for x in a.flat], np.dtype(bool)).reshape(a.shape)


class _ILoc:
    def __init__(self, f):
        self.f = f

    def __getitem__(self, k):
        f = self.f
        if isinstance(k, tuple):
            r, c = k
            g = f if isinstance(r, slice) and r == slice(None) else _ILoc(f)[r]
            if isinstance(c, (int, np.integer)):
                s = list(g._cols.values())[int(c)] if isinstance(g, SymFrame) else None
                return s
            if isinstance(c, slice) and c == slice(None):
                return g
            raise Unsupported("DataFrame.iloc")
        if isinstance(k, slice):
            idx = np.arange(len(f))[k]
        elif isinstance(k, (int, np.integer)):
            raise Unsupported("DataFrame.iloc row")
        else:
            idx = np.arange(len(f))[shim.conv_index(np_asarray(k))]
        return SymFrame([(n, s._sub(idx)) for n, s in f._items])


class SymFrame:
    """Columns in order; names may repeat."""

    def __init__(self, items):
        self._items = list(items)
        for n, s in self._items:
            s.name = n

    @property
    def _cols(self):
        return dict(enumerate(s for _, s in self._items))

    @property
    def columns(self):
        return rpd.Index([n for n, _ in self._items])

    @property
    def index(self):
        return rpd.RangeIndex(len(self))

    def __len__(self):
        return len(self._items[0][1]) if self._items else 0

    @property
    def shape(self):
        return (len(self), len(self._items))

    ndim = 2

    @property
    def dtypes(self):
        return rpd.Series([s.dtype for _, s in self._items], index=self.columns)

    def items(self):
        return iter(list(self._items))

    def __setitem__(self, k, col):
        self._items = [x for x in self._items if x[0] != k] + [(k, col)]

    def __iter__(self):
        return iter([n for n, _ in self._items])

    def __getitem__(self, k):
        if isinstance(k, (str, int, np.integer)):
            m = [s for n, s in self._items if n == k]
            if len(m) == 1:
                return m[0]
            if not m:
                raise KeyError(k)
            return SymFrame([(n, s) for n, s in self._items if n == k])
        raise Unsupported("DataFrame[...]")

    @property
    def iloc(self):
        return _ILoc(self)

    def copy(self, *a, **k):
        return SymFrame([(n, s.copy()) for n, s in self._items])

    def isna(self):
        return SymFrame([(n, s.isna()) for n, s in self._items])

    isnull = isna

    def any(self, axis=0, **k):
        return SymSeries(np_array([s.any() for _, s in self._items], np.dtype(bool)))

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported("DataFrame." + name)


def isna(x):
    if isinstance(x, (SymSeries, SymFrame)):
        return x.isna()
    if isinstance(x, SymIndex):
        x = x.values
    if isinstance(x, np.ndarray):
        if not isinstance(x, SArr):
            return rpd.isna(x)
        b = x._materialize()
        r = np.empty(b.shape, dtype=object)
        for i in np.ndindex(b.shape):
            r[i] = missing(b[i])
        return SArr(r, np.dtype(bool))
    if isinstance(x, (SBase, Letter)):
        return missing(x)
    return rpd.isna(x)


def notna(x):
    r = isna(x)
    if isinstance(r, SArr):
        return isna_not(r)
    return shim.not_(r) if not isinstance(r, SymSeries) else ~r


def series(data=None, index=None, dtype=None, name=None, copy=None, **kw):
    if isinstance(data, SymSeries):
        s = data.copy()
    else:
        if not isinstance(data, np.ndarray) and not isinstance(data, (list, tuple)):
            return rpd.Series(data, index=index, dtype=dtype, name=name, **kw)
        if isinstance(data, np.ndarray) and not isinstance(data, SArr):
            return rpd.Series(data, index=index, dtype=dtype, name=name, **kw)
        s = SymSeries(_values(data))
    if name is not None:
        s.name = name
    return s if dtype is None else s.astype(dtype)


class SymCategorical:
    """Category values, some of which may be missing."""

    def __init__(self, vals):
        self._vals = vals

    dtype = rpd.CategoricalDtype()

    def __len__(self):
        return len(self._vals)

    def __iter__(self):
        return iter(self._vals)

    def __getitem__(self, i):
        return self._vals[i]

    def __setitem__(self, mask, v):
        if not (v is None or (isinstance(v, float) and v != v)):
            raise Unsupported("store into a Categorical")
        for i in np.arange(len(self))[shim.conv_index(np_asarray(mask))]:
            self._vals[int(i)] = v

    def __getattr__(self, name):
        if name.startswith("__"):
            raise AttributeError(name)
        raise Unsupported("Categorical." + name)


class SymInterval:
    closed = "right"

    def __init__(self, left, right):
        self.left, self.right = left, right


class SymIntervals(SymCategorical):
    dtype = rpd.IntervalDtype("float64", "right")

    def __getitem__(self, i):
        if isinstance(i, (np.ndarray, list)):
            return SymIntervals([self._vals[shim.index_of(_norm(k))] for k in i])
        return self._vals[shim.index_of(_norm(i))]

    @staticmethod
    def from_arrays(left, right, closed="right", **kw):
        if closed != "right" or len(left) != len(right):
            raise Unsupported("IntervalArray.from_arrays")
        return SymIntervals([SymInterval(a, b) for a, b in zip(left, right)])

    @staticmethod
    def from_breaks(breaks, closed="right", **kw):
        return SymIntervals.from_arrays(breaks[:-1], breaks[1:], closed)


def categorical(values, categories=None, ordered=None, dtype=None, **kw):
    if categories is not None or ordered or dtype is not None:
        raise Unsupported("pd.Categorical with given categories")
    return SymCategorical(list(values))


class _Meta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, (cls.sym, cls.real))

    def __call__(cls, *a, **k):
        return cls.make(*a, **k)


class Series(metaclass=_Meta):
    sym, real = SymSeries, rpd.Series
    make = staticmethod(series)


def _frame(*a, **k):
    if not a and not k:
        return SymFrame([])
    for x in a:
        if isinstance(x, SymFrame):
            return x.copy()
        if isinstance(x, SArr):
            names = k.get("columns")
            names = list(names) if names is not None else list(range(x.shape[1]))
            return SymFrame([(names[j], SymSeries(x[:, j])) for j in range(x.shape[1])])
        if isinstance(x, dict) and any(isinstance(v, (SymSeries, SArr)) for v in x.values()):
            return SymFrame([(n, series(v)) for n, v in x.items()])
    return rpd.DataFrame(*a, **k)


class DataFrame(metaclass=_Meta):
    sym, real = SymFrame, rpd.DataFrame
    make = staticmethod(_frame)
    from_records = staticmethod(rpd.DataFrame.from_records)
    from_dict = staticmethod(rpd.DataFrame.from_dict)


def _unique(x):
    if isinstance(x, SymSeries):
        return x.unique()
    if isinstance(x, SArr):
        return SymSeries(x).unique()
    return rpd.unique(x)


class PandasShim(types.ModuleType):
    def __init__(self):
        super().__init__("pandas")
        self.arrays = types.SimpleNamespace(IntervalArray=SymIntervals)
        self.__dict__.update(Series=Series, DataFrame=DataFrame, isna=isna, isnull=isna,
                             notna=notna, notnull=notna, unique=_unique,
                             Categorical=categorical)

    def __getattr__(self, name):
        return getattr(rpd, name)


PANDAS = PandasShim()
