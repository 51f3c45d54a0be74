"""The two worlds a harness runs in.

A harness is ordinary Python that builds inputs from named variables, calls the
repository's code, and states what must hold.  In SymWorld the variables are solver
variables, the code is the repository's source executed symbolically, and the statements
are proof obligations.  In RealWorld the same harness runs against the really compiled
package with the values of a solver model: that is how counterexamples are replayed and
how path witnesses validate the encoding."""
import importlib
import math
import os
import traceback
from fractions import Fraction

import numpy as np

TOL = 2e-3


HERE = os.path.dirname(os.path.abspath(__file__))


def harness_trouble(ex):
    """Did the exception arise in the harness' own use of the code (a renamed attribute, a
    changed signature), as opposed to inside the code under test?"""
    if not isinstance(ex, (AttributeError, TypeError, NameError, ImportError)):
        return False
    files = [f.f_code.co_filename for f, _ in traceback.walk_tb(ex.__traceback__)]
    while files and os.sep + "numba" + os.sep in files[-1]:
        files.pop()
    if not files:
        return True
    last = files[-1]
    return last.startswith(HERE) and os.path.basename(last) not in (
        "shim.py", "sym.py", "pdshim.py")


def fr(x):
    return Fraction(x) if not isinstance(x, Fraction) else x


class SymWorld:
    symbolic = True

    def __init__(self, engine):
        from . import sym, shim
        self.S, self.sh, self.e = sym, shim, engine
        self.z3 = sym.z3
        self.checks = []
        self.notes = []
        self.undo = []
        self.exp_vars = []
        self.rand = None
        engine.const_hash = False
        shim.SArr.word_empty = False
        r = shim.NUMPY.random
        r.seeds, r.draws = [], []
        for h in ("on_seed", "on_randint"):
            if h in r.__dict__:
                delattr(r, h)

    # ---- inputs
    def _reg(self, name, kind, ast, bounds=None):
        if name in self.e.inputs:
            raise RuntimeError("duplicate input " + name)
        self.e.inputs[name] = (kind, ast, bounds)

    def int(self, name, lo, hi):
        if lo == hi:
            return lo
        v = self.z3.Int(name)
        self._reg(name, "int", v, (lo, hi))
        self.e.assume_fact(self.z3.And(v >= lo, v <= hi))
        return self.S.SInt(v, lo, hi)

    def pick(self, name, options):
        """One of the options (by solver-chosen index)."""
        return options[int(self.int(name, 0, len(options) - 1))]

    def word(self, name, nbits=64):
        v = self.z3.BitVec(name, 64)
        self._reg(name, "bv", v, (0, 2 ** nbits - 1))
        if nbits < 64:
            self.e.assume_fact(self.z3.ULE(v, self.z3.BitVecVal(2 ** nbits - 1, 64)))
        return self.S.SBV(v)

    def real(self, name, lo=-8, hi=8, f64=False):
        v = self.z3.Real(name)
        self._reg(name, "real64" if f64 else "real", v, (lo, hi))
        lo_, hi_ = self.S.to_real_ast(fr(lo)), self.S.to_real_ast(fr(hi))
        self.e.assume_fact(self.z3.And(v >= lo_, v <= hi_))
        return self.S.SReal(v)

    def pint(self, name, lo, hi):
        """An integer that passes for a Python int."""
        v = self.int(name, lo, hi)
        return v if isinstance(v, int) else self.S.PInt(v)

    def pfloat(self, name, lo=-8, hi=8):
        return self.S.PFloat(self.real(name, lo, hi, f64=True))

    def bool(self, name):
        v = self.z3.Bool(name)
        self._reg(name, "bool", v)
        return self.S.SBool(v)

    def flag(self, name):
        return bool(self.bool(name))

    def nfloat(self, name, lo=-8, hi=8):
        """A double that may be missing (NaN)."""
        n = self.z3.Bool(name + ".nan")
        self._reg(name + ".nan", "bool", n)
        return self.S.SNFloat(n, self.real(name, lo, hi, f64=True))

    def seed(self, name):
        """A seed of the real generator: the symbolic world quantifies over the draws."""
        return 1

    def exp_real(self, name, step):
        """A real entering the code only through exp(-step * value) (replay inverts it)."""
        v = self.z3.Real(name)
        self._reg(name, "exp", v, (-4, 4))
        self.exp_vars.append(name)
        self.e.exp_mode.add(name)
        return self.S.SReal(v)

    # ---- containers
    def arr(self, data, dtype):
        return self.sh.np_array(data, np.dtype(dtype))

    def empty(self, shape, dtype):
        return self.sh.np_empty(shape, np.dtype(dtype))

    def zeros(self, shape, dtype):
        return self.sh.np_zeros(shape, np.dtype(dtype))

    def words(self):
        self.sh.SArr.word_empty = True

    def hashed(self):
        """Symbolic values may be put in sets (equality then forks)."""
        self.e.const_hash = True

    # ---- tables
    def letter(self, i):
        from . import pdshim
        return pdshim.Letter(i)

    def matrix(self, rows, dtype):
        dt = np.dtype(dtype)
        a = np.empty((len(rows), len(rows[0]) if rows else 0), dtype=object)
        for i, r in enumerate(rows):
            for j, x in enumerate(r):
                a[i, j] = self.sh.coerce(x, dt)
        return self.sh.SArr(a, dt)

    def series(self, vals, dtype, cats=None, name=None):
        from . import pdshim
        if dtype == "category":
            cats = self.sh.SArr(cats, np.dtype(object))
            return pdshim.SymSeries(None, name, cats,
                                    [pdshim._find(v, cats) for v in vals])
        dt = np.dtype(dtype)
        return pdshim.SymSeries(self.sh.SArr([self.sh.coerce(v, dt) for v in vals], dt), name)

    def frame(self, cols):
        """cols: list of (name, series)"""
        from . import pdshim
        return pdshim.SymFrame(cols)

    def mod(self, name):
        return importlib.import_module(name)

    def patch(self, modname, attr, value):
        """Replace a global of the code under test for this path."""
        m = importlib.import_module(modname)
        if attr not in m.__dict__:
            return False
        self.undo.append((m, attr, m.__dict__[attr]))
        setattr(m, attr, value)
        return True

    spatch = patch  # symbolic world only

    def restore(self):
        while self.undo:
            m, a, v = self.undo.pop()
            setattr(m, a, v)

    # ---- logic
    def assume(self, c):
        self.e.assume(c)

    def ast(self, c):
        return self.S.bool_ast(c)

    def all(self, cs):
        return self.S.mkbool(self.z3.simplify(self.z3.And([self.ast(c) for c in cs])))

    def any(self, cs):
        return self.S.mkbool(self.z3.simplify(self.z3.Or([self.ast(c) for c in cs])))

    def no(self, c):
        return self.S.not_(c)

    def implies(self, a, b):
        return self.any([self.no(a), b])

    def iff(self, a, b):
        return self.S.mkbool(self.z3.simplify(self.ast(a) == self.ast(b)))

    def ite(self, c, a, b):
        if not isinstance(c, self.S.SBool):
            return a if c else b
        if isinstance(a, (bool, self.S.SBool)) and isinstance(b, (bool, self.S.SBool)):
            return self.S.mkbool(self.z3.If(c.e, self.ast(a), self.ast(b)))
        ia, ib = self.S.SInt.lift(a), self.S.SInt.lift(b)
        if ia is not None and ib is not None:
            return self.S.mkint(self.z3.If(c.e, ia.e, ib.e), min(ia.lo, ib.lo)
                                if ia.lo is not None and ib.lo is not None else None,
                                max(ia.hi, ib.hi)
                                if ia.hi is not None and ib.hi is not None else None)
        return self.S.mkreal(self.z3.If(c.e, self.S.to_real_ast(a), self.S.to_real_ast(b)))

    def exp(self, x):
        return self.sh.f_exp(x)

    def log(self, x):
        return self.sh.f_log(x)

    def is_true(self, c):
        """Fork on c."""
        return bool(c)

    def conc(self, x):
        return self.S.index_of(x)

    # ---- obligations
    def check(self, label, c):
        self.checks.append((label, self.ast(c), None))

    def lin_zero(self, a, b):
        d = self.S.linear_terms(self.S.to_real_ast(a) - self.S.to_real_ast(b))
        return not d

    def eq(self, label, a, b, tol=TOL):
        a, b = self.S._norm(a), self.S._norm(b)
        if isinstance(a, self.S.SBV) or isinstance(b, self.S.SBV):
            self.check(label, a == b)
            return
        if not self.S.is_sym(a) and not self.S.is_sym(b):
            if isinstance(a, float) and isinstance(b, float) and a != a and b != b:
                return
            self.check(label, bool(a == b))
            return
        if isinstance(a, (self.S.SBool, bool)) and isinstance(b, (self.S.SBool, bool)):
            self.check(label, self.iff(a, b))
            return
        if isinstance(a, float) or isinstance(b, float):  # inf / nan against a symbol
            self.check(label, a == b)
            return
        x, y = self.S.to_real_ast(a), self.S.to_real_ast(b)
        if self.lin_zero(a, b):
            self.check(label, True)
            return
        z3 = self.z3
        if self.S.has_exp(x) or self.S.has_exp(y):
            d = self.S.rat_diff(x, y)
            if d is not None:
                # denominators are non-zero wherever the code divided
                m = None
                if d[1] is None:
                    m = z3.Or(d[0] >= z3.RealVal("1/20"), -d[0] >= z3.RealVal("1/20"))
                self.checks.append((label, d[0] == 0, m))
                return
        m = z3.Or(x - y >= z3.RealVal("1/20"), y - x >= z3.RealVal("1/20"))
        isint = not isinstance(a, self.S.SReal) and not isinstance(b, self.S.SReal)
        self.checks.append((label, x == y, None if isint else m))

    def le(self, label, a, b, tol=TOL):
        """a <= b (with room for rounding in the real world)."""
        if not self.S.is_sym(a) and not self.S.is_sym(b):
            self.check(label, bool(a <= b))
            return
        c = a <= b
        try:
            m = (a - b >= Fraction(1, 20))
            m = self.ast(m)
        except self.S.Unsupported:
            m = None
        self.checks.append((label, self.ast(c), m))

    def fail(self, label):
        self.checks.append((label, self.z3.BoolVal(False), None))

    def same(self, label, a, b):
        """Concrete (structural) equality."""
        self.check(label, bool(a == b))


class RealWorld:
    symbolic = False

    def __init__(self, values, rng=None, perturb=False):
        self.values, self.rng, self.perturb = values, rng, perturb
        self.failed = []
        self.n_checks = 0
        self.notes = []
        self.undo = []

    def _get(self, name, default):
        return self.values.get(name, default)

    def int(self, name, lo, hi):
        if lo == hi:
            return lo
        v = int(self._get(name, lo))
        return min(max(v, lo), hi)

    def pick(self, name, options):
        return options[self.int(name, 0, len(options) - 1)]

    def word(self, name, nbits=64):
        return np.uint64(int(self._get(name, 0)))

    def real(self, name, lo=-8, hi=8, f64=False):
        if self.perturb:
            v = self.rng.uniform(float(max(lo, -8)), float(min(hi, 8)))
        else:
            v = float(fr(self._get(name, lo if lo > 0 else 0)))
        v = v if f64 else float(np.float32(v))
        return min(max(v, float(lo)), float(hi))

    pint = int

    def pfloat(self, name, lo=-8, hi=8):
        return self.real(name, lo, hi, f64=True)

    def bool(self, name):
        return bool(self._get(name, False))

    flag = bool

    def nfloat(self, name, lo=-8, hi=8):
        v = self.real(name, lo, hi, f64=True)
        return float("nan") if self.bool(name + ".nan") else v

    def seed(self, name):
        if self.perturb:
            return self.rng.randrange(1, 10 ** 6)
        return int(self._get(name, 1))

    def exp_real(self, name, step):
        if self.perturb:
            v = self.rng.uniform(-2, 2)
        else:
            v = float(fr(self._get(name, 0)))
        if abs(v) * max(1.0, abs(float(step))) > 60:
            raise Skip()  # the oracle's exponentials would leave single precision
        return float(np.float32(v))

    def arr(self, data, dtype):
        return np.ascontiguousarray(np.array(data, dtype=dtype))

    def empty(self, shape, dtype):
        return np.empty(shape, dtype=dtype)

    def zeros(self, shape, dtype):
        return np.zeros(shape, dtype=dtype)

    def words(self):
        pass

    def hashed(self):
        pass

    def letter(self, i):
        return "abcdefghij"[int(i)]

    def matrix(self, rows, dtype):
        a = np.empty((len(rows), len(rows[0]) if rows else 0), dtype=dtype)
        for i, r in enumerate(rows):
            for j, x in enumerate(r):
                a[i, j] = x
        return a

    def series(self, vals, dtype, cats=None, name=None):
        import pandas as pd
        if dtype == "category":
            return pd.Series(pd.Categorical(vals, categories=cats), name=name)
        return pd.Series(vals, dtype=dtype, name=name)

    def frame(self, cols):
        import pandas as pd
        f = pd.concat([s for _, s in cols], axis=1)
        f.columns = [n for n, _ in cols]
        return f

    def mod(self, name):
        return importlib.import_module(name)

    patch = SymWorld.patch
    restore = SymWorld.restore

    def spatch(self, modname, attr, value):
        return False

    def assume(self, c):
        if not c:
            raise Skip()

    def all(self, cs):
        return all(bool(c) for c in cs)

    def any(self, cs):
        return any(bool(c) for c in cs)

    def no(self, c):
        return not c

    def implies(self, a, b):
        return (not a) or bool(b)

    def iff(self, a, b):
        return bool(a) == bool(b)

    def ite(self, c, a, b):
        return a if c else b

    def exp(self, x):
        return math.exp(x)

    def log(self, x):
        return math.log(x)

    def is_true(self, c):
        return bool(c)

    def conc(self, x):
        return int(x)

    def check(self, label, c):
        self.n_checks += 1
        if not bool(c):
            self.failed.append(label)

    def eq(self, label, a, b, tol=TOL):
        self.n_checks += 1
        a, b = _num(a), _num(b)
        if a == b or (a != a and b != b):
            return
        if isinstance(a, float) or isinstance(b, float) or isinstance(a, Fraction) \
                or isinstance(b, Fraction):
            a, b = float(a), float(b)
            if abs(a - b) <= tol * (1 + abs(a) + abs(b)):
                return
        self.failed.append("%s (%r instead of %r)" % (label, a, b))

    def le(self, label, a, b, tol=TOL):
        self.n_checks += 1
        a, b = float(a), float(b)
        if not a <= b + tol * (1 + abs(a) + abs(b)):
            self.failed.append("%s (%r > %r)" % (label, a, b))

    def fail(self, label):
        self.n_checks += 1
        self.failed.append(label)

    def same(self, label, a, b):
        self.check(label, a == b)


def _num(x):
    if isinstance(x, np.generic):
        return x.item()
    return x


class Skip(Exception):
    """The concrete values fall outside the harness' assumptions."""
