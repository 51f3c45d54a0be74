"""Symbolic values and path exploration (re-execution DFS over z3).

The real source of wildwood is executed with these values in place of numbers: an
operation builds a z3 term, a branch on a symbolic condition asks the solver which sides
are feasible and explores all of them, an index that is symbolic is resolved against the
solver over all its feasible values.
"""
import math
import sys
import time
from fractions import Fraction

VT = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
if VT not in sys.path:
    sys.path.append(VT)
import z3  # noqa: E402

z3.set_param("smt.random_seed", 1)
INF = float("inf")


class Steer(BaseException):
    """Path-steering exceptions: never caught by the code under test."""


class Infeasible(Steer):
    pass


class Unsupported(Steer):
    pass


class BudgetExceeded(Steer):
    pass


class NonDeterminism(Steer):
    pass


class Entry:
    __slots__ = ("kind", "ast", "val", "alts", "aux")

    def __init__(self, kind, ast, val, alts, aux=None):
        self.kind, self.ast, self.val, self.alts, self.aux = kind, ast, val, alts, aux


class Stats:
    FIELDS = ("paths", "queries", "branches", "unknown", "asserts", "discharged",
              "infeasible")

    def __init__(self):
        for f in self.FIELDS:
            setattr(self, f, 0)
        self.solver_s = 0.0
        self.sort_counts = {}

    def as_dict(self):
        d = {f: getattr(self, f) for f in self.FIELDS}
        d["solver_s"] = round(self.solver_s, 3)
        return d


class Engine:
    cur = None

    def __init__(self, timeout_ms=4000, deadline=None, max_paths=10 ** 9):
        self.solver = z3.Solver()
        self.solver.set("timeout", timeout_ms)
        self.trail = []
        self.depth = 0
        self.stats = Stats()
        self.deadline = deadline
        self.max_paths = max_paths
        self.inputs = {}
        self.model = None
        self.exps = {}
        self.counter = 0
        self.subs = []
        self.known = {}
        self.vals = {}
        self.const_hash = False
        self.exp_mode = set()  # the variables which enter the code through exp only

    def _learn(self, c, v):
        self.known[c.get_id()] = (c, v)

    # ---- solver ----------------------------------------------------------------
    def _check(self, *assumptions):
        t = time.time()
        r = self.solver.check(*assumptions)
        self.stats.queries += 1
        self.stats.solver_s += time.time() - t
        if r == z3.unknown:
            self.stats.unknown += 1
        if self.deadline and time.time() > self.deadline:
            raise BudgetExceeded()
        return r

    def _push(self, ent, add):
        self.trail.append(ent)
        self.solver.push()
        if add is not None:
            self.solver.add(add)
        self.depth += 1

    def fresh_name(self, base):
        self.counter += 1
        return "%s!%d" % (base, self.counter)

    def _model_says(self, c):
        if self.model is None:
            return None
        v = self.model.eval(c, model_completion=True)
        if z3.is_true(v):
            return True
        if z3.is_false(v):
            return False
        return None

    def branch(self, c):
        if self.subs:
            c = z3.substitute(c, *self.subs)
        c = z3.simplify(c)
        if z3.is_true(c):
            return True
        if z3.is_false(c):
            return False
        k = self.known.get(c.get_id())
        if k is not None:
            return k[1]
        if self.depth < len(self.trail):
            e = self.trail[self.depth]
            if e.kind != "b" or not e.ast.eq(c):
                raise NonDeterminism("branch differs on replay")
            self.depth += 1
            self._learn(c, e.val)
            return e.val
        if self.deadline and time.time() > self.deadline:
            raise BudgetExceeded()
        nc = z3.Not(c)
        says = self._model_says(c)
        mt = mf = None
        if says is True:
            t_ok = True
            mt = self.model
        else:
            r = self._check(c)
            t_ok = r != z3.unsat
            if r == z3.sat:
                mt = self.solver.model()
        if says is False:
            f_ok = True
            mf = self.model
        elif not t_ok:
            f_ok = True
            mf = self.model
        else:
            r = self._check(nc)
            f_ok = r != z3.unsat
            if r == z3.sat:
                mf = self.solver.model()
        self.stats.branches += 1
        if t_ok and f_ok:
            self._push(Entry("b", c, True, [False]), c)
            self.model = mt
            self._learn(c, True)
            return True
        if t_ok:
            self._push(Entry("b", c, True, []), None)
            self._learn(c, True)
            return True
        self._push(Entry("b", c, False, []), None)
        self._learn(c, False)
        return False

    def assume(self, c):
        if isinstance(c, SBool):
            c = c.e
        if c is True:
            return
        if c is False:
            raise Infeasible()
        c = z3.simplify(c)
        if z3.is_true(c):
            return
        if self.depth < len(self.trail):
            e = self.trail[self.depth]
            if e.kind != "a" or not e.ast.eq(c):
                raise NonDeterminism("assumption differs on replay")
            self.depth += 1
            return
        if z3.is_false(c):
            raise Infeasible()
        if self._model_says(c) is not True:
            r = self._check(c)
            if r == z3.unsat:
                raise Infeasible()
            self.model = self.solver.model() if r == z3.sat else None
        self._push(Entry("a", c, True, []), c)

    def assume_fact(self, c):
        """Add a valid side fact (for instance exp(x) > 0) without a query."""
        if self.depth < len(self.trail):
            e = self.trail[self.depth]
            if e.kind != "f" or not e.ast.eq(c):
                raise NonDeterminism("fact differs on replay")
            self.depth += 1
            return
        if self._model_says(c) is not True:
            self.model = None
        self._push(Entry("f", c, True, []), c)

    def concretize(self, expr):
        """Resolve a discrete term to each of its feasible values (one per path)."""
        v = self.vals.get(expr.get_id())
        if v is not None:
            return v
        expr = z3.simplify(expr)
        v = self.vals.get(expr.get_id())
        if v is not None:
            return v
        if self.subs:
            expr = z3.simplify(z3.substitute(expr, *self.subs))
        if z3.is_int_value(expr) or z3.is_bv_value(expr):
            return expr.as_long()
        if self.depth < len(self.trail):
            e = self.trail[self.depth]
            if e.kind != "v" or not e.ast.eq(expr):
                raise NonDeterminism("value differs on replay")
            self.depth += 1
            self._sub(expr, e.val)
            return e.val
        if self.model is None:
            r = self._check()
            if r == z3.unsat:
                raise Infeasible()
            if r == z3.unknown:
                raise Unsupported("cannot resolve a symbolic index (unknown)")
            self.model = self.solver.model()
        v = self.model.eval(expr, model_completion=True).as_long()
        self.stats.branches += 1
        self._push(Entry("v", expr, v, None, [v]), expr == v)
        self._sub(expr, v)
        return v

    def _sub(self, expr, v):
        self.vals[expr.get_id()] = v
        val = z3.BitVecVal(v, expr.size()) if z3.is_bv(expr) else z3.IntVal(v)
        self.subs.append((expr, val))

    def backtrack(self):
        """Move to the next unexplored alternative; False when exhausted."""
        while self.trail:
            e = self.trail.pop()
            self.solver.pop()
            if e.kind == "b" and e.alts:
                v = e.alts.pop()
                c = e.ast if v else z3.Not(e.ast)
                self.trail.append(Entry("b", e.ast, v, e.alts))
                self.solver.push()
                self.solver.add(c)
                self.model = None
                return True
            if e.kind == "v":
                self.solver.push()
                for t in e.aux:
                    self.solver.add(e.ast != t)
                r = self._check()
                if r == z3.sat:
                    v = self.solver.model().eval(e.ast, model_completion=True).as_long()
                    m = self.solver.model()
                    self.solver.pop()
                    self.solver.push()
                    self.solver.add(e.ast == v)
                    self.trail.append(Entry("v", e.ast, v, None, e.aux + [v]))
                    self.model = None
                    return True
                self.solver.pop()
                if r == z3.unknown:
                    raise Unsupported("cannot enumerate a symbolic index (unknown)")
        return False

    def constraints(self):
        out = []
        for e in self.trail[: self.depth]:
            if e.kind == "b":
                out.append(e.ast if e.val else z3.Not(e.ast))
            elif e.kind in "af":
                out.append(e.ast)
            else:
                out.append(e.ast == e.val)
        return out

    # ---- proving ---------------------------------------------------------------
    def refute(self, negated, timeout_ms=20000):
        """Is there a state on this path with `negated`?  -> ('unsat'|'sat'|'unknown', model)"""
        negated = z3.simplify(negated)
        if z3.is_false(negated):
            self.stats.queries += 1
            return "unsat", None
        if self._model_says(negated) is True:
            self.stats.queries += 1
            return "sat", self.model
        r = self._check(negated)
        if r == z3.unsat:
            return "unsat", None
        if r == z3.sat:
            return "sat", self.solver.model()
        # the incremental core gave up: a fresh solver with the nonlinear strategies
        for mk in (lambda: z3.Solver(), lambda: z3.Then(
                "simplify", "solve-eqs", "simplify", "smt").solver(),
                lambda: z3.Tactic("qfnra-nlsat").solver()):
            try:
                s = mk()
                s.set("timeout", timeout_ms)
                s.add(*self.constraints())
                s.add(negated)
                t = time.time()
                r = s.check()
                self.stats.queries += 1
                self.stats.solver_s += time.time() - t
                if r == z3.unsat:
                    return "unsat", None
                if r == z3.sat:
                    return "sat", s.model()
            except z3.Z3Exception:
                continue
        return "unknown", None

    def explore(self, fn):
        """Run fn() on every feasible path. fn sees this engine as Engine.cur."""
        prev = Engine.cur
        Engine.cur = self
        complete = True
        try:
            while True:
                self.depth = 0
                self.counter = 0
                self.inputs = {}
                self.exps = {}
                self.subs = []
                self.known = {}
                self.vals = {}
                try:
                    fn()
                    self.stats.paths += 1
                except Infeasible:
                    self.stats.infeasible += 1
                if self.depth < len(self.trail):
                    raise NonDeterminism("path shorter on replay")
                if self.deadline and time.time() > self.deadline:
                    if self.trail:
                        complete = not self.backtrack_left()
                    break
                if self.stats.paths >= self.max_paths:
                    complete = not self.backtrack_left()
                    break
                if not self.backtrack():
                    break
        except BudgetExceeded:
            complete = False
        finally:
            Engine.cur = prev
        return complete

    def backtrack_left(self):
        return any((e.kind == "b" and e.alts) or e.kind == "v" for e in self.trail)


def eng():
    return Engine.cur


def to_real_ast(x):
    if isinstance(x, (PInt, PFloat)):
        x = x._vf
    if isinstance(x, SReal):
        return x.e
    if isinstance(x, SInt):
        return z3.ToReal(x.e)
    if isinstance(x, SBool):
        return z3.If(x.e, z3.RealVal(1), z3.RealVal(0))
    if isinstance(x, bool):
        return z3.RealVal(int(x))
    if isinstance(x, int):
        return z3.RealVal(x)
    if isinstance(x, Fraction):
        return z3.RealVal("%d/%d" % (x.numerator, x.denominator))
    if isinstance(x, float):
        if x != x or x in (INF, -INF):
            raise Unsupported("non-finite constant in a real term")
        return to_real_ast(Fraction(x))
    if hasattr(x, "item"):
        return to_real_ast(x.item())
    raise Unsupported("cannot convert %r to a real term" % type(x))


def _norm(x):
    """numpy scalars -> python."""
    if isinstance(x, (PInt, PFloat)):
        return x._vf
    if type(x).__module__ == "numpy" and hasattr(x, "item"):
        return x.item()
    return x


def is_sym(x):
    return isinstance(x, SBase)


class SBase:
    __slots__ = ()
    __array_priority__ = 1000
    __array_ufunc__ = None  # overridden below: binary ops with ndarrays go elementwise

    def __divmod__(self, o):
        return self // o, self % o

    def __rdivmod__(self, o):
        return o // self, o % self


class SBool(SBase):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __bool__(self):
        return eng().branch(self.e)

    def __and__(self, o):
        o = _norm(o)
        return mkbool(z3.And(self.e, bool_ast(o)))

    __rand__ = __and__

    def __or__(self, o):
        o = _norm(o)
        return mkbool(z3.Or(self.e, bool_ast(o)))

    __ror__ = __or__

    def __xor__(self, o):
        return mkbool(z3.Xor(self.e, bool_ast(_norm(o))))

    __rxor__ = __xor__

    def __invert__(self):
        return mkbool(z3.Not(self.e))

    def logical_not(self):
        return mkbool(z3.Not(self.e))

    def __eq__(self, o):
        o = _norm(o)
        if isinstance(o, (bool, SBool)):
            return mkbool(self.e == bool_ast(o))
        return self.as_int() == o

    def __ne__(self, o):
        r = self.__eq__(o)
        return not_(r)

    def __hash__(self):
        return hash(bool(self))

    def as_int(self):
        return SInt(z3.If(self.e, z3.IntVal(1), z3.IntVal(0)), 0, 1)

    def _arith(self, name, o):
        return getattr(self.as_int(), name)(o)

    def __index__(self):
        return int(bool(self))

    __int__ = __index__

    def __repr__(self):
        return "SBool(%s)" % self.e


for _n in ("add", "radd", "sub", "rsub", "mul", "rmul", "truediv", "rtruediv", "lt",
           "le", "gt", "ge"):
    def _mk(n):
        def f(self, o):
            return getattr(self.as_int(), n)(o)
        return f
    setattr(SBool, "__%s__" % _n, _mk("__%s__" % _n))


def bool_ast(x):
    if isinstance(x, SBool):
        return x.e
    if isinstance(x, bool) or type(x).__name__ in ("bool_", "bool"):
        return z3.BoolVal(bool(x))
    if isinstance(x, z3.BoolRef):
        return x
    if isinstance(x, (SInt, SBV, SReal)):
        return bool_ast(x != 0)
    if isinstance(x, (int, Fraction, float)):
        return z3.BoolVal(bool(x))
    raise Unsupported("bool of %r" % type(x))


def mkbool(e):
    if z3.is_true(e):
        return True
    if z3.is_false(e):
        return False
    return SBool(e)


def not_(x):
    if isinstance(x, SBool):
        return mkbool(z3.Not(x.e))
    return not x


def _floordiv_pos(a, b):
    return a / b  # z3 Int division: Euclidean, equals floor for b > 0


class SInt(SBase):
    """Mathematical integer with an interval; wrapping happens at typed stores."""

    __slots__ = ("e", "lo", "hi")

    def __init__(self, e, lo=None, hi=None):
        self.e, self.lo, self.hi = e, lo, hi

    def __repr__(self):
        return "SInt(%s)" % self.e

    @staticmethod
    def lift(o):
        o = _norm(o)
        if isinstance(o, SInt):
            return o
        if isinstance(o, SBool):
            return o.as_int()
        if isinstance(o, bool):
            o = int(o)
        if isinstance(o, int):
            return SInt(z3.IntVal(o), o, o)
        if isinstance(o, SBV):
            return SInt(z3.BV2Int(o.e), 0, 2 ** 64 - 1)
        return None

    def _bin(self, o, f, g):
        o = _norm(o)
        if isinstance(o, (float, Fraction, SReal)):
            return g(SReal(z3.ToReal(self.e)), o)
        oo = SInt.lift(o)
        if oo is None:
            return NotImplemented
        return f(self, oo)

    def __add__(self, o):
        return self._bin(o, lambda a, b: mkint(a.e + b.e, *_iv_add(a, b)),
                         lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: mkint(a.e - b.e, *_iv_sub(a, b)),
                         lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: mkint(b.e - a.e, *_iv_sub(b, a)),
                         lambda a, b: b - a)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: mkint(a.e * b.e, *_iv_mul(a, b)),
                         lambda a, b: a * b)

    __rmul__ = __mul__

    def __floordiv__(self, o):
        def f(a, b):
            if z3.is_int_value(b.e):
                c = b.e.as_long()
                if c == 0:
                    raise ZeroDivisionError
                if c > 0:
                    lo = None if a.lo is None else a.lo // c
                    hi = None if a.hi is None else a.hi // c
                    return mkint(a.e / b.e, lo, hi)
            if bool(b > 0):
                return mkint(a.e / b.e, None, None)
            if bool(b == 0):
                raise ZeroDivisionError
            return mkint((-a.e) / (-b.e), None, None)
        return self._bin(o, f, lambda a, b: a // b)

    def __rfloordiv__(self, o):
        oo = SInt.lift(o)
        return NotImplemented if oo is None else oo // self

    def __mod__(self, o):
        def f(a, b):
            if not bool(b > 0):
                raise Unsupported("modulo by a non-positive symbol")
            hi = None if b.hi is None else b.hi - 1
            return mkint(a.e % b.e, 0, hi)
        return self._bin(o, f, lambda a, b: a % b)

    def __rmod__(self, o):
        oo = SInt.lift(o)
        return NotImplemented if oo is None else oo % self

    def __truediv__(self, o):
        return SReal(z3.ToReal(self.e)) / o

    def __rtruediv__(self, o):
        return _norm(o) / SReal(z3.ToReal(self.e))

    def __pow__(self, k):
        k = _norm(k)
        if isinstance(k, Fraction) and k.denominator == 1:
            k = int(k)
        if isinstance(k, int) and 0 <= k <= 6:
            r = 1
            for _ in range(k):
                r = self * r
            return r
        return SReal(z3.ToReal(self.e)) ** k

    def __rpow__(self, b):
        return b ** index_of(self)

    def __neg__(self):
        return mkint(-self.e, None if self.hi is None else -self.hi,
                     None if self.lo is None else -self.lo)

    def __pos__(self):
        return self

    def __abs__(self):
        return self if bool(self >= 0) else -self

    def _cmp(self, o, f):
        o = _norm(o)
        if isinstance(o, float) and (o in (INF, -INF) or o != o):
            return f(0, o)
        if isinstance(o, (float, Fraction, SReal)):
            return mkbool(z3.simplify(f(z3.ToReal(self.e), to_real_ast(o))))
        oo = SInt.lift(o)
        if oo is None:
            return NotImplemented
        return mkbool(z3.simplify(f(self.e, oo.e)))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return self._cmp(o, lambda a, b: a == b)

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        return self._cmp(o, lambda a, b: a != b)

    def __bool__(self):
        return eng().branch(self.e != 0)

    def __hash__(self):
        if eng().const_hash:
            return 77
        return hash(eng().concretize(self.e))

    def __index__(self):
        return eng().concretize(self.e)

    __int__ = __index__

    def __lshift__(self, k):
        return self * (2 ** index_of(k))

    def __rlshift__(self, b):
        return b << index_of(self)

    def __rshift__(self, k):
        return self // (2 ** index_of(k))

    def __rrshift__(self, b):
        return b >> index_of(self)

    def __and__(self, m):
        m = index_of(m)
        if m >= 0 and (m & (m + 1)) == 0:
            return self % (m + 1)
        return index_of(self) & m

    __rand__ = __and__

    def __or__(self, o):
        return index_of(self) | index_of(o)

    __ror__ = __or__

    def __float__(self):
        return float(eng().concretize(self.e))

    def __round__(self, n=None):
        return self

    def __trunc__(self):
        return self

    __floor__ = __ceil__ = __trunc__

    def item(self):
        return self

    def log(self):
        return SReal(z3.ToReal(self.e)).log()

    def exp(self):
        return SReal(z3.ToReal(self.e)).exp()

    def sqrt(self):
        return SReal(z3.ToReal(self.e)).sqrt()

    def conjugate(self):
        return self


def index_of(x):
    x = _norm(x)
    if isinstance(x, int):
        return int(x)
    if isinstance(x, SBase):
        return x.__index__()
    if isinstance(x, Fraction) and x.denominator == 1:
        return int(x)
    return x.__index__()


def _iv_add(a, b):
    return (None if a.lo is None or b.lo is None else a.lo + b.lo,
            None if a.hi is None or b.hi is None else a.hi + b.hi)


def _iv_sub(a, b):
    return (None if a.lo is None or b.hi is None else a.lo - b.hi,
            None if a.hi is None or b.lo is None else a.hi - b.lo)


def _iv_mul(a, b):
    if None in (a.lo, a.hi, b.lo, b.hi):
        return None, None
    p = [a.lo * b.lo, a.lo * b.hi, a.hi * b.lo, a.hi * b.hi]
    return min(p), max(p)


def mkint(e, lo, hi):
    e = z3.simplify(e)
    if z3.is_int_value(e):
        return e.as_long()
    if lo is not None and lo == hi:
        return lo
    v = Engine.cur.vals.get(e.get_id())
    return SInt(e, lo, hi) if v is None else v


M64 = 2 ** 64


class SBV(SBase):
    """64-bit unsigned machine word."""

    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        return "SBV(%s)" % self.e

    @staticmethod
    def lift(o):
        o = _norm(o)
        if isinstance(o, SBV):
            return o
        if isinstance(o, bool):
            o = int(o)
        if isinstance(o, Fraction) and o.denominator == 1:
            o = int(o)
        if isinstance(o, int):
            return SBV(z3.BitVecVal(o % M64, 64))
        if isinstance(o, SInt):
            return SBV(z3.Int2BV(o.e, 64))
        if isinstance(o, SBool):
            return SBV(z3.If(o.e, z3.BitVecVal(1, 64), z3.BitVecVal(0, 64)))
        return None

    def _bin(self, o, f):
        o = _norm(o)
        if isinstance(o, (SReal, float)) or (isinstance(o, Fraction) and
                                             o.denominator != 1):
            return f(SInt.lift(self), o)
        oo = SBV.lift(o)
        if oo is None:
            return NotImplemented
        return mkbv(f(self.e, oo.e))

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __and__(self, o):
        return self._bin(o, lambda a, b: a & b)

    __rand__ = __and__

    def __or__(self, o):
        return self._bin(o, lambda a, b: a | b)

    __ror__ = __or__

    def __xor__(self, o):
        return self._bin(o, lambda a, b: a ^ b)

    __rxor__ = __xor__

    def __invert__(self):
        return mkbv(~self.e)

    def __lshift__(self, o):
        return self._bin(o, lambda a, b: a << b)

    def __rlshift__(self, o):
        return SBV.lift(o) << self

    def __rshift__(self, o):
        return self._bin(o, lambda a, b: z3.LShR(a, b))

    def __rrshift__(self, o):
        return SBV.lift(o) >> self

    def __floordiv__(self, o):
        if bool(SBV.lift(o) == 0):
            raise ZeroDivisionError
        return self._bin(o, lambda a, b: z3.UDiv(a, b))

    def __rfloordiv__(self, o):
        return SBV.lift(o) // self

    def __mod__(self, o):
        if bool(SBV.lift(o) == 0):
            raise ZeroDivisionError
        return self._bin(o, lambda a, b: z3.URem(a, b))

    def __rmod__(self, o):
        return SBV.lift(o) % self

    def __truediv__(self, o):
        return Fraction(index_of(self)) / o

    def __rtruediv__(self, o):
        return o / Fraction(index_of(self))

    def _cmp(self, o, f):
        o = _norm(o)
        if isinstance(o, float) or isinstance(o, SReal) or (
                isinstance(o, Fraction) and o.denominator != 1):
            return NotImplemented
        if isinstance(o, int) and not isinstance(o, bool) and not (0 <= o < M64):
            # a Python int outside the word range: compare as mathematical integers
            return f(z3.IntVal(0 if o > 0 else 1), z3.IntVal(1 if o > 0 else 0))
        oo = SBV.lift(o)
        if oo is None:
            return NotImplemented
        return f(self.e, oo.e)

    def _c(self, o, fb, fi):
        def f(a, b):
            if z3.is_bv(a):
                return fb(a, b)
            return fi(a, b)
        r = self._cmp(o, f)
        if r is NotImplemented:
            return r
        return mkbool(z3.simplify(r))

    def __lt__(self, o):
        return self._c(o, z3.ULT, lambda a, b: a < b)

    def __le__(self, o):
        return self._c(o, z3.ULE, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._c(o, z3.UGT, lambda a, b: a > b)

    def __ge__(self, o):
        return self._c(o, z3.UGE, lambda a, b: a >= b)

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return False
        return self._c(o, lambda a, b: a == b, lambda a, b: a == b)

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return True
        return self._c(o, lambda a, b: a != b, lambda a, b: a != b)

    def __bool__(self):
        return eng().branch(self.e != 0)

    def __hash__(self):
        return hash(eng().concretize(self.e))

    def __index__(self):
        return eng().concretize(self.e)

    __int__ = __index__

    def __float__(self):
        return float(self.__index__())

    def __trunc__(self):
        return self

    def item(self):
        return self

    def log2(self):
        return SLog2(self)


def mkbv(e):
    e = z3.simplify(e)
    if z3.is_bv_value(e):
        return e.as_long()
    v = Engine.cur.vals.get(e.get_id())
    return SBV(e) if v is None else v


class SLog2(SBase):
    """log2 of a positive machine word; only ceil/floor are defined (as exact ranges)."""

    __slots__ = ("w",)

    def __init__(self, w):
        self.w = w

    def _resolve(self, ceil):
        w = self.w
        for k in range(0, 64):
            if ceil:
                if bool(w <= (1 << k)):
                    return k
            else:
                if bool(w < (1 << (k + 1))):
                    return k
        return 64 if ceil else 63

    def __ceil__(self):
        return self._resolve(True)

    def __floor__(self):
        return self._resolve(False)

    ceil = __ceil__
    floor = __floor__

    def __int__(self):
        return self._resolve(False)


LOGF = z3.Function("LOG", z3.RealSort(), z3.RealSort())
EXPF = z3.Function("EXP", z3.RealSort(), z3.RealSort())


def _has(e, decl, memo):
    k = e.get_id()
    if k in memo:
        return memo[k]
    r = (z3.is_app(e) and e.decl().eq(decl)) or any(_has(c, decl, memo)
                                                    for c in e.children())
    memo[k] = r
    return r


def has_log(e):
    return _has(e, LOGF, {})


def linear_terms(e):
    """Decompose a real term into [(coef: Fraction, atom or None)] after normalising."""
    e = z3.simplify(e, som=True, hoist_mul=False, flat=True)
    out = []

    def go(t, c):
        if z3.is_rational_value(t):
            out.append((c * Fraction(t.numerator_as_long(), t.denominator_as_long()),
                        None))
            return
        k = t.decl().kind()
        if k == z3.Z3_OP_ADD:
            for ch in t.children():
                go(ch, c)
        elif k == z3.Z3_OP_SUB:
            ch = t.children()
            go(ch[0], c)
            for x in ch[1:]:
                go(x, -c)
        elif k == z3.Z3_OP_UMINUS:
            go(t.children()[0], -c)
        elif k == z3.Z3_OP_MUL:
            coef = Fraction(1)
            rest = []
            for ch in t.children():
                if z3.is_rational_value(ch):
                    coef *= Fraction(ch.numerator_as_long(), ch.denominator_as_long())
                else:
                    rest.append(ch)
            if not rest:
                out.append((c * coef, None))
            elif len(rest) == 1:
                if coef == 1 and len(t.children()) == 1:
                    out.append((c, rest[0]))
                else:
                    go(rest[0], c * coef)
            else:
                p = rest[0]
                for r in rest[1:]:
                    p = p * r
                out.append((c * coef, z3.simplify(p)))
        elif k == z3.Z3_OP_DIV and z3.is_rational_value(t.children()[1]):
            d = t.children()[1]
            go(t.children()[0],
               c / Fraction(d.numerator_as_long(), d.denominator_as_long()))
        else:
            out.append((c, t))

    go(e, Fraction(1))
    acc = {}
    for c, a in out:
        key = None if a is None else a.get_id()
        if key in acc:
            acc[key] = (acc[key][0] + c, a)
        else:
            acc[key] = (c, a)
    return [(c, a) for c, a in acc.values() if c != 0]


def _pow_real(x, k):
    """x ** k for an integer k; x z3 real term (assumed nonzero when k < 0)."""
    if k == 0:
        return z3.RealVal(1)
    r = x
    for _ in range(abs(k) - 1):
        r = r * x
    return r if k > 0 else z3.RealVal(1) / r


# ---- rational functions in normal form (used where exp/log occur)
RAT_LIMIT = 4000


class TooBig(Exception):
    pass


def _pmul(a, b):
    if len(a) * len(b) > RAT_LIMIT * 4:
        raise TooBig()
    out = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            if not m1:
                m = m2
            elif not m2:
                m = m1
            else:
                d = dict(m1)
                for k, e in m2:
                    d[k] = d.get(k, 0) + e
                m = tuple(sorted(d.items()))
            v = out.get(m, 0) + c1 * c2
            if v:
                out[m] = v
            else:
                out.pop(m, None)
    if len(out) > RAT_LIMIT:
        raise TooBig()
    return out


def _padd(a, b, sign=1):
    out = dict(a)
    for m, c in b.items():
        v = out.get(m, 0) + sign * c
        if v:
            out[m] = v
        else:
            out.pop(m, None)
    return out


class Rat:
    """num / prod(factor ** exponent): factors are polynomials scaled to be primitive."""
    __slots__ = ("n", "d")

    def __init__(self, n, d):
        self.n, self.d = n, d   # d: dict frozenset(poly items) -> exponent

    @staticmethod
    def factor(p):
        """-> (coefficient, [(key, exponent)])"""
        if not p:
            raise TooBig()
        # monomial content
        common = None
        for m in p:
            d = dict(m)
            common = d if common is None else {k: min(e, d[k]) for k, e in common.items()
                                               if k in d}
        fs = []
        if common:
            q = {}
            for m, c in p.items():
                d = dict(m)
                for k, e in common.items():
                    d[k] -= e
                q[tuple(sorted((k, e) for k, e in d.items() if e))] = c
            p = q
            for k, e in common.items():
                fs.append((frozenset({(((k, 1),), Fraction(1))}), e))
        lead = p[min(p)]
        if len(p) == 1 and () in p:
            return lead, fs
        fs.append((frozenset((m, c / lead) for m, c in p.items()), 1))
        return lead, fs

    def cancel(self):
        if not self.n:
            return Rat({}, {})
        if not self.d:
            return self
        c, fs = Rat.factor(self.n)
        d = dict(self.d)
        keep = []
        hit = False
        for k, e in fs:
            x = min(e, d.get(k, 0))
            if x:
                hit = True
                d[k] -= x
                if not d[k]:
                    del d[k]
            if e - x:
                keep.append((k, e - x))
        if not hit:
            return self
        n = {(): c}
        for k, e in keep:
            for _ in range(e):
                n = _pmul(n, dict(k))
        return Rat(n, d)

    def mul(self, o):
        d = dict(self.d)
        for k, e in o.d.items():
            d[k] = d.get(k, 0) + e
        return Rat(_pmul(self.n, o.n), d).cancel()

    def inv(self):
        c, fs = Rat.factor(self.n)
        n = {(): 1 / c}
        for k, e in self.d.items():
            for _ in range(e):
                n = _pmul(n, dict(k))
        d = {}
        for k, e in fs:
            d[k] = d.get(k, 0) + e
        return Rat(n, d).cancel()

    def add(self, o, sign=1):
        d = dict(self.d)
        for k, e in o.d.items():
            d[k] = max(d.get(k, 0), e)
        a, b = self.n, o.n
        for k, e in d.items():
            for _ in range(e - self.d.get(k, 0)):
                a = _pmul(a, dict(k))
            for _ in range(e - o.d.get(k, 0)):
                b = _pmul(b, dict(k))
        return Rat(_padd(a, b, sign), d).cancel()


ATOMS = {}


def rat_of(e, memo):
    k = e.get_id()
    if k in memo:
        return memo[k]
    r = None
    if z3.is_rational_value(e):
        c = Fraction(e.numerator_as_long(), e.denominator_as_long())
        r = Rat({(): c} if c else {}, {})
    elif z3.is_app(e):
        kind = e.decl().kind()
        ch = e.children()
        if kind == z3.Z3_OP_ADD:
            r = rat_of(ch[0], memo)
            for c in ch[1:]:
                r = r.add(rat_of(c, memo))
        elif kind == z3.Z3_OP_SUB:
            r = rat_of(ch[0], memo)
            for c in ch[1:]:
                r = r.add(rat_of(c, memo), -1)
        elif kind == z3.Z3_OP_UMINUS:
            x = rat_of(ch[0], memo)
            r = Rat({m: -c for m, c in x.n.items()}, x.d)
        elif kind == z3.Z3_OP_MUL:
            r = rat_of(ch[0], memo)
            for c in ch[1:]:
                r = r.mul(rat_of(c, memo))
        elif kind == z3.Z3_OP_DIV:
            x = rat_of(ch[1], memo)
            if x.n:
                r = rat_of(ch[0], memo).mul(x.inv())
        elif kind == z3.Z3_OP_POWER and z3.is_rational_value(ch[1]):
            q = Fraction(ch[1].numerator_as_long(), ch[1].denominator_as_long())
            if q.denominator == 1 and 0 < q <= 8:
                x = rat_of(ch[0], memo)
                r = x
                for _ in range(int(q) - 1):
                    r = r.mul(x)
    if r is None:
        ATOMS[k] = e
        r = Rat({((k, 1),): Fraction(1)}, {})
    memo[k] = r
    memo.setdefault("keep", []).append(e)
    return r


def poly_ast(p):
    if not p:
        return z3.RealVal(0)
    ts = []
    for m, c in sorted(p.items()):
        fs = [ATOMS[k] for k, e in m for _ in range(e)]
        if c != 1 or not fs:
            fs.insert(0, to_real_ast(c))
        ts.append(fs[0] if len(fs) == 1 else z3.Product(*fs))
    return ts[0] if len(ts) == 1 else z3.Sum(*ts)


def rat_parts(r):
    """-> numerator and denominator terms, and whether the denominator is known positive."""
    den = None
    pos = True
    for k, e in sorted(r.d.items(), key=lambda x: sorted(x[0])):
        p = dict(k)
        a = poly_ast(p)
        for _ in range(e):
            den = a if den is None else den * a
        if e % 2:
            pos = pos and pos_poly(p)
    return poly_ast(r.n), den, pos


def pos_poly(p):
    return all(c > 0 for c in p.values()) and all(
        ATOMS[k].decl().eq(EXPF) or e % 2 == 0 for m in p for k, e in m) and any(
        all(ATOMS[k].decl().eq(EXPF) for k, e in m) for m in p)


def has_exp(e):
    return _has(e, EXPF, {}) or has_log(e)


def rat_norm(e):
    """Normal form of a real term (None when it would get too big)."""
    try:
        n, d, _ = rat_parts(rat_of(e, {}))
    except TooBig:
        return None
    return n if d is None else n / d


def surely_positive(e):
    """Positive by its form: a quotient of sums of products of exponentials."""
    if not _has(e, EXPF, {}):
        return False
    try:
        r = rat_of(e, {})
    except TooBig:
        return False
    return pos_poly(r.n) and rat_parts(r)[2]


def rat_diff(x, y):
    """x - y as (numerator, denominator, denominator known positive) or None."""
    try:
        m = {}
        return rat_parts(rat_of(x, m).add(rat_of(y, m), -1))
    except TooBig:
        return None


def exp_of(e):
    """exp as a product of atoms: exp(sum c_i m_i + sum log s_j) = prod E(m_i)^c_i s_j."""
    terms = linear_terms(e)
    num = z3.RealVal(1)
    den = z3.RealVal(1)
    const = Fraction(0)
    for c, a in terms:
        if a is None:
            const += c
            continue
        if a.decl().eq(LOGF) and c.denominator == 1:
            s = a.children()[0]
            k = int(c)
        else:
            # keep exponents integral by using the denominator as part of the atom
            q = c.denominator
            atom = a if q == 1 else z3.simplify(a / q)
            s = EXPF(atom)
            key = s.get_id()
            if key not in eng().exps:
                eng().exps[key] = (s, atom)
                eng().assume_fact(s > 0)
            k = c.numerator
        if k > 0:
            num = num * _pow_real(s, k)
        else:
            den = den * _pow_real(s, -k)
    if const != 0:
        s = EXPF(to_real_ast(const))
        key = s.get_id()
        if key not in eng().exps:
            eng().exps[key] = (s, const)
            v = math.exp(float(const))
            lo, hi = Fraction(v) * Fraction(999999, 1000000), Fraction(v) * Fraction(
                1000001, 1000000)
            eng().assume_fact(z3.And(s >= to_real_ast(lo), s <= to_real_ast(hi), s > 0))
        num = num * s
    r = z3.simplify(num / den)
    n = rat_norm(r)
    return r if n is None else n


def exp_only(e):
    names = eng().exp_mode
    ts = linear_terms(e)
    return any(a is not None for _, a in ts) and all(
        a is not None and z3.is_const(a) and a.decl().name() in names for _, a in ts)


def lift_ites(e):
    """e with its conditionals decided (one path each)."""
    while True:
        c = _an_ite(e, set())
        if c is None:
            return e
        k = c.children()
        e = z3.simplify(z3.substitute(e, (c, k[1] if eng().branch(k[0]) else k[2])))


def _an_ite(e, seen):
    todo = [e]
    while todo:
        t = todo.pop()
        if t.get_id() in seen:
            continue
        seen.add(t.get_id())
        if z3.is_app(t):
            if t.decl().kind() == z3.Z3_OP_ITE:
                return t
            todo += t.children()
    return None


class SReal(SBase):
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = e

    def __repr__(self):
        s = str(self.e)
        return "SReal(%s)" % (s if len(s) < 200 else s[:200] + "...")

    def _bin(self, o, f):
        o = _norm(o)
        if isinstance(o, float) and (o in (INF, -INF) or o != o):
            return self._nonfinite(o, f)
        if not isinstance(o, (int, float, Fraction, SReal, SInt, SBool, SBV)):
            return NotImplemented
        if isinstance(o, SBV):
            o = SInt.lift(o)
        return mkreal(f(self.e, to_real_ast(o)))

    def _nonfinite(self, o, f):
        # only additive contexts are meaningful
        return f(0.0, o)

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        o = _norm(o)
        if isinstance(o, float) and (o in (INF, -INF) or o != o):
            raise Unsupported("symbol * non-finite")
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __truediv__(self, o):
        o = _norm(o)
        if isinstance(o, float) and o in (INF, -INF):
            return Fraction(0)
        if isinstance(o, (int, float, Fraction)):
            if o == 0:
                raise ZeroDivisionError
        else:
            if not is_sym(o):
                return NotImplemented
            if bool(o == 0):
                raise ZeroDivisionError
        return self._bin(o, lambda a, b: a / b)

    def __rtruediv__(self, o):
        o = _norm(o)
        if not isinstance(o, (int, float, Fraction)) and not is_sym(o):
            return NotImplemented
        if bool(self == 0):
            raise ZeroDivisionError
        return self._bin(o, lambda a, b: b / a)

    def __floordiv__(self, o):
        q = self / o
        return SReal.lift(q).__floor__()

    @staticmethod
    def lift(o):
        return o if isinstance(o, SReal) else SReal(to_real_ast(o))

    def __mod__(self, o):
        return self - o * self.__floordiv__(o)

    def __pow__(self, k):
        k = _norm(k)
        if isinstance(k, (Fraction, float)) and k == int(k):
            k = int(k)
        if isinstance(k, int):
            if k < 0 and bool(self == 0):
                raise ZeroDivisionError
            return mkreal(_pow_real(self.e, k))
        if k == Fraction(1, 2):
            return self.sqrt()
        raise Unsupported("power")

    def __neg__(self):
        return mkreal(-self.e)

    def __pos__(self):
        return self

    def __abs__(self):
        return mkreal(z3.If(self.e >= 0, self.e, -self.e))

    fabs = __abs__

    def _cmp(self, o, f):
        o = _norm(o)
        if o is None or isinstance(o, str):
            return NotImplemented
        if isinstance(o, float) and (o in (INF, -INF) or o != o):
            return f(0.0, o)
        if not isinstance(o, (int, float, Fraction, SReal, SInt, SBool, SBV)):
            return NotImplemented
        a, b = self.e, to_real_ast(o)
        if has_log(a) or has_log(b) or eng().exp_mode and exp_only(a - b):
            # compare in the exponential domain (exp is increasing)
            a, b = exp_of(a), exp_of(b)
            d = rat_diff(a, b)
            if d is not None and (d[1] is None or d[2]):
                a, b = d[0], z3.RealVal(0)
        return mkbool(z3.simplify(f(a, b)))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        r = self._cmp(o, lambda a, b: a != b)
        return True if r is NotImplemented else r

    def __bool__(self):
        return eng().branch(self.e != 0)

    def __hash__(self):
        if eng().const_hash:
            return 77
        raise Unsupported("hash of a symbolic real")

    def __floor__(self):
        return mkint(z3.ToInt(self.e), None, None)

    def __ceil__(self):
        r = z3.ToInt(self.e)
        return mkint(z3.If(z3.ToReal(r) == self.e, r, r + 1), None, None)

    def floor(self):
        return SReal(z3.ToReal(SInt.lift(self.__floor__()).e))

    def ceil(self):
        return SReal(z3.ToReal(SInt.lift(self.__ceil__()).e))

    def __trunc__(self):
        if bool(self >= 0):
            return self.__floor__()
        return self.__ceil__()

    def __int__(self):
        return index_of(self.__trunc__())

    def __float__(self):
        raise Unsupported("float() of a symbolic real")

    def __round__(self, n=None):
        raise Unsupported("round of a symbolic real")

    def log(self):
        if not surely_positive(self.e) and bool(self <= 0):
            raise ValueError("math domain error")
        e = lift_ites(self.e)
        if z3.is_app(e) and e.decl().eq(EXPF):
            return SReal(e.children()[0])
        return mkreal(LOGF(z3.simplify(e)))

    def exp(self):
        return mkreal(exp_of(lift_ites(self.e)))

    def __int__(self):
        """Truncation towards zero (forks on the value)."""
        neg = not bool(self >= 0)
        x = -self.e if neg else self.e
        k = z3.Int(eng().fresh_name("int"))
        eng().assume_fact(z3.And(z3.ToReal(k) <= x, x < z3.ToReal(k) + 1))
        k = eng().concretize(k)
        return -k if neg else k

    def sqrt(self):
        if bool(self < 0):
            raise ValueError("math domain error")
        n = eng().fresh_name("sqrt")
        v = z3.Real(n)
        eng().assume_fact(z3.And(v >= 0, v * v == self.e))
        return SReal(v)

    def isnan(self):
        return False

    def item(self):
        return self

    def conjugate(self):
        return self

    @property
    def real(self):
        return self


def mkreal(e):
    e = z3.simplify(e)
    if z3.is_rational_value(e):
        return Fraction(e.numerator_as_long(), e.denominator_as_long())
    return SReal(e)


class SNFloat(SBase):
    """A float that may be NaN: (nan flag, real value). IEEE comparison rules for NaN."""

    __slots__ = ("nan", "v")

    def __init__(self, nan, v):
        self.nan, self.v = nan, v

    @staticmethod
    def lift(o):
        o = _norm(o)
        if isinstance(o, SNFloat):
            return o
        if isinstance(o, float) and o != o:
            return SNFloat(z3.BoolVal(True), Fraction(0))
        return SNFloat(z3.BoolVal(False), o)

    def _cmp(self, o, op):
        o = _norm(o)
        if o is None or isinstance(o, str):
            return NotImplemented
        o = SNFloat.lift(o)
        r = op(self.v, o.v)
        return mkbool(z3.simplify(z3.And(z3.Not(self.nan), z3.Not(o.nan), bool_ast(r))))

    def __lt__(self, o):
        return self._cmp(o, lambda a, b: a < b)

    def __le__(self, o):
        return self._cmp(o, lambda a, b: a <= b)

    def __gt__(self, o):
        return self._cmp(o, lambda a, b: a > b)

    def __ge__(self, o):
        return self._cmp(o, lambda a, b: a >= b)

    def __eq__(self, o):
        r = self._cmp(o, lambda a, b: a == b)
        return False if r is NotImplemented else r

    def __ne__(self, o):
        return not_(self.__eq__(o))

    def _bin(self, o, op):
        o = SNFloat.lift(o)
        if eng().branch(z3.Or(self.nan, o.nan)):
            return float("nan")
        return op(self.v, o.v)

    def __add__(self, o):
        return self._bin(o, lambda a, b: a + b)

    __radd__ = __add__

    def __sub__(self, o):
        return self._bin(o, lambda a, b: a - b)

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: b - a)

    def __mul__(self, o):
        return self._bin(o, lambda a, b: a * b)

    __rmul__ = __mul__

    def __truediv__(self, o):
        return self._bin(o, lambda a, b: a / b)

    def __neg__(self):
        return SNFloat(self.nan, -self.v)

    def __hash__(self):
        if eng().const_hash:
            return 77
        raise Unsupported("hash of a symbolic float")

    def isnan(self):
        return mkbool(self.nan)

    def item(self):
        return self

    def __repr__(self):
        return "SNFloat(%s, %s)" % (self.nan, self.v)


del SBase.__array_ufunc__  # let numpy object loops call our operators elementwise


# ------------------------------------------------------------------ boxed parameters
# Python code that validates parameters asks for their type: these are ints and floats to
# isinstance, and solver terms to every operation.
class PInt(int):
    def __new__(cls, v):
        r = int.__new__(cls, 0)
        r._vf = v
        return r


class PFloat(float):
    def __new__(cls, v):
        r = float.__new__(cls, 0.0)
        r._vf = v
        return r


def _box(op):
    def f(self, *a):
        return getattr(self._vf, op)(*[_norm(x) for x in a])
    return f


for _op in ("lt", "le", "gt", "ge", "eq", "ne", "add", "radd", "sub", "rsub", "mul", "rmul",
            "truediv", "rtruediv", "floordiv", "mod", "neg", "abs", "bool", "int", "index",
            "float", "pow", "pos", "trunc", "floor", "ceil", "round"):
    for _c in (PInt, PFloat):
        if _c is PFloat and _op in ("index",):
            continue
        setattr(_c, "__%s__" % _op, _box("__%s__" % _op))
for _c in (PInt, PFloat):
    _c.__hash__ = lambda self: 7
    _c.__repr__ = lambda self: "boxed(%r)" % (self._vf,)
    _c.__str__ = _c.__repr__
    _c.__format__ = lambda self, spec: "boxed"
    _c.is_integer = lambda self: self._vf == self._vf.__int__()
