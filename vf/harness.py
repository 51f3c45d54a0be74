"""Running one harness configuration symbolically: explore every path, discharge the
obligations of each, keep counterexamples and path witnesses."""
import random
import time
import traceback
from fractions import Fraction

from . import sym
from .sym import z3, Engine
from .world import SymWorld, harness_trouble


class Trouble(BaseException):
    pass


class Harness:
    """name; configs(tier) -> list of dicts; run(W, cfg); bounds: text."""

    timeout_ms = 4000

    def __init__(self, name, run, quick, thorough=None, bounds="", functions=(),
                 modules=(), stubs=(), budget=None, real=True, timeout_ms=4000):
        self.name, self.run = name, run
        self._quick, self._thorough = quick, thorough
        self.bounds, self.functions, self.stubs = bounds, list(functions), list(stubs)
        self.modules = list(modules)
        self.budget = budget
        self.real = real
        self.timeout_ms = timeout_ms

    def configs(self, tier):
        c = self._quick if tier == "quick" or self._thorough is None else self._thorough
        return c() if callable(c) else c


def model_value(model, ast):
    v = model.eval(ast, model_completion=True)
    if z3.is_true(v):
        return True
    if z3.is_false(v):
        return False
    if z3.is_int_value(v) or z3.is_bv_value(v):
        return v.as_long()
    if z3.is_rational_value(v):
        if len(v.as_string()) > 2000:
            return None
        return str(Fraction(v.numerator_as_long(), v.denominator_as_long()))
    if z3.is_algebraic_value(v):
        a = v.approx(20)
        return str(Fraction(a.numerator_as_long(), a.denominator_as_long()))
    return None


def extract_inputs(eng, model):
    out = {}
    for name, (kind, ast, bounds) in eng.inputs.items():
        v = model_value(model, ast)
        if v is not None:
            out[name] = v
    # variables seen only through exp: choose them so that exp takes the model's value
    import math
    for name, (kind, ast, bounds) in eng.inputs.items():
        if kind != "exp":
            continue
        for s, atom in eng.exps.values():
            if not z3.is_expr(atom):
                continue
            one = z3.simplify(z3.substitute(atom, (ast, z3.RealVal(1))))
            zero = z3.simplify(z3.substitute(atom, (ast, z3.RealVal(0))))
            f1 = model.eval(one, model_completion=True)
            f0 = model.eval(zero, model_completion=True)
            ev = model.eval(s, model_completion=True)
            try:
                c = Fraction(f1.numerator_as_long(), f1.denominator_as_long()) - Fraction(
                    f0.numerator_as_long(), f0.denominator_as_long())
                if c == 0 or zero.sexpr() != "0.0":
                    continue
                if z3.is_algebraic_value(ev):
                    ev = ev.approx(20)
                e = Fraction(ev.numerator_as_long(), ev.denominator_as_long())
                out[name] = str(Fraction(math.log(float(e)) / float(c)).limit_denominator(
                    10 ** 6))
                break
            except Exception:
                continue
    return out


def run_config(h, cfg, seed, deadline, n_wit=3, max_cex=3):
    """-> dict(result) ; runs in a forked process."""
    t0 = time.time()
    eng = Engine(timeout_ms=h.timeout_ms, deadline=deadline)
    rng = random.Random("%s|%s|%s" % (seed, h.name, sorted(cfg.items())))
    res = dict(harness=h.name, cfg=cfg, cex=[], inconclusive=[], witnesses=[],
               complete=False, checks=0, discharged=0, unknown=0, nontrivial=0)
    seen = [0]
    stop = [False]

    def one():
        W = SymWorld(eng)
        W.cfg = cfg
        exc = None
        try:
            h.run(W, cfg)
        except Exception as ex:  # the code under test raised
            exc = "%s: %s" % (type(ex).__name__, ex)
            tb = traceback.format_exc(limit=-4)
            if harness_trouble(ex):
                raise Trouble("the harness cannot drive this code: %s @ %s" % (exc, tb))
        finally:
            W.restore()
        res["checks"] += len(W.checks)
        if exc is not None:
            r = eng._check()
            if r == z3.unsat:
                return
            if r == z3.unknown:
                res["inconclusive"].append("exception on a path of unknown feasibility: "
                                           + exc)
                return
            if len(res["cex"]) < max_cex:
                res["cex"].append(dict(label="raises " + exc, trace=tb,
                                       inputs=extract_inputs(eng, eng.solver.model())))
            if len(res["cex"]) >= max_cex:
                stop[0] = True
                raise sym.BudgetExceeded()
            return
        # obligations
        asts = [(l, z3.simplify(a), m) for l, a, m in W.checks]
        res["nontrivial"] += sum(1 for _, a, _ in asts if not z3.is_true(a))
        todo = [(l, a, m) for l, a, m in asts if not z3.is_true(a)]
        res["discharged"] += len(asts) - len(todo)
        if todo:
            v, model = eng.refute(z3.Or([z3.Not(a) for _, a, _ in todo])) \
                if len(todo) > 1 else ("split", None)
            if v == "unsat":
                res["discharged"] += len(todo)
                todo = []
            for l, a, m in todo:
                v, model = eng.refute(z3.Not(a))
                if v == "unsat":
                    res["discharged"] += 1
                    continue
                if v == "unknown":
                    res["unknown"] += 1
                    # still try a concrete search in the real world from a path model
                    r = eng._check()
                    if r == z3.sat and len(res["cex"]) < max_cex:
                        res["cex"].append(dict(label=l, soft=True, inputs=extract_inputs(
                            eng, eng.solver.model())))
                    continue
                ins = [extract_inputs(eng, model)]
                extra = []
                for name, (kind, ast, b) in eng.inputs.items():
                    if kind == "exp":
                        for s, atom in eng.exps.values():
                            extra.append(z3.And(s >= z3.RealVal("1/8"), s <= 8))
                        break
                for goal in ([m] if m is not None else [z3.Not(a)]):
                    eng.solver.push()
                    eng.solver.add(goal, *extra)
                    r = eng._check()
                    if r == z3.sat:
                        ins.insert(0, extract_inputs(eng, eng.solver.model()))
                    eng.solver.pop()
                if len(res["cex"]) < max_cex:
                    res["cex"].append(dict(label=l, inputs=ins[0], alt=ins[1:]))
                if len(res["cex"]) >= max_cex:
                    stop[0] = True
                    raise sym.BudgetExceeded()
                break
        # witness (reservoir)
        if h.real:
            seen[0] += 1
            k = n_wit if len(res["witnesses"]) < n_wit else rng.randrange(seen[0])
            if len(res["witnesses"]) < n_wit or k < n_wit:
                m = eng.model
                if m is None:
                    m = eng.solver.model() if eng._check() == z3.sat else None
                if m is not None:
                    w = extract_inputs(eng, m)
                    if len(res["witnesses"]) < n_wit:
                        res["witnesses"].append(w)
                    else:
                        res["witnesses"][k] = w

    try:
        res["complete"] = eng.explore(one)
    except sym.Unsupported as ex:
        res["inconclusive"].append("unsupported: %s @ %s" % (
            ex, traceback.format_exc(limit=-3)))
    except Trouble as ex:
        res["inconclusive"].append(str(ex))
    except sym.NonDeterminism as ex:
        res["inconclusive"].append("non-determinism: %s" % ex)
    if stop[0]:
        res["complete"] = False
    res["stats"] = eng.stats.as_dict()
    res["wall_s"] = round(time.time() - t0, 3)
    return res
