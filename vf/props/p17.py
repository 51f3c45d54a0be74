"""P17: hyper-parameters are validated and resolved as documented."""
import numpy as np

from .. import forest as fo, kern
from ..harness import Harness

ENC, FOREST = "wildwood.preprocessing.encoder", "wildwood.forest"
NAN = float("nan")
UNSET = object()


class Rule:
    """kind of valid value -> predicate; `good` a valid value to start from."""

    def __init__(self, good, ints=None, floats=None, words=(), none=False, bools=False,
                 refused=None):
        self.good, self.ints, self.floats, self.words = good, ints, floats, words
        self.none, self.bools, self.refused = none, bools, refused


FOREST_RULES = dict(
    n_estimators=Rule(4, ints=lambda v: v >= 1, refused=True),
    step=Rule(0.5, floats=lambda v: v > 0),
    aggregation=Rule(False, bools=True),
    max_depth=Rule(5, ints=lambda v: v >= 2, none=True),
    min_samples_split=Rule(6, ints=lambda v: v >= 2),
    min_samples_leaf=Rule(6, ints=lambda v: v >= 1),
    max_bins=Rule(17, ints=lambda v: v >= 3),
    max_features=Rule(3, ints=lambda v: v >= 1, floats=lambda v: (v > 0, v <= 1),
                      words=("auto", "sqrt", "log2"), none=True),
    n_jobs=Rule(3, ints=lambda v: [v >= 1, v == -1]),
    random_state=Rule(11, ints=lambda v: v >= 0, none=True, refused=True),
    verbose=Rule(True, bools=True),
)
CLF_RULES = dict(
    criterion=Rule("entropy", words=("gini", "entropy")),
    loss=Rule("log", words=("log",)),
    dirichlet=Rule(0.25, floats=lambda v: v >= 0),
    class_weight=Rule("balanced", words=("balanced",), none=True),
    multiclass=Rule("ovr", words=("multinomial", "ovr"), refused=True),
    cat_split_strategy=Rule("all", words=("binary", "all", "random"), refused=True),
)
REG_RULES = dict(criterion=Rule("mse", words=("mse",)), loss=Rule("mse", words=("mse",)))
ENC_RULES = dict(
    max_bins=Rule(17, ints=lambda v: v >= 3),
    handle_unknown=Rule("consider_missing", words=("error", "consider_missing")),
    subsample=Rule(60000, ints=lambda v: v >= 50000, floats=lambda v: v >= 50000,
                   none=True),
    cat_min_categories=Rule("sqrt", ints=lambda v: v >= 4, words=("log", "sqrt")),
)
WORDS = ("auto", "sqrt", "log2", "gini", "entropy", "mse", "log", "binary", "all",
         "random", "multinomial", "ovr", "balanced", "error", "consider_missing", "",
         "Gini", "none", "3")


def rules(cls):
    if cls == "encoder":
        return ENC_RULES
    return dict(FOREST_RULES, **(CLF_RULES if cls == "clf" else REG_RULES))


def make(W, cls, **kw):
    if cls == "encoder":
        return W.mod(ENC).Encoder(**kw)
    m = W.mod(FOREST)
    return (m.ForestClassifier if cls == "clf" else m.ForestRegressor)(**kw)


def truth(W, c):
    if isinstance(c, tuple):
        return all(W.is_true(x) for x in c)
    if isinstance(c, list):
        return any(W.is_true(x) for x in c)
    return W.is_true(c)


def candidate(W, rule, kind, near=False):
    """(value, valid, what is reported)"""
    if kind == "int":
        v = W.pint("v", 49997, 50003) if near else W.pint("v", -2 ** 40, 2 ** 40)
        ok = bool(rule.ints) and truth(W, rule.ints(v))
    elif kind == "float":
        v = W.pfloat("v", 49998, 50002) if near else W.pfloat("v", -10 ** 6, 10 ** 6)
        ok = bool(rule.floats) and truth(W, rule.floats(v))
    elif kind == "nan":
        v, ok = NAN, False
    elif kind == "word":
        v = W.pick("v", WORDS)
        ok = v in rule.words
    elif kind == "none":
        v, ok = None, rule.none
    elif kind == "bool":
        v = W.flag("v")
        ok = rule.bools
    else:
        v = W.pick("v", [(), [1], {}, object, 1j, (1, 2)])
        ok = False
    return v, ok


def equal(W, a, b):
    if a is b:
        return True
    if a is None or b is None or isinstance(a, str) or isinstance(b, str):
        return type(a) is type(b) and a == b
    if isinstance(a, bool) or isinstance(b, bool):
        return isinstance(a, bool) and isinstance(b, bool) and a == b
    if isinstance(b, (int, float)) and isinstance(a, (int, float)) or W.symbolic:
        return a == b
    return False


def assigned(W, cfg):
    """Assignment of any value to one parameter, and construction with it."""
    cls, name, kind = cfg["cls"], cfg["name"], cfg["kind"]
    rule = rules(cls)[name]
    # (the subsample is truncated to an integer: only values around the limit)
    v, ok = candidate(W, rule, kind, name == "subsample")
    o = make(W, cls, **{name: rule.good})
    W.check("a valid value is reported back", equal(W, getattr(o, name), rule.good))
    others = {k: getattr(o, k) for k in rules(cls) if k != name}
    if cfg["ctor"]:
        try:
            o = make(W, cls, **{name: v})
        except (ValueError, TypeError):
            W.check("only invalid values are rejected (constructor)", not ok)
            return
        W.check("invalid values are rejected (constructor)", ok)
    else:
        try:
            setattr(o, name, v)
        except (ValueError, TypeError):
            W.check("only invalid values are rejected", not ok)
            W.check("the previous value stays in force",
                    equal(W, getattr(o, name), rule.good))
            return
        W.check("invalid values are rejected", ok)
        for k, u in others.items():
            W.check("other parameters keep their values", equal(W, getattr(o, k), u))
    got = getattr(o, name)
    if name == "subsample" and kind == "float":
        W.check("whole part", W.all([got <= v, v < got + 1]))
    else:
        W.check("a valid value is reported back", equal(W, got, v))
    if cls != "encoder":
        W.check("get_params agrees", equal(W, o.get_params()[name], got))


def fitted(W, cfg):
    """After fitting."""
    cls, name, kind = cfg["cls"], cfg["name"], cfg["kind"]
    E = fo.Env(W)
    rule = rules(cls)[name]
    kw = {name: rule.good}
    o = E.new(cls == "clf", **kw)
    y = W.arr([0, 1, 2], np.int64) if cls == "clf" else W.arr([.5, 1., 2.], np.float64)
    o.fit(E.X(3, 3), y)
    v, ok = candidate(W, rule, kind)
    try:
        setattr(o, name, v)
    except (ValueError, AttributeError):
        W.check("only what cannot change or is invalid is refused", rule.refused or not ok)
        W.check("the previous value stays in force", equal(W, getattr(o, name), rule.good))
        return
    W.check("what cannot change after fitting is refused", not rule.refused)
    W.check("invalid values are rejected", ok)
    W.check("the new value is reported", equal(W, getattr(o, name), v))


def resolved(W, cfg):
    """The number of candidate features."""
    m = W.mod(FOREST)
    get = m.ForestClassifier._get_max_features_
    kind = cfg["kind"]
    n = W.int("n_features", 1, cfg["n"])
    if kind in ("auto", "sqrt"):
        k = get(kind, n)
        W.check("square root", W.all([k * k <= n, n < (k + 1) * (k + 1), k >= 1]))
    elif kind == "log2":
        k = get("log2", n)
        k = W.conc(k)
        W.check("base-two logarithm", W.any([W.all([n == 1, k == 1]), W.all([
            k >= 1, 2 ** k <= n, n < 2 ** (k + 1)])]))
    elif kind == "none":
        W.check("all features", get(None, n) == n)
        k = n
    elif kind == "int":
        f = W.pint("max_features", 1, cfg["n"] + 3)
        try:
            k = get(f, n)
        except ValueError:
            W.check("only more candidates than features are rejected", f > n)
            return
        W.check("that many", k == f)
    else:
        n = W.conc(n)
        f = W.pfloat("max_features", 0, 1)
        if not W.is_true(f > 0):
            return
        k = get(f, n)
        if W.symbolic or abs(float(f) * n - round(float(f) * n)) > 1e-9:
            W.check("that fraction, rounded down, at least one", W.any([
                W.all([k == 1, f * n < 2]), W.all([k <= f * n, f * n < k + 1, k >= 1])]))
    W.check("between one and the number of features", W.all([1 <= k, k <= n]))


def depth(W, cfg):
    """No limit is a limit that no tree reaches."""
    m = W.mod(FOREST)
    d = m.ForestClassifier._get_max_depth_(None)
    W.check("larger than any number of nodes, a signed machine word",
            2 ** 31 - 1 <= d < 2 ** 63)
    v = W.pint("max_depth", 2, 10 ** 6)
    W.check("given limits are kept", m.ForestClassifier._get_max_depth_(v) == v)


def unfitted(W, cfg):
    """What only fitting determines is not available before."""
    o = make(W, cfg["cls"])
    for name in ("classes_", "n_classes_", "n_samples_in_", "n_features_in_"):
        if not hasattr(type(o), name):
            continue
        try:
            getattr(o, name)
            W.fail(name + " is refused before fitting")
        except ValueError:
            pass
    for name in ("classes_", "n_classes_"):
        if not hasattr(type(o), name):
            continue
        try:
            setattr(o, name, 3)
            W.fail(name + " is read-only")
        except (ValueError, AttributeError):
            pass
    if cfg["cls"] == "encoder":
        return
    v = W.pint("v", -5, 5)
    for name in ("n_samples_in_", "n_features_in_"):
        try:
            setattr(o, name, v)
            W.check("positive counts only", v >= 1)
        except ValueError:
            W.check("positive counts are accepted", W.no(v >= 1))


def used(W, cfg):
    """The parameters are those the trees and the encoder are made with."""
    clf, name = cfg["clf"], cfg["name"]
    E = fo.Env(W)
    um = W.mod("wildwood._utils")
    vals = USED[name]
    v = W.pick("value", vals)
    f = E.new(clf, n_estimators=2, **{name: v})
    y = [0, 1, 0] if clf else [0.5, 1.5, 2.5]
    if cfg["late"]:      # set after an earlier fit
        f = E.new(clf, n_estimators=2, **{name: W.pick("first", vals)})
        f.fit(E.X(3, 3), W.arr(y, np.int64 if clf else np.float64))
        try:
            setattr(f, name, v)
        except (ValueError, AttributeError):
            W.check("refused", name == "cat_split_strategy")
            return
    m = len(E.trees)
    f.fit(E.X(3, 3), W.arr(y, np.int64 if clf else np.float64))
    if name in ("max_bins", "handle_unknown", "cat_min_categories", "subsample"):
        W.same("encoder's " + name, E.encoders[-1].kw[name], v)
        return
    want = v
    if name == "criterion":
        want = um.criteria_mapping[v]
    elif name == "cat_split_strategy":
        want = um.split_strategy_mapping[v]
    elif name == "max_features" and not isinstance(v, int):
        want = 3 if v is None else 1
    W.same("number of trees", len(E.trees) - m, 2)
    for t in E.trees[m:]:
        if name == "max_depth" and v is None:
            W.check("no depth limit", t.kw[name] >= 2 ** 31 - 1)
        else:
            W.same("trees' " + name, t.kw[name], want)
        W.check("kind of tree", t.kind == ("classifier" if clf else "regressor"))


USED = dict(step=[0.25, 1.0, 3.5], aggregation=[True, False], max_depth=[None, 2, 7],
            min_samples_split=[2, 3, 9], min_samples_leaf=[1, 2, 5],
            max_features=[None, 1, 2, 3, "auto", "log2"], max_bins=[3, 7],
            handle_unknown=["error", "consider_missing"],
            cat_min_categories=["log", "sqrt", 5], subsample=[50000, 60000])
USED_CLF = dict(criterion=["gini", "entropy"], dirichlet=[0.25, 2.0],
                cat_split_strategy=["binary", "all", "random"])
USED.update(USED_CLF)
KINDS = ("int", "float", "nan", "word", "none", "bool", "other")


def _assigned(tier):
    out = []
    for cls in ("clf", "reg", "encoder"):
        for name, r in rules(cls).items():
            for kind in KINDS:
                if kind == "bool" and r.ints is not None:
                    continue      # a bool is an int to Python
                for ctor in (0, 1):
                    out.append(dict(cls=cls, name=name, kind=kind, ctor=ctor))
    return out


def _fitted(tier):
    out = []
    for cls in ("clf", "reg"):
        for name, r in rules(cls).items():
            if r.refused or name in ("step", "dirichlet", "max_depth", "max_features"):
                kinds = [k for k, h in (("int", r.ints), ("float", r.floats),
                                        ("word", r.words), ("none", r.none)) if h]
                for kind in kinds:
                    out.append(dict(cls=cls, name=name, kind=kind))
    return out


def _used(tier):
    return [dict(clf=c, name=k, late=l) for c in (0, 1) for k in USED for l in (0, 1)
            if c or k not in USED_CLF]


def _resolved(tier):
    n = 40 if tier == "quick" else 200
    return [dict(kind=k, n=n) for k in ("auto", "sqrt", "log2", "none", "int")] + [
        dict(kind="float", n=12 if tier == "quick" else 30)]


HARNESSES = [
    Harness("assigned", assigned, lambda: _assigned("quick"), lambda: _assigned("thorough"),
            bounds="every parameter of forests and encoder; integers below 2^40 in size, "
            "reals below 10^6, (of the subsample: values around the limit), NaN, 19 texts, None, booleans, six other objects",
            functions=["ForestBase setters", "ForestClassifier setters",
                       "ForestRegressor setters", "Encoder setters"],
            modules=[FOREST, ENC]),
    Harness("fitted", fitted, lambda: _fitted("quick"), lambda: _fitted("thorough"),
            bounds="the parameters that cannot change and four that can, after a fit",
            functions=["ForestBase setters", "ForestClassifier setters"],
            stubs=["trees, encoder, scikit-learn helpers"], modules=[FOREST]),
    Harness("resolved", resolved, lambda: _resolved("quick"), lambda: _resolved("thorough"),
            bounds="1 to 40 (thorough 200) features; fractions in (0, 1] for up to 12 (30)",
            functions=["ForestBase._get_max_features_"], modules=[FOREST]),
    Harness("depth", depth, [{}], [{}], bounds="limits up to 10^6",
            functions=["ForestBase._get_max_depth_"], modules=[FOREST]),
    Harness("unfitted", unfitted, [dict(cls=c) for c in ("clf", "reg", "encoder")],
            [dict(cls=c) for c in ("clf", "reg", "encoder")], bounds="none",
            functions=["fitted attributes"], modules=[FOREST, ENC]),
    Harness("used", used, lambda: _used("quick"), lambda: _used("thorough"),
            bounds="2-6 values per parameter, before a first fit and between two",
            functions=["ForestBase.fit"], stubs=["trees, encoder, scikit-learn helpers"],
            modules=[FOREST]),
]
