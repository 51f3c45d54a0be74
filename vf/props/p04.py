"""P04: columns are treated as categorical exactly when declared or inferred so."""
import numpy as np

from .. import forest as fo
from ..harness import Harness
from .p03 import DT

CH = "wildwood.preprocessing._checks"
ENC = "wildwood.preprocessing.encoder"


def declaration(W, cfg):
    """get_is_categorical: index lists, masks, malformed declarations."""
    m = W.mod(CH)
    k, kind = cfg["k"], cfg["kind"]
    p = W.conc(W.int("n_features", 1, cfg["p"]))
    if kind == "int":
        decl = [W.int("d%d" % i, -2, p + 2) for i in range(k)]
        arg = W.arr(decl, np.int64) if cfg["array"] else decl
        valid = W.all([W.all([d >= 0, d < p]) for d in decl])
        want = [W.any([d == j for d in decl]) for j in range(p)]
        valid = W.is_true(valid) if k else True
    elif kind == "bool":
        decl = [W.flag("d%d" % i) for i in range(k)]
        arg = np.array(decl, dtype=bool) if cfg["array"] else decl
        valid = k == p
        want = decl
    elif kind == "float":
        arg = np.array([1.0] * k) if cfg["array"] else [1.0] * k
        valid, want = False, None
    else:
        arg = np.array(["a"] * k) if cfg["array"] else ["a"] * k
        valid, want = False, None
    if k == 0:
        valid, want = True, None
    before = None if k == 0 else list(arg)
    try:
        got = m.get_is_categorical(arg, p)
    except ValueError:
        W.check("only a malformed declaration is rejected", not valid)
        return
    W.check("a malformed declaration is rejected", valid)
    if want is None:
        W.check("an empty declaration is none", got is None)
        return
    W.same("one flag per feature", len(got), p)
    for j in range(p):
        W.check("flag of feature %d" % j, W.iff(got[j], want[j]))
    W.check("the declaration is not modified", len(before) == len(arg) and all(
        W.is_true(a == b) for a, b in zip(before, list(arg))))


def none(W, cfg):
    m = W.mod(CH)
    W.check("no declaration", m.get_is_categorical(None, W.conc(W.int("p", 1, 4))) is None)


def dist(W, vals):
    """Number of distinct values (forks)."""
    uniq = []
    for v in vals:
        gone = W.is_true(W.sh.f_isnan(v)) if hasattr(v, "nan") else \
            isinstance(v, float) and v != v
        if gone:  # missing
            continue
        v = v.v if hasattr(v, "nan") else v
        if not any(W.is_true(v == u) for u in uniq):
            uniq.append(v)
    return len(uniq)


def values(W, kind, name, n, fixed=0):
    """n entries, the last `fixed` of which repeat the first."""
    out = []
    for i in range(n - fixed):
        if kind == "text":
            out.append(W.letter(W.int("%s%d" % (name, i), 0, 6)))
        elif kind == "nan":
            out.append(W.nfloat("%s%d" % (name, i)))
        elif kind == "int":
            out.append(W.int("%s%d" % (name, i), -9, 9))
        elif kind == "uint":
            out.append(W.int("%s%d" % (name, i), 0, 9))
        elif kind == "bool":
            out.append(W.flag("%s%d" % (name, i)))
        else:
            out.append(W.real("%s%d" % (name, i), f64=True))
    return out + [out[0]] * fixed


DTS = dict(DT, nan="float64", uint="uint32", float32="float32")


def encoder(W, cfg):
    """Encoder.fit's decision for one to two columns, declared or not."""
    m = W.mod(ENC)
    W.hashed()
    kind, n, df = cfg["kind"], cfg["n"], cfg["df"]
    p = cfg.get("p", 1)
    cols = [values(W, kind, "x%d_" % j, n, cfg.get("fixed", 0)) for j in range(p)]
    decl = None
    if cfg["decl"]:
        decl = [W.flag("decl%d" % j) for j in range(p)]
    cmc = cfg["cmc"]
    enc = m.Encoder(max_bins=max(3, n), is_categorical=None if decl is None else
                    np.array(decl, dtype=bool),
                    cat_min_categories=cmc if cmc in ("log", "sqrt") else 4)
    if cmc not in ("log", "sqrt"):
        enc._cat_min_categories = cmc
        if enc.cat_min_categories != cmc:
            W.assume(False)
    if df:
        X = W.frame([("c%d" % j, W.series(c, DTS[kind])) for j, c in enumerate(cols)])
    else:
        X = W.matrix([[c[i] for c in cols] for i in range(n)], DTS[kind])
    enc.fit(X)
    got = enc.is_categorical_
    W.same("one flag per column", len(got), p)
    if cmc == "log":
        limit = max(2, int(np.floor(np.log(n))))
    elif cmc == "sqrt":
        limit = max(2, int(np.floor(np.sqrt(n))))
    else:
        limit = cmc
    for j in range(p):
        if decl is not None and kind not in ("text", "bool"):
            want = decl[j]
        elif kind in ("text", "bool") and df:
            want = True
        elif decl is not None:
            want = decl[j] or kind == "text"
        else:
            want = dist(W, cols[j]) <= limit or kind == "text"
        W.check("column %d: treated as categorical exactly when it should" % j,
                bool(got[j]) == bool(want))
        W.check("column %d: learned as such" % j,
                (j in enc.categories_) == bool(want)
                and (j in enc.binning_thresholds_) != bool(want))
    # the decision holds for the data seen later too
    if cfg.get("again"):
        d = W.mod("wildwood.preprocessing.features_bitarray").features_bitarray_to_array(
            enc.transform(X))
        for j in range(p):
            if bool(got[j]):
                for i in range(n):
                    for k in range(i):
                        W.check("categorical column %d keeps values apart" % j, W.iff(
                            cols[j][i] == cols[j][k], d[i, j] == d[k, j]))


def rejected(W, cfg):
    """A text column declared numerical in an array cannot be fitted."""
    m = W.mod(ENC)
    W.hashed()
    vals = values(W, "text", "x", 2)
    decl = W.flag("decl")
    enc = m.Encoder(is_categorical=np.array([decl]))
    X = W.matrix([[v] for v in vals], "object")
    try:
        enc.fit(X)
    except ValueError:
        W.check("only a text column declared numerical is rejected", not decl)
        return
    W.check("a text column declared numerical is rejected", decl)
    W.check("categorical", bool(enc.is_categorical_[0]))


def given(W, flags, kind):
    """A declaration of these columns."""
    if kind == "none":
        return None
    idx = [j for j, c in enumerate(flags) if c]
    if kind in ("index", "indexarray"):
        idx = idx[::-1]
        return idx if kind == "index" else np.array(idx, dtype=np.int64)
    return list(flags) if kind == "mask" else np.array(flags, dtype=bool)


def forest(W, cfg):
    """Declarations given to a forest or to its fit reach the encoder; what the encoder
    finds to be categorical reaches every tree."""
    clf, p = cfg["clf"], 2
    E = fo.Env(W)
    X, n = E.X(3, p), 3
    y = W.arr([0, 1, 1] if clf else [1.0, 2.0, 3.0], np.int64 if clf else np.float64)
    ctor, fits = cfg["ctor"], cfg["fits"]
    flags = [W.flag("ctor%d" % j) for j in range(p)]
    decl = given(W, flags, ctor)
    f = E.new(clf, n_estimators=2, categorical_features=decl)
    now = None if ctor == "none" else flags
    W.same("one encoder at most so far", len(E.encoders), 0)
    for k, kind in enumerate(fits):
        fl = [W.flag("fit%d_%d" % (k, j)) for j in range(p)]
        found = [W.flag("found%d_%d" % (k, j)) for j in range(p)]
        fo.StubEncoder.inferred = found
        d = given(W, fl, kind)
        if kind != "none":
            now = fl
        f.fit(X, y, categorical_features=d)
        W.same("one encoder per fit", len(E.encoders), k + 1)
        enc = E.encoders[-1]
        got = enc.kw.get("is_categorical")
        if now is None or (not any(now) and (fits[k] if kind != "none" else ctor).startswith(
                "index")):
            W.check("no column declared", got is None or not any(got))
        else:
            W.same("columns declared to the encoder", [bool(c) for c in got], now)
        W.same("categorical columns of the forest", [bool(c) for c in f.is_categorical_],
               found)
        for t in E.trees[2 * k:]:
            W.same("categorical columns of a tree", [bool(c) for c in t.kw["is_categorical"]],
                   found)
    # malformed declarations are rejected
    for bad in ([0, p], [-1], [True] * (p + 1), [1.5], ["a"]):
        try:
            f.fit(X, y, categorical_features=bad)
            W.fail("a malformed declaration is accepted")
        except ValueError:
            pass


def _forest(tier):
    out = []
    kinds = ("none", "index", "mask", "indexarray", "maskarray")
    for i, a in enumerate(kinds):
        for b in (("none",), ("index",), ("maskarray",)):
            out.append(dict(clf=i % 2, ctor=a, fits=b))
            if tier != "quick":
                out.append(dict(clf=1 - i % 2, ctor=a, fits=b))
    out.append(dict(clf=1, ctor="index", fits=("mask", "none")))
    out.append(dict(clf=0, ctor="mask", fits=("none", "indexarray")))
    out.append(dict(clf=1, ctor="none", fits=("none", "mask")))
    return out


def _decl(tier):
    out = []
    for array in (0, 1):
        for k in range(0, 4 if tier == "quick" else 6):
            out.append(dict(kind="int", k=k, p=4, array=array))
            out.append(dict(kind="bool", k=k, p=4, array=array))
        out.append(dict(kind="float", k=2, p=3, array=array))
        out.append(dict(kind="str", k=2, p=3, array=array))
    return out


def _enc(tier):
    out = []
    for df in (0, 1):
        for kind in ("float", "float32", "int", "uint", "text"):
            for cmc in (2, 3):
                if kind in ("float32", "uint", "text") and cmc == 3:
                    continue
                out.append(dict(kind=kind, df=df, n=4, cmc=cmc, decl=0,
                                again=kind == "float"))
            if kind != "text" or df:
                out.append(dict(kind=kind, df=df, n=3, cmc=2, decl=1))
        out.append(dict(kind="float", df=df, n=3, p=2, cmc=2, decl=0))
        out.append(dict(kind="int", df=df, n=3, p=2, cmc=2, decl=1))
        # boundaries of the documented limits: log 20 < 3 < log 21, sqrt 8 < 3 = sqrt 9
        for n, cmc in ((3, "log"), (3, "sqrt"), (20, "log"), (21, "log"), (8, "sqrt"),
                       (9, "sqrt")):
            out.append(dict(kind="float", df=df, n=n, cmc=cmc, decl=0, fixed=max(0, n - 4)))
        if tier != "quick":
            out.append(dict(kind="float", df=df, n=5, cmc=3, decl=0, again=1))
            out.append(dict(kind="int", df=df, n=5, cmc=4, decl=0))
            for n, cmc in ((54, "log"), (55, "log"), (15, "sqrt"), (16, "sqrt")):
                out.append(dict(kind="float", df=df, n=n, cmc=cmc, decl=0, fixed=n - 5))
    # data frames: missing entries are no values
    out.append(dict(kind="nan", df=1, n=4, cmc=2, decl=0))
    for decl in (0, 1):
        out.append(dict(kind="bool", df=1, n=3, cmc=2, decl=decl))
    return out


HARNESSES = [
    Harness("declaration", declaration, lambda: _decl("quick"), lambda: _decl("thorough"),
            bounds="declarations of up to 3 (thorough 5) entries as lists or arrays, 1..4 "
            "features; integer, boolean, float and text entries",
            functions=["get_is_categorical"], modules=[CH]),
    Harness("none", none, [dict()], [dict()], bounds="no declaration",
            functions=["get_is_categorical"], modules=[CH]),
    Harness("encoder", encoder, lambda: _enc("quick"), lambda: _enc("thorough"),
            bounds="columns of 3-4 (thorough 5) free entries (repeated up to 55 rows at the "
            "boundaries of the 'log' and 'sqrt' rules), one or two columns, data frames and "
            "arrays, declared or not",
            functions=["Encoder.fit", "is_series_categorical", "get_array_dtypes",
                       "check_X"], modules=[ENC],
            stubs=["pandas Series/DataFrame/categoricals replaced by contracts"]),
    Harness("rejected", rejected, [dict()], [dict()], bounds="two entries",
            functions=["get_array_dtypes"], modules=[ENC]),
    Harness("forest", forest, lambda: _forest("quick"), lambda: _forest("thorough"),
            bounds="two columns, all flags, the five forms of a declaration to the "
            "constructor or to fit, two fits in a row; any columns found categorical",
            functions=["ForestBase.fit", "get_is_categorical"],
            stubs=["trees and encoder record what they are given", "joblib.Parallel"],
            modules=["wildwood.forest"]),
]
