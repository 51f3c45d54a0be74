"""P13: the bootstrap splits data into disjoint in-bag and out-of-bag samples."""
import numpy as np

from .. import forest as fo, kern
from ..harness import Harness
from . import p04

ENC = "wildwood.preprocessing.encoder"
STUBS = ["random generators: any integer draws in the asked range",
         "trees and encoder record what they are given", "joblib.Parallel runs the tasks",
         "scikit-learn helpers replaced by contracts (symbolic runs only)"]


def drawn(W, free, n, few=10):
    """A bag whose first `free` bootstrap draws are arbitrary and whose later ones leave at
    least one (arbitrary) sample out."""
    seen = {}

    def value(k, i, lo, hi):
        if hi - lo > 1000:
            return 1000 * k + i + 1      # a seed
        b = seen.setdefault(k, len(seen))
        if i >= few:       # long draws: the rest is one sample, often the last
            if "big" not in holes:
                holes["big"] = W.pick("big", [lo, hi // 2, hi - 1])
            return holes["big"] if i % 8 else lo + i % hi
        v = W.int("draw%d_%d" % (b, i), lo, hi - 1)
        if b < free:
            return v
        hole = holes.setdefault(b, None)
        if hole is None:
            hole = holes[b] = W.int("hole%d" % b, lo, hi - 1)
        W.assume(W.no(v == hole))
        return v

    holes = {}
    bag = fo.Bag(W, value, lambda a, b: bool(a == b))
    bag.holes = holes
    return bag


def split_ok(W, n, train, valid):
    train, valid = [W.conc(i) for i in train], [W.conc(i) for i in valid]
    W.check("in-bag samples exist", len(train) > 0)
    W.check("out-of-bag samples exist", len(valid) > 0)
    W.same("each sample is in exactly one part", sorted(train + valid), list(range(n)))
    return train, valid


def counts(W, bag, n):
    """Multiplicities of the last bootstrap draw."""
    d = [vals for _, _, what, vals in bag.draws if what[1] - what[0] <= 1000][-1]
    return [kern.asum([W.ite(v == i, 1, 0) for v in d]) for i in range(n)]


def samples(W, cfg):
    n = cfg["n"]
    bag = drawn(W, cfg["free"], n, cfg.get("few", 10))
    E = fo.Env(W, bag=bag)
    seed = W.int("seed", 0, 2 ** 32 - 2)
    bag.same = lambda a, b: a is b
    tr, va, ct = E.m._generate_train_valid_samples(seed, n)
    train, valid = split_ok(W, n, list(tr), list(va))
    c = counts(W, bag, n)
    W.same("one count per in-bag sample", len(ct), len(train))
    for i, k in zip(train, list(ct)):
        W.eq("multiplicity", k, c[i])
    for i in valid:
        W.eq("out-of-bag samples were not drawn", c[i], 0)
    W.check("indices are machine words", tr.dtype == np.dtype(np.uintp)
            and va.dtype == np.dtype(np.uintp))


def build(W, cfg):
    """One tree's samples and weights."""
    n = cfg["n"]
    bag = drawn(W, cfg["free"], n)
    E = fo.Env(W, bag=bag)
    w = [W.real("w%d" % i, 0, 8) for i in range(n)]
    ys = [W.int("y%d" % i, 0, 3) for i in range(n)]
    sw, y = W.arr(w, np.float32), W.arr(ys, np.float32)
    fb = fo.StubFB(range(n), 2)
    fresh = fo.StubTreeClassifier()
    t = E.m._parallel_build_trees(fresh, fb, y, sw, 7)
    W.same("the tree is returned", t is fresh and len(t.fits) == 1, True)
    f = t.fits[0]
    train, valid = split_ok(W, n, f["train"], f["valid"])
    c = counts(W, bag, n)
    W.same("one weight per sample", len(f["w"]), n)
    for i in train:
        W.eq("in-bag weight", f["w"][i], w[i] * c[i])
    for i in valid:
        W.eq("out-of-bag weight", f["w"][i], w[i])
    for i in range(n):
        W.eq("label", f["y"][i], ys[i])
        W.eq("weights are not modified", sw[i], w[i])
        W.eq("labels are not modified", y[i], ys[i])
    W.check("all samples are handed over", f["fb"] is fb)


def whole(W, cfg):
    """Forest.fit: every tree, and the user's arrays."""
    n, clf, ovr, K = cfg["n"], cfg["clf"], cfg.get("ovr"), cfg.get("K", 2)
    ne = cfg["ne"]
    bag = drawn(W, 0, n)
    E = fo.Env(W, bag=bag)
    kw = dict(n_estimators=ne)
    if clf:
        kw.update(multiclass="ovr" if ovr else "multinomial",
                  class_weight="balanced" if cfg.get("bal") else None)
    f = E.new(clf, **kw)
    w = [W.real("w%d" % i, 0, 8) for i in range(n)]
    sw = None
    if cfg["sw"]:
        sw = W.arr(w, np.dtype(cfg["sw"]))
    else:
        w = [1] * n
    if clf:
        # all K labels occur
        lab = [W.int("y%d" % i, 0, K - 1) for i in range(n - K)] + list(range(K))
        y = W.arr(lab, np.dtype(cfg.get("ydt", "int64")))
    else:
        lab = [W.real("y%d" % i) for i in range(n)]
        y = W.arr(lab, np.dtype(cfg.get("ydt", "float64")))
    lab = list(y)
    X = E.X(n)
    X0 = X.copy()
    if sw is None:
        f.fit(X, y)
    else:
        f.fit(X, y, sample_weight=sw)
    for i in range(n):
        W.eq("labels are not modified", y[i], lab[i])
        if sw is not None:
            W.eq("weights are not modified", sw[i], w[i])
    W.check("data are not modified", bool((X == X0).all()))
    W.same("number of trees", len(E.trees), ne * K if ovr and K > 2 else ne)
    draws = [vals for _, _, what, vals in bag.draws if what[1] - what[0] <= 1000]
    per = [[kern.asum([W.ite(v == i, 1, 0) for v in d]) for i in range(n)] for d in draws]
    for t, tree in enumerate(E.trees):
        W.same("each tree is trained once", len(tree.fits), 1)
        g = tree.fits[0]
        train, valid = split_ok(W, n, g["train"], g["valid"])
        if cfg.get("bal"):
            continue        # weights: see P18
        # every tree's multiplicities are those of one of the draws
        W.check("in-bag weights are multiplied, others are the user's", W.any([
            W.all([_close(W, g["w"][i], w[i] * c[i] if i in train else w[i])
                   for i in range(n)] + [(c[i] > 0) == (i in train) for i in range(n)])
            for c in per]))


def _close(W, a, b):
    return a == b if W.symbolic else abs(float(a) - float(b)) < 1e-3


def encoded(W, cfg):
    """The encoder leaves the user's table alone."""
    m = W.mod(ENC)
    W.hashed()
    kind, df, n = cfg["kind"], cfg["df"], cfg["n"]
    col = [W.nfloat("x%d" % i) for i in range(n)] if kind == "nan" else \
        p04.values(W, kind, "x", n)
    col2 = p04.values(W, "float", "z", n)

    def table():
        dt = p04.DTS["float" if kind == "nan" else kind]
        if df:
            return W.frame([("a", W.series(list(col), dt)), ("b", W.series(
                list(col2), "float64"))])
        return W.matrix([[a, b] for a, b in zip(col, col2)], dt)

    def entries(X):
        if df:
            return [list(X[c]) for c in ("a", "b")]
        return [[X[i, j] for i in range(n)] for j in range(2)]
    X = table()
    isc = np.array([cfg["cat"], False]) if cfg["cat"] is not None else None
    enc = m.Encoder(is_categorical=isc, max_bins=3)
    before = entries(X)
    enc.fit(X)
    enc.transform(X)
    W.check("same shape", tuple(X.shape) == (n, 2))
    for a, b in zip(before, entries(X)):
        for u, v in zip(a, b):
            if W.symbolic:
                W.check("table not modified", W.any([_nan(W, u) and _nan(W, v),
                                                     W.is_true(u == v)]))
            else:
                W.check("table not modified", bool(u == v) or (u != u and v != v))
    if isc is not None:
        W.check("declaration not modified", bool(isc[0]) == bool(cfg["cat"])
                and not bool(isc[1]))


def _nan(W, u):
    return W.is_true(u != u)


def _samples(tier):
    out = [dict(n=n, free=k) for n in (2, 3) for k in (0, 1)] + [
        dict(n=2, free=2), dict(n=4, free=0), dict(n=300, free=1, few=0)]
    if tier == "thorough":
        out += [dict(n=3, free=2), dict(n=4, free=1), dict(n=5, free=0)]
    return out


def _whole(tier):
    out = []
    for clf in (0, 1):
        for sw in ("float32", "float64", None):
            out.append(dict(clf=clf, n=3, ne=1, sw=sw,
                            ydt="float32" if sw == "float32" else
                            "int64" if clf else "float64"))
    out.append(dict(clf=1, n=3, ne=2, sw="float32"))
    out.append(dict(clf=0, n=2, ne=3, sw="float32"))
    for bal in (0, 1):
        out.append(dict(clf=1, n=3, ne=1, sw="float32", bal=bal, K=3, ovr=1))
        out.append(dict(clf=1, n=3, ne=1, sw="float32", bal=1, K=2 + bal))
        out.append(dict(clf=bal, n=2, ne=3, sw="float32", vb=1, nj=2))
    out.append(dict(clf=1, n=3, ne=1, sw="float32", K=3, ovr=1, vb=1, nj=2))
    if tier == "thorough":
        out.append(dict(clf=1, n=4, ne=2, sw="float32"))
        out.append(dict(clf=0, n=3, ne=3, sw="float32"))
        out.append(dict(clf=1, n=3, ne=2, sw="float32", K=3, ovr=1))
        out.append(dict(clf=1, n=4, ne=1, sw="float32", K=3, ovr=1))
    return out


def _enc(tier):
    n = 2 if tier == "quick" else 3
    return [dict(kind=k, df=df, cat=c, n=n) for df in (0, 1)
            for k, c in (("float", False), ("float", True), ("nan", False), ("int", True),
                         ("int", None), ("text", True))
            if not (k == "text" and not df)]


HARNESSES = [
    Harness("samples", samples, lambda: _samples("quick"), lambda: _samples("thorough"),
            bounds="2-4 (thorough 5) samples, every draw; up to two rejected draws; 300 samples "
            "most of which are draws of one sample",
            functions=["_generate_train_valid_samples"], stubs=STUBS,
            modules=["wildwood.forest"]),
    Harness("build", build, [dict(n=2, free=1), dict(n=3, free=0)],
            [dict(n=2, free=2), dict(n=3, free=1), dict(n=4, free=0)],
            bounds="2-4 samples, every draw, any weights and labels",
            functions=["_parallel_build_trees"], stubs=STUBS, modules=["wildwood.forest"]),
    Harness("whole", whole, lambda: _whole("quick"), lambda: _whole("thorough"),
            bounds="2-3 (thorough 4) samples, 1-3 trees per forest or per class, every draw, "
            "any weights and labels, all weight and label types",
            functions=["ForestBase.fit", "_parallel_build_trees",
                       "_generate_train_valid_samples"], stubs=STUBS,
            modules=["wildwood.forest"]),
    Harness("encoded", encoded, lambda: _enc("quick"), lambda: _enc("thorough"),
            bounds="tables of two columns and 2 (thorough 3) rows",
            functions=["Encoder.fit", "Encoder.transform"],
            stubs=["pandas replaced by contracts"], modules=[ENC]),
]
