"""P18: labels and weights reach the trees unchanged in meaning."""
from fractions import Fraction

import numpy as np

from .. import forest as fo, kern
from ..harness import Harness

STUBS = ["trees and encoder record what they are given", "joblib.Parallel runs the tasks",
         "fixed bootstrap draws (see P13)",
         "scikit-learn helpers replaced by contracts (symbolic runs only)"]
DT = {"int": "int64", "int8": "int8", "float": "float64", "bool": "bool"}


def make_labels(W, kind, n, name):
    """n labels of any values."""
    if kind == "text":
        toks = [W.int("%s%d" % (name, i), 0, 5) for i in range(n)]
        vals = [W.letter(t) for t in toks]
        y = W.sh.SArr(vals, np.dtype(object)) if W.symbolic else np.array(vals)
    elif kind == "bool":
        vals = toks = [W.flag("%s%d" % (name, i)) for i in range(n)]
        y = W.arr(vals, np.dtype(bool))
    elif kind == "float":
        toks = [W.int("%s%d" % (name, i), -6, 6) for i in range(n)]
        vals = [t * (1.0 if not W.symbolic else kern.frac(Fraction(1))) for t in toks]
        y = W.arr(vals, np.float64)
    else:
        vals = toks = [W.int("%s%d" % (name, i), -4, 4) for i in range(n)]
        y = W.arr(vals, np.dtype(DT[kind]))
    return toks, y


def ranks(W, toks):
    """Rank of each label among the distinct ones (forks on the order of the labels)."""
    uniq = []
    for t in toks:
        k = 0
        while k < len(uniq) and W.is_true(uniq[k] < t):
            k += 1
        if k == len(uniq) or not W.is_true(uniq[k] == t):
            uniq.insert(k, t)
    out = [[k for k, u in enumerate(uniq) if W.is_true(u == t)][0] for t in toks]
    return uniq, out


def value(W, kind, tok):
    if kind == "text":
        return W.letter(tok)
    if kind == "float":
        return tok * (1.0 if not W.symbolic else kern.frac(Fraction(1)))
    return tok


def classes(W, cfg):
    n, ne, kind = cfg["n"], cfg["ne"], cfg["kind"]
    ovr, bal = bool(cfg.get("ovr")), bool(cfg.get("bal"))
    E = fo.Env(W)
    toks, y = make_labels(W, kind, n, "y")
    uniq, rank = ranks(W, toks)
    K = len(uniq)
    W.assume(K >= 2)
    if cfg.get("K"):
        W.assume(K == cfg["K"])
    f = E.new(True, n_estimators=ne, multiclass="ovr" if ovr else "multinomial",
              class_weight="balanced" if bal else None)
    if cfg.get("again"):
        _, y0 = make_labels(W, "int", 3, "z")
        f.fit(E.X(3), W.arr(cfg["again"], np.int64))
    m = len(E.trees)
    w = [1] * n
    if cfg["sw"]:
        w = [W.real("w%d" % i, 0, 8) for i in range(n)]
        f.fit(E.X(n), y, sample_weight=W.arr(w, np.float32))
    else:
        f.fit(E.X(n), y)
    trees = E.trees[m:]
    ovr = ovr and K > 2
    W.same("number of trees", len(trees), ne * K if ovr else ne)
    # ---- the classes
    cl = list(f.classes_)
    W.same("number of classes", (len(cl), W.conc(f.n_classes_)), (K, K))
    for c, u in zip(cl, uniq):
        W.check("classes are the sorted labels", c == value(W, kind, u))
    # ---- which column a tree's votes go to
    base = trees[0].no
    if ovr:
        col = []
        for t in range(len(trees)):
            fo.StubTree.table = staticmethod(
                lambda no, r: [0.0, 1.0] if no == base + t else [1.0, 0.0])
            P = f.predict_proba(E.X(1))
            hit = [k for k in range(K) if W.is_true(P[0, k] > 0.5)]
            W.same("votes of one tree go to one class", len(hit), 1)
            col.append(hit[0])
        for k in range(K):
            W.same("trees per class", col.count(k), ne)
    # ---- labels and weights
    drawn = [vals for _, _, what, vals in E.bag.draws if what[1] - what[0] == n][-1]
    for t, tree in enumerate(trees):
        g = tree.fits[0]
        W.same("number of classes of the trees", W.conc(tree.kw["n_classes"]),
               2 if ovr else K)
        want = [int(rank[i] == col[t]) for i in range(n)] if ovr else rank
        for i in range(n):
            W.eq("a label is its class number", g["y"][i], want[i])
            ww = w[i]
            if bal:
                ww = ww * kern.frac(Fraction(n, (2 if ovr else K) * want.count(want[i]))) \
                    if W.symbolic else ww * n / (2 if ovr else K) / want.count(want[i])
            W.eq("weight", g["w"][i], ww * max(1, drawn.count(i)))
    # ---- trees that remember their training labels reproduce them
    def memory(no, r):
        lab = W.conc(E.trees[no].fits[-1]["y"][r])
        return [1.0 if k == lab else 0.0 for k in range(2 if ovr else K)]
    fo.StubTree.table = staticmethod(memory)
    L = f.predict(E.X(n))
    for i in range(n):
        W.check("remembered labels come back", L[i] == value(W, kind, toks[i]))


def targets(W, cfg):
    """Regression."""
    n, ne = cfg["n"], cfg["ne"]
    E = fo.Env(W)
    f = E.new(False, n_estimators=ne)
    if cfg["kind"] == "int":
        y = [W.int("y%d" % i, -9, 9) for i in range(n)]
    else:
        y = [W.real("y%d" % i) for i in range(n)]
    w = [W.real("w%d" % i, 0, 8) for i in range(n)]
    Y = W.arr(y, np.dtype("int64" if cfg["kind"] == "int" else cfg["kind"]))
    if cfg["sw"]:
        f.fit(E.X(n), Y, sample_weight=W.arr(w, np.dtype(cfg["sw"])))
    else:
        w = [1] * n
        f.fit(E.X(n), Y)
    drawn = [vals for _, _, what, vals in E.bag.draws if what[1] - what[0] == n][-1]
    W.same("number of trees", len(E.trees), ne)
    for tree in E.trees:
        g = tree.fits[0]
        W.same("one label and weight per sample", (len(g["y"]), len(g["w"])), (n, n))
        for i in range(n):
            W.eq("target", g["y"][i], y[i])
            W.eq("weight", g["w"][i], w[i] * max(1, drawn.count(i)))


def _cls(tier):
    out = []
    big = tier != "quick"
    for kind in ("int", "text"):
        out.append(dict(kind=kind, n=3, ne=2, sw=1))
        out.append(dict(kind=kind, n=4, ne=1, sw=0, bal=1))
        out.append(dict(kind=kind, n=3, ne=2, sw=1, ovr=1))
        out.append(dict(kind=kind, n=4, ne=1, sw=0, ovr=1, bal=1, K=3))
    out.append(dict(kind="float", n=3, ne=1, sw=0, bal=1))
    out.append(dict(kind="bool", n=4, ne=1, sw=1, bal=1))
    out.append(dict(kind="int8", n=3, ne=1, sw=1, bal=1, ovr=1, K=3))
    out.append(dict(kind="int", n=4, ne=1, sw=0, bal=1, ovr=1, K=4))
    out.append(dict(kind="int", n=3, ne=2, sw=1, ovr=1, vb=1, nj=2))
    out.append(dict(kind="text", n=4, ne=1, sw=1, ovr=1, bal=1, K=3, vb=1, nj=3))
    out.append(dict(kind="int", n=3, ne=3, sw=1, vb=1, nj=2))
    for again in ([0, 1, 2], [5, 5, 7]):
        out.append(dict(kind="int", n=3, ne=1, sw=0, again=again))
    if big:
        out.append(dict(kind="int", n=5, ne=1, sw=1, bal=1))
        out.append(dict(kind="text", n=5, ne=2, sw=0, ovr=1, K=3, bal=1))
        out.append(dict(kind="int", n=5, ne=1, sw=0, ovr=1, K=4))
        out.append(dict(kind="float", n=4, ne=1, sw=1))
    return out


def _tgt(tier):
    return [dict(n=3, ne=e, kind=k, sw=s) for e in (1, 2) for k, s in (
        ("float64", "float64"), ("float32", "float32"), ("int", None))] + [
            dict(n=3, ne=3, kind="float64", sw="float64", vb=1, nj=2)]


HARNESSES = [
    Harness("classes", classes, lambda: _cls("quick"), lambda: _cls("thorough"),
            bounds="3-4 (thorough 5) samples, any integer, text, whole float or boolean "
            "labels (2 to 4 classes), any weights, 1-2 trees per forest or "
            "class; also after an earlier fit on other labels",
            functions=["ForestClassifier._encode_y", "ForestBase.fit",
                       "ForestClassifier.predict", "ForestClassifier.predict_proba"],
            stubs=STUBS, modules=["wildwood.forest"]),
    Harness("targets", targets, lambda: _tgt("quick"), lambda: _tgt("thorough"),
            bounds="3 samples, 1-2 trees, any targets and weights",
            functions=["ForestBase.fit", "_parallel_build_trees"], stubs=STUBS,
            modules=["wildwood.forest"]),
]
