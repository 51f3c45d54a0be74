"""P24: exported node tables and decision paths describe the tree."""
import re

import numpy as np

from .. import forest as fo, kern
from ..harness import Harness
from .p09 import numbered, tree_of

TREE = "wildwood._tree"
FIELDS = ("node_id", "parent", "left_child", "right_child", "is_leaf", "is_left", "depth",
          "feature", "bin_threshold", "impurity", "loss_valid", "log_weight_tree",
          "n_samples_train", "n_samples_valid", "w_samples_train", "w_samples_valid",
          "start_train", "end_train", "start_valid", "end_valid", "is_split_categorical",
          "bin_partition_start", "bin_partition_end")


def grown(W, cfg, contents):
    """A tree (wrapper included) holding nodes planted through the code's own add_node_tree;
    storage is larger than the tree."""
    clf, K, p, nb = bool(cfg["clf"]), cfg.get("K", 2), 2, cfg.get("nb", 3)
    tm = W.mod(TREE)
    rows = numbered(tree_of(cfg["shape"]), cfg.get("order", "bfs"))
    n = len(rows)
    cap = n + cfg.get("spare", 2)
    t = kern.make_tree(W, clf, [False, True], n_classes=K)
    it = tm._TreeClassifier(p, K, 1, 0, cap, 8, 0) if clf else \
        tm._TreeRegressor(p, 1, 0, cap, 8, 0)
    want = []
    for i, (parent, left, depth, leaf) in enumerate(rows):
        d = {}
        d["parent"], d["is_left"], d["depth"], d["is_leaf"] = parent, left, depth, leaf
        d["feature"], d["bin_threshold"], d["cat"], d["subset"] = 0, 0, False, None
        if not leaf:
            kind = cfg["kinds"][sum(not w["is_leaf"] for w in want)]
            d["feature"] = W.conc(W.int("feature%d" % i, 0, p - 1)) \
                if kind == "any" else kind == "cat"
            if kind == "cat":
                d["cat"], d["feature"] = True, 1
                d["subset"] = [b for b in range(nb) if W.flag("in%d_%d" % (i, b))]
            else:
                d["feature"] = int(d["feature"])
                d["bin_threshold"] = W.conc(W.int("thr%d" % i, 0, nb - 1))
        if contents:
            for f in ("n_samples_train", "n_samples_valid", "start_train", "end_train",
                      "start_valid", "end_valid"):
                d[f] = W.int("%s%d" % (f, i), 0, 1000)
            for f in ("impurity", "w_samples_train", "w_samples_valid", "loss_valid",
                      "log_weight_tree"):
                d[f] = W.real("%s%d" % (f, i), 0, 50)
        else:
            d.update(n_samples_train=3, n_samples_valid=3, start_train=0, end_train=1,
                     start_valid=0, end_valid=1, impurity=0.5, w_samples_train=1.0,
                     w_samples_valid=1.0, loss_valid=0.0, log_weight_tree=0.0)
        sub = d["subset"]
        j = W.conc(tm.add_node_tree(
            it, parent, depth, left, leaf, d["feature"], 0.0, d["bin_threshold"],
            d["impurity"], d["n_samples_train"], d["n_samples_valid"],
            d["w_samples_train"], d["w_samples_valid"], d["start_train"], d["end_train"],
            d["start_valid"], d["end_valid"], d["loss_valid"], d["cat"],
            W.arr(sub or [], np.uint64) if d["cat"] else None,
            len(sub or [])))
        assert i == j
        it.nodes[i]["log_weight_tree"] = d["log_weight_tree"]
        if clf:
            d["y_pred"] = [W.real("q%d_%d" % (i, k), 0, 1) if contents else 0.5
                           for k in range(K)]
            for k in range(K):
                it.y_pred[i, k] = d["y_pred"][k]
        else:
            d["y_pred"] = W.real("q%d" % i) if contents else 0.5
            it.y_pred[i] = d["y_pred"]
        want.append(d)
    for i, d in enumerate(want):
        d["node_id"] = i
        for side, s in (("left_child", True), ("right_child", False)):
            c = [j for j, e in enumerate(want) if e["parent"] == i and e["is_left"] == s]
            if c:
                d[side] = c[0]
    setattr(t, "_tree_classifier" if clf else "_tree_regressor", it)
    return t, it, want


def numbers(s):
    return [int(x) for x in re.findall(r"\d+", s)]


def check_table(W, df, want, clf):
    W.same("one row per node", len(df), len(want))
    cols = {c: list(df[c]) for c in df.columns}
    for i, d in enumerate(want):
        for f in FIELDS:
            if f not in d:
                continue        # a leaf's links mean nothing
            if f in ("parent", "is_left") and i == 0 or d["is_leaf"] and f in (
                    "feature", "bin_threshold", "bin_partition_start", "bin_partition_end"):
                continue
            W.check("column " + f, f in cols)
            v = cols[f][i]
            W.eq("%s of node %d" % (f, i), v, d[f])
        W.check("kind of split of node %d" % i,
                bool(cols["is_split_categorical"][i]) == d["cat"])
        if not d["is_leaf"]:
            W.same("condition of node %d" % i, numbers(cols["bin_partition"][i]),
                   d["subset"] if d["cat"] else [d["bin_threshold"]])
        v = cols["y_pred"][i]
        if not clf:
            W.eq("prediction of node %d" % i, v, d["y_pred"])
        elif W.symbolic:
            W.check("prediction is shown", getattr(v, "arr", None) is not None)
            W.same("number of classes shown", len(v.arr), len(d["y_pred"]))
            for a, b in zip(v.arr, d["y_pred"]):
                W.eq("prediction of node %d" % i, a, b)
        else:
            got = [float(x) for x in re.findall(r"[-+.\deE]+", v)]
            W.same("number of classes shown", len(got), len(d["y_pred"]))
            for a, b in zip(got, d["y_pred"]):
                W.check("prediction of node %d" % i, abs(a - b) <= 0.0051)


def table(W, cfg):
    clf = bool(cfg["clf"])
    t, it, want = grown(W, cfg, True)
    df = t.get_nodes()
    check_table(W, df, want, clf)
    W.same("depth of the tree", t.get_depth(), max(d["depth"] for d in want))
    W.same("actual depth of the tree", W.conc(t.get_actual_depth()),
           max(d["depth"] for d in want))
    W.same("number of leaves", t.get_n_leaves(), sum(d["is_leaf"] for d in want))


def steps(want, x):
    """The split nodes a sample passes, with the side it takes, and its leaf."""
    out, i = [], 0
    while not want[i]["is_leaf"]:
        d = want[i]
        v = x[d["feature"]]
        left = v in d["subset"] if d["cat"] else v <= d["bin_threshold"]
        out.append((i, v, left))
        i = d["left_child"] if left else d["right_child"]
    return out, i


def check_path(W, df, want, x):
    ref, leaf = steps(want, x)
    W.same("one step per split node passed", len(df), len(ref))
    for k, (i, v, left) in enumerate(ref):
        d = want[i]
        get = lambda c: list(df[c])[k]
        W.same("depth of a step", W.conc(get("depth")), d["depth"])
        W.same("feature of a step", W.conc(get("feature")), d["feature"])
        W.check("kind of a step", bool(get("is_split_categorical")) == d["cat"])
        W.same("side taken", get("decision").split(":")[0], "left" if left else "right")
        shown = numbers(get("decision"))
        if d["cat"]:
            W.same("value and subset of a step", shown, [v] + d["subset"])
            W.same("subset of a step", numbers(get("bin_partition")), d["subset"])
        else:
            W.same("value and threshold of a step", shown, [v, d["bin_threshold"]])
            W.eq("threshold of a step", get("bin_threshold"), d["bin_threshold"])
    return leaf


def path(W, cfg):
    """Paths of samples: as stored, and as prediction routes them."""
    t, it, want = grown(W, cfg, False)
    m, nb = cfg["m"], cfg.get("nb", 3)
    X = [[W.conc(W.int("x%d_%d" % (i, j), 0, nb - 1)) for j in range(2)] for i in range(m)]
    out = t.path_leaf(W.matrix(X, np.uint64))
    W.same("one path per sample", len(out), m)
    fb = kern.bitarray(W, [[r[j] for r in X] for j in range(2)], [nb - 1] * 2)
    leaves = t.apply(fb)
    for i in range(m):
        leaf = check_path(W, out[i], want, X[i])
        W.same("prediction reaches the leaf of the path", W.conc(leaves[i]), leaf)


def forest(W, cfg):
    """Tables and paths asked of a forest are those of the tree designated."""
    clf, ovr = cfg["clf"], bool(cfg.get("ovr"))
    K = 3 if ovr else 2
    E = fo.Env(W, real_trees=True, real_encoder=True)
    W.spatch("wildwood._grow", "log_sum_2_exp", lambda a, b: kern.frac(0))
    kw = dict(n_estimators=1 if ovr else 2, aggregation=bool(cfg.get("agg", 0)),
              categorical_features=[False, True], max_bins=4, max_features=None)
    if clf:
        kw.update(multiclass="ovr" if ovr else "multinomial", dirichlet=0.5)
    f = E.new(clf, **kw)
    n = cfg["n"]
    fx = W.sh.Fraction if W.symbolic else float
    X = W.matrix([[fx([3, 1, 4, 1, 5, 9, 2, 6][i]), fx([0, 1, 0, 2, 1, 0, 2, 1][i])]
                  for i in range(n)], np.float64)
    y = [W.conc(W.int("y%d" % i, 0, K - 1)) if i < 2 else i % K for i in range(n)]
    f.fit(X, W.arr(y, np.int64) if clf else W.arr([fx(v) for v in y], np.float64))
    Z = W.matrix([[W.real("z", 0, 10), fx(2)], [fx(2), fx(0)], [fx(4), fx(1)]], np.float64)
    to = W.mod(kern.FBM).features_bitarray_to_array
    B = to(f._encoder.transform(Z))
    A = f.apply(Z)
    bins = [[W.conc(B[i, j]) for j in range(2)] for i in range(3)]
    for k, t in enumerate(f.trees):
        want = []
        for nd in kern.read_nodes(W, t):
            d = dict(vars(nd), subset=None)
            if nd.cat and not nd.is_leaf:
                d["subset"] = [W.conc(b) for b in nd.partition]
            d["bin_threshold"] = W.conc(nd.bin_threshold)
            if d["is_leaf"]:
                del d["left_child"], d["right_child"]
            want.append(d)
        check_table(W, f.get_nodes(k), want, clf)
        out = f.path_leaf(Z, k)
        W.same("one path per sample", len(out), 3)
        for i in range(3):
            leaf = check_path(W, out[i], want, bins[i])
            W.same("prediction reaches the leaf of the path", W.conc(A[k, i]), leaf)
    first = f.path_leaf(Z)
    for i in range(3):
        W.same("the first tree unless told otherwise", list(first[i]["decision"]),
               list(f.path_leaf(Z, 0)[i]["decision"]))


SHAPES = (0, [0, 0], [[0, 0], 0], [0, [0, 0]])


def _inner(s):
    return 0 if s == 0 else 1 + _inner(s[0]) + _inner(s[1])


def _table(tier):
    out = []
    for clf in (0, 1):
        for s in SHAPES + (() if tier == "quick" else ([[0, 0], [0, 0]], [0, [[0, 0], 0]])):
            for kinds in (("cont", "cat", "cont"), ("cat", "cont", "cat")):
                for order in ("bfs", "rl"):
                    if _inner(s) < 2 and order == "rl" or s == 0 and kinds[0] == "cat":
                        continue
                    out.append(dict(clf=clf, shape=s, kinds=kinds, order=order,
                                    K=3 if order == "rl" else 2))
    out.append(dict(clf=1, shape=[0, 0], kinds=("cat",), spare=0))
    out.append(dict(clf=0, shape=[0, 0], kinds=("cont",), spare=0))
    return out


def _path(tier):
    out = []
    for clf in (0, 1):
        for s in SHAPES:
            for kinds in (("any", "cat"), ("cat", "any"), ("cat", "cat"), ("any", "any")):
                if _inner(s) == 0 and kinds != ("any", "any"):
                    continue
                if _inner(s) == 1 and kinds[1] != "any":
                    continue
                out.append(dict(clf=clf, shape=s, kinds=kinds, m=1, order="bfs",
                                nb=3 if tier != "quick" or _inner(s) < 2 else 2))
        out.append(dict(clf=clf, shape=[0, 0], kinds=("any",), m=2, nb=2))
        if tier != "quick":
            out.append(dict(clf=clf, shape=[[0, 0], [0, 0]], kinds=("any", "cat", "any"),
                            m=1, nb=2, order="rl"))
            out.append(dict(clf=clf, shape=[[0, 0], 0], kinds=("any", "any"), m=2, nb=2))
    return out


def _forest(tier):
    out = [dict(clf=1, n=5), dict(clf=0, n=5), dict(clf=1, n=6, ovr=1)]
    if tier != "quick":
        out += [dict(clf=1, n=7, agg=1), dict(clf=0, n=8), dict(clf=1, n=8, ovr=1)]
    return out


HARNESSES = [
    Harness("table", table, lambda: _table("quick"), lambda: _table("thorough"),
            bounds="trees of 1-3 (thorough: 4) leaves in two node orders, storage exact or "
            "larger, any recorded values, thresholds and subsets of three bins",
            functions=["get_nodes", "get_nodes_classifier", "get_nodes_regressor",
                       "TreeBase.get_depth", "TreeBase.get_n_leaves",
                       "TreeBase.get_actual_depth"],
            stubs=["numpy.array2string keeps the array shown (symbolic runs only)"],
            modules=[TREE, "wildwood.tree"]),
    Harness("path", path, lambda: _path("quick"), lambda: _path("thorough"),
            bounds="trees of 1-3 (thorough: 4) leaves with any features, thresholds and "
            "subsets of 2-3 bins; one or two samples with any bins",
            functions=["path_leaf", "sample_path_leaf", "tree_apply"],
            modules=[TREE, "wildwood.tree"]),
    Harness("forest", forest, lambda: _forest("quick"), lambda: _forest("thorough"),
            bounds="forests of 1-2 trees per class fitted on 5-8 rows of a numerical and a "
            "categorical column with any labels of two rows; three rows, one of them with "
            "any numerical value",
            functions=["ForestBase.get_nodes", "ForestBase.path_leaf"],
            stubs=["log_sum_2_exp", "bootstrap draws fixed", "joblib.Parallel"],
            modules=["wildwood.forest"]),
]
