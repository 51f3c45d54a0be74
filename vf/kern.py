"""Building small data sets and trees in either world, and reference definitions."""
import itertools
from fractions import Fraction

import numpy as np

FBM = "wildwood.preprocessing.features_bitarray"
TREE = "wildwood.tree"
UNDEF_DEPTH = 2 ** 31 - 1


def bitarray(W, cols, maxv):
    """Packed storage holding the given columns (lists of bins)."""
    m = W.mod(FBM)
    fb = m.FeaturesBitArray(len(cols[0]), W.arr(maxv, np.uint64))
    for j, c in enumerate(cols):
        m.features_bitarray_fill_column(fb, j, W.arr(c, np.uint64))
    return fb


def inner(tree):
    return tree._tree_classifier if tree.is_classifier else tree._tree_regressor


def context(tree):
    return (tree._tree_classifier_context if tree.is_classifier
            else tree._tree_regressor_context)


def make_tree(W, clf, is_categorical, *, n_classes=2, criterion=None, step=1.0,
              aggregation=True, dirichlet=0.5, max_depth=None, mss=2, msl=1,
              max_features=None, seed=1, strategy=0):
    t = W.mod(TREE)
    isc = W.arr(is_categorical, np.bool_)
    md = UNDEF_DEPTH if max_depth is None else max_depth
    mf = len(is_categorical) if max_features is None else max_features
    if W.symbolic and isinstance(dirichlet, float):
        dirichlet = Fraction(dirichlet)
    if W.symbolic and isinstance(step, float):
        step = Fraction(step)
    if clf:
        return t.TreeClassifier(
            n_classes=n_classes, criterion=0 if criterion is None else criterion,
            loss="log", step=step, aggregation=aggregation, dirichlet=dirichlet,
            max_depth=md, min_samples_split=mss, min_samples_leaf=msl,
            categorical_features=None, is_categorical=isc, max_features=mf,
            random_state=seed, cat_split_strategy=strategy)
    return t.TreeRegressor(
        criterion=3 if criterion is None else criterion, loss="mse", step=step,
        aggregation=aggregation, max_depth=md, min_samples_split=mss,
        min_samples_leaf=msl, categorical_features=None, is_categorical=isc,
        max_features=mf, random_state=seed)


class Node:
    pass


def read_nodes(W, tree):
    """The stored nodes as plain objects (structure concrete, numbers possibly symbolic)."""
    it = inner(tree)
    n = W.conc(it.node_count)
    out = []
    for i in range(n):
        r = it.nodes[i]
        nd = Node()
        nd.id = i
        for f in ("node_id", "parent", "left_child", "right_child", "depth", "start_train",
                  "end_train", "start_valid", "end_valid", "n_samples_train",
                  "n_samples_valid"):
            setattr(nd, f, W.conc(r[f]))
        nd.is_leaf = bool(r["is_leaf"])
        nd.cat = bool(r["is_split_categorical"])
        nd.feature = W.conc(r["feature"])
        nd.bin_threshold = r["bin_threshold"]
        for f in ("loss_valid", "log_weight_tree", "w_samples_train", "w_samples_valid",
                  "impurity"):
            setattr(nd, f, r[f])
        nd.partition = None
        if nd.cat and not nd.is_leaf:
            a, b = W.conc(r["bin_partition_start"]), W.conc(r["bin_partition_end"])
            nd.partition = [it.bin_partitions[k] for k in range(a, b)]
        nd.y_pred = ([it.y_pred[i, k] for k in range(W.conc(it.n_classes))]
                     if tree.is_classifier else it.y_pred[i])
        out.append(nd)
    return out


def goes_left(W, nd, bins):
    x = bins[nd.feature]
    if nd.cat:
        return W.any([x == b for b in nd.partition])
    return x <= nd.bin_threshold


def structure(W, nodes):
    """Root at 0, links, depths: returns True when the links form one binary tree."""
    n = len(nodes)
    ok = n >= 1
    seen = set()
    stack = [(0, 0)]
    while stack:
        i, d = stack.pop()
        if not (0 <= i < n) or i in seen:
            return False
        seen.add(i)
        nd = nodes[i]
        if nd.node_id != i or nd.depth != d:
            return False
        if not nd.is_leaf:
            for c in (nd.left_child, nd.right_child):
                if not (0 < c < n) or nodes[c].parent != i:
                    return False
                stack.append((c, d + 1))
            if nd.left_child == nd.right_child:
                return False
    return ok and len(seen) == n


def samples(W, tree, which):
    """node id -> list of its sample indices as stored."""
    ctx = context(tree)
    part = ctx.partition_train if which == "train" else ctx.partition_valid
    return [W.conc(part[k]) for k in range(part.shape[0])]


def prunings(nodes, root=0):
    """All prunings of the subtree: list of (leaves, complexity)."""
    nd = nodes[root]
    out = [([root], 1 if not nd.is_leaf else 0)]
    if not nd.is_leaf:
        for a, b in itertools.product(prunings(nodes, nd.left_child),
                                      prunings(nodes, nd.right_child)):
            out.append((a[0] + b[0], 1 + a[1] + b[1]))
    return out


def frac(x):
    return Fraction(x)


def asum(xs):
    s = 0
    for x in xs:
        s = s + x
    return s


def impurity_clf(W, criterion, w, sums):
    """Impurity of a node with class weights `sums` and total weight w."""
    if criterion == 0:
        return 1 - asum([s * s for s in sums]) / (w * w)
    tot = 0
    for s in sums:
        if W.is_true(s > 0):
            p = s / w
            tot = tot - p * W.log(p)
    return tot


def impurity_reg(w, s1, s2):
    return s2 / w - (s1 / w) * (s1 / w)
