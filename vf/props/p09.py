"""P09: a tree's prediction is the exponential-weights average over its prunings."""
import numpy as np

from .. import fit as ft, kern
from ..harness import Harness

TREE, GROW, UTILS = "wildwood._tree", "wildwood._grow", "wildwood._utils"
ASSUMPTIONS = ["exp is a positive multiplicative function, log its inverse"]


def shapes(leaves):
    """Full binary trees with that many leaves: None is a leaf, (l, r) an inner node."""
    if leaves == 1:
        return [None]
    return [(a, b) for k in range(1, leaves) for a in shapes(k) for b in shapes(leaves - k)]


def numbered(shape, order):
    """Parent-before-child numberings as growth produces them (depth first, either child
    first) and breadth first: list of (parent, is_left, depth, is_leaf)."""
    out = []
    todo = [(shape, -2, False, 0)]
    while todo:
        s, parent, left, d = todo.pop(0 if order == "bfs" else -1)
        i = len(out)
        out.append((parent, left, d, s is None))
        if s is not None:
            kids = [(s[0], i, True, d + 1), (s[1], i, False, d + 1)]
            todo += kids if order != "rl" else kids[::-1]
    return out


def plant(W, clf, K, rows, cap):
    """A tree with these nodes; feature d separates the two sides at depth d."""
    tm = W.mod(TREE)
    p = max([r[2] for r in rows] + [0]) + 1
    t = tm._TreeClassifier(p, K, 1, 0, cap, 4, 0) if clf else \
        tm._TreeRegressor(p, 1, 0, cap, 4, 0)
    for i, (parent, left, depth, leaf) in enumerate(rows):
        j = W.conc(tm.add_node_tree(
            t, parent, depth, left, leaf, depth, 0.0, 0, 1.0, 3, 3, 1.0, 1.0, 0, 1, 0, 1,
            0.0, False, None, 0))
        assert i == j
    return t, p


def leaf_rows(rows, p):
    """For each leaf (in order) the bins of a sample that reaches it."""
    out = []
    for i, r in enumerate(rows):
        if r[3]:
            x = [0] * p
            k = i
            while rows[k][0] >= 0:
                x[rows[k][2] - 1] = 0 if rows[k][1] else 1
                k = rows[k][0]
            out.append((i, x))
    return out


class N:
    pass


def linked(rows):
    nodes = []
    for i, (parent, left, depth, leaf) in enumerate(rows):
        n = N()
        n.id, n.parent, n.depth, n.is_leaf = i, parent, depth, leaf
        nodes.append(n)
        if parent >= 0:
            setattr(nodes[parent], "left_child" if left else "right_child", i)
    return nodes


def tree_of(s):
    return None if s == 0 else (tree_of(s[0]), tree_of(s[1]))


def flat(s):
    return 0 if s is None else [flat(s[0]), flat(s[1])]


def reference(W, nodes, weight, value, leaf):
    """Average of value(node) over prunings, weight(node) being exp(-step * loss): written
    as numerator and denominator."""
    num, den = 0, 0
    anc = {leaf}
    k = leaf
    while k != 0:
        k = nodes[k].parent
        anc.add(k)
    for leaves, c in kern.prunings(nodes):
        w = kern.frac(1) / 2 ** c if W.symbolic else 1.0 / 2 ** c
        for l in leaves:
            w = w * weight[l]
        den = den + w
        num = num + w * value([l for l in leaves if l in anc][0])
    return num, den


def ratio_eq(W, label, got, num, den):
    if W.symbolic:
        W.eq(label, got * den, num)
    else:
        W.eq(label, got, num / den, tol=5e-3)


def planted(W, cfg):
    clf, K, step = bool(cfg["clf"]), cfg.get("K", 2), cfg["step"]
    rows = numbered(tree_of(cfg["shape"]), cfg["order"])
    n = len(rows)
    t, p = plant(W, clf, K, rows, n + cfg.get("slack", 0))
    if W.symbolic:
        step = kern.frac(step)
    nodes = linked(rows)
    weight, val = [], []
    for i in range(n):
        loss = W.exp_real("loss%d" % i, step)
        t.nodes[i]["loss_valid"] = loss
        weight.append(W.exp(-step * loss))
        if clf:
            v = [W.real("q%d_%d" % (i, k), 0, 1) for k in range(K - 1)]
            v.append(1 - kern.asum(v))
            for k in range(K):
                t.y_pred[i, k] = v[k]
        else:
            v = W.real("q%d" % i, -4, 4)
            t.y_pred[i] = v
        val.append(v)
    W.mod(GROW).compute_tree_weights(t.nodes, n, step)
    ls = leaf_rows(rows, p)
    fb = kern.bitarray(W, [[x[j] for _, x in ls] for j in range(p)], [1] * p)
    tm = W.mod(TREE)
    agg = bool(cfg["agg"])
    if cfg.get("depth"):
        out = tm.tree_regressor_weighted_depth(t, fb, step)
        for s, (leaf, x) in enumerate(ls):
            num, den = reference(W, nodes, weight, lambda l: nodes[l].depth, leaf)
            ratio_eq(W, "weighted depth", out[s], num, den)
        return
    out = (tm.tree_classifier_predict_proba if clf else tm.tree_regressor_predict)(
        t, fb, agg, step)
    for s, (leaf, x) in enumerate(ls):
        for k in range(K if clf else 1):
            got = out[s, k] if clf else out[s]
            if not agg:
                W.eq("prediction of the leaf", got, val[leaf][k] if clf else val[leaf])
                continue
            num, den = reference(
                W, nodes, weight, lambda l: val[l][k] if clf else val[l], leaf)
            ratio_eq(W, "average over prunings", got, num, den)


def lse(W, cfg):
    a, b = W.exp_real("a", 1), W.exp_real("b", 1)
    got = W.mod(UTILS).log_sum_2_exp(a, b)
    W.eq("exp of the result is the mean of the exponentials", 2 * W.exp(got),
         W.exp(a) + W.exp(b))


def lse_range(W, cfg):
    """However far apart the arguments are, nothing overflows."""
    a, b = W.real("a", -10 ** 6, 10 ** 6), W.real("b", -10 ** 6, 10 ** 6)
    if W.symbolic:
        W.e.exp_range = True
    try:
        got = W.mod(UTILS).log_sum_2_exp(a, b)
        if isinstance(got, (float, np.floating)) and not np.isfinite(got):
            W.fail("the result is finite")
        elif not W.symbolic:
            m = max(a, b)
            W.check("the result is close to the larger argument",
                    abs(got - m + 0.35) <= 0.36 + 1e-5 * abs(m))
    finally:
        if W.symbolic:
            W.e.exp_range = False


def fitted(W, cfg):
    """End to end: grow a tree on symbolic labels, predict its own samples."""
    F = ft.fit(W, dict(cfg, weights=1))
    if not F.ok:
        W.check("the nodes form one binary tree", False)
        return
    step = kern.frac(F.step) if W.symbolic and isinstance(F.step, float) else F.step
    if not F.clf and F.agg:
        # the losses are numbers here: check the recursion (its meaning is 'planted's job)
        lse2 = W.mod(UTILS).log_sum_2_exp
        for nd in F.nodes:
            own = -step * nd.loss_valid
            if not nd.is_leaf:
                own = lse2(own, F.nodes[nd.left_child].log_weight_tree
                           + F.nodes[nd.right_child].log_weight_tree)
            W.eq("recorded tree weight", nd.log_weight_tree, own)
        return
    weight = [W.exp(-step * nd.loss_valid) for nd in F.nodes]
    leaf = {}
    for nd in F.nodes:
        if nd.is_leaf:
            for i in sum(ft.own(F, nd), []):
                leaf.setdefault(nd.id, i)
    out = F.tree.predict_proba(F.fb) if F.clf else F.tree.predict(F.fb)
    for l, i in leaf.items():
        for k in range(F.K if F.clf else 1):
            got = out[i, k] if F.clf else out[i]
            if not F.agg:
                W.eq("prediction of the leaf", got,
                     F.nodes[l].y_pred[k] if F.clf else F.nodes[l].y_pred)
                continue
            num, den = reference(
                W, F.nodes, weight,
                lambda q: F.nodes[q].y_pred[k] if F.clf else F.nodes[q].y_pred, l)
            ratio_eq(W, "average over prunings", got, num, den)


def _planted(tier, depth=0):
    out = []
    for leaves in (1, 2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 5):
        for s in shapes(leaves):
            for clf in ((0, 1) if not depth else (0,)):
                for j, order in enumerate(("lr", "rl", "bfs")):
                    if leaves >= 4 and (j + clf) % 3 != 0 and tier == "quick":
                        continue
                    if leaves >= 5 and j != 1:
                        continue
                    out.append(dict(shape=flat(s), order=order, clf=clf,
                                    step=(1.0, 2.0, 0.5)[(leaves + j) % 3], agg=1,
                                    depth=depth))
        for clf in ((0, 1) if not depth else ()):
            out.append(dict(shape=flat(shapes(leaves)[-1]), order="rl", clf=clf, step=1.0,
                            agg=0, slack=1))
    return out


_n = None


def _fitted(tier):
    out = []
    for cat in (0, 1):
        for agg in (1, 0):
            out.append(dict(nt=4, nv=4, nb=4, clf=1, cat=cat, agg=agg, vy=1,
                            bins=[[3, 0, 2, 1, 0, 1, 2, 3]]))
            out.append(dict(nt=3, nv=3, nb=3, clf=0, cat=cat, agg=agg, y="int", ny=1,
                            bins=[[2, 0, 1, 0, 1, 2]]))
        out.append(dict(nt=3, nv=3, nb=3, clf=1, K=3, cat=cat, vy=1,
                        bins=[[2, 0, 1, 0, 1, 2]]))
    return out


HARNESSES = [
    Harness("lse", lse, [{}], bounds="all pairs of reals", functions=["log_sum_2_exp"],
            modules=[UTILS]),
    Harness("lse_range", lse_range, [{}], bounds="all pairs of reals within 10^6 in size",
            functions=["log_sum_2_exp"], modules=[UTILS]),
    Harness("planted", planted, lambda: _planted("quick"), lambda: _planted("thorough"),
            bounds="every binary tree of 1-4 (5) leaves in three numberings, arbitrary node "
            "losses and predictions, steps 0.5, 1, 2, aggregation on and off",
            functions=["compute_tree_weights", "log_sum_2_exp", "find_leaf",
                       "tree_classifier_predict_proba", "tree_regressor_predict"],
            modules=[TREE, GROW], timeout_ms=500),
    Harness("fitted", fitted, lambda: _fitted("quick"), lambda: _fitted("thorough"),
            bounds="trees grown on 3-4 training and as many validation samples, all labels",
            functions=["grow", "TreeClassifier.fit", "TreeRegressor.fit",
                       "TreeClassifier.predict_proba", "TreeRegressor.predict"],
            modules=["wildwood.tree"], timeout_ms=1000),
]
