"""P19: per-tree outputs agree with the trees."""
import numpy as np

from .. import fit as ft, forest as fo, kern
from ..harness import Harness
from . import p09

STUBS = ["trees answer arbitrary numbers", "encoder", "joblib.Parallel runs the tasks in "
         "any order", "scikit-learn helpers replaced by contracts (symbolic runs only)"]


def close(W, label, a, b):
    W.eq(label, a, b)


def pertree(W, cfg):
    """Every per-tree output of a forest, against its trees."""
    ne, n, clf, ovr = cfg["ne"], cfg["n"], cfg["clf"], bool(cfg.get("ovr"))
    K = cfg.get("K", 2)
    E = fo.Env(W, free=cfg.get("free", False))
    f = E.new(clf, n_estimators=ne, **(dict(multiclass="ovr" if ovr else "multinomial")
                                       if clf else {}))
    nfit = K + 1
    if clf:
        f.fit(E.X(nfit), W.arr([i % K for i in range(nfit)], np.int64))
    else:
        f.fit(E.X(nfit), W.arr([0.5 * i for i in range(nfit)], np.float64))
    ovr = ovr and K > 2
    nt = ne * K if ovr else ne
    W.same("number of trees", len(f.trees), nt)
    no = [t.no for t in f.trees]
    kc = 2 if ovr else K
    q, leaf, depth = {}, {}, {}
    for t in range(nt):
        for i in range(n):
            leaf[no[t], i] = W.int("leaf%d_%d" % (t, i), 0, 1000)
            if clf:
                v = [W.real("q%d_%d_%d" % (t, i, k), 0, 1) for k in range(kc - 1)]
                v.append(1 - kern.asum(v))
                if kc > 2:
                    W.assume(v[-1] >= 0)
            else:
                v = W.real("q%d_%d" % (t, i))
                depth[no[t], i] = W.real("d%d_%d" % (t, i), 0, 50)
            q[no[t], i] = v
    fo.StubTree.table = staticmethod(lambda t, r: q[t, r])
    fo.StubTree.leaf = staticmethod(lambda t, r: leaf[t, r])
    fo.StubTree.depth = staticmethod(lambda t, r: depth[t, r])
    X = E.X(n)
    A = f.apply(X)
    W.same("leaf indices per tree and sample", tuple(A.shape), (nt, n))
    for t in range(nt):
        for i in range(n):
            W.eq("leaf index of tree %d" % t, A[t, i], leaf[no[t], i])
    if clf:
        P = f.predict_proba_trees(X)
        W.same("probabilities per tree, sample and class", tuple(P.shape), (nt, n, kc))
        for t in range(nt):
            for i in range(n):
                for k in range(kc):
                    W.eq("probability of tree %d" % t, P[t, i, k], q[no[t], i][k])
        if not ovr:
            M = f.predict_proba(X)
            for i in range(n):
                for k in range(K):
                    W.eq("mean of the per-tree probabilities", M[i, k] * nt,
                         kern.asum([P[t, i, k] for t in range(nt)]))
        return
    P, M, D = f.predict_trees(X), f.predict(X), f._weighted_depth(X)
    W.same("predictions per tree and sample", tuple(P.shape), (nt, n))
    W.same("depths per tree and sample", tuple(D.shape), (nt, n))
    for i in range(n):
        for t in range(nt):
            W.eq("prediction of tree %d" % t, P[t, i], q[no[t], i])
            W.eq("weighted depth of tree %d" % t, D[t, i], depth[no[t], i])
        W.eq("mean of the per-tree predictions", M[i] * nt,
             kern.asum([P[t, i] for t in range(nt)]))


def wrapped(W, cfg):
    """A tree's outputs, through the tree object, for given nodes."""
    clf, K, step = bool(cfg["clf"]), 2, cfg["step"]
    rows = p09.numbered(p09.tree_of(cfg["shape"]), cfg["order"])
    n = len(rows)
    inner, p = p09.plant(W, clf, K, rows, n + 1)
    t = kern.make_tree(W, clf, [False] * p, n_classes=K, step=step,
                       aggregation=bool(cfg["agg"]))
    name = "_tree_classifier" if clf else "_tree_regressor"
    if not hasattr(t, name):
        raise AttributeError(name)
    setattr(t, name, inner)
    if W.symbolic:
        step = kern.frac(step)
    nodes = p09.linked(rows)
    weight, val = [], []
    for i in range(n):
        loss = W.exp_real("loss%d" % i, step)
        inner.nodes[i]["loss_valid"] = loss
        weight.append(W.exp(-step * loss))
        if clf:
            v = W.real("q%d" % i, 0, 1)
            inner.y_pred[i, 0], inner.y_pred[i, 1] = v, 1 - v
        else:
            v = W.real("q%d" % i, -4, 4)
            inner.y_pred[i] = v
        val.append(v)
    W.mod(p09.GROW).compute_tree_weights(inner.nodes, n, step)
    # samples: every leaf, in another order than the leaves
    ls = p09.leaf_rows(rows, p)[::-1]
    fb = kern.bitarray(W, [[x[j] for _, x in ls] for j in range(p)], [1] * p)
    A = t.apply(fb)
    for s, (leaf, _) in enumerate(ls):
        W.same("leaf index", W.conc(A[s]), leaf)
        W.check("a leaf", bool(rows[W.conc(A[s])][3]))
    P = t.predict_proba(fb) if clf else t.predict(fb)
    for s, (leaf, _) in enumerate(ls):
        got = P[s, 0] if clf else P[s]
        if not cfg["agg"]:
            W.eq("prediction of the leaf", got, val[leaf])
        else:
            num, den = p09.reference(W, nodes, weight, lambda l: val[l], leaf)
            p09.ratio_eq(W, "average over prunings", got, num, den)
    if clf:
        return
    D = t.weighted_depth(fb)
    W.same("one depth per sample", len(D), len(ls))
    for s, (leaf, _) in enumerate(ls):
        num, den = p09.reference(W, nodes, weight, lambda l: nodes[l].depth, leaf)
        p09.ratio_eq(W, "weighted depth", D[s], num, den)


def leaves(W, cfg):
    """Leaf indices of fitted trees, for any sample."""
    F = ft.fit(W, cfg)
    W.check("the nodes form one binary tree", F.ok)
    if not F.ok:
        return
    new = [[W.conc(W.int("new%d_%d" % (i, j), 0, F.maxv[j])) for j in range(F.p)]
           for i in range(cfg.get("m", 1))]
    fb = kern.bitarray(W, [[r[j] for r in new] for j in range(F.p)], F.maxv)
    A = F.tree.apply(fb)
    for i, r in enumerate(new):
        k = 0
        while not F.nodes[k].is_leaf:
            nd = F.nodes[k]
            k = nd.left_child if W.is_true(kern.goes_left(W, nd, r)) else nd.right_child
        W.same("leaf index", W.conc(A[i]), k)


def _pt(tier):
    out = []
    for clf, kw in ((0, {}), (1, {}), (1, dict(K=3)), (1, dict(K=3, ovr=1))):
        for ne, n in ((1, 2), (2, 1), (3, 2), (2, 3)):
            if kw.get("ovr") and ne * n > 4:
                continue
            out.append(dict(clf=clf, ne=ne, n=n, **kw))
        out.append(dict(clf=clf, ne=2 if not kw.get("ovr") else 1, n=1, free=True, **kw))
    out += [dict(clf=c, ne=3, n=1, nj=2, vb=1) for c in (0, 1)]
    if tier == "thorough":
        out += [dict(clf=c, ne=5, n=4) for c in (0, 1)]
        out += [dict(clf=c, ne=4, n=1, free=True) for c in (0, 1)]
    return out


def _wr(tier):
    out = []
    for l in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
        for s in p09.shapes(l):
            for j, order in enumerate(("lr", "rl", "bfs")):
                for clf in (0, 1):
                    if tier == "quick" and (j + clf) % 2:
                        continue
                    out.append(dict(shape=p09.flat(s), order=order, clf=clf, agg=1,
                                    step=(2.0, 0.5, 1.0)[(l + j) % 3]))
    out += [dict(shape=p09.flat(p09.shapes(3)[0]), order="lr", clf=c, agg=0, step=1.0)
            for c in (0, 1)]
    return out


def _lv(tier):
    b = [[2, 0, 1, 3, 0, 1, 2, 3], [1, 0, 0, 1, 1, 0, 1, 0]]
    out = []
    for clf in (0, 1):
        for cat in ([0, 0], [1, 0], [1, 1]):
            out.append(dict(nt=4, nv=4, nb=4, p=2, maxv=[3, 1], clf=clf, cat=cat, agg=0,
                            bins=b, ny=1, vy=0, m=1 if tier == "quick" else 2))
    return out


HARNESSES = [
    Harness("pertree", pertree, lambda: _pt("quick"), lambda: _pt("thorough"),
            bounds="1-3 (thorough 5) trees, 1-3 (4) samples, 2-3 classes, both multi-class "
            "modes, any answers of the trees",
            functions=["ForestBase.apply", "ForestClassifier.predict_proba_trees",
                       "ForestRegressor.predict_trees", "ForestRegressor._weighted_depth",
                       "_get_tree_prediction", "_compute_weighted_depth",
                       "_parallel_tree_apply", "_accumulate_prediction"],
            stubs=STUBS, modules=["wildwood.forest"]),
    Harness("wrapped", wrapped, lambda: _wr("quick"), lambda: _wr("thorough"),
            bounds="every binary tree of 1-3 (thorough 4) leaves, any losses and node "
            "predictions, steps 0.5, 1, 2",
            functions=["TreeRegressor.weighted_depth", "tree_regressor_weighted_depth",
                       "TreeBase.apply", "tree_apply", "TreeClassifier.predict_proba",
                       "TreeRegressor.predict"],
            modules=["wildwood.tree", p09.TREE], timeout_ms=500),
    Harness("leaves", leaves, lambda: _lv("quick"), lambda: _lv("thorough"),
            bounds="trees grown on 4 training and 4 validation samples of 2 features with "
            "all labels, any new sample", functions=["TreeBase.apply", "find_leaf"],
            modules=["wildwood.tree"]),
]
