"""P12: saving and reloading a fitted model changes nothing."""
import copy
import pickle

import numpy as np

from .. import fit as ft, forest as fo, kern
from ..harness import Harness
from .p11 import lse_stub, same_tree
from . import p20

ASSUMPTIONS = ["pickle stores and restores plain containers, numbers and arrays faithfully: "
               "the symbolic runs copy the pickled state instead"]


def dup(W, v):
    """What pickling does to the state: containers and arrays are copied."""
    if isinstance(v, dict):
        return {k: dup(W, x) for k, x in v.items()}
    if isinstance(v, (list, tuple)):
        return type(v)(dup(W, x) for x in v)
    if isinstance(v, W.sh.SArr):
        return v.copy()
    if hasattr(v, "__getstate__") and type(v).__module__.startswith("wildwood"):
        return through(W, v)
    return v


def through(W, obj):
    if not W.symbolic:
        return pickle.loads(pickle.dumps(obj))
    state = dup(W, obj.__getstate__())
    new = type(obj).__new__(type(obj))
    if hasattr(new, "__setstate__"):
        new.__setstate__(state)
    else:
        new.__dict__.update(state)
    return new


def content(W, F, a, b, light):
    """All that prediction and later changes depend on."""
    x, y = kern.inner(a), kern.inner(b)
    same_tree(W, F, a, b)
    n = W.conc(x.node_count)
    W.same("number of nodes", n, W.conc(y.node_count))
    na, nb = kern.read_nodes(W, a), kern.read_nodes(W, b)
    for p, q in zip(na, nb):
        W.same("split kind", (p.cat, p.depth, p.start_train, p.end_train, p.start_valid,
                              p.end_valid, p.n_samples_train, p.n_samples_valid),
               (q.cat, q.depth, q.start_train, q.end_train, q.start_valid, q.end_valid,
                q.n_samples_train, q.n_samples_valid))
        W.eq("threshold", p.bin_threshold, q.bin_threshold)
        W.same("subset size", None if p.partition is None else len(p.partition),
               None if q.partition is None else len(q.partition))
        for u, v in zip(p.partition or [], q.partition or []):
            W.eq("subset", u, v)
        for f in ("w_samples_train", "w_samples_valid", "impurity"):
            W.eq(f, getattr(p, f), getattr(q, f))
    W.same("settings", (b.aggregation, b.max_depth, b.min_samples_split,
                        b.min_samples_leaf, b.max_features, b.random_state),
           (a.aggregation, a.max_depth, a.min_samples_split, a.min_samples_leaf,
            a.max_features, a.random_state))
    la, lb = a.apply(F.fb), b.apply(F.fb)
    pa = a.predict_proba(F.fb) if F.clf else a.predict(F.fb)
    pb = b.predict_proba(F.fb) if F.clf else b.predict(F.fb)
    for i in range(F.n):
        W.same("leaf", W.conc(la[i]), W.conc(lb[i]))
        if F.agg and W.symbolic:
            continue    # same nodes and weights
        for k in range(F.K if F.clf else 1):
            W.eq("prediction", pa[i, k] if F.clf else pa[i], pb[i, k] if F.clf else pb[i])
    if light:
        return
    ca, cb = kern.context(a), kern.context(b)
    for f in ("partition_train", "partition_valid", "train_indices", "valid_indices", "y",
              "sample_weights", "is_categorical"):
        u, v = getattr(ca, f), getattr(cb, f)
        W.same(f + " size", u.shape[0], v.shape[0])
        for i in range(u.shape[0]):
            W.eq(f, u[i], v[i])
    for f in ("n_samples", "n_features", "max_n_bins", "max_features", "n_samples_train",
              "n_samples_valid", "min_samples_split", "min_samples_leaf", "max_depth",
              "aggregation", "step", "criterion") + (
                  ("n_classes", "dirichlet", "cat_split_strategy") if F.clf else ()):
        W.eq(f, getattr(ca, f), getattr(cb, f))
    to = W.mod(kern.FBM).features_bitarray_to_array
    u, v = to(ca.features_bitarray), to(cb.features_bitarray)
    for i in range(F.n):
        for j in range(F.p):
            W.eq("stored data", u[i, j], v[i, j])


def stub_predict(W):
    lse_stub(W)


def tree(W, cfg):
    F = ft.fit(W, dict(cfg, sdir=cfg["clf"] and cfg.get("sdir", 1), weights=1),
               before=stub_predict)
    if W.symbolic and F.agg:
        # predictions are functions of the nodes compared below
        W.patch("wildwood._tree", "exp", lambda x: kern.frac(1))
    a = F.tree
    light = bool(cfg["light"])
    b = through(W, a)
    content(W, F, a, b, False)
    if light:
        c = through(W, b)
        c.lighten()
        content(W, F, a, c, True)
        d = through(W, c)
        content(W, F, a, d, True)
        b = d
    s = W.real("step2", 0.125, 4)
    a.step = s
    b.step = s
    if F.clf and not light:
        d = W.real("dirichlet2", 0.125, 4)
        a.dirichlet = d
        b.dirichlet = d
    same_tree(W, F, a, b)


def outputs(W, f, X, clf, K, agg):
    """Everything a forest says about these rows."""
    A = f.apply(X)
    out = [W.conc(A[t, i]) for t in range(A.shape[0]) for i in range(A.shape[1])]
    if agg and W.symbolic:
        return out      # functions of the nodes and weights, compared elsewhere
    if clf:
        P = f.predict_proba(X)
        return out + [P[i, k] for i in range(X.shape[0]) for k in range(K)] + \
            list(f.predict(X))
    return out + list(f.predict(X))


def compare(W, a, b, clf, K, agg, light, X):
    W.same("number of trees", len(b.trees), len(a.trees))
    for s, t in zip(a.trees, b.trees):
        W.check("trees are not shared", s is not t or not W.symbolic)
        na, nb = kern.read_nodes(W, s), kern.read_nodes(W, t)
        W.same("number of nodes", len(nb), len(na))
        for x, y in zip(na, nb):
            for k in ("feature", "left_child", "right_child", "parent", "is_leaf",
                      "cat", "depth"):
                W.same(k, getattr(y, k), getattr(x, k))
            W.eq("threshold", x.bin_threshold, y.bin_threshold)
            for u, v in zip(x.partition or [], y.partition or []):
                W.eq("subset", u, v)
            if clf:
                for u, v in zip(x.y_pred, y.y_pred):
                    W.eq("node prediction", u, v)
            else:
                W.eq("node prediction", x.y_pred, y.y_pred)
            if agg:
                W.eq("node loss", x.loss_valid, y.loss_valid)
                W.eq("node weight", x.log_weight_tree, y.log_weight_tree)
        W.eq("step of a tree", s.step, t.step)
        if clf:
            W.eq("smoothing of a tree", s.dirichlet, t.dirichlet)
    pa, pb = a.get_params(), b.get_params()
    W.same("parameters", sorted(pb), sorted(pa))
    for k in pa:
        W.eq("parameter " + k, pa[k], pb[k]) if isinstance(pa[k], (float, W.sh.SArr)) \
            else W.same("parameter " + k, pb[k], pa[k])
    for k in ("n_samples_in_", "n_features_in_", "max_features_", "n_jobs_") + (
            ("n_classes_", "n_trees_", "n_classes_per_tree_") if clf else ()):
        W.same(k, getattr(b, k), getattr(a, k))
    if clf:
        ca, cb = list(a.classes_), list(b.classes_)
        W.same("number of classes", len(cb), len(ca))
        for u, v in zip(ca, cb):
            W.eq("class", u, v)
    W.same("categorical columns", [bool(c) for c in b.is_categorical_],
           [bool(c) for c in a.is_categorical_])
    to = W.mod(kern.FBM).features_bitarray_to_array
    u, v = to(a._encoder.transform(X)), to(b._encoder.transform(X))
    for i in range(X.shape[0]):
        for j in range(X.shape[1]):
            W.eq("encoding of a new row", u[i, j], v[i, j])
    oa, ob = outputs(W, a, X, clf, K, agg), outputs(W, b, X, clf, K, agg)
    W.same("number of outputs", len(ob), len(oa))
    for x, y in zip(oa, ob):
        W.eq("output", x, y)


def forest(W, cfg):
    """A whole forest, with its own encoder and trees."""
    clf, ovr, agg = cfg["clf"], bool(cfg.get("ovr")), bool(cfg["agg"])
    K = 3 if ovr else 2
    lse_stub(W)
    if W.symbolic and agg:
        W.patch("wildwood._tree", "exp", lambda x: kern.frac(1))
    E = fo.Env(W, real_trees=True, real_encoder=True)
    kw = dict(n_estimators=1 if ovr else 2, aggregation=agg,
              categorical_features=[False, True], max_bins=4, max_features=None)
    if clf:
        kw.update(multiclass="ovr" if ovr else "multinomial", dirichlet=0.5)
    f = E.new(clf, **kw)
    n = cfg["n"]
    fx = W.sh.Fraction if W.symbolic else float
    X = W.matrix([[fx([3, 1, 4, 1, 5, 9, 2, 6][i]), fx([0, 1, 0, 2, 1, 0, 2, 1][i])]
                  for i in range(n)], np.float64)
    free = cfg.get("free", 2)
    y = [W.conc(W.int("y%d" % i, 0, K - 1)) if i < free else i % K for i in range(n)]
    f.fit(X, W.arr(y, np.int64) if clf else W.arr([fx(v) for v in y], np.float64))
    g = through(W, f)
    Z = W.matrix([[W.real("z", 0, 10), fx(1)], [fx(2), fx(0)]], np.float64)
    light = False
    compare(W, f, g, clf, K, agg, light, Z)
    if cfg.get("light"):
        h = through(W, g)
        h.lighten()
        compare(W, f, h, clf, K, agg, True, Z)
        g = through(W, h)
        compare(W, f, g, clf, K, agg, True, Z)
        light = True
    # a restored model is a fitted model
    for model in (f, g):
        try:
            model.n_estimators = 5
            W.fail("the number of trees of a fitted forest can be changed")
        except ValueError:
            pass
    s = W.pfloat("step2", 0.125, 4)
    f.step = s
    g.step = s
    if clf and not light:
        d = W.pfloat("dirichlet2", 0.125, 4)
        f.dirichlet = d
        g.dirichlet = d
    compare(W, f, g, clf, K, agg, light, Z)
    if cfg.get("refit"):
        y2 = y[::-1]
        for model in (f, g):
            model.fit(X, W.arr(y2, np.int64) if clf else W.arr([fx(v) for v in y2],
                                                               np.float64))
        compare(W, f, g, clf, K, agg, False, Z)


def assembled(W, cfg):
    """Trees of any content, whether or not this size of data can grow them."""
    clf, K = bool(cfg["clf"]), 2 if cfg["clf"] else 1
    shape = p20.SHAPES[cfg["shape"]]
    kids, depths, leafs = p20.plan(shape)
    inner = p20.empty_tree(W, clf, K, cfg["cap"], cfg["bpcap"])
    vals = []
    sizes = iter(cfg["sizes"])
    for k, (parent, left) in enumerate(shape):
        part = None
        if not leafs[k]:
            lo, hi = next(sizes)
            part = W.conc(W.int("size%d" % k, lo, hi)) or None
        v = p20.values(W, k, leafs[k], K, part, k in cfg["rich"])
        vals.append(v)
        p20.add(W, inner, clf, K, k, parent, left, leafs[k], depths[k], v)
    for k in range(len(shape)):
        inner.nodes[k]["log_weight_tree"] = W.real("lw%d" % k, -8, 8)
    lw = [inner.nodes[k]["log_weight_tree"] for k in range(len(shape))]
    m = W.mod("wildwood.tree")
    kw = dict(criterion=0, loss="log", step=1.0, aggregation=True, max_depth=5,
              min_samples_split=2, min_samples_leaf=1, categorical_features=None,
              is_categorical=None, max_features=2, random_state=1)
    if clf:
        a = m.TreeClassifier(n_classes=K, dirichlet=0.5, cat_split_strategy=0, **kw)
        a._tree_classifier = inner
        a._tree_classifier_context = None
    else:
        a = m.TreeRegressor(**kw)
        a._tree_regressor = inner
        a._tree_regressor_context = None
    for stage in cfg["stages"]:
        if stage == "light":
            a.lighten()
        else:
            a = through(W, a)
        t = kern.inner(a)
        p20.verify(W, t, clf, K, shape, leafs, vals, kids, depths)
        for k in range(len(shape)):
            W.eq("weight", t.nodes[k]["log_weight_tree"], lw[k])


def _assembled(tier):
    out = []
    for clf in (1, 0):
        out += [
            dict(clf=clf, shape="bal", cap=0, bpcap=0, sizes=[(3, 4), (0, 3), (4, 4)],
                 rich=[0, 5], stages=["save", "light", "save"]),
            dict(clf=clf, shape="bal", cap=9, bpcap=40, sizes=[(0, 1), (0, 1), (9, 9)],
                 rich=[1], stages=["light", "save", "light"]),
            dict(clf=clf, shape="dfs", cap=5, bpcap=3, sizes=[(1, 1), (0, 0), (12, 12),
                                                              (0, 2)],
                 rich=[8], stages=["save", "save", "light"])]
    if tier != "quick":
        out += [dict(c, sizes=[(0, b + 4) for _, b in c["sizes"][:2]] + c["sizes"][2:],
                     rich=list(range(7))) for c in out]
    return out


def _forest(tier):
    out = [dict(clf=1, agg=0, n=5, light=1), dict(clf=0, agg=0, n=5),
           dict(clf=1, agg=1, n=5, refit=1), dict(clf=0, agg=1, n=5, light=1, refit=1),
           dict(clf=1, agg=0, n=6, ovr=1)]
    if tier != "quick":
        out += [dict(c, n=7, free=4) for c in out] + [
            dict(clf=1, agg=1, n=7, ovr=1, light=1, refit=1, free=3)]
    return out


def _cfgs(tier):
    out = []
    n = None
    for clf in (1, 0):
        for cat in (0, 1):
            for light in (0, 1):
                for agg in (0, 1):
                    c = dict(nt=3, nv=3, nb=4, clf=clf, cat=cat, light=light, agg=agg, p=2,
                             ny=1, vy=0, maxv=[3, 7], mss=2, w="first" if agg else "one",
                             bins=[[3, 0, 1, 0, 1, 3], [0, 1, 0, 1, n, 0]])
                    if not agg:
                        c.update(mss=3)
                        if clf:
                            c.update(crit=1, strat=1)
                    if tier == "thorough":
                        c.update(nt=4, bins=[[3, 0, 1, 2, 0, 1, 3],
                                             [0, 1, 0, 2, 1, n, 0]])
                    out.append(c)
    return out


HARNESSES = [
    Harness("tree", tree, lambda: _cfgs("quick"), lambda: _cfgs("thorough"),
            bounds="trees grown on 3-4 training and 3 validation samples of two features "
            "with all labels; plain and lightened; then arbitrary new step and smoothing",
            functions=["serialize", "unserialize", "TreeBase.__getstate__",
                       "TreeBase.__setstate__", "TreeBase.lighten", "TreeBase.step",
                       "TreeClassifier.dirichlet"],
            stubs=["pickle (state copied)", "log_sum_2_exp uninterpreted"],
            modules=["wildwood.tree"]),
    Harness("assembled", assembled, lambda: _assembled("quick"),
            lambda: _assembled("thorough"),
            bounds="trees of 7-9 nodes with arbitrary contents and subsets of 0-12 "
            "categories (more room than nodes, and less), saved and lightened in several "
            "orders",
            functions=["serialize", "unserialize", "TreeBase.lighten", "add_node_tree"],
            stubs=["pickle (state copied)"],
            modules=["wildwood.tree"]),
    Harness("forest", forest, lambda: _forest("quick"), lambda: _forest("thorough"),
            bounds="forests of 1-2 trees per class fitted on 5-7 rows of a numerical and a "
            "categorical column, with all labels of 2 (thorough: 4) rows; restored, "
            "lightened and restored, re-parametrised, refitted; any new value of the "
            "numerical column",
            functions=["ForestBase.__getstate__", "ForestBase.__setstate__",
                       "ForestBase.lighten", "serialize", "unserialize", "ForestBase.step"],
            stubs=["pickle (state copied)", "log_sum_2_exp uninterpreted", "bootstrap draws "
                   "fixed", "joblib.Parallel"],
            modules=["wildwood.forest"]),
]
