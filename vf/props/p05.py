"""P05: samples are routed identically at training and at prediction."""
import numpy as np

from .. import fit as ft, kern
from ..harness import Harness

SPLIT, TREE, CTX = "wildwood._split", "wildwood._tree", "wildwood._tree_context"
ASSUMPTIONS = ["bins fit the packed storage (property P01)"]


def contexts(W, clf, fb, train, valid, n, isc):
    c = W.mod(CTX)
    y, w = W.arr([0] * n, np.float32), W.arr([1] * n, np.float32)
    tr, va = W.arr(train, np.uintp), W.arr(valid, np.uintp)
    isc = W.arr(isc, np.bool_)
    if clf:
        return c.TreeClassifierContext(fb, y, w, tr, va, 2, len(isc), 100, 2, 1, True, 0.5,
                                       1.0, isc, 0, 0)
    return c.TreeRegressorContext(fb, y, w, tr, va, len(isc), 100, 2, 1, True, 1.0, isc, 3)


def split(W, cfg):
    """One arbitrary split condition applied by training (a sub-range of the partitions)
    and by prediction."""
    W.words()
    nt, nv, B, clf, cat, m = (cfg[k] for k in ("nt", "nv", "B", "clf", "cat", "m"))
    n = nt + nv
    sp, tm = W.mod(SPLIT), W.mod(TREE)
    order = list(range(n))[::-1]
    train, valid = order[:nt], order[nt:]
    f = cfg["f"]
    nx = n if m < 2 else cfg.get("nx", 2)
    xs = [W.word("x%d" % i, B) for i in range(nx)]
    cols = [[xs[i % nx] if j == f else (i % 2) for i in range(n)] for j in range(2)]
    fb = kern.bitarray(W, cols, [2 ** B - 1 if j == f else 3 for j in range(2)])
    isc = [bool(cat) if j == f else False for j in range(2)]
    ctx = contexts(W, clf, fb, train, valid, n, isc)
    s = sp.SplitClassifier(2, 2 ** min(B, 6)) if clf else sp.SplitRegressor(2 ** min(B, 6))
    s.feature = f
    s.found_split = True
    s.is_split_categorical = bool(cat)
    part = []
    thr = 0
    if cat:
        part = [W.word("b%d" % k, B) for k in range(m)]
        for a, b in zip(part, part[1:]):
            W.assume(a < b)
        for k in range(m):
            s.bin_partition[k] = part[k]
        s.bin_partition_size = m
        s.bin_threshold = part[-1]
    else:
        thr = W.word("thr", B)
        s.bin_threshold = thr
    s0, e0, s1, e1 = cfg["r"]
    pt, pv = sp.split_indices(ctx, s, s0, e0, s1, e1)
    pt, pv = W.conc(pt), W.conc(pv)
    t = tm._TreeClassifier(2, 2, 1, 0, 0, 0, 0) if clf else tm._TreeRegressor(2, 1, 0, 0, 0,
                                                                             0)
    bp = W.arr(part + [0] * 2, np.uint64)
    und = -2
    root = tm.add_node_tree(t, und, 0, False, False, f, 0.0, thr if not cat else part[-1],
                            1.0, 3, 3, 1.0, 1.0, 0, nt, 0, nv, 1.0, bool(cat), bp, m)
    l = tm.add_node_tree(t, W.conc(root), 1, True, True, 0, 0.0, 0, 0.0, 1, 1, 1.0, 1.0, 0,
                         1, 0, 1, 1.0, False, None, 0)
    r = tm.add_node_tree(t, W.conc(root), 1, False, True, 0, 0.0, 0, 0.0, 1, 1, 1.0, 1.0, 0,
                         1, 0, 1, 1.0, False, None, 0)
    l, r = W.conc(l), W.conc(r)

    def sat(i):
        x = cols[f][i]
        return W.any([x == b for b in part]) if cat else x <= thr
    for name, orig, arr, a, b, pos in (("train", train, ctx.partition_train, s0, e0, pt),
                                       ("valid", valid, ctx.partition_valid, s1, e1, pv)):
        now = [W.conc(arr[k]) for k in range(len(orig))]
        W.same("samples outside the node untouched", now[:a] + now[b:],
               orig[:a] + orig[b:])
        W.same("the node's samples are kept", sorted(now[a:b]), sorted(orig[a:b]))
        W.check("cut position inside the node", a <= pos <= b)
        for k in range(a, b):
            W.check("%s sample on the side its bin says" % name,
                    W.iff(sat(now[k]), k < pos))
    for i in range(n):
        got = W.conc(tm.find_leaf(t, fb, i))
        W.check("prediction follows the same condition", W.iff(sat(i), got == l))
        W.check("prediction ends in one of the children", got in (l, r))


def member(W, cfg):
    """Binary search in a sorted category subset = membership."""
    W.words()
    m = cfg["m"]
    part = [W.word("b%d" % k, cfg["B"]) for k in range(m)]
    for a, b in zip(part, part[1:]):
        W.assume(a < b)
    x = W.word("x", cfg["B"])
    got = W.mod(SPLIT).is_bin_in_partition(x, W.arr(part, np.uint64))
    W.check("membership", W.iff(got, W.any([x == b for b in part])))


def partition(W, cfg):
    """The recorded category subset is the prefix ending at the best bin, sorted."""
    W.words()
    sp = W.mod(SPLIT)
    m, k = cfg["m"], cfg["k"]
    bins = [W.word("b%d" % i, 4) for i in range(m)]
    for i in range(m):
        for j in range(i):
            W.assume(W.no(bins[i] == bins[j]))
    s = sp.SplitClassifier(2, 16) if cfg["clf"] else sp.SplitRegressor(16)
    for i in range(m):
        s.bins[i] = bins[i]
    s.bins_count = m
    s.is_split_categorical = True
    s.bin_threshold = bins[k]
    sp.compute_bin_partition(s)
    size = W.conc(s.bin_partition_size)
    W.same("subset size", size, k + 1)
    part = [s.bin_partition[i] for i in range(size)]
    for a, b in zip(part, part[1:]):
        W.check("sorted", a < b)
    for i in range(m):
        W.check("the subset is the prefix", W.iff(
            W.any([bins[i] == b for b in part]), i <= k))


def fit_route(W, cfg):
    ft.route(W, ft.fit(W, cfg))


def _split(tier):
    out = []
    big = tier == "thorough"
    for clf in (1, 0):
        for cat, m in ((0, 0), (1, 1), (1, 2), (1, 3)) + (((1, 5),) if big else ()):
            for f in (0, 1):
                for B in (3, 8) + ((17,) if big else ()):
                    if (f + B + clf + m) % 2 and not big:
                        continue
                    nt, nv = (4, 3) if big else (3, 2)
                    for r in ((0, nt, 0, nv), (1, nt, 1, nv), (0, nt - 1, 0, nv - 1)):
                        out.append(dict(nt=nt, nv=nv, B=B, clf=clf, cat=cat, m=m, f=f, r=r,
                                        nx=3 if big and m < 4 else 2))
    return out


def _fit(tier):
    base = [
        dict(nt=3, nv=2, nb=3, clf=1, vy=0), dict(nt=3, nv=2, nb=3, clf=1, cat=1, vy=0),
        dict(nt=4, nv=1, nb=3, clf=1, cat=1, agg=0, vy=0),
        dict(nt=4, nv=1, nb=3, clf=1, agg=0, vy=0),
        dict(nt=3, nv=2, nb=3, clf=0, y="real", vy=0),
        dict(nt=3, nv=2, nb=3, clf=0, cat=1, y="real", vy=0),
        dict(nt=3, nv=1, nb=2, p=2, clf=1, cat=[1, 0], agg=0, vy=0),
        dict(nt=3, nv=1, nb=2, p=2, mf=1, clf=1, cat=[1, 0], agg=0, vy=0,
             bins=[[0, 1, 1, None], [None, 0, 1, None]]),
        dict(nt=3, nv=2, nb=3, p=3, mf=2, clf=0, cat=[1, 0, 0], vy=0, y="real", md=1,
             bins=[[0, 1, 2, 1, None], [2, 0, 1, 1, 0], [1, 0, 0, 0, 1]]),
    ]
    if tier == "thorough":
        base += [
            dict(nt=4, nv=3, nb=3, clf=1, vy=0), dict(nt=4, nv=3, nb=3, clf=1, cat=1, vy=0),
            dict(nt=4, nv=2, nb=4, clf=1, cat=1, vy=0),
            dict(nt=3, nv=3, nb=2, p=2, clf=1, cat=[0, 1], vy=0),
            dict(nt=4, nv=2, nb=3, clf=0, y="real", vy=0),
            dict(nt=4, nv=2, nb=3, clf=0, cat=1, y="real", vy=0),
            dict(nt=5, nv=1, nb=3, clf=0, cat=1, agg=0, ny=2, vy=0),
        ]
    return base


def _member(tier):
    return [dict(m=m, B=B) for m in range(1, 8 if tier == "quick" else 17)
            for B in (5, 64)]


def _part(tier):
    M = 4 if tier == "quick" else 5
    return [dict(m=m, k=k, clf=c) for c in (0, 1) for m in range(2, M + 1)
            for k in range(m) if tier != "quick" or c == m % 2]


FNS = ["TreeClassifier.fit", "TreeRegressor.fit", "grow", "find_node_split",
       "find_best_split_*_along_feature", "compute_bin_partition", "split_indices",
       "is_bin_in_partition", "find_leaf", "tree_apply", "get_value", "get_value_from_column",
       "compute_node_*_context", "add_node_tree"]

HARNESSES = [
    Harness("member", member, lambda: _member("quick"), lambda: _member("thorough"),
            bounds="sorted subsets of 1..7 (16) arbitrary 64-bit bins, any tested bin",
            functions=["is_bin_in_partition"], modules=[SPLIT]),
    Harness("partition", partition, lambda: _part("quick"), lambda: _part("thorough"),
            bounds="2..4 (5) distinct bins below 16 in any order, any cut",
            functions=["compute_bin_partition"], modules=[SPLIT]),
    Harness("split", split, lambda: _split("quick"), lambda: _split("thorough"),
            bounds="3+2 (4+3) samples, bins of 3, 8 (17) bits, any threshold or any sorted "
            "subset of 1..3 (5) bins, whole node and sub-ranges",
            functions=["split_indices", "is_bin_in_partition", "find_leaf", "add_node_tree",
                       "get_value", "get_value_from_column"], modules=[SPLIT, TREE]),
    Harness("fit_route", fit_route, lambda: _fit("quick"), lambda: _fit("thorough"),
            bounds="3-4 training + 1-2 validation samples (up to 4+3), 1-2 features of 2-3 "
            "(4) bins, all bins and labels; arbitrary real labels for regression",
            functions=FNS, modules=["wildwood.tree"]),
]
