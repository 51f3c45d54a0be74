"""P20: growing storage never loses or corrupts tree content."""
import numpy as np

from .. import fit as ft, kern
from ..harness import Harness

TREE, GROW, UTILS = "wildwood._tree", "wildwood._grow", "wildwood._utils"
# (parent, is_left) of each node, in the order in which they are added
SHAPES = {
    "bal": [(-2, False), (0, True), (0, False), (1, True), (1, False), (2, True),
            (2, False)],
    "dfs": [(-2, False), (0, False), (1, False), (1, True), (0, True), (4, False),
            (5, False), (5, True), (4, True)],
}
INTS = ("n_samples_train", "n_samples_valid", "start_train", "end_train", "start_valid",
        "end_valid")
REALS = ("impurity", "w_samples_train", "w_samples_valid", "loss_valid")


def empty_tree(W, clf, K, cap, bpcap):
    m = W.mod(TREE)
    if clf:
        return m._TreeClassifier(3, K, 1, 0, cap, bpcap, 0)
    return m._TreeRegressor(3, 1, 0, cap, bpcap, 0)


def add(W, tree, clf, K, k, parent, left, leaf, depth, v):
    m = W.mod(TREE)
    i = m.add_node_tree(
        tree, parent, depth, left, leaf, v["feature"], 0.42, v["bin_threshold"],
        v["impurity"], v["n_samples_train"], v["n_samples_valid"], v["w_samples_train"],
        v["w_samples_valid"], v["start_train"], v["end_train"], v["start_valid"],
        v["end_valid"], v["loss_valid"], v["cat"],
        None if v["part"] is None else W.arr(v["part"] + [7, 7], np.uint64),
        0 if v["part"] is None else len(v["part"]))
    W.same("nodes are numbered in order", W.conc(i), k)
    if clf:
        tree.y_pred[k] = W.arr(v["y"], np.float32)
    else:
        tree.y_pred[k] = v["y"][0]


def values(W, k, leaf, K, part, rich):
    """The content of node k (symbolic)."""
    v = dict(cat=part is not None)
    if rich:
        for f in INTS:
            v[f] = W.int("%s%d" % (f, k), 0, 2 ** 40)
        for f in REALS:
            v[f] = W.real("%s%d" % (f, k), -8, 8)
        v["feature"] = W.int("feature%d" % k, 0, 2 ** 40)
        v["bin_threshold"] = W.int("bt%d" % k, 0, 2 ** 40)
    else:
        for n, f in enumerate(INTS + REALS + ("feature", "bin_threshold")):
            v[f] = 10 * k + n
    v["y"] = [W.real("y%d_%d" % (k, c), -8, 8) for c in range(K)]
    v["part"] = None if part is None else [
        W.int("p%d_%d" % (k, j), 0, 2 ** 40) for j in range(part)]
    return v


def verify(W, tree, clf, K, shape, leafs, vals, kids, depths, every=None):
    W.same("number of nodes", W.conc(tree.node_count), len(shape))
    for k, (parent, left) in enumerate(shape):
        if every is not None and k not in every:
            continue
        r, v = tree.nodes[k], vals[k]
        W.same("node number", W.conc(r["node_id"]), k)
        W.same("parent", W.conc(r["parent"]) % 2 ** 64, parent % 2 ** 64)
        W.same("depth", W.conc(r["depth"]), depths[k])
        W.check("leaf flag", W.iff(r["is_leaf"] != 0, leafs[k]))
        for f in INTS + REALS:
            W.eq(f, r[f], v[f])
        if leafs[k]:
            pass
        else:
            W.same("children", (W.conc(r["left_child"]), W.conc(r["right_child"])),
                   kids[k])
            W.eq("feature", r["feature"], v["feature"])
            W.eq("bin threshold", r["bin_threshold"], v["bin_threshold"])
            W.check("split kind", W.iff(r["is_split_categorical"] != 0, v["cat"]))
            if v["cat"]:
                a, b = W.conc(r["bin_partition_start"]), W.conc(r["bin_partition_end"])
                W.same("subset size", b - a, len(v["part"]))
                for j in range(min(b - a, len(v["part"]))):
                    W.eq("subset", tree.bin_partitions[a + j], v["part"][j])
        for c in range(K):
            W.eq("prediction", tree.y_pred[k, c] if clf else tree.y_pred[k], v["y"][c])


def plan(shape):
    n = len(shape)
    kids, depths = {}, {}
    for k, (p, left) in enumerate(shape):
        depths[k] = 0 if p < 0 else depths[p] + 1
        if p >= 0:
            kids.setdefault(p, [0, 0])[0 if left else 1] = k
    kids = {p: tuple(c) for p, c in kids.items()}
    return kids, depths, [k not in kids for k in range(n)]


def store(W, cfg):
    clf, K = bool(cfg["clf"]), cfg["K"] if cfg["clf"] else 1
    shape = SHAPES[cfg["shape"]]
    kids, depths, leafs = plan(shape)
    tree = empty_tree(W, clf, K, cfg["cap"], cfg["bpcap"])
    m = W.mod(TREE)
    vals = []
    for k, (parent, left) in enumerate(shape):
        part = None
        if not leafs[k] and cfg["cat"]:
            part = W.conc(W.int("size%d" % k, 0, 3)) or None
        v = values(W, k, leafs[k], K, part, k in cfg["rich"])
        vals.append(v)
        add(W, tree, clf, K, k, parent, left, leafs[k], depths[k], v)
        for at, what, arg in cfg["ops"]:
            if at == k:
                getattr(m, what)(tree, arg)
    verify(W, tree, clf, K, shape, leafs, vals, kids, depths)


def boundary(W, cfg):
    """As grow() does: a large tree whose storage is exactly full."""
    clf, K = bool(cfg["clf"]), 2 if cfg["clf"] else 1
    tree = empty_tree(W, clf, K, 0, 0)
    m = W.mod(TREE)
    m.resize_tree(tree, cfg["first"])
    base = W.conc(tree.capacity) - 2
    W.check("the requested storage is there", base + 2 >= cfg["first"])
    # sentinels in the stored part
    for k in (0, base - 1):
        r = tree.nodes[k]
        r["node_id"] = k
        r["feature"] = W.int("f%d" % k, 0, 2 ** 20)
        r["loss_valid"] = W.real("l%d" % k, -8, 8)
        for c in range(K):
            y = W.real("s%d_%d" % (k, c), -8, 8)
            if clf:
                tree.y_pred[k, c] = y
            else:
                tree.y_pred[k] = y
    keep = [(k, tree.nodes[k]["feature"], tree.nodes[k]["loss_valid"],
             [tree.y_pred[k, c] if clf else tree.y_pred[k] for c in range(K)])
            for k in (0, base - 1)]
    tree.node_count = base
    vals = []
    for n in range(5):
        part = W.conc(W.int("size%d" % n, 0, 2)) or None if n != 2 else None
        v = values(W, base + n, False, K, part, False)
        vals.append(v)
        add(W, tree, clf, K, base + n, base + n - 1, True, False, 3, v)
    for k, f, l, y in keep:
        W.eq("older feature", tree.nodes[k]["feature"], f)
        W.eq("older loss", tree.nodes[k]["loss_valid"], l)
        for c in range(K):
            W.eq("older prediction", tree.y_pred[k, c] if clf else tree.y_pred[k], y[c])
    for n, v in enumerate(vals):
        k = base + n
        r = tree.nodes[k]
        W.same("node number", W.conc(r["node_id"]), k)
        W.same("parent", W.conc(r["parent"]), k - 1)
        if n:
            W.same("child", W.conc(tree.nodes[k - 1]["left_child"]), k)
        for f in INTS + REALS + ("feature", "bin_threshold"):
            W.eq(f, r[f], v[f])
        a, b = W.conc(r["bin_partition_start"]), W.conc(r["bin_partition_end"])
        W.same("subset size", b - a, len(v["part"] or []))
        for j in range(min(b - a, len(v["part"] or []))):
            W.eq("subset", tree.bin_partitions[a + j], v["part"][j])
        for c in range(K):
            W.eq("prediction", tree.y_pred[k, c] if clf else tree.y_pred[k], v["y"][c])
    W.check("capacity covers the nodes", W.conc(tree.capacity) >= base + 5)


def resizing(W, cfg):
    nd, n, m = cfg["ndim"], cfg["n"], cfg["m"]
    dims = (n,) + (2,) * (nd - 1)
    a = W.empty(dims, np.float32)
    want = {}
    for ix in np.ndindex(*dims):
        v = W.real("a" + "_".join(map(str, ix)), -8, 8)
        want[ix] = v
        if nd == 1:
            a[ix[0]] = v
        elif nd == 2:
            a[ix[0], ix[1]] = v
        else:
            a[ix[0], ix[1], ix[2]] = v
    out = W.mod(UTILS).resize(a, m, cfg["zeros"])
    W.same("new size", tuple(int(d) for d in out.shape), (m,) + dims[1:])
    for ix in np.ndindex(*((m,) + dims[1:])):
        g = out[ix[0]] if nd == 1 else out[ix[0], ix[1]] if nd == 2 else \
            out[ix[0], ix[1], ix[2]]
        if ix in want:
            W.eq("content kept", g, want[ix])
        elif cfg["zeros"]:
            W.eq("new part is zero", g, 0)


def records(W, cfg):
    """The stack of nodes still to be grown: last in, first out, nothing lost."""
    m = W.mod(GROW)
    rec = m.Records(cfg["cap"])
    mine, nth = [], [0]

    def push():
        k = nth[0]
        nth[0] += 1
        r = (W.int("parent%d" % k, -2, 2 ** 40), W.int("depth%d" % k, 0, 2 ** 40),
             W.flag("left%d" % k) if k < 2 else k % 2 == 0,
             W.real("imp%d" % k, 0, 8), *[
                 W.int("%s%d" % (f, k), 0, 2 ** 40)
                 for f in ("st", "et", "sv", "ev")])
        mine.append(r)
        m.push_record(rec, *r)

    def pop():
        got = m.pop_node_record(rec)
        want = mine.pop()
        W.same("record length", len(got), len(want))
        for i, (g, w) in enumerate(zip(got, want)):
            if i == 2:
                W.check("record content", W.iff(g != 0, w))
            else:
                W.eq("record content", g, w)
    for step in cfg["ops"]:
        W.check("emptiness", W.iff(m.has_records(rec), bool(mine)))
        push() if step == "+" else pop()
    while mine:
        W.check("emptiness", W.iff(m.has_records(rec), True))
        pop()
    W.check("emptiness", W.iff(m.has_records(rec), False))


def chain(W, cfg):
    """A whole fit whose pending-node stack outgrows its initial size."""
    n = cfg["n"]
    free = set(cfg["free"])

    def small(W):
        if cfg.get("stack"):
            W.spatch(GROW, "INITIAL_STACK_SIZE", cfg["stack"])
    bins = [[i if i not in free else None for i in range(n)]]
    c = dict(nt=n, nv=0, nb=n, p=1, clf=0, agg=0, y="int", ny=0, bins=bins)
    F = ft.Fitted()
    F.cfg, F.n, F.clf, F.K, F.nb, F.p = c, n, False, 1, n, 1
    F.train, F.valid = list(range(n)), []
    F.cols = [[i if i not in free else W.conc(W.int("x%d" % i, max(0, i - 1), i))
               for i in range(n)]]
    sign = cfg.get("base", 4)
    F.y = [sign ** (n - i) if not cfg.get("up") else sign ** i for i in range(n)]
    F.w = [1] * n
    if W.symbolic:
        F.y = [kern.frac(v) for v in F.y]
        F.w = [kern.frac(v) for v in F.w]
    F.dirichlet, F.step = 0.5, 1.0
    F.cat, F.agg, F.mss, F.msl, F.md, F.crit, F.strat = [bool(cfg.get("cat"))], False, 2, \
        1, None, 3, 0
    F.maxv = [n - 1]
    small(W)
    F.fb = kern.bitarray(W, F.cols, F.maxv)
    ft.build(W, F)
    ft.route(W, F)
    ft.shape(W, F)
    W.same("every distinct value has its leaf", len([1 for d in F.nodes if d.is_leaf]),
           len(set(F.cols[0])))


def _store(tier):
    full = tier != "quick"
    out = []
    R, RB = "resize_tree", "resize_tree_bin_partitions"
    for shape in ("bal", "dfs"):
        n = len(SHAPES[shape])
        for clf in (0, 1):
            for cap in (0, 1, 2, 3, 4) if full else (0, 1, 3):
                for ops in ([], [(1, R, n + 4)], [(2, R, None), (3, RB, 5), (4, RB, None)],
                            [(0, RB, 2), (3, R, 1), (5, RB, 1)]):
                    if not full and ops and cap == 1:
                        continue
                    for bpcap in (0, 1, 4) if full else (0, 2):
                        if not full and bpcap and shape == "dfs":
                            continue
                        out.append(dict(shape=shape, clf=clf, K=2, cap=cap, bpcap=bpcap,
                                        cat=1, ops=ops,
                                        rich=[0, 3] if not full else list(range(n))))
    return out


def _records(tier):
    out = []
    for cap in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4, 10):
        for ops in ("+-", "+++--++-", "++++++++", "+-++-++-+++") + (
                () if tier == "quick" else ("+" * 13 + "-" * 6 + "+" * 12,)):
            out.append(dict(cap=cap, ops=ops))
    out.append(dict(cap=10, ops="+" * 12))
    return out


FUN = ["_tree.add_node_tree", "_tree.resize_tree", "_tree.resize_tree_",
       "_tree.resize_tree_bin_partitions", "_utils.resize"]
HARNESSES = [
    Harness("store", store, lambda: _store("quick"), lambda: _store("thorough"),
            bounds="7 or 9 nodes added to trees of initial capacity 0..4, category subsets of "
                   "0..3 bins, any node content, interleaved with explicit resizing",
            functions=FUN, modules=[TREE, UTILS]),
    Harness("boundary", boundary,
            [dict(clf=c, first=f) for c in (0, 1) for f in (2047,)],
            [dict(clf=c, first=f) for c in (0, 1) for f in (3, 2047, 2048, 4094)],
            bounds="five nodes added across the end of storage sized as grow() sizes it",
            functions=FUN, modules=[TREE, UTILS]),
    Harness("resize", resizing,
            [dict(ndim=d, n=n, m=m, zeros=z) for d in (1, 2, 3) for n, m in
             ((0, 2), (1, 2), (2, 3), (3, 3), (3, 5)) for z in (False, True)],
            bounds="arrays of 1 to 3 dimensions, 0..3 rows resized to 2..5 rows",
            functions=["_utils.resize"], modules=[UTILS]),
    Harness("records", records, lambda: _records("quick"), lambda: _records("thorough"),
            bounds="up to 25 pushes and pops from capacity 1..10, any record content",
            functions=["_grow.Records", "_grow.push_record", "_grow.pop_node_record",
                       "_grow.has_records"], modules=[GROW]),
    Harness("chain", chain,
            [dict(n=13, free=[5, 12]), dict(n=13, free=[5, 12], up=1),
             dict(n=13, free=[5, 12], cat=1), dict(n=7, free=[2, 4], stack=1),
             dict(n=7, free=[2, 4], stack=2, cat=1, up=1)],
            [dict(n=15, free=[5, 9, 12]), dict(n=15, free=[5, 9, 12], up=1),
             dict(n=15, free=[3, 12], cat=1), dict(n=9, free=[2, 4, 7], stack=1),
             dict(n=9, free=[2, 4, 6], stack=2, cat=1, up=1), dict(n=8, free=[2, 4, 6],
                                                                  stack=3)],
            bounds="whole fits of chain-shaped trees with up to 14 pending nodes",
            functions=["_grow.grow"] + FUN, modules=[GROW, TREE]),
]
