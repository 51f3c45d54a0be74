"""P22: a sample's encoding and prediction do not depend on its batch."""
import numpy as np
from ..harness import Harness
from .p03 import entries, pattern, table, DT
from .. import forest as fo, kern
from .p09 import plant, numbered, tree_of

ENC = "wildwood.preprocessing.encoder"
FB = "wildwood.preprocessing.features_bitarray"


def rows_of(W, enc, B, n, p):
    """Encoded rows, or None when the batch is rejected."""
    try:
        fb = enc.transform(B)
    except ValueError:
        return None
    out = W.mod(FB).features_bitarray_to_array(fb)
    return [[out[i, j] for j in range(p)] for i in range(n)]


def batch(W, cfg):
    """A batch against each of its rows alone and against the batch in reverse order."""
    m = W.mod(ENC)
    W.hashed()
    kind, n, nt = cfg["kind"], cfg["n"], cfg["nt"]
    p = 1 + cfg["other"]
    if kind == "cont":
        fit = [W.real("f%d" % i, f64=True) for i in range(n)]
        tr = [W.nfloat("t%d" % i) for i in range(nt)]
    else:
        pf = pattern(W, kind, "f", n, cfg["naf"])
        pt = pattern(W, kind, "t", nt, 1)
        fit, tr = entries(W, kind, "f", n, pf), entries(W, kind, "t", nt, pt)
    of = ot = None
    if cfg["other"]:
        of = [W.real("of%d" % i, f64=True) for i in range(n)]
        ot = [W.nfloat("ot%d" % i) for i in range(nt)]
    enc = m.Encoder(max_bins=4, is_categorical=np.array([kind != "cont"] + [False] * (p - 1)),
                    handle_unknown=cfg["unk"])
    k = "float" if kind == "cont" else kind
    cats = [W.letter(i) for i in (2, 0, 1, 3, 4)] if kind == "cat" else None
    enc.fit(table(W, cfg, k, fit, of, cats))

    def sub(idx):
        B = table(W, cfg, k, [tr[i] for i in idx], [ot[i] for i in idx] if ot else None,
                  cats)
        return rows_of(W, enc, B, len(idx), p)
    full = sub(range(nt))
    alone = [sub([i]) for i in range(nt)]
    W.check("a batch is rejected exactly when one of its rows is",
            (full is None) == any(a is None for a in alone))
    if full is not None:
        for i in range(nt):
            for j in range(p):
                W.eq("entry %d,%d as in the row alone" % (i, j), full[i][j], alone[i][0][j])
        if nt > 1:
            back = sub(list(range(nt))[::-1])
            for i in range(nt):
                for j in range(p):
                    W.eq("entry %d,%d in the reversed batch" % (i, j), full[i][j],
                         back[nt - 1 - i][j])


def tree_batch(W, cfg):
    """Prediction of binned samples by one tree: in a batch as alone."""
    clf = bool(cfg["clf"])
    K = 2
    tm = W.mod("wildwood._tree")
    rows = numbered(tree_of(cfg["shape"]), cfg["order"])
    n = len(rows)
    t, p = plant(W, clf, K, rows, n)
    for i in range(n):
        t.nodes[i]["loss_valid"] = W.real("loss%d" % i, 0, 4)
        t.nodes[i]["log_weight_tree"] = W.real("w%d" % i, -4, 4)
        if clf:
            q = W.real("q%d" % i, 0, 1)
            t.y_pred[i, 0], t.y_pred[i, 1] = q, 1 - q
        else:
            t.y_pred[i] = W.real("q%d" % i, -4, 4)
    m = cfg["m"]
    X = [[W.int("x%d_%d" % (i, j), 0, cfg.get("b", 1)) for j in range(p)] for i in range(m)]
    agg = bool(cfg["agg"])

    def run(idx):
        fb = kern.bitarray(W, [[X[i][j] for i in idx] for j in range(p)], [cfg.get("b", 1)] * p)
        pred = (tm.tree_classifier_predict_proba if clf else tm.tree_regressor_predict)(
            t, fb, agg, 1.0)
        return [[pred[s, k] for k in range(K)] if clf else [pred[s]]
                for s in range(len(idx))], tm.tree_apply(t, fb)
    full, leaves = run(list(range(m)))
    for i in range(m):
        one, leaf = run([i])
        W.eq("leaf of sample %d" % i, leaves[i], leaf[0])
        for a, b in zip(full[i], one[0]):
            W.eq("prediction of sample %d" % i, a, b)


def forest(W, cfg):
    """Forest outputs of a batch, row by row, against each row alone and other batches."""
    clf, ovr, ne, n = cfg["clf"], bool(cfg.get("ovr")), cfg["ne"], cfg["n"]
    K = cfg.get("K", 2)
    E = fo.Env(W)
    f = E.new(clf, n_estimators=ne, **(dict(multiclass="ovr" if ovr else "multinomial")
                                       if clf else {}))
    nfit = K + 1
    if clf:
        f.fit(E.X(nfit), W.arr([i % K for i in range(nfit)], np.int64))
    else:
        f.fit(E.X(nfit), W.arr([0.5 * i for i in range(nfit)], np.float64))
    ovr = ovr and K > 2
    kc = 2 if ovr else K
    no = [t.no for t in f.trees]
    q, leaf, depth = {}, {}, {}
    for t in no:
        for i in range(n):
            leaf[t, i] = W.int("leaf%d_%d" % (t, i), 0, 1000)
            depth[t, i] = W.real("d%d_%d" % (t, i), 0, 50)
            if clf:
                v = [W.real("q%d_%d_%d" % (t, i, k), 0, 1) for k in range(kc - 1)]
                if cfg.get("zero") and i == 0:
                    v = [1 - kern.frac(0) if W.symbolic else 1.0]  # no class gets a vote
                v.append(1 - kern.asum(v))
                if kc > 2:
                    W.assume(v[-1] >= 0)
            else:
                v = W.real("q%d_%d" % (t, i), -8, 8)
            q[t, i] = v
    fo.StubTree.table = staticmethod(lambda t, r: q[t, r])
    fo.StubTree.leaf = staticmethod(lambda t, r: leaf[t, r])
    fo.StubTree.depth = staticmethod(lambda t, r: depth[t, r])

    def run(rows):
        X = E.X(len(rows), rows=rows)
        A = f.apply(X)
        out = [[A[t, i] for t in range(len(no))] for i in range(len(rows))]
        if clf:
            P, T, L = f.predict_proba(X), f.predict_proba_trees(X), f.predict(X)
            for i in range(len(rows)):
                out[i] += [P[i, k] for k in range(K)] + [
                    T[t, i, k] for t in range(len(no)) for k in range(kc)] + [L[i]]
        else:
            P, T, D = f.predict(X), f.predict_trees(X), f._weighted_depth(X)
            for i in range(len(rows)):
                out[i] += [P[i]] + [a[t, i] for a in (T, D) for t in range(len(no))]
        return out
    full = run(list(range(n)))
    back = run(list(range(n))[::-1])
    for i in range(n):
        one, twice = run([i])[0], run([i, (i + 1) % n, i])
        for j in range(len(one)):
            W.eq("output %d of row %d as of the row alone" % (j, i), full[i][j], one[j])
            W.eq("output %d of row %d in the reversed batch" % (j, i), back[n - 1 - i][j],
                 one[j])
            for r in (0, 2):
                W.eq("output %d of a repeated row" % j, twice[r][j], one[j])


def _forest(tier):
    out = [dict(clf=0, ne=1, n=2), dict(clf=0, ne=2, n=2), dict(clf=1, ne=1, n=2),
           dict(clf=1, ne=2, n=2), dict(clf=1, ne=1, n=2, K=3),
           dict(clf=1, ne=1, n=2, K=3, ovr=1), dict(clf=1, ne=1, n=2, K=3, ovr=1, zero=1)]
    if tier != "quick":
        out += [dict(clf=0, ne=3, n=3), dict(clf=1, ne=2, n=3), dict(clf=1, ne=2, n=2, K=3),
                dict(clf=1, ne=2, n=2, K=3, ovr=1), dict(clf=1, ne=1, n=3, K=3, ovr=1, zero=1)]
    return out


def _tb(tier):
    out = []
    for clf in (0, 1):
        for agg in (0, 1):
            for shape in ([0, 0], [[0, 0], 0], [0, [0, 0]]):
                out.append(dict(clf=clf, agg=agg, shape=shape, order="bfs", m=2,
                                b=3 if tier != "quick" or len(str(shape)) < 8 else 1))
            if tier != "quick":
                out.append(dict(clf=clf, agg=agg, shape=[[0, 0], [0, 0]], order="rl", m=3))
    return out


def _batch(tier):
    out = []
    for df in (0, 1):
        for kind in ("cont", "text", "float", "int", "cat"):
            if kind == "cat" and not df:
                continue
            for unk in ("error", "consider_missing"):
                if kind == "cont" and unk == "error":
                    continue
                out.append(dict(kind=kind, df=df, n=2, nt=2, unk=unk, naf=0, other=0))
                if kind == "float" or kind == "cont":
                    out.append(dict(kind=kind, df=df, n=1, nt=2, unk=unk, naf=0, other=1))
                if tier != "quick":
                    out.append(dict(kind=kind, df=df, n=2, nt=3, unk=unk, naf=0, other=0))
                    out.append(dict(kind=kind, df=df, n=3, nt=2, unk=unk, naf=kind == "text",
                                    other=0))
    return out


FN = ["Encoder.fit", "Encoder.transform"]
HARNESSES = [
    Harness("batch", batch, lambda: _batch("quick"), lambda: _batch("thorough"),
            bounds="1-3 training rows, batches of two (thorough: three) rows with any "
            "missing, unknown and extreme entries; one or two columns; data frames and "
            "arrays", functions=FN, modules=[ENC],
            stubs=["pandas Series/DataFrame/categoricals replaced by contracts"]),
    Harness("tree", tree_batch, lambda: _tb("quick"), lambda: _tb("thorough"),
            bounds="trees of 2-3 (thorough: 4) leaves with arbitrary weights and "
            "predictions, two (three) samples with any bins",
            functions=["tree_classifier_predict_proba", "tree_regressor_predict",
                       "tree_apply"], modules=["wildwood._tree"]),
    Harness("forest", forest, lambda: _forest("quick"), lambda: _forest("thorough"),
            bounds="1-3 trees with arbitrary answers, batches of 1-3 rows, also reversed and "
            "with a repeated row; rows without any vote in one-versus-rest mode",
            functions=["ForestClassifier.predict_proba", "ForestClassifier.predict",
                       "ForestClassifier.predict_proba_trees", "ForestBase.apply",
                       "ForestRegressor.predict", "ForestRegressor.predict_trees",
                       "ForestRegressor._weighted_depth"],
            stubs=["trees answer arbitrary numbers", "encoder", "joblib.Parallel",
                   "scikit-learn helpers replaced by contracts (symbolic runs only)"],
            modules=["wildwood.forest"]),
]
