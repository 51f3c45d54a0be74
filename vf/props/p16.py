"""P16: results do not depend on the order in which trees run."""
import numpy as np

from .. import fit as ft, forest as fo, kern, sched
from ..harness import Harness

STUBS = ["joblib.Parallel and threading.Lock: one thread per task, the solver picks which "
         "one continues at every point (task start, stand-in call, lock, array write)",
         "trees, encoder, random generators", "scikit-learn helpers replaced by contracts "
         "(symbolic runs only)"]


def bag(W, n):
    """Draws that differ from generator to generator."""
    def value(k, i, lo, hi):
        if hi - lo > 1000:
            return 31 * i + 7 + k
        return (i // 2) % (hi - lo) + lo
    b = fo.Bag(W, value, lambda x, y: x == y)

    class Gen(fo.Rng):
        def _draw(self, lo, hi, size, distinct=False):
            s = self.seed if isinstance(self.seed, int) else 0
            if hi - lo > 1000:
                vals = [31 * i + 7 + s for i in range(size or 1)]
            else:
                vals = [(i // 2 + s) % (hi - lo) + lo for i in range(size or 1)]
            return vals[0] if size is None else self.W.arr(vals, np.int64)

    def call(seed):
        fo.StubTree.point()
        return Gen(W, b, int(seed))
    call.draws = []
    return call


def start(W, cfg):
    E = fo.Env(W, free=False, bag=bag(W, cfg["n"]))
    clf, ovr = cfg["clf"], cfg.get("ovr")
    kw = dict(n_estimators=cfg["ne"])
    if cfg.get("jobs"):
        kw["n_jobs"] = W.pick("n_jobs", [1, 2, -1])
    if clf:
        kw["multiclass"] = "ovr" if ovr else "multinomial"
    n, K = cfg["n"], cfg.get("K", 2)
    y = W.arr([i % K for i in range(n)] if clf else [0.5 * i for i in range(n)],
              np.int64 if clf else np.float64)
    return E, kw, y


def interleave(W, E, cfg):
    s = sched.Scheduler(W, cfg["switches"])
    E.need(s.install())
    return s


def fitting(W, cfg):
    E, kw, y = start(W, cfg)
    n = cfg["n"]
    w = [W.real("w%d" % i, 0, 8) for i in range(n)]
    a = E.new(cfg["clf"], **dict(kw, n_jobs=1))
    a.fit(E.X(n), y, sample_weight=W.arr(w, np.float32))
    ref = list(a.trees)
    b = E.new(cfg["clf"], **kw)
    s = interleave(W, E, cfg)
    b.fit(E.X(n), y, sample_weight=W.arr(w, np.float32))
    W.same("tasks ran", s.count, 1)
    W.same("as many trees", len(b.trees), len(ref))
    for t, u in zip(ref, b.trees):
        W.eq("each tree in its place", u.kw["random_state"], t.kw["random_state"])
        W.same("each tree trained once", len(u.fits), 1)
        f, g = t.fits[0], u.fits[0]
        for part in ("train", "valid"):
            W.same("same " + part + " samples", [W.conc(i) for i in g[part]],
                   [W.conc(i) for i in f[part]])
        for p, q in zip(f["w"], g["w"]):
            W.eq("same weights", q, p)
        for p, q in zip(f["y"], g["y"]):
            W.eq("same labels", q, p)
        W.check("own weights are not touched later", all(
            W.is_true(p == q) for p, q in zip(g["w"], list(g["w_is"]))))


def predicting(W, cfg):
    E, kw, y = start(W, cfg)
    clf, n, m = cfg["clf"], cfg["n"], cfg.get("m", 1)
    f = E.new(clf, **kw)
    f.fit(E.X(n), y)
    K = cfg.get("K", 2)
    ovr = cfg.get("ovr") and K > 2
    kc = 2 if ovr else K
    q, lf, dp = {}, {}, {}
    for t in f.trees:
        for i in range(m):
            if clf:
                v = [W.real("q%d_%d_%d" % (t.no, i, k), 0.125, 1) for k in range(kc - 1)]
                q[t.no, i] = v + [1 - kern.asum(v)]
            else:
                q[t.no, i] = W.real("q%d_%d" % (t.no, i), 0.125, 4)
            lf[t.no, i] = W.int("leaf%d_%d" % (t.no, i), 0, 50)
            dp[t.no, i] = W.real("d%d_%d" % (t.no, i), 0, 50)
    fo.StubTree.table = staticmethod(lambda t, r: q[t, r])
    fo.StubTree.leaf = staticmethod(lambda t, r: lf[t, r])
    fo.StubTree.depth = staticmethod(lambda t, r: dp[t, r])
    X = E.X(m)
    what = cfg["what"]
    call = dict(predict=lambda: (f.predict_proba if clf else f.predict)(X),
                trees=lambda: (f.predict_proba_trees if clf else f.predict_trees)(X),
                apply=lambda: f.apply(X), depth=lambda: f._weighted_depth(X))[what]
    ref = call()
    s = interleave(W, E, cfg)
    got = call()
    W.same("tasks ran", s.count, 1)
    W.same("same shape", tuple(got.shape), tuple(ref.shape))
    for i in np.ndindex(tuple(ref.shape)):
        W.eq("same value at " + str(i), got[i], ref[i])


def frame(W, cfg):
    """Growing a tree and predicting with it leave what trees share untouched."""
    arrays = {}
    run = ft.run_fit

    def recording(W, F, t):
        a = dict(y=W.arr(F.y, np.float32), train=W.arr(F.train, np.uintp),
                 valid=W.arr(F.valid, np.uintp), w=W.arr(F.w, np.float32))
        arrays.update(a)
        t.fit(F.fb, a["y"], a["train"], a["valid"], a["w"])
        return t
    ft.run_fit = recording
    try:
        F = ft.fit(W, cfg)
    finally:
        ft.run_fit = run
    for t in (F.tree.predict_proba(F.fb) if F.clf else F.tree.predict(F.fb),
              F.tree.apply(F.fb)):
        pass
    nodes = kern.read_nodes(W, F.tree)
    for x, z in zip(F.nodes, nodes):
        W.same("predicting leaves the nodes alone", (x.left_child, x.right_child, x.feature),
               (z.left_child, z.right_child, z.feature))
    for i in range(F.n):
        W.eq("labels are not modified", arrays["y"][i], F.y[i])
        W.eq("weights are not modified", arrays["w"][i], F.w[i])
    W.same("training samples are not modified", [W.conc(i) for i in arrays["train"]],
           F.train)
    W.same("validation samples are not modified", [W.conc(i) for i in arrays["valid"]],
           F.valid)
    d = W.mod(kern.FBM).features_bitarray_to_array(F.fb)
    for i in range(F.n):
        for j in range(F.p):
            W.eq("data are not modified", d[i, j], F.cols[j][i])


def _fit(tier):
    big = tier != "quick"
    out = []
    for clf in (0, 1):
        out.append(dict(clf=clf, n=3, ne=2, switches=5 if big else 3))
        out.append(dict(clf=clf, n=3, ne=3, switches=2 if big else 1, jobs=clf))
        out.append(dict(clf=clf, n=3, ne=2, switches=5 if big else 2, vb=1))
    out.append(dict(clf=1, n=3, ne=1, K=3, ovr=1, switches=3 if big else 2))
    out.append(dict(clf=1, n=3, ne=1, K=3, ovr=1, switches=1, vb=1))
    if big:
        out.append(dict(clf=0, n=4, ne=4, switches=2))
    return out


def _pred(tier):
    big = tier != "quick"
    out = []
    for clf in (0, 1):
        for what in ("predict", "trees", "apply") + (("depth",) if not clf else ()):
            out.append(dict(clf=clf, what=what, n=3, ne=2, switches=9))
            out.append(dict(clf=clf, what=what, n=3, ne=3, m=2, switches=3 if big else 1,
                            jobs=what == "predict"))
            if big:
                out.append(dict(clf=clf, what=what, n=3, ne=4, switches=2))
    for what in ("predict", "trees", "apply"):
        out.append(dict(clf=1, what=what, n=3, ne=1, K=3, ovr=1,
                        switches=3 if big else 2))
    return out


def _frame(tier):
    out = []
    for clf in (0, 1):
        for cat in (0, 1):
            out.append(dict(nt=3, nv=3, nb=4, p=2, maxv=[3, 1], clf=clf, cat=cat, agg=1,
                            mss=2, ny=1, vy=0, w="int" if tier != "quick" else "one",
                            bins=[[3, 0, 1, 0, 1, 3], [0, 1, 0, 1, 1, 0]]))
    return out


HARNESSES = [
    Harness("fitting", fitting, lambda: _fit("quick"), lambda: _fit("thorough"),
            bounds="2-3 (thorough 4) tasks in every order; 2 tasks with up to 3 (5) "
            "preemptions, 3 tasks with up to 2; any weights; n_jobs 1, 2, -1",
            functions=["ForestBase.fit", "_parallel_build_trees"], stubs=STUBS,
            modules=["wildwood.forest"]),
    Harness("predicting", predicting, lambda: _pred("quick"), lambda: _pred("thorough"),
            bounds="2 tasks with every interleaving of their points; 3 (thorough 4) tasks "
            "in every order with up to 2 (3) preemptions; any answers of the trees",
            functions=["ForestClassifier.predict_proba", "ForestRegressor.predict",
                       "ForestClassifier.predict_proba_trees",
                       "ForestRegressor.predict_trees", "ForestBase.apply",
                       "ForestRegressor._weighted_depth", "_accumulate_prediction",
                       "_get_tree_prediction", "_compute_weighted_depth",
                       "_parallel_tree_apply"], stubs=STUBS, modules=["wildwood.forest"]),
    Harness("frame", frame, lambda: _frame("quick"), lambda: _frame("thorough"),
            bounds="trees grown on 3 training and 3 validation samples",
            functions=["TreeBase.fit", "TreeBase.apply", "predict"],
            modules=["wildwood.tree"]),
]
