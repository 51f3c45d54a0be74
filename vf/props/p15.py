"""P15: a fixed random state fixes the forest."""
import numpy as np

from .. import fit as ft, forest as fo, kern
from ..harness import Harness
from . import p02, p04, p11

ENC = "wildwood.preprocessing.encoder"
UTILS = "wildwood._utils"
STATES = [0, 5, 2 ** 31 + 3, 2 ** 32 - 2]
STUBS = ["random generators: any draws, a function of the seed and of the number of "
         "calls made", "trees and encoder record what they are given",
         "joblib.Parallel runs the tasks",
         "scikit-learn helpers replaced by contracts (symbolic runs only)"]


def generators(W, n):
    """Seeds are arbitrary but distinct; bootstraps differ from draw to draw."""
    drawn = []

    def value(k, i, lo, hi):
        if hi - lo <= 1000:
            return (i // 2 + k) % (hi - lo) + lo
        v = W.int("seed%d_%d" % (k, i), lo, hi - 1)
        for u in drawn:
            W.assume(W.no(u == v))
            W.assume(W.no(u == v + 1))
            W.assume(W.no(v == u + 1))
        drawn.append(v)
        return v

    def same(a, b):
        if isinstance(a, tuple) or isinstance(b, tuple):
            return a == b
        return W.is_true(a == b)
    return fo.Bag(W, value, same)


def same_seed(W, label, a, b):
    if isinstance(a, fo.Rng) and isinstance(b, fo.Rng):
        W.same(label + " (position)", a.n, b.n)
        a, b = a.seed, b.seed
    if a is None or b is None or isinstance(a, tuple) or isinstance(b, tuple):
        W.check(label, a is not None and b is not None and not isinstance(a, tuple)
                and not isinstance(b, tuple))
        return
    W.eq(label, a, b)


def settings(W, cfg):
    kw = dict(n_estimators=cfg["ne"], random_state=W.pick("random_state", STATES))
    if cfg["clf"]:
        kw.update(multiclass="ovr" if cfg.get("ovr") else "multinomial")
    return kw


def data(W, E, cfg, which=0):
    n, K = cfg["n"], cfg.get("K", 2)
    if which:
        n += 1
    if cfg["clf"]:
        y = W.arr([(i + which) % K for i in range(n)], np.int64)
    else:
        y = W.arr([0.5 * i + which for i in range(n)], np.float64)
    return E.X(n), y


def twice(W, cfg):
    """Same state, different histories and numbers of jobs."""
    bag = generators(W, cfg["n"])
    E = fo.Env(W, bag=bag)
    kw = settings(W, cfg)
    if W.symbolic:      # numpy's own generator answers anything
        drawn = []

        def anything(low, high):
            low, high = (0, low) if high is None else (low, high)
            drawn.append(W.int("global%d" % len(drawn), low, high - 1))
            return drawn[-1]
        W.sh.NUMPY.random.on_randint = anything
    fit_kw = dict(randomized_depth=True) if cfg.get("rd") else {}
    X, y = data(W, E, cfg)
    f = E.new(cfg["clf"], **kw)
    f.fit(X, y, **fit_kw)
    one, enc1 = list(E.trees), E.encoders[-1]
    k = len(one)
    how = cfg["how"]
    if how == "refit":
        g = f
    else:
        g = E.new(cfg["clf"], **dict(kw, n_jobs=W.pick("n_jobs", [2, 3, -1])))
        if how == "other data":
            g.fit(*data(W, E, cfg, 1))
    m = len(E.trees)
    g.fit(X, y, **fit_kw)
    two, enc2 = E.trees[m:], E.encoders[-1]
    W.check("another encoder", enc1 is not enc2)
    W.same("as many trees", len(two), k)
    W.check("trees are new", not any(a is b for a in one for b in two))
    same_seed(W, "encoder's random state", enc1.kw.get("random_state"),
              enc2.kw.get("random_state"))
    for a, b in zip(one, two):
        same_seed(W, "tree's random state", a.kw.get("random_state"),
                  b.kw.get("random_state"))
        fa, fb = a.fits[0], b.fits[0]
        for part in ("train", "valid"):
            W.same("same " + part + " samples", [W.conc(i) for i in fa[part]],
                   [W.conc(i) for i in fb[part]])
        for u, v in zip(fa["w"], fb["w"]):
            W.eq("same weights", u, v)
        W.eq("same depth limit", a.kw.get("max_depth"), b.kw.get("max_depth"))
        W.same("same number of candidate features", a.kw.get("max_features"),
               b.kw.get("max_features"))
    W.check("no global generator", not any(isinstance(s, tuple) for s in bag.seeds))


def independent(W, cfg):
    """Trees of one class: own seeds, for growing and for sampling."""
    bag = generators(W, cfg["n"])
    E = fo.Env(W, bag=bag)
    ne, K = cfg["ne"], cfg.get("K", 2)
    f = E.new(cfg["clf"], **settings(W, cfg))
    X, y = data(W, E, cfg)
    f.fit(X, y)
    nt = ne * K if cfg.get("ovr") and K > 2 else ne
    W.same("number of trees", len(E.trees), nt)
    for c in range(nt // ne):
        for a in range(c * ne, c * ne + ne):
            for b in range(c * ne, a):
                W.check("growing seeds of trees of one class differ", W.no(
                    E.trees[a].kw["random_state"] == E.trees[b].kw["random_state"]))
                W.check("their samples differ under generic draws", [
                    W.conc(i) for i in E.trees[a].fits[0]["w"]] != [
                    W.conc(i) for i in E.trees[b].fits[0]["w"]])
    bad = [t for t in E.trees if not _int(W, t.kw["random_state"])]
    W.check("growing seeds are integers", not bad)


def _int(W, v):
    return isinstance(v, (int, np.integer)) or (W.symbolic and isinstance(v, W.S.SInt))


class Streams:
    """Draws of the kernels' generator: a function of the last seed and the draw's number."""

    def __init__(self, W):
        self.W, self.seed, self.k, self.memo = W, "unseeded", 0, {}

    def on_seed(self, s):
        self.seed, self.k = int(s), 0

    def on_randint(self, low, high):
        if high is None:
            low, high = 0, low
        low, high = self.W.conc(low), self.W.conc(high)
        key = (self.seed, self.k, low, high)
        self.k += 1
        if key not in self.memo:
            self.memo[key] = self.W.int("rnd%d" % len(self.memo), low, high - 1)
        return self.memo[key]


def grown(W, cfg):
    """Growing twice with the same seed, whatever was drawn in between."""
    st = Streams(W)
    if W.symbolic:
        r = W.sh.NUMPY.random
        r.on_randint, r.on_seed = st.on_randint, st.on_seed

    def before(W):
        p11.lse_stub(W)
    seed = W.pick("seed", [0, 2 ** 31 + 3])
    W.seed = lambda name: seed
    F = ft.fit(W, dict(cfg, weights=1), before=before)
    W.check("the seed given is used", F.seed == seed)
    swor = W.mod(UTILS).sample_without_replacement
    for _ in range(W.pick("between", [0, 1])):
        swor(np.arange(2, dtype=np.uintp) if not W.symbolic else W.arr(
            [0, 1], np.uintp), W.arr([0], np.uintp))
    t = ft.run_fit(W, F, ft.new_tree(W, F))
    a, b = kern.read_nodes(W, F.tree), kern.read_nodes(W, t)
    W.same("same nodes", [(n.left_child, n.right_child, n.feature, n.depth) for n in a],
           [(n.left_child, n.right_child, n.feature, n.depth) for n in b])
    for x, z in zip(a, b):
        W.eq("same threshold", x.bin_threshold, z.bin_threshold)
        if F.clf:
            for k in range(F.K):
                W.eq("same prediction", x.y_pred[k], z.y_pred[k])
        else:
            W.eq("same prediction", x.y_pred, z.y_pred)


def subsample(W, cfg):
    """The rows the encoder learns from derive from its random state."""
    m = W.mod(ENC)
    W.hashed()
    n, k, df = cfg["n"], cfg["k"], cfg["df"]
    bag = fo.Bag(W, same=lambda a, b: a == b)
    if not W.patch(ENC, "check_random_state", bag):
        raise AttributeError("check_random_state")
    col = [W.real("x%d" % i, f64=True) for i in range(n)]
    X = W.frame([("a", W.series(col, "float64"))]) if df else W.matrix(
        [[v] for v in col], "float64")
    rs = W.pick("random_state", [0, 3, 2 ** 32 - 1])
    got = []
    for rep in range(2):
        enc = m.Encoder(is_categorical=np.array([False]), max_bins=3, random_state=rs)
        enc._subsample = k
        if enc.subsample != k:
            W.assume(False)
        enc.fit(X)
        got.append(list(enc.binning_thresholds_[0]))
    W.same("as many bins", len(got[0]), len(got[1]))
    for a, b in zip(*got):
        W.eq("same thresholds", a, b)
    W.check("no global generator", not any(isinstance(s, tuple) for s in bag.seeds))
    W.check("a generator of the given state", all(s == rs for s in bag.seeds)
            and len(bag.seeds) > 0)


def _twice(tier):
    out = []
    ne = 2 if tier == "quick" else 4
    for c in (0, 1):
        out.append(dict(clf=c, n=4, ne=3, how="jobs" if c else "refit", vb=1))
    for how in ("refit", "other data", "jobs"):
        out.append(dict(clf=0, n=3, ne=ne, how=how))
        out.append(dict(clf=1, n=4, ne=ne, how=how))
        out.append(dict(clf=1, n=3, ne=ne, how=how, K=3, ovr=1))
        out += [dict(clf=c, n=4, ne=ne, how=how, rd=1) for c in (0, 1)]
    return out


def _ind(tier):
    out = [dict(clf=0, n=4, ne=3), dict(clf=1, n=4, ne=3),
           dict(clf=1, n=4, ne=2, K=3, ovr=1), dict(clf=1, n=4, ne=3, K=2, ovr=1)]
    if tier == "thorough":
        out += [dict(clf=1, n=5, ne=3, K=4, ovr=1), dict(clf=0, n=6, ne=6)]
    return out


def _grown(tier):
    out = []
    for clf in (1, 0):
        for cat in (0, 1):
            out.append(dict(nt=4, nv=2, nb=3, p=3, mf=1, clf=clf, cat=cat, agg=0, labels=[0, 1, 1, 0, 1, 0],
                            bins=[[0, 1, 2, 0, 0, 1], [1, 0, 0, 2, 1, 0],
                                        [2, 2, 0, 1, 0, 2]], seed=1))
    out.append(dict(nt=4, nv=2, nb=3, p=1, K=3, strat=2, clf=1, cat=1, agg=0,
                    labels=[0, 1, 2, 1, 0, 1], bins=[[0, 1, 2, 2, 0, 1]]))
    if tier == "thorough":
        out += [dict(c, agg=1, nv=3, labels=c["labels"] + [1], bins=[b + [0] for b in c["bins"]]) for c in out]
        out.append(dict(out[0], mf=2))
    return out


HARNESSES = [
    Harness("twice", twice, lambda: _twice("quick"), lambda: _twice("thorough"),
            bounds="forests of 2 (thorough 4) trees (per class), 3-4 samples; four random "
            "states including both ends; any seeds drawn; refits, fits after other data, "
            "other numbers of jobs",
            functions=["ForestBase.fit", "ForestBase._generate_random_states",
                       "_generate_train_valid_samples"], stubs=STUBS,
            modules=["wildwood.forest"]),
    Harness("independent", independent, lambda: _ind("quick"), lambda: _ind("thorough"),
            bounds="2-3 (thorough 6) trees per class, up to 3 (4) classes",
            functions=["ForestBase._generate_random_states", "ForestBase.fit"], stubs=STUBS,
            modules=["wildwood.forest"]),
    Harness("grown", grown, lambda: _grown("quick"), lambda: _grown("thorough"),
            bounds="trees on 4 training samples and 3 features, one drawn at each node, or "
            "a drawn category order; any draws; two seeds",
            functions=["TreeBase.fit", "TreeClassifier", "TreeRegressor", "grow",
                       "sample_without_replacement"],
            stubs=["numba's generator: any draws, a function of the seed and the number of "
                   "draws made since seeding"], modules=["wildwood.tree", UTILS]),
    Harness("subsample", subsample, [dict(n=3, k=2, df=d) for d in (0, 1)],
            [dict(n=4, k=k, df=d) for d in (0, 1) for k in (2, 3)],
            bounds="2 rows of 3 (thorough 2-3 of 4); any draws of distinct rows",
            functions=["Encoder.fit"], stubs=["pandas replaced by contracts"] + STUBS[:1],
            modules=[ENC]),
]
