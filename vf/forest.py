"""Driving the forest module: stand-ins for trees, encoder, random generators, scikit-learn
helpers and the parallel runner.  The forest's own code is what runs."""
import itertools
import threading

import numpy as np

FOREST = "wildwood.forest"


# ------------------------------------------------------------------ encoder and trees
class StubFB:
    """Encoded samples: which rows of the table they are."""

    def __init__(self, rows, n_features):
        self.rows = list(rows)
        self.n_samples = len(self.rows)
        self.n_features = n_features


class StubEncoder:
    log = []
    inferred = None     # what it finds to be categorical

    def __init__(self, **kw):
        self.kw = kw
        self.fitted = None
        StubEncoder.log.append(self)

    def fit(self, X, y=None):
        self.fitted = X
        self.is_categorical_ = np.zeros(X.shape[1], dtype=bool)
        isc = self.kw.get("is_categorical")
        if isc is not None:
            for j, c in enumerate(isc):
                self.is_categorical_[j] = bool(c)
        if StubEncoder.inferred is not None:
            self.is_categorical_ = np.array(StubEncoder.inferred, dtype=bool)
        return self

    def transform(self, X, y=None):
        return StubFB([int(r) for r in X[:, 0]], X.shape[1])

    def fit_transform(self, X, y=None):
        return self.fit(X).transform(X)


class StubTree:
    """Records what it is given; answers from a table indexed by sample row."""
    log = []
    table = None      # (tree number, row) -> prediction
    arr = None        # builds arrays in the current world
    leaf = depth = None
    point = staticmethod(lambda: None)      # a task may be interrupted here

    def __init__(self, **kw):
        self.kw = kw
        self.no = len(StubTree.log)
        self.fits = []
        self.step = kw.get("step")
        self.dirichlet = kw.get("dirichlet")
        StubTree.log.append(self)

    def fit(self, features_bitarray, y, train_indices, valid_indices, sample_weights):
        StubTree.point()
        self.fits.append(dict(fb=features_bitarray, y=list(y), train=list(train_indices),
                              valid=list(valid_indices), w=list(sample_weights),
                              w_is=sample_weights, y_is=y))
        StubTree.point()
        return self

    def _rows(self, fb):
        return fb.rows

    def predict_proba(self, fb):
        StubTree.point()
        return StubTree.arr([StubTree.table(self.no, r) for r in fb.rows])

    def predict(self, fb):
        StubTree.point()
        return StubTree.arr([StubTree.table(self.no, r) for r in fb.rows])

    def apply(self, fb):
        StubTree.point()
        return StubTree.iarr([StubTree.leaf(self.no, r) for r in fb.rows])

    def weighted_depth(self, fb):
        StubTree.point()
        return StubTree.arr([StubTree.depth(self.no, r) for r in fb.rows])

    def lighten(self):
        self.light = True


class StubTreeClassifier(StubTree):
    kind = "classifier"


class StubTreeRegressor(StubTree):
    kind = "regressor"


# ------------------------------------------------------------------ random generators
class Rng:
    """A generator: a function of its seed and of the calls made so far, nothing else."""

    def __init__(self, W, bag, seed):
        self.W, self.bag, self.seed, self.n = W, bag, seed, 0

    def _draw(self, lo, hi, size, distinct=False):
        """size draws in [lo, hi)"""
        k = None
        for i, (s, n, what, vals) in enumerate(self.bag.draws):
            if n == self.n and what == (lo, hi, size) and self.bag.same(s, self.seed):
                k = i
        if k is None:
            k = len(self.bag.draws)
            cnt = 1 if size is None else int(size)
            vals = [self.bag.value(k, i, lo, hi) for i in range(cnt)]
            if distinct:
                for i in range(cnt):
                    for j in range(i):
                        self.W.assume(self.W.no(vals[i] == vals[j]))
            self.bag.draws.append((self.seed, self.n, (lo, hi, size), vals))
        self.n += 1
        vals = self.bag.draws[k][3]
        if size is None:
            return vals[0]
        return self.W.arr(list(vals), np.int64)

    def randint(self, low, high=None, size=None, dtype=None):
        if high is None:
            low, high = 0, low
        return self._draw(int(low), int(high), size)

    def integers(self, low, high=None, size=None, dtype=None, endpoint=False):
        return self.randint(low, high, size)

    def choice(self, a, size=None, replace=True, p=None):
        if p is not None or not isinstance(a, (int, np.integer)):
            raise AttributeError("choice")
        return self._draw(0, int(a), size, not replace)


class Bag:
    """All generators of a run."""

    def __init__(self, W, value=None, same=None):
        self.W = W
        self.draws, self.seeds = [], []
        self.value = value or (lambda k, i, lo, hi: W.int("draw%d_%d" % (k, i), lo, hi - 1))
        self.same = same or (lambda a, b: W.is_true(a == b))
        self.globals = 0

    def __call__(self, seed):
        if isinstance(seed, Rng):
            return seed
        if seed is None or seed is np.random or seed is np.random.mtrand._rand:
            self.globals += 1
            seed = ("global", self.globals)
            self.seeds.append(seed)
            return Rng(self.W, self, seed)
        self.seeds.append(seed)
        StubTree.point()
        return Rng(self.W, self, seed)


def plain_bag(W):
    """Concrete draws, for harnesses whose subject is elsewhere."""
    return Bag(W, lambda k, i, lo, hi: lo + (i // 2 if hi - lo < 1000 else 17 * k + i + 1),
               lambda a, b: a == b)


# ------------------------------------------------------------------ scikit-learn helpers
def sk_check_consistent_length(*arrays):
    if len({a.shape[0] if hasattr(a, "shape") else len(a) for a in arrays
            if a is not None}) > 1:
        raise ValueError("Found input variables with inconsistent numbers of samples")


def sk_compute_sample_weight(W):
    def f(class_weight, y, *, indices=None):
        if class_weight is None:
            return W.arr([1.0] * len(y), np.float64)
        assert class_weight == "balanced" and indices is None
        u, inv, cnt = W.sh.np_unique(y, return_inverse=True, return_counts=True)
        n, k = len(y), len(u)
        return W.arr([W.S.mkreal(W.S.to_real_ast(W.sh.Fraction(n, k * W.conc(
            cnt[W.conc(i)])))) for i in inv], np.float64)
    return f


def sk_check_sample_weight(W):
    def f(sample_weight, X, dtype=None, copy=False, **kw):
        n = X.shape[0]
        dt = np.dtype(dtype or np.float64)
        if sample_weight is None:
            return W.arr([1.0] * n, dt)
        if isinstance(sample_weight, (int, float)):
            return W.arr([sample_weight] * n, dt)
        w = W.sh.np_asarray(sample_weight, dt)
        if w.ndim != 1 or len(w) != n:
            raise ValueError("sample_weight.shape == %r, expected %r" % (w.shape, (n,)))
        return w.copy() if copy else w
    return f


def sk_encoders(W):
    class LabelEncoder:
        def fit_transform(self, y):
            self.classes_, inv = W.sh.np_unique(W.sh.np_asarray(y), return_inverse=True)
            return inv

        def fit(self, y):
            self.fit_transform(y)
            return self

        def transform(self, y):
            return W.arr([_find(W, c, self.classes_) for c in W.sh.np_asarray(y)], np.int64)

    class LabelBinarizer(LabelEncoder):
        def __init__(self, *, neg_label=0, pos_label=1, sparse_output=False):
            self.a = (neg_label, pos_label)

        def fit_transform(self, y):
            inv = LabelEncoder.fit_transform(self, y)
            return self._bin(inv)

        def _bin(self, inv):
            k = len(self.classes_)
            lo, hi = self.a
            idx = [W.conc(i) for i in inv]
            if k <= 2:
                rows = [[hi if i == 1 else lo] for i in idx]
            else:
                rows = [[hi if i == c else lo for c in range(k)] for i in idx]
            return W.arr(rows, np.int64)

        def transform(self, y):
            return self._bin(LabelEncoder.transform(self, y))
    return LabelEncoder, LabelBinarizer


def _find(W, x, cats):
    for j, c in enumerate(cats):
        if W.is_true(c == x):
            return j
    raise ValueError("y contains previously unseen labels")


# ------------------------------------------------------------------ parallel runners
class Runner:
    """joblib.Parallel: runs the tasks one after the other in an order the solver picks."""
    W = None
    count = 0
    free = True     # any order, or as given
    sizes = []

    def __init__(self, n_jobs=None, **kw):
        self.n_jobs = n_jobs

    def __call__(self, it):
        W = Runner.W
        tasks = list(it)
        n = len(tasks)
        k = Runner.count
        Runner.count += 1
        Runner.sizes.append(n)
        order = list(range(n))
        if Runner.free and 1 < n <= 4:
            order = list(W.pick("order%d" % k, list(itertools.permutations(range(n)))))
        out = [None] * n
        for i in order:
            f, a, kw = tasks[i]
            out[i] = f(*a, **kw)
        return out


class Env:
    """A forest whose surroundings are stand-ins."""

    def __init__(self, W, free=False, runner=None, bag=None, real_trees=False,
                 real_encoder=False):
        self.W = W
        self.m = W.mod(FOREST)
        StubTree.log, StubEncoder.log = [], []
        StubEncoder.inferred = None
        self.trees, self.encoders = StubTree.log, StubEncoder.log
        StubTree.point = staticmethod(lambda: None)
        StubTree.arr = staticmethod(lambda rows: W.arr(rows, np.float32))
        StubTree.iarr = staticmethod(lambda rows: W.arr(rows, np.uintp))
        if not real_encoder:
            self.need(W.patch(FOREST, "Encoder", StubEncoder))
        if not real_trees:
            self.need(W.patch(FOREST, "TreeClassifier", StubTreeClassifier))
            self.need(W.patch(FOREST, "TreeRegressor", StubTreeRegressor))
        self.bag = bag or plain_bag(W)
        self.need(W.patch(FOREST, "check_random_state", self.bag))
        if runner is None:
            Runner.W, Runner.count, Runner.free, Runner.sizes = W, 0, free, []
            runner = Runner
        self.need(W.patch(FOREST, "Parallel", runner))
        W.spatch(FOREST, "check_consistent_length", sk_check_consistent_length)
        W.spatch(FOREST, "check_classification_targets", lambda y: None)
        if W.symbolic:
            W.spatch(FOREST, "_check_sample_weight", sk_check_sample_weight(W))
            W.spatch(FOREST, "compute_sample_weight", sk_compute_sample_weight(W))
            le, lb = sk_encoders(W)
            W.spatch(FOREST, "LabelEncoder", le)
            W.spatch(FOREST, "LabelBinarizer", lb)
        W.hashed()

    def need(self, ok):
        if not ok:
            raise AttributeError("a name the harness replaces is gone from " + FOREST)

    def X(self, n, p=2, rows=None):
        a = np.zeros((n, p))
        a[:, 0] = np.arange(n) if rows is None else rows
        return a

    def new(self, clf, **kw):
        kw.setdefault("random_state", 3)
        cfg = getattr(self.W, "cfg", {})
        if cfg.get("vb"):
            kw.setdefault("verbose", True)
        if cfg.get("nj"):
            kw.setdefault("n_jobs", cfg["nj"])
        return (self.m.ForestClassifier if clf else self.m.ForestRegressor)(**kw)

    def labels(self, n, k, name="y", text=False):
        """n labels out of k tokens, all of which occur: the first k are distinct."""
        W = self.W
        out = []
        for i in range(n):
            t = W.int("%s%d" % (name, i), 0, 5)
            out.append(W.letter(t) if text else t * 3 - 7)
        return out

    def array(self, vals, text=False):
        W = self.W
        if text:
            if W.symbolic:
                return W.sh.SArr(vals, np.dtype(object))
            return np.array(vals)
        return W.arr(vals, np.int64)
