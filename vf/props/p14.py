"""P14: each split draws the requested number of distinct features, uniformly."""
import itertools
from fractions import Fraction

import numpy as np

from .. import kern
from ..harness import Harness

UTILS, NODE, CTX = "wildwood._utils", "wildwood._node", "wildwood._tree_context"
ASSUMPTIONS = ["randint(n) is uniform on 0..n-1 and successive draws are independent"]


def pyf(f):
    return getattr(f, "py_func", f)


class Script:
    """Feeds randint from a list and records the ranges asked for."""

    def __init__(self, W, source):
        self.W, self.source, self.ranges, self.values = W, source, [], []

    def __call__(self, low, high=None, size=None):
        if high is None:
            low, high = 0, low
        low, high = self.W.conc(low), self.W.conc(high)
        v = self.source(len(self.ranges), low, high)
        self.ranges.append((low, high))
        self.values.append(v)
        return v


def scripted(W, source, call):
    s = Script(W, source)
    if W.symbolic:
        r = W.sh.NUMPY.random
        r.on_randint = s
        try:
            call()
        finally:
            del r.on_randint
    else:
        um = W.mod(UTILS)
        saved = [(np.random, "randint", np.random.randint)]
        if "randint" in um.__dict__:
            saved.append((um, "randint", um.randint))
        for m, a, _ in saved:
            setattr(m, a, s)
        try:
            call()
        finally:
            for m, a, v in saved:
                setattr(m, a, v)
    return s


def distribution(W, run):
    """Exact law of the outcome over all draws (real world): {outcome: probability}."""
    law = {}
    todo = [()]
    while todo:
        prefix = todo.pop()

        class More(Exception):
            pass
        size = []

        def source(i, low, high):
            if i < len(prefix):
                return prefix[i]
            size.append((low, high))
            raise More()
        try:
            out, s = run(source)
        except More:
            low, high = size[0]
            todo += [prefix + (v,) for v in range(low, high)]
            continue
        p = Fraction(1)
        for low, high in s.ranges:
            p /= high - low
        law[out] = law.get(out, 0) + p
    return law


def uniform(W, n, m, run, label):
    if W.symbolic:
        outs = []
        for c in "ab":
            def source(i, low, high, c=c):
                return W.int("%s%d" % (c, i), low, high - 1)
            outs.append(run(source))
        (oa, sa), (ob, sb) = outs
        for o in (oa, ob):
            W.check(label + ": distinct features", W.conc(len(set(o))) == m)
            W.check(label + ": existing features", all(0 <= f < n for f in o))
        # a bijection between draws and ordered samples makes every subset equally likely
        tot = 1
        for low, high in sa.ranges:
            tot *= high - low
        want = 1
        for i in range(m):
            want *= n - i
        W.check(label + ": as many draws as ordered samples", tot == want)
        same = len(sa.values) == len(sb.values)
        if oa == ob:
            W.check(label + ": different draws give different samples", W.all(
                [same] + [x == y for x, y in zip(sa.values, sb.values)]))
        return
    law = distribution(W, run)
    byset = {}
    for o, p in law.items():
        W.check(label + ": distinct features", len(set(o)) == m and len(o) == m)
        W.check(label + ": existing features", all(0 <= f < n for f in o))
        k = tuple(sorted(o))
        byset[k] = byset.get(k, 0) + p
    sets = list(itertools.combinations(range(n), m))
    W.check(label + ": every subset is equally likely",
            len(byset) == len(sets) and len(set(byset.values())) == 1)


def draw(W, cfg):
    n, m = cfg["n"], cfg["m"]
    f = pyf(W.mod(UTILS).sample_without_replacement)

    def run(source):
        # the pool keeps whatever earlier draws left in it
        pool = W.arr([(3 * i + 1) % n for i in range(n)], np.uintp)
        out = W.arr([0] * m, np.uintp)
        s = scripted(W, source, lambda: f(pool, out))
        return tuple(W.conc(out[i]) for i in range(m)), s
    uniform(W, n, m, run, "draw")


def make_context(W, clf, p, mf):
    n = 4
    cols = [[(i + j) % 2 for i in range(n)] for j in range(p)]
    fb = kern.bitarray(W, cols, [1] * p)
    c = W.mod(CTX)
    y, w = W.arr([0, 1, 0, 1], np.float32), W.arr([1] * n, np.float32)
    tr, va = W.arr([0, 1], np.uintp), W.arr([2, 3], np.uintp)
    isc = W.arr([False] * p, np.bool_)
    half = kern.frac(0.5) if W.symbolic else 0.5
    if clf:
        ctx = c.TreeClassifierContext(fb, y, w, tr, va, 2, mf, 100, 2, 1, True, half, 1.0,
                                      isc, 0, 0)
        return ctx, W.mod(NODE).NodeClassifierContext(ctx)
    ctx = c.TreeRegressorContext(fb, y, w, tr, va, mf, 100, 2, 1, True, 1.0, isc, 3)
    return ctx, W.mod(NODE).NodeRegressorContext(ctx)


def observe(W, n, m, f, ctx, nd):
    """Compiled code: the draws cannot be scripted, so look at many of them."""
    N = 2000
    seen = {}
    for _ in range(N):
        f(ctx, nd, 0, 2, 0, 2)
        o = tuple(sorted(int(v) for v in nd.features_sampled))
        seen[o] = seen.get(o, 0) + 1
    sets = list(itertools.combinations(range(n), m))
    W.check("node: distinct existing features", all(o in sets for o in seen))
    W.check("node: every subset is equally likely",
            all(abs(seen.get(o, 0) / N - 1 / len(sets)) < 0.08 for o in sets))


def node(W, cfg):
    """Candidate features of successive nodes: fresh, distinct, uniform each time."""
    n, m, clf = cfg["n"], cfg["m"], bool(cfg["clf"])
    nm = W.mod(NODE)
    f = (nm.compute_node_classifier_context if clf
         else nm.compute_node_regressor_context)
    ctx, nd = make_context(W, clf, n, m)
    if not W.symbolic:
        return observe(W, n, m, f, ctx, nd)
    for k in range(cfg["warm"]):
        # earlier nodes of the same tree, with arbitrary draws
        scripted(W, lambda i, low, high: W.conc(W.int("w%d_%d" % (k, i), low, high - 1)),
                 lambda: f(ctx, nd, 0, 2, 0, 2))

    keep = [W.conc(nd.features_pool[i]) for i in range(n)]

    def run(source):
        for i in range(n):
            nd.features_pool[i] = keep[i]
        s = scripted(W, source, lambda: f(ctx, nd, 0, 1, 0, 1))
        return tuple(W.conc(nd.features_sampled[i]) for i in range(
            nd.features_sampled.shape[0])), s
    if m == n:
        o, s = run(lambda i, low, high: low)
        W.same("all features are candidates", sorted(o), list(range(n)))
        return
    uniform(W, n, m, run, "node")


def _draw(tier):
    out = [dict(n=n, m=m) for n in (2, 3, 4, 5) for m in range(1, n + 1)
           if (n, m) not in ((4, 4), (5, 4), (5, 5), (5, 3))]
    out += [dict(n=n, m=1) for n in (6, 8)] + [dict(n=6, m=2)]
    if tier == "thorough":
        out += [dict(n=4, m=4), dict(n=5, m=3), dict(n=7, m=2)]
    return out


def _node(tier):
    out = []
    for clf in (0, 1):
        for n, m in ((1, 1), (2, 1), (2, 2), (3, 1), (3, 2), (3, 3), (4, 2)):
            for warm in (0, 1) if n < 4 else (0,):
                out.append(dict(n=n, m=m, clf=clf, warm=warm))
        if tier == "thorough":
            out += [dict(n=4, m=2, clf=clf, warm=1), dict(n=4, m=3, clf=clf, warm=0)]
    return out


HARNESSES = [
    Harness("draw", draw, lambda: _draw("quick"), lambda: _draw("thorough"),
            bounds="up to 8 features, up to 4 drawn, every vector of random numbers, compared "
            "pairwise", functions=["sample_without_replacement"], modules=[UTILS],
            stubs=["numpy.random.randint (solver-chosen)"]),
    Harness("node", node, lambda: _node("quick"), lambda: _node("thorough"),
            bounds="up to 4 features, first and second node of a tree, every vector of random "
            "numbers", functions=["compute_node_classifier_context",
                                  "compute_node_regressor_context", "NodeClassifierContext",
                                  "NodeRegressorContext"],
            modules=[NODE, CTX], stubs=["numpy.random.randint (solver-chosen)"]),
]
