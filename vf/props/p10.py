"""P10: forest outputs are proper averages of its trees' predictions."""
from fractions import Fraction

import numpy as np

from .. import forest as fo, kern
from ..harness import Harness

TOL = Fraction(1, 10 ** 5)
EPS = float(np.finfo("float32").eps)


def sorted_labels(K, text, W):
    return [W.letter(i) for i in range(K)] if text else [-5 + 4 * i for i in range(K)]


def close(W, what, a, b):
    W.check(what, W.all([a - b <= TOL, b - a <= TOL]))


def classifier(W, cfg):
    K, ne, n, ovr = cfg["K"], cfg["ne"], cfg["n"], bool(cfg["ovr"])
    E = fo.Env(W)
    f = E.new(True, n_estimators=ne, multiclass="ovr" if ovr else "multinomial")
    labels = sorted_labels(K, cfg["text"], W)
    # K labels given in an order that is not sorted
    nfit = K + 1
    given = list(range(1, K)) + [0, 0]
    y = E.array([labels[i] for i in given], cfg["text"])
    f.fit(E.X(nfit), y)
    nt = ne * K if ovr and K > 2 else ne
    W.same("number of trees", len(E.trees), nt)
    kc = 2 if ovr and K > 2 else K
    if kc < K:   # the class each tree was trained on
        cls = []
        for t in E.trees:
            pos = {k for k, v in zip(given, t.fits[0]["y"]) if W.conc(v) == 1}
            W.same("one class per tree", len(pos), 1)
            cls.append(pos.pop())
    q = {}
    for t in range(nt):
        for i in range(n):
            v = [W.real("q%d_%d_%d" % (t, i, k), 0, 1) for k in range(kc - 1)]
            if cfg.get("zero") and i == 0:
                v = [1 - kern.frac(0) if W.symbolic else 1.0]  # nobody votes for a class
            v.append(1 - kern.asum(v))
            if kc > 2:
                W.assume(v[-1] >= 0)
            q[t, i] = v
    fo.StubTree.table = staticmethod(lambda t, r: q[t, r])
    P = f.predict_proba(E.X(n))
    W.same("one row per sample, one column per class", tuple(P.shape), (n, K))
    for i in range(n):
        row = [P[i, k] for k in range(K)]
        for k in range(K):
            W.le("non-negative", 0, row[k])
        close(W, "probabilities sum to one", kern.asum(row), 1)
        if not (ovr and K > 2):
            for k in range(K):
                W.eq("mean of the trees", row[k] * nt, kern.asum(
                    [q[t, i][k] for t in range(nt)]))
        else:
            votes = [kern.asum([q[t, i][1] for t in range(nt) if cls[t] == c]) for c in range(K)]
            tot = kern.asum(votes)
            if W.is_true(tot <= EPS):
                for k in range(K):
                    close(W, "uniform when no class is voted for", row[k] * K, 1)
            else:
                for k in range(K):
                    W.eq("votes normalised", row[k] * tot, votes[k])
    L = f.predict(E.X(n))
    W.same("one label per sample", len(L), n)
    cl = list(f.classes_)
    W.same("number of classes", len(cl), K)
    for i in range(n):
        got = [k for k in range(K) if W.is_true(L[i] == labels[k])]
        W.check("the label is one of the user's", len(got) == 1)
        for k in range(K):
            W.le("the label's probability is the largest", P[i, k], P[i, got[0]])


def regressor(W, cfg):
    ne, n = cfg["ne"], cfg["n"]
    E = fo.Env(W)
    f = E.new(False, n_estimators=ne)
    f.fit(E.X(3), W.arr([1.0, 2.0, 3.0], np.float64))
    W.same("number of trees", len(E.trees), ne)
    q = {(t, i): W.real("q%d_%d" % (t, i), -8, 8) for t in range(ne) for i in range(n)}
    fo.StubTree.table = staticmethod(lambda t, r: q[t, r])
    P = f.predict(E.X(n))
    W.same("one prediction per sample", tuple(P.shape), (n,))
    for i in range(n):
        W.eq("mean of the trees", P[i] * ne, kern.asum([q[t, i] for t in range(ne)]))
        W.check("within the range of the trees", W.all([
            W.any([P[i] <= q[t, i] + Fraction(1, 10 ** 4) for t in range(ne)]),
            W.any([q[t, i] - Fraction(1, 10 ** 4) <= P[i] for t in range(ne)])]))


def _clf(tier):
    out = []
    big = tier != "quick"
    for K in (2, 3) if not big else (2, 3, 4):
        for ne in (1, 2, 3) if not big else (1, 2, 3, 5):
            for text in (0, 1):
                out.append(dict(K=K, ne=ne, n=1 + (ne == 2), ovr=0, text=text))
    for K, ne in ((2, 1), (2, 2), (3, 1), (3, 2)) + (((4, 1), (3, 3), (4, 2)) if big else ()):
        out.append(dict(K=K, ne=ne, n=1, ovr=1, text=K == 3))
        if K > 2:
            out.append(dict(K=K, ne=ne, n=2, ovr=1, text=0, zero=1))
    out.append(dict(K=4, ne=1, n=2, ovr=0, text=0))
    out.append(dict(K=2, ne=3, n=1, ovr=0, text=0, nj=2, vb=1))
    out.append(dict(K=3, ne=1, n=1, ovr=1, text=0, nj=2, vb=1))
    return out


FN = ["ForestClassifier.predict_proba", "ForestClassifier.predict", "_accumulate_prediction",
      "ForestRegressor.predict", "ForestBase._predict_helper"]
STUBS = ["trees answer arbitrary numbers", "encoder", "joblib.Parallel runs the tasks",
         "scikit-learn helpers replaced by contracts (symbolic runs only)"]
HARNESSES = [
    Harness("classifier", classifier, lambda: _clf("quick"), lambda: _clf("thorough"),
            bounds="2-4 classes, 1-3 (thorough: 5) trees per forest or per class, 1-2 "
            "samples, any tree probabilities", functions=FN, stubs=STUBS,
            modules=["wildwood.forest"]),
    Harness("regressor", regressor,
            [dict(ne=e, n=1 + e % 2) for e in (1, 2, 3)],
            [dict(ne=e, n=1 + e % 2) for e in (1, 2, 3, 5, 8)],
            bounds="1-3 (thorough 8) trees, 1-2 samples, any tree predictions",
            functions=FN, stubs=STUBS, modules=["wildwood.forest"]),
]
