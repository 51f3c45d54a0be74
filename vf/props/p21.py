"""P21: impurity criteria are the textbook quantities."""
import numpy as np

from .. import kern
from ..harness import Harness

IMP = "wildwood._impurity"
ASSUMPTIONS = ["weighted sums are non-negative and the total weight is positive",
               "log is an increasing function with log(1) = 0 (nothing else is assumed)"]


def sums(W, K, tag):
    s = [W.real("%s%d" % (tag, k), 0, 8) for k in range(K)]
    W.assume(kern.asum(s) > (0 if W.symbolic else 1e-3))
    return s


def gini(W, w, s):
    return 1 - kern.asum([x * x for x in s]) / (w * w)


def entropy(W, w, s):
    tot = 0
    for x in s:
        if W.is_true(x > 0):
            p = x / w
            tot = tot - p * W.log(p)
    return tot


def logfacts(W, w, s):
    """log x < 0 on (0, 1), log 1 = 0: the facts used for the sign of the entropy."""
    if not W.symbolic:
        return
    for x in s:
        if W.is_true(x > 0):
            p = x / w
            l = W.S.to_real_ast(W.log(p))
            pa = W.S.to_real_ast(p)
            W.e.assume_fact(W.z3.And(W.z3.Implies(pa < 1, l < 0),
                                     W.z3.Implies(pa == 1, l == 0)))


def clf(W, cfg):
    m = W.mod(IMP)
    K = cfg["K"]
    a, b = sums(W, K, "l"), sums(W, K, "r")
    wa, wb = kern.asum(a), kern.asum(b)
    A, B = W.arr(a, np.float32), W.arr(b, np.float32)
    ref = gini if cfg["crit"] == "gini" else entropy
    node = m.gini_node if cfg["crit"] == "gini" else m.entropy_node
    childs = m.gini_childs if cfg["crit"] == "gini" else m.entropy_childs
    if cfg["part"] == "def":
        ra, rb = ref(W, wa, a), ref(W, wb, b)
        W.eq("node impurity", node(K, wa, A), ra)
        l, r = childs(K, wa, wb, A, B)
        W.eq("left impurity", l, ra)
        W.eq("right impurity", r, rb)
        return
    if cfg["crit"] == "entropy":
        logfacts(W, wa, a)
    v = node(K, wa, A)
    l, r = childs(K, wa, wb, A, B)
    pure = W.any([x == wa for x in a])
    for name, x in (("node", v), ("left child", l)):
        if W.symbolic:
            t = W.S.to_real_ast(x)
            W.checks.append((name + " impurity is never negative", t >= 0, None))
            W.checks.append((name + " impurity is zero exactly for pure nodes",
                             (t == 0) == W.ast(pure), None))
        else:
            W.check(name + " impurity is never negative", x >= -1e-3)
            W.check(name + " impurity is zero exactly for pure nodes",
                    (not pure) or abs(x) < 1e-3)


def reg(W, cfg):
    """Variance from weighted sums of an actual sample: definition, sign, purity."""
    m = W.mod(IMP)
    n = cfg["n"]
    parts = []
    for t in "lr":
        y = [W.real("y%s%d" % (t, i), -4, 4) for i in range(n)]
        w = [W.real("w%s%d" % (t, i), 0.25, 4) if i < cfg["sw"] else 1 for i in range(n)]
        parts.append((y, w))
    vals = []
    for y, w in parts:
        wt = kern.asum(w)
        if not W.symbolic:
            wt = float(wt)
        elif isinstance(wt, int):
            wt = kern.frac(wt)
        s1 = kern.asum([a * b for a, b in zip(w, y)])
        s2 = kern.asum([a * b * b for a, b in zip(w, y)])
        mean = s1 / wt
        var = kern.asum([a * (b - mean) * (b - mean) for a, b in zip(w, y)]) / wt
        vals.append((wt, s1, s2, var, y))
    (wl, sl, ql, vl, yl), (wr, sr, qr, vr, yr) = vals
    v = m.mse_node(wl, sl, ql)
    W.eq("variance", v, vl)
    l, r = m.mse_childs(wl, wr, sl, sr, ql, qr)
    W.eq("left variance", l, vl)
    W.eq("right variance", r, vr)
    W.le("never negative", 0, v)
    if W.symbolic:
        W.check("zero exactly when all labels agree", W.iff(
            v == 0, W.all([y == yl[0] for y in yl[1:]])))


def gain(W, cfg):
    """The score orders two candidate splits as the impurity decrease does."""
    m = W.mod(IMP)
    w = W.real("w", 1, 64)
    wp = W.real("wp", 0.5, 64)
    W.assume(wp <= w)
    ip = W.real("ip", 0, 4)
    g, q, refs = [], [], []
    for c in "ab":
        wl = W.real("wl" + c, 0.125, 64)
        wr = wp - wl
        W.assume(wr > (0 if W.symbolic else 1e-2))
        il, ir = W.real("il" + c, 0, 4), W.real("ir" + c, 0, 4)
        q.append(m.information_gain_proxy(il, ir, wl, wr))
        g.append(m.information_gain(w, wp, wl, wr, ip, il, ir))
        refs.append((wp * ip - wl * il - wr * ir) / w)
        W.eq("gain is the weighted impurity decrease", g[-1], refs[-1], tol=1e-2)
    if W.symbolic:
        W.check("same order", W.iff(q[0] > q[1], refs[0] > refs[1]))
    else:
        far = abs(q[0] - q[1]) > 1e-2 and abs(refs[0] - refs[1]) * w > 1e-2
        W.check("same order", (not far) or ((q[0] > q[1]) == (refs[0] > refs[1])))


def _clf(tier):
    K = (2, 3) if tier == "quick" else (2, 3, 4)
    return [dict(K=k, crit=c, part=p) for k in K for c in ("gini", "entropy")
            for p in ("def", "sign")]


def _reg(tier):
    return [dict(n=n, sw=sw) for n in ((1, 2, 3) if tier == "quick" else (1, 2, 3, 4))
            for sw in (0, 1, 2) if sw <= n and not (n == 4 and sw == 2)]


HARNESSES = [
    Harness("clf", clf, lambda: _clf("quick"), lambda: _clf("thorough"),
            bounds="2-3 (4) classes, arbitrary non-negative weighted class sums",
            functions=["gini_node", "gini_childs", "entropy_node", "entropy_childs"],
            modules=[IMP]),
    Harness("reg", reg, lambda: _reg("quick"), lambda: _reg("thorough"),
            bounds="1-3 (4) samples with arbitrary labels and up to two arbitrary weights",
            functions=["mse_node", "mse_childs"], modules=[IMP]),
    Harness("gain", gain, [{}], bounds="arbitrary weights and impurities of two splits of "
            "one node", functions=["information_gain", "information_gain_proxy"],
            modules=[IMP]),
]
