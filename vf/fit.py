"""Fitting one real tree on a small data set whose bins, labels and weights are solver
variables, and the checks that the fitted tree must satisfy (used by several properties)."""
import numpy as np

from . import kern


class Fitted:
    pass


def fit(W, cfg, before=None):
    """cfg: nt, nv (train/validation samples), p features, nb bins, clf, K classes, cat,
    agg, mss, msl, md (max depth), crit, strat, w ('one'|'real'), y ('int'|'real'),
    fixbins: concrete bins."""
    nt, nv, p, nb = cfg["nt"], cfg["nv"], cfg.get("p", 1), cfg["nb"]
    n = nt + nv
    clf = bool(cfg["clf"])
    K = cfg.get("K", 2)
    F = Fitted()
    F.cfg, F.n, F.clf, F.K, F.nb, F.p = cfg, n, clf, K, nb, p
    # sample numbering is unrelated to membership
    order = list(range(n))[::-1]
    F.train, F.valid = order[:nt], order[nt:]
    fixed = cfg.get("bins")
    F.cols = []
    for j in range(p):
        col = [0] * n
        for k, i in enumerate(F.train + F.valid):
            if fixed is not None and fixed[j][k] is not None:
                col[i] = fixed[j][k]
            else:
                col[i] = W.conc(W.int("x%d_%d" % (i, j), 0, nb - 1))
        F.cols.append(col)
    F.y = [0] * n
    for i in range(n):
        if cfg.get("labels"):
            F.y[i] = cfg["labels"][(F.train + F.valid).index(i)]
        elif clf:
            F.y[i] = W.conc(W.int("y%d" % i, 0, K - 1)) if (
                i in F.train or cfg.get("vy", 1)) else 0
        elif cfg.get("y") == "real":
            F.y[i] = W.real("y%d" % i, -4, 4)
        else:
            F.y[i] = W.conc(W.int("y%d" % i, 0, cfg.get("ny", 2))) if (
                i in F.train or cfg.get("vy", 1)) else 1
    F.w = [1] * n
    for i in range(n):
        kind = cfg.get("w", "one")
        if kind == "real" or (kind == "first" and i == F.train[0]) or (
                kind == "valid" and i in F.valid):
            F.w[i] = W.real("w%d" % i, 0.25, 4)
        elif kind == "int":
            F.w[i] = W.conc(W.int("w%d" % i, 1, 2))
        elif cfg.get("wt"):
            F.w[i] = cfg["wt"][(F.train + F.valid).index(i)]
    if W.symbolic:  # exact divisions in the reference formulas
        F.w = [kern.frac(v) if isinstance(v, (int, float)) else v for v in F.w]
        if not clf:
            F.y = [kern.frac(v) if isinstance(v, int) else v for v in F.y]
    F.dirichlet = W.real("dirichlet", 0.125, 4) if cfg.get("sdir") else 0.5
    F.step = W.real("step", 0.125, 4) if cfg.get("sstep") else 1.0
    cat = cfg.get("cat", 0)
    F.cat = [bool(cat)] * p if not isinstance(cat, (list, tuple)) else [bool(c) for c in cat]
    F.agg, F.mss, F.msl = bool(cfg.get("agg", 1)), cfg.get("mss", 2), cfg.get("msl", 1)
    F.md = cfg.get("md")
    F.crit = cfg.get("crit", 0 if clf else 3)
    F.strat = cfg.get("strat", 0)
    F.mf = cfg.get("mf")
    F.seed = 1 if F.mf is None and F.strat != 2 else W.seed("seed")
    F.maxv = [nb - 1] * p
    if cfg.get("maxv"):
        F.maxv = cfg["maxv"]
    if before is not None:
        before(W)
    if not cfg.get("weights"):
        # the aggregation weights are the subject of P09, not of these checks
        W.spatch("wildwood._grow", "log_sum_2_exp", lambda a, b: kern.frac(0))
    F.fb = kern.bitarray(W, F.cols, F.maxv)
    build(W, F)
    return F


def new_tree(W, F, step=None, dirichlet=None):
    return kern.make_tree(
        W, F.clf, F.cat, n_classes=F.K, criterion=F.crit,
        step=F.step if step is None else step, aggregation=F.agg,
        dirichlet=F.dirichlet if dirichlet is None else dirichlet, max_depth=F.md,
        mss=F.mss, msl=F.msl, strategy=F.strat,
        max_features=getattr(F, 'mf', None), seed=getattr(F, 'seed', 1))


def run_fit(W, F, t):
    t.fit(F.fb, W.arr(F.y, np.float32), W.arr(F.train, np.uintp),
          W.arr(F.valid, np.uintp), W.arr(F.w, np.float32))
    return t


def build(W, F):
    F.tree = run_fit(W, F, new_tree(W, F))
    F.nodes = kern.read_nodes(W, F.tree)
    F.ok = kern.structure(W, F.nodes)
    F.tr = kern.samples(W, F.tree, "train")
    F.va = kern.samples(W, F.tree, "valid")


def row(F, i):
    return [c[i] for c in F.cols]


def own(F, nd):
    return F.tr[nd.start_train:nd.end_train], F.va[nd.start_valid:nd.end_valid]


# ---------------------------------------------------------------- the checks
def route(W, F):
    W.check("the nodes form one binary tree", F.ok)
    if not F.ok:
        return
    W.same("training samples kept", sorted(F.tr), sorted(F.train))
    W.same("validation samples kept", sorted(F.va), sorted(F.valid))
    leaf = {}
    for nd in F.nodes:
        a, b = own(F, nd)
        if nd.is_leaf:
            for i in a + b:
                leaf[i] = nd.id
            continue
        L, R = F.nodes[nd.left_child], F.nodes[nd.right_child]
        for k in (0, 1):
            W.same("children divide their parent's samples",
                   sorted(own(F, L)[k] + own(F, R)[k]), sorted(own(F, nd)[k]))
            for i in own(F, L)[k]:
                W.check("left samples satisfy the split", kern.goes_left(W, nd, row(F, i)))
            for i in own(F, R)[k]:
                W.check("right samples do not satisfy the split",
                        W.no(kern.goes_left(W, nd, row(F, i))))
    out = F.tree.apply(F.fb)
    for i in range(F.n):
        W.same("prediction reaches the leaf holding the sample",
               W.conc(out[i]), leaf.get(i, -1))


def shape(W, F):
    W.check("the nodes form one binary tree", F.ok)
    if not F.ok:
        return
    N = F.nodes
    W.same("root holds everything", (N[0].start_train, N[0].end_train, N[0].start_valid,
                                     N[0].end_valid, N[0].depth),
           (0, len(F.train), 0, len(F.valid), 0))
    for nd in N:
        a, b = own(F, nd)
        W.same("recorded sample counts", (nd.n_samples_train, nd.n_samples_valid),
               (len(a), len(b)))
        if F.md is not None:
            W.check("depth limit", nd.depth <= F.md)
        if nd.is_leaf:
            continue
        L, R = N[nd.left_child], N[nd.right_child]
        W.same("child ranges are consecutive parts of the parent's",
               sorted([(L.start_train, L.end_train), (R.start_train, R.end_train)]),
               [(nd.start_train, min(L.end_train, R.end_train)),
                (max(L.start_train, R.start_train), nd.end_train)])
        W.same("ranges meet (train)", min(L.end_train, R.end_train),
               max(L.start_train, R.start_train))
        W.same("ranges meet (valid)", sorted(
            [L.start_valid, L.end_valid, R.start_valid, R.end_valid])[0::3],
            [nd.start_valid, nd.end_valid])
        W.same("valid counts add up", L.n_samples_valid + R.n_samples_valid,
               nd.n_samples_valid)
        W.check("split minimum (train)", len(a) >= F.mss)
        for c in (L, R):
            W.check("leaf minimum (train)", len(own(F, c)[0]) >= F.msl)
            if F.agg:
                W.check("leaf minimum (valid)", len(own(F, c)[1]) >= F.msl)
        if F.agg:
            W.check("split minimum (valid)", len(b) >= F.mss)
        if nd.id != 0:
            # the impurity of the root is unknown to the code (it is taken as infinite)
            if F.clf:
                W.check("pure nodes are leaves", len({F.y[i] for i in a}) > 1)
            elif W.symbolic or F.cfg.get("y") != "real":
                # (rounding may leave a tiny variance: exact only in the model)
                W.check("pure nodes are leaves", W.any(
                    [W.no(F.y[i] == F.y[a[0]]) for i in a[1:]]))


def node_pred(W, F, a, dirichlet=None):
    d = F.dirichlet if dirichlet is None else dirichlet
    if W.symbolic and isinstance(d, float):
        d = kern.frac(d)
    wt = kern.asum([F.w[i] for i in a])
    if F.clf:
        return [(kern.asum([F.w[i] for i in a if F.y[i] == k]) + d) / (wt + F.K * d)
                for k in range(F.K)]
    return kern.asum([F.w[i] * F.y[i] for i in a]) / wt


def node_loss(W, F, b, pred):
    if F.clf:
        return kern.asum([-1 * F.w[i] * W.log(pred[F.y[i]]) for i in b])
    return kern.asum([F.w[i] * (F.y[i] - pred) * (F.y[i] - pred) for i in b])


def stats(W, F, dirichlet=None, nodes=None):
    if not F.ok:
        W.check("the nodes form one binary tree", False)
        return
    for nd in nodes or F.nodes:
        a, b = own(F, nd)
        W.eq("training weight", nd.w_samples_train, kern.asum([F.w[i] for i in a]))
        W.same("sample counts", (nd.n_samples_train, nd.n_samples_valid),
               (len(a), len(b)))
        pred = node_pred(W, F, a, dirichlet)
        if F.clf:
            for k in range(F.K):
                W.eq("class frequency", nd.y_pred[k], pred[k])
        else:
            W.eq("mean label", nd.y_pred, pred)
        if F.agg:
            W.eq("validation weight", nd.w_samples_valid,
                 kern.asum([F.w[i] for i in b]))
            W.eq("validation loss", nd.loss_valid, node_loss(W, F, b, pred))


def impurity(W, F, a):
    wt = kern.asum([F.w[i] for i in a])
    if F.clf:
        return kern.impurity_clf(W, F.crit, wt, [
            kern.asum([F.w[i] for i in a if F.y[i] == k]) for k in range(F.K)]), wt
    return kern.impurity_reg(wt, kern.asum([F.w[i] * F.y[i] for i in a]),
                             kern.asum([F.w[i] * F.y[i] * F.y[i] for i in a])), wt


def orders(W, F, j, a, only=None):
    """The orders of the non-empty bins along which cuts are admissible: lists of lists of
    bins; ties in a categorical order leave several orders possible (None: any)."""
    bins = sorted({F.cols[j][i] for i in a})
    if not F.cat[j]:
        return [(bins, None)]
    out = []

    def rate(k):
        r = []
        for v in bins:
            s = [i for i in a if F.cols[j][i] == v]
            wt = kern.asum([F.w[i] for i in s])
            if F.clf:
                r.append(kern.asum([F.w[i] for i in s if F.y[i] == k]) / wt)
            else:
                r.append(kern.asum([F.w[i] * F.y[i] for i in s]) / wt)
        return r
    ks = range(F.K) if (F.clf and F.strat == 1) else [1]
    if only is not None:
        ks = [only]
    for k in ks:
        out.append((bins, rate(k)))
    return out


def cuts(W, F, j, a, only=None):
    """Every admissible left side (as a set of bins): prefixes of an order."""
    res = []
    for bins, rate in orders(W, F, j, a, only):
        if rate is None:
            for c in range(1, len(bins)):
                res.append((bins[:c], True))
            continue
        m = len(bins)
        for mask in range(1, 2 ** m - 1):
            left = [k for k in range(m) if mask >> k & 1]
            right = [k for k in range(m) if not mask >> k & 1]
            res.append(([bins[k] for k in left], W.all(
                [rate[x] < rate[z] for x in left for z in right])))
    return res


def sides(W, F, cs, j, a, b):
    """(condition, impurity) of the admissible cuts among cs, for a categorical feature."""
    for left, cond in cs:
        A = [i for i in a if F.cols[j][i] in left]
        B = [i for i in a if F.cols[j][i] not in left]
        nvl = len([i for i in b if F.cols[j][i] in left])
        if min(len(A), len(B)) < F.msl or (F.agg and min(nvl, len(b) - nvl) < F.msl):
            continue
        i1, w1 = impurity(W, F, A)
        i2, w2 = impurity(W, F, B)
        yield cond, w1 * i1 + w2 * i2


def best(W, F):
    """Splits are made when possible and are the best admissible ones."""
    if not F.ok:
        W.check("the nodes form one binary tree", False)
        return
    for nd in F.nodes:
        a, b = own(F, nd)
        may = len(a) >= F.mss and (not F.agg or len(b) >= F.mss) and (
            F.md is None or nd.depth < F.md)
        if nd.id != 0 and may:
            pure = (len({F.y[i] for i in a}) == 1) if F.clf else W.all(
                [F.y[i] == F.y[a[0]] for i in a[1:]])
        else:
            pure = False
        chosen = None
        if not nd.is_leaf:
            la, lb = own(F, F.nodes[nd.left_child])
            ra, rb = own(F, F.nodes[nd.right_child])
            il, wl = impurity(W, F, la)
            ir, wr = impurity(W, F, ra)
            W.eq("left impurity", F.nodes[nd.left_child].impurity, il)
            W.eq("right impurity", F.nodes[nd.right_child].impurity, ir)
            chosen = wl * il + wr * ir
            if nd.cat:
                W.check("the split feature is categorical", F.cat[nd.feature])
                W.check("category subsets are not empty", len(nd.partition) >= 1)
            if nd.cat:
                W.check("the categories of the left side come first in an admissible order",
                        W.any([W.all([rate[x] <= rate[z] + (0 if W.symbolic else 1e-4)
                                      for x in range(len(bins)) for z in range(len(bins))
                                      if (bins[x] in nd.partition) and
                                      (bins[z] not in nd.partition)])
                               for k in (range(F.K) if F.clf and F.strat == 2 else [None])
                               for bins, rate in orders(W, F, nd.feature, a, k)]))
        if not may:
            continue
        if F.mf is not None and F.mf < F.p and nd.is_leaf:
            continue    # the features drawn may have had no admissible split
        for j in range(F.p):
            if F.mf is not None and F.mf < F.p and j != nd.feature:
                continue    # perhaps not drawn
            if F.cat[j] and F.clf and F.strat == 2:
                # the order is drawn: the split is the best one of some class's order
                if nd.is_leaf or j != nd.feature:
                    continue
                W.check("no admissible split of the drawn order is better", W.any([
                    W.all([W.implies(cond, chosen <= other + (0 if W.symbolic else 1e-3))
                           for cond, other in sides(W, F, cuts(W, F, j, a, k), j, a, b)])
                    for k in range(F.K)]))
                continue
            for left, cond in cuts(W, F, j, a):
                A = [i for i in a if F.cols[j][i] in left]
                B = [i for i in a if F.cols[j][i] not in left]
                if F.cat[j]:
                    VA = [i for i in b if F.cols[j][i] in left]
                else:
                    VA = [i for i in b if F.cols[j][i] <= left[-1]]
                nvl, nvr = len(VA), len(b) - len(VA)
                if min(len(A), len(B)) < F.msl or (F.agg and min(nvl, nvr) < F.msl):
                    continue
                if nd.is_leaf:
                    W.check("a node with an admissible split is split",
                            W.implies(cond, pure))
                    continue
                i1, w1 = impurity(W, F, A)
                i2, w2 = impurity(W, F, B)
                other = w1 * i1 + w2 * i2
                if cond is True:
                    W.le("no admissible split is better", chosen, other)
                else:
                    W.check("no admissible split is better", W.implies(
                        cond, chosen <= other + (0 if W.symbolic else 1e-3)))
