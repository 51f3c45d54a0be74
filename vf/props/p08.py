"""P08: the chosen split is the best admissible one."""
from .. import fit as ft, kern
from . import p14
from ..harness import Harness

N = None


def left_side(W, F, t):
    """The two sides of the root's split, as sets of bins."""
    nd = kern.read_nodes(W, t)[0]
    if nd.is_leaf or not nd.cat:
        return None
    left = frozenset(W.conc(v) for v in nd.partition)
    bins = frozenset(F.cols[0])
    return frozenset([left & bins, bins - left])


def drawn(W, cfg):
    """Strategy "random": the class whose rate orders the categories is drawn uniformly.
    The data are such that each class leads to another split."""
    F = ft.fit(W, dict(cfg, clf=1, cat=1, strat=2, agg=0, md=1))
    if not W.symbolic:
        seen = {}
        for k in range(400):
            F.seed = 1 + k
            o = left_side(W, F, ft.run_fit(W, F, ft.new_tree(W, F)))
            seen[o] = seen.get(o, 0) + 1
        W.check("every class is as likely to order the categories", len(seen) == F.K and all(
            abs(v / 400 - 1 / F.K) < 0.12 for v in seen.values()))
        return
    outs = []
    for c in "ab":
        def source(i, low, high, c=c):
            return W.int("%s%d" % (c, i), low, high - 1)
        t = ft.new_tree(W, F)
        s = p14.scripted(W, source, lambda: ft.run_fit(W, F, t))
        outs.append((left_side(W, F, t), s))
    (oa, sa), (ob, sb) = outs
    W.check("a split is found", oa is not None and ob is not None)
    tot = 1
    for low, high in sa.ranges:
        tot *= high - low
    W.check("every class is as likely to order the categories", tot == F.K)
    if oa == ob:
        W.check("every class is as likely to order the categories", W.all(
            [len(sa.values) == len(sb.values)]
            + [x == y for x, y in zip(sa.values, sb.values)]))


def _drawn(tier):
    # bins x classes: weight of the samples of a bin with a label; None: no sample
    tab = [[0, 1, 1], [3, 0, 2], [1, 2, 0], [1, 1, 3]]
    cells = [(b, k, w) for b, r in enumerate(tab) for k, w in enumerate(r) if w]
    out = []
    for perm in ((0, 1, 2), (2, 0, 1)):
        out.append(dict(nt=len(cells), nv=0, nb=4, K=3, bins=[[b for b, _, _ in cells]],
                        labels=[perm[k] for _, k, _ in cells],
                        wt=[w for _, _, w in cells]))
    return out


def best(W, cfg):
    ft.best(W, ft.fit(W, cfg))


def _cfgs(tier):
    big = tier == "thorough"
    out = []
    for cat in (0, 1):
        # all bins, all labels
        out.append(dict(nt=4, nv=0, nb=3, clf=1, cat=cat, agg=0, md=1))
        out.append(dict(nt=3, nv=2, nb=3, clf=1, cat=cat, vy=0, md=1))
        for msl in (1, 2):
            v = [N, N] if msl == 1 else [N, N, 1, 2]
            out.append(dict(nt=4, nv=len(v), nb=4, clf=1, cat=cat, vy=0, msl=msl,
                            bins=[[3, 0, 2, 1] + v]))
        out.append(dict(nt=6, nv=0, nb=6, clf=1, cat=cat, agg=0, bins=[[5, 0, 2, 1, 4, 3]]))
        out.append(dict(nt=6, nv=0, nb=6, clf=1, cat=cat, agg=0, msl=2,
                        bins=[[5, 0, 2, 1, 4, 3]]))
        out.append(dict(nt=5, nv=0, nb=4, clf=1, cat=cat, agg=0, crit=1, md=1,
                        bins=[[3, 0, 2, 1, 2]]))
        # weights
        out.append(dict(nt=3, nv=0, nb=3, clf=1, cat=cat, agg=0, w="real", md=1,
                        bins=[[2, 0, 1]]))
        out.append(dict(nt=4, nv=0, nb=3, clf=1, cat=cat, agg=0, w="int", md=1,
                        bins=[[2, 0, 1, 1]]))
        out.append(dict(nt=4, nv=0, nb=3, clf=0, cat=cat, agg=0, w="int", ny=2, md=1,
                        bins=[[2, 0, 1, 1]]))
        out.append(dict(nt=3, nv=0, nb=3, clf=0, cat=cat, agg=0, w="real", ny=2, md=1,
                        bins=[[2, 0, 1]]))
        out.append(dict(nt=5, nv=0, nb=3, clf=cat, cat=1, agg=0, ny=1, md=1,
                        bins=[[2, 0, 1, 1, 0]],
                        **(dict(w="int") if cat else dict(w=0, wt=[2, 1, 1, 3, 1]))))
        # regression: arbitrary real labels
        out.append(dict(nt=3, nv=0, nb=3, clf=0, cat=cat, agg=0, w="one", y="real", md=1,
                        bins=[[2, 0, 1]]))
        out.append(dict(nt=4, nv=0, nb=4, clf=0, cat=cat, agg=0, ny=2,
                        bins=[[2, 0, 1, 3]]))
        out.append(dict(nt=4, nv=3, nb=3, clf=0, cat=cat, ny=1, vy=0, md=1,
                        bins=[[2, 0, 1, 1, N, N, 0]]))
        out.append(dict(nt=4, nv=0, nb=4, clf=0, cat=cat, agg=0, y="real", md=1,
                        bins=[[2, 0, 1, 3]]))
        out.append(dict(nt=4, nv=2, nb=3, clf=0, cat=cat, ny=1, vy=0, w="one",
                        bins=[[2, 0, N, 1, N, N]]))
        # two features
        out.append(dict(nt=4, nv=3, nb=4, p=2, clf=1, cat=[cat, 0], vy=0,
                        bins=[[3, 0, 2, 1, N, 0, 2], [0, 1, 1, 0, 1, N, 0]]))
        out.append(dict(nt=4, nv=0, nb=3, p=2, clf=0, cat=[cat, 1], agg=0, y="real", md=1,
                        bins=[[0, 1, 1, 1], [0, 1, 0, 1]]))
    # feature subsampling
    for clf in (0, 1):
        out.append(dict(nt=4, nv=0, nb=4, p=2, mf=1, clf=clf, cat=[0, 1], agg=0, ny=1,
                        bins=[[3, 0, 2, 1], [0, 1, 2, 0]]))
        out.append(dict(nt=3, nv=2, nb=3, p=3, mf=2, clf=clf, cat=[0, 1, 0], ny=1, vy=0,
                        md=1, bins=[[0, 2, 1, 0, 2], [0, 1, 2, 1, 2], [0, 0, 1, 0, 1]]))
        if big:
            out.append(dict(nt=4, nv=3, nb=4, p=3, mf=2, clf=clf, cat=[0, 1, 0], ny=1, vy=0,
                            md=1, bins=[[3, 0, 2, 1, N, 0, 2], [0, 1, 2, 0, 1, 2, 0],
                                        [0, 0, 1, 1, 0, 1, 1]]))
    # categories of very different weights
    out.append(dict(nt=5, nv=0, nb=3, clf=1, cat=1, agg=0, md=1, bins=[[2, 0, 0, 1, 1]],
                    w=0, wt=[0.5, 2, 1, 1, 1.5]))
    out.append(dict(nt=6, nv=0, nb=3, clf=1, cat=1, agg=0, md=1, bins=[[1, 0, 0, 0, 2, 2]]))
    # strategies
    out.append(dict(nt=4, nv=0, nb=4, clf=1, K=3, cat=1, strat=2, agg=0, md=1,
                    bins=[[2, 0, 1, 3]]))
    out.append(dict(nt=5, nv=0, nb=3, clf=1, K=2, cat=1, strat=2, agg=0, md=1,
                    bins=[[2, 0, 1, 1, 0]]))
    out.append(dict(nt=4, nv=0, nb=4, clf=1, K=3, cat=1, strat=1, agg=0, md=1,
                    bins=[[2, 0, 1, 3]]))
    out.append(dict(nt=4, nv=0, nb=3, clf=1, K=3, cat=1, strat=1, agg=0, md=1,
                    bins=[[2, 0, 1, 1]], w="int"))
    if big:
        for cat in (0, 1):
            out.append(dict(nt=5, nv=0, nb=3, clf=1, cat=cat, agg=0))
            out.append(dict(nt=4, nv=3, nb=3, clf=1, cat=cat, vy=0, md=1))
            out.append(dict(nt=5, nv=0, nb=5, clf=0, cat=cat, agg=0, y="real", md=1,
                            bins=[[2, 0, 1, 3, 4]]))
            out.append(dict(nt=4, nv=0, nb=3, clf=1, cat=cat, agg=0, w="real", md=1,
                            bins=[[2, 0, 1, 1]]))
            out.append(dict(nt=5, nv=4, nb=5, clf=1, cat=cat, vy=0, msl=2,
                            bins=[[2, 0, 1, 3, 4, N, N, N, 1]]))
    return out


HARNESSES = [Harness(
    "best", best, lambda: _cfgs("quick"), lambda: _cfgs("thorough"),
    bounds="nodes of 3-6 training and 0-4 validation samples, 3-6 bins, 1-2 features, all "
    "labels (real for regression), numerical and categorical features, strategies binary "
    "and all, gini/entropy/mse, leaf minima 1-2, weights 1, 1-2 or real",
    functions=["find_node_split", "find_best_split_classifier_along_feature",
               "try_feature_order_for_classifier_split",
               "find_best_split_regressor_along_feature", "gini_childs", "entropy_childs",
               "mse_childs", "information_gain_proxy", "compute_bin_partition"],
    stubs=["log_sum_2_exp (weights are P09)"],
    modules=["wildwood.tree"]), Harness(
    "drawn", drawn, lambda: _drawn("quick"), lambda: _drawn("thorough"),
    bounds="one node of 9 samples of three classes and four categories, any draw",
    functions=["find_best_split_classifier_along_feature",
               "try_feature_order_for_classifier_split"],
    stubs=["numpy.random.randint (solver-chosen)", "log_sum_2_exp (weights are P09)"],
    modules=["wildwood.tree"])]
