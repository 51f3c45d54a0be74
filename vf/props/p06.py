"""P06: fitted trees are well-formed and respect the size limits."""
from ..harness import Harness
from .. import fit as ft

N = None


def shape(W, cfg):
    ft.shape(W, ft.fit(W, cfg))


def _cfgs(tier):
    big = tier == "thorough"
    out = []
    for clf in (1, 0):
        y = {} if clf else dict(ny=1)
        for cat in (0, 1):
            b = dict(clf=clf, cat=cat, vy=0, **y)
            # free bins
            out.append(dict(b, nt=3, nv=2, nb=3))
            out.append(dict(b, nt=4, nv=0, nb=3, agg=0, msl=1 + cat))
            # spread training bins, free validation bins
            for mss, msl, md in ((2, 1, None), (3, 1, None), (2, 2, None), (4, 2, None),
                                 (2, 1, 1), (2, 1, 2)):
                v = [N, N] if msl == 1 else [N, N, 1]
                out.append(dict(b, nt=4, nv=len(v), nb=4, bins=[[0, 1, 2, 3] + v],
                                mss=mss, msl=msl, md=md))
            out.append(dict(b, nt=6, nv=0, nb=6, agg=0, bins=[[5, 1, 4, 0, 2, 3]]))
            out.append(dict(b, nt=6, nv=0, nb=6, agg=0, bins=[[5, 1, 4, 0, 2, 3]], md=2))
            out.append(dict(b, nt=6, nv=0, nb=6, agg=0, bins=[[5, 1, 4, 0, 2, 3]], mss=3,
                            msl=2))
        out.append(dict(nt=4, nv=4, nb=4, p=2, clf=clf, cat=[0, 1], vy=0,
                        bins=[[0, 1, 2, 3, N, 0, 2, 1], [1, 0, 1, 0, 0, N, 1, 1]], **y))
        out.append(dict(nt=3, nv=2, nb=3, clf=clf, w="int", vy=0, bins=[[1, 0, 2, N, 0]],
                        **y))
        out.append(dict(nt=4, nv=4, nb=4, p=2, mf=1, clf=clf, cat=[0, 1], vy=0,
                        bins=[[0, 1, 2, 3, N, 0, 2, 1], [1, 0, 1, 0, 0, 0, 1, 1]], **y))
        out.append(dict(nt=3, nv=0, nb=3, p=3, mf=2, clf=clf, cat=[0, 1, 0], vy=0, agg=0,
                        md=None if big else 1,
                        bins=[[0, 1, 2], [1, 0, 1], [2, 0, 0]], **y))
    # chains deeper than the stack's first size, on either side
    for cat in (0, 1):
        for ys in ([2 ** i for i in range(14)], [2 ** (13 - i) for i in range(14)]):
            out.append(dict(nt=14, nv=0, nb=14, clf=0, cat=cat, agg=0, labels=ys,
                            bins=[list(range(14))]))
    # sample minima count samples, not weights
    for clf in (1, 0):
        out.append(dict(nt=5, nv=3, nb=4, clf=clf, ny=1, vy=0, w=0, msl=2,
                        wt=[3, 1, 0.25, 2, 0.5, 3, 0, 0.5],
                        bins=[[0, 1, 2, 2, 3, 0, 3, N]]))
        out.append(dict(nt=5, nv=0, nb=4, clf=clf, ny=1, agg=0, w=0, mss=4, msl=2,
                        wt=[3, 1, 0.25, 2, 0.5], bins=[[0, 1, 2, 2, 3]]))
    # arbitrary real labels
    for cat in (0, 1):
        out.append(dict(nt=4, nv=4, nb=4, clf=0, y="real", cat=cat,
                        bins=[[0, 1, 2, 3, 0, 1, 2, 3]]))
        out.append(dict(nt=4, nv=0, nb=4, clf=0, y="real", cat=cat, agg=0,
                        bins=[[0, 1, 2, 3]]))
    # three classes, entropy
    out.append(dict(nt=4, nv=4, nb=4, clf=1, K=3, crit=1, vy=0,
                    bins=[[0, 1, 2, 3, N, 3, 1, 2]]))
    out.append(dict(nt=4, nv=4, nb=4, clf=1, K=3, crit=0, cat=1, strat=1, vy=0,
                    bins=[[0, 1, 2, 3, N, 3, 1, 2]]))
    if big:
        for clf in (1, 0):
            for cat in (0, 1):
                for mss, msl in ((2, 1), (4, 1), (4, 2)):
                    out.append(dict(nt=6, nv=4, nb=6, clf=clf, cat=cat, vy=0, mss=mss,
                                    msl=msl, ny=1, bins=[[5, 1, 4, 0, 2, 3] + [N] * 3 + [2]]))
                    out.append(dict(nt=5, nv=0, nb=3, clf=clf, cat=cat, agg=0, ny=1,
                                    mss=mss, msl=msl))
    return out


HARNESSES = [Harness(
    "shape", shape, lambda: _cfgs("quick"), lambda: _cfgs("thorough"),
    bounds="3-6 training and 0-4 validation samples, 3-6 bins, 1-2 features, every label, "
    "depth limits none/1/2, split minima 2-4, leaf minima 1-2, both aggregation modes, "
    "numerical and categorical; arbitrary real labels for regression",
    functions=["TreeClassifier.fit", "TreeRegressor.fit", "grow", "push_record",
               "pop_node_record", "has_records", "find_node_split", "split_indices",
               "find_best_split_*_along_feature", "try_feature_order_for_classifier_split",
               "compute_node_*_context", "add_node_tree"],
    modules=["wildwood.tree"])]
