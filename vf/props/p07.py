"""P07: every node records the prediction and validation loss of its samples."""
from .. import fit as ft
from ..harness import Harness

N = None


def node(W, cfg):
    ft.stats(W, ft.fit(W, cfg))


def _root(tier):
    big = tier == "thorough"
    out = []
    for nt, nv in ((1, 1), (2, 2), (3, 2)) + (((4, 3),) if big else ()):
        for p in (1, 2):
            for agg in (1, 0):
                b = [[k % 3 for k in range(nt + nv)], [(2 * k + 1) % 3 for k in
                                                       range(nt + nv)]][:p]
                out.append(dict(nt=nt, nv=nv, nb=3, p=p, clf=0, md=0, agg=agg, bins=b,
                                w="real", y="real"))
                for K in (2, 3):
                    if nt + nv > 4 and (K == 3 or p == 2) and not big:
                        continue
                    out.append(dict(nt=nt, nv=nv, nb=3, p=p, clf=1, md=0, agg=agg, bins=b,
                                    w="real", K=K, sdir=1))
    # feature subsampling: the node must not depend on which features are drawn
    for nt, nv, p, mf in ((2, 2, 2, 1), (1, 2, 3, 2)):
        b = [[(k + j) % 3 for k in range(nt + nv)] for j in range(p)]
        out.append(dict(nt=nt, nv=nv, nb=3, p=p, mf=mf, clf=0, md=0, bins=b, w="real",
                        y="real"))
        out.append(dict(nt=nt, nv=nv, nb=3, p=p, mf=mf, clf=1, md=0, bins=b, w="real",
                        sdir=1))
    return out


def _deep(tier):
    big = tier == "thorough"
    out = []
    for cat in (0, 1):
        out.append(dict(nt=3, nv=3, nb=3, clf=0, cat=cat, bins=[[0, 1, 2, 2, 1, 0]],
                        w="valid", y="real"))
        out.append(dict(nt=4, nv=0, nb=4, clf=0, cat=cat, bins=[[2, 0, 1, 3]], agg=0,
                        y="real"))
        out.append(dict(nt=3, nv=3, nb=3, clf=1, cat=cat, bins=[[0, 1, 2, 2, 1, 0]],
                        w="valid", sdir=1))
        out.append(dict(nt=3, nv=2, nb=3, clf=1, cat=cat, bins=[[0, 2, 1, N, 1]], w="int",
                        vy=0))
        out.append(dict(nt=3, nv=2, nb=3, clf=0, cat=cat, bins=[[0, 2, 1, N, 1]], w="int",
                        ny=1))
        out.append(dict(nt=3, nv=2, nb=2, clf=1, cat=cat, bins=[[0, 1, 1, 0, 1]], w="real"))
        out.append(dict(nt=3, nv=2, nb=2, clf=0, cat=cat, bins=[[0, 1, 1, 0, 1]], w="real",
                        y="real"))
        out.append(dict(nt=3, nv=3, nb=3, p=2, clf=1, cat=[cat, 1 - cat], sdir=1, vy=0,
                        w="valid", bins=[[0, 1, 2, 2, 1, 0], [1, 1, 0, 0, 1, 1]]))
        for clf in (0, 1):
            out.append(dict(nt=3, nv=3, nb=3, p=3, mf=2, clf=clf, cat=[cat, 1 - cat, 0],
                            vy=0, w="valid", md=1, ny=1, bins=[
                                [0, 1, 2, 2, 1, 0], [1, 1, 0, 0, 1, 1],
                                [0, 0, 1, 1, 0, 0]]))
            if big:
                out.append(dict(nt=3, nv=3, nb=3, p=2, mf=1, clf=clf, cat=[cat, 1 - cat],
                                vy=0, w="valid", ny=2, bins=[
                                    [0, 1, 2, 2, 1, 0], [1, 1, 0, 0, 1, 1]]))
        if big:
            out.append(dict(nt=4, nv=4, nb=4, clf=1, cat=cat, w="valid", sdir=1,
                            bins=[[0, 1, 2, 3, 0, 1, 2, 3]]))
            out.append(dict(nt=4, nv=4, nb=4, clf=0, cat=cat, w="valid", y="real",
                            bins=[[0, 1, 2, 3, 0, 1, 2, 3]]))
            out.append(dict(nt=4, nv=3, nb=3, clf=0, cat=cat, w="real", ny=1,
                            bins=[[0, 1, 2, 2, 0, 1, 2]]))
            out.append(dict(nt=3, nv=3, nb=3, clf=1, K=3, crit=1, cat=cat, sdir=1,
                            bins=[[0, 1, 2, 2, 0, 1]], w="valid"))
            out.append(dict(nt=3, nv=2, nb=3, clf=1, cat=cat, bins=[[0, 1, 2, 0, 2]],
                            w="real"))
    return out


F1 = ["compute_node_classifier_context", "compute_node_regressor_context", "add_node_tree",
      "grow", "TreeClassifier.fit", "TreeRegressor.fit"]
HARNESSES = [
    Harness("root", node, lambda: _root("quick"), lambda: _root("thorough"),
            bounds="one node of 1-3 (4) training and 1-2 (3) validation samples, 1-2 "
            "features, all labels, arbitrary real weights, labels (regression) and smoothing",
            functions=F1, modules=["wildwood.tree"]),
    Harness("deep", node, lambda: _deep("quick"), lambda: _deep("thorough"),
            bounds="whole trees on 3-4 + 0-4 samples; arbitrary labels, smoothing, weights "
            "(real on validation samples, 1 or 2 on all, or real on all for two bins)",
            functions=F1 + ["find_node_split", "split_indices"],
            stubs=["log_sum_2_exp (weights are P09)"], modules=["wildwood.tree"]),
]
