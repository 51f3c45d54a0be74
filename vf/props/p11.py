"""P11: changing step or smoothing after fitting equals refitting with it."""
import numpy as np

from .. import fit as ft, forest as fo, kern
from ..harness import Harness

ASSUMPTIONS = ["log and log_sum_2_exp are functions of their arguments (their meaning is "
               "the subject of P07 and P09)"]
SEQS = ("s", "d", "sd", "ds", "dd", "ss", "sds", "dsd", "sS", "dD")


def lse_stub(W):
    if not W.symbolic:
        return
    f = W.z3.Function("LSE2", W.z3.RealSort(), W.z3.RealSort(), W.z3.RealSort())
    S = W.S

    def lse(a, b):
        return S.mkreal(f(S.to_real_ast(a), S.to_real_ast(b)))
    W.spatch("wildwood._grow", "log_sum_2_exp", lse)


def same_tree(W, F, a, b):
    na, nb = kern.read_nodes(W, a), kern.read_nodes(W, b)
    W.same("same nodes", [(n.parent, n.left_child, n.right_child, n.is_leaf, n.feature)
                          for n in na],
           [(n.parent, n.left_child, n.right_child, n.is_leaf, n.feature) for n in nb])
    for x, y in zip(na, nb):
        if F.clf:
            for k in range(F.K):
                W.eq("node prediction", x.y_pred[k], y.y_pred[k])
        else:
            W.eq("node prediction", x.y_pred, y.y_pred)
        if F.agg:
            W.eq("node loss", x.loss_valid, y.loss_valid)
            W.eq("node weight", x.log_weight_tree, y.log_weight_tree)
    W.eq("reported step", a.step, b.step)
    if F.clf:
        W.eq("reported smoothing", a.dirichlet, b.dirichlet)


def change(W, cfg):
    F = ft.fit(W, dict(cfg, sdir=cfg["clf"], sstep=1, weights=1, post=1), before=lse_stub)
    t = F.tree
    step, dirichlet = F.step, F.dirichlet
    for j, c in enumerate(cfg["seq"]):
        if c == "s":
            step = W.real("step_%d" % j, 0.125, 4)
            t.step = step
        elif c == "d":
            dirichlet = W.real("dirichlet_%d" % j, 0.125, 4)
            t.dirichlet = dirichlet
        elif c == "S":      # back to the first value
            step = F.step
            t.step = step
        else:
            dirichlet = F.dirichlet
            t.dirichlet = dirichlet
    ref = ft.run_fit(W, F, ft.new_tree(W, F, step=step, dirichlet=dirichlet))
    same_tree(W, F, t, ref)
    if not W.symbolic:
        import numpy as np
        p = t.predict_proba(F.fb) if F.clf else t.predict(F.fb)
        q = ref.predict_proba(F.fb) if F.clf else ref.predict(F.fb)
        W.check("same predictions", bool(np.allclose(p, q, atol=1e-4)))


def forest(W, cfg):
    """Changes made on a fitted forest reach every one of its trees."""
    clf, ovr, ne = cfg["clf"], bool(cfg.get("ovr")), cfg["ne"]
    E = fo.Env(W)
    agg = W.flag("agg")
    kw = dict(n_estimators=ne, aggregation=agg)
    step = kw["step"] = W.pfloat("step", 0.125, 4)
    dirichlet = None
    if clf:
        dirichlet = kw["dirichlet"] = W.pfloat("dirichlet", 0.125, 4)
        kw["multiclass"] = "ovr" if ovr else "multinomial"
    f = E.new(clf, **kw)
    first = step, dirichlet
    K = 3 if ovr else 2
    if clf:
        f.fit(E.X(K + 1), W.arr([i % K for i in range(K + 1)], np.int64))
    else:
        f.fit(E.X(3), W.arr([1.0, 2.0, 3.0], np.float64))
    W.same("number of trees", len(f.trees), ne * K if ovr else ne)
    for j, c in enumerate(" " + cfg["seq"]):
        if c == "s":
            step = f.step = W.pfloat("step_%d" % j, 0.125, 4)
        elif c == "d":
            dirichlet = f.dirichlet = W.pfloat("dirichlet_%d" % j, 0.125, 4)
        elif c == "S":
            step = f.step = first[0]
        elif c == "D":
            dirichlet = f.dirichlet = first[1]
        elif c == "x":       # refused changes change nothing
            for v in (-1.0, "a", 0.0, None):
                try:
                    f.step = v
                    W.fail("an invalid step is accepted")
                except ValueError:
                    pass
            if clf:
                for v in (-1.0, "a", None):
                    try:
                        f.dirichlet = v
                        W.fail("an invalid smoothing is accepted")
                    except ValueError:
                        pass
        for t in f.trees:
            W.eq("step of the trees", t.step, step)
            if clf:
                W.eq("smoothing of the trees", t.dirichlet, dirichlet)
        W.eq("step reported", f.step, step)
        if clf:
            W.eq("smoothing reported", f.dirichlet, dirichlet)


def _forest(tier):
    out = []
    for seq in ("s", "d", "sd", "ds", "sS", "dD", "sxd", "dsDS"):
        for ovr in (0, 1):
            out.append(dict(clf=1, ovr=ovr, ne=1 if ovr else 2, seq=seq))
            if tier != "quick":
                out.append(dict(clf=1, ovr=ovr, ne=3, seq=seq))
    for seq in ("s", "ss", "sxS"):
        out.append(dict(clf=0, ne=2, seq=seq))
        if tier != "quick":
            out.append(dict(clf=0, ne=4, seq=seq))
    return out


def _cfgs(tier):
    out = []
    for seq in SEQS:
        for agg in (1, 0):
            if agg == 0 and seq not in ("d", "sd", "dd", "s"):
                continue
            b = [[2, 0, 1, 0, 1, 2]] if tier == "quick" else [[2, 0, 1, 1, 0, 1, 2]]
            out.append(dict(nt=3 if tier == "quick" else 4, nv=3, nb=3, clf=1, seq=seq,
                            agg=agg, bins=b, w="first" if seq in ("d", "sd") else "one"))
    for seq in ("s", "ss", "sS"):
        for cat in (0, 1):
            out.append(dict(nt=3, nv=3, nb=3, clf=0, seq=seq, ny=1, cat=cat,
                            bins=[[2, 0, 1, 0, 1, 2]]))
    out.append(dict(nt=3, nv=2, nb=3, clf=1, K=3, seq="d", bins=[[2, 0, 1, 0, 2]]))
    out.append(dict(nt=4, nv=2, nb=2, clf=1, K=2, seq="d", cat=1, w="valid",
                    bins=[[1, 0, 1, 0, 1, 0]]))
    return out


HARNESSES = [
    Harness("change", change, lambda: _cfgs("quick"), lambda: _cfgs("thorough"),
            bounds="trees grown on 3-4 training and 2-3 validation samples with all labels, "
            "arbitrary real steps and smoothings, ten sequences of one to three changes",
            functions=["TreeBase.step", "TreeClassifier.dirichlet", "compute_tree_weights",
                       "recompute_node_predictions", "grow"],
            stubs=["log_sum_2_exp uninterpreted"], modules=["wildwood.tree"]),
    Harness("forest", forest, lambda: _forest("quick"), lambda: _forest("thorough"),
            bounds="forests of 1-4 trees per class, arbitrary values, eight sequences of "
            "one to four changes, with and without aggregation",
            functions=["ForestBase.step", "ForestClassifier.dirichlet", "ForestBase.fit"],
            stubs=["trees keep the values they are given", "encoder", "joblib.Parallel"],
            modules=["wildwood.forest"]),
]
