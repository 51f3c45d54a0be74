"""P25: decoding an encoded table gives back categories and enclosing intervals."""
import numpy as np

from ..harness import Harness
from .p03 import entries, is_in, pattern, table

ENC = "wildwood.preprocessing.encoder"
FB = "wildwood.preprocessing.features_bitarray"


def na(W, v):
    if v is None:
        return True
    if W.symbolic and hasattr(v, "nan"):
        return W.is_true(W.sh.f_isnan(v))
    return isinstance(v, (float, np.floating)) and v != v


def above(W, a, b):
    """a < b, where either may be infinite."""
    for x in (a, b):
        if isinstance(x, (float, np.floating)) and np.isinf(x):
            return bool((a == -np.inf) if x is a else (b == np.inf))
    return a < b


def decode(W, cfg):
    m = W.mod(ENC)
    to = W.mod(FB).features_bitarray_to_array
    W.hashed()
    kind, n, nt = cfg["kind"], cfg["n"], cfg["nt"]
    cont = kind == "cont"
    if cont:
        pf = [False] * n
        fit = [W.nfloat("f%d" % i) if cfg.get("naf") and i == 0 else
               W.real("f%d" % i, f64=True) for i in range(n)]
        if cfg.get("rep"):  # increasing values, each as often as asked
            for a, b in zip(fit, fit[1:]):
                W.assume(a < b)
            fit = [v for v, c in zip(fit, cfg["rep"]) for _ in range(c)]
            n = len(fit)
        elif cfg.get("wide"):
            fit = [(i * 7 % cfg["wide"] - cfg["wide"] // 2) / 32 for i in range(cfg["wide"])]
            n = len(fit)
        tr = [W.nfloat("t%d" % i) for i in range(nt)]
    else:
        pf = [True] * n if cfg.get("empty") else pattern(W, kind, "f", n, cfg["naf"])
        pt = pattern(W, kind, "t", nt, 1)
        fit, tr = entries(W, kind, "f", n, pf), entries(W, kind, "t", nt, pt)
    of = ot = None
    if cfg.get("other"):
        of = [W.real("of%d" % i, f64=True) for i in range(n)]
        ot = [W.nfloat("ot%d" % i) for i in range(nt)]
    p = 1 + bool(of)
    cats = [W.letter(i) for i in (2, 0, 1, 3, 4)] if kind == "cat" else None
    enc = m.Encoder(max_bins=cfg.get("mb", 4), is_categorical=np.array(
        [not cont] + [False] * (p - 1)), handle_unknown="consider_missing")
    k = "float" if cont else kind
    X = table(W, cfg, k, fit, of, cats)
    enc.fit(X)
    known = [v for v, q in zip(fit, pf) if not q] if cats is None else cats
    for B, vals, other in ((X, [] if cfg.get("wide") else fit, of), (table(W, cfg, k, tr, ot, cats), tr, ot)):
        if not vals:
            continue
        fb = enc.transform(B)
        before = to(fb)
        out = enc.inverse_transform(fb)
        W.same("number of decoded columns", out.shape[1], p)
        after = to(fb)
        for j, col in enumerate([vals, other][:p]):
            got = list(out[out.columns[j]])
            W.same("number of decoded rows", len(got), len(vals))
            for i, v in enumerate(col):
                W.eq("the encoded table is left as it was", before[i, j], after[i, j])
                if na(W, v):
                    W.check("a missing entry stays missing", na(W, got[i]))
                    continue
                v = v.v if W.symbolic and hasattr(v, "nan") else v
                if j == 0 and not cont:
                    if is_in(W, v, known):
                        W.check("an entry is decoded", not na(W, got[i]))
                        W.check("the very category", got[i] == v)
                    else:
                        W.check("an unknown category is missing", na(W, got[i]))
                    continue
                W.check("an interval for entry %d" % i, hasattr(got[i], "left"))
                W.check("closed on the right", got[i].closed == "right")
                W.check("entry %d is above the interval's left end" % i,
                        above(W, got[i].left, v))
                W.check("entry %d is not above the interval's right end" % i,
                        W.no(above(W, got[i].right, v)))
                # no finer: the interval is one bin
                for t in enc.binning_thresholds_[j]:
                    W.check("no threshold inside the interval", W.no(W.all([
                        above(W, got[i].left, t), above(W, t, got[i].right)])))


def _cfgs(tier):
    out = []
    big = tier != "quick"
    for df in (0, 1):
        for kind in ("cont", "text", "float", "int", "bool", "cat"):
            if kind in ("cat", "bool") and not df:
                continue
            out.append(dict(kind=kind, df=df, n=3 if kind == "cont" else 2, nt=1, naf=0))
            if kind in ("cont", "text", "float", "cat"):
                out.append(dict(kind=kind, df=df, n=2, nt=2, naf=1))
            if kind in ("text", "float"):
                out.append(dict(kind=kind, df=df, n=2, nt=1, naf=1, other=1))
                out.append(dict(kind=kind, df=df, n=2, nt=1, naf=1, empty=1))
            if big:
                out.append(dict(kind=kind, df=df, n=3, nt=2, naf=kind == "text"))
                if kind == "cont":
                    out.append(dict(kind=kind, df=df, n=5, nt=1, naf=0, mb=3))
    out.append(dict(kind="cont", df=1, n=4, nt=1, naf=0, mb=3))
    # repeated values: equal thresholds
    out.append(dict(kind="cont", df=0, n=4, nt=1, naf=0, mb=3, rep=(1, 4, 1, 1)))
    out.append(dict(kind="cont", df=1, n=4, nt=1, naf=0, mb=3, rep=(2, 1, 1, 5)))
    out.append(dict(kind="cont", df=1, n=0, nt=1, naf=0, mb=320, wide=260))
    return out


HARNESSES = [
    Harness("decode", decode, lambda: _cfgs("quick"), lambda: _cfgs("thorough"),
            bounds="2-5 training rows, 1-2 new rows of one or two columns of any kind with "
            "any missing and unknown entries; columns without any value",
            functions=["Encoder.inverse_transform", "Encoder.fit", "Encoder.transform",
                       "features_bitarray_to_array"],
            stubs=["pandas Series/DataFrame/Categorical/IntervalArray replaced by "
                   "contracts"], modules=[ENC]),
]
