"""P03: categorical encoding is injective; missing and unknown entries are kept apart."""
import numpy as np
from ..harness import Harness

ENC = "wildwood.preprocessing.encoder"
FB = "wildwood.preprocessing.features_bitarray"


def entries(W, kind, name, n, pattern, extra=0):
    """n entries of a categorical column; pattern[i]: entry i is missing. text: any of
    five letters; float / int: any numbers."""
    out = []
    for i in range(n):
        if pattern[i]:
            out.append(None if kind in ("text", "cat") else float("nan"))
        elif kind in ("text", "cat"):
            out.append(W.letter(W.int("%s%d" % (name, i), 0, 4)))
        elif kind == "int":
            out.append(W.int("%s%d" % (name, i), -4, 4))
        elif kind == "bool":
            out.append(W.flag("%s%d" % (name, i)))
        else:
            out.append(W.real("%s%d" % (name, i), f64=True))
    return out


DT = dict(text="object", int="int64", float="float64", bool="bool", cat="category")


def pattern(W, kind, name, n, on):
    if not on or kind in ("int", "bool"):
        return [False] * n
    return [W.flag("%s.na%d" % (name, i)) for i in range(n)]


def is_in(W, x, xs):
    for y in xs:
        if W.is_true(x == y):
            return True
    return False


def table(W, cfg, kind, vals, other, cats=None):
    if cfg["df"]:
        cols = [("a", W.series(vals, DT[kind], cats))]
        if other is not None:
            cols.append(("b", W.series(other, "float64")))
        return W.frame(cols)
    dt = DT[kind]
    if other is None:
        return W.matrix([[v] for v in vals], dt)
    return W.matrix([[v, o] for v, o in zip(vals, other)], dt)


def codes(W, cfg):
    """Fit on one column, encode the training column and another one."""
    m = W.mod(ENC)
    W.hashed()
    kind, n, nt = cfg["kind"], cfg["n"], cfg["nt"]
    pf = pattern(W, kind, "f", n, cfg["naf"])
    pt = pattern(W, kind, "t", nt, cfg["nat"])
    fit = entries(W, kind, "f", n, pf)
    tr = entries(W, kind, "t", nt, pt)
    cats = None
    if kind == "cat":
        # any two to four declared categories, used or not, in any order of declaration
        cats = [W.letter(i) for i in W.pick("cats", [(0, 1, 2, 3, 4), (3, 1, 0, 2, 4)])]
    cats_t = cats
    if kind == "cat":
        opts = [(0, 1, 2, 3, 4), (4, 2, 0, 1, 3)]
        if cfg["unk"] != "error":
            opts.append((6, 0, 1, 2, 3, 4, 5))
        cats_t = [W.letter(i) for i in W.pick("cats_t", opts)]
    other_f = other_t = None
    if cfg["other"]:
        other_f = [W.real("of%d" % i, f64=True) for i in range(n)]
        other_t = [W.nfloat("ot%d" % i) if i == 0 else W.real("ot%d" % i, f64=True)
                   for i in range(nt)]
    enc = m.Encoder(max_bins=4, is_categorical=np.array(
        [True] + [False] * (other_f is not None)), handle_unknown=cfg["unk"])
    X = table(W, cfg, kind, fit, other_f, cats)
    enc.fit(X)
    known = [v for v, p in zip(fit, pf) if not p] if cats is None else list(cats)
    ncat = int(W.conc(enc.n_bins_no_missing_values_[0]))
    # number of categories: distinct known values
    uniq = []
    for v in known:
        if not is_in(W, v, uniq):
            uniq.append(v)
    W.same("number of categories", ncat, len(uniq))
    batches = [("train", X, fit, pf, other_f),
               ("new", table(W, cfg, kind, tr, other_t, cats_t), tr, pt, other_t)]
    seen = []  # (value, code)
    if nt == 0:
        batches = batches[:1]
    for name, B, vals, pat, other in batches:
        unknown = [not p and not is_in(W, v, known) for v, p in zip(vals, pat)]
        try:
            fb = enc.transform(B)
        except ValueError as ex:
            W.check("%s: rejected only for an unknown category (%s)" % (name, ex),
                    any(unknown) and cfg["unk"] == "error")
            continue
        W.check("%s: an unknown category is rejected" % name,
                not (any(unknown) and cfg["unk"] == "error"))
        out = W.mod(FB).features_bitarray_to_array(fb)
        for i, (v, p, u) in enumerate(zip(vals, pat, unknown)):
            c = W.conc(out[i, 0])
            if p or u:
                W.same("%s: missing or unknown entry %d has the code after the categories"
                       % (name, i), c, ncat)
                continue
            W.check("%s: entry %d has a category code" % (name, i), 0 <= c < ncat)
            for w, d in seen:
                W.check("%s: entry %d: same code exactly when same category" % (name, i),
                        W.iff(v == w, c == d))
            seen.append((v, c))
        if other is not None:
            thr = list(enc.binning_thresholds_[1])
            for i, x in enumerate(other):
                if W.is_true(W.sh.f_isnan(x) if W.symbolic else x != x):
                    W.eq("%s: neighbour's missing entry" % name, out[i, 1], len(thr) + 1)
                else:
                    x = x.v if W.symbolic and hasattr(x, "nan") else x
                    k = 0
                    for t in thr:
                        k = k + W.ite(t < x, 1, 0)
                    W.eq("%s: neighbouring column, entry %d" % (name, i), out[i, 1], k)


def many(W, cfg):
    """Code widths: ncat categories, the last code and the missing code still fit."""
    m = W.mod(ENC)
    W.hashed()
    ncat = cfg["ncat"]
    base = list(range(ncat))
    if ncat <= 40:
        tr = [W.int("k", 0, ncat - 1), W.int("u", 0, ncat + 3), W.int("v", 0, ncat - 1)]
    else:
        last = [i for i in (0, 63, 64, 127, 128, 255, 256, ncat - 1) if i < ncat]
        tr = [W.pick("k", last), W.pick("u", last + [ncat + 2]), W.pick("v", last[-2:])]
    na = [W.flag("na0"), False, False]
    fit = [float(b) for b in base]
    new = [float("nan") if p else v for v, p in zip(tr, na)]
    if cfg["df"]:
        X = W.frame([("a", W.series(fit, "float64")), ("b", W.series([1.0] * ncat, "float64"))])
        B = W.frame([("a", W.series(new, "float64")), ("b", W.series([1.0] * 3, "float64"))])
    else:
        X = W.matrix([[f, 1.0] for f in fit], "float64")
        B = W.matrix([[f, 1.0] for f in new], "float64")
    enc = m.Encoder(max_bins=4, is_categorical=np.array([True, False]),
                    handle_unknown="consider_missing")
    enc.fit(X)
    out = W.mod(FB).features_bitarray_to_array(enc.transform(B))
    for i, (v, p) in enumerate(zip(tr, na)):
        if p:
            W.eq("missing entry", out[i, 0], ncat)
        else:
            W.eq("entry %d" % i, out[i, 0], W.ite(v < ncat, v, ncat))
        W.eq("neighbour %d" % i, out[i, 1], 0)


def _codes(tier):
    out = []
    big = tier != "quick"
    for df in (0, 1):
        for kind in ("text", "float", "int", "bool", "cat"):
            if kind in ("bool", "cat") and not df:
                continue
            for unk in ("error", "consider_missing"):
                n, nt = (3, 2)
                if kind in ("text", "cat"):
                    out.append(dict(kind=kind, df=df, n=2, nt=2, unk=unk, naf=1, nat=1,
                                    other=0))
                out.append(dict(kind=kind, df=df, n=2 if kind == "cat" else n,
                                nt=1 if kind == "cat" else nt, unk=unk, naf=0,
                                nat=1, other=0))
                if kind == "float" or (kind == "int" and not df and big):
                    out.append(dict(kind=kind, df=df, n=2, nt=2, unk=unk, naf=1, nat=1,
                                    other=1))
                if big and kind in ("text", "float", "int"):
                    out.append(dict(kind=kind, df=df, n=3, nt=3, unk=unk, naf=1, nat=1,
                                    other=0))
                    out.append(dict(kind=kind, df=df, n=4, nt=2, unk=unk, naf=0, nat=1,
                                    other=0))
        if df:
            out.append(dict(kind="text", df=1, n=2, nt=1, unk="consider_missing", naf=0,
                            nat=1, other=1))
    return out


def _many(tier):
    ns = (1, 2, 3, 4, 7, 8) if tier == "quick" else (
        1, 2, 3, 4, 5, 7, 8, 9, 15, 16, 17, 31, 32)
    wide = (129, 257) if tier == "quick" else (63, 64, 65, 126, 127, 128, 129, 255, 256,
                                               257, 300)
    return [dict(ncat=n, df=d) for n in ns for d in (0, 1)] + [
        dict(ncat=n, df=n % 2) for n in wide]


FN = ["Encoder.fit", "Encoder.transform", "check_X", "is_series_categorical",
      "get_array_dtypes"]
HARNESSES = [
    Harness("codes", codes, lambda: _codes("quick"), lambda: _codes("thorough"),
            bounds="training columns of 2-3 (quick) / 4 (thorough) entries and new columns "
            "of 1-2 / 3 entries over five letters, any reals, integers -4..4, booleans or "
            "declared categories, every pattern of missing entries, both unknown options",
            functions=FN, modules=[ENC],
            stubs=["pandas Series/DataFrame/categoricals replaced by contracts"]),
    Harness("widths", many, lambda: _many("quick"), lambda: _many("thorough"),
            bounds="1..8 (quick) / 32 (thorough) categories, any three new entries; up to 300 "
            "categories with three entries among the word and byte boundaries",
            functions=FN, modules=[ENC], stubs=["pandas replaced by contracts"]),
]
