"""P02: continuous columns are binned in an order-preserving, complete way."""
from fractions import Fraction
from math import floor

import numpy as np
from ..harness import Harness

BIN = "wildwood.preprocessing._binning"
ENC = "wildwood.preprocessing.encoder"


def column(W, n, name="x", missing=True):
    return [W.nfloat("%s%d" % (name, i)) if missing else
            W.real("%s%d" % (name, i), f64=True) for i in range(n)]


def present(W, vals):
    """The non-missing entries, and (by forking) their sorted distinct values."""
    ok = []
    for v in vals:
        if not W.is_true(isnan(W, v)):
            ok.append(v.v if W.symbolic and hasattr(v, "nan") else v)
    uniq = []
    for v in ok:
        j = 0
        while j < len(uniq) and W.is_true(uniq[j] < v):
            j += 1
        if j == len(uniq) or not W.is_true(uniq[j] == v):
            uniq.insert(j, v)
    order = []
    for v in ok:
        j = 0
        while j < len(order) and W.is_true(order[j] < v):
            j += 1
        order.insert(j, v)
    return ok, uniq, order


def isnan(W, v):
    if W.symbolic:
        return W.sh.f_isnan(v)
    return v != v


def check_thresholds(W, thr, vals, max_bins):
    ok, uniq, order = present(W, vals)
    thr = list(thr)
    W.check("at most max_bins bins", len(thr) <= max_bins - 1)
    for a, b in zip(thr, thr[1:]):
        W.check("thresholds are non-decreasing", a <= b)
    if len(uniq) <= max_bins:
        if not uniq:
            W.same("no value: no threshold", len(thr), 0)
            return
        W.same("one threshold fewer than distinct values", len(thr), len(uniq) - 1)
        for i, t in enumerate(thr):
            W.check("threshold %d separates two distinct values" % i,
                    W.all([uniq[i] <= t, t < uniq[i + 1]]))
    else:
        W.same("as many thresholds as quantiles", len(thr), max_bins - 1)
        n = len(order)
        for k, t in enumerate(thr):
            h = Fraction((n - 1) * (k + 1), max_bins)
            lo = floor(h)
            if h == lo:
                W.check("quantile %d" % k, W.all([order[lo - 1] <= t, t <= order[lo + 1]]))
            else:
                W.eq("quantile %d" % k, t, (order[lo] + order[lo + 1]) / 2, tol=1e-9)


def thresholds(W, cfg):
    """What is learned from a column."""
    m = W.mod(BIN)
    vals = column(W, cfg["n"], missing=cfg["nan"])
    if cfg["series"]:
        col = W.series(vals, cfg["dtype"])
    else:
        col = W.arr(vals, cfg["dtype"])
    before = list(vals)
    thr = m._find_binning_thresholds(col, cfg["mb"], col_is_pandas_series=bool(cfg["series"]))
    check_thresholds(W, thr, before, cfg["mb"])


def lookup(W, cfg):
    """One value against any sorted thresholds."""
    m = W.mod(BIN)
    k = cfg["k"]
    thr = [W.real("t%d" % i, f64=True) for i in range(k)]
    for a, b in zip(thr, thr[1:]):
        W.assume(a <= b)
    vals = [W.nfloat("x%d" % i) for i in range(cfg["n"])]
    mv = W.int("mv", k + 1, k + 3)
    out = W.empty((cfg["n"],), np.uint64)
    m._bin_continuous_column(W.arr(vals, cfg["dtype"]), W.arr(thr, np.float64), mv, out)
    for i, v in enumerate(vals):
        if W.is_true(isnan(W, v)):
            W.eq("missing value %d goes to the missing bin" % i, out[i], mv)
        else:
            x = v.v if W.symbolic and hasattr(v, "nan") else v
            n = 0
            for t in thr:
                n = n + W.ite(t < x, 1, 0)
            W.eq("bin of value %d" % i, out[i], n)


def encode(W, cfg):
    """The whole encoder on one or two continuous columns, missing entries included."""
    m = W.mod(ENC)
    W.hashed()
    n, nt, mb = cfg["n"], cfg["nt"], cfg["mb"]
    p = cfg.get("p", 1)
    fit = [column(W, n, "f%d_" % j, missing=bool(cfg["nanf"]) and j == 0) for j in range(p)]
    tr = [column(W, nt, "t%d_" % j, missing=bool(cfg["nant"]) and j == 0) for j in range(p)]
    dt = cfg.get("dtype", "float64")

    def table(cols):
        if cfg["df"]:
            return W.frame([("c%d" % j, W.series(c, dt)) for j, c in enumerate(cols)])
        return W.matrix([[c[i] for c in cols] for i in range(len(cols[0]))], dt)
    enc = m.Encoder(max_bins=mb, is_categorical=np.zeros(p, dtype=bool))
    X = table(fit)
    enc.fit(X)
    batches = [("train", X, fit)] if cfg["nt"] == 0 else [("new", table(tr), tr)]
    for j in range(p):
        check_thresholds(W, enc.binning_thresholds_[j], fit[j], mb)
    for name, B, cols in batches:
        fb = enc.transform(B)
        out = W.mod("wildwood.preprocessing.features_bitarray").features_bitarray_to_array(fb)
        for j in range(p):
            thr = list(enc.binning_thresholds_[j])
            regular = len(thr) + 1
            W.eq("number of regular bins", enc.n_bins_no_missing_values_[j], regular)
            for i, v in enumerate(cols[j]):
                if W.is_true(isnan(W, v)):
                    W.eq("%s: missing entry %d,%d has the bin after the regular ones"
                         % (name, i, j), out[i, j], regular)
                else:
                    x = v.v if W.symbolic and hasattr(v, "nan") else v
                    c = 0
                    for t in thr:
                        c = c + W.ite(t < x, 1, 0)
                    W.eq("%s: bin of entry %d,%d" % (name, i, j), out[i, j], c)


def wide(W, cfg):
    """Columns of hundreds of distinct values: bin numbers beyond one byte, any new value."""
    m = W.mod(ENC)
    W.hashed()
    n, mb, nt = cfg["n"], cfg["mb"], cfg["nt"]
    first = -n // 2
    col = [(first + (i * 7) % n) / 32 for i in range(n)]  # all different when 7 does not divide n
    if cfg.get("rep"):  # most entries are equal: repeated thresholds
        col = [0.5 if i % 3 else v for i, v in enumerate(col)]
    dt = "float64"

    def table(vals):
        if cfg["df"]:
            return W.frame([("a", W.series(vals, dt)),
                            ("b", W.series([0.0] * len(vals), dt))])
        return W.matrix([[v, 0.0] for v in vals], dt)
    enc = m.Encoder(max_bins=mb, is_categorical=np.zeros(2, dtype=bool))
    enc.fit(table(col))
    thr = list(enc.binning_thresholds_[0])
    srt, dis = sorted(col), sorted(set(col))
    W.check("thresholds are non-decreasing", all(a <= b for a, b in zip(thr, thr[1:])))
    if len(dis) <= mb:
        W.same("one threshold fewer than distinct values", len(thr), len(dis) - 1)
        for a, b, t in zip(dis, dis[1:], thr):
            W.check("every threshold separates two distinct values", a <= t < b)
    else:
        W.same("as many thresholds as quantiles", len(thr), mb - 1)
        for k, t in enumerate(thr):
            h = Fraction((n - 1) * (k + 1), mb)
            lo = floor(h)
            W.check("quantile %d" % k, srt[max(lo - 1, 0)] <= t <= srt[min(lo + 1, n - 1)])
    top = n / 64 + 1
    new = [W.nfloat("x%d" % i, -top, top) for i in range(nt)]
    for vals in (col[:3] + [srt[0], srt[-1], float("nan")], new):
        out = W.mod("wildwood.preprocessing.features_bitarray").features_bitarray_to_array(
            enc.transform(table(vals)))
        for i, v in enumerate(vals):
            c = W.conc(out[i, 0])
            if W.is_true(isnan(W, v)):
                W.same("a missing entry has the bin after the regular ones", c, len(thr) + 1)
                continue
            W.check("a bin number", 0 <= c <= len(thr))
            if not 0 <= c <= len(thr):
                continue
            v = v.v if W.symbolic and hasattr(v, "nan") else v
            if c > 0:
                W.check("the value is above the threshold below its bin", thr[c - 1] < v)
            if c < len(thr):
                W.check("the value is not above its bin's threshold", v <= thr[c])


def _wide(tier):
    out = [dict(n=300, mb=256, nt=1, df=0), dict(n=300, mb=256, nt=1, df=1),
           dict(n=270, mb=320, nt=1, df=0), dict(n=260, mb=320, nt=1, df=1),
           dict(n=120, mb=40, nt=1, df=0, rep=1)]
    if tier != "quick":
        out += [dict(n=1100, mb=1024, nt=1, df=d) for d in (0, 1)]
        out += [dict(n=700, mb=512, nt=1, df=d, rep=1) for d in (0, 1)]
    return out


class Rng:
    """A generator whose choice() is any subset the solver likes."""

    def __init__(self, W, calls):
        self.W, self.calls = W, calls

    def choice(self, a, size=None, replace=True, p=None):
        W = self.W
        left = list(range(a)) if not hasattr(a, "__len__") else list(a)
        out = []
        for k in range(size):
            out.append(left.pop(W.conc(W.int("pick%d_%d" % (len(self.calls), k), 0,
                                             len(left) - 1))))
        self.calls.append((a, size, bool(replace), out))
        return np.array(out)

    def permutation(self, n):
        return self.choice(n, n, replace=False)


def subsampled(W, cfg):
    """Large columns: thresholds are learned from the drawn subsample, one draw for all
    columns, without replacement."""
    m = W.mod(ENC)
    W.hashed()
    n, p, size, mb = cfg["n"], cfg["p"], cfg["size"], cfg["mb"]
    fit = [column(W, n, "f%d_" % j, missing=False) for j in range(p)]
    enc = m.Encoder(max_bins=mb, is_categorical=np.zeros(p, dtype=bool), random_state=7)
    enc._subsample = size
    if not (W.symbolic or enc.subsample == size):
        W.assume(False)
    calls, seeds = [], []

    def crs(seed):
        seeds.append(seed)
        return Rng(W, calls)
    if not W.patch(ENC, "check_random_state", crs):
        W.assume(False)
    if cfg["df"]:
        X = W.frame([("c%d" % j, W.series(c, "float64")) for j, c in enumerate(fit)])
    else:
        X = W.matrix([[c[i] for c in fit] for i in range(n)], "float64")
    enc.fit(X)
    if n > size:
        W.check("drawn from the given random state", bool(seeds) and set(seeds) == {7})
        W.check("one draw (or one per column)", len(calls) in (1, p))
        for a, k, replace, sub in calls:
            W.same("size of the draw", len(sub), size)
            W.same("distinct samples", len(set(sub)), size)
            W.check("from all samples", a == n)
        subs = [c[3] for c in calls] * p
    else:
        W.same("no draw", len(calls), 0)
        subs = [list(range(n))] * p
    for j in range(p):
        check_thresholds(W, enc.binning_thresholds_[j], [fit[j][i] for i in subs[j]], mb)


def _thr(tier):
    out = []
    for n in range(1, 6 if tier == "quick" else 7):
        for mb in (3, 4) if tier == "quick" else (3, 4, 5):
            for series in (0, 1):
                out.append(dict(n=n, mb=mb, series=series, nan=1 if n <= 4 else 0,
                                dtype="float64"))
    out.append(dict(n=3, mb=3, series=0, nan=1, dtype="float32"))
    out.append(dict(n=4, mb=3, series=1, nan=1, dtype="float32"))
    return out


def _look(tier):
    out = []
    for k in range(0, 8 if tier == "quick" else 17):
        out.append(dict(k=k, n=2 if k < 5 else 1, dtype="float64"))
    return out


def _enc(tier):
    out = []
    for df in (0, 1):
        for mb in (3,) if tier == "quick" else (3, 4):
            for n in (1, 2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 5):
                out.append(dict(n=n, nt=2 if n < 4 else 1, mb=mb, df=df,
                                nanf=n < 4, nant=1))
            out.append(dict(n=3, nt=0, mb=mb, df=df, nanf=1, nant=0))
            out.append(dict(n=2, nt=2, mb=mb, df=df, p=2, nanf=1, nant=1))
            out.append(dict(n=3, nt=1, mb=mb, df=df, p=2, nanf=0, nant=1))
    return out


def _sub(tier):
    out = [dict(n=4, p=1, size=3, mb=3, df=d) for d in (0, 1)]
    out += [dict(n=3, p=2, size=2, mb=3, df=d) for d in (0, 1)]
    out += [dict(n=3, p=1, size=3, mb=3, df=d) for d in (0, 1)]
    return out


HARNESSES = [
    Harness("thresholds", thresholds, lambda: _thr("quick"), lambda: _thr("thorough"),
            bounds="columns of 1..5 (quick) / 6 (thorough) entries, missing entries for up "
            "to 4, any real values in [-8, 8], 3 to 5 bins",
            functions=["_find_binning_thresholds"], modules=[BIN],
            stubs=["numpy unique / percentile(midpoint) / sort replaced by their contracts"]),
    Harness("lookup", lookup, lambda: _look("quick"), lambda: _look("thorough"),
            bounds="0..7 (quick) / 16 (thorough) thresholds, one or two values",
            functions=["_bin_continuous_column"], modules=[BIN]),
    Harness("encode", encode, lambda: _enc("quick"), lambda: _enc("thorough"),
            bounds="1..4 (5) training rows, 1-2 new rows, one or two columns, data frames "
            "and arrays", functions=["Encoder.fit", "Encoder.transform",
                                     "_find_binning_thresholds", "_bin_continuous_column"],
            modules=[ENC, BIN], stubs=["pandas Series/DataFrame replaced by contracts"]),
    Harness("wide", wide, lambda: _wide("quick"), lambda: _wide("thorough"),
            bounds="120-300 (thorough: 1100) concrete training values, 39-299 (1023) "
            "thresholds, any new value, missing included",
            functions=["Encoder.fit", "Encoder.transform", "_find_binning_thresholds",
                       "_bin_continuous_column"], modules=[ENC, BIN],
            stubs=["pandas Series/DataFrame replaced by contracts"]),
    Harness("subsampled", subsampled, lambda: _sub("quick"), lambda: _sub("thorough"),
            bounds="3-4 rows, subsample of 2-3, any draw", functions=["Encoder.fit"],
            modules=[ENC], stubs=["random generator: any subset"]),
]
