"""P01: packed feature storage is lossless."""
import numpy as np
from ..harness import Harness

FB = "wildwood.preprocessing.features_bitarray"
ASSUMPTIONS = ["max_values below 2**32 per column (bin counts are far smaller)"]


def _ult(W, a, b):
    return a <= b


def roundtrip(W, cfg):
    """Arbitrary maxima and arbitrary values within them, two or three columns written
    column by column, in the given order; everything reads back."""
    W.words()
    m = W.mod(FB)
    n, p = cfg["n"], cfg["p"]
    maxv = []
    for j in range(p):
        if j == cfg["wide"]:
            v = W.word("max%d" % j, 32)
            W.assume(v <= cfg["hi"])
            W.assume(v >= cfg["lo"])
        else:
            v = W.word("max%d" % j, 2)
        maxv.append(v)
    cols = []
    for j in range(p):
        col = []
        for i in range(n):
            x = W.word("x%d_%d" % (i, j), 32)
            W.assume(x <= maxv[j])
            col.append(x)
        cols.append(col)
    fb = m.FeaturesBitArray(n, W.arr(maxv, np.uint64))
    order = list(range(p)) if not cfg.get("rev") else list(range(p))[::-1]
    for j in order:
        m.features_bitarray_fill_column(fb, j, W.arr(cols[j], np.uint64))
    for j in range(p):
        for i in range(n):
            W.eq("value[%d,%d]" % (i, j), m.get_value(fb, i, j), cols[j][i])
    X = m.features_bitarray_to_array(fb)
    W.same("shape", tuple(X.shape), (n, p))
    for j in range(p):
        for i in range(n):
            W.eq("array[%d,%d]" % (i, j), X[i, j], cols[j][i])


def from_array(W, cfg):
    """array_to_bitarray(X): maxima derived from the data."""
    W.words()
    m = W.mod(FB)
    n, p, bits = cfg["n"], cfg["p"], cfg["bits"]
    rows = []
    for i in range(n):
        row = []
        for j in range(p):
            x = W.word("x%d_%d" % (i, j), bits if j == 0 else 2)
            row.append(x)
        rows.append(row)
    X = W.arr(rows, cfg["dtype"])
    fb = m.array_to_bitarray(X)
    for i in range(n):
        for j in range(p):
            W.eq("value[%d,%d]" % (i, j), m.get_value(fb, i, j), rows[i][j])
    Y = m.features_bitarray_to_array(fb)
    for i in range(n):
        for j in range(p):
            W.eq("array[%d,%d]" % (i, j), Y[i, j], rows[i][j])


def _rt(tier):
    out = []
    sizes = (1, 2, 3, 5, 9, 17, 33, 65) if tier == "quick" else (
        1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 16, 17, 21, 22, 32, 33, 64, 65, 66, 129)
    for n in sizes:
        for lo, hi in ((0, 3), (4, 255), (256, 65535), (65536, 2 ** 32 - 1)):
            if tier == "quick" and n > 17 and hi > 255:
                continue
            if n > 33 and hi > 255:
                continue
            out.append(dict(n=n, p=2, wide=0, lo=lo, hi=hi))
    out.append(dict(n=3, p=3, wide=1, lo=0, hi=2 ** 32 - 1, rev=1))
    out.append(dict(n=5, p=3, wide=2, lo=0, hi=65535, rev=1))
    return out


def _fa(tier):
    out = []
    for n in (1, 2, 3, 5, 9) if tier == "quick" else (1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 17):
        out.append(dict(n=n, p=2, bits=8, dtype="uint8"))
        if n <= 5:
            out.append(dict(n=n, p=2, bits=16, dtype="uint16"))
        if n <= 3:
            out.append(dict(n=n, p=2, bits=32, dtype="uint32"))
            out.append(dict(n=n, p=1, bits=32, dtype="uint64"))
    return out


FNS = ["FeaturesBitArray.__init__", "_features_bitarray_fill_column",
       "features_bitarray_fill_column", "get_value_from_column", "get_value",
       "features_bitarray_to_array", "_features_bitarray_to_array"]
HARNESSES = [
    Harness("roundtrip", roundtrip, lambda: _rt("quick"), lambda: _rt("thorough"),
            bounds="2-3 columns; sample counts around every word boundary; all maxima "
            "0..2**32-1 (all bit widths 1..32) and all values within them",
            functions=FNS, modules=[FB]),
    Harness("from_array", from_array, lambda: _fa("quick"), lambda: _fa("thorough"),
            bounds="1-2 columns, up to 9 (quick) / 17 (thorough) rows, values up to 32 "
            "bits", functions=FNS + ["array_to_bitarray", "_features_bitarray_fill_values"],
            modules=[FB]),
]
