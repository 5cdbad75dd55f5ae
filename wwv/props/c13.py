"""C13: representation of the data."""

import numpy as np
import pandas as pd

from .. import gen, ref
from ..core import call, require
from . import _base

ROLES = ["clf", "reg"]
BUDGET = {"quick": {"examples": 1800, "cap": 55}, "thorough": {"examples": 40000, "cap": 600}}
RULE = (
    "One data set (values exact in single precision) is fitted as a float64 array and again under generated "
    "representations of X (memory order, strides, float32, integer types, object array, dataframes with duplicated or "
    "odd names and index, mixed column types, category columns), y and weights (list, Series, other types), with rows "
    "queried in generated batches, orders and types; trees and predictions must be identical. Non-trivial: at least one split."
)
ASSUMPTIONS = ["predictions with several threads may differ by the order of a floating point sum (1e-12)"]
warmup = _base.warm_forest

XREPS = ["F", "strided", "reversed", "f32", "readonly", "df", "df32", "dfdup", "dfint", "dfcat", "dfindex", "int", "object", "dfmulti"]
YREPS = ["same", "list", "series", "int", "f64", "strided", "object"]
WREPS = ["same", "list", "series", "f32", "int", "strided"]
QUERIES = ["permute", "single", "halves", "empty", "duplicate", "rep", "padded", "few"]


def strategy(role, tier):
    from hypothesis import strategies as st

    @st.composite
    def s(draw):
        c = draw(gen.forest_case(role, n_estimators=3, cap=200, large=False))
        if draw(st.integers(0, 3)) == 0:
            # integer-valued, no missing value
            for col in c["cols"]:
                col["miss"] = 0.0
                if col["t"] not in ("cat", "grid"):
                    col["t"], col["m"] = "grid", 40
            # large and negative integers; 2^28+1 needs more than single precision
            c["scale"] = draw(st.sampled_from([1, 1, 2 ** 20, 2 ** 33, 2 ** 28 + 1]))
            c["shift"] = draw(st.sampled_from([0, 0, 20, 128]))
            # consecutive large integers, that single precision cannot tell apart
            c["offset"] = draw(st.sampled_from([0, 0, 2 ** 25, 2 ** 31, 2 ** 31 + 2 ** 30, 2 ** 40]))
            if c["offset"]:
                c["scale"] = 1
        c["xrep"] = draw(st.sampled_from(XREPS))
        c["yrep"] = draw(st.sampled_from(YREPS))
        c["wrep"] = draw(st.sampled_from(WREPS))
        c["qrep"] = draw(st.sampled_from(XREPS))
        c["queries"] = draw(st.lists(st.sampled_from(QUERIES), min_size=1, max_size=3, unique=True))
        c["mrep"] = draw(st.sampled_from(["mask", "list", "indices", "indexlist"]))
        c["nt"] = draw(st.integers(1, 25))
        return c

    return s()


def whole(x):
    return bool(np.isfinite(x).all() and (x == np.round(x)).all() and np.abs(x).max(initial=0) < 2 ** 52)


def exact32(x):
    return bool(np.array_equal(x.astype(np.float32).astype(np.float64), x, equal_nan=True))


def represent(X, is_cat, how, rng):
    """The same values in another container; falls back on a copy when `how` cannot hold them."""
    n, d = X.shape
    if how == "F":
        return np.asfortranarray(X)
    if how == "strided":
        return np.repeat(np.repeat(X, 2, axis=0), 3, axis=1)[::2, ::3]
    if how == "reversed":
        return X[::-1, ::-1].copy()[::-1, ::-1]
    if how == "f32":
        return X.astype(np.float32) if exact32(X) else X.copy()
    if how == "readonly":
        A = X.copy()
        A.flags.writeable = False
        return A
    if how == "int":
        if not whole(X):
            return X.copy()
        lo, hi = X.min(initial=0), X.max(initial=0)
        types = [t for t in ("int64", "int32", "int16", "uint64", "uint32", "uint16", "int8", "uint8") if np.iinfo(t).min <= lo and hi <= np.iinfo(t).max]
        return X.astype(types[rng.randint(len(types))])
    if how == "object":
        # the numbers of such arrays are read in single precision
        if np.isnan(X).any() or not exact32(X):
            return X.copy()
        return X.astype(object)
    cols = []
    for j in range(d):
        x = X[:, j]
        s = pd.Series(x.copy())
        if how == "df32" and j % 2 == 0 and exact32(x):
            s = pd.Series(x.astype(np.float32))
        elif how == "dfint" and whole(x):
            lo, hi = x.min(initial=0), x.max(initial=0)
            types = [t for t in ("int64", "int32", "int16", "int8", "uint64", "uint32", "uint16", "uint8") if np.iinfo(t).min <= lo and hi <= np.iinfo(t).max]
            s = pd.Series(x.astype(types[rng.randint(len(types))]))
        elif how == "dfcat" and is_cat[j]:
            s = pd.Series(x).astype("category")
        cols.append(s)
    df = pd.concat(cols, axis=1)
    df.columns = ["c%d" % j for j in range(d)]
    if how == "dfdup":
        df.columns = ["x"] * d
    elif how == "dfindex":
        df.columns = list(range(d))[::-1]
        df.index = pd.Index(np.zeros(n, dtype=int)) if rng.randint(2) else pd.Index(["r%d" % (i * 7 % 5) for i in range(n)])
    elif how == "dfmulti":
        df.columns = pd.MultiIndex.from_tuples([("a", j % 2) for j in range(d)])
    return df


def vec(v, how, rng, integer):
    if v is None or how == "same":
        return v
    if how == "list":
        return v.tolist()
    if how == "series":
        return pd.Series(v, index=np.arange(len(v))[::-1] * 2)
    if how == "int":
        return v.astype(np.int32) if integer and (v == np.round(v)).all() else v.copy()
    if how == "f32":
        return v.astype(np.float32)
    if how == "f64":
        return v.astype(np.float64)
    if how == "strided":
        return np.repeat(v, 2)[::2]
    if how == "object":
        return v.astype(object)
    raise ValueError(how)


def check(case):
    d = gen.materialise(case)
    if "scale" in case:
        d.X = (d.X - case["shift"]) * case["scale"] + case.get("offset", 0)
        d.Xt = (d.Xt - case["shift"]) * case["scale"] + case.get("offset", 0)
    wide = case.get("scale") == 2 ** 28 + 1 or case.get("offset", 0) > 0
    if wide:
        d.X, d.Xt = (np.where(np.abs(A) < 1e20, np.round(A), A) for A in (d.X, d.Xt))
    else:
        d.X = d.X.astype(np.float32).astype(np.float64)
        d.Xt = d.Xt.astype(np.float32).astype(np.float64)
    if d.w is not None:
        d.w = d.w.astype(np.float32).astype(np.float64)
    rng = np.random.RandomState((case["seed"] + 5) % 2 ** 32)
    f = ref.fit_forest(case, d)
    agg = case["p"]["aggregation"]
    base = _base.dump(f)
    Xq = np.vstack([d.X[:20], d.Xt])
    p = ref.raw_predict(f, Xq)
    leaves = np.asarray(call("apply", f.apply, Xq))
    labels = call("predict", f.predict, Xq)

    mask = d.is_cat
    if case["mrep"] == "list":
        mask = d.is_cat.tolist()
    elif d.is_cat.any() and case["mrep"] == "indices":
        mask = np.flatnonzero(d.is_cat)[::-1].copy()
    elif d.is_cat.any() and case["mrep"] == "indexlist":
        mask = np.flatnonzero(d.is_cat).tolist()
    wrep = case["wrep"]
    X2 = represent(d.X, d.is_cat, case["xrep"], rng)
    y2 = vec(d.y, case["yrep"] if not (case["yrep"] == "object" and case["kind"] == "clf") else "series", rng, True)
    w2 = vec(d.w, wrep, rng, True)
    g = ref.fit_forest(case, d, X=X2, y=y2, w=w2, cat=mask)
    what = "X as %s, y as %s, weights as %s" % (case["xrep"], case["yrep"], wrep)
    diff = _base.same_dump(base, _base.dump(g), agg)
    require(diff is None, what + ": the trees differ (%s)" % diff)

    def same(Xr, rows, how):
        if len(rows):
            l2 = np.asarray(call("apply, %s" % how, g.apply, Xr))
            require(np.array_equal(l2, leaves[:, rows] if leaves.shape[1:] == (len(Xq),) else leaves[rows]), "%s, %s: apply differs" % (what, how))
        p2 = ref.raw_predict(g, Xr)
        require(_base.close(p2, p[rows]), "%s, %s: the predictions differ" % (what, how), error=np.abs(p2 - p[rows]).max(initial=0.0) if p2.shape == p[rows].shape else p2.shape)
        lab2 = call("predict, %s" % how, g.predict, Xr)
        require(len(lab2) == len(rows), "%s: predict gives %d rows" % (how, len(lab2)))
        if case["kind"] == "clf" and len(rows):
            top = np.sort(p[rows], axis=1)
            clear = top[:, -1] - top[:, -2] > 1e-9
            require((np.asarray(lab2)[clear] == labels[rows][clear]).all(), "%s, %s: predicted labels differ" % (what, how))

    nq = len(Xq)
    alln = np.arange(nq)
    same(Xq, alln, "the same rows")
    for q in case["queries"]:
        if q == "permute":
            r = rng.permutation(nq)
            same(Xq[r], r, "rows in another order")
        elif q == "single":
            for i in rng.randint(0, nq, size=3):
                same(Xq[i : i + 1], np.array([i]), "one row")
        elif q == "halves":
            k = rng.randint(0, nq + 1)
            same(Xq[:k], alln[:k], "a first batch")
            same(Xq[k:], alln[k:], "a second batch")
        elif q == "empty":
            same(represent(Xq[:0], d.is_cat, case["qrep"], rng), alln[:0], "no row (%s)" % case["qrep"])
        elif q == "padded":
            # a row among many copies of another one
            odd = np.flatnonzero(np.isnan(Xq).any(axis=1))
            plain = np.flatnonzero(~np.isnan(Xq).any(axis=1))
            for m in (3, 80, 700):
                r = np.full(m, plain[rng.randint(len(plain))] if len(plain) else rng.randint(nq))
                where = [0, m - 1, rng.randint(m)][rng.randint(3)]
                r[where] = odd[rng.randint(len(odd))] if len(odd) and rng.randint(4) else rng.randint(nq)
                same(Xq[r], r, "row %d of %d other rows" % (where, m))
        elif q == "few":
            for m in (2, 2, 3, 4):
                r = rng.randint(0, nq, size=m)
                same(Xq[r], r, "%d rows" % m)
        elif q == "duplicate":
            r = rng.randint(0, nq, size=2 * nq)
            same(Xq[r], r, "repeated rows")
        elif q == "rep":
            same(represent(Xq, d.is_cat, case["qrep"], rng), alln, "rows as %s" % case["qrep"])
    split = bool((leaves != 0).any())
    return {
        "nontrivial": split,
        "classes": gen.case_classes(case) + ["X:" + case["xrep"], "y:" + case["yrep"], "wrep:" + wrep] + ["q:" + q for q in case["queries"]],
        "observed": {"X": case["xrep"], "queries": case["queries"]},
    }
