"""C11: feature encoding."""

import numpy as np
import pandas as pd

from ..core import Violation, call, must_raise, require

ROLES = ["df", "arr"]
BUDGET = {"quick": {"examples": 8000, "cap": 50}, "thorough": {"examples": 150000, "cap": 600}}
RULE = (
    "A generated table (float/int columns of several types with ties, infinities, huge values and missing values; "
    "string, object, boolean, category and numeric categorical columns) is encoded with generated max_bins, and so is "
    "a second table with new values, values on the bin edges, missing values and unknown categories. Bins are judged "
    "against ranks and half-way points (few distinct values), order statistics (many), and the categories. "
    "Non-trivial: a column with at least two bins in use."
)
ASSUMPTIONS = [
    "finite numbers are below 1e299, integers below 2**50",
    "numpy arrays of strings have no missing values (documented as unsupported)",
]

INT_TYPES = ["int8", "uint8", "int16", "uint16", "int32", "uint32", "int64", "uint64"]
CARD = [1, 2, 3, 5, 11, 40, 126, 127, 128, 129, 200, 254, 255, 256, 257, 300]


def strategy(role, tier):
    from hypothesis import strategies as st
    from ..gen import sizes, weighted

    @st.composite
    def column(draw):
        cat = draw(weighted((False, 3), (True, 2)))
        c = {"cat": cat}
        if cat:
            kinds = ["float", "int"] if role == "arr" else ["str", "object", "bool", "category", "ordered", "unused", "float", "int", "catfloat"]
            c["kind"] = draw(st.sampled_from(kinds))
            c["m"] = draw(st.sampled_from(CARD))
            c["cover"] = draw(st.booleans())
            c["unknown"] = draw(weighted((0.0, 2), (0.2, 1)))
        else:
            c["kind"] = draw(weighted(("grid", 4), ("normal", 4), ("exp", 2), ("int", 2), ("zeroinf", 1), ("const", 1)))
            c["m"] = draw(st.sampled_from([2, 3, 4, 7, 16, 17, 60, 255, 256, 257, 400]))
            c["sign"] = draw(weighted(("both", 3), ("+", 2), ("-", 1), ("far", 1)))
            c["scale"] = draw(st.sampled_from([0, 0, -200, 8, 290]))
            c["inf"] = draw(weighted((None, 6), ("+", 1), ("-", 1), ("both", 1)))
            c["f32"] = draw(weighted((False, 4), (True, 1)))
            c["int"] = draw(st.sampled_from(INT_TYPES))
        c["miss"] = draw(weighted((0.0, 4), (0.15, 2), (0.8, 1)))
        c["tmiss"] = draw(weighted((0.0, 3), (0.15, 2)))
        return c

    @st.composite
    def s(draw):
        n = draw(sizes(large=True, lo=1, cap=600))
        d = draw(st.integers(1, 4))
        case = {
            "seed": draw(st.integers(0, 2 ** 32 - 1)),
            "n": n,
            "nt": draw(st.integers(0, 60)),
            "max_bins": draw(weighted((256, 5), (3, 1), (4, 1), (5, 1), (8, 1), (17, 1), (64, 1), (255, 1), (257, 1), (1000, 1))),
            "container": role,
            "dtype": draw(st.sampled_from(["float64", "float64", "float32", "int64", "int32", "uint8", "object", "str"])) if role == "arr" else None,
            "cols": [draw(column()) for _ in range(d)],
            "order": draw(st.sampled_from(["C", "F", "strided"])),
            "unknown": draw(st.sampled_from(["error", "consider_missing"])),
            "dup": draw(weighted((False, 5), (True, 1))),
        }
        special = draw(st.integers(0, 149))
        if special == 77:
            case["sub"] = True
            case["dtype"] = "float64" if role == "arr" else None
            case["n"] = draw(st.integers(50001, 50400))
            case["cols"] = [{"cat": False, "kind": "normal", "m": 5, "scale": 0, "inf": None, "f32": False, "int": "int64", "miss": 0.0, "tmiss": 0.0}]
        elif special == 33 and role == "arr":
            case["n"] = 33500
            case["dtype"] = "float64"
            case["cols"] = [{"cat": True, "kind": "int", "m": draw(st.sampled_from([32766, 32767, 32768, 32769])), "cover": True, "unknown": 0.2, "miss": 0.1, "tmiss": 0.1}]
        return case

    return s()


class Col:
    pass


def build(case):
    """Training and test columns: raw python/numpy values (np.nan or None for missing) and the series."""
    rng = np.random.RandomState(case["seed"])
    n, nt = case["n"], case["nt"]
    out = []
    for j, c in enumerate(case["cols"]):
        o = Col()
        o.cat = c["cat"]
        arr_dtype = case["dtype"]
        if c["cat"]:
            m = c["m"] if c["kind"] != "bool" else 2
            codes = rng.randint(0, m, size=n)
            if c["cover"]:
                codes[: min(m, n)] = np.arange(min(m, n))
                codes = rng.permutation(codes)
            kind = c["kind"]
            n_extra = 3
            names = np.empty(m + n_extra, dtype=object)
            perm = rng.permutation(m + n_extra)
            for i in range(m + n_extra):
                if kind in ("str", "object", "category", "ordered", "unused"):
                    names[i] = "%s%d" % ("vwxyz"[perm[i] % 5], perm[i])
                elif kind == "bool":
                    names[i] = bool(i % 2)
                elif kind in ("float", "catfloat"):
                    names[i] = float(perm[i]) / 4 - 5
                else:
                    names[i] = int(perm[i])
            if case["container"] == "arr":
                if arr_dtype in ("object", "str"):
                    for i in range(m + n_extra):
                        names[i] = "c%d" % perm[i]
                elif arr_dtype == "uint8":
                    for i in range(m + n_extra):
                        names[i] = int(perm[i]) % 250
                elif arr_dtype.startswith("int"):
                    for i in range(m + n_extra):
                        names[i] = int(perm[i]) - 40
            tr = names[codes]
            tcodes = rng.randint(0, m, size=nt)
            if c["unknown"] and kind != "bool":
                u = rng.uniform(size=nt) < c["unknown"]
                tcodes = np.where(u, m + rng.randint(0, n_extra, size=nt), tcodes)
            te = names[tcodes]
            tr, te = tr.astype(object), te.astype(object)
            can_miss = case["container"] == "df" and kind not in ("int",) or arr_dtype in ("float64", "float32")
            if kind == "bool" and case["container"] == "df":
                can_miss = False
            if can_miss:
                if c["miss"]:
                    tr[rng.uniform(size=n) < c["miss"]] = np.nan if kind != "object" else None
                if c["tmiss"]:
                    te[rng.uniform(size=nt) < c["tmiss"]] = np.nan if kind != "object" else None
            o.train, o.test = tr, te
            if case["container"] == "df":
                if kind in ("str", "object"):
                    o.s_train, o.s_test = pd.Series(tr, dtype=object), pd.Series(te, dtype=object)
                elif kind == "bool":
                    o.s_train, o.s_test = pd.Series(tr.astype(bool)), pd.Series(te.astype(bool))
                elif kind == "float":
                    o.s_train, o.s_test = pd.Series(tr.astype(float)), pd.Series(te.astype(float))
                elif kind == "int":
                    o.s_train, o.s_test = pd.Series(tr.astype(int)), pd.Series(te.astype(int))
                else:
                    base = sorted(set(x for x in tr if not pd.isna(x)))
                    if kind == "unused":
                        base = base + ["zz_unused"]
                    if kind == "ordered":
                        base = list(reversed(base))
                    o.s_train = pd.Series(pd.Categorical(tr, categories=base, ordered=kind == "ordered"))
                    o.s_test = pd.Series(te, dtype=object).astype("category")
                    if kind == "catfloat":
                        o.s_test = pd.Series(te.astype(float)).astype("category")
        else:
            kind = c["kind"]
            if kind == "grid":
                vals = np.unique(np.round(rng.normal(size=c["m"]), 6))
                x = rng.choice(vals, size=n)
            elif kind == "normal":
                x = np.round(rng.normal(size=n), 8)
            elif kind == "exp":
                x = np.round(rng.normal(size=n), 4)
                x = np.sign(x) * np.exp(np.abs(x) * 4)
            elif kind == "int":
                x = rng.randint(-300, 300, size=n).astype(float)
            elif kind == "zeroinf":
                x = np.where(rng.uniform(size=n) < 0.8, 0.0, rng.randint(1, 30, size=n).astype(float))
            else:
                x = np.full(n, 2.5)
            if kind != "int":
                sign = c.get("sign", "both")
                if sign == "+":
                    x = np.abs(x)
                elif sign == "-":
                    x = -np.abs(x)
                elif sign == "far":
                    x = x + 1000.0
            dt = np.float64
            if case["container"] == "df":
                if kind == "int":
                    dt = np.dtype(c["int"])
                elif c["f32"]:
                    dt = np.float32
            else:
                dt = np.dtype({"object": "float64", "str": "float64"}.get(arr_dtype, arr_dtype))
            dt = np.dtype(dt)
            if dt.kind in "iu":
                info = np.iinfo(dt)
                x = np.clip(np.round(x * (1 if kind == "int" else 10)), max(info.min, -(2.0 ** 50)), min(info.max, 2.0 ** 50))
                if kind == "int" and dt.itemsize == 8:
                    x = x * 2.0 ** 38 if dt.kind == "i" else np.abs(x) * 2.0 ** 38
            elif kind != "int":
                if dt == np.float64 and case.get("dtype") not in ("object", "str"):
                    x = x * 10.0 ** c["scale"] if np.abs(x).max(initial=0) * 10.0 ** min(c["scale"], 290) < 1e299 else x
                x = x.astype(dt).astype(np.float64)
                if case.get("dtype") in ("object", "str"):
                    x = x.astype(np.float32).astype(np.float64)
                if c["inf"] and n >= 3 and case.get("dtype") not in ("object", "str"):
                    k = rng.uniform(size=n) < 0.15
                    if c["inf"] == "+":
                        x[k] = np.inf
                    elif c["inf"] == "-":
                        x[k] = -np.inf
                    else:
                        x[k] = np.where(rng.uniform(size=k.sum()) < 0.5, np.inf, -np.inf)
            can_miss = dt.kind == "f" and case.get("dtype") not in ("object", "str")
            # test values: training values, values half way, next to it, new ones, infinities
            u = np.unique(x)
            te = rng.choice(x, size=nt)
            if dt.kind == "f" and len(u) > 1 and np.isfinite(u).sum() > 1:
                uf = u[np.isfinite(u)]
                i = rng.randint(0, max(1, len(uf) - 1), size=nt)
                mid = (uf[i] + uf[np.minimum(i + 1, len(uf) - 1)]) * 0.5
                r = rng.randint(0, 7, size=nt)
                te = np.where(r == 0, mid, te)
                te = np.where(r == 1, np.nextafter(mid, np.inf), te)
                te = np.where(r == 2, uf.min() + (uf.max() / 2 - uf.min() / 2) * 2 * rng.uniform(size=nt), te)
                te = np.where((r == 3) & (rng.uniform(size=nt) < 0.3), rng.choice([np.inf, -np.inf], size=nt), te)
            elif dt.kind in "iu":
                te = np.where(rng.randint(0, 2, size=nt) == 0, np.clip(te + rng.randint(-3, 4, size=nt), np.iinfo(dt).min, min(np.iinfo(dt).max, 2.0 ** 52)), te)
            te = te.astype(dt).astype(np.float64)
            if case.get("dtype") in ("object", "str"):
                te = te.astype(np.float32).astype(np.float64)
            if can_miss:
                if c["miss"]:
                    x = np.where(rng.uniform(size=n) < c["miss"], np.nan, x)
                if c["tmiss"]:
                    te = np.where(rng.uniform(size=nt) < c["tmiss"], np.nan, te)
            o.train, o.test = x, te
            if case["container"] == "df":
                o.s_train, o.s_test = pd.Series(x.astype(dt)), pd.Series(te.astype(dt))
        out.append(o)
    return out


def tables(case, cols):
    if case["container"] == "df":
        names = ["a"] * len(cols) if case["dup"] else ["f%d" % j for j in range(len(cols))]
        X = pd.concat([o.s_train for o in cols], axis=1)
        T = pd.concat([o.s_test for o in cols], axis=1)
        X.columns = names
        T.columns = names
        if case["order"] == "strided":
            X.index = np.arange(len(X))[::-1] * 3
        return X, T
    dt = case["dtype"]

    def make(key, n):
        if dt in ("object", "str"):
            A = np.empty((n, len(cols)), dtype=object)
        else:
            A = np.empty((n, len(cols)), dtype=dt)
        for j, o in enumerate(cols):
            A[:, j] = getattr(o, key)
        if dt == "str":
            # numbers must read back as the same single precision numbers
            A = np.array([[repr(float(v)) if not isinstance(v, str) else v for v in row] for row in A]).reshape(n, len(cols))
        if case["order"] == "F":
            return np.asfortranarray(A)
        if case["order"] == "strided" and n:
            return np.repeat(A, 2, axis=0)[::2]
        return A

    return make("train", case["n"]), make("test", case["nt"])


def isna(v):
    return v is None or v != v


def check(case):
    from wildwood.preprocessing import Encoder, features_bitarray_to_array

    cols = build(case)
    X, T = tables(case, cols)
    is_cat = np.array([o.cat for o in cols])
    max_bins = case["max_bins"]
    kw = {"subsample": 50000} if case.get("sub") else {}
    if case.get("sub"):
        kw["random_state"] = 3
    enc = call("Encoder", Encoder, max_bins=max_bins, is_categorical=is_cat, handle_unknown=case["unknown"], **kw)
    call("Encoder.fit", enc.fit, X)
    fb = call("Encoder.transform", enc.transform, X)
    B = call("features_bitarray_to_array", features_bitarray_to_array, fb).astype(np.int64)
    require(B.shape == X.shape, "the encoded table has shape %s" % (B.shape,))
    known = [set(v for v in o.train if not isna(v)) if o.cat else None for o in cols]
    for j, o in enumerate(cols):
        # categories that are declared by a category type are known even if unused
        if o.cat and case["container"] == "df" and case["cols"][j]["kind"] == "unused":
            known[j] = known[j] | {"zz_unused"}
    unknown = any(o.cat and any(not isna(v) and v not in known[j] for v in o.test) for j, o in enumerate(cols))
    if case["nt"] == 0 and any(o.cat and not known[j] for j, o in enumerate(cols)):
        BT = None  # no row and no category at all
    elif case["unknown"] == "error" and unknown:
        must_raise("transform with an unknown category and handle_unknown='error'", ValueError, enc.transform, T)
        BT = None
    else:
        fbt = call("Encoder.transform on new rows", enc.transform, T)
        BT = call("features_bitarray_to_array", features_bitarray_to_array, fbt).astype(np.int64)
        require(BT.shape == T.shape, "the encoded new rows have shape %s" % (BT.shape,))
    require(np.array_equal(np.asarray(enc.is_categorical_), is_cat), "is_categorical_ is not the declared one")
    used = 0
    for j, o in enumerate(cols):
        where = "column %d" % j
        b = B[:, j]
        bt = BT[:, j] if BT is not None else np.empty(0, dtype=np.int64)
        te = o.test if BT is not None else o.test[:0]
        if o.cat:
            cats = enc.categories_[j]
            m = len(cats)
            require(len(set(cats)) == m, where + ": the categories are not distinct")
            require(set(cats) >= {x for x in known[j] if x != "zz_unused"}, where + ": a training category is not listed")
            require(m == len(known[j]), where + ": %d categories are listed for %d" % (m, len(known[j])))
            require(int(enc.n_bins_no_missing_values_[j]) == m, where + ": the number of bins is not the number of categories")
            index = {v: i for i, v in enumerate(cats)}
            for vals, bins, what in ((o.train, b, "training"), (te, bt, "new")):
                want = np.array([index.get(v, m) if not isna(v) else m for v in vals], dtype=np.int64)
                if not np.array_equal(bins, want):
                    i = int(np.flatnonzero(bins != want)[0])
                    raise Violation(
                        "%s: %s row %d with category %r is in bin %d and not %d" % (where, what, i, vals[i], bins[i], want[i]),
                        categories=list(cats)[:20],
                    )
        else:
            thr = np.asarray(enc.binning_thresholds_[j], dtype=np.float64)
            x = o.train[~np.isnan(o.train)]
            u = np.unique(x)
            require(not np.isnan(thr).any() and (np.diff(thr) >= 0).all(), where + ": the thresholds are not increasing")
            n_bins = len(thr) + 1
            require(n_bins <= max_bins, where + ": %d bins are used with max_bins=%d" % (n_bins, max_bins))
            require(int(enc.n_bins_no_missing_values_[j]) == n_bins, where + ": the number of bins is not that of the thresholds plus one")
            if len(u) <= max_bins and not case.get("sub"):
                require(n_bins == max(1, len(u)), where + ": %d bins for %d distinct values" % (n_bins, len(u)))
                a, b_ = u[:-1], u[1:]
                fin = np.isfinite(a) & np.isfinite(b_)
                mids = (a[fin] + b_[fin]) * 0.5
                require(
                    np.allclose(thr[fin], mids, rtol=1e-12, atol=0),
                    where + ": the thresholds are not half way between the distinct values", got=thr[fin][:10], expected=mids[:10],
                )
            else:
                s = np.sort(x)
                size = len(x) if not case.get("sub") else 50000
                slack = len(x) - size
                require(n_bins == max_bins, where + ": %d bins and not max_bins=%d" % (n_bins, max_bins))
                h = np.arange(1, max_bins) / max_bins * (size - 1)
                s = np.clip(s, -1e300, 1e300)
                lo = s[np.maximum(0, np.floor(h - 1e-6).astype(int))]
                hi = s[np.minimum(len(s) - 1, np.ceil(h + 1e-6).astype(int) + slack)]
                bad = (thr < lo) | (thr > hi)
                require(not bad.any(), where + ": a threshold is not at its quantile", index=np.flatnonzero(bad)[:5], thr=thr[bad][:5], lo=lo[bad][:5], hi=hi[bad][:5])
            for vals, bins, what in ((o.train, b, "training"), (te, bt, "new")):
                want = np.where(np.isnan(vals), n_bins, np.searchsorted(thr, vals, side="left"))
                if not np.array_equal(bins, want):
                    i = int(np.flatnonzero(bins != want)[0])
                    raise Violation(
                        "%s: %s row %d with value %r is in bin %d and not %d" % (where, what, i, vals[i], bins[i], want[i]),
                        thresholds=thr[:20],
                    )
            if len(u) <= max_bins and not case.get("sub"):
                rank = np.searchsorted(u, x)
                require(np.array_equal(b[~np.isnan(o.train)], rank), where + ": the bins are not the ranks of the distinct values")
        used = max(used, len(np.unique(b)))
    # back to values
    for fba, key, A in ((fb, "train", B), (fbt if BT is not None else None, "test", BT)):
        if fba is None or len(A) == 0 or len(A) > 1000 or any(o.cat and not known[j] for j, o in enumerate(cols)):
            continue
        R = call("inverse_transform", enc.inverse_transform, fba)
        require(R.shape == A.shape, "inverse_transform gives shape %s" % (R.shape,))
        for j, o in enumerate(cols):
            back = list(R.iloc[:, j])
            vals = getattr(o, key)
            for i, (r, v) in enumerate(zip(back, vals)):
                if isna(v) or (o.cat and v not in known[j]):
                    ok = not isinstance(r, pd.Interval) and bool(pd.isna(r))
                elif o.cat:
                    ok = not pd.isna(r) and r == v
                elif not isinstance(r, pd.Interval):
                    ok = False
                else:
                    ok = (r.left < v or (np.isneginf(v) and np.isneginf(r.left))) and v <= r.right
                if not ok:
                    raise Violation("column %d row %d: %r is decoded as %r" % (j, i, v, r))
    # encoding leaves the table as it was, and encoding again gives the same thing
    B2 = call("Encoder.transform again", lambda: features_bitarray_to_array(enc.transform(X))).astype(np.int64)
    require(np.array_equal(B, B2), "encoding the same table twice gives different bins")
    cls = [case["container"]] + sorted({("cat:" if o.cat else "num:") + case["cols"][j]["kind"] for j, o in enumerate(cols)})
    if unknown:
        cls.append("unknown:" + case["unknown"])
    if case.get("sub"):
        cls.append("subsampled")
    if any((not o.cat) and len(np.unique(o.train[~np.isnan(o.train)])) > max_bins for o in cols):
        cls.append("quantiles")
    if any(o.cat and len(known[j]) > 126 for j, o in enumerate(cols)):
        cls.append("categories>126")
    return {"nontrivial": used > 1, "classes": cls, "observed": {"bins used": int(used)}}


def warmup(role):
    import itertools

    base = {"seed": 1, "n": 5, "nt": 3, "max_bins": 256, "order": "C", "unknown": "consider_missing", "dup": False, "container": role}
    col = {"cat": False, "kind": "int", "m": 5, "scale": 0, "inf": None, "f32": False, "int": "int64", "miss": 0.0, "tmiss": 0.0}
    for dt in INT_TYPES if role == "df" else ["float64", "float32", "int64", "int32", "uint8", "object"]:
        try:
            check(dict(base, dtype=None if role == "df" else dt, cols=[dict(col, int=dt)]))
        except Violation:
            pass
    for m, f32 in itertools.product([3, 127, 300], [False, True]):
        try:
            check(dict(base, n=400, dtype=None if role == "df" else "float64", cols=[{"cat": True, "kind": "float", "m": m, "cover": True, "unknown": 0.0, "miss": 0.0, "tmiss": 0.0}, dict(col, kind="normal", f32=f32)]))
        except Violation:
            pass
