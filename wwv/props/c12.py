"""C12: the bit-packed feature array."""

import numpy as np

from ..core import Violation, call, require

ROLES = ["bits"]
BUDGET = {"quick": {"examples": 20000, "cap": 45}, "thorough": {"examples": 400000, "cap": 600}}
RULE = (
    "A model matrix and an array of maximum values are generated (0 to 2**40, around powers of two, 0 to 300 rows so "
    "that words are exactly full, just started or partly filled), and a history of column writes (any order, repeated, "
    "any integer type, any stride) and reads is run on the packed array and on a plain matrix; all reading functions "
    "must agree with the matrix, and array_to_bitarray must round-trip. Non-trivial: at least two rows and a column "
    "that holds at least two distinct values."
)
ASSUMPTIONS = ["values are at most the declared maximum of their column, which is at most 2**40"]

EDGE = sorted({v for k in range(0, 41) for v in (2 ** k - 1, 2 ** k, 2 ** k - 2) if v >= 0})
TYPES = ["uint8", "int8", "uint16", "int16", "uint32", "int32", "uint64", "int64"]


def strategy(role, tier):
    from hypothesis import strategies as st
    from ..gen import weighted

    @st.composite
    def maxv(draw):
        k = draw(weighted(("tiny", 3), ("edge", 4), ("any", 2)))
        if k == "tiny":
            return draw(st.integers(0, 9))
        if k == "edge":
            return draw(st.sampled_from(EDGE))
        return draw(st.integers(0, 2 ** draw(st.integers(1, 40))))

    @st.composite
    def s(draw):
        d = draw(st.integers(1, 5))
        maxs = [draw(maxv()) for _ in range(d)]
        bucket = draw(st.integers(0, 2))
        if bucket == 0:
            n = draw(st.integers(0, 300))
        else:
            # around a multiple of the number of values per word of some column
            m = draw(st.sampled_from(maxs))
            per = 64 // max(1, int(m).bit_length())
            n = max(0, per * draw(st.integers(0, 4)) + draw(st.integers(-1, 1)))
        ops = draw(
            st.lists(
                st.tuples(
                    st.sampled_from(["fill", "fill", "array", "get", "col"]),
                    st.integers(0, d - 1), st.sampled_from(TYPES), st.sampled_from(["c", "strided", "f2d", "reversed"]),
                    st.sampled_from(["random", "max", "zero", "random"]), st.integers(0, 2 ** 31 - 1),
                ).map(list),
                max_size=8,
            )
        )
        return {
            "n": n, "maxs": maxs, "seed": draw(st.integers(0, 2 ** 32 - 1)), "ops": ops,
            "order": draw(st.permutations(list(range(d)))), "utype": draw(st.sampled_from(["uint8", "uint16", "uint32", "uint64"])),
            "layout": draw(st.sampled_from(["C", "F", "strided"])),
        }

    return s()


def column(rng, n, m, how):
    if how == "max":
        return np.full(n, m, dtype=np.int64)
    if how == "zero":
        return np.zeros(n, dtype=np.int64)
    x = rng.randint(0, m + 1, size=n, dtype=np.int64)
    if n:
        k = rng.uniform(size=n)
        x = np.where(k < 0.15, m, np.where(k > 0.85, 0, x))
    return x


def cast(x, m, typ, layout):
    dt = np.dtype(typ)
    if m > np.iinfo(dt).max:
        dt = np.dtype("uint64")
    x = x.astype(dt)
    if layout == "strided":
        return np.repeat(x, 3)[::3]
    if layout == "f2d":
        return np.column_stack([x, x])[:, 1]
    if layout == "reversed":
        return x[::-1].copy()[::-1]
    return x


def check(case):
    from wildwood.preprocessing import FeaturesBitArray, array_to_bitarray, features_bitarray_fill_column, features_bitarray_to_array
    from wildwood.preprocessing import features_bitarray as mod

    n, maxs = case["n"], case["maxs"]
    d = len(maxs)
    rng = np.random.RandomState(case["seed"])
    model = np.zeros((n, d), dtype=np.int64)
    mv = np.array(maxs, dtype=np.uint64)
    fb = call("FeaturesBitArray", FeaturesBitArray, n, mv)

    def same(A, what):
        A = np.asarray(A)
        require(A.shape == model.shape, "%s has shape %s and not %s" % (what, A.shape, model.shape))
        if not (A.astype(np.int64) == model).all():
            i, j = np.argwhere(A.astype(np.int64) != model)[0]
            raise Violation("%s: row %d of column %d is %d and not %d" % (what, i, j, A[i, j], model[i, j]), maxs=maxs)

    def fill(j, typ, layout, how, seed):
        x = column(np.random.RandomState(seed), n, maxs[j], how)
        model[:, j] = x
        col = cast(x, maxs[j], typ, layout)
        keep = col.copy()
        call("features_bitarray_fill_column", features_bitarray_fill_column, fb, j, col)
        require((col == keep).all(), "filling a column modified it")

    types = [TYPES[i] for i in rng.randint(0, len(TYPES), size=d)]
    for k, j in enumerate(case["order"]):
        fill(j, types[k], ["c", "strided", "f2d", "reversed"][rng.randint(4)], "random", int(rng.randint(2 ** 31 - 1)))
    same(call("features_bitarray_to_array", features_bitarray_to_array, fb), "the array")

    def read(j):
        if not n:
            return
        rows = sorted({0, n - 1, n // 2} | set(rng.randint(0, n, size=6).tolist()))
        get = getattr(mod, "get_value", None)
        if get is not None:
            for i in rows:
                v = int(call("get_value", get, fb, i, j))
                require(v == model[i, j], "get_value gives %d and not %d at row %d of column %d" % (v, model[i, j], i, j), maxs=maxs)

    for op, j, typ, layout, how, seed in case["ops"]:
        if op == "fill":
            fill(j, typ, layout, how, seed)
        elif op == "array":
            same(call("features_bitarray_to_array", features_bitarray_to_array, fb), "the array")
        else:
            read(j)
    for j in range(d):
        read(j)
    same(call("features_bitarray_to_array", features_bitarray_to_array, fb), "the array at the end")
    require(int(fb.n_samples) == n and int(fb.n_features) == d, "the numbers of rows or columns are wrong")
    # from a matrix, with the maxima found by the code
    um = np.iinfo(case["utype"]).max
    src = model.astype(case["utype"]) if max(maxs) <= um else model.astype("uint64")
    if case["layout"] == "F":
        src = np.asfortranarray(src)
    elif case["layout"] == "strided":
        src = np.repeat(src, 2, axis=1)[:, ::2]
    fb2 = call("array_to_bitarray", array_to_bitarray, src)
    same(call("features_bitarray_to_array", features_bitarray_to_array, fb2), "array_to_bitarray then back")
    nontrivial = n > 1 and any(len(np.unique(model[:, j])) > 1 for j in range(d))
    bits = [max(1, int(m).bit_length()) for m in maxs]
    cls = ["n=0" if n == 0 else "n<64" if n < 64 else "n>=64"]
    if any(n and n % (64 // b) == 0 for b in bits):
        cls.append("full last word")
    if any(b > 16 for b in bits):
        cls.append("wide")
    if any(64 % b for b in bits):
        cls.append("words with unused bits")
    if any(o[0] == "fill" for o in case["ops"]):
        cls.append("refilled")
    return {"nontrivial": nontrivial, "classes": cls, "observed": {"bits per value": bits}}


def warmup(role):
    base = {"n": 5, "maxs": [3], "seed": 0, "ops": [], "order": [0], "layout": "C"}
    for t in TYPES:
        for lay in ("c", "strided", "f2d", "reversed"):
            try:
                check(dict(base, utype="uint8" if "u" not in t else t, ops=[["fill", 0, t, lay, "random", 1], ["get", 0, t, lay, "max", 1]]))
            except Violation:
                pass
    for lay in ("C", "F", "strided"):
        for t in ("uint8", "uint16", "uint32", "uint64"):
            try:
                check(dict(base, utype=t, layout=lay))
            except Violation:
                pass
