"""C21: only the order of values matters."""

import numpy as np
import pandas as pd

from .. import gen, ref
from ..core import call, require
from . import _base

ROLES = ["clf", "reg"]
BUDGET = {"quick": {"examples": 2000, "cap": 55}, "thorough": {"examples": 50000, "cap": 600}}
RULE = (
    "A forest is fitted on generated data with no more distinct values than bins, and again after generated strictly "
    "increasing maps of the continuous columns and order-preserving renamings (numbers, strings) of the categories; trees, "
    "leaves and predictions must be identical. Query values beyond the training range are compared with the extreme training values, "
    "and unknown categories with missing values. Non-trivial: at least one split and a changed column."
)
ASSUMPTIONS = ["a map is only applied to a column whose distinct values stay distinct by more than 1e-9 of their size"]
warmup = _base.warm_forest

MAPS = ["none", "affine", "cube", "exp", "atan", "rank", "huge", "tiny", "int"]


def strategy(role, tier):
    from hypothesis import strategies as st

    @st.composite
    def s(draw):
        c = draw(gen.forest_case(role, n_estimators=3, cap=250, large=False))
        c["p"]["max_bins"] = draw(st.sampled_from([256, 300, 1000]))
        if draw(st.integers(0, 5)) == 0:
            # few distinct values, few bins
            c["p"]["max_bins"] = draw(st.sampled_from([5, 12, 40]))
            for col in c["cols"]:
                if col["t"] in ("normal", "heavy"):
                    col["t"], col["m"] = "grid", 5
                if col["t"] == "grid":
                    col["m"] = min(col["m"], 5)
        c["maps"] = [draw(st.sampled_from(MAPS)) for _ in c["cols"]]
        c["rename"] = draw(st.sampled_from(["gaps", "str", "catstr", "neg"]))
        return c

    return s()


def apply_map(name, u, rng):
    """u: sorted distinct finite values -> their images, or None."""
    s = np.abs(u).max(initial=0) or 1.0
    z = u / s
    if name == "affine":
        v = u * 3.7 + 11.0 * s
    elif name == "cube":
        v = z ** 3
    elif name == "exp":
        v = np.exp(5 * z)
    elif name == "atan":
        v = np.arctan(4 * z)
    elif name == "rank":
        v = np.cumsum(rng.randint(1, 9, size=len(u))).astype(float)
    elif name == "huge":
        v = z * 1e200
    elif name == "tiny":
        v = z * 1e-200
    elif name == "int":
        v = np.arange(len(u)) * 2.0 - len(u)
    else:
        return None
    if len(v) > 1 and (np.diff(v) <= 1e-9 * np.maximum(np.abs(v[1:]), np.abs(v[:-1]))).any():
        return None
    return v


def check(case):
    d = gen.materialise(case)
    agg = case["p"]["aggregation"]
    rng = np.random.RandomState((case["seed"] + 4) % 2 ** 32)
    f = ref.fit_forest(case, d)
    n, dd = d.X.shape
    # query rows made of training values (of other rows), missing values and unknown categories
    Q = np.column_stack([d.X[rng.randint(0, n, size=40), j] for j in range(dd)])
    for j in range(dd):
        k = rng.uniform(size=40)
        Q[k < 0.1, j] = np.nan
        if d.is_cat[j]:
            Q[k > 0.9, j] = 9000.0 + j
    p = ref.raw_predict(f, Q)
    leaves = np.asarray(call("apply", f.apply, Q))
    split = bool((leaves != 0).any())

    # -- unknown categories are missing values
    Q0 = Q.copy()
    Q0[Q0 >= 9000.0] = np.where((np.broadcast_to(d.is_cat, Q0.shape))[Q0 >= 9000.0], np.nan, Q0[Q0 >= 9000.0])
    require(np.array_equal(np.asarray(f.apply(Q0)), leaves), "unknown categories and missing values are in other leaves")
    require(_base.close(ref.raw_predict(f, Q0), p), "unknown categories and missing values have other predictions")

    unknown = np.flatnonzero((Q >= 9000.0)[:, d.is_cat].any(axis=1)) if d.is_cat.any() else []
    for i in unknown[:4]:
        # with few other rows
        r = np.append(rng.randint(0, len(Q), size=rng.randint(0, 4)), i)
        require(np.array_equal(np.asarray(call("apply", f.apply, Q[r])), leaves[:, r]), "a row with an unknown category is in another leaf when predicted with fewer rows", rows=r)
        require(_base.close(ref.raw_predict(f, Q[r]), p[r]), "a row with an unknown category is predicted otherwise with fewer rows", rows=r)

    # -- beyond the range
    for j in range(dd):
        x = d.X[:, j]
        x = x[~np.isnan(x)]
        if d.is_cat[j] or not len(x):
            continue
        for end, outs in ((x.max(), [np.nextafter(x.max(), np.inf), x.max() + 1.0, abs(x.max()) * 1e3 + 1, np.inf]), (x.min(), [np.nextafter(x.min(), -np.inf), x.min() - 1.0, -abs(x.min()) * 1e3 - 1, -np.inf])):
            A = Q[:12].copy()
            A[:, j] = end
            B = A.copy()
            B[:, j] = np.resize(outs, 12)
            require(np.array_equal(np.asarray(f.apply(A)), np.asarray(f.apply(B))), "column %d: values beyond the range are not in the leaf of the extreme value" % j)
            require(_base.close(ref.raw_predict(f, A), ref.raw_predict(f, B)), "column %d: values beyond the range are not predicted as the extreme value" % j)

    # -- maps and renamings
    cols, qcols, changed = [], [], []
    for j in range(dd):
        x, q = d.X[:, j], Q[:, j]
        u = np.unique(x[~np.isnan(x)])
        if d.is_cat[j]:
            how = case["rename"]
            allu = np.append(u, 9000.0 + j)
            steps = np.cumsum(rng.randint(1, 6, size=len(allu)))
            if how in ("str", "catstr"):
                v = np.array(["k%06d" % k for k in steps], dtype=object)
            elif how == "neg":
                v = steps - 1000.5
            else:
                v = steps * 2.0

            def conv(a):
                out = np.empty(len(a), dtype=object if how in ("str", "catstr") else float)
                nan = np.isnan(a)
                out[nan] = np.nan
                out[~nan] = v[np.searchsorted(allu, a[~nan])]
                s = pd.Series(out)
                return s.astype("category") if how == "catstr" else s

            cols.append(conv(x))
            qcols.append(conv(q))
            changed.append("rename:" + how)
        else:
            v = apply_map(case["maps"][j], u, rng)
            if v is None:
                cols.append(pd.Series(x.copy()))
                qcols.append(pd.Series(q.copy()))
                continue

            def conv(a):
                out = np.full(len(a), np.nan)
                nan = np.isnan(a)
                out[~nan] = v[np.searchsorted(u, a[~nan])]
                return pd.Series(out)

            cols.append(conv(x))
            qcols.append(conv(q))
            changed.append("map:" + case["maps"][j])
    X2, Q2 = pd.concat(cols, axis=1), pd.concat(qcols, axis=1)
    X2.columns = Q2.columns = ["f%d" % j for j in range(dd)]
    if all(s.dtype.kind == "f" for s in cols) and case["seed"] % 2:
        X2, Q2 = X2.values, Q2.values
    g = ref.fit_forest(case, d, X=X2)
    what = ", ".join(changed) or "nothing changed"
    diff = _base.same_dump(_base.dump(f), _base.dump(g), agg)
    require(diff is None, what + ": the trees differ (%s)" % diff)
    require(np.array_equal(np.asarray(call("apply", g.apply, Q2)), leaves), what + ": the leaves differ")
    p2 = ref.raw_predict(g, Q2)
    require(_base.close(p2, p), what + ": the predictions differ", error=np.abs(p - p2).max(initial=0.0))
    return {"nontrivial": split and bool(changed), "classes": gen.case_classes(case) + sorted(set(changed)), "observed": {"changed": changed}}
