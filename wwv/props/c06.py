"""C06: growth limits and stopping."""

import numpy as np

from .. import gen, ref, splits
from ..core import require
from . import _base

ROLES = ["clf", "reg"]
BUDGET = {"quick": {"examples": 2000, "cap": 60}, "thorough": {"examples": 50000, "cap": 600}}
RULE = (
    "Forests with random max_depth, min_samples_split, min_samples_leaf, with and without aggregation. "
    "Samples are routed by the reference; each split and each leaf is checked against the limits, and "
    "each leaf that could be split is searched for admissible splits by brute force. Non-trivial: some "
    "limit is active (not the default) and some tree has a split, or a leaf was searched."
)
warmup = _base.warm_forest


def strategy(role, tier):
    from hypothesis import strategies as st

    @st.composite
    def s(draw):
        c = draw(gen.forest_case(role, n_estimators=3, cap=300, large=False, cat_card=[2, 3, 4, 6, 9, 17], extremes=("columns",)))
        c["p"]["max_depth"] = draw(gen.weighted((None, 4), (2, 1), (3, 1), (4, 1), (6, 1)))
        c["p"]["min_samples_split"] = draw(gen.weighted((2, 4), (3, 1), (4, 1), (6, 1), (13, 1), (30, 1)))
        c["p"]["min_samples_leaf"] = draw(gen.weighted((1, 4), (2, 2), (3, 1), (4, 1), (9, 1)))
        return c

    return s()


def impure_for_sure(rt, i, criterion, exact):
    m = rt.tr[i]
    w, y = rt.bw[m], rt.y[m]
    W = w.sum()
    if not W > 0:
        return False
    if rt.k is None:
        s = np.array([[(w * y).sum(), (w * y * y).sum()]])
        scale = np.abs(y).max() ** 2
        k = 2
    else:
        s = np.array([[(w * (y == q)).sum() for q in range(rt.k)]])
        scale, k = 1.0, rt.k
    imp = float(splits.impurity(s, np.array([W]), rt.k, criterion)[0])
    if exact:
        tol = ref.EPS32 * scale * (16 + 4 * k)
    else:
        p = int(rt.v.parent[i])
        mp = rt.tr[p]
        ratio = rt.bw[mp].sum() / W
        if rt.k is None:
            scale = np.abs(rt.y[mp]).max() ** 2
        tol = ref.EPS32 * scale * 8 * (len(mp) + 16) * k * ratio
        if criterion == "entropy":  # p log p is steep near zero
            tol = max(tol, 8 * tol * max(1.0, -np.log(max(tol, 1e-30))))
    return imp > tol


def check(case):
    d = gen.materialise(case)
    f = ref.fit_forest(case, d)
    rts, B, nb = ref.ref_trees(case, d, f)
    p = case["p"]
    exact = _base.is_exact(case)
    agg, msl, mss, md = p["aggregation"], p["min_samples_leaf"], p["min_samples_split"], p["max_depth"]
    nf = d.X.shape[1]
    m = splits.n_candidates(p["max_features"], nf)
    criterion = p.get("criterion", "mse")
    strat = p.get("cat_split_strategy")
    n_split, searched = 0, 0
    for t, rt in enumerate(rts):
        v = rt.v
        budget = 60
        # depths from the links, not from what is recorded
        depth = np.zeros(v.node_count, dtype=int)
        for i in range(1, v.node_count):
            depth[i] = depth[int(v.parent[i])] + 1
        for i in range(v.node_count):
            ntr, nva = len(rt.tr[i]), len(rt.va[i])
            where = "tree %d node %d" % (t, i)
            if md is not None:
                require(depth[i] <= md, "%s: deeper than max_depth" % where, depth=depth[i])
            if not v.is_leaf[i]:
                n_split += 1
                require(ntr >= mss, "%s: split with less than min_samples_split in-bag samples" % where, n=ntr)
                if agg:
                    require(
                        nva >= mss, "%s: split with less than min_samples_split out-of-bag samples" % where, n=nva
                    )
                for c in (int(v.left[i]), int(v.right[i])):
                    require(
                        len(rt.tr[c]) >= msl,
                        "%s: a child has less than min_samples_leaf in-bag samples" % where, n=len(rt.tr[c]),
                    )
                    if agg:
                        require(
                            len(rt.va[c]) >= msl,
                            "%s: a child has less than min_samples_leaf out-of-bag samples" % where,
                            n=len(rt.va[c]),
                        )
                continue
            if ntr < mss or (agg and nva < mss) or (md is not None and depth[i] >= md) or budget == 0:
                continue
            if i > 0 and not impure_for_sure(rt, i, criterion, exact):
                continue
            budget -= 1
            searched += 1
            able = 0
            for j in range(nf):
                r = splits.best_along(rt, i, j, bool(d.is_cat[j]), strat, criterion, agg, msl)
                able += bool(r is not None and r[0])
            require(
                able <= nf - m,
                "%s: left as a leaf although it is impure and can be split" % where,
                features_with_a_valid_split=able, n_features=nf, max_features=m,
            )
    active = md is not None or mss > 2 or msl > 1
    return {
        "nontrivial": (active and n_split > 0) or searched > 0,
        "classes": gen.case_classes(case) + ["leaf searched"] * (searched > 0) + ["limits"] * bool(active),
        "observed": {"splits": n_split, "leaves searched": searched},
    }
