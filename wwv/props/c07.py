"""C07: optimal splits."""

import numpy as np

from .. import gen, ref, splits
from ..core import require
from . import _base

ROLES = ["clf", "reg"]
BUDGET = {"quick": {"examples": 2400, "cap": 70}, "thorough": {"examples": 50000, "cap": 600}}
RULE = (
    "Forests on generated data; at up to 40 internal nodes per tree the recorded split is compared with a "
    "brute-force search over all cuts of the chosen feature and of the other features. Non-trivial: "
    "some compared node has at least two admissible cuts to choose from."
)
ASSUMPTIONS = [
    "objective compared up to the rounding of single precision sums",
    "categorical features having a category of zero weight in the node are not compared",
]
warmup = _base.warm_forest


def strategy(role, tier):
    from hypothesis import strategies as st

    base = gen.forest_case(
        role, n_estimators=2, cap=250, large=False, cat_card=[2, 3, 4, 6, 9, 17, 40],
        reg_labels=("int", "int", "gauss", "binary", "scaled", "offset", "tiny"), extremes=("columns",),
    )

    def tweak(t):
        c, r = t
        if r < 4:
            c["p"]["max_features"] = None
        if r % 2 == 0 and c["w"] in ("float", "small", "big", "floatzero"):
            c["w"] = "int"
        return c

    return st.tuples(base, st.integers(0, 9)).map(tweak)


def check(case):
    d = gen.materialise(case)
    f = ref.fit_forest(case, d)
    rts, B, nb = ref.ref_trees(case, d, f)
    p = case["p"]
    exact = _base.is_exact(case)
    agg, msl = p["aggregation"], p["min_samples_leaf"]
    nf = d.X.shape[1]
    m = splits.n_candidates(p["max_features"], nf)
    criterion = p.get("criterion", "mse")
    strat = p.get("cat_split_strategy")
    compared, choice = 0, False
    for t, rt in enumerate(rts):
        v = rt.v
        internal = np.nonzero(~v.is_leaf)[0]
        if len(internal) > 40:
            internal = np.concatenate([internal[:20], internal[20 :: max(1, (len(internal) - 20) // 20)][:20]])
        for i in internal:
            i = int(i)
            where = "tree %d node %d" % (t, i)
            tol = splits.objective_tol(rt, i, exact)
            obj = splits.split_objective(rt, i, criterion)
            require(np.isfinite(obj), "%s: a child has no weight" % where)
            j = int(v.feature[i])
            compared += 1
            iscat = bool(d.is_cat[j])
            if iscat:
                cs = splits.consistent_classes(rt, i, strat)
                if cs is None:
                    continue
                require(
                    len(cs) > 0,
                    "%s: the categories of the left child do not come first in the order of the labels" % where,
                    partition=sorted(v.partition[i]),
                )
            r = splits.best_along(rt, i, j, iscat, strat, criterion, agg, msl)
            if r is not None and r[0]:
                if not (iscat and strat == "random"):
                    require(
                        obj <= r[1] + tol,
                        "%s: there is a better split along the same feature" % where,
                        feature=j, objective=obj, best=r[1], tol=tol,
                    )
                else:
                    h = splits.Hist(rt, i, j)
                    bests = []
                    for c in cs:
                        order, sure = splits.group_cuts(h.keys(rt.k, c), 1.0)
                        ok, ob = h.evaluate(order, rt.k, criterion, agg, msl, True)
                        ok &= sure
                        bests.append(ob[ok].min() if ok.any() else np.inf)
                    require(
                        any(obj <= b + tol for b in bests),
                        "%s: there is a better split along the same feature for each order" % where,
                        feature=j, objective=obj, best=bests, tol=tol,
                    )
            better = 0
            for jj in range(nf):
                if jj == j:
                    continue
                rr = splits.best_along(rt, i, jj, bool(d.is_cat[jj]), strat, criterion, agg, msl)
                if rr is not None and rr[0]:
                    choice = True
                    if rr[1] < obj - tol:
                        better += 1
            require(
                better <= nf - m,
                "%s: %d features have a better split than the chosen one" % (where, better),
                objective=obj, max_features=m, n_features=nf,
            )
            if len(np.unique(rt.B[rt.tr[i], j])) > 2:
                choice = True
    return {
        "nontrivial": compared > 0 and choice,
        "classes": gen.case_classes(case) + (["exact sums"] if exact else []) + (["all features"] if m == nf and nf > 1 else []),
        "observed": {"nodes compared": compared},
    }
