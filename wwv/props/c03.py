"""C03: a tree's prediction is the exponentially weighted average over all its prunings."""

import numpy as np

from .. import gen, ref
from ..core import Skip, call, require
from . import _base

ROLES = ["clf", "reg"]
BUDGET = {"quick": {"examples": 2400, "cap": 60}, "thorough": {"examples": 60000, "cap": 600}}
RULE = (
    "Forests with aggregation=True on generated data (1 to 5 columns, 2 to 400 rows, weights, "
    "classes, steps, categorical and missing values). Each tree prediction is compared with the "
    "weighted average over all prunings (enumerated one by one up to 2000 of them, by a double "
    "precision recursion beyond), first with the stored node values, then with node values "
    "recomputed from the data. Non-trivial: some tree has at least 2 splits, so at least 3 prunings."
)
ASSUMPTIONS = ["prior of a pruning: 2 to the minus the number of its nodes that are split in the full tree"]
warmup = _base.warm_forest


def strategy(role, tier):
    return gen.forest_case(role, aggregation=True, cap=250, large="rare", n_estimators=3, extremes=("rows", "columns", "nodes"))


def check(case):
    d = gen.materialise(case)
    f = ref.fit_forest(case, d)
    rts, B, nb = ref.ref_trees(case, d, f)
    step = float(np.float32(case["p"]["step"]))
    Xq = np.vstack([d.X[:40], d.Xt]) if len(d.Xt) else d.X[:40]
    Bq, _ = ref.bins_of(f, Xq)
    preds = ref.tree_predict(f, Xq)
    depths = None
    if case["kind"] == "reg":
        depths = call("_weighted_depth", f._weighted_depth, Xq) if hasattr(f, "_weighted_depth") else None
    exact = _base.is_exact(case)
    most, brute_used, e2e = 1, 0, 0
    for t, rt in enumerate(rts):
        v = rt.v
        np_ = ref.n_prunings(v)
        most = max(most, np_)
        leaf = ref.leaves(v, Bq)
        scale = max(1e-30, np.abs(v.y_pred).max())
        depth = int(v.depth.max())
        # with the stored node predictions and losses
        lw, agg = ref.aggregate(v, v.y_pred, v.loss, step)
        # rounding of the exponents, which are differences of sums of large losses
        dexp = step * np.abs(v.loss).sum() * 2.3e-16 * 8 * (2 + depth)
        if dexp > 1e-2:
            raise Skip("losses too large for the exponents to have any digit")
        if np_ <= 300:
            brute_used += 1
            bf = ref.brute_force(v, v.y_pred, v.loss, step)
            for l in bf:
                if not np.allclose(bf[l], agg[l], rtol=1e-7, atol=scale * (1e-9 + 4 * dexp)):
                    raise AssertionError("the two reference computations differ")
            agg = bf
        got = np.asarray(preds[t], dtype=np.float64)
        exp = np.array([agg[l] for l in leaf]).reshape(got.shape)
        tol = scale * (2e-5 + 1e-6 * depth + 4 * dexp)
        err = np.abs(got - exp)
        require(
            np.all(err <= tol),
            "tree %d: the prediction is not the weighted average over the prunings of the tree" % t,
            error=float(err.max()) if err.size else 0.0, tol=tol, n_prunings=np_,
        )
        if depths is not None:
            _, aggd = ref.aggregate(v, v.depth.astype(float), v.loss, step)
            expd = np.array([aggd[l] for l in leaf])
            require(
                np.all(np.abs(np.asarray(depths[t], dtype=float) - expd) <= (1e-4 + 4 * dexp) * (1 + depth)),
                "tree %d: the weighted depth is not the average depth over the prunings" % t,
            )
        # with node values recomputed from the data
        n = v.node_count
        rp, rl, dl, dp = [], np.empty(n), 0.0, 0.0
        for i in range(n):
            p_i = rt.pred(i, float(np.float32(case["p"].get("dirichlet", 0.0))))
            l_i = rt.loss(i, p_i)
            pt = _base.pred_tol(rt, i, exact)
            dl += _base.loss_tol(rt, i, p_i, l_i, pt)
            dp = max(dp, pt)
            rp.append(p_i)
            rl[i] = l_i
        delta = step * dl
        if np.isfinite(delta) and delta < 0.2:
            e2e += 1
            rp = np.array(rp)
            _, agg2 = ref.aggregate(v, rp, rl, step)
            exp2 = np.array([agg2[l] for l in leaf]).reshape(got.shape)
            spread = rp.max() - rp.min()
            tol2 = tol + dp + spread * 2 * delta
            err = np.abs(got - exp2)
            require(
                np.all(err <= tol2),
                "tree %d: the prediction differs from the average over the prunings weighted by "
                "the out-of-bag losses computed from the data" % t,
                error=float(err.max()) if err.size else 0.0, tol=float(tol2), n_prunings=np_,
            )
    cl = gen.case_classes(case)
    if brute_used:
        cl.append("all prunings enumerated")
    if e2e:
        cl.append("weights recomputed from data")
    return {"nontrivial": most >= 3, "classes": cl, "observed": {"trees": len(rts), "prunings": str(most)}}
