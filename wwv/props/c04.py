"""C04: node predictions and out-of-bag losses come from the samples of the node."""

import numpy as np

from .. import gen, ref
from ..core import require
from . import _base

ROLES = ["clf", "reg"]
BUDGET = {"quick": {"examples": 2400, "cap": 60}, "thorough": {"examples": 60000, "cap": 600}}
RULE = (
    "Forests on generated data. In-bag and out-of-bag rows are routed down each tree by the "
    "reference model and every node's sample counts, weights, prediction and out-of-bag loss are "
    "recomputed in double precision. Non-trivial: some tree has an internal node with both kinds "
    "of samples on each side."
)
warmup = _base.warm_forest


def strategy(role, tier):
    return gen.forest_case(role, n_estimators=3, extremes=("rows", "columns", "classes"))


def check(case):
    d = gen.materialise(case)
    f = ref.fit_forest(case, d)
    rts, B, nb = ref.ref_trees(case, d, f)
    exact = _base.is_exact(case)
    agg = case["p"]["aggregation"]
    dirichlet = float(np.float32(case["p"].get("dirichlet", 0.0)))
    Xq = np.vstack([d.X[:30], d.Xt])
    Bq, _ = ref.bins_of(f, Xq)
    preds = ref.tree_predict(f, Xq)
    nontrivial = False
    nodes_checked = 0
    for t, rt in enumerate(rts):
        v = rt.v
        rp = []
        for i in range(v.node_count):
            nodes_checked += 1
            where = "tree %d node %d" % (t, i)
            require(
                int(v.nodes["n_samples_train"][i]) == len(rt.tr[i]),
                "%s: the number of in-bag samples is wrong" % where,
                stored=int(v.nodes["n_samples_train"][i]), expected=len(rt.tr[i]),
            )
            require(
                int(v.nodes["n_samples_valid"][i]) == len(rt.va[i]),
                "%s: the number of out-of-bag samples is wrong" % where,
                stored=int(v.nodes["n_samples_valid"][i]), expected=len(rt.va[i]),
            )
            W = rt.w_train(i)
            wt = max(1e-30, W * ref.EPS32 * (4 if exact else 2 * (len(rt.tr[i]) + 8)))
            require(
                abs(float(v.nodes["w_samples_train"][i]) - W) <= wt,
                "%s: the weight of the in-bag samples is wrong" % where,
                stored=float(v.nodes["w_samples_train"][i]), expected=W,
            )
            p = rt.pred(i, dirichlet)
            rp.append(p)
            pt = _base.pred_tol(rt, i, exact)
            require(
                np.all(np.abs(v.y_pred[i] - p) <= pt),
                "%s: the prediction is not computed from the in-bag samples of the node" % where,
                stored=v.y_pred[i], expected=p, tol=pt,
            )
            if agg:
                l = rt.loss(i, p)
                lt = _base.loss_tol(rt, i, p, l, pt)
                require(
                    abs(v.loss[i] - l) <= lt + 1e-12,
                    "%s: the loss is not the weighted loss on the out-of-bag samples" % where,
                    stored=v.loss[i], expected=l, tol=lt,
                )
                Wv = rt.bw[rt.va[i]].sum()
                require(
                    abs(float(v.nodes["w_samples_valid"][i]) - Wv) <= Wv * ref.EPS32 * 2 * (len(rt.va[i]) + 8),
                    "%s: the weight of the out-of-bag samples is wrong" % where,
                    stored=float(v.nodes["w_samples_valid"][i]), expected=Wv,
                )
        if not agg:
            leaf = ref.leaves(v, Bq)
            rp = np.array(rp)
            scale = max(1e-30, np.abs(rp).max())
            got = np.asarray(preds[t], dtype=float)
            exp = rp[leaf].reshape(got.shape)
            require(
                np.all(np.abs(got - exp) <= scale * ref.EPS32 * 2 * (d.n + 8)),
                "tree %d: without aggregation the prediction is not that of the leaf" % t,
            )
        for i in range(v.node_count):
            if not v.is_leaf[i] and len(rt.va[int(v.left[i])]) and len(rt.va[int(v.right[i])]):
                nontrivial = True
    return {"nontrivial": nontrivial, "classes": gen.case_classes(case), "observed": {"nodes": nodes_checked}}
