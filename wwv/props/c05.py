"""C05: tree structure, apply, get_nodes."""

import numpy as np

from .. import gen, ref
from ..core import Skip, call, require
from . import _base

ROLES = ["clf", "reg"]
BUDGET = {"quick": {"examples": 2400, "cap": 60}, "thorough": {"examples": 60000, "cap": 600}}
RULE = (
    "Forests on generated data, up to 4500 rows (trees of several thousand nodes). The nodes must "
    "form one binary tree; for training rows and new rows (missing, unknown categories, infinities) "
    "the leaf reached by the reference walk through the recorded splits, on bins computed by the "
    "reference from thresholds and categories, must be the one returned by apply. Non-trivial: some tree "
    "has depth at least 2."
)
warmup = _base.warm_forest


def strategy(role, tier):
    return gen.forest_case(role, n_estimators=3, extremes=("rows", "columns", "classes", "nodes"))


def check_nodes(f, t, v, df):
    n = v.node_count
    require(len(df) == n, "tree %d: get_nodes lists %d nodes instead of %d" % (t, len(df), n))
    col = {c: df[c].values for c in df.columns}
    require(list(col["node_id"]) == list(range(n)), "tree %d: node_id are not 0..n-1" % t)
    for name, ref_values in (
        ("parent", v.parent), ("left_child", v.left), ("right_child", v.right), ("depth", v.depth),
        ("feature", v.feature), ("is_leaf", v.is_leaf), ("bin_threshold", v.thr),
        ("is_split_categorical", v.iscat),
    ):
        got = np.asarray(col[name]).astype(np.int64)
        exp = np.asarray(ref_values).astype(np.int64)
        if name in ("left_child", "right_child", "feature", "bin_threshold", "is_split_categorical"):
            got, exp = got[~v.is_leaf], exp[~v.is_leaf]
        if name == "parent":
            got, exp = got[1:], exp[1:]
        require(np.array_equal(got, exp), "tree %d: get_nodes column %s is wrong" % (t, name))
    is_left = np.asarray(col["is_left"]).astype(bool)
    for i in range(n):
        if not v.is_leaf[i]:
            l, r = int(v.left[i]), int(v.right[i])
            require(is_left[l] and not is_left[r], "tree %d: left/right marks of the children of %d are wrong" % (t, i))
    require(not is_left[0], "tree %d: the root is marked as a left child" % t)


def check(case):
    d = gen.materialise(case)
    f = ref.fit_forest(case, d)
    B, nb = ref.bins_of(f, d.X)
    Xq = np.vstack([d.X[:300], d.Xt])
    Bq, _ = ref.bins_of(f, Xq)
    leaf = np.asarray(call("apply", f.apply, Xq))
    require(leaf.shape == (len(f.trees), len(Xq)), "apply has a wrong shape", got=leaf.shape)
    deepest, largest = 0, 0
    for t, tree in enumerate(f.trees):
        v = ref.view(tree)
        ref.check_links(v, d.X.shape[1])
        require(v.depth[0] == 0, "tree %d: the depth of the root is not 0" % t)
        for i in range(v.node_count):
            if not v.is_leaf[i]:
                for c in (int(v.left[i]), int(v.right[i])):
                    require(v.depth[c] == v.depth[i] + 1, "tree %d: the depth of node %d is wrong" % (t, c))
                j = int(v.feature[i])
                require(
                    bool(v.iscat[i]) == bool(d.is_cat[j]),
                    "tree %d node %d: the kind of the split is not that of the feature" % (t, i),
                )
                if v.iscat[i]:
                    require(
                        len(v.partition[i]) > 0 and all(0 <= b <= nb[j] for b in v.partition[i]),
                        "tree %d node %d: invalid set of bins" % (t, i), got=sorted(v.partition[i]),
                    )
        deepest = max(deepest, int(v.depth.max()))
        largest = max(largest, v.node_count)
        exp = ref.leaves(v, Bq)
        bad = np.nonzero(exp != leaf[t].astype(np.int64))[0]
        require(
            len(bad) == 0,
            "tree %d: apply does not return the leaf reached by following the splits" % t,
            rows=bad[:5], got=leaf[t][bad[:5]], expected=exp[bad[:5]],
        )
        try:
            tr, va, _ = ref.bootstrap(tree)
        except Skip:
            tr = va = np.empty(0, dtype=np.int64)
        for what, rows in (("in-bag", tr), ("out-of-bag", va)) if case["p"]["aggregation"] else (("in-bag", tr),):
            if not len(tr):
                break
            got = np.asarray(v.nodes["n_samples_train" if what == "in-bag" else "n_samples_valid"]).astype(np.int64)[v.is_leaf]
            exp = np.bincount(ref.leaves(v, B[rows]), minlength=v.node_count)[v.is_leaf]
            bad = np.flatnonzero(got != exp)
            require(
                len(bad) == 0, "tree %d: a leaf was not grown on the %s rows that follow the path to it" % (t, what),
                leaves=np.flatnonzero(v.is_leaf)[bad[:5]], got=got[bad[:5]], expected=exp[bad[:5]],
            )
        if v.node_count <= 300:
            df = call("get_nodes", f.get_nodes, t)
            check_nodes(f, t, v, df)
    return {
        "nontrivial": deepest >= 2,
        "classes": gen.case_classes(case) + (["nodes>2047"] if largest > 2047 else []),
        "observed": {"depth": deepest, "rows": len(Xq)},
    }
