"""C27: inspection of a fitted forest."""

import pickle

import numpy as np
import pandas as pd

from .. import gen, ref, splits
from ..core import call, require
from . import _base

ROLES = ["clf", "reg"]
BUDGET = {"quick": {"examples": 1400, "cap": 60}, "thorough": {"examples": 50000, "cap": 600}}
RULE = (
    "Forests on generated data. For each tree the table of get_nodes must describe consistent samples (the in-bag and "
    "out-of-bag rows of the root are all the rows, those of a node are divided between its children), the impurity of "
    "each node but the root must be that of its in-bag samples, and the log weights of the subtrees must follow from the "
    "listed losses; path_leaf must list, for training and new rows, the splits recorded by get_nodes from the root to the "
    "leaf given by apply, with the side taken; get_depth, get_actual_depth and get_n_leaves must be those of the table; the "
    "attributes of the forest must describe the training data. All of this also after lighten or pickling. "
    "Non-trivial: some tree has a split."
)


def warmup(role):
    _base.warm_forest(role)


def strategy(role, tier):
    from hypothesis import strategies as st

    @st.composite
    def s(draw):
        c = draw(gen.forest_case(role, n_estimators=3, extremes=("rows", "columns", "classes", "nodes")))
        c["after"] = draw(st.sampled_from(["fit", "fit", "lighten", "pickle", "predict"]))
        c["frame"] = draw(st.booleans())
        return c

    return s()


def check_table(t, df, rt, case, n):
    nt, nv = df["n_samples_train"].values.astype(np.int64), df["n_samples_valid"].values.astype(np.int64)
    st, et = df["start_train"].values.astype(np.int64), df["end_train"].values.astype(np.int64)
    sv, ev = df["start_valid"].values.astype(np.int64), df["end_valid"].values.astype(np.int64)
    require(nt[0] + nv[0] == n, "tree %d: the samples of the root are %d + %d and not %d" % (t, nt[0], nv[0], n))
    require((et - st == nt).all() and (ev - sv == nv).all(), "tree %d: the ranges of samples have not the listed sizes" % t)
    leaf = df["is_leaf"].values.astype(bool)
    left, right = df["left_child"].values.astype(np.int64), df["right_child"].values.astype(np.int64)
    for i in np.flatnonzero(~leaf):
        l, r = left[i], right[i]
        require(
            st[l] == st[i] and et[l] == st[r] and et[r] == et[i] and sv[l] == sv[i] and ev[l] == sv[r] and ev[r] == ev[i],
            "tree %d: the samples of node %d are not divided between its children" % (t, i),
        )
    loss, lw = df["loss_valid"].values.astype(float), df["log_weight_tree"].values.astype(float)
    if case["p"]["aggregation"]:
        step = float(np.float32(case["p"]["step"]))
        for i in range(len(df)):
            own = -step * loss[i]
            if leaf[i]:
                want = own
            else:
                want = ref.logaddexp_half(own, lw[left[i]] + lw[right[i]])
            require(
                abs(lw[i] - want) <= 1e-9 * max(1.0, abs(want), abs(own)),
                "tree %d: log_weight_tree of node %d does not follow from the losses" % (t, i), got=lw[i], expected=want,
            )
    if rt is None:
        return
    crit = case["p"].get("criterion")
    imp = df["impurity"].values.astype(float)
    parent = df["parent"].values.astype(np.int64)
    for i in range(1, len(df)):
        m, mp = rt.tr[i], rt.tr[parent[i]]
        w, wp = rt.bw[m], rt.bw[mp]
        W, Wp = w.sum(), wp.sum()
        if W <= 0:
            continue
        if rt.k is None:
            y = rt.y[m]
            mean = (w * y).sum() / W
            want = (w * (y - mean) ** 2).sum() / W
            size = (wp * rt.y[mp] ** 2).sum() / W
        else:
            p = np.bincount(rt.y[m], weights=w, minlength=rt.k) / W
            if crit == "gini":
                want = 1.0 - (p ** 2).sum()
                size = 2 * Wp / W
            else:
                q = p[p > 0]
                want = -(q * np.log(q)).sum()
                size = (2 + abs(np.log(q)).max()) * Wp / W
        tol = 8 * ref.EPS32 * (len(mp) + 32) * max(size, abs(want)) * (rt.k or 1)
        if crit == "entropy":
            # a class emptied by subtraction may keep a rounding error e, counted as -e log e
            e = ref.EPS32 * (len(mp) + 32) * Wp / W
            tol += 4 * rt.k * e * (1 + abs(np.log(e)))
        require(
            abs(imp[i] - want) <= tol, "tree %d: the impurity of node %d is not that of its samples" % (t, i),
            got=imp[i], expected=want, tolerance=tol,
        )


def check_paths(t, f, X, rows, df, leaves):
    paths = call("path_leaf", f.path_leaf, X, t)
    require(len(paths) == rows, "path_leaf gives %d paths for %d rows" % (len(paths), rows))
    leaf = df["is_leaf"].values.astype(bool)
    left, right = df["left_child"].values.astype(np.int64), df["right_child"].values.astype(np.int64)
    feature, thr = df["feature"].values, df["bin_threshold"].values
    part, iscat = df["bin_partition"].values, df["is_split_categorical"].values.astype(bool)
    parent = df["parent"].values.astype(np.int64)
    for i in range(rows):
        up, j = [int(leaves[i])], int(leaves[i])
        require(leaf[j], "apply returns node %d of tree %d, which is not a leaf" % (j, t))
        while j != 0:
            j = int(parent[j])
            up.append(j)
        nodes = up[::-1]
        p = paths[i]
        require(len(p) == len(nodes) - 1, "tree %d row %d: the path has %d decisions and not %d" % (t, i, len(p), len(nodes) - 1))
        for k in range(len(p)):
            a, b = nodes[k], nodes[k + 1]
            where = "tree %d row %d: decision %d of the path " % (t, i, k)
            require(int(p["depth"][k]) == k, where + "has depth %s" % p["depth"][k])
            require(int(p["feature"][k]) == int(feature[a]), where + "is on feature %s" % p["feature"][k])
            require(bool(p["is_split_categorical"][k]) == bool(iscat[a]), where + "is of the wrong kind")
            if iscat[a]:
                require(p["bin_partition"][k] == part[a], where + "has categories %s" % p["bin_partition"][k])
            else:
                require(int(p["bin_threshold"][k]) == int(thr[a]), where + "has threshold %s" % p["bin_threshold"][k])
            side = "left" if b == left[a] else "right"
            require(str(p["decision"][k]).startswith(side), where + "is %r, and the row goes %s" % (p["decision"][k], side))


def check(case):
    d = gen.materialise(case)
    n, n_features = d.X.shape
    X, Xq = d.X, np.vstack([d.X[:3], d.Xt])
    if case["frame"]:
        X, Xq = pd.DataFrame(X), pd.DataFrame(Xq)
    f = ref.fit_forest(case, d, X=X)
    rts, _, _ = ref.ref_trees(case, d, f)
    if case["after"] == "lighten":
        call("lighten", f.lighten)
    elif case["after"] == "pickle":
        f = pickle.loads(pickle.dumps(f))
    elif case["after"] == "predict":
        ref.raw_predict(f, Xq)
    p = case["p"]
    require(f.n_samples_in_ == n and f.n_features_in_ == n_features, "n_samples_in_ or n_features_in_ is wrong")
    require(np.asarray(f.is_categorical_).astype(bool).tolist() == np.asarray(d.is_cat).astype(bool).tolist(), "is_categorical_ is wrong")
    if case["kind"] == "clf":
        classes = np.unique(d.y)
        require(f.n_classes_ == len(classes) and list(f.classes_) == list(classes), "n_classes_ or classes_ is wrong")
    leaves = np.asarray(call("apply", f.apply, Xq)).astype(np.int64)
    deepest = 0
    for t, tree in enumerate(f.trees):
        if rts[t].v.node_count > 12000:
            continue
        df = call("get_nodes", f.get_nodes, t)
        check_table(t, df, rts[t], case, n)
        depth, n_leaves = int(df["depth"].max()), int(df["is_leaf"].sum())
        deepest = max(deepest, depth)
        require(
            call("get_depth", tree.get_depth) == depth and int(call("get_actual_depth", tree.get_actual_depth)) == depth,
            "tree %d: the depth is %d" % (t, depth), got=[tree.get_depth(), tree.get_actual_depth()],
        )
        require(call("get_n_leaves", tree.get_n_leaves) == n_leaves, "tree %d has %d leaves" % (t, n_leaves), got=tree.get_n_leaves())
        if t < 2:
            some = Xq if t == 0 else Xq[:8]
            check_paths(t, f, some, len(some), df, leaves[t])
    return {
        "nontrivial": deepest >= 1,
        "classes": gen.case_classes(case) + ["after:" + case["after"], "frame" if case["frame"] else "array"],
        "observed": {"depth": deepest},
    }
