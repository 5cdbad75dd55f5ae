"""Reference model: reads a fitted forest's trees and recomputes, in double precision and
from the raw data only, what every node should contain."""

import numpy as np

from .core import Skip, call, violate

EPS32 = float(np.finfo(np.float32).eps)


# ------------------------------------------------------------------ fitting


def forest_params(case):
    p = dict(case["p"])
    return p


def new_forest(case, **override):
    import wildwood

    p = forest_params(case)
    p.update(override)
    cls = wildwood.ForestClassifier if case["kind"] == "clf" else wildwood.ForestRegressor
    return call("the constructor", cls, **p)


def fit_forest(case, d, X=None, y=None, w="data", cat="mask", **override):
    f = new_forest(case, **override)
    kw = {}
    w = d.w if isinstance(w, str) else w
    if w is not None:
        kw["sample_weight"] = w
    if case.get("rd"):
        # Depths drawn at random for each tree: only C08 generates this
        kw["randomized_depth"] = True
    if isinstance(cat, str):
        kw["categorical_features"] = d.is_cat
    elif cat is not None:
        kw["categorical_features"] = cat
    call("fit", f.fit, d.X if X is None else X, d.y if y is None else y, **kw)
    return f


def raw_predict(f, X):
    """Probabilities for a classifier, values for a regressor."""
    if hasattr(f, "predict_proba"):
        return call("predict_proba", f.predict_proba, X)
    return call("predict", f.predict, X)


def tree_predict(f, X):
    if hasattr(f, "predict_proba_trees"):
        return call("predict_proba_trees", f.predict_proba_trees, X)
    return call("predict_trees", f.predict_trees, X)


# ------------------------------------------------------------------ reading trees


class TreeView:
    pass


def view(tree):
    """Reads what a fitted tree stores."""
    try:
        core = tree._tree_classifier if tree.is_classifier else tree._tree_regressor
        nc = int(core.node_count)
        v = TreeView()
        v.node_count = nc
        nodes = np.array(core.nodes[:nc])
        v.nodes = nodes
        v.y_pred = np.array(core.y_pred[:nc], dtype=np.float64)
        parts = np.array(core.bin_partitions)
        v.is_leaf = nodes["is_leaf"].astype(bool)
        v.left = nodes["left_child"].astype(np.int64)
        v.right = nodes["right_child"].astype(np.int64)
        v.parent = nodes["parent"].astype(np.int64)
        v.feature = nodes["feature"].astype(np.int64)
        v.thr = nodes["bin_threshold"].astype(np.int64)
        v.iscat = nodes["is_split_categorical"].astype(bool)
        v.depth = nodes["depth"].astype(np.int64)
        v.partition = [
            set(parts[int(a) : int(b)].tolist())
            for a, b in zip(nodes["bin_partition_start"], nodes["bin_partition_end"])
        ]
        v.loss = nodes["loss_valid"].astype(np.float64)
        v.log_weight = nodes["log_weight_tree"].astype(np.float64)
        return v
    except (AttributeError, KeyError, ValueError) as e:
        raise Skip("the trees cannot be read: %r" % (e,))


def bootstrap(tree):
    """In-bag rows, out-of-bag rows and the weights used by the tree."""
    try:
        ctx = tree._tree_classifier_context if tree.is_classifier else tree._tree_regressor_context
        return (
            np.array(tree._train_indices, dtype=np.int64),
            np.array(tree._valid_indices, dtype=np.int64),
            np.array(ctx.sample_weights, dtype=np.float64),
        )
    except (AttributeError, TypeError, ValueError) as e:
        raise Skip("the bootstrap samples cannot be read: %r" % (e,))


def check_links(v, d_features):
    """The nodes form one rooted binary tree (needed before anything is routed)."""
    n = v.node_count
    if n < 1:
        violate("a fitted tree has no node")
    seen = np.zeros(n, dtype=int)
    for i in range(n):
        if v.is_leaf[i]:
            continue
        l, r = int(v.left[i]), int(v.right[i])
        for c in (l, r):
            if not (0 < c < n) or c <= i:
                violate("node %d has a child index %d out of range" % (i, c))
            seen[c] += 1
            if int(v.parent[c]) != i:
                violate("node %d is a child of %d but its parent is %d" % (c, i, v.parent[c]))
        if l == r:
            violate("both children of node %d are node %d" % (i, l))
        if not (0 <= v.feature[i] < d_features):
            violate("node %d splits on feature %d out of range" % (i, v.feature[i]))
    if n > 1 and (seen[1:] != 1).any():
        violate("a node is not the child of exactly one node")


def bins_of(forest, X):
    """Bins of the rows of a float array, from the fitted thresholds and categories."""
    try:
        enc = forest._encoder
        thr, cats = enc.binning_thresholds_, enc.categories_
        nb = np.asarray(enc.n_bins_no_missing_values_).astype(np.int64)
    except AttributeError as e:
        raise Skip("the encoder cannot be read: %r" % (e,))
    n, d = X.shape
    B = np.empty((n, d), dtype=np.int64)
    for j in range(d):
        x = X[:, j].astype(np.float64)
        if j in cats:
            lookup = {float(c): k for k, c in enumerate(cats[j])}
            B[:, j] = [
                nb[j] if np.isnan(z) else lookup.get(float(z), nb[j]) for z in x
            ]
        else:
            b = np.searchsorted(np.asarray(thr[j], dtype=np.float64), x, side="left")
            B[:, j] = np.where(np.isnan(x), nb[j], b)
    return B, nb


def goes_left(v, i, bins):
    if v.iscat[i]:
        return np.array([int(b) in v.partition[i] for b in bins], dtype=bool)
    return bins <= v.thr[i]


def route(v, B, rows):
    """members[i]: the rows that reach node i, following the splits from the root."""
    members = [None] * v.node_count
    members[0] = np.asarray(rows, dtype=np.int64)
    for i in range(v.node_count):
        if v.is_leaf[i]:
            continue
        m = members[i]
        left = goes_left(v, i, B[m, v.feature[i]])
        members[int(v.left[i])] = m[left]
        members[int(v.right[i])] = m[~left]
    return members


def leaves(v, B):
    out = np.empty(B.shape[0], dtype=np.int64)
    members = route(v, B, np.arange(B.shape[0]))
    for i in range(v.node_count):
        if v.is_leaf[i]:
            out[members[i]] = i
    return out


# ------------------------------------------------------------------ per tree problem


def effective(case, d):
    """For each tree: the labels it is trained on and the weights before the bootstrap."""
    p = case["p"]
    if case["kind"] == "reg":
        y = d.y.astype(np.float32).astype(np.float64)
        return [(y, d.weff, None)] * p["n_estimators"]
    classes, y = np.unique(d.y, return_inverse=True)
    k = len(classes)
    base = d.weff

    def balance(yy):
        if p["class_weight"] is None:
            return base
        counts = np.bincount(yy)
        present = counts > 0
        cw = np.zeros(len(counts))
        cw[present] = len(yy) / (present.sum() * counts[present])
        return (base * cw[yy]).astype(np.float32).astype(np.float64)

    if p["multiclass"] == "ovr" and k > 2:
        out = []
        for c in range(k):
            yy = (y == c).astype(int)
            out.extend([(yy, balance(yy), 2)] * p["n_estimators"])
        return out
    return [(y, balance(y), k)] * p["n_estimators"]


class RefTree:
    """A stored tree, its bootstrap samples routed through it and the node statistics
    recomputed in double precision."""

    def __init__(self, tree, B, y, w, k):
        self.v = v = view(tree)
        check_links(v, B.shape[1])
        self.train, self.valid, self.bw = bootstrap(tree)
        self.y, self.w, self.k = y, w, k
        self.B = B
        self.tr = route(v, B, self.train)
        self.va = route(v, B, self.valid)

    def w_train(self, i):
        return self.bw[self.tr[i]].sum()

    def pred(self, i, dirichlet=None):
        m = self.tr[i]
        wm = self.bw[m]
        if self.k is None:
            return (wm * self.y[m]).sum() / wm.sum()
        s = np.bincount(self.y[m], weights=wm, minlength=self.k)
        return (s + dirichlet) / (wm.sum() + self.k * dirichlet)

    def loss(self, i, pred):
        m = self.va[i]
        wm = self.bw[m]
        if self.k is None:
            return (wm * (self.y[m] - pred) ** 2).sum()
        return -(wm * np.log(pred[self.y[m]])).sum()


def ref_trees(case, d, forest, X=None):
    """One RefTree per tree (rows of the training data)."""
    B, nb = bins_of(forest, d.X if X is None else X)
    eff = effective(case, d)
    if len(forest.trees) != len(eff):
        violate(
            "the forest has %d trees instead of %d" % (len(forest.trees), len(eff))
        )
    return [RefTree(t, B, y, w, k) for t, (y, w, k) in zip(forest.trees, eff)], B, nb


# ------------------------------------------------------------------ aggregation


def logaddexp_half(a, b):
    return np.logaddexp(a, b) - np.log(2.0)


def aggregate(v, preds, losses, step):
    """Recursion in double precision: for each node, log of the total weight of the
    prunings of the subtree under it, and for each leaf the aggregated prediction."""
    n = v.node_count
    lw = np.empty(n)
    for i in range(n - 1, -1, -1):
        s = -step * losses[i]
        if v.is_leaf[i]:
            lw[i] = s
        else:
            lw[i] = logaddexp_half(s, lw[int(v.left[i])] + lw[int(v.right[i])])
    out = {}
    for i in range(n):
        if v.is_leaf[i]:
            p = np.array(preds[i], dtype=np.float64)
            j = i
            while j != 0:
                j = int(v.parent[j])
                a = 0.5 * np.exp(-step * losses[j] - lw[j])
                p = a * preds[j] + (1 - a) * p
            out[i] = p
    return lw, out


def prunings(v, i=0, limit=4000):
    """All prunings of the subtree under i, as (leaves, number of choices made)."""
    if v.is_leaf[i]:
        return [((i,), 0)]
    ls = prunings(v, int(v.left[i]), limit)
    rs = prunings(v, int(v.right[i]), limit)
    if len(ls) * len(rs) > limit:
        raise OverflowError
    out = [((i,), 1)]
    for a, ka in ls:
        for b, kb in rs:
            out.append((a + b, ka + kb + 1))
    return out


def n_prunings(v):
    cnt = [0] * v.node_count
    for i in range(v.node_count - 1, -1, -1):
        cnt[i] = 1 if v.is_leaf[i] else 1 + cnt[int(v.left[i])] * cnt[int(v.right[i])]
    return cnt[0]


def brute_force(v, preds, losses, step):
    """Explicit average over all prunings T of the tree: weight
    2^(-number of choices of T) exp(-step * sum of the losses of the leaves of T)."""
    ps = prunings(v)
    logs = np.array([-c * np.log(2.0) - step * sum(losses[l] for l in T) for T, c in ps])
    m = logs.max()
    ws = np.exp(logs - m)
    ws /= ws.sum()
    anc = {}
    for i in range(v.node_count):
        if v.is_leaf[i]:
            path, j = {i}, i
            while j != 0:
                j = int(v.parent[j])
                path.add(j)
            anc[i] = path
    out = {}
    for leaf, path in anc.items():
        acc = 0.0
        for (T, _), w in zip(ps, ws):
            node = [l for l in T if l in path]
            if len(node) != 1:
                raise AssertionError("a pruning must cover each leaf once")
            acc = acc + w * np.asarray(preds[node[0]], dtype=np.float64)
        out[leaf] = acc
    return out
