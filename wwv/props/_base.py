"""What most properties share."""

import numpy as np

from .. import gen, ref


def warm_forest(role):
    """Compiles fit and predict for the role."""
    import wildwood

    rng = np.random.RandomState(0)
    X = rng.normal(size=(30, 2))
    X[:, 1] = rng.randint(0, 3, size=30)
    if role == "clf":
        y = rng.randint(0, 2, size=30)
        f = wildwood.ForestClassifier(n_estimators=1, random_state=0)
        f.fit(X, y, categorical_features=[False, True])
        f.predict_proba(X)
        f.dirichlet = 0.7
    else:
        f = wildwood.ForestRegressor(n_estimators=1, random_state=0)
        f.fit(X, rng.normal(size=30), categorical_features=[False, True])
        f.predict(X)
    f.apply(X)


def is_exact(case, d=None):
    """All the sums made by the code are exact in single precision."""
    w_ok = case["w"] in ("none", "ones", "int", "intzero")
    if case["kind"] == "clf":
        return w_ok and case["p"]["class_weight"] is None
    return w_ok and case["y"]["t"] in ("int", "binary") and not case["y"].get("chain")


def pred_tol(rt, i, exact):
    """Bound on the rounding error of the stored prediction of node i."""
    n = len(rt.tr[i])
    scale = 1.0 if rt.k is not None else max(1e-30, np.abs(rt.y[rt.tr[i]]).max(initial=0.0))
    return ref.EPS32 * scale * (4 if exact else 2 * (n + 8))


def loss_tol(rt, i, pred, loss, ptol):
    n = len(rt.va[i])
    W = rt.bw[rt.va[i]].sum()
    base = ref.EPS32 * (n + 8) * abs(loss)
    if rt.k is not None:
        m = rt.va[i]
        pmin = pred[rt.y[m]].min() if len(m) else 1.0
        # relative error of the probabilities
        n_tr = len(rt.tr[i])
        return base + W * ref.EPS32 * 2 * (n_tr + 8) + W * ref.EPS32 * 4 * (1 + abs(np.log(max(pmin, 1e-300))))
    return base + 2 * np.sqrt(abs(loss) * W) * ptol + W * ptol ** 2 + ref.EPS32 * W * ptol


def dump(f):
    """Everything the trees of a forest store, for exact comparisons (None if it cannot be
    read)."""
    from ..core import Skip

    try:
        views = [ref.view(t) for t in f.trees]
    except Skip:
        return None
    return [
        {
            "is_leaf": v.is_leaf, "left": np.where(v.is_leaf, 0, v.left), "right": np.where(v.is_leaf, 0, v.right),
            "feature": np.where(v.is_leaf, 0, v.feature), "thr": np.where(v.is_leaf | v.iscat, 0, v.thr),
            "partition": [sorted(s) if c else None for s, c in zip(v.partition, v.iscat)],
            "y_pred": v.y_pred, "n_train": v.nodes["n_samples_train"], "n_valid": v.nodes["n_samples_valid"],
            "loss": v.loss, "log_weight": v.log_weight,
        }
        for v in views
    ]


def same_dump(a, b, aggregation=True, values=True):
    """Returns None or what differs."""
    if a is None or b is None:
        return None
    if len(a) != len(b):
        return "number of trees"
    for t, (x, y) in enumerate(zip(a, b)):
        for k in x:
            if k in ("loss", "log_weight") and not aggregation:
                continue
            if k in ("y_pred", "loss", "log_weight") and not values:
                continue
            if k == "partition":
                ok = x[k] == y[k]
            else:
                ok = x[k].shape == y[k].shape and np.array_equal(x[k], y[k], equal_nan=x[k].dtype.kind == "f")
            if not ok:
                return "tree %d: %s" % (t, k)
    return None


def close(a, b, rtol=1e-12):
    a, b = np.asarray(a, dtype=float), np.asarray(b, dtype=float)
    if a.shape != b.shape:
        return False
    scale = max(1.0, np.abs(b).max(initial=0.0)) if np.isfinite(b).all() else 1.0
    return bool(np.allclose(a, b, rtol=rtol, atol=rtol * scale, equal_nan=True))
