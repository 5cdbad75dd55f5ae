"""Brute-force split search on the samples of a node, in double precision."""

import math

import numpy as np

from . import ref


def n_candidates(max_features, d):
    """Number of features drawn at each node."""
    if max_features is None:
        return d
    if max_features in ("auto", "sqrt"):
        return max(1, int(math.sqrt(d)))
    if max_features == "log2":
        return max(1, int(math.log2(d)))
    if isinstance(max_features, float):
        return max(1, int(max_features * d))
    return max_features


def impurity(stats, w, k, criterion):
    """stats: (m, k) sums per class, or (m, 2) sums of labels and squared labels."""
    w = np.where(w > 0, w, np.nan)
    if k is None:
        return np.maximum(stats[:, 1] / w - (stats[:, 0] / w) ** 2, 0.0)
    p = np.clip(stats / w[:, None], 0.0, 1.0)
    if criterion == "gini":
        return 1.0 - (p ** 2).sum(axis=1)
    with np.errstate(divide="ignore", invalid="ignore"):
        lp = np.where(p > 0, p * np.log(np.where(p > 0, p, 1.0)), 0.0)
    return -lp.sum(axis=1)


class Hist:
    """Statistics per non-empty bin (of in-bag samples) of a feature in a node."""

    def __init__(self, rt, i, j):
        tr, va = rt.tr[i], rt.va[i]
        b = rt.B[tr, j]
        self.bins, inv = np.unique(b, return_inverse=True)
        m = len(self.bins)
        w = rt.bw[tr]
        y = rt.y[tr]
        self.n = np.bincount(inv, minlength=m)
        self.w = np.bincount(inv, weights=w, minlength=m)
        if rt.k is None:
            self.s = np.stack(
                [np.bincount(inv, weights=w * y, minlength=m), np.bincount(inv, weights=w * y * y, minlength=m)],
                axis=1,
            )
        else:
            self.s = np.stack(
                [np.bincount(inv, weights=w * (y == c), minlength=m) for c in range(rt.k)], axis=1
            )
        self.bv = rt.B[va, j]
        self.n_valid = len(va)

    def zero_weight_bins(self):
        return bool((self.w <= 0).any())

    def keys(self, k, c):
        """What categorical bins are sorted by."""
        if k is None:
            return self.s[:, 0] / self.w
        return self.s[:, c] / self.w

    def evaluate(self, order, k, criterion, agg, msl, categorical):
        """All the cuts of the given order of the bins: validity and objective."""
        n, w, s = self.n[order], self.w[order], self.s[order]
        nL, wL, sL = np.cumsum(n)[:-1], np.cumsum(w)[:-1], np.cumsum(s, axis=0)[:-1]
        nR, wR, sR = n.sum() - nL, w.sum() - wL, s.sum(axis=0) - sL
        # positive weight on both sides, without the rounding of differences
        pos = np.cumsum(w > 0)
        ok = (nL >= msl) & (nR >= msl) & (pos[:-1] > 0) & (pos[:-1] < pos[-1])
        if agg:
            if categorical:
                cnt = np.array([(self.bv == b).sum() for b in self.bins[order]])
                vL = np.cumsum(cnt)[:-1]
            else:
                vL = np.array([(self.bv <= b).sum() for b in self.bins[order][:-1]])
            ok &= (vL >= msl) & (self.n_valid - vL >= msl)
        wL_, wR_ = np.where(ok, wL, 1.0), np.where(ok, wR, 1.0)
        obj = wL_ * impurity(sL, wL_, k, criterion) + wR_ * impurity(sR, wR_, k, criterion)
        return ok, obj


def group_cuts(keys, scale):
    """Order by keys, and which cuts separate keys that differ for sure."""
    order = np.argsort(keys, kind="stable")
    ks = keys[order]
    sure = np.diff(ks) > 1e-5 * scale
    return order, sure


def best_along(rt, i, j, iscat, strategy, criterion, agg, msl):
    """Bounds on the best objective the code can find on a feature of a node: returns
    (found, upper bound of the best objective), with found=True only when a valid cut is
    considered for sure, or None when the feature cannot be judged."""
    h = Hist(rt, i, j)
    if len(h.bins) < 2:
        return False, np.inf
    if not iscat:
        order = np.arange(len(h.bins))
        ok, obj = h.evaluate(order, rt.k, criterion, agg, msl, False)
        if not ok.any():
            return False, np.inf
        return True, float(obj[ok].min())
    if h.zero_weight_bins():
        return None
    if rt.k is None:
        cs, combine = [0], min
        scale = max(1e-30, np.abs(rt.y[rt.tr[i]]).max())
    else:
        scale = 1.0
        if strategy == "binary":
            cs, combine = [1], min
        elif strategy == "all":
            cs, combine = list(range(rt.k)), min
        else:
            cs, combine = list(range(rt.k)), max
    res = []
    for c in cs:
        order, sure = group_cuts(h.keys(rt.k, c), scale)
        ok, obj = h.evaluate(order, rt.k, criterion, agg, msl, True)
        ok = ok & sure
        res.append(float(obj[ok].min()) if ok.any() else np.inf)
    best = combine(res)
    return np.isfinite(best), best


def split_objective(rt, i, criterion):
    """Objective of the recorded split, and the samples on each side."""
    v = rt.v
    l, r = int(v.left[i]), int(v.right[i])
    total = 0.0
    for c in (l, r):
        m = rt.tr[c]
        w, y = rt.bw[m], rt.y[m]
        W = w.sum()
        if not W > 0:
            return np.inf
        if rt.k is None:
            s = np.array([[(w * y).sum(), (w * y * y).sum()]])
        else:
            s = np.array([[(w * (y == q)).sum() for q in range(rt.k)]])
        total += W * float(impurity(s, np.array([W]), rt.k, criterion)[0])
    return total


def consistent_classes(rt, i, strategy):
    """Classes whose order of the bins has the recorded categorical split as a cut
    (regression: [0] or [])."""
    v = rt.v
    j = int(v.feature[i])
    h = Hist(rt, i, j)
    if h.zero_weight_bins():
        return None
    left = np.array([int(b) in v.partition[i] for b in h.bins])
    if left.all() or not left.any():
        return []
    out = []
    if rt.k is None:
        cs, scale = [0], max(1e-30, np.abs(rt.y[rt.tr[i]]).max())
    else:
        cs, scale = ([1] if strategy == "binary" else list(range(rt.k))), 1.0
    for c in cs:
        keys = h.keys(rt.k, c)
        if keys[left].max() <= keys[~left].min() + 1e-5 * scale:
            out.append(c)
    return out


def objective_tol(rt, i, exact):
    """Bound on the error made on the objective in single precision."""
    m = rt.tr[i]
    W = rt.bw[m].sum()
    if rt.k is None:
        s = np.abs(rt.y[m]).max(initial=0.0) ** 2
        k = 2
    else:
        s, k = 1.0, rt.k
    return W * ref.EPS32 * s * ((32 + 4 * k) if exact else 4 * (len(m) + 16) * (2 + k))
