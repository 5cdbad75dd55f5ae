"""C20: bootstrap samples."""

import numpy as np

from .. import gen, ref
from ..core import require
from . import _base

ROLES = ["clf", "reg"]
BUDGET = {"quick": {"examples": 1800, "cap": 50}, "thorough": {"examples": 40000, "cap": 600}}
RULE = (
    "Forests of 1 to 60 trees are fitted on generated data (2 to 400 rows, all weightings, one-versus-rest), and the in-bag "
    "and out-of-bag rows and weights of every tree are checked against the rows: partition, multiplicities that sum to the number "
    "of rows, weights, different samples for different trees, and exact binomial bounds (below 1e-11) for the share of in-bag "
    "rows per half of the table, for each row over 700 trees, for each possible sample of 2 to 5 rows, and for the feature drawn at the root with max_features=1. Non-trivial: at least two trees."
)
ASSUMPTIONS = ["multiplicities of rows of weight zero cannot be observed"]
warmup = _base.warm_forest


def strategy(role, tier):
    from hypothesis import strategies as st

    @st.composite
    def s(draw):
        c = draw(gen.forest_case(role, n_estimators=6, cap=400, large=False, extremes=("rows", "columns", "trees")))
        c["many"] = draw(st.integers(0, 4)) == 0
        c["few"] = draw(st.integers(0, 29)) == 17
        if c["few"] or c["many"]:
            c.pop("extreme", None)
        if c["few"]:
            # a few rows, whose bootstrap samples can be enumerated, and many trees
            each = draw(st.booleans())
            c["n"] = draw(st.integers(12, 200)) if each else draw(st.integers(2, 5))
            c["many"] = False
            c["cols"] = [{"t": "normal", "info": True, "miss": 0.0}]
            c["y"].pop("chain", None)
            c["w"] = "none"
            c["p"].update(n_estimators=700 if each else draw(st.sampled_from([150, 300])), max_depth=2, max_features=None, verbose=False)
            if role == "clf":
                c["y"]["k"] = 2
                c["p"]["class_weight"] = None
        if c["many"]:
            c["n"] = draw(st.integers(40, 150))
            m = draw(st.integers(2, 6))
            c["cols"] = [{"t": "normal", "info": True, "miss": 0.0} for _ in range(m)]
            c["p"].update(n_estimators=draw(st.integers(16, 60)), max_features=1, max_depth=2, min_samples_leaf=1, min_samples_split=2, max_bins=256)
            c["y"]["noise"] = 1.0
            if c["w"] in ("intzero", "floatzero"):
                c["w"] = "none"
            if role == "reg":
                c["y"]["t"] = "gauss"
        return c

    return s()


def tail(k, n, p):
    """Two-sided binomial tail."""
    from scipy.stats import binom

    return 2 * min(binom.cdf(k, n, p), binom.sf(k - 1, n, p))


def check(case):
    d = gen.materialise(case)
    f = ref.fit_forest(case, d)
    n = d.n
    n_est = case["p"]["n_estimators"]
    ovr = case["kind"] == "clf" and case["p"]["multiclass"] == "ovr" and d.k > 2
    groups = d.k if ovr else 1
    require(len(f.trees) == groups * n_est, "%d trees were fitted" % len(f.trees))
    seen = []
    inbag = np.zeros((len(f.trees), n), dtype=bool)
    for t, tree in enumerate(f.trees):
        tr, va, bw = ref.bootstrap(tree)
        where = "tree %d" % t
        require(len(tr) > 0, where + ": no in-bag sample")
        require(len(va) > 0, where + ": no out-of-bag sample")
        both = np.concatenate([tr, va])
        require(len(both) == n and np.array_equal(np.sort(both), np.arange(n)), where + ": the in-bag and out-of-bag samples are not a partition of the rows")
        w = d.weff.copy()
        rtol = 1e-6
        if case["kind"] == "clf" and case["p"]["class_weight"] == "balanced":
            lab = d.y if not ovr else (d.y == t // n_est).astype(int)
            counts = np.bincount(lab)
            w = w * (n / (len(counts) * counts))[lab]
            rtol = 1e-5
        require(len(bw) == n, where + ": there are %d weights" % len(bw))
        require(np.allclose(bw[va], w[va], rtol=rtol, atol=0), where + ": out-of-bag samples do not keep their weights")
        pos = tr[w[tr] > 0]
        mult = bw[pos] / w[pos]
        cnt = np.round(mult)
        require(np.allclose(mult, cnt, rtol=rtol) and (cnt >= 1).all(), where + ": in-bag weights are not the sample weights times a positive integer")
        zero = len(tr) - len(pos)
        require((bw[tr[w[tr] == 0]] == 0).all(), where + ": a sample of weight zero has a weight")
        if zero == 0:
            require(int(cnt.sum()) == n, where + ": the in-bag multiplicities sum to %d for %d rows" % (int(cnt.sum()), n))
        else:
            require(int(cnt.sum()) + zero <= n, where + ": the in-bag multiplicities are too large")
        inbag[t, tr] = True
        seen.append((tuple(tr.tolist()), tuple(mult.round(3).tolist())))
    for g in range(groups):
        block = seen[g * n_est : (g + 1) * n_est]
        if n >= 30:
            require(len(set(block)) == len(block), "two trees of the same forest use the same bootstrap sample")
    if n >= 30:
        # shares of in-bag rows (trees of the other classes reuse the samples of the first)
        ib = inbag[:n_est]
        p = 1 - (1 - 1 / n) ** n
        for name, rows in (("all", slice(None)), ("first half", slice(0, n // 2)), ("second half", slice(n // 2, n)), ("last row", slice(n - 1, n)), ("first row", slice(0, 1))):
            k, m = int(ib[:, rows].sum()), ib[:, rows].size
            require(tail(k, m, p) > 1e-11, "the share of in-bag rows (%s) is %.3f instead of %.3f over %d draws" % (name, k / m, p, m))
    cls = gen.case_classes(case)
    if case.get("few") and n > 5:
        p = 1 - (1 - 1 / n) ** n
        total = np.zeros(n, dtype=int)
        for t in range(n_est):
            tr, _, bw = ref.bootstrap(f.trees[t])
            total[tr] += np.round(bw[tr]).astype(int)
        for i in range(n):
            k = int(inbag[:n_est, i].sum())
            require(tail(k, n_est, p) > 1e-12, "row %d is in-bag for %d of %d trees" % (i, k, n_est), probability=p)
            require(tail(int(total[i]), n * n_est, 1.0 / n) > 1e-12, "row %d is drawn %d times in %d samples of %d rows" % (i, total[i], n_est, n))
        cls.append("each row")
    elif case.get("few"):
        from collections import Counter
        from itertools import product

        law = Counter()
        for draws in product(range(n), repeat=n):
            m = tuple(draws.count(i) for i in range(n))
            if min(m) == 0:
                law[m] += 1
        total = sum(law.values())
        got = Counter()
        for t in range(n_est):
            tr, _, bw = ref.bootstrap(f.trees[t])
            m = np.zeros(n, dtype=int)
            m[tr] = np.round(bw[tr]).astype(int)
            got[tuple(m.tolist())] += 1
        for m in law:
            require(
                tail(got[m], n_est, law[m] / total) > 1e-11,
                "the bootstrap sample with multiplicities %s is the one of %d of %d trees" % (m, got[m], n_est), probability=law[m] / total,
            )
        cls.append("few rows")
    if case["many"]:
        roots = []
        for tree in f.trees[:n_est]:
            v = ref.view(tree)
            if not v.is_leaf[0]:
                roots.append(int(v.feature[0]))
        for i, k in enumerate(inbag[:n_est].sum(axis=0)):
            require(tail(k, n_est, 1 - (1 - 1 / n) ** n) > 1e-13, "row %d is in the bag of %d of %d trees" % (i, k, n_est))
        m = d.X.shape[1]
        if len(roots) == n_est:
            for j in range(m):
                k = roots.count(j)
                require(tail(k, n_est, 1.0 / m) > 1e-11, "feature %d is drawn at the root of %d of %d trees with max_features=1" % (j, k, n_est))
        cls.append("many trees")
    return {"nontrivial": n_est > 1, "classes": cls, "observed": {"trees": len(f.trees), "in-bag": round(float(inbag.mean()), 3)}}
