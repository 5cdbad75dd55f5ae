"""C23: features drawn at each node."""

import math

import numpy as np

from .. import ref, splits
from ..core import Skip, call, require
from . import _base

ROLES = ["clf", "reg"]
BUDGET = {"quick": {"examples": 700, "cap": 60}, "thorough": {"examples": 20000, "cap": 600}}
RULE = (
    "Forests are fitted on tables where some columns (all equal, with one distinct value per row) can split any node of "
    "two rows or more and the other columns are constant: an impure node is split exactly when one of the features drawn at this node is not constant. "
    "With g such columns out of d and max_features=k this has probability 1 - C(d-g,k)/C(d,k), independently for each node: the "
    "number of splits among the first nodes (in order of creation, over all the trees) is compared with exact binomial tails (1e-11), and when the probability is one "
    "every impure node must be split. Non-trivial: max_features < d and at least 30 nodes."
)
ASSUMPTIONS = ["the seeds of the trees are random enough for binomial tails of 1e-11 (about 1e-7 over a whole run)"]
warmup = _base.warm_forest


def strategy(role, tier):
    from hypothesis import strategies as st

    @st.composite
    def s(draw):
        d = draw(st.integers(1, 12) | st.sampled_from([16, 25, 40]))
        g = draw(st.sampled_from(sorted({1, min(2, d), max(1, d // 2), max(1, d - 1)})))
        cols = draw(st.permutations(range(d)))[:g]
        mf = draw(st.sampled_from(["int", "int", "int", "float", "auto", "sqrt", "log2", None]))
        if mf == "int":
            mf = draw(st.integers(1, d))
        elif mf == "float":
            mf = draw(st.sampled_from([0.01, 0.1, 0.25, 0.3, 0.5, 0.7, 0.9, 0.999, 1.0]))
        return {
            "kind": role, "d": d, "cols": sorted(cols), "mf": mf, "n": draw(st.integers(8, 60)),
            "n_estimators": draw(st.sampled_from([20, 60, 120])), "seed": draw(st.integers(0, 2 ** 31 - 1)),
            "rs": draw(st.integers(0, 2 ** 31 - 1)), "n_jobs": draw(st.sampled_from([1, 1, 1, 2, 4])),
            "cat": draw(st.booleans()), "agg": draw(st.integers(0, 4)) == 0,
            "strategy": draw(st.sampled_from(["binary", "all", "random"])),
        }

    return s()


def tails(k, n, p):
    from scipy.stats import binom

    return 2 * min(binom.cdf(k, n, p), binom.sf(k - 1, n, p))


def check(case):
    import wildwood

    n, d, cols = case["n"], case["d"], case["cols"]
    rng = np.random.RandomState(case["seed"])
    X = np.zeros((n, d))
    x = rng.permutation(n).astype(float)
    for j in cols:
        X[:, j] = x
    clf = case["kind"] == "clf"
    kw = dict(
        n_estimators=case["n_estimators"], random_state=case["rs"], max_features=case["mf"], aggregation=case["agg"],
        n_jobs=case["n_jobs"], max_bins=1000,
    )
    if clf:
        y = np.arange(n) % 2
        kw.update(cat_split_strategy=case["strategy"], dirichlet=0.5)
    else:
        y = rng.permutation(n).astype(float)
    mask = np.zeros(d, dtype=bool)
    # Constant columns can be declared as categorical as well
    if case["cat"]:
        mask[rng.permutation(d)[: d // 2]] = True
        mask[cols] = False
    f = call("the constructor", wildwood.ForestClassifier if clf else wildwood.ForestRegressor, **kw)
    call("fit", f.fit, X, y, categorical_features=mask)
    k = splits.n_candidates(case["mf"], d)
    g = len(cols)
    p = 1.0 - math.comb(d - g, k) / math.comb(d, k)
    trials = []
    for t, tree in enumerate(f.trees):
        v = ref.view(tree)
        tr, va, bw = ref.bootstrap(tree)
        rows_t = {0: (tr, va)}
        for i in range(v.node_count):
            if i not in rows_t:
                raise Skip("the nodes are not in an order where parents come first")
            a, b = rows_t.pop(i)
            impure = len(np.unique(y[a])) > 1
            able = impure and len(a) >= 2
            if able and case["agg"]:
                # out-of-bag samples on both sides of some cut
                xs = np.sort(x[a])
                able = len(b) >= 2 and any((x[b] <= c).any() and (x[b] > c).any() for c in xs[:-1])
            if able:
                trials.append(not v.is_leaf[i])
                if p == 1.0:
                    require(not v.is_leaf[i], "tree %d node %d: not split, although any %d of the %d features contain one that can split it" % (t, i, k, d))
            if not v.is_leaf[i]:
                j = int(v.feature[i])
                require(j in cols, "tree %d node %d: split on a constant feature" % (t, i), feature=j)
                # thresholds are bins: there is one bin per distinct value
                thr = int(v.thr[i])
                rows_t[int(v.left[i])] = (a[x[a] <= thr], b[x[b] <= thr])
                rows_t[int(v.right[i])] = (a[x[a] > thr], b[x[b] > thr])
    if p < 1.0 and trials:
        m = 25
        while m <= len(trials):
            s = sum(trials[:m])
            require(
                tails(s, m, p) > 1e-11,
                "%d of the %d first nodes are split, with probability %.3f: features are not drawn uniformly at each node" % (s, m, p),
                d=d, max_features=k, non_constant=cols,
            )
            m *= 2
    return {
        "nontrivial": k < d and len(trials) >= 30,
        "classes": [case["kind"], "P=1" if p == 1.0 else "P<1", "max_features:%s" % type(case["mf"]).__name__] + ["aggregation"] * case["agg"] + ["threads"] * (case["n_jobs"] > 1),
        "observed": {"trials": len(trials), "p": round(p, 4), "split": sum(trials)},
    }
