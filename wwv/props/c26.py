"""C26: columns that cannot split."""

import numpy as np

from .. import gen, ref
from ..core import call, require
from . import _base

ROLES = ["clf", "reg"]
BUDGET = {"quick": {"examples": 1800, "cap": 55}, "thorough": {"examples": 40000, "cap": 600}}
RULE = (
    "Columns that cannot split any node (constant numbers, only missing values, a single category) are inserted at generated positions of "
    "generated data, max_features=None. The trees must be the same but for the numbers of the columns, and predictions must not depend on "
    "what queries hold in these columns. Removing the columns that no tree uses must change nothing either. Non-trivial: at least one split."
)
ASSUMPTIONS = [
    "a constant categorical column is not inserted with the random strategy, which draws numbers for it",
    "predictions with several threads may differ by the order of a floating point sum (1e-12)",
]
warmup = _base.warm_forest

KINDS = ["zero", "const", "huge", "nan", "cat"]


def strategy(role, tier):
    from hypothesis import strategies as st

    @st.composite
    def s(draw):
        c = draw(gen.forest_case(role, n_estimators=3, cap=300, large=False, max_features="all"))
        c["extra"] = draw(st.lists(st.tuples(st.sampled_from(KINDS), st.integers(0, 60)).map(list), min_size=1, max_size=5))
        if draw(st.integers(0, 5)) == 0:
            c["extra"] = c["extra"] * draw(st.integers(4, 12))
        c["prune"] = draw(st.booleans())
        c["nt"] = draw(st.integers(1, 30))
        return c

    return s()


def check(case):
    d = gen.materialise(case)
    agg = case["p"]["aggregation"]
    f = ref.fit_forest(case, d)
    Xq = np.vstack([d.X[:40], d.Xt])
    p = ref.raw_predict(f, Xq)
    leaves = np.asarray(call("apply", f.apply, Xq))
    base = _base.dump(f)
    rng = np.random.RandomState((case["seed"] + 9) % 2 ** 32)
    no_cat = case["p"].get("cat_split_strategy") == "random"
    nf = d.X.shape[1]
    cols = [(j, d.X[:, j], Xq[:, j], bool(d.is_cat[j])) for j in range(nf)]
    for kind, pos in case["extra"]:
        x = np.zeros(d.n)
        q = rng.normal(size=len(Xq)) * 10.0 ** rng.randint(-3, 4)
        cat = False
        if kind == "const":
            x[:] = -7.25
        elif kind == "huge":
            x[:] = 1e30
        elif kind == "nan":
            x[:] = np.nan
        elif kind == "cat" and not no_cat:
            x[:] = 4.0
            q = rng.randint(0, 9, size=len(Xq)).astype(float)
            cat = True
        q[rng.uniform(size=len(q)) < 0.2] = np.nan
        cols.insert(pos % (len(cols) + 1), (-1, x, q, cat))
    X2 = np.column_stack([c[1] for c in cols])
    Q2 = np.column_stack([c[2] for c in cols])
    cat2 = np.array([c[3] for c in cols])
    origin = np.array([c[0] for c in cols])

    def same(X2, Q2, cat2, origin, what):
        g = ref.fit_forest(case, d, X=X2, cat=cat2)
        b = _base.dump(g)
        if b is not None and base is not None:
            for t in b:
                t["feature"] = np.where(t["is_leaf"], 0, origin[t["feature"]])
        diff = _base.same_dump(base, b, agg)
        require(diff is None, "%s: the trees differ (%s)" % (what, diff))
        require(np.array_equal(np.asarray(call("apply", g.apply, Q2)), leaves), "%s: the leaves of queries differ" % what)
        require(_base.close(ref.raw_predict(g, Q2), p), "%s: the predictions differ" % what)

    same(X2, Q2, cat2, origin, "with %d columns that cannot split" % len(case["extra"]))
    split = bool((leaves != 0).any())
    cls = gen.case_classes(case) + sorted({"extra:" + k for k, _ in case["extra"]})
    if case["prune"] and base is not None and not (no_cat and d.is_cat.any()):
        used = set()
        for t in base:
            used |= set(t["feature"][~t["is_leaf"]].tolist())
        keep = [j for j in range(nf) if j in used]
        if keep and len(keep) < nf:
            same(d.X[:, keep], Xq[:, keep], d.is_cat[keep], np.array(keep), "without the columns that no tree uses")
            cls.append("unused removed")
    return {"nontrivial": split, "classes": cls, "observed": {"columns": len(cols)}}
