"""C17: one-versus-rest."""

import numpy as np

from .. import gen, ref
from ..core import require
from . import _base

ROLES = ["clf"]
BUDGET = {"quick": {"examples": 1600, "cap": 60}, "thorough": {"examples": 40000, "cap": 600}}
RULE = (
    "A one-versus-rest forest is fitted on generated data with 2 to 9 classes (rare classes, weights, balanced class "
    "weights, categorical columns), and one binary forest per class with the same parameters and seed on 'this class or "
    "not'; trees must be the same and probabilities those of the binary forests normalised over classes. With two "
    "classes it must equal the multinomial forest. Histories with refits on data with another number of classes are "
    "included. Non-trivial: at least one split and three or more classes."
)
ASSUMPTIONS = [
    "rows for which the binary probabilities of all the classes are below 1e-6 are not compared (uniform or normalised)",
    "predictions with several threads may differ by the order of a floating point sum (1e-12)",
]
warmup = _base.warm_forest


def strategy(role, tier):
    from hypothesis import strategies as st

    @st.composite
    def s(draw):
        c = draw(gen.forest_case("clf", n_estimators=4, cap=200, large=False, classes=(2, 3, 3, 4, 5, 9), multiclass="ovr", lo=4))
        c["p"]["class_weight"] = draw(st.sampled_from([None, "balanced"]))
        c["first"] = draw(st.sampled_from([None, None, None, 3, 5]))
        if draw(st.integers(0, 2)) == 0:
            c["p"]["verbose"] = True
        c["labels"] = draw(st.sampled_from(["int", "str"]))
        return c

    return s()


def check(case):
    d = gen.materialise(case)
    agg = case["p"]["aggregation"]
    Xq = np.vstack([d.X[:60], d.Xt])
    names = np.array(["c%02d" % i for i in range(d.k)]) if case["labels"] == "str" else np.arange(d.k) * 10 - 3
    f = ref.new_forest(case)
    kw = dict(categorical_features=d.is_cat)
    if d.w is not None:
        kw["sample_weight"] = d.w
    from ..core import call

    if case["first"]:
        # an earlier fit of the same object on a problem with another number of classes
        rng = np.random.RandomState(1)
        y0 = np.arange(d.n) % case["first"]
        if len(set(y0.tolist())) > 2:
            call("an earlier fit", f.fit, d.X, y0, categorical_features=d.is_cat)
    call("fit", f.fit, d.X, names[d.y], **kw)
    p = ref.raw_predict(f, Xq)
    require(p.shape == (len(Xq), d.k), "the probabilities have shape %s" % (p.shape,))
    n_est = case["p"]["n_estimators"]
    split = bool((np.asarray(f.apply(d.X)) != 0).any())
    cls = gen.case_classes(case) + ["classes:%d" % d.k, "class_weight:%s" % case["p"]["class_weight"]]
    if case["first"]:
        cls.append("refit")
    if d.k == 2:
        g = ref.fit_forest(case, d, y=names[d.y], multiclass="multinomial")
        diff = _base.same_dump(_base.dump(f), _base.dump(g), agg)
        require(diff is None, "two classes: the trees of ovr and multinomial differ (%s)" % diff)
        require(_base.close(p, ref.raw_predict(g, Xq)), "two classes: ovr and multinomial differ")
        return {"nontrivial": False, "classes": cls}
    dump = _base.dump(f)
    require(len(f.trees) == n_est * d.k, "there are %d trees for %d classes and n_estimators=%d" % (len(f.trees), d.k, n_est))
    raw = np.empty_like(p)
    for k in range(d.k):
        b = (d.y == k).astype(int)
        g = ref.fit_forest(case, d, y=b, multiclass="multinomial", verbose=False)
        raw[:, k] = ref.raw_predict(g, Xq)[:, 1]
        if dump is not None:
            diff = _base.same_dump(dump[k * n_est : (k + 1) * n_est], _base.dump(g), agg)
            require(diff is None, "class %d: the trees are not those of the binary forest (%s)" % (k, diff))
    tot = raw.sum(axis=1)
    ok = tot > 1e-6
    want = raw[ok] / tot[ok, None]
    err = np.abs(want - p[ok]).max(initial=0.0)
    require(err <= 1e-10, "the probabilities are not the normalised ones of the binary forests", error=err)
    small = tot * n_est < 1e-8
    if small.any():
        err = np.abs(p[small] - 1.0 / d.k).max()
        require(err <= 1e-10, "probabilities are not uniform when no class is predicted by its binary forest", error=err)
        cls.append("uniform rows")
    return {"nontrivial": split, "classes": cls, "observed": {"classes": d.k, "trees": len(f.trees)}}
