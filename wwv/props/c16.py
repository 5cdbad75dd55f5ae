"""C16: labels and target scale."""

import numpy as np
import pandas as pd

from .. import gen, ref
from ..core import call, require
from . import _base

ROLES = ["clf", "reg"]
BUDGET = {"quick": {"examples": 2400, "cap": 55}, "thorough": {"examples": 50000, "cap": 600}}
RULE = (
    "Classification: the labels 0..K-1 of generated data are replaced, keeping their order, by generated strings, "
    "integers (negative, large), booleans, floats or a category Series; trees and probabilities must be identical, "
    "classes_ the sorted labels and predict the label of the largest probability. Regression: labels are multiplied by "
    "plus or minus a power of two and step divided by its square; trees must be identical and predictions multiplied. "
    "Non-trivial: at least one split."
)
ASSUMPTIONS = [
    "negated labels are only compared without categorical columns (ties between categories depend on the sort direction)",
    "predictions with several threads may differ by the order of a floating point sum (1e-12)",
]
warmup = _base.warm_forest

KINDS = ["str", "longstr", "unicode", "numstr", "object", "neg", "large", "sparse", "bool", "float", "category", "uint8", "series"]


def strategy(role, tier):
    from hypothesis import strategies as st

    @st.composite
    def s(draw):
        c = draw(gen.forest_case(role, n_estimators=3, cap=250, large=False, classes=(2, 2, 3, 4, 7, 12)))
        if role == "clf":
            c["labels"] = draw(st.sampled_from(KINDS))
            c["gaps"] = draw(st.lists(st.integers(1, 50), min_size=30, max_size=30))
        else:
            c["e"] = draw(st.sampled_from([-9, -4, -1, 1, 3, 10]))
            c["neg"] = draw(st.booleans()) and not any(x["t"] == "cat" for x in c["cols"])
        return c

    return s()


def names(kind, k, gaps):
    steps = np.cumsum(gaps[:k])
    if kind in ("str", "object", "category"):
        v = np.array(["c%05d" % s for s in steps])
        return v.astype(object) if kind == "object" else v
    if kind == "longstr":
        return np.array(["a class with quite a long name, number %05d" % s for s in steps])
    if kind == "unicode":
        return np.array(["\u00e9t\u00e9 %05d%s" % (s, "\u4e2d" * (i % 7)) for i, s in enumerate(steps)])
    if kind == "numstr":
        return np.array(sorted(str(s) for s in steps))
    if kind == "neg":
        return steps - 400
    if kind == "large":
        return steps * 2 ** 40 + 7
    if kind == "bool" and k == 2:
        return np.array([False, True])
    if kind == "float":
        return steps.astype(np.float64) - 20.0
    if kind == "uint8":
        return (np.arange(k) * 3 + 1).astype(np.uint8)
    return steps


def check(case):
    d = gen.materialise(case)
    agg = case["p"]["aggregation"]
    Xq = np.vstack([d.X[:60], d.Xt])
    if case["kind"] == "clf":
        labels = names(case["labels"], d.k, case["gaps"])
        f = ref.fit_forest(case, d)
        y2 = labels[d.y]
        arg = y2
        if case["labels"] == "category":
            arg = pd.Series(pd.Categorical(y2))
        elif case["labels"] == "series":
            arg = pd.Series(y2, index=np.arange(d.n) + 5)
        g = ref.fit_forest(case, d, y=arg)
        what = "labels as %s" % case["labels"]
        diff = _base.same_dump(_base.dump(f), _base.dump(g), agg)
        require(diff is None, what + ": the trees differ (%s)" % diff)
        p, q = ref.raw_predict(f, Xq), ref.raw_predict(g, Xq)
        require(_base.close(q, p), what + ": the probabilities differ", error=np.abs(p - q).max(initial=0.0) if p.shape == q.shape else q.shape)
        require(list(np.asarray(g.classes_)) == list(labels), what + ": classes_ is not the sorted list of labels", classes=g.classes_)
        require(int(g.n_classes_) == d.k, what + ": n_classes_ is %s" % g.n_classes_)
        pred = np.asarray(call("predict", g.predict, Xq))
        require(pred.shape == (len(Xq),), what + ": predict gives shape %s" % (pred.shape,))
        top = np.sort(q, axis=1)
        clear = top[:, -1] - top[:, -2] > 1e-9
        want = labels[q.argmax(axis=1)]
        bad = np.flatnonzero(clear & np.array([a != b for a, b in zip(pred, want)], dtype=bool))
        require(not len(bad), what + ": predict is not the label of the largest probability")
        require(set(pred.tolist()) <= set(labels.tolist()), what + ": predict gives a label that was not in the training data")
        cls = ["labels:" + case["labels"]]
    else:
        c = 2.0 ** case["e"]
        s = -c if case["neg"] else c
        f = ref.fit_forest(case, d)
        g = ref.fit_forest(case, d, y=d.y * s, step=case["p"]["step"] / (c * c))
        a, b = _base.dump(f), _base.dump(g)
        if a is not None and b is not None:
            for t in b:
                t["loss"] = t["loss"] / (c * c)
                t["y_pred"] = t["y_pred"] / s
        diff = _base.same_dump(a, b, agg)
        require(diff is None, "labels times %g: the trees differ (%s)" % (s, diff))
        p, q = ref.raw_predict(f, Xq), ref.raw_predict(g, Xq)
        require(_base.close(q / s, p), "labels times %g: the predictions are not multiplied by it" % s, error=np.abs(p - q / s).max(initial=0.0))
        cls = ["negated"] if case["neg"] else []
    split = bool((np.asarray(f.apply(d.X)) != 0).any())
    return {"nontrivial": split, "classes": gen.case_classes(case) + cls, "observed": {"case": cls}}
