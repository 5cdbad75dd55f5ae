"""C01: valid predictions."""

import numpy as np

from .. import gen, ref
from ..core import call, require
from . import _base

ROLES = ["clf", "reg"]
BUDGET = {"quick": {"examples": 4000, "cap": 60}, "thorough": {"examples": 80000, "cap": 600}}
RULE = (
    "Forests on generated data (mixed columns, missing values, weights, all parameters), queried on "
    "training rows and on new rows with missing values, infinities, huge values and unknown "
    "categories. Each row's output is checked for validity. Non-trivial: the forest has a tree with "
    "a split and the query has at least one row."
)
ASSUMPTIONS = ["labels are finite, weights are non-negative and most of them positive"]
warmup = _base.warm_forest

LABELS = {
    "int": lambda y: y * 3 - 4,
    "str": lambda y: np.array(["c%02d" % v for v in y]),
    "float": lambda y: y + 0.0,
}


def strategy(role, tier):
    from hypothesis import strategies as st

    base = gen.forest_case(
        role, n_estimators=6, classes=(2, 3, 4, 7, 12), extremes=("rows", "columns", "classes", "trees")
    )
    if role == "reg":
        return base

    @st.composite
    def s(draw):
        c = dict(draw(base), labels=draw(st.sampled_from(sorted(LABELS))))
        if draw(st.integers(0, 5)) == 0 and "extreme" not in c:
            # pure leaves without smoothing: rows for which no class gets any vote
            c["p"].update(multiclass="ovr", aggregation=False, dirichlet=draw(st.sampled_from([0.0, 0.0, 1e-7])), n_estimators=draw(st.integers(1, 2)), max_depth=None)
            c["y"]["noise"] = 1.0
        return c

    return s()


def check(case):
    d = gen.materialise(case)
    Xq = np.vstack([d.X[:200], d.Xt])
    if case["kind"] == "clf":
        y = LABELS[case["labels"]](d.y)
        f = ref.fit_forest(case, d, y=y)
        classes = np.unique(y)
        require(
            list(f.classes_) == list(classes), "classes_ are not the sorted labels",
            got=f.classes_, expected=classes,
        )
        require(int(f.n_classes_) == len(classes), "n_classes_ is wrong", got=f.n_classes_)
        proba = np.asarray(ref.raw_predict(f, Xq))
        require(
            proba.shape == (len(Xq), len(classes)), "predict_proba has a wrong shape", got=proba.shape
        )
        require(np.isfinite(proba).all(), "a probability is not finite", got=proba[~np.isfinite(proba).all(axis=1)][:3])
        require((proba >= -1e-6).all(), "a probability is negative", got=proba.min() if proba.size else None)
        s = proba.sum(axis=1)
        require(np.all(np.abs(s - 1) <= 2e-5), "probabilities do not sum to one", got=s[np.abs(s - 1) > 2e-5][:3])
        pred = np.asarray(call("predict", f.predict, Xq))
        require(pred.shape == (len(Xq),), "predict has a wrong shape", got=pred.shape)
        index = {c: i for i, c in enumerate(classes.tolist())}
        for i, lab in enumerate(pred.tolist()):
            require(lab in index, "predict returned something that is not a class", got=lab)
            require(
                proba[i, index[lab]] >= proba[i].max() - 1e-9,
                "predict did not return the label with the largest probability",
                row=i, label=lab, proba=proba[i],
            )
    else:
        f = ref.fit_forest(case, d)
        pred = np.asarray(ref.raw_predict(f, Xq))
        require(pred.shape == (len(Xq),), "predict has a wrong shape", got=pred.shape)
        require(np.isfinite(pred).all(), "a predicted value is not finite", got=pred[~np.isfinite(pred)][:3])
        yy = d.y[d.weff > 0]
        tol = np.abs(yy).max() * (2e-5 + ref.EPS32 * 2 * (d.n + 8))
        require(
            np.all(pred >= yy.min() - tol) and np.all(pred <= yy.max() + tol),
            "a predicted value is out of the range of the training labels",
            low=pred.min(), high=pred.max(), labels=(yy.min(), yy.max()),
        )
    leaves = np.asarray(call("apply", f.apply, d.X))
    split = bool((leaves != 0).any())
    return {
        "nontrivial": split and len(Xq) > 0,
        "classes": gen.case_classes(case) + (["labels:" + case["labels"]] if "labels" in case else []),
        "observed": {"rows": len(Xq), "first": np.round(np.atleast_1d(ref.raw_predict(f, Xq[:1])[0]), 4).tolist()},
    }
