"""C10: pickle, copy, lighten."""

import copy
import pickle

import numpy as np

from .. import gen, ref
from ..core import call, require
from . import _base

ROLES = ["clf", "reg"]
BUDGET = {"quick": {"examples": 1600, "cap": 60}, "thorough": {"examples": 40000, "cap": 600}}
RULE = (
    "Two forests fitted alike; one goes through a generated sequence of pickling (protocols 2 to 5), deep copies, "
    "lighten, predictions and changes of step and dirichlet (the latter not after lighten), the other only "
    "through the changes of values; after each event both must give the same predictions, leaves, nodes, classes "
    "and parameters. Pickling must leave the pickled forest unchanged. Sometimes both are finally fitted on new data. "
    "Non-trivial: at least one pickling, copy or lighten of a forest with a split."
)
ASSUMPTIONS = ["dirichlet is not changed after lighten, which drops the samples needed to do it"]
warmup = _base.warm_forest


def strategy(role, tier):
    from hypothesis import strategies as st

    @st.composite
    def s(draw):
        c = draw(gen.forest_case(role, n_estimators=3, cap=150, large=True, max_cols=4))
        ops, light = [], False
        for _ in range(draw(st.integers(1, 6))):
            k = draw(st.sampled_from(["pickle", "pickle", "deepcopy", "lighten", "step", "dirichlet", "predict"]))
            if k == "dirichlet" and (light or role == "reg"):
                k = "step"
            light = light or k == "lighten"
            op = {"op": k}
            if k == "pickle":
                op["v"] = draw(st.sampled_from([2, 3, 4, 5]))
            elif k == "step":
                op["v"] = draw(st.sampled_from([1.0, 0.1, 2.0, 9.0]))
            elif k == "dirichlet":
                op["v"] = draw(st.sampled_from([0.5, 0.1, 1.0, 3.0]))
            ops.append(op)
        c["ops"] = ops
        c["refit"] = draw(st.integers(0, 3)) == 0
        return c

    return s()


def norm(p):
    return {k: (np.asarray(v).tolist() if isinstance(v, (list, tuple, np.ndarray)) else v) for k, v in p.items()}


def compare(f, g, Xq, case, what):
    """f is the one with the history, g the plain one."""
    a, b = ref.raw_predict(f, Xq), ref.raw_predict(g, Xq)
    require(_base.close(a, b), "%s: the predictions differ" % what, error=np.abs(np.asarray(a) - b).max(initial=0.0))
    ta, tb = ref.tree_predict(f, Xq), ref.tree_predict(g, Xq)
    require(np.array_equal(ta, tb), "%s: the predictions of the trees differ" % what)
    require(
        np.array_equal(call("apply", f.apply, Xq), g.apply(Xq)), "%s: the leaves differ" % what
    )
    require(norm(f.get_params()) == norm(g.get_params()), "%s: the parameters differ" % what, got=f.get_params())
    require(len(f.trees) == len(g.trees), "%s: the number of trees differs" % what)
    diff = _base.same_dump(_base.dump(f), _base.dump(g), case["p"]["aggregation"])
    require(diff is None, "%s: the trees differ (%s)" % (what, diff))
    for t in range(min(2, len(g.trees))):
        ng = g.get_nodes(t)
        if len(ng) > 200:
            continue
        nf = call("get_nodes", f.get_nodes, t)
        require(nf.equals(ng), "%s: get_nodes differs" % what)
    if case["kind"] == "clf":
        require(
            list(f.classes_) == list(g.classes_) and f.n_classes_ == g.n_classes_, "%s: the classes differ" % what
        )
        require(np.array_equal(call("predict", f.predict, Xq), g.predict(Xq)), "%s: the predicted classes differ" % what)
    else:
        require(
            np.array_equal(call("_weighted_depth", f._weighted_depth, Xq), g._weighted_depth(Xq)),
            "%s: the weighted depths differ" % what,
        ) if case["p"]["aggregation"] and hasattr(g, "_weighted_depth") else None


def check(case):
    d = gen.materialise(case)
    case = dict(case, p=dict(case["p"], n_jobs=1))
    f = ref.fit_forest(case, d)
    g = ref.fit_forest(case, d)
    Xq = np.vstack([d.X[:30], d.Xt])
    trips = 0
    for op in case["ops"]:
        k = op["op"]
        if k == "pickle":
            s = call("pickle.dumps", pickle.dumps, f, op["v"])
            f2 = call("pickle.loads", pickle.loads, s)
            compare(f, g, Xq, case, "the pickled forest")
            f = f2
            trips += 1
        elif k == "deepcopy":
            f2 = call("copy.deepcopy", copy.deepcopy, f)
            compare(f, g, Xq, case, "the copied forest")
            f = f2
            trips += 1
        elif k == "lighten":
            call("lighten", f.lighten)
            trips += 1
        elif k == "predict":
            ref.raw_predict(f, Xq)
        else:
            call("setting " + k, setattr, f, k, op["v"])
            setattr(g, k, op["v"])
        compare(f, g, Xq, case, "after " + k)
    if case["refit"]:
        rng = np.random.RandomState(case["seed"] % 1000)
        perm = rng.permutation(d.n)
        w = None if d.w is None else d.w[perm]
        call("fit again", f.fit, d.X[perm], d.y, sample_weight=w)
        g.fit(d.X[perm], d.y, sample_weight=w)
        compare(f, g, Xq, case, "after fitting again")
    split = bool((np.asarray(g.apply(d.X)) != 0).any())
    return {
        "nontrivial": split and trips > 0,
        "classes": gen.case_classes(case) + ["ops:%d" % len(case["ops"])] + ["refit"] * case["refit"],
        "observed": {"ops": [o["op"] for o in case["ops"]]},
    }
