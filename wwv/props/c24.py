"""C24: refitting is fitting anew."""

import numpy as np
import pandas as pd

from .. import gen, ref
from ..core import call, require
from . import _base

ROLES = ["clf", "reg"]
BUDGET = {"quick": {"examples": 900, "cap": 60}, "thorough": {"examples": 20000, "cap": 600}}
RULE = (
    "One forest object goes through a generated history: fits on different data sets (other numbers of rows, columns, "
    "classes, categorical declarations, missing values, weights, or the previous data with another declaration, other labels, weights, rows or scale), assignments of parameters, predictions, refused fits (labels of "
    "another length, text in numerical columns, wrong declarations), lighten and pickling. After each fit it must be identical to a "
    "new forest with the current parameters fitted on this data set only. Non-trivial: at least two fits, the last with a split."
)
ASSUMPTIONS = [
    "the categorical columns are declared at each fit (a declaration given to fit stays for the next ones)",
    "predictions with several threads may differ by the order of a floating point sum (1e-12)",
]
warmup = _base.warm_forest

SETTABLE = ["step", "dirichlet", "max_depth", "min_samples_split", "min_samples_leaf", "max_bins", "max_features", "n_jobs", "criterion", "class_weight", "aggregation"]


CHANGES = ["declaration", "declaration", "labels", "weights", "rows", "scale", "column"]


def changed(d, change):
    """The same data up to one aspect, of the same shape."""
    n, m = d.X.shape
    if change == "declaration":
        j = n % m
        d.is_cat = np.array(d.is_cat, dtype=bool).copy()
        if m > 1 and d.is_cat.any() and not d.is_cat.all():
            d.is_cat = np.roll(d.is_cat, 1)
        else:
            d.is_cat[j] = not d.is_cat[j]
    elif change == "weights":
        d.w = 1.0 + np.arange(n) % 3
    elif change == "labels" and (d.w is None or (np.asarray(d.w) > 0).all()):
        d.y = np.asarray(d.y)[::-1].copy()
    elif change in ("labels", "rows"):
        d.X = d.X[::-1].copy()
    elif change == "scale":
        d.X, d.Xt = d.X * 2, d.Xt * 2
    elif change == "column":
        d.X = d.X.copy()
        d.X[:, n % m] = d.X[::-1, n % m]
    return d


def strategy(role, tier):
    from hypothesis import strategies as st

    @st.composite
    def s(draw):
        sets = []
        for _ in range(draw(st.integers(2, 4))):
            if sets and draw(st.integers(0, 2)) != 0:
                # the previous data, up to one aspect
                c = dict(sets[-1], change=draw(st.sampled_from(CHANGES)))
            else:
                c = draw(gen.forest_case(role, n_estimators=3, cap=150, large=False))
            sets.append(c)
        ops = []
        for i in range(len(sets)):
            for _ in range(draw(st.integers(0, 2))):
                ops.append([draw(st.sampled_from(["set", "set", "bad", "predict", "lighten", "pickle", "same"])), draw(st.integers(0, 10 ** 6))])
            ops.append(["fit", i])
        return {"kind": role, "sets": sets, "ops": ops, "p": sets[0]["p"]}

    return s()


def check(case):
    import pickle

    kind = case["kind"]
    params = dict(case["p"])
    if params["max_features"] is not None and isinstance(params["max_features"], int):
        params["max_features"] = 1
    data = [changed(gen.materialise(c), c.get("change")) for c in case["sets"]]
    f = ref.new_forest(case, **params)
    fitted, light = None, False
    fits, split = 0, False

    def kw(i):
        k = {"categorical_features": data[i].is_cat}
        if data[i].w is not None:
            k["sample_weight"] = data[i].w
        return k

    for op, a in case["ops"]:
        if op == "fit":
            d = data[a]
            call("fit number %d" % (fits + 1), f.fit, d.X, d.y, **kw(a))
            fits += 1
            fitted, light = a, False
            g = ref.new_forest(case, **params)
            call("fit of a new forest", g.fit, d.X, d.y, **kw(a))
            what = "after fit number %d" % fits
            diff = _base.same_dump(_base.dump(f), _base.dump(g), params["aggregation"])
            require(diff is None, "%s: the trees are not those of a new forest (%s)" % (what, diff))
            Xq = np.vstack([d.X[:40], d.Xt])
            p, q = ref.raw_predict(f, Xq), ref.raw_predict(g, Xq)
            require(_base.close(p, q), "%s: the predictions are not those of a new forest" % what)
            tp, tq = np.asarray(ref.tree_predict(f, Xq)), np.asarray(ref.tree_predict(g, Xq))
            require(_base.close(tp, tq), "%s: the predictions of the trees are not those of a new forest" % what)
            la, lb = np.asarray(call("apply", f.apply, Xq)), np.asarray(g.apply(Xq))
            require(np.array_equal(la, lb), "%s: apply is not that of a new forest" % what)
            if kind == "clf":
                require(list(f.classes_) == list(g.classes_) and f.n_classes_ == g.n_classes_, "%s: classes_ is not that of a new forest" % what)
                require((np.asarray(f.predict(Xq)) == np.asarray(g.predict(Xq))).mean() == 1.0 or params["n_jobs"] != 1, "%s: predict is not that of a new forest" % what)
            require(f.n_features_in_ == d.X.shape[1] and f.n_samples_in_ == len(d.X), "%s: n_features_in_ or n_samples_in_ is wrong" % what)
            require(np.array_equal(np.asarray(f.is_categorical_, dtype=bool), np.asarray(g.is_categorical_, dtype=bool)), "%s: is_categorical_ is not that of a new forest" % what)
            gp, fp = g.get_params(), f.get_params()
            for k in gp:
                if k != "categorical_features":
                    require(fp[k] == gp[k] and type(fp[k]) is type(gp[k]), "%s: the parameter %s is %r and not %r" % (what, k, fp[k], gp[k]))
            split = bool((la != 0).any())
        elif op == "set":
            rng = np.random.RandomState(a)
            name = SETTABLE[rng.randint(len(SETTABLE))]
            values = {
                "step": [0.1, 1.0, 5.0], "dirichlet": [0.1, 0.5, 2.0], "max_depth": [None, 2, 4], "min_samples_split": [2, 5], "min_samples_leaf": [1, 3],
                "max_bins": [3, 8, 256], "max_features": [None, "auto", 1, 0.5], "n_jobs": [1, 2], "criterion": ["gini", "entropy"],
                "class_weight": [None, "balanced"], "aggregation": [True, False],
            }[name]
            if kind == "reg" and name in ("dirichlet", "criterion", "class_weight"):
                continue
            v = values[rng.randint(len(values))]
            if name == "dirichlet" and light:
                continue  # predictions cannot be recomputed any more
            if name == "aggregation" and kind == "clf" and params["dirichlet"] == 0.0:
                continue
            if rng.randint(2):
                call("set_params", f.set_params, **{name: v})
            else:
                call("setting %s" % name, setattr, f, name, v)
            params[name] = v
        elif op == "bad":
            # a refused fit
            d = data[a % len(data)]
            try:
                if a % 3 == 0:
                    f.fit(d.X, d.y[:-1], categorical_features=d.is_cat)
                elif a % 3 == 1:
                    f.fit(d.X, d.y, categorical_features=[True] * (d.X.shape[1] + 1))
                else:
                    X = np.array([["t%d" % i, 1.0] for i in range(d.n)], dtype=object)
                    f.fit(X, d.y, categorical_features=[False, False])
            except ValueError:
                pass
        elif op == "predict" and fitted is not None:
            try:
                ref.raw_predict(f, data[fitted].Xt)
            except Exception:
                # after a refused fit
                pass
        elif op == "lighten" and fitted is not None:
            call("lighten", f.lighten)
            light = True
        elif op == "pickle":
            f = call("pickle", lambda: pickle.loads(pickle.dumps(f)))
        elif op == "same" and fitted is not None:
            d = data[fitted]
            call("fit on the same data", f.fit, pd.DataFrame(d.X), d.y, **kw(fitted))
            fits += 1
            light = False
    return {
        "nontrivial": fits >= 2 and split,
        "classes": [kind, "aggregation" if params["aggregation"] else "no-aggregation"] + sorted({o[0] for o in case["ops"]}) + sorted({"change:" + c["change"] for c in case["sets"] if "change" in c}) + ["ovr"] * (params.get("multiclass") == "ovr"),
        "observed": {"fits": fits, "ops": [o[0] for o in case["ops"]]},
    }
