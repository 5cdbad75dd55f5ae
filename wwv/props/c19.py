"""C19: parameters."""

import pickle

import numpy as np

from ..core import Violation, call, must_raise, require
from . import _base
from .. import ref

ROLES = ["clf", "reg"]
BUDGET = {"quick": {"examples": 4000, "cap": 50}, "thorough": {"examples": 80000, "cap": 600}}
RULE = (
    "A forest is built from generated parameters and goes through a generated history of assignments (attribute or "
    "set_params) of values of all types, fits, clones and calls with bad inputs. A model dictionary with the documented rules says "
    "which values are accepted; after every event get_params must equal the model, rejected values must raise ValueError, "
    "and clones must fit the same forest. Non-trivial: at least one rejected value and one fit."
)
ASSUMPTIONS = [
    "booleans given for numbers and NaN or infinite numbers are not judged",
    "subsample, cat_min_categories and handle_unknown are validated by fit",
]
warmup = _base.warm_forest

INTS = [-2, -1, 0, 1, 2, 3, 4, 5, 7, 64, 1000]
FLOATS = [-1.5, -0.1, 0.0, 1e-6, 0.25, 0.5, 1.0, 1.5, 8.0]
STRS = ["", "auto", "sqrt", "log2", "log", "gini", "entropy", "mse", "balanced", "multinomial", "ovr", "binary", "all", "random", "error", "consider_missing", "GINI", "x"]
OTHER = [None, [1], {"a": 1}]
COMMON = ["n_estimators", "criterion", "loss", "step", "aggregation", "max_depth", "min_samples_split", "min_samples_leaf", "max_bins",
          "max_features", "handle_unknown", "cat_min_categories", "subsample", "n_jobs", "random_state", "verbose"]
CLF = COMMON + ["dirichlet", "class_weight", "multiclass", "cat_split_strategy"]
GOOD = {
    "n_estimators": [1, 2, 3, 5], "step": [0.1, 0.25, 1.0, 3.0], "aggregation": [True, False], "max_depth": [None, 2, 3, 7],
    "min_samples_split": [2, 3, 8], "min_samples_leaf": [1, 2, 4], "max_bins": [3, 4, 16, 256], "max_features": [None, "auto", "sqrt", "log2", 1, 2, 0.5, 1.0],
    "handle_unknown": ["error", "consider_missing"], "cat_min_categories": ["log", "sqrt", 4, 9], "subsample": [50000, 200000, None, 60000.0],
    "n_jobs": [1, 2, -1, 3], "random_state": [0, 1, 7, 2 ** 31 - 1], "verbose": [False], "dirichlet": [0.1, 0.5, 1.0, 0.0],
    "class_weight": [None, "balanced"], "multiclass": ["multinomial", "ovr"], "cat_split_strategy": ["binary", "all", "random"],
}


def accepts(name, v, kind):
    """True, False, or None when the documentation does not say."""
    if isinstance(v, bool) and name not in ("aggregation", "verbose"):
        return None if name in ("n_estimators", "max_depth", "min_samples_split", "min_samples_leaf", "max_bins", "max_features", "n_jobs", "random_state", "cat_min_categories", "subsample") else False
    isint, isfloat, isstr = isinstance(v, int), isinstance(v, float), isinstance(v, str)
    if name == "n_estimators":
        return isint and v >= 1
    if name == "step":
        return isfloat and v > 0
    if name in ("aggregation", "verbose"):
        return isinstance(v, bool)
    if name == "max_depth":
        return v is None or (isint and v >= 2)
    if name == "min_samples_split":
        return isint and v >= 2
    if name == "min_samples_leaf":
        return isint and v >= 1
    if name == "max_bins":
        return isint and v >= 3
    if name == "max_features":
        return v is None or v in ("auto", "sqrt", "log2") if not (isint or isfloat) else (v >= 1 if isint else 0 < v <= 1)
    if name == "n_jobs":
        return isint and (v == -1 or v >= 1)
    if name == "random_state":
        return v is None or (isint and v >= 0)
    if name == "dirichlet":
        return isfloat and v >= 0
    if name == "class_weight":
        return v is None or v == "balanced"
    if name == "multiclass":
        return isstr and v in ("multinomial", "ovr")
    if name == "cat_split_strategy":
        return isstr and v in ("binary", "all", "random")
    if name == "criterion":
        return isstr and v in (("gini", "entropy") if kind == "clf" else ("mse",))
    if name == "loss":
        return v == ("log" if kind == "clf" else "mse")
    raise ValueError(name)


DEFERRED = ("handle_unknown", "cat_min_categories", "subsample")


def accepts_deferred(name, v):
    if name == "handle_unknown":
        return isinstance(v, str) and v in ("error", "consider_missing")
    if name == "cat_min_categories":
        return (isinstance(v, int) and v > 3) or (isinstance(v, str) and v in ("log", "sqrt"))
    return v is None or (isinstance(v, (int, float)) and v >= 50000)


def strategy(role, tier):
    from hypothesis import strategies as st
    from ..gen import weighted

    names = CLF if role == "clf" else COMMON
    anyval = st.one_of(st.sampled_from(INTS), st.sampled_from(FLOATS), st.sampled_from(STRS), st.sampled_from(OTHER), st.booleans())

    @st.composite
    def pair(draw):
        name = draw(st.sampled_from(names))
        if name in DEFERRED and draw(st.booleans()):
            name = draw(st.sampled_from(names))
        if name not in GOOD:
            v = draw(st.sampled_from(STRS + [None, 1]))
        elif draw(st.booleans()):
            v = draw(st.sampled_from(GOOD[name]))
        else:
            v = draw(anyval)
            if name == "verbose" and v is True:
                v = False
            if name == "handle_unknown" and isinstance(v, (list, dict)):
                v = None
            if name in DEFERRED and isinstance(v, bool):
                v = None
        return [name, v]

    @st.composite
    def s(draw):
        init = {}
        for _ in range(draw(st.integers(0, 6))):
            name = draw(st.sampled_from([n for n in names if n in GOOD]))
            init[name] = draw(st.sampled_from(GOOD[name]))
        if draw(weighted((True, 3), (False, 1))):
            init["random_state"] = draw(st.sampled_from(GOOD["random_state"]))
        ops = []
        for _ in range(draw(st.integers(1, 10))):
            op = draw(weighted(("set", 8), ("set_params", 5), ("ctor", 3), ("fit", 2), ("clone", 1), ("pickle", 1), ("badinput", 2)))
            if op in ("set", "set_params", "ctor"):
                ops.append([op] + draw(pair()))
            elif op == "badinput":
                ops.append([op, draw(st.sampled_from(["cols", "ylen", "wlen", "unfitted", "onecol"]))])
            else:
                ops.append([op])
        return {"kind": role, "init": init, "ops": ops, "seed": draw(st.integers(0, 2 ** 32 - 1)), "n": draw(st.integers(12, 40)), "d": draw(st.integers(1, 4))}

    return s()


def same(a, b):
    return type(a) is type(b) and a == b


def check(case):
    import wildwood
    from sklearn.base import clone
    from sklearn.exceptions import NotFittedError

    kind = case["kind"]
    cls = wildwood.ForestClassifier if kind == "clf" else wildwood.ForestRegressor
    rng = np.random.RandomState(case["seed"])
    n, d = case["n"], case["d"]
    X = rng.normal(size=(n, d)).round(2)
    y = np.arange(n) % 3 if kind == "clf" else rng.normal(size=n)
    model = call("get_params of the defaults", lambda: cls().get_params())
    for k, v in model.items():
        if k in DEFERRED:
            require(accepts_deferred(k, v), "the default of %s is %r" % (k, v))
        elif k != "categorical_features":
            require(accepts(k, v, kind), "the default of %s is %r" % (k, v))
    f = call("the constructor", cls, **case["init"])
    model.update(case["init"])
    fitted = False
    stats = {"rejected": 0, "fits": 0, "accepted": 0}

    def agrees(after):
        got = call("get_params", f.get_params)
        require(set(got) == set(model), "%s: get_params lists other parameters" % after)
        for k in model:
            require(same(got[k], model[k]), "%s: %s is %r and not %r" % (after, k, got[k], model[k]))
            require(same(getattr(f, k), model[k]), "%s: the attribute %s is %r and not %r" % (after, k, getattr(f, k), model[k]))

    agrees("the constructor")

    def can_fit():
        if not all(accepts_deferred(k, model[k]) for k in DEFERRED):
            return False
        if kind == "clf" and model["aggregation"] and model["dirichlet"] == 0.0:
            return False
        mf = model["max_features"]
        return not (isinstance(mf, int) and mf > d)

    judged = True
    for op in case["ops"]:
        if op[0] in ("set", "set_params"):
            _, name, v = op
            if name in DEFERRED:
                if not fitted:
                    call("setting " + name, setattr, f, name, v)
                    model[name] = v
                    agrees("%s=%r" % (name, v))
                continue
            ok = accepts(name, v, kind)
            if ok is None:
                continue
            if fitted and name in ("step", "dirichlet", "aggregation") and ok:
                if name == "aggregation" or v == 0.0:
                    continue
            if fitted and name in ("n_estimators", "random_state", "multiclass", "cat_split_strategy"):
                ok = False
            fn = (lambda: setattr(f, name, v)) if op[0] == "set" else (lambda: f.set_params(**{name: v}))
            if ok:
                call("%s %s=%r" % (op[0], name, v), fn)
                model[name] = v
                stats["accepted"] += 1
            else:
                exc = (ValueError, AttributeError) if fitted and name in ("multiclass", "cat_split_strategy") else ValueError
                must_raise("%s %s=%r%s" % (op[0], name, v, " after fit" if fitted else ""), exc, fn)
                stats["rejected"] += 1
            agrees("%s %s=%r" % (op[0], name, v))
        elif op[0] == "ctor":
            _, name, v = op
            if name in DEFERRED:
                continue
            ok = accepts(name, v, kind)
            if ok is None:
                continue
            kw = dict(model)
            kw[name] = v
            if ok:
                g = call("the constructor with %s=%r" % (name, v), cls, **kw)
                got = g.get_params()
                for k in kw:
                    require(same(got[k], kw[k]), "the constructor with %s=%r: %s is %r" % (name, v, k, got[k]))
            else:
                must_raise("the constructor with %s=%r" % (name, v), ValueError, cls, **kw)
                stats["rejected"] += 1
        elif op[0] == "fit":
            if can_fit():
                call("fit", f.fit, X, y)
                fitted = True
                stats["fits"] += 1
                require(f.n_features_in_ == d and f.n_samples_in_ == n, "n_features_in_ or n_samples_in_ is wrong")
                ntrees = model["n_estimators"] * (3 if kind == "clf" and model["multiclass"] == "ovr" else 1)
                require(len(f.trees) == ntrees, "%d trees were fitted and not %d" % (len(f.trees), ntrees))
            elif not fitted:
                must_raise("fit with %r" % ({k: model[k] for k in DEFERRED + ("max_features", "aggregation")},), ValueError, f.fit, X, y)
                must_raise("predict after a refused fit", NotFittedError, f.predict, X)
                stats["rejected"] += 1
            agrees("fit")
        elif op[0] == "clone":
            if not can_fit():
                continue
            g = call("clone", clone, f)
            got = g.get_params()
            for k in model:
                require(same(got[k], model[k]), "clone: %s is %r and not %r" % (k, got[k], model[k]))
            must_raise("predict with a clone", NotFittedError, g.predict, X)
            h = call("the constructor", cls, **model)
            call("fit of a clone", g.fit, X, y)
            if isinstance(model["random_state"], int):
                call("fit", h.fit, X, y)
                diff = _base.same_dump(_base.dump(g), _base.dump(h), model["aggregation"])
                require(diff is None, "a clone fits other trees (%s)" % diff)
                require(_base.close(ref.raw_predict(g, X), ref.raw_predict(h, X)), "a clone fits another forest")
            stats["fits"] += 1
            agrees("clone")
        elif op[0] == "pickle":
            f = call("pickle", lambda: pickle.loads(pickle.dumps(f)))
            agrees("pickle")
        else:
            what = op[1]
            methods = ["predict", "apply"] + (["predict_proba", "predict_proba_trees"] if kind == "clf" else ["predict_trees"])
            if what == "unfitted" or (what == "cols" and not fitted):
                g = cls()
                for m in methods:
                    must_raise("%s before fit" % m, NotFittedError, getattr(g, m), X)
                stats["rejected"] += 1
            elif what in ("cols", "onecol"):
                if fitted:
                    Xb = np.hstack([X, X[:, :1]]) if what == "cols" or d == 1 else X[:, :-1]
                    for m in methods:
                        must_raise("%s with %d columns instead of %d" % (m, Xb.shape[1], d), ValueError, getattr(f, m), Xb)
                    stats["rejected"] += 1
            elif what == "ylen":
                g = cls(random_state=0)
                must_raise("fit with y too short", ValueError, g.fit, X, y[:-1])
                must_raise("fit with y too long", ValueError, g.fit, X, np.concatenate([y, y[:2]]))
                stats["rejected"] += 1
            elif what == "wlen":
                g = cls(random_state=0)
                must_raise("fit with too few weights", ValueError, g.fit, X, y, sample_weight=np.ones(n - 1))
                must_raise("fit with too many weights", ValueError, g.fit, X, y, sample_weight=np.ones(n + 1))
                stats["rejected"] += 1
            agrees(what)
    return {
        "nontrivial": stats["rejected"] > 0 and stats["fits"] + stats["accepted"] > 0,
        "classes": [kind] + sorted({"op:" + o[0] for o in case["ops"]}) + [k for k in stats if stats[k]],
        "observed": stats,
    }
