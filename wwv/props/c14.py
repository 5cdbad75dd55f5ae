"""C14: the user's data is left alone."""

import pickle

import numpy as np
import pandas as pd

from .. import gen, ref
from ..core import call, require
from . import _base
from .c13 import represent

ROLES = ["clf", "reg"]
BUDGET = {"quick": {"examples": 1600, "cap": 55}, "thorough": {"examples": 40000, "cap": 600}}
RULE = (
    "X, y, sample_weight, categorical_features and query rows are generated in types that the code could use without "
    "a copy (float32, contiguous, read-only, dataframes, lists); they are compared byte for byte before and after fit and "
    "a generated sequence of calls; then the arrays are overwritten and the fitted forest must predict the same, also "
    "after changes of step and dirichlet. Non-trivial: at least one split."
)
ASSUMPTIONS = []
warmup = _base.warm_forest

XREPS = ["C", "F", "strided", "f32", "f32F", "df", "df32", "dfdup", "dfint", "dfcat", "object", "int"]
OPS = ["predict", "trees", "apply", "nodes", "step", "dirichlet", "pickle", "lighten", "encoder", "refit", "params"]


def strategy(role, tier):
    from hypothesis import strategies as st

    @st.composite
    def s(draw):
        c = draw(gen.forest_case(role, n_estimators=3, cap=150, large=False))
        if draw(st.integers(0, 3)) == 0:
            for col in c["cols"]:
                col["miss"] = 0.0
                if col["t"] not in ("cat", "grid"):
                    col["t"], col["m"] = "grid", 40
        if draw(st.integers(0, 2)) == 0:
            for col in c["cols"]:
                col["miss"] = 0.0
        c["xrep"] = draw(st.sampled_from(XREPS))
        c["ytype"] = draw(st.sampled_from(["float32", "float32", "float64", "int64", "list", "series32", "series"]))
        c["wtype"] = draw(st.sampled_from(["float32", "float32", "float64", "list", "series32", "series"]))
        c["mtype"] = draw(st.sampled_from(["bool", "list", "int"]))
        c["readonly"] = draw(st.booleans())
        c["ctor"] = draw(st.booleans())
        c["ops"] = draw(st.lists(st.sampled_from(OPS), max_size=6))
        c["nt"] = draw(st.integers(1, 20))
        return c

    return s()


def vec(v, t):
    if v is None:
        return None
    if t == "list":
        return v.tolist()
    if t == "series32":
        return pd.Series(v.astype(np.float32))
    if t == "series":
        return pd.Series(v.copy())
    return v.astype(t)


def snap(a):
    if a is None or isinstance(a, (list, tuple)):
        return pickle.dumps(a)
    if isinstance(a, pd.DataFrame):
        return (
            a.shape, [str(t) for t in a.dtypes], list(a.columns), list(a.index),
            [snap(a.iloc[:, j]) for j in range(a.shape[1])],
        )
    if isinstance(a, pd.Series):
        if str(a.dtype) == "category":
            return a.cat.codes.values.tobytes(), list(a.cat.categories), a.cat.ordered
        return snap(a.values), list(a.index), a.name
    if a.dtype == object:
        return a.shape, [repr(v) for v in a.ravel()]
    return a.shape, str(a.dtype), a.strides, a.tobytes()


def freeze(a):
    if isinstance(a, np.ndarray):
        a.flags.writeable = False


def wreck(a, rng):
    """Overwrites in place."""
    if isinstance(a, list):
        for i in range(len(a)):
            a[i] = a[0]
    elif isinstance(a, np.ndarray):
        a.flags.writeable = True
        if a.dtype == bool:
            a[...] = ~a
        elif a.dtype == object:
            a[...] = a.ravel()[0] if a.size else None
        elif a.dtype.kind == "f":
            a[...] = rng.uniform(5, 900, size=a.shape)
        else:
            a[...] = 0
    elif isinstance(a, pd.DataFrame):
        for j in range(a.shape[1]):
            v = a.iloc[:, j]
            if v.dtype.kind in "fiu" and v.values.flags.writeable:
                v.values[...] = 7
    elif isinstance(a, pd.Series):
        if a.values.flags.writeable:
            a.values[...] = 1


def check(case):
    d = gen.materialise(case)
    for a in (d.X, d.Xt):
        a[...] = a.astype(np.float32)  # the same values in all types
    rng = np.random.RandomState((case["seed"] + 9) % 2 ** 32)

    def rep(A):
        if case["xrep"] == "C":
            return np.ascontiguousarray(A).copy()
        if case["xrep"] == "f32F":
            return np.asfortranarray(A.astype(np.float32))
        return represent(A, d.is_cat, case["xrep"], rng)

    X, Q = rep(d.X), rep(d.Xt)
    y = vec(d.y, case["ytype"])
    if case["kind"] == "reg" and case["ytype"] == "int64":
        y = vec(d.y, "float64")
    w = vec(d.w, case["wtype"])
    m = {"bool": d.is_cat.copy(), "list": d.is_cat.tolist(), "int": np.flatnonzero(d.is_cat)}[case["mtype"]]
    if len(m) == 0:
        m = d.is_cat.copy()
    things = {"X": X, "y": y, "sample_weight": w, "categorical_features": m, "the query rows": Q}
    if case["readonly"]:
        for a in things.values():
            freeze(a)
    before = {k: snap(a) for k, a in things.items()}

    def unchanged(after):
        for k, a in things.items():
            require(snap(a) == before[k], "%s was modified by %s" % (k, after))

    f = ref.new_forest(case, **({"categorical_features": m} if case["ctor"] else {}))
    kw = {} if case["ctor"] else {"categorical_features": m}
    if w is not None:
        kw["sample_weight"] = w
    call("fit", f.fit, X, y, **kw)
    unchanged("fit")
    light = False
    for op in case["ops"]:
        if op == "predict":
            call("predict", f.predict, Q)
            ref.raw_predict(f, Q)
            ref.raw_predict(f, X)
        elif op == "trees":
            ref.tree_predict(f, Q)
        elif op == "apply":
            call("apply", f.apply, Q)
            call("apply", f.apply, X)
        elif op == "nodes":
            if not light:
                call("get_nodes", f.get_nodes, 0)
        elif op == "step":
            call("step", setattr, f, "step", 0.3)
        elif op == "dirichlet" and case["kind"] == "clf" and not light:
            call("dirichlet", setattr, f, "dirichlet", 0.9)
        elif op == "pickle":
            call("pickle", pickle.dumps, f)
        elif op == "lighten":
            call("lighten", f.lighten)
            light = True
        elif op == "encoder":
            from wildwood.preprocessing import Encoder

            e = Encoder(is_categorical=d.is_cat, handle_unknown="consider_missing", max_bins=case["p"]["max_bins"])
            call("Encoder.fit", e.fit, X)
            call("Encoder.transform", e.transform, X)
            b = call("Encoder.transform", e.transform, Q)
        elif op == "refit":
            call("fit", f.fit, X, y, **kw)
            light = False
        elif op == "params":
            call("get_params", f.get_params)
        unchanged(op)
    # the arrays belong to the user
    d = gen.materialise(case)
    p = ref.raw_predict(f, d.Xt)
    for a in things.values():
        wreck(a, rng)
    p2 = ref.raw_predict(f, d.Xt)
    require(_base.close(p, p2), "the forest changed when the user's arrays were overwritten", error=np.abs(p - p2).max())
    leaves = np.asarray(call("apply", f.apply, d.Xt))
    # and every later computation uses the data as given to fit: a twin that nobody tampered
    # with goes through the same changes
    d2 = gen.materialise(case)
    for a in (d2.X, d2.Xt):
        a[...] = a.astype(np.float32)
    g = ref.fit_forest(case, d2)
    light = False
    for op in case["ops"] + ["final"]:
        if op in ("step", "final"):
            call("step", setattr, g, "step", 0.3 if op == "step" else 0.7)
        if op in ("dirichlet", "final") and case["kind"] == "clf" and not light:
            call("dirichlet", setattr, g, "dirichlet", 0.9 if op == "dirichlet" else 0.25)
        if op == "lighten":
            g.lighten()
            light = True
        if op == "refit":
            call("fit", g.fit, d2.X, d2.y, sample_weight=d2.w, categorical_features=d2.is_cat)
            light = False
    call("step", setattr, f, "step", 0.7)
    if case["kind"] == "clf" and not light:
        call("dirichlet", setattr, f, "dirichlet", 0.25)
    p3, p4 = ref.raw_predict(f, d2.Xt), ref.raw_predict(g, d2.Xt)
    require(
        _base.close(p3, p4), "a change of step and dirichlet after the user's arrays were overwritten uses the overwritten data",
        error=np.abs(p3 - p4).max(),
    )
    return {
        "nontrivial": bool((leaves != 0).any()),
        "classes": gen.case_classes(case) + ["X:" + case["xrep"], "y:" + case["ytype"]] + (["read-only"] if case["readonly"] else []),
        "observed": {"ops": case["ops"], "X": case["xrep"]},
    }
