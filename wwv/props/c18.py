"""C18: which columns are categorical."""

from math import floor, log, sqrt

import numpy as np
import pandas as pd

from .. import ref
from ..core import call, must_raise, require
from . import _base

ROLES = ["clf", "reg"]
BUDGET = {"quick": {"examples": 2000, "cap": 55}, "thorough": {"examples": 40000, "cap": 600}}
RULE = (
    "Tables (dataframes with numeric, string, boolean, object and category columns; numeric and object arrays) are "
    "generated with numbers of distinct values around the detection threshold, and fitted with no declaration and with "
    "generated declarations (mask, indices in any order with repetitions, list, tuple, in the constructor or in fit). "
    "is_categorical_, the kinds of the splits and the predictions are compared with the rule and with the explicit mask; invalid "
    "declarations must raise ValueError. Non-trivial: both kinds of columns, or a rejected declaration."
)
ASSUMPTIONS = ["an array column with missing values and exactly the threshold number of distinct values is not judged"]
warmup = _base.warm_forest


def strategy(role, tier):
    from hypothesis import strategies as st
    from ..gen import weighted

    @st.composite
    def s(draw):
        container = draw(st.sampled_from(["df", "df", "arr", "obj", "str"]))
        n = draw(st.sampled_from([4, 7, 8, 16, 20, 21, 50, 55, 100, 150, 1100, 2500]))
        cols = []
        for _ in range(draw(st.integers(1, 5))):
            if container == "df":
                t = draw(weighted(("num", 5), ("int", 2), ("str", 1), ("bool", 1), ("category", 1), ("catnum", 1), ("object", 1)))
            elif container == "arr":
                t = "num"
            else:
                t = draw(st.sampled_from(["num", "str"]))
            cols.append({
                "t": t,
                "near": draw(weighted((True, 3), (False, 1))),
                "delta": draw(st.integers(-1, 2)),
                "m": draw(st.integers(1, 60)),
                "miss": draw(weighted((0.0, 3), (0.2, 1))) if container in ("df", "arr") else 0.0,
            })
        return {
            "kind": role, "seed": draw(st.integers(0, 2 ** 32 - 1)), "n": n, "container": container, "cols": cols,
            "late": draw(st.integers(0, 3)) == 0,
            "cmc": draw(st.sampled_from(["log", "log", "sqrt", 4, 5, 10, 40])),
            "declare": draw(weighted(("none", 4), ("mask", 3), ("indices", 3), ("bad", 2))),
            "mask": [draw(st.booleans()) for _ in cols],
            "form": draw(st.sampled_from(["array", "list", "tuple"])),
            "shuffle": draw(st.booleans()),
            "where": draw(st.sampled_from(["fit", "ctor", "both"])),
            "bad": draw(st.sampled_from(["long", "short", "big", "neg", "float", "str", "datetime", "complex", "notnum"])),
            "agg": draw(st.booleans()), "rs": draw(st.integers(0, 10 ** 6)),
        }

    return s()


def threshold(cmc, n):
    if isinstance(cmc, int):
        return cmc
    return int(max(2, floor(log(n) if cmc == "log" else sqrt(n))))


def make(case):
    rng = np.random.RandomState(case["seed"])
    n = case["n"]
    t0 = threshold(case["cmc"], n)
    cols, expect = [], []
    for c in case["cols"]:
        m = max(1, min(n, t0 + c["delta"] if c["near"] else c["m"]))
        codes = np.concatenate([np.arange(m), rng.randint(0, m, size=n - m)])
        if case["late"]:
            # most of the distinct values are in the last rows only
            codes = np.concatenate([np.zeros(n - m, dtype=int), np.arange(m)])
        else:
            codes = rng.permutation(codes)
        miss = np.zeros(n, dtype=bool)
        if c["miss"] and c["t"] not in ("int", "bool"):
            miss = rng.uniform(size=n) < c["miss"]
            miss[np.unique(codes, return_index=True)[1]] = False  # all the values stay
        t = c["t"]
        if case["container"] == "df":
            if t == "num":
                x = codes * 0.5 - 3
                x[miss] = np.nan
                s = pd.Series(x)
                e = m <= t0
            elif t == "int":
                s = pd.Series(codes.astype(rng.choice(["int64", "int16", "uint8"])))
                e = m <= t0
            elif t == "bool":
                s = pd.Series(codes % 2 == 0)
                e = True
            elif t in ("str", "object"):
                x = np.array(["v%03d" % k for k in codes], dtype=object)
                x[miss] = None if t == "object" else np.nan
                s = pd.Series(x, dtype=object)
                e = True
            elif t == "catnum":
                x = codes * 1.0
                x[miss] = np.nan
                s = pd.Series(x).astype("category")
                e = True
            else:
                x = np.array(["v%03d" % k for k in codes], dtype=object)
                x[miss] = np.nan
                s = pd.Series(x).astype("category")
                e = True
            cols.append(s)
            expect.append(e)
        elif case["container"] == "arr":
            x = codes * 0.5 - 3
            x[miss] = np.nan
            cols.append(x)
            extra = 1 if miss.any() else 0
            expect.append(True if m + extra <= t0 else (None if m <= t0 else False))
        else:
            if t == "num":
                cols.append([float(k) for k in codes])
                expect.append(m <= t0)
            else:
                cols.append(["v%03d" % k for k in codes])
                expect.append(True)
    if case["container"] == "df":
        X = pd.concat(cols, axis=1)
        X.columns = ["f%d" % j for j in range(len(cols))]
        hard = [c["t"] in ("str", "bool", "object", "category", "catnum") for c in case["cols"]]
    elif case["container"] == "arr":
        X = np.column_stack(cols)
        hard = [False] * len(cols)
    else:
        X = np.empty((n, len(cols)), dtype=object)
        for j, x in enumerate(cols):
            X[:, j] = x
        if case["container"] == "str":
            X = X.astype(str)
        hard = [c["t"] == "str" for c in case["cols"]]
    y = rng.randint(0, 2, size=n)
    y[:2] = [0, 1]
    y = y if case["kind"] == "clf" else y + rng.normal(size=n).round(2)
    return X, y, expect, hard


def forest(case, **over):
    import wildwood

    cls = wildwood.ForestClassifier if case["kind"] == "clf" else wildwood.ForestRegressor
    kw = dict(n_estimators=2, random_state=case["rs"], aggregation=case["agg"], cat_min_categories=case["cmc"])
    kw.update(over)
    return call("the constructor", cls, **kw)


def form(v, how):
    return {"array": np.array(v), "list": list(v), "tuple": tuple(v)}[how]


def check(case):
    X, y, expect, hard = make(case)
    n, d = X.shape
    rng = np.random.RandomState((case["seed"] + 1) % 2 ** 32)
    objarr = case["container"] in ("obj", "str")
    cls = [case["kind"], case["container"], "declare:" + case["declare"]]

    def verify(f, want, what):
        got = np.asarray(f.is_categorical_, dtype=bool)
        for j in range(d):
            if want[j] is not None:
                require(
                    bool(got[j]) == bool(want[j]),
                    "%s: column %d is %s" % (what, j, "categorical" if got[j] else "numerical"), distinct=len(pd.unique(pd.Series(X.iloc[:, j] if isinstance(X, pd.DataFrame) else X[:, j]).dropna())),
                )
        dmp = _base.dump(f)
        if dmp is not None:
            for t in f.trees:
                v = ref.view(t)
                for i in range(v.node_count):
                    if not v.is_leaf[i]:
                        require(bool(v.iscat[i]) == bool(got[v.feature[i]]), "%s: a split on column %d is of the wrong kind" % (what, v.feature[i]))
        return got

    if case["declare"] == "none":
        f = forest(case)
        call("fit", f.fit, X, y)
        got = verify(f, expect, "no declaration")
        # the same forest as with the explicit mask
        g = forest(case)
        call("fit", g.fit, X, y, categorical_features=got)
        diff = _base.same_dump(_base.dump(f), _base.dump(g), case["agg"])
        require(diff is None, "detected and declared categorical columns give different trees (%s)" % diff)
        require(_base.close(ref.raw_predict(f, X), ref.raw_predict(g, X)), "detected and declared categorical columns give different predictions")
        # an empty declaration is no declaration
        h = forest(case)
        call("fit", h.fit, X, y, categorical_features=[])
        verify(h, expect, "an empty declaration")
        return {"nontrivial": got.any() and not got.all(), "classes": cls, "observed": {"is_categorical": got.tolist()}}

    mask = np.array(case["mask"])
    if case["declare"] == "bad":
        bad = case["bad"]
        cls.append("bad:" + bad)
        arg, Xb = mask, X
        if bad == "long":
            arg = form(list(mask) + [True], case["form"])
        elif bad == "short":
            if d == 1:
                arg = form([True, True, False], case["form"])
            else:
                arg = form(list(mask)[:-1], case["form"])
        elif bad == "big":
            arg = [0, d + int(rng.randint(0, 3))]
            arg = form(arg[:: 1 if rng.randint(2) else -1], case["form"])
        elif bad == "neg":
            arg = [-1 - int(rng.randint(0, 3)), 0]
            arg = form(arg[:: 1 if rng.randint(2) else -1], case["form"])
        elif bad == "float":
            arg = form([0.0, 1.0], case["form"])
        elif bad == "str":
            arg = form(["f0"], case["form"])
        elif bad == "datetime":
            Xb = pd.DataFrame({"a": pd.date_range("2020-01-01", periods=n), "b": np.arange(n) * 1.0})
            arg = [False, False] if rng.randint(2) else None
        elif bad == "complex":
            Xb = np.ones((n, 2)) * 1j
            arg = None
        elif bad == "notnum":
            # text declared as numerical in an array
            Xb = np.array([["t%d" % i, 1.0] for i in range(n)], dtype=object)
            arg = [False, False]
        f = forest(case, **({"categorical_features": arg} if case["where"] == "ctor" else {}))
        kw = {} if case["where"] == "ctor" or arg is None else {"categorical_features": arg}
        must_raise("fit with a bad declaration or column (%s)" % bad, ValueError, f.fit, Xb, y, **kw)
        return {"nontrivial": True, "classes": cls, "observed": {"bad": bad}}

    want = [bool(m or h) if not objarr else bool(m) for m, h in zip(mask, hard)]
    if objarr:
        if any(h and not m for h, m in zip(hard, mask)):
            f = forest(case)
            must_raise("text declared as numerical", ValueError, f.fit, X, y, categorical_features=mask)
            return {"nontrivial": True, "classes": cls + ["text as number"], "observed": {}}
    if case["declare"] == "indices" and not mask.any():
        mask[0] = True
        want[0] = True
        if objarr and any(h and not m for h, m in zip(hard, mask)):
            return {"nontrivial": False, "classes": cls}
    g = forest(case)
    call("fit", g.fit, X, y, categorical_features=mask.copy())
    verify(g, want, "declared by a mask")
    if case["declare"] == "mask":
        arg = form([bool(b) for b in mask], case["form"])
    else:
        idx = np.flatnonzero(mask)
        if case["shuffle"]:
            idx = rng.permutation(np.concatenate([idx, idx[:1]]))
        arg = form([int(i) for i in idx], case["form"])
    other = np.array([not b for b in mask])
    if case["where"] == "fit":
        f = forest(case)
        call("fit", f.fit, X, y, categorical_features=arg)
    elif case["where"] == "ctor":
        f = forest(case, categorical_features=arg)
        call("fit", f.fit, X, y)
    else:
        # what is given to fit prevails
        f = forest(case, categorical_features=other)
        call("fit", f.fit, X, y, categorical_features=arg)
    what = "declared by %s in %s" % (case["declare"], case["where"])
    got = verify(f, want, what)
    diff = _base.same_dump(_base.dump(f), _base.dump(g), case["agg"])
    require(diff is None, what + ": the trees are not those of the mask given to fit (%s)" % diff)
    require(_base.close(ref.raw_predict(f, X), ref.raw_predict(g, X)), what + ": the predictions are not those of the mask given to fit")
    return {"nontrivial": bool(got.any()), "classes": cls + ["in " + case["where"]], "observed": {"is_categorical": got.tolist()}}
