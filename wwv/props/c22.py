"""C22: Dataset.extract."""

import os
from math import ceil

import numpy as np
import pandas as pd

from ..core import call, require

ROLES = ["dataset"]
BUDGET = {"quick": {"examples": 3000, "cap": 50}, "thorough": {"examples": 60000, "cap": 600}}
RULE = (
    "Dataframes with continuous columns (one of which numbers the rows, so that rows can be followed through the scaling), "
    "categorical columns with rare categories, and labels are generated, loaded directly or through a csv file, and extracted with "
    "generated encodings, test sizes and seeds; the four outputs are rebuilt from the raw rows and compared. "
    "Non-trivial: at least one categorical column and ten rows."
)
ASSUMPTIONS = [
    "categorical values are not missing, each class has at least two rows",
    "pd_df_categories is used without one-hot encoding",
]


def strategy(role, tier):
    from hypothesis import strategies as st
    from ..gen import weighted

    @st.composite
    def s(draw):
        n = draw(weighted((None, 3), (12, 1), (200, 1))) or draw(st.integers(8, 80))
        task = draw(st.sampled_from(["regression", "binary-classification", "multiclass-classification"]))
        one_hot = draw(st.booleans())
        return {
            "seed": draw(st.integers(0, 2 ** 32 - 1)), "n": max(n, 16) if task != "regression" else n, "task": task,
            "k": 2 if task.startswith("b") else draw(st.sampled_from([3, 4])),
            "label": draw(st.sampled_from(["str", "int"])),
            "cont": [draw(st.sampled_from(["normal", "int", "const", "miss", "big"])) for _ in range(draw(st.integers(0, 3)))],
            "cat": [{"m": draw(st.sampled_from([1, 2, 3, 6, 15])), "zipf": draw(st.booleans()), "num": draw(st.booleans())} for _ in range(draw(st.integers(0, 3)))],
            "interleave": draw(st.booleans()),
            "standardize": draw(st.booleans()), "one_hot": one_hot,
            "drop": draw(weighted((None, 3), ("first", 1))) if one_hot else None,
            "sparse": draw(weighted((False, 3), (True, 1))) if one_hot else False,
            "pd": False if one_hot else draw(st.booleans()),
            "test_size": draw(st.sampled_from([0.3, 0.25, 0.5, 0.4, 0.37])),
            "rs": draw(st.integers(0, 1000)),
            "csv": draw(weighted((False, 3), (True, 1))),
            "dropcol": draw(st.booleans()),
            "index": draw(st.booleans()),
            "from_dtype": draw(st.booleans()),
            "again": draw(st.booleans()),
            "shuffle": draw(st.booleans()), "extra": draw(st.booleans()), "toggle": draw(st.booleans()),
        }

    return s()


def check(case):
    from wildwood.datasets.dataset import Dataset

    rng = np.random.RandomState(case["seed"])
    n = case["n"]
    data, cont, cats = {}, ["id"], []
    order = rng.permutation(n)
    data["id"] = order.astype(float)
    for i, t in enumerate(case["cont"]):
        name = "x%d" % i
        x = rng.normal(size=n).round(4)
        if t == "int":
            x = rng.randint(-5, 6, size=n).astype(float)
        elif t == "const":
            x = np.full(n, 4.0)
        elif t == "miss":
            x[rng.uniform(size=n) < 0.2] = np.nan
        elif t == "big":
            x = (x * 1e5 + 1e6).round(1)
        data[name] = x
        cont.append(name)
    for i, c in enumerate(case["cat"]):
        name = "c%d" % i
        prob = 1.0 / np.arange(1, c["m"] + 1) ** (2.0 if c["zipf"] else 0.0)
        codes = rng.choice(c["m"], size=n, p=prob / prob.sum())
        if i == 0 and case["sparse"] and case["drop"]:
            # sklearn refuses a sparse block without columns: several categories in any training part
            codes = rng.permutation(n) % max(6, n // 2)
        data[name] = (codes * 3 - 4) if c["num"] else np.array(["m%02d" % k for k in codes])
        cats.append(name)
    if case["task"] == "regression":
        y = rng.normal(size=n).round(3)
    else:
        y = np.concatenate([np.repeat(np.arange(case["k"]), 2), rng.randint(0, case["k"], size=n - 2 * case["k"])])
        if rng.randint(2):
            y[2 * case["k"]:] = np.where(rng.uniform(size=n - 2 * case["k"]) < 0.7, 0, y[2 * case["k"]:])
        y = rng.permutation(y)
        y = np.array(["lab%d" % k for k in y]) if case["label"] == "str" else y * 2 + 1
    data["target"] = y
    names = cont + cats + ["target"]
    if case["interleave"]:
        # the relative order of each kind of column stays the declared one
        a, b, names = list(cont), list(cats) + ["target"], []
        while a or b:
            src = a if a and (not b or rng.randint(2)) else b
            names.append(src.pop(0))
    df = pd.DataFrame({k: data[k] for k in names})
    for c in cats:
        df[c] = df[c].astype("category")
    dtype = {c: ("category" if c in cats else np.float64) for c in names if c != "target"}
    if case.get("shuffle"):
        # declared in another order than that of the dataframe
        cont = cont[:1] + [cont[1:][i] for i in rng.permutation(len(cont) - 1)]
        cats = [cats[i] for i in rng.permutation(len(cats))]
        dtype = {c: ("category" if c in cats else np.float64) for c in cont + cats}
    if case.get("extra"):
        # a column which is not declared
        df.insert(int(rng.randint(len(names))), "extra", np.arange(n) % 4)
        names = list(df.columns)
    if case["index"]:
        df.index = np.arange(n)[::-1] * 5
    kw = dict(
        label_column="target", continuous_columns=cont, categorical_columns=cats, test_size=case["test_size"], standardize=case["standardize"],
        one_hot_encode=case["one_hot"], sparse=case["sparse"], drop=case["drop"], pd_df_categories=case["pd"],
    )
    if case["from_dtype"] and not (case["sparse"] or case["drop"] or case["pd"]):
        kw.update(test_size=0.3, standardize=True)
        ds = call("Dataset.from_dtype", Dataset.from_dtype, "d", case["task"], "target", dtype, drop_columns=["junk"] if case["dropcol"] else None, one_hot_encode=case["one_hot"])
    else:
        ds = call("Dataset", Dataset, "d", case["task"], drop_columns=["junk"] if case["dropcol"] else None, **kw)
    if case["csv"]:
        path = os.path.abspath("d%d.csv" % os.getpid())
        out = df.copy()
        if case["dropcol"]:
            out.insert(0, "junk", np.arange(n) % 3)
        out.to_csv(path, index=False)
        call("load_from_csv", ds.load_from_csv, path, dtype={c: "category" if c in cats else None for c in cats})
        os.remove(path)
        # numbers read as categories become text
        df = df.reset_index(drop=True)
        for c in cats:
            df[c] = df[c].astype(str).astype("category")
        require(list(ds.df_raw.columns) == names, "the loaded columns are %s" % list(ds.df_raw.columns))
    else:
        ds.df_raw = df.copy()
    before = ds.df_raw.copy()
    if case.get("toggle") and not case["sparse"]:
        ds.one_hot_encode, ds.pd_df_categories = not kw["one_hot_encode"], False
        ds.standardize = not kw["standardize"]
        call("extract", ds.extract, random_state=case["rs"] + 2)
        ds.one_hot_encode, ds.pd_df_categories, ds.standardize = kw["one_hot_encode"], case["pd"], kw["standardize"]
    out = call("extract", ds.extract, random_state=case["rs"])
    require(before.equals(ds.df_raw), "extract modified the raw data")
    if case["again"]:
        out2 = call("extract again", ds.extract, random_state=case["rs"])
        for a, b in zip(out, out2):
            a, b = dense(a), dense(b)
            require(a.shape == b.shape and np.array_equal(a, b, equal_nan=a.dtype.kind == "f"), "the same random_state gives another split")
        other = call("extract with another seed", ds.extract, random_state=case["rs"] + 1)
        if n >= 20 and case["task"] == "regression":
            a, b = dense(out[0])[:, 0], dense(other[0])[:, 0]
            require(a.shape != b.shape or not np.array_equal(a, b), "another random_state gives the same split")
        call("extract", ds.extract, random_state=case["rs"])
    Xtr, Xte, ytr, yte = out
    types = [str(t) for t in Xtr.dtypes] if case["pd"] else None
    Xtr, Xte, ytr, yte = dense(Xtr), dense(Xte), np.asarray(ytr), np.asarray(yte)
    n_test = ceil(kw["test_size"] * n - 1e-9)
    require(len(Xte) == n_test and len(Xtr) == n - n_test, "the parts have %d and %d rows for test_size=%g of %d" % (len(Xtr), len(Xte), kw["test_size"], n))
    require(len(ytr) == len(Xtr) and len(yte) == len(Xte), "features and labels have different lengths")
    # which raw row is each row: the ranks of the row numbers
    z = np.concatenate([Xtr[:, 0], Xte[:, 0]]).astype(float)
    rank = np.argsort(np.argsort(z, kind="stable"), kind="stable")
    if n > 1:
        gaps = np.diff(np.sort(z))
        require((gaps > 0).all() and np.allclose(gaps, gaps[0], rtol=1e-6), "the rows of the two parts are not a partition of the raw rows")
    pos = np.empty(n, dtype=int)
    pos[order] = np.arange(n)
    rows = pos[rank]
    tr, te = rows[: len(Xtr)], rows[len(Xtr):]
    # labels
    raw = df["target"].values
    for part, yy, idx in (("train", ytr, tr), ("test", yte, te)):
        if case["task"] == "regression":
            require(np.array_equal(yy.astype(float), raw[idx].astype(float)), "the %s labels are not those of the rows" % part)
        else:
            require(yy.min() >= 0 and yy.max() < len(ds.classes_), "%s labels are out of range" % part)
            require(np.array_equal(np.asarray(ds.classes_)[yy], raw[idx]), "the %s labels do not decode to those of the rows" % part)
    if case["task"] != "regression":
        require(list(ds.classes_) == sorted(set(raw.tolist())) and ds.n_classes_ == len(ds.classes_), "classes_ is not the sorted list of labels")
        for v in ds.classes_:
            c, t = (raw == v).sum(), (raw[te] == v).sum()
            require(abs(t - len(te) * c / n) < 1 + 1e-9, "the split is not stratified: class %r has %d of %d rows in a test part of %d/%d" % (v, t, c, len(te), n))
        p = np.array([(raw == v).mean() for v in ds.classes_])
        g = (1 - (p ** 2).sum()) / (1 - 1 / len(p))
        require(abs(ds.scaled_gini_ - g) < 1e-9, "scaled_gini_ is wrong")
    # features
    width, expected_names = 0, []
    for c in cont:
        x = df[c].values.astype(float)
        if kw["standardize"]:
            m, s = np.nanmean(x[tr]), np.nanstd(x[tr])
            x = (x - m) / (s if s > 1e-12 * max(1, abs(m)) else 1.0)
        for part, A, idx in (("train", Xtr, tr), ("test", Xte, te)):
            require(np.allclose(A[:, width].astype(float), x[idx], rtol=1e-6, atol=1e-7, equal_nan=True), "column %s of the %s part is not as expected" % (c, part))
        width += 1
        expected_names.append(c)
    unseen = False
    for c in cats:
        x = np.asarray(df[c].astype(object))
        known = sorted(set(x[tr].tolist()))
        code = {v: i for i, v in enumerate(known)}
        for part, A, idx in (("train", Xtr, tr), ("test", Xte, te)):
            want = np.array([code.get(v, -1) for v in x[idx]])
            unseen = unseen or (want < 0).any()
            if kw["one_hot_encode"]:
                hot = np.zeros((len(idx), len(known)))
                ok = want >= 0
                hot[np.flatnonzero(ok), want[ok]] = 1
                if kw["drop"] == "first":
                    hot = hot[:, 1:]
                got = A[:, width : width + hot.shape[1]].astype(float)
                require(got.shape == hot.shape and (got == hot).all(), "the one-hot columns of %s are wrong in the %s part" % (c, part))
                w = hot.shape[1]
            else:
                require((A[:, width].astype(float) == want).all(), "the codes of %s are wrong in the %s part" % (c, part))
                w = 1
        width += w
        expected_names.extend([c] if not kw["one_hot_encode"] else ["%s#%d" % (c, i) for i in range(len(known) - w, len(known))])
    require(Xtr.shape[1] == width and Xte.shape[1] == width, "there are %d columns and not %d" % (Xtr.shape[1], width))
    require(ds.n_columns_ == width and ds.n_samples_train_ == len(Xtr) and ds.n_samples_test_ == len(Xte) and ds.n_samples_in_ == n, "the sizes in the attributes are wrong")
    require(list(ds.columns_) == expected_names, "columns_ is %s" % ds.columns_)
    require(
        list(ds.continuous_columns_) == cont and list(ds.categorical_columns_) == cats and ds.n_features_in_ == len(cont) + len(cats)
        and ds.n_features_continuous_ == len(cont) and ds.n_features_categorical_ == len(cats),
        "the attributes do not describe the declared columns", got=[ds.continuous_columns_, ds.categorical_columns_, ds.n_features_in_],
    )
    if kw["one_hot_encode"] or not cats:
        require(ds.categorical_features_ is None or not np.any(ds.categorical_features_), "categorical_features_ marks columns that are not categorical")
    else:
        mask = np.asarray(ds.categorical_features_)
        require(mask.tolist() == [False] * len(cont) + [True] * len(cats), "categorical_features_ is %s" % mask)
    if types is not None:
        require([t == "category" for t in types] == [False] * len(cont) + [True] * len(cats), "the types of the columns are %s" % types)
    cls = [case["task"], "one-hot" if case["one_hot"] else "ordinal", "csv" if case["csv"] else "direct"]
    if unseen:
        cls.append("unseen category in test")
    return {"nontrivial": bool(cats) and n >= 10, "classes": cls, "observed": {"train": len(tr), "test": len(te), "columns": width}}


def dense(a):
    if hasattr(a, "toarray"):
        a = a.toarray()
    if isinstance(a, pd.DataFrame):
        return a.astype(float).values
    return np.asarray(a)
