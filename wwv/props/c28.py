"""C28: the loaders of data sets and the synthetic signals."""

import csv
import gzip
import io
import os
import shutil
import zipfile

import numpy as np
import pandas as pd

from ..core import call, require

ROLES = ["data", "signal"]
BUDGET = {"quick": {"examples": 1600, "cap": 45}, "thorough": {"examples": 12000, "cap": 600}}
RULE = (
    "Loaders: those of the files of the package, of scikit-learn data, and of downloaded files, in the place of which generated files "
    "with the same columns are put in a data directory of the check. Histories of loads (raw or as a Dataset) with modifications of what "
    "was loaded before; what is loaded must be what an independent reading of the file gives, and the parts given by extract "
    "must together be the rows of the file. Signals: compared with a reference written from the published formulas, at generated points. "
    "Non-trivial: data sets with a history of two loads or more, signals of ten points or more."
)
ASSUMPTIONS = ["downloads are not exercised: there is no network"]

N, C = "n", "c"
FILES = {
    # file, separator, decimal, header, label, dropped columns, categorical columns
    "boston": ("boston.csv.gz", ",", ".", True, "medv", [], ["chas"]),
    "cardio": ("cardiotocography.csv.gz", ";", ",", True, "CLASS", ["FileName", "Date", "SegFile", "NSP"], []),
    "churn": ("churn.csv.gz", ",", ".", True, "Churn?", ["Phone"], ["State", "Area Code", "Int'l Plan", "VMail Plan"]),
    "letter": ("letter.csv.gz", ",", ".", True, "y", [""], []),
    "satimage": ("satimage.csv.gz", ",", ".", True, "y", [""], []),
    "spambase": ("spambase.csv.gz", ",", ".", False, 57, [], []),
}
TASK = {
    "boston": "regression", "cardio": "multiclass-classification", "churn": "binary-classification", "letter": "multiclass-classification",
    "satimage": "multiclass-classification", "spambase": "binary-classification", "adult": "binary-classification",
    "bank": "binary-classification", "car": "multiclass-classification", "default_cb": "binary-classification",
    "amazon": "binary-classification", "internet": "multiclass-classification", "kick": "binary-classification", "higgs": "binary-classification",
    "breastcancer": "binary-classification", "diabetes": "regression",
}
SCHEMA = {
    "adult": [
        ("age", N), ("workclass", C), ("fnlwgt", N), ("education", C), ("education-num", N), ("marital-status", C), ("occupation", C),
        ("relationship", C), ("race", C), ("sex", C), ("capital-gain", N), ("capital-loss", N), ("hours-per-week", N), ("native-country", C),
    ],
    "bank": [
        ("age", N), ("job", C), ("marital", C), ("education", C), ("default", C), ("balance", N), ("housing", C), ("loan", C), ("contact", C),
        ("day", C), ("month", C), ("duration", N), ("campaign", N), ("pdays", N), ("previous", N), ("poutcome", C),
    ],
    "car": [(c, C) for c in ("Buying", "Maint", "Doors", "Persons", "LugBoot", "Safety")],
    "default_cb": [("LIMIT_BAL", N), ("SEX", C), ("EDUCATION", C), ("MARRIAGE", C), ("AGE", N)]
    + [("PAY_%d" % i, N) for i in (0, 2, 3, 4, 5, 6)]
    + [("BILL_AMT%d" % i, N) for i in range(1, 7)]
    + [("PAY_AMT%d" % i, N) for i in range(1, 7)],
    "amazon": [
        (c, C)
        for c in ("RESOURCE", "MGR_ID", "ROLE_ROLLUP_1", "ROLE_ROLLUP_2", "ROLE_DEPTNAME", "ROLE_TITLE", "ROLE_FAMILY_DESC", "ROLE_FAMILY", "ROLE_CODE")
    ],
    "internet": [("q%d" % i, C) for i in range(12)],
    "higgs": [(i, N) for i in range(1, 29)],
    "kick": [
        ("PurchDate", N), ("Auction", C), ("VehYear", N), ("VehicleAge", N), ("Make", C), ("Model", C), ("Trim", C), ("SubModel", C), ("Color", C),
        ("Transmission", C), ("WheelTypeID", C), ("WheelType", C), ("VehOdo", N), ("Nationality", C), ("Size", C), ("TopThreeAmericanName", C),
        ("MMRAcquisitionAuctionAveragePrice", N), ("MMRAcquisitionAuctionCleanPrice", N), ("MMRAcquisitionRetailAveragePrice", N),
        ("MMRAcquisitonRetailCleanPrice", N), ("MMRCurrentAuctionAveragePrice", N), ("MMRCurrentAuctionCleanPrice", N),
        ("MMRCurrentRetailAveragePrice", N), ("MMRCurrentRetailCleanPrice", N), ("PRIMEUNIT", C), ("AUCGUART", C), ("BYRNO", C), ("VNZIP1", C),
        ("VNST", C), ("VehBCost", N), ("IsOnlineSale", C), ("WarrantyCost", N),
    ],
}
LABEL = {
    "adult": ">50K?", "bank": "y", "car": "Evaluation", "default_cb": "default payment next month", "amazon": "target",
    "internet": "Actual_Time", "higgs": 0, "kick": "IsBadBuy",
}
PATH = {
    "adult": "adult/adult.csv.gz", "bank": "bank/bank.zip", "car": "car/car.csv.gz", "default_cb": "default_cb/default_cb.csv.gz",
    "amazon": "amazon/amazon.csv.gz", "internet": "internet/internet.csv.gz", "higgs": "higgs/HIGGS.csv.gz", "kick": "kick/kick.csv.gz",
}
_bundled = {}


class Table:
    """What a file holds: columns of floats or strings, and labels as strings."""


def bundled(name):
    """Reads a file of the package without pandas."""
    if name in _bundled:
        return _bundled[name]
    file, sep, dec, header, label, drop, cats = FILES[name]
    import wildwood

    with gzip.open(os.path.join(os.path.dirname(os.path.abspath(wildwood.__file__)), "datasets", "data", file), "rt", newline="") as f:
        rows = list(csv.reader(f, delimiter=sep))
    names = rows.pop(0) if header else list(range(len(rows[0])))
    rows = [r for r in rows if r]
    t = Table()
    t.cols, t.order = {}, []
    for j, c in enumerate(names):
        v = [r[j] for r in rows]
        if c == label:
            t.y = v
        elif c not in drop:
            t.order.append(c)
            t.cols[c] = np.array(v, dtype=object) if c in cats else np.array([float(x.replace(dec, ".")) for x in v])
    t.cats, t.label, t.n = cats, label, len(rows)
    _bundled[name] = t
    return t


def from_sklearn(name):
    import sklearn.datasets

    data = getattr(sklearn.datasets, {"breastcancer": "load_breast_cancer", "diabetes": "load_diabetes"}[name])()
    t = Table()
    t.order = [str(c) for c in data["feature_names"]]
    t.cols = {c: data["data"][:, j].astype(float) for j, c in enumerate(t.order)}
    t.y, t.cats, t.label, t.n = [str(v) for v in data["target"]], [], "target", len(data["target"])
    return t


def generated(name, case, home):
    """Writes a file with the columns of a data set, in the place where it is downloaded."""
    rng = np.random.RandomState(case["seed"])
    n = 240
    t = Table()
    t.cols, t.order, t.cats, t.label, t.n = {}, [], [], LABEL[name], n
    for c, kind in SCHEMA[name]:
        t.order.append(c)
        if kind == C:
            k = rng.randint(1, 4)
            v = rng.randint(0, k, size=n) if rng.randint(2) else np.arange(n) % k
            t.cols[c] = np.array([("m%d" % i if case["text"] else "%d" % (i * 3 + 8)) for i in v], dtype=object)
            t.cats.append(c)
        else:
            t.cols[c] = rng.randint(-50, 1000, size=n).astype(float)
    k = 2 if TASK[name].startswith("b") else 3
    v = rng.randint(0, k, size=n)
    v[: 2 * k] = np.repeat(np.arange(k), 2)
    t.y = [("%d" % (i + 1) if case["num_label"] else "lab%d" % i) for i in v]
    columns = list(t.order)
    text = {c: (list(t.cols[c]) if c in t.cats else ["%d" % x for x in t.cols[c]]) for c in columns}
    if name == "higgs":
        columns = [0] + columns
    elif name in ("default_cb", "internet"):
        junk = "ID" if name == "default_cb" else "who"
        text[junk] = ["%d" % (i * 7) for i in range(n)]
        columns = [junk] + columns + [t.label]
    else:
        columns = columns + [t.label]
    text[t.label] = t.y
    buf = io.StringIO()
    w = csv.writer(buf, delimiter=";" if name == "bank" else ",")
    if name != "higgs":
        w.writerow(columns)
    w.writerows(zip(*[text[c] for c in columns]))
    path = os.path.join(home, PATH[name])
    os.makedirs(os.path.dirname(path))
    if name == "bank":
        with zipfile.ZipFile(path, "w") as z:
            z.writestr("bank-full.csv", buf.getvalue())
            z.writestr("bank.csv", "nothing\n")
    else:
        with gzip.open(path, "wt") as f:
            f.write(buf.getvalue())
    return t


def warmup(role):
    if role == "data":
        import wildwood.datasets  # noqa

        for name in FILES:
            bundled(name)


def strategy(role, tier):
    from hypothesis import strategies as st
    from ..gen import weighted

    @st.composite
    def data(draw):
        name = draw(weighted(*([(k, 2) for k in TASK if k not in ("letter", "satimage", "spambase")] + [(k, 1) for k in ("letter", "satimage", "spambase")])))
        steps = []
        for _ in range(draw(st.integers(1, 3))):
            if draw(st.booleans()):
                steps.append({"raw": True, "spoil": draw(st.booleans())})
            else:
                one_hot = draw(st.booleans())
                steps.append(
                    {
                        "raw": False, "one_hot": one_hot, "standardize": draw(st.booleans()), "drop": draw(st.sampled_from([None, "first"])) if one_hot else None,
                        "pd": False if one_hot else draw(st.booleans()), "test_size": draw(st.sampled_from([0.3, 0.2, 0.5])),
                        "rs": draw(st.integers(0, 10000)), "spoil": draw(st.booleans()), "extracts": draw(st.integers(1, 2)),
                    }
                )
        return {"role": "data", "name": name, "seed": draw(st.integers(0, 2 ** 32 - 1)), "text": draw(st.booleans()), "num_label": draw(st.booleans()), "steps": steps}

    @st.composite
    def signal(draw):
        return {
            "role": "signal", "seed": draw(st.integers(0, 2 ** 32 - 1)), "n": draw(weighted((None, 3), (2, 1), (5000, 1))) or draw(st.integers(2, 300)),
            "signal": draw(st.sampled_from(["heavisine", "bumps", "blocks", "doppler"])),
            "points": draw(st.sampled_from(["uniform", "sorted", "grid", "jumps", "ends"])),
            "dtype": draw(st.sampled_from(["float64", "float64", "float32"])),
            "noise": draw(st.sampled_from([0.0, 0.03, 1.0])), "rs": draw(st.integers(0, 2 ** 31 - 1)),
        }

    return data() if role == "data" else signal()


POS = np.array([0.1, 0.13, 0.15, 0.23, 0.25, 0.4, 0.44, 0.65, 0.76, 0.78, 0.81])


def formula(x, signal):
    """The signals of Donoho and Johnstone, as documented (in double precision)."""
    x = x.astype(np.float64)
    if signal == "heavisine":
        y = 4 * np.sin(4 * np.pi * x) - np.sign(x - 0.3) - np.sign(0.72 - x)
    elif signal == "bumps":
        h = np.array([4, 5, 3, 4, 5, 4.2, 2.1, 4.3, 3.1, 5.1, 4.2])
        w = np.array([0.005, 0.005, 0.006, 0.01, 0.01, 0.03, 0.01, 0.01, 0.005, 0.008, 0.005])
        y = (h / (1 + np.abs(x[:, None] - POS) / w) ** 4).sum(axis=1)
    elif signal == "blocks":
        h = np.array([4, -5, 3, -4, 5, -4.2, 2.1, 4.3, -3.1, 2.1, -4.2])
        y = 2.0 + ((1 + np.sign(x[:, None] - POS)) / 2 * h).sum(axis=1)
    else:
        y = np.sqrt(x * (1 - x)) * np.sin(2.1 * np.pi / (x + 0.05)) + 0.5
    return y


def check_signal(case):
    from wildwood.datasets import get_signal, make_regression

    rng = np.random.RandomState(case["seed"])
    n = case["n"]
    if case["points"] == "grid":
        x = np.arange(n) / n
    elif case["points"] == "jumps":
        x = np.clip(rng.choice(np.r_[POS, 0.3, 0.72], size=n) + rng.choice([0.0, 1e-9, -1e-9, 1e-3], size=n), 0, 1)
    elif case["points"] == "ends":
        x = rng.choice([0.0, 1.0, 0.5, 0.999, 1e-12], size=n)
    else:
        x = rng.uniform(size=n)
        if case["points"] == "sorted":
            x = np.sort(x)
    x = x.astype(case["dtype"])
    before = x.copy()
    y = formula(x, case["signal"])
    span = y.max() - y.min()
    if span > 0.05:
        got = call("get_signal", get_signal, x, case["signal"])
        require(np.array_equal(x, before), "get_signal modified the inputs")
        require(got.shape == x.shape and got.dtype == x.dtype, "get_signal gives an array of shape %s and type %s" % (got.shape, got.dtype))
        want = (y - y.min()) / span
        tol = (1e-9 if case["dtype"] == "float64" else 1e-4) / min(1.0, span)
        bad = np.flatnonzero(np.abs(got - want) > tol)
        if case["dtype"] == "float32":
            # jumps, in the precision of the inputs
            near = np.min(np.abs(before[:, None].astype(float) - np.r_[POS, 0.3, 0.72]), axis=1) < 1e-6
            bad = bad[~near[bad]]
            if near.any():
                bad = bad[:0]
        require(len(bad) == 0, "%s at %s is not as documented" % (case["signal"], x[bad[:1]]), got=got[bad[:1]], expected=want[bad[:1]])
    X, yn = call("make_regression", make_regression, n_samples=n, signal=case["signal"], noise=case["noise"], random_state=case["rs"])
    np.random.seed(case["seed"] % 1000)
    X2, yn2 = call("make_regression", make_regression, n_samples=n, signal=case["signal"], noise=case["noise"], random_state=case["rs"])
    require(np.array_equal(X, X2) and np.array_equal(yn, yn2, equal_nan=True), "make_regression is not reproducible")
    require(X.shape == (n, 1) and yn.shape == (n,), "make_regression gives arrays of shapes %s and %s" % (X.shape, yn.shape))
    require((X >= 0).all() and (X <= 1).all() and (np.diff(X[:, 0]) >= 0).all(), "the inputs of make_regression are not sorted in [0, 1]")
    y = formula(X[:, 0], case["signal"])
    if y.max() - y.min() > 0.05:
        r = yn - (y - y.min()) / (y.max() - y.min())
        if case["noise"] == 0.0:
            require((np.abs(r) < 1e-7).all(), "make_regression without noise does not give the signal")
        else:
            z = r / case["noise"]
            # tails of the normal distribution below 1e-12
            require(np.abs(z).max() < 9, "the noise of make_regression is too large")
            if n >= 300:
                require(abs(z.mean()) < 7.5 / np.sqrt(n) and 0.6 < z.std() < 1.4, "the noise of make_regression has not the standard deviation asked for")
    return {"nontrivial": n >= 10, "classes": [case["signal"], case["points"], case["dtype"]], "observed": {"n": n}}


def labels_match(y, want):
    """The labels of a series against the text of the file."""
    y = list(y)
    if len(y) != len(want):
        return False
    for a, b in zip(y, want):
        if isinstance(a, str):
            if a != b:
                return False
        else:
            try:
                if float(a) != float(b):
                    return False
            except ValueError:
                return False
    return True


def same_numbers(a, want):
    a = np.asarray(a).astype(float)
    return a.shape == want.shape and bool(((a == want) | (a == want.astype(np.float32).astype(float))).all())


def check_raw(t, out):
    X, y = out
    require(isinstance(X, pd.DataFrame) and [c for c in X.columns] == t.order, "the columns of X are %s" % list(X.columns)[:8])
    require(len(X) == t.n and len(y) == t.n, "there are %d rows and %d labels and not %d" % (len(X), len(y), t.n))
    for c in t.order:
        if c in t.cats:
            require(str(X[c].dtype) == "category", "column %s is not of type category" % c)
            v = X[c].astype(object).values
            if not isinstance(v[0], str):
                require(same_numbers(v, t.cols[c].astype(float)), "column %s is not that of the file" % c)
            else:
                require(list(v) == list(t.cols[c]), "column %s is not that of the file" % c)
        else:
            require(str(X[c].dtype) != "category" and same_numbers(X[c].values, t.cols[c]), "column %s is not that of the file" % c)
    require(labels_match(y, t.y), "the labels are not those of the file")


def check_extract(name, t, ds, out, s):
    Xtr, Xte, ytr, yte = out
    types = [str(x) for x in Xtr.dtypes] if isinstance(Xtr, pd.DataFrame) else None
    Xtr, Xte = [np.asarray(A.astype(float) if isinstance(A, pd.DataFrame) else A).astype(float) for A in (Xtr, Xte)]
    ytr, yte = np.asarray(ytr).astype(float), np.asarray(yte).astype(float)
    conts = [c for c in t.order if c not in t.cats]
    require(ds.n_samples_in_ == t.n and ds.n_features_in_ == len(t.order), "the attributes give %s rows and %s features" % (ds.n_samples_in_, ds.n_features_in_))
    require(
        ds.n_features_categorical_ == len(t.cats) and ds.n_features_continuous_ == len(conts),
        "the attributes give %s categorical features" % ds.n_features_categorical_,
    )
    n_test = int(np.ceil(s["test_size"] * t.n - 1e-9))
    require(len(Xte) == n_test and len(yte) == n_test and len(Xtr) == t.n - n_test == len(ytr), "the parts have %d and %d rows" % (len(Xtr), len(Xte)))
    # labels
    if TASK[name] == "regression":
        y = np.array([float(v) for v in t.y])
    else:
        num = all(_number(v) for v in t.y)
        keys = sorted(set(t.y), key=float if num else str)
        code = {v: i for i, v in enumerate(keys)}
        y = np.array([code[v] for v in t.y], dtype=float)
        require(ds.n_classes_ == len(keys) and labels_match(ds.classes_, keys), "classes_ is %s" % ds.classes_)
        p = np.bincount(y.astype(int)) / t.n
        require(abs(ds.scaled_gini_ - (1 - (p ** 2).sum()) / (1 - 1 / len(p))) < 1e-9, "scaled_gini_ is wrong")
    # columns by name
    names = [c for c in ds.columns_]
    feats = conts + sorted(t.cats)
    table, mine = np.zeros((t.n, len(feats) + 1)), np.zeros((t.n, len(feats) + 1))
    X = np.vstack([Xtr, Xte])
    for j, c in enumerate(feats):
        if c in t.cats:
            keys = sorted(set(t.cols[c]))
            code = {v: i for i, v in enumerate(keys)}
            table[:, j] = [code[v] for v in t.cols[c]]
            if s["one_hot"]:
                here = [i for i, m in enumerate(names) if isinstance(m, str) and m.rsplit("#", 1)[0] == str(c) and "#" in m]
                want = ["%s#%d" % (c, i) for i in range(1 if s["drop"] else 0, len(keys))]
                require([names[i] for i in here] == want, "the columns of %s are %s" % (c, [names[i] for i in here]))
                B = X[:, here]
                require(np.isin(B, (0.0, 1.0)).all() and (B.sum(axis=1) <= 1).all(), "the columns of %s are not one-hot" % c)
                if s["drop"]:
                    mine[:, j] = (B * np.arange(1, len(keys))).sum(axis=1) if len(here) else 0.0
                else:
                    require((B.sum(axis=1) == 1).all(), "the columns of %s are not one-hot" % c)
                    mine[:, j] = B.argmax(axis=1)
            else:
                require(names.count(c) == 1, "the columns are %s" % names)
                mine[:, j] = X[:, names.index(c)]
                if types is not None:
                    require(types[names.index(c)] == "category", "column %s is not of type category" % c)
        else:
            require(names.count(c) == 1, "the columns are %s" % names)
            x = X[:, names.index(c)]
            raw = t.cols[c].astype(np.float32).astype(float)
            if s["standardize"]:
                m = x[: len(Xtr)]
                spread = raw.max() - raw.min()
                if spread > 0 and m.std() > 0.1:
                    require(abs(m.mean()) < 1e-4 * max(1.0, np.abs(raw).max() / spread) * 10 and abs(m.std() - 1) < 1e-3, "column %s of the train part is not standardised" % c)
                # the ranks are those of the values
                x = np.unique(x, return_inverse=True)[1].reshape(-1).astype(float)
                raw = np.unique(raw, return_inverse=True)[1].reshape(-1).astype(float)
                if len(np.unique(x)) != len(np.unique(raw)):
                    x = raw = np.zeros(t.n)  # rounding merged or split values
            else:
                x = x.astype(np.float32).astype(float)
            table[:, j], mine[:, j] = raw, x
    table[:, -1] = y
    mine[:, -1] = np.concatenate([ytr, yte])
    a, b = table[np.lexsort(table.T)], mine[np.lexsort(mine.T)]
    require(np.array_equal(a, b), "the rows of the two parts are not those of the file")
    if not s["one_hot"] and t.cats:
        mask = np.asarray(ds.categorical_features_).astype(bool)
        require([c in t.cats for c in names] == mask.tolist(), "categorical_features_ is %s for the columns %s" % (mask, names))


def _number(v):
    try:
        float(v)
        return True
    except ValueError:
        return False


def check_data(case):
    import wildwood.datasets as wd

    name = case["name"]
    home = os.path.abspath("home%d" % os.getpid())
    shutil.rmtree(home, ignore_errors=True)
    old = os.environ.get("WILDWOOD_DATA")
    os.environ["WILDWOOD_DATA"] = home
    try:
        if name in FILES:
            t = bundled(name)
        elif name in SCHEMA:
            t = generated(name, case, home)
        else:
            t = from_sklearn(name)
        loader = getattr(wd, "load_" + name)
        files = sorted(os.path.join(d, f) for d, _, fs in os.walk(home) for f in fs)
        for s in case["steps"]:
            what = "load_%s(raw=%s)" % (name, s["raw"])
            got = call(what, loader, raw=s["raw"])
            if s["raw"]:
                check_raw(t, got)
                if s["spoil"]:
                    X, y = got
                    X.drop(columns=X.columns[:1], inplace=True)
                    y.iloc[:] = y.iloc[0]
            else:
                got.one_hot_encode, got.standardize, got.drop = s["one_hot"], s["standardize"], s["drop"]
                got.pd_df_categories, got.test_size = s["pd"] and bool(t.cats), s["test_size"]
                require(got.task == TASK[name], "the task of %s is %s" % (name, got.task))
                for k in range(s["extracts"]):
                    out = call("extract", got.extract, random_state=s["rs"] + k)
                    check_extract(name, t, got, out, s)
                if s["spoil"]:
                    got.df_raw.drop(columns=[t.label], inplace=True)
        now = sorted(os.path.join(d, f) for d, _, fs in os.walk(home) for f in fs)
        require(now == files, "the files of the data directory are now %s" % now)
    finally:
        if old is None:
            os.environ.pop("WILDWOOD_DATA", None)
        else:
            os.environ["WILDWOOD_DATA"] = old
        shutil.rmtree(home, ignore_errors=True)
    return {
        "nontrivial": len(case["steps"]) >= 2, "classes": [name] + ["raw" if s["raw"] else "extract" for s in case["steps"]],
        "observed": {"rows": t.n},
    }


def check(case):
    return check_signal(case) if case["role"] == "signal" else check_data(case)
