"""Generators. A case is a plain JSON-able dict drawn by Hypothesis (sizes, column kinds,
label and weight schemes, parameters and one data seed); `materialise` turns it into
arrays as a pure function of the dict, so that shrinking and replaying work on the dict.

Domain (what wildwood documents or its callers respect): at least two rows, two or more
classes when categorical columns are there, finite labels, non-negative weights most of
which are positive, `X` a numpy array or a dataframe.
"""

import numpy as np
from hypothesis import strategies as st

# ------------------------------------------------------------------ helpers


def weighted(*pairs):
    """A strategy that draws one of the values with integer multiplicities."""
    pool = []
    for value, k in pairs:
        pool.extend([value] * k)
    return st.sampled_from(pool)


@st.composite
def sizes(draw, large=True, lo=2, cap=400):
    if large == "rare":
        large = draw(st.integers(0, 9)) == 7
    bucket = draw(weighted(("s", 4), ("m", 6), ("l", 3), ("xl", 1 if large else 0)))
    if bucket == "s":
        return draw(st.integers(lo, max(lo, min(cap, 14))))
    if bucket == "m":
        return draw(st.integers(min(15, cap), min(cap, 80)))
    if bucket == "l":
        return draw(st.integers(min(81, cap), min(cap, 400)))
    return draw(st.integers(1500, 4500))


CAT_CARD = [1, 2, 3, 4, 6, 9, 17, 40, 70, 126, 127, 128, 129, 140, 260]


@st.composite
def columns(draw, min_cols=1, max_cols=5, cat=True, missing=True, cat_card=None):
    n_cols = draw(st.integers(min_cols, max_cols))
    cols = []
    for _ in range(n_cols):
        t = draw(
            weighted(("normal", 4), ("grid", 3), ("cat", 4 if cat else 0), ("heavy", 1), ("const", 1))
        )
        c = {"t": t}
        if t == "grid":
            c["m"] = draw(st.sampled_from([2, 3, 5, 12, 40, 300]))
            if draw(st.integers(0, 5)) == 4:
                # identifiers, timestamps: values that single precision cannot tell apart
                c["off"] = draw(st.sampled_from([1600000000, -30000000, 1000]))
        elif t == "cat":
            c["m"] = draw(st.sampled_from(cat_card or CAT_CARD))
            c["zipf"] = draw(st.booleans())
        elif t == "heavy":
            c["e"] = draw(st.sampled_from([-6, 0, 6, 30]))
        c["info"] = draw(st.booleans())
        c["miss"] = draw(weighted((0.0, 6), (0.1, 2), (0.4, 1), (0.9, 1))) if missing else 0.0
        cols.append(c)
    return cols


WEIGHTS = ["none", "ones", "int", "float", "intzero", "floatzero", "small", "big"]


@st.composite
def weight_spec(draw, n, kinds=None):
    kinds = kinds or WEIGHTS
    pool = [("none", 4)] + [(k, 1 if k in ("ones", "small", "big") else 2) for k in kinds if k != "none"]
    k = draw(weighted(*pool))
    if k in ("intzero", "floatzero") and n < 12:
        k = "int"
    return k


@st.composite
def common_params(draw, n_features, aggregation=None, n_estimators=4, max_features=None):
    p = {}
    p["n_estimators"] = draw(st.integers(1, n_estimators))
    p["aggregation"] = draw(st.booleans()) if aggregation is None else aggregation
    p["step"] = draw(weighted((1.0, 4), (0.1, 1), (0.01, 1), (3.7, 1), (25.0, 1)))
    p["max_depth"] = draw(weighted((None, 5), (2, 1), (3, 1), (5, 1), (12, 1)))
    p["min_samples_split"] = draw(weighted((2, 5), (3, 1), (5, 1), (10, 1)))
    p["min_samples_leaf"] = draw(weighted((1, 5), (2, 1), (3, 1), (5, 1)))
    p["max_bins"] = draw(weighted((256, 5), (3, 1), (4, 1), (7, 1), (16, 2), (64, 1), (1000, 1)))
    if max_features == "all":
        p["max_features"] = None
    else:
        p["max_features"] = draw(
            weighted(
                (None, 3), ("auto", 3), ("sqrt", 1), ("log2", 1), ("int", 2), ("float", 1)
            )
        )
        if p["max_features"] == "int":
            p["max_features"] = draw(st.integers(1, n_features))
        elif p["max_features"] == "float":
            p["max_features"] = draw(st.sampled_from([0.01, 0.34, 0.5, 0.75, 1.0]))
    p["n_jobs"] = draw(weighted((1, 6), (2, 1), (-1, 1)))
    if draw(weighted((False, 9), (True, 1))):
        p["verbose"] = True
    p["random_state"] = draw(weighted((42, 1), (0, 1), (None, 0))) if draw(st.booleans()) else draw(
        st.integers(0, 2 ** 31 - 1)
    )
    return p


@st.composite
def clf_params(draw, n_features, multiclass=None, **kw):
    p = draw(common_params(n_features, **kw))
    p["criterion"] = draw(st.sampled_from(["gini", "entropy"]))
    p["cat_split_strategy"] = draw(st.sampled_from(["binary", "all", "random"]))
    p["multiclass"] = multiclass or draw(weighted(("multinomial", 3), ("ovr", 1)))
    p["class_weight"] = draw(weighted((None, 3), ("balanced", 1)))
    p["dirichlet"] = draw(weighted((0.5, 4), (0.1, 1), (1e-7, 1), (1.0, 1), (7.5, 1)))
    if not p["aggregation"] and draw(weighted((False, 3), (True, 1))):
        p["dirichlet"] = 0.0
    return p


@st.composite
def reg_params(draw, n_features, **kw):
    return draw(common_params(n_features, **kw))


@st.composite
def forest_case(
    draw,
    role,
    *,
    large=True,
    cap=400,
    lo=2,
    min_cols=1,
    max_cols=5,
    cat=True,
    missing=True,
    weights=None,
    classes=(2, 3, 4, 7),
    reg_labels=("int", "gauss", "offset", "scaled", "binary", "tiny"),
    aggregation=None,
    n_estimators=4,
    max_features=None,
    multiclass=None,
    cat_card=None,
    n_test=30,
    chains=True,
    extremes=(),
):
    n = draw(sizes(large=large, lo=lo, cap=cap))
    cols = draw(columns(min_cols, max_cols, cat=cat, missing=missing, cat_card=cat_card))
    if max_cols >= 5 and n <= 1000 and draw(weighted((False, 19), (True, 1))):
        # many columns
        m = draw(st.sampled_from([8, 9, 16, 17, 33, 40]))
        cols = [dict(c) for c in (cols * m)[:m]]
        n = min(n, 80)
    kw = dict(aggregation=aggregation, n_estimators=n_estimators, max_features=max_features)
    case = {"kind": role, "seed": draw(st.integers(0, 2 ** 32 - 1)), "n": n, "cols": cols}
    if role == "clf":
        k = draw(st.sampled_from(list(classes)))
        if len(classes) > 3 and n <= 400 and draw(st.integers(0, 24)) == 13:
            k = draw(st.sampled_from([12, 30]))
        case["y"] = {
            "k": min(k, max(2, n)),
            "noise": draw(st.sampled_from([0.0, 0.3, 1.0])),
            "skew": draw(st.booleans()),
        }
        case["p"] = draw(clf_params(len(cols), multiclass=multiclass, **kw))
    else:
        case["y"] = {
            "t": draw(st.sampled_from(list(reg_labels))),
            "noise": draw(st.sampled_from([0.0, 0.3, 1.0])),
        }
        case["p"] = draw(reg_params(len(cols), **kw))
    case["w"] = draw(weight_spec(n, weights))
    if n > 1000:
        case["p"]["n_estimators"] = min(2, case["p"]["n_estimators"])
        if draw(st.booleans()):
            # trees with thousands of nodes
            case["n"] = n + draw(weighted((3500, 3), (14000, 1)))
            case["cols"] = cols[:-1] + [{"t": "normal", "info": False, "miss": 0.0}]
            case["y"]["noise"] = 1.0
            if role == "reg":
                case["y"]["t"] = draw(st.sampled_from(["gauss", "int"]))
            case["p"].update(
                n_estimators=1, max_depth=None, min_samples_split=2, min_samples_leaf=1,
                max_bins=draw(st.sampled_from([256, 1000])),
            )
            if cat and cat_card is None and draw(st.booleans()):
                # a categorical column with more categories than a byte can number
                case["cols"][-1] = {
                    "t": "cat", "m": draw(st.sampled_from([300, 700, 1500])), "zipf": draw(st.booleans()), "info": True, "miss": 0.0,
                }
    elif n > 80 and cap >= 400 and cat_card is None and draw(st.integers(0, 5)) == 4:
        # bins that a byte cannot number
        case["n"] = n + 400
        case["cols"] = cols[:-1] + [{"t": "normal", "info": True, "miss": 0.0}]
        case["p"]["max_bins"] = 1000
    elif n >= 60 and chains and draw(st.integers(0, 11)) == 9:
        # trees that are a chain: each split isolates the samples at one end
        m = min(60, n // 5)
        case["cols"] = cols[:-1] + [{"t": "grid", "m": m, "info": True, "miss": 0.0}]
        case["y"]["chain"] = True
        case["p"].update(max_depth=None, min_samples_split=2, min_samples_leaf=1, max_bins=256, n_estimators=min(2, case["p"]["n_estimators"]))
    case["nt"] = draw(st.integers(0, n_test))
    if extremes and draw(st.integers(0, 24)) == 17:
        pool = [e for e in extremes if e != "classes" or role == "clf"]
        what = draw(st.sampled_from(pool))
        if what == "nodes" and draw(st.booleans()):
            what = pool[0]  # these are slow
        make_extreme(case, what)
    return case


def make_extreme(case, what):
    """Numbers of rows, columns, classes or trees that small integer types do not hold."""
    p, cols = case["p"], case["cols"]
    case["extreme"] = what
    case["y"].pop("chain", None)
    if what == "rows":
        case["n"] = 66000 + case["seed"] % 4000
        case["cols"] = [{"t": "normal", "info": True, "miss": 0.0}, {"t": "grid", "m": 12, "info": True, "miss": 0.1}]
        p.update(n_estimators=1, max_depth=min(4, p["max_depth"] or 4))
        if isinstance(p["max_features"], int):
            p["max_features"] = min(2, p["max_features"])
    elif what == "columns":
        case["cols"] = [dict(c) for c in (cols * 300)[: 270 + case["seed"] % 40]]
        case["n"] = max(20, min(case["n"], 60))
        if case["n"] < 12 and "zero" in case["w"]:
            case["w"] = "none"
        p.update(n_estimators=min(2, p["n_estimators"]))
    elif what == "classes":
        case["n"] = 700 + case["seed"] % 200
        case["cols"] = [c if c["t"] != "cat" else dict(c, m=min(c["m"], 17)) for c in cols[:3]]
        case["y"]["k"] = 270 + case["seed"] % 20
        case["y"]["skew"] = False
        p.update(n_estimators=1, multiclass="multinomial", max_depth=min(6, p["max_depth"] or 6))
        if isinstance(p["max_features"], int):
            p["max_features"] = min(len(case["cols"]), p["max_features"])
    elif what == "nodes":
        case["n"] = 80000 + case["seed"] % 2000
        case["cols"] = [{"t": "normal", "info": False, "miss": 0.0} for _ in range(4)]
        case["y"].update({"noise": 1.0, "k": 2} if case["kind"] == "clf" else {"t": "gauss"})
        p.update(n_estimators=1, max_depth=None, max_bins=64, min_samples_split=2, min_samples_leaf=1, max_features=None)
        if "class_weight" in p:
            p["class_weight"] = None
        if case["w"] != "ones":
            case["w"] = "none"
    elif what == "trees":
        case["n"] = min(case["n"], 40)
        case["y"]["k"] = min(3, case["y"].get("k", 3))
        if case["n"] < 12 and "zero" in case["w"]:
            case["w"] = "none"
        p.update(n_estimators=260 + case["seed"] % 40)
    else:
        raise ValueError(what)


# ------------------------------------------------------------------ materialisation


class Data:
    pass


def make_columns(cols, n, rng, test=False):
    """Returns the columns (float64, NaN for missing) and the latent score."""
    out, score = [], np.zeros(n)
    for c in cols:
        t = c["t"]
        if t == "normal":
            x = rng.normal(size=n)
            x = np.round(x, 3)
            z = x
        elif t == "grid":
            x = rng.randint(0, c["m"], size=n).astype(np.float64)
            z = (x - c["m"] / 2) / c["m"] * 3
            x = x + c.get("off", 0)
        elif t == "heavy":
            z = rng.normal(size=n)
            x = np.sign(z) * np.exp(np.abs(np.round(z, 3)) * 2) * 10.0 ** c["e"]
        elif t == "const":
            x = np.full(n, 3.0)
            z = np.zeros(n)
        elif t == "cat":
            m = c["m"]
            if c.get("zipf"):
                prob = 1.0 / np.arange(1, m + 1)
                x = rng.choice(m, size=n, p=prob / prob.sum()).astype(np.float64)
            else:
                x = rng.randint(0, m, size=n).astype(np.float64)
            effects = np.random.RandomState(m * 7 + 1).normal(size=m)
            z = effects[x.astype(int)]
        else:
            raise ValueError(t)
        if c["info"]:
            score = score + np.where(np.isfinite(z), z, 0.0)
        if c["miss"] > 0:
            mask = rng.uniform(size=n) < c["miss"]
            x = np.where(mask, np.nan, x)
            if c["info"]:
                score = score + 0.5 * mask
        out.append(x)
    return out, score


def is_chain(case):
    return bool(case["y"].get("chain")) and case["cols"][-1]["t"] == "grid"


def materialise(case):
    d = Data()
    n, cols = case["n"], case["cols"]
    rng = np.random.RandomState(case["seed"])
    xs, score = make_columns(cols, n, rng)
    d.X = np.column_stack(xs)
    d.is_cat = np.array([c["t"] == "cat" for c in cols], dtype=bool)
    d.n = n
    score = score + case["y"]["noise"] * rng.normal(size=n)
    if case["kind"] == "clf":
        k = case["y"]["k"]
        ranks = np.argsort(np.argsort(score, kind="stable"), kind="stable") / n
        if case["y"]["skew"]:
            ranks = ranks ** 3
        y = np.minimum((ranks * k).astype(int), k - 1)
        if case["y"]["noise"] >= 1.0:
            flip = rng.uniform(size=n) < 0.3
            y = np.where(flip, rng.randint(0, k, size=n), y)
        if is_chain(case):
            y = xs[-1].astype(int) % 2
            if k > 2:
                y = y * np.where(xs[-1] > cols[-1]["m"] / 2, 2, 1)
        # every class is there
        pos = rng.permutation(n)[:k]
        y[pos] = np.arange(k)[: len(pos)]
        d.y = y.astype(np.int64)
        d.k = k
    else:
        t = case["y"]["t"]
        if is_chain(case):
            y = 10.0 * 1.5 ** (xs[-1] - cols[-1]["m"]) + 1e-3 * score * 1.5 ** (xs[-1] - cols[-1]["m"])
        elif t == "int":
            y = np.round(score * 2).clip(-30, 30)
        elif t == "gauss":
            y = score
        elif t == "offset":
            y = score + 100.0
        elif t == "scaled":
            y = score * 1000.0
        elif t == "binary":
            y = (score > np.median(score)).astype(np.float64)
        elif t == "tiny":
            y = score * 1e-4
        elif t == "const":
            y = np.full(n, 2.5)
        else:
            raise ValueError(t)
        d.y = y.astype(np.float32).astype(np.float64)
    d.w = make_weights(case["w"], n, rng)
    d.weff = np.ones(n) if d.w is None else d.w.astype(np.float32).astype(np.float64)
    nt = case.get("nt", 0)
    trng = np.random.RandomState((case["seed"] + 1) % 2 ** 32)
    txs, _ = make_columns(
        [dict(c, m=c["m"] + 3) if c["t"] == "cat" else c for c in cols], nt, trng
    )
    d.Xt = np.column_stack(txs).reshape(nt, len(cols))
    # extreme values, and missing values where there were none
    for i in range(nt):
        u = trng.uniform()
        j = trng.randint(len(cols))
        if u < 0.1:
            d.Xt[i, j] = np.nan
        elif u < 0.2 and not d.is_cat[j]:
            d.Xt[i, j] = trng.choice([-1e30, 1e30, 0.0, -np.inf, np.inf])
    if nt > 4:  # some training rows
        idx = trng.randint(0, n, size=nt // 3)
        d.Xt[: nt // 3] = d.X[idx]
    if nt > 6:  # a training row in which one column goes through its values
        m = nt // 3
        j = trng.randint(len(cols))
        vals = np.unique(d.X[:, j][~np.isnan(d.X[:, j])])
        if len(vals):
            start = trng.randint(len(vals), size=m // 3 + 1)
            walk = np.concatenate([[s, s + 1, s + 256] for s in start])[:m] % len(vals)
            d.Xt[nt - m :] = d.X[trng.randint(n)]
            d.Xt[nt - m :, j] = vals[walk]
    return d


def make_weights(kind, n, rng):
    if kind == "none":
        return None
    if kind == "ones":
        return np.ones(n)
    if kind == "int":
        return rng.randint(1, 5, size=n).astype(np.float64)
    if kind == "float":
        return rng.uniform(0.1, 3.0, size=n)
    if kind == "small":
        return rng.uniform(0.5, 2.0, size=n) * 1e-3
    if kind == "big":
        return rng.uniform(0.5, 2.0, size=n) * 1e3
    if kind in ("intzero", "floatzero"):
        w = rng.randint(1, 5, size=n).astype(np.float64)
        if kind == "floatzero":
            w = rng.uniform(0.1, 3.0, size=n)
        w[rng.permutation(n)[: int(0.2 * n)]] = 0.0
        return w
    raise ValueError(kind)


def case_classes(case):
    out = [case["kind"]]
    n = case["n"]
    out.append("n<15" if n < 15 else "n<=80" if n <= 80 else "n<=400" if n <= 400 else "n>1000" if n < 5000 else "n>=5000")
    if any(c["t"] == "cat" for c in case["cols"]):
        out.append("categorical")
    if any(c["miss"] > 0 for c in case["cols"]):
        out.append("missing")
    if is_chain(case):
        out.append("chain")
    if case.get("extreme"):
        out.append("extreme:" + case["extreme"])
    out.append("w:" + case["w"])
    p = case["p"]
    out.append("aggregation" if p["aggregation"] else "no-aggregation")
    if p.get("multiclass") == "ovr":
        out.append("ovr")
    return out
