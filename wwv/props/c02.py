"""C02: the forest is the average of its trees."""

import numpy as np

from .. import gen, ref
from ..core import call, require
from . import _base

ROLES = ["clf", "reg", "threads"]
BUDGET = {"quick": {"examples": 3000, "cap": 60, "role_examples": {"threads": 30}}, "thorough": {"examples": 60000, "cap": 600, "role_examples": {"threads": 1000}}}
RULE = (
    "Forests of 1 to 12 trees with n_jobs 1, 2, 4 or -1; the forest output is compared with the average "
    "of the per tree outputs (one-versus-rest: normalised sums of the positive class), the per tree "
    "outputs with one-row calls and with the leaves given by apply. A share of the workers queries 50000 to 400000 rows with "
    "8 threads several times and compares with one thread (an update lost between threads shows). Non-trivial: at least two trees "
    "whose predictions differ."
)


def warmup(role):
    if role == "threads":
        _base.warm_forest("reg")
    _base.warm_forest("clf" if role == "threads" else role)



def strategy(role, tier):
    from hypothesis import strategies as st

    if role == "threads":
        return st.fixed_dictionaries({
            "threads": st.just(True), "kind": st.sampled_from(["ovr", "ovr", "clf", "reg"]), "nq": st.sampled_from([50000, 200000, 200000, 400000]),
            "m": st.integers(4, 10), "k": st.integers(3, 4), "depth": st.sampled_from([2, 2, 5, None]), "agg": st.booleans(),
            "seed": st.integers(0, 2 ** 31 - 1), "calls": st.integers(2, 4),
        })
    base = gen.forest_case(role, n_estimators=12, large=False, cap=150, max_cols=4, extremes=("trees",))
    return st.tuples(base, st.sampled_from([1, 1, 2, 4, -1])).map(
        lambda t: dict(t[0], p=dict(t[0]["p"], n_jobs=t[1]))
    )


def check_threads(case):
    import os

    import wildwood

    rng = np.random.RandomState(case["seed"])
    X = rng.normal(size=(200, 1))
    y = rng.randint(0, case["k"], size=200)
    kw = dict(n_estimators=case["m"], random_state=1, max_depth=case["depth"], aggregation=case["agg"])
    if case["kind"] == "reg":
        f = call("the constructor", wildwood.ForestRegressor, **kw)
        y = y + rng.normal(size=200)
    else:
        f = call("the constructor", wildwood.ForestClassifier, multiclass="ovr" if case["kind"] == "ovr" else "multinomial", **kw)
    call("fit", f.fit, X, y)
    Xq = rng.normal(size=(case["nq"], 1)).astype(np.float32)

    def outputs():
        out = {"the prediction": ref.raw_predict(f, Xq)}
        out["apply"] = np.asarray(call("apply", f.apply, Xq[:50000]))
        out["the prediction of a tree"] = np.asarray(ref.tree_predict(f, Xq[:50000]))
        return out

    f.n_jobs = 1
    a = outputs()
    f.n_jobs = 8
    # a schedule does not come back at will
    for _ in range(case["calls"] * (10 if os.environ.get("WWV_REPLAY") else 1)):
        b = outputs()
        for k in a:
            require(a[k].shape == b[k].shape, "%s has another shape with 8 threads" % k)
            err = np.abs(np.asarray(a[k], dtype=float) - b[k])
            scale = max(1.0, np.abs(a[k]).max())
            require(err.max() <= 1e-9 * scale, "%s differs between 1 and 8 threads" % k, error=err.max(), values=int((err > 1e-9 * scale).sum()))
    return {"nontrivial": True, "classes": ["threads:" + case["kind"], "rows=%d" % case["nq"]], "observed": {"rows": case["nq"], "calls": case["calls"]}}


def check(case):
    if case.get("threads"):
        return check_threads(case)
    d = gen.materialise(case)
    f = ref.fit_forest(case, d)
    Xq = np.vstack([d.X[:40], d.Xt])
    trees = np.asarray(ref.tree_predict(f, Xq))
    out = np.asarray(ref.raw_predict(f, Xq))
    m = case["p"]["n_estimators"]
    nq = len(Xq)
    if case["kind"] == "clf":
        k = d.k
        ovr = case["p"]["multiclass"] == "ovr" and k > 2
        require(
            trees.shape == ((m * k, nq, 2) if ovr else (m, nq, k)),
            "predict_proba_trees has a wrong shape", got=trees.shape,
        )
        if ovr:
            pos = np.stack([trees[c * m : (c + 1) * m, :, 1].sum(axis=0) for c in range(k)], axis=1)
            s = pos.sum(axis=1, keepdims=True)
            safe = s > 1e-6
            exp = np.where(safe, pos / np.where(safe, s, 1.0), out if not safe.all() else 1.0 / k)
            zero = (s == 0.0)[:, 0]
            exp[zero] = 1.0 / k
        else:
            exp = trees.mean(axis=0)
        scale = 1.0
    else:
        require(trees.shape == (m, nq), "predict_trees has a wrong shape", got=trees.shape)
        exp = trees.mean(axis=0)
        scale = max(1e-30, np.abs(trees).max(initial=0.0))
    require(out.shape == exp.shape, "the forest output has a wrong shape", got=out.shape)
    require(
        np.all(np.abs(out - exp) <= 1e-9 * scale),
        "the forest prediction is not the average of the predictions of the trees",
        error=np.abs(out - exp).max(initial=0.0),
    )
    # the rows of a leaf share the prediction of the tree
    leaf = np.asarray(call("apply", f.apply, Xq))
    if leaf.shape == (len(trees), nq):
        for t in range(len(trees)):
            first = {}
            for i, l in enumerate(leaf[t].tolist()):
                j = first.setdefault(l, i)
                require(
                    np.array_equal(trees[t, i], trees[t, j]),
                    "tree %d: rows %d and %d are in the same leaf but have different predictions" % (t, i, j),
                )
    # again, tree by tree, on one row
    if nq:
        i = case["seed"] % nq
        one = np.asarray(ref.tree_predict(f, Xq[i : i + 1]))[:, 0]
        require(np.array_equal(one, trees[:, i]), "a tree predicts a row alone differently", row=i)
    differ = len(trees) > 1 and nq > 0 and bool((np.abs(trees - trees[:1]) > 0).any())
    return {
        "nontrivial": differ,
        "classes": gen.case_classes(case) + ["n_jobs=%d" % case["p"]["n_jobs"]],
        "observed": {"trees": len(trees), "rows": nq},
    }
