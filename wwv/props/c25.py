"""C25: concurrent use."""

import pickle
import threading

import numpy as np

from .. import gen, ref
from ..core import Violation, call, require
from . import _base

ROLES = ["clf", "reg"]
BUDGET = {"quick": {"examples": 520, "cap": 55}, "thorough": {"examples": 15000, "cap": 600}}
RULE = (
    "A fitted forest is shared by 2 to 6 threads which start together and run generated lists of operations: predictions "
    "(of the forest, of the trees, leaves, nodes) on their own batches, pickling and copying the shared forest, and fitting their own forests on "
    "their own data. Every result must be the one obtained beforehand in one thread, and the shared forest unchanged. Non-trivial: at "
    "least two threads with operations and a forest with a split."
)
ASSUMPTIONS = [
    "schedules are those the machine produces",
    "predictions with several threads may differ by the order of a floating point sum (1e-12)",
]
warmup = _base.warm_forest

OPS = ["predict", "trees", "apply", "nodes", "pickle", "fit", "fit", "fit"]


def strategy(role, tier):
    from hypothesis import strategies as st

    @st.composite
    def s(draw):
        c = draw(gen.forest_case(role, n_estimators=6, cap=300, large=False))
        if draw(st.booleans()):
            c["n"] = draw(st.integers(300, 3000))
            c["cols"] = c["cols"][:-1] + [{"t": "normal", "info": True, "miss": 0.0}]
            c["p"]["max_depth"] = None
            c["y"]["noise"] = 1.0
        c["threads"] = draw(
            st.lists(
                st.lists(st.tuples(st.sampled_from(OPS), st.integers(0, 2 ** 31 - 1)).map(list), min_size=1, max_size=3),
                min_size=2, max_size=6,
            )
        )
        c["nt"] = draw(st.integers(1, 60))
        return c

    return s()


def summary(f, X):
    """What a forest gives and stores."""
    return {
        "prediction": np.asarray(ref.raw_predict(f, X)), "trees": np.asarray(ref.tree_predict(f, X)),
        "leaves": np.asarray(call("apply", f.apply, X)), "dump": _base.dump(f),
    }


def run(case, d, f, op, a):
    """One operation; everything it uses is its own but the forest."""
    Xq = d.Xt if a % 3 else np.vstack([d.X, d.X])[a % d.n :]
    if op == "predict":
        return {"prediction": np.asarray(ref.raw_predict(f, Xq))}
    if op == "trees":
        return {"trees": np.asarray(ref.tree_predict(f, Xq))}
    if op == "apply":
        return {"leaves": np.asarray(call("apply", f.apply, Xq))}
    if op == "nodes":
        return {"leaves": call("get_nodes", f.get_nodes, a % len(f.trees))["depth"].to_numpy()}
    if op == "pickle":
        return summary(call("pickle", lambda: pickle.loads(pickle.dumps(f))), Xq)
    # a forest of its own, on permuted data
    rng = np.random.RandomState(a)
    r = rng.permutation(d.n)
    g = ref.new_forest(case, random_state=int(a), n_jobs=int(rng.choice([1, 1, 2])))
    kw = {"categorical_features": d.is_cat}
    if d.w is not None:
        kw["sample_weight"] = d.w[r]
    call("fit", g.fit, d.X[r], d.y[r], **kw)
    return summary(g, Xq)


def compare(got, want, what, agg):
    for k in want:
        if k == "dump":
            diff = _base.same_dump(want[k], got[k], agg)
            require(diff is None, "%s: the trees differ (%s)" % (what, diff))
        elif k == "leaves":
            require(np.array_equal(got[k], want[k]), "%s: %s differ" % (what, k))
        else:
            require(_base.close(got[k], want[k]), "%s: %s differ" % (what, k))


def check(case):
    d = gen.materialise(case)
    agg = case["p"]["aggregation"]
    f = ref.fit_forest(case, d)
    before = summary(f, d.Xt)
    want = [[run(case, d, f, op, a) for op, a in ops] for ops in case["threads"]]
    got = [[] for _ in case["threads"]]
    errors = []
    barrier = threading.Barrier(len(case["threads"]))

    def work(i):
        try:
            barrier.wait(60)
            for op, a in case["threads"][i]:
                got[i].append(run(case, d, f, op, a))
        except BaseException as e:  # noqa
            errors.append(e)

    ts = [threading.Thread(target=work, args=(i,)) for i in range(len(case["threads"]))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    for e in errors:
        if isinstance(e, Violation):
            raise Violation("in concurrent threads: " + e.message, **e.details)
    if errors:
        raise errors[0]
    for i, ops in enumerate(case["threads"]):
        for j, (op, _) in enumerate(ops):
            compare(got[i][j], want[i][j], "%s run by %d concurrent threads" % (op, len(ts)), agg)
    compare(summary(f, d.Xt), before, "the shared forest after concurrent use", agg)
    return {
        "nontrivial": bool((before["leaves"] != 0).any()),
        "classes": gen.case_classes(case) + sorted({"op:" + o for ops in case["threads"] for o, _ in ops}) + ["threads=%d" % len(ts)],
        "observed": {"threads": [[o for o, _ in ops] for ops in case["threads"]]},
    }
