"""C09: changing step and dirichlet after fit."""

import numpy as np

from .. import gen, ref
from ..core import call, must_raise, require
from . import _base

ROLES = ["clf", "reg"]
BUDGET = {"quick": {"examples": 2400, "cap": 60}, "thorough": {"examples": 50000, "cap": 600}}
RULE = (
    "A fitted forest goes through a generated sequence of assignments of step and dirichlet (by attribute or "
    "set_params), refused values and predictions; after each change its trees must hold the node values of a "
    "fresh fit with the current values, and its predictions must be those of that fresh forest. Non-trivial: at "
    "least one accepted change of a value that matters, on a forest with a split."
)
warmup = _base.warm_forest

BAD_STEP = [0.0, -1.0, 1, "1", None]
BAD_DIR = [-0.5, 1, "x", None]


def strategy(role, tier):
    from hypothesis import strategies as st

    @st.composite
    def s(draw):
        c = draw(gen.forest_case(role, n_estimators=3, cap=150, large=False, max_cols=4))
        if draw(st.integers(0, 3)) != 0:
            c["p"]["aggregation"] = True
            if c["p"].get("dirichlet") == 0.0:
                c["p"]["dirichlet"] = 0.5
        ops = []
        for _ in range(draw(st.integers(1, 7))):
            k = draw(st.sampled_from(["step", "step", "dirichlet", "dirichlet", "predict", "bad_step", "bad_dirichlet", "same"]))
            if role == "reg" and "dirichlet" in k:
                k = k.replace("dirichlet", "step")
            op = {"op": k, "how": draw(st.sampled_from(["attr", "set_params"]))}
            if k == "step":
                op["v"] = draw(st.sampled_from([1.0, 0.1, 0.5, 2.0, 1e-3, 13.0, 100.0]))
            elif k == "dirichlet":
                vals = [0.5, 0.1, 1e-3, 1.0, 3.0, 20.0]
                op["v"] = draw(st.sampled_from(vals if c["p"]["aggregation"] else vals + [0.0]))
            elif k == "bad_step":
                op["v"] = draw(st.sampled_from(BAD_STEP))
            elif k == "bad_dirichlet":
                op["v"] = draw(st.sampled_from(BAD_DIR + ([0.0] if c["p"]["aggregation"] else [])))
            if k in ("step", "dirichlet") and draw(st.integers(0, 3)) == 2:
                # a value very near the current one
                op["near"] = draw(st.sampled_from([2 ** -4, -(2 ** -5), 2 ** -7, 2 ** -9, -(2 ** -11)]))
            ops.append(op)
        c["ops"] = ops
        return c

    return s()


def assign(f, op, name, value):
    if op["how"] == "attr":
        setattr(f, name, value)
    else:
        f.set_params(**{name: value})


def compare(case, d, f, cur, Xq, exact):
    fresh = ref.fit_forest(case, d, **cur)
    agg = case["p"]["aggregation"]
    a, b = _base.dump(f), _base.dump(fresh)
    got, exp = ref.tree_predict(f, Xq), ref.tree_predict(fresh, Xq)
    rts, _, _ = ref.ref_trees(case, d, fresh)
    tols = []
    for t, rt in enumerate(rts):
        if agg:
            dl = 0.0
            dp = 0.0
            for i in range(rt.v.node_count):
                pi = rt.pred(i, float(np.float32(cur.get("dirichlet", 0.0))))
                pt = _base.pred_tol(rt, i, exact)
                dl += 2 * _base.loss_tol(rt, i, pi, rt.loss(i, pi), pt)
                dp = max(dp, 2 * pt)
            delta = cur["step"] * dl
            spread = rt.v.y_pred.max() - rt.v.y_pred.min()
            tols.append(dp + spread * min(1.0, 2 * delta) + 1e-6 * max(1e-30, np.abs(rt.v.y_pred).max()))
        else:
            tols.append(2 * max(_base.pred_tol(rt, i, exact) for i in range(rt.v.node_count)))
    if a is not None:
        s = _base.same_dump(a, b, agg, values=False)
        require(s is None, "the trees changed (%s)" % s)
        for t, rt in enumerate(rts):
            for i in range(rt.v.node_count):
                pt = 2 * _base.pred_tol(rt, i, exact)
                require(
                    np.all(np.abs(a[t]["y_pred"][i] - b[t]["y_pred"][i]) <= pt),
                    "tree %d node %d: the prediction is not that of a forest fitted with the current values" % (t, i),
                    got=a[t]["y_pred"][i], expected=b[t]["y_pred"][i], current=cur,
                )
                if agg:
                    pi = rt.pred(i, float(np.float32(cur.get("dirichlet", 0.0))))
                    lt = 2 * _base.loss_tol(rt, i, pi, rt.loss(i, pi), pt)
                    require(
                        abs(a[t]["loss"][i] - b[t]["loss"][i]) <= lt + 1e-12,
                        "tree %d node %d: the loss is not that of a forest fitted with the current values" % (t, i),
                        got=a[t]["loss"][i], expected=b[t]["loss"][i], current=cur,
                    )
            if agg:
                # what is predicted must follow from the stored values and the current step
                v = ref.view(f.trees[t])
                step = float(np.float32(cur["step"]))
                dexp = step * np.abs(v.loss).sum() * 2.3e-16 * 8 * (2 + v.depth.max())
                if dexp < 1e-2:
                    _, ag = ref.aggregate(v, v.y_pred, v.loss, step)
                    leaf = ref.leaves(v, ref.bins_of(f, Xq)[0])
                    e = np.array([ag[l] for l in leaf]).reshape(np.shape(got[t]))
                    scale = max(1e-30, np.abs(v.y_pred).max())
                    require(
                        np.all(np.abs(np.asarray(got[t], dtype=float) - e) <= scale * (2e-5 + 1e-6 * v.depth.max() + 4 * dexp)),
                        "tree %d: the prediction does not use the current step" % t, current=cur,
                    )
    for t in range(len(rts)):
        err = np.abs(np.asarray(got[t], dtype=float) - np.asarray(exp[t], dtype=float)).max(initial=0.0)
        require(
            err <= tols[t],
            "tree %d: the prediction is not that of a forest fitted with the current values" % t,
            error=err, tol=tols[t], current=cur,
        )
    pf, pe = ref.raw_predict(f, Xq), ref.raw_predict(fresh, Xq)
    if case["kind"] == "reg" or not (case["p"]["multiclass"] == "ovr" and d.k > 2):
        require(
            np.abs(pf - pe).max(initial=0.0) <= max(tols) + 1e-12,
            "the prediction is not that of a forest fitted with the current values", current=cur,
        )


def check(case):
    d = gen.materialise(case)
    f = ref.fit_forest(case, d)
    Xq = np.vstack([d.X[:30], d.Xt])
    exact = _base.is_exact(case)
    cur = {"step": case["p"]["step"]}
    if case["kind"] == "clf":
        cur["dirichlet"] = case["p"]["dirichlet"]
    changed = 0
    for n_op, op in enumerate(case["ops"]):
        k = op["op"]
        if k in ("step", "dirichlet"):
            if "near" in op and cur[k] > 0:
                op = dict(op, v=cur[k] * (1 + op["near"]))
            call("setting %s=%r" % (k, op["v"]), assign, f, op, k, op["v"])
            if cur[k] != op["v"] and (k == "dirichlet" or case["p"]["aggregation"]):
                changed += 1
            cur[k] = op["v"]
        elif k == "same":
            for name in cur:
                call("setting %s to its current value" % name, assign, f, op, name, cur[name])
        elif k.startswith("bad_"):
            name = k[4:]
            must_raise("setting %s=%r" % (name, op["v"]), ValueError, assign, f, op, name, op["v"])
        else:
            ref.raw_predict(f, Xq)
        for name in cur:
            require(getattr(f, name) == cur[name], "%s is not what was set" % name, got=getattr(f, name), expected=cur[name])
        if n_op % 2 == 1 and n_op != len(case["ops"]) - 1:
            compare(case, d, f, cur, Xq, exact)
    compare(case, d, f, cur, Xq, exact)
    split = bool((np.asarray(f.apply(d.X)) != 0).any())
    return {
        "nontrivial": split and changed > 0,
        "classes": gen.case_classes(case) + ["ops:%d" % len(case["ops"])],
        "observed": {"final": cur, "changes": changed},
    }
