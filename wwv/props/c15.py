"""C15: sample weights and class weights."""

import numpy as np

from .. import gen, ref
from ..core import require
from . import _base

ROLES = ["clf", "reg"]
BUDGET = {"quick": {"examples": 2400, "cap": 55}, "thorough": {"examples": 50000, "cap": 600}}
RULE = (
    "On generated data, forests fitted under two weightings that must be equivalent are compared (trees, node values, "
    "predictions): no weights / all ones; class_weight='balanced' / the same weights given explicitly; new labels on "
    "samples of weight zero; all weights (with dirichlet) multiplied by a power of two and step divided by it. "
    "Non-trivial: at least one split and a relation that applies."
)
ASSUMPTIONS = [
    "multiplications by powers of two are exact, so the fits must be identical",
    "predictions with several threads may differ by the order of a floating point sum (1e-12)",
]
warmup = _base.warm_forest


def strategy(role, tier):
    from hypothesis import strategies as st

    @st.composite
    def s(draw):
        rel = draw(st.sampled_from(["ones", "balanced", "zero", "zero", "scale", "scale"] if role == "clf" else ["ones", "zero", "zero", "scale", "scale"]))
        lo = 12 if rel == "zero" else 2
        c = draw(gen.forest_case(role, n_estimators=3, cap=250, large=False, lo=lo))
        c["rel"] = rel
        if rel == "zero":
            c["w"] = draw(st.sampled_from(["intzero", "floatzero"]))
            if role == "clf":
                c["p"]["class_weight"] = None
        if rel == "balanced" and draw(st.booleans()):
            c["y"]["skew"] = True
        if rel == "scale":
            c["e"] = draw(st.sampled_from([-24, -14, -6, -3, -1, 1, 2, 5, 9, 16]))
        return c

    return s()


def compare(f, g, agg, X, what, values=True):
    diff = _base.same_dump(_base.dump(f), _base.dump(g), agg, values)
    require(diff is None, "%s: the trees differ (%s)" % (what, diff))
    p, q = ref.raw_predict(f, X), ref.raw_predict(g, X)
    require(_base.close(q, p), "%s: the predictions differ" % what, error=np.abs(p - q).max(initial=0.0))


def check(case):
    d = gen.materialise(case)
    agg = case["p"]["aggregation"]
    Xq = np.vstack([d.X[:60], d.Xt])
    rel = case["rel"]
    n = d.n
    applies = True
    if rel == "ones":
        f = ref.fit_forest(case, d, w=None)
        g = ref.fit_forest(case, d, w=np.ones(n))
        compare(f, g, agg, Xq, "no weights and weights equal to one")
    elif rel == "balanced":
        over = dict(multiclass="multinomial")
        f = ref.fit_forest(case, d, class_weight="balanced", **over)
        counts = np.bincount(d.y, minlength=d.k)
        cw = (n / (d.k * counts))[d.y]
        w32 = d.weff.astype(np.float32)
        err = None
        # the two orders of rounding to single precision
        for w in ((w32 * cw).astype(np.float32), w32 * cw.astype(np.float32)):
            try:
                g = ref.fit_forest(case, d, w=w, class_weight=None, **over)
                compare(f, g, agg, Xq, "class_weight='balanced' and explicit weights")
                err = None
                break
            except Exception as e:
                err = err or e
        if err is not None:
            raise err
        applies = len(set(counts.tolist())) > 1
    elif rel == "zero":
        rng = np.random.RandomState((case["seed"] + 3) % 2 ** 32)
        z = d.w == 0
        f = ref.fit_forest(case, d)
        y2 = d.y.copy()
        if case["kind"] == "clf":
            y2[z] = rng.randint(0, d.k, size=z.sum())
            # all the classes stay there
            missing = [k for k in range(d.k) if not (y2 == k).any()]
            applies = not missing
        else:
            y2[z] = np.float32(1.0) * rng.choice([-1000.0, 0.0, 77.0, 1e6], size=z.sum())
        if applies:
            g = ref.fit_forest(case, d, y=y2)
            compare(f, g, agg, Xq, "other labels for samples of weight zero")
            applies = bool((y2 != d.y).any())
    else:
        c = 2.0 ** case["e"]
        w = np.ones(n, dtype=np.float32) if d.w is None else d.w.astype(np.float32)
        over = {"step": case["p"]["step"] / c}
        if case["kind"] == "clf":
            over["dirichlet"] = case["p"]["dirichlet"] * c
        f = ref.fit_forest(case, d, w=w)
        g = ref.fit_forest(case, d, w=w * np.float32(c), **over)
        a, b = _base.dump(f), _base.dump(g)
        if a is not None and b is not None:
            for t in b:
                t["loss"] = t["loss"] / c
        diff = _base.same_dump(a, b, agg)
        require(diff is None, "weights times %g: the trees differ (%s)" % (c, diff))
        p, q = ref.raw_predict(f, Xq), ref.raw_predict(g, Xq)
        require(_base.close(q, p), "weights times %g: the predictions differ" % c, error=np.abs(p - q).max(initial=0.0))
    split = bool((np.asarray(f.apply(d.X)) != 0).any())
    return {
        "nontrivial": split and applies,
        "classes": gen.case_classes(case) + ["relation:" + rel],
        "observed": {"relation": rel},
    }
