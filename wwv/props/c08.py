"""C08: reproducibility."""

import random

import numpy as np

from .. import gen, ref
from ..core import call, require
from . import _base

ROLES = ["clf", "reg"]
BUDGET = {"quick": {"examples": 1800, "cap": 60}, "thorough": {"examples": 40000, "cap": 600}}
RULE = (
    "A forest is fitted, then a generated history runs (reseeding and drawing from the global generators, "
    "fitting other forests, predicting, refitting, other n_jobs) and forests are fitted again with the same "
    "parameters and data; trees and predictions must be identical. A share of the cases has more rows than "
    "`subsample`, so that thresholds come from a random subsample. Non-trivial: at least one split and "
    "a history of at least one event."
)
ASSUMPTIONS = ["predictions with several threads may differ by the order of a floating point sum (1e-12)"]
warmup = _base.warm_forest

EVENTS = ["npseed", "npdraw", "pydraw", "otherfit", "predict", "refit", "fresh", "jitdraw"]


def strategy(role, tier):
    from hypothesis import strategies as st

    @st.composite
    def s(draw):
        c = draw(gen.forest_case(role, n_estimators=5, cap=200, large=False))
        if draw(st.integers(0, 59)) == 37:
            c["sub"] = True
            c["n"] = draw(st.integers(50001, 56000))
            c["cols"] = [{"t": "normal", "info": True, "miss": 0.0}, {"t": "heavy", "e": 0, "info": True, "miss": 0.0}]
            c["p"].update(n_estimators=1, max_depth=4, max_bins=64, max_features=None)
            c["y"]["noise"] = 1.0
        elif draw(st.integers(0, 9)) == 7:
            c["rd"] = True
            c["p"].update(min_samples_split=2, min_samples_leaf=1, aggregation=False)
        c["events"] = draw(st.lists(st.sampled_from(EVENTS), min_size=1, max_size=5))
        c["verbose"] = draw(st.integers(0, 3)) == 0
        c["jobs"] = draw(st.sampled_from([1, 2, 3, 8, -1]))
        return c

    return s()


_jit_draw = None


def jit_draw():
    """Draws from the generator that compiled code uses."""
    global _jit_draw
    if _jit_draw is None:
        from numba import njit

        @njit
        def g(n):
            s = 0.0
            for _ in range(n):
                s += np.random.uniform(0.0, 1.0)
            return s

        _jit_draw = g
    return _jit_draw(3)


def check(case):
    d = gen.materialise(case)
    over = {"subsample": 50000} if case.get("sub") else {}
    f = ref.fit_forest(case, d, **over)
    Xq = np.vstack([d.X[:60], d.Xt])
    p1 = ref.raw_predict(f, Xq)
    d1 = _base.dump(f)
    agg = case["p"]["aggregation"]

    def compare(g, what):
        diff = _base.same_dump(d1, _base.dump(g), agg)
        require(diff is None, "%s: the trees differ (%s)" % (what, diff))
        p2 = ref.raw_predict(g, Xq)
        require(_base.close(p1, p2), "%s: the predictions differ" % what, error=np.abs(p1 - p2).max(initial=0.0))

    for i, e in enumerate(case["events"]):
        if e == "npseed":
            np.random.seed((case["seed"] + i) % 2 ** 32)
        elif e == "npdraw":
            np.random.uniform(size=3)
        elif e == "pydraw":
            random.seed(i)
            random.random()
        elif e == "jitdraw":
            jit_draw()
        elif e == "otherfit":
            rng = np.random.RandomState(i)
            Xo = rng.normal(size=(20, 2))
            yo = rng.randint(0, 2, size=20)
            ref.new_forest(case, max_features=None, random_state=5).fit(Xo, yo)
        elif e == "predict":
            ref.raw_predict(f, Xq)
            ref.tree_predict(f, d.X[:3])
            call("apply", f.apply, Xq)
            compare(f, "after predicting")
        elif e == "refit":
            kw = {"randomized_depth": True} if case.get("rd") else {}
            call("fit again", f.fit, d.X, d.y, sample_weight=d.w, categorical_features=d.is_cat, **kw)
            compare(f, "fitting the same forest again")
        elif e == "fresh":
            compare(ref.fit_forest(case, d, **over), "fitting the same parameters again")
    g = ref.fit_forest(case, d, n_jobs=case["jobs"], verbose=not case["p"].get("verbose", False) if case["verbose"] else False, **over)
    compare(g, "fitting again with n_jobs=%d" % case["jobs"])
    if not case.get("sub"):
        compare(ref.fit_forest(case, d, **over), "fitting again")
    split = bool((np.asarray(f.apply(d.X[:200])) != 0).any())
    return {
        "nontrivial": split and len(case["events"]) > 0,
        "classes": gen.case_classes(case) + ["jobs=%d" % case["jobs"]] + (["subsampled"] if case.get("sub") else []) + (["randomized_depth"] if case.get("rd") else []),
        "observed": {"events": case["events"]},
    }
