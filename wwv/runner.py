"""Runs one property: generates cases with Hypothesis in several processes, judges each
with the property's oracle, shrinks failures, writes the replay and the evidence file.

Exit status: 0 the property held on everything explored, 1 it is broken (with a VIOLATION
line), 2 the harness could not do its job.
"""

import argparse
import hashlib
import importlib
import json
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("WWV_REPO", "/repo")
VT_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
HANG_S = 240  # a case takes milliseconds: this long means it does not end
CRASH_SIGNALS = {signal.SIGSEGV, signal.SIGBUS, signal.SIGABRT, signal.SIGFPE, signal.SIGILL}


def case_key(case):
    return hashlib.sha1(json.dumps(case, sort_keys=True).encode()).hexdigest()


def case_size(case):
    return len(json.dumps(case, sort_keys=True)), json.dumps(case, sort_keys=True)


def write_json(path, obj):
    tmp = path + ".tmp%d" % os.getpid()
    with open(tmp, "w") as f:
        json.dump(obj, f)
    os.replace(tmp, path)


def read_json(path):
    try:
        with open(path) as f:
            return json.load(f)
    except (OSError, ValueError):
        return None


def setup_imports(scratch):
    shim = os.path.join(scratch, "site")
    os.makedirs(shim)
    for name in (
        "hypothesis",
        "sortedcontainers",
        "_hypothesis_globals.py",
        "_hypothesis_ftz_detector.py",
        "_hypothesis_pytestplugin.py",
        "attr",
        "attrs",
    ):
        src = os.path.join(VT_SITE, name)
        if os.path.exists(src):
            os.symlink(src, os.path.join(shim, name))
    os.environ["NUMBA_CACHE_DIR"] = os.path.join(scratch, "numba")
    os.environ["HYPOTHESIS_STORAGE_DIRECTORY"] = os.path.join(scratch, "hypothesis")
    sys.path.append(shim)
    sys.path.insert(0, REPO)
    os.chdir(scratch)


# --------------------------------------------------------------------------- workers


class Worker:
    def __init__(self, prop, role, wid, cfg):
        self.prop, self.role, self.wid, self.cfg = prop, role, wid, cfg
        self.dir = cfg["dir"]
        self.journal = os.path.join(self.dir, "journal-%s" % wid)
        self.out = os.path.join(self.dir, "out-%s" % wid)
        self.stop = os.path.join(self.dir, "stop")
        self.evaluations = 0
        self.seen = set()
        self.nontrivial = set()
        self.skips = 0
        self.classes = {}
        self.samples = []
        self.best = None  # smallest failing case
        self.fail_time = None
        self.known_keys = cfg["known_keys"]

    def judge(self, case):
        """Returns (info, violation)."""
        from .core import Skip, Violation, guarded

        write_json(self.journal, {"case": case, "t": time.time(), "role": self.role})
        try:
            return guarded(self.prop.check, case), None
        except Skip as e:
            return {"nontrivial": False, "skip": str(e)}, None
        except Violation as e:
            return {}, e

    def one(self, case):
        now = time.time()
        if self.fail_time is None:
            if now > self.cfg["deadline"] or os.path.exists(self.stop):
                raise KeyboardInterrupt
        elif now > self.fail_time + self.cfg["shrink_s"]:
            raise KeyboardInterrupt
        key = case_key(case)
        if key in self.known_keys:
            return
        info, viol = self.judge(case)
        if self.fail_time is None:
            self.evaluations += 1
            for c in info.get("classes", ()):
                self.classes[c] = self.classes.get(c, 0) + 1
            if info.get("skip"):
                self.skips += 1
                self.classes["skip:" + info["skip"]] = (
                    self.classes.get("skip:" + info["skip"], 0) + 1
                )
            if info.get("nontrivial") and key not in self.nontrivial:
                self.nontrivial.add(key)
                if len(self.samples) < 3:
                    self.samples.append({"case": case, "observed": info.get("observed")})
        if viol is not None:
            size = case_size(case)
            if self.best is None or size < self.best[0]:
                self.best = (size, case, viol)
                write_json(
                    os.path.join(self.dir, "fail-%s" % self.wid),
                    {
                        "case": case,
                        "role": self.role,
                        "message": viol.message,
                        "details": {k: str(v)[:2000] for k, v in viol.details.items()},
                    },
                )
            if self.fail_time is None:
                self.fail_time = time.time()
                open(self.stop, "w").close()
            raise viol

    def run(self):
        import hypothesis
        from hypothesis import HealthCheck, Phase, given, settings

        seed = (self.cfg["seed"] * 1000003 + self.wid * 7919 + 17) % (2 ** 63)
        strategy = self.prop.strategy(self.role, self.cfg["tier"])

        @hypothesis.seed(seed)
        @settings(
            max_examples=self.cfg["examples"],
            database=None,
            deadline=None,
            phases=(Phase.generate, Phase.shrink),
            suppress_health_check=list(HealthCheck),
            report_multiple_bugs=False,
            print_blob=False,
        )
        @given(strategy)
        def test(case):
            self.one(case)

        error = None
        try:
            for case in self.cfg["first"]:
                self.one(case)
            test()
        except KeyboardInterrupt:
            pass
        except BaseException:
            if self.best is None:
                error = traceback.format_exc()
        self.finish(error)

    def finish(self, error):
        write_json(
            self.out,
            {
                "evaluations": self.evaluations,
                "nontrivial": sorted(self.nontrivial),
                "skips": self.skips,
                "classes": self.classes,
                "samples": self.samples,
                "error": error,
            },
        )


def quiet():
    import warnings

    warnings.simplefilter("ignore")
    fd = os.open(os.devnull, os.O_WRONLY)
    sys.stdout.flush()
    os.dup2(fd, 1)
    import logging

    logging.disable(logging.CRITICAL)


def stem(prop, role, wids, cfg):
    """Compiles what the role needs once, then forks the workers and watches them."""
    quiet()
    if hasattr(prop, "warmup") and not cfg.get("cold"):
        try:
            prop.warmup(role)
        except KeyboardInterrupt:
            raise
        except BaseException:
            pass  # the generated cases will show it
    open(os.path.join(cfg["dir"], "warm-%s" % role), "w").close()
    cfg["deadline"] = time.time() + cfg["cap"]
    live = {}
    for wid in wids:
        pid = os.fork()
        if pid == 0:
            code = 0
            try:
                Worker(prop, role, wid, cfg).run()
            except BaseException:
                traceback.print_exc()
                code = 3
            finally:
                sys.stderr.flush()
                os._exit(code)
        live[pid] = wid
    crashes = []
    while live:
        pid, status = os.waitpid(-1, os.WNOHANG)
        if pid == 0:
            time.sleep(0.05)
            for p, wid in list(live.items()):
                j = read_json(os.path.join(cfg["dir"], "journal-%s" % wid))
                if j and time.time() - j["t"] > HANG_S:
                    out = os.path.join(cfg["dir"], "out-%s" % wid)
                    if not os.path.exists(out):
                        crashes.append({"wid": wid, "why": "does not terminate", "case": j["case"]})
                        open(os.path.join(cfg["dir"], "stop"), "w").close()
                    os.kill(p, signal.SIGKILL)
                    os.waitpid(p, 0)
                    del live[p]
            continue
        if pid not in live:
            continue
        wid = live.pop(pid)
        if os.WIFSIGNALED(status):
            sig = os.WTERMSIG(status)
            j = read_json(os.path.join(cfg["dir"], "journal-%s" % wid))
            why = "killed by signal %d" % sig
            crashes.append(
                {
                    "wid": wid,
                    "why": why,
                    "case": j["case"] if j and sig in CRASH_SIGNALS else None,
                }
            )
            if sig in CRASH_SIGNALS:
                open(os.path.join(cfg["dir"], "stop"), "w").close()
    write_json(os.path.join(cfg["dir"], "crashes-%s" % role), crashes)


# --------------------------------------------------------------------------- findings


def known_findings(pid):
    """Lines `known: property=<id> case=<file under /verif> <what fails>`."""
    out = []
    path = os.path.join(VERIF, "KNOWN_FINDINGS.txt")
    if os.path.exists(path):
        for line in open(path):
            if line.startswith("known: property=%s " % pid):
                fields = line.split(None, 3)
                case = read_json(os.path.join(VERIF, fields[2].split("=", 1)[1]))
                out.append((case["role"], case["case"], fields[3].strip()))
    return out


def run_isolated(prop, role, case, scratch, tag):
    """One case in its own process: returns None or the violation message."""
    path = os.path.join(scratch, "iso-%s" % tag)
    pid = os.fork()
    if pid == 0:
        code = 3
        try:
            quiet()
            from .core import Skip, Violation, guarded

            try:
                guarded(prop.check, case)
                write_json(path, {"message": None})
            except Skip:
                write_json(path, {"message": None})
            except Violation as e:
                write_json(path, {"message": e.message, "details": {k: str(v)[:4000] for k, v in e.details.items()}})
            code = 0
        except BaseException:
            traceback.print_exc()
        finally:
            os._exit(code)
    t0 = time.time()
    while True:
        p, status = os.waitpid(pid, os.WNOHANG)
        if p:
            break
        if time.time() - t0 > HANG_S + 60:
            os.kill(pid, signal.SIGKILL)
            os.waitpid(pid, 0)
            return {"message": "does not terminate"}
        time.sleep(0.02)
    if os.WIFSIGNALED(status):
        if os.WTERMSIG(status) in CRASH_SIGNALS:
            return {"message": "killed by signal %d" % os.WTERMSIG(status)}
        raise RuntimeError("the process running the case was killed")
    res = read_json(path)
    if res is None:
        raise RuntimeError("harness error while running the case")
    return res if res["message"] else None


# --------------------------------------------------------------------------- main


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seed", type=int, default=int(os.environ.get("VERIF_SEED", "1")))
    ap.add_argument("--replay", default=None)
    ap.add_argument("--examples", type=int, default=None)
    ap.add_argument("--cap", type=float, default=None)
    ap.add_argument("--workers", type=int, default=None)
    ap.add_argument("--no-evidence", action="store_true")
    args = ap.parse_args()
    if args.replay:
        args.replay = os.path.abspath(args.replay)
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix="wwv-")
    code = 2
    try:
        code = run(args, scratch, t0)
    except KeyboardInterrupt:
        code = 2
    except BaseException:
        traceback.print_exc()
    finally:
        os.chdir("/")
        shutil.rmtree(scratch, ignore_errors=True)
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(code)


def run(args, scratch, t0):
    setup_imports(scratch)
    prop = importlib.import_module("wwv.props.%s" % args.property.lower())
    pid = args.property
    import warnings

    warnings.simplefilter("ignore")
    import wildwood  # noqa: compiles most of the code

    got = os.path.dirname(os.path.dirname(os.path.abspath(wildwood.__file__)))
    if os.path.realpath(got) != os.path.realpath(REPO):
        print("wildwood was imported from %s" % got, file=sys.stderr)
        return 2
    t_import = time.time() - t0

    if args.replay:
        rep = read_json(args.replay)
        os.environ["WWV_REPLAY"] = "1"
        res = run_isolated(prop, rep["role"], rep["case"], scratch, "replay")
        if res:
            print("VIOLATION property=%s replay=%s" % (pid, args.replay))
            print(res["message"])
            for k, v in (res.get("details") or {}).items():
                print("  %s: %s" % (k, v))
            return 1
        print("replay: the property holds on this case")
        return 0

    tier = args.tier
    budget = dict(prop.BUDGET[tier])
    if args.examples:
        budget["examples"] = args.examples
    if args.cap:
        budget["cap"] = args.cap
    roles = prop.ROLES
    n_workers = args.workers or max(len(roles), min(8, os.cpu_count() or 1))
    wids = {r: [w for w in range(n_workers) if w % len(roles) == i] for i, r in enumerate(roles)}
    known = known_findings(pid)
    known_keys = [case_key(c) for _, c, _ in known]
    first = getattr(prop, "FIRST", {})
    stems = {}

    def start(role, cold):
        cfg = {
            "dir": scratch,
            "seed": args.seed,
            "tier": tier,
            "examples": int(max(1, -(-budget.get("role_examples", {}).get(role, budget["examples"] * len(wids[role]) / n_workers) // len(wids[role])))),
            "cap": budget["cap"],
            "shrink_s": budget.get("shrink_s", 40),
            "known_keys": known_keys,
            "first": [],
            "cold": cold,
        }
        p = os.fork()
        if p == 0:
            code = 0
            try:
                stem(prop, role, wids[role], cfg)
            except BaseException:
                traceback.print_exc()
                code = 3
            finally:
                sys.stderr.flush()
                os._exit(code)
        stems[p] = (role, cold, time.time())

    for role in roles:
        start(role, False)

    known_hits = []
    for i, (role, case, what) in enumerate(known):
        res = run_isolated(prop, role, case, scratch, "known%d" % i)
        if res:
            known_hits.append(what)

    stem_errors = []
    while stems:
        p, status = os.waitpid(-1, os.WNOHANG)
        if p == 0:
            time.sleep(0.05)
            for q, (role, cold, since) in list(stems.items()):
                if not os.path.exists(os.path.join(scratch, "warm-%s" % role)) and time.time() - since > HANG_S:
                    os.kill(q, signal.SIGKILL)
                    os.waitpid(q, 0)
                    del stems[q]
                    stem_errors.append("stem %s did not end its first fit" % role)
                    if not cold:
                        start(role, True)
            continue
        if p in stems:
            role, cold, _ = stems.pop(p)
            if status != 0:
                stem_errors.append("stem %s ended with status %d" % (role, status))
                if not cold and not os.path.exists(os.path.join(scratch, "warm-%s" % role)):
                    # the very first fit kills the process: the cases will show it one by one
                    start(role, True)

    # Collect
    evaluations, skips, nontrivial, classes, samples, errors = 0, 0, set(), {}, [], list(stem_errors)
    failures = []
    for role in roles:
        for c in read_json(os.path.join(scratch, "crashes-%s" % role)) or []:
            if c["case"] is not None:
                failures.append(
                    {"case": c["case"], "role": role, "message": "the process was " + c["why"] if "killed" in c["why"] else "the case " + c["why"], "details": {}}
                )
            else:
                errors.append("worker %s: %s" % (c["wid"], c["why"]))
        for w in wids[role]:
            f = read_json(os.path.join(scratch, "fail-%s" % w))
            if f:
                failures.append(f)
            o = read_json(os.path.join(scratch, "out-%s" % w))
            if o is None:
                if not f and not failures:
                    errors.append("worker %s left no result" % w)
                continue
            evaluations += o["evaluations"]
            skips += o["skips"]
            nontrivial.update(o["nontrivial"])
            for k, v in o["classes"].items():
                classes[k] = classes.get(k, 0) + v
            samples.extend(o["samples"][: 2 if len(samples) < 4 else 1])
            if o["error"]:
                errors.append(o["error"])

    violations = 0
    replay = None
    if failures:
        violations = 1
        failures.sort(key=lambda f: case_size(f["case"]))
        best = failures[0]
        os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
        replay = os.path.join(VERIF, "replays", "%s-%s.json" % (pid, case_key(best["case"])[:12]))
        write_json(
            replay,
            {
                "property": pid,
                "role": best["role"],
                "case": best["case"],
                "message": best["message"],
                "how_to_replay": "bash /verif/check.sh %s quick --replay %s" % (pid, replay),
            },
        )

    if not args.no_evidence:
        write_evidence(
            pid, prop, tier, args.seed, evaluations, nontrivial, classes, samples, skips,
            violations, known_hits, t0, t_import,
        )

    for what in known_hits:
        print("KNOWN-FINDING: property=%s %s" % (pid, what))
    print(
        "%s: %d cases, %d distinct non-trivial, %d skipped, %.1f s (import %.1f s)"
        % (pid, evaluations, len(nontrivial), skips, time.time() - t0, t_import)
    )
    print("classes: " + json.dumps(classes, sort_keys=True))
    if failures:
        best = failures[0]
        print("VIOLATION property=%s replay=%s" % (pid, replay))
        print(best["message"])
        for k, v in best["details"].items():
            print("  %s: %s" % (k, v))
        return 1
    if errors:
        for e in errors:
            print(e, file=sys.stderr)
        return 2
    if evaluations == 0 or not nontrivial:
        print("no non-trivial case was run", file=sys.stderr)
        return 2
    return 0


def write_evidence(pid, prop, tier, seed, evaluations, nontrivial, classes, samples, skips, violations, known_hits, t0, t_import):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    write_json(
        os.path.join(VERIF, "evidence", "%s.json" % pid),
        {
            "property": pid,
            "tier": tier,
            "seed": seed,
            "level": "exploration",
            "coverage": {
                "evaluations": evaluations,
                "distinct_nontrivial": len(nontrivial),
                "rule": prop.RULE,
                "samples": samples[:6],
                "skipped": skips,
                "case_classes": classes,
                "known_findings_hit": known_hits,
            },
            "assumptions": getattr(prop, "ASSUMPTIONS", []),
            "wall_s": round(time.time() - t0, 2),
            "violations": violations,
        },
    )


if __name__ == "__main__":
    main()
