"""Runner shared by all checks: loads the code under test, executes the enumerated
cases (sharded over processes), collects coverage, writes evidence and replays."""

import hashlib
import importlib
import json
import logging
import multiprocessing
import os
import shutil
import signal
import sys
import tempfile
import time
import traceback
import warnings

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("RKSTIFF_REPO", "/repo")


class Fail(Exception):
    """The property does not hold on the case being executed."""

    def __init__(self, msg, tag=None):
        super().__init__(msg)
        self.tag = tag


class Skip(BaseException):
    """The case cannot be run on this code (the subclass interface it plugs into is gone)."""


class Budget(BaseException):
    """Raised by instrumented callbacks when an execution runs away."""


def load_code():
    """Copy the package from the working tree to a scratch directory and import it."""
    tmp = tempfile.mkdtemp(prefix="rkmc-")
    shutil.copytree(
        os.path.join(REPO, "rkstiff"),
        os.path.join(tmp, "rkstiff"),
        ignore=shutil.ignore_patterns("__pycache__", "*.pyc"),
    )
    ver = os.path.join(tmp, "rkstiff", "__version__.py")
    if not os.path.exists(ver):
        with open(ver, "w") as f:
            f.write('version = __version__ = "0"\n')
    sys.path.insert(0, tmp)
    for m in [m for m in sys.modules if m.split(".")[0] == "rkstiff"]:
        del sys.modules[m]
    pkg = importlib.import_module("rkstiff")
    if not os.path.abspath(pkg.__file__).startswith(tmp):
        raise RuntimeError("imported the wrong rkstiff: %s" % pkg.__file__)
    return tmp


class Tracker:
    """Counters of one worker."""

    def __init__(self, only=None):
        self.evals = 0
        self.distinct = set()
        self.samples = []
        self.states = set()
        self.transitions = 0
        self.traces = 0
        self.violations = []
        self.cases = 0
        self.key = None
        self.only = only
        self.extra = {}

    # -- called by checks ------------------------------------------------
    def ev(self, sub="", nontrivial=True, n=1):
        """Register one execution of the code under test."""
        self.evals += n
        if nontrivial:
            self.distinct.add(_h("%s|%s" % (self.key, sub)))

    def state(self, s):
        self.states.add(_h(repr(s)))

    def sample(self, text):
        if len(self.samples) < 3:
            self.samples.append(str(text)[:600])

    def count(self, name, n=1):
        self.extra[name] = self.extra.get(name, 0) + n

    def violate(self, msg, tag=None):
        self.violations.append({"key": self.key, "tag": tag, "msg": str(msg)[:2000]})

    # -- called by the runner ---------------------------------------------
    def run(self, key, fn):
        self.key = key
        self.cases += 1
        began = time.time()
        before = self.evals
        signal.signal(signal.SIGALRM, _alarm)
        signal.alarm(CASE_SECONDS)
        try:
            fn()
        except Skip:
            self.count("skipped")
            return
        except Fail as e:
            self.violate(str(e), e.tag)
        except Budget as e:
            self.violate("execution did not terminate within its budget: %s" % e)
        except MemoryError:
            raise
        except Exception as e:  # the unchanged code raises nothing here
            tb = traceback.format_exc(limit=-6)
            self.violate("unexpected %s: %s\n%s" % (type(e).__name__, e, tb))
        finally:
            signal.alarm(0)
            if len(self.violations) >= 25:
                STOP.value = 1
            if PROFILE and time.time() - began > float(PROFILE):
                sys.stderr.write("%.2fs %s\n" % (time.time() - began, key))
        if self.evals == before and not self.violations:
            self.ev()
        if time.time() - began >= CASE_SECONDS:
            STOP.value = 1  # a hang: what was found is reported, no more cases are started


PROFILE = os.environ.get("MC_PROFILE")
CASE_SECONDS = 120  # quick cases take seconds; only a hang gets here (400 in the thorough tier)


def _alarm(signum, frame):
    raise Budget("%d s of wall time" % CASE_SECONDS)


def _h(s):
    return hashlib.blake2b(s.encode(), digest_size=8).digest()


T = Tracker()  # replaced in each worker


def tracker():
    return T


def need_interface(cls, *names):
    """Skip the case unless the class still has the documented hooks for subclasses."""
    for n in names:
        if not callable(getattr(cls, n, None)):
            raise Skip(n)


def fail(msg, tag=None):
    raise Fail(msg, tag)


STOP = multiprocessing.Value("i", 0)
COUNTER = multiprocessing.Value("i", 0)  # next case, shared by the forked workers


def _worker(args):
    global T
    modname, tier, w, nw, only = args
    mod = importlib.import_module(modname)
    T = Tracker(only)
    err = None
    try:
        allc = list(mod.cases(tier))
        if len({k for k, _ in allc}) != len(allc):
            raise RuntimeError("case keys are not unique")
        if only is not None:
            for key, fn in allc:
                if key == only:
                    T.run(key, fn)
        else:
            while True:
                with COUNTER.get_lock():
                    i = COUNTER.value
                    COUNTER.value += 1
                if i >= len(allc) or STOP.value:
                    break
                if len(T.samples) < 2:
                    T.sample(allc[i][0])
                T.run(*allc[i])
    except BaseException:  # an error of the harness
        err = traceback.format_exc()
    return {
        "evals": T.evals,
        "distinct": T.distinct,
        "samples": T.samples,
        "states": T.states,
        "transitions": T.transitions,
        "traces": T.traces,
        "violations": T.violations,
        "cases": T.cases,
        "extra": T.extra,
        "err": err,
    }


def known_findings(pid):
    path = os.path.join(VERIF, "known_findings.json")
    try:
        with open(path) as f:
            return [k for k in json.load(f)["findings"] if k["property"] == pid]
    except FileNotFoundError:
        return []


def main(argv):
    pid = argv[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    only = None
    global CASE_SECONDS
    if tier == "thorough":
        CASE_SECONDS = 400
    if "--replay" in argv:
        with open(argv[argv.index("--replay") + 1]) as f:
            rep = json.load(f)
        only, tier = rep["key"], rep["tier"]
    t0 = time.time()
    warnings.simplefilter("ignore")
    tmp = load_code()
    try:
        import numpy as np

        np.seterr(all="ignore")
        modname = "mc.checks.%s" % pid.lower()
        mod = importlib.import_module(modname)
        if getattr(mod, "QUIET_LOGS", True):
            quiet_logs()
        nw = 1 if only is not None else min(int(os.environ.get("MC_WORKERS", "8")), os.cpu_count() or 1)
        jobs = [(modname, tier, w, nw, only) for w in range(nw)]
        if nw == 1:
            res = [_worker(jobs[0])]
        else:
            with multiprocessing.get_context("fork").Pool(nw) as pool:
                res = pool.map(_worker, jobs, chunksize=1)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    errs = [r["err"] for r in res if r["err"]]
    viol = [v for r in res for v in r["violations"]]
    # a harness error while the code under test misbehaves is reported as the violation
    if errs and not viol:
        sys.stderr.write(errs[0])
        print("ERROR property=%s harness error" % pid)
        return 2
    distinct, states = set(), set()
    for r in res:
        distinct |= r["distinct"]
        states |= r["states"]
    extra = {}
    for r in res:
        for k, v in r["extra"].items():
            extra[k] = extra.get(k, 0) + v
    known = known_findings(pid)
    new, seen = [], {}
    for v in viol:
        for k in known:
            if (v["tag"] or v["key"]) == k["key"]:
                seen[k["key"]] = k
                break
        else:
            new.append(v)
    for k in seen.values():
        print("KNOWN-FINDING: property=%s %s" % (pid, k["what"]))
    cov = {
        "evaluations": sum(r["evals"] for r in res),
        "distinct_nontrivial": len(distinct),
        "rule": mod.RULE,
        "samples": [s for r in res for s in r["samples"]][:6],
        "cases": sum(r["cases"] for r in res),
        "exhaustive": only is None and not STOP.value,
    }
    if mod.LEVEL == "model_checking":
        cov["states"] = len(states)
        cov["transitions"] = sum(r["transitions"] for r in res)
        cov["traces_validated_against_impl"] = sum(r["traces"] for r in res)
    cov.update(extra)
    ev = {
        "property": pid,
        "tier": tier,
        "seed": seed,
        "level": mod.LEVEL,
        "coverage": cov,
        "assumptions": getattr(mod, "ASSUMPTIONS", []),
        "wall_s": round(time.time() - t0, 3),
        "violations": len(new),
    }
    evdir = os.path.join(VERIF, "evidence")
    os.makedirs(evdir, exist_ok=True)
    if only is None:
        with open(os.path.join(evdir, "%s.json" % pid), "w") as f:
            json.dump(ev, f, indent=1)
    if only is None and cov["cases"] == 0:
        print("ERROR property=%s nothing was explored" % pid)
        return 2
    for i, v in enumerate(new[:5]):
        rp = os.path.join(evdir, "replay-%s-%d.json" % (pid, i))
        with open(rp, "w") as f:
            json.dump({"property": pid, "tier": tier, "key": v["key"], "msg": v["msg"]}, f, indent=1)
        print("case %s: %s" % (v["key"], v["msg"][:700]))
        print("VIOLATION property=%s replay=%s" % (pid, rp))
    if len(new) > 5:
        print("... and %d more violations" % (len(new) - 5))
    if new:
        return 1
    print(
        "OK property=%s tier=%s cases=%d evaluations=%d distinct=%d wall=%.1fs"
        % (pid, tier, cov["cases"], cov["evaluations"], cov["distinct_nontrivial"], time.time() - t0)
    )
    return 0


SOLVER_NAMES = ["IF4", "ETD4", "ETD5", "IF34", "ETD34", "ETD35", "IF45DP"]


def quiet_logs():
    """Keep the code's own stream handlers off the terminal (they are only added when none exist)."""
    for n in SOLVER_NAMES + ["Scripted", "ScriptedCS"] + ["Rec" + n for n in SOLVER_NAMES]:
        lg = logging.getLogger("rkstiff." + n)
        if not lg.handlers:
            lg.addHandler(logging.NullHandler())
        lg.propagate = False
