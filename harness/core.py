"""Core of the property-based checks: Hypothesis driven search, classification, shrinking, replay.

A check module (checks/cNN.py) defines
    ID     property id
    RULE   what makes a generated case non-trivial (text, goes to the evidence file)
    SUBS   list of Sub(name, strategy, check, quick, thorough, corpus)
where strategy generates a plain Python literal ("case") and check(case, ctx) executes the real code of /repo on it
and compares with a reference that is computed from the case alone; it raises Violation on any difference.
"""
import hashlib
import json
import os
import random
import sys
import threading
import time
from time import time as real_time  # a check may slow down the one the game uses
import traceback

VT_SITE = "/opt/veriftools/pyvenv/lib/python3.12/site-packages"
REPO = os.environ.get("VERIF_REPO", "/repo")
RESEARCH = os.path.join(REPO, "Python", "research")
DEMO = os.path.join(RESEARCH, "scripts", "demo")
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

try:
    import hypothesis  # noqa: F401
except ImportError:
    sys.path.append(VT_SITE)  # appended, so that the project's own packages keep priority

TIER = os.environ.get("VERIF_TIER", "quick")
BIG = TIER == "thorough"
CASE_LIMIT_S = 150  # a single (small) case that runs longer than this does not terminate
SHRINK_LIMIT_S = 45
QUICK_SCALE = 4  # multiplies the number of generated cases of the quick tier (a module may say otherwise: SCALE)


class Violation(Exception):
    """The real code disagrees with the reference on this case"""


class Ctx:
    def __init__(self):
        self.nontrivial = False
        self.tags = set()

    def tag(self, *names):
        self.tags.update(names)


class Sub:
    def __init__(self, name, strategy, check, quick=300, thorough=6000, corpus=(), shards=None):
        self.name, self.strategy, self.check = name, strategy, check
        self.quick, self.thorough, self.corpus = quick, thorough, list(corpus)
        self.shards = shards  # None: all


def expect(cond, msg, *details):
    if not cond:
        raise Violation(msg + ("" if not details else ": " + " | ".join(_short(d) for d in details)))


def expect_eq(got, want, what):
    if not (got == want):
        raise Violation(f"{what}: got {_short(got)}, expected {_short(want)}")


def expect_close(got, want, what, tol=1e-9):
    if not (abs(got - want) <= tol * abs(want) + 1e-14):
        raise Violation(f"{what}: got {got!r}, expected {want!r}")


def expect_raises(fn, what, exc=Exception):
    try:
        r = fn()
    except exc:
        return
    raise Violation(f"{what}: should have been refused, returned {_short(r)}")


def _short(x, n=900):
    try:
        s = repr(x)
    except Exception as e:  # repr of the object under test may be broken too
        s = f"<repr failed: {e!r}>"
    return s if len(s) <= n else s[:n] + "..."


def case_hash(sub_name, case):
    return hashlib.blake2b((sub_name + repr(case)).encode(), digest_size=8).hexdigest()


def fresh(x):
    """The same data in which equal parts are different objects: nothing may depend on the identity of a value"""
    t = type(x)
    if t is str:
        return x[:1] + x[1:]
    if t is int:
        return x + 1 - 1
    if t is tuple:
        return tuple([fresh(y) for y in x])
    if t is list:
        return [fresh(y) for y in x]
    if t is frozenset:
        return frozenset([fresh(y) for y in x])
    if t is set:
        return {fresh(y) for y in x}
    if t is dict:
        return {fresh(k): fresh(v) for k, v in x.items()}
    return x


def run_case(sub, case):
    """Runs one case. Returns (ctx, None) or (ctx, description of the violation)."""
    ctx = Ctx()
    random.seed(12345)
    case = fresh(case)
    try:
        sub.check(case, ctx)
        return ctx, None
    except Violation as e:
        return ctx, str(e)
    except (KeyboardInterrupt, MemoryError):
        raise
    except BaseException as e:
        frames = [f.filename for f in traceback.extract_tb(e.__traceback__)]
        if type(e).__module__.startswith("hypothesis"):
            raise
        if frames and "/harness/ref" in frames[-1]:
            raise  # the reference itself failed: an error of the check, never a violation
        return ctx, f"unexpected {type(e).__name__}: {e} (at {' <- '.join(_where(e))})"


def _where(e):
    return [f"{os.path.basename(f.filename)}:{f.lineno} {f.name}"
            for f in reversed(traceback.extract_tb(e.__traceback__)[-4:])]


class Shard:
    """Runs all sub checks of one property with one seed / hash seed in this process"""

    def __init__(self, module, seed, shard, out):
        self.module, self.seed, self.shard, self.out = module, seed, shard, out
        self.current = None
        self.started = None
        self.result = {"evaluations": 0, "hashes": [], "tags": {}, "samples": [], "failure": None, "per_sub": {},
                       "error": None, "rule": module.RULE}
        self._nt = set()

    def watchdog(self):
        while True:
            time.sleep(1.0)
            st, cur = self.started, self.current
            if st is not None and real_time() - st > CASE_LIMIT_S:
                self.result["failure"] = {
                    "sub": cur[0], "case": repr(cur[1]), "message": f"case did not finish within {CASE_LIMIT_S} s",
                    "hashseed": os.environ.get("PYTHONHASHSEED")}
                self.flush()
                os._exit(0)

    def flush(self):
        self.result["hashes"] = sorted(self._nt)
        with open(self.out + ".tmp", "w") as f:
            json.dump(self.result, f)
        os.replace(self.out + ".tmp", self.out)

    def one(self, sub, case):
        self.current = (sub.name, case)
        self.started = real_time()
        ctx, bad = run_case(sub, case)
        self.started = None
        r = self.result
        r["evaluations"] += 1
        ps = r["per_sub"].setdefault(sub.name, {"evaluations": 0, "nontrivial": 0})
        ps["evaluations"] += 1
        if ctx.nontrivial:
            h = case_hash(sub.name, case)
            if h not in self._nt:
                self._nt.add(h)
                ps["nontrivial"] += 1
                k = ps["nontrivial"]
                if k in (1, 7, 40) and len(r["samples"]) < 40:
                    r["samples"].append(f"{sub.name}: {_short(case, 500)}")
        for t in ctx.tags:
            t = f"{sub.name}/{t}"
            r["tags"][t] = r["tags"].get(t, 0) + 1
        return bad

    def run(self):
        threading.Thread(target=self.watchdog, daemon=True).start()
        try:
            for sub in self.module.SUBS:
                if sub.shards is not None and self.shard % 8 not in sub.shards:
                    continue
                self.run_sub(sub)
                if self.result["failure"]:
                    break
        except BaseException:
            self.result["error"] = traceback.format_exc()
        self.flush()

    def run_sub(self, sub):
        from hypothesis import HealthCheck, Phase, Verbosity, given, seed, settings

        for case in sub.corpus:
            bad = self.one(sub, case)
            if bad:
                self.fail(sub, case, bad)
                return
        n = sub.thorough if BIG else sub.quick * getattr(self.module, "SCALE", QUICK_SCALE)
        if not n:
            return
        state = {"first": None, "best": None, "msg": None}

        def body(case):
            if state["first"] is not None and real_time() - state["first"] > SHRINK_LIMIT_S:
                if repr(case) == repr(state["best"]):
                    raise Violation(state["msg"])
                return
            bad = self.one(sub, case)
            if bad:
                if state["first"] is None:
                    state["first"] = real_time()
                state["best"], state["msg"] = case, bad
                raise Violation(bad)

        s = int.from_bytes(hashlib.blake2b(
            f"{self.module.ID}/{sub.name}/{self.seed}/{self.shard}".encode(), digest_size=6).digest(), "big")
        test = seed(s)(settings(
            max_examples=n, database=None, deadline=None, derandomize=False, report_multiple_bugs=False,
            suppress_health_check=list(HealthCheck), verbosity=Verbosity.quiet, print_blob=False,
            phases=(Phase.generate, Phase.shrink))(given(sub.strategy)(body)))
        try:
            test()
        except Violation:
            self.fail(sub, state["best"], state["msg"])
        except BaseException as e:
            if state["best"] is not None:  # e.g. hypothesis.errors.Flaky: decide by running the case again
                bad = self.one(sub, state["best"])
                if bad:
                    self.fail(sub, state["best"], bad)
                    return
                self.fail(sub, state["best"], f"{state['msg']} (not every execution of this case fails: "
                                              f"behaviour depends on earlier calls)")
                return
            raise

    def fail(self, sub, case, msg):
        self.result["failure"] = {"sub": sub.name, "case": repr(case), "message": msg,
                                  "hashseed": os.environ.get("PYTHONHASHSEED")}
