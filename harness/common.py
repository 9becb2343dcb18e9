"""Bounded part of the checks: runs the real code of /repo on generated inputs and compares with an oracle.

Nothing here counts as proved; the results are reported separately and labelled bounded.
"""
import collections
import hashlib
import importlib
import io
import json
import logging
import os
import random
import signal
import sys
import time
import traceback

REPO = os.environ.get("PYDED_REPO_LIB", "/repo/lib")
if REPO not in sys.path:
    sys.path.insert(0, REPO)
logging.disable(logging.CRITICAL)


class Stop(Exception):
    pass


class Hang(BaseException):
    pass


class Ctx:
    def __init__(self, pid, seed, tier, budget):
        self.pid, self.seed, self.tier = pid, seed, tier
        self.rng = random.Random(f"{pid}:{seed}")
        self.t0 = time.time()
        self.deadline = self.t0 + budget
        self.evaluations = 0
        self.seen = set()
        self.samples = []
        self.fails = []
        self.sections = collections.Counter()
        self.bounds = []
        self.current = None
        self.section = ""

    def part(self, name, bound):
        self.section = name
        self.bounds.append(f"{name}: {bound}")

    def left(self, share=1.0):
        return time.time() < self.t0 + (self.deadline - self.t0) * share

    def case(self, inp, trivial=False):
        """one evaluation of the property; inp identifies the case"""
        self.evaluations += 1
        self.sections[self.section] += 1
        self.current = inp
        s = inp if isinstance(inp, str) else repr(inp)
        if not trivial:
            self.seen.add(hashlib.md5(s.encode("utf-8", "replace")).digest()[:8])
        if len(self.samples) < 4 and (self.evaluations % 37 == 1):
            self.samples.append(s[:600])

    def fail(self, what, expected=None, got=None, inp=None):
        self.fails.append(
            {"what": what, "part": self.section, "input": _txt(self.current if inp is None else inp), "expected": _txt(expected), "got": _txt(got)}
        )
        if len(self.fails) >= 3:
            raise Stop()

    def eq(self, what, expected, got, inp=None):
        if expected != got:
            self.fail(what, expected, got, inp)
            return False
        return True

    def ok(self, what, cond, expected=None, got=None):
        if not cond:
            self.fail(what, expected, got)
        return cond


def _txt(x):
    s = x if isinstance(x, str) else repr(x)
    return s[:4000]


class limit:
    """the code under test must come back within the time limit"""

    def __init__(self, seconds=20):
        self.s = seconds

    def __enter__(self):
        def h(sig, frm):
            raise Hang()

        self.old = signal.signal(signal.SIGALRM, h)
        signal.setitimer(signal.ITIMER_REAL, self.s)

    def __exit__(self, *a):
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, self.old)
        return False


class silent:
    """the code under test prints while it works"""

    def __enter__(self):
        self.o = sys.stdout
        sys.stdout = io.StringIO()

    def __exit__(self, *a):
        sys.stdout = self.o
        return False


def main():
    pid, out = sys.argv[1], sys.argv[2]
    budget = float(sys.argv[3])
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    tier = os.environ.get("VERIF_TIER", "quick")
    sys.setrecursionlimit(3000)
    ctx = Ctx(pid, seed, tier, budget)
    err = None
    try:
        # whole run: a hang of the code under test is reported with the input that was being tried
        signal.signal(signal.SIGALRM, signal.SIG_IGN)
        mod = importlib.import_module(f"harness.h_{pid.lower()}")
        mod.run(ctx)
    except Stop:
        pass
    except Hang:
        ctx.fails.append({"what": "does not end within the time limit", "part": ctx.section, "input": _txt(ctx.current), "expected": "an answer", "got": "no answer"})
    except BaseException as e:
        tb = traceback.extract_tb(e.__traceback__)
        inrepo = [f for f in tb if f.filename.startswith(REPO)]
        txt = traceback.format_exc(limit=-12)
        if isinstance(e, RecursionError) or inrepo or ctx.current is not None:
            ctx.fails.append({"what": f"raises {type(e).__name__}: {e}", "part": ctx.section, "input": _txt(ctx.current), "expected": "no error", "got": txt})
        else:
            err = txt
    res = {
        "evaluations": ctx.evaluations,
        "distinct_nontrivial": len(ctx.seen),
        "samples": ctx.samples,
        "seen": [int.from_bytes(x, "big") for x in ctx.seen],
        "fails": ctx.fails,
        "parts": dict(ctx.sections),
        "bounds": ctx.bounds,
        "error": err,
        "wall_s": round(time.time() - ctx.t0, 2),
    }
    with open(out, "w") as f:
        json.dump(res, f, indent=1)


if __name__ == "__main__":
    sys.modules["harness.common"] = sys.modules["__main__"]
    main()
