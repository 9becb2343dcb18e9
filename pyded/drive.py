"""Running proofs: a proof is a function of the interpreter; it is executed on every path."""
import os
import time
import traceback

import z3

from .core import *
from .interp import *
from .interp import PyExcValue, BoundV
from . import lib, model
from .model import arg, TObj, TStr, TInt, TIp, TList, TOpt, TUnion, TConst, TRec
from .prog import Program, ClassV


class Proof:
    """one obligation group: name, function under contract, driver"""

    def __init__(self, name, fn, functions=(), need=(), contracts=None, types=None, budget=240, rec=(), bound=None, standin=None):
        self.standin = standin  # bounded proofs that decide code this (general) proof cannot be carried out on
        self.bound = bound  # stated bound of a bounded stand-in, never counted as proved
        self.name, self.fn, self.functions, self.need = name, fn, tuple(functions), tuple(need)
        self.contracts, self.types, self.budget, self.rec = contracts or {}, types or {}, budget, tuple(rec)


def run_proof(pr, prog=None, timeout_ms=10000):
    prog = prog or Program()
    t0 = time.time()
    solver = Solver(timeout_ms)
    res = Result(pr.name)
    path = Path(solver, res)
    path.deadline = t0 + pr.budget
    I = Interp(prog, path, {**model.data_model(), **pr.types})
    I.contracts.update(pr.contracts)
    I.rec_candidates = list(pr.rec)
    path.I = I
    err = None

    def once():
        try:
            pr.fn(I)
        except PyExc as e:
            res.outcomes["exception"] = res.outcomes.get("exception", 0) + 1
            path.fail(f"{pr.name}: no exception", f"raises {e}")
        except LoopCarried as e:
            raise Unsupported(f"loop needs an invariant: {e}")
        except (ReturnExc, BreakExc, ContinueExc) as e:
            raise Unsupported(f"stray {type(e).__name__}")

    try:
        path.explore(once)
    except Unsupported as e:
        res.unsupported.append(f"outside the verified subset: {e}")
        err = traceback.format_exc(limit=-6)
    except RecursionError:
        res.unsupported.append("verifier recursion limit")
    except z3.Z3Exception as e:
        res.unsupported.append(f"z3: {e}")
        err = traceback.format_exc(limit=-6)
    except (AttributeError, TypeError, KeyError, AssertionError, IndexError, ValueError, NameError) as e:
        res.unsupported.append(f"verifier error {type(e).__name__}: {e}")
        err = traceback.format_exc(limit=-8)
    for n in pr.need:
        if not res.outcomes.get(n):
            res.unsupported.append(f"vacuous: no feasible path reaches '{n}'")
    if not res.obligations and not res.unsupported:
        res.unsupported.append("vacuous: no obligation was generated")
    agg = {}
    for o in res.obligations:
        a = agg.setdefault(o.name, {"name": o.name, "proved": 0, "bad": []})
        if o.status == "proved":
            a["proved"] += 1
        else:
            a["bad"].append({"status": o.status, "detail": o.detail, "model": o.model})
    return {
        "proof": pr.name,
        "bound": pr.bound,
        "ok": res.ok(),
        "obligations": list(agg.values()),
        "generated": len(res.obligations),
        "discharged": sum(1 for o in res.obligations if o.status == "proved"),
        "paths": res.paths,
        "outcomes": res.outcomes,
        "unsupported": res.unsupported,
        "trace": err,
        "functions": sorted(set(pr.functions)),
        "inlined": sorted(I.inlined),
        "contracts": sorted(I.used_contracts),
        "assumed": sorted(I.assumed),
        "queries": solver.queries,
        "cvc5": solver.cvc5,
        "solver_s": round(solver.time, 3),
        "wall_s": round(time.time() - t0, 3),
    }


# ---------------------------------------------------------------- helpers of the specifications
def outcome(I, name):
    r = I.p.result.outcomes
    if name not in r or r[name] < 3:
        if name not in r and not I.p.feasible():
            raise PathInfeasible()
        r[name] = r.get(name, 0) + 1


def zt(b):
    return z3.BoolVal(b) if isinstance(b, bool) else b


def with_class(I, name, cls):
    o = arg(I, TObj(cls), name)
    return o


def frame_ok(I, name, allowed=()):
    """nothing that existed before the call was written, except the allowed (oid or class field) places"""
    for x in I.p.wlog:
        oid = x[1]
        if I.is_new(oid) or oid in allowed or x[0] == "event":
            continue
        I.p.fail(f"{name}: modifies nothing", f"{x[0]} of {oid} {x[2] if x[0] == 'setattr' else ''}")
    I.p.prove(True, f"{name}: modifies nothing")


class MR:
    pass
