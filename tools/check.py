#!/usr/bin/env python3-vt
"""check.py <property>: decide one property on /repo's current working tree.

1. proof phase: every contract of pyded/specs/<property>.py is discharged against the AST of /repo/lib/acltk
2. bounded phase: harness/h_<property>.py runs the real code against an oracle (concrete failing inputs, stand-ins)

exit 0: held; exit 1 + VIOLATION line otherwise.
"""
import importlib
import json
import multiprocessing
import os
import subprocess
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
sys.setrecursionlimit(20000)
PY = "/opt/venv/bin/python"
PID = sys.argv[1]
TIER = os.environ.get("VERIF_TIER", "quick") or "quick"
SEED = int(os.environ.get("VERIF_SEED", "1") or 1)
HARD = 780 if TIER == "quick" else 3000
T0 = time.time()


def one(i):
    from pyded.drive import run_proof

    sys.setrecursionlimit(20000)
    p = PROOFS[i]
    t = time.time()
    r = run_proof(p, timeout_ms=10000 if TIER == "quick" else 60000)
    if not r["ok"] and not any(b["status"] == "failed" for o in r["obligations"] for b in o["bad"]) and time.time() - t < 120:
        # undecided: once more with a larger solver budget
        r2 = run_proof(p, timeout_ms=30000)
        if r2["ok"]:
            r = r2
    return r


def start_harness(budget, seed=None, workers=4, part=None, rules=""):
    """workers processes with different seeds (the first one has the given seed)"""
    seed = SEED if seed is None else seed
    r = []
    for w in range(workers):
        out = os.path.join(VERIF, "evidence", f".{PID}.harness{w}.json")
        try:
            os.unlink(out)
        except FileNotFoundError:
            pass
        s = str(seed + 100003 * w)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE="1", VERIF_SEED=s, VERIF_TIER=TIER, PYTHONHASHSEED=str(int(s) % 4294967295))
        env["PYDED_REPO_LIB"] = os.environ.get("PYDED_REPO_LIB", "/repo/lib")
        env["VERIF_RULES"] = rules
        env["PYTHONPATH"] = f"{VERIF}:{env['PYDED_REPO_LIB']}"
        p = subprocess.Popen(
            [PY, "-m", "harness.common", part or PID, out, str(budget)], cwd=VERIF, env=env, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, start_new_session=True
        )
        r.append((p, out))
    return r


def end_harness(procs, limit):
    end = time.time() + limit
    total = None
    seen = set()
    for p, out in procs:
        r = end_one(p, out, max(1, end - time.time()))
        seen.update(r.pop("seen", ()))
        if total is None:
            total = r
            continue
        total["evaluations"] += r["evaluations"]
        for k, v in r["parts"].items():
            total["parts"][k] = total["parts"].get(k, 0) + v
        total["fails"] += [f for f in r["fails"] if f not in total["fails"]]
        total["samples"] = total["samples"] or r["samples"]
        total["bounds"] = total["bounds"] or r["bounds"]
        total["error"] = total["error"] or r["error"]
    total["distinct_nontrivial"] = len(seen)
    return total


def end_one(p, out, limit):
    nothing = {"evaluations": 0, "distinct_nontrivial": 0, "samples": [], "fails": [], "parts": {}, "bounds": []}
    try:
        _, err = p.communicate(timeout=limit)
    except subprocess.TimeoutExpired:
        p.kill()
        p.communicate()
        return dict(nothing, error="bounded phase did not end (code under test hangs?)")
    try:
        with open(out) as f:
            r = json.load(f)
        os.unlink(out)
        return r
    except Exception:
        return dict(nothing, error=f"bounded phase ended without a result: {err[-2000:]}")


def known():
    r = []
    try:
        for l in open(os.path.join(VERIF, "known-findings.txt")):
            l = l.strip()
            if l.startswith("finding: "):
                f = dict(x.split("=", 1) for x in l[9:].split(" | ") if "=" in x)
                if f.get("property") == PID:
                    r.append(f)
    except FileNotFoundError:
        pass
    return r


def main():
    global PROOFS
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    have_h = os.path.exists(os.path.join(VERIF, "harness", f"h_{PID.lower()}.py"))
    have_p = os.path.exists(os.path.join(VERIF, "pyded", "specs", f"{PID.lower()}.py"))
    budget = 40 if TIER == "quick" else 300
    hp = start_harness(budget) if have_h else None
    PROOFS, results, perr = [], [], None
    if have_p:
        try:
            PROOFS = importlib.import_module(f"pyded.specs.{PID.lower()}").proofs()
            # the generated parser rules the property depends on are those of the published grammar
            PROOFS = PROOFS + importlib.import_module("pyded.specs.c28").extra(PID)
            with multiprocessing.get_context("fork").Pool(8, maxtasksperchild=40) as pool:
                pend = [(i, pool.apply_async(one, (i,))) for i in range(len(PROOFS))]
                for i, a in pend:
                    try:
                        results.append(a.get(max(1, T0 + HARD - 60 - time.time())))
                    except multiprocessing.TimeoutError:
                        results.append({"proof": PROOFS[i].name, "ok": False, "obligations": [], "generated": 0, "discharged": 0, "paths": 0, "outcomes": {},
                                        "unsupported": ["time limit of the check"], "trace": None, "functions": PROOFS[i].functions, "inlined": [], "contracts": [],
                                        "assumed": [], "queries": 0, "cvc5": 0, "solver_s": 0, "wall_s": 0})
                pool.terminate()
        except Exception:
            # a tree the verifier cannot read at all
            perr = traceback.format_exc()
    for r, pr in zip(results, PROOFS):
        # a general proof with a bounded stand-in: code it cannot be carried out on is decided by the stand-in
        if pr.standin and not r["ok"] and not any(b["status"] == "failed" for o in r["obligations"] for b in o["bad"]):
            r["undecided"] = list(r["unsupported"])
            r.update(ok=True, bound="general proof not carried out on this tree; stand-in: " + pr.standin)
    har = end_harness(hp, limit=max(30, T0 + HARD - time.time())) if hp else None
    bad = [r for r in results if not r["ok"]]
    if have_h and (bad or perr) and not har["fails"] and not har["error"] and time.time() - T0 < HARD - 150:
        # look longer for a failing input on the real code
        os.environ["VERIF_HUNT"] = "1"
        h2 = end_harness(start_harness(90, SEED + 1000, 8), limit=max(30, T0 + HARD - time.time()))
        if h2["fails"]:
            har = h2
    if har and bad and not har["fails"] and PID != "C28" and time.time() - T0 < HARD - 150:
        # rules of the parsers that are not those of the grammar: a text on which they differ
        diff = sorted({o["name"].split(": ")[0].replace(".bnf ", ":") for r in bad for o in r["obligations"] if o["bad"] and ".bnf " in o["name"]})
        if diff:
            h2 = end_harness(start_harness(90, SEED + 2000, 8, "C28", ",".join(diff)), limit=max(30, T0 + HARD - time.time()))
            if h2["fails"]:
                har = h2
    report(results, bad, perr, har)


def report(results, bad, perr, har):
    unb = [r for r in results if not r.get("bound")]
    bnd = [r for r in results if r.get("bound")]
    gen = sum(r["generated"] for r in unb)
    dis = sum(r["discharged"] for r in unb)
    level = "proof" if unb else "exploration"
    fails, kn = [], []
    kf = known()
    for f in har["fails"] if har else []:
        m = next((k for k in kf if k.get("what") and k["what"] == f["what"] and k.get("input", "") in f["input"]), None)
        (kn if m else fails).append(f)
    cov = {}
    if results:
        cov.update(
            obligations=gen,
            discharged=dis,
            checker_cmd=f"python3-vt tools/check.py {PID}",
            trusted_base=sorted({a for r in results for a in r["assumed"]})
            + ["pyded (this verifier: symbolic execution of the Python AST of /repo/lib/acltk)", "z3 4.x and cvc5 1.1.2", "Python semantics of the modelled subset"],
            proofs=len(unb),
            bounded_proofs={"number": len(bnd), "obligations": sum(r["generated"] for r in bnd), "discharged": sum(r["discharged"] for r in bnd),
                            "bounds": sorted({r["bound"] for r in bnd})},
            paths=sum(r["paths"] for r in results),
            functions_under_contract=sorted({f for r in results for f in r["functions"]}),
            functions_inlined=sorted({f for r in results for f in r["inlined"]}),
            contracts_used=sorted({f for r in results for f in r["contracts"]}),
            solver_queries=sum(r["queries"] for r in results),
            solver_queries_cvc5=sum(r["cvc5"] for r in results),
            solver_s=round(sum(r["solver_s"] for r in results), 2),
            per_proof=[{"proof": r["proof"], "bound": r.get("bound"), **({"undecided": r["undecided"]} if r.get("undecided") else {}), "obligations": r["generated"], "discharged": r["discharged"], "paths": r["paths"], "outcomes": r["outcomes"], "s": r["wall_s"]} for r in results][:150],
        )
    if har:
        b = {k: har[k] for k in ("evaluations", "distinct_nontrivial", "samples", "parts", "bounds")}
        b["rule"] = "inputs generated from VERIF_SEED within the stated bounds, run on the real code and compared with an independent oracle; non-trivial: distinct inputs"
        if results:
            cov["bounded"] = b
        else:
            cov.update(b)
    ev = {
        "property": PID,
        "tier": TIER,
        "seed": SEED,
        "level": level,
        "coverage": cov,
        "assumptions": sorted({a for r in results for a in r["assumed"]}),
        "wall_s": round(time.time() - T0, 2),
        "violations": (1 if fails else 0) + (1 if bad or perr else 0),
    }
    with open(os.path.join(VERIF, "evidence", f"{PID}.json"), "w") as f:
        json.dump(ev, f, indent=1)
    print(f"{PID}: {len(unb)} proofs, {dis}/{gen} obligations discharged, {len(bnd)} bounded proofs; bounded runs: {har['evaluations'] if har else 0} cases; {ev['wall_s']} s")
    for f in kn:
        print(f"KNOWN-FINDING: property={PID} {f['what']}")
    herr = har["error"] if har else None
    if not (bad or perr or fails or herr):
        sys.exit(0)
    rp = os.path.join(VERIF, "evidence", f"replay-{PID}.json")
    with open(rp, "w") as f:
        json.dump(
            {
                "property": PID,
                "failing_inputs": fails,
                "failed_obligations": [
                    {"proof": r["proof"], "obligations": [o for o in r["obligations"] if o["bad"]], "unsupported": r["unsupported"], "trace": r["trace"]} for r in bad
                ],
                "verifier_error": perr,
                "harness_error": herr,
                "reproduce": f"cd /verif && VERIF_SEED={SEED} python3-vt tools/check.py {PID}",
            },
            f,
            indent=1,
        )
    for r in bad[:6]:
        for o in r["obligations"]:
            if o["bad"]:
                print(f"  failed obligation: {o['name']}: {o['bad'][0]['status']} {str(o['bad'][0]['detail'])[:200]}")
        for u in r["unsupported"][:2]:
            print(f"  {r['proof']}: {u[:200]}")
    if perr:
        print("  verifier: " + perr.strip().split("\n")[-1][:300])
    for f in fails[:3]:
        print(f"  failing input: {f['what']}: {f['input'][:300]} expected {f['expected'][:200]} got {f['got'][-200:]}")
    if herr:
        print("  bounded phase: " + herr.strip().split("\n")[-1][:300])
    tail = "" if fails else " no-failing-input-found"
    print(f"VIOLATION property={PID} replay={rp}{tail}")
    sys.exit(1)


if __name__ == "__main__":
    try:
        main()
    except SystemExit:
        raise
    except BaseException:
        traceback.print_exc()
        rp = os.path.join(VERIF, "evidence", f"replay-{PID}.json")
        with open(rp, "w") as f:
            json.dump({"property": PID, "verifier_error": traceback.format_exc()}, f)
        print(f"VIOLATION property={PID} replay={rp} no-failing-input-found")
        sys.exit(1)
