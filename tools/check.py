#!/usr/bin/env python3
"""Decides one property: python3 tools/check.py C03

exit 0  every obligation generated from the current source was discharged
exit 1  an obligation failed; prints the VIOLATION line
exit 2  no answer
"""

import importlib
import json
import os
import re
import shutil
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [HERE, os.path.join(os.path.dirname(HERE), "specs")]

import harness
import verify
from cxx2verus import Unsupported
from verify import VERIF, BUILD, REPO


def tagged(src):
    c = dict(postconditions=len(re.findall(r"//@ens ", src)), checks=len(re.findall(r"//@ob ", src)),
             invariants=len(re.findall(r"//@inv ", src)))
    c["call_preconditions"] = 0
    req = {}
    fn = None
    for line in src.split("\n"):
        m = re.match(r"\s*(?:pub )?proof fn (\w+)\(", line)
        if m:
            fn = m.group(1)
        if "//@req " in line and fn:
            req[fn] = req.get(fn, 0) + 1
    for m in re.finditer(r"= (vc_\w+)\(|^\s*(vc_\w+)\(", src, re.M):
        c["call_preconditions"] += req.get(m.group(1) or m.group(2), 0)
    return c


def assumptions(out):
    gen, src, unit = out["gen"], out["src"], out["unit"]
    a = []
    for n in sorted(gen.dropped_calls):
        a.append(f"call to {n} has no effect on the state under contract (not translated)")
    for n in sorted(gen.trusted_calls):
        a.append(f"trusted contract of external function {n}")
    for n in sorted(gen.ufs):
        a.append(f"uninterpreted: result of {n[3:]} is some function of its arguments")
    for n in sorted(gen.notes):
        a.append(n)
    if not unit.get("safety", True):
        a.append("run-time errors (index ranges, null, overflow) are assumed absent here")
    if unit.get("safety_off"):
        a.append("not checked here: " + ", ".join(sorted(unit["safety_off"])))
    for fid in gen.recursive:
        a.append("partial correctness: recursion through " + gen.by_contract[fid] + " uses its own contract (termination not proved)")
    n = len(re.findall(r"^\s*assume\(", src, re.M))
    cut = len(re.findall(r"assume\(false\);", src)) + len(re.findall(r"//@invassume", src))
    a.append(f"{cut} of {n} assume statements are the loop rule (assume the checked invariant / end of the iteration)")
    a.extend(unit.get("assumptions", ()))
    a.append("extraction (tools/cppdump, cxx2verus): containers are mathematical sequences, allocation never fails, "
             "views of const sequences are value snapshots, loops proved for partial correctness")
    return a


def write_evidence(pid, data):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", pid + ".json"), "w") as f:
        json.dump(data, f, indent=1)
        f.write("\n")


def main():
    pid = sys.argv[1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    tier = os.environ.get("VERIF_TIER", "quick")
    t0 = time.time()
    mod = importlib.import_module(pid)
    units = mod.UNITS if hasattr(mod, "UNITS") else [mod.UNIT]
    work = os.path.join(BUILD, "work", f"{pid}_{os.getpid()}")
    os.makedirs(work, exist_ok=True)
    try:
        return decide(pid, units, seed, tier, work, t0)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def decide(pid, units, seed, tier, work, t0):
    outs, failures, undecided = [], [], []
    for u in units:
        try:
            o = verify.verify_unit(u, REPO, work, log=lambda *a: None)
        except Unsupported as e:
            undecided.append(f"{u['id']}: not translatable: {e}")
            continue
        except verify.ExtractionError as e:
            undecided.append(f"{u['id']}: {e}")
            continue
        outs.append(o)
        if o["status"] == "failed":
            failures += [(u["id"],) + f for f in o["failures"]]
        elif o["status"] == "undecided":
            undecided.append(f"{u['id']}: solver gave up on " + ", ".join(o["resource"]))
        elif o["status"] == "error":
            undecided.append(f"{u['id']}: {o['reason']}")
        else:
            if o["unit"].get("_missing"):
                print("note: not found in the source, covered through their callers: " + ", ".join(o["unit"]["_missing"]))
            vac, err = verify.vacuity(u, o)
            if err:
                undecided.append(f"{u['id']}: vacuity run: {err}")
            elif vac:
                undecided.append(f"{u['id']}: contract of {', '.join(vac)} is vacuous")
    good = [o for o in outs if o["status"] == "proved"]
    cov = dict(obligations=0, discharged=0, functions_under_contract=[], functions_inlined=[], by_kind={},
               back_end="Verus 0.2026.09.13 / Z3", solver_ms=0, per_function_ms={}, dropped_candidates=0,
               checker_cmd=f"python3 tools/check.py {pid}", vacuity_probes=0)
    assume = []
    for o in outs:
        if "src" not in o:
            continue
        k = tagged(o["src"])
        nob = sum(k.values())
        nfail = len(o["failures"])
        cov["obligations"] += nob
        cov["discharged"] += nob - min(nob, nfail)
        for a, b in k.items():
            cov["by_kind"][a] = cov["by_kind"].get(a, 0) + b
        cov["solver_ms"] += o["smt_ms"]
        for a, b in o["times"].items():
            cov["per_function_ms"][a] = cov["per_function_ms"].get(a, 0) + b
        cov["functions_under_contract"] += sorted(o["gen"].by_contract[i] for i in o["gen"].order)
        cov["functions_inlined"] = sorted(set(cov["functions_inlined"]) | set(o["gen"].inlined))
        cov["vacuity_probes"] += len(o["gen"].order)
        cov["dropped_candidates"] += sum(len(v) for v in o["pruned"].values())
        for a in assumptions(o):
            if a not in assume:
                assume.append(a)
    cov["trusted_base"] = ["Verus and Z3", "clang 18 front end", "tools/cppdump.cpp, tools/cxx2verus.py, tools/cxxlib.py, "
                           "tools/vgen.py (extraction; standard library semantics)", "specs/prelude.rs"]
    ev = dict(property=pid, tier=tier, seed=seed, level="proof", coverage=cov, assumptions=assume)

    if not failures and not undecided:
        if cov["obligations"] == 0:
            print("no obligations were generated")
            return 2
        ev["wall_s"] = round(time.time() - t0, 2)
        write_evidence(pid, ev)
        print(f"{pid}: {cov['discharged']}/{cov['obligations']} obligations discharged, "
              f"{len(cov['functions_under_contract'])} functions under contract, {ev['wall_s']} s")
        return 0

    # the deciding step did not go through: look for a failing input on the real code
    for f in failures:
        print(f"failed obligation: {f[1]}: {f[2]}")
    for u in undecided:
        print("undecided: " + u)
    seconds = float(os.environ.get("VERIF_SEARCH_S", "60" if tier == "quick" else "240"))
    h = harness.run(pid, REPO, os.path.join(work, "search"), seed, seconds)
    replay_dir = os.path.join(BUILD, "replay")
    os.makedirs(replay_dir, exist_ok=True)
    replay = os.path.join(replay_dir, f"{pid}.txt")
    if h.get("found") is True or failures:
        with open(replay, "w") as f:
            f.write(f"property {pid}\n")
            if h.get("found"):
                f.write("failing input on the real code (search program harness/%s.cpp, seed %d):\n%s\n\n" % (pid, seed, h["text"]))
            else:
                f.write("no failing input found: %s\n\n" % (h.get("reason") or h.get("text", "").strip()))
            for x in failures:
                f.write(f"failed obligation in unit {x[0]}, function {x[1]}: {x[2]}\n  {x[3]}\n  {x[4]}\n")
            for u in undecided:
                f.write("undecided: " + u + "\n")
            for o in outs:
                if o["status"] != "proved":
                    f.write("\nverifier output:\n" + "\n".join(
                        json.loads(l).get("rendered", "") for l in o["raw"].split("\n") if l.startswith("{"))[:20000])
        ev["violations"] = 1
        ev["wall_s"] = round(time.time() - t0, 2)
        write_evidence(pid, ev)
        if h.get("found"):
            print(h["text"][:2000])
            print(f"VIOLATION property={pid} replay={replay}")
        else:
            print(f"VIOLATION property={pid} replay={replay} no-failing-input-found")
        return 1
    # nothing failed, but not everything was decided: bounded stand-in, never counted as proved
    if h.get("found") is None:
        print("no answer: " + str(h.get("reason")))
        return 2
    ev["level"] = "exploration"
    cov["bounded_stand_in"] = dict(reason=undecided, tried=h.get("tried"), seconds=seconds)
    ev["wall_s"] = round(time.time() - t0, 2)
    write_evidence(pid, ev)
    print(f"{pid}: bounded: {h.get('tried')} generated runs without a failure (the proof does not cover this tree: {'; '.join(undecided)})")
    return 0


if __name__ == "__main__":
    sys.exit(main())
