#!/usr/bin/env python3-vt
"""Decides one property of sandfs on /repo's current tree.

 1. pyvc generates proof obligations from the current source for every function under contract
    that the property depends on, and discharges them with the SMT solver.
 2. The failing input for a failed obligation is searched for on the real code (rt), and functions
    whose obligations the verifier cannot decide get the same search as a bounded stand-in.

exit 0: every obligation is discharged, or undecided and covered by the bounded stand-in, and no
        failing input was found;  exit 1: a violation, with a VIOLATION line;  exit 2: the check broke.
"""
import argparse
import json
import os
import sys
import time

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True


def known(prop):
    out = []
    try:
        for ln in open(os.path.join(HERE, "known_findings.txt")):
            if ln.startswith("known: property=%s " % prop):
                out.append(ln.strip())
    except OSError:
        pass
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property", required=True)
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--seconds", type=float)
    ap.add_argument("--no-v", action="store_true")
    ap.add_argument("--no-r", action="store_true")
    a = ap.parse_args()
    prop, tier = a.property, a.tier
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    t0 = time.time()
    jobs = max(2, min(8, os.cpu_count() or 4))
    from pyvc import driver
    v = driver.verify(prop, tier, jobs) if not a.no_v else driver.empty(prop)
    failed = [o for f in v["functions"] for o in f["failed"]]
    undecided = [f["function"] for f in v["functions"] if f["status"] == "bounded"]
    from rt import run as R
    secs = a.seconds or (300.0 if tier == "thorough" else 40.0 if failed else 14.0 if undecided else 8.0)
    stats, fail, errors = ([], None, []) if a.no_r else R.explore(prop, seed, secs, jobs)
    os.makedirs(os.path.join(HERE, "out"), exist_ok=True)
    replay = os.path.join(HERE, "out", "replay_%s.json" % prop)
    verdict = 0
    if fail is not None:
        json.dump({"property": prop, "kind": fail["kind"], "case": fail["fail"], "msg": fail["msg"],
                   "failed_obligations": failed[:20],
                   "how": "cd /verif && python3-vt -m rt.run replay <this file>"}, open(replay, "w"), indent=1)
        verdict = 1
    elif failed:
        json.dump({"property": prop, "kind": None, "failed_obligations": failed,
                   "how": "cd /verif && python3-vt -m pyvc.driver --property %s" % prop}, open(replay, "w"), indent=1)
        verdict = 1
    level = driver.level(prop, v)
    ran = {k: {"cases": sum(s["cases"] for s in stats if s["kind"] == k),
               "distinct": sum(s["distinct"] for s in stats if s["kind"] == k)} for k in R.PLAN[prop]}
    cov = {
        "obligations": v["obligations"], "discharged": v["discharged"],
        "checker_cmd": "cd /verif && python3-vt -m pyvc.driver --property %s" % prop,
        "trusted_base": v["trusted_base"],
        "functions_under_contract": [{k: f[k] for k in ("function", "status", "obligations", "discharged", "reason",
                                                         "inlined", "solver_s")} for f in v["functions"]],
        "lemmas": v.get("lemmas", []), "supporting": v["supporting"],
        "proved_functions": sum(f["status"] == "proved" for f in v["functions"]),
        "bounded_functions": undecided,
        "solver_s": v["solver_s"], "backends": v["backends"],
        "evaluations": sum(s["cases"] for s in stats),
        "distinct_nontrivial": sum(s["distinct"] for s in stats),
        "rule": "bounded stand-in and counterexample search on the real code: random %s cases (seed %d, %.0f s on %d "
                "cores), each call compared with the executable contracts in rt/model.py; distinct = different "
                "operation sequence or case" % ("/".join(R.PLAN[prop]), seed, secs, jobs),
        "samples": [{"kind": s["kind"], "case": s["sample"]} for s in stats if s.get("sample") is not None][:2],
        "bounded_cases": ran,
        "explanation": v["explanation"],
    }
    ev = {"property": prop, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": level,
          "coverage": cov, "assumptions": v["assumptions"], "wall_s": round(time.time() - t0, 2),
          "violations": verdict}
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    with open(os.path.join(HERE, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1, default=str)
    for ln in known(prop):
        print("KNOWN-FINDING: " + ln[len("known: "):])
    print("%s: %d/%d obligations discharged in %d functions (%d proved, %d bounded), %d bounded cases, %.1f s" % (
        prop, v["discharged"], v["obligations"], len(v["functions"]), cov["proved_functions"], len(undecided),
        cov["evaluations"], time.time() - t0))
    for o in failed[:10]:
        print("  failed obligation: %s in %s" % (o["name"], o["function"]))
    if fail is not None:
        print("  failing input (%s): %s" % (fail["kind"], str(fail["msg"])[:400]))
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        return 1
    if failed:
        print("VIOLATION property=%s replay=%s no-failing-input-found" % (prop, replay))
        return 1
    if errors:
        print("check error: %s" % errors[0], file=sys.stderr)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
