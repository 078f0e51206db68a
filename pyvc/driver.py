"""Verifies the contracts one property depends on, function by function, from /repo's current source."""
import argparse
import collections
import concurrent.futures as cf
import json
import multiprocessing as mp
import os
import signal
import sys
import time
import traceback

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
QUICK = dict(query=8000, task=100)
THOROUGH = dict(query=40000, task=600)
BACKEND = "z3 (SMT: quantified arrays and uninterpreted functions, e-matching)"


def empty(prop):
    return {"functions": [], "obligations": 0, "discharged": 0, "trusted_base": [], "solver_s": 0.0, "backends": {},
            "assumptions": [], "explanation": "verifier switched off", "supporting": []}


class Alarm(Exception):
    pass


def _alarm(*a):
    raise Alarm()


_prog = None


def decide(L, o, lim):
    r, s = L.valid(o["hyps"], o["goal"], lim["query"])
    d = {"name": o["name"], "props": list(o["props"]), "r": r, "imprecise": bool(o["imprecise"])}
    if r != "unsat":
        d["goal"] = str(o["goal"])[:1500]
        d["path"] = [str(h)[:300] for h in o["hyps"] if not L.z3.is_quantifier(h)][-12:]
        if r == "sat":
            try:
                d["model"] = {str(v): str(s.model()[v])[:80] for v in s.model().decls() if str(v).startswith("arg_")}
            except Exception:
                pass
    return d


def run_task(q, alt, inline, lim):
    """Verifies one function for one combination of argument kinds; a plain dict."""
    global _prog
    from . import logic as L, source, specs, contract, engine
    t0 = time.time()
    out = {"q": q, "alt": alt, "obls": [], "used": [], "inlined": [], "assumed": [], "reason": None, "uncovered": [],
           "covered": [], "outcomes": 0}
    L.STATS.queries, L.STATS.time = 0, 0.0
    old = signal.signal(signal.SIGALRM, _alarm)
    signal.alarm(int(lim["task"]))
    try:
        if _prog is None:
            _prog = source.Program()
        e = contract.verify_function(_prog, specs.C, q, alt, inline)
        out["used"], out["inlined"] = sorted(e.used), sorted(e.inlined)
        out["assumed"], out["covered"], out["outcomes"] = sorted(e.assumed), sorted(e.covered), e.nouts
        out["obls"] += [decide(L, o, lim) for o in e.obls]
        bad = [o for o in out["obls"] if o["r"] != "unsat"]
        if bad and not any(o["r"] == "sat" and not o["imprecise"] for o in bad):
            # obligations after a loop: look for a path that takes few iterations and fails exactly
            try:
                e = contract.verify_function(_prog, specs.C, q, alt, inline, unroll=2)
                names = {o["name"] for o in bad}
                for o in e.obls:
                    if o["name"] in names and not o["imprecise"]:
                        d = decide(L, o, lim)
                        if d["r"] == "sat":
                            out["obls"].append(dict(d, unrolled=True))
                            break
            except (engine.Unsupported, engine.NotSummarisable):
                pass
    except Alarm:
        if not any(o["r"] == "sat" and not o["imprecise"] for o in out["obls"]):
            out["reason"] = "time limit of %d s" % lim["task"]
    except RecursionError:
        out["reason"] = "nesting too deep"
    except (engine.Unsupported, engine.NotSummarisable) as ex:
        out["reason"] = "outside the verifier's subset: %s" % ex
    except Exception as ex:
        tb = traceback.extract_tb(ex.__traceback__)[-1]
        out["reason"] = "outside the verifier's reach: %s (%s:%s)" % (ex, os.path.basename(tb.filename), tb.lineno)
    finally:
        signal.alarm(0)
        signal.signal(signal.SIGALRM, old)
    out["solver_s"], out["queries"], out["wall"] = L.STATS.time, L.STATS.queries, time.time() - t0
    return out


def private(q):
    return q.split(".")[-1].split(":")[-1].startswith("_")


class Result:
    """All tasks of one function."""

    def __init__(self, q, c, tasks):
        self.q, self.c = q, c
        self.obls = [o for t in tasks for o in t["obls"]]
        self.used = sorted({u for t in tasks for u in t["used"]})
        self.inlined = sorted({u for t in tasks for u in t["inlined"]})
        self.assumed = sorted({u for t in tasks for u in t["assumed"]})
        self.reason = next((t["reason"] for t in tasks if t["reason"]), None)
        self.solver_s = sum(t["solver_s"] for t in tasks)
        self.queries = sum(t["queries"] for t in tasks)
        cov = {n for t in tasks for n in t["covered"]}
        want = [n for n, _ in c.covers] if c.covers else ["normal return"]
        if not self.reason and any(n not in cov for n in want) and not c.noreturn:
            self.reason = "situation never reached: %s" % ", ".join(n for n in want if n not in cov)

    def mine(self, prop):
        return [o for o in self.obls if prop in o["props"] or "*" in o["props"]]

    def proved(self, prop=None):
        obs = self.obls if prop is None else self.mine(prop)
        return self.reason is None and all(o["r"] == "unsat" for o in obs)

    def failed(self, prop):
        """Obligations of this property that fail on a path executed exactly."""
        return [o for o in self.obls if prop in o["props"] and o["r"] == "sat" and not o["imprecise"]]


def verify(prop, tier="quick", jobs=8):
    from . import specs
    from .contract import alternatives
    lim = THOROUGH if tier == "thorough" else QUICK
    C = specs.C
    t0 = time.time()
    fns = [q for q, c in C.items() if not c.trusted and prop in c.clause_props()]
    try:
        closure = json.load(open(os.path.join(HERE, "pyvc", "closure.json")))
    except OSError:
        closure = {}
    alts = {}

    def nalt(q):
        if q not in alts:
            alts[q] = alternatives(C, q)
        return alts[q]
    done = {}
    wall = {}
    try:
        cost = json.load(open(os.path.join(HERE, "pyvc", "cost.json")))
    except OSError:
        cost = {}
    with cf.ProcessPoolExecutor(jobs, mp_context=mp.get_context("fork")) as ex:
        def batch(items):
            """items: [(q, inline)]"""
            futs = collections.defaultdict(list)
            items = sorted(items, key=lambda it: -cost.get(it[0], 1.0))
            for q, inl in items:
                for a in range(nalt(q)):
                    futs[q, inl].append(ex.submit(run_task, q, a, inl, lim))
            for (q, inl), fs in futs.items():
                tasks = [f.result() for f in fs]
                wall[q] = max(t["wall"] for t in tasks)
                done[q] = Result(q, C[q], tasks)
        # everything the property's functions rest on
        todo, seen = list(fns), set()
        first = set(fns)
        stack = list(fns)
        while stack:
            q = stack.pop()
            for u in closure.get(q, ()):
                if u in C and not C[u].trusted and u not in first:
                    first.add(u)
                    stack.append(u)
        batch([(q, ()) for q in first])
        while True:
            more = {u for r in done.values() for u in r.used if not C[u].trusted} - set(done)
            if not more:
                break
            batch([(q, ()) for q in more])
        # contracts that do not hold are not used: their callers are verified with the real bodies in place
        inl_of = {}
        for _ in range(4):
            broken = {q for q, r in done.items() if not r.proved()}
            again = []
            for q, r in list(done.items()):
                bad = tuple(sorted(set(inl_of.get(q, ())) | (set(r.used) & broken) - {q}))
                if bad and bad != inl_of.get(q, ()):
                    inl_of[q] = bad
                    again.append((q, bad))
            if not again:
                break
            batch(again)
            while True:
                more = {u for r in done.values() for u in r.used if not C[u].trusted} - set(done)
                if not more:
                    break
                batch([(q, ()) for q in more])
    # a private helper whose contract does not hold matters only through its callers
    callers = collections.defaultdict(set)
    for q, r in done.items():
        for u in list(r.used) + list(inl_of.get(q, ())):
            callers[u].add(q)

    def settled(q, seen=()):
        """Holds for q, or q is a private helper and the property holds in every caller with q's body in place."""
        if done[q].proved(prop):
            return True
        cs = callers[q] - {q}
        return private(q) and bool(cs) and q not in seen and not (C[q].entry and done[q].failed(prop)) and all(
            settled(c, seen + (q,)) for c in cs)
    v = {"functions": [], "supporting": [], "obligations": 0, "discharged": 0, "solver_s": 0.0, "queries": 0}
    base, assumed = set(), set()
    for q in sorted(done, key=lambda q: (q not in fns, q)):
        r = done[q]
        mine = r.mine(prop)
        ok = sum(o["r"] == "unsat" for o in mine)
        v["solver_s"] += r.solver_s
        v["queries"] += r.queries
        assumed |= set(r.assumed)
        base |= {u for u in r.used if C[u].trusted}
        if q in fns:
            if private(q) and not r.proved(prop) and callers[q] - {q} and (settled(q) or not r.failed(prop)):
                v["supporting"].append({"function": q, "status": "contract not used; body verified inside its callers",
                                        "reason": r.reason})
                continue
            fl = [dict(o, function=q) for o in r.failed(prop)]
            st = "proved" if r.proved(prop) else "failed" if fl else "bounded"
            und = [o["name"] for o in mine if o["r"] != "unsat"]
            v["functions"].append({"function": q, "status": st, "obligations": len(mine), "discharged": ok, "failed": fl,
                                   "reason": r.reason or ("undecided: " + "; ".join(und[:4]) if und and not fl else None),
                                   "inlined": r.inlined, "solver_s": round(r.solver_s, 2)})
            v["obligations"] += len(mine)
            v["discharged"] += ok
        else:
            v["supporting"].append({"function": q, "status": "proved" if r.proved() else "not proved",
                                    "obligations": len(r.obls), "discharged": sum(o["r"] == "unsat" for o in r.obls),
                                    "reason": r.reason})
    for q in specs.DEPENDS[prop]:
        if q not in fns:
            users = [f for f in v["functions"] if q in f["inlined"]]
            if users and all(f["status"] == "proved" for f in users):
                v["functions"].append({"function": q, "status": "proved", "obligations": 0, "discharged": 0, "failed": [],
                                       "reason": "its body is executed at every call in " + ", ".join(f["function"] for f in users),
                                       "inlined": [], "solver_s": 0.0})
                continue
            why = "no contract for this property is discharged for it"
            v["functions"].append({"function": q, "status": "bounded", "obligations": 0, "discharged": 0, "failed": [],
                                   "reason": why, "inlined": [], "solver_s": 0.0})
    v["solver_s"] = round(v["solver_s"], 2)
    v["backends"] = {BACKEND: v["discharged"]}
    v["wall_s"] = round(time.time() - t0, 2)
    v["trusted_base"] = specs.TRUSTED + ["assumed contract: %s (%s)" % (q, C[q].trusted) for q in sorted(base)]
    v["assumptions"] = sorted(assumed) + specs.ASSUMPTIONS
    from . import lemmas
    lem = lemmas.report()
    if lem["failed"]:
        raise RuntimeError("lemmas not proved: %s" % lem["failed"][:5])
    v["lemmas"] = [{k: lem[k] for k in ("definitions", "lemmas", "axioms_checked", "seconds")}]
    v["assumptions"] += ["strings and PurePosixPath: " + a for a in lem["assumed"]]
    nb = [f["function"] for f in v["functions"] if f["status"] == "bounded"]
    v["explanation"] = (
        "Each function listed as proved was executed symbolically from its current source with callers checked against "
        "the contracts of the functions they call; every obligation tagged with this property was discharged for all "
        "inputs and all iterations. supporting lists the contracts these proofs rest on, verified in the same run. "
        + ("Decided only within the bounds of the random cases on the real code: %s." % ", ".join(nb) if nb else
           "No function this property depends on was left to the bounded check."))
    v["wall"] = wall
    v["used"] = {q: r.used for q, r in done.items()}
    return v


def level(prop, v):
    fs = v["functions"]
    return "proof" if fs and all(f["status"] == "proved" for f in fs) else "other" if any(
        f["status"] == "proved" for f in fs) else "exploration"


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--property")
    ap.add_argument("--tier", default="quick")
    ap.add_argument("--record", action="store_true", help="rewrite closure.json and cost.json")
    a = ap.parse_args()
    from . import specs
    props = [a.property] if a.property else sorted({p for c in specs.C.values() for p in c.clause_props()} - {"*"})
    clo, cost = {}, {}
    for p in props:
        v = verify(p, a.tier, min(8, os.cpu_count() or 4))
        clo.update(v["used"])
        for q, w in v["wall"].items():
            cost[q] = round(w, 1)
        print("%s: %s, %d/%d obligations, %.1f s" % (p, level(p, v), v["discharged"], v["obligations"], v["wall_s"]))
        for f in v["functions"]:
            if f["status"] != "proved":
                print("   %s %s %s" % (f["status"], f["function"], (f["reason"] or "")[:150]))
                for o in f["failed"][:5]:
                    print("      failed: " + o["name"][:150])
        for f in v["supporting"]:
            if f["status"] != "proved":
                print("   supporting: %s %s %s" % (f["function"], f["status"], (f["reason"] or "")[:120]))
        sys.stdout.flush()
    if a.record:
        json.dump({k: sorted(x) for k, x in sorted(clo.items())}, open(os.path.join(HERE, "pyvc", "closure.json"), "w"), indent=0)
        json.dump(dict(sorted(cost.items())), open(os.path.join(HERE, "pyvc", "cost.json"), "w"), indent=0)
    return 0


if __name__ == "__main__":
    sys.exit(main())
