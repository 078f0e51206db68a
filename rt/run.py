"""Runs the bounded cross-checks of one property and reports the first violation found."""
import json
import multiprocessing as mp
import os
import random
import signal
import sys
import time
import traceback

from . import diff as D
from . import gen as G
from . import cases as C
from . import shcases as S

# property -> list of (name, generator, runner, properties the runner speaks for)
KINDS = {
    "view": (C.gen_view, C.run_view, {"C08"}),
    "adapter": (C.gen_adapter, C.run_adapter, {"C12"}),
    "confine": (C.gen_confine, C.run_confine, {"C13"}),
    "python": (C.gen_python, C.run_python, {"C20"}),
    "dynamic": (C.gen_dynamic, C.run_dynamic, {"C21"}),
    "visible": (S.gen_visible, S.run_visible, None),
    "grep": (S.gen_grep, S.run_grep, None),
    "allow": (S.gen_allow, S.run_allow, None),
    "limit": (S.gen_limit, S.run_limit, None),
    "pipeline": (S.gen_pipeline, S.run_pipeline, None),
    "soup": (S.gen_soup, S.run_soup, None),
}
PLAN = {
    "C01": ["history"], "C02": ["history"], "C03": ["history"], "C04": ["history"], "C05": ["history"],
    "C06": ["history", "visible", "grep"], "C07": ["visible", "grep", "history"], "C08": ["view", "history"],
    "C09": ["history"], "C10": ["history"], "C11": ["history"], "C12": ["adapter"], "C13": ["confine"],
    "C14": ["history"], "C15": ["history", "grep"], "C16": ["allow"], "C17": ["limit", "soup"],
    "C18": ["pipeline", "soup"], "C19": ["history"], "C20": ["python"], "C21": ["dynamic", "history"],
}


def run_case(kind, case, prop):
    """None or a message if the case violates prop."""
    if kind == "history":
        try:
            D.replay(case)
        except D.Mismatch as mm:
            return mm.msg if prop in mm.props else None
        return None
    _, run, props = KINDS[kind]
    D.arm()
    try:
        r = run(case)
    except D.Hang:
        return "the call does not come back"
    finally:
        D.disarm()
    if r is None:
        return None
    if isinstance(r, tuple):
        return r[1] if prop in r[0] else None
    return r if prop in props else None


def drop_privileges():
    """An escaping call of the code under test must not be able to reach anything real."""
    if os.geteuid() == 0:
        os.setgroups([])
        os.setgid(65534)
        os.setuid(65534)
    os.environ["HOME"] = "/tmp"


def worker(prop, kind, seed, seconds, consts, q):
    try:
        drop_privileges()
        S.guard_host()
        rng = random.Random("%s/%s/%s" % (prop, kind, seed))
        t0 = time.time()
        n = ops = other = 0
        sample, sigs = None, set()
        if kind == "history":
            r = G.search(prop, seed, seconds, consts)
            q.put({"kind": kind, "cases": r["histories"], "ops": r["ops"], "distinct": r["distinct"],
                   "sample": r["sample"], "fail": r["fail"], "msg": r.get("msg"), "other": r["other"]})
            return
        gen = KINDS[kind][0]
        fail = msg = None
        while time.time() - t0 < seconds:
            case = gen(rng, consts)
            n += 1
            if n <= 200000:
                sigs.add(hash(json.dumps(case, sort_keys=True, default=str)))
            if sample is None:
                sample = case
            m = run_case(kind, case, prop)
            if m is not None:
                fail, msg = case, m
                break
        q.put({"kind": kind, "cases": n, "ops": n, "distinct": len(sigs), "sample": sample,
               "fail": fail, "msg": msg, "other": other})
    except BaseException:
        q.put({"kind": kind, "error": traceback.format_exc()})


def explore(prop, seed, seconds, jobs):
    """Returns (stats, failure or None, harness errors)."""
    consts = G.mined(D.REPO)
    kinds = PLAN[prop]
    ctx = mp.get_context("fork")
    q = ctx.Queue()
    procs = []
    for i in range(jobs):
        kind = kinds[i % len(kinds)]
        p = ctx.Process(target=worker, args=(prop, kind, seed * 1000 + i, seconds, consts, q))
        p.start()
        procs.append(p)
    out, errors = [], []
    deadline = time.time() + seconds + 60
    fail = None
    for _ in procs:
        try:
            r = q.get(timeout=max(1, deadline - time.time()))
        except Exception:
            errors.append("a worker did not report in time")
            break
        if "error" in r:
            errors.append(r["error"])
            continue
        out.append(r)
        if r["fail"] is not None and fail is None:
            fail = r
            break
    for p in procs:
        if p.is_alive() and (fail or errors):
            p.terminate()
        p.join(5)
        if p.is_alive():
            p.kill()
    return out, fail, errors


if __name__ == "__main__":      # python3-vt -m rt.run replay FILE
    d = json.load(open(sys.argv[2]))
    pid = os.fork()
    if pid == 0:
        drop_privileges()
        S.guard_host()
        m = run_case(d["kind"], d["case"], d["property"])
        if m:
            print("VIOLATED %s: %s" % (d["property"], m))
        else:
            print("holds")
        sys.stdout.flush()
        os._exit(1 if m else 0)
    _, st = os.waitpid(pid, 0)
    sys.exit(os.waitstatus_to_exitcode(st))
