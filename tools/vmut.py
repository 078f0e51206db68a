"""Self-test of the verifier: broken bodies must fail an obligation, neutral rewrites must keep every proof.
usage: vmut.py [function substring]   (works on a scratch copy of /repo/sandfs)"""
import os, shutil, sys, tempfile, time
from concurrent.futures import ProcessPoolExecutor
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from tools.vmutants import BROKEN, NEUTRAL


def run(kind, q, f, old, new):
    from pyvc import logic as L, source, specs, contract
    top = tempfile.mkdtemp(prefix="vmut")
    try:
        shutil.copytree("/repo/sandfs", top + "/sandfs", ignore=shutil.ignore_patterns("__pycache__"))
        p = "%s/sandfs/%s.py" % (top, f)
        s = open(p).read()
        if s.count(old) < 1:
            return kind, q, old, "NO SUCH TEXT", 0
        open(p, "w").write(s.replace(old, new, 1))
        t = time.time()
        from pyvc import driver
        driver._prog = source.Program(top)
        from pyvc.contract import alternatives
        bad = []
        for alt in range(alternatives(specs.C, q)):
            r = driver.run_task(q, alt, (), dict(query=8000, task=240))
            if r["reason"]:
                bad.append(("unknown", True, r["reason"]))
            bad += [(o["r"], o["imprecise"], o["name"]) for o in r["obls"] if o["r"] != "unsat"]
        sat = [b for b in bad if b[0] == "sat" and not b[1]]
        return kind, q, old, ("FAILS " + sat[0][2] if sat else "undecided " + bad[0][2] if bad else "proved"), time.time() - t
    finally:
        shutil.rmtree(top)


if __name__ == "__main__":
    want = sys.argv[1] if len(sys.argv) > 1 else ""
    todo = [("broken",) + m for m in BROKEN if want in m[0]] + [("neutral",) + m for m in NEUTRAL if want in m[0]]
    ok = True
    with ProcessPoolExecutor(6) as ex:
        for kind, q, old, r, t in ex.map(run, *zip(*todo)):
            good = r.startswith("FAILS") if kind == "broken" else r == "proved"
            ok &= good
            print("%s %-7s %-40s %-50r -> %s (%.0f s)" % ("ok " if good else "-- ", kind, q, old.strip()[:48], r[:110], t), flush=True)
    sys.exit(0 if ok else 1)
