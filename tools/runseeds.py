"""Applies each planted bug to /repo in turn, runs its property's quick check, undoes it."""
import json, os, subprocess, sys, time
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ids = [a for a in sys.argv[1:] if not a.startswith("-")]
extra = [a for a in sys.argv[1:] if a.startswith("-")]
for s in sorted(os.listdir(H + "/seeded")):
    if ids and s not in ids:
        continue
    d = "%s/seeded/%s" % (H, s)
    prop = json.load(open(d + "/meta.json"))["property"]
    assert not subprocess.run("git -C /repo status --porcelain", shell=True, capture_output=True, text=True).stdout
    subprocess.run("git -C /repo apply %s/patch.diff" % d, shell=True, check=True)
    t = time.time()
    try:
        r = subprocess.run("python3-vt check.py --property %s %s" % (prop, " ".join(extra)), shell=True, cwd=H, capture_output=True, text=True)
    finally:
        subprocess.run("git -C /repo checkout -- .", shell=True, check=True)
    viol = [l for l in r.stdout.split("\n") if l.startswith("VIOLATION")]
    print(s, prop, "rc=%d" % r.returncode, "%.0fs" % (time.time() - t), viol[0] if viol else "MISSED", flush=True)
    for l in r.stdout.split("\n"):
        if "failed obligation" in l or "failing input" in l:
            print("    " + l.strip()[:150])
