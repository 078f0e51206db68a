"""Builds /verif/seeded/<id>/ from the list in tools/seeds.py and confirms each one in a scratch copy:
applies, changes only original lines, stable tests pass, demo passes without and fails with the patch."""
import difflib
import json
import os
import shutil
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
from seeds import SEEDS  # noqa: E402

BASE = "b74cc97"
SEED = os.path.join(os.path.dirname(HERE), "seeded")
DEMO_SH = '#!/bin/sh\nexec python3 -B "$(dirname "$0")/demo.py"\n'
PRE = "import os, sys\nsys.dont_write_bytecode = True\nsys.path.insert(0, os.getcwd())\n"


def sh(cmd, cwd):
    return subprocess.run(cmd, shell=True, cwd=cwd, capture_output=True, text=True)


def main(ids):
    ok = True
    for s in SEEDS:
        if ids and s["id"] not in ids:
            continue
        d = os.path.join(SEED, s["id"])
        os.makedirs(d, exist_ok=True)
        scratch = "/tmp/seedscratch"
        shutil.rmtree(scratch, ignore_errors=True)
        shutil.copytree("/repo", scratch, symlinks=True)
        for f, old, new in s["edits"]:
            p = os.path.join(scratch, f)
            t = open(p).read()
            assert t.count(old) == 1, (s["id"], f, t.count(old), old)
            open(p, "w").write(t.replace(old, new))
        diff = sh("git diff", scratch).stdout
        open(os.path.join(d, "patch.diff"), "w").write(diff)
        open(os.path.join(d, "demo.py"), "w").write(PRE + s["demo"])
        open(os.path.join(d, "demo.sh"), "w").write(DEMO_SH)
        os.chmod(os.path.join(d, "demo.sh"), 0o755)
        json.dump({k: s[k] for k in ("property", "needs", "what_it_breaks")},
                  open(os.path.join(d, "meta.json"), "w"), indent=1)
        # removed lines must be original
        orig = set()
        for f, _, _ in s["edits"]:
            orig |= set(sh("git show %s:%s" % (BASE, f), "/repo").stdout.split("\n"))
        rem = [l[1:] for l in diff.split("\n") if l.startswith("-") and not l.startswith("---")]
        notorig = [l for l in rem if l not in orig]
        a = sh("sh %s/demo.sh" % d, "/repo")
        b = sh("sh %s/demo.sh" % d, scratch)
        t = sh("PYTHONPATH=. PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -m pytest -q -x -p no:cacheprovider 2>&1 | tail -3", scratch)
        good = a.returncode == 0 and b.returncode != 0 and " passed" in t.stdout and "failed" not in t.stdout \
            and not (rem and len(notorig) == len(rem))
        print(s["id"], s["property"], "ok" if good else "BAD", "" if good else (a.returncode, a.stderr[-300:], b.returncode, t.stdout, notorig))
        ok &= good
        shutil.rmtree(scratch, ignore_errors=True)
    return 0 if ok else 1


sys.exit(main(sys.argv[1:]))
