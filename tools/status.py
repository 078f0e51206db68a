"""Fills the generated parts of DESIGN.md: status per property (from evidence) and catches (from tools/catches.json)."""
import glob, json, os, re
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = ["| property | level | proved functions (obligations) | bounded stand-in only |", "|---|---|---|---|"]
for f in sorted(glob.glob(H + "/evidence/C*.json")):
    e = json.load(open(f))
    fs = e["coverage"]["functions_under_contract"]
    short = lambda n: n.split(".")[-1] if not n.startswith(("Virtual", "Sandbox")) or n.count(".") == 1 and n.startswith(("VirtualFileSystem", "SandboxShell")) else n
    pr = [short(x["function"]) for x in fs if x["status"] == "proved"]
    bd = [short(x["function"]) for x in fs if x["status"] != "proved"]
    rows.append("| %s | %s | %s (%d) | %s |" % (e["property"], e["level"], ", ".join(pr) or "-", e["coverage"]["discharged"], ", ".join(bd) or "-"))
t = open(H + "/DESIGN.md").read()
t = re.sub(r"<!-- status -->.*?<!-- /status -->", lambda m: "<!-- status -->\n" + "\n".join(rows) + "\n<!-- /status -->", t, flags=re.S)
try:
    cs = json.load(open(H + "/tools/catches.json"))
    rows = ["| seed | property | caught by | what it breaks |", "|---|---|---|---|"]
    for s, c in sorted(cs.items()):
        m = json.load(open("%s/seeded/%s/meta.json" % (H, s)))
        rows.append("| %s | %s | %s | %s |" % (s, m["property"], c, m["what_it_breaks"]))
    t = re.sub(r"<!-- catches -->.*?<!-- /catches -->", lambda m: "<!-- catches -->\n" + "\n".join(rows) + "\n<!-- /catches -->", t, flags=re.S)
except OSError:
    pass
open(H + "/DESIGN.md", "w").write(t)
