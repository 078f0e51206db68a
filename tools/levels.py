"""Writes tools/levels.json from the evidence of the last run of every check (unchanged tree)."""
import glob, json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
out = {}
for f in sorted(glob.glob(H + "/evidence/C*.json")):
    e = json.load(open(f))
    fs = e["coverage"]["functions_under_contract"]
    short = lambda n: n.split(".")[-1] if not n.startswith("VirtualNode") else n
    pr = [short(x["function"]) for x in fs if x["status"] == "proved"]
    bd = [short(x["function"]) for x in fs if x["status"] == "bounded"]
    note = ""
    if pr:
        note += "all obligations discharged by z3 for: %s. " % ", ".join(pr)
    if bd:
        note += "Bounded stand-in only (random cases on the real code against executable contracts, not proved): %s." % ", ".join(bd)
    out[e["property"]] = [e["level"], note.strip()]
json.dump(out, open(H + "/tools/levels.json", "w"), indent=1)
