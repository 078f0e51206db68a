import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
LEVEL = json.load(open(H + "/tools/levels.json"))
T = ("contract-based deductive verification: verification conditions generated from /repo's current Python source "
     "(pyvc) and discharged by z3, with an executable-contract bounded check of the real code for the functions "
     "outside the verifier's reach and for replaying counterexamples")
out = {"version": 1, "setup_cmd": "true", "checks": [], "not_applicable": []}
for p in props:
    lv, note = LEVEL.get(p["id"], ["exploration", "bounded stand-in"])
    out["checks"].append({"property": p["id"], "quick_cmd": "cd /verif && python3-vt check.py --property %s --tier quick" % p["id"],
                          "thorough_cmd": "cd /verif && python3-vt check.py --property %s --tier thorough" % p["id"],
                          "technique": T, "level": lv, "level_note": note})
json.dump(out, open(H + "/MANIFEST.json", "w"), indent=1)
