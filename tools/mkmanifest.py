"""Writes MANIFEST.json from checks/ and properties.jsonl."""
import json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
TECH = json.load(open(V + "/tools/techniques.json"))
checks = []; na = []
for p in props:
    i = p["id"]
    f = "checks/%s.py" % i.lower()
    if os.path.exists(os.path.join(V, f)) and i in TECH:
        t = TECH[i]
        checks.append({"property": i, "quick_cmd": "python3 " + f, "thorough_cmd": "python3 %s --tier thorough" % f,
                       "evidence_file": "evidence/%s.json" % i, "technique": t["technique"], "level": "exploration",
                       "level_note": t["note"]})
    else:
        na.append({"property": i, "reason": TECH.get(i, {}).get("na", "no check yet: the generator and oracle for it are not built")})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
