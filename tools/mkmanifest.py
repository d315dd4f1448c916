"""Writes MANIFEST.json: every property with a check in checks/ is claimed, the rest are listed as not yet built."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(V, "tools", "notes.json")))
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    f = "checks/%s.py" % i.lower()
    if os.path.exists(os.path.join(V, f)) and i in NOTES:
        t, n = NOTES[i]
        checks.append({"property": i, "quick_cmd": "python3 %s --quick" % f, "thorough_cmd": "python3 %s --thorough" % f,
                       "evidence_file": "evidence/%s.json" % i, "technique": t, "level": "model_checking", "level_note": n})
    else:
        na.append({"property": i, "reason": "no check built yet"})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks}
if na or True:
    m["not_applicable"] = na
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "claimed;", len(na), "not claimed")
