#!/usr/bin/env python3
"""Writes MANIFEST.json from the check modules present in harness/checks."""
import glob, json, os, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(V + "/properties.jsonl")]
NA = {"C28": "the scripts need cv2 and matplotlib, neither of which is installed or can be fetched here, so they cannot be executed at all"}
checks, na = [], []
for p in props:
    i = p["id"]
    f = "%s/harness/checks/%s.py" % (V, i.lower())
    if i in NA:
        na.append({"property": i, "reason": NA[i]})
    elif os.path.exists(f):
        s = open(f).read()
        t = re.search(r'^TECHNIQUE = "(.*)"', s, re.M)
        n = re.search(r'^LEVEL_NOTE = "(.*)"', s, re.M)
        checks.append({"property": i, "quick_cmd": "./check.sh %s --tier quick" % i,
                       "thorough_cmd": "./check.sh %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": t.group(1) if t else "property-based testing: generated inputs against an explicit oracle",
                       "level": "exploration",
                       "level_note": n.group(1) if n else "generated-input search; counts, classes and samples in the evidence file"})
    else:
        na.append({"property": i, "reason": "check not built yet"})
json.dump({"version": 1, "setup_cmd": "./setup.sh", "checks": checks, "not_applicable": na}, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
