"""addknown.py PROP KEYREGEX: append the last run's violations whose key matches
to known_findings.jsonl (used by hand, after the finding was confirmed)."""
import glob
import json
import re
import sys

pid, rx = sys.argv[1:3]
have = {(d["property"], d["key"]) for d in map(json.loads, (l for l in open("/verif/known_findings.jsonl") if l.startswith("{"))) if d["status"] == "known"}
for p in sorted(glob.glob(f"/verif/evidence/replay/{pid}_*.json")):
    d = json.load(open(p))
    if re.search(rx, d["key"]) and (pid, d["key"]) not in have:
        have.add((pid, d["key"]))
        what = d["what"]
        if len(sys.argv) > 3:
            what = sys.argv[3].replace("%", what)
        with open("/verif/known_findings.jsonl", "a") as f:
            f.write(json.dumps({"property": pid, "status": "known", "key": d["key"], "what": what[:300]}) + "\n")
        print(d["key"])
