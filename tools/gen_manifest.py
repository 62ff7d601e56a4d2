#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from the properties and the harness's sources."""
import json, os, re, glob
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
src = "".join(open(f).read() for f in sorted(glob.glob(V + "/harness/*.go")))
have = set(re.findall(r'ID:\s+"(C\d\d)"', src))
NOTES = json.load(open(V + "/tools/notes.json"))
checks, na = [], []
for line in open(V + "/properties.jsonl"):
    p = json.loads(line)["id"]
    if p in have and p in NOTES:
        n = NOTES[p]
        checks.append({
            "property": p,
            "quick_cmd": f"./run.sh {p} quick",
            "thorough_cmd": f"./run.sh {p} thorough",
            "evidence_file": f"evidence/{p}.json",
            "technique": n[0],
            "level": "exploration",
            "level_note": n[1],
        })
    else:
        na.append({"property": p, "reason": "no monitor has been built for it yet"})
m = {
    "version": 1,
    "setup_cmd": "./run.sh setup",
    "hooks": {
        "guard": "Go build tag verif",
        "enable": "go build -tags verif (run.sh does so)",
        "source_commits": ["1bdeb84", "b2d4af4"],
    },
    "checks": checks,
    "not_applicable": na,
    "notes": "Every check builds /verif/harness against /repo's working tree and runs its workloads in worker processes watched by monitors. VERIF_SEED seeds every random choice; 'run.sh replay FILE' repeats a recorded violation.",
}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
open(V + "/MANIFEST.json", "a").write("\n")
print(len(checks), "checks,", len(na), "not claimed")
