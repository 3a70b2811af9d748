#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os

MC = "explicit-state exploration of merge histories on the real binary against an executable reference model, every trace replayed on the implementation"
EX = "exhaustive bounded exploration of the real binary against an executable reference model"
C = {}


def c(id, level, technique, note):
    C[id] = (level, technique, note)


exec(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), "claims.py")).read())

root = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(root, "properties.jsonl"))]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in C:
        level, technique, note = C[i]
        checks.append({"property": i, "quick_cmd": f"./check.sh {i} quick", "thorough_cmd": f"./check.sh {i} thorough",
                       "evidence_file": f"evidence/{i}.json", "technique": technique, "level": level, "level_note": " ".join(note.split())})
    else:
        na.append({"property": i, "reason": NA.get(i, "check under construction: model checking applies, the explorer for it is not finished yet")})
m = {
    "version": 1,
    "setup_cmd": "./setup.sh",
    "hooks": {"guard": "cfg(accountmerge_verif)",
              "enable": "cargo rustc --bin accountmerge -- --cfg accountmerge_verif (build.sh), and the environment variable ACCOUNTMERGE_VERIF_SOCK at run time",
              "source_commits": ["df5c11fc06"]},
    "checks": checks,
    "not_applicable": na,
    "notes": "All checks: check.sh <property> <tier>; one explorer (mc/, Rust without dependencies) drives the real binary built from /repo's working tree, "
             "many command lines per process through the guarded serve mode; a violation only counts once fresh processes without serve mode show it too. See DESIGN.md.",
}
import subprocess
full = subprocess.run(["git", "-C", "/repo", "rev-list", "--all", "--grep", "cfg-guarded serve mode"], capture_output=True, text=True).stdout.split()
if full:
    m["hooks"]["source_commits"] = full
with open(os.path.join(root, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
