#!/usr/bin/env python3
"""Writes MANIFEST.json from the registered checks."""
import json, os, subprocess, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V + "/lib")
import registry

props = [json.loads(l) for l in open(V + "/properties.jsonl")]
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^hook:"], stdout=subprocess.PIPE,
                      universal_newlines=True).stdout.split()
m = {"version": 1,
     "setup_cmd": "python3 setup_check.py",
     "hooks": {"guard": "XAD_VERIF_CHUNK_SIZE",
               "enable": "-DXAD_VERIF_CHUNK_SIZE=n: tape containers use blocks of n elements",
               "source_commits": hook},
     "checks": [], "not_applicable": []}
for p in props:
    pid = p["id"]
    if pid in registry.CHECKS:
        tech, note = registry.NOTES[pid]
        m["checks"].append({"property": pid, "quick_cmd": "VERIF_TIER=quick python3 check.py " + pid,
                            "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + pid,
                            "evidence_file": "evidence/%s.json" % pid, "technique": tech,
                            "level": "model_checking", "level_note": note})
    else:
        m["not_applicable"].append({"property": pid, "reason": registry.NOT_APPLICABLE.get(pid, "check not finished yet")})
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
