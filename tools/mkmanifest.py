#!/usr/bin/env python3
"""Writes MANIFEST.json from vlib/checks.py and properties.jsonl."""
import json, os, sys

top = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, top)
from vlib.checks import CHECKS, LEVEL_NOTES, TECHNIQUES, NOT_APPLICABLE

props = [json.loads(l) for l in open(os.path.join(top, "properties.jsonl"))]
m = {
    "version": 1,
    "setup_cmd": "python3 tools/setup.py",
    "hooks": {"guard": "CAPI_VERIF_HOOKS (reserved; no hook in /repo was needed)",
              "enable": "none needed: the checks compile /repo's sources with sanitizers or with own runtimes for OpenMP and memory-access callbacks",
              "source_commits": []},
    "checks": [], "not_applicable": [],
}
for p in props:
    i = p["id"]
    if i in CHECKS:
        m["checks"].append({"property": i, "quick_cmd": "python3 check.py " + i, "thorough_cmd": "VERIF_TIER=thorough python3 check.py " + i,
                            "evidence_file": "evidence/%s.json" % i, "technique": TECHNIQUES[i], "level": "exploration",
                            "level_note": LEVEL_NOTES[i]})
    else:
        m["not_applicable"].append({"property": i, "reason": NOT_APPLICABLE.get(i, "no check has been built yet")})
json.dump(m, open(os.path.join(top, "MANIFEST.json"), "w"), indent=1)
print(len(m["checks"]), "checks")
