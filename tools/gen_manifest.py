#!/usr/bin/env python3
"""Writes MANIFEST.json from specs.json and properties.jsonl."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
specs = json.load(open(os.path.join(V, "tools", "specs.json")))
NA = json.load(open(os.path.join(V, "tools", "not_applicable.json")))
props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
checks = []
for p in props:
    if p not in specs: continue
    checks.append({"property": p, "quick_cmd": f"python3 tools/check.py {p} --tier quick", "thorough_cmd": f"python3 tools/check.py {p} --tier thorough",
                   "technique": "deterministic simulation with fault injection: " + specs[p]["technique"],
                   "level": "exploration", "level_note": specs[p]["note"]})
na = [{"property": p, "reason": NA.get(p, "No check has been built for it.")} for p in props if p not in specs]
m = {"version": 1, "setup_cmd": "python3 tools/build.py", "hooks": {"guard": "none", "enable": "No hooks in /repo: every seam is at link level (allocator, C library calls, streams); the checks compile /repo's sources into simulator executables.", "source_commits": []},
     "checks": checks, "not_applicable": na,
     "notes": "Each check compiles /repo's current sources with AddressSanitizer and basic-block counting into /verif/build and searches over seeds; see DESIGN.md."}
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
except ImportError: pass
print(len(checks), "checks,", len(na), "not applicable")
