#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist in vf/props*.py."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/vf")
import props
props_list = [json.loads(l) for l in open(V + "/properties.jsonl")]
checks, na = [], []
for p in props_list:
    i = p["id"]
    if i in props.CHECKS:
        m = props.META[i]
        t, lvl, note = m if isinstance(m, tuple) else (m['technique'], m['level'], m.get('note') or m['rule'])
        checks.append(dict(property=i, quick_cmd=f"python3 vf/check.py {i} quick", thorough_cmd=f"python3 vf/check.py {i} thorough",
                           evidence_file=f"evidence/{i}.json", technique=t, level=lvl, level_note=note))
    else:
        na.append(dict(property=i, reason=props.NA.get(i, "no check yet: its machinery is still being built")))
m = dict(version=1, setup_cmd="python3 vf/setup.py",
         hooks=dict(guard="none: no hook was needed, the checks observe /repo through its public interface, the global allocator, and the generated files", enable="nothing to enable", source_commits=[]),
         checks=checks, not_applicable=na,
         notes="Every check stages /repo's sources by symlink under /verif/build (git-ignored) and rebuilds from /repo's current working tree. Exit 2 = inconclusive (a build or tool failed, or too little was observed).")
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1, ensure_ascii=False)
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
except ImportError:
    pass
print(len(checks), "claimed,", len(na), "not")
