#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from tools/spec.py."""
import json
import os
import sys
H = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(H)
sys.path[:0] = [H, os.path.join(V, "sim")]
import spec  # noqa
import props  # noqa

with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in spec.SPEC:
        d = dict(id=p["id"], title=p["title"], statement=p["statement"],
                 quantifier=dict(over=p["over"], text=p["qtext"]),
                 why_tests_cant=p["why"],
                 anchors=dict(files=p["files"], state=p["state"],
                              mechanism=p["mechanism"],
                              observe_at=p["observe"],
                              hook_needed=p["hook"]))
        f.write(json.dumps(d) + "\n")
checks, na = [], []
for p in spec.SPEC:
    if p["na"]:
        na.append(dict(property=p["id"], reason=p["na"]))
        continue
    assert p["id"] in props.PROPS, p["id"]
    checks.append(dict(
        property=p["id"],
        quick_cmd="python3 check.py %s" % p["id"],
        thorough_cmd="python3 check.py %s --tier thorough" % p["id"],
        evidence_file="evidence/%s.json" % p["id"],
        technique=spec.TECH, level="exploration", level_note=p["note"]))
for k in props.PROPS:
    assert any(p["id"] == k for p in spec.SPEC), "no spec for " + k
m = dict(version=1, setup_cmd="python3 check.py --setup",
         hooks=dict(guard="none",
                    enable="no hooks in /repo: every seam (heap, threads, "
                           "clocks, upstream resources, accelerator runtimes) "
                           "is taken at the compiler, linker or interface "
                           "level",
                    source_commits=[]),
         checks=checks, not_applicable=na,
         notes="see DESIGN.md; properties and this file are generated by "
               "tools/gen.py from tools/spec.py")
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
print(len(checks), "checks,", len(na), "n/a")
