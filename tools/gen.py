#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json from props.py, for properties with a check in checks.json."""
import json, os
from props import P, HERE

conf = json.load(open(os.path.join(HERE, "checks.json")))["checks"]
missing = sorted(set(conf) - set(P))
assert not missing, missing
checks = []
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for id in sorted(P):
        p = P[id]
        if id not in conf:
            print("no check for", id)
            continue
        n = p["statement"].replace("e.g.", "").count(". ") + 1
        if n > 3:
            print("more than 3 sentences:", id, n)
        a = {"files": p["files"], "mechanism": p["mechanism"]}
        if p["observe"]:
            a["observe_at"] = p["observe"]
        a["hook_needed"] = None
        for x in p["files"]:
            assert os.path.exists("/repo/" + x), x
        f.write(json.dumps({"id": id, "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["tests"], "anchors": a},
                           ensure_ascii=False) + "\n")
        checks.append({"property": id, "quick_cmd": "python3 check.py %s quick" % id, "thorough_cmd": "python3 check.py %s thorough" % id,
                       "evidence_file": "evidence/%s.json" % id, "technique": p["technique"], "level": "exploration", "level_note": p["note"]})
m = {"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": [],
     "notes": "No hooks in /repo: monitors sit at the boundaries (writers, transports, native calls by LD_PRELOAD, virtual clock, race detector). "
              "Generated by tools/gen.py from tools/props.py."}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
print(len(checks), "checks")
