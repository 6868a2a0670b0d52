#!/usr/bin/env python3
"""Single source of the property list: writes properties.jsonl, MANIFEST.json and checks.json."""
import json, subprocess, os
ROOT = os.path.dirname(os.path.abspath(__file__))
P = []
exec(open(os.path.join(ROOT, "props.py")).read())

props, checks, man, na = [], {}, [], []
for p in P:
    props.append({"id": p["id"], "title": p["title"], "statement": p["statement"],
                  "quantifier": {"over": p["over"], "text": p["forall"]},
                  "why_tests_cant": p["why"],
                  "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                              "hook_needed": p.get("hook")}})
    assert len(p["title"]) <= 80, p["title"]
    if "na" in p:
        na.append({"property": p["id"], "reason": p["na"]})
        continue
    checks[p["id"]] = {k: p[k] for k in ("modules", "deep_modules", "level", "functions", "bounded", "bounds", "trusted",
                                         "assumptions", "harness_timeout", "native_secs", "bins", "gen") if k in p}
    man.append({"property": p["id"], "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
                "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
                "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
json.dump(checks, open(ROOT + "/checks.json", "w"), indent=1)
with open(ROOT + "/properties.jsonl", "w") as f:
    for p in props:
        f.write(json.dumps(p) + "\n")
json.dump({"version": 1, "setup_cmd": "python3 setup.py",
           "hooks": {"guard": "cfg(doodle_verif)", "enable": "RUSTFLAGS=\"--cfg doodle_verif\" (set by check.py for every build it makes)",
                     "source_commits": HOOKS},
           "checks": man, "not_applicable": na, "notes": NOTES}, open(ROOT + "/MANIFEST.json", "w"), indent=1)
