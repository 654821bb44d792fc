#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json, and the per-property part of DESIGN.md, from lib/props.py (one table, so
the three stay in step).  A property is claimed when checks/<id>.py exists."""
import json, os, re, subprocess, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/lib")
from props import PROPS, NOT_APPLICABLE
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^verification hooks"], stdout=subprocess.PIPE, text=True).stdout.split()
with open(V + "/properties.jsonl", "w") as h:
    for p in PROPS:
        h.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["space"]}, "why_tests_cant": p["why"],
                            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                                        "observe_at": p["observe"], "hook_needed": p.get("hook")}}) + "\n")
checks, na = [], []
for p in PROPS:
    if os.path.exists(f"{V}/checks/{p['id']}.py"):
        checks.append({"property": p["id"], "quick_cmd": f"python3 checks/{p['id']}.py",
                       "thorough_cmd": f"python3 checks/{p['id']}.py --thorough", "technique": p["technique"],
                       "level": p.get("level", "model_checking"), "level_note": p["note"]})
    else:
        na.append({"property": p["id"], "reason": NOT_APPLICABLE.get(p["id"], "no check built yet")})
m = {"version": 1, "setup_cmd": "python3 tools/setup.py",
     "hooks": {"guard": "MOSML_VERIFY", "enable": "lib/vlib.py hooked_runtime(): the checks rebuild src/runtime with CC='gcc -DMOSML_VERIFY'",
               "source_commits": hook},
     "checks": checks, "not_applicable": na}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
d = V + "/DESIGN.md"
t = open(d).read() if os.path.exists(d) else "<!-- properties -->\n<!-- end properties -->\n"
body = "\n".join(f"### {p['id']} {p['title']}\n\n{p['statement']}\n\n{p['design']}\n" for p in PROPS)
t = re.sub(r"(?s)<!-- properties -->.*<!-- end properties -->", lambda _: f"<!-- properties -->\n\n{body}\n<!-- end properties -->", t)
open(d, "w").write(t)
print(len(checks), "claimed;", len(na), "not")
