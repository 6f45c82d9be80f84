#!/usr/bin/env python3
"""Generates properties.jsonl, checks.json and MANIFEST.json from tools/spec/*.py (run after editing those)."""
import json, os, glob, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props, checks, na = [], {}, []
ns = {}
for f in sorted(glob.glob(V + "/tools/spec/*.py")):
    g = {}
    exec(open(f).read(), g)
    p, c = g["PROPERTY"], g.get("CHECK")
    props.append(p)
    if c: checks[p["id"]] = c
    else: na.append({"property": p["id"], "reason": g["NOT_APPLICABLE"]})
props.sort(key=lambda p: p["id"])
json.dump(checks, open(V + "/checks.json", "w"), indent=1)
with open(V + "/properties.jsonl", "w") as f:
    for p in props:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(p) + "\n")
hooks = []
try:
    hooks = [l.split()[0] for l in subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines() if l.split(" ", 1)[1].startswith("hook:")]
except Exception: pass
m = {
 "version": 1,
 "setup_cmd": "bin/setup",
 "hooks": {"guard": "cfg(spacemandmm_verif)", "enable": "RUSTFLAGS='--cfg spacemandmm_verif' when bin/check builds /verif/harness and /verif/kani (path dependencies on /repo)", "source_commits": hooks},
 "checks": [{"property": i, "quick_cmd": f"bin/check {i} --tier quick", "thorough_cmd": f"bin/check {i} --tier thorough",
   "technique": c["technique"], "level": c.get("level", "proof"), "level_note": c["level_note"]} for i, c in sorted(checks.items())],
 "not_applicable": na,
}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
S = json.load(open("/root/.vp/PROPERTIES.schema.json"))
for p in props: jsonschema.validate(p, S)
print(len(props), "properties,", len(checks), "checks")
