#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks.py and properties.jsonl."""
import json, subprocess, sys
sys.path.insert(0, "/verif"); sys.dont_write_bytecode = True
from checks import CHECKS
ids = [json.loads(l)["id"] for l in open("/verif/properties.jsonl")]
hooks = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines()
hooks = [l.split()[0] for l in hooks if "verif-tagged hook" in l][::-1]
m = dict(version=1, setup_cmd="python3 run.py setup",
    hooks=dict(guard="verif", enable="go build -tags verif with an overlay (run.py build)", source_commits=hooks),
    checks=[dict(property=i, quick_cmd="python3 run.py " + i, thorough_cmd="VERIF_TIER=thorough python3 run.py " + i,
        technique=CHECKS[i]["technique"], level="exploration", level_note=CHECKS[i]["note"]) for i in ids if i in CHECKS],
    not_applicable=[dict(property=i, reason="check under construction") for i in ids if i not in CHECKS])
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1); open("/verif/MANIFEST.json", "a").write("\n")
import subprocess
try:
    import jsonschema
    jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
    print(len(m["checks"]), "checks valid")
except ImportError: print(len(m["checks"]), "checks")
