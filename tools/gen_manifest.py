#!/usr/bin/env python3
"""Writes MANIFEST.json from props.py and the harness annotations."""
import json, subprocess, sys
sys.path.insert(0, "/verif/tools")
import props, kani_layer, verus_layer
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout.splitlines()
hook = [l.split()[0] for l in hook if l.split(" ", 1)[1].startswith("hook:")]
hs = kani_layer.harnesses()
checks = []
for pid, c in props.PROPS.items():
    n = sum(pid in h["props"] for h in hs)
    parts = []
    if n: parts.append("Kani function contracts on the real code (in-module harnesses)")
    if any(pid in ps for piece in verus_layer.pieces() for _, ps in verus_layer.declared(piece)): parts.append("Verus proof of mechanically extracted functions")
    if c["bins"]: parts.append("bounded stand-in: histories against a list model, also the failing-input search")
    checks.append({"property": pid, "quick_cmd": f"python3 tools/check.py {pid} --quick", "thorough_cmd": f"python3 tools/check.py {pid} --thorough",
                   "technique": "; ".join(parts), "level": c["level"], "level_note": c.get("note") or props.NOTE})
m = {"version": 1, "setup_cmd": "bash tools/setup.sh",
     "hooks": {"guard": "cfg(kani)", "enable": "cargo kani sets cfg(kani); SHERMAN_VERIF_DIR names the directory with the contract modules", "source_commits": hook},
     "checks": checks,
     "not_applicable": [{"property": k, "reason": v} for k, v in props.NOT_APPLICABLE.items()]}
json.dump(m, open("/verif/MANIFEST.json", "w"), indent=1)
