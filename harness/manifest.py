"""Writes MANIFEST.json from the list of properties and the suites that exist."""
import json
import os
import sys

sys.dont_write_bytecode = True
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "harness"))
import suites

NOTE = ("Explicit-state model checking (TLC) of the specification modules, and of every behaviour recorded from the real code against them; "
        "exhaustive over the enumerated regimes and histories, sampled in the continuous parameters. Trusts TLC, the fixed-point arithmetic "
        "(10^-24, checked against the pure TLA+ definitions) and the recorder.")
TECH = "TLA+ specification; TLC-generated behaviours replayed on the code; recorded traces validated by TLC"
checks, na = [], []
for l in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(l)
    if p["id"] in suites.SUITES:
        cmd = "/opt/venv/bin/python harness/check.py %s --tier " % p["id"]
        checks.append({"property": p["id"], "quick_cmd": cmd + "quick", "thorough_cmd": cmd + "thorough",
                       "evidence_file": "evidence/%s.json" % p["id"], "technique": TECH, "level": "model_checking", "level_note": NOTE})
    else:
        na.append({"property": p["id"], "reason": "not built yet"})
json.dump({"version": 1, "setup_cmd": "bash harness/setup.sh", "checks": checks, "not_applicable": na},
          open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
