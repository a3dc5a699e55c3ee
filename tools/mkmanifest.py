#!/usr/bin/env python3
"""Regenerates MANIFEST.json from lib/registry.py."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "lib"))
import registry

NA = []


def main():
    checks = []
    for p, s in sorted(registry.PROPS.items()):
        c = {"property": p, "quick_cmd": "python3 /verif/check.py " + p,
             "thorough_cmd": "VERIF_TIER=thorough python3 /verif/check.py " + p,
             "evidence_file": "evidence/%s.json" % p,
             "technique": s.get("technique") or registry.technique(p, s),
             "level": s["level"], "level_note": s["note"]}
        if s.get("theorems"):
            c["theorems"] = s["theorems"]
        checks.append(c)
    m = {"version": 1, "setup_cmd": "bash /verif/setup.sh",
         "hooks": {"guard": "none", "enable": "no hooks were added to /repo", "source_commits": []},
         "checks": checks, "not_applicable": NA,
         "notes": "check.py runs the deductive backends (Verus on mechanically extracted functions, Kani on the real crate) and the "
                  "executable contracts of harness/ on /repo's working tree. Exit 2 means the check itself could not run."}
    with open(os.path.join(V, "MANIFEST.json"), "w") as fh:
        json.dump(m, fh, indent=1)
        fh.write("\n")


main()
