#!/usr/bin/env python3
# Writes /verif/MANIFEST.json from the property table.
import json, os, sys
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, R)
from vlib import props
ids = [json.loads(l)["id"] for l in open(os.path.join(R, "properties.jsonl"))]
NOTE = ("Deductive: Verus discharges every obligation of the functions extracted from the current sources, for all inputs. Assumes the extraction is faithful and the trusted contracts of std, md5/openssl, "
        "rand, chrono{} (listed in the evidence). A function that leaves the verifier's reach is reported as bounded (concrete search only).")
checks = []
for p in ids:
    if p not in props.PROPS:
        continue
    lvl = getattr(props, "LEVEL", {}).get(p, "proof")
    net = p in ("C17", "C18", "C19", "C25", "C24")
    checks.append({"property": p, "quick_cmd": f"python3 check.py {p}", "thorough_cmd": f"python3 check.py {p}",
                   "technique": props.TECH.get(p, "contract-based deductive verification (Verus) of functions extracted from the current source"),
                   "level": lvl, "level_note": NOTE.format(", tokio" if net else "") + (" " + props.NOTES[p] if p in props.NOTES else "")})
na = [{"property": p, "reason": props.NA[p]} for p in ids if p not in props.PROPS]
json.dump({"version": 1, "setup_cmd": "python3 check.py --setup", "checks": checks, "not_applicable": na,
           "notes": "See DESIGN.md. No hooks in /repo: everything is extracted from or linked against the public crate."},
          open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks", len(na), "not applicable")
