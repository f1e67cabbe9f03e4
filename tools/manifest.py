#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOT_APPLICABLE = {}
EXTRA = {}
NOTE = ("Every call which the harness makes through the public API is judged by TLC against spec/Bellframe.tla (results, errors, panics, "
        "hangs and the state left behind); {m}. The generated histories are a sample (seeded by VERIF_SEED); the laws behind the "
        "specification are model checked exhaustively within small bounds. Trusts TLC and the harness's reporting.")

def main():
    import sys
    sys.path.insert(0, f"{ROOT}/tools")
    import models
    checks, na = [], []
    for line in open(f"{ROOT}/properties.jsonl"):
        p = json.loads(line)["id"]
        if p in NOT_APPLICABLE:
            na.append({"property": p, "reason": NOT_APPLICABLE[p]})
            continue
        ms = models.OF.get(p, [])
        m = ("every transition of the models " + ", ".join(ms) + " is also executed by the code") if ms else "no bounded model belongs to it"
        checks.append({"property": p, "quick_cmd": f"VERIF_TIER=quick python3 check.py {p}",
                       "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {p}",
                       "technique": EXTRA.get(p, ("TLA+ specification: TLC model checking and trace validation",))[0],
                       "level": "model_checking", "level_note": EXTRA[p][1] if p in EXTRA else NOTE.format(m=m)})
    json.dump({"version": 1, "setup_cmd": "python3 -c 'import sys; sys.path.insert(0, \"tools\"); import vlib; [vlib.build(\"debug\", f) for f in (None, \"xml\", \"cc\")]'",
               "checks": checks, "not_applicable": na,
               "notes": "No hooks: the specification is bound to the code through its public API. See DESIGN.md."},
              open(f"{ROOT}/MANIFEST.json", "w"), indent=1)

if __name__ == "__main__":
    main()
