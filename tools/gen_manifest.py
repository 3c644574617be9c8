"""Writes /verif/MANIFEST.json from the registry and the list of properties."""
import json, os, sys
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
sys.path.insert(0, H)
from contracts.registry import PROPS
NA = {
    "C30": "convergence of floating-point fixed-point iterations over complex matrices is not expressible as a contract the solvers here can discharge; their transition matrices are under contract instead",
    "C31": "a statement about probability laws of pseudo-random streams: no deductive contract over one execution expresses it (numpy's generator is external)",
    "C32": "an almost-sure limit over random histories; contracts speak about single executions",
}
ids = [json.loads(l)["id"] for l in open(os.path.join(H, "properties.jsonl"))]
checks, na = [], []
for i in ids:
    if i in PROPS:
        P = PROPS[i]
        checks.append({
            "property": i, "quick_cmd": f"./check {i}", "thorough_cmd": f"VERIF_TIER=thorough ./check {i}",
            "technique": P.get("technique", "contract-based deductive verification: pyvc (own VC generator over the real Python source), obligations discharged by z3/cvc5/ring"),
            "level": "proof",
            "level_note": P.get("note", "every obligation generated from the current source is discharged for all inputs and histories, over exact reals; generate() is an arbitrary non-negative real; executable contracts on real runs (bounded) supply failing inputs"),
        })
    else:
        na.append({"property": i, "reason": NA.get(i, "contracts for this part are not written yet")})
json.dump({"version": 1, "setup_cmd": "/opt/veriftools/pyvenv/bin/python -c 'import z3, sympy' && /opt/venv/bin/python -c 'import numpy' && command -v cvc5",
           "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo are needed: contracts live beside the code in /verif/contracts and are checked against /repo's source on every run. See DESIGN.md."},
          open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
print(len(checks), len(na))
