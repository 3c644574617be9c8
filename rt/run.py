"""Runs the executable contracts of one property on the real code: python -B rt/run.py '<json>' -> JSON on the last line.

{"prop": "C01", "modules": ["qs_rt"], "seed": 1, "budget": 10}   or   {"replay": <file>}
"""
import importlib
import json
import os
import signal
import sys
import time
import traceback

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from common import Report, REPO  # noqa: E402


def main():
    spec = json.loads(sys.argv[1])
    out = {"viol": [], "error": None, "runs": 0, "distinct": 0, "samples": []}
    t0 = time.time()
    try:
        rep = Report([spec["prop"]])
        mods = spec["modules"] if "modules" in spec else []

        def late(*a):
            raise TimeoutError("no answer from the code")
        if "replay" not in spec:          # a call that does not come back shows up as an exception of that call
            signal.signal(signal.SIGALRM, late)
            signal.alarm(int(spec["budget"] * 2 + 60))
        for m in mods:
            mod = importlib.import_module(m)
            if "replay" in spec:
                mod.replay(spec["replay"], rep)
            else:
                mod.battery([spec["prop"]], spec["seed"], spec["budget"] / len(mods), rep)
        out.update(viol=rep.viol[:5], runs=rep.runs, distinct=len(rep.distinct), samples=rep.samples[:3])
    except Exception as e:
        out["error"] = f"{type(e).__name__}: {e}"
        out["trace"] = traceback.format_exc()[-2500:]
    out["wall"] = round(time.time() - t0, 2)
    print("\n" + json.dumps(out, default=str))


if __name__ == "__main__":
    main()
