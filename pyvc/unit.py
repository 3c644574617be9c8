"""Runs one proof unit in its own process: python3-vt -m pyvc.unit '<json spec>'  ->  JSON on the last line of stdout.

spec: {"module": "contracts.qs", "func": "unit", "args": [...], "kw": {...}, "ms": 8000}
"""
import importlib
import json
import sys
import time
import traceback

sys.setrecursionlimit(20000)


def main():
    spec = json.loads(sys.argv[1])
    t0 = time.time()
    res = {"name": spec.get("name", ""), "obls": [], "covers": [], "used": {}, "assumptions": [], "error": None, "loops": []}
    try:
        from pyvc import prove
        from pyvc.core import Unsupported
        m = importlib.import_module(spec["module"])
        out = getattr(m, spec.get("func", "unit"))(*spec.get("args", []), **spec.get("kw", {}))
        vcs = out if isinstance(out, (list, tuple)) else [out]
        res["gen_s"] = round(time.time() - t0, 3)
        for vc in vcs:
            cache = {}
            for nm, hyps in getattr(vc, "covers", []):
                s = prove.solver(300)
                s.add(*hyps)
                res["covers"].append([nm, str(s.check())])
            slow = 0.0
            for ob in vc.obls:
                prove.discharge(ob, ms=spec.get("ms", 6000) if slow < 60 else 800)
                if ob.status != "proved":
                    slow += ob.time
                rec = {"name": ob.name, "where": ob.where, "status": ob.status, "backend": ob.backend, "t": round(ob.time, 4)}
                if ob.status != "proved":
                    rec["goal"] = str(ob.goal)[:1500]
                    if ob.model is not None:
                        try:
                            rec["model"] = sorted(f"{d.name()} = {str(ob.model[d])[:120]}" for d in ob.model.decls())[:60]
                        except Exception:
                            pass
                res["obls"].append(rec)
            for q, how in vc.used.items():
                res["used"][q] = how
            res["assumptions"] = sorted(set(res["assumptions"]) | set(vc.assumptions))
            res["loops"].extend([lab, len(inv)] for lab, inv in getattr(vc, "loop_log", []))
    except Exception as e:
        kind = type(e).__name__
        res["error"] = f"{kind}: {e}"
        res["trace"] = traceback.format_exc()[-1500:]
    res["wall"] = round(time.time() - t0, 3)
    print("\n" + json.dumps(res))


if __name__ == "__main__":
    main()
