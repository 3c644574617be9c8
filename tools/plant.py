"""plant.py SPEC.json: makes /verif/seeded/<id>/ from {id, property, edits: [[file, old, new]...], needs, what, demo: python source}
and confirms in a scratch copy that the demonstration passes without and fails with the change.  (development aid)
--tests also runs the repository's stable tests on the changed copy."""
import json, os, shutil, subprocess, sys, tempfile
H = os.path.realpath(os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
DEMO = '''#!/bin/sh
# run with cwd = repository; exit 0 on the unchanged tree
cd "${REPO:-.}" || exit 2
PYTHONPATH="$(pwd)" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg exec /opt/venv/bin/python -B "$(dirname "$0")/demo.py"
'''
DEMO = '''#!/bin/sh
# run with cwd = the repository; exit 0 on the unchanged tree
here=$(cd "$(dirname "$0")" && pwd)
PYTHONPATH="$(pwd)" PYTHONDONTWRITEBYTECODE=1 MPLBACKEND=Agg exec /opt/venv/bin/python -B "$here/demo.py"
'''


def run_tests(d):
    env = {**os.environ, "PYTHONPATH": d + ":/opt/vp/plugins", "PYTHONHASHSEED": "0", "MPLBACKEND": "Agg", "OMP_NUM_THREADS": "1", "PYTHONDONTWRITEBYTECODE": "1"}
    r = subprocess.run(["nice", "-n", "15", "xvfb-run", "-a", "/opt/venv/bin/python", "-m", "pytest", "-q", "-p", "no:cacheprovider", "-p", "vp_seed", "-n", "6", "--dist", "worksteal",
                        "--timeout=600", "--continue-on-collection-errors", "-rfE", "--tb=no"], cwd=d, env=env, capture_output=True, text=True)
    return "\n".join(r.stdout.strip().split("\n")[-6:])


for spec in json.load(open(sys.argv[1])):
    only = [a for a in sys.argv[2:] if not a.startswith("--")]
    if only and spec["id"] not in only:
        continue
    out = os.path.join(H, "seeded", spec["id"])
    d = tempfile.mkdtemp(prefix="plant")
    x = os.path.join(d, "repo")
    try:
        subprocess.run(["git", "clone", "-q", "/repo", x], check=True)
        for rel, old, new in spec["edits"]:
            p = os.path.join(x, rel)
            s = open(p, newline="").read()
            crlf = "\r\n" in s
            s = s.replace("\r\n", "\n")
            assert s.count(old) == 1, (spec["id"], rel, s.count(old))
            s = s.replace(old, new)
            open(p, "w", newline="").write(s.replace("\n", "\r\n") if crlf else s)
        os.makedirs(out, exist_ok=True)
        diff = subprocess.run(["git", "diff", "--binary"], cwd=x, capture_output=True).stdout
        open(os.path.join(out, "patch.diff"), "wb").write(diff)
        open(os.path.join(out, "demo.sh"), "w").write(DEMO)
        os.chmod(os.path.join(out, "demo.sh"), 0o755)
        open(os.path.join(out, "demo.py"), "w").write(spec["demo"])
        json.dump({"property": spec["property"], "needs": spec["needs"], "what_it_breaks": spec["what"]}, open(os.path.join(out, "meta.json"), "w"), indent=1)
        b = subprocess.run(["sh", os.path.join(out, "demo.sh")], cwd=x, capture_output=True, text=True)
        a = subprocess.run(["sh", os.path.join(out, "demo.sh")], cwd="/repo", capture_output=True, text=True)
        ok = a.returncode == 0 and b.returncode != 0
        r = subprocess.run([H + "/check", spec["property"]], capture_output=True, text=True, env={**os.environ, "PYVC_REPO": x, "PYVC_EVID": d + "/ev"}) if "--nocheck" not in sys.argv else None
        print(spec["id"], "demo ok" if ok else f"DEMO BAD clean={a.returncode} {a.stderr[-300:]} changed={b.returncode}", "| check exit", r.returncode if r else "-",
              [l for l in r.stdout.split("\n") if l.startswith("VIOLATION")][:1] if r else "")
        if not ok:
            shutil.rmtree(out)
        elif "--tests" in sys.argv:
            print(run_tests(x))
        sys.stdout.flush()
    finally:
        shutil.rmtree(d)
