"""mut.py LIST.json: applies each textual change to a scratch copy of /repo and runs the given checks on it (development aid).
LIST: [[name, file, old, new, [props...]], ...]"""
import json, os, shutil, subprocess, sys, tempfile
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
for name, rel, old, new, props in json.load(open(sys.argv[1])):
    if len(sys.argv) > 2 and name not in sys.argv[2:]:
        continue
    d = tempfile.mkdtemp(prefix="mut")
    try:
        shutil.copytree("/repo/most_queue", d + "/most_queue")
        edits = [[rel, old, new]] if rel else old
        for r, o, nw in edits:
            p = os.path.join(d, r)
            s = open(p, newline="").read()
            crlf = "\r\n" in s
            s = s.replace("\r\n", "\n")
            assert s.count(o) == 1, (name, s.count(o))
            s = s.replace(o, nw)
            if crlf:
                s = s.replace("\n", "\r\n")
            open(p, "w", newline="").write(s)
        for pr in props:
            r = subprocess.run([H + "/check", pr], capture_output=True, text=True, env={**os.environ, "PYVC_REPO": d, "PYVC_EVID": d + "/ev"})
            ls = [l for l in r.stdout.split("\n") if l.strip()]
            print(f"== {name} {pr} exit {r.returncode}")
            for l in ls[-6:] if r.returncode else ls[-1:]:
                print("    " + l[:230].replace(d, ""))
            if r.stderr:
                print(r.stderr[-500:])
            sys.stdout.flush()
    finally:
        shutil.rmtree(d)
