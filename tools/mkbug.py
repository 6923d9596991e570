"""python3 tools/mkbug.py < spec: make seeded/<id>/ from a JSON-less spec on stdin:
   first line: id property
   then sections separated by lines '@@ name':  file, old, new, needs, breaks, demo
   (file/old/new may repeat)"""
import sys, os, json, subprocess, shutil
text = sys.stdin.read()
head, rest = text.split("\n", 1)
bid, prop = head.split()
secs = []
for part in rest.split("\n@@ ")[0:]:
    part = part[3:] if part.startswith("@@ ") else part
    if not part.strip():
        continue
    nm, body = part.split("\n", 1) if "\n" in part else (part, "")
    secs.append((nm.strip(), body))
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
w = "/tmp/mkbug"
shutil.rmtree(w, ignore_errors=True)
subprocess.check_call(["git", "clone", "-q", "/repo", w])
f = old = None
d = {}
for nm, body in secs:
    if nm == "file":
        f = body.strip()
    elif nm == "old":
        old = body.rstrip("\n")
    elif nm == "new":
        p = os.path.join(w, f)
        s = open(p, encoding="latin-1", newline="").read()
        assert s.count(old) == 1, (f, s.count(old), old)
        s = s.replace(old, body.rstrip("\n"))
        open(p, "w", encoding="latin-1", newline="").write(s)
    else:
        d[nm] = body
diff = subprocess.check_output(["git", "-C", w, "diff"])
assert diff
# every removed line has to be one of the original repository
base = subprocess.check_output(["git", "-C", w, "log", "--format=%H", "--grep=^base"], text=True).split()[0]
for fn in subprocess.check_output(["git", "-C", w, "diff", "--name-only"], text=True).split():
    new = subprocess.check_output(["git", "-C", w, "diff", "-U0", fn]).decode("latin-1")
    orig = subprocess.check_output(["git", "-C", w, "show", base + ":" + fn]).decode("latin-1").split("\n")
    for l in new.split("\n"):
        if l.startswith("-") and not l.startswith("---") and l[1:].strip() and l[1:] not in orig:
            print("NOT ORIGINAL:", fn, l)
out = os.path.join(root, "seeded", bid)
os.makedirs(out, exist_ok=True)
open(os.path.join(out, "patch.diff"), "wb").write(diff)
open(os.path.join(out, "demo.py"), "w").write(d["demo"].strip("\n") + "\n")
open(os.path.join(out, "demo.sh"), "w").write(
    '#!/bin/bash\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONWARNINGS=ignore MPLBACKEND=Agg OPENBLAS_NUM_THREADS=1\n'
    'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
os.chmod(os.path.join(out, "demo.sh"), 0o755)
json.dump({"property": prop, "needs": d["needs"].strip(), "what_it_breaks": d["breaks"].strip()},
          open(os.path.join(out, "meta.json"), "w"), indent=1)
shutil.rmtree(w)
print("made", bid)
