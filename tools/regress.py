"""python3 tools/regress.py REPLAY...: keep replay files as regression cases"""
import json, os, sys
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
os.makedirs(os.path.join(root, "regress"), exist_ok=True)
for f in sys.argv[1:]:
    d = json.load(open(f))
    p = os.path.join(root, "regress", d["property"] + ".jsonl")
    line = json.dumps({"test": d["test"], "case": d["case"]}, sort_keys=True)
    old = open(p).read().splitlines() if os.path.exists(p) else []
    if line not in old:
        with open(p, "a") as fp:
            fp.write(line + "\n")
