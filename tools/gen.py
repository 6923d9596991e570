#!/opt/venv/bin/python
"""Writes properties.jsonl and MANIFEST.json from the table below and the
property modules that exist."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def P(id, title, statement, over, text, why, files, mechanism, technique=None, note=""):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why,
                files=files, mechanism=mechanism, technique=technique, note=note)


PROPS = []


def add(*a, **k):
    PROPS.append(P(*a, **k))


exec(open(os.path.join(ROOT, "tools", "props.py")).read())


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as fp:
        for p in PROPS:
            fp.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]},
                "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": p["mechanism"]}}) + "\n")
    checks, na = [], []
    for p in PROPS:
        mod = os.path.join(ROOT, "pbt", "props", p["id"].lower() + ".py")
        if os.path.exists(mod):
            checks.append({
                "property": p["id"],
                "quick_cmd": "./check.sh %s --tier quick" % p["id"],
                "thorough_cmd": "./check.sh %s --tier thorough" % p["id"],
                "technique": p["technique"] or "property-based testing (Hypothesis)",
                "level": "exploration", "level_note": p["note"]})
        else:
            na.append({"property": p["id"], "reason": "no check has been built for it yet"})
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as fp:
        json.dump({"version": 1,
                   "setup_cmd": "/opt/venv/bin/python -c 'import sys; sys.path.insert(0, \"vendor\"); import hypothesis'",
                   "checks": checks, "not_applicable": na,
                   "notes": "Every check is ./check.sh <id>: generated cases (Hypothesis, vendored) against an explicit oracle; see DESIGN.md."},
                  fp, indent=1)
        fp.write("\n")
    for p in PROPS:
        assert len(p["title"]) <= 80, p["title"]


main()
