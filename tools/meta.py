#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list below (run by hand; both outputs are committed)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
EA = "amzn-smt-eager-arithmetic/src/"
ST = "amzn-smt-string-transformer/src/"
UP = "amzn-smt-string-fct-updater/src/"
PR = "amzn-smt-prediction/"
PROPS = []

def prop(id, title, statement, over, text, why, files, mech, technique, level="model_checking", note="", observe=None, na=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                      technique=technique, level=level, note=note, observe=observe or [], na=na))

exec(open(os.path.join(ROOT, "tools", "props.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                        "observe_at": p["observe"], "hook_needed": None}}) + "\n")
manifest = {
    "version": 1, "setup_cmd": "bash /verif/check.sh build",
    "checks": [{
        "property": p["id"], "quick_cmd": f"bash /verif/check.sh {p['id']} quick",
        "thorough_cmd": f"bash /verif/check.sh {p['id']} thorough",
        "technique": p["technique"], "level": p["level"], "level_note": p["note"]} for p in PROPS if not p["na"]],
    "not_applicable": [{"property": p["id"], "reason": p["na"]} for p in PROPS if p["na"]],
    "notes": "No hooks: everything is observed through public APIs, the built command line tools, and their files. "
             "A report is replayed with: bash /verif/check.sh replay <path>.",
}
json.dump(manifest, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
