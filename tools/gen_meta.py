"""Writes properties.jsonl and MANIFEST.json from one table (run: python3 tools/gen_meta.py)."""
import json
import os
import sys

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
M = "yaocptool/modelling/"
S = "yaocptool/methods/"
P = []


def prop(id, title, statement, over, text, why, files, mech, spec, note, state=(), claimed=True, reason=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  spec=spec, note=note, state=state, claimed=claimed, reason=reason))


exec(open(os.path.join(ROOT, "tools", "properties_table.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as fh:
    for p in P:
        fh.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "state": [{"name": a, "meaning": b, "where": c} for a, b, c in p["state"]],
                        "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                        "observe_at": ["public API"], "hook_needed": None}}) + "\n")
        assert len(p["title"]) <= 80, p["title"]
        assert p["statement"].count(". ") <= 3, p["id"]
man = {
    "version": 1,
    "setup_cmd": "bash setup.sh",
    "checks": [{
        "property": p["id"], "quick_cmd": f"./run.sh {p['id']} quick", "thorough_cmd": f"./run.sh {p['id']} thorough",
        "evidence_file": f"evidence/{p['id']}.json",
        "technique": f"TLA+ specification ({p['spec']}) model-checked with TLC; TLC-generated behaviours replayed "
                     "into the real code and compared with the specification",
        "level": "model_checking", "level_note": p["note"]} for p in P if p["claimed"]],
    "not_applicable": [{"property": p["id"], "reason": p["reason"] or "check not built yet"} for p in P
                       if not p["claimed"]],
    "notes": "No hooks in /repo: the API exposes the abstract state. See DESIGN.md.",
}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as fh:
    json.dump(man, fh, indent=1)
    fh.write("\n")
