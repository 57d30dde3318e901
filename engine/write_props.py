"""Writes properties.jsonl and MANIFEST.json from props.py."""
import json, os
import props
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
def line(p):
    return {"id": p.id, "title": p.title, "statement": p.statement, "quantifier": {"over": p.over, "text": p.text}, "why_tests_cant": p.why,
            "anchors": {"files": p.files, "mechanism": [{"name": n, "where": w} for n, w in p.mech], "hook_needed": None}}
with open(V + "/properties.jsonl", "w") as f:
    for p in props.ALL + props.NA:
        assert len(p.title) <= 80, p.title
        f.write(json.dumps(line(p)) + "\n")
TECH = "guarded-effect dataflow summaries of the type-resolved syntax tree, compared path by path with the reviewed specification model"
m = {"version": 1, "setup_cmd": "python3 engine/setup.py",
     "checks": [{"property": p.id, "quick_cmd": "python3 engine/check.py %s quick" % p.id, "thorough_cmd": "python3 engine/check.py %s thorough" % p.id,
                 "technique": TECH + ("; rules: " + ", ".join(p.rules) if p.rules else ""), "level": "other",
                 "level_note": ("Decides, for all inputs, that every analysed function has on every path the effects and results the reviewed model records for it, modulo a normal form "
                                "that ignores naming, helpers, statement order without effect, and loop and branch shape. Trusted: the reviewed model, the models of library calls, clang's front end. "
                                "Functions the analysis cannot summarise are listed in the evidence as undecided. " + p.note).strip()} for p in props.ALL],
     "not_applicable": [{"property": p.id, "reason": p.note} for p in props.NA],
     "notes": "No hooks in /repo. Known findings: known_findings.json."}
with open(V + "/MANIFEST.json", "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
