"""Write properties.jsonl and MANIFEST.json from catalog.py."""
import json
import os
import sys
HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import catalog

PY = "/opt/venv/bin/python"
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in catalog.PROPS:
        assert len(p["title"]) <= 80, p["title"]
        anchors = {"files": p["files"], "mechanism": p["mechanism"]}
        if p["state"]:
            anchors["state"] = p["state"]
        if p["observe"]:
            anchors["observe_at"] = p["observe"]
        anchors["hook_needed"] = None
        f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                            "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"], "anchors": anchors}) + "\n")
checks = []
na = []
for p in catalog.PROPS:
    if os.path.exists(os.path.join(HERE, "props", p["id"].lower() + ".py")):
        checks.append({"property": p["id"], "quick_cmd": "%s mc/run.py %s --tier quick" % (PY, p["id"]),
                       "thorough_cmd": "%s mc/run.py %s --tier thorough" % (PY, p["id"]),
                       "technique": "model checking: " + p["technique"], "level": "model_checking", "level_note": p["note"] + (" Assumes: " + "; ".join(p["assumptions"]) if p["assumptions"] else "")})
    else:
        na.append({"property": p["id"], "reason": "check not built yet"})
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "true", "checks": checks, "not_applicable": na,
               "notes": "No hooks in /repo are needed. Generated by mc/gen.py from mc/catalog.py. Known findings: known_findings.txt."}, f, indent=1)
    f.write("\n")
