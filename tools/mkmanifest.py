"""writes MANIFEST.json from properties.jsonl and the property modules present"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(V, "tools", "level_notes.json")))
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if os.path.exists(os.path.join(V, "mc", "props", i.lower() + ".py")):
        t, n = NOTES[i]
        checks.append({"property": i, "quick_cmd": "./run.sh %s --tier quick" % i,
                       "thorough_cmd": "./run.sh %s --tier thorough" % i,
                       "evidence_file": "evidence/%s.json" % i,
                       "technique": t, "level": "model_checking", "level_note": n})
    else:
        na.append({"property": i, "reason": "check under construction"})
json.dump({"version": 1, "setup_cmd": "./run.sh --setup", "checks": checks, "not_applicable": na,
           "notes": "No hooks in /repo are needed: every check drives the public API of the modules in "
                    "/repo/CasimirRio, with both Cython modules compiled from the current tree."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
print(len(checks), "checks,", len(na), "open")
