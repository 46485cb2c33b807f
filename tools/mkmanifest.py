"""Writes MANIFEST.json from properties.jsonl and the checks present in mc/props."""
import importlib, json, os, re, sys
V = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
NOTES = json.load(open(os.path.join(V, "tools", "notes.json")))
checks, na = [], []
for line in open(os.path.join(V, "properties.jsonl")):
    d = json.loads(line)
    i = d["id"]
    if os.path.exists(os.path.join(V, "mc", "props", i.lower() + ".py")) and i in NOTES:
        checks.append(dict(property=i, quick_cmd="bash run.sh %s --tier quick" % i, thorough_cmd="bash run.sh %s --tier thorough" % i,
                           technique=NOTES[i][0], level="model_checking", level_note=NOTES[i][1]))
    else:
        na.append(dict(property=i, reason=NOTES.get("not:" + i, "check not built yet")))
json.dump(dict(version=1, setup_cmd="bash run.sh setup", checks=checks, not_applicable=na,
               notes="No hooks in /repo: all checks drive public functions and commands of the working tree. See DESIGN.md."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
