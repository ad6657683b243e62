"""Write MANIFEST.json from the finished property modules."""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTES = json.load(open(os.path.join(V, "tools", "notes.json")))
checks = []
na = []
for line in open(os.path.join(V, "properties.jsonl")):
    d = json.loads(line)
    i = d["id"]
    if os.path.exists(os.path.join(V, "simvbmc", "props", i.lower() + ".py")):
        checks.append(
            dict(
                property=i,
                quick_cmd=f"./check check {i} --tier quick",
                thorough_cmd=f"./check check {i} --tier thorough",
                technique="deterministic simulation with fault injection, seeded search",
                level="exploration",
                level_note=NOTES[i],
            )
        )
    else:
        na.append(dict(property=i, reason=NOTES.get(i, "not built yet")))
m = dict(
    version=1,
    setup_cmd="./setup.sh",
    checks=checks,
    not_applicable=na,
    notes="Pure Python: checks import /repo's working tree in fresh interpreters, nothing to build. No hooks in /repo. Replay a violation with ./check replay FILE.",
)
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
