"""known_findings.json: list of repaired defects from the fix commits of /repo."""
import json, os, subprocess
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TAG = json.load(open(os.path.join(V, "tools", "fixtags.json")))
out = subprocess.run(["git", "-C", "/repo", "log", "--reverse", "--format=%h %s"], capture_output=True, text=True).stdout.splitlines()
fixed = []
for l in out:
    h, s = l.split(" ", 1)
    if not s.startswith("fix: "):
        continue
    s = s[5:]
    t = next((v for k, v in TAG.items() if s.startswith(k)), None)
    assert t, s
    for p in t:
        fixed.append(f"fixed: property={p} {h} {s}")
f = os.path.join(V, "known_findings.json")
cur = json.load(open(f))["findings"] if os.path.exists(f) else []
json.dump({"findings": cur, "fixed": fixed}, open(f, "w"), indent=1)
