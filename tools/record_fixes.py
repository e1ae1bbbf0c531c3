"""Records every fix: commit of /repo that known_findings.json does not hold yet. Usage: record_fixes.py <hash>=<property> ..."""
import json, subprocess, sys
P = "/verif/known_findings.json"
k = json.load(open(P))
for a in sys.argv[1:]:
    h, p = a.split("=")
    s = subprocess.run(["git", "-C", "/repo", "log", "-1", "--format=%s", h], stdout=subprocess.PIPE, text=True).stdout.strip()
    assert s.startswith("fix: ")
    if not any(f["key"] == "fixed-" + h for f in k["findings"]):
        k["findings"].append({"property": p, "status": "fixed", "key": "fixed-" + h, "what": "fixed: property=%s %s %s" % (p, h, s[5:])})
rest = {x: v for x, v in k.items() if x != "findings"}
with open(P, "w") as f:
    f.write("{" + "".join(json.dumps(x) + ": " + json.dumps(v) + ", " for x, v in rest.items()) + '"findings": [\n' + ",\n".join(" " + json.dumps(x) for x in k["findings"]) + "\n]}\n")
