#!/usr/bin/env python3
"""The properties and the manifest, written from one table. Run after editing: python3 tools/props.py"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, level="model_checking", observe=None, state=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, technique=technique, note=note, level=level, observe=observe, state=state))


NA = []
exec(open(HERE + "/tools/table.py").read())

if __name__ == "__main__":
    with open(HERE + "/properties.jsonl", "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            d = {"id": p["id"], "title": p["title"], "statement": p["statement"], "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                 "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]], "observe_at": p["observe"] or ["the files binder writes", "the Python module built from them"], "hook_needed": None}}
            f.write(json.dumps(d) + "\n")
        for p in NA:
            f.write(json.dumps(p[0]) + "\n")
    checks = []
    for p in P:
        if not os.path.exists(HERE + "/checks/%s.py" % p["id"]):
            continue
        checks.append({"property": p["id"], "quick_cmd": "python3 checks/%s.py" % p["id"], "thorough_cmd": "VERIF_TIER=thorough python3 checks/%s.py thorough" % p["id"],
                       "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"], "level": p["level"], "level_note": p["note"]})
    done = {c["property"] for c in checks}
    na = [{"property": p["id"], "reason": "no check yet"} for p in P if p["id"] not in done] + [{"property": p[0]["id"], "reason": p[1]} for p in NA]
    m = {"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks, "not_applicable": na,
         "notes": "No hooks are needed: every check drives the real executable (or the real script/header) built from /repo's current working tree into /verif/build, keyed by content. Commits in /repo are defect repairs only (see known_findings.json)."}
    with open(HERE + "/MANIFEST.json", "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(P), "properties", len(checks), "checks")
