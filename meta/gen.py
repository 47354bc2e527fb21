#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below."""
import json, os, sys
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

P = []
def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), technique="", note="", na=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files,
                  mech=mech, state=state, observe=observe, technique=technique, note=note, na=na))

PROTO = "protocol/"
GEN = "protocol/genout.go"
FS = "filesystem/filesystem.go"
AI = "abstract interpretation of the SSA form, path-sensitive and interprocedural, with fixpoint loop summaries: "

exec(open(os.path.join(here, "meta", "props.py")).read())

with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["qtext"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "state": [dict(name=a, meaning=b, where=c) for a, b, c in p["state"]],
                        "mechanism": [dict(name=a, where=b) for a, b in p["mech"]],
                        "observe_at": list(p["observe"]), "hook_needed": None}}) + "\n")

m = {"version": 1,
     "setup_cmd": "bash /verif/setup.sh",
     "checks": [], "not_applicable": [],
     "notes": "Every check is the same analyser (tool/, Go with vendored golang.org/x/tools) reading /repo's current source; nothing of /repo is run. quick analyses the linux build; thorough adds linux with the pprof tag, darwin, freebsd and windows."}
for p in P:
    if p["na"]:
        m["not_applicable"].append({"property": p["id"], "reason": p["na"]})
    else:
        m["checks"].append({"property": p["id"],
            "quick_cmd": "bash /verif/check.sh %s quick" % p["id"],
            "thorough_cmd": "bash /verif/check.sh %s thorough" % p["id"],
            "evidence_file": "evidence/%s.json" % p["id"],
            "technique": p["technique"], "level": "other", "level_note": p["note"]})
with open(os.path.join(here, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1)
    f.write("\n")
