#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (run after editing this file)."""
import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TRUST = ("Generated-input search on cnosdb's own sources, compiled with overflow checks and debug assertions; "
         "no claim about cases outside the generated families. ")
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, state=(), observe=(), claimed=True, reason=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                  technique=technique, note=note, state=state, observe=observe, claimed=claimed, reason=reason))


exec(open(os.path.join(VERIF, "tools", "props_light.py")).read())
h = os.path.join(VERIF, "tools", "props_heavy.py")
if os.path.exists(h):
    exec(open(h).read())

P.sort(key=lambda p: p["id"])
with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps({
            "id": p["id"], "title": p["title"], "statement": p["statement"],
            "quantifier": {"over": p["over"], "text": p["text"]},
            "why_tests_cant": p["why"],
            "anchors": {"files": p["files"],
                        "state": [dict(zip(("name", "meaning", "where"), s)) for s in p["state"]],
                        "mechanism": [dict(zip(("name", "where"), m)) for m in p["mech"]],
                        "observe_at": list(p["observe"]), "hook_needed": None},
        }, ensure_ascii=False) + "\n")
man = {
    "version": 1,
    "setup_cmd": "sh setup.sh",
    "checks": [{
        "property": p["id"],
        "quick_cmd": f"python3 run.py {p['id']} --tier quick",
        "thorough_cmd": f"python3 run.py {p['id']} --tier thorough",
        "technique": p["technique"], "level": "exploration", "level_note": TRUST + p["note"],
    } for p in P if p["claimed"]],
    "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in P if not p["claimed"]],
    "notes": "Every check stages cnosdb's sources from /repo (CNOSDB_REPO), builds one harness binary from them and runs "
             "generated cases against an explicit oracle. Replay a failure with: python3 run.py ID --replay FILE. No hooks in /repo.",
}
with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1, ensure_ascii=False)
    f.write("\n")
print(len(P), "properties,", len(man["checks"]), "claimed")
