#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json (one place for the claims)."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

def P(id, title, statement, over, text, why, files, mech, observe, state=None, claim=True, note="", reason=""):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                mech=mech, observe=observe, state=state or [], claim=claim, note=note, reason=reason)

props = []
exec(open(os.path.join(here, "tools", "claims.py")).read())

with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in props:
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["text"]},
             "why_tests_cant": p["why"],
             "anchors": {"files": p["files"],
                         "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                         "observe_at": p["observe"], "hook_needed": None}}
        if p["state"]:
            d["anchors"]["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(d) + "\n")

TRUST = (" Assurance: seeded search over simulated executions, each one exactly repeatable; it samples the space and proves nothing. "
         "Trusts: rustc, std, serde, indexmap and unsafe-libyaml as vendored, the simulator's reference models, and that panics unwind.")
m = {"version": 1, "setup_cmd": "bash build.sh",
     "checks": [{"property": p["id"],
                 "quick_cmd": f"bash check.sh {p['id']} quick",
                 "thorough_cmd": f"bash check.sh {p['id']} thorough",
                 "technique": "deterministic simulation with fault injection (seeded search, minimised replay)",
                 "level": "exploration",
                 "level_note": p["note"] + TRUST} for p in props if p["claim"]],
     "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in props if not p["claim"]],
     "notes": "No hooks in /repo: the library's own seams (io::Read, io::Write, Visitor, Serialize, Display, global allocator, getrandom, threads) are enough."}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
