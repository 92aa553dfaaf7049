#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run after editing it)."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, state=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, technique=technique, note=note, state=state))


exec(open(os.path.join(HERE, "tools", "table.py")).read())

NOTE = ("Generated-input search on the real code, never a proof: holds on every case explored at the given seed; "
        "floating-point oracles carry stated tolerances. ")
claimed = [p for p in P if os.path.exists(os.path.join(HERE, "props", p["id"] + ".py"))]
with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["id"]
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"],
                                quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                                anchors=dict(files=p["files"],
                                             state=[dict(name=a, meaning=b, where=c) for a, b, c in p["state"]],
                                             mechanism=[dict(name=a, where=b) for a, b in p["mech"]],
                                             hook_needed=None))) + "\n")
man = dict(version=1, setup_cmd="python3 tools/setup_check.py",
           checks=[dict(property=p["id"], quick_cmd=f"python3 check.py {p['id']}",
                        thorough_cmd=f"python3 check.py {p['id']} --tier thorough",
                        evidence_file=f"evidence/{p['id']}.json", technique=p["technique"], level="exploration",
                        level_note=NOTE + p["note"]) for p in claimed],
           not_applicable=[dict(property=p["id"], reason="check not built yet") for p in P if p not in claimed],
           notes="Pure Python: every check imports /repo's working tree, so there is nothing to build and no hook. "
                 "pylibxc is not installable offline; lib/stubs/pylibxc.py stands in for it.")
with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
print(len(P), "properties,", len(claimed), "claimed")
