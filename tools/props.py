#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the list below (run after editing it)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, quant, why, files, mech, note=None, observe=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=quant), why_tests_cant=why,
                  anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech], **({"observe_at": observe} if observe else {})), note=note))


exec(open(os.path.join(ROOT, "tools", "props_list.py")).read())

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps({k: v for k, v in p.items() if k != "note"}) + "\n")
NOTE = "Random search with shrinking and an independent oracle; says nothing about inputs outside the generator bounds listed in DESIGN.md. Trusts GMP, the compiler and the reference models in harness/."
man = dict(version=1, setup_cmd="python3 check.py setup",
           checks=[dict(property=p["id"], quick_cmd=f"python3 check.py {p['id']}", thorough_cmd=f"python3 check.py {p['id']}",
                        evidence_file=f"evidence/{p['id']}.json", technique="property-based testing against a reference model",
                        level="exploration", level_note=(p["note"] + " " if p["note"] else "") + NOTE)
                   for p in P if os.path.exists(os.path.join(ROOT, "harness", p["id"] + ".cpp"))],
           not_applicable=[], notes="All checks share harness/pbt.cpp (engine) and check.py (build and run). See DESIGN.md.")
na = os.path.join(ROOT, "tools", "not_applicable.json")
if os.path.exists(na):
    man["not_applicable"] = json.load(open(na))
json.dump(man, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(P), "properties,", len(man["checks"]), "checks")
