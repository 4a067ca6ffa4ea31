#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (a property with checks/<id>.py is claimed)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P, N = [], []
VF = "gated value-flow evaluation of MIR (custom rustc driver): decision tables compared for all variants"


def prop(id, title, statement, over, quant, why, files, mech, technique=VF, note="", na=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over.split(), text=quant), why_tests_cant=why,
                  anchors=dict(files=files.split(), mechanism=mech)))
    assert len(title) <= 80, (id, len(title))
    P[-1]["_t"], P[-1]["_n"], P[-1]["_na"] = technique, note, na


exec(open(os.path.join(ROOT, "tools", "props_data.py")).read())

checks, na = [], []
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in P:
        t, n, a = p.pop("_t"), p.pop("_n"), p.pop("_na")
        f.write(json.dumps(p) + "\n")
        if os.path.exists(os.path.join(ROOT, "checks", p["id"].lower() + ".py")):
            c = "python3 run.py " + p["id"]
            checks.append(dict(property=p["id"], quick_cmd=c, thorough_cmd=c, technique="static analysis: " + t, level="other",
                               level_note=n or "Decided over the MIR of the current tree for all paths through the analysed functions; the models of "
                               "library functions (sa/models.py) and the specified tables are trusted."))
        else:
            assert a, "no check and no reason for " + p["id"]
            na.append(dict(property=p["id"], reason=a))
json.dump(dict(version=1, setup_cmd="python3 setup.py", checks=checks, not_applicable=na), open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks,", len(na), "not applicable")
