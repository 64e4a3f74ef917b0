#!/usr/bin/env python3
"""Generates properties.jsonl and MANIFEST.json.  A property is claimed when props/<id>.py exists."""
import json
import os

HERE = os.path.dirname(os.path.abspath(__file__))
P = {}
TESTS = "The existing tests evaluate a handful of fixed or random inputs and mostly compare two code paths or check shapes; "


def prop(pid, title, stmt, quant, why, mech, over=("inputs",), na=None, tech=None, note=None):
    files = []
    for n, w in mech:
        f = w.split(":")[0]
        if f not in files:
            files.append(f)
    P[pid] = dict(title=title, stmt=stmt, quant=quant, why=TESTS + why, over=list(over), files=files,
                  mech=[dict(name=n, where=w) for n, w in mech], na=na, tech=tech, note=note)


exec(open(os.path.join(HERE, "propdefs.py")).read())

TECH = "symbolic execution of the traced code (jaxpr) + SMT (z3/cvc5), counterexamples replayed"
NOTE = ("Every obligation is decided by the solver (or the canonical form of the encoding) for all real inputs within the "
        "stated boxes and array sizes; exact reals with explicit tolerances instead of floats, undecided obligations are reported as INCONCLUSIVE, not as held.")


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for pid in sorted(P):
            p = P[pid]
            assert len(p["title"]) <= 80, pid
            f.write(json.dumps(dict(id=pid, title=p["title"], statement=p["stmt"],
                                    quantifier=dict(over=p["over"], text=p["quant"]), why_tests_cant=p["why"],
                                    anchors=dict(files=p["files"], mechanism=p["mech"]))) + "\n")
    checks, na = [], []
    for pid in sorted(P):
        p = P[pid]
        if os.path.exists(os.path.join(HERE, "props", pid + ".py")) and not p["na"]:
            checks.append(dict(property=pid, quick_cmd=f"./check.py {pid} --tier quick",
                               thorough_cmd=f"./check.py {pid} --tier thorough", evidence_file=f"evidence/{pid}.json",
                               technique=p["tech"] or TECH, level="other", level_note=p["note"] or NOTE))
        else:
            na.append(dict(property=pid, reason=p["na"] or "no check built yet"))
    m = dict(version=1, setup_cmd="./setup.sh", checks=checks, not_applicable=na)
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    print(len(checks), "claimed", len(na), "not")


main()
