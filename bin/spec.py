#!/usr/bin/env python3-vt
"""Writes properties.jsonl and MANIFEST.json from the entries below."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
G = "frackit/geometry/"
PROPS = []
NA = []


def P(id, title, statement, over, text, why, files, mech, observe=(), state=(), tech=None, note=None):
    PROPS.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                      observe=list(observe), state=list(state), tech=tech, note=note))


STD = ("bounded: every path of the compiled library functions over all real inputs in the stated ranges is decided by z3 over real "
       "arithmetic; trusts the encoder, the real-number reading of doubles (rounding is outside the claim) and the stated stand-ins")

exec(open(os.path.join(ROOT, "bin", "spec_entries.py")).read())


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in PROPS:
            assert len(p["title"]) <= 80, p["id"]
            f.write(json.dumps(dict(
                id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]),
                why_tests_cant=p["why"],
                anchors=dict(files=p["files"], state=[dict(name=a, meaning=b, where=c) for a, b, c in p["state"]],
                             mechanism=[dict(name=a, where=b) for a, b in p["mech"]], observe_at=p["observe"], hook_needed=None))) + "\n")
    na = {n["property"] for n in NA}
    man = dict(version=1, setup_cmd="python3-vt -c 'import z3'",
               checks=[dict(property=p["id"], quick_cmd="python3-vt engine/check.py %s" % p["id"],
                            thorough_cmd="VERIF_TIER=thorough python3-vt engine/check.py %s" % p["id"],
                            evidence_file="evidence/%s.json" % p["id"],
                            technique=p["tech"] or "symbolic execution of the library's LLVM IR, assertions decided by z3 (nonlinear reals, bit vectors)",
                            level="model_checking", level_note=p["note"] or STD)
                       for p in PROPS if p["id"] not in na],
               not_applicable=NA,
               notes="known-findings.json lists repaired and recorded defects; DESIGN.md describes the engine and the stand-ins")
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
