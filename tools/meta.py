"""Single source of properties.jsonl and MANIFEST.json.  Run: python3 tools/meta.py"""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
NOT_APPLICABLE = []


def prop(id, title, statement, over, text, why, files, mechanism, observe, note, level="proof"):
    assert len(title) <= 80, (id, len(title))
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                      anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mechanism], observe_at=observe, hook_needed=None),
                      _note=note, _level=level))


exec(open(os.path.join(ROOT, "tools", "props_text.py")).read())

COMMON_NOTE = (" Proof: every obligation is generated from /repo's current source on this run by symbolic execution of the real functions and discharged by the "
               "normaliser/z3; arrays have symbolic lengths, numbers are mathematical reals/integers (no rounding, no overflow). numpy, sklearn, pandas and the random "
               "generators are modelled by trusted contracts listed in the evidence file. Every contract is also replayed on the real code with concrete inputs (cross-check, not counted as proof).")

with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    for p in PROPS:
        f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")

na = {x["property"] for x in NOT_APPLICABLE}
man = dict(version=1, setup_cmd="./check --selftest",
           checks=[dict(property=p["id"], quick_cmd=f"./check {p['id']} --tier quick", thorough_cmd=f"./check {p['id']} --tier thorough",
                        evidence_file=f"evidence/{p['id']}.json",
                        technique="contract-based deductive verification: symbolic execution of the real source into proof obligations, discharged by an algebraic normaliser and z3",
                        level=p["_level"], level_note=p["_note"] + COMMON_NOTE) for p in PROPS if p["id"] not in na],
           not_applicable=NOT_APPLICABLE,
           notes="No hooks in /repo. Set PV_REPO to check another tree by hand; the registered commands always read /repo.")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")
print(len(PROPS), "properties")
