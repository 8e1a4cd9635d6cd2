"""Source of properties.jsonl and MANIFEST.json (run: python3 tools/meta.py)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []
NA = []


def P(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech])
    if state:
        a["state"] = state
    if observe:
        a["observe_at"] = [observe]
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                      why_tests_cant=why, anchors=a))


SNOW = "openamundsen/modules/snow/"
exec(open(os.path.join(HERE, "tools", "props_meta.py")).read())


def main():
    ids = [p["id"] for p in PROPS]
    assert len(set(ids)) == len(ids)
    for p in PROPS:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in PROPS:
            f.write(json.dumps(p) + "\n")
    na = {n["property"] for n in NA}
    checks = []
    for p in PROPS:
        i = p["id"]
        if i in na:
            continue
        checks.append(dict(
            property=i,
            quick_cmd=f"/opt/venv/bin/python /verif/check.py {i} --tier quick",
            thorough_cmd=f"/opt/venv/bin/python /verif/check.py {i} --tier thorough",
            evidence_file=f"/verif/evidence/{i}.json",
            technique="symbolic execution of the real Python functions with z3 deciding every claim on every feasible path",
            level="other",
            level_note="bounded solver-based verification: all values within the bounds of props/%s.py (stated there and in the evidence) over real "
                       "arithmetic; counterexamples are replayed on the JIT-compiled code" % i,
        ))
    m = dict(version=1, setup_cmd="true", checks=checks, not_applicable=NA,
             notes="No hooks are needed in /repo. Every run re-imports /repo's working tree.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
