#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json. Run after editing."""
import json
import os

R = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, tests, files, mech, technique, note, state=None):
    assert len(title) <= 80, (id, len(title))
    assert statement.count(". ") + 1 <= 3, (id, statement)
    for f in files:
        assert os.path.exists("/repo/" + f), (id, f)
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append(dict(
        p=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=tests, anchors=a),
        m=dict(property=id, quick_cmd=f"./check {id} quick", thorough_cmd=f"./check {id} thorough", technique=technique,
               level="model_checking", level_note=note)))


exec(open(os.path.join(R, "tools/props.py")).read())

if __name__ == "__main__":
    P.sort(key=lambda x: x["p"]["id"])
    assert len({x["p"]["id"] for x in P}) == len(P)
    with open(os.path.join(R, "properties.jsonl"), "w") as out:
        for x in P:
            out.write(json.dumps(x["p"]) + "\n")
    json.dump({"version": 1, "setup_cmd": "bash setup.sh", "checks": [x["m"] for x in P], "not_applicable": []},
              open(os.path.join(R, "MANIFEST.json"), "w"), indent=1)
    for x in P:
        assert os.path.exists(os.path.join(R, "harness/props", x["p"]["id"].lower() + ".py")), x["p"]["id"]
    print(len(P), "properties")
