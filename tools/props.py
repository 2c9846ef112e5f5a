"""The properties, in one place: writes properties.jsonl and MANIFEST.json (run: python3 tools/props.py)."""
import json
import os
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
L = "lib/include/dots/"
S = "lib/src/"
P = []
NA = []


def prop(id, title, statement, over, text, why, files, mechanism, state=(), observe=(), technique="", level="model_checking", note=""):
    P.append(dict(
        p=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
               anchors=dict(files=files, mechanism=[dict(name=a, where=b) for a, b in mechanism],
                            state=[dict(name=a, meaning=b, where=c) for a, b, c in state], observe_at=list(observe), hook_needed=None)),
        technique=technique, level=level, note=note))


exec(open(os.path.join(VERIF, "tools", "props_data.py")).read())


def main():
    import checks
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for x in P:
            f.write(json.dumps(x["p"]) + "\n")
    m = dict(version=1, setup_cmd="python3 run.py --setup",
             hooks=dict(guard="DOTS_VERIF_HOOKS", enable="not needed: the checks compile the unmodified sources of /repo; no hook commits exist", source_commits=[]),
             checks=[dict(property=x["p"]["id"], quick_cmd="python3 run.py %s quick" % x["p"]["id"], thorough_cmd="python3 run.py %s thorough" % x["p"]["id"],
                          technique=x["technique"], level=x["level"], level_note=x["note"]) for x in P if x["p"]["id"] in checks.CHECKS],
             not_applicable=[dict(property=i, reason=r) for i, r in NA])
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")
    missing = [x["p"]["id"] for x in P if x["p"]["id"] not in checks.CHECKS and x["p"]["id"] not in [i for i, _ in NA]]
    print("properties", len(P), "claimed", len(m["checks"]), "unclaimed without reason", missing)
    for x in P:
        assert len(x["p"]["title"]) <= 80, x["p"]["title"]


if __name__ == "__main__":
    main()
