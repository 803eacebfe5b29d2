#!/usr/bin/env python3
"""Single source of properties.jsonl, MANIFEST.json and mc/registry.json:  python3 mc/props.py"""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PROPS = []; NA = []
REF = "bounded specification families enumerated completely; each run of the real program is compared with an explicit-state reference game (counter product + Zielonka) that shares no code with slugs"
def P(id, title, statement, over, text, why, files, mech, engines=("mc",), observe=(), technique="", note="", assumptions=(), counters=None, state=()):
    PROPS.append(dict(id=id, title=title, statement=statement, over=list(over), text=text, why=why, files=list(files), mech=list(mech), engines=list(engines), observe=list(observe), technique=technique, note=note, assumptions=list(assumptions), counters=counters or {}, state=list(state)))
exec(open(os.path.join(V, "mc", "props_data.py")).read())
with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS + [q for q in NA]:
        f.write(json.dumps(dict(id=p["id"], title=p["title"], statement=p["statement"], quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
            anchors=dict(files=p["files"], mechanism=[dict(name=n, where=w) for n, w in p["mech"]], observe_at=p.get("observe", []), hook_needed=None))) + "\n")
m = dict(version=1, setup_cmd="bash mc/build.sh build mc && bash mc/build.sh build mcbf",
    checks=[dict(property=p["id"], quick_cmd="python3 check.py %s quick" % p["id"], thorough_cmd="python3 check.py %s thorough" % p["id"], evidence_file="evidence/%s.json" % p["id"],
        technique=p["technique"], level="model_checking", level_note=p["note"]) for p in PROPS],
    not_applicable=[dict(property=p["id"], reason=p["reason"]) for p in NA],
    notes="No hooks in /repo: the drivers compile /repo's sources out of tree (mc/build.py) and use link-time wrapping of Cudd_Init and rand only.")
if not any("mcbf" in p["engines"] for p in PROPS): m["setup_cmd"] = "bash mc/build.sh build mc"
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1); open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
json.dump({p["id"]: dict(engines=p["engines"], assumptions=p["assumptions"], counter_names=p["counters"]) for p in PROPS}, open(os.path.join(V, "mc", "registry.json"), "w"), indent=1)
for p in PROPS: assert len(p["title"]) <= 80, p["id"]
print(len(PROPS), "properties")
