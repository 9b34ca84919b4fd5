#!/usr/bin/env python3
"""One source for properties.jsonl, MANIFEST.json and pdsmon/props.json. Run after editing."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, observe, rule, note, technique=None,
         state=None, hook=None, kinds=None, assumptions=None, min_distinct=20, claimed=True):
    assert len(title) <= 80, title
    assert statement.count(". ") <= 2, (id, statement.count(". "))
    for f in files:
        assert os.path.exists("/repo/" + f), f
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, observe=observe, rule=rule, note=note, technique=technique, state=state, hook=hook,
                  kinds=kinds, assumptions=assumptions or [], min_distinct=min_distinct, claimed=claimed))


RM = "runtime monitoring of the built extension: seeded hostile workloads judged online by an independent oracle"
EX = "python/polars_ds/exprs/"
exec(open(os.path.join(HERE, "tools", "properties_src.py")).read())


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P:
            d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
                 "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                 "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]],
                             "observe_at": p["observe"], "hook_needed": p["hook"]}}
            if p["state"]:
                d["anchors"]["state"] = [dict(zip(("name", "meaning", "where"), s)) for s in p["state"]]
            f.write(json.dumps(d) + "\n")
    done = [p for p in P if p["claimed"]]
    commits = os.popen("git -C /repo log --format=%H --grep='^hook' ").read().split()
    man = {"version": 1, "setup_cmd": "bash setup.sh",
           "hooks": {"guard": "--cfg pds_verif",
                     "enable": "cargo rustc --lib -- --cfg pds_verif (pdsmon/build.py, builds `asan` and `ubchecks`)",
                     "source_commits": commits},
           "checks": [{"property": p["id"], "quick_cmd": f"./check {p['id']} quick",
                       "thorough_cmd": f"./check {p['id']} thorough",
                       "technique": p["technique"] or RM, "level": "exploration", "level_note": p["note"]}
                      for p in done],
           "not_applicable": [{"property": p["id"], "reason": p["note"]} for p in P if not p["claimed"]]}
    json.dump(man, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
    pj = {p["id"]: {"rule": p["rule"], "kinds": p["kinds"] or ["plain"], "assumptions": p["assumptions"],
                    "min_distinct": p["min_distinct"]} for p in done}
    json.dump(pj, open(os.path.join(HERE, "pdsmon", "props.json"), "w"), indent=1)
    print(len(P), "properties,", len(done), "claimed")


main()
