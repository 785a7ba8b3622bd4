#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the tables below (the single place where they are edited)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=(), observe=(), hook=None, level_note=None, na=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=list(over), text=qtext), why_tests_cant=why,
                  anchors=dict(files=list(files), state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=hook),
                  _note=level_note, _na=na))


SIM = ("Seeded search, not a proof: every schedule, fault and operation of a run is drawn from one seed; the real library code runs instrumented under the "
       "simulator's scheduler, allocator, clock, thread and file seams. Trusted: the simulator runtime, the reference model, gcc's instrumentation. ")

exec(open(os.path.join(V, "tools", "meta_props.py")).read())

TECH = "deterministic simulation with fault injection (seeded schedule and fault search, reference-model oracle)"
HOOKS = dict(guard="DAL_SIMULATION", enable="vp.py compiles /repo's sources with -DDAL_SIMULATION (and the simulator's instrumentation) into /verif/.build",
             source_commits=HOOK_COMMITS)


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
    m = dict(version=1, setup_cmd="python3 vp.py build", hooks=HOOKS, checks=[], not_applicable=[])
    for p in P:
        if p["_na"]:
            m["not_applicable"].append(dict(property=p["id"], reason=p["_na"]))
        else:
            m["checks"].append(dict(property=p["id"], quick_cmd="python3 vp.py check " + p["id"], thorough_cmd="VERIF_TIER=thorough python3 vp.py check " + p["id"],
                                    technique=TECH, level="exploration", level_note=SIM + (p["_note"] or "")))
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
