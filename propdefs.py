#!/usr/bin/env python3
"""The properties, in words; writes properties.jsonl and MANIFEST.json."""
import json, os, subprocess
HERE = os.path.dirname(os.path.abspath(__file__))
import sys
sys.path.insert(0, HERE)
from props import PROPS

L = "libshpool/src/"


def m(name, where):
    return dict(name=name, where=where)


DEFS = []


def D(id, title, statement, over, text, why, files, mech, technique, note, state=None, observe=None):
    a = dict(files=files, mechanism=mech)
    if state:
        a["state"] = state
    if observe:
        a["observe_at"] = observe
    DEFS.append(dict(prop=dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                               why_tests_cant=why, anchors=a), technique=technique, note=note))


LEAFNOTE = ("Bounded: every value within the bounds listed in the evidence file; nothing is claimed beyond them. "
            "Trusts the LLVM IR executor (rsym, validated by replaying sampled paths natively on every run) and z3.")
SE = "symbolic execution of the LLVM IR of the real code + SMT (z3)"

exec(open(os.path.join(HERE, "propdefs_list.py")).read())

NA = []
if os.path.exists(os.path.join(HERE, "not_applicable.json")):
    NA = json.load(open(os.path.join(HERE, "not_applicable.json")))


def main():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for d in DEFS:
            f.write(json.dumps(d["prop"]) + "\n")
    checks = []
    na = {x["property"]: x for x in NA}
    for d in DEFS:
        i = d["prop"]["id"]
        if i in PROPS and i not in na:
            checks.append(dict(property=i, quick_cmd="./check.py %s --tier quick" % i,
                               thorough_cmd="./check.py %s --tier thorough" % i,
                               technique=d["technique"], level="model_checking", level_note=d["note"]))
        elif i not in na:
            raise SystemExit("%s has neither a check nor a reason" % i)
    hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], capture_output=True, text=True).stdout
    hooks = [l.split()[0] for l in hook.splitlines() if "shpool_verif cfg" in l]
    json.dump(dict(version=1, setup_cmd="./check.py --setup",
                   hooks=dict(guard="cfg(shpool_verif)", enable='RUSTFLAGS="--cfg shpool_verif"', source_commits=hooks),
                   checks=checks, not_applicable=NA), open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)


main()
