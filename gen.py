#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from sa/props.py."""
import json
import os
import sys
import textwrap

from sa.props import NOT_APPLICABLE, PROPS

HERE = os.path.dirname(os.path.abspath(__file__))


def line(p):
    anchors = {"files": p["files"], "mechanism": [
        {"name": n, "where": w} for n, w in p["mech"]]}
    if p.get("state"):
        anchors["state"] = [{"name": n, "meaning": m} for n, m in p["state"]]
    return {
        "id": p["id"], "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": p["over"], "text": p["quant"]},
        "why_tests_cant": p["why"], "anchors": anchors,
    }


with open(os.path.join(HERE, "properties.jsonl"), "w") as fp:
    for p in PROPS + NOT_APPLICABLE:
        fp.write(json.dumps(line(p)) + "\n")

manifest = {
    "version": 1,
    "setup_cmd": "python3 -m compileall -q sa check.py gen.py || true",
    "checks": [{
        "property": p["id"],
        "quick_cmd": "python3 check.py %s --tier quick" % p["id"],
        "thorough_cmd": "python3 check.py %s --tier thorough" % p["id"],
        "technique": p["technique"],
        "level": "other",
        "level_note": p["note"],
    } for p in PROPS],
    "not_applicable": [
        {"property": p["id"], "reason": p["reason"]} for p in NOT_APPLICABLE],
    "notes": "Static analysis only: sa/project.py parses and resolves /repo "
             "on every run, sa/interp.py explores the inlined flow graph "
             "abstractly, sa/rules decide the properties.",
}
with open(os.path.join(HERE, "MANIFEST.json"), "w") as fp:
    json.dump(manifest, fp, indent=1)
    fp.write("\n")


sys.path.insert(0, os.path.join(HERE, "design"))
from how import HOW  # noqa: E402


def read(name):
    with open(os.path.join(HERE, "design", name)) as fp:
        return fp.read()


def wrap(text, first="", rest=""):
    return textwrap.fill(text, 78, initial_indent=first,
                         subsequent_indent=rest)


fixes = []
with open(os.path.join(HERE, "known-findings.txt")) as fp:
    for row in fp:
        if row.startswith("fixed: "):
            pid, commit, what = row[len("fixed: property="):].split(None, 2)
            fixes.append("* %s, `%s`: %s." % (pid, commit, what.strip()))

seeds = ["| change | property | reported by |", "|---|---|---|"]
base = os.path.join(HERE, "design", "seeds.txt")
for row in open(base) if os.path.exists(base) else ():
    seeds.append("| %s |" % " | ".join(row.strip().split("\t")))

out = [read("head.md").replace("FIXES", "\n".join(fixes))]
for p in PROPS:
    out.append("### %s: %s\n\n" % (p["id"], p["title"]))
    out.append(wrap(p["statement"]) + "\n\n")
    out.append(wrap("Decided by `%s`: %s." % (
        "`, `".join(p["rules"]), p["technique"]), "* ", "  ") + "\n")
    out.append(wrap(HOW[p["id"]], "* How: ", "  ") + "\n")
    out.append(wrap(p["why"], "* Beyond the tests: ", "  ") + "\n")
    out.append(wrap(p["note"], "* Bounds: ", "  ") + "\n\n")
out.append("## 4. Not applicable\n\n")
for p in NOT_APPLICABLE:
    out.append(wrap("%s (%s): %s" % (p["id"], p["title"], p["reason"]),
                    "* ", "  ") + "\n")
out.append("\n" + read("tail.md").replace("SEEDS", "\n".join(seeds)))
with open(os.path.join(HERE, "DESIGN.md"), "w") as fp:
    fp.write("".join(out))
