#!/usr/bin/env python3
"""Regenerate properties.jsonl, MANIFEST.json and the per-property part of DESIGN.md from tools/props.py."""
import json, os, re, sys
H = os.path.dirname(os.path.abspath(__file__))
V = os.path.dirname(H)
sys.path.insert(0, H)
from props import PROPS

checks = json.load(open(os.path.join(V, "harness", "checks.json")))


def subs(pid):
    """(name, rule) of the sub-checks of a property, read from its sources."""
    out = {}
    todo = [s.partition(":")[0] for s in checks[pid]["sources"]]
    for f in dict.fromkeys(todo):
        txt = open(os.path.join(V, "harness", f)).read()
        for inc in ([] if "NO_SUBS" in txt else re.findall(r'#include "([as]0\d\.cpp|mono_check\.hpp)"', txt)):
            txt += re.sub(r"\s*\\\n", "\n", open(os.path.join(V, "harness", inc)).read())
        # Only the part compiled for this property.
        for m in re.finditer(r'PBT_(?:RACY_)?SUB\((\w+), (\d+), (\d+),\s*((?:"(?:[^"\\]|\\.)*"\s*)+)\)', txt):
            rule = "".join(re.findall(r'"((?:[^"\\]|\\.)*)"', m.group(4)))
            out[m.group(1)] = rule
    return out


with open(os.path.join(V, "properties.jsonl"), "w") as f:
    for p in PROPS:
        d = {"id": p["id"], "title": p["title"], "statement": p["statement"],
             "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
             "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mechanism"]],
                         "observe_at": p["observe"], "hook_needed": None}}
        if p["state"]:
            d["anchors"]["state"] = [dict(zip(("name", "meaning", "where"), s)) for s in p["state"]]
        assert len(p["title"]) <= 80, p["title"]
        n = len(re.findall(r"\.(?:\s|$)", p["statement"]))
        assert n <= 3, (p["id"], n)
        f.write(json.dumps(d) + "\n")

man = {"version": 1,
       "setup_cmd": "python3 tools/setup.py",
       "checks": [], "not_applicable": []}
for p in PROPS:
    if p["id"] not in checks:
        man["not_applicable"].append({"property": p["id"], "reason": "no check has been built for it yet"})
        continue
    c = checks[p["id"]]
    man["checks"].append({
        "property": p["id"],
        "quick_cmd": "python3 run.py %s --tier quick" % p["id"],
        "thorough_cmd": "python3 run.py %s --tier thorough" % p["id"],
        "evidence_file": "evidence/%s.json" % p["id"],
        "technique": p["technique"],
        "level": "exploration",
        "level_note": "Generated inputs, not a proof: " + p["oracle"] + ". " + (p["note"] or "Trusts the compiler, GMP, "
                      "Boost and oneTBB, the stand-in for mp++ in shim/ where rational or big integer coefficients are "
                      "used, and the reference model in harness/.")})
with open(os.path.join(V, "MANIFEST.json"), "w") as f:
    json.dump(man, f, indent=1)
    f.write("\n")

head = open(os.path.join(H, "design_head.md")).read()
tail = open(os.path.join(H, "design_tail.md")).read()
out = [head, "\n## The properties\n"]
for p in PROPS:
    out.append("### %s — %s\n\n%s\n\n- **Oracle:** %s.\n- **Over:** %s.\n- **Why the tests cannot settle it:** %s\n" % (
        p["id"], p["title"], p["statement"], p["oracle"], p["qtext"], p["why"]))
    if p["id"] in checks:
        c = checks[p["id"]]
        out.append("- **Generated cases** (`harness/%s`, %d instantiation(s)):\n" % (
            c["sources"][0].partition(":")[0], len(c["sources"])))
        for n, r in subs(p["id"]).items():
            out.append("  - `%s`: %s.\n" % (n, r))
    out.append("\n")
out.append(tail)
open(os.path.join(V, "DESIGN.md"), "w").write("".join(out))
print("%d properties, %d checks" % (len(PROPS), len(man["checks"])))
