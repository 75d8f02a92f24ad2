#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one list in tools/props.py."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
from props import PROPS, NOT_APPLICABLE  # noqa: E402

TECH = "symbolic execution of the real Python code with Z3 (SMT), bounded"
lines, checks = [], []
for p in PROPS:
    assert len(p["title"]) <= 80, p["id"]
    lines.append(json.dumps({
        "id": p["id"], "title": p["title"], "statement": p["statement"],
        "quantifier": {"over": p.get("over", ["inputs", "configurations"]), "text": p["for_all"]},
        "why_tests_cant": p["why"],
        "anchors": {"files": p["files"],
                    "mechanism": [{"name": a, "where": b} for a, b in p["mech"]]}}))
    if p["id"] in NOT_APPLICABLE:
        continue
    checks.append({
        "property": p["id"], "quick_cmd": f"python3 check.py {p['id']} --tier quick",
        "thorough_cmd": f"python3 check.py {p['id']} --tier thorough",
        "technique": TECH, "level": "model_checking", "level_note": p["note"]})
with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
    f.write("\n".join(lines) + "\n")
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump({"version": 1, "setup_cmd": "python3 tools/setup.py", "checks": checks,
               "not_applicable": [{"property": k, "reason": v} for k, v in NOT_APPLICABLE.items()]}, f, indent=1)
    f.write("\n")


def meta(pid):
    import ast
    path = os.path.join(ROOT, "harness", pid.lower() + ".py")
    if not os.path.exists(path):
        return {}
    for st in ast.parse(open(path).read()).body:
        if isinstance(st, ast.Assign) and getattr(st.targets[0], "id", "") == "META":
            return ast.literal_eval(st.value)
    return {}


out = []
for p in PROPS:
    m = meta(p["id"])
    out.append(f"### {p['id']} {p['title']}\n")
    if p["id"] in NOT_APPLICABLE:
        out.append("Not applicable: " + NOT_APPLICABLE[p["id"]] + "\n")
        continue
    out.append("* Anchors: " + ", ".join(f"`{b}` ({a})" for a, b in p["mech"]))
    out.append("* Decided for all of: " + m.get("bounds", p["for_all"]) + ".")
    if m.get("assumptions"):
        out.append("* Stand-ins / assumptions: " + "; ".join(m["assumptions"]) + ".")
    if m.get("outside"):
        out.append("* Outside: " + m["outside"] + ".")
    out.append("* Why tests cannot: " + p["why"] + ".\n")
bugs = ["| bug | property | needs | what it breaks |", "|---|---|---|---|"]
sd = os.path.join(ROOT, "seeded")
for b in sorted(os.listdir(sd)) if os.path.isdir(sd) else []:
    m = json.load(open(os.path.join(sd, b, "meta.json")))
    bugs.append(f"| {b} | {m['property']} (caught) | {m['needs']} | {m['what_it_breaks']} |")
d = os.path.join(ROOT, "DESIGN.md")
t = open(d).read()
for tag, body in (("table", out), ("seeded", bugs)):
    a, rest = t.split(f"<!-- {tag} -->\n", 1)
    _, z = rest.split(f"<!-- /{tag} -->", 1)
    t = a + f"<!-- {tag} -->\n" + "\n".join(body) + f"\n<!-- /{tag} -->" + z
with open(d, "w") as f:
    f.write(t)
