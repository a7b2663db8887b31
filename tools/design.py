"""Writes DESIGN.md from tools/design_head.md, tools/meta.py, the check modules, tools/costs.json and tools/design_tail.md.

    python3 tools/design.py            (add --costs to refresh tools/costs.json from evidence/)
"""
import ast
import glob
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import meta

HERE = meta.HERE
T = os.path.join(HERE, "tools")


def consts(path):
    out = {}
    for n in ast.parse(open(path).read()).body:
        if isinstance(n, ast.Assign) and getattr(n.targets[0], "id", "") in ("RULE", "ASSUMPTIONS"):
            out[n.targets[0].id] = ast.literal_eval(n.value)
    return out


def main():
    cp = os.path.join(T, "costs.json")
    costs = json.load(open(cp)) if os.path.exists(cp) else {}
    if "--costs" in sys.argv:
        for f in glob.glob(os.path.join(HERE, "evidence", "C*.json")):
            d = json.load(open(f))
            c = d["coverage"]
            if c["exhaustive"] and d["tier"] == "quick":
                costs[d["property"]] = dict(states=c["states"], transitions=c["transitions"],
                                            traces=c["traces_validated_against_impl"], outcomes=c["distinct_nontrivial"], wall=round(d["wall_s"]))
        json.dump(costs, open(cp, "w"), indent=1, sort_keys=True)
    notes = json.load(open(os.path.join(T, "design_notes.json")))
    o = [open(os.path.join(T, "design_head.md")).read().rstrip(), ""]
    for p in meta.P:
        c = consts(os.path.join(HERE, "checks", p["id"].lower() + ".py"))
        o += [f"### {p['id']} {p['title']}", "", p["statement"], "",
              f"*Quantified over*: {p['text']}. *Why tests cannot settle it*: {p['why']}.", "",
              f"*Enumerated*: {c['RULE']}.", "",
              f"*Method and oracle*: {p['note']}" + (" " + notes[p["id"]] if p["id"] in notes else ""), "",
              "*Assumptions*: " + "; ".join(c["ASSUMPTIONS"]) + ".", ""]
        if p["id"] in costs:
            k = costs[p["id"]]
            o += [f"*Cost (quick)*: {k['states']} states, {k['transitions']} transitions, {k['traces']} executions compared, "
                  f"{k['outcomes']} distinct outcomes, about {k['wall']} s on 8 cores.", ""]
    o.append(open(os.path.join(T, "design_tail.md")).read().rstrip())
    catches = json.load(open(os.path.join(T, "catches.json")))
    o += ["", "## 8. Planted bugs and which checks catch them", "",
          "Each was written from the property's text and the code, builds, passes the stable tests and has a demonstration; tried with `tools/seed.py`.", "",
          "| bug | property | needs | caught by | missed by |", "|---|---|---|---|---|"]
    for i, e in sorted(catches.items()):
        m = os.path.join(HERE, "seeded", i, "meta.json")
        if os.path.exists(m):
            o.append(f"| {i} | {e['property']} | {json.load(open(m))['needs']} | {' '.join(e['caught'])} | {' '.join(e['missed'])} |")
    open(os.path.join(HERE, "DESIGN.md"), "w").write("\n".join(o) + "\n")


main()
