"""DESIGN.md from the prose below, the scenarios' own bounds and assumptions, the planted bugs and the known findings:
python3-vt tools/gen_design.py"""
import importlib
import json
import os
import sys

TOP = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, TOP)
HEAD = open(os.path.join(TOP, "tools", "design_head.md"), encoding="utf-8").read()
TAIL = open(os.path.join(TOP, "tools", "design_tail.md"), encoding="utf-8").read()
HOW = {}
cur = None
for line in open(os.path.join(TOP, "tools", "design_props.md"), encoding="utf-8"):
    if line.startswith("## "):
        cur = line[3:].strip()
        HOW[cur] = ""
    elif cur:
        HOW[cur] += line


def short(params):
    return len(params or [])


def main():
    props = [json.loads(x) for x in open(os.path.join(TOP, "properties.jsonl"), encoding="utf-8")]
    man = json.load(open(os.path.join(TOP, "MANIFEST.json"), encoding="utf-8"))
    na = {x.get("property", x.get("property_id", x.get("id"))): x["reason"] for x in man["not_applicable"]}
    out = [HEAD.rstrip(), "", "## The properties, one by one", ""]
    for p in props:
        i = p["id"]
        out += ["### %s %s" % (i, p["title"]), ""]
        if i in na:
            out += ["Not applicable: " + na[i], ""]
            continue
        m = importlib.import_module("props." + i.lower())
        out += [HOW[i].strip(), "", "Why the tests cannot settle it: " + p["why_tests_cant"], "", "Scenarios and their bounds:", ""]
        for s in m.SCENARIOS:
            out.append("- `%s` (%d quick / %d thorough parameter sets): %s" % (s["name"], short(s.get("quick")), short(s.get("thorough") or s.get("quick")), s["bounds"]))
        a = getattr(m, "ASSUMPTIONS", [])
        if a:
            out += ["", "Outside the claim, assumed: " + "; ".join(a) + "."]
        out.append("")
    out += ["## Genuine defects found and repaired", ""]
    for line in open(os.path.join(TOP, "known_findings.txt"), encoding="utf-8"):
        if line.startswith("fixed:"):
            _, prop, commit, what = line.split(" ", 3)
            out.append("- %s, commit %s: %s" % (prop.split("=")[1], commit, what.strip()))
        elif line.startswith("KNOWN") or line.startswith("finding"):
            out.append("- (open) " + line.strip())
    out += ["", "## Planted bugs", "",
            "Each was confirmed in a scratch copy: applies to HEAD, builds, the 28 stable tests pass, its `demo.sh` exits 0 without and non-zero with it.",
            "`caught` is the result of the property's quick check with the bug applied.", "", "| bug | what it needs | caught by |", "|---|---|---|"]
    res = {}
    f = os.path.join(TOP, "tools", "seed_results.txt")
    for line in open(f, encoding="utf-8") if os.path.exists(f) else []:
        a = line.split()
        res[a[0]] = a[1]
    base = os.path.join(TOP, "seeded")
    for s in sorted(os.listdir(base)):
        d = json.load(open(os.path.join(base, s, "meta.json"), encoding="utf-8"))
        r = res.get(s)
        out.append("| %s | %s | %s |" % (s, d["needs"].replace("|", "/"), d["property"] + " quick" if r == "rc=1" else "not caught" if r else "not run"))
    out += ["", TAIL.rstrip(), ""]
    open(os.path.join(TOP, "DESIGN.md"), "w", encoding="utf-8").write("\n".join(out))


main()
