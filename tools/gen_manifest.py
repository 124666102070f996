"""Writes /verif/MANIFEST.json from properties.jsonl and the scenario modules present."""
import json, os
H = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..")
props = [json.loads(l) for l in open(os.path.join(H, "properties.jsonl"))]
NA = {
}
NOTE = ("Every path of the real code (instrumented from /repo's current source on each run) is executed symbolically within the bounds written in the "
        "evidence file; Z3 decides every branch and every assertion for all values on the path. Trusted: the instrumenter and the models of the "
        "environment (clock, files, uv, psutil, locks, ids), which sampled paths and every counterexample are replayed against on the uninstrumented code.")
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(H, "props", i.lower() + ".py")):
        checks.append(dict(property=i, quick_cmd="./check %s quick" % i, thorough_cmd="./check %s thorough" % i,
                           evidence_file="evidence/%s.json" % i,
                           technique="symbolic execution of the real Python source with Z3 deciding paths and assertions",
                           level="model_checking", level_note=NOTE))
    else:
        na.append(dict(property=i, reason=NA.get(i, "no check has been built for this property yet")))
m = dict(version=1, setup_cmd="./check --selftest", checks=checks, not_applicable=na,
         notes="No hooks are needed in /repo; the checks instrument a copy of the source in memory.")
with open(os.path.join(H, "MANIFEST.json"), "w") as f:
    json.dump(m, f, indent=1, ensure_ascii=False)
    f.write("\n")
print(len(checks), len(na))
