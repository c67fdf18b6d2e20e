"""Writes ../MANIFEST.json from the check modules."""
import importlib, json, os, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)
checks = []
na = []
for line in open(os.path.join(V, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    try:
        m = importlib.import_module("wwmon.checks." + i.lower())
    except ModuleNotFoundError:
        na.append(dict(property=i, reason="check under construction"))
        continue
    checks.append(dict(
        property=i, quick_cmd="./run.sh " + i, thorough_cmd="VERIF_TIER=thorough ./run.sh " + i,
        evidence_file="evidence/%s.json" % i, technique=m.TECHNIQUE, level="exploration",
        level_note="Held on the executions observed (counts in the evidence file); no claim beyond them. Assumes: "
                   + "; ".join(m.ASSUMPTIONS)))
json.dump(dict(version=1, setup_cmd="true", checks=checks, not_applicable=na,
               notes="No hooks in /repo are needed: monitors read public outputs and the trees' own storage."),
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), len(na))
