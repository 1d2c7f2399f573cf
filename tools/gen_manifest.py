#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl, spec/ and the tables here."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V + "/tools")
FLOW = "value-flow normal-form comparison of MIR summaries against reference flows"
NOTE = ("Decides every obligation listed in the evidence for all inputs and all callbacks at once (no sampling, no bound on sizes): both sides are reduced to one normal form over the free monoid of sequences and uninterpreted callbacks. "
        "Trusted: rustc's MIR, the models of std/smallvec/tokio operations in engine/models.py, the normaliser. Assumes Clone of type parameters copies faithfully and integers do not overflow. Operations without an obligation are not covered; an obligation the domain cannot decide on an edited tree is reported as undecided, not as held.")
T = {}      # property -> (technique, note)
NA = {}
exec(open(V + "/tools/manifest_tables.py").read())
ids = [json.loads(l)["id"] for l in open(V + "/properties.jsonl")]
checks = []; na = []
for i in ids:
    have = os.path.exists("%s/spec/%s.rs" % (V, i.lower())) or i in T
    if have and i not in NA:
        t, n = T.get(i, (FLOW, NOTE))
        checks.append({"property": i, "quick_cmd": "python3 engine/run.py %s --tier quick" % i, "thorough_cmd": "python3 engine/run.py %s --tier thorough" % i,
                       "technique": t, "level": "other", "level_note": n})
    else:
        na.append({"property": i, "reason": NA.get(i, "no check built yet")})
m = {"version": 1, "setup_cmd": "bash engine/setup.sh", "checks": checks, "not_applicable": na,
     "notes": "No hooks in /repo: the specification module is added to the crate in memory by the driver. Known findings and repairs: known_findings.json."}
json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
print(len(checks), "checks;", [x["property"] for x in na])
