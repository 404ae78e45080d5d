#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the modules in rv/props."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
tech = {}
for p in props:
    tech[p["id"]] = "runtime monitoring: generated workloads on the real code, judged online against an independent reference model"
tech.update({
    "C01": "runtime monitoring: differential oracle over all crystal sites of the region",
    "C02": "runtime monitoring: differential oracle against enumerated infinite crystals",
    "C04": "runtime monitoring: lockstep shadow model over transformation histories",
    "C08": "runtime monitoring: offline conservation checker over populated scenes and recorded histories",
    "C09": "runtime monitoring: lockstep shadow model of unions, permutation invariance",
    "C10": "runtime monitoring: argument hashing at every public call, twin-object divergence monitors",
    "C11": "runtime monitoring: lockstep shadow model over histories with refused calls",
    "C28": "runtime monitoring: fault injection of invalid inputs with state snapshots",
    "C29": "runtime monitoring: record and replay comparison under perturbed global random state",
})
checks, na = [], []
for p in props:
    i = p["id"]
    if os.path.exists(os.path.join(here, "rv", "props", i.lower() + ".py")):
        checks.append(dict(property=i, quick_cmd=f"./check.py {i} --tier quick", thorough_cmd=f"./check.py {i} --tier thorough",
                           technique=tech[i], level="exploration",
                           level_note="Holds on every execution observed (counts in the evidence); assumes the reference model in rv/model.py "
                                      "and the domain stated under assumptions in the evidence; no claim beyond the generated inputs."))
    else:
        na.append(dict(property=i, reason="check not built yet"))
json.dump(dict(version=1, setup_cmd="/opt/venv/bin/python -B -c 'import czone, numpy, scipy, ase, pymatgen'",
               checks=checks, not_applicable=na,
               notes="No hooks in /repo: monitors wrap public callables from the harness. See DESIGN.md."),
          open(os.path.join(here, "MANIFEST.json"), "w"), indent=1)
