#!/usr/bin/env python3
"""Writes MANIFEST.json from specs.py and properties.jsonl."""
import json, os, subprocess, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, H)
from specs import SPECS, NOT_APPLICABLE
props = [json.loads(l) for l in open(H + "/properties.jsonl")]
hook = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^verification hook"], stdout=subprocess.PIPE, text=True).stdout.split()
m = dict(version=1, setup_cmd="python3 check.py setup",
         hooks=dict(guard="candystore_verif_small", enable='RUSTFLAGS="--cfg candystore_verif_small" (set by check.py for its reduced-geometry builds)', source_commits=hook),
         checks=[], not_applicable=[])
for p in props:
    i = p["id"]
    if i in SPECS:
        s = SPECS[i]
        m["checks"].append(dict(property=i, quick_cmd=f"python3 check.py {i} --tier quick", thorough_cmd=f"python3 check.py {i} --tier thorough",
            evidence_file=f"evidence/{i}.json", technique="bounded symbolic execution of the compiled LLVM IR, decided by z3; counterexamples replayed natively",
            level="model_checking", level_note=s.get("note", "") or ("Every path, value, schedule, crash and fault point within the bounds written in the evidence file is decided by the solver over the IR of the current tree. "
              "Trusted: the executor and its libc model (sampled paths are replayed natively), rustc's IR, z3. Nothing is claimed beyond the bounds.")))
    else:
        m["not_applicable"].append(dict(property=i, reason=NOT_APPLICABLE.get(i, "the check for this property is still being built")))
json.dump(m, open(H + "/MANIFEST.json", "w"), indent=1)
