#!/usr/bin/env python3
"""MANIFEST.json from the registry: every property with a check is claimed."""
import json, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, ROOT)
from gen import registry
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
import subprocess
HOOK = subprocess.run(["git", "-C", "/repo", "log", "--format=%H", "--grep=^verif hook:"], capture_output=True, text=True).stdout.split()[0]
checks, na = [], []
for p in props:
    i = p["id"]
    if i in registry.PROPS:
        c = registry.PROPS[i]
        ms = ", ".join(m["mod"] for m in c.get("models", []))
        checks.append(dict(property=i, quick_cmd="python3 check.py %s --tier quick" % i, thorough_cmd="python3 check.py %s --tier thorough" % i,
            technique="TLA+ specification: " + ("TLC model checking of %s, its behaviours replayed into the crate, and " % ms if ms else "") + "trace validation of recorded sessions of the real crate by TLC",
            level="model_checking",
            level_note=("The design model(s) %s are checked exhaustively within their constants and every explored behaviour (capped, seeded sample) is replayed into the real code; " % ms if ms else "") +
            "every recorded answer of the real code is checked by TLC to be one the specification allows. Covers the generated sessions, not all inputs; trusts the specification's reading of the protocol, TLC, and the harness."))
    else:
        na.append(dict(property=i, reason=registry.NOT_CLAIMED.get(i, "no check built yet")))
m = dict(version=1, setup_cmd="python3 check.py setup", checks=checks, not_applicable=na,
         hooks=dict(guard="cfg(webparse_verif)", enable='RUSTFLAGS="--cfg webparse_verif"', source_commits=[HOOK]),
         notes="One hook in /repo exports headers::Parts for the harness. Known findings and fixed defects: known_findings.jsonl.")
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
import jsonschema
jsonschema.validate(m, json.load(open("/root/.vp/MANIFEST.schema.json")))
