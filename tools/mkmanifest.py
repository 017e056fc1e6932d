#!/usr/bin/env python3
"""writes MANIFEST.json from properties.jsonl and the registered checks"""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check
ROOT = check.ROOT
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
NOTE = ("TLC checks the design model exhaustively within the constants of its configuration; every recorded call of the real code "
        "(exhaustive over small inputs, randomised and structured beyond) is judged by TLC against the specification. "
        "Trusted: TLC, the driver's recording, rustc. Inputs that were not run are covered by the model only.")
m = dict(version=1,
         setup_cmd="python3 tools/setup.py",
         checks=[dict(property=p["id"], quick_cmd="python3 tools/check.py %s" % p["id"],
                      thorough_cmd="python3 tools/check.py %s --tier thorough" % p["id"],
                      technique="TLA+ specification checked with TLC; conformance by trace validation and replay of generated behaviours",
                      level="model_checking", level_note=NOTE + " " + check.NOTES.get(p["id"], ""))
                 for p in props if p["id"] in check.CHECKS],
         not_applicable=[dict(property=p["id"], reason=check.NOT_APPLICABLE.get(p["id"], "The check for this property is still being built.")) for p in props if p["id"] not in check.CHECKS])
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(ROOT, "MANIFEST.json"), "a").write("\n")
