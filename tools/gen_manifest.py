"""Write MANIFEST.json from the plan: every planned property is claimed, all others aren't."""

import json
import os

from plan import PROPERTIES

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TECHNIQUE = {
    "C12": "explicit-state exhaustive enumeration of write patterns against a reference model",
    "C13": "explicit-state exhaustive enumeration of operation histories against a reference model",
    "C14": "explicit-state model checking of handle lifecycles against a reference-count model",
    "C16": "exhaustive enumeration of consumer fault points against a reference model",
    "C17": "exhaustive enumeration of value fault points against a reference model",
    "C19": "exhaustive schedule exploration under a controlled scheduler",
    "C20": "exhaustive bounded enumeration, compared across feature configurations",
    "C21": "explicit-state exhaustive enumeration of observation sequences",
    "C23": "explicit-state exhaustive enumeration of conversions, compared with their constructors",
    "C25": "exhaustive enumeration of error origins and of the operations they pass through",
    "C22": "exhaustive enumeration of executions, each monitored by an interpreter and a counting allocator",
}

NOTE = (
    "Exhaustive within the stated bounds, on the real code built from /repo's tree: every combination of the enumerated values, routes, "
    "operations and observers is run and compared with a reference model; nothing is sampled. Nothing is claimed beyond the bounds. "
    "Trusted: the harness and its reference model, the compiler, and the frameworks value-bag integrates with."
)

checks = []
rest = []
for line in open(os.path.join(ROOT, "properties.jsonl")):
    p = json.loads(line)
    i = p["id"]
    if i in PROPERTIES:
        checks.append(
            {
                "property": i,
                "quick_cmd": f"./check {i} quick",
                "thorough_cmd": f"./check {i} thorough",
                "evidence_file": f"evidence/{i}.json",
                "technique": TECHNIQUE.get(i, "explicit-state exhaustive bounded enumeration against a reference model"),
                "level": PROPERTIES[i].get("level", "model_checking"),
                "level_note": NOTE,
            }
        )
    else:
        rest.append({"property": i, "reason": "no check has been built yet"})

manifest = {"version": 1, "setup_cmd": "./check --setup", "checks": checks, "not_applicable": rest}
with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
    json.dump(manifest, f, indent=1)
    f.write("\n")
