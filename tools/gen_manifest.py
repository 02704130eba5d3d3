#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json from checks/jobs.py and properties.jsonl."""
import json, os, subprocess, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, "checks"))
import jobs as J
props = [json.loads(l) for l in open(os.path.join(ROOT, "properties.jsonl"))]
TARGETS = sorted(set(t for js in J.PROPERTIES.values() for j in js for t in ((j.target,) if isinstance(j.target, str) else (j.target or ()))))
checks, na = [], []
for p in props:
    i = p["id"]
    if i in J.PROPERTIES and J.PROPERTIES[i]:
        kinds = sorted(set(type(j).__name__ for j in J.PROPERTIES[i]))
        tech = {"MC": "stateless model checking of the real code: all schedules and injected faults within a deviation bound under a controlled scheduler and simulated kernel",
                "SEQ": "bounded exhaustive enumeration of operation sequences and inputs on the real code against an executable reference model",
                "SCRIPT": "exhaustive exploration of all histories up to a depth on the real Python client over a simulated socket and clock"}
        checks.append({"property": i, "quick_cmd": "bin/check %s --quick" % i, "thorough_cmd": "bin/check %s --thorough" % i,
            "technique": "model checking: " + "; ".join(tech[k] for k in kinds), "level": "model_checking",
            "level_note": getattr(J, "NOTES", {}).get(i, "Every execution within the stated bounds runs the real library code; nothing beyond the bounds is claimed. Trusted: the scheduler/simulated kernel in mc/rt (validated against the real kernel's behaviour by hand), the harness oracles, sequential consistency of memory.")})
    else:
        na.append({"property": i, "reason": getattr(J, "NOT_APPLICABLE", {}).get(i, "no check built yet")})
commits = subprocess.run(["git", "-C", "/repo", "log", "--format=%H %s"], stdout=subprocess.PIPE).stdout.decode().splitlines()
m = {"version": 1, "setup_cmd": "python3 tools/vbuild.py " + " ".join(TARGETS), "hooks": {"guard": "SOFA_PBRPC_VERIF_HOOKS",
     "enable": "tools/vbuild.py compiles /repo/src with -DSOFA_PBRPC_VERIF_HOOKS and -fsanitize=thread instrumentation resolved by mc/rt",
     "source_commits": [c.split()[0] for c in commits if "SOFA_PBRPC_VERIF_HOOKS" in c]},
     "checks": checks, "not_applicable": na,
     "notes": "Known and fixed defects: known_findings.txt. Engine: mc/rt; scenarios: mc/harness; enumerations: seq; job table: checks/jobs.py."}
json.dump(m, open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks;", len(na), "not claimed")
