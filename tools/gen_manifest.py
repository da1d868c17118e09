#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and checks.py."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from checks import CHECKS
props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
TECH = {
    "C23": "ThreadSanitizer and comparison with sequential results under concurrent stress",
    "C24": "address/UB/leak sanitizers and memcheck over random object lifetimes",
    "C27": "offline comparison of recorded results between 13 build configurations",
}
checks, na = [], []
for p in props:
    i = p["id"]
    if i not in CHECKS:
        na.append({"property": i, "reason": "no check built yet"})
        continue
    vs = sorted({r["variant"] for r in CHECKS[i]["runs"] if "quick" in r.get("tiers", ("quick", "thorough"))})
    note = ("Randomised executions of the real code (builds: " + ", ".join(vs) + ") judged by an independent oracle; "
            "holds for what was explored, see the counts in the evidence file. ")
    note += "Assumes: " + "; ".join(CHECKS[i]["assumptions"]) + "." if CHECKS[i].get("assumptions") else \
        "Trusts the reference model in harness/ and the sanitizer runtimes."
    checks.append({
        "property": i, "quick_cmd": f"python3 check.py {i}", "thorough_cmd": f"python3 check.py {i} --tier thorough",
        "evidence_file": f"evidence/{i}.json",
        "technique": TECH.get(i, "runtime monitors with an independent reference oracle, under ASan/UBSan"),
        "level": "exploration", "level_note": note})
json.dump({"version": 1, "setup_cmd": "python3 -c \"import checks\" && g++ --version && clang++ --version",
           "checks": checks, "not_applicable": na,
           "notes": "Header-only library: every check compiles its own drivers against /repo/include. "
                    "No hooks are needed in /repo."},
          open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
