#!/usr/bin/env python3
"""Rewrites MANIFEST.json from props.py (which properties have a check, and how it decides)."""
import json, os
from props import PROPS
H = os.path.dirname(os.path.abspath(__file__))
checks = []
for line in open(os.path.join(H, "properties.jsonl")):
    pid = json.loads(line)["id"]
    if pid not in PROPS:
        continue
    s = PROPS[pid]
    checks.append({
        "property": pid,
        "quick_cmd": "python3 check.py %s" % pid,
        "thorough_cmd": "VERIF_TIER=thorough python3 check.py %s --thorough" % pid,
        "evidence_file": "evidence/%s.json" % pid,
        "technique": s.get("technique", "exhaustive bounded enumeration of the real code's executions (stateless model checking) against a reference model"),
        "level": s["level"],
        "level_note": "Bounded: %s. Deciding rule: %s. Trusted: the reference model in harness/, the compiler and its sanitizers." % (s["bounds"], s["rule"]),
    })
na = [{"property": json.loads(l)["id"], "reason": "check not finished yet"} for l in open(os.path.join(H, "properties.jsonl")) if json.loads(l)["id"] not in PROPS]
json.dump({"version": 1, "setup_cmd": "bash setup.sh",
           "hooks": {"guard": "LIBNURBS_VERIF", "enable": "the checks compile /repo's sources with -DLIBNURBS_VERIF=1; no hook was needed, so the define guards nothing", "source_commits": []},
           "checks": checks, "not_applicable": na,
           "notes": "Every check rebuilds /repo/src with clang++-18/libc++ in a scratch directory under /tmp that it removes; see DESIGN.md."},
          open(os.path.join(H, "MANIFEST.json"), "w"), indent=1)
