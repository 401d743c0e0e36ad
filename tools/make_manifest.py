#!/usr/bin/env python3
"""Writes MANIFEST.json for the properties that tools/check.py decides."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, "tools"))
import check
from check import CHECKS

COMMON = ("Every recorded call of the real code (built from the working tree with AddressSanitizer/UBSan) is judged by "
          "the TLA+ contract in TLC; bounded by the generated and enumerated inputs. Trusts TLC, the drivers' logging "
          "and the compiler.")
NOTES = {
    "C04": ("TLC enumeration of faulty arguments + trace validation", COMMON),
    "C05": ("TLA+ geometry model + validation of complete address tables", COMMON),
    "C06": ("TLA+ geometry model + validation of existence tables", COMMON),
    "C07": ("TLA+ cost model, TLC, trace validation", COMMON),
    "C12": ("TLA+ model of single memory accesses checked by TLC, its schedules and others replayed in the real code", 
            "The real threaded code runs on a deterministic scheduler that interleaves accesses to shared memory; bounded by "
            "the schedules chosen. Sequentially consistent interleavings only. Trusts TLC, the scheduler and the compiler."),
    "C20": ("TLA+ model of host and work items checked by TLC, real kernels and host code run on a simulated device, trace validation",
            "The real kernels (compiled by clang) and host code run on a simulated OpenCL device under chosen work-group sizes "
            "and interleavings. Trusts TLC, the simulated device and the compiler; no real device."),
    "C08": ("TLA+ cost model, TLC, trace validation", COMMON),
}
DEFAULT = ("TLA+ state machine checked by TLC, replay of its transitions and trace validation", COMMON)
NOTES.update(getattr(check, "NOTES", {}))
NOT_APPLICABLE = getattr(check, "NOT_APPLICABLE", {})

props = [json.loads(l)["id"] for l in open(os.path.join(V, "properties.jsonl"))]
m = dict(version=1, setup_cmd="python3 tools/check.py --setup", checks=[], not_applicable=[])
for p in props:
    if p in CHECKS:
        t, n = NOTES.get(p, DEFAULT)
        m["checks"].append(dict(property=p, quick_cmd="python3 tools/check.py " + p,
                                thorough_cmd="VERIF_TIER=thorough python3 tools/check.py " + p,
                                technique=t, level="model_checking", level_note=n))
    else:
        m["not_applicable"].append(dict(property=p, reason=NOT_APPLICABLE.get(p, "Its check is not finished yet.")))
if hasattr(check, "HOOKS"):
    m["hooks"] = check.HOOKS
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
