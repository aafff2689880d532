#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(V, "properties.jsonl"))]
TV = "TLA+ specification evaluated by TLC over traces recorded from the real bindings (trace validation)"
HIST = "TLA+ (TLC): histories enumerated from the model, replayed on the real bindings, recorded traces validated by TLC"
POOL = "TLA+ (TLC): worker-pool model explored exhaustively, its schedules replayed on the real code, recorded traces validated by TLC"
TECH = {"D04": HIST, "C05": HIST, "V01": HIST, "V02": HIST, "T01": POOL, "T02": POOL, "S06": POOL}
NOTE = {
 "default": "Every recorded call is compared, sample by sample, with the value the TLA+ specification defines for its arguments; inputs are drawn "
            "by a seeded generator that covers the argument classes named in DESIGN.md. Trusted: TLC, the Java real-number override DReal, the drivers "
            "that serialise arguments and results. Bounded by the number and size of the recorded calls; comparisons allow rounding "
            "(1e-9 relative, 1e-5 in single precision) and calls that hang on the last bits of a double are counted, not judged.",
}
NOTE["hist"] = "All operation histories of the model up to the stated length are enumerated by TLC; a seeded selection (all of them, over time, in the thorough tier) is made concrete, run in one session of the real binding and validated. " + NOTE["default"]
NOTE["pool"] = "TLC explores every interleaving of the worker-pool model for small pools; its schedules (start and finish orders, signal positions, worker counts) are forced on the real library through an interposed pthread_create and the outcome validated. " + NOTE["default"]
NOTE["mex"] = "The gateways are compiled from /repo with mkoctfile --mex and called from Octave; those that do not compile are named in the evidence and not judged. " + NOTE["default"]
NOTE["jl"] = "The gateways are compiled from /repo against a small stand-in for libcxxwrap-julia (no Julia here) and called from Python; those that do not compile are named in the evidence and not judged. " + NOTE["default"]
NOTE["gpu"] = "The OpenCL build runs on the CPU device of the installed OpenCL runtime (pocl) through an interposed device query. " + NOTE["default"]
not_app = {}
try:
    not_app = json.load(open(os.path.join(V, "tools", "not_applicable.json")))
except OSError:
    pass
checks = []
for p in props:
    i = p["id"]
    if i in not_app:
        continue
    t = TECH.get(i, TV)
    checks.append({"property": i, "quick_cmd": "python3 harness/check.py " + i, "thorough_cmd": "python3 harness/check.py %s --thorough" % i,
                   "evidence_file": "evidence/%s.json" % i, "technique": t, "level": "model_checking",
                   "level_note": NOTE["mex" if i == "B02" else "jl" if i == "B03" else "gpu" if i in ("G01", "G02") else "hist" if t is HIST else "pool" if t is POOL else "default"]})
json.dump({"version": 1, "setup_cmd": "python3 harness/setup.py", "checks": checks,
           "not_applicable": [{"property": k, "reason": v} for k, v in not_app.items()],
           "notes": "No hooks in /repo: all observation is from outside (drivers in Octave and Python, an LD_PRELOAD scheduler)."},
          open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
print(len(checks), "checks")
