#!/usr/bin/env python3
"""Writes MANIFEST.json from the table below; every property without a check is listed under not_applicable."""
import json
import os
import sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import checks  # noqa: E402

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NA = {
    "C30": "no CUDA or HIP compiler or device here: device code cannot be executed, so no trace of it can be validated",
}
BASE = "TLC decides the specification exhaustively within small constants and validates every recorded execution of the real code (operation paths of the specification plus seeded random histories, several build variants) step by step against it. Covers what was executed; trusts TLC, the compilers, and the drivers in harness/"


def main():
    props = [json.loads(x) for x in open(os.path.join(VERIF, "properties.jsonl"))]
    out = {"version": 1,
           "setup_cmd": "java -version && python3 -c 'import json' && g++ --version",
           "checks": [], "not_applicable": []}
    for p in props:
        pid = p["id"]
        f = getattr(checks, pid, None)
        if f is not None:
            out["checks"].append({
                "property": pid,
                "quick_cmd": "python3 tools/check.py %s quick" % pid,
                "thorough_cmd": "python3 tools/check.py %s thorough" % pid,
                "evidence_file": "evidence/%s.json" % pid,
                "technique": "TLA+ specification checked with TLC; traces of the real code validated against it (%s)" % (f.__doc__ or "").strip(),
                "level": "model_checking",
                "level_note": BASE + (" " + checks.NOTES[pid] if pid in checks.NOTES else "."),
            })
        else:
            out["not_applicable"].append({"property": pid, "reason": NA.get(pid, "no check built yet")})
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as o:
        json.dump(out, o, indent=1)
        o.write("\n")


main()
