#!/usr/bin/env python3
"""Replay a recorded violation against the current tree: replay.py <evidence/replay/...json>"""
import json
import os
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import check  # noqa: E402
from plan import ALL  # noqa: E402

r = json.load(open(sys.argv[1]))
if not r.get("values"):
    print("no failing input is known; the failed obligation is:", r["obligation"])
    print(r.get("verifier_output", ""))
    sys.exit(2)
exe, out = check.native_build(r["property"], r["config"], ALL, True)
if exe is None:
    print(out)
    sys.exit(2)
rc, out = check.run([exe, "given", r["contract"], r["values"]], 60)
print(out)
sys.exit(rc or 0)
