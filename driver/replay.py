#!/usr/bin/env python3
"""replay.py FILE: re-runs a reported counterexample against the real build of /repo's working tree."""
import json, sys, os
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import build as bld, check
r = json.load(open(sys.argv[1])); b = bld.Build(); b.add(r["harness"]); b.run(); s, e, m = b.link(r["harness"])
out = check.run_real(e, r["args"], [r["input"]])
print(out[0]); sys.exit(0 if out[0].startswith(("OK", "SKIP")) else 1)
