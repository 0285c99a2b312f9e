#!/usr/bin/env python3
"""replay.py <replay file>: re-executes the counterexample on the untouched code of /repo (no instrumentation, the real GMP).
Exit 1 and a VIOLATION line if it still fails, 0 if it does not."""
import json, os, subprocess, sys, tempfile
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "engine"))
import build as B
f = sys.argv[1]; r = json.load(open(f))
b = B.build("concrete", r["harness"], r.get("flags", []), False, r.get("only"))
with tempfile.NamedTemporaryFile("w", suffix=".in") as t:
    for k, v in r["inputs"].items(): t.write(f"{k} {v}\n")
    t.flush()
    try: out = subprocess.run([b, r["unit"], r["job"], r["tier"], str(r["seed"]), t.name], capture_output=True, text=True, timeout=120).stdout
    except subprocess.TimeoutExpired: out = "timeout"
print(out)
if "REPRODUCED" in out: print(f"VIOLATION property={r['property']} replay={os.path.abspath(f)}"); sys.exit(1)
