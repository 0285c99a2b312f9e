"""Builds the harness binaries for the current /repo (checks rebuild by themselves whatever is missing)."""
import os, sys, json
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "engine"))
import build as B
from checks import CHECKS
seen=set()
for p,c in CHECKS.items():
    for u in c["units"]:
        k=json.dumps([u["harness"],u["flavour"],u.get("flags",[]),u.get("gmp_stub",False),u.get("only")])
        if k in seen: continue
        seen.add(k)
        try: B.build(u["flavour"],u["harness"],u.get("flags",[]),u.get("gmp_stub",False),u.get("only"))
        except B.BuildError as e: print(e)
