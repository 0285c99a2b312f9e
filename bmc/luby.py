"""C20: Luby_restart::luby equals the Luby sequence for every index in [1, 2^BITS - 1]."""
import sys, os, json, subprocess, tempfile, time
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "engine"))
import z3, irbmc
out, budget, tier = sys.argv[1], float(sys.argv[2]), sys.argv[3]
BITS = 16 if tier == "quick" else 19
t0 = time.time()
REPO = os.environ.get("YAGA_REPO", "/repo")
d = tempfile.mkdtemp(prefix="verif_bmc_")
src = os.path.join(d, "w.cpp"); open(src, "w").write('#include <algorithm>\n#include "Restart.h"\nextern "C" int verif_f(yaga::Luby_restart const* r, unsigned i) { return (int)r->luby(i); }\n')
inc = []
for r, _, _ in os.walk(os.path.join(REPO, "src")): inc += ["-I", r]
ll = os.path.join(d, "w.ll")
r = subprocess.run(["clang++-18", "-std=c++20", "-O1", "-w", "-fno-access-control", "-fno-vectorize", "-S", "-emit-llvm", src, "-o", ll] + inc, capture_output=True, text=True)
res = dict(job="luby_bmc", paths=0, abandoned=0, branches=0, queries=0, sat=0, unsat=0, unknown=0, checks=0, checks_unknown=0, pinned=0, divergences=0, timeouts=0, solver_s=0, wall_s=0, nodes=0, frontier_left=0, complete=False, witnesses={}, counters={}, abandons={}, samples=[], traces=[], violations=[])
def fin():
    res["wall_s"] = time.time() - t0; json.dump(res, open(out, "w"))
    import shutil; shutil.rmtree(d, ignore_errors=True); sys.exit(0)
if r.returncode: res["abandons"]["encoding failed: " + r.stderr[-300:]] = 1; res["abandoned"] = 1; fin()
x = z3.BitVec("index", BITS); i = z3.Concat(z3.BitVecVal(0, 32 - BITS), x); assume = x != 0
# reference: while s is not 2^k - 1, with bit length k, s := s - (2^(k-1) - 1)
s = i
for k in range(BITS, 0, -1):
    full = z3.BitVecVal((1 << k) - 1, 32); has = z3.And(z3.UGE(s, z3.BitVecVal(1 << (k - 1), 32)), z3.ULT(s, full))
    s = z3.If(has, s - z3.BitVecVal((1 << (k - 1)) - 1, 32), s)
ref = z3.LShR(s + 1, 1)
q = z3.SolverFor("QF_BV"); q.set("timeout", 400000); q.add(assume)
ok = True; st = None; cover = []
try:
    for g, v, st in irbmc.run(open(ll).read(), "verif_f", [None, i], assume, deadline=t0 + budget):
        t = time.time(); q.push(); q.add(g, v != ref); c = q.check(); res["queries"] += 1; res["checks"] += 1; res["solver_s"] += time.time() - t; res["paths"] += 1
        cover.append(g)
        if c == z3.sat:
            m = q.model().eval(x, True).as_long(); res["violations"].append(dict(msg="C20: Luby sequence element at index %d" % m, inputs={"index": str(m)})); ok = False
        elif c == z3.unknown: res["checks_unknown"] += 1; ok = False
        else: res["unsat"] += 1
        q.pop()
        if not ok: break
    else:
        # every index reaches a return
        q.push(); q.add(z3.Not(z3.Or(cover))); c = q.check(); res["queries"] += 1; q.pop()
        if c != z3.unsat: ok = False; res["abandons"]["some index reaches no return"] = 1
        res["witnesses"]["index"] = len(cover); res["samples"].append("every index in [1, 2^%d-1]: %d return states" % (BITS, len(cover)))
        res["complete"] = ok
except irbmc.Unsupported as e: res["abandons"]["encoding failed: " + str(e)] = 1; res["abandoned"] += 1
if st: res["nodes"] = st.states; res["branches"] = st.queries; res["queries"] += st.queries; res["solver_s"] += st.solver_s; res["unknown"] += st.unknown; res["counters"]["merged states"] = st.merged
fin()
