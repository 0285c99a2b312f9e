"""Symbolic execution of pure integer functions from LLVM IR (clang -O1) with z3 bit-vectors.
States that agree on the block and on every concrete value are merged, so a loop over a concrete counter or mask stays
linear; the guard of every state is checked for feasibility.  Anything outside the supported instructions raises
Unsupported: the function is then reported as not decided."""
import re, time, z3
class Unsupported(Exception): pass
def parse(text, name):
    m = re.search(r"^define [^\n]*@" + re.escape(name) + r"\((.*?)\)[^\n]*\{\n(.*?)^\}", text, re.M | re.S)
    if not m: raise Unsupported("function " + name + " not found")
    args = [a.strip().split()[-1] for a in m.group(1).split(",")] if m.group(1).strip() else []
    tys = [a.strip().split()[0] for a in m.group(1).split(",")] if m.group(1).strip() else []
    blocks, cur = {}, None; order = []
    first = str(len(args))
    cur = first; blocks[cur] = []; order.append(cur)
    for l in m.group(2).splitlines():
        l = l.split(";")[0].rstrip()
        if not l.strip(): continue
        lb = re.match(r"^([\w.$-]+):", l)
        if lb:
            if not blocks[cur]: del blocks[cur]; order.remove(cur)
            cur = lb.group(1); blocks[cur] = []; order.append(cur); continue
        blocks[cur].append(re.sub(r",? ![\w.]+ !\d+", "", l.strip()))
    return args, tys, blocks, order
def width(t):
    m = re.fullmatch(r"i(\d+)", t)
    if not m: raise Unsupported("type " + t)
    return int(m.group(1))
FL = r"(?:(?:nuw|nsw|exact|disjoint|nneg) )*"
class Stats: pass
def run(ll, name, params, assume, max_states=20000, deadline=None):
    """params: values (z3 bit-vectors, or None for pointers that must not be read).  Yields (guard, result)."""
    args, tys, blocks, order = parse(ll, name)
    solver = z3.SolverFor("QF_BV"); solver.set("timeout", 20000)
    solver.add(assume)
    st = Stats(); st.states = st.queries = st.unknown = st.merged = 0; st.solver_s = 0.0
    def feasible(g):
        if z3.is_true(g): return True
        if z3.is_false(g): return False
        t = time.time(); solver.push(); solver.add(g); r = solver.check(); solver.pop(); st.queries += 1; st.solver_s += time.time() - t
        if r == z3.unknown: st.unknown += 1
        return r != z3.unsat
    env0 = {a: p for a, p in zip(args, params)}
    S = z3.simplify
    pending, visits, rank, phase = {}, {}, {}, {}
    # variables live behind the phis of a block (phi operands are read on the incoming edge)
    def succs(b): return re.findall(r"label %([\w.]+)", " ".join(blocks[b]))
    phis = {b: [l for l in blocks[b] if re.match(r"%[\w.]+ = phi ", l)] for b in blocks}
    defs = {b: {m.group(1) for l in blocks[b] for m in [re.match(r"(%[\w.]+) = ", l)] if m} for b in blocks}
    pdefs = {b: {l.split(" ", 1)[0] for l in phis[b]} for b in blocks}
    uses = {b: {v for l in blocks[b] if l not in phis[b] for v in re.findall(r"%[\w.]+", re.sub(r"label %[\w.]+", "", re.sub(r"^%[\w.]+ = ", "", l)))} for b in blocks}
    def phi_reads(b, p): return {v.strip() for l in phis[b] for v, q in re.findall(r"\[ ([^,\]]+), %([\w.]+) \]", l) if q == p and v.strip().startswith("%")}
    live = {b: set() for b in blocks}
    while True:
        ch = False
        for b in blocks:
            o = set()
            for t in succs(b): o |= (live[t] - pdefs[t]) | phi_reads(t, b)
            n = uses[b] - (defs[b] - pdefs[b]) | (o - (defs[b] - pdefs[b]))
            if n != live[b]: live[b] = n; ch = True
        if not ch: break
    def push(block, prev, guard, env):
        # phis take their values on entry
        new = {}
        for l in blocks[block]:
            m = re.match(r"(%[\w.]+) = phi (\S+) (.*)", l)
            if not m: break
            w = width(m.group(2)); got = False
            for v, p in re.findall(r"\[ ([^,\]]+), %([\w.]+) \]", m.group(3)):
                if p == prev: new[m.group(1)] = value(v.strip(), w, env); got = True
            if not got: raise Unsupported("phi")
        env = {k: v for k, v in {**env, **new}.items() if k in live[block]}
        key = (block,) + tuple((k, v.as_long()) for k, v in sorted(env.items(), key=lambda x: x[0]) if v is not None and z3.is_bv_value(v))
        rank.setdefault(key, len(rank)); phase.setdefault(tuple(sorted(v for _, v in key[1:])), len(phase))
        if key in pending:
            g, e = pending[key]; st.merged += 1
            pending[key] = (S(z3.Or(g, guard)), {k: (e[k] if e[k] is None or e[k].eq(env[k]) else S(z3.If(guard, env[k], e[k]))) for k in e if k in env})
        else: pending[key] = (guard, env)
    def value(v, w, env):
        if v in env:
            if env[v] is None: raise Unsupported("pointer value")
            return env[v]
        if re.fullmatch(r"-?\d+", v): return z3.BitVecVal(int(v), w)
        if v == "true": return z3.BitVecVal(1, 1)
        if v == "false": return z3.BitVecVal(0, 1)
        if v in ("undef", "poison"): return z3.BitVecVal(0, w)
        raise Unsupported("operand " + v)
    ONE = z3.BitVecVal(1, 1)
    def b2(x): return z3.If(x, ONE, z3.BitVecVal(0, 1))
    push(order[0], None, z3.BoolVal(True), env0)
    while pending:
        if deadline and time.time() > deadline: raise Unsupported("time limit")
        key = min(pending, key=lambda k: (phase[tuple(sorted(v for _, v in k[1:]))], rank[k]))      # states with the oldest concrete values first, so that their successors merge
        guard, env = pending.pop(key); block = key[0]
        visits[key] = visits.get(key, 0) + 1; st.states += 1
        if st.states > max_states: raise Unsupported("too many states")
        env = dict(env)
        body = blocks[block]
        for n, l in enumerate(body):
            m = re.match(r"(%[\w.]+) = (\w+) (.*)", l)
            if m and m.group(2) == "phi": continue
            if m:
                d, op, rest = m.groups()
                if op == "tail": op, rest = "call", rest.split(" ", 1)[1]
                if op in ("add", "sub", "mul", "and", "or", "xor", "shl", "lshr", "ashr", "udiv", "urem", "sdiv", "srem"):
                    q = re.fullmatch(FL + r"(i\d+) ([^,]+), (.+)", rest)
                    w = width(q.group(1)); a, b = value(q.group(2), w, env), value(q.group(3), w, env)
                    r = {"add": lambda: a + b, "sub": lambda: a - b, "mul": lambda: a * b, "and": lambda: a & b, "or": lambda: a | b, "xor": lambda: a ^ b, "shl": lambda: a << b, "lshr": lambda: z3.LShR(a, b), "ashr": lambda: a >> b, "udiv": lambda: z3.UDiv(a, b), "urem": lambda: z3.URem(a, b), "sdiv": lambda: a / b, "srem": lambda: z3.SRem(a, b)}[op]()
                elif op == "icmp":
                    q = re.fullmatch(r"(?:samesign )?(\w+) (\S+) ([^,]+), (.+)", rest); w = width(q.group(2)); a, b = value(q.group(3), w, env), value(q.group(4), w, env)
                    r = b2({"eq": lambda: a == b, "ne": lambda: a != b, "ult": lambda: z3.ULT(a, b), "ule": lambda: z3.ULE(a, b), "ugt": lambda: z3.UGT(a, b), "uge": lambda: z3.UGE(a, b), "slt": lambda: a < b, "sle": lambda: a <= b, "sgt": lambda: a > b, "sge": lambda: a >= b}[q.group(1)]())
                elif op in ("zext", "sext", "trunc"):
                    q = re.fullmatch(FL + r"(i\d+) (\S+) to (i\d+)", rest); f, t = width(q.group(1)), width(q.group(3)); a = value(q.group(2), f, env)
                    r = z3.ZeroExt(t - f, a) if op == "zext" else z3.SignExt(t - f, a) if op == "sext" else z3.Extract(t - 1, 0, a)
                elif op == "select":
                    q = re.fullmatch(r"i1 ([^,]+), (i\d+) ([^,]+), i\d+ (.+)", rest); w = width(q.group(2)); r = z3.If(value(q.group(1), 1, env) == ONE, value(q.group(3), w, env), value(q.group(4), w, env))
                elif op == "freeze":
                    q = re.fullmatch(r"(i\d+) (\S+)", rest); r = value(q.group(2), width(q.group(1)), env)
                elif op == "call":
                    q = re.search(r"(i\d+) @llvm\.(\w+)\.i(\d+)\((.*)\)", rest)
                    if not q: raise Unsupported(l)
                    w = int(q.group(3)); vs = [value(x.strip().split()[-1], w if x.strip().split()[0] != "i1" else 1, env) for x in q.group(4).split(",")]; k = q.group(2); a = vs[0]
                    if k in ("umin", "umax", "smin", "smax"):
                        b = vs[1]; c = {"umin": lambda: z3.ULT(a, b), "umax": lambda: z3.UGT(a, b), "smin": lambda: a < b, "smax": lambda: a > b}[k](); r = z3.If(c, a, b)
                    elif k == "abs": r = z3.If(a < 0, -a, a)
                    elif k == "ctpop": r = sum((z3.ZeroExt(w - 1, z3.Extract(i, i, a)) for i in range(w)), z3.BitVecVal(0, w))
                    elif k == "ctlz":
                        r = z3.BitVecVal(w, w)
                        for i in range(w): r = z3.If(z3.Extract(i, i, a) == 1, z3.BitVecVal(w - 1 - i, w), r)
                    elif k == "cttz":
                        r = z3.BitVecVal(w, w)
                        for i in reversed(range(w)): r = z3.If(z3.Extract(i, i, a) == 1, z3.BitVecVal(i, w), r)
                    elif k in ("fshl", "fshr"):
                        b, c = vs[1], z3.URem(vs[2], z3.BitVecVal(w, w)); x = z3.Concat(a, b); cc = z3.ZeroExt(w, c)
                        r = z3.Extract(2 * w - 1, w, x << cc) if k == "fshl" else z3.Extract(w - 1, 0, z3.LShR(x, cc))
                    else: raise Unsupported(l)
                else: raise Unsupported(l)
                env[d] = S(r); continue
            if l.startswith("tail call void @llvm.") or l.startswith("call void @llvm."): continue
            if l.startswith("ret "):
                q = re.fullmatch(r"ret (\S+) (\S+)", l); yield guard, value(q.group(2), width(q.group(1)), env), st; break
            q = re.fullmatch(r"br label %([\w.]+)", l)
            if q: push(q.group(1), block, guard, env); break
            q = re.fullmatch(r"br i1 (\S+), label %([\w.]+), label %([\w.]+)", l)
            if q:
                c = value(q.group(1), 1, env) == ONE
                for cond, t in ((c, q.group(2)), (z3.Not(c), q.group(3))):
                    g = S(z3.And(guard, cond))
                    if feasible(g): push(t, block, g, env)
                break
            q = re.match(r"switch (i\d+) (\S+), label %([\w.]+) \[(.*)", l)
            if q:
                w = width(q.group(1)); v = value(q.group(2), w, env); rest = q.group(4) + " " + " ".join(body[n + 1:]); none = []
                for c, t in re.findall(r"i\d+ (-?\d+), label %([\w.]+)", rest):
                    k = v == z3.BitVecVal(int(c), w); none.append(z3.Not(k)); g = S(z3.And(guard, k))
                    if feasible(g): push(t, block, g, env)
                g = S(z3.And(guard, *none))
                if feasible(g): push(q.group(3), block, g, env)
                break
            if l == "unreachable": break
            raise Unsupported(l)
