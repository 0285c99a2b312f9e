#!/usr/bin/env python3
"""check.py <property> [--tier quick|thorough]: decides one property on /repo's current working tree.
exit 0: held on everything explored; exit 1: a VIOLATION line (confirmed by replay on the untouched code) was printed."""
import json, os, re, subprocess, sys, tempfile, time, hashlib, threading
from concurrent.futures import ThreadPoolExecutor, as_completed
VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "engine"))
import build as B
from checks import CHECKS

def log(*a): print(*a, file=sys.stderr, flush=True)

def known_findings(prop):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p): return []
    return [f for f in json.load(open(p)).get("findings", []) if f["property"] == prop]

def functions(bins, cfg):
    """the functions of /repo that are symbolically executed (instrumented) in this check's binaries"""
    out = set()
    for b in bins.values():
        if not b or b.endswith(".py"): continue
        t = subprocess.run(["nm", "-C", "--defined-only", b], capture_output=True, text=True).stdout
        for l in t.splitlines():
            m = re.match(r"[0-9a-f]+ [TtWw] (?:.* )?(yaga::[A-Za-z_0-9:<> ~]+)\(", l)
            if m and "{lambda" not in l and "std::" not in m.group(1): out.add(m.group(1))
    out = sorted(out); pref = cfg.get("focus", [])
    first = [f for f in out if any(x in f for x in pref)]
    rest = [f for f in out if f not in first]
    return cfg.get("functions", []) + first[:120] + rest[:60] + ([f"... and {len(first[120:]) + len(rest[60:])} more functions of the same binaries"] if len(first) > 120 or len(rest) > 60 else [])

def main():
    prop = sys.argv[1]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in sys.argv: tier = sys.argv[sys.argv.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    cfg = CHECKS[prop]
    t0 = time.time()
    total = float(os.environ.get("VERIF_BUDGET", cfg.get("budget", {}).get(tier, 60 if tier == "quick" else 600)))
    results, notes, viols = [], [], []
    build_s = 0.0
    units = cfg["units"]      # list of dict(flavour, harness, name)
    bins = {}
    for u in units:
        key = json.dumps([u["harness"], u["flavour"], u.get("flags", []), u.get("gmp_stub", False), u.get("only")])
        if u.get("script"): key += u["script"]
        u["key"] = key
        if key in bins: continue
        if u.get("script"): bins[key] = os.path.join(VERIF, u["script"]); continue
        t = time.time()
        try: bins[key] = B.build(u["flavour"], u["harness"], u.get("flags", []), u.get("gmp_stub", False), u.get("only"))
        except B.BuildError as e:
            bins[key] = None; notes.append("encoding failed (not decided): " + str(e)[-600:]); log(str(e))
        build_s += time.time() - t
    conc = {}
    def concrete(u):
        key = json.dumps([u["harness"], u.get("flags", []), u.get("only")])
        if key not in conc:
            try: conc[key] = B.build("concrete", u["harness"], u.get("flags", []), False, u.get("only"))
            except B.BuildError as e: conc[key] = None; notes.append("concrete build failed: " + str(e)[-600:]); log(str(e))
        return conc[key]
    tmp = tempfile.mkdtemp(prefix="verif_")
    jobs = []
    for u in units:
        b = bins[u["key"]]
        if not b: continue
        if u.get("script"): jobs.append((u, u["job"], u.get("job_budget", 0))); continue
        r = subprocess.run([b, "list", "--property", u.get("name", prop), "--tier", tier, "--seed", str(seed)], capture_output=True, text=True)
        for l in r.stdout.splitlines():
            n, bud = l.split("\t")
            if re.match(os.environ.get("VERIF_JOBS", ""), n): jobs.append((u, n, float(bud)))    # VERIF_JOBS: run only these (development)
    per = {}                                    # units take turns, so that none of them starves
    for j in jobs: per.setdefault(j[0]["key"], []).append(j)
    jobs = [j for _, _, j in sorted((((i + 0.5) / len(v), k, j) for k, v in enumerate(per.values()) for i, j in enumerate(v)), key=lambda t: t[:2])] if len(per) > 1 else jobs
    job_budget = cfg.get("job_budget", {}).get(tier, 0); adaptive = not job_budget
    waiting = [len(jobs)]; lock = threading.Lock()
    t = time.time()
    for u in units: concrete(u)
    build_s += time.time() - t
    t_run = time.time()
    deadline = t_run + total
    def replay(u, job, inputs, limit=60):
        b = concrete(u)
        if not b: return None, "no concrete build"
        f = tempfile.NamedTemporaryFile("w", dir=tmp, delete=False, suffix=".in")
        for k, v in inputs.items(): f.write(f"{k} {v}\n")
        f.close()
        try: r = subprocess.run([b, u.get("name", prop), job, tier, str(seed), f.name], capture_output=True, text=True, timeout=limit)
        except subprocess.TimeoutExpired: return None, "timeout"
        os.unlink(f.name)
        m = re.search(r"^REPRODUCED (.*)$", r.stdout, re.M)
        if m: return m.group(1), r.stdout
        return "", r.stdout
    def run(j):
        u, name, bud = j
        left = deadline - time.time()
        if left < 1: return j, None
        out = os.path.join(tmp, hashlib.sha256((u["key"] + name).encode()).hexdigest()[:16] + ".json")
        with lock: waiting[0] -= 1; share = 7.5 * left / (waiting[0] + 8)      # time that earlier jobs did not need goes to the later ones
        b = min(bud if bud > 0 else max(2.5, share) if adaptive else job_budget, left)
        cmd = ["python3-vt", bins[u["key"]], out, f"{b:.1f}", tier] if u.get("script") else None
        try: subprocess.run(cmd or [bins[u["key"]], "run", "--property", u.get("name", prop), "--job", name, "--budget", f"{b:.1f}", "--tier", tier, "--seed", str(seed), "--out", out], timeout=b + 25, stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
        except subprocess.TimeoutExpired: pass
        try: return j, json.loads(open(out).read())
        except Exception: return j, None
    unconfirmed = []
    known = known_findings(prop); known_hit = {}
    skipped = 0
    with ThreadPoolExecutor(8) as ex:
        for fu in as_completed([ex.submit(run, j) for j in jobs]):
            (u, name, _), d = fu.result()
            if d is None: skipped += 1; continue
            results.append(d)
            for v in d["violations"]:
                got, text = replay(u, name, v["inputs"])
                if got and got.startswith("hang") and not v["msg"].startswith("hang"): got = ""
                if got: viols.append(dict(job=name, unit=u.get("name", prop), msg=v["msg"], reproduced=got, inputs=v["inputs"], text=text, u=u))
                else: unconfirmed.append(dict(job=name, msg=v["msg"], inputs=v["inputs"], replay=(text or "")[-400:]))
    # validate sampled paths on the untouched code
    validated = 0
    if cfg.get("validate", True) and not viols and jobs:
        tr = []
        umap = {n: u for u, n, _ in jobs}
        for d in results:
            for x in d["traces"]: tr.append((umap[d["job"]], d["job"], x))
        cap = 160 if tier == "quick" else 800
        step = max(1, len(tr) // cap)
        vdl = time.time() + (25 if tier == "quick" else 120)
        def val(x):
            if time.time() > vdl: return x, None, ""
            g, text = replay(*x, limit=12); return x, g, text
        with ThreadPoolExecutor(8) as ex:
            for x, g, text in ex.map(val, tr[::step]):
                if g is None or g.startswith("hang"): continue
                if g: viols.append(dict(job=x[1], unit=x[0].get("name", prop), msg="found while validating a sampled path on the untouched code: " + g, reproduced=g, inputs=x[2], text=text, u=x[0]))
                elif "HELD" in text: validated += 1
    fresh = []
    for v in viols:
        k = next((f for f in known if re.fullmatch(f["job"], v["job"]) and re.search(f["failure"], v["reproduced"])), None)
        if k: known_hit[k["what"]] = known_hit.get(k["what"], 0) + 1
        else: fresh.append(v)
    for f in known: print(f"KNOWN-FINDING: property={prop} {f['what']}")
    S = lambda k: sum(d[k] for d in results)
    M = lambda k: {x: sum(d[k].get(x, 0) for d in results) for x in sorted({y for d in results for y in d[k]})}
    samples = [s for d in results for s in d["samples"][:1]][:5] or ["none"]
    cov = dict(states=S("nodes") + S("paths"), transitions=S("branches"), traces_validated_against_impl=validated, samples=samples,
        exhaustive=bool(results) and skipped == 0 and all(d["complete"] for d in results),
        explanation="states: nodes of the symbolic execution tree; transitions: symbolic branches executed; traces_validated_against_impl: sampled paths re-executed on the untouched code with the same result",
        jobs=len(jobs), jobs_run=len(results), jobs_complete=sum(1 for d in results if d["complete"]), jobs_not_finished=[d["job"] for d in results if not d["complete"]][:40] , jobs_skipped=skipped,
        paths=S("paths"), paths_outside_bounds=S("abandoned"), solver_queries=S("queries"), queries_sat=S("sat"), queries_unsat=S("unsat"), queries_unknown=S("unknown"),
        properties_checked=S("checks"), properties_undecided=S("checks_unknown"), run_timeouts=S("timeouts"), concretisations=S("pinned"), divergences=S("divergences"), solver_s=round(S("solver_s"), 3), build_s=round(build_s, 1),
        witnesses=M("witnesses"), counters=M("counters"), outside=M("abandons"), functions_encoded=functions(bins, cfg), bounds=cfg.get("bounds", ""), unconfirmed=unconfirmed[:5], known_findings_seen=known_hit, notes=notes)
    ev = dict(property=prop, tier=tier, seed=seed, level=cfg.get("level", "model_checking"), coverage=cov, assumptions=cfg.get("assumptions", []), wall_s=round(time.time() - t0, 2), violations=len(fresh))
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    json.dump(ev, open(os.path.join(VERIF, "evidence", prop + ".json"), "w"), indent=1)
    import shutil; shutil.rmtree(tmp, ignore_errors=True)
    B.prune(set())
    log(f"{prop}: jobs {len(results)}/{len(jobs)} complete {cov['jobs_complete']} paths {cov['paths']} queries {cov['solver_queries']} unknown {cov['queries_unknown']} undecided {cov['properties_undecided']} validated {validated} unconfirmed {len(unconfirmed)} build {build_s:.0f}s wall {ev['wall_s']}s outside {cov['outside']} witnesses {cov['witnesses']}")
    for x in unconfirmed[:4]: log("  unconfirmed:", x)
    if fresh:
        rd = os.path.join(VERIF, "replays"); os.makedirs(rd, exist_ok=True)
        seen = set()
        for v in fresh:
            if len(seen) >= 5: break
            h = hashlib.sha256((v["job"] + v["msg"]).encode()).hexdigest()[:10]
            if h in seen: continue
            seen.add(h)
            p = os.path.join(rd, f"{prop}-{h}.json")
            json.dump(dict(property=prop, unit=v["unit"], job=v["job"], tier=tier, seed=seed, message=v["msg"], reproduced=v["reproduced"], inputs=v["inputs"], harness=v["u"]["harness"], flags=v["u"].get("flags", []), only=v["u"].get("only"), output=v["text"][-4000:], how="python3 replay.py " + os.path.relpath(p, VERIF)), open(p, "w"), indent=1)
            print(f"VIOLATION property={prop} replay={p}")
            log("  ", v["job"], v["msg"][:300], "|", v["reproduced"][:300], v["inputs"])
        sys.exit(1)
    sys.exit(0)
try: main()
except SystemExit: raise
except Exception as e:
    import traceback; traceback.print_exc()
    sys.exit(3)
