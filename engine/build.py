"""Builds harness binaries from /repo's current working tree (nothing is written there)."""
import hashlib, os, re, shutil, subprocess, sys, glob
from concurrent.futures import ThreadPoolExecutor
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("YAGA_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
CXX = "clang++"
ENG = os.path.join(VERIF, "engine")
class BuildError(Exception): pass
def _files(d):
    r = []
    for root, _, fs in os.walk(d):
        for f in fs:
            r.append(os.path.join(root, f))
    return sorted(r)
def _hash(paths, extra=""):
    h = hashlib.sha256(extra.encode())
    for p in paths:
        h.update(p.encode()); h.update(open(p, "rb").read())
    return h.hexdigest()[:16]
def _run(cmd, cwd=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError(" ".join(cmd[:12]) + " ...\n" + p.stdout[-3000:])
    return p.stdout
def has_main(p):
    t = open(p, errors="replace").read()
    return re.search(r"^\s*int\s+main\s*\(", t, re.M) is not None
def prune(keep, limit=12):
    ds = [os.path.join(BUILD, d) for d in os.listdir(BUILD)] if os.path.isdir(BUILD) else []
    ds = [d for d in ds if os.path.isdir(d) and d not in keep]
    ds.sort(key=os.path.getmtime)
    while len(ds) > limit:
        shutil.rmtree(ds.pop(0), ignore_errors=True)
def flavour_flags(flavour):
    f = ["-std=c++20", "-O1", "-w", "-fno-access-control", "-D_GLIBCXX_ASSERTIONS"]
    if flavour == "concrete": f += ["-DSYM_CONCRETE", "-g1"]
    if flavour in ("bv",): f += ["-DSYM_BV"]
    return f
def pass_plugin():
    src = os.path.join(ENG, "pass", "ConcolicPass.cpp")
    h = _hash([src])
    d = os.path.join(BUILD, "pass-" + h); so = os.path.join(d, "ConcolicPass.so")
    if not os.path.exists(so):
        os.makedirs(d, exist_ok=True)
        cfg = subprocess.run(["llvm-config-18", "--cxxflags"], capture_output=True, text=True).stdout.split()
        _run([CXX, "-shared", "-fPIC", "-O1", "-w"] + [c for c in cfg if not c.startswith("-std")] + ["-std=c++17", src, "-o", so + ".tmp"])
        os.rename(so + ".tmp", so)
    return so
def build(flavour, harness, extra_flags=(), gmp_stub=False, only=None, src_filter=None, tag=""):
    """flavour: sym (Rational overlay), concrete (untouched), bv (IR instrumentation), bvsym (both).
    harness: list of files under /verif/harness. Returns path of the binary."""
    src = os.path.join(REPO, "src")
    srcs = [p for p in _files(src) if p.endswith((".cpp", ".h", ".ll", ".hpp", ".cc"))]
    hfiles = [os.path.join(VERIF, "harness", h) for h in harness]
    deps = srcs + _files(ENG) + [p for p in _files(os.path.join(VERIF, "harness"))]
    deps = [d for d in deps if "__pycache__" not in d]
    repo_key = _hash(srcs + [p for p in _files(ENG) if "__pycache__" not in p], flavour + "|" + " ".join(extra_flags) + str(gmp_stub) + str(only) + tag)
    d = os.path.join(BUILD, flavour + "-" + repo_key)
    os.makedirs(d, exist_ok=True)
    stage = os.path.join(d, "src")
    if not os.path.exists(os.path.join(d, "staged")):
        shutil.rmtree(stage, ignore_errors=True)
        shutil.copytree(src, stage)
        if flavour in ("sym", "bvsym"):
            shutil.copy(os.path.join(ENG, "overlay", "Long_fraction.h"), os.path.join(stage, "lra", "Long_fraction.h"))
            open(os.path.join(stage, "lra", "Long_fraction.cpp"), "w").write('#include "Long_fraction.h"\n')
        for ll in glob.glob(os.path.join(stage, "**", "*.ll"), recursive=True):
            _run(["flex", "-o", ll[:-3] + ".cpp", ll])
        open(os.path.join(d, "staged"), "w").close()
    incs = []
    for root, ds, fs in os.walk(stage):
        incs += ["-I", root]
    flags = flavour_flags(flavour) + list(extra_flags)
    if flavour in ("sym", "bvsym", "bv"): pass
    if flavour in ("bv", "bvsym"): flags += ["-include", os.path.join(ENG, "bvnum.h")]
    plugin = []
    if flavour in ("bv", "bvsym"):
        so = pass_plugin()
        plugin = ["-fpass-plugin=" + so, "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-fno-vectorize", "-fno-slp-vectorize", "-fno-builtin"]
    if gmp_stub and flavour != "concrete":
        flags = ["-I", os.path.join(ENG, "gmpstub")] + flags
    cpps = sorted(p for p in _files(stage) if p.endswith((".cpp", ".cc")) and not has_main(p))
    if only is not None:
        cpps = [p for p in cpps if any(os.path.relpath(p, stage) == o for o in only)]
    jobs = []
    objs = []
    def obj(name): return os.path.join(d, name)
    for p in cpps:
        o = obj("r_" + os.path.relpath(p, stage).replace("/", "_") + ".o")
        objs.append(o)
        if not os.path.exists(o): jobs.append(([CXX, "-c", p, "-o", o + ".tmp"] + flags + plugin + incs, o))
    rt = ["sym_concrete.cpp"] if flavour == "concrete" else ["sym.cpp"]
    if flavour in ("bv", "bvsym"): rt.append("bvrt.cpp")
    rtdir = os.path.join(BUILD, "rt-" + _hash([os.path.join(ENG, r) for r in rt] + [os.path.join(ENG, "sym.h")]))
    os.makedirs(rtdir, exist_ok=True)
    for r in rt:
        o = os.path.join(rtdir, r + ".o"); objs.append(o)
        if not os.path.exists(o): jobs.append(([CXX, "-std=c++20", "-O2", "-w", "-c", os.path.join(ENG, r), "-o", o + ".tmp"], o))
    for hf in hfiles:
        hh = _hash([hf] + [p for p in _files(os.path.join(VERIF, "harness")) if p.endswith(".h")])
        o = obj("h_" + os.path.basename(hf) + "." + hh + ".o"); objs.append(o)
        inst = plugin if (plugin and not os.path.basename(hf).startswith("n_")) else []
        if not os.path.exists(o): jobs.append(([CXX, "-c", hf, "-o", o + ".tmp", "-I", ENG] + flags + inst + incs, o))
    def go(j):
        cmd, o = j
        _run(cmd); os.rename(o + ".tmp", o)
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(go, jobs))
    binp = obj("bin_" + hashlib.sha256(" ".join(objs).encode()).hexdigest()[:16])
    if not os.path.exists(binp):
        _run([CXX, "-o", binp + ".tmp"] + objs + ["-lz3", "-lgmpxx", "-lgmp", "-lpthread"])
        os.rename(binp + ".tmp", binp)
    os.utime(d)
    return binp
if __name__ == "__main__":
    print(build(sys.argv[1], sys.argv[2:]))
