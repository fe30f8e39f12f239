"""Build layer: compiles /repo's current sources to LLVM bitcode (for ipsym) and natively (for replay)."""
import os, sys, hashlib, subprocess, json, glob, shutil, re, time
from concurrent.futures import ThreadPoolExecutor
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
B = os.path.join(V, "build")
LL = "/usr/lib/llvm-18/bin/"
CXX = LL + "clang++"; CC = LL + "clang"
IPSYM = os.path.join(B, "ipsym")
SKIP = {"IpSpralSolverInterface.cpp", "IpWsmpSolverInterface.cpp", "IpIterativeWsmpSolverInterface.cpp", "IpStdJInterface.cpp", "IpPardisoMKLSolverInterface.cpp",
        "IpMa28TDependencyDetector.cpp", "IpStdFInterface.c"}
DIRS = ["Common", "LinAlg", "LinAlg/TMatrices", "Algorithm", "Algorithm/LinearSolvers", "contrib/CGPenalty", "Interfaces"]
GROUPS = {
    "core": [("src/" + d, None) for d in DIRS],
    "sipopt": [("contrib/sIPOPT/src", None)],
    "ampl": [("src/Apps/AmplSolver", ["AmplTNLP.cpp"])],
}
def incs():
    r = ["-I" + V + "/cfg"]
    r += ["-I%s/src/%s" % (REPO, d) for d in DIRS]
    r += ["-I%s/contrib/sIPOPT/src" % REPO, "-I%s/src/Apps/AmplSolver" % REPO, "-I/usr/include/mumps_seq", "-I/usr/include/ampl-netlib-solvers", "-I" + V + "/rt"]
    return r
DEFS = ["-DNDEBUG", "-DHAVE_CONFIG_H", "-DIPOPTLIB_BUILD", "-w"]
BCF = ["-O1", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-fno-vectorize", "-fno-slp-vectorize", "-fno-unroll-loops", "-ffp-contract=off", "-fno-threadsafe-statics", "-fno-math-errno", "-fno-pic", "-emit-llvm"]
NATF = ["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer", "-ffp-contract=off"]
def sh(cmd, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
def sources(group="core"):
    out = []
    for d, names in GROUPS[group]:
        p = os.path.join(REPO, d)
        for f in sorted(os.listdir(p)):
            if not (f.endswith(".cpp") or f.endswith(".c")): continue
            if f in SKIP or (names and f not in names): continue
            out.append(os.path.join(p, f))
    return out
def filehash(p):
    with open(p, "rb") as f: return hashlib.sha256(f.read()).hexdigest()
_hh = None
def headerhash():
    global _hh
    if _hh is None:
        h = hashlib.sha256()
        ds = [REPO + "/src/" + d for d in DIRS] + [REPO + "/contrib/sIPOPT/src", REPO + "/src/Apps/AmplSolver", V + "/cfg", V + "/rt"]
        for d in ds:
            for f in sorted(os.listdir(d)):
                if f.endswith((".h", ".hpp")): h.update(f.encode()); h.update(filehash(os.path.join(d, f)).encode())
        _hh = h.hexdigest()
    return _hh
def compile_one(src, kind, extra=(), ok_fail=False):
    """returns (path, errlog); content-addressed cache"""
    iscxx = src.endswith(".cpp")
    comp = [CXX, "-std=c++14"] if iscxx else [CC]
    flags = (BCF if kind == "bc" else NATF) + DEFS + list(extra) + incs()
    ftag = hashlib.sha256(" ".join(comp + flags).replace(V, "@V").encode()).hexdigest()
    hd = os.path.dirname(src); loc = "".join(filehash(os.path.join(hd, f)) for f in sorted(os.listdir(hd)) if f.endswith(".h")) if src.startswith(V) else ""
    k1 = hashlib.sha256((filehash(src) + headerhash() + loc + ftag + os.path.basename(src)).encode()).hexdigest()[:32]
    cdir = os.path.join(B, "cache"); os.makedirs(cdir, exist_ok=True)
    ptr = os.path.join(cdir, k1 + ".ptr"); ext = ".bc" if kind == "bc" else ".o"
    if os.path.exists(ptr):
        out = os.path.join(cdir, open(ptr).read().strip())
        if os.path.exists(out): return out, None
    pp = subprocess.run(comp + [x for x in flags if x not in ("-emit-llvm",)] + ["-E", "-P", src, "-o", "-"], stdout=subprocess.PIPE, stderr=subprocess.PIPE)
    if pp.returncode: return None, pp.stderr.decode()[:4000]
    k2 = hashlib.sha256(pp.stdout + ftag.encode()).hexdigest()[:32]
    name = os.path.basename(src).rsplit(".", 1)[0] + "-" + k2 + ext; out = os.path.join(cdir, name)
    if not os.path.exists(out):
        tmp = out + ".%d.tmp" % os.getpid()
        r = sh(comp + flags + ["-c", src, "-o", tmp])
        if r.returncode: return None, r.stdout[:4000]
        os.rename(tmp, out)
    with open(ptr + ".%d" % os.getpid(), "w") as f: f.write(name)
    os.rename(ptr + ".%d" % os.getpid(), ptr)
    return out, None
def compile_all(srcs, kind, extra=()):
    with ThreadPoolExecutor(8) as ex: rs = list(ex.map(lambda s: compile_one(s, kind, extra), srcs))
    errs = [(s, e) for s, (o, e) in zip(srcs, rs) if o is None]
    return [o for o, e in rs], errs
RT = ["rt.cpp", "rt_io.cpp", "rt_exc.cpp", "blas.cpp", "mumps.cpp"]
def link_all(groups=("core",)):
    srcs = [s for g in groups for s in sources(g)]
    objs, errs = compile_all(srcs, "bc")
    if errs: return None, errs
    rts, errs = compile_all([os.path.join(V, "rt", f) for f in RT], "bc", ["-fno-builtin", "-fno-access-control"])
    if errs: return None, errs
    k = hashlib.sha256(" ".join(os.path.basename(o) for o in objs + rts).encode()).hexdigest()[:24]
    out = os.path.join(B, "cache", "all-%s.bc" % k)
    if not os.path.exists(out):
        tmp = out + ".%d.tmp" % os.getpid()
        r = sh([LL + "llvm-link"] + objs + rts + ["-o", tmp])
        if r.returncode: return None, [("link", r.stdout)]
        os.rename(tmp, out)
    return out, None
def link_harness(h, groups=("core",)):
    """h: harness cpp.  returns bitcode path"""
    allbc, errs = link_all(groups)
    if errs: return None, errs
    hb, e = compile_one(h, "bc")
    if e: return None, [(h, e)]
    k = hashlib.sha256((os.path.basename(allbc) + os.path.basename(hb)).encode()).hexdigest()[:24]
    out = os.path.join(B, "cache", "h-%s-%s.bc" % (os.path.basename(h)[:-4], k))
    if not os.path.exists(out):
        tmp = out + ".%d.tmp" % os.getpid()
        r = sh([LL + "llvm-link", "--only-needed", hb, allbc, "-o", tmp])
        if r.returncode: return None, [("link", r.stdout)]
        os.rename(tmp, out)
    return out, None
def native(h, groups=("core",)):
    srcs = [s for g in groups for s in sources(g)]
    objs, errs = compile_all(srcs, "nat")
    if errs: return None, errs
    mine, errs = compile_all([h, os.path.join(V, "rt", "native.cpp"), os.path.join(V, "rt", "mumps.cpp")], "nat")
    if errs: return None, errs
    k = hashlib.sha256(" ".join(os.path.basename(o) for o in objs + mine).encode()).hexdigest()[:24]
    out = os.path.join(B, "cache", "n-%s-%s" % (os.path.basename(h)[:-4], k))
    if not os.path.exists(out):
        lib = os.path.join(B, "cache", "lib-%s.a" % hashlib.sha256(" ".join(os.path.basename(o) for o in objs).encode()).hexdigest()[:24])
        if not os.path.exists(lib):
            t = lib + ".%d.tmp" % os.getpid(); r = sh([LL + "llvm-ar", "rcs", t] + objs); os.rename(t, lib)
        tmp = out + ".%d.tmp" % os.getpid()
        r = sh([CXX, "-fsanitize=address", "-g1"] + mine + [lib, "-o", tmp, "-llapack", "-lblas", "-ldl", "-lpthread"])
        if r.returncode: return None, [("native link", r.stdout)]
        os.rename(tmp, out)
    return out, None
def spec(h):
    t = []
    for l in open(h):
        if l.startswith("//!"): t.append(l[3:])
        elif t: break
    return json.loads("\n".join(t)) if t else {}
