"""Shared machinery: builds the engine and the harnesses, runs them, replays, writes evidence."""
import os, sys, subprocess, json, time, re, shutil, hashlib, concurrent.futures as cf
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("SYMX_REPO", "/repo")
BUILD = os.environ.get("SYMX_BUILD", os.path.join(VERIF, "build"))
ENG = os.path.join(VERIF, "engine")
EB = os.path.join(BUILD, "engine")
JOBS = int(os.environ.get("SYMX_JOBS", "8"))

class CheckError(Exception): pass

def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", **kw)
    if r.returncode != 0:
        raise CheckError("command failed (%d): %s\n%s" % (r.returncode, " ".join(map(str, cmd))[:400], (r.stdout + r.stderr)[-3000:]))
    return r.stdout

def stamp(files):
    h = hashlib.sha256()
    for f in files: h.update(open(f, "rb").read())
    return h.hexdigest()

SYM_FLAGS = ["-O1", "-fno-vectorize", "-fno-slp-vectorize", "-fno-jump-tables", "-fno-builtin", "-fsanitize=address",
             "-Xclang", "-disable-llvm-passes", "-emit-llvm", "-w"]
CXXFLAGS = ["-std=c++11", "-funsigned-char", "-fno-access-control", "-DCENTAURUS_BUILD_LINUX", "-D_GLIBCXX_EXTERN_TEMPLATE=0", "-D_GLIBCXX_ASSERTIONS"]

def build_engine(force=False):
    os.makedirs(EB, exist_ok=True)
    srcs = [os.path.join(ENG, f) for f in ("SymxPass.cpp", "runtime.cpp", "replay.cpp", "models.c", "sx.h")]
    st = stamp(srcs); sf = os.path.join(EB, "stamp")
    if not force and os.path.exists(sf) and open(sf).read() == st: return
    with cf.ThreadPoolExecutor(4) as ex:
        js = [ex.submit(sh, ["clang++", "-std=c++17", "-O1", "-fPIC", "-shared", "-fno-rtti", "-I/usr/lib/llvm-18/include", "-w", srcs[0], "-o", EB + "/libsymx.so"]),
              ex.submit(sh, ["clang++", "-std=c++17", "-O2", "-g", "-w", "-c", srcs[1], "-I" + ENG, "-o", EB + "/runtime.o"]),
              ex.submit(sh, ["clang++", "-std=c++17", "-O1", "-g", "-w", "-c", srcs[2], "-I" + ENG, "-o", EB + "/replay.o"]),
              ex.submit(sh, ["clang", "-ffreestanding"] + SYM_FLAGS + ["-c", srcs[3], "-o", EB + "/models.bc"])]
        for j in js: j.result()
    open(sf, "w").write(st)

def lib_sources():
    t = open(os.path.join(REPO, "CMakeLists.txt")).read()
    m = re.search(r"set\(CENTAURUS_LIB_SRC ([^)]*)\)", t)
    return [os.path.join(REPO, f) for f in m.group(1).split() if "CodeGen" not in f]

def build_harness(name, src, defines=(), extra_sources=None, includes=(), wrapdir=None):
    """Front end: the harness and the repository's sources, one translation unit, from the current tree.
       Returns (symbolic executable, native replay executable, info)."""
    d = os.path.join(wrapdir or BUILD, "h", name); os.makedirs(d, exist_ok=True)
    t0 = time.time()
    u = os.path.join(d, "unity.cpp")
    srcs = lib_sources() if extra_sources is None else extra_sources
    open(u, "w").write('#include "%s"\n' % os.path.join(VERIF, "harness", src) + "".join('#include "%s"\n' % s for s in srcs))
    inc = ["-I" + i for i in includes] + ["-I" + os.path.join(REPO, "src", "core"), "-I" + ENG, "-I" + os.path.join(VERIF, "harness")]
    raw, allb, o1, sx, nat = (os.path.join(d, n) for n in ("raw.bc", "all.bc", "o1.bc", "sx.bc", "nat.bc"))
    sh(["clang++"] + CXXFLAGS + ["-D" + x for x in defines] + inc + SYM_FLAGS + ["-c", u, "-o", raw])
    sh(["llvm-link", raw, EB + "/models.bc", "-o", allb])
    keep = ",".join(sorted(set(re.findall(r"sxm_[a-z]+", open(ENG + "/models.c").read())))) + ",sx_main"
    sh(["opt", "-internalize-public-api-list=" + keep, "-passes=internalize,globaldce,default<O1>,globaldce", allb, "-o", o1])
    def symb():
        sh(["opt", "-load-pass-plugin=" + EB + "/libsymx.so", "-passes=function(loweratomic,lowerswitch),symx,function(instsimplify,simplifycfg,adce),asan", o1, "-o", sx])
        sh(["clang++", "-O1", "-Xclang", "-disable-llvm-passes", "-fsanitize=address", "-w", sx, EB + "/runtime.o", "-lz3", "-lpthread", "-rdynamic", "-o", d + "/symbolic"])
    def nativ():
        sh(["opt", "-passes=asan", o1, "-o", nat])
        sh(["clang++", "-O1", "-Xclang", "-disable-llvm-passes", "-fsanitize=address", "-w", nat, EB + "/replay.o", "-lpthread", "-rdynamic", "-o", d + "/native"])
    with cf.ThreadPoolExecutor(2) as ex:
        a, b = ex.submit(symb), ex.submit(nativ); a.result(); b.result()
    for f in (raw, allb, o1, sx, nat):
        try: os.remove(f)
        except OSError: pass
    return d + "/symbolic", d + "/native", time.time() - t0

ASAN = {"ASAN_OPTIONS": "detect_leaks=0:malloc_context_size=0:handle_abort=0:detect_odr_violation=0:allocator_may_return_null=0:max_allocation_size_mb=2048:quarantine_size_mb=8:exitcode=99:abort_on_error=0"}

# bounds that harnesses read at run time, so that runs differing only in them share one executable
RUNTIME = set("LEAVES POSTS GROUPS RANKS KINDS ABODIES SLEN SYMB LONGS EMPTIES DIGITS LITS OPT LS LA ONEWS CLO CHI SHAPES DRY RUN WIDE RNUM PLAIN LMIN LMAX".split())
def split_defines(defines):
    """compile-time defines, run-time parameters"""
    ct, rt = [], {}
    for x in defines:
        n, _, v = x.partition("=")
        if n in RUNTIME and re.fullmatch(r"-?(0x[0-9a-fA-F]+|[0-9]+)", v): rt[n] = str(int(v, 0)); ct.append('%s=sx_param("%s")' % (n, n))
        else: ct.append(x)
    return ct, rt
def run_symbolic(exe, out, tier, case, timeout, extra=(), jobs=None, params={}):
    env = dict(os.environ, **ASAN); env.update({"SX_P_" + k: v for k, v in params.items()})
    with open(out + ".log", "w") as lg:
        r = subprocess.run([exe, "--out", out, "--tier", tier, "--case", str(case), "--jobs", str(jobs or JOBS), "--timeout", str(timeout)] + list(extra),
                       stdout=lg, stderr=lg, env=env)
    if r.returncode != 0 or not os.path.exists(out): raise CheckError("symbolic run failed rc=%d: %s" % (r.returncode, open(out + ".log").read()[-1500:]))
    return json.load(open(out))

def replay(native, modelfile, tier, case, obs=False, timeout=60, params={}):
    env = dict(os.environ, **ASAN); env.update({"SX_P_" + k: v for k, v in params.items()})
    try:
        r = subprocess.run([native, "--tier", tier, "--case", str(case)] + (["--obs"] if obs else []) + [modelfile], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", env=env, timeout=timeout)
        return r.returncode, r.stdout, r.stderr
    except subprocess.TimeoutExpired:
        return 1, "REPLAY-VIOLATION does not terminate\n", ""

def demangle(names):
    if not names: return []
    r = subprocess.run(["c++filt"], input="\n".join(names), stdout=subprocess.PIPE, text=True)
    return r.stdout.split("\n")
