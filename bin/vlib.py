"""Builds /repo's current tree into monitor executables, outside /repo."""
import concurrent.futures as cf, glob, hashlib, os, shutil, subprocess, sys, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "build")
JOBS = os.cpu_count() or 4

class HarnessError(Exception):
    pass

def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", **kw)
    return p

def python_with_yaml():
    for py in ("/opt/vp/venv/bin/python", sys.executable, "python3", "python3-vt"):
        try:
            if subprocess.run([py, "-c", "import yaml"], stderr=subprocess.DEVNULL).returncode == 0:
                return py
        except OSError:
            pass
    raise HarnessError("no python with pyyaml")

SKIP_TOP = {".git", "_build", "libindicators.so"}

def snapshot(dst):
    """Copies /repo's working tree (tracked and untracked sources, no build products) and regenerates the generated files."""
    if os.path.exists(dst):
        shutil.rmtree(dst)
    os.makedirs(dst)
    for n in os.listdir(REPO):
        if n in SKIP_TOP or n in ("indicators.h", "indicators_index.c"):
            continue
        s = os.path.join(REPO, n)
        if os.path.isdir(s):
            shutil.copytree(s, os.path.join(dst, n), ignore=shutil.ignore_patterns("__pycache__", "*.so", "*.o"))
        else:
            shutil.copy2(s, os.path.join(dst, n))
    p = run([python_with_yaml(), "codegen.py"], cwd=dst)
    if p.returncode or not os.path.exists(os.path.join(dst, "indicators.h")):
        raise HarnessError("codegen.py failed:\n" + p.stdout[-2000:] + p.stderr[-2000:])
    return dst

BASE_INC = ["-Wno-unused-value", "-w"]
RELEASE = ["-O2", "-ffast-math", "-fno-finite-math-only", "-DNDEBUG", "-fPIC", "-g1"]
VARIANTS = {
    # flags for the library, flags for the harness, link flags
    "rel": dict(lib=RELEASE, har=["-O1", "-g1"], link=[]),
    "asan": dict(lib=["-O1", "-g1", "-fsanitize=address,undefined", "-fno-omit-frame-pointer", "-fno-sanitize-recover=undefined", "-DNDEBUG"],
                 har=["-O1", "-g1", "-fsanitize=address", "-DVAR_EXACT"], link=["-fsanitize=address,undefined"]),
    # options stay in the range of int (VAR_INTOPT), so that every conversion of a number to an integer can be watched too
    "conv": dict(lib=["-O1", "-g1", "-fsanitize=undefined,float-cast-overflow", "-fno-omit-frame-pointer", "-fno-sanitize-recover=undefined,float-cast-overflow", "-DNDEBUG"],
                 har=["-O1", "-g1", "-DVAR_EXACT", "-DVAR_INTOPT"], link=["-fsanitize=undefined,float-cast-overflow"]),
    "fi": dict(lib=RELEASE, har=["-O1", "-g1", "-DVAR_FI"], link=["-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free,--wrap=aligned_alloc,--wrap=posix_memalign"]),
    "fiasan": dict(lib=["-O1", "-g1", "-fsanitize=address", "-fno-omit-frame-pointer", "-DNDEBUG"], har=["-O1", "-g1", "-fsanitize=address", "-DVAR_FI", "-DVAR_EXACT"],
                   link=["-fsanitize=address", "-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free,--wrap=aligned_alloc,--wrap=posix_memalign"]),
    "tsan": dict(lib=["-O1", "-g1", "-fsanitize=thread", "-DNDEBUG"], har=["-O1", "-g1", "-fsanitize=thread"], link=["-fsanitize=thread"]),
    # clang: the library's stack and the memory it allocates start out poisoned; the harness's own memory does not (libstdc++ is not instrumented)
    "msan": dict(cc=["clang", "clang++"], lib=["-O0", "-g1", "-fsanitize=memory", "-fsanitize-memory-track-origins", "-fno-omit-frame-pointer", "-DNDEBUG"],
                 har=["-O1", "-g1", "-fsanitize=memory", "-mllvm", "-msan-poison-stack=0", "-DVAR_FI", "-DVAR_EXACT"], model=["-fsanitize=memory", "-mllvm", "-msan-poison-stack=0"],
                 link=["-fsanitize=memory", "-Wl,--wrap=malloc,--wrap=calloc,--wrap=realloc,--wrap=free,--wrap=aligned_alloc,--wrap=posix_memalign,--wrap=_Znwm,--wrap=_Znam,"
                       "--wrap=_ZnwmRKSt9nothrow_t,--wrap=_ZnamRKSt9nothrow_t,--wrap=_ZdlPv,--wrap=_ZdaPv,--wrap=_ZdlPvm,--wrap=_ZdaPvm,"
                       "--wrap=_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_,--wrap=_ZNSt8__detail15_List_node_base7_M_hookEPS0_"]),
    "vg": dict(lib=["-O1", "-g1", "-DNDEBUG"], har=["-O1", "-g1", "-DVAR_VALGRIND", "-DVAR_EXACT"], link=[]),
}

def compile_all(jobs):
    def one(j):
        src, obj, cmd = j
        p = run(cmd)
        return src, p
    with cf.ThreadPoolExecutor(JOBS) as ex:
        for src, p in ex.map(one, jobs):
            if p.returncode:
                raise HarnessError("compiling %s failed:\n%s" % (src, p.stderr[-3000:]))

def lib_sources(tree):
    out = []
    for d in ("indicators", "utils"):
        for f in sorted(glob.glob(os.path.join(tree, d, "*"))):
            if f.endswith((".c", ".cc", ".cpp", ".cxx")):
                out.append(f)
    out.append(os.path.join(tree, "indicators_index.c"))
    return out

def lib_jobs(tree, objdir, flags, cc2=("gcc", "g++")):
    os.makedirs(objdir, exist_ok=True)
    jobs, objs = [], []
    for s in lib_sources(tree):
        o = os.path.join(objdir, os.path.basename(s) + ".o")
        cc = [cc2[0], "-std=c99"] if s.endswith(".c") else [cc2[1], "-std=c++17"]
        jobs.append((s, o, cc + ["-w"] + flags + ["-I", tree, "-c", s, "-o", o]))
        objs.append(o)
    return jobs, objs

def build_mon(tree, work, variant):
    """Returns the path of the monitor executable for this variant."""
    v = VARIANTS[variant]
    od = os.path.join(work, variant)
    cc2 = v.get("cc", ["gcc", "g++"])
    jobs, objs = lib_jobs(tree, od, v["lib"], cc2)
    extra = []
    mfl = ["-O2"] + v.get("model", [])
    for s, nm, fl in ((os.path.join(VERIF, "harness/mon.cc"), "mon", v["har"]),
                      (os.path.join(VERIF, "models/models_a.cc"), "models_a", mfl),
                      (os.path.join(VERIF, "models/models_b.cc"), "models_b", mfl)):
        o = os.path.join(od, "h_" + nm + ".o")
        extra.append((s, o, [cc2[1], "-std=c++17", "-w"] + fl + ["-I", tree, "-I", os.path.join(VERIF, "models"), "-I", os.path.join(VERIF, "harness"), "-c", s, "-o", o]))
        objs.append(o)
    compile_all(extra + jobs)
    exe = os.path.join(od, "mon")
    p = run([cc2[1], "-o", exe] + objs + v["link"] + ["-lpthread", "-lm"])
    if p.returncode:
        raise HarnessError("linking %s failed:\n%s" % (variant, p.stderr[-3000:]))
    return exe

def build_shared(tree, work):
    """The shared library with the release flags, as the bindings load it."""
    od = os.path.join(work, "shared")
    jobs, objs = lib_jobs(tree, od, RELEASE)
    compile_all(jobs)
    so = os.path.join(work, "libindicators.so")
    p = run(["g++", "-shared", "-o", so] + objs + ["-lm"])
    if p.returncode:
        raise HarnessError("linking the shared library failed:\n" + p.stderr[-3000:])
    return so
