"""Builds google/tcmalloc from /repo's working tree (outside /repo) plus the harnesses.

Everything is compiled from the current sources: object caching is keyed by a
hash of the whole /repo/tcmalloc tree, the compat layer and the command line.
"""
import fcntl, glob, hashlib, os, re, subprocess, sys, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VT_REPO", "/repo")
ROOT = os.environ.get("VT_BUILD", os.path.join(VERIF, ".build"))
NCPU = os.cpu_count() or 4
EXCL = re.compile(r"_test|_fuzz|benchmark|mock_|/want_|unsupported|enable_heap_part|testutil|_helper|_recorder\.cc")

BASE = ["-std=c++17", "-w", "-fno-omit-frame-pointer", "-g1", "-U_FORTIFY_SOURCE"]
P8 = ["-DTCMALLOC_INTERNAL_8K_PAGES"]
# name -> dict(flags, link, nomalloc)
# mappings are kept where the race detector can see them; the arena lock of the installed absl library is made visible to it
TSAN_WRAP = "-Wl,--wrap=mmap,--wrap=_ZN4absl7debian313base_internal13LowLevelAlloc14AllocWithArenaEmPNS2_5ArenaE,--wrap=_ZN4absl7debian313base_internal13LowLevelAlloc4FreeEPv,--wrap=_ZN4absl7debian313base_internal12SpinLockWaitEPSt6atomicIjEiPKNS1_22SpinLockWaitTransitionENS1_14SchedulingModeE"
VARIANTS = {
    # allocator interposes malloc
    "opt":     dict(flags=["-O2", "-DNDEBUG"] + P8),
    "fast":    dict(flags=["-O1", "-DNDEBUG"] + P8),
    "dbg":     dict(flags=["-O1"] + P8),
    "p4":      dict(flags=["-O1", "-DNDEBUG", "-DTCMALLOC_INTERNAL_SMALL_BUT_SLOW"]),
    "p32":     dict(flags=["-O1", "-DNDEBUG", "-DTCMALLOC_INTERNAL_32K_PAGES"]),
    "p256":    dict(flags=["-O1", "-DNDEBUG", "-DTCMALLOC_INTERNAL_256K_PAGES"]),
    "numa":    dict(flags=["-O1", "-DNDEBUG", "-DTCMALLOC_INTERNAL_NUMA_AWARE"] + P8),
    "perthr":  dict(flags=["-O1", "-DNDEBUG", "-DTCMALLOC_DEPRECATED_PERTHREAD"] + P8),
    "leglock": dict(flags=["-O1", "-DNDEBUG", "-DTCMALLOC_INTERNAL_LEGACY_LOCKING"] + P8),
    # every internal lock reports to the harness's lock monitor
    "lk":      dict(flags=["-O1", "-DNDEBUG", "-DVT_LOCKS"] + P8),
    "lkdbg":   dict(flags=["-O1", "-DVT_LOCKS"] + P8),
    "lkleg":   dict(flags=["-O1", "-DNDEBUG", "-DVT_LOCKS", "-DTCMALLOC_INTERNAL_LEGACY_LOCKING"] + P8),
    "lkthr":   dict(flags=["-O1", "-DNDEBUG", "-DVT_LOCKS", "-DTCMALLOC_DEPRECATED_PERTHREAD"] + P8),
    "lkp4":    dict(flags=["-O1", "-DNDEBUG", "-DVT_LOCKS", "-DTCMALLOC_INTERNAL_SMALL_BUT_SLOW"]),
    # component variants: same sources without tcmalloc.cc's malloc override
    "comp":    dict(flags=["-O1"] + P8, nomalloc=True),
    "compp32": dict(flags=["-O1", "-DTCMALLOC_INTERNAL_32K_PAGES"], nomalloc=True),
    "compp256": dict(flags=["-O1", "-DTCMALLOC_INTERNAL_256K_PAGES"], nomalloc=True),
    "compp4":  dict(flags=["-O1", "-DTCMALLOC_INTERNAL_SMALL_BUT_SLOW"], nomalloc=True),
    "compnuma": dict(flags=["-O1", "-DTCMALLOC_INTERNAL_NUMA_AWARE"] + P8, nomalloc=True),
    "compn":   dict(flags=["-O1", "-DNDEBUG"] + P8, nomalloc=True),
    "compleg": dict(flags=["-O1", "-DTCMALLOC_INTERNAL_LEGACY_LOCKING"] + P8, nomalloc=True),
    "asan":    dict(flags=["-O1", "-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"] + P8,
                    link=["-fsanitize=address,undefined"], nomalloc=True),
    "tsan":    dict(flags=["-O1", "-fsanitize=thread", "-DVT_TSAN", "-D__restrict__=", "-D__restrict="] + P8, link=["-fsanitize=thread", TSAN_WRAP], nomalloc=True, cxx="clang++"),
    # the whole allocator beside the sanitizer's own malloc: reached through the TCMallocInternal functions
    "tsanf":   dict(flags=["-O1", "-fsanitize=thread", "-DTCMALLOC_INTERNAL_METHODS_ONLY", "-DVT_INTERNAL_API", "-DVT_TSAN", "-D__restrict__=", "-D__restrict="] + P8, link=["-fsanitize=thread", TSAN_WRAP], cxx="clang++"),
    # the whole allocator, as malloc, with checks for undefined behaviour
    "ubsan":   dict(flags=["-O1", "-fsanitize=undefined,float-divide-by-zero,float-cast-overflow,nullability", "-fno-sanitize=vptr,function", "-fno-sanitize-recover=all", "-DVT_UBSAN", "-D__restrict__=", "-D__restrict="] + P8, cxx="clang++"),
    "ubsann":  dict(flags=["-O1", "-DNDEBUG", "-fsanitize=undefined,float-divide-by-zero,float-cast-overflow", "-fno-sanitize=vptr,object-size", "-fno-sanitize-recover=all", "-DVT_UBSAN"] + P8),
}

def sh(cmd, log=None):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
    if log is not None:
        with open(log, "w") as f: f.write(p.stdout)
    return p.returncode, p.stdout

_tree = None
def tree_hash():
    global _tree
    if _tree is None:
        h = hashlib.sha256()
        fs = []
        for base in (os.path.join(REPO, "tcmalloc"), os.path.join(VERIF, "compat")):
            for d, dn, fn in os.walk(base):
                dn.sort()
                for f in sorted(fn):
                    if f.endswith((".cc", ".h", ".S", ".proto", ".inc", ".def")): fs.append(os.path.join(d, f))
        for f in fs:
            h.update(f.encode()); h.update(open(f, "rb").read())
        _tree = h.hexdigest()
    return _tree

def lib_sources(nomalloc):
    s = sorted(glob.glob(os.path.join(REPO, "tcmalloc/*.cc")) + glob.glob(os.path.join(REPO, "tcmalloc/internal/*.cc")))
    s = [x for x in s if not EXCL.search(x[len(REPO):])]
    if nomalloc:
        s = [x for x in s if not x.endswith("/tcmalloc/tcmalloc.cc")]
    # alternative definitions are link-time choices; the defaults are used
    pri = {"tcmalloc.cc": 0, "page_allocator.cc": 1, "global_stats.cc": 1, "background.cc": 2, "profile_builder.cc": 2}
    s.sort(key=lambda x: (pri.get(os.path.basename(x), 5), x))
    return s

class BuildError(Exception): pass

def gen_dir():
    d = os.path.join(ROOT, "gen")
    out = os.path.join(d, "tcmalloc/internal/profile.pb.cc")
    stamp = os.path.join(d, "stamp")
    src = os.path.join(REPO, "tcmalloc/internal/profile.proto")
    key = hashlib.sha256(open(src, "rb").read()).hexdigest()
    if not (os.path.exists(stamp) and open(stamp).read() == key and os.path.exists(out)):
        os.makedirs(d, exist_ok=True)
        rc, o = sh(["protoc", "-I" + REPO, "--cpp_out=" + d, src])
        if rc: raise BuildError("protoc failed: " + o)
        open(stamp, "w").write(key)
    return d

def inc():
    return ["-I" + os.path.join(VERIF, "compat"), "-I" + REPO, "-I" + gen_dir(), "-I" + os.path.join(VERIF, "harness")]

def absl_libs():
    l = [x for x in sorted(glob.glob("/usr/lib/x86_64-linux-gnu/libabsl_*.a"))
         if not re.search(r"test|flags_parse|exception_safety", x)]
    return ["-Wl,--start-group"] + l + ["-Wl,--end-group", "-lprotobuf", "-lpthread", "-lrt", "-ldl"]

def pch(variant, th, incs):
    """Precompiles standard and Abseil headers for a g++ variant. Returns the flags to use it (none if that fails)."""
    v = VARIANTS[variant]
    if v.get("cxx", "g++") != "g++": return []
    d = os.path.join(ROOT, variant, "pch"); h = os.path.join(d, "vt_common.h"); g = h + ".gch"; kf = g + ".key"
    src = open(os.path.join(VERIF, "vt/pch/vt_common.h")).read()
    cmd = ["g++"] + BASE + v["flags"] + incs + ["-x", "c++-header", h, "-o", g]
    key = hashlib.sha256((th + src + "\0".join(cmd)).encode()).hexdigest()
    try:
        if os.path.exists(g) and open(kf).read() == key: return ["-include", h]
    except OSError: pass
    os.makedirs(d, exist_ok=True)
    with open(h, "w") as f: f.write(src)
    if sh(cmd)[0]:
        try: os.unlink(g)
        except OSError: pass
        return []
    with open(kf, "w") as f: f.write(key)
    return ["-include", h]

def compile_one(cmd, obj, key):
    kf = obj + ".key"
    try:
        if os.path.exists(obj) and open(kf).read() == key: return None
    except OSError: pass
    os.makedirs(os.path.dirname(obj), exist_ok=True)
    rc, o = sh(cmd, obj + ".log")
    if rc: return "FAILED: %s\n%s" % (" ".join(cmd), o[-700:])
    open(kf, "w").write(key)
    return None

def build(wants):
    """wants: list of (variant, harness_name, [harness sources], extra repo sources, extra flags).
    Returns {harness_name: exe path}. All compiled in one pool."""
    os.makedirs(ROOT, exist_ok=True)
    with open(os.path.join(ROOT, "lock"), "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        return _build(wants)

def _build(wants):
    th = tree_hash(); incs = inc(); jobs = {}; links = []
    genpb = os.path.join(ROOT, "gen/tcmalloc/internal/profile.pb.cc")
    vs = sorted({w[0] for w in wants})
    with cf.ThreadPoolExecutor(NCPU) as ex: pre = dict(zip(vs, ex.map(lambda x: pch(x, th, incs), vs)))
    def add(variant, src, extra=(), hkey="", pri=5):
        v = VARIANTS[variant]
        rel = src.replace("/", "_").strip("_")
        obj = os.path.join(ROOT, variant, rel + ".%s.o" % hashlib.md5(" ".join(extra).encode()).hexdigest()[:6])
        cc = v.get("cxx", "g++"); cxx = ["gcc", "-x", "assembler-with-cpp"] if src.endswith(".S") else [cc]
        flags = [f for f in BASE + v["flags"] if not src.endswith(".S") or f.startswith("-D")]
        cmd = cxx + flags + list(extra) + incs + (pre[variant] if src.startswith(REPO + "/") and src.endswith(".cc") and not extra else []) + ["-c", src, "-o", obj]
        key = hashlib.sha256((th + "\0".join(cmd) + hkey).encode()).hexdigest()
        jobs[obj] = (pri, cmd, key)
        return obj
    hh = hashlib.sha256()
    for f in sorted(glob.glob(os.path.join(VERIF, "harness", "*.h"))): hh.update(open(f, "rb").read())
    for (variant, name, srcs, extra_repo, xflags) in wants:
        v = VARIANTS[variant]; objs = []
        for s in srcs:
            p = os.path.join(VERIF, "harness", s)
            objs.append(add(variant, p, xflags, hh.hexdigest() + hashlib.sha256(open(p, "rb").read()).hexdigest(), 0))
        if not v.get("nolib"):
            for s in lib_sources(v.get("nomalloc", False)):
                base = os.path.basename(s)
                objs.append(add(variant, s, pri={"tcmalloc.cc": -1, "page_allocator.cc": 1, "global_stats.cc": 1}.get(base, 3)))
            objs.append(add(variant, os.path.join(REPO, "tcmalloc/internal/percpu_rseq_asm.S")))
            objs.append(add(variant, genpb))
        for s in extra_repo:
            objs.append(add(variant, os.path.join(REPO, s)))
        exe = os.path.join(ROOT, variant, name)
        links.append((name, exe, objs, v.get("link", []), v.get("cxx", "g++")))
    order = sorted(jobs.items(), key=lambda kv: kv[1][0])
    errs = []
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for e in ex.map(lambda kv: compile_one(kv[1][1], kv[0], kv[1][2]), order):
            if e: errs.append(e)
    if errs: raise BuildError("\n".join(errs[:1]))
    out = {}
    def ln(l):
        name, exe, objs, lf, cc = l
        key = hashlib.sha256("".join(jobs[o][2] for o in objs).encode()).hexdigest()
        kf = exe + ".lkey"
        if os.path.exists(exe) and os.path.exists(kf) and open(kf).read() == key: return None
        rc, o = sh([cc, "-g1"] + objs + ["-o", exe] + lf + absl_libs())
        if rc: return "LINK FAILED %s: %s" % (name, o[-700:])
        open(kf, "w").write(key)
    with cf.ThreadPoolExecutor(NCPU) as ex:
        for e in ex.map(ln, links):
            if e: raise BuildError(e)
    for name, exe, objs, lf, cc in links: out[name] = exe
    return out
