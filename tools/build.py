"""Builds the simulator variants from /repo's working tree into /verif/.build/<hash>/."""
import hashlib, os, re, shutil, subprocess, sys, glob, concurrent.futures as cf
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("R3D_REPO", "/repo")
# name: (R3D, R2D, RND capacities, diagnostics, asan)
VARIANTS = {
    "A": (512, 256, 1024, False, False),    # as shipped
    "B": (24, 14, 36, True, False),         # small buffers, diagnostics compiled in
    "Bn": (24, 14, 36, False, False),       # the same without diagnostics
    "C": (64, 32, 96, True, True),          # AddressSanitizer
    "M": (200, 150, 250, False, False),     # between
    "L": (700, 400, 1300, True, False),     # larger than shipped
    "X": (16, 8, 32, False, False),         # exactly what a box needs
    "S": (512, 256, 1024, False, False),    # as shipped, with -DSHIFT_POLY for the 2D library
}
SHIFT = ("C", "S")                          # r2d.c never sees r3d-config.h, so its SHIFT_POLY option is a compiler flag
SEAMS = {"malloc": "sim_malloc", "calloc": "sim_calloc", "realloc": "sim_realloc", "free": "sim_free", "reallocarray": "sim_reallocarray",
         "aligned_alloc": "sim_aligned_alloc", "strdup": "sim_strdup", "posix_memalign": "sim_posix_memalign",
         "rand": "sim_rand", "rand_r": "sim_rand_r", "random": "sim_random", "drand48": "sim_drand48", "time": "sim_time", "clock": "sim_clock",
         "clock_gettime": "sim_clock_gettime", "gettimeofday": "sim_gettimeofday", "getenv": "sim_getenv",
         "pthread_mutex_lock": "sim_mutex_lock", "pthread_mutex_trylock": "sim_mutex_trylock", "pthread_mutex_unlock": "sim_mutex_unlock",
         "pthread_spin_lock": "sim_spin_lock", "pthread_spin_trylock": "sim_spin_trylock", "pthread_spin_unlock": "sim_spin_unlock",
         "mtx_lock": "sim_mtx_lock", "mtx_trylock": "sim_mtx_trylock", "mtx_unlock": "sim_mtx_unlock", "pthread_rwlock_wrlock": "sim_rwlock_wrlock",
         "pthread_rwlock_rdlock": "sim_rwlock_rdlock", "pthread_rwlock_unlock": "sim_rwlock_unlock", "pthread_once": "sim_once", "call_once": "sim_call_once",
         "exit": "sim_exit", "_exit": "sim_exit1", "_Exit": "sim_exit2", "quick_exit": "sim_exit3", "abort": "sim_abort", "__assert_fail": "sim_assert_fail", "write": "sim_write"}
SEAMS.update({n: "sim_" + n for n in """signal srand srandom srand48 setenv putenv unsetenv clearenv chdir umask setvbuf setbuf setlinebuf setbuffer freopen fclose dup2 close kill raise alarm setitimer system fork vfork popen remove unlink rename setrlimit pthread_setcancelstate pthread_setcanceltype mallopt atexit fwide setlocale uselocale sigaction sigprocmask pthread_sigmask""".split()})
COV = ["-fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores"]
BOUNDS = ["-fsanitize=bounds", "-fsanitize-trap=bounds"]
LIB = ["r2d.c", "r3d.c", "rNd.c", "v2d.c", "v3d.c", "vNd.c"]
class BuildError(Exception):
    pass
def run(cmd, **kw):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)
    if p.returncode:
        raise BuildError(" ".join(cmd) + "\n" + p.stdout[-4000:])
    return p.stdout
def sources():
    src = os.path.join(REPO, "src")
    out = sorted(glob.glob(src + "/*.c") + glob.glob(src + "/*.h"))
    dep = sorted(glob.glob(REPO + "/deprecated/*.c") + glob.glob(REPO + "/deprecated/*.h"))
    return out, dep, os.path.join(REPO, "config", "r3d-config.h.in")
def inner_dirs():
    """Folders below src that the library might include from."""
    return [d for d in sorted(glob.glob(REPO + "/src/**/", recursive=True)) if os.path.normpath(d) != os.path.normpath(REPO + "/src") and "test" not in os.path.relpath(d, REPO)]
def tree_hash():
    h = hashlib.sha256()
    a, b, c = sources()
    own = sorted(glob.glob(VERIF + "/sim/*") + [os.path.abspath(__file__)])
    for f in a + b + [c] + own + sorted(x for d in inner_dirs() for x in glob.glob(d + "/*.*") if os.path.isfile(x)):
        h.update(os.path.relpath(f, "/").encode()); h.update(open(f, "rb").read())
    return h.hexdigest()[:20]
def set_cap(path, macro, val):
    s = open(path, errors="surrogateescape").read()
    n, k = re.subn(r"(^[ \t]*#[ \t]*define[ \t]+%s[ \t]+)\(?\d+\)?" % macro, r"\g<1>%d" % val, s, flags=re.M)
    if k: open(path, "w", errors="surrogateescape").write(n)
    return k
def build_variant(name, out):
    r3, r2, rn, diag, asan = VARIANTS[name]
    w = os.path.join(out, name)
    shutil.rmtree(w, ignore_errors=True)
    os.makedirs(w + "/src"); os.makedirs(w + "/dep")
    a, b, conf = sources()
    for f in a: shutil.copy(f, w + "/src/")
    for f in b: shutil.copy(f, w + "/dep/")
    for d in inner_dirs():
        for f in glob.glob(d + "/*.[ch]") + glob.glob(d + "/*.inc"):
            t = os.path.join(w, "src", os.path.relpath(f, os.path.join(REPO, "src"))); os.makedirs(os.path.dirname(t), exist_ok=True); shutil.copy(f, t)
    txt = open(conf).read().replace("@R3D_MAX_VERTS@", str(r3))
    if "SHIFT_POLY" in txt: txt = re.sub(r"^#define SHIFT_POLY.*$", "#define SHIFT_POLY", txt, flags=re.M)
    open(w + "/src/r3d-config.h", "w").write(txt)
    for f in glob.glob(w + "/src/*.h") + glob.glob(w + "/src/*.c"):
        set_cap(f, "R2D_MAX_VERTS", r2); set_cap(f, "RND_MAX_VERTS", rn)
        if os.path.basename(f) != "r3d-config.h": set_cap(f, "R3D_MAX_VERTS", r3)
    san = ["-fsanitize=address"] if asan else []
    opt = ["-g1", "-O1", "-ffp-contract=off", "-ffp-exception-behavior=maytrap", "-fno-inline-functions", "-w"] + ([] if diag else ["-DNDEBUG"]) + (["-DSHIFT_POLY"] if name in SHIFT else [])
    libfl = opt + COV + (san if asan else BOUNDS) + ["-fno-omit-frame-pointer"]
    jobs = []
    csrc = sorted(os.path.basename(f) for f in a if f.endswith(".c"))
    for f in csrc: jobs.append(["clang", "-c"] + libfl + ["-I" + w + "/src", w + "/src/" + f, "-o", w + "/lib_" + f[:-2] + ".o"])
    deps = []
    for pre, tree in (("dep_", []), ("dept_", ["-DUSE_TREE"])):
        for dim in ("2", "3"):
            o = w + "/" + pre + dim
            jobs.append(["clang", "-c"] + libfl + tree + ["-I" + w + "/dep", w + "/dep/r%sd.c" % dim, "-o", o + "lib.o"])
            jobs.append(["clang", "-c", "-O1", "-w", "-DPREFIX=" + pre, "-I" + w + "/dep", VERIF + "/sim/shim%s.c" % dim, "-o", o + "shim.o"])
            deps.append((o, pre, dim))
    hfl = ["-std=c++17", "-O1" if asan else "-O2", "-g1", "-w", "-ffp-contract=off", '-DVARIANT="%s"' % name, "-I" + w + "/src", "-I" + VERIF + "/sim"] + (["-DSIM_ASAN", "-fsanitize=address"] if asan else [])
    hsrc = ["core", "world", "gen", "main"]
    for f in hsrc: jobs.append(["clang++", "-c"] + hfl + [VERIF + "/sim/" + f + ".cpp", "-o", w + "/" + f + ".o"])
    for f in ("begin", "end"): jobs.append(["clang", "-c", "-O1", "-fno-common", "-fno-zero-initialized-in-bss" if False else "-O1", VERIF + "/sim/" + f + ".c", "-o", w + "/" + f + ".o"])
    with cf.ThreadPoolExecutor(8) as ex: list(ex.map(run, jobs))
    for o, pre, dim in deps:
        run(["ld", "-r", o + "lib.o", o + "shim.o", "-o", o + "all.o"])
        names = {"3": ["orient_size3", "tetfaces", "vox"], "2": ["orient_size2", "quadfaces", "ras"]}[dim]
        # keep the entry points; everything else of the old library becomes local so that it cannot clash
        run(["objcopy"] + ["--keep-global-symbol=" + pre + x for x in names] + [o + "all.o"])
    libs = [w + "/lib_" + f[:-2] + ".o" for f in csrc] + [o + "all.o" for o, _, _ in deps]
    for o in libs: run(["objcopy"] + ["--redefine-sym=%s=%s" % kv for kv in SEAMS.items()] + [o])
    run(["clang++"] + (["-fsanitize=address"] if asan else []) + ["-no-pie", "-o", w + "/sim", w + "/begin.o"] + libs + [w + "/end.o"] + [w + "/" + f + ".o" for f in hsrc] + ["-lm", "-lpthread"])
    for f in glob.glob(w + "/*.o"): os.remove(f)
    return w + "/sim"
def build(names):
    """Returns {variant: binary}; raises BuildError."""
    out = os.path.join(VERIF, ".build", tree_hash())
    os.makedirs(out, exist_ok=True)
    todo = [n for n in names if not os.path.exists(os.path.join(out, n, "sim"))]
    with cf.ThreadPoolExecutor(4) as ex: list(ex.map(lambda n: build_variant(n, out), todo))
    old = [d for d in glob.glob(os.path.join(VERIF, ".build", "*")) if d != out]
    for d in sorted(old, key=os.path.getmtime)[:-2]: shutil.rmtree(d, ignore_errors=True)
    return {n: os.path.join(out, n, "sim") for n in names}
if __name__ == "__main__":
    try:
        for k, v in build(sys.argv[1:] or list(VARIANTS)).items(): print(k, v, run([v, "info"]).strip())
    except BuildError as e:
        print(e); sys.exit(2)
