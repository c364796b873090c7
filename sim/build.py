#!/usr/bin/env python3
"""Builds the simulator from /repo's working tree and /verif/sim.  Output in /verif/build
(ignored by git); objects are reused only when everything they depend on has the same content."""
import hashlib, os, subprocess, sys, glob, concurrent.futures as cf

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("SIM_REPO", "/repo")
OUT = os.path.join(VERIF, "build")

ALLOC = ["malloc", "calloc", "realloc", "reallocarray", "aligned_alloc", "posix_memalign", "free", "strdup",
         "time", "clock", "gettimeofday", "clock_gettime", "rand", "random", "drand48", "getenv", "getpid",
         "abort", "exit"]
# The race-detecting build gives every simulated thread its own thread-local variables and its own view of locks.
THREADS = ["__emutls_get_address", "pthread_mutex_lock", "pthread_mutex_trylock", "pthread_mutex_unlock", "pthread_spin_lock", "pthread_spin_unlock",
           "pthread_once", "pthread_self", "sched_yield", "mtx_lock", "mtx_unlock", "call_once"]
MEM = ["memcpy", "memmove", "memset"]
AMEM = ["__asan_memcpy", "__asan_memmove", "__asan_memset"] + MEM
UB = "-fsanitize=bounds,integer-divide-by-zero,signed-integer-overflow,shift,return,unreachable,vla-bound -fno-sanitize-recover=all"
LIBBASE = ["-std=gnu11", "-DHAVE_CONFIG_H", "-I" + HERE, "-I" + REPO + "/include", "-I" + REPO + "/src", "-g", "-w", "-fPIC"]
VARIANTS = {
    # name: compiler, library flags, memory functions redefined, harness flags, link flags
    "asan": dict(cc="clang", lib=["-O1", "-fno-omit-frame-pointer", "-fsanitize=address"] + UB.split() + ["-fsanitize-coverage=trace-pc-guard"],
                 mem=AMEM, har=["-DSIM_ASAN"], link=["-fsanitize=address,undefined"], desc="clang -O1 AddressSanitizer + UBSan, block-coverage hooks"),
    "opt": dict(cc="gcc", lib=["-O2", "-fsanitize-coverage=trace-pc"], mem=MEM, har=[], link=[], desc="gcc -O2 -g (flags of the shipped build), block hooks"),
    "race": dict(cc="clang", lib=["-O1", "-fno-builtin", "-femulated-tls", "-fno-vectorize", "-fno-slp-vectorize", "-fsanitize-coverage=trace-pc-guard,trace-loads,trace-stores"],
                 mem=MEM + THREADS, har=["-DSIM_RACE"], link=[], desc="clang -O1, every load and store hooked"),
}

def run(cmd):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        raise RuntimeError("%s\n%s" % (" ".join(cmd), r.stdout[-4000:]))

def digest(parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else p.encode()); h.update(b"\0")
    return h.hexdigest()[:24]

def blob(files):
    out = []
    for f in sorted(files):
        out.append(f); out.append(open(f, "rb").read())
    return out

def build(names):
    os.makedirs(OUT + "/obj", exist_ok=True)
    os.makedirs(OUT + "/bin", exist_ok=True)
    lib_src = sorted(glob.glob(REPO + "/src/*.c"))
    lib_dep = digest(blob(glob.glob(REPO + "/src/*.h") + glob.glob(REPO + "/src/*.inc") + glob.glob(REPO + "/include/*.h") + [HERE + "/config.h"]))
    har_src = sorted(glob.glob(HERE + "/*.cpp"))
    har_dep = digest(blob(glob.glob(HERE + "/*.hpp") + glob.glob(REPO + "/include/*.h") + glob.glob(VERIF + "/ref/*.h")))
    jobs, bins = [], {}
    for v in names:
        V = VARIANTS[v]; objs = []
        for s in lib_src:
            renames = ALLOC + V["mem"]
            cmd = [V["cc"]] + LIBBASE + V["lib"]
            o = "%s/obj/%s.o" % (OUT, digest([" ".join(cmd + renames), lib_dep] + blob([s])))
            objs.append(o)
            if not os.path.exists(o): jobs.append(("lib", cmd, s, o, renames))
        har_flags = ["-std=c++17", "-O2", "-g1", "-w", "-I" + REPO + "/include"] + V["har"]
        hkey = " ".join(har_flags)
        for s in har_src:
            dep = har_dep
            o = "%s/obj/%s.o" % (OUT, digest([hkey, dep] + blob([s])))
            objs.append(o)
            if not os.path.exists(o) and not any(j[3] == o for j in jobs): jobs.append(("har", ["clang++"] + har_flags, s, o, None))
        bins[v] = ("%s/bin/sim-%s-%s" % (OUT, v, digest(objs + V["link"])), objs, V)
    def do(j):
        kind, cmd, src, o, renames = j
        t = "%s.%d.tmp.o" % (o, os.getpid())
        run(cmd + ["-c", src, "-o", t])
        if kind == "lib":
            args = ["objcopy"]
            for n in renames: args += ["--redefine-sym", "%s=sim_%s" % (n, n)]
            args += ["--redefine-sym", "__assert_fail=sim_assert_fail", t]
            run(args)
        os.rename(t, o)
    # long compilations first
    jobs.sort(key=lambda j: -os.path.getsize(j[2]))
    with cf.ThreadPoolExecutor(max_workers=os.cpu_count() or 4) as ex:
        list(ex.map(do, jobs))
    def link(v):
        b, objs, V = bins[v]
        if not os.path.exists(b):
            t = "%s.%d.tmp" % (b, os.getpid())
            run(["clang++"] + V["link"] + objs + ["-lm", "-o", t])
            os.rename(t, b)
            for old in glob.glob("%s/bin/sim-%s-*" % (OUT, v)):
                if old != b and not os.environ.get("SIM_KEEP"):
                    try: os.unlink(old)
                    except OSError: pass
        return v, b
    with cf.ThreadPoolExecutor(max_workers=4) as ex:
        return dict(ex.map(link, names))

if __name__ == "__main__":
    try:
        for v, b in sorted(build(sys.argv[1:] or list(VARIANTS)).items()): print(v, b)
    except RuntimeError as e:
        print(e); sys.exit(2)
