"""Out-of-tree build of /repo's library + drivers for the controlled scheduler (ninja, depfiles: rebuilds whatever changed)."""
import os, re, subprocess, sys, hashlib
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VREPO", "/repo")
BUILD = os.environ.get("VBUILD", os.path.join(VERIF, "build", hashlib.md5(REPO.encode()).hexdigest()[:8]))

DEFS = ("-DDEBUG -DHAVE_ABI_FORCE_UNWIND=1 -DHAVE_ATOMIC_BUILTINS=1 -DHAVE_ICU_I18N=1 -DHAVE_POSIX_SPAWN=1 -DHAVE_POSIX_THREADS=1 "
        "-DHAVE_PTHREAD_SETNAME -DHAVE_SYNC_AAF=1 -DHAVE_SYNC_EAA_EXT=1 -DPLATFORM_POSIX=1 -DPOSIX_HAVE_MONOTONIC_TIMER=1 "
        "-DSTINGRAYKIT_HAS_THREAD_KEYWORD=1 -DSTINGRAYKIT_USES_GCC_VISIBILITY=1 -DSTINGRAY_DEFAULT_LOGLEVEL=Info "
        "-DU_STATIC_IMPLEMENTATION=1 -D_REENTRANT=1")
FLAGS = ("-std=gnu++14 -O1 -g0 -w -pthread -ffast-math -fno-strict-aliasing -fvisibility=hidden -fvisibility-inlines-hidden "
         "-fno-omit-frame-pointer")
WRAP = ("pthread_mutex_init pthread_mutex_destroy pthread_mutex_lock pthread_mutex_timedlock pthread_mutex_trylock pthread_mutex_unlock "
        "pthread_cond_init pthread_cond_destroy pthread_cond_wait pthread_cond_timedwait pthread_cond_broadcast pthread_cond_signal "
        "pthread_create pthread_join pthread_once __cxa_guard_acquire __cxa_guard_release __cxa_guard_abort __cxa_atexit atexit "
        "sem_init sem_destroy sem_post sem_wait sem_trywait sem_timedwait nanosleep usleep clock_gettime gettimeofday time sched_yield "
        "pthread_setschedparam").split()
EXCLUDE = ("LibunwindBacktrace.cpp", "diagnostics/gcc/Backtrace.cpp", "thread/posix/Backtrace.cpp", "BfdBacktrace", "Addr2Line")

USE_CCACHE = os.path.exists("/usr/bin/ccache")
ENV = dict(os.environ, CCACHE_DIR=os.environ.get("VCCACHE", os.path.join(VERIF, "build", "ccache")), CCACHE_NOHASHDIR="1", CCACHE_MAXSIZE="2G", CCACHE_BASEDIR="/")

def lib_sources():
    """What CMakeLists.txt compiles into the library on this platform."""
    cm = open(os.path.join(REPO, "CMakeLists.txt")).read()
    src = set()
    for m in re.finditer(r'(?:set|list)\s*\(\s*(?:APPEND\s+)?stingraykit_SRC(.*?)\)', cm, re.S):
        for f in m.group(1).split():
            if f.endswith(".cpp") and os.path.exists(os.path.join(REPO, f)) and not any(x in f for x in EXCLUDE):
                src.add(f)
    return sorted(src)

def write_ninja(drivers, extra_flags=""):
    os.makedirs(BUILD, exist_ok=True)
    CC = "ccache" if USE_CCACHE else ""
    L = ["ninja_required_version = 1.5", f"builddir = {BUILD}",
         "rule cxx", f"  command = {CC} g++ {FLAGS} {DEFS} $x -fsanitize=thread -I. -I{VERIF}/harness -MD -MF $out.d -c $in -o $out", "  depfile = $out.d", "  deps = gcc",
         "rule cxxplain", f"  command = g++ -std=gnu++14 -O2 -g0 -w -pthread -I{VERIF}/harness -MD -MF $out.d -c $in -o $out", "  depfile = $out.d", "  deps = gcc",
         "rule ar", "  command = rm -f $out && ar rcs $out $in",
         "rule link", "  command = g++ -pthread -rdynamic -o $out $in " + " ".join("-Wl,--wrap=" + w for w in WRAP) + " $$(pkg-config --libs icu-i18n icu-uc 2>/dev/null || echo -licui18n -licuuc) -ldl"]
    objs = []
    for s in lib_sources():
        o = f"{BUILD}/lib/{s.replace('/', '_')}.o"
        L += [f"build {o}: cxx {s}", "  x = -DSTINGRAY_LIB_SOURCE"]
        objs.append(o)
    L.append(f"build {BUILD}/libsk.a: ar {' '.join(objs)}")
    L.append(f"build {BUILD}/vs.o: cxxplain {VERIF}/harness/vs.cpp")
    for d in drivers:
        L.append(f"build {BUILD}/drv/{d}.o: cxx {VERIF}/drivers/{d}.cpp")
        L.append(f"build {BUILD}/{d}: link {BUILD}/drv/{d}.o {BUILD}/vs.o {BUILD}/libsk.a")
    p = f"{BUILD}/build-{'-'.join(drivers)[:80]}.ninja"
    txt = "\n".join(L) + "\n"
    with open(p, "w") as f: f.write(txt)
    return p

def build(drivers):
    import fcntl
    os.makedirs(BUILD, exist_ok=True)
    with open(f"{BUILD}/.lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        p = write_ninja(drivers)
        r = subprocess.run(["ninja", "-f", p, "-j", str(os.cpu_count() or 4)] + [f"{BUILD}/{d}" for d in drivers], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=REPO, env=ENV)
    if r.returncode:
        sys.stderr.write(r.stdout[-6000:])
        raise SystemExit(3)
    return {d: f"{BUILD}/{d}" for d in drivers}

if __name__ == "__main__":
    build(sys.argv[1:])
