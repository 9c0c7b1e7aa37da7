#!/usr/bin/env python3
"""Builds u5esim and u5ephase* from /repo's working tree. Prints the build directory."""
import os, sys, hashlib, subprocess, fcntl, glob, shutil
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("U5E_REPO", "/repo")
SIM = os.path.join(HERE, "sim")
INST = ["ops_u8", "ops_u8v", "ops_u32", "ops_u32v", "ops_sim", "ops", "scen_calls", "scen_text1", "scen_text2", "scen_inplace", "scen_values"]
PLAIN = ["runtime", "seam", "plan", "gen", "scen_phase", "main"]
WRAPS = "pthread_mutex_lock pthread_mutex_trylock pthread_mutex_unlock pthread_rwlock_rdlock pthread_rwlock_wrlock pthread_rwlock_unlock pthread_rwlock_tryrdlock pthread_rwlock_trywrlock pthread_mutex_timedlock pthread_mutex_clocklock pthread_spin_lock pthread_spin_trylock pthread_spin_unlock pthread_cond_wait pthread_cond_timedwait pthread_cond_clockwait pthread_cond_signal pthread_cond_broadcast _ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE _ZNSt18condition_variable10notify_oneEv _ZNSt18condition_variable10notify_allEv _ZNSt10_Sp_lockerC1EPKv _ZNSt10_Sp_lockerC1EPKvS1_ _ZNSt10_Sp_lockerD1Ev sem_wait sem_trywait sem_post pthread_once sched_yield usleep nanosleep __cxa_guard_acquire __cxa_guard_release __cxa_guard_abort memcpy memmove memset memcmp memchr strlen malloc free calloc realloc".split()

def repo_sources():
    out = []
    for d in ("include", "src"):
        for r, _, fs in os.walk(os.path.join(REPO, d)):
            out += [os.path.join(r, f) for f in fs]
    return sorted(out)

def digest():
    h = hashlib.sha256()
    files = [(f, os.path.relpath(f, REPO)) for f in repo_sources()] + [(f, os.path.relpath(f, HERE)) for f in sorted(glob.glob(SIM + "/*"))] + [(os.path.abspath(__file__), "build.py")]
    for f, n in files:
        h.update(n.encode() + b"\0"); h.update(open(f, "rb").read()); h.update(b"\1")
    return h.hexdigest()[:20]

def run(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise RuntimeError("build failed: " + " ".join(cmd) + "\n" + p.stdout[-6000:])

def build(verbose=False):
    base = os.path.join(HERE, "build"); os.makedirs(base, exist_ok=True)
    with open(os.path.join(base, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        d = os.path.join(base, digest())
        if os.path.exists(os.path.join(d, "ok")):
            os.utime(d); return d
        # keep the disk small: at most two older builds
        old = sorted((p for p in glob.glob(base + "/*") if os.path.isdir(p)), key=os.path.getmtime)
        for p in old[:-2]: shutil.rmtree(p, ignore_errors=True)
        shutil.rmtree(d, ignore_errors=True); os.makedirs(d)
        libs = [f for f in repo_sources() if f.startswith(os.path.join(REPO, "src")) and f.endswith(".cpp")]
        std = ["-std=c++1y", "-w", "-I" + os.path.join(REPO, "include"), "-I" + os.path.join(REPO, "src"), "-fno-omit-frame-pointer"]
        tsan = std + ["-O1", "-g1", "-fsanitize=thread", "-fstack-protector-all", "-D_GLIBCXX_EXTERN_TEMPLATE=0"]
        jobs, inst, plain = [], [], []
        def o(n): return os.path.join(d, n + ".o")
        # can one encoded string be assigned to another? (C17 says so; without it the rest can still be built)
        probe = os.path.join(d, "probe.cpp")
        with open(probe, "w") as f: f.write("#include <u5e/utf8_string.hpp>\n#include <u5e/utf32ne_string.hpp>\nvoid f(u5e::utf8_string& a, u5e::utf8_string& b, u5e::utf32ne_string& c, u5e::utf32ne_string& d) { a = b; c = d; }\n")
        assign = subprocess.run(["g++"] + std + ["-fsyntax-only", probe], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL).returncode == 0
        if not assign: tsan = tsan + ["-DU5E_NO_ASSIGN"]
        for n in INST: jobs.append(["g++"] + tsan + ["-c", f"{SIM}/{n}.cpp", "-o", o(n)]); inst.append(o(n))
        for i, f in enumerate(libs): jobs.append(["g++"] + tsan + ["-c", f, "-o", o(f"lib{i}")]); inst.append(o(f"lib{i}"))
        for n in PLAIN: jobs.append(["g++", "-std=c++14", "-O2", "-g1", "-w", "-fno-stack-protector", "-c", f"{SIM}/{n}.cpp", "-o", o(n)]); plain.append(o(n))
        ph = {}
        for opt in ("0", "2"):
            ph[opt] = []
            for i, f in enumerate(libs): jobs.append(["g++"] + std + ["-O" + opt, "-c", f, "-o", o(f"p{opt}lib{i}")]); ph[opt].append(o(f"p{opt}lib{i}"))
            for n in ("lib", "first", "last", "main"): jobs.append(["g++"] + std + ["-O" + opt, "-c", f"{SIM}/phase_{n}.cpp", "-o", o(f"p{opt}_{n}")])
        jobs.sort(key=lambda c: -os.path.getsize(c[-3]))
        with ThreadPoolExecutor(os.cpu_count() or 4) as ex: list(ex.map(run, jobs))
        run(["g++", "-no-pie", "-pthread", "-o", os.path.join(d, "u5esim")] + inst + plain + ["-Wl," + ",".join("--wrap=" + w for w in WRAPS)])
        for v in range(4):
            opt = "02"[v & 1]; h = lambda n: o(f"p{opt}_{n}")
            order = [h("first"), h("lib"), h("main")] + ph[opt] + [h("last")]
            if v & 2: order = [h("last"), h("lib"), h("main")] + ph[opt] + [h("first")]
            run(["g++", "-no-pie", "-pthread", "-o", os.path.join(d, f"u5ephase{v}")] + order)
        for f in glob.glob(d + "/*.o"): os.unlink(f)
        open(os.path.join(d, "ok"), "w").close()
        return d
if __name__ == "__main__":
    try: print(build())
    except RuntimeError as e: print(e, file=sys.stderr); sys.exit(2)
