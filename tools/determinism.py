#!/usr/bin/env python3
"""One seed is one execution: the first RUNS runs of each property, under several VERIF_SEEDs, are
executed with different numbers of workers, a different environment, and with and without address
randomisation of the process; the hash over all their event logs must be the same each time, and the same when each run is printed and executed as a replay file.
usage: determinism.py [runs] [property...]"""
import json, os, subprocess, sys, tempfile, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), ".."))
import build
def mix(x):
    m = (1 << 64) - 1; x = (x + 0x9E3779B97F4A7C15) & m; x = ((x ^ (x >> 30)) * 0xBF58476D1CE4E5B9) & m; x = ((x ^ (x >> 27)) * 0x94D049BB133111EB) & m; return x ^ (x >> 31)
n = int(sys.argv[1]) if len(sys.argv) > 1 else 200
props = sys.argv[2:] or ["C%02d" % i for i in range(1, 19)]
d = build.build(); bad = 0; total = 0
for prop in props:
    for seed in (1, 2, 77, 123456789):
        got = {}
        for name, jobs, env in (("1 worker", 1, {}), ("3 workers", 3, {}), ("8 workers", 8, {}), ("large environment", 5, {"X" * 50: "y" * 20000}), ("address randomisation", 5, {"U5ESIM_REEXEC": "1"}), ("locale and malloc settings", 4, {"LC_ALL": "tr_TR.UTF-8", "MALLOC_PERTURB_": "165"})):
            w = tempfile.mkdtemp(prefix="u5edet")
            try:
                o = json.loads(subprocess.run([d + "/u5esim", "search", "--prop", prop, "--seed", str(seed), "--runs", str(n), "--seconds", "600", "--jobs", str(jobs), "--dir", w], env=dict(os.environ, **env), stdout=subprocess.PIPE, text=True).stdout)
            finally: shutil.rmtree(w)
            if o.get("nondeterministic") or o.get("internal") or o["runs"] != n: print(prop, seed, name, o.get("nondeterministic"), o.get("internal"), o["runs"]); bad += 1
            got[name] = (o["prefix_runs"], o["prefix_hash"]); total += o["runs"] + o["repeated"]
        w = tempfile.mkdtemp(prefix="u5edet")         # each run printed as a replay file and executed from that
        try:
            fs = []
            for i in range(n):
                fs.append(os.path.join(w, "p%d" % i)); open(fs[-1], "w").write(subprocess.run([d + "/u5esim", "plan", "--prop", prop, "--seed", str(seed), "--run", str(i)], stdout=subprocess.PIPE, text=True).stdout)
            pre = 0
            for l in subprocess.run([d + "/u5esim", "exec"] + fs, stdout=subprocess.PIPE, text=True).stdout.splitlines():
                o = json.loads(l); pre = mix(pre ^ int(o["hash"], 16) ^ mix(["ok", "violation", "internal", "skip", "died"].index(o["status"]))); total += 1
            got["replay files"] = (n, "%016x" % pre)
        finally: shutil.rmtree(w)
        ok = len(set(got.values())) == 1; bad += not ok
        print(prop, "seed", seed, "same" if ok else "DIFFERENT %s" % got); sys.stdout.flush()
print("%d executions, %d differences" % (total, bad)); sys.exit(1 if bad else 0)
