#!/usr/bin/env python3
"""check.py <property> [quick|thorough]   decide one property by seeded search
   check.py replay <file>                 execute a replay file again and compare
Exit 0: held on everything explored.  1: VIOLATION line printed.  2: no answer."""
import json, os, subprocess, sys, time, hashlib, re, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build, minimise, gencheck
OUT = os.environ.get("U5E_OUT", HERE)             # development only: where evidence and replays go
QUICK = float(os.environ.get("U5E_SECONDS", "25"))  # development only

TECH = "deterministic simulation with fault injection: seeded search over schedules and fault sequences"
THOROUGH_S, THOROUGH_SEEDS = 220.0, 3
RULE = {
 'C01': "non-trivial: a thread switch happened inside a library call, or a fault fired",
 'C02': "non-trivial: a fault fired, memory was reused for other text, or a thread ended between calls",
 'C03': "non-trivial: at least one allocation made by the library failed",
 'C04': "non-trivial: the operation, the source or the output failed during the run",
 'C05': "non-trivial: at least one storage fault altered or cut the text, or stale octets surrounded it",
 'C06': "non-trivial: at least one storage fault altered the text",
 'C07': "non-trivial: the write was cut off by a crash, or failed, or tore",
 'C08': "non-trivial: at least one short or empty read, stale buffer or reconnection",
 'C09': "non-trivial: a source read failed inside a cursor operation",
 'C10': "non-trivial: the job crashed or failed at least once and was run again",
 'C11': "non-trivial: at least one call made before main, during exit, by a thread, or in a forked process",
 'C12': "non-trivial: a call was made from inside a callback, or a fault fired",
 'C14': "non-trivial: a crash cut an overwrite off, an access failed, or threads were switched between while overwriting",
 'C15': "non-trivial: a call was cut short by an injected failure, or threads ended between calls",
 'C16': "non-trivial: the source, the operation or the output failed inside a call",
 'C17': "non-trivial: an allocation failed inside an operation, or threads ended between operations",
 'C18': "non-trivial: a call was left inside the caller's parts and another continued, or a fault fired",
 'C13': "non-trivial: the reader crashed and reopened the text",
}
REAL = "every header under /repo/include/u5e and every source under /repo/src, compiled from the working tree"
STUB = {
 'C11': "nothing of u5e; the calls and the phases they are made in are the harness's",
}
STUB_DEFAULT = "allocator (arena with injected failures), thread scheduler, locks and once-initialisation, the caller's text source, operation and output, storage holding the texts; u5e itself: nothing"

def read_known():
    """known-findings.txt: 'known: property=<id> plan=<file> class=<class> <what>' and 'fixed: property=<id> <commit> <what>'"""
    out = []
    f = os.path.join(HERE, "known-findings.txt")
    for l in open(f) if os.path.exists(f) else []:
        m = re.match(r"known: property=(\S+) plan=(\S+) class=(\S+) (.*)", l.strip())
        if m: out.append(dict(prop=m.group(1), plan=os.path.join(HERE, m.group(2)), cls=m.group(3), what=m.group(4)))
    return out

def search(d, prop, seed, seconds, jobs, tmp):
    w = os.path.join(tmp, "s%d" % seed); os.makedirs(w, exist_ok=True)
    p = subprocess.run([d + "/u5esim", "search", "--prop", prop, "--seed", str(seed), "--seconds", str(seconds), "--jobs", str(jobs), "--dir", w],
                       stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=seconds + 400)
    if p.returncode: raise RuntimeError("search failed: " + p.stderr[-2000:])
    return json.loads(p.stdout)

def execute(d, plans, trace=None):
    if len(plans) > 1 and not trace:                # eight at a time
        n = -(-len(plans) // 8); parts = [plans[i:i + n] for i in range(0, len(plans), n)]
        with ThreadPoolExecutor(8) as x: return [r for q in x.map(lambda c: execute_some(d, c), parts) for r in q]
    return execute_some(d, plans, trace)

def execute_some(d, plans, trace=None):
    cmd = [d + "/u5esim", "exec"] + plans + (["--trace", trace] if trace else [])
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    r = [json.loads(l) for l in p.stdout.splitlines()]
    if len(r) != len(plans): raise RuntimeError("exec failed: " + p.stderr[-2000:])
    return r

def report(d, prop, seed, plan_text, res, origin):
    """minimise, gate, write the replay file; returns its path or None when the violation does not replay"""
    tmp = tempfile.mkdtemp(prefix="u5emin")
    try:
        f0 = os.path.join(tmp, "orig"); open(f0, "w").write(plan_text)
        t0 = time.time(); first = execute(d, [f0])[0]; batch = 32 if time.time() - t0 < 0.5 else 8
        if first["status"] != "violation" or first["class"] != res["class"] or (res.get("hash") and first["hash"] != res["hash"]):
            print("the violation found does not repeat: search %s, fresh process %s" % (res, first)); return None
        text, tries = minimise.minimise(plan_text, first["class"], lambda fs: execute(d, fs), tmp, 60.0, batch)
        f1 = os.path.join(tmp, "min"); open(f1, "w").write(text)
        rs = execute(d, [f1] * 3)
        if any(r["status"] != "violation" or r["class"] != first["class"] or r["hash"] != rs[0]["hash"] for r in rs):
            print("the minimised plan does not repeat: %s" % rs); return None
        os.makedirs(os.path.join(OUT, "replays"), exist_ok=True)
        name = os.path.join(OUT, "replays", "%s-%s.plan" % (prop, hashlib.sha256(text.encode()).hexdigest()[:12]))
        head = ["# property %s  %s" % (prop, origin), "# class %s" % rs[0]["class"], "# detail %s" % rs[0]["detail"], "# hash %s" % rs[0]["hash"],
                "# replay: python3 /verif/check.py replay <this file>", "# minimised in %d executions from:" % tries] + ["#   " + l for l in plan_text.strip().splitlines()]
        execute(d, [f1], trace=os.path.join(tmp, "trace"))
        tr = open(os.path.join(tmp, "trace"), errors="replace").read().splitlines()
        head += ["# trace (step, thread, event):"] + ["#   " + l for l in (tr if len(tr) < 120 else tr[:20] + ["..."] + tr[-100:])]
        open(name, "w").write("\n".join(head) + "\n" + text)
        print("minimised to: " + "; ".join(text.strip().splitlines()))
        return name, rs[0]
    finally: shutil.rmtree(tmp, ignore_errors=True)

def replay(f):
    if re.search(r"^prop C19", open(f).read(), re.M):
        want = re.search(r"^# hash (.*)$", open(f).read(), re.M); r = gencheck.check("C19", "quick", 1, OUT, 0, f)
        if r["status"] != "violation": print("no violation on this tree"); return 0 if r["status"] == "ok" else 2
        print("same violation, same execution" if want and want.group(1) == r["hash"] else "a violation, but not the recorded execution"); return 1
    d = build.build(); want = {m.group(1): m.group(2) for m in re.finditer(r"^# (class|hash) (.*)$", open(f).read(), re.M)}
    r = execute(d, [f])[0]; print(json.dumps(r))
    if r["status"] == "violation":
        print("same violation, same execution" if r["hash"] == want.get("hash") and r["class"] == want.get("class") else "a violation, but not the recorded execution")
        return 1
    print("no violation on this tree"); return 0

def main():
    if len(sys.argv) == 3 and sys.argv[1] == "replay": return replay(sys.argv[2])
    prop = sys.argv[1]; tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1")); t0 = time.time(); jobs = os.cpu_count() or 4
    print("property %s tier %s seed %d" % (prop, tier, seed)); sys.stdout.flush()
    if prop == "C19": return gencheck.check(prop, tier, seed, OUT, QUICK)
    d = build.build(); t_build = time.time() - t0
    tmp = tempfile.mkdtemp(prefix="u5e" + prop); viol = []
    try:
        # 1. the known findings, each identified by its own plan and violation class
        known = 0
        for k in read_known():
            if k["prop"] != prop: continue
            r = execute(d, [k["plan"]])[0]; known += 1
            if r["status"] == "violation" and r["class"] == k["cls"]: print("KNOWN-FINDING: property=%s %s" % (prop, k["what"]))
            elif r["status"] == "violation":
                v = report(d, prop, seed, open(k["plan"]).read(), r, "known finding that now fails differently")
                if v is None: return 2
                viol.append(v)
        # 2. schedules and fault sequences kept from earlier work
        pd = os.path.join(HERE, "plans", prop); kept = sorted(os.path.join(pd, f) for f in os.listdir(pd)) if os.path.isdir(pd) else []
        for f, r in zip(kept, execute(d, kept) if kept else []):
            if r["status"] == "internal" or r["status"] == "error": print("%s: %s" % (f, r["detail"])); return 2
            if r["status"] == "violation" and not viol:
                v = report(d, prop, seed, open(f).read(), r, "plan " + os.path.relpath(f, HERE))
                if v is None: return 2
                viol.append(v)
        # 3. the search
        outs = []
        if not viol:
            plan_seeds = [(seed, QUICK)] if tier == "quick" else [(seed + 1000003 * i, THOROUGH_S) for i in range(THOROUGH_SEEDS)]
            for s, secs in plan_seeds:
                o = search(d, prop, s, secs, jobs, tmp); outs.append(o)
                if o.get("internal"): print("run %d: %s" % (o["internal"]["run"], o["internal"]["detail"])); return 2
                if o.get("workers_lost"): print("workers lost"); return 2
                if o.get("violation"):
                    v = report(d, prop, s, o["violation"]["plan"], o["violation"], "seed %d run %d" % (s, o["violation"]["run"]))
                    if v is None: return 2
                    viol.append(v); break
                if o.get("nondeterministic"):
                    print("seed %d run %d gave two different executions" % (s, o["nondeterministic"]["run"])); return 2
        evidence(d, prop, tier, seed, outs, viol, kept, known, time.time() - t0, t_build, jobs, tmp)
        for v in viol:
            print("%s: %s" % (v[1]["class"], v[1]["detail"]))
            print("VIOLATION property=%s replay=%s" % (prop, v[0]))
        if not viol: print("%s held: %d runs, %d distinct non-trivial, %d library calls, %d steps" % (prop, sum(o["runs"] for o in outs), sum(o["distinct_nontrivial"] for o in outs), sum(o["calls"] for o in outs), sum(o["steps"] for o in outs)))
        return 1 if viol else 0
    finally: shutil.rmtree(tmp, ignore_errors=True)

def evidence(d, prop, tier, seed, outs, viol, kept, known, wall, t_build, jobs, tmp):
    tot = lambda k: sum(o[k] for o in outs)
    faults, probes = {}, {}
    for o in outs:
        for k, (n, r) in o["faults"].items(): a = faults.setdefault(k, dict(fired=0, in_runs=0)); a["fired"] += n; a["in_runs"] += r
        for k, n in o["probes"].items(): probes[k] = probes.get(k, 0) + n
    samples = []
    for o in outs[:1]:
        for run in (0, 3, 11):
            if run >= o["runs"]: break
            t = subprocess.run([d + "/u5esim", "plan", "--prop", prop, "--seed", str(o["seed"]), "--run", str(run)], stdout=subprocess.PIPE, text=True).stdout
            f = os.path.join(tmp, "sample"); open(f, "w").write(t); tr = os.path.join(tmp, "trace"); r = execute(d, [f], trace=tr)[0]
            samples.append(dict(seed=o["seed"], run=run, plan=t.strip().splitlines()[:60], result={k: r[k] for k in ("status", "steps", "ticks", "ops", "faults", "hash")}, trace=open(tr, errors="replace").read().splitlines()[:40]))
    if not samples: samples = [dict(plan=open(v[0]).read().splitlines()[-40:], result=v[1]) for v in viol] or [dict(plan="none")]
    secs = sum(o["seconds"] for o in outs) or 1e-9
    cov = dict(evaluations=tot("runs") + len(kept) + known, distinct_nontrivial=tot("distinct_nontrivial"),
        rule="one run = one plan (texts, calls, fault sequence, schedule) drawn from (seed, run number), executed in a process of its own; " + RULE[prop] + "; distinct by the hash of the event log and of the states reached",
        samples=samples, seeds=[o["seed"] for o in outs], simulated_runs=tot("runs"), runs_per_hour=int(tot("runs") / secs * 3600), seeds_per_hour=int(tot("runs") / secs * 3600),
        seeds_note="every run has a generator seed of its own, derived from (VERIF_SEED, run number)",
        simulated_time=dict(unit="memory accesses and calls of the compiled library, the only clock there is; u5e reads none", scheduling_points=tot("steps"), ticks=tot("ticks")),
        library_calls=tot("calls"), thread_switches=tot("switches"), events_logged=tot("events"), reference_calls_in_fresh_processes=tot("solo"), reference_calls_failed=tot("solo_failed"), runs_skipped=tot("skipped"),
        faults_fired=faults, reach_probes=probes, distinct_schedules=tot("distinct_schedules"), distinct_schedules_measure="hash of the sequence of (step, thread) switches taken; phase order for C11",
        distinct_states=tot("distinct_states"), distinct_states_measure="hash over the results and positions reached after each call",
        runs_executed_twice_and_equal=tot("repeated"), kept_plans_executed=len(kept), known_findings_executed=known,
        components=dict(real=REAL, stub=STUB.get(prop, STUB_DEFAULT)), workers=jobs, search_seconds=round(secs, 1), build_seconds=round(t_build, 1))
    e = dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=cov, wall_s=round(wall, 2), violations=len(viol),
        assumptions=["g++ 13 -fsanitize=thread reports to the simulator every memory access of the code it compiles; libstdc++ templates are instantiated and instrumented too",
                     "a thread switch happens only at such an access, at a lock or at a seam, under sequential consistency",
                     "sampling: a clean search is evidence, not proof"])
    os.makedirs(os.path.join(OUT, "evidence"), exist_ok=True)
    f = os.path.join(OUT, "evidence", prop + ".json"); open(f + ".tmp", "w").write(json.dumps(e, indent=1)); os.replace(f + ".tmp", f)

if __name__ == "__main__":
    try: sys.exit(main())
    except (RuntimeError, OSError, ValueError, subprocess.SubprocessError) as e: print("error: %s" % e); sys.exit(2)
