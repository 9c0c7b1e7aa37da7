"""C19: the generators of the property tables, each run with every process it starts under gen/gensim, which owns their system calls."""
import os, sys, re, json, shutil, subprocess, hashlib, random, tempfile, time, filecmp, fcntl
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("U5E_REPO", "/repo")
PROPS = os.path.join(REPO, "src", "u5e", "props")
LOCALES = ["C", "C.UTF-8", "POSIX", "en_US.UTF-8", "tr_TR.UTF-8"]
KINDS = ["ioerr", "nospace", "shortread", "shortwrite", "eintr", "open", "close", "mem", "kill", "crash"]
GENTLE = ("shortread", "shortwrite")          # these must not even make the generator fail
FAULTS = {"ioerr": "read-or-write-error", "nospace": "disk-full", "shortread": "short-read", "shortwrite": "short-write", "eintr": "interrupted-call", "open": "open-fails", "close": "close-fails", "mem": "no-memory", "kill": "process-killed", "crash": "crash-of-everything", "torn": "table-torn-by-crash", "stale": "left-over-table"}

def build():
    base = os.path.join(HERE, "build"); os.makedirs(base, exist_ok=True); src = os.path.join(HERE, "gen", "gensim.cpp")
    exe = os.path.join(base, "gensim-" + hashlib.sha256(open(src, "rb").read()).hexdigest()[:16])
    with open(os.path.join(base, ".genlock"), "w") as l:
        fcntl.flock(l, fcntl.LOCK_EX)
        if not os.path.exists(exe):
            p = subprocess.run(["g++", "-O2", "-w", "-o", exe + ".tmp", src], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
            if p.returncode: raise RuntimeError("build failed: " + p.stdout[-2000:])
            os.replace(exe + ".tmp", exe)
    return exe

def tokens(b):
    """a table as the compiler sees it: comments, line breaks, number bases and a comma at the end do not matter"""
    t = b.decode("latin-1"); t = re.sub(r"/\*.*?\*/", " ", t, flags=re.S); t = re.sub(r"//[^\n]*", " ", t)
    w = re.findall(r"0[xX][0-9a-fA-F]+|\w+|[^\s\w]", t); w = [str(int(x, 16)) if x[:2] in ("0x", "0X") else x for x in w]
    while w and w[-1] == ",": w.pop()
    return w

class World:
    """the generators and files of the tree under test"""
    def __init__(self):
        self.exe = build(); self.names = []
        self.files = {f: open(os.path.join(PROPS, f), "rb").read() for f in sorted(os.listdir(PROPS)) if os.path.isfile(os.path.join(PROPS, f))}
        self.mode = {f: os.stat(os.path.join(PROPS, f)).st_mode & 0o777 for f in self.files}
        self.tok = {f: tokens(b) for f, b in self.files.items() if f.endswith(".hpp") or f.endswith(".inc")}
        self.gens = [f for f in self.files if re.search(r"\.(pl|sh|py)$", f)]; self.out = {}
    def command(self, g):
        m = re.match(rb"#!\s*(\S+)([^\n]*)", self.files[g]); return ([m.group(1).decode()] + m.group(2).decode().split() if m else [{"pl": "perl", "sh": "sh", "py": "python3"}[g[-2:]]]) + [g]
    def make(self, d, without=()):
        os.makedirs(d)
        for f, b in self.files.items():
            if f in without: continue
            with open(os.path.join(d, f), "wb") as o: o.write(b)
            os.chmod(os.path.join(d, f), self.mode[f])
            os.utime(os.path.join(d, f), (1480000000, 1480000000))
    def same(self, f, b):
        """is this the table shipped?"""
        return b is not None and (b == self.files[f] or tokens(b) == self.tok[f])
    def life(self, d, g, faults, env):
        tmp = os.path.join(os.path.dirname(d), "tmp"); os.makedirs(tmp, exist_ok=True)
        e = {"PATH": os.environ.get("PATH", "/usr/bin:/bin"), "HOME": d, "TMPDIR": d}; e.update(env)
        p = subprocess.run([self.exe, d, os.path.join(tmp, "said")] + ["%s:%d:%d:%d" % f for f in faults] + ["--"] + self.command(g), stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, env=e, timeout=200)
        if p.returncode: return dict(code=-1, signal=14 if p.returncode < 0 else 0, crashed=0, fired=[0] * len(faults), reads=0, writes=0, processes=0, calls=0, denied=0, broken=p.returncode > 0 and p.stderr)
        r = json.loads(p.stdout); r["said"] = open(os.path.join(tmp, "said"), errors="replace").read()[-300:]
        if r["code"] == 125: r["broken"] = "the supervisor cannot trace"
        return r

def plan_env(pl):
    h = pl["param"].get("hash", 0); e = {"PERL_HASH_SEED": str(h), "PERL_PERTURB_KEYS": "2" if h % 2 else "0", "PERL_RAND_SEED": str(h), "LC_ALL": LOCALES[pl["param"].get("locale", 0) % len(LOCALES)]}
    return e

def parse(text):
    pl = dict(param={}, evs=[])
    for l in text.splitlines():
        w = l.split("#")[0].split()
        if not w: continue
        if w[0] == "param": pl["param"][w[1]] = int(w[2])
        elif w[0] == "ev": pl["evs"].append((w[1],) + tuple(int(x) for x in w[2:6]))
        elif w[0] in ("seed", "run"): pl[w[0]] = int(w[1])
    return pl

def generate(seed, run, world):
    r = random.Random((seed << 32) + run); g = r.randrange(len(world.gens)); L = ["prop C19", "seed %d" % seed, "run %d" % run, "param gen %d" % g, "param hash %d" % r.randrange(1 << 30), "param locale %d" % r.randrange(len(LOCALES))]
    lives = r.choice([0, 1, 1, 1, 2, 2, 3]); isz = max([len(b) for f, b in world.files.items() if f.endswith(".txt")] + [1]); osz = max([len(world.files[f]) for f in world.out.get(world.gens[g], []) if f in world.files] + [1])
    pipe = len(world.procs.get(world.gens[g], [0])) > 1
    def at(n):
        k = r.randrange(6); return 0 if k == 0 else r.randrange(n + 1) if k < 4 else (r.randrange(n // 4096 + 1) * 4096) if k == 4 else max(0, n - r.randrange(200))
    if r.random() < .3: L.append("ev stale 0 %d %d %d" % (r.randrange(5), r.randrange(1000), r.randrange(3)))
    for life in range(lives):
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            k = r.choice(KINDS); p = r.choice(world.procs.get(world.gens[g], [0])); t = r.choice([0, 1, 1, 2, 3]) if pipe else r.choice([0, 1, 1]); n = {0: isz, 1: osz}.get(t, osz * 2)
            if pipe and t == 0: n = len(world.files.get("GraphemeBreakProperty.txt", b"x" * 200000))
            if k == "nospace": t = r.choice([1, 1, 3]) if pipe and r.random() < .2 else 1; n = osz
            if k in ("shortread", "shortwrite"): n = r.choice([1, 3, 100, 511, 2000, 4095, 8191]); t = (0 if k == "shortread" else 1) + (2 if pipe and r.random() < .5 else 0); n = n if n > 511 or (t == 1 and n > 3) or r.random() < .04 else 3000; L.append("ev %s %d %d %d %d" % (k, life, p, t, n)); continue
            if k == "ioerr" and t >= 2: t -= 2; n = isz if t == 0 else osz                 # pipes do not fail so
            if k == "open": t = r.randrange(2); L.append("ev open %d %d %d %d" % (life, p, t, r.randrange(5))); continue
            if k == "close": L.append("ev close %d %d 1 0" % (life, p)); continue
            if k == "mem": L.append("ev mem %d %d 0 %d" % (life, p, r.choice([r.randrange(12), r.randrange(60), r.randrange(700)]))); continue
            L.append("ev %s %d %d %d %d" % (k, life, p, t, at(n)))
        if r.random() < .5: L.append("ev torn %d %d %d 0" % (life, r.randrange(1001), r.randrange(2)))
    return "\n".join(L) + "\n"

def execute(world, text, d):
    """one run; returns status, class, detail, hash, counters"""
    pl = parse(text); g = world.gens[pl["param"].get("gen", 0) % len(world.gens)]; outs = world.out[g]; env = plan_env(pl); res = dict(status="ok", lives=0, fired={}, syscalls=0, processes=0, trace=[]); log = []
    shutil.rmtree(d, ignore_errors=True); w = os.path.join(d, "props"); world.make(w)
    def fail(c, detail): res.update(status="violation"); res["class"] = c; res["detail"] = detail
    def fired(k, n=1): res["fired"][FAULTS[k]] = res["fired"].get(FAULTS[k], 0) + n
    try:
        for e in pl["evs"]:
            if e[0] == "stale":
                for f in outs:
                    b = world.files[f]; m = e[2] % 5; b = b[:len(b) * e[3] // 1000] if m == 0 else b"" if m == 1 else b + b",\n" + b[:len(b) * e[3] // 1000] if m == 2 else b"{ 1, 2, 3 }" if m == 3 else None
                    if b is None: os.unlink(os.path.join(w, f))
                    else: open(os.path.join(w, f), "wb").write(b)
                    if b is not None: os.utime(os.path.join(w, f), (1480000000 + 100 * (e[4] - 1),) * 2)
                fired("stale")
        last = max([e[1] for e in pl["evs"] if e[0] not in ("stale",)] + [-1]); last = min(last, 7)
        for life in range(last + 2):
            fs = [(e[0], e[2], e[3], e[4]) for e in pl["evs"] if e[0] in KINDS and e[1] == life] if life <= last else []
            t0 = time.time(); r = world.life(w, g, fs, env); res["lives"] += 1; res["syscalls"] += r["calls"]; res["processes"] += r["processes"]
            if r.get("broken"): res.update(status="internal", detail=str(r["broken"])); return res
            for f, n in zip(fs, r["fired"]):
                if n: fired(f[0], 1)
            hard = any(n and f[0] not in GENTLE for f, n in zip(fs, r["fired"])); ok = r["code"] == 0
            got = {f: open(os.path.join(w, f), "rb").read() if os.path.isfile(os.path.join(w, f)) else None for f in outs}
            h = hashlib.sha256(b"|".join(b"-" if b is None else b for b in got.values())).hexdigest()[:16] if ok else "-"
            log.append((life, ok, [f for f, n in zip(fs, r["fired"]) if n], h)); res["trace"].append("life %d: %s, ended %s, faults struck %s, table %s" % (life, " ".join(world.command(g)), "0" if ok else "with status %d" % r["code"] if r["code"] >= 0 else "by signal %d" % r["signal"], [":".join(map(str, f)) for f, n in zip(fs, r["fired"]) if n], "as shipped" if all(world.same(f, b) for f, b in got.items()) else "missing" if None in got.values() else "not as shipped"))
            for f, b in world.files.items():
                if f in outs: continue
                q = os.path.join(w, f)
                if not os.path.isfile(q) or open(q, "rb").read() != b: fail("other-file-changed", "%s: life %d changed or removed %s" % (g, life, f)); break
            if res["status"] == "violation": break
            if r["signal"] in (24, 14) or (r["signal"] == 9 and time.time() - t0 > 25 and not hard): fail("no-progress", "%s does not end (life %d)" % (g, life)); break
            if not ok and not hard: fail("fails-without-a-fault", "%s: life %d ends with status %d signal %d although nothing failed: %s" % (g, life, r["code"], r["signal"], r["said"].strip()[-200:])); break
            if ok:
                bad = [f for f, b in got.items() if not world.same(f, b)]
                if bad:
                    b = got[bad[0]]; fail("silently-wrong-table" if hard else "wrong-table", "%s reports success but %s %s" % (g, bad[0], "is missing" if b is None else "is not the table shipped: %d octets, %s" % (len(b), difference(tokens(b), world.tok[bad[0]])))); break
            for e in pl["evs"]:
                if e[0] == "torn" and e[1] == life and r["crashed"]:
                    for f in outs:
                        q = os.path.join(w, f)
                        if os.path.isfile(q): b = open(q, "rb").read(); k = len(b) * min(e[2], 1000) // 1000; open(q, "wb").write(b[:k] + (b"\0" * (len(b) - k) if e[3] else b"")); fired("torn")
    finally: shutil.rmtree(d, ignore_errors=True)
    res["hash"] = hashlib.sha256(repr((log, res.get("class"))).encode()).hexdigest()[:16]; return res

def difference(a, b):
    n = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b))); return "it ends after token %d of %d" % (len(a), len(b)) if n == len(a) else "it goes on after its last token" if n == len(b) else "token %d is %s instead of %s" % (n, a[n], b[n])

def prepare(world, tmp):
    """which tables each generator writes, and which processes it starts: one quiet run each, the tables removed"""
    world.procs = {}
    for g in world.gens:
        d = os.path.join(tmp, "prep", "props"); shutil.rmtree(os.path.dirname(d), ignore_errors=True); tables = [f for f in world.files if f in world.tok]; world.make(d, tables)
        r = world.life(d, g, [], {"LC_ALL": "C", "PERL_HASH_SEED": "0"})
        if r.get("broken"): raise RuntimeError(str(r["broken"]))
        world.out[g] = [f for f in tables if os.path.exists(os.path.join(d, f))]
        if not world.out[g]: world.out[g] = [f for f in tables if f.rsplit(".", 1)[0] == g.rsplit(".", 1)[0]]
        n = r["processes"]; world.procs[g] = [0] + list(range(1, min(n, 8))); shutil.rmtree(os.path.dirname(d), ignore_errors=True)
    world.gens = [g for g in world.gens if world.out[g]]
    if not world.gens: raise RuntimeError("no table generator found under " + PROPS)

def check(prop, tier, seed, out, quick, report_only=None):
    import minimise
    t0 = time.time(); tmp = tempfile.mkdtemp(prefix="u5egen"); jobs = os.cpu_count() or 4
    try:
        world = World(); prepare(world, tmp); t_build = time.time() - t0
        def one(k, text): return execute(world, text, os.path.join(tmp, "w%d" % k))
        if report_only:
            rs = one(0, open(report_only).read()); print(json.dumps({k: v for k, v in rs.items() if k != "trace"})); return rs
        seeds = [(seed, quick)] if tier == "quick" else [(seed + 1000003 * i, 220.0) for i in range(3)]
        tot = dict(runs=0, lives=0, syscalls=0, processes=0, nontrivial=0, repeated=0); faults = {}; states = set(); sched = set(); samples = []; viol = None; secs = 0; bad = None
        for s, limit in seeds:
            start = time.time(); n = 0; kept = sorted(os.path.join(HERE, "plans", prop, f) for f in os.listdir(os.path.join(HERE, "plans", prop))) if os.path.isdir(os.path.join(HERE, "plans", prop)) and s == seed else []
            free = list(range(jobs + 2)); queue = []
            def task(text, twice):
                k = free.pop()
                try: r = one(k, text); return r, one(k, text) if twice else None
                finally: free.append(k)
            with ThreadPoolExecutor(jobs) as x:
                while True:
                    while len(queue) < jobs * 6 and time.time() - start < limit and not viol and not bad:
                        t = open(kept.pop(0)).read() if kept else generate(s, n, world); queue.append((t, x.submit(task, t, n % 64 == 5))); n += 1
                    if not queue: break
                    t, f = queue.pop(0)
                    if viol or bad: f.cancel(); continue
                    r, again = f.result()
                    tot["runs"] += 1; tot["lives"] += r["lives"]; tot["syscalls"] += r["syscalls"]; tot["processes"] += r["processes"]; nt = bool(r["fired"])
                    for k, c in r["fired"].items(): a = faults.setdefault(k, dict(fired=0, in_runs=0)); a["fired"] += c; a["in_runs"] += 1
                    if nt and r.get("hash") not in states: tot["nontrivial"] += 1
                    states.add(r.get("hash")); sched.add(tuple(l for l in t.splitlines() if l.startswith(("ev", "param"))))
                    if len(samples) < 3 and nt: samples.append(dict(plan=t.strip().splitlines(), result={k: r[k] for k in ("status", "lives", "syscalls", "hash") if k in r}, trace=r["trace"]))
                    if r["status"] == "internal": bad = r["detail"]
                    if r["status"] == "violation": viol = (t, r)
                    if again is not None:
                        tot["repeated"] += 1
                        if again.get("hash") != r.get("hash"): bad = "a run gave two different executions: %s\n%s\n%s" % (t, r, again)
            secs += time.time() - start
            if viol or bad: break
        if bad and not viol: print(bad); return 2
        name = None
        if viol:
            r0 = viol[1]
            def many(fs):
                with ThreadPoolExecutor(jobs) as x: return list(x.map(lambda a: one(a[0], open(a[1]).read()), enumerate(fs)))
            again = one(0, viol[0])
            if again.get("class") != r0["class"]: print("the violation found does not repeat: %s then %s" % (r0, again)); return 2
            text, tries = minimise.minimise(viol[0], r0["class"], many, tmp, 60.0, 16); rs = [one(0, text) for _ in range(3)]
            if any(r.get("class") != r0["class"] or r["hash"] != rs[0]["hash"] for r in rs): print("the minimised plan does not repeat: %s" % rs); return 2
            os.makedirs(os.path.join(out, "replays"), exist_ok=True); name = os.path.join(out, "replays", "%s-%s.plan" % (prop, hashlib.sha256(text.encode()).hexdigest()[:12])); r0 = rs[0]
            head = ["# property " + prop, "# class " + r0["class"], "# detail " + r0["detail"].replace("\n", " "), "# hash " + r0["hash"], "# replay: python3 /verif/check.py replay <this file>", "# minimised in %d executions from:" % tries] + ["#   " + l for l in viol[0].strip().splitlines()] + ["# trace:"] + ["#   " + l for l in r0["trace"]]
            open(name, "w").write("\n".join(head) + "\n" + text); print("minimised to: " + "; ".join(text.strip().splitlines()))
        cov = dict(evaluations=tot["runs"], distinct_nontrivial=tot["nontrivial"], rule="one run = one plan (generator, hash seed, locale, what an earlier run left behind, up to three lives with faults, a last one without) drawn from (seed, run number); non-trivial: a fault struck or something was left behind; distinct by the hash over how every life ended, which faults struck and what it wrote",
            samples=samples or [dict(plan="none")], seeds=[s for s, _ in seeds], simulated_runs=tot["runs"], runs_per_hour=int(tot["runs"] / max(secs, 1e-9) * 3600), seeds_per_hour=int(tot["runs"] / max(secs, 1e-9) * 3600), simulated_time=dict(unit="system calls of the generators, decided one by one by the supervisor; they read no clock", system_calls=tot["syscalls"]),
            lives=tot["lives"], processes=tot["processes"], faults_fired=faults, distinct_states=len(states), distinct_states_measure="hash over the ends, faults and tables of all lives of a run", distinct_schedules=len(sched), distinct_schedules_measure="distinct plans", runs_executed_twice_and_equal=tot["repeated"],
            components=dict(real="every generator under src/u5e/props with the perl, shell, grep, sort and cat it starts, on copies of the Unicode files of the tree", stub="results of their system calls when a fault strikes; hash seed and locale; the disk holding the tables"), generators=world.gens, workers=jobs, search_seconds=round(secs, 1), build_seconds=round(t_build, 1))
        e = dict(property=prop, tier=tier, seed=seed, level="exploration", coverage=cov, wall_s=round(time.time() - t0, 2), violations=1 if viol else 0, assumptions=["the processes of a pipeline exchange octets only through their pipes, so their relative speed does not matter", "pipes and the clock do not fail", "sampling: a clean search is evidence, not proof"])
        os.makedirs(os.path.join(out, "evidence"), exist_ok=True); f = os.path.join(out, "evidence", prop + ".json"); open(f + ".tmp", "w").write(json.dumps(e, indent=1)); os.replace(f + ".tmp", f)
        if viol: print("%s: %s" % (r0["class"], r0["detail"])); print("VIOLATION property=%s replay=%s" % (prop, name)); return 1
        print("%s held: %d runs, %d distinct non-trivial, %d lives of generators, %d system calls; faults %s" % (prop, tot["runs"], tot["nontrivial"], tot["lives"], tot["syscalls"], {k: v["fired"] for k, v in faults.items()})); return 0
    finally: shutil.rmtree(tmp, ignore_errors=True)
