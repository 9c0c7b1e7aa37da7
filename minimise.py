"""Shrinks a failing plan while the same class of violation persists."""
import os, time
FIXED = ("prop", "seed", "run")

def simpler_lines(line):
    """smaller variants of one line, most drastic first"""
    w = line.split(); out = []
    if w[0] == "text":
        cps = w[2:]
        x = next((i for i, c in enumerate(cps) if c[0] == "x"), None)      # what follows xN is repeated N times
        if x is not None:
            k = int(cps[x][1:]); out += [" ".join(w[:2] + cps[:x] + ["x%d" % v] + cps[x + 1:]) for v in (1, k // 16, k // 2, k - k // 8, k - k // 64, k - 1) if 0 < v < k]
            for i in range(len(cps)):
                if i != x: out.append(" ".join(w[:2] + cps[:i] + cps[i + 1:]))
            return out
        n = len(cps) // 2
        while n >= (1 if len(cps) < 3000 else len(cps) // 64):
            for i in range(0, len(cps), n): out.append(" ".join(w[:2] + cps[:i] + cps[i + n:]))
            n //= 2
        for i, c in enumerate(cps[:400]):
            for r in ("61", "E9", "301"):
                if int(c, 16) > int(r, 16): out.append(" ".join(w[:2] + cps[:i] + [r] + cps[i + 1:]))
    else:
        start = {"param": 2, "op": 6, "ev": 2, "sw": 1}.get(w[0])
        if start is None: return out
        for i in range(start, len(w)):
            try: v = int(w[i])
            except ValueError: continue
            for n in [0, 1, v // 2, v - 1]:
                if abs(n) < abs(v): out.append(" ".join(w[:i] + [str(n)] + w[i + 1:]))
    seen = set(); return [x for x in out if not (x in seen or seen.add(x))]

def minimise(text, cls, execute, tmp, budget, batch=32):
    end = time.time() + budget; tries = 0
    lines = [l for l in text.strip().splitlines() if not l.startswith("#")]
    def first_failing(cands):
        """index of the first candidate that still fails the same way"""
        nonlocal tries
        for at in range(0, len(cands), batch):
            if time.time() > end: return None
            fs = []
            for i, c in enumerate(cands[at:at + batch]):
                f = os.path.join(tmp, "c%d" % i); open(f, "w").write("\n".join(c) + "\n"); fs.append(f)
            tries += len(fs)
            for i, r in enumerate(execute(fs)):
                if r["status"] == "violation" and r["class"] == cls: return at + i
        return None
    changed = True
    while changed and time.time() < end:
        changed = False
        for kind in ("sw", "ev", "op", "param", "text"):        # drop lines: ddmin per kind
            n = max(1, sum(l.split()[0] == kind for l in lines))
            while n >= 1 and time.time() < end:
                idx = [i for i, l in enumerate(lines) if l.split()[0] == kind]
                cands = [[l for j, l in enumerate(lines) if j not in set(idx[k:k + n])] for k in range(0, len(idx), n)]
                k = first_failing(cands) if idx else None
                if k is not None: lines = cands[k]; changed = True
                else: n //= 2
        i = 0
        while i < len(lines) and time.time() < end:              # then simplify what is left
            if lines[i].split()[0] in FIXED: i += 1; continue
            var = simpler_lines(lines[i]); cands = [lines[:i] + [v] + lines[i + 1:] for v in var]
            k = first_failing(cands)
            if k is None: i += 1
            else: lines = cands[k]; changed = True
    return "\n".join(lines) + "\n", tries
