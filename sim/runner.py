"""
Drives a check: many simulated runs over seeds, minimisation of a failing one,
replay files, evidence.

  python -m sim.runner check <property>
  python -m sim.runner replay <file>
  python -m sim.runner one <property> <run number>
  python -m sim.runner selftest
"""
import collections, hashlib, importlib, json, os, queue, shutil, subprocess
import sys, tempfile, threading, time

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PYTHON = os.environ.get("SIM_PYTHON") or "/opt/venv/bin/python"
WORKERS = int(os.environ.get("SIM_WORKERS", "8"))
OUT = os.path.join(HERE, "out")
KNOWN = os.path.join(HERE, "KNOWN_FINDINGS.txt")


def meta(prop):
    """
    The static description of a check, without importing ade: constants
    assigned at top level of its module.
    """
    import ast
    path = os.path.join(HERE, "sim", "props", prop.lower() + ".py")
    with open(path) as fh: tree = ast.parse(fh.read())
    m = {"RUNS": {"quick": 100, "thorough": 1000}, "LIVENESS": False,
         "HASHSEEDS": (0,), "REAL": [], "STUB": [], "RULE": "",
         "ASSUMPTIONS": [], "SCRATCH": False, "CAP": {"quick": 240, "thorough": 3600}}
    for node in tree.body:
        if isinstance(node, ast.Assign) and isinstance(node.targets[0], ast.Name):
            name = node.targets[0].id
            if name in m: m[name] = ast.literal_eval(node.value)
    return m


def runSeed(seed, prop, k):
    h = hashlib.sha256("{}|{}|{}".format(seed, prop, k).encode()).digest()
    return int.from_bytes(h[:6], "big")


class Pool:
    """Worker processes: one zygote per hash seed, WORKERS slots each."""
    def __init__(self, prop, m, workers=WORKERS):
        self.prop = prop
        self.m = m
        self.n = workers
        self.slots = [dict() for _ in range(workers)]
        self.procs = []
        self.free = queue.Queue()
        self.scratch = tempfile.mkdtemp(prefix="adesim-")
        for hs in sorted(set(m["HASHSEEDS"])):
            args = []; keep = []; mine = []
            for k in range(workers):
                r1, w1 = os.pipe(); r2, w2 = os.pipe()
                args.append("%d,%d" % (r1, w2))
                keep += [r1, w2]; mine.append((w1, r2))
            env = dict(os.environ)
            env.update(
                PYTHONHASHSEED=str(hs), PYTHONDONTWRITEBYTECODE="1",
                PYTHONPATH=HERE, OMP_NUM_THREADS="1", OPENBLAS_NUM_THREADS="1",
                MKL_NUM_THREADS="1", MPLBACKEND="Agg", TZ="UTC", LC_ALL="C.UTF-8",
                MPLCONFIGDIR=os.path.join(self.scratch, "mpl"), HOME=self.scratch)
            p = subprocess.Popen(
                [PYTHON, "-m", "sim.worker", self.prop] + args,
                pass_fds=keep, cwd=HERE, env=env, stdin=subprocess.DEVNULL)
            for fd in keep: os.close(fd)
            self.procs.append(p)
            for k, (w1, r2) in enumerate(mine):
                self.slots[k][hs] = (os.fdopen(w1, "w"), os.fdopen(r2, "r"))
        for k in range(workers): self.free.put(k)

    def call(self, k, hs, job):
        w, r = self.slots[k][hs]
        try:
            w.write(json.dumps(job) + "\n"); w.flush()
            line = r.readline()
        except (OSError, ValueError):
            line = ""
        if not line: raise RuntimeError("worker died (see messages above)")
        return json.loads(line)

    def run(self, job):
        """All phases of one simulated run, merged into one result."""
        k = self.free.get()
        dirname = None
        try:
            hss = self.m["HASHSEEDS"]
            if self.m["SCRATCH"]:
                dirname = tempfile.mkdtemp(dir=self.scratch)
            total = None
            carry = None
            for phase, hs in enumerate(hss):
                j = dict(job); j["phase"] = phase; j["scratch"] = dirname
                if carry is not None: j["carry"] = carry
                res = self.call(k, hs, j)
                total = res if total is None else self.merge(total, res)
                if res.get("error") or res.get("killed") or res.get("found"):
                    break
                carry = res.get("carry")
                if carry is None: break
            total.pop("carry", None)
            return total
        finally:
            if dirname: shutil.rmtree(dirname, ignore_errors=True)
            self.free.put(k)

    @staticmethod
    def merge(a, b):
        if b.get("killed"):
            a = dict(a); a["killed"] = b["killed"]; return a
        out = dict(b)
        for name in ("faults", "probes"):
            c = collections.Counter(a.get(name, {}))
            c.update(b.get(name, {}))
            out[name] = dict(c)
        for name in ("simtime", "steps", "evaluations"):
            out[name] = a.get(name, 0) + b.get(name, 0)
        for name in ("digest", "order"):
            out[name] = a.get(name, "") + b.get(name, "")
        ch = dict(a.get("choices") or {}); ch.update(b.get("choices") or {})
        out["choices"] = ch
        if a.get("trace") or b.get("trace"):
            out["trace"] = (a.get("trace") or []) + (b.get("trace") or [])
        return out

    def close(self):
        for slot in self.slots:
            for w, r in slot.values():
                try: w.close()
                except OSError: pass
        for p in self.procs:
            try: p.wait(timeout=20)
            except subprocess.TimeoutExpired: p.kill()
        shutil.rmtree(self.scratch, ignore_errors=True)


def verdict(res, m):
    """(class, message) of a violation, or None."""
    if res.get("found"): return tuple(res["found"][0])
    if res.get("killed") in ("cpu-limit", "wall-limit") and m["LIVENESS"]:
        return ("hang", "the program computes without end")
    return None


def known(prop, v):
    try:
        with open(KNOWN) as fh: lines = fh.read().splitlines()
    except IOError: return None
    for line in lines:
        if not line.startswith("known: property=%s " % prop): continue
        parts = dict(x.split("=", 1) for x in line.split(" | ")[0].split()[1:])
        text = line.split(" | ", 1)[1]
        cls = parts.get("class")
        if cls == v[0] and (not parts.get("match") or parts["match"] in v[1]):
            return text
    return None


def trim(choices):
    out = {}
    for name in sorted(choices):
        xs = list(choices[name])
        while xs and xs[-1] == 0: xs.pop()
        if xs: out[name] = xs
    return out


def minimise(pool, m, adeSeed, choices, cls, budget):
    """Greedy reduction of the choice streams keeping the violation class."""
    t0 = time.time()
    tries = 0

    def attempt(cands):
        """First of the candidates that still fails, tried in parallel."""
        results = [None]*len(cands)
        def go(k):
            try:
                res = pool.run({"choices": cands[k], "adeSeed": adeSeed})
                v = verdict(res, m)
                if v and v[0] == cls:
                    results[k] = trim(res.get("choices") or cands[k])
            except Exception: pass
        ths = [threading.Thread(target=go, args=(k,)) for k in range(len(cands))]
        for t in ths: t.start()
        for t in ths: t.join()
        for r in results:
            if r is not None: return r

    def candidates(ch):
        for name in sorted(ch):
            yield {k: v for k, v in ch.items() if k != name}
        for frac in (2, 4, 8):
            for name in sorted(ch):
                xs = ch[name]
                if len(xs) >= frac:
                    yield dict(ch, **{name: xs[:len(xs) - len(xs)//frac]})
        for size in (16, 4, 1):
            for name in sorted(ch):
                xs = ch[name]
                if size > 1 and len(xs) < 2*size: continue
                for k in range(0, len(xs), size):
                    if any(xs[k:k+size]):
                        ys = xs[:k] + [0]*len(xs[k:k+size]) + xs[k+size:]
                        yield dict(ch, **{name: ys})
        for name in sorted(ch):
            xs = ch[name]
            for k, x in enumerate(xs):
                for y in (1, x//2, x-1):
                    if 0 < y < x:
                        yield dict(ch, **{name: xs[:k] + [y] + xs[k+1:]})

    def weight(ch):
        return (sum(len(v) for v in ch.values()), sum(map(sum, ch.values())))

    best = trim(choices)
    progress = True
    while progress and time.time() - t0 < budget:
        progress = False
        batch = []
        gen = candidates(best)
        while time.time() - t0 < budget:
            batch = []
            for c in gen:
                batch.append(c)
                if len(batch) == pool.n: break
            if not batch: break
            tries += len(batch)
            got = attempt(batch)
            if got is not None and weight(got) < weight(best):
                best = got
                progress = True
                break
    return best, tries


def schedule(seed, prop, k):
    return {"seed": "%d" % runSeed(seed, prop, k),
            "adeSeed": runSeed(seed, prop + "/ade", k) % (2**31)}


def check(prop):
    tier = os.environ.get("VERIF_TIER") or "quick"
    if tier not in ("quick", "thorough"): tier = "quick"
    seed = int(os.environ.get("VERIF_SEED") or "1")
    m = meta(prop)
    scale = float(os.environ.get("SIM_SCALE", "1"))
    N = max(1, int(m["RUNS"][tier] * scale))
    cap = m["CAP"][tier]
    t0 = time.time()
    os.makedirs(os.path.join(HERE, "evidence"), exist_ok=True)
    pool = Pool(prop, m)
    stats = collections.Counter()
    faults = collections.Counter(); faultRuns = collections.Counter()
    probes = collections.Counter()
    orders = set(); digests = set(); samples = []
    found = {}; errors = []; knownSeen = {}
    lock = threading.Lock()
    state = {"next": 0, "min": None}
    timed = [False]

    def work():
        while True:
            with lock:
                k = state["next"]
                if k >= N or (state["min"] is not None and k > state["min"]):
                    return
                if time.time() - t0 > cap: timed[0] = True; return
                if len(errors) > 20: return
                state["next"] = k + 1
            job = schedule(seed, prop, k)
            try: res = pool.run(job)
            except Exception as e:
                with lock: errors.append((k, repr(e)))
                return
            with lock:
                stats["runs"] += 1
                if res.get("error"):
                    errors.append((k, res["error"])); continue
                v = verdict(res, m)
                if v:
                    text = known(prop, v)
                    if text:
                        knownSeen[text] = knownSeen.get(text, 0) + 1
                    else:
                        found[k] = (v, job, res)
                        if state["min"] is None or k < state["min"]:
                            state["min"] = k
                        continue
                if res.get("killed"):
                    stats["undecided"] += 1; continue
                stats["evaluations"] += res["evaluations"]
                stats["simtime_ms"] += int(1000*res["simtime"])
                stats["steps"] += res["steps"]
                faults.update(res["faults"]); probes.update(res["probes"])
                for f in res["faults"]: faultRuns[f] += 1
                digests.add(res["digest"])
                if res["nontrivial"]:
                    stats["nontrivial"] += 1
                    orders.add(res["order"])
                    if len(samples) < 4:
                        samples.append({
                            "run": k, "seed": job["seed"], "adeSeed": job["adeSeed"],
                            "events": res["steps"],
                            "simulated_s": round(res["simtime"], 3),
                            "faults": res["faults"],
                            "interleaving": res["order"],
                            "history_sha256": res["digest"][:16],
                            "summary": res.get("summary")})

    ths = [threading.Thread(target=work) for _ in range(pool.n)]
    for t in ths: t.start()
    for t in ths: t.join()
    search_s = time.time() - t0
    code = 0
    replay = None
    if found:
        k = min(found)
        v, job, res = found[k]
        replay = report(pool, m, prop, k, seed, tier, v, job, res)
        code = 1 if replay else 2
    pool.close()
    wall = time.time() - t0
    coverage = {
        "evaluations": stats["runs"],
        "distinct_nontrivial": len(orders),
        "rule": m["RULE"] + " Each case is one simulated run from one seed; "
            "runs count as distinct when the order in which outside events "
            "(evaluation starts and completions, report callbacks, key presses, "
            "injected faults) happened differs (hash of that order).",
        "samples": samples,
        "judgements": stats["evaluations"],
        "simulated_runs_planned": N,
        "runs_nontrivial": stats["nontrivial"],
        "runs_undecided": stats["undecided"],
        "distinct_histories": len(digests),
        "seeds_per_hour": int(stats["runs"] / max(search_s, 1e-3) * 3600),
        "simulated_time_s": round(stats["simtime_ms"]/1000.0, 1),
        "events_executed": stats["steps"],
        "faults_injected": dict(sorted(faults.items())),
        "runs_with_fault": dict(sorted(faultRuns.items())),
        "probes": dict(sorted(probes.items())),
        "components_real": m["REAL"],
        "components_stubbed": m["STUB"],
        "stopped_by_time_cap": timed[0],
    }
    if knownSeen: coverage["known_findings_met"] = knownSeen
    evidence = {
        "property": prop, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": coverage, "assumptions": m["ASSUMPTIONS"],
        "wall_s": round(wall, 2), "violations": 1 if found else 0}
    path = os.path.join(HERE, "evidence", prop + ".json")
    with open(path + ".tmp", "w") as fh:
        json.dump(evidence, fh, indent=1, sort_keys=True); fh.write("\n")
    os.replace(path + ".tmp", path)
    for text in knownSeen:
        print("KNOWN-FINDING: property=%s %s" % (prop, text))
    print("%s: %d runs, %d distinct interleavings, %d judgements, %.0f s simulated, "
          "%d faults, %.1f s" % (
              prop, stats["runs"], len(orders), stats["evaluations"],
              stats["simtime_ms"]/1000.0, sum(faults.values()), wall))
    if errors and not found:
        print("ERROR of the check in run %d:\n%s" % errors[0], file=sys.stderr)
        code = 2
    elif not found and stats["undecided"] > 0.2*max(1, stats["runs"]):
        print("ERROR: %d runs could not be decided" % stats["undecided"],
              file=sys.stderr)
        code = 2
    elif not found and stats["runs"] == 0:
        code = 2
    return code


def report(pool, m, prop, k, seed, tier, v, job, res):
    """Minimises, writes and verifies the replay file; prints the violation."""
    cls = v[0]
    budget = 20 if tier == "quick" else 120
    choices = res.get("choices")
    doc = {"property": prop, "verif_seed": seed, "run": k, "seed": job["seed"],
           "adeSeed": job["adeSeed"]}
    tries = 0
    if choices is not None:
        small, tries = minimise(pool, m, job["adeSeed"], choices, cls, budget)
    else: small = None              # killed run: its choices are unknown
    dirname = os.path.join(OUT, "replays")
    os.makedirs(dirname, exist_ok=True)
    path = os.path.join(dirname, "%s-%s.json" % (prop, job["seed"]))
    fallback = None
    for cand in ([small] if small is not None else []) + [choices]:
        j = {"adeSeed": job["adeSeed"], "verbose": True}
        if cand is None: j["seed"] = job["seed"]
        else: j["choices"] = cand
        r = pool.run(j)
        w = verdict(r, m)
        if not w or w[0] != cls: continue
        doc.update(
            choices=cand, violation=list(w), digest=r.get("digest"),
            trace=r.get("trace"), faults=r.get("faults"),
            minimisation_attempts=tries,
            choices_before=None if choices is None else
                sum(len(x) for x in choices.values()),
            choices_after=None if cand is None else
                sum(len(x) for x in cand.values()))
        with open(path, "w") as fh:
            json.dump(doc, fh, indent=1); fh.write("\n")
        p = subprocess.run(
            [sys.executable, "-m", "sim.runner", "replay", path], cwd=HERE,
            stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if p.returncode == 3: fallback = (path, w)
        if p.returncode == 1:
            print("Run %d of seed %d, simulator seed %s: %s: %s" % (
                k, seed, job["seed"], w[0], w[1]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
            return path
        sys.stderr.write(p.stdout.decode())
    if fallback:
        # Violated again, but not in every detail: the changed program depends
        # on something outside the simulation, such as memory addresses
        path, w = fallback
        print("Run %d of seed %d, simulator seed %s: %s: %s (differs in detail when "
              "replayed)" % (k, seed, job["seed"], w[0], w[1]))
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return path
    print("ERROR: violation %r of run %d did not reproduce" % (v, k),
          file=sys.stderr)
    return None


def replay(path):
    """Exit 1 if the recorded violation happens again, exactly."""
    with open(path) as fh: doc = json.load(fh)
    m = meta(doc["property"])
    pool = Pool(doc["property"], m, 1)
    job = {"adeSeed": doc["adeSeed"], "verbose": True}
    if doc["choices"] is None: job["seed"] = doc["seed"]
    else: job["choices"] = doc["choices"]
    res = pool.run(job)
    pool.close()
    v = verdict(res, m)
    if res.get("error"):
        print(res["error"]); return 2
    if v is None:
        print("not reproduced: no violation"); return 0
    print("%s: %s" % v)
    if list(v) != doc["violation"] or res.get("digest") != doc["digest"]:
        print("reproduced with a different history: %r %r" % (
            doc["violation"], doc["digest"]))
        return 3
    print("VIOLATION property=%s replay=%s" % (doc["property"], path))
    return 1


def one(prop, k, seed):
    m = meta(prop)
    pool = Pool(prop, m, 1)
    job = schedule(seed, prop, k)
    job.update(verbose=True, trace=10000, failureText=True)
    res = pool.run(job)
    pool.close()
    for e in res.pop("trace", None) or []: print(*e)
    ch = res.pop("choices", None)
    if ch:
        print({k: v for k, v in ch.items() if "cfg" in k})
    ft = res.pop("failureText", None)
    if ft: print(ft)
    for name in sorted(res): print(name, ":", res[name])
    return 0


def selftest(props, N=6):
    """
    Same seed, other process, other hash seed: same history. Then the recorded
    choices replayed: same history.
    """
    bad = 0
    for prop in props:
        m = meta(prop)
        digs = []
        ch = []
        for shift in (0, 11):
            mm = dict(m, HASHSEEDS=tuple(h + shift for h in m["HASHSEEDS"]))
            pool = Pool(prop, mm, 4)
            out = []
            for k in range(N):
                job = schedule(99, prop, k)
                job["verbose"] = True
                if shift and ch[k] is not None:
                    job["choices"] = ch[k]
                res = pool.run(job)
                out.append((res.get("digest"), res.get("error")))
                if not shift: ch.append(res.get("choices"))
            # And straight from the seed again
            if shift:
                for k in range(N):
                    job = schedule(99, prop, k)
                    res = pool.run(job)
                    if res.get("digest") != digs[0][k][0]:
                        print(prop, k, "differs from seed"); bad += 1
            pool.close()
            digs.append(out)
        for k in range(N):
            if digs[0][k] != digs[1][k]:
                print(prop, k, "differs:", digs[0][k], digs[1][k]); bad += 1
        print(prop, "deterministic" if not bad else "NOT deterministic")
    return 1 if bad else 0


def allProps():
    return sorted(f[:-3].upper() for f in os.listdir(
        os.path.join(HERE, "sim", "props")) if f.startswith("c") and f.endswith(".py"))


def main():
    what = sys.argv[1]
    if what == "check": return check(sys.argv[2])
    if what == "replay": return replay(sys.argv[2])
    if what == "one":
        return one(sys.argv[2], int(sys.argv[3]),
                   int(os.environ.get("VERIF_SEED") or "1"))
    if what == "selftest": return selftest(sys.argv[2:] or allProps())
    raise SystemExit("unknown command")


if __name__ == "__main__":
    sys.exit(main())
