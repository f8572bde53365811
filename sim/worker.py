"""
Process that executes simulated runs, each in a child forked for it.

Started by runner.py as: python -m sim.worker <module> <fd in,fd out> ...
"""
import importlib, json, os, resource, select, signal, sys, traceback

from . import core

CPU_LIMIT = 25
WALL_LIMIT = 120


def execute(job, mod):
    """In the child: one simulated run (or one phase of it)."""
    phase = job.get("phase", 0)
    prefix = "%d/" % phase if phase else ""
    if job.get("choices") is not None:
        c = core.Choices(replay=job["choices"], prefix=prefix)
    else:
        c = core.Choices(seed=job["seed"], prefix=prefix)
    sim = core.arm(c, job["adeSeed"] + phase)
    sim.carry = job.get("carry")
    sim.scratch = job.get("scratch")
    f = mod.phases[phase] if hasattr(mod, "phases") else mod.scenario
    err = None
    try:
        f(sim)
    except core.StopSim:
        pass
    except Exception as e:
        sim.raised(e)
    if sim.harnessErrors: err = sim.harnessErrors[0]
    if sim.found: err = None
    out = {
        "found": sim.found[:3],
        "digest": sim.digest.hexdigest(),
        "order": sim.order.hexdigest()[:16],
        "faults": dict(sim.faults),
        "probes": dict(sim.probes),
        "simtime": core.REACTOR.now,
        "steps": sim.steps,
        "evaluations": sim.evaluations,
        "nontrivial": bool(sim.nontrivial),
        "error": err,
        "summary": sim.extra.get("summary"),
    }
    if phase + 1 < len(getattr(mod, "phases", (0,))) and not sim.found:
        out["carry"] = sim.carry
    if sim.found or job.get("verbose"):
        out["choices"] = c.log
        out["trace"] = [list(e) for e in sim.events[-job.get("trace", 400):]]
    if sim.found or job.get("verbose") or phase or "carry" in out:
        out["choices"] = c.log
    if job.get("failureText"):
        out["failureText"] = getattr(sim, "failureText", None)
    return out


def serve(mod, fin, fout):
    rd = os.fdopen(fin, "r"); wr = os.fdopen(fout, "w")
    for line in rd:
        job = json.loads(line)
        wr.write(json.dumps(run(mod, job)) + "\n")
        wr.flush()


def run(mod, job):
    r, w = os.pipe()
    pid = os.fork()
    if pid == 0:
        code = 1
        try:
            os.close(r)
            null = os.open("/dev/null", os.O_RDWR)
            os.dup2(null, 0)
            os.dup2(null, 1)
            if not os.environ.get("SIM_STDERR"): os.dup2(null, 2)
            cpu = getattr(mod, "CPU_LIMIT", CPU_LIMIT)
            resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 5))
            out = execute(job, mod)
            data = json.dumps(out).encode()
            with os.fdopen(w, "wb") as fh: fh.write(data)
            code = 0
        except BaseException:
            try:
                os.write(w, json.dumps({"error": traceback.format_exc()}).encode())
            except BaseException: pass
        finally:
            os._exit(code)
    os.close(w)
    chunks = []
    status = None
    while True:
        ready, _, _ = select.select([r], [], [], WALL_LIMIT)
        if not ready:
            os.kill(pid, signal.SIGKILL)
            status = "wall-limit"
            break
        data = os.read(r, 1 << 20)
        if not data: break
        chunks.append(data)
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if status is None and os.WIFSIGNALED(st):
        status = "cpu-limit" if os.WTERMSIG(st) in (
            signal.SIGXCPU, signal.SIGKILL) else "signal-%d" % os.WTERMSIG(st)
    if status is None:
        try:
            return json.loads(b"".join(chunks).decode())
        except ValueError:
            status = "no-result"
    return {"killed": status}


def main():
    modname = sys.argv[1]
    core.install()
    import gc
    mod = importlib.import_module("sim.props." + modname.lower())
    gc.collect(); gc.disable(); gc.freeze()
    pairs = [tuple(int(x) for x in a.split(",")) for a in sys.argv[2:]]
    kids = []
    for k, (fin, fout) in enumerate(pairs):
        pid = os.fork()
        if pid == 0:
            for j, (a, b) in enumerate(pairs):
                if j != k: os.close(a); os.close(b)
            try: serve(mod, fin, fout)
            finally: os._exit(0)
        kids.append(pid)
    for a, b in pairs: os.close(a); os.close(b)
    for pid in kids: os.waitpid(pid, 0)


if __name__ == "__main__":
    main()
