"""
C17: log destination failures never disturb setup or evolution.
"""
import json, os, random, sys

import numpy as np

from ..world import standard, INF

RUNS = {"quick": 2500, "thorough": 50000}
RULE = ("The same simulated setup and runs (same seed, so the same choices) once with "
        "logging off and once with a log destination whose operations fail at seeded "
        "calls; the two complete histories of outside events and results must be equal. "
        "A run is non-trivial if the log was written to.")
REAL = ["ade.util.Messenger", "ade.de", "ade.population", "ade.individual", "ade.report",
        "ade.history", "ade.abort", "asynqueue.DeferredTracker",
        "twisted Deferred/locks/task"]
STUB = ["reactor and clock (virtual)", "evaluation function", "report callbacks",
        "log destination", "stdin"]
ASSUMPTIONS = ["population sizes 5-9 (now and then 4-34), 2-4 parameters (now and then 1-10), at most two runs of 6 generations"]


class Log:
    """A log destination that fails as decided by the choices."""
    def __init__(self, sim, mode, at, error):
        self.sim = sim; self.mode = mode; self.at = at; self.error = error
        self.n = 0
        self.closed = False

    def _op(self, name):
        self.n += 1
        bad = False
        if self.mode == "once": bad = self.n == self.at
        elif self.mode == "forever": bad = self.n >= self.at
        elif self.mode == "flush": bad = name == "flush" and self.n >= self.at
        elif self.mode == "write+close":
            bad = name == "close" or name == "write" and self.n >= self.at
        elif self.mode == "close": bad = name == "close"
        elif self.mode == "flaky": bad = self.sim.c.chance("log.flaky", 0.2)
        if bad:
            self.sim.faults["log-" + name] += 1
            raise self.error

    def write(self, x):
        self._op("write")
        if not isinstance(x, str): raise TypeError("write() argument must be str")
        return len(x)
    def flush(self): self._op("flush")
    def close(self):
        self.closed = True
        self._op("close")


def world(sim, logs):
    """One history; logs gives the log destinations, None for no logging."""
    c = sim.c
    from ade.util import msg
    lab = standard(sim, constraints=0.2, modes=(2, 0, 1, 3),
                   lands=("sphere", "corner", "ripple", "valley", "steep", "quantised",
                          "huge", "zero", "extreme", "worsening"),
                   complaint=lambda i, x: None, debug=c.chance("cfg.debug", 0.3))
    ev = lab.ev; p = lab.p
    msg(logs and logs[0])
    trouble = c.pick("cfg.trouble", 6)
    n = c.pick("cfg.when", 60)
    if trouble == 1:
        ev.plan[n] = c.of("fatal.kind", (ev.NEGATIVE, ev.RAISE, ev.FAIL))
    elif trouble == 2:
        lab.cbPlan = {n % 12: ("fail", None)}
    elif trouble == 3:
        lab.cbPlan = lambda r: ("complain", "bad") if c.chance("report.gripe", 0.2) else None
    elif trouble == 4:
        def enter():
            if sim.steps == n: lab.pressEnter()
        sim.monitors.append(enter)
    box = lab.setup(uniform=c.chance("cfg.uniform", 0.3))
    how = sim.run(lambda: box["fired"], maxSteps=3000)
    sim.note("setup", how, box["result"], str(box["failure"] and box["failure"].type))
    if how == "done" and len(p):
        for run in range(1 + c.pick("cfg.runs", 2)):
            rb = lab.startDE(
                logHandle=logs and logs[1 + run],
                CR=c.of("cfg.CR", (0.8, 0.3, 1.0)), F=c.of("cfg.F", (0.8, (0.5, 1.0))),
                maxiter=c.of("cfg.maxiter", (3, 1, 6)),
                adaptive=c.chance("cfg.adaptive", 0.5), dwellByGrave=1,
                xSSE=c.chance("cfg.xSSE", 0.2),
                randomBase=c.of("cfg.base", (False, True, 0.5)))
            how = sim.run(lambda: rb["fired"], maxSteps=6000)
            sim.note("run", how, str(rb["failure"] and rb["failure"].type),
                     rb["result"] is p)
            if how != "done": break
            if c.chance("cfg.pause", 0.3): sim.settle()
    sim.settle()
    for i in p:
        sim.note("member", float(i.SSE), [float(v) for v in i.values])
    sim.note("history", len(p.history), len(ev.noneCalls))


def scenario(sim):
    c = sim.c
    # Without logging, in a process of its own
    r, w = os.pipe()
    state = random.getstate()       # a fork reseeds
    pid = os.fork()
    if pid == 0:
        try:
            os.close(r)
            random.setstate(state)
            world(sim, None)
            data = json.dumps([sim.events, sim.found, sim.harnessErrors]).encode()
            with os.fdopen(w, "wb") as fh: fh.write(data)
        finally: os._exit(0)
    os.close(w)
    with os.fdopen(r, "rb") as fh: data = fh.read()
    os.waitpid(pid, 0)
    events, found, errors = json.loads(data.decode())
    if errors: raise RuntimeError(errors[0])
    # With
    error = c.of("log.error", (OSError(28, "No space left on device"),
                               ValueError("I/O operation on closed file"),
                               BrokenPipeError(32, "Broken pipe"),
                               UnicodeEncodeError("ascii", "x", 0, 1, "no"),
                               RuntimeError("log")))
    mode = c.of("log.mode", ("works", "once", "forever", "write+close", "flush", "close",
                             "flaky"))
    at = 1 + (c.pick("log.at", 12) if c.chance("log.early", 0.4) else
              c.pick("log.at", 400))
    logs = [Log(sim, mode, at, error)]
    kind = c.pick("log.setup", 4)
    if kind == 0: logs = logs*3                      # one for all
    elif kind == 1: logs = [None] + logs*2           # from the first run on
    elif kind == 2:                                  # one for each
        logs += [Log(sim, mode, at, error), Log(sim, mode, 1, error)]
    else:                                            # standard output
        sys.stdout = logs[0]
        logs = [True, True, True]
        sim.probes["stdout"] += 1
    try: world(sim, logs)
    except Exception as e:
        return sim.violate("raised", "failure of the log destination (%s) came through: "
                           "%s: %s" % (mode, type(e).__name__, e))
    finally: sys.stdout = sys.__stdout__
    sim.nontrivial = any(isinstance(x, Log) and x.n for x in logs) or kind == 3
    mine = json.loads(json.dumps(sim.events))
    sim.evaluations += len(mine)
    if mine == events: return
    for k, (a, b) in enumerate(zip(events, mine)):
        if json.dumps(a) != json.dumps(b): break
    else:
        k = min(len(events), len(mine))
        if len(events) == len(mine): return
    show = lambda ev: str(ev[k])[:150] if k < len(ev) else "nothing"
    sim.violate("differs", "log destination %s (%s): %s instead of %s" % (
        mode, error, show(mine), show(events)))
