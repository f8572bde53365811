"""
C24: evaluation counts and evaluation times are true.
"""
import numpy as np

from ..world import standard, Evaluator, INF

RUNS = {"quick": 2500, "thorough": 60000}
RULE = ("Setup, one or more runs of evolution and possibly another setup, with seeded "
        "latencies and results; after every event the population's count is compared "
        "with the evaluations completed, and its evaluation times with those the "
        "members took on the virtual clock; counts given to report callbacks are "
        "compared likewise. A run is non-trivial if at least ten evaluations completed.")
REAL = ["ade.population", "ade.individual", "ade.de", "ade.report", "ade.history"]
STUB = ["reactor and clock (virtual)", "evaluation function", "report callbacks", "stdin"]
ASSUMPTIONS = ["no abort and no fatal evaluation",
               "the clock is not set while an evaluation is under way"]


def scenario(sim):
    c = sim.c
    lab = standard(sim, constraints=0.2, modes=(2, 0, 1, 3))
    ev = lab.ev; p = lab.p
    st = {"n": 0, "base": 0, "last": 0, "resetup": False}

    def finished(call): st["n"] += 1
    ev.doneHooks.append(finished)

    def took(i):
        """Times the evaluations of an individual's values may have taken."""
        return [x.t1 - x.t0 for x in ev.byKey.get(
            np.asarray(i.values, float).tobytes(), ()) if x.done]

    def monitor():
        if sim.found: return
        done = st["n"] - st["base"]
        if p.counter != done:
            return sim.violate("count", "count is %r after %d completed evaluations" % (
                p.counter, done))
        times = list(p.evalTimes())
        members = list(p)
        if len(times) != len(members):
            return sim.violate("times", "%d evaluation times of %d members" % (
                len(times), len(members)))
        for t, i in zip(times, members):
            if not any(abs(t - x) < 1e-5 for x in took(i)):
                return sim.violate("time", "evaluation time %r of a member whose evaluation "
                                   "took %s" % (t, took(i)))
        sim.evaluations += 1 + len(times)
    sim.monitors.append(monitor)

    def report(r):
        done = st["n"] - st["base"]
        sim.evaluations += 1
        if r.counter != int(r.counter) or r.counter > done or r.counter < 1:
            sim.violate("reported", "report callback given count %r after %d completed "
                        "evaluations" % (r.counter, done))
        elif r.counter < st["last"]:
            sim.violate("backwards", "report callback given count %r after %r" % (
                r.counter, st["last"]))
        st["last"] = r.counter
    lab.reportHooks.append(report)

    def setup():
        box = lab.setup(uniform=c.chance("cfg.uniform", 0.2))
        return sim.run(lambda: box["fired"]) == "done" and box["result"] is True
    if not setup():
        sim.nontrivial = False
        return
    for run in range(1 + c.pick("cfg.runs", 2)):
        rb = lab.startDE(
            CR=c.of("cfg.CR", (0.8, 0.3, 1.0)), F=c.of("cfg.F", (0.8, 0.5)),
            maxiter=1 + c.pick("cfg.maxiter", 5), adaptive=False, bitterEnd=True,
            randomBase=c.of("cfg.base", (False, True)))
        if sim.run(lambda: rb["fired"]) != "done": return
        if c.chance("cfg.skew", 0.2):
            # The clock is set between runs
            sim.skew += c.of("skew", (-3600.0, 86400.0, 0.5))
            sim.faults["clock-set"] += 1
        if run == 0 and c.chance("cfg.again", 0.2):
            # Everything from the beginning
            ev.phase = "setup"
            st["base"] = st["n"]; st["last"] = 0
            if not setup(): return
    sim.nontrivial = st["n"] >= 10
