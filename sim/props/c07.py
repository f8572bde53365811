"""
C07: population setup yields exactly the right number of valid members.
"""
import numpy as np

from ..world import Lab, Landscape, Evaluator, INF, key, makeConstraint

RUNS = {"quick": 3500, "thorough": 80000}
RULE = ("Setups (up to three on one population) with seeded delays, completion orders, "
        "shares of invalid results, parallelism limits and constraints; members, their "
        "SSEs, evaluations in flight and reported best are judged. A run is non-trivial "
        "if evaluations overlapped or some result was invalid.")
REAL = ["ade.population", "ade.individual", "ade.report", "ade.history",
        "asynqueue.DeferredTracker", "twisted Deferred/locks/task"]
STUB = ["reactor and clock (virtual)", "evaluation function", "report callbacks",
        "stdin"]
ASSUMPTIONS = ["population sizes 3-45, 1-6 parameters, at most 85% invalid results"]


def scenario(sim):
    c = sim.c
    from ade.population import Population
    lab = Lab(sim)
    lab.makeBox(1 + c.pick("cfg.nd", 6))
    lab.land = Landscape(c.of("cfg.land", ("sphere", "corner", "ripple", "quantised",
                                           "huge", "zero", "worsening")),
                         lab.mins, lab.maxs, lab.center)
    latency = c.of("cfg.latency", (2, 0, 1, 3, 4, 5, 6, 7))
    level = c.of("cfg.invalid", (0.0, 0.1, 0.4, 0.7, 0.85))
    weights = [1]
    if level:
        w = [0.05 + c.frac("cfg.w") for _ in range(3)]
        weights = [1 - level] + [level*x/sum(w) for x in w]
    ev = Evaluator(sim, lab.land, latency, weights)
    lab.attach(ev)
    popsize = 1 + c.pick("cfg.popsize", 10)
    lo = c.of("cfg.npmin", (5, 3, 10, 20))
    hi = c.of("cfg.npmax", (500, 12, 30))
    limit = c.of("cfg.par", (12, 1, 2, 3, 5, 40))
    # What is the documented default anyway is left out at times
    omit = c.pick("cfg.omit", 2)
    if not omit or limit != 12: Population.N_maxParallel = limit
    if not omit or hi != 500: Population.Np_max = hi
    if not omit or lo != 20: Population.Np_min = lo
    kw = {} if omit and popsize == 10 else {"popsize": popsize}
    if lab.Nd > 1 and c.chance("cfg.cons", 0.25):
        kw["constraints"] = makeConstraint(lab, c.pick("cfg.constype", 3))
    lab.p = p = Population(ev, list(lab.names), list(lab.bounds), **kw)
    want = max(lo, min(popsize*lab.Nd, hi))
    for k in range(c.pick("cfg.reporters", 3)):
        lab.addReporter(c.of("cfg.cbmode", (2, 0, 1, 3)))
    sim.stall = c.of("cfg.stall", (0.0, 0.0, 0.01))

    def started(call):
        sim.evaluations += 1
        # This one is not counted as flying yet
        if ev.flying + 1 > limit:
            sim.violate("parallel", "%d evaluations in flight during setup, maximum is %d" % (
                ev.flying + 1, limit))
    ev.hooks.append(started)
    sim.nontrivial = False

    if c.chance("cfg.faulty", 0.06):
        # At first, a constraint has an error
        st = {"n": 1 + c.pick("faulty.at", 2*want)}
        def faulty(d):
            st["n"] -= 1
            if not st["n"]:
                sim.faults["constraint-error"] += 1
                raise ZeroDivisionError("simulated error of a constraint")
            return True
        p.setConstraints(faulty)
        box = lab.setup()
        how = sim.run(lambda: box["fired"], maxSteps=30000)
        if sim.found or how != "done": return
        if st["n"] <= 0:
            sim.evaluations += 1
            if not box["failure"] or not box["failure"].check(ZeroDivisionError):
                return sim.violate("swallowed", "setup gave %r though a constraint failed" % (
                    box["result"],))
        sim.settle()
        if sim.found: return
        p.setConstraints(*([kw["constraints"]] if "constraints" in kw else []))
    for k in range(1 + c.weighted("cfg.setups", [5, 1, 1])):
        n0 = len(ev.calls); r0 = len(lab.reports)
        box = lab.setup(uniform=c.chance("cfg.uniform", 0.3))
        how = sim.run(lambda: box["fired"], maxSteps=30000)
        if sim.found or how != "done": return
        calls = ev.calls[n0:]
        sim.nontrivial |= ev.maxFlying > 1 or any(not x.valid for x in calls)
        sim.evaluations += 1
        if box["failure"]:
            return sim.violate("error", "setup failed: %s" %
                               box["failure"].getErrorMessage())
        if box["result"] is not True:
            return sim.violate("result", "setup gave %r though nothing was fatal" % (
                box["result"],))
        if ev.flying:
            return sim.violate("in-flight", "setup completed with %d evaluations in flight"
                               % ev.flying)
        if len(p) != want:
            return sim.violate("size", "%d members instead of %d" % (len(p), want))
        left = {}
        for x in calls:
            if x.valid:
                left.setdefault((key(x.values), float(x.sse)), []).append(x)
        for j, i in enumerate(p):
            sim.evaluations += 1
            s = float(i.SSE)
            if not s < INF:
                return sim.violate("invalid", "member %d has SSE %r" % (j, s))
            xs = left.get((key(i.values), s))
            if not xs:
                return sim.violate("untrue", "member %d has SSE %r that was not returned "
                                   "for its values in an evaluation of its own" % (j, s))
            xs.pop()
        if list(p[k] for k in range(len(p))) != list(p):
            return sim.violate("sequence", "members by index differ from iteration")
        b = p.best()
        if float(b.SSE) != min(float(i.SSE) for i in p):
            return sim.violate("best", "best member has SSE %r instead of %r" % (
                float(b.SSE), min(float(i.SSE) for i in p)))
        sim.run(lambda: not lab.openReports, maxSteps=5000)
        if sim.found: return
        rep = [r for r in lab.reports[r0:]]
        if rep and k == 0:
            r = min(rep, key=lambda r: r.sse)
            sim.evaluations += 1
            if r.sse < INF and not any(float(i.SSE) == r.sse and
                                       np.array_equal(i.values, r.values) for i in p):
                return sim.violate("reported", "best individual reported in setup, SSE %r, is "
                                   "not a member" % r.sse)
