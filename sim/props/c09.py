"""
C09: a fatal evaluation stops everything and never enters the population.
"""
from ..world import standard, Snapshot, INF

RUNS = {"quick": 4000, "thorough": 80000}
RULE = ("Setup and one to three runs with a fatal evaluation (negative result, exception, "
        "failed Deferred) at a seeded call, after which the outside world answers nothing "
        "until the run has to be over; later everything is answered. A run is "
        "non-trivial if an evaluation was fatal.")
REAL = ["ade.de", "ade.individual", "ade.population", "ade.report", "ade.history",
        "asynqueue.DeferredTracker", "twisted Deferred/locks/task"]
STUB = ["reactor and clock (virtual)", "evaluation function", "report callbacks",
        "stdin"]
ASSUMPTIONS = ["population sizes 5-9 (now and then 4-34), 2-4 parameters (now and then 1-10), at most three runs of 6 generations",
               "no complaints or failing callbacks"]


def scenario(sim):
    c = sim.c
    lab = standard(sim, constraints=0.15, modes=(2, 0, 1, 3),
                   latencies=(2, 6, 0, 1, 3, 4, 5, 7),
                   lands=("sphere", "corner", "ripple", "valley", "steep", "quantised",
                          "zero", "extreme", "worsening"))
    ev = lab.ev; p = lab.p
    st = {"fatal": None, "snap": None}
    kind = c.of("fatal.kind", (ev.NEGATIVE, ev.RAISE, ev.FAIL))
    when = c.of("fatal.when", ("run", "setup", "run2"))
    n = c.pick("fatal.at", 6 if c.chance("fatal.early", 0.4) else 40)
    if when == "setup": ev.plan[n % (lab.Np + 4)] = kind
    twice = c.chance("fatal.twice", 0.2)

    def started(call):
        if st["fatal"] is None:
            if when != "setup" and call.phase == "evolve" and lab.runs == st.get("run"):
                k = call.n - st["first"]
                if k == n or (twice and k == n + 1):
                    ev.plan.pop(call.n, None)
                    call.kind = kind
                    sim.faults[ev.names[kind]] += 1
            return
        sim.violate("evaluated", "evaluation with real values started after a fatal one, "
                    "in %s" % call.phase)
    ev.hooks.append(started)

    def done(call):
        if call.sse is not None or st["fatal"] is not None: return
        st["fatal"] = call
        st["none"] = len(ev.noneCalls)
        sim.probes["fatal-in-" + call.phase] += 1
        if ev.flying: sim.probes["fatal-with-others-in-flight"] += 1
        if call.phase == "evolve":
            st["snap"] = Snapshot(p)
            ev.freeze()
    ev.doneHooks.append(done)

    def members():
        f = st["fatal"]
        if f is None: return
        sim.evaluations += 1
        if f.phase == "evolve":
            if len(ev.noneCalls) > st["none"]:
                return sim.violate("evaluated", "evaluation requested after a fatal one")
            now = Snapshot(p)
            if not now.same(st["snap"]):
                return sim.violate("member", "member changed after a fatal evaluation: SSEs "
                                   "%s, then %s" % (st["snap"].S, now.S))
        for i in p:
            if i.SSE is None or not float(i.SSE) >= 0:
                return sim.violate("entered", "member with SSE %r" % (i.SSE,))
            if not ev.lookup(i.values, float(i.SSE)):
                return sim.violate("entered", "member has SSE %r, not what its evaluation "
                                   "gave" % float(i.SSE))
    sim.monitors.append(members)

    def reported(r):
        if not r.sse >= 0:
            sim.violate("reported", "individual with SSE %r reported" % r.sse)
    lab.reportHooks.append(reported)

    def over(box, what):
        how = sim.run(lambda: box["fired"], maxSteps=20000)
        if sim.found: return False
        if st["fatal"] is None: return how == "done" and not box["failure"]
        sim.nontrivial = True
        sim.evaluations += 1
        if how != "done":
            sim.violate("hang", "%s did not complete after a fatal evaluation" % what)
        elif box["failure"]:
            sim.violate("error", "%s failed after a fatal evaluation: %s" % (
                what, box["failure"].getErrorMessage()))
        elif what == "run" and box["result"] is not p:
            sim.violate("result", "run gave %r" % (box["result"],))
        return not sim.found

    sim.nontrivial = False
    box = lab.setup(uniform=c.chance("cfg.uniform", 0.3))
    # Setup waits for the evaluations in flight
    def early():
        if st["fatal"] is not None and box["fired"] and ev.flying and \
           ev.phase == "setup":
            sim.violate("in-flight", "setup completed with %d evaluations in flight"
                        % ev.flying)
    sim.monitors.append(early)
    if not over(box, "setup"): return
    if st["fatal"] is not None:
        if box["result"] is True:
            return sim.violate("ready", "setup reports readiness after a fatal evaluation")
        if not len(p): return
        before = len(ev.calls) + len(ev.noneCalls)
        rb = lab.startDE(maxiter=3, F=0.8)
        sim.evaluations += 1
        if not rb["fired"]:
            return sim.violate("at-once", "run of a population whose setup met a fatal "
                               "evaluation did not complete at once")
        if rb["failure"] or rb["result"] is not p:
            return sim.violate("result", "run of a population whose setup met a fatal "
                               "evaluation gave %r" % (rb["failure"] or rb["result"],))
        sim.settle()
        if len(ev.calls) + len(ev.noneCalls) > before:
            sim.violate("evaluated", "run of a population whose setup met a fatal "
                        "evaluation evaluated something")
        return
    for k in range(2 if when == "run2" else 1):
        if k == (1 if when == "run2" else 0):
            st["run"] = lab.runs + 1
            st["first"] = len(ev.calls)
        rb = lab.startDE(
            CR=c.of("cfg.CR", (0.8, 0.3, 1.0, 0.5)), F=c.of("cfg.F", (0.8, 0.5)),
            maxiter=c.of("cfg.maxiter", (4, 1, 6, 2)),
            adaptive=c.chance("cfg.adaptive", 0.3), bitterEnd=True,
            xSSE=c.chance("cfg.xSSE", 0.2),
            randomBase=c.of("cfg.base", (False, True, 0.5)))
        if not over(rb, "run"): return
        if st["fatal"] is not None: break
    if st["fatal"] is None: return
    late = c.pick("late.kind", 4)
    if late:
        for x in ev.held:
            if c.chance("late.odd", 0.3):
                x.kind = (ev.NEGATIVE, ev.FAIL, ev.INFINITE)[late - 1]
                sim.faults["late-" + ev.names[x.kind]] += 1
    ev.thaw()
    sim.settle()
