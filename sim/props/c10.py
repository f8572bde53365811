"""
C10: runs always finish and leave the population ready to evolve again.
"""
from ..world import standard, Landscape, INF

RUNS = {"quick": 3000, "thorough": 60000}
LIVENESS = True
RULE = ("Setup and one to four runs on one population, ended by iteration limit, goal, "
        "stagnation, shutdown call at a seeded instant, fatal evaluation or an error of the "
        "generation callback or of a constraint, with all "
        "kinds of results and delays; each must complete within a bounded simulated time "
        "after the last outside event. A run is non-trivial if at least two runs were "
        "completed or one was ended early.")
REAL = ["ade.de", "ade.population", "ade.individual", "ade.history", "ade.report",
        "asynqueue.DeferredTracker", "twisted Deferred/locks/task"]
STUB = ["reactor and clock (virtual)", "evaluation function", "report callbacks",
        "stdin"]
ASSUMPTIONS = ["population sizes 5-12 and now and then 40-100, 2-4 parameters, at most four "
               "runs of 12 generations",
               "bounded: nothing outside under way, no progress for at least 100 s and as "
               "long again as it all took, and 60 events"]


def scenario(sim):
    c = sim.c
    big = c.chance("cfg.big", 0.02)
    lab = standard(sim, np_=(5, 6, 4, 7, 9, 12) if not big else (40, 100), nmax=0,
                   constraints=0.3, modes=(2, 0, 1, 3), lands=Landscape.kinds + ("extreme",),
                   complaint=lambda i, x: None)
    ev = lab.ev; p = lab.p
    if c.chance("cfg.small", 0.3):
        # Keep the history small so that it fills up
        p.history.N_max = lab.Np + c.pick("cfg.nmax", 12)
        sim.probes["small-history"] += 1
    if lab.constraint is not None and c.chance("cfg.heavy", 0.4):
        # Most challengers are rejected
        ok = lab.constraint.ok
        def heavy(d):
            return ok(d) and (not lab.gens or not c.chance("cons.reject", 0.9))
        p.setConstraints(heavy)
        sim.probes["heavy-constraints"] += 1
    if c.chance("cfg.gripe", 0.2):
        lab.cbPlan = lambda r: ("complain", "bad") if c.chance("report.gripe", 0.1) else None
    st = {"fatal": None, "shut": None, "raise": None, "early": None, "cons": None}
    mine = RuntimeError("simulated error of the generation callback")
    live = []

    def later(call):
        # Something happens at a seeded evaluation
        if st["fatal"] is not None and call.phase == "evolve":
            st["fatal"] -= 1
            if st["fatal"] < 0:
                st["fatal"] = None
                call.kind = c.of("fatal.kind", (ev.NEGATIVE, ev.RAISE, ev.FAIL))
                sim.faults[ev.names[call.kind]] += 1
                st["early"] = "fatal evaluation"
        maybe("eval")
    ev.hooks.append(later)

    def maybe(where):
        if st["shut"] is None or st["shut"][0] != where: return
        st["shut"][1] -= 1
        if st["shut"][1] < 0:
            st["shut"] = None
            shutdown()
    lab.genHooks.append(lambda kg, g: maybe("gen"))
    lab.reportHooks.append(lambda r: maybe("report"))
    sim.monitors.append(lambda: maybe("event"))

    def raising(kg, g):
        # The user's generation callback has an error
        if st["raise"] is None: return
        st["raise"] -= 1
        if st["raise"] < 0:
            st["raise"] = None
            st["early"] = "error of generation callback"
            sim.faults["generation-callback-error"] += 1
    lab.genHooks.append(raising)

    def faulty(d):
        # A constraint has an error
        if st["cons"] is not None and rbs and not rbs[-1]["fired"]:
            st["cons"] -= 1
            if st["cons"] < 0:
                st["cons"] = None
                st["early"] = "error of a constraint"
                sim.faults["constraint-error"] += 1
                raise ZeroDivisionError("simulated error of a constraint")
        return True
    if c.chance("cfg.faulty", 0.3): p.setConstraints(*(list(p.pm.constraints) + [faulty]))

    def generation(kg):
        lab.generation(kg)
        if st["early"] == "error of generation callback": raise mine

    def shutdown():
        if rbs and not rbs[-1]["fired"]:
            st["early"] = "shutdown"
            sim.faults["shutdown-call"] += 1
            sim.note("shutdown")
            for k in range(1 + c.pick("shut.again", 2)): lab.de.shutdown()

    def over(box, what):
        how = sim.run(lambda: box["fired"])
        if sim.found: return False
        sim.evaluations += 1
        if how != "done":
            sim.violate("hang", "%s did not complete (%s)" % (what, how))
        elif st["early"] == "error of generation callback":
            if not box["failure"] or box["failure"].value is not mine:
                sim.violate("swallowed", "error of the generation callback did not become the "
                            "failure of the run")
        elif st["early"] == "error of a constraint" and box["failure"]:
            # May be told that way, too
            if not box["failure"].check(ZeroDivisionError):
                sim.violate("error", "%s failed: %s" % (
                    what, box["failure"].getErrorMessage()))
        elif box["failure"]:
            sim.violate("error", "%s failed: %s" % (what, box["failure"].getErrorMessage()))
        elif what == "setup" and box["result"] is not True:
            sim.violate("result", "setup gave %r" % (box["result"],))
        elif what != "setup" and box["result"] is not p:
            sim.violate("result", "%s gave %r" % (what, box["result"]))
        return not sim.found

    def once():
        for b in boxes:
            if b["fired"] > 1:
                sim.violate("twice", "%s completed %d times" % (b["name"], b["fired"]))
    sim.monitors.append(once)

    rbs = []; boxes = []
    sim.nontrivial = False
    box = lab.setup(uniform=c.chance("cfg.uniform", 0.3), blank=c.chance("cfg.blank", 0.06))
    boxes.append(box)
    if not over(box, "setup"): return
    how = None
    for run in range(1 + c.pick("cfg.runs", 4)):
        st["early"] = st["shut"] = st["fatal"] = st["raise"] = st["cons"] = None
        end = c.of("run.end", ("maxiter", "shutdown", "fatal", "goal", "dwell", "raise",
                               "cons"))
        bitter = end in ("maxiter", "shutdown", "fatal", "raise", "cons")
        M = c.of("cfg.maxiter", (3, 1, 5, 2, 12)) if not big else 2
        goal = None
        if end == "shutdown":
            st["shut"] = [c.of("shut.where", ("event", "eval", "gen", "report")),
                          c.pick("shut.after", 40)]
            if st["shut"][0] != "event": st["shut"][1] //= 4
        elif end == "fatal": st["fatal"] = c.pick("fatal.after", 30)
        elif end == "cons": st["cons"] = c.pick("cons.after", 30)
        elif end == "raise": st["raise"] = c.pick("raise.after", 4)
        elif end == "goal": goal = min(float(i.SSE) for i in p)*0.9
        rb = lab.startDE(
            generation if end == "raise" else True, CR=c.of("cfg.CR", (0.8, 0.3, 1.0, 0.0)), F=c.of("cfg.F", (0.8, (0.5, 1.0), 0.1)),
            maxiter=M, goalSSE=goal, adaptive=c.chance("cfg.adaptive", 0.5),
            dwellByGrave=1, bitterEnd=bitter, xSSE=c.chance("cfg.xSSE", 0.2),
            randomBase=c.of("cfg.base", (False, True, 0.5)))
        rbs.append(rb); boxes.append(rb)
        if not over(rb, "run" if how is None else "run after one ended by " + how): return
        if st["early"] is None and bitter:
            sim.evaluations += 1
            if lab.genCalls != list(range(M)):
                return sim.violate("idle", "run of %d generations %s had generation "
                                   "callbacks %s" % (M, "after one ended by " + how if how
                                                     else "", lab.genCalls))
            ng = len(ev.calls)
        if run or st["early"]: sim.nontrivial = True
        how = st["early"] or end
        sim.probes["ended-" + how] += 1
        # Outstanding evaluations finish
        if st["early"] or c.chance("cfg.pause", 0.3): sim.settle()
        if sim.found: return
    sim.settle()
