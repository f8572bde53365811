"""
C13: a failing report callback stops reporting and ends the run.
"""
from twisted.internet import defer

from ..world import standard, INF

RUNS = {"quick": 4000, "thorough": 80000}
RULE = ("Setup and one to three runs in which a seeded report callback call fails, at "
        "once or later, or the handling of a complaint does, with evaluations in flight and further reports queued; all "
        "activity afterwards is judged. A run is non-trivial if a callback failed.")
REAL = ["ade.report", "ade.de", "ade.population", "ade.individual", "ade.history",
        "asynqueue.DeferredTracker", "twisted Deferred/locks/task"]
STUB = ["reactor and clock (virtual)", "evaluation function", "report callbacks",
        "stdin"]
ASSUMPTIONS = ["population sizes 5-9 (now and then 4-34), 2-4 parameters (now and then 1-10), at most three runs of 8 generations",
               "every evaluation eventually completes",
               "no complaint is pending when the callback fails"]


def scenario(sim):
    c = sim.c
    lab = standard(sim, constraints=0.15, reporters=False,
                   lands=("sphere", "corner", "ripple", "valley", "steep", "quantised",
                          "worsening", "zero", "huge", "extreme"),
                   complaint=lambda i, x: handler(i, x))
    ev = lab.ev; p = lab.p
    nc = 1 + c.pick("cfg.ncb", 3)
    for k in range(nc):
        lab.addReporter(c.of("cfg.cbmode", (2, 0, 1, 3)))
    failAt = c.pick("fail.at", 8) if c.chance("fail.early", 0.5) else \
        c.pick("fail.at", 60)
    st = {"at": None, "gens": 0, "begun": False, "none": 0, "open": 0}
    if c.chance("cfg.gripe", 0.2):
        gripe = lambda r: ("complain", "bad") if c.chance("report.gripe", 0.1) else None
    else: gripe = lambda r: None
    # It may be the handling of a complaint that fails
    inHandler = c.chance("fail.handler", 0.2)
    lab.cbPlan = lambda r: (gripe(r) if r.n != failAt else
                            ("complain", "fatal") if inHandler else ("fail", None))
    lab.error = c.of("fail.error", (
        RuntimeError("simulated {callback} failure"), KeyError("x"), StopIteration(),
        ZeroDivisionError(), AssertionError(), "abort"))
    if lab.error == "abort":
        from ade.abort import AbortError
        lab.error = AbortError()

    def failing():
        if st["at"] is not None: return
        st["at"] = sim.reactor.now
        st["gens"] = len(lab.genCalls)
        st["none"] = len(ev.noneCalls)
        st["begun"] = bool(lab.gens) and (
            bool(lab.gens[-1].calls) or lab.constraint is not None)
        sim.probes["failed-in-%s" % ev.phase] += 1
        if ev.flying: sim.probes["failed-with-evaluations-in-flight"] += 1

    done0 = lab._reportDone
    def done(r, d):
        if r.outcome[0] == "fail": failing()
        return done0(r, d)
    lab._reportDone = done

    def handler(i, x):
        if x != "fatal": return
        sim.faults["complaint-handler-failure"] += 1
        dt = c.of("handler.delay", (0.0, 0.5, 10.0))
        if c.chance("handler.now", 0.5):
            failing()
            raise lab.error
        d = defer.Deferred()
        def late():
            failing()
            d.errback(lab.error)
        sim.later(dt, late)
        return d

    def started(call):
        if st["at"] is None: return
        sim.violate("evaluated", "evaluation with real values started after a report "
                    "callback had failed, in %s" % call.phase)
    ev.hooks.append(started)

    def reported(r):
        if st["at"] is None: return
        sim.violate("reported", "report callback started after another call of one had "
                    "failed")
    lab.reportHooks.append(reported)

    def progress():
        if st["at"] is None: return
        sim.evaluations += 1
        more = len(lab.genCalls) - st["gens"]
        if more > (1 if st["begun"] else 0):
            return sim.violate("generation", "another generation after a report callback "
                               "had failed")
        if len(ev.noneCalls) - st["none"] > p.Np:
            return sim.violate("generation", "%d evaluations requested after a report "
                               "callback had failed" % (len(ev.noneCalls) - st["none"]))
    sim.monitors.append(progress)

    def over(box, what):
        how = sim.run(lambda: box["fired"], maxSteps=20000)
        sim.nontrivial = st["at"] is not None
        if sim.found: return False
        if st["at"] is None: return how == "done" and not box["failure"]
        sim.evaluations += 1
        if how != "done":
            sim.violate("hang", "%s did not complete after a report callback had failed"
                        % what)
        elif box["failure"]:
            sim.violate("error", "failed report callback made %s fail with %s" % (
                what, box["failure"].getErrorMessage()))
        elif what == "run" and box["result"] is not p:
            sim.violate("result", "run gave %r after a report callback had failed" % (
                box["result"],))
        return not sim.found

    def run():
        if st["at"] is not None: st.update(gens=0, begun=False)
        rb = lab.startDE(
            CR=c.of("cfg.CR", (0.8, 0.3, 1.0, 0.5)), F=c.of("cfg.F", (0.8, 0.5)),
            maxiter=c.of("cfg.maxiter", (4, 1, 8, 2)),
            adaptive=c.chance("cfg.adaptive", 0.3), bitterEnd=True,
            xSSE=c.chance("cfg.xSSE", 0.2),
            randomBase=c.of("cfg.base", (False, True, 0.5)))
        return over(rb, "run")

    box = lab.setup(uniform=c.chance("cfg.uniform", 0.3))
    if not over(box, "setup"): return
    for k in range(1 + c.pick("cfg.runs", 3)):
        if c.chance("cfg.pause", 0.3): sim.settle()
        if not run() or st["at"] is not None: break
    if sim.found or st["at"] is None: return
    sim.settle()
    # Once more: nothing comes of it
    if len(p): run()
    sim.settle()
