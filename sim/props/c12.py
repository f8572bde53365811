"""
C12: complaints permanently demote an individual and reinstate the earlier best.
"""
import numpy as np
from twisted.internet import defer

from ..world import standard, INF, key

RUNS = {"quick": 3500, "thorough": 80000}
RULE = ("Setup and one to three runs in which report callbacks complain at seeded "
        "moments and the complaint handler takes a seeded time; status of those "
        "complained about and all reports are judged against a model of the standing "
        "best. A run is non-trivial if a complaint was made.")
REAL = ["ade.report", "ade.de", "ade.population", "ade.individual", "ade.history",
        "asynqueue.DeferredTracker", "twisted Deferred/locks/task"]
STUB = ["reactor and clock (virtual)", "evaluation function", "report callbacks",
        "complaint handler", "stdin"]
ASSUMPTIONS = ["population sizes 5-9 (now and then 4-34), 2-4 parameters (now and then 1-10), at most three runs of 8 generations",
               "the remaining callbacks of the round in which the complaint was made may "
               "still be called"]
COMPLAINTS = ("bad", 0, False, [], 1.5, "")


def scenario(sim):
    c = sim.c
    goods = []              # first reports of rounds without complaint
    st = {"round": None, "last": None, "opening": None, "asked": 0,
          "pending": None}
    victims = []            # individuals complained about, after handling
    handled = []

    def handler(i, x):
        return sim.guard(_handler, i, x)

    def _handler(i, x):
        pend = st["pending"]
        sim.note("handler", float(i.SSE))
        sim.evaluations += 1
        if pend is None:
            sim.violate("handler", "complaint handler called without a new complaint")
            return
        r, what = pend
        st["pending"] = None
        handled.append(i)
        if not (what is x):
            sim.violate("handler", "complaint handler called with %r instead of %r" % (
                x, what))
        if not np.array_equal(np.asarray(i.values, float), r.values):
            sim.violate("handler", "complaint handler called with another individual than "
                        "the one complained about")
        mode = c.pick("handler.mode", 4)
        if mode < 2:
            st["due"] = i
            return None
        d = defer.Deferred()
        def fire():
            sim.note("handler-done")
            st["due"] = i
            d.callback(None)
        sim.later((0.0, 20.0)[mode - 2]*c.frac("handler.delay"), fire)
        return d

    lab = standard(sim, constraints=0.1, reporters=False, complaint=handler,
                   lands=("sphere", "corner", "ripple", "valley", "steep", "quantised",
                          "worsening", "zero", "huge", "extreme"))
    ev = lab.ev; p = lab.p
    nc = 1 + c.pick("cfg.ncb", 3)
    for k in range(nc):
        lab.addReporter(c.of("cfg.cbmode", (2, 0, 1, 3)))
    prob = c.of("cfg.prob", (0.15, 0.4, 0.05, 0.8))

    def plan(r):
        if c.chance("report.complain", prob):
            return ("complain", c.of("report.complaint", COMPLAINTS))
    lab.cbPlan = plan

    def reported(r):
        sim.evaluations += 1
        if st["pending"] is not None:
            return sim.violate("unhandled", "another report callback called but the "
                               "complaint handler was not, for complaint %r" % (
                                   st["pending"][1],))
        if r.cb:
            st["round"].append(r)
            return
        # A new round
        closeRound()
        st["round"] = [r]
        good = standing()
        if r.sse < good: return
        if good == INF:
            # Nobody standing: the report can only be of somebody invalid
            if r.sse == INF and any(float(i.SSE) < INF for i in p):
                sim.violate("demoted", "individual with infinite SSE reported though there "
                            "are members with a finite one")
            return
        best = p.best()
        if best is not None and float(best.SSE) == r.sse and \
           np.array_equal(best.values, r.values):
            if len(lab.genCalls) >= lab.cfg.get("M", INF): return    # closing report
        op = st["opening"]
        if op is not None and op[0] == r.sse and np.array_equal(op[1], r.values):
            st["opening"] = None
            return
        sim.violate("standing", "SSE %r reported while one of %r reported before stands "
                    "without complaint" % (r.sse, good))

    def standing():
        return min([x.sse for x in goods] or [INF])

    def closeRound():
        rd = st["round"]
        if not rd or len(rd) < nc: return
        if any(x.open for x in rd): return
        if all(x.outcome[0] != "complain" for x in rd):
            goods.append(rd[0])
        st["round"] = None
    lab.reportHooks.append(reported)

    def watch():
        # Complaint decided: handler must be called at once
        due = st.pop("due", None)
        if due is not None: victims.append(due)
        for i in victims:
            if float(i.SSE) < INF:
                return sim.violate("not-demoted", "individual complained about has SSE %r"
                                   % float(i.SSE))
        if st["pending"] is not None:
            return sim.violate("unhandled", "complaint handler was not called for %r" % (
                st["pending"][1],))
        if victims and box["fired"]:
            best = p.best()
            if float(best.SSE) == INF and any(float(i.SSE) < INF for i in p):
                return sim.violate("best", "best member has infinite SSE though there are "
                                   "members with a finite one")
            v = key(best.values)
            if float(best.SSE) < INF and len(ev.byKey.get(v, ())) == 1 and \
               any(key(i.values) == v for i in victims):
                return sim.violate("best", "best member is the individual complained about, "
                                   "with SSE %r" % float(best.SSE))
            sim.evaluations += 1
    sim.monitors.append(watch)

    # Complaints are known to be made when the callback's result is
    done0 = lab._reportDone
    def done(r, d):
        if r.outcome[0] == "complain":
            st["pending"] = (r, r.outcome[1])
            goods[:] = [x for x in goods if not np.array_equal(x.values, r.values)]
        return done0(r, d)
    lab._reportDone = done

    def ended(kg, g):
        # Those demoted before the generation lose to valid challengers
        if len(g.calls) != p.Np or not all(x.valid for x in g.calls): return
        gone = [k for k in range(len(g.start)) if g.start.S[k] == INF
                and any(g.start.objs[k] is v for v in victims)]
        for k in gone:
            sim.evaluations += 1
            sim.probes["challenged"] += 1
            if p[k] is g.start.objs[k]:
                return sim.violate("survived", "member %d, complained about before "
                                   "generation %d, did not yield to a valid challenger"
                                   % (k, g.k))
    lab.genHooks.append(ended)

    box = lab.setup(uniform=c.chance("cfg.uniform", 0.3))
    how = sim.run(lambda: box["fired"], maxSteps=4000)
    if how != "done" or box["result"] is not True:
        sim.nontrivial = bool(handled)
        return
    for run in range(1 + c.pick("cfg.runs", 3)):
        closeRound()
        best = p.best()
        st["opening"] = (float(best.SSE), np.array(best.values, float))
        lab.cfg["M"] = M = c.of("cfg.maxiter", (4, 1, 8, 2))
        rb = lab.startDE(
            CR=c.of("cfg.CR", (0.8, 0.3, 1.0, 0.5)), F=c.of("cfg.F", (0.8, 0.5)),
            maxiter=M, adaptive=False, bitterEnd=True,
            xSSE=c.chance("cfg.xSSE", 0.2),
            randomBase=c.of("cfg.base", (False, True, 0.5)))
        watch()
        how = sim.run(lambda: rb["fired"])
        sim.nontrivial = bool(handled)
        if sim.found or how != "done" or rb["failure"]: return
        watch()
        closeRound()
        if sim.found: return
    sim.extra["summary"] = "%d complaints" % len(handled)
