"""
C11: best-individual reports are serialized, ordered and end with the final best.
"""
import numpy as np

from ..world import standard, INF

RUNS = {"quick": 3500, "thorough": 80000}
RULE = ("Setup and one to three runs with up to three report callbacks of seeded "
        "duration; order, overlap and contents of all report callbacks are judged, "
        "and after every event whether the last reported SSE is up to date. A run is "
        "non-trivial if at least three rounds of reports were made.")
REAL = ["ade.report", "ade.de", "ade.population", "ade.individual", "ade.history",
        "asynqueue.DeferredTracker", "twisted Deferred/locks/task"]
STUB = ["reactor and clock (virtual)", "evaluation function", "report callbacks",
        "stdin"]
ASSUMPTIONS = ["population sizes 5-9 (now and then 4-34), 2-4 parameters (now and then 1-10), at most three runs of 12 generations",
               "no complaints and no failing callbacks (those are C12 and C13)"]


def scenario(sim):
    c = sim.c
    lab = standard(sim, constraints=0.15, reporters=False,
                   lands=("sphere", "corner", "ripple", "valley", "steep", "quantised",
                          "zero", "extreme", "huge", "worsening"),
                   complaint=(lambda i, x: None) if c.chance("cfg.handler", 0.2) else None)
    ev = lab.ev; p = lab.p
    nc = 1 + c.pick("cfg.ncb", 3)
    for k in range(nc):
        lab.addReporter(c.of("cfg.cbmode", (2, 0, 1, 3)), extra=True)
    diff = p.reporter.minDiff
    st = {"round": [], "last": None, "rounds": 0, "closing": False}

    def reported(r):
        sim.evaluations += 1
        cur = st["round"]
        if any(x.open for x in lab.reports[:-1]):
            return sim.violate("overlap", "report callback %d called while another one was "
                               "still running" % r.cb)
        if r.extra is not None:
            return sim.violate("arguments", "report callback %d called with arguments %s" % (
                r.cb, r.extra))
        want = len(cur) % nc
        if r.cb != want:
            return sim.violate("order", "report callback %d called where %d was due" % (
                r.cb, want))
        if want:
            first = cur[0]
            if r.sse != first.sse or not np.array_equal(r.values, first.values):
                return sim.violate("round", "report callback %d told SSE %r in the same round "
                                   "as %r" % (r.cb, r.sse, first.sse))
            cur.append(r)
            return
        # A new round
        last = st["last"]
        st["round"] = [r]
        st["rounds"] += 1
        st["last"] = r
        if last is not None:
            if r.sse > last.sse:
                return sim.violate("increase", "SSE %r reported after %r" % (r.sse, last.sse))
            if r.sse == last.sse and np.array_equal(r.values, last.values):
                return sim.violate("again", "individual with SSE %r reported twice in a row"
                                   % r.sse)
        # The individual is one that was evaluated
        if r.sse < INF:
            if not ev.lookup(r.values, r.sse):
                return sim.violate("untrue", "reported SSE %r is not what evaluation of the "
                                   "reported values gave" % r.sse)
        elif not [x for x in ev.byKey.get(r.values.tobytes(), ()) if x.sse == INF]:
            return sim.violate("untrue", "infinite SSE reported for values that were not "
                               "found invalid")
    lab.reportHooks.append(reported)

    def uptodate():
        if not len(p) or lab.openReports or len(st["round"]) % nc: return
        best = min(float(i.SSE) for i in p)
        sim.evaluations += 1
        last = st["last"].sse if st["last"] else None
        if last is None or not best >= last*(1.0 - diff)*(1 - 1e-9):
            sim.violate("stale", "no report in progress and last one was of SSE %r, though "
                        "a member has SSE %r" % (last, best))
    sim.monitors.append(uptodate)

    box = lab.setup(uniform=c.chance("cfg.uniform", 0.3))
    if sim.run(lambda: box["fired"]) != "done" or box["result"] is not True:
        sim.nontrivial = False
        return
    for run in range(1 + c.pick("cfg.runs", 3)):
        goal = None
        if c.chance("cfg.goal", 0.2):
            goal = min(float(i.SSE) for i in p)*0.7
        rb = lab.startDE(
            CR=c.of("cfg.CR", (0.8, 0.3, 1.0, 0.5)), F=c.of("cfg.F", (0.8, 0.5, 0.1)),
            maxiter=c.of("cfg.maxiter", (4, 1, 0, 8, 12)), goalSSE=goal,
            adaptive=c.chance("cfg.adaptive", 0.5), dwellByGrave=1,
            xSSE=c.chance("cfg.xSSE", 0.2),
            randomBase=c.of("cfg.base", (False, True, 0.5)))
        fin = lambda: rb["fired"]
        how = sim.run(fin)
        sim.nontrivial = st["rounds"] >= 3
        if sim.found or how != "done" or rb["failure"]: return
        # Ended normally: the final best has been reported
        sim.evaluations += 1
        if lab.openReports or len(st["round"]) % nc:
            return sim.violate("unfinished", "run completed before the last round of "
                               "reports was over")
        best = min(float(i.SSE) for i in p)
        last = st["last"]
        if last is None or last.sse != best or not any(
                float(i.SSE) == best and np.array_equal(i.values, last.values) for i in p):
            return sim.violate("final", "run completed with best SSE %r but SSE %r reported "
                               "last" % (best, last and last.sse))
        uptodate()
        if c.chance("cfg.pause", 0.3): sim.settle()
