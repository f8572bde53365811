"""
C02: members yield only to strictly better challengers, at their true SSE.
"""
import numpy as np

from ..world import standard, Landscape, Snapshot, INF, key
from ..serial import Serial, matching

RUNS = {"quick": 5000, "thorough": 100000}
RULE = ("Setup and one or two runs of a few generations under seeded delays, "
        "completion orders, invalid results, stalls; after every event all "
        "members are compared with the ledger of returned results. A run is "
        "non-trivial if at least one challenger was decided.")
REAL = ["ade.de", "ade.population", "ade.individual", "ade.report",
        "ade.history", "asynqueue.DeferredTracker", "twisted Deferred/locks/task"]
STUB = ["reactor and clock (virtual)", "evaluation function", "report callbacks",
        "stdin"]
ASSUMPTIONS = ["population sizes 5-9 (now and then 4-34), 2-4 parameters (now and then 1-10), at most 6 generations"]


def scenario(sim):
    c = sim.c
    lab = standard(sim, constraints=0.25, lands=Landscape.kinds + ("extreme",))
    ev = lab.ev
    blank = c.chance("cfg.blank", 0.12)
    box = lab.setup(uniform=c.chance("cfg.uniform", 0.3), blank=blank)
    if sim.run(lambda: box["fired"]) != "done" or box["result"] is not True:
        sim.nontrivial = False
        return
    p = lab.p
    blanks = {key(i.values) for i in p} if blank else set()
    state = {"snap": Snapshot(p), "best": min(float(i.SSE) for i in p)}
    if len(p) != lab.Np:
        return
    watching = [False]

    def truth(snap, k):
        """Is the SSE of member k one that its values were given?"""
        v, s = snap.X[k], snap.S[k]
        if s == INF and key(v) in blanks: return True
        return bool(ev.lookup(v, s))

    def monitor():
        if not watching[0]: return
        sim.guard(look)

    def look():
        old = state["snap"]
        new = Snapshot(p)
        if len(new) != len(old):
            return sim.violate("size", "population size changed from %d to %d" % (
                len(old), len(new)))
        for k in range(len(new)):
            s = new.S[k]
            if s != s:
                return sim.violate("nan", "member %d has SSE nan" % k)
            same = np.array_equal(new.X[k], old.X[k])
            if same and s == old.S[k]: continue
            sim.probes["replacement"] += 1
            sim.evaluations += 1
            if not s < old.S[k]:
                return sim.violate(
                    "not-better", "member %d with SSE %r replaced by one with SSE %r"
                    % (k, old.S[k], s))
            if not truth(new, k):
                return sim.violate(
                    "untrue-sse", "member %d has SSE %r, which was not returned for "
                    "its values %s" % (k, s, list(new.X[k])))
        best = min(new.S)
        if best > state["best"]:
            return sim.violate("best-worse", "best SSE went from %r to %r" % (
                state["best"], best))
        b = p.best()
        if float(b.SSE) != best:
            return sim.violate("best-wrong", "best() has SSE %r, but a member has %r"
                               % (float(b.SSE), best))
        state["best"] = best
        state["snap"] = new

    for k in range(len(p)):
        if not truth(state["snap"], k):
            return sim.violate("untrue-sse", "initial member %d has SSE %r, which was "
                               "not returned for its values" % (k, state["snap"].S[k]))
    sim.monitors.append(monitor)
    for run in range(1 + c.pick("cfg.runs", 2)):
        F = c.of("cfg.F", (0.8, 0.5, 1.3, 0.3))
        state["snap"] = Snapshot(p)
        watching[0] = True
        rb = lab.startDE(
            CR=c.of("cfg.CR", (0.8, 0.3, 0.5, 1.0, 0.0)), F=F,
            maxiter=1 + c.pick("cfg.maxiter", 5), adaptive=False, bitterEnd=True,
            randomBase=c.of("cfg.base", (False, True, 0.5, 0.1)),
            xSSE=c.chance("cfg.xsse", 0.15))
        how = sim.run(lambda: rb["fired"])
        if how == "found": return
        look()
        if sim.found: return
        lab.closeGen()
        if how != "done" or rb["failure"]:
            return
        for g in lab.gens:
            if g.closedBy == "end" and not g.calls: continue
            decide(sim, lab, g, F)
            if sim.found: return
        watching[0] = False


def decide(sim, lab, g, F):
    """
    Every challenger that is strictly better than its target takes its place:
    losers must be attributable to targets that are at least as good.
    """
    S0, S1 = g.start, g.end
    if any(not c.done for c in g.calls): return
    N = len(S0)
    ser = Serial(S0.X, S1.X, lab.mins, lab.maxs, F)
    won = {}
    losers = []
    # A winner is in the population at the end
    changed = [k for k in range(N) if not np.array_equal(S0.X[k], S1.X[k])
               or S0.S[k] != S1.S[k]]
    slots = {}
    for k in changed: slots.setdefault((key(S1.X[k]), S1.S[k]), []).append(k)
    for call in g.calls:
        ks = slots.get((key(call.values), call.sse))
        if ks: won[ks.pop(0)] = call
        else: losers.append(call)
    sim.evaluations += len(g.calls)
    if len(losers) > N: return
    free = [k for k in range(N) if k not in won]
    cands = []; plain = []
    for call in losers:
        fit = [k for k in free if ser.fits(call.values, k)]
        if not fit: return          # not attributable: for C01 to judge
        plain.append(fit)
        s = call.sse
        if s is None: return
        cands.append([k for k in fit if not s < S0.S[k]])
    if any(x is None for x in matching(plain, N)): return
    sim.probes["losers-attributed"] += len(losers)
    m = matching(cands, N)
    for r, x in enumerate(m):
        if x is None:
            call = losers[r]
            return sim.violate(
                "winner-lost", "challenger with SSE %r is better than any target it can "
                "have had (%s) but is not in the population after the generation" % (
                    call.sse, ["%d: %r" % (k, S0.S[k]) for k in plain[r]]))
