"""
C01: asynchronous generations have the effect of one-at-a-time DE.
"""
import numpy as np

from ..world import standard, INF, key
from ..serial import Serial, matching

RUNS = {"quick": 2500, "thorough": 60000}
RULE = ("Setup and runs of a few generations under seeded delays and completion "
        "orders; per generation all evaluated vectors must be attributable, one to "
        "one, to targets as challengers that serial DE could have made. A run is "
        "non-trivial if a generation with at least one replacement was judged.")
REAL = ["ade.de", "ade.population", "ade.individual", "ade.report",
        "ade.history", "asynqueue.DeferredTracker", "twisted Deferred/locks/task"]
STUB = ["reactor and clock (virtual)", "evaluation function", "report callbacks",
        "stdin"]
ASSUMPTIONS = ["population sizes 5-9 (now and then 4-34), 1-5 parameters (now and then 1-10), at most 5 generations",
               "F is identified from the vectors to 1e-9 of the parameter range"]


def scenario(sim):
    c = sim.c
    lab = standard(sim, nd=(3, 2, 4, 5, 1), np_=(5, 6, 7, 8, 9, 4), constraints=0.2,
                   lands=("sphere", "corner", "ripple", "valley", "steep",
                          "quantised", "worsening", "zero"),
                   latencies=(0, 2, 2, 3, 4, 5, 6, 7, 1))
    box = lab.setup(uniform=c.chance("cfg.uniform", 0.3),
                    blank=c.chance("cfg.blank", 0.08))
    if sim.run(lambda: box["fired"]) != "done" or box["result"] is not True:
        sim.nontrivial = False
        return
    for run in range(1 + c.pick("cfg.runs", 2)):
        F = c.of("cfg.F", (0.8, 0.5, 1.0, 0.3, 1.7, (0.5, 1.0), (0.2, 0.9), (0.0, 1.0)))
        CR = c.of("cfg.CR", (0.8, 0.3, 0.5, 1.0, 0.0, 0.95))
        rbase = c.of("cfg.base", (False, False, True, 0.5, 0.1, 1.0))
        rb = lab.startDE(
            CR=CR, F=F if not isinstance(F, tuple) else list(F),
            maxiter=1 + c.pick("cfg.maxiter", 5), adaptive=False,
            bitterEnd=True, randomBase=rbase, xSSE=c.chance("cfg.xsse", 0.15))
        how = sim.run(lambda: rb["fired"])
        if how != "done" or rb["failure"]: return
        lab.closeGen()
        if isinstance(F, tuple) and F[0] == 0:
            F = (float(np.sqrt((1.0 - 0.5*CR)/lab.Np)), F[1])
            if F[0] > F[1]: F = (F[1], F[0])
        for g in lab.gens:
            if g.closedBy == "end" and not g.calls: continue
            judge(sim, lab, g, F, CR, rbase)
            if sim.found: return
    sim.nontrivial = sim.probes["generations-with-replacement"] > 0


def judge(sim, lab, g, F, CR, rbase):
    S0, S1 = g.start, g.end
    N = len(S0)
    if len(S1) != N or N < 4: return
    if any(not x.done for x in g.calls): return
    allDeferred = all(not x.sync for x in g.calls)
    # A full history keeps a challenge waiting although its evaluation is done
    h = lab.p.history
    allSync = all(x.sync for x in g.calls) and len(h) < h.N_max
    bases = None
    if not rbase and not (allDeferred or allSync):
        # Some of the earlier targets may have been decided by then
        def bases(kt):
            low = list(S0.S)
            for k in range(kt): low[k] = min(S0.S[k], S1.S[k])
            return [k for k in range(N) if k != kt and low[k] <= min(
                [S0.S[j] for j in range(N) if j not in (k, kt)])]
    elif not rbase:
        # None of the generation's challenges was decided before all were
        # issued, or each one before the next was issued
        def bases(kt):
            S = list(S0.S)
            if allSync: S[:kt] = S1.S[:kt]
            order = sorted(range(N), key=lambda k: S[k])
            best = S[order[0]]
            firsts = [k for k in range(N) if S[k] == best]
            if firsts == [kt]:
                second = S[order[1]]
                return [k for k in range(N) if S[k] == second and k != kt]
            # Ties: whichever of the equally good is taken as the best
            others = [k for k in firsts if k != kt]
            if kt in firsts: return [k for k in range(N) if k != kt] \
                if len(others) == 0 else others
            return others
    ser = Serial(S0.X, S1.X, lab.mins, lab.maxs, F, bases, CR)
    # A target that was replaced had the challenger that took its place, one
    # that was kept a challenger that did not
    new = {k: (key(S1.X[k]), S1.S[k]) for k in range(N)
           if not np.array_equal(S0.X[k], S1.X[k]) or S0.S[k] != S1.S[k]}
    cands = []
    for call in g.calls:
        mine = (key(call.values), call.sse)
        fit = [k for k in range(N)
               if new.get(k, mine) == mine and ser.fits(call.values, k)]
        if not fit:
            return sim.violate(
                "not-serial", "generation %d: evaluated vector %s cannot come from "
                "serial differential evolution on any target" % (
                    g.k, list(call.values)))
        cands.append(fit)
        sim.evaluations += 1
    for k in new:
        if not any(k in fit for fit in cands):
            return sim.violate(
                "winner-not-serial", "generation %d: the new member %d, %s, cannot "
                "come from serial differential evolution on that target" % (
                    g.k, k, list(S1.X[k])))
    m = matching(cands, N)
    if any(x is None for x in m):
        return sim.violate(
            "no-assignment", "generation %d: the %d evaluated vectors cannot be assigned "
            "to different targets" % (g.k, len(cands)))
    if new: sim.probes["generations-with-replacement"] += 1
    sim.probes["generations"] += 1
    if allDeferred: sim.probes["generations-deferred"] += 1
    elif allSync: sim.probes["generations-immediate"] += 1
    else: sim.probes["generations-mixed"] += 1
