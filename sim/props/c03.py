"""
C03: every generation challenges each member exactly once.
"""
import collections

import numpy as np

from ..world import standard, makeConstraint, INF, key
from ..serial import Serial, matching

RUNS = {"quick": 2500, "thorough": 60000}
RULE = ("Setup and a run of several generations with slow report callbacks, small "
        "history and constraints; counts and order of evaluations, generation "
        "callbacks, report callbacks and history updates are judged. A run is "
        "non-trivial if at least two generations were completed.")
REAL = ["ade.de", "ade.population", "ade.individual", "ade.report",
        "ade.history", "asynqueue.DeferredTracker", "twisted Deferred/locks/task"]
STUB = ["reactor and clock (virtual)", "evaluation function", "report callbacks",
        "stdin", "cooperative scheduling of background work (seeded)"]
ASSUMPTIONS = ["population sizes 5-9 (now and then 4-34), 2-4 parameters (now and then 1-10), at most 7 generations"]


def scenario(sim):
    c = sim.c
    from ade.history import History
    small = c.chance("cfg.smallhist", 0.5)
    if small: History.N_max = 14 + c.pick("cfg.nmax", 20)
    lab = standard(sim, constraints=0.35, nmax=0, big=0 if small else 0.05, modes=(2, 3, 1, 0),
                   lands=("sphere", "corner", "ripple", "valley", "steep",
                          "quantised", "worsening", "zero", "huge", "extreme"))
    ev = lab.ev
    p = lab.p
    box = lab.setup(uniform=c.chance("cfg.uniform", 0.3), blank=c.chance("cfg.blank", 0.06))
    if sim.run(lambda: box["fired"]) != "done" or box["result"] is not True:
        sim.nontrivial = False
        return
    F = c.of("cfg.F", (0.8, 0.5, (0.5, 1.0)))
    M = 1 + c.pick("cfg.maxiter", 7)
    goal = None
    if c.chance("cfg.goal", 0.3):
        goal = min(float(i.SSE) for i in p) * c.of("cfg.goalf", (0.9, 0.5, 0.2))
    marks = {"gen": None, "nextOpen": True}
    adaptive = c.chance("cfg.adaptive", 0.3)
    change = c.of("cfg.change", (0.0, 0.0, 0.3))

    def started(call):
        if call.phase != "evolve": return
        if call.gen is marks["gen"]: return
        # First evaluation of a generation
        marks["gen"] = call.gen
        sim.evaluations += 1
        if lab.openReports:
            sim.violate("reports-open", "generation %d began while a report callback "
                        "was still running" % call.gen.k)
        if ev.flying:
            sim.violate("evals-open", "generation %d began while %d earlier evaluations "
                        "were undecided" % (call.gen.k, ev.flying))
        d = p.history.value_vs_SSE([lab.names[0]], inPop=True, maxRatio=INF)
        got = []
        d.addCallbacks(got.append, lambda f: None)
        if not d.called:
            return sim.violate("history-open", "generation %d began while history updates "
                               "were pending" % call.gen.k)
        if got:
            # All updates applied: nobody is missing (who else is there is C14's)
            have = collections.Counter(float(x) for x in got[0][0])
            want = collections.Counter(
                float(np.float32(i.SSE)) for i in p if float(i.SSE) < 1e38)
            if want - have:
                sim.violate("history-stale", "generation %d began with the history showing "
                            "members with SSEs %s instead of %s" % (
                                call.gen.k, sorted(have.elements()),
                                sorted(want.elements())))
        if len(p.history) >= p.history.N_max: sim.probes["history-full"] += 1
    ev.hooks.append(started)

    def ended(kg, g):
        sim.evaluations += 1
        if kg != g.k:
            sim.violate("callback-number", "generation callback called with %r after "
                        "generation %d" % (kg, g.k))
        if ev.flying:
            sim.violate("callback-early", "generation callback %r called with %d "
                        "evaluations undecided" % (kg, ev.flying))
        count(sim, lab, g, F)
        if goal is not None and min(g.end.S) < goal:
            sim.violate("callback-ending", "generation callback called with %r after the "
                        "generation that met the goal" % kg)
        if c.chance("cons.change", change):
            # Other constraints from now on, or none
            if lab.constraint is not None: lab.constraint.inForce = False
            if c.chance("cons.none", 0.4):
                lab.constraint = None
                p.setConstraints()
            else: p.setConstraints(makeConstraint(lab, c.pick("cons.kind", 3)))
            sim.probes["constraints-changed"] += 1
    lab.genHooks.append(ended)

    lab.adaptiveF = adaptive
    rb = lab.startDE(
        CR=c.of("cfg.CR", (0.8, 0.3, 1.0, 0.5)), maxiter=M,
        F=list(F) if isinstance(F, tuple) else F, goalSSE=goal,
        adaptive=adaptive, bitterEnd=not adaptive, dwellByGrave=c.pick("cfg.dwell", 3),
        randomBase=c.of("cfg.base", (False, True, 0.5)))
    how = sim.run(lambda: rb["fired"])
    sim.nontrivial = len(lab.genCalls) >= 2
    if sim.found or how != "done" or rb["failure"]: return
    lab.closeGen()
    g = lab.gens[-1]
    if g.calls or ev_rejections(lab, g):
        # Ended by its own generation, before the callback: only the goal can, or
        # stagnation
        count(sim, lab, g, F)
        if (goal is None or min(g.end.S) >= goal) and not adaptive:
            sim.violate("callback-missing", "no generation callback after generation %d "
                        "of %d" % (g.k, M))
    elif len(lab.genCalls) != M:
        sim.violate("callback-count", "%d generation callbacks in a run of %d generations"
                    % (len(lab.genCalls), M))
    sim.evaluations += 1


def ev_rejections(lab, g):
    return [d for t, d, ok, k, valid in lab.constraintCalls
            if k == g.k and not ok and valid]


def count(sim, lab, g, F):
    N = lab.p.Np
    n = len(g.calls)
    rej = ev_rejections(lab, g)
    distinct = len({key([d[x] for x in lab.names]) for d in rej})
    if n + len(rej) < N:
        return sim.violate("too-few", "generation %d: %d evaluations and %d rejections for "
                           "%d members" % (g.k, n, len(rej), N))
    if n + distinct > N:
        return sim.violate("too-many", "generation %d: %d evaluations and %d rejections for "
                           "%d members" % (g.k, n, distinct, N))
    # Each evaluated vector the challenger of a different member
    S0, S1 = g.start, g.end
    if lab.adaptiveF: F = (0.0, max(F) if isinstance(F, tuple) else F)
    ser = Serial(S0.X, S1.X, lab.mins, lab.maxs, F)
    cands = []
    for call in g.calls:
        fit = [k for k in range(N) if ser.fits(call.values, k)]
        if not fit: return          # not serial at all: for C01 to judge
        cands.append(fit)
    if any(x is None for x in matching(cands, N)):
        sim.violate("same-target", "generation %d: the %d evaluated vectors cannot have "
                    "had different targets" % (g.k, n))
    sim.evaluations += n
