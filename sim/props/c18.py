"""
C18: early cutoff gives each challenger its own target's SSE.
"""
import numpy as np

from ..world import standard, INF, key
from ..serial import Serial, matching
from .c14 import rec, query

RUNS = {"quick": 2500, "thorough": 60000}
RULE = ("Setup and one to three runs with and without early cutoff, under seeded delays, "
        "with an evaluation function that stops at a seeded partial SSE above the limit; "
        "the limits given must be attributable, one to one, to the targets. A run is "
        "non-trivial if a generation with early cutoff was judged.")
REAL = ["ade.de", "ade.population", "ade.individual", "ade.report",
        "ade.history", "asynqueue.DeferredTracker", "twisted Deferred/locks/task"]
STUB = ["reactor and clock (virtual)", "evaluation function", "report callbacks",
        "stdin"]
ASSUMPTIONS = ["population sizes 5-9 (now and then 4-34), 1-4 parameters (now and then 1-10), at most three runs of 5 generations",
               "which target a challenger belongs to is decided from its vector, up to "
               "what cannot be told apart"]


def scenario(sim):
    c = sim.c
    complain = c.chance("cfg.complain", 0.25)
    lab = standard(sim, nd=(3, 2, 4, 1), np_=(5, 6, 7, 8, 9), constraints=0.15, nmax=0,
                   lands=("sphere", "corner", "ripple", "valley", "steep",
                          "quantised", "worsening", "zero", "huge", "extreme"),
                   latencies=(0, 2, 2, 3, 4, 5, 6, 7, 1), cutoff=True,
                   complaint=(lambda i, x: None) if complain else None)
    ev = lab.ev; p = lab.p
    if complain:
        lab.cbPlan = lambda r: ("complain", "bad") \
            if c.chance("report.complain", 0.2) else None
    st = {"on": False}
    at = {}

    def started(call):
        sim.evaluations += 1
        if call.xSSE is None and not (st["on"] and call.gen is not None): return
        if call.gen is None:
            return sim.violate("setup", "initial evaluation given a limit of %r" % (
                call.xSSE,))
        if not st["on"]:
            return sim.violate("unasked", "evaluation given a limit of %r without early "
                               "cutoff" % (call.xSSE,))
        if call.xSSE is None:
            return sim.violate("none", "challenger in generation %d given no limit" %
                               call.gen.k)
        at[call.n] = [float(i.SSE) for i in p]
    ev.hooks.append(started)

    box = lab.setup(uniform=c.chance("cfg.uniform", 0.3),
                    blank=c.chance("cfg.blank", 0.1))
    if sim.run(lambda: box["fired"]) != "done" or box["result"] is not True:
        sim.nontrivial = False
        return
    cut = []
    for run in range(1 + c.pick("cfg.runs", 3)):
        st["on"] = not c.chance("cfg.off", 0.25)
        F = c.of("cfg.F", (0.8, 0.5, 1.0, 0.3))
        CR = c.of("cfg.CR", (0.8, 0.3, 0.5, 1.0, 0.0))
        n0 = len(ev.calls)
        rb = lab.startDE(
            CR=CR, F=F, maxiter=1 + c.pick("cfg.maxiter", 5), adaptive=False,
            bitterEnd=True, randomBase=c.of("cfg.base", (False, True, 0.5)),
            xSSE=st["on"])
        how = sim.run(lambda: rb["fired"])
        if sim.found or how != "done" or rb["failure"]: return
        lab.closeGen()
        for g in lab.gens:
            if g.closedBy == "end" and not g.calls: continue
            if st["on"]: judge(sim, lab, g, F, CR, at)
            if sim.found: return
        sim.settle()
        cut.extend(x for x in ev.calls[n0:] if x.cut)
        records(sim, lab, cut)
        if sim.found: return
    sim.nontrivial = sim.probes["generations-judged"] > 0


def judge(sim, lab, g, F, CR, at):
    S0, S1 = g.start, g.end
    N = len(S0)
    if len(S1) != N or N < 4: return
    if any(not x.done for x in g.calls): return
    cuts = {(key(x.values), x.sse) for x in g.calls if x.cut}
    whole = {(key(x.values), x.sse) for x in lab.ev.calls if x.done and not x.cut}
    for k in range(N):
        if S0.objs[k] is S1.objs[k]: continue
        kb = (key(S1.X[k]), S1.S[k])
        if kb in cuts - whole:
            return sim.violate("partial", "generation %d: member %d was replaced by a "
                               "challenger cut off at %r" % (g.k, k, S1.S[k]))
    ser = Serial(S0.X, S1.X, lab.mins, lab.maxs, F, None, CR)
    new = {k: (key(S1.X[k]), S1.S[k]) for k in range(N)
           if S0.objs[k] is not S1.objs[k]}
    cands = []
    for x in g.calls:
        fit = []
        for k in range(N):
            if k in new:
                values, sse = new[k]
                if values != key(x.values): continue
                # Infinite if there was a complaint
                if sse < INF and sse != x.sse: continue
            if ser.fits(x.values, k): fit.append(k)
        cands.append(fit)
    if any(t is None for t in matching(cands, N)): return
    sim.probes["generations-judged"] += 1
    strict = []
    for x, fit in zip(g.calls, cands):
        mine = [k for k in fit if same(x.xSSE, at[x.n][k])]
        if len(fit) == 1: sim.probes["targets-certain"] += 1
        if not mine:
            return sim.violate(
                "limit", "generation %d: challenger of %s given a limit of %r, but the SSE "
                "of that is %s" % (g.k, " or ".join(str(k) for k in fit), x.xSSE,
                                   " or ".join(repr(at[x.n][k]) for k in fit)))
        strict.append(mine)
    if any(t is None for t in matching(strict, N)):
        sim.violate("limits", "generation %d: limits %s given do not belong to the targets, "
                    "which have SSEs %s" % (g.k, [x.xSSE for x in g.calls], S0.S))


def same(a, b):
    a = float(a)
    return a == b or (a != a and b != b)


def records(sim, lab, cut):
    """Nothing of the challengers cut off in the history, but every member."""
    p = lab.p
    members = [rec(i.SSE, i.values) for i in p]
    members = [r for r in members if r is not None]
    if not members: return
    fin = []; errs = []
    query(p.history, lab.names, errs, fin.append)
    sim.run(lambda: fin or errs)
    if not fin: return
    got = set(r for rows in fin[0].values() for r in rows)
    there = set(fin[0]["member"])
    whole = {rec(x.sse, x.values) for x in lab.ev.calls
             if x.done and not x.cut and x.sse is not None}
    for x in cut:
        r = rec(x.sse, x.values)
        if r in got and r not in whole:
            return sim.violate("recorded", "challenger cut off at %r is in the history" %
                               x.sse)
        sim.probes["cut"] += 1
    for r in members:
        sim.evaluations += 1
        if r not in there:
            return sim.violate("unrecorded", "member with SSE %r is not in the history "
                               "as one" % r[0])
