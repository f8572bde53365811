"""
C05: the differential weight adapts between generations, within its limits.
"""
import math

import numpy as np

from ..world import standard, Scripted
from ..fmodel import FModel, classify
from ..serial import Serial, matching, forced
from .c04 import first

RUNS = {"quick": 1200, "thorough": 40000}
RULE = ("Runs with scripted or natural success of the generations and seeded delays; "
        "the F used is inferred from every evaluated vector and compared with a "
        "reference model of the adaptation. A run is non-trivial if F was judged "
        "away from its configured setting or over at least three generations.")
REAL = ["ade.de", "ade.population", "ade.individual", "ade.report",
        "ade.history", "asynqueue.DeferredTracker", "twisted Deferred/locks/task"]
STUB = ["reactor and clock (virtual)", "evaluation function", "report callbacks",
        "stdin"]
ASSUMPTIONS = ["population sizes 5-8 (now and then 4-34), at most 25 generations per run",
               "whether a generation with only marginal improvement raises or lowers "
               "F is left open, as the program decides it by chance",
               "that a range of F is used to its full extent is tested statistically "
               "per run with error probability below 1e-11"]


def scenario(sim):
    c = sim.c
    lab = standard(sim, nd=(3, 2, 4), np_=(5, 6, 8), invalid=c.chance("cfg.inv", 0.2),
                   lands=("worsening", "sphere", "quantised", "corner", "zero"),
                   latencies=(0, 2, 1, 3, 4, 7), constraints=0.1,
                   targetFraction=c.of("cfg.tf", (None, 0.1, 0.3)))
    if c.chance("cfg.scripted", 0.7):
        lab.ev.land = Scripted(lab, c.of("cfg.script", (
            [6, 1, 1, 0, 1], [2, 2, 1, 0, 1], [30, 1, 1, 1, 1], [20, 1, 0, 0, 0],
            [1, 1, 0, 0, 0])))
    box = lab.setup()
    if sim.run(lambda: box["fired"]) != "done" or box["result"] is not True:
        sim.nontrivial = False
        return
    moved = False
    for run in range(1 + c.pick("cfg.runs", 2)):
        moved |= bool(one(sim, lab))
        if sim.found: return
    sim.nontrivial = moved


def one(sim, lab):
    c = sim.c; p = lab.p
    F = c.of("cfg.F", (0.8, 0.5, (0.5, 1.0), (0.4, 0.9), (0.0, 1.0), 0.35, (0.3, 0.5),
                      (0.3, 1.0), (0.2, 1.0), (0.26, 0.9)))
    CR = c.of("cfg.CR", (0.8, 0.3, 1.0, 0.5))
    adaptive = not c.chance("cfg.fixed", 0.15)
    bitter = c.chance("cfg.bitter", 0.5)
    M = c.of("cfg.M", (12, 25, 6, 3))
    model = FModel(F, CR, p.Np, adaptive, bitter, 5, first(lab))
    draws = []
    info = {"moved": False, "n": 0, "lost": False}
    top = model.high0

    def judge(g):
        if info["lost"] or not model.states: return
        X0, X1 = g.start.X, g.end.X
        N = len(X0)
        vs = [x.values for x in g.calls]
        info["n"] += 1
        wide = Serial(X0, X1, lab.mins, lab.maxs, (0.0, 1.0 if top <= 1 else top))
        keep = []
        for s in model.states:
            Fx = (s.low, s.high) if model.seq else s.low
            ser = Serial(X0, X1, lab.mins, lab.maxs, Fx)
            if all(any(ser.fits(v, k) for k in range(N)) for v in vs):
                keep.append(s)
        sim.evaluations += len(vs)
        if not keep:
            if not all(any(wide.fits(v, k) for k in range(N)) for v in vs):
                info["lost"] = True     # not differential evolution: for C01
                return
            used = []
            for v in vs:
                Fs = []
                for k in range(N): wide.fits(v, k, Fs)
                Fs = sorted({round(a, 4) for a, b in Fs if b - a < 1e-6})
                used.append(Fs[:4])
            return sim.violate(
                "wrong-F", "generation %d (configured F %r, adaptive %s): challengers used "
                "F among %s, but F should be %s" % (
                    g.k, F, adaptive, used, [repr(s) for s in model.states[:4]]))
        model.states = keep
        if any(s.low < model.low0 or s.high < model.high0 for s in keep):
            info["moved"] = True
            sim.probes["F-lowered"] += 1
        if model.seq and len(keep) == 1 and keep[0].high - keep[0].low > 1e-3:
            # Where target and F are certain, note where in the range F was
            s = keep[0]
            ser = Serial(X0, X1, lab.mins, lab.maxs, (0.0, 1.0))
            for v in vs:
                Fs = []
                for k in range(N): ser.fits(v, k, Fs)
                if len(Fs) == 1 and Fs[0][1] - Fs[0][0] < 1e-6:
                    f = 0.5*(Fs[0][0] + Fs[0][1])
                    u = (f - s.low) / (s.high - s.low)
                    draws.append(min(max(u, 1e-9), 1 - 1e-9))
        model.states, stop = model.after(classify(g, p.Np, p.targetFraction*p.Np))
        lab.cfg["judged"] = True
        if len(model.states) > 1: sim.probes["ambiguous"] += 1

    lab.genHooks[:] = [lambda kg, g: judge(g)]
    # The same list is given to every run with that range
    if isinstance(F, tuple): given = lab.cfg.setdefault(("F", F), list(F))
    else: given = F
    rb = lab.startDE(F=given, CR=CR, maxiter=M,
                     adaptive=adaptive, bitterEnd=bitter,
                     randomBase=c.of("cfg.base", (False, True, 0.5)))
    how = sim.run(lambda: rb["fired"])
    if sim.found or how != "done" or rb["failure"]: return
    lab.closeGen()
    if lab.gens[-1].calls:
        judge(lab.gens[-1])
        lab.cfg["judged"] = True
    if sim.found: return
    if len(draws) >= 15:
        from scipy import stats
        sim.probes["range-statistics"] += 1
        n = len(draws)
        for xs, what in (([-math.log(1-u) for u in draws], "upper"),
                         ([-math.log(u) for u in draws], "lower")):
            if stats.gamma.sf(sum(xs), n) < 1e-11:
                return sim.violate(
                    "range-unused", "F was drawn %d times always from the %s part of its "
                    "range, fractions %.3f to %.3f" % (n, what, min(draws), max(draws)))
    return info["moved"] or info["n"] >= 3
