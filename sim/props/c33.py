"""
C33: challengers are mixed at the configured crossover rate, with weights drawn
uniformly from the configured range.
"""
import math

import numpy as np

from ..world import standard, INF
from .c27 import improbable

RUNS = {"quick": 500, "thorough": 8000}
RULE = ("Many generations of challengers that never win, with a tiny differential weight (or "
        "range of it), so that each challenger shows which of its values are mutated, and at a "
        "crossover rate of one also its weight. The combinations of mutated parameters and "
        "the weights are compared by chi-square tests, with a chance of a false alarm below "
        "1e-8 for each, with what is configured. A run is non-trivial if at least 150 "
        "challengers could be told apart.")
REAL = ["ade.de", "ade.population", "ade.individual", "ade.report", "ade.history"]
STUB = ["reactor and clock (virtual)", "evaluation function", "report callbacks", "stdin"]
ASSUMPTIONS = ["weights around 1e-7, not adapted, judged only where rounding changes them by less than 5e-6", "2-4 parameters, 6-20 members"]


def scenario(sim):
    c = sim.c
    lab = standard(sim, nd=(2, 3, 4), np_=(6, 9, 12, 20), big=0, lands=("worsening",),
                   latencies=(1, 2, 4, 7, 5), invalid=False)
    ev = lab.ev; p = lab.p
    ev.mustDefer = True
    n = lab.Nd
    scale = np.array(lab.maxs) - np.array(lab.mins)
    lo = 1e-7*(1 + c.frac("cfg.lo"))
    hi = lo*(1.0 + 3.0*c.frac("cfg.span")) if c.chance("cfg.range", 0.7) else lo
    CR = c.of("cfg.CR", (1.0, 0.8, 0.5, 0.2, 1.0, 0.0, 0.65, 0.35, 0.95, 0.1))
    if c.chance("cfg.any", 0.2): CR = c.frac("cfg.rate")
    # A longer run now and then, for weights only somewhat out of balance
    long = c.chance("cfg.long", 0.06)
    if long:
        CR = 1.0
        hi = lo*(2.0 + 2.0*c.frac("cfg.span2"))
    # What rounding of the values makes of a weight, relative to it
    size = np.maximum(np.abs(lab.mins), np.abs(lab.maxs))
    res = 2.3e-16*float(np.max(size/scale))/lo
    masks = [0]*(1 << n)
    st = {"unclear": 0, "F": [], "gen": [], "seen": 0, "full": 0, "misfit": 0, "alike": 0}

    def started(call):
        if sim.found or call.phase != "evolve": return
        X = np.array([np.array(i.values, dtype=float) for i in p])
        x = np.array(call.values, dtype=float)
        st["seen"] += 1
        # Values that aren't mutated are exactly those of the target
        same = X == x
        kept = [k for k in range(n) if np.any(same[:,k])]
        targets = [t for t in range(len(p)) if all(same[t,k] for k in kept)]
        mutated = [k for k in range(n) if k not in kept]
        if kept and len(targets) != 1:
            st["unclear"] += 1
            return
        if not mutated:
            # Even the smallest differences make some, unless out of sight
            st["unclear"] += 1
            return
        masks[sum(1 << k for k in mutated)] += 1
        if kept or res > 5e-6: return
        d = np.max(np.abs(X - x)/scale, axis=1)
        near = np.flatnonzero(d < 3e-6)
        if len(near) != 1: return
        # One weight for all of the parameters
        v = (x - X[near[0]])/scale
        D = (X[:,None,:] - X[None,:,:])/scale
        norm = np.sum(D*D, axis=2)
        np.fill_diagonal(norm, 1.0)
        F = np.sum(D*v, axis=2)/norm
        err = np.max(np.abs(v - F[:,:,None]*D), axis=2)/hi
        err[(F < 0.9*lo) | (F > 1.1*hi)] = INF
        np.fill_diagonal(err, INF)
        best = np.argsort(err, axis=None)[:2]
        e0, e1 = err.flat[best]
        st["full"] += 1
        if e0 > 1e-4: st["misfit"] += 1
        # The shorter the difference the less exact the weight
        if e0 > max(1e-6, 2*res) or e1 < 1e-4 or norm.flat[best[0]] < 0.0025: return
        st["gen"].append(float(F.flat[best[0]]))
    ev.hooks.append(started)

    def generation(kg, g):
        if len(st["gen"]) > 3 and hi > 1.5*lo:
            sim.evaluations += 1
            if max(st["gen"]) - min(st["gen"]) < 2e-4*hi:
                st["alike"] += 1
        st["F"] += st["gen"]
        st["gen"] = []
    lab.genHooks.append(generation)

    box = lab.setup()
    if sim.run(lambda: box["fired"]) != "done" or box["result"] is not True:
        sim.nontrivial = False
        return
    run = lab.startDE(CR=CR, F=(lo, hi) if hi > lo else lo, maxiter=(2600 if long else 360)//len(p) + 10,
                      adaptive=False, bitterEnd=True,
                      randomBase=c.of("cfg.base", (True, 0.5, False)))
    sim.maxSteps = 1000000
    if sim.run(lambda: run["fired"]) != "done": return
    if sim.found: return
    N = sum(masks)
    sim.evaluations += N
    sim.nontrivial = N >= 150
    if st["unclear"] > 0.02*st["seen"]:
        sim.probes["unclear"] += 1
        return
    probs = [0.0]*(1 << n)
    for m in range(1, 1 << n):
        k = bin(m).count("1")
        # One of them is the one always mutated
        probs[m] = k/n * CR**(k - 1) * (1.0 - CR)**(n - k)
    what = improbable(masks, probs)
    if what:
        return sim.violate("crossover", "combinations of mutated parameters at a rate of %g: "
                           "%s" % (CR, what.replace("rank", "combination")))
    F = st["F"]
    if st["full"] > 20 and st["misfit"] > 0.1*st["full"]:
        return sim.violate("misfit", "%d of %d challengers are no base plus a difference of "
                           "two members times one weight" % (st["misfit"], st["full"]))
    if len(F) < 60: return
    sim.probes["weights-judged"] += 1
    sim.evaluations += 1
    if hi <= lo:
        worst = max(F, key=lambda f: abs(f - lo))
        if abs(worst - lo) > 1e-3*lo:
            sim.violate("weight", "weight %g instead of %g" % (worst, lo))
        return
    worst = max(F, key=lambda f: max(f - hi, lo - f))
    if max(worst - hi, lo - worst) > 1e-3*hi:
        return sim.violate("weight", "weight %g, outside of %g to %g" % (worst, lo, hi))
    if hi < 1.01*lo: return
    if st["alike"] > 3:
        return sim.violate("alike", "the same weight for a whole generation, %d times" %
                           st["alike"])
    # Halves of the range by and large equally often, probability below 1e-11
    N = len(F); m = sum(f < 0.5*(lo + hi) for f in F)
    if 2*10**11*sum(math.comb(N, x) for x in range(min(m, N-m)+1)) < 2**N:
        return sim.violate("uneven", "%d of %d weights in the lower half of the range" % (m, N))
    bins = [0]*8
    for f in F: bins[min(7, max(0, int(8*(f - lo)/(hi - lo))))] += 1
    what = improbable(bins, [0.125]*8)
    if what:
        sim.violate("weights", "weights in eighths of the range: %s" %
                    what.replace("ranks ", ""))
