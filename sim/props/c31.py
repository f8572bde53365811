"""
C31: initial candidates are drawn as Latin hypercubes.
"""
import math

import numpy as np

from ..world import standard

RUNS = {"quick": 2500, "thorough": 60000}
RULE = ("Up to three setups of one population with seeded delays, completion orders, shares "
        "of invalid results and of candidates that fail the constraints, some with uniform "
        "variates or without evaluations; all candidates drawn are judged in blocks of the "
        "population's size. A run is non-trivial if at least one block was complete.")
REAL = ["ade.population", "ade.individual", "ade.report", "ade.history", "pyDOE",
        "asynqueue.DeferredTracker", "twisted Deferred/locks/task"]
STUB = ["reactor and clock (virtual)", "evaluation function", "report callbacks", "stdin"]
ASSUMPTIONS = ["population sizes 4-40, 1-10 parameters", "order of candidates is that in "
               "which constraints judge them or, without any, their evaluations start",
               "values within 1e-7 of the limit between two parts count for either"]


def parts(U, N):
    """
    Numbers of the parts of the unit range, column by column, or None where it is too
    close to tell.
    """
    X = U*N
    if np.any(np.abs(X - np.round(X)) < 1e-7): return
    return np.floor(X).astype(int)


def tighten(lab):
    """A constraint that few candidates satisfy."""
    c = lab.sim.c
    share = c.of("cfg.share", (0.3, 0.1, 0.04))
    name = lab.names[0]
    limit = lab.mins[0] + share*(lab.maxs[0] - lab.mins[0])
    def tight(d):
        good = d[name] < limit
        lab.sim.guard(lab.constraintCalls.append, (lab.sim.reactor.now, dict(d), good))
        return good
    lab.constraint = tight
    lab.p.setConstraints(tight)


def scenario(sim):
    c = sim.c
    lab = standard(sim, np_=(6, 5, 9, 16, 24, 40), constraints=0.4, complaint=lambda i, x: None)
    if lab.constraint is None and c.chance("cfg.tight", 0.25): tighten(lab)
    p = lab.p; ev = lab.ev; N = lab.Np
    from ade.population import Population
    Population.N_maxParallel = c.of("cfg.par", (12, 1, 3, 40))
    mins = np.array(lab.mins, float); scale = np.array(lab.maxs, float) - mins
    sim.nontrivial = False
    former = None
    for k in range(1 + c.pick("cfg.setups", 3)):
        n0 = len(ev.calls); m0 = len(lab.constraintCalls)
        uniform = c.chance("cfg.uniform", 0.2)
        blank = c.chance("cfg.blank", 0.15)
        box = lab.setup(uniform=uniform, blank=blank)
        how = sim.run(lambda: box["fired"], maxSteps=30000)
        if sim.found or how != "done" or box["result"] is not True: return
        if lab.constraint:
            V = [[x[1][n] for n in lab.names] for x in lab.constraintCalls[m0:]]
            # The population evaluates, or has, those that passed
            good = [v for v, x in zip(V, lab.constraintCalls[m0:]) if x[2]]
        else: V = good = None
        got = [list(i.values) for i in p] if blank else [list(x.values) for x in ev.calls[n0:]]
        if good is None: V = got
        elif not len(good) == len(got) or not np.allclose(good, got, rtol=1e-9, atol=0):
            return sim.violate("other", "candidates evaluated aren't those that passed the "
                               "constraints")
        sim.evaluations += 1
        U = (np.array(V, float) - mins)/scale
        if U.min() < -1e-9 or U.max() > 1 + 1e-9:
            return sim.violate("outside", "candidate drawn is out of bounds")
        if former is not None and np.array_equal(U[0], former[0]):
            return sim.violate("again", "setup draws the same candidates as the one before")
        former = U
        if len({tuple(v) for v in V}) < len(V):
            return sim.violate("twice", "same candidate drawn twice in one setup")
        hyper = 0
        for k0 in range(0, len(U) - N + 1, N):
            B = parts(U[k0:k0+N], N)
            if B is None: continue
            sim.evaluations += 1
            sim.nontrivial = True
            full = [sorted(B[:,j]) == list(range(N)) for j in range(lab.Nd)]
            if uniform:
                hyper += all(full)
                continue
            if not all(full):
                j = full.index(False)
                n = len(set(B[:,j]))
                return sim.violate("hypercube", "candidates %d to %d are in %d of %d parts of "
                                   "the range of parameter %d" % (k0, k0+N-1, n, N, j))
            # Parameters go their own ways
            if N >= 15:
                for a in range(lab.Nd):
                    for b in range(a):
                        if np.array_equal(B[:,a], B[:,b]) or np.array_equal(B[:,a], N-1-B[:,b]):
                            return sim.violate("together", "parameters %d and %d have the "
                                               "same order of values" % (b, a))
        if len(U) % N and not uniform:
            # An incomplete block has no two in the same part
            k0 = len(U) - len(U) % N
            B = parts(U[k0:], N)
            if B is not None:
                sim.evaluations += 1
                for j in range(lab.Nd):
                    if len(set(B[:,j])) < len(B):
                        return sim.violate("hypercube", "two of the last %d candidates are in "
                                           "the same part" % len(B))
        if uniform:
            # Chance of a hypercube is N!/N**N per parameter and block
            e = lab.Nd*(math.lgamma(N+1) - N*math.log(N))/math.log(10)
            if hyper and hyper*e < -12:
                return sim.violate("uniform", "Latin hypercube though uniform variates were "
                                   "asked for")
            # Halves of each range by and large equally often
            n = len(U)
            for j in range(lab.Nd):
                m = int(np.sum(U[:,j] < 0.5))
                # Probability below 1e-11
                if 2*10**11*sum(math.comb(n, x) for x in range(min(m, n-m)+1)) < 2**n:
                    return sim.violate("uneven", "%d of %d uniform variates of parameter %d in "
                                       "the lower half" % (m, n, j))
