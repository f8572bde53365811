"""
C34: the history gives up the most expendable of its records.
"""
import collections, pickle

import numpy as np

from ..world import Lab, INF
from .c14 import NEVER, FORMER, MEMBER, rec, query

RUNS = {"quick": 1500, "thorough": 40000}
RULE = ("Direct operations on a small history, issued without waiting for each other while "
        "its background search is scheduled at random, with a query of all records queued "
        "behind each; whatever an addition displaces is compared with all pairs of the "
        "records that were expendable when its turn came. A run is non-trivial if at least "
        "three displaced records were judged.")
REAL = ["ade.history", "ade.individual", "twisted locks/task"]
STUB = ["reactor and clock (virtual)", "cooperative scheduling of background work (seeded)"]
ASSUMPTIONS = ["history maximum 5-40 records, so that all pairs are considered, never a sample",
               "SSEs from 0.1 to 10000",
               "of the pair either one may go; how much closer records that never were in "
               "the population count is judged within wide limits"]
Counter = collections.Counter
TOL = 1 + 1e-5


def distances(E):
    """Of all pairs of the records, NaN on the diagonal."""
    X = np.array(E, dtype=float)
    S = 1.0/(np.var(X, axis=0) + 1e-20)
    D = np.sum((X[:,None,:] - X[None,:,:])**2 * S, axis=2)
    D /= 0.5*(X[:,None,0] + X[None,:,0])
    np.fill_diagonal(D, np.nan)
    return D


def judge(former, never, lost, wasNever, reserve):
    """None or what is wrong with giving up the record lost."""
    E = former + never
    if len(E) < 2: return None
    D = distances(E)
    nf = len(former)
    k = nf + never.index(lost) if wasNever else former.index(lost)
    mine = float(np.nanmin(D[k]))
    closest = float(np.nanmin(D))
    share = len(never)/len(E)
    among = float(np.nanmin(D[nf:,nf:])) if len(never) > 1 else INF
    if not wasNever:
        if mine > closest*TOL:
            return "not-closest", "a former member at %g from the next record, though there " \
                "is a pair at %g" % (mine, closest)
        if reserve and share >= 0.75 and len(E) >= 8 and among < 5*mine:
            return "reserve", "a former member at %g from the next record, though %d of %d " \
                "records never were in the population, two of them at %g" % (
                    mine, len(never), len(E), among)
        return None
    if mine > among*TOL:
        return "not-closest", "a record that never was in the population at %g from the next " \
            "one, though there are two such at %g" % (mine, among)
    if share <= 0.2 and mine > 2*closest:
        return "not-closest", "one of the few records that never were in the population at " \
            "%g from the next one, though there is a pair at %g" % (mine, closest)
    return None


def scenario(sim):
    c = sim.c
    from ade.history import History
    from ade.individual import Individual
    lab = Lab(sim)
    lab.makeBox(c.of("cfg.nd", (1, 2, 3)))
    p = lab.makePopulation(5, lambda x: 1.0)
    N_max = c.of("cfg.nmax", (10, 5, 7, 15, 25, 40))
    box = {"h": History(lab.names, N_max=N_max)}
    members = []
    # What there was after each operation; answers needn't come in order
    after = [{s: [] for s in (NEVER, FORMER, MEMBER)}]
    what = [None]
    waiting = [0]; judged = [0]
    mostly = c.of("cfg.mostly", (1, 4, 0.3))
    # Whether former members are favoured is judged in a few runs of their own
    reserve = c.chance("cfg.reserve", 0.04)
    spread = c.of("cfg.spread", (1.0, 3.0))

    def make():
        near = c.chance("ind.near", 0.2) and members
        if near:
            # Next to one there is
            j = members[c.pick("ind.whom", len(members))]
            V = [float(v) + 0.01*(hi - lo)*(c.frac("ind.off") - 0.5)
                 for v, (lo, hi) in zip(j.values, lab.bounds)]
            sse = float(j.SSE)*(1 + 0.02*c.frac("ind.off"))
        else:
            V = [lo + (hi - lo)*c.frac("ind.value") for lo, hi in lab.bounds]
            sse = 10**(spread*c.frac("ind.sse"))
        i = Individual(p, V)
        i.SSE = sse
        return i

    def failed(f):
        sim.violate("operation-failed", "history operation failed: %s" % f.getErrorMessage())

    def follow(new=None, status=None):
        """What there is after the operation just issued."""
        waiting[0] += 1
        errs = []
        k = len(after)
        after.append(None); what.append((new, status))
        def done(got):
            waiting[0] -= 1
            after[k] = got
            for j in (k, k+1):
                if not sim.found and j < len(after) and after[j-1] and after[j]:
                    displaced(after[j-1], after[j], *what[j])
        def displaced(before, got, new, status):
            if new is None: return
            n = sum(len(x) for x in before.values())
            if n < N_max: return
            E = {s: Counter(before[s]) for s in before}
            E[status][new] += 1
            gone = {s: list((E[s] - Counter(got[s])).elements()) for s in E}
            if len(gone[NEVER]) + len(gone[FORMER]) != 1 or gone[MEMBER]: return
            wasNever = bool(gone[NEVER])
            r = (gone[NEVER] or gone[FORMER])[0]
            if r not in before[NEVER if wasNever else FORMER]: return
            judged[0] += 1
            sim.evaluations += 1
            sim.probes["gave-up-%s" % (NEVER if wasNever else FORMER)] += 1
            bad = judge(before[FORMER], before[NEVER], r, wasNever, reserve)
            if bad:
                sim.violate(bad[0], "%s (%s at most %d records)" % (bad[1], "history of", N_max))
        query(box["h"], lab.names, errs, lambda got: sim.guard(done, got))
        if errs: sim.violate("query-failed", "query failed: %s" % errs[0])

    def rest():
        return sim.run(lambda: not waiting[0]) == "done"

    for k in range(30 + c.pick("cfg.ops", 120)):
        h = box["h"]
        op = c.weighted("op", [3, 3*mostly, 3, 0.1, 0.1, 2, 0.3, 0.3])
        sim.mark("o%d" % op)
        if op == 2 and not members: op = 0
        if op == 0 and len(members) >= N_max//2: op = 2
        if op in (0, 1):
            i = make()
            r = rec(i.SSE, i.values)
            sim.note(("add", "add-never")[op], r)
            if op == 0: members.append(i)
            h.add(i, neverInPop=bool(op)).addErrback(failed)
            follow(r, (MEMBER, NEVER)[op])
        elif op == 2:
            i = members.pop(c.pick("op.member", len(members)))
            sim.note("not-in-pop", float(i.SSE))
            h.notInPop(i).addErrback(failed)
            follow()
        elif op == 3:
            sim.note("purge-pop")
            del members[:]
            h.purgePop().addErrback(failed)
            follow()
        elif op == 4:
            sim.note("clear")
            del members[:]
            h.clear().addErrback(failed)
            # Nothing to be asked for
            i = make(); members.append(i)
            h.add(i).addErrback(failed)
            follow()
        elif op == 5:
            for j in range(1 + c.pick("op.steps", 12)):
                if not sim.step(): break
        elif op == 6:
            if not rest(): return
        elif op == 7:
            if not rest(): return
            sim.note("pickle")
            box["h"] = pickle.loads(pickle.dumps(h))
            sim.faults["reload"] += 1
        if sim.found: return
    rest()
    sim.nontrivial = judged[0] >= 3
