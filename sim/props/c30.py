"""
C30: setup and generations keep evaluations running in parallel.
"""
import math

from ..world import standard

RUNS = {"quick": 900, "thorough": 20000}
LIVENESS = True
RULE = ("Setup and a run of 3 to 30 generations in which no evaluation is answered before the "
        "program has come to rest, and then only some at a time, in seeded order, while "
        "report callbacks may be held up. At each rest the evaluations in flight are counted. "
        "A run is non-trivial if at least ten generations were judged or report callbacks "
        "were held up.")
REAL = ["ade.de", "ade.population", "ade.individual", "ade.report", "ade.history",
        "asynqueue.DeferredTracker", "twisted Deferred/locks/task"]
STUB = ["reactor and clock (virtual)", "evaluation function", "report callbacks", "stdin"]
ASSUMPTIONS = ["population sizes 5-40", "no constraints", "that challenges overlap is tested "
               "statistically: the number of evaluations in flight of a run's generations, on "
               "average, against that of a model of the locking, at 7 standard deviations"]


# Of evaluations in flight when none of the generation has been answered yet: average and
# standard deviation if a challenge waits for those before it that have one of its members
# as target, and for those that are waiting and have a member in common with it
FLYING = {20: (3.587, 1.492), 30: (5.018, 1.864), 40: (6.498, 2.215)}
GENS = {20: 30, 30: 22, 40: 16}


def scenario(sim):
    c = sim.c
    many = c.chance("cfg.many", 0.5)
    lab = standard(sim, np_=(20, 30, 40) if many else (5, 6, 9), big=0, nmax=0.1, latencies=(1, 2),
                   reporters=False, complaint=lambda i, x: None)
    ev = lab.ev; p = lab.p
    limit = c.of("cfg.parallel", (12, 1, 2, 3, 5, 40))
    p.N_maxParallel = limit
    for k in range(c.pick("cfg.reporters", 3)):
        lab.addReporter(c.of("cfg.cbmode", (2, 0, 1, 3)))
    hold = bool(lab.cbModes) and c.chance("cfg.hold", 0.5)
    ev.freeze()

    def rest():
        """Until nothing more happens by itself."""
        t = None
        while not sim.found:
            if sim.outside == 0:
                if t is None: t = sim.reactor.now; n = 0
                if sim.reactor.now > t + 5.0 and n > 40: return
            else: t = None; n = 0
            if not sim.step(): return
            n += 1

    def answer(n):
        """Answers n of the evaluations in flight."""
        for k in range(n):
            if not ev.held: return
            call = ev.held.pop(c.pick("answer.which", len(ev.held)))
            ev.frozen = False
            ev._fire(call)
            ev.frozen = True

    sim.nontrivial = False
    if hold: lab.frozenCallbacks = True
    box = lab.setup(uniform=c.chance("cfg.uniform", 0.3))
    while not box["fired"]:
        rest()
        if sim.found or box["fired"]: break
        sim.evaluations += 1
        started = len(ev.calls)
        if started < lab.Np and ev.flying != limit:
            return sim.violate("setup", "%d evaluations in flight in setup, of %d started, "
                               "maximum is %d%s" % (
                                   ev.flying, started, limit, ", report callbacks under way"
                                   if lab.openReports else ""))
        if not ev.flying:
            return sim.violate("setup", "setup is held up with no evaluation in flight")
        if started > 400: return
        answer(1 + c.pick("answer.n", 4))
    if sim.found or box["result"] is not True: return
    if hold:
        lab.frozenCallbacks = False
        lab.releaseReports()
        rest()
        lab.frozenCallbacks = True
    G = GENS.get(lab.Np, 3)
    CR = c.of("cfg.CR", (0.8, 0.3, 1.0))
    rb = lab.startDE(CR=CR, F=c.of("cfg.F", (0.8, (0.3, 0.9))), maxiter=G, adaptive=False,
                     bitterEnd=True, randomBase=True)
    gen = None; counts = []
    if hold: sim.nontrivial = True
    for turn in range(20*G + 2*lab.Np*G):
        rest()
        if sim.found or rb["fired"]: break
        g = lab.gens[-1]
        sim.evaluations += 1
        if not ev.flying:
            if not lab.heldReports:
                return sim.violate("stuck", "run is held up with nothing going on")
            # All of the generation must have been done, report callback or not
            n = len(g.calls)
            if n not in (0, lab.Np):
                return sim.violate("reports", "%d of %d evaluations of the generation not "
                                   "started while a report callback is under way" % (
                                       lab.Np - n, lab.Np))
            sim.probes["report-held"] += 1
            lab.frozenCallbacks = False
            lab.releaseReports()
            rest()
            lab.frozenCallbacks = hold
            continue
        if g is not gen:
            gen = g
            counts.append(ev.flying)
        if many: answer(ev.flying)
        else: answer(1 + c.pick("answer.n", 6))
    if sim.found: return
    if not rb["fired"] or rb["failure"]: return
    if many:
        sim.nontrivial = True
        n = len(counts)
        if n < 10: return
        mean, sd = FLYING[lab.Np]
        sim.evaluations += 1
        sim.probes["flying"] += sum(counts); sim.probes["expected"] += int(mean*n)
        if sum(counts)/n < mean - 7.0*sd/math.sqrt(n):
            return sim.violate("serial", "%.1f evaluations in flight on average when none of "
                               "the generation has been answered, expected %.1f (%d "
                               "generations, population of %d)" % (
                                   sum(counts)/n, mean, n, lab.Np))
