"""
C04: runs stop exactly at iteration limit, goal SSE or lasting stagnation.
"""
from ..world import standard, Scripted
from ..fmodel import FModel, classify

RUNS = {"quick": 4000, "thorough": 80000}
RULE = ("Runs with scripted or natural success of the generations, seeded delays, "
        "all combinations of stop settings; the generation after which each run "
        "ended is compared with a reference model of the stop rule. A run is "
        "non-trivial if it had at least three generations.")
REAL = ["ade.de", "ade.population", "ade.individual", "ade.report",
        "ade.history", "asynqueue.DeferredTracker", "twisted Deferred/locks/task"]
STUB = ["reactor and clock (virtual)", "evaluation function", "report callbacks",
        "stdin"]
ASSUMPTIONS = ["population sizes 5-9 (now and then 4-34), at most 45 generations per run",
               "whether a generation with only marginal improvement counts as "
               "sufficient is left open, as the program decides it by chance"]


def scenario(sim):
    c = sim.c
    lab = standard(sim, nd=(2, 3), np_=(5, 6, 8), invalid=c.chance("cfg.inv", 0.2),
                   lands=("worsening", "worsening", "sphere", "quantised", "corner", "zero"),
                   latencies=(0, 2, 1, 3, 4, 7), constraints=0.1,
                   targetFraction=c.of("cfg.tf", (None, 0.1, 0.3)))
    ev = lab.ev
    if c.chance("cfg.scripted", 0.6):
        ev.land = Scripted(lab, c.of("cfg.script", (
            [30, 1, 1, 1, 1], [8, 1, 1, 0, 1], [1, 1, 1, 1, 1], [20, 1, 0, 0, 0])))
    box = lab.setup()
    if sim.run(lambda: box["fired"]) != "done" or box["result"] is not True:
        sim.nontrivial = False
        return
    for run in range(1 + c.pick("cfg.runs", 2)):
        one(sim, lab)
        if sim.found: return


def first(lab):
    """How the first generation of the next run is regarded, see FModel."""
    if not lab.cfg.get("judged"): return True
    return "maybe" if lab.cfg.get("left") else False


def one(sim, lab):
    c = sim.c; p = lab.p
    F = c.of("cfg.F", ((0.5, 1.0), 0.5, 0.8, (0.4, 0.9), (0.0, 1.0), 0.35))
    CR = c.of("cfg.CR", (0.8, 0.3, 1.0))
    adaptive = not c.chance("cfg.fixed", 0.2)
    bitter = c.chance("cfg.bitter", 0.2)
    dwell = c.of("cfg.dwell", (5, 1, 0, 3))
    M = c.of("cfg.M", (25, 45, 10, 3, 1, 0))
    goal = None
    if c.chance("cfg.goal", 0.35):
        goal = min(float(i.SSE) for i in p) * c.of(
            "cfg.goalf", (0.9, 0.5, 0.1, 1.0, 1.5, 0.0))
    tf = p.targetFraction
    model = FModel(F, CR, p.Np, adaptive, bitter, dwell, first(lab))

    def judge(g, ended):
        """After a completed generation: did the run rightly end or go on?"""
        sim.evaluations += 1
        best = min(g.end.S)
        reached = goal is not None and best < goal
        if reached:
            sim.probes["goal"] += 1
            if lab.cfg.get("judged"): lab.cfg["left"] = True
            if not ended:
                sim.violate("past-goal", "best SSE %r after generation %d is below the "
                            "goal %r but the run went on" % (best, g.k, goal))
            return
        lab.cfg["judged"] = True; lab.cfg["left"] = False
        model.states, stop = model.after(classify(g, p.Np, tf*p.Np))
        if ended:
            if stop:
                sim.probes["stagnation"] += 1
                return
            sim.violate(
                "early", "run ended after generation %d of %d with best SSE %r, goal %r, "
                "adaptive %s, bitter end %s, dwell %d; model: %s" % (
                    g.k, M, best, goal, adaptive, bitter, dwell,
                    model.states[:3]))
        elif not model.states:
            sim.violate(
                "late", "run went on after generation %d with more than %d generations "
                "without progress at the lower limit of F" % (g.k, dwell))

    def ended(kg, g):
        judge(g, False)
    lab.genHooks[:] = [ended]
    rb = lab.startDE(F=list(F) if isinstance(F, tuple) else F, CR=CR, maxiter=M,
                     adaptive=adaptive, bitterEnd=bitter, dwellByGrave=dwell,
                     goalSSE=goal, randomBase=c.of("cfg.base", (False, True, 0.5)))
    how = sim.run(lambda: rb["fired"])
    if sim.found: return
    if rb["failure"]:
        return sim.violate("error", "run ended with an error: %s" %
                           rb["failure"].getErrorMessage())
    if how != "done": return
    lab.closeGen()
    g = lab.gens[-1]
    n = len(lab.genCalls)
    sim.nontrivial = lab.cfg["many"] = n >= 3 or lab.cfg.get("many", False)
    sim.extra["summary"] = "%d generations of %d" % (n, M)
    if n > M or (n == M and g.calls):
        return sim.violate("past-maxiter", "%d generations and more with maxiter %d" % (
            n, M))
    if n == M:
        sim.probes["maxiter"] += 1
        return
    # Ended without the callback after the last generation
    if not g.calls and not [1 for t, d, ok, k, _ in lab.constraintCalls if k == g.k]:
        # ... or before the generation did anything
        return sim.violate("early", "run ended after %d of %d generations without "
                           "beginning another" % (n, M))
    judge(g, True)
