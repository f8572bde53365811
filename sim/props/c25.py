"""
C25: the population's order and best are current at every moment.
"""
import numpy as np

from ..world import standard, INF

RUNS = {"quick": 2500, "thorough": 60000}
RULE = ("Setup (sometimes of members not evaluated, sometimes repeated), runs of evolution, "
        "complaints about reported individuals and individuals pushed in between runs. "
        "After every event, and from inside evaluations, report callbacks, complaint "
        "handlers and generation callbacks, the population's best, sorted view and "
        "sequence access are compared with its members. A run is non-trivial if members "
        "were looked at while being set up and while evolving.")
REAL = ["ade.population", "ade.individual", "ade.de", "ade.report", "ade.history"]
STUB = ["reactor and clock (virtual)", "evaluation function", "report callbacks",
        "complaint handler", "stdin"]
ASSUMPTIONS = ["individuals are pushed only between runs"]


def scenario(sim):
    c = sim.c
    st = {"setup": 0, "evolve": 0}
    def complaint(i, result): sim.guard(look)
    lab = standard(sim, constraints=0.2, modes=(0, 1, 2, 3), complaint=complaint,
                   lands=("sphere", "quantised", "ripple", "zero", "huge", "steep",
                          "extreme", "worsening"))
    ev = lab.ev; p = lab.p
    level = c.of("cfg.complain", (0.0, 0.0, 0.2))
    lab.cbPlan = lambda r: ("complain", "no") if level and c.chance("complain", level) \
        else None

    def look():
        if sim.found: return
        sim.evaluations += 1
        members = [p[k] for k in range(len(p))]
        if not members:
            if p.best() is not None or p.kBest is not None:
                sim.violate("empty", "there is a best one of no members")
            if p: sim.violate("empty", "population without members is true")
            return
        st[ev.phase] += 1
        if not p: return sim.violate("empty", "population with members is false")
        if [id(i) for i in p] != [id(i) for i in members]:
            return sim.violate("sequence", "iteration differs from access by index")
        S = [float(i.SSE) for i in members]
        best = p.best()
        if not any(best is i for i in members):
            return sim.violate("best-member", "the best one is not a member")
        if float(best.SSE) != min(S):
            return sim.violate("best", "best member given has SSE %r, lowest one is %r" % (
                float(best.SSE), min(S)))
        k = int(p.kBest)
        if members[k] is not best:
            return sim.violate("index", "index of the best one is that of another")
        K = [int(k) for k in p.KS]
        if sorted(K) != list(range(len(members))):
            return sim.violate("indices", "sorted indices %s of %d members" % (
                K, len(members)))
        order = [S[k] for k in K]
        if order != sorted(S):
            return sim.violate("order", "SSEs in sorted order are %s" % order)
        view = list(p.iSorted)
        if [id(i) for i in view] != [id(members[k]) for k in K]:
            return sim.violate("view", "sorted members don't match sorted indices")
        for i in members:
            if i not in p: return sim.violate("contains", "a member is not contained")

    sim.monitors.append(look)
    often = c.of("cfg.look", (0.0, 0.3, 1.0))
    def sometimes(*args):
        if often and c.chance("look", often): look()
    ev.hooks.append(sometimes)
    ev.doneHooks.append(sometimes)
    lab.reportHooks.append(sometimes)
    lab.genHooks.append(sometimes)

    def setup():
        box = lab.setup(uniform=c.chance("cfg.uniform", 0.2),
                        blank=c.chance("cfg.blank", 0.06))
        return sim.run(lambda: box["fired"]) == "done" and box["result"] is True

    def push():
        """An individual of the user's takes the place of the worst."""
        values = [lo + (hi - lo)*c.frac("push.x") for lo, hi in lab.bounds]
        i = p.spawn(np.array(values))
        box = lab.watch(i.evaluate())
        if sim.run(lambda: box["fired"]) != "done": return
        before = [p[k] for k in range(len(p))]
        worst = max(float(x.SSE) for x in before)
        p.push(i)
        after = [p[k] for k in range(len(p))]
        sim.evaluations += 1
        changed = [k for k, (a, b) in enumerate(zip(before, after)) if a is not b]
        if len(before) != len(after) or len(changed) != 1 or \
           after[changed[0]] is not i or float(before[changed[0]].SSE) != worst:
            sim.violate("push", "pushed individual didn't take the place of the worst")
        look()

    if not setup():
        sim.nontrivial = False
        return
    for run in range(1 + c.pick("cfg.runs", 3)):
        rb = lab.startDE(
            CR=c.of("cfg.CR", (0.8, 0.3, 1.0)), F=c.of("cfg.F", (0.8, 0.5)),
            maxiter=1 + c.pick("cfg.maxiter", 4), adaptive=False, bitterEnd=True,
            randomBase=c.of("cfg.base", (False, True, 0.5)))
        if sim.run(lambda: rb["fired"]) != "done": return
        sim.settle()
        if c.chance("cfg.push", 0.3): push()
        if c.chance("cfg.again", 0.15):
            ev.phase = "setup"
            if not setup(): return
    sim.nontrivial = st["setup"] > 0 and st["evolve"] > 0
