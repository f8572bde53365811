"""
C06: only in-bounds, constraint-satisfying parameters are ever evaluated.
"""
import os

import numpy as np

from ..world import standard, INF

RUNS = {"quick": 2500, "thorough": 60000}
SCRATCH = True
RULE = ("Setup, runs, repeated setup, save and load with new bounds, constraints "
        "replaced at seeded instants; every vector given to the evaluation function "
        "is judged against the bounds and constraints then in force. A run is "
        "non-trivial if constraints were in force or bounds were changed.")
REAL = ["ade.de", "ade.population", "ade.individual", "ade.report", "ade.history",
        "asynqueue.DeferredTracker", "twisted Deferred/locks/task", "file system"]
STUB = ["reactor and clock (virtual)", "evaluation function", "constraint functions",
        "report callbacks", "stdin"]
ASSUMPTIONS = ["population sizes 5-9 (now and then 4-34), 2-4 parameters (now and then 1-10), one to three constraints at a time"]


class Bound:
    """A constraint: kinds of half spaces, shells and stripes of the unit box."""
    def __init__(self, names, mins, maxs, kind, a):
        self.names = list(names)
        self.mins = list(mins); self.maxs = list(maxs)
        self.kind = kind; self.a = a

    def ok(self, values):
        u = [(x - lo)/(hi - lo) if hi > lo else 0.5
             for x, lo, hi in zip(values, self.mins, self.maxs)]
        k = self.kind
        if k == 0: return u[0] + u[-1] < 1.0 + 0.8*self.a
        if k == 1: return u[0] <= u[-1] + 0.3*self.a
        if k == 2: return sum((x-0.5)**2 for x in u) < 0.1*len(u)*(0.5 + self.a)
        if k == 3: return int(u[0]*7) % 2 == 0
        return 0.05 < u[-1] < 0.6 + 0.35*self.a

    def __call__(self, d):
        if sorted(d) != sorted(self.names):
            Bound.wrong.append(sorted(d))
        good = self.ok([float(d[n]) for n in self.names])
        # Anything true or false will do
        return good if self.kind % 2 else (1 if good else 0)
    wrong = []


def scenario(sim):
    c = sim.c
    made = []
    lab = standard(sim, reporters=True, complaint=lambda i, x: None,
                   lands=("sphere", "corner", "ripple", "valley", "steep", "quantised",
                          "worsening", "zero", "huge", "extreme"))
    ev = lab.ev
    lab.boxNow = (list(lab.mins), list(lab.maxs))

    def constraints():
        n = 1 + c.pick("con.n", 3)
        out = []
        for k in range(n):
            b = Bound(lab.names, lab.mins, lab.maxs, c.pick("con.kind", 5),
                      c.frac("con.a"))
            out.append(b)
        # Something must be left
        rng = np.random.RandomState(1)
        lo, hi = (np.array(x) for x in lab.boxNow)
        def share():
            U = lo + (hi - lo)*rng.uniform(size=(60, lab.Nd))
            return np.mean([all(b.ok(x) for b in out) for x in U])
        while out and share() < 0.08: out.pop()
        return out

    force = []
    if c.chance("cfg.cons", 0.75):
        force = constraints()
        if len(force) == 1 and c.chance("cfg.single", 0.5):
            given = force[0]
        else: given = list(force)
        # As constructor argument
        lab.makePopulation(lab.Np, ev, constraints=given,
                           complaint=lambda i, x: None)
        for k in range(c.pick("cfg.reporters", 2)): lab.addReporter(2)
    st = {"cons": list(force), "p": lab.p}
    sim.nontrivial = bool(force)

    def judge(call):
        sim.evaluations += 1
        lo, hi = lab.boxNow
        for k, x in enumerate(call.values):
            if not (lo[k] <= x <= hi[k]):
                return sim.violate("bounds", "evaluated with parameter %d = %r, bounds %r "
                                   "to %r, in %s" % (k, float(x), lo[k], hi[k], call.phase))
        for b in st["cons"]:
            if not b.ok([float(x) for x in call.values]):
                return sim.violate("constraint", "evaluated %s, which violates a constraint "
                                   "in force, in %s" % ([float(x) for x in call.values],
                                                        call.phase))
        if Bound.wrong:
            sim.violate("parameters", "constraint given parameters %s" % Bound.wrong[0])
    ev.hooks.append(judge)

    def change(where):
        sim.nontrivial = True
        sim.note("set-constraints", where)
        sim.probes["changed-" + where] += 1
        st["cons"] = constraints() if not c.chance("con.none", 0.2) else []
        st["p"].setConstraints(*st["cons"])

    def ended(kg, g):
        if c.chance("con.atgen", 0.2): change("gen")
    lab.genHooks.append(ended)
    anytime = c.chance("con.anytime", 0.3)
    def tick():
        if anytime and c.chance("con.tick", 0.02): change("tick")
    sim.monitors.append(tick)

    def run(box):
        return sim.run(lambda: box["fired"], maxSteps=20000) == "done" \
            and not box["failure"]

    rate = c.of("cfg.complain", (0.0, 0.0, 0.2))
    lab.cbPlan = lambda r: ("complain", "bad") if c.chance("complain", rate) else None
    box = lab.setup(uniform=c.chance("cfg.uniform", 0.3), blank=c.chance("cfg.blank", 0.08))
    if not run(box) or box["result"] is not True: return
    for k in range(1 + c.pick("cfg.stages", 3)):
        what = c.weighted("stage", [4, 2, 3]) if k else 0
        p = lab.p
        if what == 1:
            ev.phase = "setup"; ev.gen = None
            sim.probes["setup-again"] += 1
            box = lab.setup(uniform=c.chance("cfg.uniform", 0.3))
            if not run(box) or box["result"] is not True: return
        if what == 2:
            path = os.path.join(sim.scratch, "p.dat")
            p.save(path)
            new = None
            if c.chance("load.bounds", 0.7):
                lo, hi = lab.boxNow
                new = []
                for a, b in zip(lo, hi):
                    w = b - a
                    u = c.of("load.lo", (0.0, 0.2, -0.3, 0.45, 1.5))
                    v = c.of("load.hi", (1.0, 0.8, 1.3, 0.55))
                    if u < 1: new.append((a + u*w, a + v*w))
                    else: new.append((a + u*w, a + (u + 1)*w))
            from ade.population import Population
            sim.note("load", new)
            sim.probes["loaded"] += 1
            if new:
                lab.p = Population.load(path, func=ev, bounds=new)
                lab.boxNow = ([x[0] for x in new], [x[1] for x in new])
                sim.nontrivial = True
            else: lab.p = Population.load(path, func=ev)
            st["p"] = lab.p
            if new and c.chance("load.setcons", 0.5): change("load")
        rb = lab.startDE(
            CR=c.of("cfg.CR", (0.8, 0.3, 1.0, 0.5, 0.0)),
            F=c.of("cfg.F", (0.8, 1.0, 2.0, [0.5, 1.0])),
            maxiter=1 + c.pick("cfg.maxiter", 6), adaptive=False, bitterEnd=True,
            randomBase=c.of("cfg.base", (False, True, 0.5)))
        if not run(rb): return
        if sim.found: return
