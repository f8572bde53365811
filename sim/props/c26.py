"""
C26: populations evolved side by side do not influence each other.
"""
import numpy as np

from ..world import standard, makeConstraint, Evaluator, INF

RUNS = {"quick": 2000, "thorough": 50000}
RULE = ("Two or three populations with an evaluation function, callbacks, complaint "
        "handler and constraints of their own are set up and evolved at the same time in one "
        "process, started at seeded moments; one of them may have a fatal evaluation or a "
        "failing report callback, or be shut down. Members, reports, complaints, counts and "
        "history of each must come from its own evaluations, and each of those nothing "
        "happened to must run for exactly its own number of generations. A run is "
        "non-trivial if evaluations of two populations were in flight together.")
REAL = ["ade.population", "ade.individual", "ade.de", "ade.report", "ade.history",
        "ade.abort"]
STUB = ["reactor and clock (virtual)", "evaluation functions", "report callbacks",
        "complaint handlers", "stdin"]
ASSUMPTIONS = ["no abort by the user, which is meant for all of them"]

FATAL, CALLBACK, SHUTDOWN = 1, 2, 3


class Side:
    """One of the populations."""
    def __init__(self, sim, n):
        c = sim.c
        self.sim = sim; self.n = n
        self.complained = []
        self.lab = lab = standard(
            sim, constraints=0.3, modes=(2, 0, 1, 3), latencies=(2, 1, 3, 4, 5, 6, 7),
            complaint=self.complaint, nd=(2, 3), np_=(5, 6, 8))
        self.ev = ev = lab.ev
        self.p = lab.p
        if lab.constraint is None and c.chance("cfg.setcons", 0.3):
            self.p.setConstraints(makeConstraint(lab, c.pick("cfg.constype", 3)))
        self.cons = lab.constraint
        self.finished = 0
        self.trouble = 0
        self.troubled = False
        self.stage = 0
        self.maxiter = 1 + c.pick("cfg.maxiter", 4)
        self.level = c.of("cfg.complain", (0.0, 0.0, 0.15))
        lab.cbPlan = self.plan
        lab.reportHooks.append(self.reported)
        ev.hooks.append(self.started)
        ev.doneHooks.append(self.decided)

    def complaint(self, i, what): self.sim.guard(self._complaint, i, what)

    def _complaint(self, i, what):
        if what != "no from %d" % self.n:
            self.sim.violate("complaint", "handler of population %d given complaint %r" % (
                self.n, what))
        if i.p is not self.p:
            self.sim.violate("complaint", "handler given an individual of another population")
        self.sim.evaluations += 1

    def plan(self, r):
        c = self.sim.c
        if self.trouble == CALLBACK and self.lab.runs and c.chance("callback.fail", 0.4):
            self.troubled = True
            return ("fail", None)
        if self.level and c.chance("complain", self.level):
            return ("complain", "no from %d" % self.n)

    def started(self, call):
        self.sim.evaluations += 1
        for x, lo, hi in zip(call.values, self.lab.mins, self.lab.maxs):
            if not lo <= x <= hi:
                self.sim.violate("bounds", "value %r outside own bounds" % float(x))
        if self.cons and not self.cons.ok(dict(zip(self.lab.names, call.values))):
            self.sim.violate("constraint", "own constraint not satisfied")
        if len(call.values) != self.lab.Nd:
            self.sim.violate("values", "wrong number of values")

    def decided(self, call):
        if call.sse is None: self.troubled = True
        else: self.finished += 1

    def reported(self, r):
        self.sim.evaluations += 1
        if r.sse < INF and not self.ev.lookup(r.values, r.sse):
            self.sim.violate("report", "callback of population %d given an individual that its "
                             "function didn't evaluate" % self.n)

    def check(self):
        sim = self.sim; ev = self.ev
        for i in self.p:
            s = float(i.SSE)
            if i.p is not self.p:
                return sim.violate("member", "a member belongs to another population")
            if s < INF and not ev.lookup(i.values, s):
                return sim.violate("member", "member of population %d with SSE %r that its "
                                   "function didn't return for it" % (self.n, s))
        if not self.troubled and self.p.counter != self.finished:
            return sim.violate("count", "population %d counts %r of its %d evaluations" % (
                self.n, self.p.counter, self.finished))
        sim.evaluations += 1

    def checkHistory(self):
        known = set()
        for call in self.ev.calls:
            if call.valid:
                with np.errstate(all="ignore"):
                    known.add(np.array([call.sse] + list(call.values)).astype("f4").tobytes())
        for k in range(len(self.p.history)):
            row = np.array(self.p.history[k], dtype="f4").tobytes()
            if row not in known:
                return self.sim.violate("history", "history of population %d has a record of "
                                        "something that its function didn't evaluate" % self.n)
        self.sim.evaluations += 1

    # --- life -----------------------------------------------------------
    def begin(self):
        self.box = self.lab.setup()
        self.stage = 1

    def proceed(self):
        """Starts evolution when set up. True when it's all over."""
        c = self.sim.c
        if self.stage == 1 and self.box["fired"]:
            if self.box["result"] is not True:
                if not self.troubled:
                    self.sim.violate("setup", "setup of population %d gave %r though nothing "
                                     "happened to it" % (self.n, self.box["result"]))
                self.stage = 3
            else:
                self.stage = 2
                self.sim.later(c.frac("begin.delay"), self.evolve)
        elif self.stage == 4 and self.box["fired"]:
            self.over()
            self.stage = 3
        return self.stage == 3

    def evolve(self):
        c = self.sim.c
        self.stage = 4
        self.before = len(self.ev.calls)
        self.box = self.lab.startDE(
            CR=c.of("cfg.CR", (0.8, 0.3, 1.0)), F=c.of("cfg.F", (0.8, 0.5)),
            maxiter=self.maxiter, adaptive=False, bitterEnd=True,
            randomBase=c.of("cfg.base", (False, True)))
        if self.trouble == FATAL:
            self.ev.plan[len(self.ev.calls) + c.pick("fatal.at", 12)] = c.of(
                "fatal.kind", (Evaluator.NEGATIVE, Evaluator.RAISE, Evaluator.FAIL))
        elif self.trouble == SHUTDOWN:
            self.sim.later(3.0*c.frac("shutdown.at"), self.shutdown)

    def shutdown(self):
        self.troubled = True
        self.sim.faults["shutdown"] += 1
        self.lab.de.shutdown()

    def over(self):
        sim = self.sim
        if self.box["failure"] is not None:
            return sim.violate("failed", "run of population %d failed" % self.n)
        if self.box["result"] is not self.p:
            return sim.violate("result", "result of the run of population %d is another" %
                               self.n)
        if self.troubled: return
        self.lab.closeGen()
        gens = self.lab.genCalls
        if gens != list(range(self.maxiter)):
            return sim.violate("generations", "generations %s of population %d, expected %d" % (
                gens, self.n, self.maxiter))
        for k in range(self.maxiter):
            g = self.lab.gens[k]
            n = len(g.calls)
            if n > len(self.p) or (self.cons is None and n != len(self.p)):
                return sim.violate("challenges", "%d evaluations in a generation of "
                                   "population %d having %d members" % (
                                       n, self.n, len(self.p)))
        sim.evaluations += 1 + self.maxiter


def scenario(sim):
    c = sim.c
    sides = [Side(sim, k) for k in range(2 + c.pick("cfg.sides", 2))]
    trouble = c.of("cfg.trouble", (0, 0, FATAL, CALLBACK, SHUTDOWN))
    if trouble: sides[c.pick("cfg.victim", len(sides))].trouble = trouble
    for side in sides:
        if c.chance("begin.now", 0.3): side.begin()
        else: sim.later(2.0*c.frac("begin.delay"), side.begin)
    st = {"together": False}
    def monitor():
        if sim.found: return
        for side in sides: side.check()
        if sum(1 for s in sides if s.ev.flying) > 1: st["together"] = True
    sim.monitors.append(monitor)
    def over():
        return all([s.proceed() for s in sides])
    how = sim.run(over)
    if how in ("stuck", "cap"):
        sim.violate("stuck", "not all finished (%s): %s" % (how, [
            (s.n, s.stage, s.troubled) for s in sides]))
        return
    sim.settle()
    if sim.found: return
    for side in sides:
        side.check(); side.checkHistory()
    sim.nontrivial = st["together"]
