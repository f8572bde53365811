"""
C23: history queries give exactly the records asked for, as of one moment.
"""
import collections

import numpy as np

from ..world import standard, Lab, INF
from .c14 import Model, NEVER, FORMER, MEMBER, QUERY, rec

RUNS = {"quick": 3000, "thorough": 80000}
RULE = ("Queries with seeded selections (status, limit on the SSE, names and their "
        "order) at seeded instants, from outside, from report callbacks and from the "
        "generation callback, of a history that is being added to or searched in the "
        "background; each is compared with the same selection made by the oracle from "
        "all records at that moment, and those with a model of what had been requested "
        "before. A run is non-trivial if at least four queries were judged.")
REAL = ["ade.history", "ade.de", "ade.population", "ade.individual", "ade.report",
        "twisted locks/task"]
STUB = ["reactor and clock (virtual)", "evaluation function", "report callbacks",
        "stdin", "cooperative scheduling of background work (seeded)"]
ASSUMPTIONS = ["population sizes 5-9, history maximum 3-60 records",
               "records whose SSE is within rounding of the limit may be given or not"]
Counter = collections.Counter
STATUS = (None, MEMBER, FORMER, NEVER)


class Querier:
    """Asks the history and judges what it says."""
    def __init__(self, sim, names):
        self.sim = sim
        self.names = list(names)
        self.waiting = 0
        self.n = 0

    def draw(self):
        """What to ask for."""
        c = self.sim.c
        status = c.of("q.status", STATUS)
        ratio = c.of("q.ratio", (None, INF, 1.5, 1.0, 3.0, 20.0, 5000.0))
        style = c.pick("q.style", 5)
        names = list(self.names)
        if style == 0: arg = cols = list(names)
        elif style == 1: arg = cols = list(reversed(names))
        elif style == 2: arg, cols = [], sorted(names)
        elif style == 3:
            cols = [n for n in names if c.chance("q.name", 0.5)] or names[-1:]
            arg = cols
        else:
            n = 1 + c.pick("q.slice", len(names))
            arg = [n] if c.chance("q.one", 0.5) else [n-1, len(names)]
            cols = sorted(names)[slice(*arg)]
        return status, ratio, arg, cols

    def ask(self, h, judge=None):
        """
        All there is, and in the same instant the selection. judge is told all
        there is.
        """
        sim = self.sim
        status, ratio, arg, cols = self.draw()
        sim.note("query", status, ratio, [str(x) for x in arg])
        sim.mark("Q")
        self.waiting += 1
        got = {}; left = [4]
        def one(XY, s):
            sim.guard(keep, XY, s)
        def keep(XY, s):
            got[s] = [[float(v) for v in col] for col in XY]
            left[0] -= 1
            if left[0]: return
            self.waiting -= 1
            if not sim.found: finish()
        def bad(f):
            sim.violate("query-failed", "query failed: %s" % f.getErrorMessage())
        def finish():
            sim.note("answer", [len(got[s][0]) for s in (MEMBER, FORMER, NEVER, "asked")])
            for s in (MEMBER, FORMER, NEVER):
                self.shape(got[s], s, 1 + len(self.names))
            if sim.found: return
            rows = {s: list(zip(*got[s])) for s in (MEMBER, FORMER, NEVER)}
            if judge: judge(rows)
            if not sim.found: self.compare(got["asked"], rows, status, ratio, cols)
        for s, kw in QUERY.items():
            h.value_vs_SSE(list(self.names), maxRatio=INF, **kw).addCallback(
                one, s).addErrback(bad)
        kw = dict(QUERY[status]) if status else {}
        if ratio is not None: kw["maxRatio"] = ratio
        h.value_vs_SSE(list(arg), **kw).addCallback(one, "asked").addErrback(bad)

    def shape(self, XY, what, n):
        if len(XY) != n or len({len(col) for col in XY}) != 1:
            return self.sim.violate("shape", "%s: %d columns of lengths %s instead of %d" % (
                what, len(XY), [len(col) for col in XY], n))
        if any(b < a for a, b in zip(XY[0], XY[0][1:])):
            self.sim.violate("order", "%s: not in ascending order of SSE" % what)

    def compare(self, XY, rows, status, ratio, cols):
        sim = self.sim
        self.shape(XY, "selection", 1 + len(cols))
        if sim.found: return
        K = [0] + [1 + self.names.index(n) for n in cols]
        every = [r for s in rows for r in rows[s]]
        best = min((r[0] for r in every), default=0.0)
        limit = (1000.0 if ratio is None else ratio) * best if ratio != INF else INF
        must = Counter(); may = Counter()
        for s in rows:
            if status not in (None, s): continue
            for r in rows[s]:
                short = tuple(r[k] for k in K)
                # Single precision divisions round
                if r[0] <= limit*(1 - 1e-5) or r[0] == best or limit == INF:
                    must[short] += 1
                elif r[0] <= limit*(1 + 1e-5): may[short] += 1
        got = Counter(zip(*XY))
        self.n += 1
        sim.evaluations += 1
        if must and len(must) < len(every): sim.probes["proper-selection"] += 1
        if must - got:
            sim.violate("left-out", "%d records of status %s within %s times the best SSE "
                        "left out: %s" % (sum((must - got).values()), status, ratio,
                                          list(must - got)[:2]))
        elif got - must - may:
            sim.violate("not-asked-for", "%d records given that were not asked for "
                        "(status %s, ratio %s): %s" % (
                            sum((got - must - may).values()), status, ratio,
                            list(got - must - may)[:2]))


def scenario(sim):
    if sim.c.chance("cfg.direct", 0.5): direct(sim)
    else: evolve(sim)


def evolve(sim):
    c = sim.c
    from ade.history import History, ClosestPairFinder
    if c.chance("cfg.sampled", 0.3): ClosestPairFinder.Np_max = 6
    Np = c.of("cfg.np0", (5, 6, 7, 9))
    History.N_max = c.of("cfg.nmax", (400, 12, 20, 30, 60)) + Np
    lab = standard(
        sim, constraints=0.2, np_=(Np,), big=0, nmax=0, modes=(0, 2, 1, 3), nd=(1, 2, 3),
        lands=("sphere", "corner", "ripple", "valley", "steep", "quantised",
               "zero", "worsening"))
    p = lab.p; h = p.history
    q = Querier(sim, lab.names)
    quiet = [False]

    def members():
        """The members at this instant must be the ones in the answer."""
        want = Counter(r for r in (rec(i.SSE, i.values) for i in p) if r is not None)
        def judge(rows):
            got = Counter(rows[MEMBER])
            if got != want:
                sim.violate("members", "answer has %d members that were none when asked and "
                            "lacks %d that were" % (sum((got - want).values()),
                                                    sum((want - got).values())))
        return judge

    def now():
        if not quiet[0] and not sim.found: q.ask(h, members())
    lab.reportHooks.append(lambda r: c.chance("q.report", 0.4) and now())
    lab.genHooks.append(lambda kg, g: c.chance("q.gen", 0.4) and now())
    def start(call):
        # Between events, as the population may be in the middle of something
        if c.chance("q.eval", 0.1): sim.later(c.frac("q.delay"), now)
    lab.ev.hooks.append(start)
    if c.chance("q.early", 0.3): now()
    box = lab.setup()
    if sim.run(lambda: box["fired"]) != "done" or box["result"] is not True:
        sim.nontrivial = False
        return
    for run in range(1 + c.pick("cfg.runs", 2)):
        rb = lab.startDE(
            CR=c.of("cfg.CR", (0.8, 0.3, 1.0)), F=c.of("cfg.F", (0.8, 0.5)),
            maxiter=1 + c.pick("cfg.maxiter", 6), adaptive=False, bitterEnd=True,
            randomBase=c.of("cfg.base", (False, True)))
        if sim.run(lambda: rb["fired"]) != "done": return
        now()
    quiet[0] = True
    if sim.run(lambda: not q.waiting) == "stuck":
        sim.violate("unanswered", "%d queries never answered" % q.waiting)
    sim.nontrivial = q.n >= 4


def direct(sim):
    c = sim.c
    from ade.history import History, ClosestPairFinder
    from ade.individual import Individual
    if c.chance("cfg.sampled", 0.3): ClosestPairFinder.Np_max = 6
    lab = Lab(sim)
    lab.makeBox(c.of("cfg.nd", (1, 2, 3, 4)))
    if c.chance("cfg.names", 0.5):
        lab.names = ["zeta", "alpha", "mu", "b"][:lab.Nd]
    p = lab.makePopulation(5, lambda x: 1.0)
    N_max = c.of("cfg.nmax", (10, 3, 4, 6, 15, 40))
    h = History(lab.names, N_max=N_max)
    model = Model(N_max)
    q = Querier(sim, lab.names)
    members = []
    zero = c.chance("cfg.zero", 0.25)

    def make():
        i = Individual(p, [lo + (hi - lo)*c.frac("ind.value", 23)
                           for lo, hi in lab.bounds])
        u = c.frac("ind.sse")
        kind = c.pick("ind.kind", 5 if zero else 4)
        i.SSE = (1.0 + 100*u, float(1 + int(10*u)), 10**(6*u), 1e-20*(1 + u), 0.0)[kind]
        return i

    def follow(d):
        d.addErrback(lambda f: sim.violate(
            "operation-failed", "history operation failed: %s" % f.getErrorMessage()))

    def asOf(m):
        def judge(rows):
            bad = m.judge(rows)
            if bad: sim.violate(bad[0], "not what had been requested before the query: %s"
                                % bad[1])
        return judge

    for k in range(6 + c.pick("cfg.ops", 60)):
        op = c.weighted("op", [3, 3, 3, 0.4, 0.2, 4, 2])
        if op == 0 or (op == 2 and not members):
            i = make()
            sim.note("add", [float(i.SSE)] + [float(v) for v in i.values])
            if model.add(rec(i.SSE, i.values), MEMBER): members.append(i)
            follow(h.add(i))
        elif op == 1:
            i = make()
            sim.note("add-never", [float(i.SSE)] + [float(v) for v in i.values])
            model.add(rec(i.SSE, i.values), NEVER)
            follow(h.add(i, neverInPop=True))
        elif op == 2:
            i = members.pop(c.pick("op.member", len(members)))
            sim.note("not-in-pop", float(i.SSE))
            model.drop(rec(i.SSE, i.values))
            follow(h.notInPop(i))
        elif op == 3:
            sim.note("purge-pop")
            model.clear(MEMBER); del members[:]
            follow(h.purgePop())
        elif op == 4:
            sim.note("clear")
            model.clear(NEVER, FORMER, MEMBER); model.lost = 0
            del members[:]
            follow(h.clear())
        elif op == 5: q.ask(h, asOf(model.copy()))
        else:
            for j in range(1 + c.pick("op.steps", 8)):
                if not sim.step(): break
        sim.mark("o%d" % op)
        if sim.found: return
    q.ask(h, asOf(model.copy()))
    if sim.run(lambda: not q.waiting) == "stuck":
        sim.violate("unanswered", "%d queries never answered" % q.waiting)
    sim.nontrivial = q.n >= 4
