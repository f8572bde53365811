"""
C14: history stays sorted, bounded and true to the population.
"""
import collections, pickle

import numpy as np

from ..world import standard, Lab, INF

RUNS = {"quick": 3000, "thorough": 80000}
RULE = ("Either setup and several runs of evolution with a small history, complaints "
        "and seeded slow background computation, or sequences of direct history "
        "operations issued without waiting; what queries give is compared with a "
        "multiset model. A run is non-trivial if at least eight records were judged.")
REAL = ["ade.history", "ade.de", "ade.population", "ade.individual", "ade.report",
        "twisted locks/task"]
STUB = ["reactor and clock (virtual)", "evaluation function", "report callbacks",
        "stdin", "cooperative scheduling of background work (seeded)"]
ASSUMPTIONS = ["population sizes 5-9, history maximum 3-60 records",
               "which record is given up when the history is full is left open"]
Counter = collections.Counter

NEVER, FORMER, MEMBER = "never", "former", "member"
QUERY = {MEMBER: {"inPop": True}, FORMER: {"notInPop": True},
         NEVER: {"neverInPop": True}}


def rec(sse, values):
    with np.errstate(all="ignore"):
        x = np.array([float(sse)] + [float(v) for v in values], dtype="f4")
    if not np.all(np.isfinite(x)): return None
    return tuple(float(v) for v in x)


class Model:
    """
    Records by status. Which one is given up when full is unknown: loose counts
    the records given up since they were last seen.
    """
    def __init__(self, N_max):
        self.N_max = N_max
        self.have = {s: Counter() for s in (NEVER, FORMER, MEMBER)}
        self.lost = 0

    def total(self):
        return sum(sum(c.values()) for c in self.have.values()) - self.lost

    def expendable(self):
        return sum(self.have[NEVER].values()) + sum(self.have[FORMER].values()) \
            - self.lost

    def add(self, r, status):
        if r is None: return False
        if self.total() >= self.N_max:
            if self.expendable() <= 0: return False
            self.lost += 1
        self.have[status][r] += 1
        return True

    def drop(self, r):
        """A member is one no more."""
        if not self.have[MEMBER][r]: return
        self.have[MEMBER][r] -= 1
        self.have[FORMER][r] += 1

    def clear(self, *statuses):
        for s in statuses: self.have[s].clear()

    def copy(self):
        m = Model(self.N_max)
        m.have = {s: Counter(c) for s, c in self.have.items()}
        m.lost = self.lost
        return m

    def judge(self, got):
        """None or what is wrong with got, a list of records by status."""
        out = {}
        for s in got:
            c = Counter(got[s])
            extra = c - self.have[s]
            missing = self.have[s] - c
            if extra:
                return "extra", "%d %s records that should not be there: %s" % (
                    sum(extra.values()), s, show(extra))
            if s == MEMBER and missing:
                return "member-missing", "members without record: %s" % show(missing)
            out[s] = missing
        if len(got) == 3:
            n = sum(sum(c.values()) for c in out.values())
            if n != self.lost:
                what = show(out[NEVER] + out[FORMER])
                if not self.lost:
                    return "missing", "%d records missing: %s" % (n, what)
                return "count", "%d records given up instead of %d" % (n, self.lost)
            for s in got: self.have[s] = Counter(got[s])
            self.lost = 0
        return None


def show(c):
    return [tuple(round(v, 4) for v in r) for r in list(c.elements())[:3]]


def query(h, names, box, done):
    """All three kinds of records, eventually."""
    got = {}
    def one(XY, s):
        rows = list(zip(*[[float(v) for v in col] for col in XY]))
        got[s] = rows
        if len(got) == 3: done(got)
    for s, kw in QUERY.items():
        d = h.value_vs_SSE(list(names), maxRatio=INF, **kw)
        d.addCallback(one, s)
        d.addErrback(lambda f: box.append(f.getErrorMessage()))


def scenario(sim):
    if sim.c.chance("cfg.direct", 0.45): direct(sim)
    else: evolve(sim)


# --- whole runs -----------------------------------------------------------------

def evolve(sim):
    c = sim.c
    from ade.history import History, ClosestPairFinder
    if c.chance("cfg.sampled", 0.3): ClosestPairFinder.Np_max = 6
    Np = c.of("cfg.np0", (5, 6, 7, 9))
    History.N_max = c.of("cfg.nmax", (400, 12, 20, 30, 60)) + Np
    complaint = c.chance("cfg.complain", 0.3)
    lab = standard(
        sim, constraints=0.2, np_=(Np,), big=0, nmax=0, modes=(0, 2, 1, 3), nd=(2, 3),
        lands=("sphere", "corner", "ripple", "valley", "steep", "quantised",
               "huge", "zero", "extreme", "worsening"),
        complaint=(lambda i, x: None) if complaint else None)
    ev = lab.ev; p = lab.p; h = p.history
    Nmax = h.N_max
    if complaint:
        lab.cbPlan = lambda r: ("complain", "bad") \
            if c.chance("report.complain", 0.25) else None
    model = Model(Nmax)
    state = {"members": [], "calls": 0, "n": 0}
    xSSE = c.chance("cfg.xSSE", 0.2)
    # Changes of membership, as seen after every event
    box = lab.setup()

    def original(i):
        """SSE of an individual before any complaint about it."""
        if float(i.SSE) < INF: return float(i.SSE)
        for r in reversed(lab.reports):
            if r.outcome[0] == "complain" and r.sse < INF and \
               np.all(r.values == np.asarray(i.values, float)): return r.sse
        return INF

    def follow():
        """Works out what has happened to the population since last time."""
        now = [(rec(i.SSE, i.values), i) for i in p]
        old = state["members"]
        for k, (r, i) in enumerate(now):
            if k < len(old) and old[k][1] is i and old[k][0] == r: continue
            if k < len(old):
                if old[k][0] is not None: model.drop(old[k][0])
            if k >= len(old) or old[k][1] is not i:
                # A new member; it may have been complained about already
                was = rec(original(i), i.values)
                if model.add(was, MEMBER) and r is None: model.drop(was)
        state["members"] = now

    if sim.run(lambda: box["fired"]) != "done" or box["result"] is not True:
        sim.nontrivial = False
        return
    follow()

    def fresh():
        """A new individual with an SSE of its own, as a user might make one."""
        i = p.spawn(np.array([lo + (hi - lo)*c.frac("user.value") for lo, hi in lab.bounds]))
        i.SSE = min(1e30, float(p.best().SSE)) * c.of("user.sse", (2.0, 0.9, 1.0, 7.5)) \
            + c.frac("user.more")
        return i

    def user():
        """The user sets members or has all of them evaluated anew."""
        for k in range(1 + c.pick("user.ops", 6)):
            op = c.pick("user.op", 4)
            sim.mark("u%d" % op)
            sim.note("user", op)
            if op < 2:
                p[c.pick("user.k", len(p))] = fresh()
            elif op == 2: p.push(fresh())
            elif c.chance("user.purge", 0.4):
                # All members get other SSEs (or the same ones)
                follow()
                model.clear(MEMBER)
                h.purgePop()
                f = c.of("user.factor", (1.0, 0.5, 3.0))
                for i in p:
                    if float(i.SSE) < INF: i.SSE = float(i.SSE) * f
                del p.KS
                state["members"] = []
                for i in p:
                    h.add(i)
                    model.add(rec(i.SSE, i.values), MEMBER)
                    state["members"].append((rec(i.SSE, i.values), i))
            follow()
        state["n"] += 1
        sim.probes["user-operations"] += 1

    for run in range(1 + c.pick("cfg.runs", 2)):
        if run: xSSE = False
        if c.chance("cfg.user", 0.35): user()
        def ended(kg, g):
            settleGen(g)
            errs = []
            expected = model.copy()
            expected.n = state["n"]
            query(h, lab.names, errs, lambda got: sim.guard(finish, got, expected, errs))

        def finish(got, m, errs):
            if sim.found: return
            sim.evaluations += sum(len(x) for x in got.values())
            if len(h) >= Nmax: sim.probes["full"] += 1
            order(sim, h)
            bad = m.judge(got)
            if bad: return sim.violate(bad[0], "after generation %d: %s (history of at most "
                                       "%d)" % (len(lab.genCalls), bad[1], Nmax))
            if m.n == state["n"]:
                # Nothing else has happened to the history since the query
                model.have = m.have; model.lost = m.lost

        def settleGen(g):
            """Accounts for the generation's challenges in the order decided."""
            calls = sorted((x for x in g.calls if x.done), key=lambda x: x.seq1)
            won = Counter()
            for (r, i), j in zip(state["members"], p):
                if j is not i:
                    won[(np.asarray(j.values, float).tobytes(), original(j))] += 1
            follow()
            for x in calls:
                kb = (x.values.tobytes(), x.sse)
                if won[kb]:
                    won[kb] -= 1
                    continue
                if not xSSE and x.sse is not None: model.add(rec(x.sse, x.values), NEVER)
            state["n"] += 1

        lab.genHooks[:] = [ended]
        rb = lab.startDE(
            CR=c.of("cfg.CR", (0.8, 0.3, 1.0)), F=c.of("cfg.F", (0.8, 0.5)),
            maxiter=1 + c.pick("cfg.maxiter", 8), adaptive=False, bitterEnd=True,
            xSSE=xSSE, randomBase=c.of("cfg.base", (False, True)))
        if sim.run(lambda: rb["fired"]) != "done" or rb["failure"]: return
        sim.settle()
        if sim.found: return
        # At rest after the closing report (which may have been complained about)
        follow()
        errs = []
        fin = []
        query(h, lab.names, errs, fin.append)
        sim.run(lambda: fin or errs)
        if errs and model.total() > 0:
            return sim.violate("query-failed", "query of the history failed: %s" % errs[0])
        if fin:
            m = model.copy()
            m.n = state["n"]
            finish(fin[0], m, errs)
        if sim.found: return
    sim.nontrivial = sim.evaluations >= 8


def order(sim, h):
    """Order, bound, and no row used twice, from the sequence interface."""
    S = [float(h[k][0]) for k in range(len(h))]
    if any(b < a for a, b in zip(S, S[1:])):
        sim.violate("order", "records not in ascending order of SSE: %s" % S[:8])
    if len(S) > h.N_max:
        sim.violate("bound", "%d records with a maximum of %d" % (len(S), h.N_max))


# --- direct operations --------------------------------------------------------------

def direct(sim):
    c = sim.c
    from ade.history import History, ClosestPairFinder
    from ade.individual import Individual
    if c.chance("cfg.sampled", 0.3): ClosestPairFinder.Np_max = 6
    lab = Lab(sim)
    lab.makeBox(c.of("cfg.nd", (1, 2, 3)))
    p = lab.makePopulation(5, lambda x: 1.0)
    names = lab.names
    N_max = c.of("cfg.nmax", (10, 3, 4, 6, 15, 40))
    box = {"h": History(names, N_max=N_max)}
    model = Model(N_max)
    members = []; gone = []; ghosts = []
    weights = [4, 3, 4, 0.6, 0.1, 1.5, 1.5, 0.3, 0.3, 1, 1]
    for w in range(11):
        if c.chance("cfg.less", 0.15): weights[w] *= 0.2

    def make():
        i = Individual(p, [lo + (hi - lo)*c.frac("ind.value", 23)
                           for lo, hi in lab.bounds])
        kind = c.weighted("ind.kind", [12, 4, 1, 1, 1, 1, 1, 1])
        u = c.frac("ind.sse")
        i.SSE = (1.0 + 100*u, float(1 + int(10*u)), np.float64(1 + u), 1 + int(5*u),
                 1e30*(1 + u), (1e39, 1e300, INF, None, float("nan"))[int(5*u)],
                 1e-30*(1 + u), 0.0)[kind]
        if kind == 5: sim.faults["sse-unrecordable"] += 1
        return i

    def follow(d):
        d.addErrback(lambda f: sim.violate(
            "operation-failed", "history operation failed: %s" % f.getErrorMessage()))

    waiting = [0]
    def ask(rest):
        m = model.copy()
        if m.total() <= 0: return
        errs = []
        waiting[0] += 1
        exact = m.lost == 0
        def done(got):
            waiting[0] -= 1
            if sim.found: return
            sim.evaluations += sum(len(x) for x in got.values())
            if rest: order(sim, box["h"])
            bad = m.judge(got)
            if bad:
                return sim.violate(bad[0], "%s (history of at most %d)" % (bad[1], N_max))
            if rest: model.have, model.lost = m.have, m.lost
        query(box["h"], names, errs, lambda got: sim.guard(done, got))
        if errs: sim.violate("query-failed", "query failed: %s" % errs[0])

    def rest():
        """Lets everything finish, then compares."""
        fin = []
        d = box["h"].shutdown()
        d.addBoth(fin.append)
        if sim.run(lambda: fin and not waiting[0]) != "done": return False
        ask(True)
        return sim.run(lambda: not waiting[0]) == "done"

    n = 10 + c.pick("cfg.ops", 80)
    for k in range(n):
        h = box["h"]
        op = c.weighted("op", weights)
        if op == 0 or (op == 2 and not members):
            i = make()
            sim.note("add", fl(i))
            if model.add(rec(i.SSE, i.values), MEMBER): members.append(i)
            follow(h.add(i))
            if c.chance("op.twin", 0.1):
                j = i.copy()
                if model.add(rec(j.SSE, j.values), MEMBER): members.append(j)
                follow(h.add(j))
        elif op == 1:
            i = make()
            sim.note("add-never", fl(i))
            model.add(rec(i.SSE, i.values), NEVER)
            follow(h.add(i, neverInPop=True))
        elif op == 2:
            i = members.pop(c.pick("op.member", len(members)))
            sim.note("not-in-pop", fl(i))
            model.drop(rec(i.SSE, i.values))
            follow(h.notInPop(i))
            gone.append(i)
            if c.chance("op.again", 0.1):
                # Twice, or somebody who never was
                twin = any(rec(j.SSE, j.values) == rec(i.SSE, i.values) for j in members)
                if not twin: follow(h.notInPop(i))
        elif op == 3:
            sim.note("purge-pop")
            model.clear(MEMBER)
            ghosts.extend(members)
            del members[:]
            follow(h.purgePop())
        elif op == 4:
            sim.note("clear")
            model.clear(NEVER, FORMER, MEMBER); model.lost = 0
            ghosts.extend(members)
            del members[:]
            follow(h.clear())
        elif op == 5:
            sim.note("query")
            ask(False)
        elif op == 6:
            for j in range(1 + c.pick("op.steps", 8)):
                if not sim.step(): break
        elif op == 7:
            if not rest(): return
        elif op == 8:
            if not rest(): return
            sim.note("pickle")
            box["h"] = pickle.loads(pickle.dumps(h))
            sim.faults["reload"] += 1
        elif op == 9 and ghosts:
            # Somebody who was a member before a purge isn't one any more
            i = ghosts.pop(c.pick("op.ghost", len(ghosts)))
            if not any(rec(j.SSE, j.values) == rec(i.SSE, i.values) for j in members):
                sim.note("not-in-pop-ghost", fl(i))
                follow(h.notInPop(i))
        elif op == 10 and ghosts:
            # And may become one again
            i = ghosts.pop(c.pick("op.ghost", len(ghosts)))
            sim.note("add-again", fl(i))
            if model.add(rec(i.SSE, i.values), MEMBER): members.append(i)
            follow(h.add(i))
        sim.mark("o%d" % op)
        if sim.found: return
    rest()
    sim.nontrivial = sim.evaluations >= 8


def fl(i):
    return [float(i.SSE)] + [float(v) for v in i.values]
