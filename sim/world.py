"""
The outside world of a simulated run: evaluation function, callbacks, console,
plus a laboratory object that drives ade through its public interface and
records what is observable.
"""
import math

import numpy as np
from twisted.internet import defer

INF = float("inf")


def key(values):
    return np.asarray(values, dtype=float).tobytes()

def fl(x):
    """A float as it is shown in notes."""
    try: return float(x)
    except Exception: return repr(x)


class Call:
    """One call of the evaluation function with real values."""
    __slots__ = ("n", "values", "ref", "xSSE", "t0", "t1", "raw", "sse",
                 "kind", "gen", "phase", "done", "sync", "cut", "d", "seq1")
    def __init__(self):
        self.t1 = None; self.done = False; self.raw = None; self.sse = None
        self.cut = False; self.d = None; self.seq1 = None

    @property
    def valid(self):
        return self.done and self.sse is not None and self.sse < INF


class Landscape:
    """
    A fitness function over a box, given by its kind. Values are positive and,
    except for the quantised kind, different for different points.
    """
    kinds = ("sphere", "corner", "ripple", "valley", "steep", "quantised",
             "huge", "zero", "worsening")

    def __init__(self, kind, mins, maxs, center):
        self.kind = kind
        self.mins = np.asarray(mins, float)
        self.scale = np.asarray(maxs, float) - self.mins
        self.center = np.asarray(center, float)
        self.n = 0

    def __call__(self, x):
        self.n += 1
        u = (np.asarray(x, float) - self.mins) / self.scale
        r = float(np.sum((u - self.center)**2))
        k = self.kind
        if k == "sphere": return 1.0 + 10.0*r
        if k == "corner": return 1.0 + float(np.sum(u * (1.0 + np.arange(len(u)))))
        if k == "ripple":
            return 3.0 + 10.0*r + float(np.sum(np.sin(40.0*u)))*0.3
        if k == "valley":
            y = 1.0 + 5.0*float(np.sum(np.abs(u - self.center)))
            if len(u) > 1: y += 50.0*float((u[1] - u[0]**2)**2)
            return y
        if k == "steep": return 10.0**(4.0*math.sqrt(r)) + r
        if k == "quantised": return 1.0 + float(np.floor(12.0*math.sqrt(r)))
        if k == "huge": return 1e300*(1e-3 + r) if r > 0.2 else 1e30*(1.0 + r)
        if k == "zero": return max(0.0, r - 0.05)
        if k == "extreme":          # almost all the range of a float
            return 10.0**(-320.0 + 627.0*min(1.0, math.sqrt(r))) + 5e-324
        if k == "worsening": return 10.0 + self.n + 0.1*r
        raise ValueError(k)


class Evaluator:
    """
    The evaluation function: the pool of workers that computes SSEs.

    latency: how long evaluations take; kinds of results: per-call weights.
    """
    # result kinds
    OK, INFINITE, NONE, NAN, NEGATIVE, RAISE, FAIL, STALL = range(8)
    names = ("ok", "eval-inf", "eval-none", "eval-nan", "eval-negative",
             "eval-raise", "eval-fail", "eval-stall")

    def __init__(self, sim, land, latency=0, weights=None, cutoff=False):
        self.sim = sim
        self.land = land
        self.latency = latency
        self.weights = weights or [1]
        self.calls = []
        self.noneCalls = []
        self.flying = 0
        self.maxFlying = 0
        self.hooks = []             # called with each Call as it starts
        self.doneHooks = []         # called with each Call when it is decided
        self.phase = "setup"
        self.gen = None
        self.plan = {}              # call number -> forced kind
        self.frozen = False         # outside world has stopped answering
        self.held = []
        self.cutoff = cutoff
        self.minDelay = None
        self.byKey = {}
        self.seq = 0
        self.mustDefer = False
        self.fast = False

    def __call__(self, values, **kw):
        sim = self.sim
        if values is None:
            self.noneCalls.append(sim.reactor.now)
            sim.note("eval-none-call")
            return None
        res = sim.guard(self._start, values, kw)
        if res is None:             # harness error; run will be stopped
            return 1.0
        mode, x = res
        if mode == "raise": raise x
        return x

    def _start(self, values, kw):
        sim = self.sim; c = sim.c
        call = Call()
        call.n = len(self.calls)
        call.ref = values
        call.values = np.array(values, dtype=float)
        call.xSSE = kw.get("xSSE", None)
        extra = set(kw) - {"xSSE"}
        if extra: sim.violate("eval-args", "unexpected arguments %s" % sorted(extra))
        call.t0 = sim.reactor.now
        call.gen = self.gen
        call.phase = self.phase
        self.calls.append(call)
        self.byKey.setdefault(key(call.values), []).append(call)
        kind = self.plan.get(call.n)
        if kind is None:
            kind = c.weighted("eval.kind", self.weights) \
                if len(self.weights) > 1 else 0
        call.kind = kind
        if kind: sim.faults[self.names[kind]] += 1
        sim.note("eval", call.n, [float(v) for v in call.values],
                 None if call.xSSE is None else fl(call.xSSE))
        sim.mark("s")
        for h in self.hooks: h(call)
        delay = self._delay(call)
        self.flying += 1
        self.maxFlying = max(self.maxFlying, self.flying)
        if delay is None and kind != self.STALL and not self.frozen:
            call.sync = True
            how, x = self._outcome(call)
            self._finish(call)
            return ("raise", x) if how == "raise" else ("value", x)
        call.sync = False
        call.d = d = defer.Deferred()
        if kind == self.STALL:
            self.held.append(call)
        else:
            if delay is None: delay = 0.0
            if self.frozen: self.held.append(call)
            else: sim.later(delay, self._fire, call)
        return "deferred", d

    def _delay(self, call):
        """None for an immediate result."""
        c = self.sim.c; m = self.latency
        if m == 0: return None if not self.mustDefer else 0.0
        if m == 1: return 0.0
        if m == 2: return c.frac("eval.delay")
        if m == 3:                  # heavy tail
            u = c.frac("eval.delay")
            return 0.01 / (1.0 - u)**2
        if m == 4:                  # later ones tend to be faster
            return 5.0/(1.0 + call.n % 17) + 0.01*c.frac("eval.delay")
        if m == 5:                  # stragglers
            if c.chance("eval.straggler", 0.15):
                self.sim.faults["eval-straggler"] += 1
                return 50.0 + c.frac("eval.delay")
            return 0.05*c.frac("eval.delay")
        if m == 6:                  # immediate and deferred mixed
            if c.chance("eval.sync", 0.5) and not self.mustDefer: return None
            return c.frac("eval.delay")
        if m == 7:                  # in lots: same delay, so that many finish together
            return float(c.pick("eval.delay", 3))
        raise ValueError(m)

    def _outcome(self, call):
        k = call.kind
        if k in (self.RAISE, self.FAIL):
            call.sse = None; call.raw = "failure"
            return "raise", RuntimeError("simulated evaluation failure")
        if k == self.INFINITE: raw = INF
        elif k == self.NONE: raw = None
        elif k == self.NAN: raw = float("nan")
        elif k == self.NEGATIVE:
            raw = self.sim.c.of("eval.negative", (-1.0, -1, -1e-9, np.float64(-3), -INF))
        else:
            raw = self.land(call.values)
            if self.cutoff and call.xSSE is not None and raw > call.xSSE:
                # Cut off somewhere above the limit
                u = self.sim.c.frac("eval.cut")
                part = call.xSSE + u*(raw - call.xSSE)
                if part > call.xSSE:
                    if part < raw: call.cut = True
                    raw = part
        call.raw = raw
        if raw is None or raw != raw: call.sse = INF
        elif raw < 0: call.sse = None
        else: call.sse = raw
        return "value", raw

    def _finish(self, call):
        call.done = True
        call.t1 = self.sim.reactor.now
        self.seq += 1
        call.seq1 = self.seq
        self.flying -= 1
        self.sim.note("eval-done", call.n, fl(call.raw))
        self.sim.mark("f%d" % call.n)
        for h in self.doneHooks: h(call)

    def _fire(self, call):
        if self.frozen:
            self.held.append(call)
            return
        how, x = self._outcome(call)
        self._finish(call)
        if how == "raise": call.d.errback(x)
        else: call.d.callback(x)

    def freeze(self):
        """From now on nothing started or under way is answered."""
        self.frozen = True

    def thaw(self, delays=True):
        """Answers everything held back, in a seeded order."""
        self.frozen = False
        held, self.held = self.held, []
        for call in held:
            delay = self.sim.c.frac("thaw.delay") if delays else 0.0
            if call.kind == self.STALL: call.kind = self.OK
            self.sim.later(delay, self._fire, call)
        return len(held)

    def lookup(self, values, sse):
        """The finished calls that gave exactly this SSE for these values."""
        return [c for c in self.byKey.get(key(values), ())
                if c.done and c.sse is not None and c.sse == sse]


class Snapshot:
    """Members at an instant: values, SSEs, object identities."""
    def __init__(self, p):
        self.objs = list(p)
        self.X = np.array([np.array(i.values, dtype=float) for i in self.objs]) \
            if self.objs else np.empty((0, 0))
        self.S = [float(i.SSE) for i in self.objs]
    def __len__(self): return len(self.objs)
    def same(self, other):
        return len(self) == len(other) and self.S == other.S and \
            self.X.shape == other.X.shape and bool(np.all(self.X == other.X))


class Gen:
    """What was seen of one generation."""
    def __init__(self, k, start):
        self.k = k; self.start = start; self.end = None; self.calls = []
        self.closedBy = None


class ReportCall:
    __slots__ = ("cb", "values", "counter", "sse", "t0", "t1", "n", "open",
                 "outcome", "when", "extra")
    def __init__(self): self.t1 = None; self.open = True; self.outcome = None


class Lab:
    """Drives ade and records."""
    def __init__(self, sim):
        self.sim = sim
        self.cfg = {}
        self.gens = []
        self.genCalls = []
        self.reports = []
        self.complaints = []
        self.openReports = 0
        self.tracking = False
        self.genHooks = []
        self.constraintCalls = []
        self.cbModes = []
        self.frozenCallbacks = False
        self.heldReports = []
        self.reportHooks = []
        self.runs = 0
        self.cbPlan = {}
        self.error = None

    # --- configuration --------------------------------------------------
    def makeBox(self, Nd):
        c = self.sim.c
        mins = []; maxs = []; center = []
        style = c.pick("cfg.box", 4)
        for k in range(Nd):
            if style == 0: lo, hi = 0.0, 1.0
            elif style == 1: lo, hi = -5.0, 5.0
            elif style == 2:
                lo = -10.0**c.pick("cfg.lo", 4); hi = 10.0**c.pick("cfg.hi", 4)
            else:
                lo = 1000.0*c.frac("cfg.lo"); hi = lo + 0.001 + c.frac("cfg.hi")
            mins.append(lo); maxs.append(hi)
            center.append(0.1 + 0.8*c.frac("cfg.center"))
        self.mins, self.maxs, self.center = mins, maxs, center
        self.bounds = list(zip(mins, maxs))
        self.names = ["p%d" % k for k in range(Nd)]
        if c.chance("cfg.names", 0.5):
            # In no alphabetical order
            self.names = (["zeta", "p10", "p2", "alpha", "B", "b", "_x", "Z", "y1", "k"]
                          + self.names)[:Nd]
        self.Nd = Nd

    def makePopulation(self, Np, func, constraints=None, complaint=None, **kw):
        from ade.population import Population
        # Size from the minimum, from the size per parameter or from the maximum
        style = self.sim.c.pick("cfg.npstyle", 4)
        if style == 3:
            Population.Np_min = 3
            Population.Np_max = Np
            kw.setdefault("popsize", Np)
        elif style == 2 and Np > self.Nd + 1:
            Population.Np_min = 4
            kw.setdefault("popsize", -(-Np // self.Nd))
        else:
            Population.Np_min = Np
            kw.setdefault("popsize", 1)
        if constraints is not None: kw["constraints"] = constraints
        if complaint is not None: kw["complaintCallback"] = complaint
        self.p = Population(func, list(self.names), list(self.bounds), **kw)
        # The default may be another one for the next population
        h = self.p.history
        if hasattr(h, "N_max"): h.N_max = h.N_max
        return self.p

    # --- actions ----------------------------------------------------------
    def watch(self, d):
        """Follows a Deferred without disturbing it."""
        box = {"fired": 0, "result": None, "failure": None, "t": None}
        def ok(x):
            box["fired"] += 1; box["result"] = x; box["t"] = self.sim.reactor.now
            self.sim.note("fired", box.get("name"), type(x).__name__
                          if x is not None and not isinstance(x, bool) else x)
            return x
        def bad(f):
            box["fired"] += 1; box["failure"] = f; box["t"] = self.sim.reactor.now
            self.sim.note("failed", box.get("name"), f.getErrorMessage()[:200])
            self.sim.failureText = f.getTraceback()
        d.addCallbacks(ok, bad)
        return box

    def setup(self, **kw):
        try:
            d = self.p.setup(**kw)
        except Exception as e:
            d = defer.fail(e)
        box = self.watch(d)
        box["name"] = "setup"
        return box

    DEFAULTS = {"CR": 0.8, "F": (0.5, 1.0), "maxiter": 500, "randomBase": False,
                "uniform": False, "adaptive": True, "bitterEnd": False,
                "dwellByGrave": 5, "goalSSE": None, "xSSE": False}

    def startDE(self, func=True, **kw):
        from ade.de import DifferentialEvolution
        # Ellipsis for none given
        if kw.setdefault("logHandle", None) is Ellipsis: del kw["logHandle"]
        # What is the documented default anyway is left out at times
        if self.sim.c.pick("cfg.omit", 2):
            for k in [k for k, v in self.DEFAULTS.items() if k in kw and
                      (tuple(kw[k]) if isinstance(kw[k], list) else kw[k]) == v]:
                del kw[k]
        self.de = DifferentialEvolution(self.p, **kw)
        self.runs += 1
        self.ev.phase = "evolve"
        self.gens = []
        self.genCalls = []
        self.newGen(0)
        try:
            if func is True: func = self.generation
            d = self.de(func) if func else self.de()
        except Exception as e:
            d = defer.fail(e)
        box = self.watch(d)
        box["name"] = "run"
        self.runBox = box
        return box

    def newGen(self, k):
        g = Gen(k, Snapshot(self.p))
        self.gens.append(g)
        self.ev.gen = g

    def attach(self, ev):
        self.ev = ev
        def started(call):
            if call.gen is not None: call.gen.calls.append(call)
        ev.hooks.insert(0, started)

    def generation(self, kg):
        self.sim.guard(self._generation, kg)

    def _generation(self, kg):
        self.sim.note("generation", kg)
        self.genCalls.append(kg)
        g = self.gens[-1]
        g.end = Snapshot(self.p)
        g.closedBy = "callback"
        self.newGen(g.k + 1)
        for h in self.genHooks: h(kg, g)

    def closeGen(self):
        """Closes the generation under way when a run has ended."""
        g = self.gens[-1]
        if g.end is None:
            g.end = Snapshot(self.p)
            g.closedBy = "end"

    # --- report callbacks ---------------------------------------------------
    def addReporter(self, mode, extra=False):
        """
        mode: 0 immediate, 1 next tick, 2 random delay, 3 slow.
        extra: with arguments of its own.
        """
        n = len(self.cbModes)
        self.cbModes.append(mode)
        given = (("mine", n), {"also": n}) if extra and n != 1 else ((), {})
        def callback(values, counter, sse, *args, **kw):
            bad = None if (args, kw) == given else repr((args, kw))
            res = self.sim.guard(self._report, n, values, counter, sse, bad)
            if isinstance(res, tuple) and res[0] == "raise": raise res[1]
            return res
        self.p.addCallback(callback, *given[0], **given[1])

    def _report(self, n, values, counter, sse, extra=None):
        sim = self.sim
        r = ReportCall()
        r.extra = extra
        r.n = len(self.reports)
        r.cb = n; r.values = np.array(values, dtype=float)
        r.counter = counter; r.sse = float(sse); r.t0 = sim.reactor.now
        r.when = len(sim.events)
        self.reports.append(r)
        self.openReports += 1
        sim.note("report", r.n, n, fl(sse), [float(v) for v in r.values])
        sim.mark("r")
        for h in self.reportHooks: h(r)
        what = self.cbPlan(r) if callable(self.cbPlan) else self.cbPlan.get(r.n)
        mode = self.cbModes[n]
        if what is None: what = ("ok", None)
        r.outcome = what
        if mode == 0 and not self.frozenCallbacks:
            return self._reportDone(r, None)
        d = defer.Deferred()
        if what[0] == "stall" or self.frozenCallbacks:
            sim.faults["callback-stall"] += 1
            self.heldReports.append((r, d))
            return d
        if mode == 1: delay = 0.0
        elif mode == 2: delay = sim.c.frac("report.delay")
        elif mode == 3: delay = 30.0*sim.c.frac("report.delay")
        else: delay = 0.0
        sim.later(delay, self._reportLater, r, d)
        return d

    def _reportLater(self, r, d):
        if self.frozenCallbacks: self.heldReports.append((r, d))
        else: self._reportDone(r, d)

    def _reportDone(self, r, d):
        sim = self.sim
        r.open = False
        r.t1 = sim.reactor.now
        self.openReports -= 1
        sim.note("report-done", r.n, r.outcome[0])
        sim.mark("q")
        kind, x = r.outcome
        if kind == "fail":
            sim.faults["callback-fail"] += 1
            e = self.error or RuntimeError("simulated callback failure")
            if d is None: return ("raise", e)
            d.errback(e)
        elif kind == "complain":
            sim.faults["complaint"] += 1
            if d is None: return x
            d.callback(x)
        else:
            if d is None: return None
            d.callback(None)

    def releaseReports(self):
        held, self.heldReports = self.heldReports, []
        for r, d in held:
            if r.outcome[0] == "stall": r.outcome = ("ok", None)
            self.sim.later(self.sim.c.frac("thaw.delay"), self._reportDone, r, d)

    # --- console ------------------------------------------------------------
    def pressEnter(self):
        from .core import FakeConsole
        self.sim.faults["enter-key"] += 1
        self.sim.note("enter")
        self.sim.mark("E")
        FakeConsole.current.proto.dataReceived(b"\n")


# --- common configuration -----------------------------------------------------

def standard(sim, nd=(2, 3, 4), np_=(5, 6, 7, 9), lands=None, latencies=None,
             invalid=True, cutoff=False, reporters=True, constraints=None,
             modes=(0, 1, 2, 3), complaint=None, big=0.05, nmax=0.1, **kw):
    """
    A laboratory with population, evaluator, landscape and reporters drawn from
    the choices. constraints: probability of having some; big: of unusual numbers
    of members and parameters; nmax: of a history that soon fills up.
    """
    c = sim.c
    lab = Lab(sim)
    if big and c.chance("cfg.big", big):
        nd = c.of("cfg.bignd", (nd, (1, 6, 10)))
        np_ = c.of("cfg.bignp", (np_, (13, 21, 34), (4, 5)))
    lab.makeBox(c.of("cfg.nd", nd))
    lab.Np = c.of("cfg.np", np_)
    if nmax and c.chance("cfg.short", nmax):
        from ade.history import History
        History.N_max = lab.Np + 1 + c.pick("cfg.nmax", 20)
    lands = lands or Landscape.kinds
    lab.land = Landscape(c.of("cfg.land", lands), lab.mins, lab.maxs, lab.center)
    latencies = latencies if latencies is not None else (0, 2, 1, 3, 4, 5, 6, 7)
    latency = c.of("cfg.latency", latencies)
    weights = [1]
    if invalid:
        level = c.of("cfg.invalid", (0.0, 0.0, 0.1, 0.4))
        if level:
            weights = [1.0, level*c.frac("cfg.w")*2, level*c.frac("cfg.w")*2,
                       level*c.frac("cfg.w")*2]
    ev = Evaluator(sim, lab.land, latency, weights, cutoff)
    lab.attach(ev)
    lab.constraint = None
    cons = None
    if constraints and c.chance("cfg.cons", constraints):
        cons = makeConstraint(lab, c.pick("cfg.constype", 3))
    lab.makePopulation(lab.Np, ev, constraints=cons, complaint=complaint, **kw)
    lab.Np = lab.p.Np
    sim.stall = c.of("cfg.stall", (0.0, 0.0, 0.01))
    if reporters:
        for k in range(c.pick("cfg.reporters", 3)):
            lab.addReporter(c.of("cfg.cbmode", modes))
    return lab


def makeConstraint(lab, kind):
    """A constraint on the parameters, given as a dict by name."""
    names = lab.names; mins = lab.mins; maxs = lab.maxs
    def unit(d):
        return [(d[n] - lo)/(hi - lo) for n, lo, hi in zip(names, mins, maxs)]
    def ok(d):
        u = unit(d)
        if kind == 0: return u[0] + u[-1] < 1.5
        if kind == 1: return u[0] <= u[-1] + 0.35
        return sum((x-0.5)**2 for x in u) < 0.25*len(u)
    def constraint(d):
        good = ok(d)
        lab.sim.guard(lab.constraintCalls.append, (
            lab.sim.reactor.now, dict(d), good,
            lab.gens[-1].k if lab.gens else -1, constraint.inForce))
        return good
    constraint.inForce = True
    constraint.ok = ok
    lab.constraint = constraint
    return constraint


def history(lab):
    return lab.p.history


class Scripted:
    """
    A fitness function by decree: per generation, how its challengers fare.
    0: all fail; 1: one is far better; 2: one is slightly better than the best;
    3: one ties with the best; 4: several are better.
    """
    def __init__(self, lab, weights):
        self.lab = lab
        self.weights = weights
        self.n = 0
        self.gen = None

    def __call__(self, x):
        self.n += 1
        if not self.lab.gens:
            return 1000.0 + self.n
        g = self.lab.gens[-1]
        if g is not self.gen:
            self.gen = g
            self.kind = self.lab.sim.c.weighted("land.kind", self.weights)
            self.left = {1: 1, 2: 1, 3: 1, 4: 3}.get(self.kind, 0)
            self.skip = self.lab.sim.c.pick("land.skip", 3)
        if self.left:
            if self.skip: self.skip -= 1
            else:
                self.left -= 1
                best = min(float(i.SSE) for i in self.lab.p)
                if self.kind in (1, 4): return best*0.5
                if self.kind == 2: return best*0.995
                return best
        return 1e6 + self.n
