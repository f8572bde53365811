"""
C15: saved populations round-trip and resume faithfully in a new process.
"""
import collections, os

import numpy as np

from ..world import standard, Lab, Evaluator, Landscape, INF
from .c14 import Model, rec, query, order, MEMBER, FORMER, NEVER

RUNS = {"quick": 2500, "thorough": 50000}
HASHSEEDS = (0, 77, 5)
SCRATCH = True
RULE = ("Phase one sets up and evolves a population and saves it at a seeded moment; "
        "phases two and three, each in another process with another hash seed, load it "
        "(perhaps with new bounds), compare everything with what was saved, evolve it on "
        "and save again. A run is non-trivial if at least one load was judged.")
REAL = ["ade.population", "ade.history", "ade.individual", "ade.de", "ade.report",
        "ade.constraints", "pickle, bz2, file system (scratch directory)",
        "process restart"]
STUB = ["reactor and clock (virtual)", "evaluation function", "report callbacks",
        "stdin"]
ASSUMPTIONS = ["population sizes 5-9, 2-4 parameters, up to three processes in sequence",
               "the history of a population saved in the middle of something is compared "
               "as it was at that instant, but not judged after resuming"]
Counter = collections.Counter


class SumLimit:
    """A constraint, made to be picklable."""
    def __init__(self, limit): self.limit = limit
    def __call__(self, params):
        return sum(params.values()) <= self.limit

def firstBelowLast(params):
    names = sorted(params)
    return params[names[0]] <= params[names[-1]] + 0.6

def verdicts(p, points):
    return [bool(p.pm.passesConstraints(np.array(x))) for x in points]


def describe(p, names, points):
    """Everything observable at once about a population, JSON-able."""
    best = p.best()
    h = p.history
    return {
        "X": [[float(v) for v in i.values] for i in p],
        "S": [float(i.SSE) for i in p],
        "best": None if best is None else
            [float(best.SSE)] + [float(v) for v in best.values],
        "mins": [float(x) for x in p.pm.mins],
        "maxs": [float(x) for x in p.pm.maxs],
        "names": list(p.pm.names), "Np": int(p.Np), "Nd": int(p.Nd),
        "verdicts": verdicts(p, points),
        "rows": [[float(v) for v in h[k]] for k in range(len(h))],
        "nmax": int(h.N_max),
    }


def records(sim, h, names):
    """History records by status; None if none."""
    if not len(h): return {MEMBER: [], FORMER: [], NEVER: []}
    errs = []; fin = []
    query(h, names, errs, fin.append)
    sim.run(lambda: fin or errs, maxSteps=3000)
    if not fin: return None
    return {s: sorted([list(r) for r in rows]) for s, rows in fin[0].items()}


# --- first process -------------------------------------------------------------

def first(sim):
    c = sim.c
    from ade.history import History, ClosestPairFinder
    if c.chance("cfg.sampled", 0.2): ClosestPairFinder.Np_max = 6
    Np = c.of("cfg.np0", (5, 6, 7, 9, 5, 6, 7, 24))
    History.N_max = c.of("cfg.nmax", (400, 60, 12, 30)) + Np
    lots = 0
    if c.chance("cfg.lots", 0.06):
        # A history of realistic size
        lots = 100 + c.pick("cfg.nlots", 1600)
        History.N_max = c.of("cfg.nmaxlots", (1500, 300, 70000))
    lab = standard(sim, np_=(Np,), big=0, nmax=0, modes=(2, 0, 1, 3),
                   lands=("sphere", "corner", "ripple", "valley", "steep", "quantised",
                          "huge", "worsening", "zero", "extreme"),
                   complaint=lambda i, x: None)
    ev = lab.ev; p = lab.p
    # Constraints that can be pickled
    kind = c.pick("cfg.picklable", 4)
    lim = sum(lo + 0.75*(hi - lo) for lo, hi in lab.bounds)
    lab.cons = []
    if kind == 1: lab.cons = [SumLimit(lim)]
    elif kind == 2: lab.cons = [firstBelowLast, SumLimit(lim)]
    elif kind == 3:
        lab.cons = [SumLimit(sum(lo + 0.6*(hi - lo) for lo, hi in lab.bounds))]
    p.setConstraints(*lab.cons)
    lab.points = [[lo + (hi - lo)*c.frac("cfg.point", 7) for lo, hi in lab.bounds]
                  for k in range(6)]
    if c.chance("cfg.gripe", 0.3):
        lab.cbPlan = lambda r: ("complain", "bad") if c.chance("report.gripe", 0.15) else None
    path = os.path.join(sim.scratch, "p.dat")
    when = c.of("save.when", ("rest", "event", "generation", "eval", "report", "aborted",
                              "fatal", "setup", "twice"))
    st = {"doc": None, "after": c.pick("save.after", 50)}

    def save(where):
        if st["doc"] is not None: return
        sim.probes["saved-" + where] += 1
        st["doc"] = doc = describe(p, lab.names, lab.points)
        doc["complete"] = len(p) == p.Np
        doc["where"] = where
        doc["rest"] = False
        doc["cons"] = kind
        doc["points"] = lab.points
        doc["center"] = lab.center
        name = path
        if c.chance("save.home", 0.2):
            os.environ["HOME"] = sim.scratch
            name = "~/p.dat"
        try: p.save(name)
        except Exception as e:
            sim.violate("save", "saving in %s failed with %s: %s" % (
                where, type(e).__name__, e))
        sim.note("saved", where, doc["S"])

    def at(where):
        """Saves here when it is time to."""
        def hook(*args):
            if when != where or st["doc"] is not None: return
            st["after"] -= 1 if where in ("event", "eval") else 4
            if st["after"] < 0: save(where)
        return hook
    ev.hooks.append(at("eval"))
    lab.genHooks.append(at("generation"))
    lab.reportHooks.append(at("report"))
    sim.monitors.append(at("event"))
    if when == "fatal":
        ev.plan[lab.Np + 3 + st["after"] % 20] = ev.NEGATIVE
        sim.faults["eval-negative"] += 1

    def finish():
        if sim.found: return
        if st["doc"] is None:
            sim.settle()
            if sim.found: return
        if st["doc"] is None:
            save("rest" if when not in ("aborted", "fatal") else when)
            if sim.found: return
            if when not in ("aborted", "fatal"):
                got = records(sim, p.history, lab.names)
                if got is not None:
                    st["doc"]["rest"] = True
                    st["doc"]["records"] = got
        sim.carry = st["doc"]

    sim.nontrivial = False
    box = lab.setup(uniform=c.chance("cfg.uniform", 0.3))
    if when == "setup":
        for k in range(st["after"]):
            if box["fired"] or not sim.step(): break
        if box["fired"] and box["result"] is not True: return
        save("setup")
        sim.carry = st["doc"]
        return
    if sim.run(lambda: box["fired"]) != "done" or box["result"] is not True: return
    if lots:
        for k in range(lots):
            i = p.spawn(np.array([lo + (hi - lo)*((k*37) % 1009)/1009.0
                                  for lo, hi in lab.bounds]))
            i.SSE = 1e3 + (k*61) % 977
            p.history.add(i, neverInPop=bool(k % 3))
        sim.probes["large-history"] += 1
        fin = []
        p.history.shutdown().addBoth(fin.append)
        if sim.run(lambda: fin, maxSteps=100000) != "done": return
    for run in range(c.of("cfg.runs", (1, 0, 2))):
        if st["doc"] is not None or when == "twice" and run: break
        rb = lab.startDE(
            CR=c.of("cfg.CR", (0.8, 0.3, 1.0)), F=c.of("cfg.F", (0.8, 0.5)),
            maxiter=c.of("cfg.maxiter", (3, 1, 6)), adaptive=c.chance("cfg.adaptive", 0.3),
            bitterEnd=True, xSSE=c.chance("cfg.xSSE", 0.2),
            randomBase=c.of("cfg.base", (False, True, 0.5)))
        if when == "aborted":
            for k in range(st["after"]):
                if rb["fired"] or not sim.step(): break
            lab.pressEnter()
            if c.chance("save.soon", 0.5): save("aborted")
            return finish()
        how = sim.run(lambda: rb["fired"])
        if sim.found or how != "done" or rb["failure"]: return
        if when == "twice":
            # An earlier save is replaced by the later one
            p.save(path)
            sim.probes["resaved"] += 1
    finish()


# --- further processes ------------------------------------------------------------

def compare(sim, doc, p, new):
    """Judges a population just loaded."""
    now = describe(p, doc["names"], doc["points"])
    sim.evaluations += 1
    def differ(cls, what, a, b):
        sim.violate(cls, "%s saved in %s, but %s loaded: %s" % (
            what, doc["where"], "another was", "%s -> %s" % (str(a)[:160], str(b)[:160])))
    for name in ("names", "Np", "Nd", "verdicts"):
        if now[name] != doc[name]:
            return differ("attribute", name, doc[name], now[name])
    X = doc["X"]
    lo, hi = doc["mins"], doc["maxs"]
    if new:
        lo, hi = [x[0] for x in new], [x[1] for x in new]
        out = []
        for row in X:
            row = np.array(row)
            a, b = np.array(lo), np.array(hi)
            row = np.where(row < a, 2*a - row, row)
            row = np.where(row > b, 2*b - row, row)
            out.append([float(v) for v in np.clip(row, a, b)])
        X = out
    if now["mins"] != lo or now["maxs"] != hi:
        return differ("bounds", "bounds", (lo, hi), (now["mins"], now["maxs"]))
    if now["S"] != doc["S"]: return differ("members", "SSEs", doc["S"], now["S"])
    if now["X"] != X: return differ("members", "values", X, now["X"])
    if not new and now["best"] != doc["best"] and doc["S"].count(min(doc["S"])) == 1:
        return differ("best", "best", doc["best"], now["best"])
    if now["rows"] != doc["rows"]:
        return differ("history", "history", doc["rows"][:3], now["rows"][:3])
    for i in p:
        if i.p is not p: return sim.violate("members", "member belongs to no population")


def resume(sim):
    c = sim.c
    from ade.population import Population
    from ade.history import ClosestPairFinder
    if c.chance("cfg.sampled", 0.2): ClosestPairFinder.Np_max = 6
    doc = sim.carry
    sim.carry = None
    lab = Lab(sim)
    lab.names = doc["names"]; lab.Nd = doc["Nd"]
    lab.mins, lab.maxs = doc["mins"], doc["maxs"]
    new = None
    if c.chance("load.bounds", 0.35) and doc["complete"]:
        new = []
        for lo, hi in zip(lab.mins, lab.maxs):
            a = lo + (hi - lo)*0.4*(c.frac("load.lo")*c.of("load.in", (1, 0, -1)))
            b = hi - (hi - lo)*0.4*(c.frac("load.hi")*c.of("load.in", (1, 0, -1)))
            new.append((a, b))
        lab.mins, lab.maxs = [x[0] for x in new], [x[1] for x in new]
        sim.probes["new-bounds"] += 1
    lab.center = doc["center"]
    lab.bounds = list(zip(lab.mins, lab.maxs))
    ev = Evaluator(sim, Landscape(c.of("cfg.land", ("sphere", "corner", "ripple", "valley",
                                                    "steep", "quantised")),
                                  lab.mins, lab.maxs, lab.center),
                   c.of("cfg.latency", (2, 1, 3, 4, 5, 7)))
    lab.attach(ev)
    path = os.path.join(sim.scratch, "p.dat")
    kw = {}
    if new: kw["bounds"] = new
    if c.chance("load.complaint", 0.5): kw["complaintCallback"] = lambda i, x: None
    try: p = lab.p = Population.load(path, func=ev, **kw)
    except Exception as e:
        return sim.violate("load", "file saved in %s could not be loaded: %s: %s" % (
            doc["where"], type(e).__name__, e))
    compare(sim, doc, p, new)
    if sim.found: return
    h = p.history
    model = None
    if doc["rest"]:
        got = records(sim, h, lab.names)
        if got is not None:
            sim.evaluations += 1
            if got != doc["records"]:
                for s in got:
                    if got[s] != doc["records"][s]:
                        return sim.violate("history", "%s records: %s saved, %s loaded" % (
                            s, doc["records"][s][:3], got[s][:3]))
            model = Model(doc["nmax"])
            for s in got:
                model.have[s] = Counter(tuple(r) for r in got[s])
    if not doc["complete"]:
        # Only setup can follow
        box = lab.setup()
        how = sim.run(lambda: box["fired"])
        if sim.found: return
        sim.evaluations += 1
        if how != "done" or box["result"] is not True or len(p) != p.Np:
            sim.violate("resume", "population saved during setup can't be set up again")
        return
    # Evolve on
    for k in range(c.pick("cfg.reporters", 3)): lab.addReporter(c.of("cfg.cbmode", (2, 0, 1, 3)))
    lo, hi = np.array(lab.mins), np.array(lab.maxs)
    tol = 1e-9*(np.abs(lo) + np.abs(hi) + (hi - lo))
    def inside(call):
        if np.any(call.values < lo - tol) or np.any(call.values > hi + tol):
            sim.violate("bounds", "evaluation out of bounds after loading")
        elif not p.pm.passesConstraints(call.values) or \
             not expected(call.values):
            sim.violate("constraints", "evaluation against the constraints after loading")
    def expected(values):
        d = dict(zip(lab.names, values))
        if doc["cons"] == 0: return True
        if doc["cons"] == 2 and not firstBelowLast(d): return False
        return all(f(d) for f in p.pm.constraints)
    ev.hooks.append(inside)

    # The record of a member is the one it had when saved
    slots = []
    for k, i in enumerate(p):
        slots.append((i, rec(doc["S"][k], recOf(doc, k))))
    won = []
    def follow():
        for k, i in enumerate(p):
            j, r = slots[k]
            if i is j: continue
            if not ev.lookup(i.values, float(i.SSE)):
                return sim.violate("members", "member %d has SSE %r, not what its evaluation "
                                   "gave" % (k, float(i.SSE)))
            if not float(i.SSE) < float(j.SSE):
                return sim.violate("members", "member replaced by a worse one after loading")
            new = rec(i.SSE, i.values)
            slots[k] = (i, new)
            won.append((i.values.tobytes(), float(i.SSE)))
            if model is None: continue
            if r is not None: model.drop(r)
            model.add(new, MEMBER)
    sim.monitors.append(follow)
    M = c.of("cfg.maxiter", (2, 1, 4, 0))
    rb = lab.startDE(CR=c.of("cfg.CR", (0.8, 0.3, 1.0)), F=c.of("cfg.F", (0.8, 0.5)),
                     maxiter=M, adaptive=c.chance("cfg.adaptive", 0.3), bitterEnd=True,
                     randomBase=c.of("cfg.base", (False, True, 0.5)))
    how = sim.run(lambda: rb["fired"])
    if sim.found: return
    follow()
    sim.evaluations += 1
    if how != "done" or rb["failure"] or rb["result"] is not p:
        return sim.violate("resume", "run of a loaded population: %s %s" % (
            how, rb["failure"] and rb["failure"].getErrorMessage()))
    if lab.genCalls != list(range(M)):
        return sim.violate("resume", "run of a loaded population had generation callbacks %s "
                           "instead of %d" % (lab.genCalls, M))
    sim.settle()
    if sim.found: return
    out = describe(p, lab.names, doc["points"])
    if model is not None:
        left = Counter(won)
        for x in ev.calls:
            kx = (x.values.tobytes(), x.sse)
            if left[kx]: left[kx] -= 1
            else: model.add(rec(x.sse, x.values), NEVER)
        got = records(sim, h, lab.names)
        if got is not None:
            sim.evaluations += 1
            bad = model.judge({s: [tuple(r) for r in rows] for s, rows in got.items()})
            if bad:
                return sim.violate("history-" + bad[0], "after resuming%s: %s" % (
                    " with new bounds" if new else "", bad[1]))
            order(sim, h)
            if sim.found: return
            out["records"] = got
    out.update(complete=True, where="rest", rest="records" in out, cons=doc["cons"],
               points=doc["points"], center=doc["center"])
    # Members' records can differ from their values when bounds were changed
    out["R"] = [list(r) if r is not None else None for i, r in slots]
    p.save(path)
    sim.carry = out


def recOf(doc, k):
    """Values of member k as in its history record."""
    r = doc.get("R")
    if r and r[k] is not None: return r[k][1:]
    return doc["X"][k]


phases = [first, resume, resume]
