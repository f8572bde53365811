"""
C22: declared constraint methods see the right parameters in linear form.
"""
import os

from ..world import standard

RUNS = {"quick": 2500, "thorough": 60000}
SCRATCH = True
RULE = ("An object of declared constraint methods is given to one or two populations "
        "evolved at the same time, whole or unpacked, at construction or at seeded "
        "instants of the runs, with functions appended meanwhile and through save and "
        "load. Every call of a method or appended function is recorded with the "
        "parameters it was given; they are compared with those of the vector being "
        "judged (known for vectors evaluated and for vectors put to the test by the "
        "harness). Non-trivial if a method with a logarithmic parameter was called.")
REAL = ["ade.constraints", "ade.de", "ade.population", "ade.individual", "ade.report",
        "ade.history", "asynqueue.DeferredTracker", "twisted Deferred/locks/task",
        "file system"]
STUB = ["reactor and clock (virtual)", "evaluation function",
        "bodies of the constraint methods", "report callbacks", "stdin"]
ASSUMPTIONS = ["up to four methods and two appended functions, 2-4 parameters"]

CALLS = []
CLASSES = {}


def verdict(name, items, level):
    """
    Some verdict that depends on every value: low enough a level lets
    most vectors pass.
    """
    t = 0.0
    for k, (n, x) in enumerate(sorted(items)):
        t += (k + 1)*float(x)*(1.37 if len(name) % 2 else 0.73)
    return (t*7.31) % 1.0 >= level


def method(name):
    def f(self, params):
        items = list(params.items())
        CALLS.append((name, dict(params)))
        v = verdict(name, items, self.level)
        return v if self.plain else (1 if v else 0)
    f.__name__ = name
    return f


class Raw:
    def __init__(self, name, level):
        self.name = name; self.level = level

    def __call__(self, params):
        CALLS.append((self.name, dict(params)))
        return self.ok(params)

    def ok(self, params):
        return verdict(self.name, list(params.items()), self.level)


class Rel:
    """
    A checker of linear relations, appended like any function.
    """
    def __init__(self, name, relations):
        from ade.constraints import RelationsChecker
        self.name = name; self.relations = relations
        self.checker = RelationsChecker(relations)

    def ok(self, d):
        return all(abs(m*d[x] + b - d[y]) <= e
                   for x, ys in self.relations.items()
                   for y, (m, b, e) in ys.items())

    def __call__(self, params):
        CALLS.append((self.name, dict(params)))
        return self.checker(params)


def base():
    """
    The subclass, made once per process so that it can be pickled.
    """
    if "Con" not in CLASSES:
        from ade.constraints import Constraints

        class Con(Constraints):
            plain = True

            def setup(self, *args):
                self.args = args
                self.seen = (getattr(self, "level", None), getattr(self, "registry", None))

        for k in range(4):
            setattr(Con, "m%d" % k, method("m%d" % k))
        Con.__module__ = __name__
        Con.__qualname__ = "Con"
        globals()["Con"] = Con
        CLASSES["Con"] = Con
    return CLASSES["Con"]


def scenario(sim):
    c = sim.c
    Con = base()
    del CALLS[:]
    def fresh(nd=(2, 3, 4), big=0.05):
        lab = standard(sim, nd=nd, big=big)
        # Logarithmic parameters need bounds that can be converted
        lab.mins = [c.of("box.lo", (-2.0, 0.0, -1.5, 0.25)) for _ in lab.names]
        lab.maxs = [lo + c.of("box.w", (1.0, 3.0, 0.5)) for lo in lab.mins]
        lab.bounds = list(zip(lab.mins, lab.maxs))
        lab.land.__init__(lab.land.kind, lab.mins, lab.maxs, lab.center)
        return lab
    lab = fresh()
    ev = lab.ev
    names = list(lab.names)

    def declare():
        reg = {}
        for k in range(c.of("reg.n", (1, 2, 3, 4, 0))):
            # Absent parameters may be declared, too
            pool = names + (["absent"] if c.chance("reg.absent", 0.25) else [])
            lin = [n for n in pool if c.chance("reg.lin", 0.4)]
            log = [n for n in pool if n not in lin and c.chance("reg.log", 0.4)]
            if not lin and not log: lin = [pool[c.pick("reg.one", len(pool))]]
            form = c.of("reg.form", (set, frozenset, list, tuple))
            reg["m%d" % k] = (form(lin) if lin else None, form(log) if log else None)
        return reg

    def relations():
        """Relations of parameters that leave something to evaluate"""
        out = {}
        for _ in range(1 + c.pick("rel.n", 2)):
            x = c.pick("rel.x", len(names)); y = c.pick("rel.y", len(names))
            if x == y: y = (x + 1) % len(names)
            m = (lab.maxs[y] - lab.mins[y])/(lab.maxs[x] - lab.mins[x])
            if c.chance("rel.down", 0.5):
                m = -m; b = lab.maxs[y] - m*lab.mins[x]
            else: b = lab.mins[y] - m*lab.mins[x]
            out.setdefault(names[x], {})[names[y]] = (
                m, b, abs(lab.maxs[y] - lab.mins[y])*c.of("rel.e", (0.7, 0.85)))
        return out

    class Spec:
        """What has been declared, from which the expectation is made"""
        def __init__(self):
            self.reg = declare()
            self.level = c.of("con.level", (0.1, 0.0, 0.25))
            self.raws = []
            arg = c.pick("con.arg", 3)
            plain = c.chance("con.plain", 0.5)
            self.obj = Con(*(["a", 2][:arg]), registry=self.reg, level=self.level,
                           plain=plain)
            if self.obj.args != tuple(["a", 2][:arg]) or \
               self.obj.seen != (self.level, self.reg):
                sim.violate("construction", "setup method got %r with attributes %r" % (
                    self.obj.args, self.obj.seen))

        def add(self):
            name = "f%d" % len(self.raws)
            if c.chance("con.rel", 0.4): raw = Rel(name, relations())
            else: raw = Raw(name, self.level*0.5)
            self.raws.append(raw)
            self.obj.append(raw)

        def expected(self, d, raws):
            """
            The calls to be made for parameters d, and the overall verdict
            """
            out = []
            for m in self.reg:
                lin, log = self.reg[m]
                want = {}
                if any(n not in d for n in list(lin or ()) + list(log or ())):
                    continue
                for n in lin or (): want[n] = d[n]
                for n in log or (): want[n] = 10.0**d[n]
                out.append((m, want))
                if not verdict(m, list(want.items()), self.level): return out, False
            for raw in raws:
                out.append((raw.name, dict(d)))
                if not raw.ok(d): return out, False
            return out, True

    def same(got, want):
        return got[0] == want[0] and set(got[1]) >= set(want[1]) and \
            all(abs(got[1][n] - want[1][n]) <= 1e-9*(1 + abs(want[1][n]))
                for n in want[1]) and \
            all(n in want[1] or abs(got[1][n]) >= 0 for n in got[1])

    def judge(d, calls, result, spec, raws, where):
        want, ok = spec.expected(d, raws)
        sim.evaluations += 1
        if any(spec.reg.get(w[0], (None, None))[1] for w in want): sim.nontrivial = True
        # Every method that has been called must have been given what it declares;
        # the order of the calls is the object's business
        for g in calls:
            if g[0] in spec.reg:
                lin, log = spec.reg[g[0]]
                full = {n: d[n] for n in (lin or ()) if n in d}
                full.update({n: 10.0**d[n] for n in (log or ()) if n in d})
                if len(full) < len(lin or ()) + len(log or ()):
                    return sim.violate("absent", "%s: %s was called with %r although not "
                                       "all it declares is in %r" % (where, g[0], g[1], d))
            else: full = dict(d)
            if not same(g, (g[0], full)) or (g[0] not in spec.reg and set(g[1]) != set(d)):
                return sim.violate("parameters", "%s: %s was given %r, not %r, with "
                                   "parameters %r" % (where, g[0], g[1], full, d))
        if bool(result) != ok:
            return sim.violate("verdict", "%s: %r was taken as %s; the declared methods "
                               "%s of it" % (where, d, "satisfying" if result
                                             else "violating",
                                             "approve" if ok else "disapprove"))
        if ok and sorted(g[0] for g in calls) != sorted(w[0] for w in want):
            sim.violate("calls", "%s: called %s, should have called %s" % (
                where, [g[0] for g in calls], [w[0] for w in want]))

    spec = Spec()
    for _ in range(c.pick("con.raws", 2)): spec.add()
    st = {}
    how = c.pick("cfg.how", 2)
    lab.makePopulation(lab.Np, ev, constraints=spec.obj if how == 0 else list(spec.obj))
    for k in range(c.pick("cfg.reporters2", 2)): lab.addReporter(2)
    st[0] = [spec, None if how == 0 else list(spec.raws)]
    other = None
    if c.chance("cfg.two", 0.4):
        # The same object used for another population at the same time
        other = fresh((lab.Nd, lab.Nd + 1), 0)
        other.names = names + ["other"]*(other.Nd - lab.Nd)
        other.makePopulation(other.Np, other.ev, constraints=spec.obj)
        st[1] = [spec, None]
        sim.probes["two"] += 1

    def raws(k):
        s, fixed = st[k]
        return s.raws if fixed is None else fixed

    def probe(where):
        """Put a vector of our own to the test"""
        pm = lab.p.pm
        u = [lo + (hi - lo)*c.frac("probe.u") for lo, hi in zip(lab.mins, lab.maxs)]
        before = list(CALLS); del CALLS[:]
        import numpy as np
        result = pm.passesConstraints(np.array(u))
        calls = list(CALLS)
        del CALLS[:]; CALLS.extend(before)
        judge(dict(zip(names, u)), calls, result, st[0][0], raws(0), where)

    def evaluated(call, k=0, names=names):
        d = dict(zip(names, [float(x) for x in call.values]))
        s = st[k][0]
        want, ok = s.expected(d, raws(k))
        sim.evaluations += 1
        if any(s.reg.get(w[0], (None, None))[1] for w in want): sim.nontrivial = True
        if not ok:
            return sim.violate("evaluated", "evaluated %r, of which the declared method "
                               "%s disapproves" % (d, want[-1][0]))
        # The approving calls are among the recorded ones
        for w in want:
            if not any(same(g, w) for g in CALLS[-400:]):
                return sim.violate("parameters", "%s was not given %r before these "
                                   "parameters were evaluated" % w)
    ev.hooks.append(evaluated)
    if other:
        other.ev.hooks.append(lambda call: evaluated(call, 1, list(other.names)))

    def act(where):
        a = c.weighted("act", [6, 2, 1, 1, 0.5])
        if a == 0: probe(where)
        elif a == 1:
            if st[0][1] is None and len(st[0][0].raws) < 2:
                st[0][0].add()
                sim.probes["appended"] += 1
        elif a == 2:
            # Unpacked into the population's method
            s = Spec() if c.chance("act.new", 0.5) else st[0][0]
            lab.p.setConstraints(*s.obj)
            st[0] = [s, list(s.raws)]
            sim.probes["unpacked"] += 1
        elif a == 4:
            # No constraints any more
            none = Spec.__new__(Spec)
            none.reg = {}; none.level = 0.0; none.raws = []; none.obj = []
            lab.p.setConstraints()
            st[0] = [none, []]
            sim.probes["cleared"] += 1
            probe("after clearing the constraints")
        else:
            s = st[0][0]
            n = len(list(s.obj))
            if n != len(s.obj) or n != len(s.reg) + len(s.raws) or \
               bool(s.obj) != bool(n):
                sim.violate("length", "object of %d methods and %d functions has length "
                            "%d and gives %d" % (len(s.reg), len(s.raws), len(s.obj), n))
    rate = c.of("act.rate", (0.02, 0.05, 0.1))
    def tick():
        if c.chance("act.tick", rate): act("amid the run")
    sim.monitors.append(tick)

    def run(box):
        return sim.run(lambda: box["fired"], maxSteps=20000) == "done" \
            and not box["failure"]
    probe("before setup")
    if other:
        # It is set up and evolved meanwhile
        ob = other.setup()
        started = []
        def follow():
            if ob["fired"] and not started:
                started.append(1)
                if ob["failure"]:
                    return sim.violate("setup", "setup of the other population failed: %r"
                                       % ob["failure"])
                if ob["result"] is True:
                    other.startDE(maxiter=3, adaptive=False, bitterEnd=True)
        sim.monitors.append(follow)
    box = lab.setup(uniform=c.chance("cfg.uniform", 0.3))
    if not run(box) or box["result"] is not True: return
    for k in range(1 + c.pick("cfg.stages", 2)):
        if k and st[0][1] is None:
            path = os.path.join(sim.scratch, "p.dat")
            lab.p.save(path)
            from ade.population import Population
            lab.p = Population.load(path, func=ev)
            sim.probes["loaded"] += 1
            # The object loaded is a copy
            s = st[0][0]
            copy = Spec.__new__(Spec)
            copy.reg = s.reg; copy.level = s.level; copy.raws = list(s.raws)
            copy.obj = lab.p.pm.constraints
            st[0] = [copy, None]
            probe("after loading")
        rb = lab.startDE(CR=c.of("cfg.CR", (0.8, 0.3, 1.0)), F=0.8,
                         maxiter=1 + c.pick("cfg.maxiter", 5), adaptive=False,
                         bitterEnd=True, randomBase=c.of("cfg.base", (False, True, 0.5)))
        if not run(rb): return
        if sim.found: return
