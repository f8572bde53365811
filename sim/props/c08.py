"""
C08: user abort stops setup or a run promptly and cleanly at any instant.
"""
import os

from ..world import standard, Snapshot, INF

RUNS = {"quick": 4000, "thorough": 80000}
SCRATCH = True
RULE = ("Setup and runs, of new and of loaded populations, with one abort (key or call) "
        "at a seeded instant, after which the outside world answers nothing until setup "
        "or run has to be over; later everything is answered. A run is non-trivial if "
        "something was in progress when the abort came.")
REAL = ["ade.abort", "ade.de", "ade.population", "ade.individual", "ade.report",
        "ade.history", "asynqueue.DeferredTracker", "twisted Deferred/locks/task"]
STUB = ["reactor and clock (virtual)", "evaluation function", "report callbacks",
        "stdin (simulated key presses)"]
ASSUMPTIONS = ["population sizes 5-9 (now and then 4-34), 2-4 parameters (now and then 1-10)",
               "a population made after the abort is not used before the event loop has "
               "run once",
               "prompt: within a bounded simulated time without any outside activity"]


def scenario(sim):
    c = sim.c
    from ade import abort
    from ade.population import Population
    lab = standard(sim, latencies=(2, 1, 3, 4, 5, 6, 7, 0), constraints=0.2,
                   reporters=False, modes=(2, 3, 1, 0),
                   lands=("sphere", "corner", "ripple", "valley", "steep",
                          "worsening", "zero", "huge", "extreme", "quantised"),
                   complaint=lambda i, x: None)
    ev = lab.ev; p = lab.p
    st = {"aborted": None, "snap": None, "pressed": 0}
    calls = {}

    def register(name):
        """A user's own abort callback."""
        calls[name] = 0
        def called():
            calls[name] += 1
            sim.note("abort-callback", name)
            if name == "nested-parent": register("nested")
        abort.callOnAbort(called)

    for k in range(c.pick("cfg.mine", 3)): register("early%d" % k)
    if c.chance("cfg.nested", 0.2): register("nested-parent")
    loaded = c.chance("cfg.loaded", 0.35)
    # When the abort comes: a stage and how many events into it
    stage = c.of("abort.stage", ("run", "run2", "setup", "before", "between"))
    after = c.pick("abort.after", 60) if c.chance("abort.late", 0.7) else \
        c.pick("abort.after", 8)
    programmatic = c.chance("abort.call", 0.25)

    def judgeStart(call):
        if st["aborted"] is not None:
            sim.violate("evaluated", "evaluation with real values started after the abort, "
                        "in %s" % call.phase)
    ev.hooks.append(judgeStart)
    def judgeReport(r):
        if st["aborted"] is not None:
            sim.violate("reported", "report callback started after the abort")
    lab.reportHooks.append(judgeReport)

    def members():
        """Members of an evolving population do not change any more."""
        if st["snap"] is None: return
        sim.evaluations += 1
        now = Snapshot(lab.p)
        if not now.same(st["snap"]):
            sim.violate("member", "member changed after the abort: SSEs %s, then %s" % (
                st["snap"].S, now.S))
    sim.monitors.append(members)

    def abortNow(evolving, box={"fired": 1}):
        """
        The user aborts, and from now on nobody outside answers. Returns whether
        box had fired when the abort took effect.
        """
        was = box["fired"]
        sim.probes["abort-" + stage] += 1
        if programmatic:
            sim.faults["abort-call"] += 1
            sim.note("abort-now")
            done = []
            abort.callOnAbort(lambda: done.append(1))
            abort.abortNow()
            # It takes effect at the next iteration of the event loop
            while not done:
                was = box["fired"]
                if not sim.step(): break
            if not done:
                return sim.violate("callbacks", "abort callback not called")
        else: press()
        st["aborted"] = sim.reactor.now
        ev.freeze(); lab.frozenCallbacks = True
        if evolving or was: st["snap"] = Snapshot(lab.p)
        for k in range(c.pick("abort.again", 3)): press()
        return was

    def press():
        lab.pressEnter()

    def advance(box, n):
        """n events, or until the box fired."""
        for k in range(n):
            if box["fired"] or sim.found or not sim.step(): return

    def over(box, what, frozen):
        how = sim.run(lambda: box["fired"], maxSteps=8000)
        if sim.found: return False
        sim.evaluations += 1
        if how != "done":
            sim.violate("not-prompt", "%s did not complete after the abort %s" % (
                what, "while nothing else was answered" if frozen else
                "although everything in flight was answered"))
            return False
        if box["failure"]:
            sim.violate("error", "%s failed after the abort: %s" % (
                what, box["failure"].getErrorMessage()))
            return False
        return True

    def rest():
        """Everything still in flight is answered; nothing may come of it."""
        late = c.pick("late.kind", 4)
        if late:
            for x in ev.held:
                if c.chance("late.odd", 0.3):
                    x.kind = (ev.NEGATIVE, ev.FAIL, ev.INFINITE)[late - 1]
                    sim.faults["late-" + ev.names[x.kind]] += 1
        ev.thaw()
        # Report callbacks that were running finish somehow
        for r, d in lab.heldReports:
            if late and c.chance("late.cb", 0.5):
                r.outcome = (("fail", None), ("complain", "bad"), ("ok", None))[late - 1]
        lab.frozenCallbacks = False
        lab.releaseReports()
        sim.settle()

    def final():
        if sim.found: return
        for k in range(c.pick("abort.after2", 2)): press()
        register("late")
        sim.settle()
        if sim.found: return
        members()
        # Nothing can be started any more
        box = lab.setup()
        if over(box, "setup", False) and box["result"] is True:
            sim.violate("ready", "setup reports readiness after the abort")
        if sim.found: return
        if len(p) or lab.p is not p:
            ev.gen = None
            rb = lab.startDE(maxiter=3, F=0.8)
            if not over(rb, "run", True): return
            if rb["result"] is not lab.p:
                return sim.violate("result", "run gave %r" % (rb["result"],))
        for name, n in calls.items():
            sim.evaluations += 1
            if n != 1:
                return sim.violate("callbacks", "abort callback %s called %d times" % (
                    name, n))

    for k in range(1 + c.pick("cfg.ncb", 3)):
        lab.addReporter(c.of("cfg.cbmode", (2, 3, 1, 0)))
    lab.cbPlan = lambda r: ("stall", None) if c.chance("cb.stall", 0.05) else None

    sim.nontrivial = False
    if stage == "before":
        abortNow(True)
        return final()
    box = lab.setup(uniform=c.chance("cfg.uniform", 0.3))
    if stage == "setup":
        advance(box, after)
        if sim.found: return
        was = abortNow(False, box)
        sim.nontrivial = not was
        if sim.found: return
        if not was:
            # In-flight evaluations are waited for, report callbacks are not
            advance(box, 40)
            if box["fired"] and ev.flying:
                return sim.violate("in-flight", "setup completed with %d evaluations in "
                                   "flight" % ev.flying)
            ev.thaw()
            if not over(box, "setup", False): return
            if box["result"] is True:
                return sim.violate("ready", "aborted setup reports readiness")
        rest()
        return final()
    if sim.run(lambda: box["fired"]) != "done" or box["result"] is not True: return
    if loaded:
        sim.run(lambda: not lab.openReports, maxSteps=3000)
        path = os.path.join(sim.scratch, "p.dat")
        p.setConstraints()      # can't be pickled
        p.save(path)
        lab.p = Population.load(path, func=ev, complaintCallback=lambda i, x: None)
        lab.cbModes[:] = []
        for k in range(1 + c.pick("cfg.ncb", 3)):
            lab.addReporter(c.of("cfg.cbmode", (2, 3, 1, 0)))
        sim.probes["loaded"] += 1
    if stage == "between":
        advance({"fired": 0}, after % 10)
        abortNow(True)
        rest()
        return final()
    kw = dict(CR=c.of("cfg.CR", (0.8, 0.3, 1.0)), F=c.of("cfg.F", (0.8, 0.5)),
              adaptive=False, bitterEnd=True, xSSE=c.chance("cfg.xSSE", 0.15),
              randomBase=c.of("cfg.base", (False, True, 0.5)))
    if stage == "run2":
        rb = lab.startDE(maxiter=1, **kw)
        if sim.run(lambda: rb["fired"], maxSteps=20000) != "done": return
    rb = lab.startDE(maxiter=30, **kw)
    advance(rb, after*2)
    if sim.found: return
    sim.nontrivial = not abortNow(True, rb)
    if sim.found: return
    if not over(rb, "run", True): return
    if rb["result"] is not lab.p:
        return sim.violate("result", "aborted run gave %r" % (rb["result"],))
    rest()
    final()
