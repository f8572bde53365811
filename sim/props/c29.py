"""
C29: abort can be re-armed or disabled, and leaves later work untouched.
"""
import os, signal

from ..world import standard, Snapshot

RUNS = {"quick": 2500, "thorough": 60000}
RULE = ("Two to four rounds in one process, each with a population of its own that is set up "
        "and evolved, aborted by key or call at a seeded instant, with evaluations left in "
        "flight, or with the keyboard ignored and keys pressed, and then a restart; the last "
        "round is aborted, left to finish, or has the keyboard ignored. Interrupt signals come at seeded instants and "
        "finally the event loop is stopped. A run is non-trivial if an abort came while "
        "something was in progress and a later round was judged.")
REAL = ["ade.abort", "ade.de", "ade.population", "ade.individual", "ade.report",
        "ade.history", "asynqueue.DeferredTracker", "twisted Deferred/locks/task"]
STUB = ["reactor and clock (virtual)", "evaluation function", "report callbacks",
        "stdin (key presses are simulated events)"]
ASSUMPTIONS = ["a restart only after an abort or a run with the keyboard ignored",
               "nothing is aborted by call while the keyboard is ignored", "the keyboard is "
               "not ignored before the first population is made", "population sizes 5-9 (now and then 4-34), 2-4 "
               "parameters (now and then 1-10)"]


class Round:
    """One population's life until the next restart."""
    def __init__(self, sim, n):
        c = sim.c
        self.sim = sim; self.n = n
        self.lab = standard(sim, latencies=(2, 1, 3, 4, 5, 6, 7), modes=(2, 3, 1, 0),
                            lands=("sphere", "ripple", "valley", "worsening"),
                            complaint=lambda i, x: None)
        self.ev = self.lab.ev; self.p = self.lab.p
        self.over = False           # aborted
        self.done = False           # finished
        self.ending = False         # event loop stopped
        self.snap = None
        self.calls = []
        self.ev.hooks.append(self.started)
        self.lab.reportHooks.append(self.reported)
        for k in range(c.pick("cfg.mine", 3)): self.register()

    def register(self):
        from ade import abort
        k = len(self.calls)
        self.calls.append(0)
        def called():
            self.calls[k] += 1
            self.sim.note("abort-callback", self.n, k)
        abort.callOnAbort(called)

    def started(self, call):
        if self.over:
            self.sim.violate("evaluated", "evaluation with real values started by a population "
                             "that was aborted before")
        if self.ending:
            self.sim.violate("evaluated", "evaluation started after the event loop was stopped")
    def reported(self, r):
        if self.over:
            self.sim.violate("reported", "report callback of a population aborted before")

    def check(self):
        sim = self.sim
        n = 1 if self.over else 0
        for k, x in enumerate(self.calls):
            if x != n:
                return sim.violate("callbacks", "abort callback %d of round %d called %d times, "
                                   "expected %d" % (k, self.n, x, n))
        if self.snap is not None and not Snapshot(self.p).same(self.snap):
            return sim.violate("member", "member of a population aborted before has changed")
        sim.evaluations += 1


def scenario(sim):
    c = sim.c
    from ade import abort
    from ..core import FakeConsole
    signal.signal(signal.SIGINT, signal.default_int_handler)
    rounds = []
    st = {"keys": 0, "wild": False, "stopped": False}

    def monitor():
        if st["wild"] or sim.found: return
        for r in rounds:
            r.check()
            if sim.found: return
        if rounds and c.chance("sigint", 0.002): interrupt()
    sim.monitors.append(monitor)

    def interrupt():
        sim.faults["sigint"] += 1
        if signal.getsignal(signal.SIGINT) == signal.SIG_DFL:
            return sim.violate("interrupted", "an interrupt signal would kill the program")
        try:
            os.kill(os.getpid(), signal.SIGINT)
            for k in range(50): pass
        except KeyboardInterrupt:
            sim.violate("interrupted", "an interrupt signal came through")

    def doAbort(r):
        """
        The abort takes effect before this returns. Notes whether something was in
        progress then.
        """
        st["wild"] = True
        busy = not r.box["fired"]
        if c.chance("abort.call", 0.3):
            sim.faults["abort-call"] += 1
            sim.note("abort-now")
            done = []
            abort.callOnAbort(lambda: done.append(1))
            abort.abortNow()
            # It takes effect at the next iteration of the event loop
            for k in range(1000):
                busy = not r.box["fired"]
                if not sim.step() or done: break
            if not done:
                return sim.violate("callbacks", "abort callback not called")
        else: r.lab.pressEnter()
        r.over = True
        r.busy = busy
        if busy: sim.nontrivial = True
        st["wild"] = False
        if r.box["name"] == "run" or r.box["fired"]: r.snap = Snapshot(r.p)
        r.check()

    def advance(box, n):
        for k in range(n):
            if box["fired"] or sim.found or not sim.step(): return

    def complete(box, what):
        how = sim.run(lambda: box["fired"], maxSteps=20000)
        if sim.found: return False
        sim.evaluations += 1
        if how != "done":
            sim.violate("stuck", "%s did not complete" % what)
        elif box["failure"]:
            sim.violate("error", "%s failed: %s" % (what, box["failure"].getErrorMessage()))
        return not sim.found

    def evolve(r, maxiter):
        r.box = r.lab.startDE(
            maxiter=maxiter, F=c.of("cfg.F", (0.8, 0.5)), CR=c.of("cfg.CR", (0.8, 0.3, 1.0)),
            adaptive=False, bitterEnd=True, randomBase=c.of("cfg.base", (False, True)))

    def life(n, last):
        """Returns False if the rest can't be judged."""
        ok = live(n, last)
        rounds[-1].done = True
        return ok

    def live(n, last):
        end = c.of("cfg.end", ("finish", "ignore", "abort", "stop")) if last \
              else c.of("cfg.mid", ("abort", "abort", "abort", "ignore"))
        if end == "ignore" and n and c.chance("ignore.first", 0.5):
            abort.ignoreKeyboard()
        r = Round(sim, n)
        rounds.append(r)
        if end == "ignore":
            abort.ignoreKeyboard()
            def keys():
                if r.done: return
                sim.note("enter")
                sim.faults["enter-ignored"] += 1
                FakeConsole.current.proto.dataReceived(b"\n")
                st["keys"] += 1
                if st["keys"] < 30: sim.later(3.0*c.frac("ignore.delay"), keys)
            sim.later(c.frac("ignore.delay"), keys)
        r.box = r.lab.setup()
        stage = c.of("abort.stage", ("run", "setup", "between"))
        if end == "abort" and stage == "setup":
            advance(r.box, c.pick("abort.after", 40))
            if sim.found: return False
            doAbort(r)
            if sim.found: return False
            if r.busy:
                if not complete(r.box, "aborted setup"): return False
                if r.box["result"] is True:
                    sim.violate("ready", "aborted setup reports readiness")
            return True
        if not complete(r.box, "setup in round %d" % n): return False
        if r.box["result"] is not True:
            sim.violate("setup", "setup in round %d gave %r though nothing was aborted" % (
                n, r.box["result"]))
            return False
        if end == "abort" and stage == "between":
            doAbort(r)
            return True
        if end == "abort":
            evolve(r, 30)
            advance(r.box, c.pick("abort.after", 100))
            if sim.found: return False
            r.ev.freeze(); r.lab.frozenCallbacks = True
            doAbort(r)
            if sim.found: return False
            if not complete(r.box, "aborted run"): return False
            # What is still in flight may finish whenever it likes
            r.lab.frozenCallbacks = False
            if c.chance("late.never", 0.3): return True
            def late():
                r.ev.thaw(); r.lab.releaseReports()
            if c.chance("late.soon", 0.5): late()
            else: sim.later(5.0*c.frac("late.delay"), late)
            return True
        if end == "stop":
            # The event loop ends during the run
            evolve(r, 30)
            advance(r.box, c.pick("abort.after", 100))
            if sim.found: return False
            st["stopped"] = True
            r.ev.freeze()
            sim.note("stop")
            sim.faults["loop-stopped"] += 1
            sim.reactor.stop()
            r.ending = True
            if not complete(r.box, "run in progress when the event loop was stopped"):
                return False
            r.snap = Snapshot(r.p)
            r.ev.thaw()
            return True
        maxiter = 1 + c.pick("cfg.maxiter", 4)
        evolve(r, maxiter)
        if not complete(r.box, "run in round %d" % n): return False
        if r.box["result"] is not r.p:
            sim.violate("result", "run gave %r" % (r.box["result"],))
        elif r.lab.genCalls != list(range(maxiter)):
            sim.violate("generations", "generations %s in round %d, expected %d" % (
                r.lab.genCalls, n, maxiter))
        return not sim.found

    sim.nontrivial = False
    N = 2 + c.pick("cfg.rounds", 3)
    for n in range(N):
        if not life(n, n == N-1): return
        if n == N-1: break
        if c.chance("restart.rest", 0.4): sim.settle()
        if sim.found: return
        sim.note("restart")
        abort.restart()
    sim.settle()
    if sim.found: return
    monitor()
    if sim.found: return
    # The event loop ends
    if not st["stopped"]:
        sim.note("stop")
        sim.reactor.stop()
    sim.evaluations += 1
    if not FakeConsole.current.lost:
        return sim.violate("console", "console not released when the event loop has stopped")
    sim.settle()
    monitor()
