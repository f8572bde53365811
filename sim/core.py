"""
The simulator: choice streams, virtual-time reactor, and the seams that put
every source of nondeterminism of the program under control of the choices.

A simulated run happens in a process forked for it alone (see runner.py), so
nothing is ever undone here.
"""
import collections, hashlib, heapq, os, random, sys, time

REAL_TIME = time.time
REAL_MONOTONIC = time.monotonic
# The system under test; elsewhere only for trying out changes
REPO = os.environ.get("SIM_REPO", "/repo")


class Choices:
    """
    All decisions of a simulated run, as named streams of small integers.

    Generated from a seed, or replayed from recorded streams. A replayed stream
    that is exhausted yields 0, by convention the simplest alternative
    (default setting, no fault, no delay), which is what makes minimisation by
    truncating and zeroing possible.
    """
    def __init__(self, seed=None, replay=None, prefix=""):
        self.prefix = prefix
        self.seed = seed
        self.replay = replay
        self.rngs = {}
        self.log = {}
        self.pos = {}

    def _next(self, stream, draw, n):
        stream = self.prefix + stream
        log = self.log.setdefault(stream, [])
        if self.replay is not None:
            given = self.replay.get(stream, ())
            k = len(log)
            v = given[k] if k < len(given) else 0
            v = min(max(int(v), 0), n-1)
        else:
            rng = self.rngs.get(stream)
            if rng is None:
                rng = self.rngs[stream] = random.Random(
                    "{}|{}".format(self.seed, stream))
            v = draw(rng)
        log.append(v)
        return v

    def pick(self, stream, n):
        """An integer in [0, n)."""
        if n <= 1: return 0
        return self._next(stream, lambda r: r.randrange(n), n)

    def weighted(self, stream, weights):
        """An index of weights."""
        total = float(sum(weights))
        def draw(r):
            x = r.random() * total
            for k, w in enumerate(weights):
                x -= w
                if x < 0: return k
            return len(weights) - 1
        return self._next(stream, draw, len(weights))

    def chance(self, stream, p):
        """True with probability p; False when minimised."""
        if p <= 0: return False
        return bool(self._next(
            stream, lambda r: 1 if r.random() < p else 0, 2))

    def of(self, stream, items):
        return items[self.pick(stream, len(items))]

    def frac(self, stream, levels=997):
        """A number in [0, 1), one of levels equidistant ones."""
        return self.pick(stream, levels) / float(levels)


class StopSim(BaseException):
    """Unwinds a run whose outcome is already decided."""


class Sim:
    """One simulated run."""
    epoch = 1500000000.0

    def __init__(self, choices):
        self.c = choices
        self.events = []            # recorded history
        self.digest = hashlib.sha256()
        self.faults = collections.Counter()   # fault kind -> times fired
        self.probes = collections.Counter()   # rare situations reached
        self.found = []             # violations
        self.monitors = []          # called after every event
        self.outside = 0            # outside activities under way
        self.lastOutside = 0.0
        self.skew = 0.0
        self.steps = 0
        self.harnessErrors = []
        self.order = hashlib.sha256()   # order of outside happenings
        self.reactor = REACTOR
        self.stall = 0.0            # probability of a process stall per event
        self.maxSteps = 60000
        self.settleCap = 100.0
        self.evaluations = 0        # oracle judgements made
        self.nontrivial = True      # was anything at stake in this run?
        self.extra = {}
        self.carry = None           # handed to the next phase
        self.scratch = None
        self.keyboard = None
        self.quiet = False
        self.stdout = []

    # --- recording --------------------------------------------------------
    def note(self, kind, *data):
        rec = (round(self.reactor.now, 9), kind) + data
        self.events.append(rec)
        self.digest.update(repr(rec).encode())

    def mark(self, what):
        """Adds to the fingerprint of the interleaving."""
        self.order.update((what + ";").encode())

    def violate(self, cls, message):
        if not self.found:
            self.note("VIOLATION", cls, message)
        self.found.append((cls, message))

    def guard(self, f, *args):
        """Runs harness code called from ade without letting errors into it."""
        try:
            return f(*args)
        except Exception as e: self.raised(e)

    def raised(self, e):
        """
        An exception nobody expected: the program's, in answer to a legitimate
        use of it, or else the harness's own.
        """
        import traceback
        where = None
        for frame in traceback.extract_tb(e.__traceback__):
            if frame.filename.startswith(REPO + "/"): where = frame
            elif "/sim/" in frame.filename: where = None
        if where is None: self.harnessErrors.append(traceback.format_exc())
        else:
            self.violate("exception", "%s in %s: %s" % (
                type(e).__name__, where.name, str(e)[:200]))

    # --- time and events ----------------------------------------------------
    def time(self):
        return self.epoch + self.skew + self.reactor.now

    def later(self, delay, f, *args):
        """Schedules something the outside world does."""
        self.outside += 1
        def fire():
            self.outside -= 1
            self.lastOutside = self.reactor.now
            f(*args)
        return self.reactor.callLater(delay, fire)

    def step(self):
        """Runs the next event. False if there is none."""
        if not self.reactor.step(self): return False
        self.steps += 1
        for m in list(self.monitors):
            m()
        return True

    def run(self, until, maxSteps=None):
        """
        Runs events until until() is true. Returns "done", "found" (a violation
        was recorded), "stuck" (nothing of the outside world is under way and
        the program made no progress for a generous time) or "cap".
        """
        steps = 0
        cap = maxSteps or self.maxSteps
        idle = 0
        while True:
            if self.found or self.harnessErrors: return "found"
            if until(): return "done"
            if self.outside == 0:
                idle += 1
                limit = self.lastOutside + self.settleCap + self.lastOutside
                if idle > 60 and self.reactor.now > limit: return "stuck"
            else: idle = 0
            if not self.step(): return "stuck"
            steps += 1
            if steps > cap: return "cap"

    def settle(self, maxTime=200.0, maxSteps=5000):
        """Lets everything under way finish, for at most maxTime."""
        end = self.reactor.now + maxTime
        k = 0
        while not self.found and not self.harnessErrors and k < maxSteps:
            t = self.reactor.nextTime()
            if t is None: return
            if self.outside == 0 and t > end: return
            self.step()
            k += 1


# --- reactor ---------------------------------------------------------------

def _makeReactor():
    from zope.interface import implementer
    from twisted.internet import interfaces, base, main

    @implementer(interfaces.IReactorTime, interfaces.IReactorCore,
                 interfaces.IReactorFromThreads)
    class SimReactor:
        """
        Virtual-time reactor. Timers run in order of their time, those with
        equal times in the order they were made.
        """
        running = True
        installed = False

        def __init__(self):
            self.now = 0.0
            self.heap = []
            self.seq = 0
            self._eventTriggers = {}
            self.errors = []
            self.spawner = None
            self.readers = []

        def seconds(self):
            return self.now

        def callLater(self, delay, f, *args, **kw):
            assert callable(f), f
            delay = float(delay)
            assert delay >= 0, delay
            call = base.DelayedCall(
                self.now + delay, f, args, kw,
                lambda call: None, lambda call: None, self.seconds)
            self.seq += 1
            heapq.heappush(self.heap, (call.getTime(), self.seq, call))
            return call

        def getDelayedCalls(self):
            return [x[2] for x in self.heap if x[2].active()]

        def _top(self):
            while self.heap:
                t, seq, call = self.heap[0]
                if call.cancelled or call.called:
                    heapq.heappop(self.heap)
                    continue
                if call.getTime() > t:
                    heapq.heapreplace(self.heap, (call.getTime(), seq, call))
                    continue
                return call
            return None

        def nextTime(self):
            call = self._top()
            return None if call is None else call.getTime()

        def step(self, sim):
            call = self._top()
            if call is None: return False
            heapq.heappop(self.heap)
            self.now = max(self.now, call.getTime())
            if sim.stall and sim.c.chance("stall", sim.stall):
                # The process is held up, so that timers come due together
                self.now += sim.c.of("stall.len", (0.05, 0.5, 5.0, 60.0))
                sim.faults["stall"] += 1
            call.called = 1
            try:
                call.func(*call.args, **call.kw)
            except Exception as e:
                # As the real reactor does: log it and carry on
                import traceback
                self.errors.append(traceback.format_exc())
                sim.note("reactor-error", type(e).__name__, str(e)[:200])
            return True

        def callWhenRunning(self, f, *args, **kw):
            f(*args, **kw)

        def callFromThread(self, f, *args, **kw):
            self.callLater(0, f, *args, **kw)

        def addSystemEventTrigger(self, phase, eventType, f, *args, **kw):
            event = self._eventTriggers.setdefault(
                eventType, base._ThreePhaseEvent())
            return (eventType, event.addTrigger(phase, f, *args, **kw))

        def removeSystemEventTrigger(self, triggerID):
            eventType, handle = triggerID
            self._eventTriggers[eventType].removeTrigger(handle)

        def fireSystemEvent(self, eventType):
            event = self._eventTriggers.get(eventType)
            if event is not None: event.fireEvent()

        def stop(self):
            self.fireSystemEvent("shutdown")

        def addReader(self, x):
            if x not in self.readers: self.readers.append(x)
        def removeReader(self, x):
            if x in self.readers: self.readers.remove(x)
        def addWriter(self, x): pass
        removeWriter = addWriter
        def getReaders(self): return list(self.readers)
        def getWriters(self): return []

        def suggestThreadPoolSize(self, size): pass
        def callInThread(self, *args, **kw):
            raise RuntimeError("no threads in the simulation")
        def getThreadPool(self):
            raise RuntimeError("no threads in the simulation")

        def spawnProcess(self, *args, **kw):
            if self.spawner is None:
                raise RuntimeError("no processes in this simulation")
            return self.spawner(*args, **kw)

    reactor = SimReactor()
    main.installReactor(reactor)
    return reactor


REACTOR = None


class _Fresh:
    """Imports ade from its sources, never from cached bytecode."""
    @classmethod
    def find_spec(cls, name, path=None, target=None):
        from importlib import machinery, util
        if name != "ade" and not name.startswith("ade."): return None
        class Loader(machinery.SourceFileLoader):
            def get_code(self, fullname):
                with open(self.path, "rb") as fh:
                    return compile(fh.read(), self.path, "exec", dont_inherit=True)
        base = os.path.join(REPO, *name.split("."))
        if os.path.isfile(os.path.join(base, "__init__.py")):
            f = os.path.join(base, "__init__.py")
            return util.spec_from_file_location(
                name, f, loader=Loader(name, f),
                submodule_search_locations=[base])
        f = base + ".py"
        if os.path.isfile(f):
            return util.spec_from_file_location(name, f, loader=Loader(name, f))
        return None


def install():
    """
    Makes the simulated reactor the process's reactor and imports the system
    under test. Must come before anything else imports the reactor.
    """
    global REACTOR
    if REACTOR is not None: return REACTOR
    sys.dont_write_bytecode = True
    import warnings
    warnings.simplefilter("ignore")
    REACTOR = _makeReactor()
    _seams()
    sys.meta_path.insert(0, _Fresh)
    import ade, ade.de, ade.population, ade.history, ade.report
    import ade.individual, ade.abort, ade.util, ade.image, ade.constraints
    assert ade.__file__.startswith(REPO + "/"), ade.__file__
    return REACTOR


class FakeConsole:
    """Stands for twisted.internet.stdio.StandardIO."""
    current = None
    def __init__(self, proto, *args, **kw):
        self.proto = proto
        self.lost = False
        FakeConsole.current = self
        proto.makeConnection(self)
    def loseConnection(self):
        self.lost = True
    def write(self, data): pass
    def writeSequence(self, data): pass


CURRENT = None

def _seams():
    """
    Clock, console and sources of randomness, replaced before ade is imported so
    that it matters not how it refers to them.
    """
    import numpy as np
    from twisted.internet import stdio
    def now(): return CURRENT.time() if CURRENT else 1500000000.0
    def monotonic(): return REACTOR.now + 1000.0
    time.time = now
    time.monotonic = time.perf_counter = time.process_time = monotonic
    time.time_ns = lambda: int(1e9*now())
    time.monotonic_ns = time.perf_counter_ns = lambda: int(1e9*monotonic())
    time.sleep = lambda dt: None
    stdio.StandardIO = FakeConsole
    # Generators that would be seeded from the operating system
    random.seed(1)
    class Random(random.Random):
        def __init__(self, x=None):
            super().__init__(random.getrandbits(64) if x is None else x)
    random.Random = Random
    rng0, state0 = np.random.default_rng, np.random.RandomState
    np.random.default_rng = lambda seed=None: rng0(
        random.getrandbits(32) if seed is None else seed)
    class RandomState(state0):
        def __init__(self, seed=None):
            super().__init__(random.getrandbits(32) if seed is None else seed)
    np.random.RandomState = RandomState


def arm(choices, adeSeed):
    """
    Puts this process under simulation: clock, random generators, cooperative
    scheduler, console. Returns the Sim object.
    """
    import numpy as np
    from twisted.internet import task
    sim = Sim(choices)
    random.seed(adeSeed)
    np.random.seed(adeSeed % (2**32))
    np.seterr(all="ignore")
    global CURRENT
    CURRENT = sim
    # Cooperative tasks: how many units of work fit in one slice, and how long
    # until the next slice, are choices
    sim.coop = choices.weighted("coop.mode", [3, 2, 2, 1])
    def predicate():
        left = [None]
        def stop():
            if left[0] is None:
                left[0] = 1000000 if sim.coop == 0 else \
                    choices.pick("coop.slice", 6)
            left[0] -= 1
            return left[0] < 0
        return stop
    def scheduler(f):
        if sim.coop < 2: delay = 1e-8
        elif sim.coop == 2: delay = 0.01*choices.pick("coop.delay", 20)
        else: delay = 0.5*choices.pick("coop.delay", 20)
        if delay > 1e-6:
            # A busy machine: the outside world keeps the program waiting
            sim.faults["slow-cpu"] += 1
            return sim.later(delay, f)
        return REACTOR.callLater(delay, f)
    task._theCooperator = task.Cooperator(
        terminationPredicateFactory=predicate, scheduler=scheduler)
    return sim
