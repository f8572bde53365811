"""
C20: at most one image viewer is started per plot file.
"""
import importlib, os, struct

from twisted.internet import error, inotify
from twisted.python import _inotify, failure

RUNS = {"quick": 3000, "thorough": 60000}
SCRATCH = True
RULE = ("A program with an image viewer object (or two) for one plot file, under seeded "
        "updates, removals and renewals of the file, ends and errors of viewers, failing "
        "starts, terminations, damaged process records and restarts of the program. A run "
        "is non-trivial if at least one viewer was started.")
REAL = ["ade.image", "twisted.internet.inotify", "twisted FilePath"]
STUB = ["reactor and clock (virtual)", "inotify of the operating system",
        "processes and signals of the operating system"]
ASSUMPTIONS = ["a viewer that ends with an error has written to its standard error output, "
               "one that ends without has not",
               "process numbers are not used again for other processes",
               "the end of a viewer is noticed first by the program that started it"]


class Watch:
    def __init__(self, fd, wd, path):
        self.fd = fd; self.wd = wd; self.path = path
        self.alive = True; self.queue = []


class Kernel:
    """Stands for the inotify system calls."""
    INotifyError = _inotify.INotifyError
    def __init__(self, world):
        self.world = world
        self.watches = []
        self.owners = {}
        self.n = 0
    def init(self):
        fd = os.open("/dev/null", os.O_RDONLY)
        self.owners[fd] = self.world.current
        return fd
    def add(self, fd, path, mask):
        path = os.fsdecode(path.path)
        if not os.path.exists(path): raise self.INotifyError("no such file")
        self.n += 1
        self.watches.append(Watch(fd, self.n, path))
        return self.n
    def remove(self, fd, wd):
        self.watches = [w for w in self.watches if (w.fd, w.wd) != (fd, wd)]
    def close(self, fd):
        if fd not in self.owners: raise OSError(9, "Bad file descriptor")
        del self.owners[fd]
        os.close(fd)
        self.watches = [w for w in self.watches if w.fd != fd]


class Viewer:
    """A viewer process, and its transport."""
    status = None
    def __init__(self, world, proto, ex, args):
        world.lastPID += 1 + world.c.pick("os.pid", 3)
        self.pid = self.realPID = world.lastPID
        self.world = world; self.proto = proto; self.ex = ex; self.args = args
        self.program = world.program
        self.running = True; self.outcome = None; self.excused = False
        self.termed = False; self.signals = 0; self.owner = None
    def signalProcess(self, sig):
        self.world.signalled(self, sig)
        if self.pid is None: raise error.ProcessExitedAlready()
    def loseConnection(self): pass
    closeStdin = closeStdout = closeStderr = loseConnection
    def closeChildFD(self, fd): pass
    def writeToChild(self, fd, data): pass
    def write(self, data): pass


class Object:
    """An ImageViewer of the program, and what is known about it."""
    def __init__(self):
        self.iv = None; self.updated = False; self.excused = False


class World:
    def __init__(self, sim):
        self.sim = sim; self.c = sim.c
        self.kernel = Kernel(self)
        self.program = 0
        self.viewers = []
        self.lastPID = 5000000      # above any real one
        self.path = os.path.join(sim.scratch, self.c.of(
            "cfg.name", ("plot.png", "a b.png", "x.tar.png", "plot{}.png", "plöt.png")))
        self.record = self.path + ".pid"
        self.objects = []
        self.failNext = 0
        self.tampered = True        # process record is not of the program's making
        self.current = None         # object something is happening to
        self.context = None

    # --- operating system -------------------------------------------------
    def spawn(self, proto, ex, args=(), env=None, *more, **kw):
        v = self.sim.guard(self._spawn, proto, ex, args)
        if v is None: raise OSError(11, "Resource temporarily unavailable")
        return v

    def _spawn(self, proto, ex, args):
        sim = self.sim
        if self.failNext:
            self.failNext -= 1
            sim.faults["spawn-fail"] += 1
            for o in [self.current] if self.current else self.objects: o.excused = True
            sim.note("spawn-fail")
            return None
        v = Viewer(self, proto, os.fsdecode(ex), [os.fsdecode(a) for a in args])
        sim.note("spawn", v.realPID, os.path.basename(v.ex))
        sim.mark("p")
        sim.evaluations += 1
        bad = None
        for o in [self.current] if self.current else self.objects:
            v.owner = o
            bad = self.judge(v)
            if not bad: break
        else: sim.violate(*(bad or ("unasked", "viewer started by nobody")))
        self.viewers.append(v)
        self.tampered = False
        proto.makeConnection(v)
        return v

    def available(self):
        return [ex for ex in self.exList if os.path.exists(ex[0])]

    def judge(self, v):
        for w in self.viewers:
            if w.running and not w.excused:
                return "second", "viewer started while process %d, started for the same " \
                    "file, is still running" % w.realPID
        mine = [w for w in self.viewers if w.owner is v.owner]
        if any(w.outcome == "ok" and not w.termed for w in mine):
            return "again", "viewer started though one has ended without error"
        if not v.owner.updated:
            return "unasked", "viewer started without update of the file"
        there = self.available()
        names = [ex[0] for ex in there]
        if mine and self.context != "update":
            if mine[-1].termed:
                return "after-termination", "viewer started because one that was " \
                    "terminated has ended"
            k = names.index(mine[-1].ex) + 1
            if k >= len(names):
                return "more", "viewer started after the last one configured"
        else: k = 0
        if v.ex != names[k]:
            return "which", "viewer %s started instead of %s" % (v.ex, names[k])
        base = os.path.basename(self.path)
        args = [os.path.basename(v.ex)] + [
            a.replace("{}", base) for a in there[k][1:]] + [self.path]
        if v.args != args:
            return "arguments", "viewer started with arguments %s instead of %s" % (
                v.args, args)

    def signalled(self, v, sig):
        self.sim.note("signal", v.realPID, str(sig))
        if not v.running:
            self.sim.violate("signal", "process %d signalled though it has ended" % v.realPID)
        else: v.signals += 1

    def alive(self, pid):
        return any(v.running and v.realPID == pid for v in self.viewers)

    def getsid(self, pid):
        if pid and not self.alive(pid): raise ProcessLookupError(3, "No such process")
        return pid or 1

    def kill(self, pid, sig):
        if sig and pid not in [v.realPID for v in self.viewers]:
            self.sim.violate("signal", "signal %s to process %r, which is no viewer" % (
                sig, pid))
        for v in self.viewers:
            if v.realPID == pid and sig: self.signalled(v, sig)
        if not self.alive(pid): raise ProcessLookupError(3, "No such process")

    def install(self):
        import ade.image
        self.sim.reactor.spawner = self.spawn
        inotify.INotify._inotify = self.kernel
        class OS:
            close = self.kernel.close
        inotify.os = OS
        os.getsid = os.getpgid = self.getsid
        os.kill = os.killpg = self.kill
        exists = os.path.exists
        def exists1(path):
            if isinstance(path, str) and path.startswith("/proc/") and \
               path[6:].rstrip("/").isdigit():
                return self.alive(int(path[6:].rstrip("/")))
            return exists(path)
        os.path.exists = exists1
        self.image = ade.image

    # --- what happens -----------------------------------------------------
    def guarded(self, f, *args):
        try: f(*args)
        except Exception as e: self.sim.note("raised", repr(e)[:100])

    def construct(self):
        o = Object()
        self.current = o
        o.iv = self.image.ImageViewer(self.path, noComplain=self.c.chance("iv.quiet", 0.5))
        self.current = None
        self.objects.append(o)

    def events(self, *masks):
        for w in self.kernel.watches:
            if w.alive: w.queue.extend(masks)

    def deliver(self):
        """Programs read what has happened to the file they watch."""
        for w in list(self.kernel.watches):
            reader = next((r for r in self.sim.reactor.getReaders()
                           if r.fileno() == w.fd), None)
            if reader is None or not w.queue: continue
            masks, w.queue = w.queue, []
            o = self.kernel.owners.get(w.fd)
            there = os.path.isfile(self.path)
            must = False
            if there:
                o.updated = True
                must = inotify.IN_MODIFY in masks and self.available() and not any(
                    v.running or v.owner is o for v in self.viewers)
            n = len(self.viewers)
            data = b"".join(struct.pack("=LLLL", w.wd, m, 0, 0) for m in masks)
            self.current = o; self.context = "update"
            self.guarded(reader._doRead, data)
            self.current = None
            self.due()
            self.context = None
            if must and not o.excused and len(self.viewers) == n:
                self.sim.violate("none", "no viewer started on update of the file though "
                                 "none is running")

    def due(self):
        """Runs what the program has scheduled for now."""
        r = self.sim.reactor
        while not self.sim.found and r.nextTime() is not None and r.nextTime() <= r.now:
            self.sim.step()

    def end(self, v, how):
        """A viewer process ends."""
        v.outcome = how
        self.sim.note("viewer-end", v.realPID, how)
        self.sim.mark("e" + how)
        if v.program != self.program:
            v.running = False
            return                  # nobody is interested
        if how == "error":
            for k in range(1 + self.c.pick("viewer.lines", 2)):
                self.guarded(v.proto.childDataReceived, 2, b"cannot open display\n")
            self.sim.faults["viewer-error"] += 1
        if self.c.chance("viewer.stdout", 0.2):
            self.guarded(v.proto.childDataReceived, 1, b"hello\n")
        v.running = False
        v.pid = None
        reason = failure.Failure(error.ProcessDone(None) if how == "ok" else
                                 error.ProcessTerminated(1, None, None))
        self.current = v.owner; self.context = "end"
        self.guarded(v.proto.processExited, reason)
        self.guarded(v.proto.processEnded, reason)
        self.current = None
        self.due()
        self.context = None

    def recorded(self):
        """The record is of the viewer started last."""
        if self.tampered or not self.viewers: return
        self.sim.evaluations += 1
        want = str(self.viewers[-1].realPID)
        try:
            with open(self.record) as fh: got = fh.read().strip()
        except OSError as e: got = None
        if got != want:
            self.sim.violate("record", "process record is %r instead of %s, the number of the "
                             "viewer started last" % (got, want))

    def tamper(self):
        """The record gets lost or damaged, or was there before."""
        how = self.c.pick("tamper.how", 4)
        if how == 0:
            if os.path.exists(self.record): os.unlink(self.record)
        else:
            with open(self.record, "w") as fh:
                fh.write(("", "nonsense\n", "4999999\n")[how - 1])
        self.sim.faults["record-damaged"] += 1
        self.tampered = True
        for v in self.viewers: v.excused = True

    def restart(self):
        c = self.c
        if c.chance("restart.clean", 0.5): self.sim.reactor.fireSystemEvent("shutdown")
        self.sim.faults["restart"] += 1
        self.sim.note("restart")
        for fd in list(self.kernel.owners): self.kernel.close(fd)
        del self.sim.reactor.readers[:]
        for call in self.sim.reactor.getDelayedCalls(): call.cancel()
        self.objects = []
        self.program += 1
        if c.chance("restart.all", 0.3):
            for v in self.viewers: v.running = False
        importlib.reload(self.image)
        self.image.ImageViewer.exList = [list(ex) for ex in self.exList]
        self.construct()


def scenario(sim):
    c = sim.c
    w = World(sim)
    w.install()
    w.exList = []
    for k in range(1 + c.pick("cfg.viewers", 3)):
        ex = os.path.join(sim.scratch, "viewer%d" % k)
        if not c.chance("cfg.missing", 0.2): open(ex, "w").close()
        w.exList.append([ex] + list(c.of("cfg.args", (
            (), ("--title={}",), ("-Teit",), ("-x", "--window-title={}", "-y"), ("{}:{}",)))))
    w.image.ImageViewer.exList = [list(ex) for ex in w.exList]
    if c.chance("cfg.there", 0.4): open(w.path, "w").close()
    if c.chance("cfg.record", 0.3): w.tamper()
    w.construct()
    weights = [6, 1, 1.5, 2, 1, 0.5, 0.7, 0.2, 3, 0.5]
    for k in range(10 + c.pick("cfg.steps", 50)):
        if sim.found or sim.harnessErrors: break
        op = c.weighted("op", weights)
        sim.mark("o%d" % op)
        running = [v for v in w.viewers if v.running]
        if op == 0:
            there = os.path.exists(w.path)
            with open(w.path, "a") as fh: fh.write("x")
            if there: w.events(*[inotify.IN_MODIFY]*(1 + c.pick("op.n", 3)))
        elif op == 1:
            if os.path.exists(w.path):
                os.unlink(w.path)
                sim.faults["file-removed"] += 1
                w.events(inotify.IN_ATTRIB, inotify.IN_DELETE_SELF, inotify.IN_IGNORED)
                for x in w.kernel.watches: x.alive = False
        elif op in (2, 3) and running:
            w.end(running[c.pick("op.which", len(running))], "ok" if op == 2 else "error")
        elif op == 4 and w.objects:
            o = w.objects[c.pick("op.object", len(w.objects))]
            mine = [v for v in running if v.owner is o]
            n = sum(v.signals for v in mine)
            fresh = [v for v in mine if not v.termed]
            sim.note("terminate")
            w.current = o
            w.guarded(o.iv.termViewer)
            w.current = None
            for v in fresh: v.termed = True
            if fresh and not sim.found:
                sim.evaluations += 1
                if sum(v.signals for v in mine) == n:
                    sim.violate("not-terminated", "running viewer not signalled")
        elif op == 5: w.tamper()
        elif op == 6: w.restart()
        elif op == 7 and len(w.objects) < 2: w.construct()
        elif op == 8: pass
        elif op == 9: w.failNext = 1
        if not sim.found and c.chance("op.deliver", 0.8): w.deliver()
        w.due()
        if not sim.found: w.recorded()
    sim.nontrivial = bool(w.viewers)
    sim.extra["summary"] = "%d viewers" % len(w.viewers)
