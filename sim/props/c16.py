"""
C16: an interrupted save never loses the last good save.
"""
import os, pickle, resource, signal, sys

from ..world import standard
from .c15 import describe, SumLimit

RUNS = {"quick": 2000, "thorough": 40000}
SCRATCH = True
RULE = ("A population evolves and is saved (or its best individual's parameters are) several times to one path; at seeded points of "
        "seeded saves (byte written, file-system call) the disk is full, a call fails, "
        "something can't be pickled, the user interrupts, or the process is killed "
        "(a forked one, for good). After every save the file is loaded and compared with "
        "the states saved before. A run is non-trivial if a save was interrupted.")
REAL = ["ade.population.save/load", "ade.history, ade.individual pickling",
        "pickle, bz2, file system (scratch directory)", "process death"]
STUB = ["reactor and clock (virtual)", "evaluation function",
        "failing file-system calls (raised from an audit hook or instead of fsync)",
        "full disk (file size limit)"]
ASSUMPTIONS = ["a killed process loses nothing it has written to the file system (no power "
               "failure)", "population sizes 5-9 (now and then 4-34), at most six saves"]
EVENTS = ("open", "os.rename", "os.remove", "os.truncate", "os.link", "os.symlink",
          "os.chmod", "shutil.copyfile", "shutil.move", "os.unlink", "os.mkdir",
          "shutil.copymode", "tempfile.mkstemp")


class Unpicklable:
    def __call__(self, params): return True
    def __reduce__(self): raise TypeError("cannot pickle this")


class Trap:
    """Counts file-system calls on the scratch directory; trips at one of them."""
    def __init__(self, root):
        self.root = root
        self.active = False
        self.n = 0
        sys.addaudithook(self.hook)
        for name in ("fsync", "fdatasync", "ftruncate"):
            f = getattr(os, name, None)
            if f is not None: setattr(os, name, self.wrap(f))

    def wrap(self, f):
        def called(*args):
            self.tick()
            return f(*args)
        return called

    def hook(self, event, args):
        if not self.active or event not in EVENTS: return
        if not any(isinstance(a, (str, bytes)) and self.root in os.fsdecode(a)
                   for a in args): return
        self.tick()

    def tick(self):
        if not self.active: return
        self.n += 1
        if self.n == self.at:
            self.tripped = True
            raise_ = self.action()
            if raise_ is not None: raise raise_

    def arm(self, at, action):
        self.n = 0; self.at = at; self.action = action
        self.active = True; self.tripped = False

    def disarm(self):
        self.active = False


def scenario(sim):
    c = sim.c
    from ade.population import Population
    lab = standard(sim, reporters=False, nmax=0, latencies=(0, 1), lands=("sphere", "ripple"),
                   invalid=False)
    ev = lab.ev; p = lab.p
    root = os.path.join(sim.scratch, "d")
    os.mkdir(root)
    path = os.path.join(root, c.of("cfg.name", ("p.dat", "p", "a b.dat", "p.dat.tmp")))
    real = path
    if c.chance("cfg.link", 0.15):
        os.mkdir(os.path.join(sim.scratch, "e"))
        real = os.path.join(sim.scratch, "e", "real.dat")
        os.symlink(real, path)
        sim.probes["symlink"] += 1
    trap = Trap(sim.scratch)
    points = [[lo + 0.5*(hi - lo) for lo, hi in lab.bounds]]
    sim.nontrivial = False
    box = lab.setup()
    if sim.run(lambda: box["fired"]) != "done" or box["result"] is not True: return
    st = {"good": None, "clean": True, "size": 2000}
    # The parameters of the best individual may be saved instead
    single = c.chance("cfg.single", 0.15)
    if single: sim.probes["individual"] += 1

    def save(path):
        (p.best() if single else p).save(path)

    def state():
        if single: return {k: float(v) for k, v in zip(lab.names, p.best().values)}
        return describe(p, lab.names, points)

    def listing():
        out = []
        for name in ("d", "e"):
            d = os.path.join(sim.scratch, name)
            if os.path.isdir(d): out += [os.path.join(d, f) for f in os.listdir(d)]
        return sorted(out)

    def loaded():
        """What is at the path: a state, None (no file) or an exception."""
        if not os.path.exists(path): return None
        try:
            if single:
                with open(path, "rb") as fh:
                    return {k: float(v) for k, v in pickle.load(fh).items()}
            q = Population.load(path, func=ev)
            return describe(q, lab.names, points)
        except Exception as e:
            return e

    def judge(what, new, returned):
        sim.evaluations += 1
        got = loaded()
        sim.note("judge", what, returned, type(got).__name__)
        if returned:
            if isinstance(got, Exception):
                return sim.violate("broken", "save returned normally but the file can't be "
                                   "loaded: %r" % got)
            if got != new:
                return sim.violate("not-saved", "save returned normally but the file has "
                                   "other contents" if got is not None else
                                   "save returned normally but there is no file")
            st["good"] = new
            if st["clean"]:
                more = [f for f in listing() if f not in (path, real)]
                if more:
                    return sim.violate("litter", "save left other files behind: %s" % [
                        os.path.basename(f) for f in more])
            st["size"] = os.path.getsize(path)
            return
        st["clean"] = False
        if st["good"] is None:
            if got is None or isinstance(got, Exception): return
            if got != new:
                return sim.violate("wrong", "file of wrong content after %s of the first "
                                   "save" % what)
            st["good"] = new
            return
        if got is None or isinstance(got, Exception):
            return sim.violate("lost", "after %s the file saved before is gone or can't be "
                               "loaded: %r" % (what, got))
        if got != new and got != st["good"]:
            return sim.violate("wrong", "after %s the file has the contents of neither the "
                               "previous nor the new save" % what)
        st["good"] = got

    def limit(n):
        soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
        resource.setrlimit(resource.RLIMIT_FSIZE, (n, hard))

    def where():
        """A byte position of the save."""
        size = st["size"]
        return (c.pick("fault.byte", size + (20 if single else 200)) if c.chance("fault.any", 0.7) else
                c.of("fault.edge", (0, 1, 14, size - 1, size - 10, size)))

    def attempt(kind):
        """Saves with a fault; returns what happened."""
        if kind == 0:
            save(path)
            return True, None
        if kind == 1:
            # Disk full
            n = where()
            sim.faults["disk-full"] += 1
            limit(n)
            try: save(path)
            except Exception as e: return False, "disk full at byte %d" % n
            finally: limit(resource.RLIM_INFINITY)
            return True, None
        if kind in (2, 3):
            # File-system call fails, or the user interrupts there
            at = 1 + c.pick("fault.call", 6)
            err = OSError(c.of("fault.errno", (5, 28, 13, 4)), "simulated")
            if kind == 3: err = KeyboardInterrupt()
            trap.arm(at, lambda: err)
            try: save(path)
            except BaseException as e:
                trap.disarm()
                if e is not err and not trap.tripped: raise
                sim.faults[("call-fails", "interrupt")[kind-2]] += 1
                return False, "failure of file-system call %d" % at
            trap.disarm()
            if trap.tripped:
                # Put up with it; the save has to be a good one
                sim.probes["fault-ignored"] += 1
            return True, None
        if kind == 4:
            # Can't be pickled
            sim.faults["unpicklable"] += 1
            old = list(p.pm.constraints)
            p.setConstraints(Unpicklable())
            try: save(path)
            except Exception: return False, "failure to pickle"
            finally: p.setConstraints(*old)
            sim.violate("error", "something unpicklable was saved")
            return True, None
        # Killed, at a byte written or at a file-system call
        byte = kind == 5
        n = where() if byte else 1 + c.pick("fault.call", 6)
        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                if byte:
                    signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
                    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                    limit(n)
                else: trap.arm(n, lambda: os._exit(9))
                save(path)
                code = 0
            finally: os._exit(code)
        _, status = os.waitpid(pid, 0)
        if os.WIFEXITED(status) and os.WEXITSTATUS(status) == 0: return True, None
        sim.faults["killed-at-byte" if byte else "killed-at-call"] += 1
        return False, "kill at %s %d" % ("byte" if byte else "file-system call", n)

    for k in range(2 + c.pick("cfg.saves", 5)):
        kind = c.weighted("save.kind", [4, 2, 2, 1, 1, 2, 2])
        if single and kind == 4: kind = 0
        if c.chance("cfg.cons", 0.2): p.setConstraints(SumLimit(1e6*k))
        new = state()
        try: returned, what = attempt(kind)
        except Exception as e:
            return sim.violate("error", "save failed without a fault: %s: %s" % (
                type(e).__name__, e))
        if not returned: sim.nontrivial = True
        judge(what, new, returned)
        if sim.found: return
        sim.mark("%d%d" % (kind, returned))
        # Go on
        if c.chance("cfg.evolve", 0.7):
            rb = lab.startDE(maxiter=1, F=0.8, adaptive=False, bitterEnd=True)
            if sim.run(lambda: rb["fired"]) != "done" or rb["failure"]: return
            sim.settle()
    # A last one without faults
    new = state()
    try: save(path)
    except Exception as e:
        return sim.violate("error", "save failed after earlier interrupted ones: %s: %s" % (
            type(e).__name__, e))
    judge("nothing", new, True)
