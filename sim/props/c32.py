"""
C32: extracting the examples neither alters what is there nor leaves parts of files.
"""
import importlib, io, os, random, resource, shutil, signal, sys

from .. import core
from .c16 import Trap

RUNS = {"quick": 1500, "thorough": 30000}
SCRATCH = True
RULE = ("The example files are extracted several times, by either of the two entry points, "
        "into a home directory of the run's own. In between, the user modifies, adds and "
        "deletes files there. At seeded points of seeded extractions (byte written, "
        "file-system call) the disk is full, a call fails, the user interrupts or the "
        "process is killed (a forked one, for good); the console may be broken. Contents "
        "are compared before and after each. A run is non-trivial if an extraction was "
        "interrupted or met files of the user's.")
REAL = ["ade.scripts.examples, ade.extract_examples", "ade.util messages",
        "pkg_resources, shutil, file system (scratch directory)", "process death"]
STUB = ["failing file-system calls (raised from an audit hook)",
        "full disk (file size limit)", "home directory, package directory (copies)"]
ASSUMPTIONS = ["a killed process loses nothing it has written to the file system (no power "
               "failure)", "one extraction at a time",
               "up to 8 example files of up to 300 kB"]
WRITES = ("os.rename", "os.remove", "os.rmdir", "os.mkdir", "os.truncate", "os.link",
          "os.symlink", "os.chmod", "shutil.copyfile", "shutil.move", "shutil.rmtree")


def fence(root):
    """Nothing outside the run's scratch directory can be changed from here on."""
    def inside(a):
        a = os.path.abspath(os.fsdecode(a))
        return a == "/dev/null" or a.startswith(root + os.sep)
    def hook(event, args):
        if event == "open":
            path, mode, flags = args
            if not isinstance(path, (str, bytes)): return
            if not (flags or 0) & (os.O_WRONLY | os.O_RDWR | os.O_CREAT | os.O_TRUNC): return
            if not inside(path): raise PermissionError(13, "outside", path)
        elif event in WRITES:
            path = [a for a in args if isinstance(a, (str, bytes))]
            if event == "shutil.copyfile": path = path[1:]
            for a in path:
                if not inside(a): raise PermissionError(13, "outside", a)
    sys.addaudithook(hook)


def tree(root):
    """Contents below a directory."""
    out = {}
    for d, dirs, files in os.walk(root):
        for f in files:
            path = os.path.join(d, f)
            with open(path, "rb") as fh: out[os.path.relpath(path, root)] = fh.read()
        for f in dirs: out[os.path.relpath(os.path.join(d, f), root) + "/"] = None
    return out


def orderings(c):
    """The order of directory listings, which is up to the file system, is the seed's."""
    listdir, scandir = os.listdir, os.scandir
    order = random.Random(c.pick("cfg.order", 1 << 20))
    def shuffled(x):
        order.shuffle(x)
        return x
    class Scan(list):
        def __enter__(self): return self
        def __exit__(self, *args): pass
        def close(self): pass
        def __next__(self):
            if not self: raise StopIteration
            return self.pop(0)
        def __iter__(self): return self
    os.listdir = lambda path=".": shuffled(sorted(listdir(path)))
    def scan(path="."):
        with scandir(path) as s: x = sorted(s, key=lambda e: e.name)
        return Scan(shuffled(x))
    os.scandir = scan


class Broken(io.StringIO):
    def write(self, x): raise OSError(32, "Broken pipe")


def scenario(sim):
    c = sim.c
    scratch = os.path.realpath(sim.scratch)
    # The package is a copy, so that its own files can't come to harm
    pkg = os.path.join(scratch, "pkg")
    home = os.path.join(scratch, "home")
    os.mkdir(pkg); os.mkdir(home)
    shutil.copytree(os.path.join(core.REPO, "ade"), os.path.join(pkg, "ade"),
                    ignore=shutil.ignore_patterns("test", "__pycache__", "*.log", "*.png",
                                                  "*.csv"))
    exDir = os.path.join(pkg, "ade", "examples")
    rng = random.Random(c.pick("cfg.content", 1 << 20))
    for k in range(c.pick("cfg.more", 4)):
        size = c.of("cfg.size", (900, 0, 1, 70000, 300000))
        with open(os.path.join(exDir, ("more.py", "less.txt", "other.c")[k]), "wb") as fh:
            fh.write(rng.randbytes(size))
    want = {f: x for f, x in tree(exDir).items()
            if f[0].islower() and f.endswith((".py", ".c", ".txt"))}
    package = tree(pkg)
    import pkg_resources
    for name in [x for x in sys.modules if x == "ade" or x.startswith("ade.")]:
        del sys.modules[name]
    core.REPO = pkg
    os.environ["HOME"] = home
    os.chdir(home)
    importlib.import_module("ade.util")
    entries = [importlib.import_module("ade.scripts.examples").extract]
    f = getattr(importlib.import_module("ade"), "extract_examples", None)
    if f is not None: entries.append(f)
    root = os.path.join(home, "ade-examples")
    orderings(c)
    trap = Trap(scratch)
    fence(scratch)
    sim.nontrivial = False
    st = {"clean": True}
    mine = set()

    def user():
        """Something the user does in between."""
        what = c.weighted("user.what", [3, 3, 3, 1, 2, 1, 1])
        there = sorted(f for f in want if os.path.isfile(os.path.join(root, f)))
        if what == 5:
            # Everything is thrown away
            if os.path.isdir(root): shutil.rmtree(root)
            mine.clear()
            st["clean"] = True
            sim.note("user", "clears")
            return
        os.makedirs(root, exist_ok=True)
        if what in (1, 2) and not there: what = 0
        name = None
        if what == 0:
            # A file of their own, perhaps in the place of an example
            name = c.of("user.name", tuple(sorted(want)) + ("my.py", "README", "voc2.py"))
            if os.path.isdir(os.path.join(root, name)): return
            with open(os.path.join(root, name), "wb") as fh:
                fh.write(rng.randbytes(c.of("user.size", (50, 0, 1, 20000))))
            mine.add(name)
        elif what == 1:
            name = c.of("user.name", there)
            with open(os.path.join(root, name), "ab") as fh: fh.write(b"# mine\n")
        elif what == 2:
            name = c.of("user.name", there)
            os.remove(os.path.join(root, name))
        elif what == 3:
            name = "sub"
            os.makedirs(os.path.join(root, name), exist_ok=True)
            with open(os.path.join(root, name, "voc.py"), "wb") as fh: fh.write(b"x")
            mine.update(("sub/", "sub/voc.py"))
        elif what == 6:
            # A directory in the place of an example
            name = c.of("user.name", sorted(want))
            if os.path.exists(os.path.join(root, name)): return
            os.mkdir(os.path.join(root, name))
            mine.add(name + "/")
        else: return
        if what in (0, 1) and c.chance("user.old", 0.3):
            # Perhaps from a backup
            t = 1e9*(0.5 + c.frac("user.time"))
            os.utime(os.path.join(root, name), (t, t))
        sim.note("user", what, name)
        sim.nontrivial = True

    def limit(n):
        soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
        resource.setrlimit(resource.RLIMIT_FSIZE, (n, hard))

    def extract(f, broken):
        old = sys.stdout
        sys.stdout = Broken() if broken else io.StringIO()
        try: f()
        finally: sys.stdout = old

    def attempt(f, kind, broken):
        """Extracts with a fault; returns True or what went wrong."""
        if kind == 0:
            extract(f, broken)
            return True
        if kind in (1, 4):
            n = (c.pick("fault.byte", 16000) if c.chance("fault.small", 0.7) else
                 c.pick("fault.more", 300000))
        else: n = 1 + c.pick("fault.call", 30)
        if kind == 1:
            sim.faults["disk-full"] += 1
            limit(n)
            try: extract(f, broken)
            except Exception: return "disk full at byte %d" % n
            finally: limit(resource.RLIM_INFINITY)
            return True
        if kind in (2, 3):
            err = OSError(c.of("fault.errno", (5, 28, 13)), "simulated")
            if kind == 3: err = KeyboardInterrupt()
            trap.arm(n, lambda: err)
            try: extract(f, broken)
            except BaseException:
                trap.disarm()
                if not trap.tripped: raise
                sim.faults[("call-fails", "interrupt")[kind-2]] += 1
                return "failure of file-system call %d" % n
            trap.disarm()
            return True
        pid = os.fork()
        if pid == 0:
            code = 3
            try:
                if kind == 4:
                    signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
                    resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                    limit(n)
                else: trap.arm(n, lambda: os._exit(9))
                extract(f, broken)
                code = 0
            finally: os._exit(code)
        _, status = os.waitpid(pid, 0)
        if os.WIFEXITED(status) and os.WEXITSTATUS(status) == 0: return True
        sim.faults[("killed-at-byte", "killed-at-call")[kind-4]] += 1
        return "kill at %s %d" % (("byte", "file-system call")[kind-4], n)

    def judge(before, got, after):
        sim.evaluations += 1
        for name, x in before.items():
            if name not in want and name not in mine: continue
            if name not in after:
                return sim.violate("gone", "%s was there before the extraction and is "
                                   "gone" % name)
            if after[name] != x:
                return sim.violate("altered", "%s was there before the extraction and has "
                                   "other contents now" % name)
        for name, x in want.items():
            if name in before: continue
            if name + "/" in before:
                if name + "/" in after and not any(f.startswith(name + "/") and f not in before
                                                   for f in after): continue
                return sim.violate("altered", "directory %s was changed" % name)
            if name in after:
                if after[name] != x:
                    return sim.violate("part", "%s has %d bytes of other contents than the "
                                       "example's %d, after %s" % (
                                           name, len(after[name]), len(x),
                                           "an extraction" if got is True else got))
            elif got is True:
                return sim.violate("missing", "%s is not there after an extraction" % name)
        if got is not True: st["clean"] = False
        elif st["clean"]:
            more = sorted(set(after) - set(before) - set(want))
            if more: return sim.violate("litter", "other files appeared: %s" % more)
        if tree(pkg) != package:
            return sim.violate("package", "the package's own files were changed")
        more = sorted(set(os.listdir(home)) - {"ade-examples"})
        if more: return sim.violate("elsewhere", "files appeared in the home directory: %s" % more)

    n = 1 + c.pick("cfg.times", 5)
    for k in range(n + 1):
        if k or c.chance("user.first", 0.3): user()
        kind = c.weighted("ext.kind", [2, 2, 2, 1, 2, 2]) if k < n else 0
        f = entries[c.pick("ext.entry", 2) % len(entries)]
        broken = c.chance("ext.console", 0.15)
        if broken: sim.faults["console-broken"] += 1
        sim.reactor.now += c.of("ext.pause", (60.0, 3600.0, 86400.0))
        before = tree(root) if os.path.isdir(root) else {}
        try: got = attempt(f, kind, broken)
        except Exception as e:
            return sim.violate("error", "extraction failed without a fault: %s: %s" % (
                type(e).__name__, e))
        after = tree(root) if os.path.isdir(root) else {}
        sim.note("extract", kind, got, sorted((f, len(x or b"")) for f, x in after.items()))
        if got is not True: sim.nontrivial = True
        judge(before, got, after)
        if sim.found: return
        sim.mark("%d%d" % (kind, got is True))
