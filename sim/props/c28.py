"""
C28: the progress log shows one true character for every report.
"""
import collections, re, sys

from ..world import standard, INF

RUNS = {"quick": 2500, "thorough": 60000}
RULE = ("Setup and runs of evolution logging to a destination that keeps the text. The "
        "progress characters logged in setup must be the sequence, and those between two "
        "generation headings the collection, that follows from the evaluation results and "
        "the targets' SSEs. Targets are known from the early cutoff value given to the "
        "evaluation or, at a crossover rate of zero, from the values shared with the target. "
        "A run is non-trivial if at least ten characters were expected.")
REAL = ["ade.report", "ade.util.Messenger", "ade.de", "ade.population", "ade.individual",
        "ade.history"]
STUB = ["reactor and clock (virtual)", "evaluation function", "report callbacks",
        "log destination", "stdin"]
ASSUMPTIONS = ["no complaint, abort or fatal evaluation"]

LINE = re.compile(r"[X0-9#%!+*? ]+$")
HEAD = re.compile(r"Generation (\d+)/(\d+)")


class Log:
    def __init__(self): self.text = []
    def write(self, x): self.text.append(x)
    def flush(self): pass
    def close(self): pass


def ratio(a, b):
    """Possible digits for a being the worse by that factor."""
    if a == b: return "09" if a == 0 else "0"
    if abs(b/a - 1.0) < 0.02*(1 - 1e-9): return "0"
    near = abs(b/a - 1.0) < 0.02*(1 + 1e-9)
    if b == 0: return "9"
    x = a/b
    out = set()
    for y in (x*(1 - 1e-9), x*(1 + 1e-9)):
        out.add("9" if y > 20 else str(min(9, int(round(y)))))
    if near: out.add("0")
    return "".join(sorted(out))

def vsTarget(t, s):
    if t == INF: return "%" if s == INF else "!"
    if s == INF: return "#"
    if t < s: return "X"
    return ratio(t, s)

def vsBest(best, s):
    if best is None: return "*"
    if s < best: return "!"
    if s == INF: return "%" if best == INF else "#"
    return ratio(s, best)


def parse(text):
    """Progress characters before the first heading, and by generation."""
    parts = [[]]; heads = []
    # When set up, the population is shown, which may take lines of digits
    text = re.sub(r"(?s)\nPopulation: .*", "\n", text)
    for line in text.split("\n"):
        m = HEAD.match(line)
        if m:
            heads.append((int(m.group(1)), int(m.group(2))))
            parts.append([])
        elif LINE.match(line): parts[-1].extend(line)
    return parts, heads


def scenario(sim):
    c = sim.c
    from ade.util import msg
    # Sometimes more members than there are characters to a line
    long = c.chance("cfg.long", 0.04)
    lab = standard(sim, nd=(3, 4), np_=(130,) if long else (5, 6, 7, 9), constraints=0.3, modes=(2, 0, 1, 3),
                   lands=("sphere", "quantised", "ripple", "zero", "huge", "steep",
                          "extreme", "worsening", "valley"), cutoff=True)
    ev = lab.ev; p = lab.p
    log = Log()
    msg(log)
    st = {"best": None, "n": 0, "total": 0}
    first = []                  # expected in setup
    exact = c.pick("cfg.how", 2)    # 0: by cutoff value, 1: by shared values
    targets = {}

    def target(call):
        """SSE of the member challenged."""
        if exact == 0: return call.xSSE
        hits = [k for k, i in enumerate(p) if sum(
            1 for a, b in zip(i.values, call.values) if a == b) >= lab.Nd - 1]
        if len(hits) == 1: return float(p[hits[0]].SSE)

    def started(call):
        if call.phase == "evolve": targets[call.n] = target(call)
    ev.hooks.append(started)

    def decided(call):
        if call.phase != "setup" or st["n"] >= p.Np: return
        first.append(vsBest(st["best"], call.sse))
        if st["best"] is None or call.sse < st["best"]: st["best"] = call.sse
        if call.sse < INF: st["n"] += 1
    ev.doneHooks.append(decided)

    def rejected(): return sum(1 for x in lab.constraintCalls if not x[2])

    def match(seen, expected):
        """Whether characters seen are of the kinds expected, each once."""
        seen = collections.Counter(seen)
        for e in sorted(expected, key=len):
            for x in e:
                if seen[x] > 0:
                    seen[x] -= 1
                    break
            else: return "no %s in" % " or ".join(e)
        left = +seen
        if left: return "%s too many in" % "".join(sorted(left.elements()))

    box = lab.setup(uniform=c.chance("cfg.uniform", 0.2))
    if sim.run(lambda: box["fired"]) != "done" or box["result"] is not True:
        sim.nontrivial = False
        return
    parts, heads = parse("".join(log.text))
    seen = parts[0]
    n = rejected()
    sim.evaluations += len(first)
    chars = [x for x in seen if x != " "]
    if len(chars) != len(first) or any(x not in e for x, e in zip(chars, first)):
        return sim.violate("setup", "progress of setup is %s, expected %s" % (
            "".join(chars), first))
    if seen.count(" ") != n:
        return sim.violate("setup-constraints", "%d failed constraints shown of %d" % (
            seen.count(" "), n))
    st["total"] += len(first)
    console = Log()
    stdout, sys.stdout = sys.stdout, console
    try: evolve(sim, lab, log, console, st, exact, targets, match)
    finally: sys.stdout = stdout


def evolve(sim, lab, log, console, st, exact, targets, match):
    c = sim.c
    for run in range(1 + c.pick("cfg.runs", 2)):
        # A destination, none (the console) or none at all
        where = c.weighted("cfg.where", [6, 2, 0.5])
        dest, other = (log, console) if where != 1 else (console, log)
        del log.text[:], console.text[:]
        n0 = len(lab.constraintCalls)
        maxiter = 1 + c.pick("cfg.maxiter", 5)
        rb = lab.startDE(
            CR=0.0 if exact else c.of("cfg.CR", (0.8, 0.3, 1.0)),
            F=c.of("cfg.F", (0.8, 0.5, (0.5, 1.0))), maxiter=maxiter,
            adaptive=c.chance("cfg.adaptive", 0.5), bitterEnd=True,
            randomBase=c.of("cfg.base", (False, True)), xSSE=not exact,
            logHandle=(log, Ellipsis, None)[where])
        if sim.run(lambda: rb["fired"]) != "done": return
        lab.closeGen()
        if "".join(other.text).strip():
            return sim.violate("elsewhere", "logged to %s, though the destination was %s: %r" % (
                ("the console", "a former destination", "the console")[where],
                ("given", "the console", "none")[where], "".join(other.text)[:80]))
        if where == 2:
            if "".join(log.text).strip():
                return sim.violate("not-off", "logged though told not to: %r" %
                                   "".join(log.text)[:80])
            # The characters aren't there to be judged
            for g in lab.gens:
                for call in g.calls: st["best"] = min(st["best"], call.sse)
            sim.probes["off"] += 1
            continue
        parts, heads = parse("".join(dest.text))
        if heads != [(k + 1, maxiter) for k in range(maxiter)]:
            return sim.violate("headings", "generation headings %s for %d generations" % (
                heads, maxiter))
        for k in range(maxiter):
            g = lab.gens[k]; seen = parts[k + 1]
            expected = []
            for call in sorted(g.calls, key=lambda x: x.seq1):
                t = targets[call.n]
                if t is None:
                    expected = None
                    break
                expected.append(vsTarget(t, call.sse))
                if call.sse < st["best"]:
                    st["best"] = call.sse
                    expected.append("+")
            n = sum(1 for x in lab.constraintCalls[n0:] if not x[2] and x[3] == k)
            if expected is None:
                # Who was challenged can't be told
                sim.probes["unclear"] += 1
                for call in g.calls: st["best"] = min(st["best"], call.sse)
                continue
            expected += [" "]*n
            sim.evaluations += len(expected)
            st["total"] += len(expected)
            what = match(seen, expected)
            if what:
                return sim.violate("generation", "%s progress %r of generation %d, expected "
                                   "%s" % (what, "".join(seen), k + 1, expected))
    sim.nontrivial = st["total"] >= 10
