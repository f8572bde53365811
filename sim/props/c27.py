"""
C27: random bases follow the configured bias towards better members.
"""
import math

import numpy as np

from ..world import standard, INF

RUNS = {"quick": 500, "thorough": 8000}
RULE = ("Many generations with a tiny differential weight and a crossover rate of one, so "
        "that each challenger shows which member was its base, and with challengers that "
        "never win; individuals are pushed in between generations so that the ranks change. "
        "The ranks of the bases among the members other than the target are compared, by a "
        "chi-square test with a chance of a false alarm below 1e-8 for each, with the "
        "half-trapezoid distribution configured, those of the members whose difference was "
        "added with equal chances. A run is non-trivial if at least 150 bases "
        "were seen.")
REAL = ["ade.de", "ade.population", "ade.individual", "ade.report", "ade.history"]
STUB = ["reactor and clock (virtual)", "evaluation function", "report callbacks", "stdin"]
ASSUMPTIONS = ["all members have different SSEs"]


def cdf(x, rb):
    """Chance of a rank below the fraction x of the ranks."""
    if rb <= 0.5:
        rc = 2.0*rb
        return 1.0 if x >= rc else 1.0 - (1.0 - x/rc)**2
    rc = 2.0*rb - 1.0
    h = 2.0/(1.0 + rc)
    if x <= rc: return h*x
    return 1.0 - (1.0 - x)**2 * h / (2.0*(1.0 - rc))

def probabilities(n, rb):
    if rb is False: return [1.0] + [0.0]*(n - 1)
    if rb is True or rb == 1.0: return [1.0/n]*n
    return [cdf((k + 1.0)/n, rb) - cdf(float(k)/n, rb) for k in range(n)]

def improbable(counts, probs):
    """
    Whether the counts are out of the question: a rank that can't be was seen,
    or chi-square (ranks expected less than five times put together) is beyond
    any doubt.
    """
    N = sum(counts)
    for k, (x, p) in enumerate(zip(counts, probs)):
        if p <= 1e-12 and x: return "rank %d of chance zero seen %d times" % (k, x)
    cells = []; o = e = 0.0
    for x, p in zip(counts, probs):
        o += x; e += N*p
        if e >= 5.0:
            cells.append([o, e]); o = e = 0.0
    if cells: cells[-1][0] += o; cells[-1][1] += e
    if len(cells) < 2: return None
    chi = sum((o - e)**2/e for o, e in cells)
    df = len(cells) - 1
    # Wilson-Hilferty
    z = ((chi/df)**(1/3.0) - (1 - 2.0/(9*df))) / math.sqrt(2.0/(9*df))
    if z > 7.0: return "ranks seen %s times, expected %s" % (
        counts, [round(N*p, 1) for p in probs])


def scenario(sim):
    c = sim.c
    lab = standard(sim, nd=(2, 3), np_=(6, 9, 12, 20), big=0, lands=("worsening",),
                   latencies=(1, 2, 4, 7, 5), invalid=False)
    ev = lab.ev; p = lab.p
    ev.mustDefer = True
    # The land gets worse with every evaluation unless told otherwise
    better = []
    land = lab.land
    class Land:
        def __call__(self, x):
            return better.pop() if better else land(x)
    ev.land = Land()
    rb = c.of("cfg.base", (True, 0.5, 0.25, 0.75, 0.1, 0.9, 1.0, False, 0.35, 0.6))
    F = 1e-7
    scale = np.array(lab.maxs) - np.array(lab.mins)
    st = {"bases": [], "S": None, "seen": [0]*p.Np, "pushing": False, "pairs": [],
          "unclear": 0, "first": [0]*p.Np, "second": [0]*p.Np}

    def started(call):
        """Which member is its base?"""
        if sim.found or call.phase != "evolve" or st["pushing"]: return
        X = np.array([np.array(i.values, dtype=float) for i in p])
        d = np.max(np.abs(X - call.values)/scale, axis=1)
        near = np.flatnonzero(d < 1e-6)
        if len(near) != 1:
            # Target and base are so close to each other that it can't be told
            sim.probes["unclear"] += 1
            return
        b = int(near[0])
        st["bases"].append(b)
        # And whose difference was added?
        v = (call.values - X[b])/F
        err = np.max(np.abs(X[:,None,:] - X[None,:,:] - v)/scale, axis=2)
        np.fill_diagonal(err, INF)
        best = np.argsort(err, axis=None)[:2]
        e0, e1 = err.flat[best]
        if e0 > 1e-5 or e1 < 1e-4:
            st["unclear"] += 1
            return
        st["pairs"].append((b,) + tuple(int(x) for x in divmod(int(best[0]), len(p))))
    ev.hooks.append(started)

    def account():
        order = np.argsort(st["S"], kind="stable")
        rank = {int(k): r for r, k in enumerate(order)}
        for k in st["bases"]: st["seen"][rank[k]] += 1
        for b, i, j in st["pairs"]:
            if b in (i, j):
                return sim.violate("difference", "the base is part of the difference added "
                                   "to it")
            st["first"][rank[i]] += 1
            st["second"][rank[j]] += 1
        sim.evaluations += len(st["bases"])

    def snapshot():
        st["S"] = [float(i.SSE) for i in p]
        st["bases"] = []
        st["pairs"] = []

    def generation(kg, g):
        account()
        if c.chance("push", 0.2):
            # Another one, better than some
            st["pushing"] = True
            S = sorted(float(i.SSE) for i in p)
            s = S[c.pick("push.rank", len(S) - 1)]
            s2 = [x for x in S if x < s]
            better.append((s + s2[-1])/2 if s2 else s - 0.5*abs(s) if s > 0 else s)
            values = [lo + (hi - lo)*c.frac("push.x") for lo, hi in lab.bounds]
            mode, ev.latency, ev.mustDefer = ev.latency, 0, False
            i = p.spawn(np.array(values))
            i.evaluate()
            ev.latency, ev.mustDefer = mode, True
            p.push(i)
            st["pushing"] = False
        snapshot()
    lab.genHooks.append(generation)

    box = lab.setup()
    if sim.run(lambda: box["fired"]) != "done" or box["result"] is not True:
        sim.nontrivial = False
        return
    snapshot()
    gens = 300//len(p) + 10
    run = lab.startDE(CR=1.0, F=F, maxiter=gens, adaptive=False, bitterEnd=True,
                      randomBase=rb)
    sim.maxSteps = 200000
    if sim.run(lambda: run["fired"]) != "done": return
    if sim.found: return
    # Expected for the ranks among all members, each one being target in turn
    n = len(p)
    probs = [0.0]*n
    others2 = [0.0]*n
    q = probabilities(n - 1, rb)
    for t in range(n):
        others = [r for r in range(n) if r != t]
        if rb is False:
            chances = [1.0] + [0.0]*(n - 2)
        else: chances = q
        for k, r in enumerate(others):
            probs[r] += chances[k]/n
            for x in others:
                if x != r: others2[x] += chances[k]/n/(n - 2)
    N = sum(st["seen"])
    sim.evaluations += 1
    what = improbable(st["seen"], probs)
    if what: return sim.violate("ranks", "with randomBase=%r: %s" % (rb, what))
    M = sum(st["first"])
    if M > 100 and st["unclear"] < 0.03*M:
        sim.probes["differences-judged"] += 1
        for name in ("first", "second"):
            sim.evaluations += 1
            what = improbable(st[name], others2)
            if what:
                return sim.violate("differences", "%s member of the differences, with "
                                   "randomBase=%r: %s" % (name, rb, what))
    sim.nontrivial = N >= 150
