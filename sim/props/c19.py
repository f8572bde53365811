"""
C19: piecewise evaluation timer orders parts by true average duration.
"""
import pickle

from twisted.internet import defer
from twisted.python import failure

RUNS = {"quick": 3000, "thorough": 60000}
RULE = ("Several piecewise evaluations at a time, each iterating over the timer and calling "
        "the parts one after another or all at once, with seeded durations and failures, "
        "on a clock that starts anywhere. A run is non-trivial if an iteration over at least "
        "two parts with different averages was judged.")
REAL = ["ade.util.EvalTimer", "twisted Deferred"]
STUB = ["reactor and clock (virtual)", "function parts"]
ASSUMPTIONS = ["1-6 parts, at most 60 calls",
               "averages closer than 1e-5 s (resolution of the clock) count as equal",
               "a part that completes for the first time during an iteration may or may not "
               "appear in it"]
TOL = 1e-5


class Boom(Exception): pass


def scenario(sim):
    c = sim.c
    from ade.util import EvalTimer
    sim.epoch = c.of("cfg.epoch", (1500000000.0, 0.0, 1.0, 1e6, 1.7e9))
    k = c.pick("cfg.k", 3)
    et = EvalTimer(k)
    IDs = c.of("cfg.ids", (
        (0, 1, 2, 3, 4, 5), ("a", "b", "c", "d", "e", "f"),
        ((0, 1), (1, 0), (2,), (), (3, 3), "x"), (None, False, "", -1, 2.5, 7)))
    IDs = IDs[:1 + c.pick("cfg.n", 6)]
    nature = {ID: c.of("part.nature", (1.0, 0.1, 10.0, 0.0, 100.0)) for ID in IDs}
    fails = c.of("cfg.fail", (0.0, 0.2, 0.6))
    spent = {}; count = {}
    st = {"calls": 0, "open": 0, "et": et, "n": 0}
    judged = [0]

    def duration(ID):
        kind = c.pick("part.kind", 4)
        if kind == 0: return nature[ID]*c.frac("part.time")
        if kind == 1: return nature[ID]
        if kind == 2: return None               # has fired already
        return 3.0*c.frac("part.time")

    def part(*args, **kw):
        call = st["call"]
        if args != call["args"] or kw != call["kw"]:
            sim.violate("arguments", "part called with %r, %r instead of %r, %r" % (
                args, kw, call["args"], call["kw"]))
        dt = duration(call["ID"])
        call["d"] = d = defer.Deferred()
        call["t0"] = sim.reactor.now
        if dt is None: finish(call)
        else: sim.later(dt, finish, call)
        return d

    def finish(call):
        ID = call["ID"]
        sim.note("part-done", repr(ID))
        sim.mark("d%s" % (ID,))
        st["open"] -= 1
        call["t"] = sim.reactor.now - call["t0"]
        if call["et"] is st["et"]:
            spent[ID] = spent.get(ID, 0.0) + call["t"]
            count[ID] = count.get(ID, 0) + 1
        if c.chance("part.fail", fails):
            sim.faults["part-fail"] += 1
            call["outcome"] = failure.Failure(Boom(str(st["n"])))
            call["d"].errback(call["outcome"])
        else:
            call["outcome"] = c.of("part.result", (1.5, None, 0, "x", [1]))
            call["d"].callback(call["outcome"])

    def call(ID, extra):
        """Calls a part through the timer. Its result must come through."""
        st["n"] += 1
        args = [("p%d" % j, st["n"]) for j in range(k)] + [ID] + ["more"]*extra
        x = {"ID": ID, "args": tuple(args), "et": st["et"],
             "kw": {"kw": st["n"]} if extra else {}}
        st["call"] = x
        st["open"] += 1
        sim.note("part", repr(ID))
        sim.mark("s%s" % (ID,))
        d = st["et"](part, *args, **x["kw"])
        back = defer.Deferred()
        def got(result):
            def judge():
                sim.evaluations += 1
                want = x.get("outcome", judge)
                if isinstance(want, failure.Failure):
                    if not isinstance(result, failure.Failure) or \
                       result.value is not want.value:
                        sim.violate("result", "%r instead of the failure of the part" % (
                            result,))
                elif result is not want:
                    sim.violate("result", "result %r instead of %r" % (result, want))
            sim.guard(judge)
            back.callback(None)
        d.addBoth(got)
        return back

    def expected():
        return {ID: spent[ID]/count[ID] for ID in spent}

    def judgeOrder(seq, avg):
        judged[0] += 1
        sim.evaluations += 1
        if len(set(seq)) != len(seq):
            return sim.violate("twice", "part given more than once: %r" % (seq,))
        for ID in avg:
            if ID not in seq:
                return sim.violate("missing", "part %r is missing from %r" % (ID, seq))
        for ID in seq:
            if ID not in avg and not count.get(ID):
                return sim.violate("extra", "part %r has never completed" % (ID,))
        known = [ID for ID in seq if ID in avg]
        for a, b in zip(known, known[1:]):
            if avg[a] > avg[b] + TOL:
                return sim.violate("order", "part %r with an average of %.6f s before %r "
                                   "with %.6f s" % (a, avg[a], b, avg[b]))
        if len(avg) > 1 and max(avg.values()) - min(avg.values()) > TOL:
            sim.probes["orders"] += 1

    @defer.inlineCallbacks
    def evaluation(n):
        """Known parts in the order given, then the others."""
        allAtOnce = c.chance("eval.once", 0.3)
        avg = expected()
        seq = []; ds = []
        for ID in st["et"]:
            seq.append(ID)
            d = call(ID, c.pick("call.extra", 2))
            if allAtOnce: ds.append(d)
            else: yield d
            if sim.found: return
            if len(seq) > 30: break
        judgeOrder(seq, avg)
        for ID in IDs:
            if ID in seq or c.chance("eval.skip", 0.2): continue
            d = call(ID, 0)
            if allAtOnce: ds.append(d)
            else: yield d
        for d in ds: yield d

    left = [4 + c.pick("cfg.evals", 12)]
    running = [0]
    def start():
        if not left[0]: return
        left[0] -= 1
        running[0] += 1
        d = evaluation(left[0])
        def over(x):
            running[0] -= 1
            if isinstance(x, failure.Failure):
                sim.harnessErrors.append(x.getTraceback())
            else: sim.later(c.frac("eval.pause"), start)
        d.addBoth(over)
    for j in range(1 + c.pick("cfg.parallel", 3)): start()
    while not sim.found and not sim.harnessErrors and (left[0] or running[0]):
        if not sim.step(): break
        if c.chance("cfg.look", 0.1): judgeOrder(list(st["et"]), expected())
        if c.chance("cfg.pickle", 0.01):
            st["et"] = pickle.loads(pickle.dumps(st["et"]))
            sim.faults["reload"] += 1
    if not sim.found: judgeOrder(list(st["et"]), expected())
    sim.nontrivial = sim.probes["orders"] > 0
