"""
Reference model of the adaptation of F and of the stop rule, as a set of
possible states: where the outcome of a generation does not determine whether
its improvement was sufficient, both possibilities are followed.
"""
import math

from .world import INF


class FState:
    """low, high: F setting (equal for a single F); limited; dwell count."""
    __slots__ = ("low", "high", "limited", "dwell")
    def __init__(self, low, high, limited=False, dwell=0):
        self.low = low; self.high = high
        self.limited = limited; self.dwell = dwell
    def key(self):
        return (round(self.low, 12), round(self.high, 12), self.limited, self.dwell)
    def __repr__(self):
        return "F=(%.5g, %.5g) %s dwell=%d" % (
            self.low, self.high, "limited" if self.limited else "free", self.dwell)


class FModel:
    """
    first: whether the first generation is the first ever judged of its
    population, which counts as sufficient; "maybe" where something may have
    been left over from a preceding run.
    """
    def __init__(self, F, CR, Np, adaptive, bitterEnd, dwellByGrave, first):
        from ade.de import FManager
        self.factor = getattr(FManager, "scaleLowest", 0.89), \
            getattr(FManager, "scaleHighest", 0.87), \
            getattr(FManager, "scaleUpPower", 0.88)
        self.seq = hasattr(F, "__iter__")
        if not self.seq:
            self.factor = (getattr(FManager, "scaleSingle", 0.89),) + self.factor[1:]
        self.critical = math.sqrt((1.0 - 0.5*CR) / Np)
        self.adaptive = adaptive
        low, high = (F[0], F[1]) if self.seq else (F, F)
        if self.seq and low == 0:
            self.adaptive = False
            low = self.critical
        self.low0 = low; self.high0 = high
        self.bitterEnd = bitterEnd
        self.dwellByGrave = dwellByGrave
        self.states = [FState(low, high)]
        self.first = first

    def down(self, s):
        if not self.adaptive: return FState(s.low, s.high, s.limited, s.dwell)
        x = self.factor[0]*s.low
        if x > self.critical:
            return FState(x, s.high if self.seq else x, s.limited, s.dwell)
        if self.seq:
            x = self.factor[1]*s.high
            if x > 3*s.low: return FState(s.low, x, s.limited, s.dwell)
        return FState(s.low, s.high, True, s.dwell)

    def up(self, s):
        if not self.adaptive: return FState(s.low, s.high, s.limited, 0)
        if self.seq and s.high < self.high0:
            return FState(s.low, min(s.high * self.factor[1]**-self.factor[2], self.high0), False, 0)
        if s.low < self.low0:
            x = min(s.low * self.factor[0]**-self.factor[2], self.low0)
            return FState(x, s.high if self.seq else x, False, 0)
        return FState(s.low, s.high, False, 0)

    def after(self, kinds):
        """
        The generation was possibly of the kinds "up" and/or "down". Returns
        (states going on, whether stopping here is possible).
        """
        go = {}; stop = False
        if self.first == "maybe": kinds = ("up", "down")
        elif self.first: kinds = ("up",)
        self.first = False
        for s in self.states:
            for kind in kinds:
                if kind == "up": n = self.up(s)
                else:
                    n = self.down(s)
                    if not self.bitterEnd and n.limited:
                        n.dwell += 1
                        if n.dwell > self.dwellByGrave:
                            stop = True
                            continue
                go[n.key()] = n
        return list(go.values()), stop


def classify(g, Np, sqs, minDiff=0.02):
    """
    Possible kinds of a completed generation from the members before and after
    and the results of its evaluations.
    """
    S0, S1 = g.start.S, g.end.S
    low = 0.0; wins = 0
    for a, b in zip(S0, S1):
        if a == b: continue
        wins += 1
        if a == INF: low += 999.5
        elif b == 0: low += 999.5
        elif abs(b/a - 1.0) < minDiff: low += 0.1
        else: low += max(0.5, round(a/b) - 0.5) if a/b < 1e6 else 1000
    # Each new best of all counts a little more
    best = min(S0)
    for call in sorted(g.calls, key=lambda x: x.seq1):
        if call.sse is not None and call.sse < best:
            best = call.sse
            low += 0.5
    doubtful = 0
    for call in g.calls:
        if call.sse is None: continue
        # Invalid challengers and ties count a little
        if call.sse == INF or any(call.sse == a for a in S0): doubtful += 1
    if low > sqs*(1 + 1e-9): return ("up",)
    if wins == 0 and doubtful == 0: return ("down",)
    return ("up", "down")
