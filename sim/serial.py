"""
Reference: one-at-a-time differential evolution.

Given the population at the start and at the end of a generation and the
vectors that were evaluated, decides which target each vector can have been the
challenger of, were the targets taken one after another.
"""
import itertools

import numpy as np

_combos = {}

def combos(N):
    """All (base, first, second), different from each other."""
    if N not in _combos:
        _combos[N] = np.array(list(itertools.permutations(range(N), 3)))
    return _combos[N]


def limit(V, mins, maxs):
    V = np.where(V < mins, 2*mins - V, V)
    V = np.where(V > maxs, 2*maxs - V, V)
    return np.clip(V, mins, maxs)


class Serial:
    """
    X0, X1: members' values at start and end of the generation.
    F: a number or (low, high).
    bases: None for any base, or function (kt) -> set of allowed base indices.
    CR: crossover rate, only regarded where it leaves nothing to chance (0, 1).
    """
    def __init__(self, X0, X1, mins, maxs, F, bases=None, CR=None):
        self.CR = CR
        self.X0 = X0; self.X1 = X1
        self.mins = np.asarray(mins, float); self.maxs = np.asarray(maxs, float)
        self.scale = self.maxs - self.mins
        self.tol = 1e-9*(self.scale + np.abs(self.mins) + np.abs(self.maxs))
        self.F = F
        self.bases = bases
        self.N = len(X0)
        self._states = {}

    def state(self, kt):
        """Members as seen by the challenge of target kt."""
        X = self.X0.copy()
        X[:kt] = self.X1[:kt]
        return X

    def parts(self, kt):
        got = self._states.get(kt)
        if got is None:
            X = self.state(kt)
            C = combos(self.N)
            C = C[np.all(C != kt, axis=1)]
            if self.bases is not None:
                allowed = list(self.bases(kt))
                C = C[np.isin(C[:, 0], allowed)]
            B = X[C[:, 0]]
            D = X[C[:, 1]] - X[C[:, 2]]
            M = None
            if not isinstance(self.F, tuple):
                M = limit(B + D*self.F, self.mins, self.maxs)
            got = self._states[kt] = (X[kt], B, D, M)
        return got

    def fits(self, v, kt, Fs=None):
        """
        Could v be the challenger of target kt? If a list Fs is supplied, the
        possible (low, high) values of F are appended to it.
        """
        t, B, D, M = self.parts(kt)
        if not len(B): return False
        diff = v != t
        if self.CR == 1:
            diff = np.ones(len(v), bool)
        elif self.CR == 0 and np.sum(diff) > 1:
            return False
        if M is not None:
            close = np.abs(M - v) <= self.tol
            ok = np.all(close | ~diff, axis=1) & np.any(close, axis=1)
            return bool(np.any(ok))
        lo, hi = self.F
        eps = 1e-9
        js = np.flatnonzero(diff)
        if not len(js):
            # Nothing visible of the mutation; a mutant equal to the target in
            # some component must be possible
            return self._trivial(v, B, D, Fs)
        # F from the differing component, per combination the one that has the
        # largest difference relative to scale
        Dj = np.abs(D[:, js]) / self.scale[js]
        jj = js[np.argmax(Dj, axis=1)]
        r = np.arange(len(B))
        d = D[r, jj]; b = B[r, jj]
        usable = d != 0
        result = False
        dd = np.where(usable, d, 1.0)
        for m in (v[jj], 2*self.mins[jj] - v[jj], 2*self.maxs[jj] - v[jj]):
            F = (m - b) / dd
            # Uncertainty of F from rounding
            u = eps + 4e-15*(np.abs(b) + np.abs(m) + np.abs(self.mins[jj])
                             + np.abs(self.maxs[jj])) / np.abs(dd)
            ok = usable & (F >= lo - u) & (F <= hi + u)
            if not np.any(ok): continue
            k = np.flatnonzero(ok)
            Mx = limit(B[k] + D[k]*F[k, None], self.mins, self.maxs)
            tol = self.tol + np.abs(D[k])*u[k, None]
            close = np.abs(Mx - v) <= tol
            good = np.all(close | ~diff, axis=1)
            if np.any(good):
                result = True
                if Fs is None: return True
                for x, e in zip(F[k][good], u[k][good]): Fs.append((x-e, x+e))
        # No difference at all in the differing components: mutant is the base
        k = np.flatnonzero(~usable)
        if len(k):
            close = np.abs(limit(B[k], self.mins, self.maxs) - v) <= self.tol
            if np.any(np.all(close[:, js], axis=1)):
                result = True
                if Fs is not None: Fs.append((lo, hi))
        return result

    def _trivial(self, v, B, D, Fs):
        lo, hi = self.F
        if Fs is not None: Fs.append((lo, hi))
        a = B + D*lo; b = B + D*hi
        low = np.minimum(a, b) - self.tol; high = np.maximum(a, b) + self.tol
        ok = (v >= low) & (v <= high)
        for bound in (self.mins, self.maxs):
            w = 2*bound - v
            ok |= (w >= low) & (w <= high)
        return bool(np.any(ok))


def matching(cands, N):
    """
    Maximum matching of rows (lists of targets) to N targets. Returns list of
    target or None per row.
    """
    owner = {}
    def assign(r, seen):
        for t in cands[r]:
            if t in seen: continue
            seen.add(t)
            if t not in owner or assign(owner[t], seen):
                owner[t] = r
                return True
        return False
    result = [None]*len(cands)
    for r in range(len(cands)):
        assign(r, set())
    for t, r in owner.items(): result[r] = t
    return result


def forced(cands, N):
    """Targets each row can have in some perfect matching of the rows."""
    out = []
    for r in range(len(cands)):
        mine = []
        for t in cands[r]:
            rest = [[x for x in c if x != t] if k != r else [t]
                    for k, c in enumerate(cands)]
            m = matching(rest, N)
            if all(x is not None for x in m): mine.append(t)
        out.append(mine)
    return out
