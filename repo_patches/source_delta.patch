From 1c08ba05b8b760624a44ab25e370d67184ae20ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:03:02 +0000
Subject: [PATCH 01/30] fix: treat an SSE of NaN as infinite

An evaluation that gave NaN became a population member during setup and,
because every comparison with NaN is false, could never be replaced nor
sorted properly.
---
 ade/individual.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ade/individual.py b/ade/individual.py
index 7ffe76d..28e8bc9 100644
--- a/ade/individual.py
+++ b/ade/individual.py
@@ -115,9 +115,9 @@ class Individual(object):
         """
         Property: My SSE value, which must at least behave like a
         float. Infinite if no SSE computed yet, a fatal error occurred
-        during evaluation, or was set to C{None}.
+        during evaluation, or was set to C{None} or C{NaN}.
         """
-        if self._SSE is None or self._SSE < 0:
+        if self._SSE is None or self._SSE < 0 or np.isnan(float(self._SSE)):
             return float('+inf')
         return self._SSE #float(self._SSE)
     @SSE.setter
-- 
2.43.0


From e2a1359c5179ad94196558d9778c34a4d7896644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:10:59 +0000
Subject: [PATCH 02/30] fix: compare SSE of best individual, not the method,
 with goalSSE

Setting goalSSE made every run end with a TypeError after its first
generation.
---
 ade/de.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ade/de.py b/ade/de.py
index ed8b67e..748fec5 100644
--- a/ade/de.py
+++ b/ade/de.py
@@ -608,7 +608,7 @@ class DifferentialEvolution(object):
                 if result is None:
                     self.shutdown()
             if not self.running: break
-            if self.goalSSE and self.p.best < self.goalSSE:
+            if self.goalSSE and self.p.best() < self.goalSSE:
                 msg(-1,
                     "Goal SSE of {:.5g} has been met, stopped.", self.goalSSE)
                 break
-- 
2.43.0


From 49c8b7ff4fb36bb76da9bdd76416b6b6ff7d8429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:21:48 +0000
Subject: [PATCH 03/30] fix: leave a full history alone when all its records
 are of population members

With every record protected there is no pair to choose from, and the search
for an expendable one raised an error that left the history locked forever.
Now it comes up with None, as documented, and the new record is not written.
---
 ade/history.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ade/history.py b/ade/history.py
index e5255e3..55a6171 100644
--- a/ade/history.py
+++ b/ade/history.py
@@ -792,6 +792,8 @@ class ClosestPairFinder(object):
         """
         # The number of active rows
         Nr = len(self.K)
+        if Nr == 0:
+            return defer.succeed(None)
         if Nr == 1:
             return defer.succeed(list(self.K)[0])
         if Np is None: Np = self.Np_max
@@ -1061,9 +1063,10 @@ class History(object):
                 # in the current population are protected and exempt)
                 # before adding
                 kr = yield self.cpf()
-                if kr is not None: self.purge(kr)
-                k, kr = self.kkr(SSE, N)
-            writeRecord(k, kr)
+                if kr is not None:
+                    self.purge(kr)
+                    k, kr = self.kkr(SSE, N)
+            if kr is not None: writeRecord(k, kr)
             self.dLock.release()
         else: kr = None
         defer.returnValue(kr)
-- 
2.43.0


From 10df5936da18c7d23fc29bdf8e06113faf981706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:22:27 +0000
Subject: [PATCH 04/30] fix: keep track of identical individuals in history
 separately

Two population members with the same SSE and values shared one entry in the
map of individuals to rows, so one of the two records stayed marked as in the
population forever.
---
 ade/history.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ade/history.py b/ade/history.py
index 55a6171..2445372 100644
--- a/ade/history.py
+++ b/ade/history.py
@@ -1044,8 +1044,11 @@ class History(object):
                 # have cpf initially disregard it
                 self.cpf.clearRow(kr)
                 # Add to the individual-row map so it can be removed
-                # from the population later
-                self.kr[hash(i)] = kr
+                # from the population later, without losing track of
+                # any identical individual already there
+                key = hash(i)
+                while key in self.kr: key += 1
+                self.kr[key] = kr
 
         SSE = i.SSE
         if np.isfinite(SSE):
@@ -1106,6 +1109,7 @@ class History(object):
                 # Must be an Individual
                 key = hash(x)
                 if key not in self.kr: return
+                while key+1 in self.kr: key += 1
                 kr = self.kr.pop(key)
             self.Kp.discard(kr)
             # This row is no longer a population member and is thus
-- 
2.43.0


From 79bd69bcedf1abbf1c1e3204b5f12342849f0347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:23:20 +0000
Subject: [PATCH 05/30] fix: never give a new history record the row of another
 one

The search for an unallocated row only looked next to the inner entries of
the sorted row indices and otherwise assumed that the last row plus one, or
the number of records, was free. After rows had been given up that could be
the row of an existing record, or one beyond the end of the array.
---
 ade/history.py | 49 +++++++------------------------------------------
 1 file changed, 7 insertions(+), 42 deletions(-)

diff --git a/ade/history.py b/ade/history.py
index 2445372..d21a30e 100644
--- a/ade/history.py
+++ b/ade/history.py
@@ -953,38 +953,10 @@ class History(object):
 
         First, index I{k} is obtained, by seeing where the I{K}
         list points to a record with an SSE closest but above the
-        new one. Then each row index in the I{K} list is examined
-        to see if the previous row of my I{X} array is
-        unallocated. If so, that is the row index for the new
-        record. Otherwise, is the next row of my I{X} array is
-        unallocated, that is used instead. If both adjacent rows
-        of I{X} are already allocated, the next row index in the
-        I{K} list is examined.
-
-        If there are no row indices in I{K} that point to a row of
-        I{X} with an unallocated adjacent row, the row index is
-        determined to be the current length of I{k}.
-
-        B{Note}: With the original for-loop Python, the search for an
-        unallocated row was very CPU intensive when you get a big
-        history accumulated:::
-
-            # Pick a row index for the new record
-            for kr in self.K:
-                if kr > 0 and kr-1 not in self.K:
-                    return k, kr-1
-                if kr < N-1 and kr+1 not in self.K:
-                    return k, kr+1
-            return k, N
-
-        The reason is that the list was being searched for an item
-        with every iteration, twice!
-        
-        The optimized version does this same thing with much more
-        efficiently, by creating a local (array) copy of I{K} and
-        sorting it in place. Then only adjacent elements needs to be
-        inspected with each iteration. (It may be just as fast with a
-        local sorted list instead of a Numpy array.)
+        new one. Then the lowest unallocated row index of my I{X}
+        array is found as the first position where the sorted row
+        indices differ from their positions. If all I{N} row indices
+        in I{K} are contiguous from zero, it is I{N}.
         """
         K = np.array(self.K)
         # Find the index in K of the row index for the closest
@@ -993,16 +965,9 @@ class History(object):
         #--- Pick a row index for the new record ------------------------------
         # Sort local array version of K in place
         K.sort()
-        for kk, kr in enumerate(K[1:-1]):
-            if kr == 0: continue
-            if kr == N-1: break
-            if K[kk] != kr-1:
-                return k, kr-1
-            if K[kk+2] != kr+1:
-                return k, kr+1
-        if K[0] > 0:
-            return k, K[0]-1
-        return k, min([N, K[-1]+1])
+        kGaps = np.flatnonzero(K != np.arange(len(K)))
+        kr = int(kGaps[0]) if len(kGaps) else len(K)
+        return k, kr
 
     @defer.inlineCallbacks
     def add(self, i, neverInPop=False):
-- 
2.43.0


From 034b198857cc678db636bfcfd29a64b29eedbaa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:24:24 +0000
Subject: [PATCH 06/30] fix: a blacklisted individual is no longer in the
 population for history

Its hash changes along with its SSE, so its record could not be found any more
when it was replaced and stayed marked as in the population forever. If it was
blacklisted while its record was waiting to be written, an infinite SSE got
into the history.
---
 ade/history.py    | 22 ++++++++++++++--------
 ade/individual.py |  4 +++-
 2 files changed, 17 insertions(+), 9 deletions(-)

diff --git a/ade/history.py b/ade/history.py
index d21a30e..678914e 100644
--- a/ade/history.py
+++ b/ade/history.py
@@ -993,7 +993,6 @@ class History(object):
             array, and inserts the row index I{kr} into my I{K} list
             at position I{k}.
             """
-            SV = np.array([i.SSE] + list(i.values))
             self.X[kr,:] = SV
             self.K.insert(k, kr)
             self.N_total += 1           # Add to the lifetime total count
@@ -1011,11 +1010,15 @@ class History(object):
                 # Add to the individual-row map so it can be removed
                 # from the population later, without losing track of
                 # any identical individual already there
-                key = hash(i)
+                key = iHash
                 while key in self.kr: key += 1
                 self.kr[key] = kr
 
+        # The individual may be blacklisted while awaiting the lock, so
+        # get everything about it now
         SSE = i.SSE
+        SV = np.array([SSE] + list(i.values))
+        iHash = hash(i)
         if np.isfinite(SSE):
             yield self.dLock.acquire()
             N = len(self.K)
@@ -1065,14 +1068,10 @@ class History(object):
         from being considered part of the current population.
         """
         def gotLock():
-            if isinstance(x, (int, np.int64)):
-                # This was tricky to find; sometimes shows up as int,
-                # sometimes as np.int64, and Py3 distinguishes between
-                # them
+            if isRow:
                 kr = x
             else:
-                # Must be an Individual
-                key = hash(x)
+                key = iHash
                 if key not in self.kr: return
                 while key+1 in self.kr: key += 1
                 kr = self.kr.pop(key)
@@ -1080,6 +1079,13 @@ class History(object):
             # This row is no longer a population member and is thus
             # expendable, so have cpf start considering it
             self.cpf.setRow(kr, self.X[kr,:])
+
+        # This was tricky to find; sometimes shows up as int, sometimes
+        # as np.int64, and Py3 distinguishes between them
+        isRow = isinstance(x, (int, np.int64))
+        # If not a row index, must be an Individual. It may be
+        # blacklisted while awaiting the lock, so get its hash now
+        if not isRow: iHash = hash(x)
         return self.dLock.run(gotLock)
 
     def purgePop(self):
diff --git a/ade/individual.py b/ade/individual.py
index 28e8bc9..c58bf32 100644
--- a/ade/individual.py
+++ b/ade/individual.py
@@ -244,8 +244,10 @@ class Individual(object):
     def blacklist(self):
         """
         Sets my SSE to the worst possible value and forces my population
-        to update its sorting to account for my degraded status.
+        to update its sorting to account for my degraded status. Its
+        history will no longer consider me part of the population.
         """
+        self.p.history.notInPop(self)
         self.SSE = float('+inf')
         del self.p.KS
     
-- 
2.43.0


From 87460e1c62ed97b019f2b0e20431b5e14a92d64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:25:53 +0000
Subject: [PATCH 07/30] fix: ignore history additions that overflow single
 precision

An SSE above 3.4E38 was recorded as infinite, and when the individual left the
population that raised an error.
---
 ade/history.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/ade/history.py b/ade/history.py
index 678914e..8960a5b 100644
--- a/ade/history.py
+++ b/ade/history.py
@@ -973,8 +973,9 @@ class History(object):
     def add(self, i, neverInPop=False):
         """
         Adds the SSE and parameter values of the supplied individual I{i}
-        to my roster, unless it has an SSE of C{inf}, in which case it
-        is ignored.
+        to my roster, unless it has an SSE of C{inf} (or anything else
+        about it is infinite in the single precision of my records),
+        in which case it is ignored.
 
         If the roster is already full, bumps the record deemed most
         expendable before adding a record for I{i}. That determination
@@ -1017,9 +1018,10 @@ class History(object):
         # The individual may be blacklisted while awaiting the lock, so
         # get everything about it now
         SSE = i.SSE
-        SV = np.array([SSE] + list(i.values))
+        with np.errstate(over='ignore'):
+            SV = np.array([SSE] + list(i.values)).astype(self.X.dtype)
         iHash = hash(i)
-        if np.isfinite(SSE):
+        if np.all(np.isfinite(SV)):
             yield self.dLock.acquire()
             N = len(self.K)
             if N == 0:
-- 
2.43.0


From b7b4c9771cbf754ca6027c344fece5f0d53f765d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:32:22 +0000
Subject: [PATCH 08/30] fix: hash individuals the same in every process,
 whatever their SSE

The hashes are saved with the history to tell which record is whose, but the
hash of a bytes object differs from process to process, so a resumed run could
not find the records of the members it replaced. Also, an SSE beyond single
precision range could not be hashed at all.
---
 ade/individual.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/ade/individual.py b/ade/individual.py
index c58bf32..f2b0dcc 100644
--- a/ade/individual.py
+++ b/ade/individual.py
@@ -31,7 +31,7 @@ L{Population} set up a population full of them, and have
 L{DifferentialEvolution} create challengers as it does its thing.
 """
 
-import random, pickle, time, struct
+import random, pickle, time
 
 import numpy as np
 from twisted.internet import defer, task
@@ -187,8 +187,12 @@ class Individual(object):
         return SSE >= 0
 
     def __hash__(self):
-        return hash(
-            struct.pack('<f', self.SSE) + np.array(self.values).tobytes())
+        """
+        My hash depends on my SSE and values only. (Unlike the hash of a
+        string or bytes, that of a number is the same in every Python
+        process, so it can be used in something that gets pickled.)
+        """
+        return hash((float(self.SSE),) + tuple(float(x) for x in self.values))
     
     def __eq__(self, other):
         """
-- 
2.43.0


From 3aca834a5f481406679da8c8878291ce885c4134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:37:08 +0000
Subject: [PATCH 09/30] fix: blacklisting a non-member doesn't affect the
 history of an identical member

---
 ade/individual.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/ade/individual.py b/ade/individual.py
index f2b0dcc..44d6ddc 100644
--- a/ade/individual.py
+++ b/ade/individual.py
@@ -248,10 +248,11 @@ class Individual(object):
     def blacklist(self):
         """
         Sets my SSE to the worst possible value and forces my population
-        to update its sorting to account for my degraded status. Its
-        history will no longer consider me part of the population.
+        to update its sorting to account for my degraded status. If I'm
+        one of its members, its history will no longer consider me
+        part of the population.
         """
-        self.p.history.notInPop(self)
+        if any(i is self for i in self.p): self.p.history.notInPop(self)
         self.SSE = float('+inf')
         del self.p.KS
     
-- 
2.43.0


From 550a1c83e384183179b726fa908e5a7b632683dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:42:00 +0000
Subject: [PATCH 10/30] fix: don't report surplus individuals that setup
 doesn't add to the population

---
 ade/population.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ade/population.py b/ade/population.py
index 75a3a24..58c0a24 100644
--- a/ade/population.py
+++ b/ade/population.py
@@ -808,9 +808,12 @@ class Population(object):
                 msg(0, "Bogus initial evaluation of {}, aborting", i)
                 self.abort()
                 return
+            # Once there are enough members, no others will become one
+            # and so none of them should be reported
+            if not needMore(): return
             self.reporter(i)
             isFinite = not np.isinf(float(i.SSE))
-            if isFinite and needMore(): addIndividual(i)
+            if isFinite: addIndividual(i)
 
         @defer.inlineCallbacks
         def populate():
-- 
2.43.0


From db6fc79ce2c3473dd63cc677981e5c4b58f86764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:44:27 +0000
Subject: [PATCH 11/30] fix: restore the best individual reported before when a
 callback complains

---
 ade/report.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/ade/report.py b/ade/report.py
index b9c0e34..116260d 100644
--- a/ade/report.py
+++ b/ade/report.py
@@ -68,6 +68,7 @@ class Reporter(object):
         self.pm = self.p.pm
         self.iBest = None
         self.iLastReported = None
+        self.iGoodList = []
         self.callbacks = []
         self.cbrInProgress = False
         self.cbrScheduled = Bag()
@@ -147,6 +148,15 @@ class Reporter(object):
 
         def aborted():
             return self.p.running is False
+
+        def restoreBest():
+            # The best one reported with no complaint is last in the
+            # list, after any that got blacklisted are disregarded
+            while self.iGoodList and np.isinf(float(self.iGoodList[-1])):
+                self.iGoodList.pop()
+            for iGood in [iPrevBest] + self.iGoodList[-1:]:
+                if iGood and iGood < self.iBest:
+                    self.iBest = iGood
         
         @defer.inlineCallbacks
         def runUntilFree():
@@ -181,8 +191,9 @@ class Reporter(object):
                         # Modify the individual in-place to never again be
                         # winner of a challenge or basis for new individuals
                         i.blacklist()
-                        if iPrevBest and iPrevBest < self.iBest:
-                            self.iBest = iPrevBest
+                        restoreBest()
+                if not self.iGoodList or i < self.iGoodList[-1]:
+                    self.iGoodList.append(i)
             if msg.lineWritten(): self.progressChar()
             self.cbrInProgress = False
 
@@ -241,6 +252,7 @@ class Reporter(object):
             # is considered equivalent.
             return not self.isEquivSSE(i, self.iLastReported)
         
+        iPrevBest = self.iBest
         if self.iBest is None or i < self.iBest:
             # Register new best, regardless of whether it gets reported
             self.iBest = i
@@ -250,8 +262,7 @@ class Reporter(object):
             if self.p.debug:
                 msg(0, "{}\n\t--->\n{}\n", self.iBest, i)
             self.iLastReported = i
-            iBackupBest = self.iBest
-            self.runCallbacks(i, iBackupBest)
+            self.runCallbacks(i, iPrevBest)
         
     def msgRatio(self, iNum, iDenom, bogus_char="!", noProgress=False):
         """
-- 
2.43.0


From 7daa003a38e64326a2510a170035121999a09673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:54:08 +0000
Subject: [PATCH 12/30] fix: abort a loaded population, too, when the user
 aborts

---
 ade/population.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ade/population.py b/ade/population.py
index 58c0a24..01679e4 100644
--- a/ade/population.py
+++ b/ade/population.py
@@ -471,6 +471,7 @@ class Population(object):
             for i in p:
                 p.limit(i)
         p.reporter = Reporter(p, kw.get('complaintCallback', None))
+        abort.callOnAbort(p.abort)
         return p
         
     def __getstate__(self):
-- 
2.43.0


From 8b8426fce1ccbcfa64acb9b1a0ce85035250e3f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:57:29 +0000
Subject: [PATCH 13/30] fix: don't start another generation after a report
 callback has failed

---
 ade/de.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ade/de.py b/ade/de.py
index 748fec5..4521650 100644
--- a/ade/de.py
+++ b/ade/de.py
@@ -584,7 +584,7 @@ class DifferentialEvolution(object):
             info = sub("  F={}  N_hist={:d}", self.fm, self.p.history.N_total)
             msg(-1, "Generation {:d}/{:d}{}", kg+1, self.maxiter, info , '-')
             yield self.p.waitForReports()
-            if not self.running: break
+            if not self.running or self.p.running is False: break
             dList = []
             iBest = self.p.best()
             for kt in range(self.p.Np):
-- 
2.43.0


From 498dff5e25633b8270ff9f12e30c094d99180db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 00:59:09 +0000
Subject: [PATCH 14/30] fix: don't evaluate a challenger once another challenge
 had a fatal error

---
 ade/de.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ade/de.py b/ade/de.py
index 4521650..102e808 100644
--- a/ade/de.py
+++ b/ade/de.py
@@ -533,7 +533,11 @@ class DifferentialEvolution(object):
                 self.crossover(iTarget, iChallenger)
                 # Continue with Pr(values) / Pr(midpoints)
                 self.p.limit(iChallenger)
-                if self.p.pm.passesConstraints(iChallenger.values):
+                if not self.running:
+                    # Releasing those locks let another challenge
+                    # proceed, and it had a fatal error
+                    pass
+                elif self.p.pm.passesConstraints(iChallenger.values):
                     # Passes constraints!
                     # Now the hard part: Evaluate fitness of the challenger
                     if self.xSSE:
-- 
2.43.0


From ad6cb7c5513ec52179933b24e5ec0219e61a747a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:05:51 +0000
Subject: [PATCH 15/30] fix: keep track of members' history records when
 loading with new bounds

---
 ade/history.py    | 15 +++++++++++++++
 ade/population.py |  2 ++
 2 files changed, 17 insertions(+)

diff --git a/ade/history.py b/ade/history.py
index 8960a5b..ddf4cb3 100644
--- a/ade/history.py
+++ b/ade/history.py
@@ -1090,6 +1090,21 @@ class History(object):
         if not isRow: iHash = hash(x)
         return self.dLock.run(gotLock)
 
+    def rehash(self, iHash, i):
+        """
+        Call this when population member I{i}, which had a hash of
+        I{iHash}, has had its values changed in place. Keeps its
+        record (with the original values) associated with it.
+
+        B{Note}: Done immediately, not locked!
+        """
+        if hash(i) == iHash or iHash not in self.kr: return
+        while iHash+1 in self.kr: iHash += 1
+        kr = self.kr.pop(iHash)
+        key = hash(i)
+        while key in self.kr: key += 1
+        self.kr[key] = kr
+        
     def purgePop(self):
         """
         Purges the history of all members of the current
diff --git a/ade/population.py b/ade/population.py
index 01679e4..c233b56 100644
--- a/ade/population.py
+++ b/ade/population.py
@@ -469,7 +469,9 @@ class Population(object):
         if bounds:
             p.pm.setup(bounds)
             for i in p:
+                iHash = hash(i)
                 p.limit(i)
+                p.history.rehash(iHash, i)
         p.reporter = Reporter(p, kw.get('complaintCallback', None))
         abort.callOnAbort(p.abort)
         return p
-- 
2.43.0


From aceb493dc3925b1f90e3c386c6744c8d77673f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:09:21 +0000
Subject: [PATCH 16/30] fix: don't lose the previous file when saving a
 population gets interrupted

---
 ade/population.py | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/ade/population.py b/ade/population.py
index c233b56..8fa2df7 100644
--- a/ade/population.py
+++ b/ade/population.py
@@ -515,10 +515,23 @@ class Population(object):
         Note that the user-supplied evaluation function will not be
         included in the pickled version. However, you can supply it as
         a keyword to L{load}.
-        """
-        filePath = os.path.expanduser(filePath)
-        with bz2.BZ2File(filePath, 'w') as fh:
-            pickle.dump(self, fh)
+
+        If there already is a file at I{filePath}, it is left alone
+        until everything has been written, so that it isn't lost if
+        saving gets interrupted.
+        """
+        filePath = os.path.realpath(os.path.expanduser(filePath))
+        tmpPath = filePath + ".tmp"
+        try:
+            with open(tmpPath, 'wb') as fhRaw:
+                with bz2.BZ2File(fhRaw, 'w') as fh:
+                    pickle.dump(self, fh)
+                fhRaw.flush()
+                os.fsync(fhRaw.fileno())
+            os.replace(tmpPath, filePath)
+        except:
+            if os.path.exists(tmpPath): os.remove(tmpPath)
+            raise
             
     def __getitem__(self, k):
         """
-- 
2.43.0


From 79beef4c4477e9056c1314a53b759b65fe73d04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:12:15 +0000
Subject: [PATCH 17/30] fix: failure to close the log doesn't disturb anything

---
 ade/util.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ade/util.py b/ade/util.py
index 97c8586..4a88918 100644
--- a/ade/util.py
+++ b/ade/util.py
@@ -264,9 +264,10 @@ class Messenger(object):
             if fh is self.fh:
                 return fh
             fhPrev = self.fh
-            if self.fh and self.fh is not sys.stdout:
-                self.fh.close()
             self.fh = fh
+            if fhPrev and fhPrev is not sys.stdout:
+                try: fhPrev.close()
+                except: pass
             return fhPrev 
         
         if hasattr(arg, 'write'):
-- 
2.43.0


From b80c6087bba3737045cf4c5426d9a70a71945bec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:21:30 +0000
Subject: [PATCH 18/30] fix: have EvalTimer sum up elapsed times, not times of
 day

---
 ade/util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ade/util.py b/ade/util.py
index 4a88918..b09600a 100644
--- a/ade/util.py
+++ b/ade/util.py
@@ -163,7 +163,8 @@ class EvalTimer(Picklable):
         """
         def done(result):
             ID = args[self.k]
-            self.times[ID] = self.times.get(ID, 0) + time.time()
+            self.times[ID] = self.times.get(ID, 0) + (
+                time.time() - t0)
             self.Ns[ID] = self.Ns.get(ID, 0) + 1
             return result
         
-- 
2.43.0


From e4e3ee633e642cf6c5f96f7e47c3228ce10c2067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:57 +0000
Subject: [PATCH 19/30] fix: start the image viewer with all its arguments and
 a text path

---
 ade/image.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/ade/image.py b/ade/image.py
index f21d0cd..b2a8a26 100644
--- a/ade/image.py
+++ b/ade/image.py
@@ -142,6 +142,8 @@ class ImageViewer(object):
         "Returns" a C{Deferred} that fires with the PID of the spawned
         image viewer process.
         """
+        # The notifier supplies its path as bytes
+        path = fp.asTextMode().path
         for ex in self.exList:
             exPath = ex[0]
             if os.path.exists(exPath):
@@ -149,9 +151,9 @@ class ImageViewer(object):
                 args = [os.path.basename(exPath)]
                 for arg in ex[1:]:
                     if "{}" in arg:
-                        arg = arg.replace("{}", os.path.basename(fp.path))
-                        args.append(arg)
-                args.append(fp.path)
+                        arg = arg.replace("{}", os.path.basename(path))
+                    args.append(arg)
+                args.append(path)
                 self.transport = reactor.spawnProcess(
                     self.ivp, exPath, args, env=None)
                 self.savePID(self.transport.pid)
-- 
2.43.0


From d8ddcd0bebd671f9a524cc588864664815d4c5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:49 +0000
Subject: [PATCH 20/30] fix: don't start another image viewer after terminating
 one

---
 ade/image.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ade/image.py b/ade/image.py
index b2a8a26..21158c8 100644
--- a/ade/image.py
+++ b/ade/image.py
@@ -158,6 +158,8 @@ class ImageViewer(object):
                     self.ivp, exPath, args, env=None)
                 self.savePID(self.transport.pid)
                 stderr = yield self.ivp.d
+                # If it got terminated, don't try another one
+                if self.transport is None: break
                 if stderr:
                     if not self.noComplain:
                         msg(0, "Error launching '{}':\n{}", args[0], stderr)
-- 
2.43.0


From fbff23f700899c3b8889afa59f80dc04a19f69a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:29:15 +0000
Subject: [PATCH 21/30] fix: don't try another image viewer while one is
 running

---
 ade/image.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ade/image.py b/ade/image.py
index 21158c8..3e8fe6c 100644
--- a/ade/image.py
+++ b/ade/image.py
@@ -164,6 +164,8 @@ class ImageViewer(object):
                     if not self.noComplain:
                         msg(0, "Error launching '{}':\n{}", args[0], stderr)
                 else: break
+                # Another one may have been started in the meantime
+                if self.processRunning(): break
         else:
             if not self.noComplain:
                 msg(0, "No image viewer found")
-- 
2.43.0


From e7d31bb0ee281edc7e49ed4e334e0af87d63b367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:42:32 +0000
Subject: [PATCH 22/30] fix: history queries with no records yet or with a best
 SSE of zero

Asking for values before anything had been recorded raised an IndexError,
and with a best SSE of zero nothing was returned, not even the best.
---
 ade/history.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ade/history.py b/ade/history.py
index ddf4cb3..c06006b 100644
--- a/ade/history.py
+++ b/ade/history.py
@@ -224,7 +224,7 @@ class Analysis(object):
         
         names = self.args2names(names)
         maxRatio = kw.get('maxRatio', 1000)
-        SSE_best = self.X[self.K[0],0]
+        SSE_best = self.X[self.K[0],0] if len(self.K) else 0.0
         if kw.get('inPop', False):
             K = [k for k in self.K if k in self.Kp]
         elif kw.get('notInPop', False):
@@ -232,7 +232,9 @@ class Analysis(object):
         elif kw.get('neverInPop', False):
             K = [k for k in self.K if k in self.Kn]
         else: K = self.K
-        KK = np.flatnonzero(self.X[K,0]/SSE_best <= maxRatio)
+        # A product instead of a ratio because the best SSE may be zero
+        I = self.X[K,0] <= maxRatio*SSE_best
+        KK = np.flatnonzero(np.logical_or(I, np.isinf(maxRatio)))
         K = np.array(K)[KK]
         result = [subset(0)]
         for name in names:
-- 
2.43.0


From 565bb651a514f9bfca6088ed30fb88bfc470a42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:43:20 +0000
Subject: [PATCH 23/30] fix: sort anew after an individual is added during
 setup

The best individual and the sorted view were stale if they had been
looked at while the initial population was being filled.
---
 ade/population.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ade/population.py b/ade/population.py
index 8fa2df7..f842565 100644
--- a/ade/population.py
+++ b/ade/population.py
@@ -815,6 +815,8 @@ class Population(object):
             self.iList.append(i)
             self.dLocks.append(defer.DeferredLock())
             self.history.add(i)
+            # Invalidate sorting
+            del self.KS
 
         def needMore():
             return len(self.iList) < self.Np
-- 
2.43.0


From 18d34909c16b7034fa34c85904510fa122adc358 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:44:06 +0000
Subject: [PATCH 24/30] fix: constraint wrappers that don't share their
 function and parameters

The wrappers made by iterating over a Constraints object shared the loop
variables and a dict of values, so that all of them called the last
method, with stale values, once unpacked into a list.
---
 ade/constraints.py | 36 +++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/ade/constraints.py b/ade/constraints.py
index 10e3203..69da879 100644
--- a/ade/constraints.py
+++ b/ade/constraints.py
@@ -134,27 +134,29 @@ class Constraints(object):
         iteration and appending. But you can't get or set individual
         items by index.
         """
-        def wrapper(params):
-            if linearParams:
-                if not linearParams.issubset(params):
-                    return True
-                for name in linearParams:
-                    if name not in newParams:
+        def wrapped(func, linearParams, logParams):
+            # A wrapper may be called after the iteration is over, and
+            # again with other parameters, so it has its own of everything
+            def wrapper(params):
+                newParams = {}
+                if linearParams:
+                    if not set(linearParams).issubset(params):
+                        return True
+                    for name in linearParams:
                         newParams[name] = params[name]
-            if logParams:
-                if not logParams.issubset(params):
-                    return True
-                for name in logParams:
-                    if name not in newParams:
+                if logParams:
+                    if not set(logParams).issubset(params):
+                        return True
+                    for name in logParams:
                         newParams[name] = np.power(10.0, params[name])
-            result = func(newParams)
-            if self.debug:
-                print(sub("BOGUS: {}, {}", func.__name__, newParams))
-            return result
+                result = func(newParams)
+                if self.debug:
+                    print(sub("BOGUS: {}, {}", func.__name__, newParams))
+                return result
+            return wrapper
         
-        newParams = {}
         for func, linearParams, logParams in self.cList:
-            yield wrapper
+            yield wrapped(func, linearParams, logParams)
         for func in self.fList:
             yield func
 
-- 
2.43.0


From 963a397f1cabcf381e7a01c5c3c7811fa361afc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:47:05 +0000
Subject: [PATCH 25/30] fix: reported best replaces one that was complained
 about meanwhile

When an individual just as good as the best was reported while a
complaint about that best was still being processed, the best stayed the
one complained about, so that worse individuals were reported next.
---
 ade/report.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ade/report.py b/ade/report.py
index 116260d..44e556e 100644
--- a/ade/report.py
+++ b/ade/report.py
@@ -194,6 +194,8 @@ class Reporter(object):
                         restoreBest()
                 if not self.iGoodList or i < self.iGoodList[-1]:
                     self.iGoodList.append(i)
+                    # The best may have been complained about meanwhile
+                    if self.iBest and i < self.iBest: self.iBest = i
             if msg.lineWritten(): self.progressChar()
             self.cbrInProgress = False
 
-- 
2.43.0


From 7399f93650c742440b5b1af1991c16f60fe4167f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:08:23 +0000
Subject: [PATCH 26/30] fix: use the last row of the initial Latin hypercube,
 too

The candidates of setup were drawn anew one row too early, so that the
last part of each parameter's range that the hypercube had for it was
left to chance.
---
 ade/population.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ade/population.py b/ade/population.py
index f842565..735b2e2 100644
--- a/ade/population.py
+++ b/ade/population.py
@@ -790,7 +790,7 @@ class Population(object):
 
         def getNextIV():
             k, IV = kIV
-            if k+1 == IV.shape[0]:
+            if k == IV.shape[0]:
                 refreshIV()
                 k, IV = kIV
             kIV[0] += 1
-- 
2.43.0


From 6217c3164450290daf3ac1a39d4381a4e5343c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:36:12 +0000
Subject: [PATCH 27/30] fix: don't take a partly copied example for an existing
 file

---
 ade/__init__.py         | 6 +++++-
 ade/scripts/examples.py | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/ade/__init__.py b/ade/__init__.py
index 0dcb50e..920e0a6 100644
--- a/ade/__init__.py
+++ b/ade/__init__.py
@@ -63,6 +63,10 @@ def extract_examples():
         else:
             sPath = os.path.join(sDir, fileName)
             if os.path.isfile(sPath):
-                shutil.copy(sPath, ePath)
+                # An interrupted copy must not be taken for an
+                # existing file the next time
+                tmpPath = ePath + ".tmp"
+                shutil.copy(sPath, tmpPath)
+                os.rename(tmpPath, ePath)
                 msg("{} created", ePath)
 
diff --git a/ade/scripts/examples.py b/ade/scripts/examples.py
index 379f66b..28cab2d 100644
--- a/ade/scripts/examples.py
+++ b/ade/scripts/examples.py
@@ -64,6 +64,10 @@ def extract():
         else:
             sPath = os.path.join(sDir, fileName)
             if os.path.isfile(sPath):
-                shutil.copy(sPath, ePath)
+                # An interrupted copy must not be taken for an
+                # existing file the next time
+                tmpPath = ePath + ".tmp"
+                shutil.copy(sPath, tmpPath)
+                os.rename(tmpPath, ePath)
                 msg("{} created", ePath)
 
-- 
2.43.0


From c4c46d8bee2a3433c68fa62ff742310e14986eae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:42:56 +0000
Subject: [PATCH 28/30] fix: release the target's lock if a constraint raises
 an exception

An exception raised by a constraint during a challenge left the target
locked, and every further run on the population waited for it forever.
---
 ade/de.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/ade/de.py b/ade/de.py
index 102e808..50bc749 100644
--- a/ade/de.py
+++ b/ade/de.py
@@ -461,6 +461,20 @@ class DifferentialEvolution(object):
                 # value discarded and the parent's used.
                 mutant[k] = parent[k]
 
+    def passesConstraints(self, kt, iChallenger):
+        """
+        Returns C{True} if the supplied I{iChallenger} passes the
+        constraints.
+
+        If a constraint raises an exception, releases the lock for the
+        target at index I{kt} before that ends the run. Otherwise,
+        nobody ever would and further runs would wait for it forever.
+        """
+        try: return self.p.pm.passesConstraints(iChallenger.values)
+        except:
+            self.p.release(kt)
+            raise
+        
     @defer.inlineCallbacks
     def challenge(self, kt, kb):
         """
@@ -537,7 +551,7 @@ class DifferentialEvolution(object):
                     # Releasing those locks let another challenge
                     # proceed, and it had a fatal error
                     pass
-                elif self.p.pm.passesConstraints(iChallenger.values):
+                elif self.passesConstraints(kt, iChallenger):
                     # Passes constraints!
                     # Now the hard part: Evaluate fitness of the challenger
                     if self.xSSE:
-- 
2.43.0


From f9b0d9553cfc566154ea0779df447a51b13e52ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:42:56 +0000
Subject: [PATCH 29/30] fix: treat an error in the complaint callback like one
 in a report callback

An exception raised by the complaint callback left the reporter marked
as busy, so no report callback was run ever again, without a message.
---
 ade/report.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ade/report.py b/ade/report.py
index 44e556e..bebf3e3 100644
--- a/ade/report.py
+++ b/ade/report.py
@@ -180,8 +180,10 @@ class Reporter(object):
                         break
                     if result is not None and i and not aborted():
                         if self.complaintCallback:
-                            yield defer.maybeDeferred(
+                            d = defer.maybeDeferred(
                                 self.complaintCallback, i, result)
+                            d.addErrback(failed, self.complaintCallback)
+                            result = yield d
                         else:
                             text = sub(
                                 "\n\n" +\
@@ -192,6 +194,9 @@ class Reporter(object):
                         # winner of a challenge or basis for new individuals
                         i.blacklist()
                         restoreBest()
+                        if isinstance(result, CallbackFailureToken):
+                            self.abort()
+                            break
                 if not self.iGoodList or i < self.iGoodList[-1]:
                     self.iGoodList.append(i)
                     # The best may have been complained about meanwhile
-- 
2.43.0


From 3c42df008abc1fc5ee6eb43e64979296d3764828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:42:56 +0000
Subject: [PATCH 30/30] fix: keep the old file if saving an individual is
 interrupted

The parameters saved before were lost as soon as the file was opened.
---
 ade/individual.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/ade/individual.py b/ade/individual.py
index 44d6ddc..e3db2a5 100644
--- a/ade/individual.py
+++ b/ade/individual.py
@@ -31,7 +31,7 @@ L{Population} set up a population full of them, and have
 L{DifferentialEvolution} create challengers as it does its thing.
 """
 
-import random, pickle, time
+import os, random, pickle, time
 
 import numpy as np
 from twisted.internet import defer, task
@@ -311,5 +311,12 @@ class Individual(object):
         """
         Saves my parameters to I{filePath} as a pickled dict.
         """
-        with open(filePath, 'wb') as fh:
-            pickle.dump(self.params, fh)
+        filePath = os.path.realpath(filePath)
+        tmpPath = filePath + ".tmp"
+        try:
+            with open(tmpPath, 'wb') as fh:
+                pickle.dump(self.params, fh)
+            os.replace(tmpPath, filePath)
+        except:
+            if os.path.exists(tmpPath): os.remove(tmpPath)
+            raise
-- 
2.43.0

