From d84494007a390a0b74321f879d9b72085ff62cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:46 +0000
Subject: [PATCH 01/36] fix: unlink() fails for events that have not been
 linked

disjoin() and Causet.add/discard(..., unlink=True) raised an
AttributeError for such events.
---
 causetevent.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/causetevent.py b/causetevent.py
index efe1772..b884e43 100644
--- a/causetevent.py
+++ b/causetevent.py
@@ -214,8 +214,9 @@ class CausetEvent(object):
         '''
         Force the CausetEvent instance to reset its link memory.
         '''
-        delattr(self, '_lprec')
-        delattr(self, '_lsucc')
+        for attr in ('_lprec', '_lsucc'):
+            if hasattr(self, attr):
+                delattr(self, attr)
 
     @classmethod
     def isLink(cls, a: 'CausetEvent', b: 'CausetEvent') -> bool:
-- 
2.43.0


From ebd59b210d08297882d7f227ef73384724bba1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:46 +0000
Subject: [PATCH 02/36] fix: disjoin() leaves wrong links between linked
 relatives

The new links were determined while the discarded event was still in
between, so that the result depended on the set iteration order.
---
 causetevent.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/causetevent.py b/causetevent.py
index b884e43..d030c91 100644
--- a/causetevent.py
+++ b/causetevent.py
@@ -109,18 +109,18 @@ class CausetEvent(object):
         It returns True if the event was in the past or future, otherwise False.
         '''
         if other in self._prec:
+            self._prec.discard(other)
             if self.hasBeenLinked() and (other in self._lprec):
                 self._lprec |= {
                     e for e in other._prec if CausetEvent.isLink(e, self)}
                 self._lprec.remove(other)
-            self._prec.discard(other)
             return True
         elif other in self._succ:
+            self._succ.discard(other)
             if self.hasBeenLinked() and (other in self._lsucc):
                 self._lsucc |= {
                     e for e in other._succ if CausetEvent.isLink(self, e)}
                 self._lsucc.remove(other)
-            self._succ.discard(other)
             return True
         else:
             return False
-- 
2.43.0


From 43c29a3624e0e61f9d1c74d9ee11c55863034765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:46 +0000
Subject: [PATCH 03/36] fix: merge() leaves wrong links if the events have been
 linked

---
 causet.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/causet.py b/causet.py
index 5b5785f..91af130 100644
--- a/causet.py
+++ b/causet.py
@@ -230,6 +230,8 @@ class Causet(object):
         assigned to the the past of every event in `futureSet` and vice versa.
         '''
         if not disjoint:  # add pastSet as past of futureSet
+            for e in set(pastSet) | set(futureSet):
+                e.unlink()
             for p in pastSet:
                 for f in futureSet:
                     p._addToFuture(f)
-- 
2.43.0


From 1201d6296b056db0848f0324533b7bd5a5e86092 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:46 +0000
Subject: [PATCH 04/36] fix: LinkConeCard combines the cardinalities by bitwise
 and

---
 causetevent.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/causetevent.py b/causetevent.py
index d030c91..dd01ced 100644
--- a/causetevent.py
+++ b/causetevent.py
@@ -417,10 +417,10 @@ class CausetEvent(object):
         cardinality).
         '''
         try:
-            return len(self._lprec) & len(self._lsucc)
+            return len(self._lprec) + len(self._lsucc)
         except AttributeError:
             self.link()
-            return len(self._lprec) & len(self._lsucc)
+            return len(self._lprec) + len(self._lsucc)
 
     def copy(self) -> 'CausetEvent':
         '''
-- 
2.43.0


From c78b61870ce8658784543a697b36b528926df6f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:46 +0000
Subject: [PATCH 05/36] fix: Causet.link() computes wrong links or fails if
 events have been discarded

Links to events outside of the instance were dropped from the future
side, or an AttributeError was raised if these had not been linked. Events
also were left with incomplete links if the call was interrupted.
---
 causet.py | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/causet.py b/causet.py
index 91af130..cd9352e 100644
--- a/causet.py
+++ b/causet.py
@@ -280,22 +280,15 @@ class Causet(object):
         '''
         Computes the causal links between all events.
         '''
-        # clear links:
         for e in self._events:
-            e._lsucc = set()
-        # compute links:
-        for b in self._events:
-            b._lprec = {a for a in b._prec if CausetEvent.isLink(a, b)}
-            for a in b._lprec:
-                a._lsucc.add(b)
+            e.link()
 
     def unlink(self) -> None:
         '''
         Force all `CausetEvent` instances to reset their link memory.
         '''
         for e in self._events:
-            if e.hasBeenLinked():
-                e.unlink()
+            e.unlink()
 
     def LinkCount(self, eventSet: Optional[Set[CausetEvent]] = None) -> int:
         '''
-- 
2.43.0


From c2698fdaf68ab368438f1d391489f1bc7a3c5e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:46 +0000
Subject: [PATCH 06/36] fix: links are not updated if link() or unlink() was
 interrupted

An event with only one of its two link sets kept it unchanged when events
were added or disjoined, and returned wrong links later.
---
 causetevent.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/causetevent.py b/causetevent.py
index dd01ced..cadc42a 100644
--- a/causetevent.py
+++ b/causetevent.py
@@ -82,7 +82,7 @@ class CausetEvent(object):
         if other in self._prec:
             return False
         else:
-            if self.hasBeenLinked() and CausetEvent.isLink(other, self):
+            if hasattr(self, '_lprec') and CausetEvent.isLink(other, self):
                 self._lprec -= other._prec
                 self._lprec.add(other)
             self._prec.add(other)
@@ -97,7 +97,7 @@ class CausetEvent(object):
         if other in self._succ:
             return False
         else:
-            if self.hasBeenLinked() and CausetEvent.isLink(self, other):
+            if hasattr(self, '_lsucc') and CausetEvent.isLink(self, other):
                 self._lsucc -= other._succ
                 self._lsucc.add(other)
             self._succ.add(other)
@@ -110,14 +110,14 @@ class CausetEvent(object):
         '''
         if other in self._prec:
             self._prec.discard(other)
-            if self.hasBeenLinked() and (other in self._lprec):
+            if hasattr(self, '_lprec') and (other in self._lprec):
                 self._lprec |= {
                     e for e in other._prec if CausetEvent.isLink(e, self)}
                 self._lprec.remove(other)
             return True
         elif other in self._succ:
             self._succ.discard(other)
-            if self.hasBeenLinked() and (other in self._lsucc):
+            if hasattr(self, '_lsucc') and (other in self._lsucc):
                 self._lsucc |= {
                     e for e in other._succ if CausetEvent.isLink(self, e)}
                 self._lsucc.remove(other)
-- 
2.43.0


From 7c74356e9bdd3a2b0c43d2a0f62705ef067122a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:46 +0000
Subject: [PATCH 07/36] fix: PastOf, FutureOf, ConeOf with intersect=True
 always return an empty set

---
 causet.py | 33 +++++++++++++++------------------
 1 file changed, 15 insertions(+), 18 deletions(-)

diff --git a/causet.py b/causet.py
index cd9352e..1033e8f 100644
--- a/causet.py
+++ b/causet.py
@@ -546,12 +546,11 @@ class Causet(object):
         Returns the set of events that are in the past of `eventSet`.
         '''
         newEventSet: Set[CausetEvent] = set()
-        if includePresent and intersect:
-            for e in eventSet:
-                newEventSet &= e.PresentOrPast
-        elif intersect:
-            for e in eventSet:
-                newEventSet &= e.Past
+        if intersect:
+            if eventSet:
+                newEventSet = set.intersection(
+                    *[e.PresentOrPast if includePresent else e.Past
+                      for e in eventSet])
         else:
             for e in eventSet:
                 newEventSet |= e.Past
@@ -566,12 +565,11 @@ class Causet(object):
         Returns the set of events that are in the future of `eventSet`.
         '''
         newEventSet: Set[CausetEvent] = set()
-        if includePresent and intersect:
-            for e in eventSet:
-                newEventSet &= e.PresentOrFuture
-        elif intersect:
-            for e in eventSet:
-                newEventSet &= e.Future
+        if intersect:
+            if eventSet:
+                newEventSet = set.intersection(
+                    *[e.PresentOrFuture if includePresent else e.Future
+                      for e in eventSet])
         else:
             for e in eventSet:
                 newEventSet |= e.Future
@@ -586,12 +584,11 @@ class Causet(object):
         Returns the set of events that are in the cone of `eventSet`.
         '''
         newEventSet: Set[CausetEvent] = set()
-        if includePresent and intersect:
-            for e in eventSet:
-                newEventSet &= e.Cone
-        elif intersect:
-            for e in eventSet:
-                newEventSet &= (e.Past | e.Future)
+        if intersect:
+            if eventSet:
+                newEventSet = set.intersection(
+                    *[e.Cone if includePresent else e.Past | e.Future
+                      for e in eventSet])
         else:
             for e in eventSet:
                 newEventSet |= e.Past | e.Future
-- 
2.43.0


From 413f8dceed154b5a88c4a467f3ca0e20296fadaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:46 +0000
Subject: [PATCH 08/36] fix: the reflected difference swaps its operands

---
 causet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causet.py b/causet.py
index 1033e8f..0f2ad21 100644
--- a/causet.py
+++ b/causet.py
@@ -387,7 +387,7 @@ class Causet(object):
         return self._events - set(other)
 
     def __rsub__(self, other: Iterable[CausetEvent]) -> Set[CausetEvent]:
-        return self._events - set(other)
+        return set(other) - self._events
 
     def __or__(self, other: Iterable[CausetEvent]) -> Set[CausetEvent]:
         return self._events | set(other)
-- 
2.43.0


From 211c9318e95e1e95f50f5138d8757855903bbaca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:46 +0000
Subject: [PATCH 09/36] fix: FromPastMatrix does not complete link matrices and
 accepts causal loops

The pasts and futures were completed by one step only, which left an
intransitive and asymmetric relation, and loops of three or more events
were not rejected.
---
 causet.py | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/causet.py b/causet.py
index 0f2ad21..ba27fb7 100644
--- a/causet.py
+++ b/causet.py
@@ -179,22 +179,20 @@ class Causet(object):
         if colcount < rowcount:
             raise ValueError('The specified matrix cannot be extended ' +
                              'to a square matrix.')
+        # complete pasts and futures (if the input contains links only)
+        P: np.ndarray = np.zeros((colcount, colcount), dtype=bool)
+        P[:rowcount, :] = C
+        for i in range(colcount):
+            P |= np.outer(P[:, i], P[i, :])
+        if any(P.diagonal()):
+            raise ValueError('The causet is not anti-symmetric.')
         events: np.ndarray = np.array([CausetEvent(label=i)
                                        for i in range(1, colcount + 1)])
         e: CausetEvent
-        for i in range(rowcount):
-            e = events[i]
-            past: Set[CausetEvent] = set(events[np.where(C[i, :])[0]])
-            future: Set[CausetEvent] = set(events[np.where(C[:, i])[0]])
-            if (past & future) or (e in past) or (e in future):
-                raise ValueError('The causet is not anti-symmetric.')
-            e._prec = past
-            e._succ = future
-        # complete pasts and futures (if the input contains links only)
         for i in range(colcount):
             e = events[i]
-            e._prec = Causet.PastOf(e._prec, includePresent=True)
-            e._succ = Causet.FutureOf(e._succ, includePresent=True)
+            e._prec = set(events[np.where(P[i, :])[0]])
+            e._succ = set(events[np.where(P[:, i])[0]])
         return Causet(set(events))
 
     @staticmethod
-- 
2.43.0


From 3bba50079ac9cec3d2471109754b144fc372e319 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:46 +0000
Subject: [PATCH 10/36] fix: FromTextFile fails for saved causets with less
 than two events

Also, missing or invalid entries (for example of a damaged file) were
imported as causal relations.
---
 causet.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/causet.py b/causet.py
index ba27fb7..ad9fb15 100644
--- a/causet.py
+++ b/causet.py
@@ -210,8 +210,13 @@ class Causet(object):
         the `genfromtxt` function of `numpy`. The resulting logical matrix is 
         parsed with `FromPastMatrix` or `FromFutureMatrix`.
         '''
+        kwargs.setdefault('ndmin', 2)
         C: np.ndarray = np.genfromtxt(filename, dtype=int,
                                       delimiter=delimiter, **kwargs)
+        if C.size == 0:
+            return Causet()
+        if (C < 0).any():  # genfromtxt uses -1 for missing or invalid values
+            raise ValueError('The file has missing or invalid entries.')
         C = C.astype(bool)
         if isPastMatrix:
             return Causet.FromPastMatrix(C)
-- 
2.43.0


From 35d5bc8f455eebc3ef9cad78ff1247348dac45dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:46 +0000
Subject: [PATCH 11/36] fix: sortedByCausality, PastMatrix and saveAsCSV fail
 for unlabelled events

---
 causet.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/causet.py b/causet.py
index ad9fb15..d057f6e 100644
--- a/causet.py
+++ b/causet.py
@@ -1148,7 +1148,11 @@ class Causet(object):
         '''
         if eventSet is None:
             eventSet = self._events
-        eList: List[CausetEvent] = self.sortedByLabels(eventSet, reverse=True)
+        eList: List[CausetEvent]
+        try:
+            eList = self.sortedByLabels(eventSet, reverse=True)
+        except TypeError:  # unlabelled events
+            eList = list(eventSet)
         c: int = len(eList)
         for i in range(c):
             for j in range(i):
-- 
2.43.0


From ffe275b4ba4998266b4f43a4da81c22c1b180940 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:46 +0000
Subject: [PATCH 12/36] fix: isPath accepts linked events that do not form a
 chain

---
 causet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causet.py b/causet.py
index d057f6e..52ed6b6 100644
--- a/causet.py
+++ b/causet.py
@@ -463,7 +463,7 @@ class Causet(object):
                     extremal += 1
                     if extremal > 2:
                         return False
-        return True
+            return self.isChain(events)
 
     def isAntichain(self, events: Optional[Iterable[CausetEvent]] = None) -> \
             bool:
-- 
2.43.0


From e47bcd3bb42e6a0a1922ddaea0adc33d44ccb8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:46 +0000
Subject: [PATCH 13/36] fix: sprinkles in bicones are uninitialised memory

CoordinateShape renames 'diamond' to 'bicone', which was not recognised.
The bicone code also ignored the center (and the hollow in 2D), used a
hollow of a different geometry in higher dimensions, and 1D bicones and
cylinders were divided by zero.
---
 sprinkledcauset.py | 31 +++++++++++++++++++++++--------
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/sprinkledcauset.py b/sprinkledcauset.py
index 28dfc3c..a807210 100644
--- a/sprinkledcauset.py
+++ b/sprinkledcauset.py
@@ -6,7 +6,7 @@ Created on 22 Jul 2020
 @license: BSD 3-Clause
 '''
 from __future__ import annotations
-from typing import Set, List, Iterable, Union, Optional
+from typing import Set, List, Iterable, Union, Optional, Any
 import numpy as np
 from numpy.random import default_rng
 from causets.causetevent import CausetEvent  # @UnresolvedImport
@@ -82,21 +82,27 @@ class SprinkledCauset(EmbeddedCauset):
                 high = shape.Center + shape.Parameter('edge') / 2
             for i in range(count):
                 coords[i, :] = rng.uniform(low, high)
-        elif shape.Name in ('ball', 'cylinder', 'diamond'):
+        elif shape.Name in ('ball', 'cylinder', 'bicone'):
             # Create circle based sprinkle:
-            isCylindrical: bool = 'cylinder' in shape.Name
-            isDiamond: bool = 'diamond' in shape.Name
             d: int = self.Dim
+            isCylindrical: bool = 'cylinder' in shape.Name
+            isDiamond: bool = ('bicone' in shape.Name) and (d > 1)
             b_r: float = shape.Parameter('radius')
+            h_stretch: Any = 1.0
             if (d == 2) and isDiamond:
                 # pick `count` random coordinate tuples uniformly:
                 uv: np.ndarray = rng.uniform(low=-1.0, high=1.0,
                                              size=(count, 2))
+                if shape.Parameter('hollow') > 0.0:
+                    h_stretch = rng.uniform(low=shape.Parameter('hollow')**d,
+                                            size=(count, 1))**(1.0 / d)
+                    uv *= h_stretch / np.max(np.abs(uv), axis=1, keepdims=True)
                 coords[:, 0] = uv[:, 0] + uv[:, 1]
                 coords[:, 1] = uv[:, 0] - uv[:, 1]
                 coords *= b_r / 2
+                coords += shape.Center
             else:
-                b_dstart: int = 0 if shape.Name == 'ball' else 1
+                b_dstart: int = 1 if isCylindrical or isDiamond else 0
                 b_d: int = d - b_dstart
                 if isCylindrical:
                     # set time coordinate:
@@ -106,8 +112,11 @@ class SprinkledCauset(EmbeddedCauset):
                         shape.Parameter('duration') / 2
                     coords[:, 0] = rng.uniform(time_low, time_high,
                                                size=(count,))
+                if b_d == 0:  # 1D cylinder
+                    return coords
                 # pick `count` random coordinate tuples uniformly:
-                r_low: float = shape.Parameter('hollow')**b_d
+                r_low: float = 0.0 if isDiamond \
+                    else shape.Parameter('hollow')**b_d
                 for i in range(count):
                     # get coordinates on sphere using normal distribution:
                     coord: np.ndarray = rng.standard_normal(size=(b_d,))
@@ -119,9 +128,15 @@ class SprinkledCauset(EmbeddedCauset):
                         h_squeeze: float = rng.uniform()**(1.0 / d)
                         h_sign: float = np.sign(
                             rng.uniform(low=-1.0, high=1.0))
-                        coords[i, 0] = h_sign * (1 - h_squeeze) * b_r
+                        if shape.Parameter('hollow') > 0.0:
+                            # move out of the hollow, away from the center:
+                            h_stretch = rng.uniform(
+                                low=shape.Parameter('hollow')**d)**(1.0 / d)
+                            h_stretch /= 1 - h_squeeze + r_scaling * h_squeeze
+                        coords[i, 0] = shape.Center[0] + \
+                            h_sign * (1 - h_squeeze) * h_stretch * b_r
                         # adjust scaling:
-                        r_scaling *= h_squeeze
+                        r_scaling *= h_squeeze * h_stretch
                     coords[i, b_dstart:] = shape.Center[b_dstart:] + \
                         (r_scaling * b_r / r) * coord
         return coords
-- 
2.43.0


From 2b27e5c92236c57b87c0495b46edf500b090e2e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:46 +0000
Subject: [PATCH 14/36] fix: a failed sprinkle or intensify changes the
 intensity

---
 sprinkledcauset.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sprinkledcauset.py b/sprinkledcauset.py
index a807210..afceb9b 100644
--- a/sprinkledcauset.py
+++ b/sprinkledcauset.py
@@ -150,10 +150,10 @@ class SprinkledCauset(EmbeddedCauset):
         if count < 0:
             raise ValueError(
                 'The sprinkle cardinality has to be a non-negative integer.')
-        self._intensity += float(count)
         if shape is None:
             shape = self.Shape
         coords: np.ndarray = self._sprinkle_coords(count, shape, rng)
+        self._intensity += float(count)
         return super().create(coords)
 
     def intensify(self, intensity: float, rng=default_rng(),
@@ -166,11 +166,11 @@ class SprinkledCauset(EmbeddedCauset):
         if intensity < 0.0:
             raise ValueError(
                 'The intensity parameter has to be a non-negative float.')
-        self._intensity += intensity
         count: int = int(rng.poisson(lam=intensity))
         if shape is None:
             shape = self.Shape
         coords: np.ndarray = self._sprinkle_coords(count, shape, rng)
+        self._intensity += intensity
         return super().create(coords)
 
     def create(self, coords: Union[Iterable[List[float]],
-- 
2.43.0


From ea600c6a75f43f1883bb3f86762128273413e097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:46 +0000
Subject: [PATCH 15/36] fix: length scales and discard fail for empty sprinkles

The length scale of an embedded causet also was the inverse of the
documented value.
---
 embeddedcauset.py  | 3 ++-
 sprinkledcauset.py | 6 ++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/embeddedcauset.py b/embeddedcauset.py
index f8a7ca8..edf01a2 100644
--- a/embeddedcauset.py
+++ b/embeddedcauset.py
@@ -184,7 +184,8 @@ class EmbeddedCauset(Causet):
         Returns the fundamental length scale as inverse d-root of 
         `self.Density` if `card > 0`, else 0.0. 
         '''
-        return 0.0 if self.Card == 0 else self.Density**(1.0 / self.Shape.Dim)
+        return 0.0 if self.Card == 0 else \
+            self.Density**(-1.0 / self.Shape.Dim)
 
     def create(self, coordinates: Union[List[List[float]],
                                         List[np.ndarray],
diff --git a/sprinkledcauset.py b/sprinkledcauset.py
index afceb9b..9714ede 100644
--- a/sprinkledcauset.py
+++ b/sprinkledcauset.py
@@ -62,7 +62,8 @@ class SprinkledCauset(EmbeddedCauset):
 
     @property
     def LengthScale(self) -> float:  # overwrites superclass
-        return (self.Shape.Volume / self._intensity)**(1.0 / self.Dim)
+        return 0.0 if self._intensity == 0.0 \
+            else (self.Shape.Volume / self._intensity)**(1.0 / self.Dim)
 
     def _sprinkle_coords(self, count: int, shape: CoordinateShape, rng) -> \
             np.ndarray:
@@ -192,4 +193,5 @@ class SprinkledCauset(EmbeddedCauset):
     def discard(self, eventSet: Iterable, unlink: bool = False) -> None:
         card_old: float = float(self.Card)
         super().discard(eventSet, unlink)
-        self._intensity *= (float(self.Card) / card_old)
+        if card_old > 0.0:
+            self._intensity *= (float(self.Card) / card_old)
-- 
2.43.0


From ffb26fcd11f19f805d1f3a154c4a5b15750ab6ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:46 +0000
Subject: [PATCH 16/36] fix: events without coordinates are considered as
 embedded

embed() always raised an error, isEmbedded was always True and the default
position was not available.
---
 causetevent.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/causetevent.py b/causetevent.py
index cadc42a..bf4b237 100644
--- a/causetevent.py
+++ b/causetevent.py
@@ -58,8 +58,10 @@ class CausetEvent(object):
         self._succ = set()
         for e in kwargs.get('future', []):
             self._succ.update(e.PresentOrFuture)
-        self._coordinates = list(kwargs.get('coordinates', []))
-        self._position = list(kwargs.get('position', []))
+        if 'coordinates' in kwargs:
+            self._coordinates = list(kwargs['coordinates'])
+        if 'position' in kwargs:
+            self._position = list(kwargs['position'])
         # Add this instance to its causal relatives:
         for e in self._prec:
             e._addToFuture(self)
-- 
2.43.0


From 43fc20a082dca64817afc03690c34ae6f6c6ae65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:46 +0000
Subject: [PATCH 17/36] fix: Anti-de Sitter causality is wrong for large time
 differences

The relation was not transitive and reversed the time order beyond a
quarter of the period of the embedding coordinates.
---
 spacetimes.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/spacetimes.py b/spacetimes.py
index f41880b..52dc3da 100644
--- a/spacetimes.py
+++ b/spacetimes.py
@@ -649,8 +649,11 @@ class AntideSitterSpacetime(_dSSpacetime):
             x0_delta: float = x0_y - x0_x
             isCausal: bool = x0_delta**2 + (x1_y - x1_x)**2 >= \
                 sum(np.square(y[1:] - x[1:])) - causality_eps
-            return ((x0_delta >= 0.0) and isCausal,
-                    (x0_delta < 0.0) and isCausal)
+            # all events are causal beyond half of the period:
+            t_delta: float = y[0] - x[0]
+            isCausal = isCausal or (abs(t_delta) >= math.pi * self._alpha)
+            return ((t_delta >= 0.0) and isCausal,
+                    (t_delta < 0.0) and isCausal)
         return isCausal_AdS
 
 
-- 
2.43.0


From 4bc57a381ab1b98da772291cff47575a1e5549c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:46 +0000
Subject: [PATCH 18/36] fix: plotted frames overwrite the dictionary returned
 for earlier frames

---
 causetplotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causetplotting.py b/causetplotting.py
index ba0e559..66d576b 100644
--- a/causetplotting.py
+++ b/causetplotting.py
@@ -351,7 +351,6 @@ def Plotter(E: Union[CausetEvent, List[CausetEvent], EmbeddedCauset],
     # ====================
     # get defaults and user-specified parameters:
     plotting: Dict[str, Any] = plot_parameters(**kwargs)
-    _h = {}  # holds Dict of artists
     # ====================
     # get set of events:
     events: List[CausetEvent]
@@ -445,6 +444,7 @@ def Plotter(E: Union[CausetEvent, List[CausetEvent], EmbeddedCauset],
         Core plot function that returns a dictionary of plot object 
         pointers.
         '''
+        _h: Dict[str, Any] = {}  # holds Dict of artists
         if isinstance(time, float):
             time = [time, time]  # list of floats required
         # ====================
-- 
2.43.0


From 2f039b6d2624bd36f5bb02149748dfa0a9fcdf1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:46 +0000
Subject: [PATCH 19/36] fix: dynamic plots fail if links are switched off

---
 causetplotting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causetplotting.py b/causetplotting.py
index 66d576b..6389219 100644
--- a/causetplotting.py
+++ b/causetplotting.py
@@ -432,7 +432,7 @@ def Plotter(E: Union[CausetEvent, List[CausetEvent], EmbeddedCauset],
             plotting_labels = plotting['labels']
         dyn_links = dynamic_parameter(plotting['timefade'],
                                       dim, t_depth,
-                                      plotting_links['linewidth'])
+                                      plotting_links.get('linewidth', 1.0))
         dyn_events = dynamic_parameter(plotting['timefade'],
                                        dim, t_depth,
                                        plotting_events.get('alpha', 1.0))
-- 
2.43.0


From b51d603eb010a1fe9120a7971d22e154ee758fa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:46 +0000
Subject: [PATCH 20/36] fix: plotting causal cones without fading fails

---
 causetplotting.py | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/causetplotting.py b/causetplotting.py
index 6389219..f0e94c1 100644
--- a/causetplotting.py
+++ b/causetplotting.py
@@ -393,29 +393,23 @@ def Plotter(E: Union[CausetEvent, List[CausetEvent], EmbeddedCauset],
         plot_spacetime = spacetime
         coordattr = 'Coordinates'
     if isPlottingPastcones:
-        pcn_alpha_max: float
+        pcn_alpha: Optional[Callable[[float], float]] = None
         if plotting['conetimefade'] != '':
-            try:
-                pcn_alpha_max = plotting['pastcones']['alpha']
-            except KeyError:
-                pcn_alpha_max = 1.0
+            pcn_alpha = dynamic_parameter(
+                plotting['conetimefade'], dim, abs(plotting['conetimedepth']),
+                plotting['pastcones'].get('alpha', 1.0))
         plotpcone: Any = plot_spacetime.ConePlotter(
             _xy_z, plotting['pastcones'], timesign=-1, axes=ax,
-            dynamicAlpha=dynamic_parameter(plotting['conetimefade'], dim,
-                                           abs(plotting['conetimedepth']),
-                                           pcn_alpha_max))
+            dynamicAlpha=pcn_alpha)
     if isPlottingFuturecones:
-        fcn_alpha_max: float
+        fcn_alpha: Optional[Callable[[float], float]] = None
         if plotting['conetimefade'] != '':
-            try:
-                fcn_alpha_max = plotting['futurecones']['alpha']
-            except KeyError:
-                fcn_alpha_max = 1.0
+            fcn_alpha = dynamic_parameter(
+                plotting['conetimefade'], dim, abs(plotting['conetimedepth']),
+                plotting['futurecones'].get('alpha', 1.0))
         plotfcone: Any = plot_spacetime.ConePlotter(
             _xy_z, plotting['futurecones'], timesign=1, axes=ax,
-            dynamicAlpha=dynamic_parameter(plotting['conetimefade'], dim,
-                                           abs(plotting['conetimedepth']),
-                                           fcn_alpha_max))
+            dynamicAlpha=fcn_alpha)
     # ====================
     plotting_links: Dict[str, Any] = {}
     if 'links' in plotting:
-- 
2.43.0


From fe5afce0511fee0a0cc71b6308a591544488380c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:06 +0000
Subject: [PATCH 21/36] fix: discarding a causet from itself fails

---
 causet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/causet.py b/causet.py
index 52ed6b6..f60376e 100644
--- a/causet.py
+++ b/causet.py
@@ -258,7 +258,7 @@ class Causet(object):
         Discards all the events of the (causal) set `eventSet` (`Causet` or 
         `Set[CausetEvent]`) from this instance. 
         '''
-        self._events.difference_update(eventSet)
+        self._events.difference_update(set(eventSet))
         if unlink:
             for e in self._events:
                 e.unlink()
-- 
2.43.0


From 4a637dae9e7ef714f03fe393a273ccfcb83321d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:47 +0000
Subject: [PATCH 22/36] fix: sprinkling in hollow bicones may divide by zero

The distance to the center of a point is zero if both of its uniform
random numbers take their lowest value (before it is moved out of the
hollow).
---
 sprinkledcauset.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sprinkledcauset.py b/sprinkledcauset.py
index 9714ede..12786a3 100644
--- a/sprinkledcauset.py
+++ b/sprinkledcauset.py
@@ -123,7 +123,9 @@ class SprinkledCauset(EmbeddedCauset):
                     coord: np.ndarray = rng.standard_normal(size=(b_d,))
                     r: float = np.sqrt(sum(np.square(coord)))
                     r_scaling: float
-                    r_scaling = rng.uniform(low=r_low)**(1.0 / b_d)
+                    # (from the interval (r_low, 1], never zero)
+                    r_scaling = (1.0 - rng.uniform(high=1.0 - r_low)
+                                 )**(1.0 / b_d)
                     if isDiamond:
                         # set time coordinate:
                         h_squeeze: float = rng.uniform()**(1.0 / d)
-- 
2.43.0


From a38bf43da61141e773d5aa0f1f6991a8bd33e69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:59 +0000
Subject: [PATCH 23/36] fix: axislim='shape' fails when plotting an embedded
 causet

---
 causetplotting.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/causetplotting.py b/causetplotting.py
index f0e94c1..037143c 100644
--- a/causetplotting.py
+++ b/causetplotting.py
@@ -350,6 +350,9 @@ def Plotter(E: Union[CausetEvent, List[CausetEvent], EmbeddedCauset],
     '''
     # ====================
     # get defaults and user-specified parameters:
+    if isinstance(E, EmbeddedCauset) and ('shape' not in kwargs) and \
+            isinstance(kwargs.get('axislim'), str):
+        kwargs['shape'] = E.Shape
     plotting: Dict[str, Any] = plot_parameters(**kwargs)
     # ====================
     # get set of events:
@@ -357,7 +360,6 @@ def Plotter(E: Union[CausetEvent, List[CausetEvent], EmbeddedCauset],
     if isinstance(E, EmbeddedCauset):
         events = list(E)
         spacetime = E.Spacetime
-        kwargs.update({'shape': E.Shape})
     elif isinstance(E, CausetEvent):
         events = [E]
     else:
-- 
2.43.0


From d1224cf1c4fab2a92459e29dabab16232d2b68a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:25 +0000
Subject: [PATCH 24/36] fix: colour 'lime' of the ImperialLondon scheme is not
 a valid colour

---
 colorschemes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/colorschemes.py b/colorschemes.py
index abc0813..72e2ec1 100644
--- a/colorschemes.py
+++ b/colorschemes.py
@@ -66,7 +66,7 @@ ColorSchemes: Dict[str, Dict[str, str]] = {
                               'cyan':        '#009CBC',
                               'green':       '#02893B',
                               'kermitgreen': '#66A40A',
-                              'lime':        '#BBCEOO',
+                              'lime':        '#BBCE00',
                               'yellow':      '#FFDD00',
                               'tangerine':   '#EC7300',
                               'orange':      '#D24000',
-- 
2.43.0


From 3eb38b7cad69046df4243e294645a25e7753b126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:54 +0000
Subject: [PATCH 25/36] fix: surfaces of cones and cylinders along the first or
 second axis are misplaced

---
 shapes.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/shapes.py b/shapes.py
index d118fb3..a100563 100644
--- a/shapes.py
+++ b/shapes.py
@@ -555,9 +555,9 @@ def CylinderSurface(center: np.ndarray, radius: float, height: float,
         radii = radius * np.array([hollow, 1.0, 1.0, hollow, hollow])
         relZ = np.array([-sampling, -sampling, sampling, sampling, -sampling])
     XYZ: Tuple[np.ndarray, np.ndarray, np.ndarray] = \
-        (np.outer(radii, np.cos(phi)) + center[0],
-         np.outer(radii, np.sin(phi)) + center[1],
-         (height / 2) * relZ + center[2])
+        (np.outer(radii, np.cos(phi)) + center[(zaxis + 1) % 3],
+         np.outer(radii, np.sin(phi)) + center[(zaxis + 2) % 3],
+         (height / 2) * relZ + center[zaxis])
     # rotate:
     if zaxis == 0:
         XYZ = (XYZ[2], XYZ[0], XYZ[1])
@@ -580,10 +580,10 @@ def OpenConeSurface(tip: np.ndarray, radius: float, height: float,
     phi: np.ndarray = np.linspace(0.0, 2.0 * np.pi, samplingsize)
     radii: np.ndarray = radius * np.array([0.0, 1.0])
     XYZ: Tuple[np.ndarray, np.ndarray, np.ndarray] = \
-        (np.outer(radii, np.cos(phi)) + tip[0],
-         np.outer(radii, np.sin(phi)) + tip[1],
+        (np.outer(radii, np.cos(phi)) + tip[(zaxis + 1) % 3],
+         np.outer(radii, np.sin(phi)) + tip[(zaxis + 2) % 3],
          np.array([np.zeros(samplingsize), np.ones(samplingsize)]) * height
-         + tip[2])
+         + tip[zaxis])
     # rotate:
     if zaxis == 0:
         XYZ = (XYZ[2], XYZ[0], XYZ[1])
-- 
2.43.0


From 41d44214267ee8bcc77eb5f169d6c9929c857d98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:13 +0000
Subject: [PATCH 26/36] fix: distances of unconnected antichains are 0 so that
 Antipaths fails

---
 causet.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/causet.py b/causet.py
index f60376e..c9975c4 100644
--- a/causet.py
+++ b/causet.py
@@ -1012,7 +1012,8 @@ class Causet(object):
                              'supported.\n' +
                              'Use \'ziczac\' or \'intersection\'.')
         l: int = len(antichain)
-        D: np.ndarray = np.zeros((l, l), dtype=int)
+        D: np.ndarray = np.full((l, l), -1, dtype=int)
+        np.fill_diagonal(D, 0)
         ac_set: Set[CausetEvent] = set(antichain)
         slice_set: Set[CausetEvent] = ac_set
         thickerslice_set = self.Layers(slice_set, -1, 1)
-- 
2.43.0


From 2f5d812a2b975aa9dac2db9e2462fcecb1105d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:20 +0000
Subject: [PATCH 27/36] fix: plotting a hollow bicone in 3D changed the radius
 of the shape

---
 shapes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shapes.py b/shapes.py
index a100563..b190bb4 100644
--- a/shapes.py
+++ b/shapes.py
@@ -315,7 +315,7 @@ class CoordinateShape(object):
                 S = OpenConeSurface(tip, r, r, timeaxis) + \
                     OpenConeSurface(top, r, -r, timeaxis)
                 if hollow > 0.0:
-                    r *= hollow
+                    r = r * hollow  # keeps the shape parameter
                     tip[timeaxis] = conecenter[timeaxis] - r
                     top[timeaxis] = conecenter[timeaxis] + r
                     S = OpenConeSurface(tip, r, r, timeaxis) + \
-- 
2.43.0


From 6ba9192fc068f680f236df92cd6b4e85c8e2a359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:20 +0000
Subject: [PATCH 28/36] fix: 2D plots of cylinders with time on the first axis
 swapped the centre coordinates

---
 shapes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/shapes.py b/shapes.py
index b190bb4..023547f 100644
--- a/shapes.py
+++ b/shapes.py
@@ -348,8 +348,8 @@ class CoordinateShape(object):
                         **plotoptions)
             elif self.Name == 'cylinder':
                 cyl: np.ndarray = CylinderCutEdge(
-                    self.Center[dims], self._params['radius'],
-                    self._params['duration'], hollow)
+                    self.Center[dims if timeaxis > 0 else dims[::-1]],
+                    self._params['radius'], self._params['duration'], hollow)
                 if timeaxis == 0:
                     cyl = cyl[:, [1, 0]]
                 p = patches.Polygon(cyl, **plotoptions)
-- 
2.43.0


From f132d29ae66d2b6768c3e20088828100d41b2b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:04 +0000
Subject: [PATCH 29/36] fix: harmonic numbers overflowed to inf for n of 65536
 and above

---
 calculations.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/calculations.py b/calculations.py
index 33ee0eb..96b3643 100644
--- a/calculations.py
+++ b/calculations.py
@@ -23,8 +23,8 @@ def HarmonicNumber(n: int, approximate: int = 100) -> float:
     else:
         h: float = log(n) + np.euler_gamma
         h += 0.5 / n
-        h -= 0.25 / 3 / n**2
-        h += 0.025 / 3 / n**4
+        h -= 0.25 / 3 / float(n)**2
+        h += 0.025 / 3 / float(n)**4
         return h
 
 
@@ -45,8 +45,9 @@ def HarmonicNumbers(n: int, approximate: int = 100) -> np.ndarray:
         n_range: np.ndarray = np.arange(approximate, n + 1)
         H[n_range] = np.log(n_range) + np.euler_gamma
         H[n_range] += 0.5 / n_range
-        H[n_range] -= 0.25 / 3 / np.square(n_range)
-        H[n_range] += 0.025 / 3 / np.square(np.square(n_range))
+        n_square: np.ndarray = np.square(n_range.astype(float))
+        H[n_range] -= 0.25 / 3 / n_square
+        H[n_range] += 0.025 / 3 / np.square(n_square)
     return H
 
 
-- 
2.43.0


From e106d2a8da47af8fa84269dd8b39dc095c180cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:52 +0000
Subject: [PATCH 30/36] fix: EmbeddedCauset accepted coordinate lists of
 another dimension than the spacetime

---
 embeddedcauset.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/embeddedcauset.py b/embeddedcauset.py
index edf01a2..748ab11 100644
--- a/embeddedcauset.py
+++ b/embeddedcauset.py
@@ -115,6 +115,9 @@ class EmbeddedCauset(Causet):
                     ((coordinates.ndim != 2) or
                      (coordinates.shape[1] != defaultShape.Dim)):
                 self.__raiseDimValueError__('coordinates')
+            elif isinstance(coordinates, list) and \
+                    any(len(c) != defaultShape.Dim for c in coordinates):
+                self.__raiseDimValueError__('coordinates')
             self.create(coordinates)
 
     @staticmethod
-- 
2.43.0


From 77f4a3b4c4faced98314ac4676a000a6605cdc91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:07 +0000
Subject: [PATCH 31/36] fix: repr of a CoordinateShape raised AttributeError

---
 shapes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/shapes.py b/shapes.py
index 023547f..f20b93f 100644
--- a/shapes.py
+++ b/shapes.py
@@ -143,7 +143,7 @@ class CoordinateShape(object):
             return f'{self._dim}-{self._name}'
 
     def __repr__(self):
-        return f'{self._class__._name__}(' + \
+        return f'{self.__class__.__name__}(' + \
             f'{self._dim}, {self._name}, center={self._center}, ' + \
             f'**{self._params})'
 
-- 
2.43.0


From 416fe51cb01965c1aee991837ff19ebf23e21d6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:07 +0000
Subject: [PATCH 32/36] fix: repr of a flat spacetime that is not periodic
 raised KeyError

---
 spacetimes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spacetimes.py b/spacetimes.py
index 52dc3da..3035303 100644
--- a/spacetimes.py
+++ b/spacetimes.py
@@ -278,7 +278,8 @@ class FlatSpacetime(Spacetime):
             self._params['period'] = _periods
 
     def __repr__(self):
-        _period: Tuple[float, ...] = self.Parameter('period')
+        _period: Union[float, Tuple[float, ...]] = \
+            self.Parameter('period') if self.Parameter('isPeriodic') else 0.0
         return f'{self.__class__.__name__}({self._dim}, period={_period})'
 
     def DefaultShape(self) -> CoordinateShape:
-- 
2.43.0


From 836cf38292aaac23fc22fa8fe53e51f36297b8a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:23 +0000
Subject: [PATCH 33/36] fix: concurrent or nested calls of the harmonic number
 functions mixed up numpy error states

The decorators shared one errstate object between all calls, so that a call
from a second thread (or from a handler running inside the first call)
overwrote the state to be restored.
---
 calculations.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/calculations.py b/calculations.py
index 96b3643..0b57b50 100644
--- a/calculations.py
+++ b/calculations.py
@@ -11,7 +11,6 @@ from fractions import Fraction
 import numpy as np
 
 
-@np.errstate(divide='ignore')
 def HarmonicNumber(n: int, approximate: int = 100) -> float:
     '''
     Returns the floating point value of the n-th harmonic number. 
@@ -28,7 +27,6 @@ def HarmonicNumber(n: int, approximate: int = 100) -> float:
         return h
 
 
-@np.errstate(divide='ignore')
 def HarmonicNumbers(n: int, approximate: int = 100) -> np.ndarray:
     '''
     Returns a vector of floating point values for all harmonic numbers from 0 
@@ -42,12 +40,13 @@ def HarmonicNumbers(n: int, approximate: int = 100) -> np.ndarray:
         H[k] = total
         total += 1. / (k + 1)
     if n >= approximate:
-        n_range: np.ndarray = np.arange(approximate, n + 1)
-        H[n_range] = np.log(n_range) + np.euler_gamma
-        H[n_range] += 0.5 / n_range
-        n_square: np.ndarray = np.square(n_range.astype(float))
-        H[n_range] -= 0.25 / 3 / n_square
-        H[n_range] += 0.025 / 3 / np.square(n_square)
+        with np.errstate(divide='ignore'):
+            n_range: np.ndarray = np.arange(approximate, n + 1)
+            H[n_range] = np.log(n_range) + np.euler_gamma
+            H[n_range] += 0.5 / n_range
+            n_square: np.ndarray = np.square(n_range.astype(float))
+            H[n_range] -= 0.25 / 3 / n_square
+            H[n_range] += 0.025 / 3 / np.square(n_square)
     return H
 
 
-- 
2.43.0


From b95c9daa10fca07d087d0defa479e1336d2c78f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:39 +0000
Subject: [PATCH 34/36] fix: merge of event sets given as iterators related
 nothing and lost their events

---
 causet.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/causet.py b/causet.py
index c9975c4..0a3a55f 100644
--- a/causet.py
+++ b/causet.py
@@ -232,14 +232,15 @@ class Causet(object):
         If not `disjoint` (default), then the event of `pastSet` are also 
         assigned to the the past of every event in `futureSet` and vice versa.
         '''
+        pastSet, futureSet = set(pastSet), set(futureSet)
         if not disjoint:  # add pastSet as past of futureSet
-            for e in set(pastSet) | set(futureSet):
+            for e in pastSet | futureSet:
                 e.unlink()
             for p in pastSet:
                 for f in futureSet:
                     p._addToFuture(f)
                     f._addToPast(p)
-        return Causet(set(pastSet) | set(futureSet))
+        return Causet(pastSet | futureSet)
 
     def add(self, eventSet: Iterable, unlink: bool = False) -> None:
         '''
-- 
2.43.0


From bffda92fb8b885c5f0db55921eede6607548c3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:34 +0000
Subject: [PATCH 35/36] fix: Antipaths along an antichain given as an iterator
 consumed it and failed

---
 causet.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/causet.py b/causet.py
index 0a3a55f..b16106e 100644
--- a/causet.py
+++ b/causet.py
@@ -1060,11 +1060,12 @@ class Causet(object):
         As optional argument, the distances matrix can be specified if it has 
         already been computed.
         '''
-        if a is b and a in along:
+        antichainList: List[CausetEvent] = list(along)
+        if a is b and a in antichainList:
             yield [a]
-        if not (a.isSpacelikeTo(b) and a in along and b in along):
+        if not (a.isSpacelikeTo(b) and
+                a in antichainList and b in antichainList):
             return
-        antichainList: List[CausetEvent] = list(along)
         a_idx: int = antichainList.index(a)
         b_idx: int = antichainList.index(b)
         D: np.ndarray = distances if distances is not None \
-- 
2.43.0


From 69ee41e25363b4022b683ec80cb839f7d1722baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:35:58 +0000
Subject: [PATCH 36/36] fix: events more than one period apart were related
 wrongly in periodic flat spacetimes

---
 spacetimes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/spacetimes.py b/spacetimes.py
index 3035303..c761ad0 100644
--- a/spacetimes.py
+++ b/spacetimes.py
@@ -318,6 +318,7 @@ class FlatSpacetime(Spacetime):
                     t_delta: float = y[0] - x[0]
                     r_delta: float = abs(y[1] - x[1])
                     if _period[0] > 0.0:
+                        r_delta %= _period[0]
                         r_delta = min(r_delta, _period[0] - r_delta)
                     isCausal: bool = abs(t_delta) >= \
                         abs(r_delta) - causality_eps
@@ -332,6 +333,7 @@ class FlatSpacetime(Spacetime):
                     for i in range(1, self.Dim):
                         r_delta_i: float = abs(y[i] - x[i])
                         if _period[i - 1] > 0.0:
+                            r_delta_i %= _period[i - 1]
                             r_delta_i = min(r_delta_i,
                                             _period[i - 1] - r_delta_i)
                         r2_delta += r_delta_i**2
-- 
2.43.0

