From 55f4d9ff04391711034865b02ceb89a0ea8850b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:29 +0000
Subject: [PATCH 01/60] fix: set_survival validates every form before replacing
 the current assumptions

A call rejected because one form is not callable (or a malformed second form)
used to clear S, f, l, mu and the age limits first, leaving the object unusable.
---
 src/actuarialmath/survival.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/actuarialmath/survival.py b/src/actuarialmath/survival.py
index 6289f4a..911b4bd 100644
--- a/src/actuarialmath/survival.py
+++ b/src/actuarialmath/survival.py
@@ -37,6 +37,8 @@ class Survival(Life):
         >>> life = Survival().set_survival(l=ell)
         """
         assert(any([S, f, l, mu])), "One form of survival function must be specified"
+        for form, fun in dict(l=l, S=S, mu=mu, f=f).items():
+            assert fun is None or callable(fun), f"{form} must be callable"
         self._MAXAGE = maxage
         self._MINAGE = minage
         self.S = None   # survival probability: Prob(T_[x]+s > t)
@@ -83,20 +85,16 @@ class Survival(Life):
 
         # derive and set all forms of basic survival and mortality functions
         if l is not None:
-            assert callable(l), "l must be callable"
             self.S = S_from_l
             self.mu = mu_from_l
             self.f = f_from_l
         if S is not None:
-            assert callable(S), "S must be callable"
             self.mu = mu_from_S
             self.f = f_from_S
         if mu is not None:
-            assert callable(mu), "mu must be callable"
             self.S = S_from_mu
             self.f = f_from_mu
         if f is not None:
-            assert callable(f), "f must be callable"
             self.S = S_from_f
             self.mu = mu_from_f
         self.l = l or self.l
-- 
2.43.0


From 48efbcce579bf9e8d870b752486fddf92eac6ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:29 +0000
Subject: [PATCH 02/60] fix: A_x and a_x no longer convert interrupts into
 ordinary errors

A bare except turned KeyboardInterrupt, SystemExit and the like, raised while a
benefit function was being evaluated, into Exception('Failed to ...').
---
 src/actuarialmath/annuity.py   | 2 +-
 src/actuarialmath/insurance.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/actuarialmath/annuity.py b/src/actuarialmath/annuity.py
index a16da37..f2fe7f7 100644
--- a/src/actuarialmath/annuity.py
+++ b/src/actuarialmath/annuity.py
@@ -35,7 +35,7 @@ class Annuity(Insurance):
                 Y = lambda t: (benefit(x+s, t+u) * self.interest.v_t(t+u) 
                                * self.S(x, 0, t=t+u))
                 a = self.integral(Y, 0, t)
-        except:
+        except Exception:
             raise Exception("Failed to numerically integrate EPV of annuity")
         return a
 
diff --git a/src/actuarialmath/insurance.py b/src/actuarialmath/insurance.py
index 1973599..316383b 100644
--- a/src/actuarialmath/insurance.py
+++ b/src/actuarialmath/insurance.py
@@ -76,7 +76,7 @@ class Insurance(Fractional):
                 Z = lambda t: ((benefit(x+s, t+u) * self.interest.v_t(t+u))**moment 
                                * self.f(x, s, t+u))
                 A = self.integral(Z, 0, t)
-        except:
+        except Exception:
             raise Exception("Failed to numerically integrate EPV of insurance")
         return A + E
 
-- 
2.43.0


From 9e6c0fa9fcdf32d88acabeb1aa7cceecdf6426be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:03 +0000
Subject: [PATCH 03/60] fix: UDD view follows a later change of interest on the
 model it is built on

---
 src/actuarialmath/udd.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/actuarialmath/udd.py b/src/actuarialmath/udd.py
index 4783519..a0c4037 100644
--- a/src/actuarialmath/udd.py
+++ b/src/actuarialmath/udd.py
@@ -17,8 +17,16 @@ class UDD(Mthly):
 
     def __init__(self, m: int, life: Annuity, **kwargs):
         super().__init__(m=m, life=life, **kwargs)
-        self.alpha_m = self.alpha(m=m, i=self.life.interest.i)
-        self.beta_m = self.beta(m=m, i=self.life.interest.i)
+
+    @property
+    def alpha_m(self) -> float:
+        """UDD alpha function value at the current interest rate of the life"""
+        return self.alpha(m=self.m, i=self.life.interest.i)
+
+    @property
+    def beta_m(self) -> float:
+        """UDD beta function value at the current interest rate of the life"""
+        return self.beta(m=self.m, i=self.life.interest.i)
 
     @staticmethod
     def alpha(m: int, i: float) -> float:
-- 
2.43.0


From 538ab8c45900441d70e1de891e17f74b648633cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:45 +0000
Subject: [PATCH 04/60] fix: life table age range no longer depends on how the
 data is split over set_table calls

---
 src/actuarialmath/lifetable.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/actuarialmath/lifetable.py b/src/actuarialmath/lifetable.py
index 50376fd..ead42e5 100644
--- a/src/actuarialmath/lifetable.py
+++ b/src/actuarialmath/lifetable.py
@@ -84,18 +84,14 @@ class LifeTable(Reserves):
         # infer min and max ages from inputs
         if minage < 0:
             minage = min([min(v) for v in inputs.values()])
-            if self._MINAGE < 0 or minage < self._MINAGE:
-                self._MINAGE = minage
-        else:
-            self._MINAGE = minage
+            if 0 <= self._MINAGE < minage:
+                minage = self._MINAGE
         if maxage < 0:
-            maxage = max([max(v) for v in inputs.values()])
-            if self._MAXAGE < 0:
-                self._MAXAGE = maxage + 1
-            if maxage > self._MAXAGE:
-                self._MAXAGE = maxage
-        else:
-            self._MAXAGE = maxage
+            maxage = max([max(v) for v in inputs.values()]) + 1
+            if maxage < self._MAXAGE:
+                maxage = self._MAXAGE
+        self._MINAGE = minage
+        self._MAXAGE = maxage
 
         # update table from inputs
         for label, col in inputs.items():
-- 
2.43.0


From 4f1f4ca7e9375b9dae2996e47172d492ccddcc2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:11 +0000
Subject: [PATCH 05/60] fix: set_table rejects columns that are not mappings
 before changing the table

---
 src/actuarialmath/lifetable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/lifetable.py b/src/actuarialmath/lifetable.py
index ead42e5..5b4ddea 100644
--- a/src/actuarialmath/lifetable.py
+++ b/src/actuarialmath/lifetable.py
@@ -79,7 +79,7 @@ class LifeTable(Reserves):
         >>>                                      q={95: .4, 97: 1})
         """
 
-        inputs = {k:v for k,v in {'l':l, 'd':d, 'q':q, 'p':p}.items() if v}
+        inputs = {k:dict(v) for k,v in {'l':l, 'd':d, 'q':q, 'p':p}.items() if v}
 
         # infer min and max ages from inputs
         if minage < 0:
-- 
2.43.0


From a808976778e0a76f8472b2e53c0c57f5b40b872a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:18 +0000
Subject: [PATCH 06/60] fix: filling a life table no longer divides by zero at
 a certain death or an empty year

---
 src/actuarialmath/lifetable.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/actuarialmath/lifetable.py b/src/actuarialmath/lifetable.py
index 5b4ddea..a92892e 100644
--- a/src/actuarialmath/lifetable.py
+++ b/src/actuarialmath/lifetable.py
@@ -115,7 +115,7 @@ class LifeTable(Reserves):
                 return self._table['q'][x]
             if x in self._table['p']:
                 return 1 - self._table['p'][x]
-            if x in self._table['d'] and x in self._table['l']:
+            if x in self._table['d'] and self._table['l'].get(x):
                 return self._table['d'][x] / self._table['l'][x]
             return None
 
@@ -131,11 +131,11 @@ class LifeTable(Reserves):
             """Helper to try compute number of lives aged x: l_x"""
             if x in self._table['l']:
                 return self._table['l'][x]
-            if x+1 in self._table['l'] and x in self._table['q']:
+            if x+1 in self._table['l'] and self._table['q'].get(x, 1) != 1:
                 return self._table['l'][x+1] / (1 - self._table['q'][x])
             if x-1 in self._table['l'] and x-1 in self._table['q']:
                 return self._table['l'][x-1] * (1 - self._table['q'][x-1])
-            if x in self._table['d'] and x in self._table['q']:
+            if x in self._table['d'] and self._table['q'].get(x):
                 return self._table['d'][x] / self._table['q'][x]
             return None
 
-- 
2.43.0


From f6a3b5853be720f375c5b19de1b8d7f15184879b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:45 +0000
Subject: [PATCH 07/60] fix: set_select loads deaths from its argument d
 instead of e

---
 src/actuarialmath/selectlife.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/selectlife.py b/src/actuarialmath/selectlife.py
index 1827586..c90200b 100644
--- a/src/actuarialmath/selectlife.py
+++ b/src/actuarialmath/selectlife.py
@@ -123,7 +123,7 @@ class SelectLife(LifeTable):
         tables = {
             'l': ifelse(l, {}),
             'q': ifelse(q, {}),
-            'd': ifelse(e, {}),
+            'd': ifelse(d, {}),
             'e': ifelse(e, {}),
             'a': ifelse(a, {}),
             'A': ifelse(A, {})
-- 
2.43.0


From 0cb0fcf536e62a22dadd4f5adcd93c933af134ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:45 +0000
Subject: [PATCH 08/60] fix: select table age range no longer shrinks on
 set_select nor survives a replaced table

---
 src/actuarialmath/selectlife.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/actuarialmath/selectlife.py b/src/actuarialmath/selectlife.py
index c90200b..6aaa1f0 100644
--- a/src/actuarialmath/selectlife.py
+++ b/src/actuarialmath/selectlife.py
@@ -72,8 +72,7 @@ class SelectLife(LifeTable):
           >>> print(life.e_r(58, s=2))
         """
         periods = self.periods_    # infer number of select years, and age range
-        minage = self._MINAGE 
-        maxage = self._MAXAGE
+        minage = maxage = -1       # all cells are replaced, hence so is the age range
         
         for lbl, table in [('A',A), ('a',a), ('q',q), ('d',d), ('l',l), ('e',e)]:
             self._select[lbl] = {}
@@ -140,7 +139,7 @@ class SelectLife(LifeTable):
 
                     if self._MINAGE < 0 or x < self._MINAGE:  # infer min age
                         self._MINAGE = x
-                    if age > self._MAXAGE:                    # infer max age
+                    if x > self._MAXAGE:                      # infer max age
                         self._MAXAGE = x
         if fill:
             self.fill_table(radix=radix)
-- 
2.43.0


From fa5428e1d2ec81bb4050cf1e38a1e97aebe033e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:45 +0000
Subject: [PATCH 09/60] fix: select table assumes a radix only when no number
 of lives is known

---
 src/actuarialmath/selectlife.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/actuarialmath/selectlife.py b/src/actuarialmath/selectlife.py
index 6aaa1f0..f9cb2fa 100644
--- a/src/actuarialmath/selectlife.py
+++ b/src/actuarialmath/selectlife.py
@@ -278,7 +278,8 @@ class SelectLife(LifeTable):
                                     curr += 1
                                     if self._verbose:
                                         print(f"{curr} {tab}(x={x}, s={s}) = {val}")
-            if 0 not in self._select['l'][self._MINAGE]: # arbitrary initial lives
+            if all(v is None for row in self._select['l'].values()
+                   for v in row.values()):    # arbitrary initial lives
                 self._select['l'][self._MINAGE][0] = radix
         return self
 
-- 
2.43.0


From 622e5734e7191212005b0e9e528a7fbe668c6b06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:21 +0000
Subject: [PATCH 10/60] fix: withdrawing a recursion fact no longer fails or
 stores an empty fact

---
 src/actuarialmath/recursion.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index 7c8dc6a..3267b04 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -395,8 +395,8 @@ class Recursion(Reserves):
           key : key of the item
           value : value to store for item
         """
-        if value is None and key in self.db:
-            self.db.pop(key)
+        if value is None:
+            self.db.pop(key, None)
         else:
             self.db[key] = value
             label = key[0]
@@ -793,7 +793,7 @@ class Recursion(Reserves):
         key = self._db_key('E', x=x+s, t=t, moment=moment)
         val = self.db.get(key, None)
         if val is not None:
-            return val * endowment   # stored with benefit=1
+            return val * endowment**abs(moment)   # stored with benefit=1
 
     def set_E(self, val: float, x: int, s: int = 0, t: int = 1, 
               endowment: int = 1, moment: int = 1) -> "Recursion":
@@ -807,7 +807,8 @@ class Recursion(Reserves):
           endowment : endowment value
           moment : first or second moment of pure endowment
         """
-        val /= endowment   # store with benefit=1
+        if val is not None:
+            val /= endowment**abs(moment)   # store with benefit=1
         return self._db_put(self._db_key('E', x=x+s, t=t, moment=moment), val)
 
     def _E_x(self, x: int, s: int = 0, t: int = 1, endowment: int = 1, 
@@ -932,7 +933,8 @@ class Recursion(Reserves):
           b : benefit after year 1
           discrete : discrete or continuous increasing insurance
         """
-        val /= b   # store with benefit=1
+        if val is not None:
+            val /= b   # store with benefit=1
         return self._db_put(self._db_key('IA', x=x+s, t=t, 
                                          discrete=discrete), val)
 
@@ -1030,7 +1032,8 @@ class Recursion(Reserves):
           b : benefit after year 1
           discrete : discrete or continuous decreasing insurance
         """
-        val /= b     # store with benefit=1
+        if val is not None:
+            val /= b     # store with benefit=1
         return self._db_put(self._db_key('DA', x=x+s, t=t, 
                                          discrete=discrete), val)
 
@@ -1498,7 +1501,8 @@ class Recursion(Reserves):
         Examples:
           >>> Recursion().set_interest(i=0.06).set_a(7, x=1)
         """
-        val /= b    # store with benefit=1
+        if val is not None:
+            val /= b**2 if variance else b    # store with benefit=1
         return self._db_put(self._db_key('a', x=x+s, t=t, u=u, 
                                          variance=variance, discrete=discrete), val)
 
-- 
2.43.0


From f83835993c21c2b5fa6a78be93ac27866dc84f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:21 +0000
Subject: [PATCH 11/60] fix: insurance facts are scaled by the power of the
 benefit their moment has, pure endowments kept apart

---
 src/actuarialmath/recursion.py | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index 3267b04..b6776cf 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -2,6 +2,7 @@
 
 MIT License. Copyright 2022-2023 Terence Lim
 """
+import math
 from typing import Tuple, Any
 import matplotlib.pyplot as plt
 from actuarialmath import Reserves
@@ -1120,12 +1121,12 @@ class Recursion(Reserves):
         if endowment < 0:   # endowment insurance with equal benefits
             endowment = b
         if t == 0:          # terminal value of insurance
-            return endowment
+            return endowment**moment if moment > 0 else 0
         if b == 0:          # normalize insurance factor by benefit amount
-            scale = endowment
-            endowment = 1
+            scale = endowment**abs(moment)
+            endowment = math.inf
         else:
-            scale = b
+            scale = b**abs(moment)
             endowment = 1 if b == endowment else endowment / b
         key = self._db_key('A', x=x+s, u=u, t=t, moment=moment, 
                            endowment=endowment, discrete=discrete)
@@ -1154,14 +1155,13 @@ class Recursion(Reserves):
         """
         if endowment < 0:      # endowment insurance with equal death and endow
             endowment = b
-        if endowment == 0:     # normalize insurance factor by benefit amount
-            val /= b
-        elif b == 0:
-            val /= endowment   # store with benefit=1
+        scale = (endowment if b == 0 else b)**abs(moment)
+        if b == 0:             # normalize insurance factor by benefit amount
+            endowment = math.inf
         else:
-            if b != 1:
-                val /= b
-                endowment /= b
+            endowment = 1 if b == endowment else endowment / b
+        if val is not None:
+            val /= scale       # store with benefit=1
         return self._db_put(self._db_key('A', x=x+s, t=t, u=u,
                                          moment=moment, endowment=endowment, 
                                          discrete=discrete), val)
-- 
2.43.0


From ea8a39647c89d874b7c3ef5eab760e9a514262e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:21 +0000
Subject: [PATCH 12/60] fix: moments of a pure endowment in a recursion use its
 own term

---
 src/actuarialmath/recursion.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index b6776cf..6664996 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -823,13 +823,13 @@ class Recursion(Reserves):
         if t == 0:    # t = 0 => EPV(0) = endowment**moment
             return endowment**moment
         if moment > 1:
-            E = self._E_x(x, s=s, endowment=endowment, depth=depth)
-            if E:  # (1) Shortcut: 2E_x = v E_x
+            E = self._E_x(x, s=s, t=t, endowment=endowment, depth=depth)
+            if E is not None:  # (1) Shortcut: 2E_x = v^t E_x
                 self.blog(self.pprint.E(x=x, s=s, t=t, moment=moment),
                           f"= " + self.pprint.m(moment*t, v="v"), '*',
                           self.pprint.E(x=x, s=s, t=t),
                           depth=depth, rule='moments of pure endowment')
-                return E * self.interest.v**(moment-1)
+                return E * (endowment * self.interest.v_t(t))**(moment-1)
             else:
                 self.blog.pop(depth=depth)
 
-- 
2.43.0


From f2a974eeadc18980862825d7856accbf9cbc2014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:21 +0000
Subject: [PATCH 13/60] fix: insurance recursions are not applied to variances,
 nor the one-year endowment to deferrals

---
 src/actuarialmath/recursion.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index 6664996..1204e0f 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -1171,7 +1171,8 @@ class Recursion(Reserves):
              moment: int = 1, depth: int = 1) -> float | None:
         """Helper to compute from recursive and alternate formulas"""
 
-        if endowment == b and t == 1 and discrete: # 1-year endow ins
+        if (endowment == b and t == 1 and discrete  # 1-year endow ins
+            and u == 0 and moment > 0):
 #            self.blog(self.pprint.A(x=x, s=s, t=1, endowment=b, b=b, moment=moment),
 #                      '=', self.pprint.m(moment, v="v"),
 #                      depth=depth, rule='one-year endowment insurance')
@@ -1180,7 +1181,7 @@ class Recursion(Reserves):
                             moment=moment, endowment=endowment)
         if found is not None:
             return found
-        if depth <= 0:
+        if depth <= 0 or moment < 0:  # recursions hold for moments only
             return None
 
         if discrete and u > 0:  # (1) deferred insurance  
-- 
2.43.0


From db433ab4d9a07f2153d002e768a0d89ce61feb96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:21 +0000
Subject: [PATCH 14/60] fix: deferred insurance recursion tests the pure
 endowment it uses

---
 src/actuarialmath/recursion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index 1204e0f..e5fb86c 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -1188,7 +1188,7 @@ class Recursion(Reserves):
             A = self._A_x(x=x, s=s+1, t=t, b=b, u=u-1, discrete=discrete, 
                               moment=moment, endowment=endowment, depth=depth-1)
             E = self._E_x(x, s=s, t=1, moment=moment, depth=depth-1)
-            if A is not None and p is not None:  # (1a) backward E_x * A
+            if A is not None and E is not None:  # (1a) backward E_x * A
                 #msg = f"backward deferred {u}_A_{x+s}: {u}_E * A_{x+s+u}"
                 self.blog(self.pprint.A(x=x, s=s, t=t, u=u, b=b, moment=moment), '=',
                           self.pprint.E(x=x, s=s, moment=moment), '*',
-- 
2.43.0


From 9a50d98c344d58c4e819c9ac4840045aa897ea80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:21 +0000
Subject: [PATCH 15/60] fix: one-year insurance recursion no longer fails while
 recording its rule

---
 src/actuarialmath/recursion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index e5fb86c..aea50a3 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -1262,7 +1262,7 @@ class Recursion(Reserves):
                           self.pprint.m(moment, v="v"), "*",
                           self.pprint.q(x=x, s=s), f"*",
                           self.pprint.m(moment, v="v"), "+",
-                          self.pprint.p(x=x, s=s), f"*".
+                          self.pprint.p(x=x, s=s), "*",
                           self.pprint.m(moment, endow=endowment),
                           #f"discrete 1-year insurance: A_{x+s}:1 = qv",
                           depth=depth, rule='one-year discrete insurance')
-- 
2.43.0


From 7b772952bf6cc67f33d3a3a508e49db7a7ed75d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:21 +0000
Subject: [PATCH 16/60] fix: annuity and insurance twins in recursions take the
 benefit amount into account

---
 src/actuarialmath/recursion.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index aea50a3..6c31ce3 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -1371,14 +1371,14 @@ class Recursion(Reserves):
             self.blog.display()
             return found
         if moment == 1 and self.interest.i > 0:  # (1) twin annuity
-            a = self._a_x(x, s=s, b=b, discrete=discrete, depth=self.maxdepth)
+            a = self._a_x(x, s=s, discrete=discrete, depth=self.maxdepth)
             if a is not None:
                 self.blog(self.pprint.a(x=x, s=s), '= [ 1 -',
                           self.pprint.A(x=x, s=s), f"] / d",
                           #"Annuity twin: a = (1 - A) / d",
                           depth=self.maxdepth, rule='annuity twin')
                 self.blog.display()
-                return self.insurance_twin(a=a, discrete=discrete)
+                return b * self.insurance_twin(a=a, discrete=discrete)
         A = super().whole_life_insurance(x, s=s, b=b, discrete=discrete,
                                          moment=moment)
         if A is not None:
@@ -1450,11 +1450,11 @@ class Recursion(Reserves):
             self.blog.display()
             return found
         if moment == 1 and endowment == b and self.interest.i > 0:
-            a = self._a_x(x, s=s, b=b, t=t, discrete=discrete,
+            a = self._a_x(x, s=s, t=t, discrete=discrete,
                           depth=self.maxdepth)
             if a is not None:   # twin insurance
                 self.blog.display()
-                return self.insurance_twin(a=a, discrete=discrete)
+                return b * self.insurance_twin(a=a, discrete=discrete)
         A = super().endowment_insurance(x, s=s, b=b, t=t, discrete=discrete,
                                         moment=moment, endowment=endowment)
         if A is not None:
@@ -1607,13 +1607,13 @@ class Recursion(Reserves):
             self.blog.display()
             return found
         if not variance and self.interest.i > 0:  # (1) twin insurance shortcut
-            A = self._A_x(x, s=s, b=b, discrete=discrete, depth=self.maxdepth)
+            A = self._A_x(x, s=s, discrete=discrete, depth=self.maxdepth)
             if A is not None:
                 self.blog(self.pprint.a(x=x, s=s, discrete=discrete, variance=variance),
                           "= [1 -", self.pprint.A(x=x, s=s, discrete=discrete), "] / d",
                           depth=self.maxdepth, rule='insurance twin')
                 self.blog.display()
-                return self.annuity_twin(A=A, discrete=discrete)
+                return b * self.annuity_twin(A=A, discrete=discrete)
         a = super().whole_life_annuity(x, s=s, b=b, discrete=discrete,
                                        variance=variance)
         if a is not None:
@@ -1643,15 +1643,15 @@ class Recursion(Reserves):
             self.blog.display()
             return found
         if not variance and self.interest.i > 0: # (1) twin insurance shortcut
-            A = self._A_x(x, s=s, b=b, t=t, endowment=b, discrete=discrete, 
+            A = self._A_x(x, s=s, t=t, endowment=1, discrete=discrete, 
                           depth=self.maxdepth)
             if A is not None:
-                self.blog(self.pprint.a(x=x, s=s, t=t, b=b), '= [ 1 -',
-                          self.pprint.A(x=x, s=s, t=t, b=b, endowment=b), f"] / d",
+                self.blog(self.pprint.a(x=x, s=s, t=t), '= [ 1 -',
+                          self.pprint.A(x=x, s=s, t=t, endowment=1), f"] / d",
                           #"Annuity twin: a = (1 - A) / d",
                           depth=self.maxdepth, rule='annuity twin')
                 self.blog.display()
-                return self.annuity_twin(A=A, discrete=discrete)
+                return b * self.annuity_twin(A=A, discrete=discrete)
         a = super().temporary_annuity(x, s=s, b=b, t=t, discrete=discrete,
                                       variance=variance)
         if a is not None:
-- 
2.43.0


From 36e8653eed830909ec82e168212adbaf5191cd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:21 +0000
Subject: [PATCH 17/60] fix: varying insurance recursions use each other's
 values, full terms and benefit amounts

---
 src/actuarialmath/recursion.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index 6c31ce3..2ed340f 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -965,7 +965,7 @@ class Recursion(Reserves):
                 self.blog.pop(depth=depth)
 
         if discrete:
-            A = self._A_x(x=x, s=s, t=1, b=b, discrete=discrete, depth=depth-1)
+            A = self._A_x(x=x, s=s, t=t, b=b, discrete=discrete, depth=depth-1)
             IA = self._IA_x(x=x, s=s+1, t=self.add_term(t, -1), b=b, depth=depth-1)
             p = self._p_x(x, s=s, t=1, depth=depth-1)   # FIXED t=1
             if A is not None and IA is not None and p is not None:
@@ -1041,18 +1041,18 @@ class Recursion(Reserves):
     def _DA_x(self, x: int, s: int = 0, t: int = Reserves.WHOLE, b: int = 1,
               discrete: bool = True, depth: int = 1) -> float | None:
         """Helper to compute from recursive and alternate formulas"""
-        found = self._get_DA(x=x, s=s, t=t, discrete=discrete)
+        found = self._get_DA(x=x, s=s, t=t, b=b, discrete=discrete)
         if found is not None:
             return found
         if t == 0:
             return 0
         if depth <= 0:
             return None
-        assert t < 0,  "Decreasing insurance must be term insurance"
+        assert t > 0,  "Decreasing insurance must be term insurance"
     
         A = self._A_x(x=x, s=s, t=t, b=b, discrete=discrete, depth=depth-1)
         n = t + int(discrete)
-        IA = self._DA_x(x=x, s=s, t=t, b=b, discrete=discrete, depth=depth-1)
+        IA = self._IA_x(x=x, s=s, t=t, b=b, discrete=discrete, depth=depth-1)
         if A is not None and IA is not None:
             self.blog(self.pprint.DA(x=x, s=s, t=t), f'= {n}',
                       self.pprint.A(x=x, s=s, t=t), '-',
@@ -1063,7 +1063,7 @@ class Recursion(Reserves):
             self.blog.pop(depth=depth)
 
         if discrete:
-            DA = self._IA_x(x=x, s=s+1, t=self.add_term(t, -1), b=b, depth=depth-1)
+            DA = self._DA_x(x=x, s=s+1, t=self.add_term(t, -1), b=b, depth=depth-1)
             p = self._p_x(x, s=s, depth=depth-1)
             if DA is not None and p is not None:
                 #f"backward DA_{x+s}:{t}: v(t q_{x+s} + p_{x+s} DA_{x+s+1}:{t-1})"
@@ -1072,7 +1072,7 @@ class Recursion(Reserves):
                           self.pprint.q(x=x, s=s), '+',
                           self.pprint.p(x=x, s=s), '*', self.pprint.DA(x=x, s=s+1, t=t-1),
                           depth=depth, rule='backward recursion')
-                return self.interest.v * ((1-p)*t + p*DA)  # (2) backward recursion
+                return self.interest.v * ((1-p)*t*b + p*DA)  # (2) backward recursion
             else:
                 self.blog.pop(depth=depth)
 
-- 
2.43.0


From ca2734e45a86782ba40a3783cddf4872c351680d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:21 +0000
Subject: [PATCH 18/60] fix: one-year annuity recursion has no variance,
 annuity variance facts scale by squared benefit

---
 src/actuarialmath/recursion.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index 2ed340f..eeb776b 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -1482,7 +1482,7 @@ class Recursion(Reserves):
                            variance=variance, discrete=discrete)
         val = self.db.get(key, None)
         if val is not None:
-            return val * b    # stored with benefit=1
+            return val * (b**2 if variance else b)    # stored with benefit=1
 
     def set_a(self, val: float, x: int, s: int = 0, t: int = Reserves.WHOLE,
               u: int = 0, b: int = 1, variance: bool = False, 
@@ -1514,7 +1514,7 @@ class Recursion(Reserves):
         if t == 1 and not u and discrete:
 #            self.blog(self.pprint.a(x=x, s=s, t=1, discrete=discrete), '= 1',
 #                      depth=depth, rule='one-year discrete annuity')
-            return b 
+            return 0 if variance else b
         if t == 0:
             return 0
         found = self._get_a(x=x, s=s, t=t, b=b, u=u, discrete=discrete,
-- 
2.43.0


From 692620fb3b1e55e12a5f81f3d441ac5fe6bc7d03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:21 +0000
Subject: [PATCH 19/60] fix: deferred annuity in recursions keeps its deferral
 when no recursion applies

---
 src/actuarialmath/recursion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index eeb776b..bdb0ce5 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -1686,7 +1686,7 @@ class Recursion(Reserves):
         if a is not None and a_t is not None:
             self.blog.display()
             return a - a_t
-        return super().deferred_annuity(x, s=s, b=b, t=t, discrete=discrete)
+        return super().deferred_annuity(x, s=s, b=b, t=t, u=u, discrete=discrete)
 
 # to auto-detect notebook environment
 try:
-- 
2.43.0


From 9fc6eefdeb5ca689785775183c3b908aa5701693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:28 +0000
Subject: [PATCH 20/60] fix: survival probability is not derived from
 insurances that are certain

---
 src/actuarialmath/recursion.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index bdb0ce5..3194c52 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -625,7 +625,8 @@ class Recursion(Reserves):
                     A = self._A_x(x, s=s, t=_t, endowment=endowment, depth=depth-1)
                     A1 = self._A_x(x, s=s+1, t=self.add_term(_t, -1), endowment=endowment,
                                    depth=depth-1)
-                    if A is not None and A1 is not None:
+                    if (A is not None and A1 is not None
+                        and not self.isclose(A1, 1)):
                         self.blog(self.pprint.p(x=x, s=s, t=1), '= [ v -',
                                   self.pprint.A(x=x, s=s, t=_t, endowment=endowment),
                                   '] / [v * [ 1 -',
-- 
2.43.0


From deee5bdbd9a198325bf0127e6d9481f4ed1fd102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:28 +0000
Subject: [PATCH 21/60] fix: plain notebook display of recursions refers to its
 own text

---
 src/actuarialmath/recursion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index 3194c52..19a9476 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -70,7 +70,7 @@ class _Blog:
             if _Blog._notebook and _Blog._latex:
                 display_latex(_str, raw=True)
             elif _Blog._notebook:
-                display_pretty(_self, raw=True)
+                display_pretty(_str, raw=True)
             else:
                 print(_str, end=end)
             
-- 
2.43.0


From b28c4ac589914e45a5604478524a48f4c7fb3653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:28 +0000
Subject: [PATCH 22/60] fix: insurance variances no longer square the mean
 twice, nor the benefit

---
 src/actuarialmath/insurance.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/actuarialmath/insurance.py b/src/actuarialmath/insurance.py
index 316383b..7b9ed2d 100644
--- a/src/actuarialmath/insurance.py
+++ b/src/actuarialmath/insurance.py
@@ -108,7 +108,7 @@ class Insurance(Fractional):
         """
         if moment == self.VARIANCE:
             A2 = self.whole_life_insurance(x, s=s, moment=2, discrete=discrete)
-            A1 = self.whole_life_insurance(x, s=s, discrete=discrete)**2
+            A1 = self.whole_life_insurance(x, s=s, discrete=discrete)
             return self.insurance_variance(A2=A2, A1=A1, b=b)
         return self.A_x(x, s=s, t=self.WHOLE, benefit=lambda x,t: b, 
                         moment=moment, discrete=discrete)
@@ -131,7 +131,7 @@ class Insurance(Fractional):
         """
         if moment == self.VARIANCE:
             A2 = self.term_insurance(x, s=s, t=t, moment=2, discrete=discrete)
-            A2 = self.term_insurance(x, s=s, t=t, discrete=discrete)**2
+            A1 = self.term_insurance(x, s=s, t=t, discrete=discrete)
             return self.insurance_variance(A2=A2, A1=A1, b=b)
         A = self.whole_life_insurance(x, s=s, b=b, moment=moment, 
                                       discrete=discrete)
@@ -195,7 +195,7 @@ class Insurance(Fractional):
                                           b=b, moment=2, discrete=discrete)
             A1 = self.endowment_insurance(x, s=s, t=t, endowment=endowment,
                                           b=b, discrete=discrete)
-            return self.insurance_variance(A2=A2, A1=A1, b=b)
+            return self.insurance_variance(A2=A2, A1=A1)
         E = self.E_x(x, s=s, t=t, moment=moment)
         A = self.term_insurance(x, s=s, t=t, b=b, moment=moment,
                                 discrete=discrete)
-- 
2.43.0


From 46c7d6bbc4724c5f76526aa487cdbbbbd327be0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:28 +0000
Subject: [PATCH 23/60] fix: decreasing insurance uses years after selection
 for its term insurance too

---
 src/actuarialmath/insurance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/insurance.py b/src/actuarialmath/insurance.py
index 7b9ed2d..aee0b87 100644
--- a/src/actuarialmath/insurance.py
+++ b/src/actuarialmath/insurance.py
@@ -236,7 +236,7 @@ class Insurance(Fractional):
         >>> life.decreasing_insurance(x=0, t=10)
         """
         assert t > 0  # decreasing must be term insurance
-        A = self.term_insurance(x, t=t, b=b, discrete=discrete)
+        A = self.term_insurance(x, s=s, t=t, b=b, discrete=discrete)
         n = t + int(discrete)   #  (DA)_x:n + (IA)_x:n = (n+1) A^1_x:n
         return A*n - self.increasing_insurance(x, s=s, t=t, b=b, 
                                                discrete=discrete)
-- 
2.43.0


From 8ab7c4b4c1d8c408a54eb9a01b70dcc6bc1e2e73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:28 +0000
Subject: [PATCH 24/60] fix: annuities take the benefit amount into account at
 zero interest and while certain

---
 src/actuarialmath/annuity.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/actuarialmath/annuity.py b/src/actuarialmath/annuity.py
index f2fe7f7..1690a98 100644
--- a/src/actuarialmath/annuity.py
+++ b/src/actuarialmath/annuity.py
@@ -131,7 +131,7 @@ class Annuity(Insurance):
             A = self.whole_life_insurance(x, s=s, discrete=discrete)
             return b * (1 - A) / interest if interest > 0 else b * (1 - A)
         else:  # when interest=1, annuity is expected life time (+1 if discrete)
-            return discrete + self.e_x(x=x, s=s, curtate=discrete)
+            return b * (discrete + self.e_x(x=x, s=s, curtate=discrete))
 
             
     def temporary_annuity(self, x: int, s: int = 0, t: int = Insurance.WHOLE, 
@@ -202,7 +202,7 @@ class Annuity(Insurance):
         if u < 0:
             return 0.
         a = self.deferred_annuity(x, s=s, u=u, t=t, b=b, discrete=discrete)
-        return self.interest.annuity(u, m=int(discrete)) + a
+        return b * self.interest.annuity(u, m=int(discrete)) + a
 
     def increasing_annuity(self, x: int, s: int = 0, t: int = Insurance.WHOLE, 
                            b: int = 1, discrete: bool = True) -> float:
-- 
2.43.0


From 4b65fcb1904f01e9f7ecb25030245ce5e6f9f4d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:52 +0000
Subject: [PATCH 25/60] fix: solve for the least absolute difference leaves the
 model at the solution, as root solving does

---
 src/actuarialmath/actuarial.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/actuarialmath/actuarial.py b/src/actuarialmath/actuarial.py
index 68b3fda..922b14a 100644
--- a/src/actuarialmath/actuarial.py
+++ b/src/actuarialmath/actuarial.py
@@ -92,7 +92,9 @@ class Actuarial(object):
         """
         if mad:   # minimize absolute difference
             f = lambda t: abs(fun(t) - target)
-            return scipy.optimize.minimize_scalar(f, grid).x    
+            x = scipy.optimize.minimize_scalar(f, grid).x
+            fun(x)              # call again with final in case want side effect
+            return x
         else:     # solve root
             f = lambda x: fun(x) - target
             if isinstance(grid, (list, tuple)):
-- 
2.43.0


From 01e23bf1caa6b3aed4362059ba0aaf43934e2957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:10 +0000
Subject: [PATCH 26/60] fix: insurance and annuity plots return the value they
 mark at time zero too

---
 src/actuarialmath/annuity.py   | 2 +-
 src/actuarialmath/insurance.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/actuarialmath/annuity.py b/src/actuarialmath/annuity.py
index 1690a98..ef2e2cd 100644
--- a/src/actuarialmath/annuity.py
+++ b/src/actuarialmath/annuity.py
@@ -397,7 +397,7 @@ class Annuity(Insurance):
         ax.set_ylabel(f"$Y({K}_x)$", color=color)
         ax.set_xlabel(f"${K}_x$")
         #plt.tight_layout()
-        return Y if T else None
+        return Y if T is not None else None
 
     def _Y_plot(self, x: int, s: int = 0, stop : int = 0,
                 benefit: Callable = lambda x,k: 1,
diff --git a/src/actuarialmath/insurance.py b/src/actuarialmath/insurance.py
index aee0b87..629fc28 100644
--- a/src/actuarialmath/insurance.py
+++ b/src/actuarialmath/insurance.py
@@ -407,7 +407,7 @@ class Insurance(Fractional):
         ax.set_ylabel(f"$Z({K}_x)$", color=color)
         ax.set_xlabel(f"${K}_x$")
         #plt.tight_layout()
-        return Z if T else None
+        return Z if T is not None else None
 
     def _Z_plots(self,
                  x: int,
-- 
2.43.0


From 5e7ba0faa681e396d28d2c0a3c047bb89bd950d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:10 +0000
Subject: [PATCH 27/60] fix: loss plot returns None when no time is to be
 marked, and uses its title

---
 src/actuarialmath/policyvalues.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/actuarialmath/policyvalues.py b/src/actuarialmath/policyvalues.py
index 3269cb4..11d81e1 100644
--- a/src/actuarialmath/policyvalues.py
+++ b/src/actuarialmath/policyvalues.py
@@ -425,6 +425,7 @@ class PolicyValues(Premiums):
             bx.set_ylabel(f"$S({K})$", color='g')
             bx.tick_params(axis='y', colors='g')
 
+        z = None
         if T is not None:
             # plot indicate(T*)
             z = self.L_from_t(T, contract=contract)
@@ -437,7 +438,7 @@ class PolicyValues(Premiums):
                 label2, = bx.plot(T, prob, c='g', marker='o',
                                   label=f"Pr[{K}>{T:.2f}]={prob:.4f}")
                 bx.legend(handles=[label2], loc='upper right')
-        ax.set_title(f"PV future loss at issue r.v. $_0L$")
+        ax.set_title(f"PV future loss at issue r.v. $_0L$" if title is None else title)
         ax.set_ylabel(f"$L({K}_x)$", color=color)
         ax.set_xlabel(f"${K}_x$")
         #plt.tight_layout()
-- 
2.43.0


From 98a046c62277d251db7f569390342efcc2230de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:28 +0000
Subject: [PATCH 28/60] fix: density at a fractional age counts survival to
 that age, and does not recurse forever under constant force

---
 src/actuarialmath/fractional.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/actuarialmath/fractional.py b/src/actuarialmath/fractional.py
index bd015bb..9b69676 100644
--- a/src/actuarialmath/fractional.py
+++ b/src/actuarialmath/fractional.py
@@ -139,18 +139,16 @@ class Fractional(Lifetime):
         assert s >= 0, "s must be non-negative"
         assert r >= 0, "r must be non-negative"
         assert t >= 0, "t must be non-negative"
+        r_floor = math.floor(r)
+        r -= r_floor            # s.t. r < 1 
+        s += r_floor            # while maintaining x+s+r unchanged
         if 0. <= r + t <= 1.:   # shortcuts available within integer ages
-            if self.udd_:       # UDD shortcut: constant q_x
-                return self.q_x(x, s=s)  # does not depend fractional age or duration
+            if self.udd_:       # UDD shortcut: constant q_x, given survival to s+r
+                return self.q_x(x, s=s) / (1. - r*self.q_x(x, s=s))
             else:               # Constant force shortcut:
-                if self.isclose(t):
-                    return self.f_x(x=x, s=s)
                 mu = -math.log(max(0.00001, self.p_x(x, s=s)))
                 return math.exp(-mu*t) * mu    # does not depend on fractional age
         else: # else survive to integer age, times density at fractional age
-            r_floor = math.floor(r)
-            r -= r_floor            # s.t. r < 1 
-            s += r_floor            # while maintaining x+s+r unchanged
             t_floor = math.floor(r + t)
             u = t_floor - r         # s.t. u + r is integer
             t = t + r - t_floor     # s.t. t < 1
-- 
2.43.0


From e9c2cdacf832143baa0ba0469bfc7b15a3747f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:28 +0000
Subject: [PATCH 29/60] fix: life table life expectancy uses the age attained,
 and can be asked for by fractional ages and second moments

---
 src/actuarialmath/lifetable.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/actuarialmath/lifetable.py b/src/actuarialmath/lifetable.py
index a92892e..adf1e82 100644
--- a/src/actuarialmath/lifetable.py
+++ b/src/actuarialmath/lifetable.py
@@ -232,27 +232,27 @@ class LifeTable(Reserves):
         else:
             return 1     # the only certainty in life
 
-    def e_x(self, x: int, s: int = 0, n: int = Reserves.WHOLE,
+    def e_x(self, x: int, s: int = 0, t: int = Reserves.WHOLE,
             curtate: bool = True, moment: int = 1) -> float:
         """Expected curtate lifetime from sum of lives in table
 
         Args:
           x : age of selection
           s : years after selection
-          n : future lifetime limited at n years
+          t : future lifetime limited at t years
           curtate : whether curtate (True) or complete (False) expectations
           moment : whether to compute first (1) or second (2) moment
 
         """
         if moment == 1:
-            # E[K_x] = sum([self.p(x, k+1) for k in range(n)])
-            n = min(self._MAXAGE - x, n) if n > 0 else self._MAXAGE
+            # E[K_x] = sum([self.p(x, k+1) for k in range(t)])
+            t = self.max_term(x+s, t)
             # approximate complete by UDD between integer age recursion
-            e = sum([(1 - curtate)*(self.l(x, s=s+t) - self.l(x, s=s+t+1))*0.5
-                     + self.l(x, s=s+t+1) for t in range(n)])  # s_p_x = l_x+s/l_x
-            return e / self.l(x, s=0)
+            e = sum([(1 - curtate)*(self.l(x, s=s+k) - self.l(x, s=s+k+1))*0.5
+                     + self.l(x, s=s+k+1) for k in range(t)])  # s_p_x = l_x+s/l_x
+            return e / self.l(x, s=s)
         else:
-            return super().e_x(x=x, s=s, n=n, curtate=curtate, moment=moment)
+            return super().e_x(x=x, s=s, t=t, curtate=curtate, moment=moment)
 
     def E_x(self, x: int, s: int = 0, t: int = 1, moment: int = 1) -> float:
         """Pure Endowment from life table and interest rate
-- 
2.43.0


From e0aeb188a0e061d788aec6ed247e8ac266ee1bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:28 +0000
Subject: [PATCH 30/60] fix: variance of a life table's pure endowment
 discounts its second moment

---
 src/actuarialmath/lifetable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/lifetable.py b/src/actuarialmath/lifetable.py
index adf1e82..b3dba86 100644
--- a/src/actuarialmath/lifetable.py
+++ b/src/actuarialmath/lifetable.py
@@ -270,7 +270,7 @@ class LifeTable(Reserves):
         t = self.max_term(x+s, t)
         p = self.l_x(x, s=s+t) / self.l_x(x, s=s)
         if moment == self.VARIANCE:
-            return self.interest.v_t(t)**moment * p * (1 - p)
+            return self.interest.v_t(t)**2 * p * (1 - p)
         if moment == 1:
             return self.interest.v_t(t) * p
         # SULT shortcut: t_E_x(moment=2) = t_E_x(moment=1) * v**t
-- 
2.43.0


From e439209f28930c6b9f435f3203385af62cc93aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:57 +0000
Subject: [PATCH 31/60] fix: variance of the years lived in the next year is
 not its mean

---
 src/actuarialmath/lifetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/lifetime.py b/src/actuarialmath/lifetime.py
index e98be35..eec6358 100644
--- a/src/actuarialmath/lifetime.py
+++ b/src/actuarialmath/lifetime.py
@@ -31,7 +31,7 @@ class Lifetime(Survival):
         assert x >= 0, "x must be non-negative"
         assert s >= 0, "s must be non-negative"
 
-        if t == 1 and curtate:      # shortcut for e_x:1
+        if t == 1 and curtate and moment != self.VARIANCE:  # shortcut for e_x:1
             return self.p_x(x, s=s, t=1)
         
         t = self.max_term(x+s, t)   # length of term must be bounded by max age
-- 
2.43.0


From 290c9ba7c98a3bf99541edd3c9d371043c8b2ddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:57 +0000
Subject: [PATCH 32/60] fix: variance of a pure endowment due at once is zero

---
 src/actuarialmath/lifetable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/lifetable.py b/src/actuarialmath/lifetable.py
index b3dba86..53935a6 100644
--- a/src/actuarialmath/lifetable.py
+++ b/src/actuarialmath/lifetable.py
@@ -264,7 +264,7 @@ class LifeTable(Reserves):
           moment : return first (1) or second (2) moment or variance (-2)
         """
         if t == 0:
-            return 1.
+            return 0. if moment == self.VARIANCE else 1.
         if t < 0:
             return 0.
         t = self.max_term(x+s, t)
-- 
2.43.0


From 0cf08deef6cdb05d0789dd48ab6bbcc3cf38d6fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:29 +0000
Subject: [PATCH 33/60] fix: life table's complete expectation follows constant
 force when that is assumed

---
 src/actuarialmath/lifetable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/actuarialmath/lifetable.py b/src/actuarialmath/lifetable.py
index 53935a6..603e5b5 100644
--- a/src/actuarialmath/lifetable.py
+++ b/src/actuarialmath/lifetable.py
@@ -244,10 +244,10 @@ class LifeTable(Reserves):
           moment : whether to compute first (1) or second (2) moment
 
         """
-        if moment == 1:
+        if moment == 1 and (curtate or self.udd_):
             # E[K_x] = sum([self.p(x, k+1) for k in range(t)])
             t = self.max_term(x+s, t)
-            # approximate complete by UDD between integer age recursion
+            # complete by UDD between integer age recursion
             e = sum([(1 - curtate)*(self.l(x, s=s+k) - self.l(x, s=s+k+1))*0.5
                      + self.l(x, s=s+k+1) for k in range(t)])  # s_p_x = l_x+s/l_x
             return e / self.l(x, s=s)
-- 
2.43.0


From 1326806d9a89e31aba6fb9c1d7d85b1ce49ec665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:19 +0000
Subject: [PATCH 34/60] fix: select table's limited life expectancy is not the
 whole one, and the whole one is summed to the end of the table

---
 src/actuarialmath/selectlife.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/actuarialmath/selectlife.py b/src/actuarialmath/selectlife.py
index f9cb2fa..e644ef8 100644
--- a/src/actuarialmath/selectlife.py
+++ b/src/actuarialmath/selectlife.py
@@ -351,10 +351,13 @@ class SelectLife(LifeTable):
           t : limit of expected future lifetime
         """
         assert curtate, "Must be curtate lifetimes"
-        if (self._isin_sel(x, s, 'e')):
-            return self._get_sel(x, s, 'e')
-        e = sum([self.p_x(x, s=s, t=k+1) for k in range(max(1, t))])
-        return e
+        if t < 0:
+            if self._isin_sel(x, s, 'e'):
+                return self._get_sel(x, s, 'e')
+            t = 0
+            while self._isin_sel(x, s+t, 'q'):  # whole term: to end of table
+                t += 1
+        return sum([self.p_x(x, s=s, t=k+1) for k in range(t)])
 
     def frame(self, table: str = 'l') -> pd.DataFrame:
         """Returns select and ultimate table values as a DataFrame
-- 
2.43.0


From 30b61fee784b050878708ac34bb6563e93111415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:32 +0000
Subject: [PATCH 35/60] fix: select table's deaths and pure endowments reach
 its ultimate ages

---
 src/actuarialmath/selectlife.py | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/actuarialmath/selectlife.py b/src/actuarialmath/selectlife.py
index e644ef8..1819b80 100644
--- a/src/actuarialmath/selectlife.py
+++ b/src/actuarialmath/selectlife.py
@@ -320,6 +320,32 @@ class SelectLife(LifeTable):
         """
         return self._get_sel(x, s, 'l')
 
+    def d_x(self, x: int, s: int = 0, t: int = 1) -> float:
+        """Returns number of deaths of [x]+s within t years computed from select table
+
+        Args:
+          x : age of selection
+          s : years after selection
+          t : death within next t years
+        """
+        return self.l_x(x, s=s) - self.l_x(x, s=s+t)
+
+    def E_x(self, x: int, s: int = 0, t: int = 1, moment: int = 1) -> float:
+        """Returns pure endowment computed from select table
+
+        Args:
+          x : age of selection
+          s : years after selection
+          t : survives t years
+          moment : return first (1) or second (2) moment or variance (-2)
+        """
+        if t <= 0 or not self._isin_sel(x, s+t, 'l'):
+            return super().E_x(x, s=s, t=t, moment=moment)
+        p = self.l_x(x, s=s+t) / self.l_x(x, s=s)
+        if moment == self.VARIANCE:
+            return self.interest.v_t(t)**2 * p * (1 - p)
+        return self.interest.v_t(t)**moment * p
+
     def p_x(self, x: int, s: int = 0, t: int = 1) -> float:
         """t_p_[x]+s by chain rule: prod(1_p_[x]+s+y) for y in range(t)
 
-- 
2.43.0


From e927f70c5320010c32739c0a33e2832625dd3412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:37 +0000
Subject: [PATCH 36/60] fix: expected lifetime is zero at ages which nobody in
 the life table reaches

---
 src/actuarialmath/lifetable.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/lifetable.py b/src/actuarialmath/lifetable.py
index 603e5b5..4f6f399 100644
--- a/src/actuarialmath/lifetable.py
+++ b/src/actuarialmath/lifetable.py
@@ -250,7 +250,7 @@ class LifeTable(Reserves):
             # complete by UDD between integer age recursion
             e = sum([(1 - curtate)*(self.l(x, s=s+k) - self.l(x, s=s+k+1))*0.5
                      + self.l(x, s=s+k+1) for k in range(t)])  # s_p_x = l_x+s/l_x
-            return e / self.l(x, s=s)
+            return e / self.l(x, s=s) if e else 0.
         else:
             return super().e_x(x=x, s=s, t=t, curtate=curtate, moment=moment)
 
-- 
2.43.0


From b04f5a3fb8c49613c617c7e3b0b2600962c54c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:37 +0000
Subject: [PATCH 37/60] fix: policy values bound the policy's term by its age
 at issue, not by its age now

---
 src/actuarialmath/policyvalues.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/actuarialmath/policyvalues.py b/src/actuarialmath/policyvalues.py
index 11d81e1..368d8e9 100644
--- a/src/actuarialmath/policyvalues.py
+++ b/src/actuarialmath/policyvalues.py
@@ -164,7 +164,7 @@ class PolicyValues(Premiums):
             A1 = self.whole_life_insurance(x, s=s+t, discrete=discrete)
             A = self.whole_life_insurance(x, s=s, discrete=discrete)
         elif endowment == b:   # Endowment Insurance 
-            n = self.max_term(x=x+s+t, t=n)
+            n = self.max_term(x=x+s, t=n)
             A2 = self.endowment_insurance(x, s=s+t, t=n-t, moment=2,
                                             discrete=discrete)
             A1 = self.endowment_insurance(x, s=s+t, t=n-t, discrete=discrete)
@@ -194,12 +194,12 @@ class PolicyValues(Premiums):
             A1 = self.whole_life_insurance(x, s=s+t, discrete=discrete)
             A = self.whole_life_insurance(x, s=s, discrete=discrete)
         elif endowment == b:  # Shortcut available for (equal) Endowment Insurance
-            n = self.max_term(x=x+s+t, t=n)
+            n = self.max_term(x=x+s, t=n)
             A1 = self.endowment_insurance(x, s=s+t, t=n-t, 
                                             discrete=discrete)
             A = self.endowment_insurance(x, s=s, t=n, discrete=discrete)
         else:   # Special Term or (unequal) Endowment insurance has no shortcut
-            n = self.max_term(x=x+s+t, t=n)
+            n = self.max_term(x=x+s, t=n)
             A1 = self.endowment_insurance(x, s=s+t, t=n-t, discrete=discrete,
                                             b=b, endowment=endowment)
             a1 = self.temporary_annuity(x, s=s+t, t=n-t, b=b, 
@@ -264,7 +264,7 @@ class PolicyValues(Premiums):
             A1 = self.whole_life_insurance(x, s=s+t, 
                                             discrete=contract.discrete)
         elif contract.endowment == contract.claims_cost:  # Endowment
-            n = self.max_term(x=x+s+t, t=n)
+            n = self.max_term(x=x+s, t=n)
             A2 = self.endowment_insurance(x, s=s+t, t=n-t, moment=2, 
                                             discrete=contract.discrete)
             A1 = self.endowment_insurance(x, s=s+t, t=n-t, 
@@ -293,11 +293,11 @@ class PolicyValues(Premiums):
             A = self.whole_life_insurance(x, s=s+t, 
                                           discrete=contract.discrete)
         elif contract.endowment == contract.claims_cost:  # Endowment Ins shortcut
-            n = self.max_term(x=x+s+t, t=n)
+            n = self.max_term(x=x+s, t=n)
             A = self.endowment_insurance(x, s=s+t, t=n-t, 
                                             discrete=contract.discrete)
         else:  # Special term insurance
-            n = self.max_term(x=x+s+t, t=n)
+            n = self.max_term(x=x+s, t=n)
             A = self.term_insurance(x, s=s+t, t=n-t, discrete=contract.discrete)
             a = self.temporary_annuity(x, s=s+t, t=n-t,
                                        discrete=contract.discrete)
-- 
2.43.0


From cd33eccae0b47717fda64165ab5bda59696dd82c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:38 +0000
Subject: [PATCH 38/60] fix: terms in a select table extend to its last
 ultimate age, not its last selected age

---
 src/actuarialmath/selectlife.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/actuarialmath/selectlife.py b/src/actuarialmath/selectlife.py
index 1819b80..132a23b 100644
--- a/src/actuarialmath/selectlife.py
+++ b/src/actuarialmath/selectlife.py
@@ -283,6 +283,17 @@ class SelectLife(LifeTable):
                 self._select['l'][self._MINAGE][0] = radix
         return self
 
+    def max_term(self, x: int, t: int, u: int = 0) -> int:
+        """Decrease term t if it exceeds the last ultimate age in the select table
+
+        Args:
+          x : age
+          t : term of insurance or annuity, after deferral period
+          u : term deferred
+        """
+        maxage = self._MAXAGE + self.periods_
+        return maxage - (x + u) if t < 0 or x + t + u > maxage else t
+
     def A_x(self, x: int, s: int = 0, moment: int = 1, discrete: bool = True,
             **kwargs) -> float:
         """Returns insurance value computed from select table
-- 
2.43.0


From af2e8e760306624d155f832aed18dd8ab704aca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:38 +0000
Subject: [PATCH 39/60] fix: values loaded in a select table are used only for
 whole life, by benefit amount, and its annuities are not insurances

---
 src/actuarialmath/selectlife.py | 39 ++++++++++++++++++++++++++++++---
 1 file changed, 36 insertions(+), 3 deletions(-)

diff --git a/src/actuarialmath/selectlife.py b/src/actuarialmath/selectlife.py
index 132a23b..7c58098 100644
--- a/src/actuarialmath/selectlife.py
+++ b/src/actuarialmath/selectlife.py
@@ -303,11 +303,44 @@ class SelectLife(LifeTable):
           s : years after selection
         """
         assert moment == 1 and discrete, "Must be discrete insurance"
-        if self._isin_sel(x, s, 'A'):
+        if self._isin_sel(x, s, 'A') and not kwargs:
             return self._get_sel(x, s, 'A')
         else:
             return super().A_x(x=x, s=s, moment=1, discrete=True, **kwargs)
 
+    def whole_life_insurance(self, x: int, s: int = 0, moment: int = 1,
+                             b: int = 1, discrete: bool = True) -> float:
+        """Returns whole life insurance, from select table if value available
+
+        Args:
+          x : age of selection
+          s : years after selection
+          moment : compute first moment
+          b : amount of benefit
+          discrete : benefit paid year-end (True)
+        """
+        if moment == 1 and discrete and self._isin_sel(x, s, 'A'):
+            return b * self._get_sel(x, s, 'A')
+        return super().whole_life_insurance(x, s=s, moment=moment, b=b,
+                                            discrete=discrete)
+
+    def whole_life_annuity(self, x: int, s: int = 0, b: int = 1,
+                           variance: bool = False,
+                           discrete: bool = True) -> float:
+        """Returns whole life annuity, from select table if value available
+
+        Args:
+          x : age of selection
+          s : years after selection
+          b : annuity benefit amount
+          variance : return EPV (False) or variance (True)
+          discrete : annuity due (True)
+        """
+        if not variance and discrete and self._isin_sel(x, s, 'a'):
+            return b * self._get_sel(x, s, 'a')
+        return super().whole_life_annuity(x, s=s, b=b, variance=variance,
+                                          discrete=discrete)
+
     def a_x(self, x: int, s: int = 0, moment: int = 1, discrete: bool = True,
             **kwargs) -> float:
         """Returns annuity value computed from select table
@@ -317,10 +350,10 @@ class SelectLife(LifeTable):
           s : years after selection
         """
         assert moment == 1 and discrete, "Must be discrete annuity"
-        if self._isin_sel(x, s, 'a'):
+        if self._isin_sel(x, s, 'a') and not kwargs:
             return self._get_sel(x, s, 'a')
         else:
-            return super().A_x(x=x, s=s, moment=1, discrete=True, **kwargs)
+            return super().a_x(x=x, s=s, discrete=True, **kwargs)
 
     def l_x(self, x: int, s: int = 0) -> float:
         """Returns number of lives aged [x]+s computed from select table
-- 
2.43.0


From db5071f8457029f60c22b7b58a86fd0128de215d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:49 +0000
Subject: [PATCH 40/60] fix: m-thly insurance is deferred, and bounded by the
 last age of the life, not of the view

---
 src/actuarialmath/mthly.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/actuarialmath/mthly.py b/src/actuarialmath/mthly.py
index f520300..f3a64d7 100644
--- a/src/actuarialmath/mthly.py
+++ b/src/actuarialmath/mthly.py
@@ -114,15 +114,15 @@ class Mthly(Actuarial):
           moment : return first or second moment
         """
         assert moment in [1, 2]
-        t = self.max_term(x+s, t)
+        t = self.life.max_term(x+s+u, t)
         if self.m > 0:
             A = sum([(benefit(x+s, k/self.m) * self.v_m(k+1))**moment 
                      * self.q_m(x, s_m=s*self.m, u_m=k) 
-                     for k in range((t+u) * self.m)])
+                     for k in range(u * self.m, (t+u) * self.m)])
         else:
-            Z = lambda t: ((benefit(x+s, t+u) * self.life.v_t(t+u))**moment
+            Z = lambda t: ((benefit(x+s, t+u) * self.life.interest.v_t(t+u))**moment
                             * self.life.f(x, s, t+u))
-            A = self.life.integrate(Z, 0, t)
+            A = self.life.integral(Z, 0, t)
         return A
 
     def whole_life_insurance(self, x: int, s: int = 0, moment: int = 1, 
@@ -284,7 +284,7 @@ class Mthly(Actuarial):
 
         # difference of whole life on (x) and deferred whole life on (x+t)
         a = self.whole_life_annuity(x, s=s, b=b)
-        if t < 0 or self.max_term(x+s, t) < t:
+        if t < 0 or self.life.max_term(x+s, t) < t:
             return a
         a_t = self.whole_life_annuity(x, s=s+t, b=b)
         return a - (a_t * self.E_x(x, s=s, t=t))
-- 
2.43.0


From 5da537ef2a5fd79a0faaba8f5accb1bc5e3fcf0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:49 +0000
Subject: [PATCH 41/60] fix: m-thly whole life insurance and annuity could not
 be asked

---
 src/actuarialmath/mthly.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/actuarialmath/mthly.py b/src/actuarialmath/mthly.py
index f3a64d7..562ff15 100644
--- a/src/actuarialmath/mthly.py
+++ b/src/actuarialmath/mthly.py
@@ -140,7 +140,7 @@ class Mthly(Actuarial):
             A2 = self.whole_life_insurance(x, s=s, moment=2)
             A1 = self.whole_life_insurance(x, s=s)
             return self.life.insurance_variance(A2=A2, A1=A1, b=b)
-        return sum(self.A_x(x, s=s, b=b, moment=moment))
+        return self.A_x(x, s=s, t=self.WHOLE, benefit=lambda x,t: b, moment=moment)
 
 
     def term_insurance(self, x: int, s: int = 0, t: int = 1, b: int = 1, 
@@ -264,7 +264,7 @@ class Mthly(Actuarial):
             A1 = self.whole_life_insurance(x, s=s, moment=1)
             A2 = self.whole_life_insurance(x, s=s, moment=2)
             return self.annuity_variance(A2=A2, A1=A1, b=b)
-        return b * (1 - self.whole_life_insurance(x, s=s)) / self.d
+        return b * self.annuity_twin(self.whole_life_insurance(x, s=s))
             
     def temporary_annuity(self, x: int, s: int = 0, t: int = Annuity.WHOLE, 
                           b: int = 1, variance: bool = False) -> float:
-- 
2.43.0


From f4a5dc3c9763a8e9d86f7a492f7aecc1b83c30c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:49 +0000
Subject: [PATCH 42/60] fix: variance of a temporary m-thly annuity follows
 from the endowment insurance

---
 src/actuarialmath/mthly.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/actuarialmath/mthly.py b/src/actuarialmath/mthly.py
index 562ff15..d536165 100644
--- a/src/actuarialmath/mthly.py
+++ b/src/actuarialmath/mthly.py
@@ -278,8 +278,8 @@ class Mthly(Actuarial):
           variance : return first moment (False) or variance (True)
         """
         if variance:  # short cut for variance of temporary life annuity
-            A1 = self.term_insurance(x, s=s, t=t)
-            A2 = self.term_insurance(x, s=s, t=t, moment=2)
+            A1 = self.endowment_insurance(x, s=s, t=t)
+            A2 = self.endowment_insurance(x, s=s, t=t, moment=2)
             return self.annuity_variance(A2=A2, A1=A1, b=b)
 
         # difference of whole life on (x) and deferred whole life on (x+t)
-- 
2.43.0


From 41b2a92c6bbd18cd330674424ff3b036e785fb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:49 +0000
Subject: [PATCH 43/60] fix: continuous immediate annuity takes the benefit
 amount into account

---
 src/actuarialmath/mthly.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/mthly.py b/src/actuarialmath/mthly.py
index d536165..bd3c714 100644
--- a/src/actuarialmath/mthly.py
+++ b/src/actuarialmath/mthly.py
@@ -318,7 +318,7 @@ class Mthly(Actuarial):
         if self.m > 0:
             return (a - ((1 - self.E_x(x, s=s, t=t)) / self.m)) * b
         else:
-            return a
+            return a * b
 
 if __name__ == "__main__":
     from actuarialmath.lifetable import LifeTable
-- 
2.43.0


From c2e1ed7dc17b812d6408131d1a072a25b7a5e750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:49 +0000
Subject: [PATCH 44/60] fix: UDD whole life insurance takes the benefit amount
 into account, and second moments could not be asked

---
 src/actuarialmath/udd.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/actuarialmath/udd.py b/src/actuarialmath/udd.py
index a0c4037..203e246 100644
--- a/src/actuarialmath/udd.py
+++ b/src/actuarialmath/udd.py
@@ -71,10 +71,10 @@ class UDD(Mthly):
         if moment == Annuity.VARIANCE:
             return ((self.whole_life_insurance(x, s=s, moment=2) -
                      self.whole_life_insurance(x, s=s)**2) * b**2)
-        A = self.life.whole_life_insurance(x, s=s, moment=moment)
+        A = self.life.whole_life_insurance(x, s=s, moment=moment, b=b)
         i = self.life.interest.i
         if moment == 2:
-            i = self.interest.double_force(i)
+            i = self.life.interest.double_force(i)
         i_m = self.life.interest.mthly(m=self.m, i=i)        
         return A * i / i_m
 
@@ -122,7 +122,7 @@ class UDD(Mthly):
         A = self.life.term_insurance(x, s=s, t=t, b=b, moment=moment)
         i = self.life.interest.i
         if moment == 2:
-            i = self.interest.double_force(i)
+            i = self.life.interest.double_force(i)
         i_m = self.life.interest.mthly(m=self.m, i=i)        
         return A * (i / i_m)
 
-- 
2.43.0


From 84e671cc0fadd350828b02ab68c3a867b6a2c3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:49 +0000
Subject: [PATCH 45/60] fix: UDD annuity variances and deferred annuities could
 not be asked

---
 src/actuarialmath/udd.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/actuarialmath/udd.py b/src/actuarialmath/udd.py
index 203e246..c8e91c4 100644
--- a/src/actuarialmath/udd.py
+++ b/src/actuarialmath/udd.py
@@ -142,7 +142,7 @@ class UDD(Mthly):
         if variance:  # short cut for variance of whole life
             A1 = self.whole_life_insurance(x, s=s, moment=1)
             A2 = self.whole_life_insurance(x, s=s, moment=2)
-            return (b**2 * (A2 - A1**2) / self.d**2)
+            return self.annuity_variance(A2=A2, A1=A1, b=b)
         a = self.life.whole_life_annuity(x, s=s)
         return b * (a * self.alpha_m - self.beta_m)
             
@@ -161,9 +161,9 @@ class UDD(Mthly):
           >>> UDD(m=12, life=SULT(udd=True)).temporary_annuity(45, t=20)
         """
         if variance:  # short cut for variance of temporary life annuity
-            A1 = self.temporary_insurance(x, s=s, t=t)
-            A2 = self.temporary_insurance(x, s=s, t=t, moment=2)
-            return (b**2 * (A2 - A1**2) / self.d**2)
+            A1 = self.endowment_insurance(x, s=s, t=t)
+            A2 = self.endowment_insurance(x, s=s, t=t, moment=2)
+            return self.annuity_variance(A2=A2, A1=A1, b=b)
 
         # difference of whole life on (x) and deferred whole life on (x+t)
         if t < 0:
@@ -183,7 +183,7 @@ class UDD(Mthly):
           t : term of annuity in years
           b : amount of benefit
         """
-        if self.max_term(x+s, n) < n:
+        if self.life.max_term(x+s, u) < u:
             return 0.
         if variance:  # short cut for variance of temporary life annuity
             A1 = self.endowment_insurance(x, s=s, t=t)
-- 
2.43.0


From 54fc03490002abf30dff92e91f788ac221e2e7a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:10 +0000
Subject: [PATCH 46/60] fix: UDD deferred temporary annuity deducts beta for
 the payments of its own term only

---
 src/actuarialmath/udd.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/actuarialmath/udd.py b/src/actuarialmath/udd.py
index c8e91c4..f13aa51 100644
--- a/src/actuarialmath/udd.py
+++ b/src/actuarialmath/udd.py
@@ -191,7 +191,8 @@ class UDD(Mthly):
             return (b**2 * (A2 - A1**2) / self.d**2)
 
         a = self.life.deferred_annuity(x, s=s, u=u, t=t)
-        return (a * self.alpha_m - self.beta_m * self.E_x(x, s=s, t=u)) * b
+        E = self.E_x(x, s=s, t=u) - self.E_x(x, s=s, t=self.add_term(u, t))
+        return (a * self.alpha_m - self.beta_m * E) * b
 
     @staticmethod
     def interest_frame(i: float = 0.05):
-- 
2.43.0


From a1790637bd163c8bbd3b7240991b2835c995d52e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:10 +0000
Subject: [PATCH 47/60] fix: variance of an m-thly endowment insurance squares
 the benefit amount once

---
 src/actuarialmath/mthly.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/mthly.py b/src/actuarialmath/mthly.py
index bd3c714..d5641e1 100644
--- a/src/actuarialmath/mthly.py
+++ b/src/actuarialmath/mthly.py
@@ -205,7 +205,7 @@ class Mthly(Actuarial):
                                           b=b, moment=2)
             A1 = self.endowment_insurance(x, s=s, t=t, endowment=endowment, 
                                           b=b)
-            return self.life.insurance_variance(A2=A2, A1=A1, b=b)
+            return self.life.insurance_variance(A2=A2, A1=A1)
         E = self.E_x(x, s=s, t=t, moment=moment)
         A = self.term_insurance(x, s=s, t=t, b=b, moment=moment)
         return A + E * (b if endowment < 0 else endowment)**moment
-- 
2.43.0


From 75d0f57c4d1a081204c73dc94c210d3b2cf08a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:39 +0000
Subject: [PATCH 48/60] fix: terms in a select table extend to the last
 ultimate age it has mortality for

---
 src/actuarialmath/selectlife.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/actuarialmath/selectlife.py b/src/actuarialmath/selectlife.py
index 7c58098..48d886b 100644
--- a/src/actuarialmath/selectlife.py
+++ b/src/actuarialmath/selectlife.py
@@ -291,7 +291,10 @@ class SelectLife(LifeTable):
           t : term of insurance or annuity, after deferral period
           u : term deferred
         """
-        maxage = self._MAXAGE + self.periods_
+        last = [age + self.periods_ + (col == 'q') for col in ['l', 'q'] 
+                for age, row in self._select[col].items() 
+                if row.get(self.periods_) is not None]
+        maxage = max(last) if last else self._MAXAGE
         return maxage - (x + u) if t < 0 or x + t + u > maxage else t
 
     def A_x(self, x: int, s: int = 0, moment: int = 1, discrete: bool = True,
-- 
2.43.0


From d30d915fba0da07b7e2b0ab50d95de15bfce1e94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:11 +0000
Subject: [PATCH 49/60] fix: solve() bisects when the solver stalls although
 the range brackets the root

---
 src/actuarialmath/actuarial.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/actuarialmath/actuarial.py b/src/actuarialmath/actuarial.py
index 922b14a..157204f 100644
--- a/src/actuarialmath/actuarial.py
+++ b/src/actuarialmath/actuarial.py
@@ -97,12 +97,19 @@ class Actuarial(object):
             return x
         else:     # solve root
             f = lambda x: fun(x) - target
+            ends = None
             if isinstance(grid, (list, tuple)):
+                ends = min(grid), max(grid)
                 grid = min([(abs(f(x)), x)    # guess can be list of guesses
                             for x in np.linspace(min(grid), max(grid), 5)])[1]
             output = scipy.optimize.fsolve(f, [grid], full_output=True)
-            fun(output[0][0])   # call again with final in case want side effect
-            return output[0][0]
+            x = output[0][0]
+            if ends:            # bisect if stuck though range brackets the root
+                a, b = f(ends[0]), f(ends[1])
+                if a * b < 0 and abs(f(x)) > 1e-6 * max(abs(a), abs(b)):
+                    x = scipy.optimize.brentq(f, *ends)
+            fun(x)              # call again with final in case want side effect
+            return x
 
     def add_term(self, t: int, n: int) -> int:
         """Add two terms, either term may be Whole Life
-- 
2.43.0


From 8bdb428054535c28df622f6010d8c607a9c79267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:11 +0000
Subject: [PATCH 50/60] fix: life tables integrate year by year, since
 densities jump at whole ages

---
 src/actuarialmath/lifetable.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/actuarialmath/lifetable.py b/src/actuarialmath/lifetable.py
index 4f6f399..e8c682f 100644
--- a/src/actuarialmath/lifetable.py
+++ b/src/actuarialmath/lifetable.py
@@ -6,7 +6,7 @@ import math
 import numpy as np
 import matplotlib.pyplot as plt
 import pandas as pd
-from typing import Dict
+from typing import Callable, Dict
 from actuarialmath import Reserves
 
 class LifeTable(Reserves):
@@ -276,6 +276,20 @@ class LifeTable(Reserves):
         # SULT shortcut: t_E_x(moment=2) = t_E_x(moment=1) * v**t
         return self.interest.v_t(t)**(moment-1) * self.E_x(x, s=s, t=t)
 
+    @staticmethod
+    def integral(fun: Callable[[float], float], 
+                 lower: float, upper: float) -> float:
+        """Compute integral year by year, since densities jump at whole ages
+
+        Args:
+          fun : function to integrate
+          lower : lower limit
+          upper : upper limit
+        """
+        years = range(math.floor(lower) + 1, math.ceil(upper))
+        return sum([Reserves.integral(fun, a, b) for a, b in 
+                    zip([lower, *years], [*years, upper])])
+
     def __getitem__(self, col: str) -> Dict[int, float]:
         """Returns a column of the life table
 
-- 
2.43.0


From 246a1431b371897d253c9d691228b97f9acb5481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:12 +0000
Subject: [PATCH 51/60] fix: continuous annuity on a selected life uses its
 select survival

---
 src/actuarialmath/annuity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/annuity.py b/src/actuarialmath/annuity.py
index ef2e2cd..af624c5 100644
--- a/src/actuarialmath/annuity.py
+++ b/src/actuarialmath/annuity.py
@@ -33,7 +33,7 @@ class Annuity(Insurance):
                          * self.p_x(x, s=s, t=k) for k in range(int(u), int(t+u))])
             else:   # use continuous first principles
                 Y = lambda t: (benefit(x+s, t+u) * self.interest.v_t(t+u) 
-                               * self.S(x, 0, t=t+u))
+                               * self.S(x, s, t=t+u))
                 a = self.integral(Y, 0, t)
         except Exception:
             raise Exception("Failed to numerically integrate EPV of annuity")
-- 
2.43.0


From cf79f715019d3878b6ed3da4b508ffb93102ad38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:12 +0000
Subject: [PATCH 52/60] fix: Y_to_t() at zero interest returns the time instead
 of dividing by zero

---
 src/actuarialmath/annuity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/annuity.py b/src/actuarialmath/annuity.py
index af624c5..258e7f4 100644
--- a/src/actuarialmath/annuity.py
+++ b/src/actuarialmath/annuity.py
@@ -309,7 +309,7 @@ class Annuity(Insurance):
         Args:
           Y : Present value of benefits paid
         """
-        if self.interest.v == 0.:
+        if self.isclose(self.interest.delta):
             return Y
         else:
             return math.log(1 - self.interest.delta*Y) / math.log(self.interest.v)
-- 
2.43.0


From 105aa256472285535711d8204fca0d2f86423e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:12 +0000
Subject: [PATCH 53/60] fix: Z_t() and Y_t() search the time of death, not
 ages, within the table

---
 src/actuarialmath/annuity.py   | 4 ++--
 src/actuarialmath/insurance.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/actuarialmath/annuity.py b/src/actuarialmath/annuity.py
index 258e7f4..94436c9 100644
--- a/src/actuarialmath/annuity.py
+++ b/src/actuarialmath/annuity.py
@@ -258,8 +258,8 @@ class Annuity(Insurance):
 
         """
         assert prob < 1.0
-        t = self.solve(lambda t: self.S(x, 0, t), target=1. - prob,
-                       grid=[self._MINAGE, self._MAXAGE])
+        S = lambda t: self.S(x, 0, t) if t >= 0 else 1 - t  # solver may step < 0
+        t = self.solve(S, target=1. - prob, grid=[0, self._MAXAGE - x])
         return math.ceil(t) if discrete else t   # should be opposite of insurance?
 
     def Y_x(self, x, s: int = 0, t: float = 1., discrete: bool = True) -> float:
diff --git a/src/actuarialmath/insurance.py b/src/actuarialmath/insurance.py
index 629fc28..4379d53 100644
--- a/src/actuarialmath/insurance.py
+++ b/src/actuarialmath/insurance.py
@@ -275,8 +275,8 @@ class Insurance(Fractional):
           >>> t = life.Z_t(x=20, prob=0.8, discrete=True)
         """
         assert prob < 1.0  # Note survival function and PV both decreasing in t
-        t = self.solve(lambda t: self.S(x, 0, t),
-                       target=prob, grid=[self._MINAGE, self._MAXAGE])
+        S = lambda t: self.S(x, 0, t) if t >= 0 else 1 - t  # solver may step < 0
+        t = self.solve(S, target=prob, grid=[0, self._MAXAGE - x])
         return math.floor(t) if discrete else t       # opposite of annuity
 
     def Z_from_t(self, t: float, discrete: bool = True) -> float:
-- 
2.43.0


From 640c42be0f946d469dfadb084cc32a4653b68d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:49 +0000
Subject: [PATCH 54/60] fix: a loss at the end of a contract's term pays the
 endowment, not the death benefit

---
 src/actuarialmath/policyvalues.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/actuarialmath/policyvalues.py b/src/actuarialmath/policyvalues.py
index 368d8e9..ed50ad6 100644
--- a/src/actuarialmath/policyvalues.py
+++ b/src/actuarialmath/policyvalues.py
@@ -322,13 +322,12 @@ class PolicyValues(Premiums):
         """
         c = contract or Contract()
         k = math.floor(t) if c.discrete else t
-        if c.T > 0 and k >= c.T:   # if endowment insurance and t is beyond term
-            t = c.T
-            endowment = c.endowment * self.Z_from_t(t)
+        if c.T > 0 and k >= c.T:   # survives term: T premiums, then any endowment
+            t = c.T - 1 if c.discrete else c.T
+            benefits = c.endowment * self.interest.v_t(c.T)
         else:
-            endowment = 0
-        return ((c.claims_cost * self.Z_from_t(t, discrete=c.discrete))
-                + endowment
+            benefits = c.claims_cost * self.Z_from_t(t, discrete=c.discrete)
+        return (benefits
                 + c.initial_cost
                 - (c.renewal_profit * self.Y_from_t(t, discrete=c.discrete)))
 
-- 
2.43.0


From 8f1b2c636328c56d2489140e220f1701cdf34681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:27 +0000
Subject: [PATCH 55/60] fix: derivatives evaluate functions one value at a
 time; density from lives is per life at the start; expectations of law models
 integrate

---
 src/actuarialmath/actuarial.py     | 3 ++-
 src/actuarialmath/mortalitylaws.py | 2 +-
 src/actuarialmath/survival.py      | 2 +-
 3 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/actuarialmath/actuarial.py b/src/actuarialmath/actuarial.py
index 157204f..2d5d60c 100644
--- a/src/actuarialmath/actuarial.py
+++ b/src/actuarialmath/actuarial.py
@@ -69,7 +69,8 @@ class Actuarial(object):
         Examples:
           >>> print(Actuarial.derivative(fun=lambda x: x/50, x=25))
         """
-        return float(scipy.differentiate.derivative(fun, x=x, initial_step=1, maxiter=1, preserve_shape=True).df)
+        f = np.vectorize(fun, otypes=[float])   # one value at a time
+        return float(scipy.differentiate.derivative(f, x=x, initial_step=1, maxiter=1, preserve_shape=True).df)
         # return scipy.misc.derivative(fun, x0=x, dx=1)
 
     @staticmethod
diff --git a/src/actuarialmath/mortalitylaws.py b/src/actuarialmath/mortalitylaws.py
index 0c5bfb9..5763d04 100644
--- a/src/actuarialmath/mortalitylaws.py
+++ b/src/actuarialmath/mortalitylaws.py
@@ -82,7 +82,7 @@ class MortalityLaws(Reserves):
         """
         if t < 0:
             t = self._MAXAGE - (x + s + r)
-        return self.integrate(lambda t: self.S(x, s+r, t), 0., float(t))
+        return self.integral(lambda t: self.S(x, s+r, t), 0., float(t))
 
 class Beta(MortalityLaws):
     """Shortcuts with beta distribution of deaths (is Uniform when alpha = 1)
diff --git a/src/actuarialmath/survival.py b/src/actuarialmath/survival.py
index 911b4bd..40bd472 100644
--- a/src/actuarialmath/survival.py
+++ b/src/actuarialmath/survival.py
@@ -56,7 +56,7 @@ class Survival(Life):
 
         def f_from_l(x: int, s, t: float) -> float:
             """Derive lifetime density function from number of lives"""
-            return -self.derivative(lambda t: self.l(x, s+t), t)
+            return -self.derivative(lambda t: self.l(x, s+t), t) / self.l(x, s)
 
         def mu_from_S(x: int, t: float) -> float:
             """Derive force of mortality from survival probability"""
-- 
2.43.0


From 4e7ef852799912b972d0ce00a4b2cce80ba55281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:07 +0000
Subject: [PATCH 56/60] fix: annuity_twin() refuses a model without a constant
 rate of interest instead of ending in a type error

---
 src/actuarialmath/annuity.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/actuarialmath/annuity.py b/src/actuarialmath/annuity.py
index 94436c9..25da463 100644
--- a/src/actuarialmath/annuity.py
+++ b/src/actuarialmath/annuity.py
@@ -71,6 +71,7 @@ class Annuity(Insurance):
           >>> life.annuity_twin(A=0.05879)
         """
         interest = (self.interest.d if discrete else self.interest.delta)
+        assert interest is not None, "twin requires a constant rate of interest"
         return ((1 - A) / interest) if interest else 1 - A
 
     def insurance_twin(self, a: float, moment: int = 1, 
-- 
2.43.0


From 359818fa15f6bf9fc752b87df8c6c26470cc28c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:07 +0000
Subject: [PATCH 57/60] fix: pure endowments: at once pays the endowment with
 no variance, and A_x() raises the endowment to the moment

---
 src/actuarialmath/insurance.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/actuarialmath/insurance.py b/src/actuarialmath/insurance.py
index 4379d53..75a6ae9 100644
--- a/src/actuarialmath/insurance.py
+++ b/src/actuarialmath/insurance.py
@@ -29,8 +29,8 @@ class Insurance(Fractional):
         """
         if t < 0:  # t infinite => EPV(t) = 0
             return 0   
-        if t == 0:    # t = 0 => EPV(0) = 1
-            return 1
+        if t == 0:    # t = 0 => paid at once for certain
+            return 0 if moment == self.VARIANCE else endowment**moment
         t = self.max_term(x+s, t)
         t_p_x = self.p_x(x, s=s, t=t)
         if moment == self.VARIANCE:  # Bernoulli shortcut for variance
@@ -64,7 +64,7 @@ class Insurance(Fractional):
         """
         assert moment >= 1
         if t >=0 and endowment > 0:
-            E = self.E_x(x, s=s, t=t+u, moment=moment) * endowment
+            E = self.E_x(x, s=s, t=t+u, moment=moment) * endowment**moment
         else:
             E = 0
         t = self.max_term(x+s+u, t=t)
-- 
2.43.0


From 75cb236476d7b3d17a899599b6701b458c1162cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:07 +0000
Subject: [PATCH 58/60] fix: constant force: variance of pure endowments and of
 limited lifetimes, and the benefit of continuous whole life insurance

---
 src/actuarialmath/constantforce.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/actuarialmath/constantforce.py b/src/actuarialmath/constantforce.py
index 8f5cb3a..2d26e23 100644
--- a/src/actuarialmath/constantforce.py
+++ b/src/actuarialmath/constantforce.py
@@ -43,7 +43,7 @@ class ConstantForce(MortalityLaws):
           moment : first (1) or second (2) moment
         """
         if not curtate:    # Var[Tx] = 1/mu^2, E[Tx] = 1/mu
-            if moment == MortalityLaws.VARIANCE:
+            if moment == MortalityLaws.VARIANCE and t < 0:
                 return 1. / self.mu_**2   # shortcut
             elif moment == 1:
                 e = 1 / self.mu_  # infinite n case shortcut
@@ -64,9 +64,12 @@ class ConstantForce(MortalityLaws):
           moment : compute first or second moment
         """
         if t == 0:
-            return 1.
+            return 0. if moment == self.VARIANCE else float(endowment**moment)
         if t < 0:
             return 0.
+        if moment == self.VARIANCE:
+            return (self.E_x(x, s=s, t=t, endowment=endowment, moment=2)
+                    - self.E_x(x, s=s, t=t, endowment=endowment)**2)
         delta = moment * self.interest.delta   # multiply force of interest
         return math.exp(-(self.mu_ + delta) * t) * endowment**moment
 
@@ -133,7 +136,8 @@ class ConstantForce(MortalityLaws):
         """
         if moment > 0 and not discrete:
             delta = moment * self.interest.delta   # multiply force of interest
-            return self.mu_ / (self.mu_ + delta) if self.mu_ > 0 else 0.
+            return (b**moment * self.mu_ / (self.mu_ + delta)
+                    if self.mu_ > 0 else 0.)
         return super().whole_life_insurance(x, s=s, moment=moment, b=b,
                                             discrete=discrete)
 
-- 
2.43.0


From 68bcfcd8211f71f4105a9078d19abc5c96ed361f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:07 +0000
Subject: [PATCH 59/60] fix: uniform and beta laws: nobody survives omega,
 limited expectations and variances, and moments, variance and terms of
 uniform insurance

---
 src/actuarialmath/mortalitylaws.py | 60 +++++++++++++++++-------------
 1 file changed, 34 insertions(+), 26 deletions(-)

diff --git a/src/actuarialmath/mortalitylaws.py b/src/actuarialmath/mortalitylaws.py
index 5763d04..fd3a3ee 100644
--- a/src/actuarialmath/mortalitylaws.py
+++ b/src/actuarialmath/mortalitylaws.py
@@ -106,13 +106,17 @@ class Beta(MortalityLaws):
             return alpha / (omega - (x+s))
 
         def _l(x: int, s: float) -> float:
-            return radix * (omega - (x+s))**alpha
+            return radix * max(0., omega - (x+s))**alpha
 
         def _S(x: int, s,t : float) -> float:
+            if x + s + t >= omega:   # none survive beyond omega
+                return 0.
             return ((omega-(x+s+t))/(omega-(x+s)))**alpha
 
         def _f(x: int, s,t : float) -> float:
-            return alpha / (omega - (x+s))
+            if x + s + t >= omega:
+                return 0.
+            return _S(x, s, t) * _mu(x, s+t)
 
         self.set_survival(mu=_mu, l=_l, S=_S, f=_f, minage=0, maxage=omega)
         self.omega_ = omega  # store omega parameter
@@ -127,31 +131,33 @@ class Beta(MortalityLaws):
           t : limited at t years
         """
         e = (self.omega_ - (x+s)) / (self.alpha_ + 1)
-        if t > 0 and self.max_term(x+s, t) > t: # temporary expectation
+        if t >= 0 and x + s + t < self.omega_:  # temporary expectation
             return e - self.p_r(x, s=s, t=t) * self.e_r(x, s=s+t)
         return e   # complete expectation
 
     def e_x(self, x: int, s: int = 0, n: int = MortalityLaws.WHOLE, 
-          curtate: bool = False, moment: int = 1) -> float:
+          curtate: bool = False, moment: int = 1,
+          t: int | None = None) -> float:
         """Shortcut formula for complete expectation
 
         Args:
           x : age of selection
           s : years after selection
           n : death within next n fractional years
-          t : limited at t years
+          t : limited at t years (same as n)
           curtate : whether curtate (True) or complete (False) lifetime
           moment : whether to compute first (1) or second (2) moment
         """
+        n = n if t is None else t
         if n == 0:
             return 0
         if not curtate:
             if moment == 1:
                 return self.e_r(x, s=s, t=n)
             if moment == self.VARIANCE and n < 0: # shortcut for complete variance
-                return ((self.omega_ - (x + s))
-                        / ((self.alpha_ + 1)**2 * (self.alpha_ + 1)))
-        return super().e_x(x=x, s=s, n=n, curtate=curtate, moment=moment)
+                return ((self.omega_ - (x + s))**2 * self.alpha_
+                        / ((self.alpha_ + 1)**2 * (self.alpha_ + 2)))
+        return super().e_x(x=x, s=s, t=n, curtate=curtate, moment=moment)
 
 class Uniform(Beta):
     """Shortcuts with uniform distribution of deaths aka DeMoivre's Law
@@ -181,19 +187,19 @@ class Uniform(Beta):
         if moment in [1, self.VARIANCE] and not curtate:
             if t < 0:
                 if moment == self.VARIANCE:
-                    return (self.omega_ - x)**2 / 12  # complete shortcut
+                    return (self.omega_ - (x+s))**2 / 12  # complete shortcut
                 else:
-                    return (self.omega_ - x) / 2
+                    return (self.omega_ - (x+s)) / 2
             elif moment == 1:         # temporary expectation shortcut
                 # (Pr[die within n years] * n/2) plus (Pr[survive n years] * n)
                 t = self.max_term(x+s, t)
-                t_p_x = t / (self.omega_ - x)
-                return t_p_x * t  + (1 - t_p_x) * (t / 2)
+                t_q_x = t / (self.omega_ - (x+s))
+                return t_q_x * (t / 2) + (1 - t_q_x) * t
         return super().e_x(x=x, s=s, t=t, curtate=curtate, moment=moment)
 
     
     def E_x(self, x: int, s: int = 0, t: int = Beta.WHOLE, 
-            moment: int = 1) -> float:
+            endowment: int = 1, moment: int = 1) -> float:
         """Shortcut for Pure Endowment
 
         Args:
@@ -203,17 +209,16 @@ class Uniform(Beta):
           endowment : amount of pure endowment
           moment : compute first or second moment
         """
-        assert moment > 0
         if t == 0:
-            return 1.
+            return 0. if moment == self.VARIANCE else float(endowment**moment)
         if t < 0:
             return 0.
         t = self.max_term(x+s, t)
-        t_p_x = (self.omega_ - x - t) / (self.omega_ - x)
+        t_p_x = (self.omega_ - (x+s) - t) / (self.omega_ - (x+s))
         if moment == self.VARIANCE:  # Bernoulli shortcut for variance
-            return self.interest.v_t(t)**2 * t_p_x * (1 - t_p_x)
-        return (self.interest.v_t(t)**moment * (self.omega_ - x - t) 
-                / (self.omega_ - x))
+            return (self.interest.v_t(t)**2 * t_p_x * (1 - t_p_x)
+                    * endowment**2)
+        return (endowment * self.interest.v_t(t))**moment * t_p_x
 
     def whole_life_insurance(self, x: int, s: int = 0, moment: int = 1, 
                              b: int = 1, discrete: bool = True) -> float:
@@ -232,7 +237,7 @@ class Uniform(Beta):
                 return (self.whole_life_insurance(x, s=s, b=b, moment=2, 
                                                   discrete=False) -
                         self.whole_life_insurance(x, s=s, b=b, moment=1, 
-                                                    discrete=False)**2) * b**2
+                                                    discrete=False)**2)
             return self.term_insurance(x, s=s, t=self.omega_-(x+s), b=b,
                                        moment=moment, discrete=False)
         return super().whole_life_insurance(x, s=s, moment=moment, b=b,
@@ -250,16 +255,19 @@ class Uniform(Beta):
           moment : compute first or second moment
           discrete : benefit paid year-end (True) or moment of death (False)
         """
-        if not discrete and moment in [1, Beta.VARIANCE]:
+        if not discrete:
             if moment == Beta.VARIANCE:
                 return (self.term_insurance(x, s=s, b=b, t=t, moment=2, 
                                             discrete=False) -
                         self.term_insurance(x, s=s, b=b, t=t, 
-                                            discrete=False)**2) * b**2
-            t = self.max_term(x+s, t)                                        
-            return (b * (1 - self.interest.v_t(t)) 
-                    / (self.interest.delta * (self.omega_ - (x+s))))
-        return super().term_insurance(x, s=s, moment=moment, b=b, 
+                                            discrete=False)**2)
+            t = self.max_term(x+s, t)
+            if t <= 0:
+                return 0.
+            delta = moment * self.interest.delta   # multiply force of interest
+            a = (1 - math.exp(-delta * t)) / delta if delta else t
+            return b**moment * a / (self.omega_ - (x+s))
+        return super().term_insurance(x, s=s, t=t, moment=moment, b=b, 
                                       discrete=discrete)
 
 class Makeham(MortalityLaws):
-- 
2.43.0


From 1b6308da6e0d7ae85b1a8ac3bd29dc2b40dd63df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:35 +0000
Subject: [PATCH 60/60] fix: L_to_t() bisects when the search for the least
 difference strays though the loss passes the target within the table

---
 src/actuarialmath/actuarial.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/actuarialmath/actuarial.py b/src/actuarialmath/actuarial.py
index 2d5d60c..9e1db1a 100644
--- a/src/actuarialmath/actuarial.py
+++ b/src/actuarialmath/actuarial.py
@@ -94,6 +94,11 @@ class Actuarial(object):
         if mad:   # minimize absolute difference
             f = lambda t: abs(fun(t) - target)
             x = scipy.optimize.minimize_scalar(f, grid).x
+            a, b = fun(min(grid)) - target, fun(max(grid)) - target
+            if a * b < 0 and f(x) > 1e-6 * max(abs(a), abs(b)):
+                # bisect if search strayed though range brackets the target
+                y = scipy.optimize.brentq(lambda t: fun(t) - target, min(grid), max(grid))
+                x = min(x, y, key=f)
             fun(x)              # call again with final in case want side effect
             return x
         else:     # solve root
-- 
2.43.0

