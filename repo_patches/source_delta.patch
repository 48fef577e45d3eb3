From 1a57132d9c890fc9d390b80eabfaae10f12d9c84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:27 +0000
Subject: [PATCH 01/88] fix: E_x at t=0 applies endowment amount and moment

---
 src/actuarialmath/insurance.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/actuarialmath/insurance.py b/src/actuarialmath/insurance.py
index 1973599..41487a9 100644
--- a/src/actuarialmath/insurance.py
+++ b/src/actuarialmath/insurance.py
@@ -29,8 +29,8 @@ class Insurance(Fractional):
         """
         if t < 0:  # t infinite => EPV(t) = 0
             return 0   
-        if t == 0:    # t = 0 => EPV(0) = 1
-            return 1
+        if t == 0:    # t = 0 => endowment is certain
+            return 0 if moment == self.VARIANCE else endowment**moment
         t = self.max_term(x+s, t)
         t_p_x = self.p_x(x, s=s, t=t)
         if moment == self.VARIANCE:  # Bernoulli shortcut for variance
-- 
2.43.0


From 9f97953e6b3d2ffe763296ea7b3a060dce36418f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:27 +0000
Subject: [PATCH 02/88] fix: A_x raises the endowment amount to the requested
 moment

---
 src/actuarialmath/insurance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/insurance.py b/src/actuarialmath/insurance.py
index 41487a9..031b59f 100644
--- a/src/actuarialmath/insurance.py
+++ b/src/actuarialmath/insurance.py
@@ -64,7 +64,7 @@ class Insurance(Fractional):
         """
         assert moment >= 1
         if t >=0 and endowment > 0:
-            E = self.E_x(x, s=s, t=t+u, moment=moment) * endowment
+            E = self.E_x(x, s=s, t=t+u, moment=moment) * endowment**moment
         else:
             E = 0
         t = self.max_term(x+s+u, t=t)
-- 
2.43.0


From 7417a7fd7eb5ec4a693ad0dd0f25461187e8215d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:27 +0000
Subject: [PATCH 03/88] fix: whole life insurance variance squared the first
 moment twice

---
 src/actuarialmath/insurance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/insurance.py b/src/actuarialmath/insurance.py
index 031b59f..58d6388 100644
--- a/src/actuarialmath/insurance.py
+++ b/src/actuarialmath/insurance.py
@@ -108,7 +108,7 @@ class Insurance(Fractional):
         """
         if moment == self.VARIANCE:
             A2 = self.whole_life_insurance(x, s=s, moment=2, discrete=discrete)
-            A1 = self.whole_life_insurance(x, s=s, discrete=discrete)**2
+            A1 = self.whole_life_insurance(x, s=s, discrete=discrete)
             return self.insurance_variance(A2=A2, A1=A1, b=b)
         return self.A_x(x, s=s, t=self.WHOLE, benefit=lambda x,t: b, 
                         moment=moment, discrete=discrete)
-- 
2.43.0


From b1685399d1d0aec633f8f75317bf8d41ba6cf507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:27 +0000
Subject: [PATCH 04/88] fix: term insurance variance overwrote the second
 moment

---
 src/actuarialmath/insurance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/insurance.py b/src/actuarialmath/insurance.py
index 58d6388..c686dbc 100644
--- a/src/actuarialmath/insurance.py
+++ b/src/actuarialmath/insurance.py
@@ -131,7 +131,7 @@ class Insurance(Fractional):
         """
         if moment == self.VARIANCE:
             A2 = self.term_insurance(x, s=s, t=t, moment=2, discrete=discrete)
-            A2 = self.term_insurance(x, s=s, t=t, discrete=discrete)**2
+            A1 = self.term_insurance(x, s=s, t=t, discrete=discrete)
             return self.insurance_variance(A2=A2, A1=A1, b=b)
         A = self.whole_life_insurance(x, s=s, b=b, moment=moment, 
                                       discrete=discrete)
-- 
2.43.0


From 39b42da3655ecc20cb57873c780db69890adb197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:27 +0000
Subject: [PATCH 05/88] fix: endowment insurance variance scaled by benefit
 twice

---
 src/actuarialmath/insurance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/insurance.py b/src/actuarialmath/insurance.py
index c686dbc..fc8c88e 100644
--- a/src/actuarialmath/insurance.py
+++ b/src/actuarialmath/insurance.py
@@ -195,7 +195,7 @@ class Insurance(Fractional):
                                           b=b, moment=2, discrete=discrete)
             A1 = self.endowment_insurance(x, s=s, t=t, endowment=endowment,
                                           b=b, discrete=discrete)
-            return self.insurance_variance(A2=A2, A1=A1, b=b)
+            return self.insurance_variance(A2=A2, A1=A1)
         E = self.E_x(x, s=s, t=t, moment=moment)
         A = self.term_insurance(x, s=s, t=t, b=b, moment=moment,
                                 discrete=discrete)
-- 
2.43.0


From 9ff6cf31548e694ed6a27eef0a8c76d1506c1fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:27 +0000
Subject: [PATCH 06/88] fix: decreasing insurance ignored years after selection

---
 src/actuarialmath/insurance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/insurance.py b/src/actuarialmath/insurance.py
index fc8c88e..90585f4 100644
--- a/src/actuarialmath/insurance.py
+++ b/src/actuarialmath/insurance.py
@@ -236,7 +236,7 @@ class Insurance(Fractional):
         >>> life.decreasing_insurance(x=0, t=10)
         """
         assert t > 0  # decreasing must be term insurance
-        A = self.term_insurance(x, t=t, b=b, discrete=discrete)
+        A = self.term_insurance(x, s=s, t=t, b=b, discrete=discrete)
         n = t + int(discrete)   #  (DA)_x:n + (IA)_x:n = (n+1) A^1_x:n
         return A*n - self.increasing_insurance(x, s=s, t=t, b=b, 
                                                discrete=discrete)
-- 
2.43.0


From c538705e317a177a875c0ae797f7292e20cee04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:27 +0000
Subject: [PATCH 07/88] fix: continuous annuity ignored years after selection

---
 src/actuarialmath/annuity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/annuity.py b/src/actuarialmath/annuity.py
index a16da37..a08cde8 100644
--- a/src/actuarialmath/annuity.py
+++ b/src/actuarialmath/annuity.py
@@ -33,7 +33,7 @@ class Annuity(Insurance):
                          * self.p_x(x, s=s, t=k) for k in range(int(u), int(t+u))])
             else:   # use continuous first principles
                 Y = lambda t: (benefit(x+s, t+u) * self.interest.v_t(t+u) 
-                               * self.S(x, 0, t=t+u))
+                               * self.S(x, s, t=t+u))
                 a = self.integral(Y, 0, t)
         except:
             raise Exception("Failed to numerically integrate EPV of annuity")
-- 
2.43.0


From f15bdc3c14f07fba8f450e2c612c06d6925c49a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:27 +0000
Subject: [PATCH 08/88] fix: whole life annuity dropped benefit amount at zero
 interest

---
 src/actuarialmath/annuity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/annuity.py b/src/actuarialmath/annuity.py
index a08cde8..41bbbd0 100644
--- a/src/actuarialmath/annuity.py
+++ b/src/actuarialmath/annuity.py
@@ -131,7 +131,7 @@ class Annuity(Insurance):
             A = self.whole_life_insurance(x, s=s, discrete=discrete)
             return b * (1 - A) / interest if interest > 0 else b * (1 - A)
         else:  # when interest=1, annuity is expected life time (+1 if discrete)
-            return discrete + self.e_x(x=x, s=s, curtate=discrete)
+            return b * (discrete + self.e_x(x=x, s=s, curtate=discrete))
 
             
     def temporary_annuity(self, x: int, s: int = 0, t: int = Insurance.WHOLE, 
-- 
2.43.0


From ec69d4384a2f2dc58228db63293ea3ae423e1016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:27 +0000
Subject: [PATCH 09/88] fix: certain life annuity dropped benefit amount in
 certain period

---
 src/actuarialmath/annuity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/annuity.py b/src/actuarialmath/annuity.py
index 41bbbd0..271bc56 100644
--- a/src/actuarialmath/annuity.py
+++ b/src/actuarialmath/annuity.py
@@ -202,7 +202,7 @@ class Annuity(Insurance):
         if u < 0:
             return 0.
         a = self.deferred_annuity(x, s=s, u=u, t=t, b=b, discrete=discrete)
-        return self.interest.annuity(u, m=int(discrete)) + a
+        return b * self.interest.annuity(u, m=int(discrete)) + a
 
     def increasing_annuity(self, x: int, s: int = 0, t: int = Insurance.WHOLE, 
                            b: int = 1, discrete: bool = True) -> float:
-- 
2.43.0


From 9df9ede741f1edc31c14887aa100029b9e35b5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:27 +0000
Subject: [PATCH 10/88] fix: continuous increasing annuity pays at rate t at
 time t

---
 src/actuarialmath/annuity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/annuity.py b/src/actuarialmath/annuity.py
index 271bc56..7932257 100644
--- a/src/actuarialmath/annuity.py
+++ b/src/actuarialmath/annuity.py
@@ -219,7 +219,7 @@ class Annuity(Insurance):
           >>> life.increasing_annuity(x=24, t=10)
         """
         t = self.max_term(x+s, t=t)
-        benefit = lambda x, s: b * (s + 1) # increasing benefit
+        benefit = lambda x, s: b * (s + int(discrete)) # increasing benefit
         return self.a_x(x, s=s, benefit=benefit, t=t, discrete=discrete)
 
     def decreasing_annuity(self, x: int, s: int = 0, t: int = 0, 
-- 
2.43.0


From 879704c861646cd5cfb7368f05b3704bdc83f460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:27 +0000
Subject: [PATCH 11/88] fix: life annuity variance at zero interest is that of
 the number of payments

---
 src/actuarialmath/annuity.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/actuarialmath/annuity.py b/src/actuarialmath/annuity.py
index 7932257..3f543e0 100644
--- a/src/actuarialmath/annuity.py
+++ b/src/actuarialmath/annuity.py
@@ -123,6 +123,9 @@ class Annuity(Insurance):
           >>> life.whole_life_annuity(x=24, variance=True, due=False)
         """
         interest = self.interest.d if discrete else self.interest.delta
+        if variance and interest == 0:  # total payments is b * lifetime
+            return b**2 * self.e_x(x, s=s, curtate=discrete,
+                                   moment=self.VARIANCE)
         if variance:  # short cut for variance of whole life
             A1 = self.whole_life_insurance(x, s=s, moment=1, discrete=discrete)
             A2 = self.whole_life_insurance(x, s=s, moment=2, discrete=discrete)
@@ -150,6 +153,12 @@ class Annuity(Insurance):
         Examples:
           >>> life.temporary_annuity(x=24, t=10)
         """
+        if variance and self.interest.delta == 0:  # b * limited lifetime
+            if t == 0:
+                return 0.
+            t = self.add_term(t, -int(discrete))  # first payment is certain
+            return b**2 * self.e_x(x, s=s, t=t, curtate=discrete,
+                                   moment=self.VARIANCE)
         if variance:  # short cut for variance of temporary life annuity
             A1 = self.endowment_insurance(x, s=s, t=t, discrete=discrete)
             A2 = self.endowment_insurance(x, s=s, t=t, moment=2, 
-- 
2.43.0


From fed3e2eb93a73e937a51e3d4a122eb010053b748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:49 +0000
Subject: [PATCH 12/88] fix: m-thly conversion accepts a zero rate

---
 src/actuarialmath/interest.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/actuarialmath/interest.py b/src/actuarialmath/interest.py
index e160a10..748a470 100644
--- a/src/actuarialmath/interest.py
+++ b/src/actuarialmath/interest.py
@@ -115,13 +115,13 @@ class Interest(Actuarial):
           >>> print("Convert annual-pay to mthly:", Interest.mthly(i=i, m=12))
         """
         assert m >= 0, "mthly frequency must be non-negative"
-        if i > 0:
+        if i >= 0:
             return m * ((1 + i)**(1 / m) - 1) if m else math.log(1+i)
-        elif d > 0:
+        elif d >= 0:
             return m * (1 - (1 - d)**(1 / m)) if m else -math.log(1-d)
-        elif i_m > 0:
+        elif i_m >= 0:
             return (1 + (i_m / m))**m - 1
-        elif d_m > 0:
+        elif d_m >= 0:
             return 1 - (1 - (d_m / m))**m
         else:
             raise Exception("no interest rate given to mthly")
-- 
2.43.0


From cbc2651275b1c1f8ab80eed7a51b9d38c0d527ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:49 +0000
Subject: [PATCH 13/88] fix: annuity certain at zero interest is the number of
 years

---
 src/actuarialmath/interest.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/actuarialmath/interest.py b/src/actuarialmath/interest.py
index 748a470..bcefab4 100644
--- a/src/actuarialmath/interest.py
+++ b/src/actuarialmath/interest.py
@@ -90,6 +90,8 @@ class Interest(Actuarial):
         """
         v_t = 0 if t < 0 else self.v**t   # is t finite
         assert m >= 0, "mthly frequency must be non-negative"
+        if t >= 0 and self.delta == 0:  # if zero interest
+            return t
         if m == 0:  # if continuous
             return (1 - v_t) / self.delta
         elif due:   # if annuity due
-- 
2.43.0


From de5180945bc04fb33bcfbc05137a81fea0c3e8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:55 +0000
Subject: [PATCH 14/88] fix: variance of one-year curtate lifetime was returned
 as its mean

---
 src/actuarialmath/lifetime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/lifetime.py b/src/actuarialmath/lifetime.py
index e98be35..af42ecf 100644
--- a/src/actuarialmath/lifetime.py
+++ b/src/actuarialmath/lifetime.py
@@ -31,7 +31,7 @@ class Lifetime(Survival):
         assert x >= 0, "x must be non-negative"
         assert s >= 0, "s must be non-negative"
 
-        if t == 1 and curtate:      # shortcut for e_x:1
+        if t == 1 and curtate and moment != self.VARIANCE:  # shortcut e_x:1
             return self.p_x(x, s=s, t=1)
         
         t = self.max_term(x+s, t)   # length of term must be bounded by max age
-- 
2.43.0


From 222792d3c50eb72cf87efb66f5fd3a1a945cad70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:14 +0000
Subject: [PATCH 15/88] fix: life table e_x takes the term t as its base class
 does and honours years after selection

---
 src/actuarialmath/lifetable.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/actuarialmath/lifetable.py b/src/actuarialmath/lifetable.py
index 50376fd..294bd61 100644
--- a/src/actuarialmath/lifetable.py
+++ b/src/actuarialmath/lifetable.py
@@ -236,27 +236,27 @@ class LifeTable(Reserves):
         else:
             return 1     # the only certainty in life
 
-    def e_x(self, x: int, s: int = 0, n: int = Reserves.WHOLE,
+    def e_x(self, x: int, s: int = 0, t: int = Reserves.WHOLE,
             curtate: bool = True, moment: int = 1) -> float:
         """Expected curtate lifetime from sum of lives in table
 
         Args:
           x : age of selection
           s : years after selection
-          n : future lifetime limited at n years
+          t : future lifetime limited at t years
           curtate : whether curtate (True) or complete (False) expectations
           moment : whether to compute first (1) or second (2) moment
 
         """
         if moment == 1:
             # E[K_x] = sum([self.p(x, k+1) for k in range(n)])
-            n = min(self._MAXAGE - x, n) if n > 0 else self._MAXAGE
+            n = self.max_term(x+s, t)
             # approximate complete by UDD between integer age recursion
-            e = sum([(1 - curtate)*(self.l(x, s=s+t) - self.l(x, s=s+t+1))*0.5
-                     + self.l(x, s=s+t+1) for t in range(n)])  # s_p_x = l_x+s/l_x
-            return e / self.l(x, s=0)
+            e = sum([(1 - curtate)*(self.l(x, s=s+k) - self.l(x, s=s+k+1))*0.5
+                     + self.l(x, s=s+k+1) for k in range(n)])  # s_p_x = l_x+s/l_x
+            return e / self.l(x, s=s)
         else:
-            return super().e_x(x=x, s=s, n=n, curtate=curtate, moment=moment)
+            return super().e_x(x=x, s=s, t=t, curtate=curtate, moment=moment)
 
     def E_x(self, x: int, s: int = 0, t: int = 1, moment: int = 1) -> float:
         """Pure Endowment from life table and interest rate
-- 
2.43.0


From 4be935428438b1ca586b96073c08ad8dc0d6dd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:14 +0000
Subject: [PATCH 16/88] fix: life table pure endowment variance discounted with
 the wrong power

---
 src/actuarialmath/lifetable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/actuarialmath/lifetable.py b/src/actuarialmath/lifetable.py
index 294bd61..68c94c8 100644
--- a/src/actuarialmath/lifetable.py
+++ b/src/actuarialmath/lifetable.py
@@ -268,13 +268,13 @@ class LifeTable(Reserves):
           moment : return first (1) or second (2) moment or variance (-2)
         """
         if t == 0:
-            return 1.
+            return 0. if moment == self.VARIANCE else 1.
         if t < 0:
             return 0.
         t = self.max_term(x+s, t)
         p = self.l_x(x, s=s+t) / self.l_x(x, s=s)
         if moment == self.VARIANCE:
-            return self.interest.v_t(t)**moment * p * (1 - p)
+            return self.interest.v_t(t)**2 * p * (1 - p)
         if moment == 1:
             return self.interest.v_t(t) * p
         # SULT shortcut: t_E_x(moment=2) = t_E_x(moment=1) * v**t
-- 
2.43.0


From 25a8c8af40fe625e8f2e99dd14c122f43901c6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:14 +0000
Subject: [PATCH 17/88] fix: life table pure endowment accepts an endowment
 amount as its base class does

---
 src/actuarialmath/lifetable.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/actuarialmath/lifetable.py b/src/actuarialmath/lifetable.py
index 68c94c8..b51c6be 100644
--- a/src/actuarialmath/lifetable.py
+++ b/src/actuarialmath/lifetable.py
@@ -258,7 +258,8 @@ class LifeTable(Reserves):
         else:
             return super().e_x(x=x, s=s, t=t, curtate=curtate, moment=moment)
 
-    def E_x(self, x: int, s: int = 0, t: int = 1, moment: int = 1) -> float:
+    def E_x(self, x: int, s: int = 0, t: int = 1, moment: int = 1,
+            endowment: float = 1.) -> float:
         """Pure Endowment from life table and interest rate
 
         Args:
@@ -266,11 +267,15 @@ class LifeTable(Reserves):
           s : years after selection
           t : survives t years
           moment : return first (1) or second (2) moment or variance (-2)
+          endowment : amount of pure endowment
         """
-        if t == 0:
-            return 0. if moment == self.VARIANCE else 1.
         if t < 0:
             return 0.
+        if endowment != 1:
+            power = 2 if moment == self.VARIANCE else moment
+            return endowment**power * self.E_x(x, s=s, t=t, moment=moment)
+        if t == 0:
+            return 0. if moment == self.VARIANCE else 1.
         t = self.max_term(x+s, t)
         p = self.l_x(x, s=s+t) / self.l_x(x, s=s)
         if moment == self.VARIANCE:
-- 
2.43.0


From 98bfdf91d9a90318b10841d2251cca949b1c2973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:14 +0000
Subject: [PATCH 18/88] fix: life table deaths and deferred mortality through
 the end of the table

---
 src/actuarialmath/lifetable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/actuarialmath/lifetable.py b/src/actuarialmath/lifetable.py
index b51c6be..1828005 100644
--- a/src/actuarialmath/lifetable.py
+++ b/src/actuarialmath/lifetable.py
@@ -205,7 +205,7 @@ class LifeTable(Reserves):
         if x+s+t <= self._MAXAGE:
             return self.l_x(x, s=s) - self.l_x(x, s=s+t)
         else:
-            return 0.
+            return self.l_x(x, s=s)   # none survive the end of the table
 
     def p_x(self, x: int, s: int = 0, t: int = 1) -> float:
         """t_p_x = lives beginning year x+t divided lives beginning year x
@@ -231,7 +231,7 @@ class LifeTable(Reserves):
           t : death within next t years
         """
         denom = self.l_x(x, s=s)
-        if denom and x+s+t <= self._MAXAGE:
+        if denom:
             return self.d_x(x, s=s+u, t=t) / self.l_x(x, s=s)
         else:
             return 1     # the only certainty in life
-- 
2.43.0


From d00cbfbb2007a5a8ae63f51f15a156fcee19a0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:05 +0000
Subject: [PATCH 19/88] fix: density derived from lives is the rate of decline
 of survival

---
 src/actuarialmath/survival.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/actuarialmath/survival.py b/src/actuarialmath/survival.py
index 6289f4a..1b63540 100644
--- a/src/actuarialmath/survival.py
+++ b/src/actuarialmath/survival.py
@@ -54,7 +54,8 @@ class Survival(Life):
 
         def f_from_l(x: int, s, t: float) -> float:
             """Derive lifetime density function from number of lives"""
-            return -self.derivative(lambda t: self.l(x, s+t), t)
+            return (-self.derivative(lambda t: self.l(x, s+t), t) / self.l(x, s)
+                    if self.l(x, s) else 0.)
 
         def mu_from_S(x: int, t: float) -> float:
             """Derive force of mortality from survival probability"""
-- 
2.43.0


From 0994e10d2b0330fe56266acabac05fb864d8bd60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:27 +0000
Subject: [PATCH 20/88] fix: derivative of a function of a scalar

---
 src/actuarialmath/actuarial.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/actuarialmath/actuarial.py b/src/actuarialmath/actuarial.py
index 68b3fda..b9d6824 100644
--- a/src/actuarialmath/actuarial.py
+++ b/src/actuarialmath/actuarial.py
@@ -69,7 +69,8 @@ class Actuarial(object):
         Examples:
           >>> print(Actuarial.derivative(fun=lambda x: x/50, x=25))
         """
-        return float(scipy.differentiate.derivative(fun, x=x, initial_step=1, maxiter=1, preserve_shape=True).df)
+        f = np.vectorize(fun, otypes=[float])   # scipy evaluates at an array of points
+        return float(scipy.differentiate.derivative(f, x=x, initial_step=1, maxiter=1, preserve_shape=True).df)
         # return scipy.misc.derivative(fun, x0=x, dx=1)
 
     @staticmethod
-- 
2.43.0


From 385bff15c78ab76b759c30bcb1e0e47ce50d9615 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:03 +0000
Subject: [PATCH 21/88] fix: lifetime density at fractional ages is survival
 times force

---
 src/actuarialmath/fractional.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/actuarialmath/fractional.py b/src/actuarialmath/fractional.py
index bd015bb..6122b33 100644
--- a/src/actuarialmath/fractional.py
+++ b/src/actuarialmath/fractional.py
@@ -139,22 +139,20 @@ class Fractional(Lifetime):
         assert s >= 0, "s must be non-negative"
         assert r >= 0, "r must be non-negative"
         assert t >= 0, "t must be non-negative"
+        r_floor = math.floor(r)
+        r -= r_floor            # s.t. r < 1 
+        s += r_floor            # while maintaining x+s+r unchanged
         if 0. <= r + t <= 1.:   # shortcuts available within integer ages
-            if self.udd_:       # UDD shortcut: constant q_x
-                return self.q_x(x, s=s)  # does not depend fractional age or duration
+            if self.udd_:       # UDD shortcut: does not depend on duration
+                return self.q_x(x, s=s) / (1. - r*self.q_x(x, s=s))
             else:               # Constant force shortcut:
-                if self.isclose(t):
-                    return self.f_x(x=x, s=s)
                 mu = -math.log(max(0.00001, self.p_x(x, s=s)))
                 return math.exp(-mu*t) * mu    # does not depend on fractional age
         else: # else survive to integer age, times density at fractional age
-            r_floor = math.floor(r)
-            r -= r_floor            # s.t. r < 1 
-            s += r_floor            # while maintaining x+s+r unchanged
             t_floor = math.floor(r + t)
             u = t_floor - r         # s.t. u + r is integer
             t = t + r - t_floor     # s.t. t < 1
-            return self.p_r(x, s=s, r=r, t=u) * self.f_r(x, s=s+u+r, t=t)
+            return self.p_r(x, s=s, r=r, t=u) * self.f_r(x, s=s+t_floor, t=t)
 
     #
     # Define fractional age pure endowment function
-- 
2.43.0


From 6421ddc81beaad2e09daf087edc4c8e0fc168356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:03 +0000
Subject: [PATCH 22/88] fix: limited expected lifetime under constant force of
 zero

---
 src/actuarialmath/fractional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/fractional.py b/src/actuarialmath/fractional.py
index 6122b33..12b241b 100644
--- a/src/actuarialmath/fractional.py
+++ b/src/actuarialmath/fractional.py
@@ -205,7 +205,7 @@ class Fractional(Lifetime):
                     return self.q_r(x=x, s=s, t=t)*(t/2) + self.p_r(x, s=s, t=t)*t
             else:         # Constant Force case
                 mu = -math.log(max(0.00001, self.p_x(x=x, s=s)))  # constant mu
-                return (1. - math.exp(-mu*t)) / mu                # shortcut
+                return (1. - math.exp(-mu*t)) / mu if mu else t   # shortcut
 
         # t > 1: apply one-year recursion formula            
         else:
-- 
2.43.0


From 945e40b446e1c7286fa09585d32a778e98d8ba93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:28 +0000
Subject: [PATCH 23/88] fix: renewal terms of a whole life contract remain
 whole life

---
 src/actuarialmath/policyvalues.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/policyvalues.py b/src/actuarialmath/policyvalues.py
index 3269cb4..0c30852 100644
--- a/src/actuarialmath/policyvalues.py
+++ b/src/actuarialmath/policyvalues.py
@@ -92,7 +92,7 @@ class Contract(Actuarial):
                         discrete=self.discrete,
                         premium=self.premium,
                         endowment=self.endowment,
-                        T=self.T - t)
+                        T=self.T - t if self.T > 0 else self.T)
 
     @property
     def renewal_profit(self) -> float:
-- 
2.43.0


From 8ffb82ff97863f239c120aeb4a0be7c5deda8fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:47 +0000
Subject: [PATCH 24/88] fix: policy values cap the term at the limiting age
 from the issue age

---
 src/actuarialmath/policyvalues.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/actuarialmath/policyvalues.py b/src/actuarialmath/policyvalues.py
index 0c30852..4d0cee3 100644
--- a/src/actuarialmath/policyvalues.py
+++ b/src/actuarialmath/policyvalues.py
@@ -164,7 +164,7 @@ class PolicyValues(Premiums):
             A1 = self.whole_life_insurance(x, s=s+t, discrete=discrete)
             A = self.whole_life_insurance(x, s=s, discrete=discrete)
         elif endowment == b:   # Endowment Insurance 
-            n = self.max_term(x=x+s+t, t=n)
+            n = self.max_term(x=x+s, t=n)
             A2 = self.endowment_insurance(x, s=s+t, t=n-t, moment=2,
                                             discrete=discrete)
             A1 = self.endowment_insurance(x, s=s+t, t=n-t, discrete=discrete)
@@ -194,12 +194,12 @@ class PolicyValues(Premiums):
             A1 = self.whole_life_insurance(x, s=s+t, discrete=discrete)
             A = self.whole_life_insurance(x, s=s, discrete=discrete)
         elif endowment == b:  # Shortcut available for (equal) Endowment Insurance
-            n = self.max_term(x=x+s+t, t=n)
+            n = self.max_term(x=x+s, t=n)
             A1 = self.endowment_insurance(x, s=s+t, t=n-t, 
                                             discrete=discrete)
             A = self.endowment_insurance(x, s=s, t=n, discrete=discrete)
         else:   # Special Term or (unequal) Endowment insurance has no shortcut
-            n = self.max_term(x=x+s+t, t=n)
+            n = self.max_term(x=x+s, t=n)
             A1 = self.endowment_insurance(x, s=s+t, t=n-t, discrete=discrete,
                                             b=b, endowment=endowment)
             a1 = self.temporary_annuity(x, s=s+t, t=n-t, b=b, 
@@ -264,7 +264,7 @@ class PolicyValues(Premiums):
             A1 = self.whole_life_insurance(x, s=s+t, 
                                             discrete=contract.discrete)
         elif contract.endowment == contract.claims_cost:  # Endowment
-            n = self.max_term(x=x+s+t, t=n)
+            n = self.max_term(x=x+s, t=n)
             A2 = self.endowment_insurance(x, s=s+t, t=n-t, moment=2, 
                                             discrete=contract.discrete)
             A1 = self.endowment_insurance(x, s=s+t, t=n-t, 
@@ -293,11 +293,11 @@ class PolicyValues(Premiums):
             A = self.whole_life_insurance(x, s=s+t, 
                                           discrete=contract.discrete)
         elif contract.endowment == contract.claims_cost:  # Endowment Ins shortcut
-            n = self.max_term(x=x+s+t, t=n)
+            n = self.max_term(x=x+s, t=n)
             A = self.endowment_insurance(x, s=s+t, t=n-t, 
                                             discrete=contract.discrete)
         else:  # Special term insurance
-            n = self.max_term(x=x+s+t, t=n)
+            n = self.max_term(x=x+s, t=n)
             A = self.term_insurance(x, s=s+t, t=n-t, discrete=contract.discrete)
             a = self.temporary_annuity(x, s=s+t, t=n-t,
                                        discrete=contract.discrete)
-- 
2.43.0


From 2663379f43455c8c060e9c703f37de6c2b9287bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:12 +0000
Subject: [PATCH 25/88] fix: loss when the insured survives the term is the
 endowment less the term's premiums

---
 src/actuarialmath/policyvalues.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/actuarialmath/policyvalues.py b/src/actuarialmath/policyvalues.py
index 4d0cee3..32747d3 100644
--- a/src/actuarialmath/policyvalues.py
+++ b/src/actuarialmath/policyvalues.py
@@ -321,14 +321,12 @@ class PolicyValues(Premiums):
           contract : policy contract
         """
         c = contract or Contract()
-        k = math.floor(t) if c.discrete else t
-        if c.T > 0 and k >= c.T:   # if endowment insurance and t is beyond term
-            t = c.T
-            endowment = c.endowment * self.Z_from_t(t)
+        if c.T > 0 and t >= c.T:   # survived the term: endowment, no death benefit
+            t = c.T - 1 if c.discrete else c.T  # premiums were paid for T years
+            claims = c.endowment * self.interest.v_t(c.T)
         else:
-            endowment = 0
-        return ((c.claims_cost * self.Z_from_t(t, discrete=c.discrete))
-                + endowment
+            claims = c.claims_cost * self.Z_from_t(t, discrete=c.discrete)
+        return (claims
                 + c.initial_cost
                 - (c.renewal_profit * self.Y_from_t(t, discrete=c.discrete)))
 
-- 
2.43.0


From f0d18f8ce2b7266a6b2d7f8a50f2cbda6a9d0bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:12 +0000
Subject: [PATCH 26/88] fix: lifetime from annuity value at zero interest

---
 src/actuarialmath/annuity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/annuity.py b/src/actuarialmath/annuity.py
index 3f543e0..9120176 100644
--- a/src/actuarialmath/annuity.py
+++ b/src/actuarialmath/annuity.py
@@ -318,7 +318,7 @@ class Annuity(Insurance):
         Args:
           Y : Present value of benefits paid
         """
-        if self.interest.v == 0.:
+        if self.isclose(self.interest.delta):            # if interest=0:
             return Y
         else:
             return math.log(1 - self.interest.delta*Y) / math.log(self.interest.v)
-- 
2.43.0


From e4327e7cfc5720ff6b013a34865e7b303945d04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:12 +0000
Subject: [PATCH 27/88] fix: loss plot without a time to annotate

---
 src/actuarialmath/policyvalues.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/policyvalues.py b/src/actuarialmath/policyvalues.py
index 32747d3..49c4859 100644
--- a/src/actuarialmath/policyvalues.py
+++ b/src/actuarialmath/policyvalues.py
@@ -439,7 +439,7 @@ class PolicyValues(Premiums):
         ax.set_ylabel(f"$L({K}_x)$", color=color)
         ax.set_xlabel(f"${K}_x$")
         #plt.tight_layout()
-        return z
+        return z if T is not None else None
 
     def _L_plot(self, x: int, s: int = 0, stop: int = 0,
                 T: float | None = None,
-- 
2.43.0


From 5328f55b8e2ec6cb6017d392f64cb2ba91c0bf0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:45 +0000
Subject: [PATCH 28/88] fix: fix: settlement expenses are part of the claims
 when filling reserves

---
 src/actuarialmath/reserves.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/actuarialmath/reserves.py b/src/actuarialmath/reserves.py
index f9e7ec4..ea11d75 100644
--- a/src/actuarialmath/reserves.py
+++ b/src/actuarialmath/reserves.py
@@ -60,7 +60,7 @@ class Reserves(PolicyValues):
                                  per_policy = -contract.endowment)
                 elif t == 1:
                     v = self.t_V(x=x, s=s, t=t, premium=contract.premium, 
-                                 benefit=lambda t: contract.benefit,
+                                 benefit=lambda t: contract.claims_cost,
                                  reserve_benefit=reserve_benefit,
                                  per_premium=contract.initial_premium, 
                                  per_policy=contract.initial_policy)
@@ -68,7 +68,7 @@ class Reserves(PolicyValues):
                     v = 0
                 else:
                     v = self.t_V(x=x, s=s, t=t, premium=contract.premium, 
-                                 benefit=lambda t: contract.benefit,
+                                 benefit=lambda t: contract.claims_cost,
                                  reserve_benefit=reserve_benefit,
                                  per_premium=contract.renewal_premium, 
                                  per_policy=contract.renewal_policy)
-- 
2.43.0


From 8c51cff037e7dd38c8eedc81405e80e7a0f52353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:45 +0000
Subject: [PATCH 29/88] fix: fix: reserve at the end of the contract's term is
 its endowment

---
 src/actuarialmath/reserves.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/actuarialmath/reserves.py b/src/actuarialmath/reserves.py
index ea11d75..1f7b864 100644
--- a/src/actuarialmath/reserves.py
+++ b/src/actuarialmath/reserves.py
@@ -56,8 +56,7 @@ class Reserves(PolicyValues):
                 if self._reserves['V'].get(t, None) is not None:
                     continue
                 if t == contract.T:
-                    v = self.t_V(x=x, s=s, t=t, premium=0, benefit=lambda t: 0, 
-                                 per_policy = -contract.endowment)
+                    v = contract.endowment
                 elif t == 1:
                     v = self.t_V(x=x, s=s, t=t, premium=contract.premium, 
                                  benefit=lambda t: contract.claims_cost,
-- 
2.43.0


From 1ed36be4100708730849f084be78798df4094ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:12 +0000
Subject: [PATCH 30/88] fix: pure endowment is zero when its term passes the
 end of the life table

---
 src/actuarialmath/lifetable.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/actuarialmath/lifetable.py b/src/actuarialmath/lifetable.py
index 1828005..73ef564 100644
--- a/src/actuarialmath/lifetable.py
+++ b/src/actuarialmath/lifetable.py
@@ -276,8 +276,7 @@ class LifeTable(Reserves):
             return endowment**power * self.E_x(x, s=s, t=t, moment=moment)
         if t == 0:
             return 0. if moment == self.VARIANCE else 1.
-        t = self.max_term(x+s, t)
-        p = self.l_x(x, s=s+t) / self.l_x(x, s=s)
+        p = self.p_x(x, s=s, t=t)
         if moment == self.VARIANCE:
             return self.interest.v_t(t)**2 * p * (1 - p)
         if moment == 1:
-- 
2.43.0


From 8090717bd9baf181eeee937f9325f6e51aa05f52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:01 +0000
Subject: [PATCH 31/88] fix: life table helpers divided by zero where everyone
 or no one dies

---
 src/actuarialmath/lifetable.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/actuarialmath/lifetable.py b/src/actuarialmath/lifetable.py
index 73ef564..e2d7f3c 100644
--- a/src/actuarialmath/lifetable.py
+++ b/src/actuarialmath/lifetable.py
@@ -119,7 +119,8 @@ class LifeTable(Reserves):
                 return self._table['q'][x]
             if x in self._table['p']:
                 return 1 - self._table['p'][x]
-            if x in self._table['d'] and x in self._table['l']:
+            if (x in self._table['d'] and x in self._table['l']
+                and self._table['l'][x]):
                 return self._table['d'][x] / self._table['l'][x]
             return None
 
@@ -135,11 +136,13 @@ class LifeTable(Reserves):
             """Helper to try compute number of lives aged x: l_x"""
             if x in self._table['l']:
                 return self._table['l'][x]
-            if x+1 in self._table['l'] and x in self._table['q']:
+            if (x+1 in self._table['l'] and x in self._table['q']
+                and self._table['q'][x] != 1):
                 return self._table['l'][x+1] / (1 - self._table['q'][x])
             if x-1 in self._table['l'] and x-1 in self._table['q']:
                 return self._table['l'][x-1] * (1 - self._table['q'][x-1])
-            if x in self._table['d'] and x in self._table['q']:
+            if (x in self._table['d'] and x in self._table['q']
+                and self._table['q'][x]):
                 return self._table['d'][x] / self._table['q'][x]
             return None
 
-- 
2.43.0


From 1002c1ac4d4abe22953bbae35053d93d55d94d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:01 +0000
Subject: [PATCH 32/88] fix: last age of the life table when columns are added
 by a later call

---
 src/actuarialmath/lifetable.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/actuarialmath/lifetable.py b/src/actuarialmath/lifetable.py
index e2d7f3c..b4a16c0 100644
--- a/src/actuarialmath/lifetable.py
+++ b/src/actuarialmath/lifetable.py
@@ -92,8 +92,8 @@ class LifeTable(Reserves):
             maxage = max([max(v) for v in inputs.values()])
             if self._MAXAGE < 0:
                 self._MAXAGE = maxage + 1
-            if maxage > self._MAXAGE:
-                self._MAXAGE = maxage
+            if maxage + 1 > self._MAXAGE:
+                self._MAXAGE = maxage + 1
         else:
             self._MAXAGE = maxage
 
-- 
2.43.0


From 943057879cf0229219528be6f9b38dcd3aec5bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:15 +0000
Subject: [PATCH 33/88] fix: select table deaths were read from the expected
 lifetimes

---
 src/actuarialmath/selectlife.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/selectlife.py b/src/actuarialmath/selectlife.py
index 1827586..c90200b 100644
--- a/src/actuarialmath/selectlife.py
+++ b/src/actuarialmath/selectlife.py
@@ -123,7 +123,7 @@ class SelectLife(LifeTable):
         tables = {
             'l': ifelse(l, {}),
             'q': ifelse(q, {}),
-            'd': ifelse(e, {}),
+            'd': ifelse(d, {}),
             'e': ifelse(e, {}),
             'a': ifelse(a, {}),
             'A': ifelse(A, {})
-- 
2.43.0


From b047e781994520f7066df87d82fc585805b560b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:15 +0000
Subject: [PATCH 34/88] fix: last age of the select table by age selected

---
 src/actuarialmath/selectlife.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/selectlife.py b/src/actuarialmath/selectlife.py
index c90200b..4edf966 100644
--- a/src/actuarialmath/selectlife.py
+++ b/src/actuarialmath/selectlife.py
@@ -140,7 +140,7 @@ class SelectLife(LifeTable):
 
                     if self._MINAGE < 0 or x < self._MINAGE:  # infer min age
                         self._MINAGE = x
-                    if age > self._MAXAGE:                    # infer max age
+                    if x > self._MAXAGE:                      # infer max age
                         self._MAXAGE = x
         if fill:
             self.fill_table(radix=radix)
-- 
2.43.0


From bcdb379aabb3af99c565e79da0e1f6f61deb17fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:15 +0000
Subject: [PATCH 35/88] fix: select annuity missing from the table computed as
 an insurance

---
 src/actuarialmath/selectlife.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/selectlife.py b/src/actuarialmath/selectlife.py
index 4edf966..95de4cc 100644
--- a/src/actuarialmath/selectlife.py
+++ b/src/actuarialmath/selectlife.py
@@ -309,7 +309,7 @@ class SelectLife(LifeTable):
         if self._isin_sel(x, s, 'a'):
             return self._get_sel(x, s, 'a')
         else:
-            return super().A_x(x=x, s=s, moment=1, discrete=True, **kwargs)
+            return super().a_x(x=x, s=s, discrete=True, **kwargs)
 
     def l_x(self, x: int, s: int = 0) -> float:
         """Returns number of lives aged [x]+s computed from select table
-- 
2.43.0


From da3489425b22f0a81cc6fb29ff8fa84593fbb825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:15 +0000
Subject: [PATCH 36/88] fix: tabulated select insurance and annuity values are
 for whole life and unit benefit

---
 src/actuarialmath/selectlife.py | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/src/actuarialmath/selectlife.py b/src/actuarialmath/selectlife.py
index 95de4cc..8c40ec2 100644
--- a/src/actuarialmath/selectlife.py
+++ b/src/actuarialmath/selectlife.py
@@ -283,6 +283,27 @@ class SelectLife(LifeTable):
                 self._select['l'][self._MINAGE][0] = radix
         return self
 
+    @staticmethod
+    def _is_whole(t: int = LifeTable.WHOLE, u: int = 0, **kwargs) -> bool:
+        """Helper to check if whole life value of unit amount is required"""
+        return t < 0 and u == 0 and 'benefit' not in kwargs
+
+    def whole_life_insurance(self, x: int, s: int = 0, moment: int = 1,
+                             b: int = 1, discrete: bool = True) -> float:
+        """Whole life insurance from select table if available
+
+        Args:
+          x : age of selection
+          s : years after selection
+          moment : compute first or second moment
+          b : amount of benefit
+          discrete : benefit paid year-end (True) or moment of death (False)
+        """
+        if moment == 1 and discrete and self._isin_sel(x, s, 'A'):
+            return b * self._get_sel(x, s, 'A')
+        return super().whole_life_insurance(x, s=s, moment=moment, b=b,
+                                            discrete=discrete)
+
     def A_x(self, x: int, s: int = 0, moment: int = 1, discrete: bool = True,
             **kwargs) -> float:
         """Returns insurance value computed from select table
@@ -292,7 +313,7 @@ class SelectLife(LifeTable):
           s : years after selection
         """
         assert moment == 1 and discrete, "Must be discrete insurance"
-        if self._isin_sel(x, s, 'A'):
+        if self._isin_sel(x, s, 'A') and self._is_whole(**kwargs):
             return self._get_sel(x, s, 'A')
         else:
             return super().A_x(x=x, s=s, moment=1, discrete=True, **kwargs)
@@ -306,7 +327,7 @@ class SelectLife(LifeTable):
           s : years after selection
         """
         assert moment == 1 and discrete, "Must be discrete annuity"
-        if self._isin_sel(x, s, 'a'):
+        if self._isin_sel(x, s, 'a') and self._is_whole(**kwargs):
             return self._get_sel(x, s, 'a')
         else:
             return super().a_x(x=x, s=s, discrete=True, **kwargs)
-- 
2.43.0


From 03ef389cfe96e5b2ea1ecaced386a713ee30104b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:15 +0000
Subject: [PATCH 37/88] fix: select tables end at the last age of the ultimate
 column

---
 src/actuarialmath/selectlife.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/actuarialmath/selectlife.py b/src/actuarialmath/selectlife.py
index 8c40ec2..bed7e16 100644
--- a/src/actuarialmath/selectlife.py
+++ b/src/actuarialmath/selectlife.py
@@ -283,6 +283,20 @@ class SelectLife(LifeTable):
                 self._select['l'][self._MINAGE][0] = radix
         return self
 
+    def max_term(self, x: int, t: int, u: int = 0) -> int:
+        """Decrease term t if adding deferral period u to (x) exceeds last age
+
+        Args:
+          x : age
+          t : term of insurance or annuity, after deferral period
+          u : term deferred
+        """
+        ages = [age for age in self._select['q']
+                if self._isin_sel(age, self.periods_, 'q')]
+        # mortality is known to the end of the ultimate column
+        end = max(ages) + self.periods_ + 1 if ages else self._MAXAGE
+        return end - (x + u) if t < 0 or x + t + u > end else t
+
     @staticmethod
     def _is_whole(t: int = LifeTable.WHOLE, u: int = 0, **kwargs) -> bool:
         """Helper to check if whole life value of unit amount is required"""
-- 
2.43.0


From 3c6c3e8bb0d5c4e918a11079475ba7a95d73fe94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:15 +0000
Subject: [PATCH 38/88] fix: deaths from a select table

---
 src/actuarialmath/selectlife.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/actuarialmath/selectlife.py b/src/actuarialmath/selectlife.py
index bed7e16..2a297cd 100644
--- a/src/actuarialmath/selectlife.py
+++ b/src/actuarialmath/selectlife.py
@@ -355,6 +355,16 @@ class SelectLife(LifeTable):
         """
         return self._get_sel(x, s, 'l')
 
+    def d_x(self, x: int, s: int = 0, t: int = 1) -> float:
+        """Compute deaths within t years of [x]+s from select table
+
+        Args:
+          x : age of selection
+          s : years after selection
+          t : death within next t years
+        """
+        return self.l_x(x, s=s) - self.l_x(x, s=s+t)
+
     def p_x(self, x: int, s: int = 0, t: int = 1) -> float:
         """t_p_[x]+s by chain rule: prod(1_p_[x]+s+y) for y in range(t)
 
-- 
2.43.0


From f5b015b42635c093c4062c4f53dff7806bde3f1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:15 +0000
Subject: [PATCH 39/88] fix: term and moment of expected lifetimes from a
 select table

---
 src/actuarialmath/selectlife.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/actuarialmath/selectlife.py b/src/actuarialmath/selectlife.py
index 2a297cd..127df8c 100644
--- a/src/actuarialmath/selectlife.py
+++ b/src/actuarialmath/selectlife.py
@@ -387,18 +387,22 @@ class SelectLife(LifeTable):
         return (1. - self.p_x(x, s=s + u, t=t)) * self.p_x(x, s=s, t=u)
 
     def e_x(self, x: int, s: int = 0, t: int = LifeTable.WHOLE,
-            curtate: int = True) -> float:
+            curtate: int = True, moment: int = 1) -> float:
         """Returns expected life time computed from select table
 
         Args:
           x : age of selection
           s : years after selection
           t : limit of expected future lifetime
+          curtate : must be curtate lifetimes
+          moment : whether to compute first (1) or second (2) moment
         """
         assert curtate, "Must be curtate lifetimes"
-        if (self._isin_sel(x, s, 'e')):
+        if moment != 1:
+            return super().e_x(x, s=s, t=t, curtate=curtate, moment=moment)
+        if t < 0 and self._isin_sel(x, s, 'e'):
             return self._get_sel(x, s, 'e')
-        e = sum([self.p_x(x, s=s, t=k+1) for k in range(max(1, t))])
+        e = sum([self.p_x(x, s=s, t=k+1) for k in range(self.max_term(x+s, t))])
         return e
 
     def frame(self, table: str = 'l') -> pd.DataFrame:
-- 
2.43.0


From 94897eb0e03f32c04559bb96165375a4eb3ba527 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:19 +0000
Subject: [PATCH 40/88] fix: fractional expected lifetime of a mortality law
 integrates survival

---
 src/actuarialmath/mortalitylaws.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/mortalitylaws.py b/src/actuarialmath/mortalitylaws.py
index 0c5bfb9..5763d04 100644
--- a/src/actuarialmath/mortalitylaws.py
+++ b/src/actuarialmath/mortalitylaws.py
@@ -82,7 +82,7 @@ class MortalityLaws(Reserves):
         """
         if t < 0:
             t = self._MAXAGE - (x + s + r)
-        return self.integrate(lambda t: self.S(x, s+r, t), 0., float(t))
+        return self.integral(lambda t: self.S(x, s+r, t), 0., float(t))
 
 class Beta(MortalityLaws):
     """Shortcuts with beta distribution of deaths (is Uniform when alpha = 1)
-- 
2.43.0


From dce4ac10df5a3164f8855dbbcaeefd596bde6ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:20 +0000
Subject: [PATCH 41/88] fix: beta survival and lives are zero past the limiting
 age

---
 src/actuarialmath/mortalitylaws.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/actuarialmath/mortalitylaws.py b/src/actuarialmath/mortalitylaws.py
index 5763d04..b41dc96 100644
--- a/src/actuarialmath/mortalitylaws.py
+++ b/src/actuarialmath/mortalitylaws.py
@@ -106,10 +106,10 @@ class Beta(MortalityLaws):
             return alpha / (omega - (x+s))
 
         def _l(x: int, s: float) -> float:
-            return radix * (omega - (x+s))**alpha
+            return radix * max(0, omega - (x+s))**alpha
 
         def _S(x: int, s,t : float) -> float:
-            return ((omega-(x+s+t))/(omega-(x+s)))**alpha
+            return (max(0, omega-(x+s+t))/(omega-(x+s)))**alpha
 
         def _f(x: int, s,t : float) -> float:
             return alpha / (omega - (x+s))
-- 
2.43.0


From e3aecac127020eefc35082a264697930f445211d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:20 +0000
Subject: [PATCH 42/88] fix: beta density at future times

---
 src/actuarialmath/mortalitylaws.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/actuarialmath/mortalitylaws.py b/src/actuarialmath/mortalitylaws.py
index b41dc96..9696e54 100644
--- a/src/actuarialmath/mortalitylaws.py
+++ b/src/actuarialmath/mortalitylaws.py
@@ -112,7 +112,8 @@ class Beta(MortalityLaws):
             return (max(0, omega-(x+s+t))/(omega-(x+s)))**alpha
 
         def _f(x: int, s,t : float) -> float:
-            return alpha / (omega - (x+s))
+            return (alpha * (omega - (x+s+t))**(alpha - 1)
+                    / (omega - (x+s))**alpha)
 
         self.set_survival(mu=_mu, l=_l, S=_S, f=_f, minage=0, maxage=omega)
         self.omega_ = omega  # store omega parameter
-- 
2.43.0


From 981b0dd8b611c651787f7125d97349a98164f51b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:20 +0000
Subject: [PATCH 43/88] fix: beta temporary expected lifetime

---
 src/actuarialmath/mortalitylaws.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/mortalitylaws.py b/src/actuarialmath/mortalitylaws.py
index 9696e54..15e345b 100644
--- a/src/actuarialmath/mortalitylaws.py
+++ b/src/actuarialmath/mortalitylaws.py
@@ -128,7 +128,7 @@ class Beta(MortalityLaws):
           t : limited at t years
         """
         e = (self.omega_ - (x+s)) / (self.alpha_ + 1)
-        if t > 0 and self.max_term(x+s, t) > t: # temporary expectation
+        if 0 <= t < self.omega_ - (x+s): # temporary expectation
             return e - self.p_r(x, s=s, t=t) * self.e_r(x, s=s+t)
         return e   # complete expectation
 
-- 
2.43.0


From 534633b87d80ac6ea2104dacc0d393e527200d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:20 +0000
Subject: [PATCH 44/88] fix: beta e_x takes the term by its documented name

---
 src/actuarialmath/mortalitylaws.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/actuarialmath/mortalitylaws.py b/src/actuarialmath/mortalitylaws.py
index 15e345b..63320f1 100644
--- a/src/actuarialmath/mortalitylaws.py
+++ b/src/actuarialmath/mortalitylaws.py
@@ -132,27 +132,26 @@ class Beta(MortalityLaws):
             return e - self.p_r(x, s=s, t=t) * self.e_r(x, s=s+t)
         return e   # complete expectation
 
-    def e_x(self, x: int, s: int = 0, n: int = MortalityLaws.WHOLE, 
+    def e_x(self, x: int, s: int = 0, t: int = MortalityLaws.WHOLE, 
           curtate: bool = False, moment: int = 1) -> float:
         """Shortcut formula for complete expectation
 
         Args:
           x : age of selection
           s : years after selection
-          n : death within next n fractional years
           t : limited at t years
           curtate : whether curtate (True) or complete (False) lifetime
           moment : whether to compute first (1) or second (2) moment
         """
-        if n == 0:
+        if t == 0:
             return 0
         if not curtate:
             if moment == 1:
-                return self.e_r(x, s=s, t=n)
-            if moment == self.VARIANCE and n < 0: # shortcut for complete variance
+                return self.e_r(x, s=s, t=t)
+            if moment == self.VARIANCE and t < 0: # shortcut for complete variance
                 return ((self.omega_ - (x + s))
                         / ((self.alpha_ + 1)**2 * (self.alpha_ + 1)))
-        return super().e_x(x=x, s=s, n=n, curtate=curtate, moment=moment)
+        return super().e_x(x=x, s=s, t=t, curtate=curtate, moment=moment)
 
 class Uniform(Beta):
     """Shortcuts with uniform distribution of deaths aka DeMoivre's Law
-- 
2.43.0


From 5c5ca5f8a821a8f31f07c19fe91f4f650cdd0129 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:20 +0000
Subject: [PATCH 45/88] fix: variance of a beta lifetime

---
 src/actuarialmath/mortalitylaws.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/actuarialmath/mortalitylaws.py b/src/actuarialmath/mortalitylaws.py
index 63320f1..5988a34 100644
--- a/src/actuarialmath/mortalitylaws.py
+++ b/src/actuarialmath/mortalitylaws.py
@@ -149,8 +149,8 @@ class Beta(MortalityLaws):
             if moment == 1:
                 return self.e_r(x, s=s, t=t)
             if moment == self.VARIANCE and t < 0: # shortcut for complete variance
-                return ((self.omega_ - (x + s))
-                        / ((self.alpha_ + 1)**2 * (self.alpha_ + 1)))
+                return ((self.omega_ - (x + s))**2 * self.alpha_
+                        / ((self.alpha_ + 1)**2 * (self.alpha_ + 2)))
         return super().e_x(x=x, s=s, t=t, curtate=curtate, moment=moment)
 
 class Uniform(Beta):
-- 
2.43.0


From fafd4e24e090d6a18178443ba13d673afe29fe4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:20 +0000
Subject: [PATCH 46/88] fix: uniform temporary expected lifetime weighs deaths
 by half the term

---
 src/actuarialmath/mortalitylaws.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/mortalitylaws.py b/src/actuarialmath/mortalitylaws.py
index 5988a34..80bf362 100644
--- a/src/actuarialmath/mortalitylaws.py
+++ b/src/actuarialmath/mortalitylaws.py
@@ -187,7 +187,7 @@ class Uniform(Beta):
             elif moment == 1:         # temporary expectation shortcut
                 # (Pr[die within n years] * n/2) plus (Pr[survive n years] * n)
                 t = self.max_term(x+s, t)
-                t_p_x = t / (self.omega_ - x)
+                t_p_x = 1 - t / (self.omega_ - x)
                 return t_p_x * t  + (1 - t_p_x) * (t / 2)
         return super().e_x(x=x, s=s, t=t, curtate=curtate, moment=moment)
 
-- 
2.43.0


From 09f0077cc6a84fdd04834cae8337a108b7466b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:20 +0000
Subject: [PATCH 47/88] fix: uniform expected lifetime after years of selection

---
 src/actuarialmath/mortalitylaws.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/actuarialmath/mortalitylaws.py b/src/actuarialmath/mortalitylaws.py
index 80bf362..ca4bd0f 100644
--- a/src/actuarialmath/mortalitylaws.py
+++ b/src/actuarialmath/mortalitylaws.py
@@ -181,13 +181,13 @@ class Uniform(Beta):
         if moment in [1, self.VARIANCE] and not curtate:
             if t < 0:
                 if moment == self.VARIANCE:
-                    return (self.omega_ - x)**2 / 12  # complete shortcut
+                    return (self.omega_ - (x+s))**2 / 12  # complete shortcut
                 else:
-                    return (self.omega_ - x) / 2
+                    return (self.omega_ - (x+s)) / 2
             elif moment == 1:         # temporary expectation shortcut
                 # (Pr[die within n years] * n/2) plus (Pr[survive n years] * n)
                 t = self.max_term(x+s, t)
-                t_p_x = 1 - t / (self.omega_ - x)
+                t_p_x = 1 - t / (self.omega_ - (x+s))
                 return t_p_x * t  + (1 - t_p_x) * (t / 2)
         return super().e_x(x=x, s=s, t=t, curtate=curtate, moment=moment)
 
-- 
2.43.0


From d7e4011e3ba326f221c92d8a7f9eccf39bf6f077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:20 +0000
Subject: [PATCH 48/88] fix: uniform pure endowment after years of selection,
 its amount and variance

---
 src/actuarialmath/mortalitylaws.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/src/actuarialmath/mortalitylaws.py b/src/actuarialmath/mortalitylaws.py
index ca4bd0f..7041652 100644
--- a/src/actuarialmath/mortalitylaws.py
+++ b/src/actuarialmath/mortalitylaws.py
@@ -193,7 +193,7 @@ class Uniform(Beta):
 
     
     def E_x(self, x: int, s: int = 0, t: int = Beta.WHOLE, 
-            moment: int = 1) -> float:
+            endowment: int = 1, moment: int = 1) -> float:
         """Shortcut for Pure Endowment
 
         Args:
@@ -203,17 +203,15 @@ class Uniform(Beta):
           endowment : amount of pure endowment
           moment : compute first or second moment
         """
-        assert moment > 0
         if t == 0:
-            return 1.
+            return 0. if moment == self.VARIANCE else endowment**moment
         if t < 0:
             return 0.
         t = self.max_term(x+s, t)
-        t_p_x = (self.omega_ - x - t) / (self.omega_ - x)
+        t_p_x = (self.omega_ - (x+s+t)) / (self.omega_ - (x+s))
         if moment == self.VARIANCE:  # Bernoulli shortcut for variance
-            return self.interest.v_t(t)**2 * t_p_x * (1 - t_p_x)
-        return (self.interest.v_t(t)**moment * (self.omega_ - x - t) 
-                / (self.omega_ - x))
+            return (endowment * self.interest.v_t(t))**2 * t_p_x * (1 - t_p_x)
+        return (endowment * self.interest.v_t(t))**moment * t_p_x
 
     def whole_life_insurance(self, x: int, s: int = 0, moment: int = 1, 
                              b: int = 1, discrete: bool = True) -> float:
-- 
2.43.0


From f503b1accd6497f45ff978e41b483fef26f50ffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:20 +0000
Subject: [PATCH 49/88] fix: uniform continuous insurance: second moments and
 variances, zero interest, term of discrete insurance

---
 src/actuarialmath/mortalitylaws.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/src/actuarialmath/mortalitylaws.py b/src/actuarialmath/mortalitylaws.py
index 7041652..9038b84 100644
--- a/src/actuarialmath/mortalitylaws.py
+++ b/src/actuarialmath/mortalitylaws.py
@@ -227,9 +227,9 @@ class Uniform(Beta):
 
         if not discrete:
             if moment == Beta.VARIANCE:
-                return (self.whole_life_insurance(x, s=s, b=b, moment=2, 
+                return (self.whole_life_insurance(x, s=s, moment=2, 
                                                   discrete=False) -
-                        self.whole_life_insurance(x, s=s, b=b, moment=1, 
+                        self.whole_life_insurance(x, s=s, moment=1, 
                                                     discrete=False)**2) * b**2
             return self.term_insurance(x, s=s, t=self.omega_-(x+s), b=b,
                                        moment=moment, discrete=False)
@@ -248,16 +248,17 @@ class Uniform(Beta):
           moment : compute first or second moment
           discrete : benefit paid year-end (True) or moment of death (False)
         """
-        if not discrete and moment in [1, Beta.VARIANCE]:
+        if not discrete:
             if moment == Beta.VARIANCE:
-                return (self.term_insurance(x, s=s, b=b, t=t, moment=2, 
+                return (self.term_insurance(x, s=s, t=t, moment=2, 
                                             discrete=False) -
-                        self.term_insurance(x, s=s, b=b, t=t, 
+                        self.term_insurance(x, s=s, t=t, 
                                             discrete=False)**2) * b**2
             t = self.max_term(x+s, t)                                        
-            return (b * (1 - self.interest.v_t(t)) 
-                    / (self.interest.delta * (self.omega_ - (x+s))))
-        return super().term_insurance(x, s=s, moment=moment, b=b, 
+            delta = moment * self.interest.delta   # multiply force of interest
+            a = (1 - self.interest.v_t(t)**moment) / delta if delta else t
+            return b**moment * a / (self.omega_ - (x+s))
+        return super().term_insurance(x, s=s, t=t, moment=moment, b=b, 
                                       discrete=discrete)
 
 class Makeham(MortalityLaws):
-- 
2.43.0


From 81328fa1428f2a3c621b9ef0f97baa1e319905b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:37 +0000
Subject: [PATCH 50/88] fix: variance of a limited constant-force lifetime

---
 src/actuarialmath/constantforce.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/constantforce.py b/src/actuarialmath/constantforce.py
index 8f5cb3a..230073b 100644
--- a/src/actuarialmath/constantforce.py
+++ b/src/actuarialmath/constantforce.py
@@ -43,7 +43,7 @@ class ConstantForce(MortalityLaws):
           moment : first (1) or second (2) moment
         """
         if not curtate:    # Var[Tx] = 1/mu^2, E[Tx] = 1/mu
-            if moment == MortalityLaws.VARIANCE:
+            if moment == MortalityLaws.VARIANCE and t < 0:
                 return 1. / self.mu_**2   # shortcut
             elif moment == 1:
                 e = 1 / self.mu_  # infinite n case shortcut
-- 
2.43.0


From c61db3b6021e2f539388182e841c686d4a834f2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:38 +0000
Subject: [PATCH 51/88] fix: constant-force pure endowment: variance, and its
 amount at term zero

---
 src/actuarialmath/constantforce.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/actuarialmath/constantforce.py b/src/actuarialmath/constantforce.py
index 230073b..a32bcfc 100644
--- a/src/actuarialmath/constantforce.py
+++ b/src/actuarialmath/constantforce.py
@@ -64,9 +64,12 @@ class ConstantForce(MortalityLaws):
           moment : compute first or second moment
         """
         if t == 0:
-            return 1.
+            return 0. if moment == self.VARIANCE else endowment**moment
         if t < 0:
             return 0.
+        if moment == self.VARIANCE:
+            return (self.E_x(x, s=s, t=t, endowment=endowment, moment=2)
+                    - self.E_x(x, s=s, t=t, endowment=endowment)**2)
         delta = moment * self.interest.delta   # multiply force of interest
         return math.exp(-(self.mu_ + delta) * t) * endowment**moment
 
-- 
2.43.0


From d3568cf33ac563c5853c9b2439a4cd38181449c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:38 +0000
Subject: [PATCH 52/88] fix: constant-force continuous whole life insurance
 pays its benefit

---
 src/actuarialmath/constantforce.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/actuarialmath/constantforce.py b/src/actuarialmath/constantforce.py
index a32bcfc..a249ee0 100644
--- a/src/actuarialmath/constantforce.py
+++ b/src/actuarialmath/constantforce.py
@@ -136,7 +136,8 @@ class ConstantForce(MortalityLaws):
         """
         if moment > 0 and not discrete:
             delta = moment * self.interest.delta   # multiply force of interest
-            return self.mu_ / (self.mu_ + delta) if self.mu_ > 0 else 0.
+            return (b**moment * self.mu_ / (self.mu_ + delta)
+                    if self.mu_ > 0 else 0.)
         return super().whole_life_insurance(x, s=s, moment=moment, b=b,
                                             discrete=discrete)
 
-- 
2.43.0


From a16b5f801b55ea892154a08703eb09720c509197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:13 +0000
Subject: [PATCH 53/88] fix: variance of constant-force annuities at zero
 interest

---
 src/actuarialmath/constantforce.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/src/actuarialmath/constantforce.py b/src/actuarialmath/constantforce.py
index a249ee0..9f7529b 100644
--- a/src/actuarialmath/constantforce.py
+++ b/src/actuarialmath/constantforce.py
@@ -85,11 +85,9 @@ class ConstantForce(MortalityLaws):
           variance : return APV (True) or variance (False)
           discrete : annuity due (True) or continuous (False)
         """
-        if variance:  # short cut for variance of temporary life annuity
-            A1 = self.whole_life_insurance(x, s=s, discrete=discrete)
-            A2 = self.whole_life_insurance(x, s=s, moment=2, discrete=discrete)
-            return (b**2 * (A2 - A1**2) /
-                    (self.interest.d if discrete else self.interest.delta)**2)
+        if variance:
+            return super().whole_life_annuity(x, s=s, b=b, variance=True,
+                                              discrete=discrete)
         if not discrete:
             den = self.mu_ + self.interest.delta
             return (1. / den) * b if den > 0 else math.inf
@@ -108,13 +106,9 @@ class ConstantForce(MortalityLaws):
           variance : return APV (True) or variance (False)
           discrete : annuity due (True) or continuous (False)
         """
-        interest = self.interest.d if discrete else self.interest.delta
-        if variance:  # short cut for variance of temporary life annuity
-            A1 = self.endowment_insurance(x, s=s, t=t, discrete=discrete)
-            A2 = self.endowment_insurance(x, s=s, t=t, moment=2,
-                                          discrete=discrete)
-            return (b**2 * (A2 - A1**2) /
-                    (self.interest.d if discrete else self.interest.delta)**2)
+        if variance:
+            return super().temporary_annuity(x, s=s, t=t, b=b, variance=True,
+                                             discrete=discrete)
         if not discrete:
             a = b * 1/(self.mu_ + self.interest.delta)
             if t < 0:
-- 
2.43.0


From 95a20e186ed77c9e1496433cb4315dc18ce3c073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:13 +0000
Subject: [PATCH 54/88] fix: name of the allowed risks in the message about an
 unknown one

---
 src/actuarialmath/extrarisk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/extrarisk.py b/src/actuarialmath/extrarisk.py
index ee466b9..1e97f95 100644
--- a/src/actuarialmath/extrarisk.py
+++ b/src/actuarialmath/extrarisk.py
@@ -22,7 +22,7 @@ class ExtraRisk(Actuarial):
                  risk: str = "",
                  extra: float = 0.) -> "ExtraRisk":
         """Specify type and amount of mortality adjustment to apply"""
-        assert not risk or risk in self.risks, "risk must be one of " + str(risks)
+        assert not risk or risk in self.risks, "risk must be one of " + str(self.risks)
         assert extra >= 0, "amount of extra risk must be non-negative"
         self.life = life
         self.extra_ = extra
-- 
2.43.0


From ecc5aeb34e45de20a51a324682d1f2149335342b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:13 +0000
Subject: [PATCH 55/88] fix: mortality without an adjustment

---
 src/actuarialmath/extrarisk.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/actuarialmath/extrarisk.py b/src/actuarialmath/extrarisk.py
index 1e97f95..54e6c95 100644
--- a/src/actuarialmath/extrarisk.py
+++ b/src/actuarialmath/extrarisk.py
@@ -82,6 +82,7 @@ class ExtraRisk(Actuarial):
             return self.life.q_x(x + self.extra_, s=s)
         if self.risk_ in ["MULTIPLY_RATE"]:
             return self.extra_ * self.life.q_x(x, s=s)
+        return self.life.q_x(x, s=s)
 
 if __name__ == "__main__":
     from actuarialmath.selectlife import SelectLife
-- 
2.43.0


From 5ecddbbce381d64009d079af5e23b3a6e27cb1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:02 +0000
Subject: [PATCH 56/88] fix: m'thly insurance factor: deferral, limiting age of
 the life, continuous case

---
 src/actuarialmath/mthly.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/actuarialmath/mthly.py b/src/actuarialmath/mthly.py
index f520300..564c2c0 100644
--- a/src/actuarialmath/mthly.py
+++ b/src/actuarialmath/mthly.py
@@ -114,15 +114,15 @@ class Mthly(Actuarial):
           moment : return first or second moment
         """
         assert moment in [1, 2]
-        t = self.max_term(x+s, t)
+        t = self.life.max_term(x+s+u, t)
         if self.m > 0:
             A = sum([(benefit(x+s, k/self.m) * self.v_m(k+1))**moment 
                      * self.q_m(x, s_m=s*self.m, u_m=k) 
-                     for k in range((t+u) * self.m)])
+                     for k in range(u * self.m, (t+u) * self.m)])
         else:
-            Z = lambda t: ((benefit(x+s, t+u) * self.life.v_t(t+u))**moment
+            Z = lambda t: ((benefit(x+s, t+u) * self.life.interest.v_t(t+u))**moment
                             * self.life.f(x, s, t+u))
-            A = self.life.integrate(Z, 0, t)
+            A = self.life.integral(Z, 0, t)
         return A
 
     def whole_life_insurance(self, x: int, s: int = 0, moment: int = 1, 
-- 
2.43.0


From 5b4161efa847936094cc02c7aef2ecdf70f42731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:02 +0000
Subject: [PATCH 57/88] fix: m'thly whole life insurance from the insurance
 factor to the limiting age

---
 src/actuarialmath/mthly.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/mthly.py b/src/actuarialmath/mthly.py
index 564c2c0..5d482fd 100644
--- a/src/actuarialmath/mthly.py
+++ b/src/actuarialmath/mthly.py
@@ -140,7 +140,7 @@ class Mthly(Actuarial):
             A2 = self.whole_life_insurance(x, s=s, moment=2)
             A1 = self.whole_life_insurance(x, s=s)
             return self.life.insurance_variance(A2=A2, A1=A1, b=b)
-        return sum(self.A_x(x, s=s, b=b, moment=moment))
+        return b**moment * self.A_x(x, s=s, t=Actuarial.WHOLE, moment=moment)
 
 
     def term_insurance(self, x: int, s: int = 0, t: int = 1, b: int = 1, 
-- 
2.43.0


From 6eb2ca113bbf94f01d79a8960cc9d5bfcdf8bd3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:02 +0000
Subject: [PATCH 58/88] fix: m'thly deferred insurance takes u as documented

---
 src/actuarialmath/mthly.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/actuarialmath/mthly.py b/src/actuarialmath/mthly.py
index 5d482fd..03ffd33 100644
--- a/src/actuarialmath/mthly.py
+++ b/src/actuarialmath/mthly.py
@@ -166,7 +166,7 @@ class Mthly(Actuarial):
         A -= E * self.whole_life_insurance(x, s=s+t, b=b, moment=moment)
         return A
 
-    def deferred_insurance(self, x: int, s: int = 0, n: int = 0, b: int = 1, 
+    def deferred_insurance(self, x: int, s: int = 0, u: int = 0, b: int = 1, 
                            t: int = Annuity.WHOLE, moment: int = 1) -> float:
         """Deferred insurance n|_A_x:t^1 = discounted whole life
 
@@ -178,14 +178,14 @@ class Mthly(Actuarial):
           b : amount of benefit
           moment : return first or second moment
         """
-        if self.life.max_term(x+s, n) < n:
+        if self.life.max_term(x+s, u) < u:
             return 0.
         if moment == self.VARIANCE:
-            A2 = self.deferred_insurance(x, s=s, t=t, n=n, moment=2)
-            A1 = self.deferred_insurance(x, s=s, t=t, n=n)
+            A2 = self.deferred_insurance(x, s=s, t=t, u=u, moment=2)
+            A1 = self.deferred_insurance(x, s=s, t=t, u=u)
             return self.life.insurance_variance(A2=A2, A1=A1, b=b)
-        E = self.E_x(x, s=s, t=n, moment=moment)
-        A = self.term_insurance(x, s=s+n, t=t, b=b, moment=moment)
+        E = self.E_x(x, s=s, t=u, moment=moment)
+        A = self.term_insurance(x, s=s+u, t=t, b=b, moment=moment)
         return E * A   # discount insurance by moment*force of interest
 
     def endowment_insurance(self, x: int, s: int = 0, t: int = 1, b: int = 1, 
-- 
2.43.0


From 28e9cb77f6a0b14ae9b0f688586808fa55146e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:02 +0000
Subject: [PATCH 59/88] fix: variance of m'thly endowment insurance counts the
 benefit once

---
 src/actuarialmath/mthly.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/mthly.py b/src/actuarialmath/mthly.py
index 03ffd33..188ce99 100644
--- a/src/actuarialmath/mthly.py
+++ b/src/actuarialmath/mthly.py
@@ -205,7 +205,7 @@ class Mthly(Actuarial):
                                           b=b, moment=2)
             A1 = self.endowment_insurance(x, s=s, t=t, endowment=endowment, 
                                           b=b)
-            return self.life.insurance_variance(A2=A2, A1=A1, b=b)
+            return self.life.insurance_variance(A2=A2, A1=A1)
         E = self.E_x(x, s=s, t=t, moment=moment)
         A = self.term_insurance(x, s=s, t=t, b=b, moment=moment)
         return A + E * (b if endowment < 0 else endowment)**moment
-- 
2.43.0


From 9dd3dd0274fd655101003d6c17780032f167de51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:03 +0000
Subject: [PATCH 60/88] fix: m'thly whole life annuity by its insurance twin

---
 src/actuarialmath/mthly.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/mthly.py b/src/actuarialmath/mthly.py
index 188ce99..417158c 100644
--- a/src/actuarialmath/mthly.py
+++ b/src/actuarialmath/mthly.py
@@ -264,7 +264,7 @@ class Mthly(Actuarial):
             A1 = self.whole_life_insurance(x, s=s, moment=1)
             A2 = self.whole_life_insurance(x, s=s, moment=2)
             return self.annuity_variance(A2=A2, A1=A1, b=b)
-        return b * (1 - self.whole_life_insurance(x, s=s)) / self.d
+        return b * self.annuity_twin(self.whole_life_insurance(x, s=s))
             
     def temporary_annuity(self, x: int, s: int = 0, t: int = Annuity.WHOLE, 
                           b: int = 1, variance: bool = False) -> float:
-- 
2.43.0


From dcbd7f06aab8bba2f869903e4220d72850b6b293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:03 +0000
Subject: [PATCH 61/88] fix: variance of m'thly temporary annuity from the
 endowment insurance

---
 src/actuarialmath/mthly.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/actuarialmath/mthly.py b/src/actuarialmath/mthly.py
index 417158c..3a47ba1 100644
--- a/src/actuarialmath/mthly.py
+++ b/src/actuarialmath/mthly.py
@@ -278,13 +278,13 @@ class Mthly(Actuarial):
           variance : return first moment (False) or variance (True)
         """
         if variance:  # short cut for variance of temporary life annuity
-            A1 = self.term_insurance(x, s=s, t=t)
-            A2 = self.term_insurance(x, s=s, t=t, moment=2)
+            A1 = self.endowment_insurance(x, s=s, t=t)
+            A2 = self.endowment_insurance(x, s=s, t=t, moment=2)
             return self.annuity_variance(A2=A2, A1=A1, b=b)
 
         # difference of whole life on (x) and deferred whole life on (x+t)
         a = self.whole_life_annuity(x, s=s, b=b)
-        if t < 0 or self.max_term(x+s, t) < t:
+        if t < 0 or self.life.max_term(x+s, t) < t:
             return a
         a_t = self.whole_life_annuity(x, s=s+t, b=b)
         return a - (a_t * self.E_x(x, s=s, t=t))
-- 
2.43.0


From c8dc83a92394a3de410ac4d4ca0b06694158d076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:03 +0000
Subject: [PATCH 62/88] fix: continuous immediate annuity keeps its amount

---
 src/actuarialmath/mthly.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/mthly.py b/src/actuarialmath/mthly.py
index 3a47ba1..9e4fb48 100644
--- a/src/actuarialmath/mthly.py
+++ b/src/actuarialmath/mthly.py
@@ -318,7 +318,7 @@ class Mthly(Actuarial):
         if self.m > 0:
             return (a - ((1 - self.E_x(x, s=s, t=t)) / self.m)) * b
         else:
-            return a
+            return a * b
 
 if __name__ == "__main__":
     from actuarialmath.lifetable import LifeTable
-- 
2.43.0


From 2438f5b0fcf8b0259b5bf591e2057a6186fc387d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:38 +0000
Subject: [PATCH 63/88] fix: UDD whole life insurance: amount of benefit and
 second moment

---
 src/actuarialmath/udd.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/actuarialmath/udd.py b/src/actuarialmath/udd.py
index 4783519..e84c152 100644
--- a/src/actuarialmath/udd.py
+++ b/src/actuarialmath/udd.py
@@ -66,9 +66,9 @@ class UDD(Mthly):
         A = self.life.whole_life_insurance(x, s=s, moment=moment)
         i = self.life.interest.i
         if moment == 2:
-            i = self.interest.double_force(i)
+            i = self.life.interest.double_force(i)
         i_m = self.life.interest.mthly(m=self.m, i=i)        
-        return A * i / i_m
+        return b**moment * A * i / i_m
 
     def endowment_insurance(self, x: int, s: int = 0, t: int = 1, b: int = 1, 
                             endowment: int = -1, moment: int = 1) -> float:
-- 
2.43.0


From 57629f2200f325f9bcc6db1cdaa55babadd91271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:38 +0000
Subject: [PATCH 64/88] fix: UDD term insurance second moment

---
 src/actuarialmath/udd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/udd.py b/src/actuarialmath/udd.py
index e84c152..db2cdac 100644
--- a/src/actuarialmath/udd.py
+++ b/src/actuarialmath/udd.py
@@ -114,7 +114,7 @@ class UDD(Mthly):
         A = self.life.term_insurance(x, s=s, t=t, b=b, moment=moment)
         i = self.life.interest.i
         if moment == 2:
-            i = self.interest.double_force(i)
+            i = self.life.interest.double_force(i)
         i_m = self.life.interest.mthly(m=self.m, i=i)        
         return A * (i / i_m)
 
-- 
2.43.0


From 8ce35d828f7a1c24a009eedba1f019774d1688db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:38 +0000
Subject: [PATCH 65/88] fix: variance of UDD annuities from the insurance twins

---
 src/actuarialmath/udd.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/actuarialmath/udd.py b/src/actuarialmath/udd.py
index db2cdac..619ba14 100644
--- a/src/actuarialmath/udd.py
+++ b/src/actuarialmath/udd.py
@@ -134,7 +134,7 @@ class UDD(Mthly):
         if variance:  # short cut for variance of whole life
             A1 = self.whole_life_insurance(x, s=s, moment=1)
             A2 = self.whole_life_insurance(x, s=s, moment=2)
-            return (b**2 * (A2 - A1**2) / self.d**2)
+            return self.annuity_variance(A2=A2, A1=A1, b=b)
         a = self.life.whole_life_annuity(x, s=s)
         return b * (a * self.alpha_m - self.beta_m)
             
@@ -153,9 +153,9 @@ class UDD(Mthly):
           >>> UDD(m=12, life=SULT(udd=True)).temporary_annuity(45, t=20)
         """
         if variance:  # short cut for variance of temporary life annuity
-            A1 = self.temporary_insurance(x, s=s, t=t)
-            A2 = self.temporary_insurance(x, s=s, t=t, moment=2)
-            return (b**2 * (A2 - A1**2) / self.d**2)
+            A1 = self.endowment_insurance(x, s=s, t=t)
+            A2 = self.endowment_insurance(x, s=s, t=t, moment=2)
+            return self.annuity_variance(A2=A2, A1=A1, b=b)
 
         # difference of whole life on (x) and deferred whole life on (x+t)
         if t < 0:
-- 
2.43.0


From bf57ba75f970b30036eb43fcb5eeac1182ccddf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:38 +0000
Subject: [PATCH 66/88] fix: UDD deferred annuity: deferral and variance, and
 the term it is limited to

---
 src/actuarialmath/udd.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/actuarialmath/udd.py b/src/actuarialmath/udd.py
index 619ba14..a092618 100644
--- a/src/actuarialmath/udd.py
+++ b/src/actuarialmath/udd.py
@@ -175,15 +175,17 @@ class UDD(Mthly):
           t : term of annuity in years
           b : amount of benefit
         """
-        if self.max_term(x+s, n) < n:
+        if self.life.max_term(x+s, u) < u:
             return 0.
-        if variance:  # short cut for variance of temporary life annuity
-            A1 = self.endowment_insurance(x, s=s, t=t)
-            A2 = self.endowment_insurance(x, s=s, t=t, moment=2)
-            return (b**2 * (A2 - A1**2) / self.d**2)
+        if variance:  # from moments of the annuity payable after deferral
+            a = self.temporary_annuity(x, s=s+u, t=t)
+            a2 = self.temporary_annuity(x, s=s+u, t=t, variance=True) + a**2
+            return b**2 * (self.E_x(x, s=s, t=u, moment=2) * a2
+                           - (self.E_x(x, s=s, t=u) * a)**2)
 
         a = self.life.deferred_annuity(x, s=s, u=u, t=t)
-        return (a * self.alpha_m - self.beta_m * self.E_x(x, s=s, t=u)) * b
+        E = self.E_x(x, s=s, t=u) * (1 - self.E_x(x, s=s+u, t=t))
+        return (a * self.alpha_m - self.beta_m * E) * b
 
     @staticmethod
     def interest_frame(i: float = 0.05):
-- 
2.43.0


From 2c2d9d056df7ca202f7ca5dde66325c327a4c072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:29 +0000
Subject: [PATCH 67/88] fix: Woolhouse annuity accepts a force of zero

---
 src/actuarialmath/woolhouse.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/actuarialmath/woolhouse.py b/src/actuarialmath/woolhouse.py
index 4a9c17a..bc986d3 100644
--- a/src/actuarialmath/woolhouse.py
+++ b/src/actuarialmath/woolhouse.py
@@ -38,7 +38,7 @@ class Woolhouse(Mthly):
             return self.approximate_mu(x, s)
 
     def whole_life_insurance(self, x: int, s: int = 0, b: int = 1,
-                             mu: float | None = 0.) -> float:
+                             mu: float | None = None) -> float:
         """1/m'thly Woolhouse whole life insurance: A_x
  
         Args:
@@ -50,7 +50,7 @@ class Woolhouse(Mthly):
         return b * self.insurance_twin(self.whole_life_annuity(x, s=s, mu=mu))
 
     def term_insurance(self, x: int, s: int = 0, t: int = Annuity.WHOLE,
-                       b: int = 1, mu: float | None = 0., 
+                       b: int = 1, mu: float | None = None,
                        mu1: float | None = None) -> float:
         """1/m'thly Woolhouse term insurance: A_x:t
 
@@ -124,7 +124,7 @@ class Woolhouse(Mthly):
         a = (self.life.whole_life_annuity(x, s=s, discrete=True) -
              (self.m - 1)/(2 * self.m))
         if self.three_term:
-            mu = mu or self.mu_x(x, s)
+            mu = self.mu_x(x, s) if mu is None else mu
             a -= (mu + self.life.interest.delta)*(self.m**2 - 1)/(12 * self.m**2)
         return a * b
 
-- 
2.43.0


From 4fc4d328c67b441b82ca4fd4b9ef55a17ef0b305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:29 +0000
Subject: [PATCH 68/88] fix: force at the end of the term in the Woolhouse
 endowment insurance

---
 src/actuarialmath/woolhouse.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/actuarialmath/woolhouse.py b/src/actuarialmath/woolhouse.py
index bc986d3..6e5f668 100644
--- a/src/actuarialmath/woolhouse.py
+++ b/src/actuarialmath/woolhouse.py
@@ -70,7 +70,8 @@ class Woolhouse(Mthly):
 
     def endowment_insurance(self, x: int, s: int = 0, t: int = Annuity.WHOLE,
                             b: int = 1, endowment: int = -1, 
-                            mu: float | None = None) -> float:
+                            mu: float | None = None,
+                            mu1: float | None = None) -> float:
         """1/m'thly Woolhouse term insurance: A_x:t
 
         Args:
@@ -79,12 +80,13 @@ class Woolhouse(Mthly):
           t : term of insurance in years
           b : amount of benefit
           endowment : amount of endowment
-          mu : value of mu at age x+s+t
+          mu : value of mu at age x+s
+          mu1 : value of mu at age x+s+t
         """
         if endowment < 0:
             endowment = b
         E = self.E_x(x, s=s, t=t)
-        A = self.term_insurance(x, s=s, t=t, b=b, mu=mu)
+        A = self.term_insurance(x, s=s, t=t, b=b, mu=mu, mu1=mu1)
         return A + E * (b if endowment < 0 else endowment)
 
     def deferred_insurance(self, x: int, s: int = 0, u: int = 0,
-- 
2.43.0


From 4e45c61e691148dce1e721326f8b5c9830257908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:37 +0000
Subject: [PATCH 69/88] fix: Woolhouse values for a term of zero or up to the
 limiting age

---
 src/actuarialmath/woolhouse.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/actuarialmath/woolhouse.py b/src/actuarialmath/woolhouse.py
index 6e5f668..746b185 100644
--- a/src/actuarialmath/woolhouse.py
+++ b/src/actuarialmath/woolhouse.py
@@ -63,7 +63,7 @@ class Woolhouse(Mthly):
           mu1 : value of mu at age x+s+t
         """
         A = self.whole_life_insurance(x, s=s, b=b, mu=mu)
-        if t < 0 or self.life.max_term(x+s, t) < t:
+        if t < 0 or self.life.max_term(x+s, self.life.WHOLE) <= t:
             return A
         E = self.E_x(x, s=s, t=t)
         return A - E * self.whole_life_insurance(x, s=s+t, b=b, mu=mu1)
@@ -104,7 +104,7 @@ class Woolhouse(Mthly):
           mu : value of mu at age x+s+u
           mu1 : value of mu at age x+s+u+t
         """
-        if self.life.max_term(x+s, u) < u:
+        if u > 0 and self.life.max_term(x+s, self.life.WHOLE) <= u:
             return 0.
         E = self.E_x(x, s=s, t=u)
         return E * self.term_insurance(x, s=s+u, t=t, b=b, mu=mu, mu1=mu1)
@@ -158,10 +158,13 @@ class Woolhouse(Mthly):
           mu : value of mu at age x+s+u
           mu1 : value of mu at age x+s+u+t
         """
-        a_x = self.whole_life_annuity(x, s=s+u, mu=mu)
-        a_xt = self.whole_life_annuity(x, s=s+t+u, mu=mu1) if t > 0 else 0
-        a = self.E_x(x, s=s, t=u) * (a_x - self.E_x(x, s=s+u, t=t) * a_xt)
-        return a * b
+        if u > 0 and self.life.max_term(x+s, self.life.WHOLE) <= u:
+            return 0.
+        a = self.whole_life_annuity(x, s=s+u, mu=mu)
+        if 0 <= t < self.life.max_term(x+s+u, self.life.WHOLE):
+            a_xt = self.whole_life_annuity(x, s=s+t+u, mu=mu1)
+            a -= self.E_x(x, s=s+u, t=t) * a_xt
+        return self.E_x(x, s=s, t=u) * a * b
 
 if __name__ == "__main__":
     from actuarialmath.sult import SULT
-- 
2.43.0


From f3bc8c0cad9f14aae8e3ca595875b0cbbb2d3e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:54 +0000
Subject: [PATCH 70/88] fix: recursion: probability of ever dying after a
 deferral is the chance of surviving it

---
 src/actuarialmath/recursion.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index 7c8dc6a..6d4bfdb 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -450,8 +450,8 @@ class Recursion(Reserves):
             return found
         if t == 0:
             return 0
-        if t < 0:
-            return 1
+        if t < 0:     # dies at any time after surviving u years
+            return self._p_x(x, s=s, t=u, depth=depth)
         if u > 0:
             pu = self._p_x(x, s=s, t=u, depth=depth-1) #depth-1)
             qt = self._get_q(x, s=s+u, t=t)
-- 
2.43.0


From 7f29970f6b101d10bf6431d15ff339a81912807f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:54 +0000
Subject: [PATCH 71/88] fix: recursion: moments of a pure endowment use its own
 term and amount

---
 src/actuarialmath/recursion.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index 6d4bfdb..60fd84c 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -821,13 +821,13 @@ class Recursion(Reserves):
         if t == 0:    # t = 0 => EPV(0) = endowment**moment
             return endowment**moment
         if moment > 1:
-            E = self._E_x(x, s=s, endowment=endowment, depth=depth)
-            if E:  # (1) Shortcut: 2E_x = v E_x
+            E = self._E_x(x, s=s, t=t, endowment=endowment, depth=depth)
+            if E:  # (1) Shortcut: 2E_x = v_t E_x
                 self.blog(self.pprint.E(x=x, s=s, t=t, moment=moment),
                           f"= " + self.pprint.m(moment*t, v="v"), '*',
                           self.pprint.E(x=x, s=s, t=t),
                           depth=depth, rule='moments of pure endowment')
-                return E * self.interest.v**(moment-1)
+                return E * (endowment * self.interest.v_t(t))**(moment-1)
             else:
                 self.blog.pop(depth=depth)
 
-- 
2.43.0


From f67b51db2961423b630f2163d2567f11f5bd9098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:54 +0000
Subject: [PATCH 72/88] fix: recursion: moments of pure endowments scale with
 the amount to that power

---
 src/actuarialmath/recursion.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index 60fd84c..5a3f54d 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -792,8 +792,8 @@ class Recursion(Reserves):
         """
         key = self._db_key('E', x=x+s, t=t, moment=moment)
         val = self.db.get(key, None)
-        if val is not None:
-            return val * endowment   # stored with benefit=1
+        if val is not None:   # stored with benefit=1
+            return val * endowment**abs(moment)
 
     def set_E(self, val: float, x: int, s: int = 0, t: int = 1, 
               endowment: int = 1, moment: int = 1) -> "Recursion":
@@ -807,7 +807,7 @@ class Recursion(Reserves):
           endowment : endowment value
           moment : first or second moment of pure endowment
         """
-        val /= endowment   # store with benefit=1
+        val /= endowment**abs(moment)   # store with benefit=1
         return self._db_put(self._db_key('E', x=x+s, t=t, moment=moment), val)
 
     def _E_x(self, x: int, s: int = 0, t: int = 1, endowment: int = 1, 
-- 
2.43.0


From 7c61879a6e87bba774ed040ff2f72ece4cc335bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:54 +0000
Subject: [PATCH 73/88] fix: recursion: moments of insurances scale with the
 benefit to that power

---
 src/actuarialmath/recursion.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index 5a3f54d..2d76f0b 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -1116,8 +1116,8 @@ class Recursion(Reserves):
         """
         if endowment < 0:   # endowment insurance with equal benefits
             endowment = b
-        if t == 0:          # terminal value of insurance
-            return endowment
+        if t == 0 and u == 0:   # terminal value of insurance
+            return endowment**moment if moment > 0 else 0
         if b == 0:          # normalize insurance factor by benefit amount
             scale = endowment
             endowment = 1
@@ -1128,7 +1128,7 @@ class Recursion(Reserves):
                            endowment=endowment, discrete=discrete)
         val = self.db.get(key, None)
         if val is not None:
-            return val * scale   # stored with benefit=1
+            return val * scale**abs(moment)   # stored with benefit=1
 
 
     def set_A(self, val: float, x: int, s: int = 0, t: int = Reserves.WHOLE,
@@ -1152,12 +1152,12 @@ class Recursion(Reserves):
         if endowment < 0:      # endowment insurance with equal death and endow
             endowment = b
         if endowment == 0:     # normalize insurance factor by benefit amount
-            val /= b
+            val /= b**abs(moment)
         elif b == 0:
-            val /= endowment   # store with benefit=1
+            val /= endowment**abs(moment)   # store with benefit=1
         else:
             if b != 1:
-                val /= b
+                val /= b**abs(moment)
                 endowment /= b
         return self._db_put(self._db_key('A', x=x+s, t=t, u=u,
                                          moment=moment, endowment=endowment, 
-- 
2.43.0


From e489b944ab0935f5ed7122e57a5ec61a3998ede3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:24 +0000
Subject: [PATCH 74/88] fix: recursion: insurance without a death benefit is a
 pure endowment, not an endowment insurance

---
 src/actuarialmath/recursion.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index 2d76f0b..33e3511 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -1118,12 +1118,11 @@ class Recursion(Reserves):
             endowment = b
         if t == 0 and u == 0:   # terminal value of insurance
             return endowment**moment if moment > 0 else 0
-        if b == 0:          # normalize insurance factor by benefit amount
-            scale = endowment
-            endowment = 1
-        else:
-            scale = b
-            endowment = 1 if b == endowment else endowment / b
+        if b == 0:          # no death benefit
+            return None if u else self._get_E(x, s=s, t=t, moment=moment,
+                                              endowment=endowment)
+        scale = b           # normalize insurance factor by benefit amount
+        endowment = 1 if b == endowment else endowment / b
         key = self._db_key('A', x=x+s, u=u, t=t, moment=moment, 
                            endowment=endowment, discrete=discrete)
         val = self.db.get(key, None)
@@ -1151,10 +1150,11 @@ class Recursion(Reserves):
         """
         if endowment < 0:      # endowment insurance with equal death and endow
             endowment = b
+        if b == 0 and u == 0:  # no death benefit
+            return self.set_E(val, x, s=s, t=t, endowment=endowment,
+                              moment=moment)
         if endowment == 0:     # normalize insurance factor by benefit amount
             val /= b**abs(moment)
-        elif b == 0:
-            val /= endowment**abs(moment)   # store with benefit=1
         else:
             if b != 1:
                 val /= b**abs(moment)
-- 
2.43.0


From 97537720029e2645f8a3a3f8a2395b4319a8cf0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:24 +0000
Subject: [PATCH 75/88] fix: recursion: variance of an insurance does not
 follow the recursions of its moments

---
 src/actuarialmath/recursion.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index 33e3511..14f4f9d 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -1168,6 +1168,9 @@ class Recursion(Reserves):
              moment: int = 1, depth: int = 1) -> float | None:
         """Helper to compute from recursive and alternate formulas"""
 
+        if moment == self.VARIANCE:   # rules below hold for moments only
+            return self._get_A(x=x, s=s, t=t, b=b, u=u, discrete=discrete,
+                               moment=moment, endowment=endowment)
         if endowment == b and t == 1 and discrete: # 1-year endow ins
 #            self.blog(self.pprint.A(x=x, s=s, t=1, endowment=b, b=b, moment=moment),
 #                      '=', self.pprint.m(moment, v="v"),
-- 
2.43.0


From 5477603838d0610a524b7d9c1d508073fcf84f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:24 +0000
Subject: [PATCH 76/88] fix: recursion: deferral of one-year endowment and of
 continuous insurance

---
 src/actuarialmath/recursion.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index 14f4f9d..9658718 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -1171,7 +1171,7 @@ class Recursion(Reserves):
         if moment == self.VARIANCE:   # rules below hold for moments only
             return self._get_A(x=x, s=s, t=t, b=b, u=u, discrete=discrete,
                                moment=moment, endowment=endowment)
-        if endowment == b and t == 1 and discrete: # 1-year endow ins
+        if endowment == b and t == 1 and u == 0 and discrete: # 1-year endow ins
 #            self.blog(self.pprint.A(x=x, s=s, t=1, endowment=b, b=b, moment=moment),
 #                      '=', self.pprint.m(moment, v="v"),
 #                      depth=depth, rule='one-year endowment insurance')
@@ -1183,7 +1183,7 @@ class Recursion(Reserves):
         if depth <= 0:
             return None
 
-        if discrete and u > 0:  # (1) deferred insurance  
+        if u > 0:  # (1) deferred insurance
             A = self._A_x(x=x, s=s+1, t=t, b=b, u=u-1, discrete=discrete, 
                               moment=moment, endowment=endowment, depth=depth-1)
             E = self._E_x(x, s=s, t=1, moment=moment, depth=depth-1)
-- 
2.43.0


From 5b7abab45a81c9821f16538d526e18ec7f501e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:24 +0000
Subject: [PATCH 77/88] fix: recursion: deferred insurance tested an undefined
 name

---
 src/actuarialmath/recursion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index 9658718..ca25d19 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -1187,7 +1187,7 @@ class Recursion(Reserves):
             A = self._A_x(x=x, s=s+1, t=t, b=b, u=u-1, discrete=discrete, 
                               moment=moment, endowment=endowment, depth=depth-1)
             E = self._E_x(x, s=s, t=1, moment=moment, depth=depth-1)
-            if A is not None and p is not None:  # (1a) backward E_x * A
+            if A is not None and E is not None:  # (1a) backward E_x * A
                 #msg = f"backward deferred {u}_A_{x+s}: {u}_E * A_{x+s+u}"
                 self.blog(self.pprint.A(x=x, s=s, t=t, u=u, b=b, moment=moment), '=',
                           self.pprint.E(x=x, s=s, moment=moment), '*',
-- 
2.43.0


From ce7a2311fe6f02cb6871329e4549c0d143aab327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:24 +0000
Subject: [PATCH 78/88] fix: recursion: explanation of one-year insurance
 raised an error

---
 src/actuarialmath/recursion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index ca25d19..b9b6dc3 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -1261,7 +1261,7 @@ class Recursion(Reserves):
                           self.pprint.m(moment, v="v"), "*",
                           self.pprint.q(x=x, s=s), f"*",
                           self.pprint.m(moment, v="v"), "+",
-                          self.pprint.p(x=x, s=s), f"*".
+                          self.pprint.p(x=x, s=s), f"*",
                           self.pprint.m(moment, endow=endowment),
                           #f"discrete 1-year insurance: A_{x+s}:1 = qv",
                           depth=depth, rule='one-year discrete insurance')
-- 
2.43.0


From c02e80c9ee93ae243d7475cd659080a960b5bed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:24 +0000
Subject: [PATCH 79/88] fix: recursion: backward recursion of increasing
 insurance adds the insurance of the whole term

---
 src/actuarialmath/recursion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index b9b6dc3..8deb602 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -962,7 +962,7 @@ class Recursion(Reserves):
                 self.blog.pop(depth=depth)
 
         if discrete:
-            A = self._A_x(x=x, s=s, t=1, b=b, discrete=discrete, depth=depth-1)
+            A = self._A_x(x=x, s=s, t=t, b=b, discrete=discrete, depth=depth-1)
             IA = self._IA_x(x=x, s=s+1, t=self.add_term(t, -1), b=b, depth=depth-1)
             p = self._p_x(x, s=s, t=1, depth=depth-1)   # FIXED t=1
             if A is not None and IA is not None and p is not None:
-- 
2.43.0


From e553c4c70b254422a0ed0280eebbeda2933b3df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:05 +0000
Subject: [PATCH 80/88] fix: recursion: stored decreasing insurance is scaled
 by the benefit

---
 src/actuarialmath/recursion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index 8deb602..06e4066 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -1037,7 +1037,7 @@ class Recursion(Reserves):
     def _DA_x(self, x: int, s: int = 0, t: int = Reserves.WHOLE, b: int = 1,
               discrete: bool = True, depth: int = 1) -> float | None:
         """Helper to compute from recursive and alternate formulas"""
-        found = self._get_DA(x=x, s=s, t=t, discrete=discrete)
+        found = self._get_DA(x=x, s=s, t=t, b=b, discrete=discrete)
         if found is not None:
             return found
         if t == 0:
-- 
2.43.0


From f3bbb661fda2ba6e1e87980c2bcf2248cb99fd75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:05 +0000
Subject: [PATCH 81/88] fix: recursion: decreasing insurance is by its term,
 from the increasing insurance

---
 src/actuarialmath/recursion.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index 06e4066..a5983af 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -1044,11 +1044,11 @@ class Recursion(Reserves):
             return 0
         if depth <= 0:
             return None
-        assert t < 0,  "Decreasing insurance must be term insurance"
+        assert t > 0,  "Decreasing insurance must be term insurance"
     
         A = self._A_x(x=x, s=s, t=t, b=b, discrete=discrete, depth=depth-1)
         n = t + int(discrete)
-        IA = self._DA_x(x=x, s=s, t=t, b=b, discrete=discrete, depth=depth-1)
+        IA = self._IA_x(x=x, s=s, t=t, b=b, discrete=discrete, depth=depth-1)
         if A is not None and IA is not None:
             self.blog(self.pprint.DA(x=x, s=s, t=t), f'= {n}',
                       self.pprint.A(x=x, s=s, t=t), '-',
-- 
2.43.0


From fe910a176dae27ed0e65703a506eb83ccc0fa085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:05 +0000
Subject: [PATCH 82/88] fix: recursion: backward recursion of decreasing
 insurance

---
 src/actuarialmath/recursion.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index a5983af..2579d30 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -1059,7 +1059,7 @@ class Recursion(Reserves):
             self.blog.pop(depth=depth)
 
         if discrete:
-            DA = self._IA_x(x=x, s=s+1, t=self.add_term(t, -1), b=b, depth=depth-1)
+            DA = self._DA_x(x=x, s=s+1, t=self.add_term(t, -1), b=b, depth=depth-1)
             p = self._p_x(x, s=s, depth=depth-1)
             if DA is not None and p is not None:
                 #f"backward DA_{x+s}:{t}: v(t q_{x+s} + p_{x+s} DA_{x+s+1}:{t-1})"
@@ -1068,7 +1068,7 @@ class Recursion(Reserves):
                           self.pprint.q(x=x, s=s), '+',
                           self.pprint.p(x=x, s=s), '*', self.pprint.DA(x=x, s=s+1, t=t-1),
                           depth=depth, rule='backward recursion')
-                return self.interest.v * ((1-p)*t + p*DA)  # (2) backward recursion
+                return self.interest.v * ((1-p)*t*b + p*DA)  # (2) backward recursion
             else:
                 self.blog.pop(depth=depth)
 
-- 
2.43.0


From 1d72288f433cc0152cac951e2b02f567b0d410bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:05 +0000
Subject: [PATCH 83/88] fix: recursion: variance of an annuity is stored,
 certain, or computed from its twin

---
 src/actuarialmath/recursion.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index 2579d30..498e525 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -1480,8 +1480,8 @@ class Recursion(Reserves):
         key = self._db_key('a', x=x+s, u=u, t=t, 
                            variance=variance, discrete=discrete)
         val = self.db.get(key, None)
-        if val is not None:
-            return val * b    # stored with benefit=1
+        if val is not None:   # stored with benefit=1
+            return val * (b**2 if variance else b)
 
     def set_a(self, val: float, x: int, s: int = 0, t: int = Reserves.WHOLE,
               u: int = 0, b: int = 1, variance: bool = False, 
@@ -1501,7 +1501,7 @@ class Recursion(Reserves):
         Examples:
           >>> Recursion().set_interest(i=0.06).set_a(7, x=1)
         """
-        val /= b    # store with benefit=1
+        val /= b**2 if variance else b    # store with benefit=1
         return self._db_put(self._db_key('a', x=x+s, t=t, u=u, 
                                          variance=variance, discrete=discrete), val)
 
@@ -1512,16 +1512,15 @@ class Recursion(Reserves):
         if t == 1 and not u and discrete:
 #            self.blog(self.pprint.a(x=x, s=s, t=1, discrete=discrete), '= 1',
 #                      depth=depth, rule='one-year discrete annuity')
-            return b 
+            return 0 if variance else b
         if t == 0:
             return 0
         found = self._get_a(x=x, s=s, t=t, b=b, u=u, discrete=discrete,
                             variance=variance)
         if found is not None:
             return found
-        if depth <= 0:
+        if depth <= 0 or variance:   # recursions are for the first moment only
             return None
-        assert variance is False, "Annuity recursion requires variance=False"
 
         if u > 0:  # (1) deferred annuity
             found = self._a_x(x=x, s=s+1, t=t, b=b, u=u-1, discrete=discrete, 
-- 
2.43.0


From 8702829e19c7b25a3bbfc8b0dc95dded8136b424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:05 +0000
Subject: [PATCH 84/88] fix: recursion: twin of an insurance or annuity of any
 amount

---
 src/actuarialmath/recursion.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index 498e525..4cb7883 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -1370,14 +1370,14 @@ class Recursion(Reserves):
             self.blog.display()
             return found
         if moment == 1 and self.interest.i > 0:  # (1) twin annuity
-            a = self._a_x(x, s=s, b=b, discrete=discrete, depth=self.maxdepth)
+            a = self._a_x(x, s=s, discrete=discrete, depth=self.maxdepth)
             if a is not None:
                 self.blog(self.pprint.a(x=x, s=s), '= [ 1 -',
                           self.pprint.A(x=x, s=s), f"] / d",
                           #"Annuity twin: a = (1 - A) / d",
                           depth=self.maxdepth, rule='annuity twin')
                 self.blog.display()
-                return self.insurance_twin(a=a, discrete=discrete)
+                return b * self.insurance_twin(a=a, discrete=discrete)
         A = super().whole_life_insurance(x, s=s, b=b, discrete=discrete,
                                          moment=moment)
         if A is not None:
@@ -1449,11 +1449,11 @@ class Recursion(Reserves):
             self.blog.display()
             return found
         if moment == 1 and endowment == b and self.interest.i > 0:
-            a = self._a_x(x, s=s, b=b, t=t, discrete=discrete,
+            a = self._a_x(x, s=s, t=t, discrete=discrete,
                           depth=self.maxdepth)
             if a is not None:   # twin insurance
                 self.blog.display()
-                return self.insurance_twin(a=a, discrete=discrete)
+                return b * self.insurance_twin(a=a, discrete=discrete)
         A = super().endowment_insurance(x, s=s, b=b, t=t, discrete=discrete,
                                         moment=moment, endowment=endowment)
         if A is not None:
@@ -1604,13 +1604,13 @@ class Recursion(Reserves):
             self.blog.display()
             return found
         if not variance and self.interest.i > 0:  # (1) twin insurance shortcut
-            A = self._A_x(x, s=s, b=b, discrete=discrete, depth=self.maxdepth)
+            A = self._A_x(x, s=s, discrete=discrete, depth=self.maxdepth)
             if A is not None:
                 self.blog(self.pprint.a(x=x, s=s, discrete=discrete, variance=variance),
                           "= [1 -", self.pprint.A(x=x, s=s, discrete=discrete), "] / d",
                           depth=self.maxdepth, rule='insurance twin')
                 self.blog.display()
-                return self.annuity_twin(A=A, discrete=discrete)
+                return b * self.annuity_twin(A=A, discrete=discrete)
         a = super().whole_life_annuity(x, s=s, b=b, discrete=discrete,
                                        variance=variance)
         if a is not None:
@@ -1640,15 +1640,15 @@ class Recursion(Reserves):
             self.blog.display()
             return found
         if not variance and self.interest.i > 0: # (1) twin insurance shortcut
-            A = self._A_x(x, s=s, b=b, t=t, endowment=b, discrete=discrete, 
+            A = self._A_x(x, s=s, t=t, endowment=1, discrete=discrete,
                           depth=self.maxdepth)
             if A is not None:
-                self.blog(self.pprint.a(x=x, s=s, t=t, b=b), '= [ 1 -',
-                          self.pprint.A(x=x, s=s, t=t, b=b, endowment=b), f"] / d",
+                self.blog(self.pprint.a(x=x, s=s, t=t), '= [ 1 -',
+                          self.pprint.A(x=x, s=s, t=t, endowment=1), f"] / d",
                           #"Annuity twin: a = (1 - A) / d",
                           depth=self.maxdepth, rule='annuity twin')
                 self.blog.display()
-                return self.annuity_twin(A=A, discrete=discrete)
+                return b * self.annuity_twin(A=A, discrete=discrete)
         a = super().temporary_annuity(x, s=s, b=b, t=t, discrete=discrete,
                                       variance=variance)
         if a is not None:
-- 
2.43.0


From 406205372ab90503d87ce9755920b76b530a0dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:05 +0000
Subject: [PATCH 85/88] fix: recursion: deferred annuity keeps its deferral

---
 src/actuarialmath/recursion.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index 4cb7883..f044610 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -1683,7 +1683,8 @@ class Recursion(Reserves):
         if a is not None and a_t is not None:
             self.blog.display()
             return a - a_t
-        return super().deferred_annuity(x, s=s, b=b, t=t, discrete=discrete)
+        return super().deferred_annuity(x, s=s, b=b, u=u, t=t,
+                                        discrete=discrete)
 
 # to auto-detect notebook environment
 try:
-- 
2.43.0


From 0970ca8ecc56b4883526abcafbcb935cf94a382c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:11 +0000
Subject: [PATCH 86/88] fix: display the recursion steps as text in a notebook

---
 src/actuarialmath/recursion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index f044610..d68213c 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -69,7 +69,7 @@ class _Blog:
             if _Blog._notebook and _Blog._latex:
                 display_latex(_str, raw=True)
             elif _Blog._notebook:
-                display_pretty(_self, raw=True)
+                display_pretty(_str, raw=True)
             else:
                 print(_str, end=end)
             
-- 
2.43.0


From 244728775ad0a762595bba1388a1f42d7a90d89d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:11 +0000
Subject: [PATCH 87/88] fix: setting an absent item to None stores nothing

---
 src/actuarialmath/recursion.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index d68213c..09a7b8d 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -395,8 +395,8 @@ class Recursion(Reserves):
           key : key of the item
           value : value to store for item
         """
-        if value is None and key in self.db:
-            self.db.pop(key)
+        if value is None:
+            self.db.pop(key, None)
         else:
             self.db[key] = value
             label = key[0]
-- 
2.43.0


From cb0de115f9dcd572935ba9980871ac803704c7d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:43 +0000
Subject: [PATCH 88/88] fix: endowment insurance without a term is whole life
 insurance

---
 src/actuarialmath/recursion.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/actuarialmath/recursion.py b/src/actuarialmath/recursion.py
index 09a7b8d..646a7ab 100644
--- a/src/actuarialmath/recursion.py
+++ b/src/actuarialmath/recursion.py
@@ -1440,7 +1440,9 @@ class Recursion(Reserves):
                                             discrete=discrete,
                                             endowment=endowment, moment=moment),
                               levels=self.maxdepth)
-        assert t >= 0
+        if t < 0:     # never endows
+            return self.whole_life_insurance(x, s=s, b=b, moment=moment,
+                                             discrete=discrete)
         if endowment < 0:
             endowment = b
         found = self._A_x(x, s=s, b=b, t=t, moment=moment, discrete=discrete,
-- 
2.43.0

