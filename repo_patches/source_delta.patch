From d6eaf2eb48d10ac3a60c647eb2e0866389c0b2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:28:46 +0000
Subject: [PATCH 01/86] fix: step function on arrays honours the shift and no
 longer raises NameError

---
 pacal/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pacal/utils.py b/pacal/utils.py
index ffa5d57..3e89466 100644
--- a/pacal/utils.py
+++ b/pacal/utils.py
@@ -384,8 +384,8 @@ def stepfun(x, shift = 0.0):
         else:
             return 1.0
     else:
-        mask = (x >= 0.0)
-        y = zeros_like(x, dtype=float)
+        mask = (x >= shift)
+        y = np.zeros_like(x, dtype=float)
         y[mask] = 1.0
         return y
 
-- 
2.43.0


From 43ea6531f11a523f951d77cba63c4b7981adc50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:51 +0000
Subject: [PATCH 02/86] fix: Chebyshev transforms scale the leading coefficient
 correctly

---
 pacal/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pacal/utils.py b/pacal/utils.py
index 3e89466..790f2b9 100644
--- a/pacal/utils.py
+++ b/pacal/utils.py
@@ -178,14 +178,14 @@ def chebt2(f):
     #print n, len(fftcoef)
     #print fftcoef[n-1:]
     #print fftcoef[n-1:0:-1]
-    fftcoef[n-1:0:-1] += fftcoef[n-1:] # z+conj(z)
+    fftcoef[n-2:0:-1] += fftcoef[n:] # z+conj(z)
     return fftcoef[n-1::-1]
     #return c
 def ichebt2(c):
     """inverse chebyshev transformation, values of function in Chebyshev
     nodes of the second kind, see chebfun for details"""
     n = len(c)
-    oncircle = np.concatenate(([c[-1]],c[-2:0:-1]/2, c[0:-1]/2));
+    oncircle = np.concatenate(([c[-1]], c[-2:0:-1]/2, c[:1], c[1:-1]/2));
     v = np.real(ifft(oncircle));
     f = (n-1)*np.concatenate(([2*v[0]], v[1:n-1]+v[-1:n-1:-1], [2*v[n-1]] ))
     return f
-- 
2.43.0


From c0a8e1401e32e48d6612a4b023737cecae37a063 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:51 +0000
Subject: [PATCH 03/86] fix: trimming an interpolant keeps significant negative
 leading coefficients

---
 pacal/interpolation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pacal/interpolation.py b/pacal/interpolation.py
index c1f33fe..7ac5aaf 100644
--- a/pacal/interpolation.py
+++ b/pacal/interpolation.py
@@ -258,7 +258,7 @@ class ChebyshevInterpolator(BarycentricInterpolator, AdaptiveInterpolator):
         c = chebt2(self.Ys)
         if abstol is None:
             abstol = params.interpolation.convergence.abstol
-        while c[0] < abstol:
+        while len(c) > 2 and abs(c[0]) < abstol:
             c = c[1:]
         Ydiffvals = ichebt2(c)
         Ydiffvals = flipud(Ydiffvals)
-- 
2.43.0


From f1a6ce24e98a796fde9e85b62513863ce7648452 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:34:20 +0000
Subject: [PATCH 04/86] fix: size of the per-dimension pointer table in the
 grid interpolation kernel

---
 pacal/bary_interp.pyx | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pacal/bary_interp.pyx b/pacal/bary_interp.pyx
index 070675e..b95b637 100644
--- a/pacal/bary_interp.pyx
+++ b/pacal/bary_interp.pyx
@@ -119,7 +119,7 @@ def c_dense_grid_interp(one_over_x_m_xi_list not None, np.ndarray[DTYPE_t, ndim=
     for j in range(M):
         fs_copy[j] = fs[j]
     cdef unsigned int *ms = <unsigned int *>malloc(d * sizeof(unsigned int))
-    cdef DTYPE_t **one_over_x_m_xi_list_copy = <DTYPE_t **>malloc(M * sizeof(DTYPE_t *))
+    cdef DTYPE_t **one_over_x_m_xi_list_copy = <DTYPE_t **>malloc(d * sizeof(DTYPE_t *))
     cdef np.ndarray[DTYPE_t, ndim=2] one_over_x_m_xi
 
     for i in range(d):
-- 
2.43.0


From 5f5cc8a24cf7abe17c79d277bb452cbd28101fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:46:27 +0000
Subject: [PATCH 05/86] fix: interpolation next to a right-end pole keeps the
 sign of negative functions

---
 pacal/interpolation.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pacal/interpolation.py b/pacal/interpolation.py
index 7ac5aaf..b156065 100644
--- a/pacal/interpolation.py
+++ b/pacal/interpolation.py
@@ -627,7 +627,7 @@ class PoleInterpolatorP(ChebyshevInterpolatorNoL):
         Ys = concatenate(([self.Ys[0]], self.Ys))
         dp = BarycentricInterpolator(Xs, Ys, Ws).diff()
         Xs, Ws = chebspace1(self.orig_a, self.orig_b, self.n, returnWeights=True)
-        Ys = exp(super(PoleInterpolatorP, self).interp_at(self.xtinv(Xs))) * dp(self.xtinv(Xs)) /((Xs - self.orig_a) + self.offset)
+        Ys = self.sign * exp(super(PoleInterpolatorP, self).interp_at(self.xtinv(Xs))) * dp(self.xtinv(Xs)) /((Xs - self.orig_a) + self.offset)
         return BarycentricInterpolator(Xs=Xs, Ys=Ys, weights=Ws)
     def roots(self):
         return array([])
@@ -648,6 +648,8 @@ class PoleInterpolatorN(ChebyshevInterpolatorNoR):
         self.orig_a = a
         self.orig_b = b
         self.sign = int(sign(self.wrapped_f(float(a + b) / 2)).item())
+        if self.sign == 0:
+            self.sign = 1
         if b == 0:
             offset = 1e-50
         else:
@@ -662,7 +664,7 @@ class PoleInterpolatorN(ChebyshevInterpolatorNoR):
         y = self.sign * expm1(super(PoleInterpolatorN, self).interp_at(self.xtinv(x)))
         return y
     def getNodes(self):
-        return self.xt(self.Xs), expm1(self.Ys)
+        return self.xt(self.Xs), self.sign * expm1(self.Ys)
     #def test_accuracy(self, new_Xs, new_Ys):
     #    """Test accuracy by comparing true and interpolated values at
     #    given points."""
@@ -674,7 +676,7 @@ class PoleInterpolatorN(ChebyshevInterpolatorNoR):
         Ys = concatenate((self.Ys, [self.Ys[-1]]))
         dp = BarycentricInterpolator(Xs, Ys, Ws).diff()
         Xs, Ws = chebspace1(self.orig_a, self.orig_b, self.n, returnWeights=True)
-        Ys = exp(super(PoleInterpolatorN, self).interp_at(self.xtinv(Xs))) * dp(self.xtinv(Xs)) /(-(Xs - self.orig_b) + self.offset)*(-1)
+        Ys = self.sign * exp(super(PoleInterpolatorN, self).interp_at(self.xtinv(Xs))) * dp(self.xtinv(Xs)) /(-(Xs - self.orig_b) + self.offset)*(-1)
         return BarycentricInterpolator(Xs=Xs, Ys=Ys, weights=Ws)
     def roots(self):
         return array([])
-- 
2.43.0


From 5145420fa3da0506759183d91c6ec8faca521b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:51 +0000
Subject: [PATCH 06/86] fix: integral of a constant piece over a range outside
 it is zero

---
 pacal/segments.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pacal/segments.py b/pacal/segments.py
index dd0241e..cee9323 100644
--- a/pacal/segments.py
+++ b/pacal/segments.py
@@ -491,6 +491,8 @@ class ConstSegment(Segment):
             a=self.a
         if b==None or b>self.b:
             b=self.b
+        if b <= a:
+            return 0.0
         return self.const*(b-a)
     #def f(self, x):
     #    return 0.0*x + self.const
-- 
2.43.0


From 304afd7e11be81ad7c8f3a25ceb7186bb521b1cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:51 +0000
Subject: [PATCH 07/86] fix: evaluating pieces on integer arrays no longer
 truncates the values

---
 pacal/segments.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pacal/segments.py b/pacal/segments.py
index cee9323..5001f32 100644
--- a/pacal/segments.py
+++ b/pacal/segments.py
@@ -81,7 +81,7 @@ def _op_one_over_xsqaure(x):
             y = np.inf
     else:
         mask = (x != 0.0)
-        y = zeros_like(x)
+        y = zeros_like(x, dtype=float)
         y[mask] = 1.0 / (x[mask])**2
     return y
 
@@ -154,7 +154,7 @@ class Segment(object):
                 return self.f(x)
             else:
                 return 0
-        y = zeros_like(x)
+        y = zeros_like(x, dtype=float)
         ind = where((x>=self.a) & (x<=self.b))
         if len(ind)>0:
             y[ind] = self.f(x[ind])
@@ -1075,7 +1075,7 @@ class PiecewiseFunction(object):
             return None
         else:
             # iterate over segments
-            y = zeros_like(x)
+            y = zeros_like(x, dtype=float)
             for seg in self.getSegments():#segments:
                 ind = ((x>=seg.a) & (x<seg.b))
                 if ind.any():
-- 
2.43.0


From 22ca067adc80cc69e1540f16fd39964ac21a479b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:51 +0000
Subject: [PATCH 08/86] fix: piecewise functions are zero in the gaps between
 their pieces

---
 pacal/segments.py | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/pacal/segments.py b/pacal/segments.py
index 5001f32..17cb429 100644
--- a/pacal/segments.py
+++ b/pacal/segments.py
@@ -1104,20 +1104,13 @@ class PiecewiseFunction(object):
         """It return segment containing point x"""
         xsegment = DiracSegment(x,0)
         ind = bisect.bisect_left(self.segments, xsegment)
-        if  0 < ind < len(self.segments):
-            return self.segments[ind]
-        elif ind == 0:
-            if self.segments[ind].a <= x <= self.segments[ind].b :
-                return  self.segments[ind]
-            else :
-                return None
-        elif ind == len(self.segments):
+        if ind < len(self.segments):
+            if self.segments[ind].a <= x <= self.segments[ind].b:
+                return self.segments[ind]
+        if ind > 0:
             if self.segments[ind-1].b == x:
-                return  self.segments[ind-1]
-            else :
-                return None
-        else:
-            assert(False)
+                return self.segments[ind-1]
+        return None
 
     def findSegmentByEnds(self, a, b):
         """Return the segment with end points (a,b)"""
-- 
2.43.0


From cbfcd11adf464850aaea953d5bea05b31c3b4dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:51 +0000
Subject: [PATCH 09/86] fix: subtracting or dividing a piecewise function by a
 number

---
 pacal/segments.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pacal/segments.py b/pacal/segments.py
index 17cb429..c6777d2 100644
--- a/pacal/segments.py
+++ b/pacal/segments.py
@@ -1572,7 +1572,7 @@ class PiecewiseFunction(object):
         if isinstance(other, PiecewiseFunction):
             return self._operation__(other, operation = operator.sub)
         elif isinstance(other, numbers.Real):
-            return self.__rsub__(other)
+            return self._roperation__(other, operator.sub)
         return NotImplemented
     def __mul__(self, other):
         if isinstance(other, PiecewiseFunction):
@@ -1585,7 +1585,7 @@ class PiecewiseFunction(object):
         if isinstance(other, PiecewiseFunction):
             return self._operation__(other, operation = operator.truediv)
         elif isinstance(other, numbers.Real):
-            return self._operation__(other, operation = operator.truediv)
+            return self._roperation__(other, operator.truediv)
         return NotImplemented
     def __div__(self, other):
         #TODO handle zeros in denominator, !!!currently unhandled!!!
-- 
2.43.0


From 47eb5723c8d24900a790408ef6c91a14a85b6439 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:51 +0000
Subject: [PATCH 10/86] fix: cumulative function is constant in gaps and keeps
 isolated point masses

---
 pacal/segments.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pacal/segments.py b/pacal/segments.py
index c6777d2..16bdf79 100644
--- a/pacal/segments.py
+++ b/pacal/segments.py
@@ -1158,7 +1158,12 @@ class PiecewiseFunction(object):
     def cumint(self):
         integralPFun = CumulativePiecewiseFunction([])
         f0 = 0
+        prev_b = None
         for seg in self.segments:
+            if prev_b is not None and prev_b < seg.a:
+                # constant in the gap between segments
+                integralPFun.addSegment(Segment(prev_b, seg.a, ConstFun(f0)))
+            prev_b = seg.b
             if seg.isPInf():
                 f0 = f0 + seg.integrate(seg.a)
             segi = seg.cumint(f0)
-- 
2.43.0


From 3c883b26240fb0585b1770796df81ccbf2b20f09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:49:06 +0000
Subject: [PATCH 11/86] fix: subtracting piecewise functions subtracts point
 masses present only in the second

---
 pacal/segments.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pacal/segments.py b/pacal/segments.py
index 16bdf79..cf107e7 100644
--- a/pacal/segments.py
+++ b/pacal/segments.py
@@ -1662,7 +1662,8 @@ class PiecewiseFunction(object):
             self_dirac = self.getDirac(dirac)
             other_dirac = other.getDirac(dirac)
             if self_dirac is None:
-                self.addSegment(DiracSegment(other_dirac.a, other_dirac.f))
+                # no mass here so far
+                self.addSegment(DiracSegment(other_dirac.a, op(0.0, other_dirac.f)))
             elif other_dirac is not None:
                 self_dirac.f = op(self_dirac.f,  other_dirac.f)
 
@@ -1705,7 +1706,7 @@ class PiecewiseFunction(object):
                 fun.addSegment(si)
             else:
                 assert False
-        fun.op_diracs(self, operation)
+        fun.op_diracs(self, operator.add)
         fun.op_diracs(other, operation)
         return fun
 
-- 
2.43.0


From 1300bc5eee0e153e53e7c3a85f9845dada06def7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:56:54 +0000
Subject: [PATCH 12/86] fix: integral of a piece with a right-end pole over a
 range left of it is zero

---
 pacal/segments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pacal/segments.py b/pacal/segments.py
index cf107e7..2dd590b 100644
--- a/pacal/segments.py
+++ b/pacal/segments.py
@@ -808,7 +808,7 @@ class SegmentWithPole(Segment):
             a = self.a
         if b == None or b > self.b:
             b = self.b
-        if a == b:
+        if a >= b:
             return 0.0
         if self.hasLeftPole() and a == self.a:
             i,e = integrate_fejer2_Xn_transformP(self, a, b)
-- 
2.43.0


From dcfe9fd98fa707e35269af60d7d6e99292533710 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:04 +0000
Subject: [PATCH 13/86] fix: adding point masses to a piecewise function no
 longer shares them with the operand

---
 pacal/segments.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pacal/segments.py b/pacal/segments.py
index 2dd590b..bf1cb2d 100644
--- a/pacal/segments.py
+++ b/pacal/segments.py
@@ -1562,7 +1562,8 @@ class PiecewiseFunction(object):
         for other_dirac in other.getDiracs():
             self_dirac = self.getDirac(other_dirac.a)
             if self_dirac is None:
-                self.addSegment(other_dirac)
+                # a copy: later additions must not change the operand
+                self.addSegment(DiracSegment(other_dirac.a, other_dirac.f))
             else:
                 self_dirac.f += other_dirac.f
 
-- 
2.43.0


From e919c89a04fa979484cd8519c7139ae5b1e2018b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:04 +0000
Subject: [PATCH 14/86] fix: piecewise function constructor accepts right-end
 poles on adjacent pieces

---
 pacal/segments.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pacal/segments.py b/pacal/segments.py
index bf1cb2d..2115e6c 100644
--- a/pacal/segments.py
+++ b/pacal/segments.py
@@ -1023,7 +1023,7 @@ class PiecewiseFunction(object):
                     self.addSegment(Segment(self.breaks[0], self.breaks[1], fun))
                 elif self.lpoles[0] == True and self.rpoles[1] == False:
                     self.addSegment(SegmentWithPole(self.breaks[0], self.breaks[1], fun, left_pole = True))
-                elif self.rpoles[0] == False and self.rpoles[1] == True:
+                elif self.lpoles[0] == False and self.rpoles[1] == True:
                     self.addSegment(SegmentWithPole(self.breaks[0], self.breaks[1], fun, left_pole = False))
                 else:
                     assert(False) #  no segment of such type
@@ -1035,7 +1035,7 @@ class PiecewiseFunction(object):
                     self.addSegment(Segment(self.breaks[i], self.breaks[i+1], fun))
                 elif self.lpoles[i] == True and self.rpoles[i+1] == False:
                     self.addSegment(SegmentWithPole(self.breaks[i], self.breaks[i+1], fun, left_pole = True))
-                elif self.rpoles[i] == False and self.rpoles[i+1] == True:
+                elif self.lpoles[i] == False and self.rpoles[i+1] == True:
                     self.addSegment(SegmentWithPole(self.breaks[i], self.breaks[i+1], fun, left_pole = False))
                 else:
                     assert(False) # no segment of such type
@@ -1047,7 +1047,7 @@ class PiecewiseFunction(object):
                     self.addSegment(Segment(self.breaks[-2], self.breaks[-1], fun))
                 elif self.lpoles[-2] == True and self.rpoles[-1] == False:
                     self.addSegment(SegmentWithPole(self.breaks[-2], self.breaks[-1], fun, left_pole = True))
-                elif self.rpoles[-2] == False and self.rpoles[-1] == True:
+                elif self.lpoles[-2] == False and self.rpoles[-1] == True:
                     self.addSegment(SegmentWithPole(self.breaks[-2], self.breaks[-1], fun, left_pole = False))
                 else:
                     assert(False) # no segment of such type
-- 
2.43.0


From db5d9ebde792217c60e80a5a458ef37165c47c67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:58 +0000
Subject: [PATCH 15/86] fix: breakpoints of a piecewise function include the
 ends next to gaps

---
 pacal/segments.py | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/pacal/segments.py b/pacal/segments.py
index 2115e6c..3ecc0f0 100644
--- a/pacal/segments.py
+++ b/pacal/segments.py
@@ -1466,7 +1466,11 @@ class PiecewiseFunction(object):
         if len(segments) == 0:
             return []
         breaks = [breakPoint(segments[0].a, False, False)]
+        left, right = [], [] # breaks at the ends of each segment
         for seg in segments:
+            if seg.a > breaks[-1].x: # gap before this segment
+                breaks.append(breakPoint(seg.a, False, False))
+            left.append(breaks[-1])
             if seg.isDirac():
                 breaks[-1].dirac = True
             if seg.hasLeftPole():
@@ -1475,19 +1479,24 @@ class PiecewiseFunction(object):
                 breaks.append(breakPoint(seg.b, True, False))
             else:
                 breaks.append(breakPoint(seg.b, False, False))
+            right.append(breaks[-1])
         # check continuity
-        seg = segments[0]
-        if not seg.isDirac() and not isinf(seg.a) and (seg.hasLeftPole() or seg.f(seg.a) > params.pole_detection.continuity_eps):
-            breaks[0].Cont = False
-        seg = segments[-1]
-        if not seg.isDirac() and not isinf(seg.b) and (seg.hasRightPole() or seg.f(seg.b) > params.pole_detection.continuity_eps):
-            breaks[-1].Cont = False
-        for i, seg in enumerate(segments[1:]):
-            if not seg.isDirac() and not segments[i].isDirac():
-                if not segments[i].hasRightPole() and not seg.hasLeftPole():
-                    if (segments[i].hasRightPole() or seg.hasLeftPole()
-                        or abs(segments[i].f(self.segments[i].b) - seg.f(seg.a)) > params.pole_detection.continuity_eps):
-                        breaks[i+1].Cont = False
+        n = len(segments)
+        for i, seg in enumerate(segments):
+            if seg.isDirac():
+                continue
+            # ends next to a gap or at the end of the support
+            if ((i == 0 or segments[i-1].b < seg.a) and not isinf(seg.a)
+                and (seg.hasLeftPole() or seg.f(seg.a) > params.pole_detection.continuity_eps)):
+                left[i].Cont = False
+            if ((i == n-1 or segments[i+1].a > seg.b) and not isinf(seg.b)
+                and (seg.hasRightPole() or seg.f(seg.b) > params.pole_detection.continuity_eps)):
+                right[i].Cont = False
+            # end shared with the next segment
+            if (i < n-1 and segments[i+1].a <= seg.b and not segments[i+1].isDirac()
+                and not seg.hasRightPole() and not segments[i+1].hasLeftPole()):
+                if abs(seg.f(seg.b) - segments[i+1].f(segments[i+1].a)) > params.pole_detection.continuity_eps:
+                    right[i].Cont = False
         return breaks
 
     def getBreaks(self):
-- 
2.43.0


From 875e082fa1acf7a3764ce8119690504b9f74a899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:33:37 +0000
Subject: [PATCH 16/86] fix: density of a quotient with a point mass in the
 denominator

The numerator density was evaluated at the mass itself instead of at x times
the mass, giving a constant instead of a rescaled copy of the density.
---
 pacal/indeparith.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pacal/indeparith.py b/pacal/indeparith.py
index 027b5b8..d00a072 100644
--- a/pacal/indeparith.py
+++ b/pacal/indeparith.py
@@ -566,7 +566,7 @@ class Convxrunner(object):
                 e = 0.0
                 assert (segi.a != 0.0)
             elif segi.isSegment() and segj.isDirac():
-                i = segj.f*segi.f(segj.a)*abs(segj.a)
+                i = segj.f*segi.f(x*segj.a)*abs(segj.a)
                 e = 0.0
                 assert (segj.a != 0.0)
             I += i
@@ -615,7 +615,7 @@ class Convxrunner(object):
 
             elif segi.isSegment() and segj.isDirac():
                 assert (segj.a != 0.0)
-                i = segj.f * segi.f(segj.a) * abs(segj.a)
+                i = segj.f * segi.f(x*segj.a) * abs(segj.a)
                 e = 0
             I += i
             err += e
-- 
2.43.0


From b0ada6640a07429c12d547a7be7309904e176984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:29 +0000
Subject: [PATCH 17/86] fix: point mass at zero in the numerator of a quotient
 was lost

The part of the mass divided by the continuous part of the denominator did
not reach the result, whose total mass was then below one.
---
 pacal/indeparith.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pacal/indeparith.py b/pacal/indeparith.py
index d00a072..08ccad1 100644
--- a/pacal/indeparith.py
+++ b/pacal/indeparith.py
@@ -1192,6 +1192,14 @@ def convdiv(f, g):
         fg_discr = convdiracs(f, g, fun = operator.div)
     for seg in fg_discr.getDiracs():
         fg.addSegment(seg)
+    # zero divided by the continuous part of g
+    dirac_at_zero = f.getDirac(0.0)
+    if dirac_at_zero is not None:
+        prob = sum([seg.integrate() for seg in g.getSegments()]) * dirac_at_zero.f
+        if prob > 0.0:
+            fg_zero = PiecewiseDistribution([])
+            fg_zero.addSegment(DiracSegment(0.0, prob))
+            fg.add_diracs(fg_zero)
     return fg
 
 #def convdivx(segList, xx):
-- 
2.43.0


From 4878f41817c50128866bfc89347ce4c2b1110d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:36:29 +0000
Subject: [PATCH 18/86] fix: refuse division by a variable which is zero with
 positive probability

The result was silently missing the probability of the zero denominator.
---
 pacal/indeparith.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pacal/indeparith.py b/pacal/indeparith.py
index 08ccad1..cb850c2 100644
--- a/pacal/indeparith.py
+++ b/pacal/indeparith.py
@@ -1094,6 +1094,8 @@ def _distr_zero_signs(g):
 def convdiv(f, g):
     """Probabilistic division of piecewise functions f and g.
     """
+    if g.getDirac(0.0) is not None:
+        raise ZeroDivisionError("the denominator is zero with positive probability")
     #f=f.splitByPoints([0])
     #g=g.splitByPoints([0])
     f = _split_for_prod_and_div(f)
-- 
2.43.0


From 36a54701575cb4b754351ccb364479fab23e7636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:22 +0000
Subject: [PATCH 19/86] fix: point masses were lost in the distribution of 1/X

---
 pacal/segments.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pacal/segments.py b/pacal/segments.py
index 3ecc0f0..4fb7aa3 100644
--- a/pacal/segments.py
+++ b/pacal/segments.py
@@ -360,6 +360,10 @@ class Segment(object):
         """
         g = _op_one_over_x
         ginv = _op_one_over_x
+        if self.isDirac():
+            if self.a == 0:
+                raise ZeroDivisionError("inverse of a variable which is zero with positive probability")
+            return DiracSegment(g(self.a), self.f)
         fun = partial(_prob_composition_safe, self.f, _op_one_over_x, _op_one_over_xsqaure)
         if (self.a==0):
             if  g(self.b)<0:
-- 
2.43.0


From 07b0a721b61f9257666d872816621a90ab07a545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:22 +0000
Subject: [PATCH 20/86] fix: InvDistr.pdf dropped entries of arrays containing
 zero

---
 pacal/distr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pacal/distr.py b/pacal/distr.py
index 98e6946..4e17874 100644
--- a/pacal/distr.py
+++ b/pacal/distr.py
@@ -808,7 +808,7 @@ class InvDistr(InvRV, OpDistr):
         else:
             y = zeros_like(x, dtype=float)
             mask = x != 0
-            y[mask] = y = self.d.pdf(1.0/x[mask])/x[mask]**2
+            y[mask] = self.d.pdf(1.0/x[mask])/x[mask]**2
         return y
     def rand_op(self, n, cache):
         return 1.0/self.d.rand(n, cache)
-- 
2.43.0


From 91b650ec70a0b1c88ff09ed5970b23474df4887f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:22 +0000
Subject: [PATCH 21/86] fix: SquareDistr.pdf failed on arrays

---
 pacal/distr.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pacal/distr.py b/pacal/distr.py
index 4e17874..f081454 100644
--- a/pacal/distr.py
+++ b/pacal/distr.py
@@ -925,10 +925,16 @@ class SquareDistr(OpDistr):
     def init_piecewise_pdf(self):
         self.piecewise_pdf = self.d.get_piecewise_pdf().copySquareComposition()
     def pdf(self,x):
-        if x <= 0:  # won't work for x == 0
-            f = 0
+        if isscalar(x):
+            if x <= 0:  # won't work for x == 0
+                f = 0
+            else:
+                f = (self.d.pdf(-sqrt(x)) + self.d.pdf(sqrt(x))) /(2*sqrt(x))
         else:
-            f = (self.d.pdf(-sqrt(x)) + self.d.pdf(sqrt(x))) /(2*sqrt(x))
+            f = zeros_like(x, dtype=float)
+            mask = x > 0
+            sx = sqrt(x[mask])
+            f[mask] = (self.d.pdf(-sx) + self.d.pdf(sx)) / (2*sx)
         return f
     def rand_op(self, n, cache):
         r = self.d.rand(n, cache)
-- 
2.43.0


From 5edcfe82873c87484c823572c406e93f779aa273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:22 +0000
Subject: [PATCH 22/86] fix: sigmoid of a number raised NameError

---
 pacal/distr.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pacal/distr.py b/pacal/distr.py
index f081454..de6e89e 100644
--- a/pacal/distr.py
+++ b/pacal/distr.py
@@ -782,6 +782,7 @@ def sigmoid(d):
     """Overload the tanh function."""
     if isinstance(d, Distr):
         return SigmoidDistr(d)
+    x = d
     if isscalar(x):
         if x > 0:
             y = 1.0 / (1.0 + numpy.exp(-x))
-- 
2.43.0


From 3bded3ff2301eb15776cda60bada187668860e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:22 +0000
Subject: [PATCH 23/86] fix: second branch of the inverse of sine

---
 pacal/distr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pacal/distr.py b/pacal/distr.py
index de6e89e..0d5562d 100644
--- a/pacal/distr.py
+++ b/pacal/distr.py
@@ -1007,7 +1007,7 @@ class Sq2Distr(FuncNoninjectiveDistr):
         return True
 
 def _pi_m_arcsin(x):
-    return 2*pi-arccos(x)
+    return pi-arcsin(x)
 def _arcsin_der1(x):
     return (1-x**2)**(-0.5)
 def _arcsin_der2(x):
-- 
2.43.0


From cd4f0fd8d64ef70be88c3d1ffc7b8bdccab55554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:22 +0000
Subject: [PATCH 24/86] fix: sine and cosine were always reported nonnegative

---
 pacal/distr.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/pacal/distr.py b/pacal/distr.py
index 0d5562d..875bd83 100644
--- a/pacal/distr.py
+++ b/pacal/distr.py
@@ -1021,8 +1021,6 @@ class SinDistr(FuncNoninjectiveDistr):
         self.f_inv_derivs = [_arcsin_der1, _arcsin_der1]
         self.pole_at_zero = False
         super(SinDistr, self).__init__(d, fname = "sin")
-    def is_nonneg(self):
-        return True
 def sin(d):
     """Overload the exp function."""
     if isinstance(d, Distr):
@@ -1044,8 +1042,6 @@ class CosDistr(FuncNoninjectiveDistr):
         self.f_inv_derivs = [_arccos_der1, _arccos_der2]
         self.pole_at_zero = False
         super(CosDistr, self).__init__(d, fname = "cos")
-    def is_nonneg(self):
-        return True
 def cos(d):
     """Overload the exp function."""
     if isinstance(d, Distr):
-- 
2.43.0


From 7e118ba3b73ecce70e5e2770414336f3ee9348db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:06 +0000
Subject: [PATCH 25/86] fix: conditioning of variables with point masses

---
 pacal/distr.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/pacal/distr.py b/pacal/distr.py
index 875bd83..06cc243 100644
--- a/pacal/distr.py
+++ b/pacal/distr.py
@@ -1238,6 +1238,14 @@ class ConstDistr(DiscreteDistr):
     def getName(self):
         return str(self.c)
 
+def _pop_mass(pdf, x):
+    """Remove the point mass at x and return its weight."""
+    dirac = pdf.getDirac(x)
+    if dirac is None:
+        return 0.0
+    pdf.segments = [seg for seg in pdf.segments if seg is not dirac]
+    return dirac.f
+
 class CondGtDistr(Distr):
     def __init__(self, d, L=None, **kwargs):
         self.L = L
@@ -1248,10 +1256,9 @@ class CondGtDistr(Distr):
         # Do poprawki zostaja tu diraki o wys.=0, tak samo Lt
         #print Z.get_piecewise_pdf(), self.L
         while(Z.get_piecewise_pdf().segments[0].a<self.L):
-            diracB = Z.get_piecewise_pdf().segments.pop(0)
-        diracB = Z.get_piecewise_pdf().segments.pop(0)
-        #print Z.get_piecewise_pdf(), diracB
-        self.piecewise_pdf = (Z * DiscreteDistr(xi=[1.0], pi=[1.0/(1-diracB.f)])).get_piecewise_pdf()
+            Z.get_piecewise_pdf().segments.pop(0)
+        pmass = 1.0 - _pop_mass(Z.get_piecewise_pdf(), self.L)
+        self.piecewise_pdf = (Z * DiscreteDistr(xi=[1.0], pi=[1.0/pmass])).get_piecewise_pdf()
     def __str__(self):
         return "{0} | X>{1}".format(self.d, self.L)
     def getName(self):
@@ -1274,8 +1281,8 @@ class CondLtDistr(Distr):
         super(CondLtDistr, self).__init__([], **kwargs)
     def init_piecewise_pdf(self):
         Z = MinDistr(ConstDistr(self.U), self.d)
-        diracB = Z.get_piecewise_pdf().segments.pop(-1)
-        self.piecewise_pdf = (Z * DiscreteDistr(xi=[1.0], pi=[1.0/(1-diracB.f)])).get_piecewise_pdf()
+        pmass = 1.0 - _pop_mass(Z.get_piecewise_pdf(), self.U)
+        self.piecewise_pdf = (Z * DiscreteDistr(xi=[1.0], pi=[1.0/pmass])).get_piecewise_pdf()
     def __str__(self):
         return "{0} | X<{1}".format(self.d, self.U)
     def getName(self):
@@ -1296,9 +1303,7 @@ class CondBetweenDistr(Distr):
         #Z = MinDistr(Z, ConstDistr(self.U))
         #Z = min(max(self.d, self.L), self.U)
         Z = max(min(self.d, self.U), self.L)
-        diracL = Z.get_piecewise_pdf().segments.pop(0)
-        diracU = Z.get_piecewise_pdf().segments.pop(-1)
-        pmass = 1. - (diracL.f + diracU.f)
+        pmass = 1. - (_pop_mass(Z.get_piecewise_pdf(), self.L) + _pop_mass(Z.get_piecewise_pdf(), self.U))
         self.piecewise_pdf = (Z * DiscreteDistr(xi=[1.0], pi=[1./pmass])).get_piecewise_pdf()
 
     def __str__(self):
-- 
2.43.0


From 951a1319a466aa03e05f6b5773a7d9a410523cff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:14 +0000
Subject: [PATCH 26/86] fix: chi-square distribution with less than two degrees
 of freedom

---
 pacal/standard_distr.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/pacal/standard_distr.py b/pacal/standard_distr.py
index 872caa6..b41e4c8 100644
--- a/pacal/standard_distr.py
+++ b/pacal/standard_distr.py
@@ -252,7 +252,7 @@ class ChiSquareDistr(Distr):
         self.df = df
         self.df2 = df / 2.0
         self.lg_norm = lgamma(self.df2) + self.df2 * log(2)
-        if self.df == 1:
+        if self.df < 2:
             self.pdf_at_0 = np.inf
             self.lpdf_at_0 = np.inf
         elif self.df == 2:
@@ -281,19 +281,16 @@ class ChiSquareDistr(Distr):
         return y
     def init_piecewise_pdf(self):
         wrapped_pdf = wrap_pdf(self.pdf)
-        if 1 <= self.df <= 20:
+        if self.df <= 20:
             self.piecewise_pdf = PiecewiseDistribution(fun = wrapped_pdf,
                                                    breakPoints = [0.0, self.df/2.0, self.df*2.0, np.inf],
                                                    lpoles=[True, False, False, False])
-        elif 20 < self.df:
+        else:
             mean = self.df
             std = sqrt(2 * self.df)
             self.piecewise_pdf = PiecewiseDistribution(fun = wrapped_pdf,
                                                         breakPoints =[0.0, self.df*0.75, self.df*4.0/3.0,  np.inf],
                                                         lpoles=[True, False, False, False])
-
-        else:
-            print("unexeepted df=", self.df)
         #if self.df == 1 or self.df == 3:
         #    self.piecewise_pdf.addSegment(SegmentWithPole(0, 1, self.pdf, left_pole = True))
         #else:
-- 
2.43.0


From 5f387102674c290299f5c75d755e548339d42252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:14 +0000
Subject: [PATCH 27/86] fix: densities of standard distributions on integer
 arrays

---
 pacal/standard_distr.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/pacal/standard_distr.py b/pacal/standard_distr.py
index b41e4c8..a117de5 100644
--- a/pacal/standard_distr.py
+++ b/pacal/standard_distr.py
@@ -328,7 +328,7 @@ class ExponentialDistr(Distr):
             else:
                 y = self.lmbda * exp(-self.lmbda * x)
         else:
-            y = zeros_like(x)
+            y = zeros_like(x, dtype=float)
             mask = (x >= 0)
             y[mask] = self.lmbda * exp(-self.lmbda * x[mask])
         return y
@@ -375,7 +375,7 @@ class GammaDistr(Distr):
             else:
                 y = exp(self.log_pdf(x))
         else:
-            y = zeros_like(x)
+            y = zeros_like(x, dtype=float)
             mask = (x > 0)
             y[mask] = exp(self.log_pdf(x[mask]))
             mask_zero = (x == 0)
@@ -418,7 +418,7 @@ class BetaDistr(Distr):
             else:
                 y = exp(self.lg_norm + log(x)*(self.alpha - 1) + log(1-x)*(self.beta - 1))
         else:
-            y = zeros_like(x)
+            y = zeros_like(x, dtype=float)
             mask = (x >= 0) & (x <= 1)
             y[mask] = exp(self.lg_norm + log(x[mask])*(self.alpha - 1) + log(1-x[mask])*(self.beta - 1))
         return y
@@ -468,7 +468,7 @@ class ParetoDistr(Distr):
             else:
                 y = self.nrm / x ** (self.alpha + 1)
         else:
-            y = zeros_like(x)
+            y = zeros_like(x, dtype=float)
             mask = (x >= self.xmin)
             y[mask] = self.nrm / x[mask] ** (self.alpha + 1)
         return y
@@ -500,7 +500,7 @@ class LevyDistr(Distr):
             else:
                 y = self.nrm * exp(log(x - self.xmin)*(-1.5) -0.5 * self.c / (x - self.xmin))
         else:
-            y = zeros_like(x)
+            y = zeros_like(x, dtype=float)
             mask = (x > self.xmin)
             y[mask] = self.nrm * exp(log(x[mask] - self.xmin)*(-1.5) -0.5 * self.c / (x[mask] - self.xmin))
         return y
@@ -625,7 +625,7 @@ class FDistr(Distr):
                 lgy = self.lg_norm + 0.5 * (self.df1 * log(self.df1*x) - (self.df1 + self.df2) * log(self.df1 * x + self.df2)) - log(x)
                 y = exp(lgy)
         else:
-            y = zeros_like(x)
+            y = zeros_like(x, dtype=float)
             y[x==0] = self.pdf_at_0
             mask = (x > 0)
             lgy = self.lg_norm + 0.5 * (self.df1 * log(self.df1*x[mask]) - (self.df1 + self.df2) * log(self.df1 * x[mask] + self.df2)) - log(x[mask])
@@ -677,7 +677,7 @@ class WeibullDistr(Distr):
             else:
                 y = self.nrm * exp(log(x / self.lmbda)*(self.k-1) - (x / self.lmbda)**self.k)
         else:
-            y = zeros_like(x)
+            y = zeros_like(x, dtype=float)
             mask = (x > 0)
             y[mask] = self.nrm * exp(log(x[mask] / self.lmbda)*(self.k-1) - (x[mask] / self.lmbda)**self.k)
             mask_zero = (x == 0)
@@ -762,7 +762,7 @@ class FrechetDistr(Distr):
             else:
                 y = self.nrm * exp(-(self.alpha+1) * log(t) - t ** (-self.alpha))
         else:
-            y = zeros_like(x)
+            y = zeros_like(x, dtype=float)
             mask = (t > 0)
             y[mask] = self.nrm * exp(-(self.alpha+1) * log(t[mask]) - t[mask] ** (-self.alpha))
         return y
@@ -874,7 +874,7 @@ class MollifierDistr(Distr):
                 t = x / self.epsilon
                 y = self.nrm * exp(-1.0 / (1 - t*t))
         else:
-            y = zeros_like(x)
+            y = zeros_like(x, dtype=float)
             mask = (abs(x) < self.epsilon)
             y[mask] = self.nrm * exp(-1.0 / (1 - (x[mask] / self.epsilon)**2))
         return y
-- 
2.43.0


From 21b32c2373dd2bc39637d9c9ac4569160522fa05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:14 +0000
Subject: [PATCH 28/86] fix: semicircle density outside its support

---
 pacal/standard_distr.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pacal/standard_distr.py b/pacal/standard_distr.py
index a117de5..41b0500 100644
--- a/pacal/standard_distr.py
+++ b/pacal/standard_distr.py
@@ -582,10 +582,12 @@ class SemicircleDistr(Distr):
         if isscalar(x):
             if -self.R <= x <= self.R:
                 y = self.norm * sqrt(self.R*self.R - x*x)
+            else:
+                y = 0
         else:
             mask = (-self.R <= x) & (x <= self.R)
-            y = zeros_like(x)
-            y[mask] = self.norm * sqrt(self.R*self.R - x*x)
+            y = zeros_like(x, dtype=float)
+            y[mask] = self.norm * sqrt(self.R*self.R - x[mask]*x[mask])
         return y
     def init_piecewise_pdf(self):
         # split at inflection points
-- 
2.43.0


From 320019e9ae6b9522ee7249956590f9da0ee09003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:14 +0000
Subject: [PATCH 29/86] fix: log-logistic density on scalars, negative and zero
 arguments

---
 pacal/standard_distr.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/pacal/standard_distr.py b/pacal/standard_distr.py
index 41b0500..ed6153d 100644
--- a/pacal/standard_distr.py
+++ b/pacal/standard_distr.py
@@ -802,14 +802,20 @@ class FrechetDistr(Distr):
 class LogLogisticDistr(Distr):
     def __init__(self, k, s=1.0, **kwargs):
         if k <= 0:
-            raise RuntimeError("Shape parameter k must be > 0, got {}".format(alpha))
+            raise RuntimeError("Shape parameter k must be > 0, got {}".format(k))
         if s <= 0:
-            raise RuntimeError("Scale parameter s must be > 0, got {}".format(beta))
+            raise RuntimeError("Scale parameter s must be > 0, got {}".format(s))
         super().__init__(**kwargs)
         self.k = k
         self.s = s
         self.log_k = np.log(k)
         self.log_s_pow_k = k * np.log(s)
+        if k < 1:
+            self.pdf_at_0 = np.inf
+        elif k == 1:
+            self.pdf_at_0 = 1.0 / s
+        else:
+            self.pdf_at_0 = 0
     def log_pdf(self, x):
         # pdf form from www.randomservices.org
         lx = np.log(x)
@@ -817,12 +823,19 @@ class LogLogisticDistr(Distr):
           - 2*np.logaddexp(self.log_s_pow_k, self.k*lx)
         
     def pdf(self, x):
-        y = zeros_like(x)
-        mask = (x >= 0)
+        if isscalar(x):
+            if x < 0:
+                return 0
+            if x == 0:
+                return self.pdf_at_0
+            return np.exp(self.log_pdf(x))
+        y = zeros_like(x, dtype=float)
+        mask = (x > 0)
+        y[x == 0] = self.pdf_at_0
         # pdf form from www.randomservices.org
         #y[mask] = self.k * self.s_pow_k * x[mask]**(self.k-1) \
         #  / ((self.s_pow_k + x[mask]**self.k)**2)
-        y[mask] = np.exp(self.log_pdf(x))
+        y[mask] = np.exp(self.log_pdf(x[mask]))
         return y
     def init_piecewise_pdf(self):
         wrapped_pdf = wrap_pdf(self.pdf)
-- 
2.43.0


From 280b776a18af6566c3783c27f7022781a5e6cad2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:14 +0000
Subject: [PATCH 30/86] fix: sampling from the log-logistic distribution

---
 pacal/standard_distr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pacal/standard_distr.py b/pacal/standard_distr.py
index ed6153d..0fb3a41 100644
--- a/pacal/standard_distr.py
+++ b/pacal/standard_distr.py
@@ -862,7 +862,7 @@ class LogLogisticDistr(Distr):
                                                    breakPoints = breakPoints,
                                                    lpoles=lpoles)
     def rand_raw(self, n = None):
-        u = uniform(self.a, self.b, n)
+        u = uniform(0, 1, n)
         ll = self.s * (u / (1-u))**(1.0 / self.k)
         return ll
     def __str__(self):
-- 
2.43.0


From 5c316674976136cc6d993058ab3c6370eedf5e67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:14 +0000
Subject: [PATCH 31/86] fix: ranges of the Gumbel and Frechet distributions

---
 pacal/standard_distr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pacal/standard_distr.py b/pacal/standard_distr.py
index 0fb3a41..0173e6a 100644
--- a/pacal/standard_distr.py
+++ b/pacal/standard_distr.py
@@ -745,7 +745,7 @@ class GumbelDistr(Distr):
     def getName(self):
         return "Gumbel({0},{1})".format(self.mu, self.sigma)
     def range(self):
-        return 0.0, np.inf # TODO check it
+        return -np.inf, np.inf
 
 class FrechetDistr(Distr):
     def __init__(self, alpha = 2, s = 1, m = 0, **kwargs):
@@ -788,7 +788,7 @@ class FrechetDistr(Distr):
     def getName(self):
         return "Frechet({0},{1},{2})".format(self.alpha, self.s, self.m)
     def range(self):
-        return 0.0, np.inf # TODO check it
+        return self.m, np.inf
 
 
 #f(x;\alpha ,\beta )= (k/s) * (x/s)**(k-1) / ((1 + (x/s)**k)**2)  # Wikipedia form
-- 
2.43.0


From 8a6cc9c5423079d931dfe83ca84f5d21362de59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:15 +0000
Subject: [PATCH 32/86] fix: density at zero of the Weibull distribution with
 unit shape

---
 pacal/standard_distr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pacal/standard_distr.py b/pacal/standard_distr.py
index 0173e6a..0db53cd 100644
--- a/pacal/standard_distr.py
+++ b/pacal/standard_distr.py
@@ -667,7 +667,7 @@ class WeibullDistr(Distr):
         if self.k < 1:
             self.pdf_at_0 = np.inf
         elif self.k == 1:
-            self.pdf_at_0 = 1
+            self.pdf_at_0 = self.nrm
         else:
             self.pdf_at_0 = 0
     def pdf(self, x):
-- 
2.43.0


From 3296ceb0fafff63d5f727955b1e8f40f27a7c892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:15 +0000
Subject: [PATCH 33/86] fix: beta density at the ends of the support with a
 unit parameter

---
 pacal/standard_distr.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/pacal/standard_distr.py b/pacal/standard_distr.py
index 0db53cd..ef940bd 100644
--- a/pacal/standard_distr.py
+++ b/pacal/standard_distr.py
@@ -411,16 +411,24 @@ class BetaDistr(Distr):
         self.alpha = alpha
         self.beta = beta
         self.lg_norm = lgamma(self.alpha + self.beta) - lgamma(self.alpha) - lgamma(self.beta)
+    def log_pdf(self, x):
+        lpdf = self.lg_norm
+        # a zero exponent cancels the logarithm, infinite at the ends
+        if self.alpha != 1:
+            lpdf = lpdf + log(x)*(self.alpha - 1)
+        if self.beta != 1:
+            lpdf = lpdf + log(1-x)*(self.beta - 1)
+        return lpdf
     def pdf(self, x):
         if isscalar(x):
             if x < 0 or x > 1:
                 y = 0
             else:
-                y = exp(self.lg_norm + log(x)*(self.alpha - 1) + log(1-x)*(self.beta - 1))
+                y = exp(self.log_pdf(x))
         else:
             y = zeros_like(x, dtype=float)
             mask = (x >= 0) & (x <= 1)
-            y[mask] = exp(self.lg_norm + log(x[mask])*(self.alpha - 1) + log(1-x[mask])*(self.beta - 1))
+            y[mask] = exp(self.log_pdf(x[mask]))
         return y
     def init_piecewise_pdf(self):
         if self.alpha > 1 and self.beta > 1:
-- 
2.43.0


From 029abfa7fab4e270b6a3462afad58e85b0e9c89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:19 +0000
Subject: [PATCH 34/86] fix: piecewise functions without initial segments
 shared one list

---
 pacal/segments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pacal/segments.py b/pacal/segments.py
index 4fb7aa3..56ea068 100644
--- a/pacal/segments.py
+++ b/pacal/segments.py
@@ -1057,7 +1057,7 @@ class PiecewiseFunction(object):
                     assert(False) # no segment of such type
         else:
             # TODO to remove
-            self.segments = segments
+            self.segments = list(segments)
             if len(segments)>0 :
                 i=0
                 for seg in self.segments:
-- 
2.43.0


From fc5b0284d5a51c1dc0132a98dc60f88bfeccc356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:48 +0000
Subject: [PATCH 35/86] fix: discrete distributions with repeated points

---
 pacal/distr.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pacal/distr.py b/pacal/distr.py
index 06cc243..93a94ed 100644
--- a/pacal/distr.py
+++ b/pacal/distr.py
@@ -1089,7 +1089,8 @@ class DiscreteDistr(Distr):
         for i in range(len(self.xi)):
             self.piecewise_pdf.addSegment(DiracSegment(self.xi[i], self.pi[i]))
         for i in range(len(self.xi)-1):
-            self.piecewise_pdf.addSegment(ConstSegment(self.xi[i], self.xi[i+1], 0))
+            if self.xi[i] < self.xi[i+1]:
+                self.piecewise_pdf.addSegment(ConstSegment(self.xi[i], self.xi[i+1], 0))
     def rand_raw(self, n):
         u = uniform(0, 1, n)
         i = searchsorted(self.cumP, u)
-- 
2.43.0


From 5972b7762ed72c94308d4fca8501fe23b15d6132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:48 +0000
Subject: [PATCH 36/86] fix: binomial distribution with certain success

---
 pacal/standard_distr.py | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/pacal/standard_distr.py b/pacal/standard_distr.py
index ef940bd..c88a1b7 100644
--- a/pacal/standard_distr.py
+++ b/pacal/standard_distr.py
@@ -986,16 +986,18 @@ class BinomialDistr(DiscreteDistr):
         self.n = n
         self.p = p
         self.q = 1-p
-        P = self.q ** n
-        xi = [0]
-        pi = [P]
-        pq = self.p / self.q
-        for i in range(n):
-            P *= n - i
-            P /= i + 1
-            P *= pq
-            xi.append(i+1)
-            pi.append(P)
+        xi = list(range(n + 1))
+        if self.q > 0:
+            P = self.q ** n
+            pi = [P]
+            pq = self.p / self.q
+            for i in range(n):
+                P *= n - i
+                P /= i + 1
+                P *= pq
+                pi.append(P)
+        else:
+            pi = [0.0] * n + [1.0]
         super(BinomialDistr, self).__init__(xi, pi, **kwargs)
     def __str__(self):
         return "Binomial({0}.{1})#{2}".format(self.n, self.p, self.id())
-- 
2.43.0


From 89d90cb77e91aa3f4183cf2c3069d88eee6f458d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:48 +0000
Subject: [PATCH 37/86] fix: construction of ExtremeMixDistr

---
 pacal/standard_distr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pacal/standard_distr.py b/pacal/standard_distr.py
index c88a1b7..b9c2878 100644
--- a/pacal/standard_distr.py
+++ b/pacal/standard_distr.py
@@ -116,7 +116,7 @@ class ExtremeMixDistr(Distr):
         probs -- list of pi's
         distrs -- list of distributions
         """
-        super(MixDistr, self).__init__()
+        super(ExtremeMixDistr, self).__init__()
         assert len(probs) == len(distrs)
         self.nmix = len(probs)
         self.probs = probs
-- 
2.43.0


From 8e1aeb0b04d96f29368607a76dfb5475c54284a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:48 +0000
Subject: [PATCH 38/86] fix: printing of TruncDiscreteFunDistr

---
 pacal/standard_distr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pacal/standard_distr.py b/pacal/standard_distr.py
index b9c2878..12a856c 100644
--- a/pacal/standard_distr.py
+++ b/pacal/standard_distr.py
@@ -950,7 +950,7 @@ class TruncDiscreteFunDistr(DiscreteDistr):
         pi = [p/S for p in pi]
         super(TruncDiscreteFunDistr, self).__init__(xi, pi, **kwargs)
     def __str__(self):
-        return "TruncDiscreteFunDistr({0})#{1}".format(self.trunk_epsself.id())
+        return "TruncDiscreteFunDistr({0})#{1}".format(self.trunk_eps, self.id())
     def getName(self):
         return "TruncDiscreteFunDistr({0})".format(self.trunk_eps)
 
-- 
2.43.0


From 687e90423bd180672c318ad8ea045c61c5003e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:24:48 +0000
Subject: [PATCH 39/86] fix: discrete distributions accept the same keyword
 arguments as the others

---
 pacal/distr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pacal/distr.py b/pacal/distr.py
index 93a94ed..5d97190 100644
--- a/pacal/distr.py
+++ b/pacal/distr.py
@@ -1068,8 +1068,8 @@ def tan(d):
 
 class DiscreteDistr(Distr):
     """Discrete distribution"""
-    def __init__(self, xi=[0.0, 1.0], pi=[0.5, 0.5]):
-        super(DiscreteDistr, self).__init__([])
+    def __init__(self, xi=[0.0, 1.0], pi=[0.5, 0.5], **kwargs):
+        super(DiscreteDistr, self).__init__([], **kwargs)
         assert(len(xi) == len(pi))
         px = list(zip(xi, pi))
         px.sort()
-- 
2.43.0


From 02b9c3c25865fd6a0f4fb23fe6a440c8d7897c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:31 +0000
Subject: [PATCH 40/86] fix: absolute value of a random variable

---
 pacal/rv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pacal/rv.py b/pacal/rv.py
index c0f29f1..d10189d 100644
--- a/pacal/rv.py
+++ b/pacal/rv.py
@@ -410,7 +410,7 @@ class PowRV(FuncRV):
 class AbsRV(OpRV):
     """Absolute value of a distribution."""
     def __init__(self, d):
-        super(AbsRV, self).__init__([d], sym = sympy_abs(d.getSymame())) # TODO abs unpleasant in sympy
+        super(AbsRV, self).__init__([d], sym = sympy_abs(d.getSymname())) # TODO abs unpleasant in sympy
         self.d = d
     def __str__(self):
         return "|#{0}|".format(self.d.id())
-- 
2.43.0


From cd199b1bfa291524c67c8c2f88583a6447ad64f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:31 +0000
Subject: [PATCH 41/86] fix: parents of the sign of a random variable

---
 pacal/rv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pacal/rv.py b/pacal/rv.py
index d10189d..bace232 100644
--- a/pacal/rv.py
+++ b/pacal/rv.py
@@ -420,7 +420,7 @@ class AbsRV(OpRV):
 class SignRV(RV):
     def __init__(self, d):
         self.d = d
-        super(SignRV, self).__init__(d, sym = sympy.sign(d.getSymname()))
+        super(SignRV, self).__init__([d], sym = sympy.sign(d.getSymname()))
     def __str__(self):
         return "sign({0})".format(self.d.id())
     def getName(self):
-- 
2.43.0


From 893ad28e53a3e8fcefe41bbf46a4f4ec9d2437d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:31 +0000
Subject: [PATCH 42/86] fix: power of a random variable

---
 pacal/rv.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pacal/rv.py b/pacal/rv.py
index bace232..c435c47 100644
--- a/pacal/rv.py
+++ b/pacal/rv.py
@@ -399,11 +399,11 @@ class InvRV(OpRV):
 class PowRV(FuncRV):
     """Inverse of random variable."""
     def __init__(self, d, alpha = 1):
-        super(PowRV, self).__init__([d], fname="pow", sym = d.getSymname()**alpha)
+        super(PowRV, self).__init__(d, fname="pow", sym = d.getSymname()**alpha)
         self.d = d
         self.alpha = alpha
     def __str__(self):
-        return "#{0}**{1}".format(self.d1.id(), self.alpha)
+        return "#{0}**{1}".format(self.d.id(), self.alpha)
     def getName(self):
         return "{0}**{1}".format(_wrapped_name(self.d), self.alpha)
 
-- 
2.43.0


From ce1f70189ce2e6f5de87dc3070c5e1dccaed6012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:31 +0000
Subject: [PATCH 43/86] fix: logarithm of a random variable

---
 pacal/rv.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pacal/rv.py b/pacal/rv.py
index c435c47..018bf40 100644
--- a/pacal/rv.py
+++ b/pacal/rv.py
@@ -58,6 +58,9 @@ class RV(object):
 
     def range(self):
         return self.a, self.b
+    def is_nonneg(self):
+        """Check whether the variable is nonnegative."""
+        return self.range()[0] >= 0
 
     def getName(self):
         """return, string representation of RV"""
-- 
2.43.0


From 0a573cd4b0ef5f0c1b9b204dbec36e9b0b356be9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:32 +0000
Subject: [PATCH 44/86] fix: range of the difference of random variables

---
 pacal/rv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pacal/rv.py b/pacal/rv.py
index 018bf40..be4383e 100644
--- a/pacal/rv.py
+++ b/pacal/rv.py
@@ -465,7 +465,7 @@ class SubRV(OpRV):
         #self.a, self.b = min(breaks), max(breaks)
         a1, b1 = d1.range()
         a2, b2 = d2.range()
-        self.a, self.b = a1-a2, b1-b2
+        self.a, self.b = a1-b2, b1-a2
         self.d1 = d1
         self.d2 = d2
     def __str__(self):
-- 
2.43.0


From ec56af1ab9a59976561ba9d2faead93faae65d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:32 +0000
Subject: [PATCH 45/86] fix: name of the difference of random variables

---
 pacal/rv.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pacal/rv.py b/pacal/rv.py
index be4383e..e6a0c19 100644
--- a/pacal/rv.py
+++ b/pacal/rv.py
@@ -471,7 +471,7 @@ class SubRV(OpRV):
     def __str__(self):
         return "#{0}-#{1}".format(self.d1.id(), self.d2.id())
     def getName(self):
-        n2 = _wrapped_name(self.d2, incl_classes = [SumRV])
+        n2 = _wrapped_name(self.d2, incl_classes = [SumRV, SubRV, ShiftedScaledRV])
         return "{0}-{1}".format(self.d1.getName(), n2)
     def getOperation(self):
         return "-"
-- 
2.43.0


From 55ea3b7cf68029d3ab771be55c1711c1a389ca17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:32 +0000
Subject: [PATCH 46/86] fix: range of the quotient of random variables

---
 pacal/rv.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/pacal/rv.py b/pacal/rv.py
index e6a0c19..4730323 100644
--- a/pacal/rv.py
+++ b/pacal/rv.py
@@ -330,6 +330,12 @@ class FuncRV(OpRV):
         """return string representation of operation when is used, None otherwise."""
         return self.fname
 
+def _inverse_range(a, b):
+    """Range of 1/X for X with values between a and b."""
+    if a < 0 < b:
+        return -numpy.inf, numpy.inf
+    return (1.0 / b if b != 0 else -numpy.inf), (1.0 / a if a != 0 else numpy.inf)
+
 class ShiftedScaledRV(OpRV):
     def __init__(self, d, shift = 0, scale = 1):
         assert(scale != 0)
@@ -495,13 +501,7 @@ class MulRV(OpRV):
 class DivRV(OpRV):
     def __init__(self, d1, d2):
         super(DivRV, self).__init__([d1, d2], sym = d1.getSymname() / d2.getSymname())
-        d1range = list(d1.range())
-        d2range = list(d2.range())
-        if prod(d1range)<0:
-            d1range.append(0.0)
-        if prod(d2range)<0:
-            d2range.append(0.0)
-        breaks = unique(divide.outer(d1range, d2range))
+        breaks = unique(multiply.outer(d1.range(), _inverse_range(*d2.range())))
         self.a, self.b = min(breaks), max(breaks)
         self.d1 = d1
         self.d2 = d2
-- 
2.43.0


From 7357cc8c1683cf134499c272e63d5bbee81fed1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:32 +0000
Subject: [PATCH 47/86] fix: range of the inverse of a random variable

---
 pacal/rv.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pacal/rv.py b/pacal/rv.py
index 4730323..fe56c87 100644
--- a/pacal/rv.py
+++ b/pacal/rv.py
@@ -394,6 +394,7 @@ class InvRV(OpRV):
     """Inverse of random variable."""
     def __init__(self, d):
         super(InvRV, self).__init__([d], sym = 1 / d.getSymname())
+        self.a, self.b = _inverse_range(*d.range())
         self.d = d
     def __str__(self):
         return "1/#{0}".format(self.d.id())
-- 
2.43.0


From e4cf888249493cae698147a49304f3661b715458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:32 +0000
Subject: [PATCH 48/86] fix: ranges of minimum and maximum of random variables

---
 pacal/rv.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pacal/rv.py b/pacal/rv.py
index fe56c87..238294e 100644
--- a/pacal/rv.py
+++ b/pacal/rv.py
@@ -5,7 +5,7 @@ from os import getpid
 
 import numpy
 from numpy import unique
-from numpy import add, subtract, divide, prod, multiply
+from numpy import add, subtract, divide, prod, multiply, minimum, maximum
 
 import sympy
 from sympy import var
@@ -518,9 +518,12 @@ class DivRV(OpRV):
 class MinRV(OpRV):
     def __init__(self, d1, d2):
         super(MinRV, self).__init__([d1, d2], sym = sympy_min(d1.getSymname(), d2.getSymname()))
+        a1, b1 = d1.range()
+        a2, b2 = d2.range()
+        self.a, self.b = minimum(a1, a2), minimum(b1, b2)
         self.d1 = d1
         self.d2 = d2
-    def __str(self):
+    def __str__(self):
         #return "min(#{0}, #{1})".format(self.d1.id(), self.d2.id())
         return "min({0},{1})".format(self.d1, self.d2)
     def getName(self):
@@ -531,9 +534,12 @@ class MinRV(OpRV):
 class MaxRV(OpRV):
     def __init__(self, d1, d2):
         super(MaxRV, self).__init__([d1, d2], sym = sympy_max(d1.getSymname(), d2.getSymname()))
+        a1, b1 = d1.range()
+        a2, b2 = d2.range()
+        self.a, self.b = maximum(a1, a2), maximum(b1, b2)
         self.d1 = d1
         self.d2 = d2
-    def __str(self):
+    def __str__(self):
         return "max(#{0}, #{1})".format(self.d1.id(), self.d2.id())
     def getName(self):
         return "max({0}, {1})".format(self.d1.getName(), self.d2.getName())
-- 
2.43.0


From a4557377ef7021a950118fa39cc825f8f7327058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:32 +0000
Subject: [PATCH 49/86] fix: ranges of functions of random variables

---
 pacal/rv.py | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/pacal/rv.py b/pacal/rv.py
index 238294e..306d005 100644
--- a/pacal/rv.py
+++ b/pacal/rv.py
@@ -367,10 +367,25 @@ class ShiftedScaledRV(OpRV):
             else:
                 return "{2}*{0}+{1}".format(d_name, self.shift, self.scale)
 
+def _monotone_range(f, d):
+    """Range of f(d) for an increasing f."""
+    a, b = d.range()
+    with numpy.errstate(divide="ignore", over="ignore"):
+        return f(a), f(b)
+
+def _abs_range(a, b):
+    """Range of |X| for X with values between a and b."""
+    if a >= 0:
+        return a, b
+    if b <= 0:
+        return -b, -a
+    return 0.0, maximum(-a, b)
+
 class ExpRV(FuncRV):
     """Exponent of a random variable"""
     def __init__(self, d):
         super(ExpRV, self).__init__(d, fname = "exp", sym = sympy.exp(d.getSymname()))
+        self.a, self.b = _monotone_range(numpy.exp, d)
     def is_nonneg(self):
         return True
 class LogRV(FuncRV):
@@ -379,16 +394,19 @@ class LogRV(FuncRV):
         if not d.is_nonneg():
             raise ValueError("logarithm of a nonpositive distribution")
         super(LogRV, self).__init__(d, fname = "log", sym = sympy.log(d.getSymname()))
+        self.a, self.b = _monotone_range(numpy.log, d)
 
 class AtanRV(FuncRV):
     """Arcus tangent of a random variable"""
     def __init__(self, d):
         super(AtanRV, self).__init__(d, fname ="atan", sym = sympy.atan(d.getSymname()))
+        self.a, self.b = _monotone_range(numpy.arctan, d)
 
 class TanhRV(FuncRV):
     """Hyperbolic tangent of a random variable"""
     def __init__(self, d):
         super(TanhRV, self).__init__(d, fname ="tanh", sym = sympy.tanh(d.getSymname()))
+        self.a, self.b = _monotone_range(numpy.tanh, d)
 
 class InvRV(OpRV):
     """Inverse of random variable."""
@@ -412,6 +430,13 @@ class PowRV(FuncRV):
         super(PowRV, self).__init__(d, fname="pow", sym = d.getSymname()**alpha)
         self.d = d
         self.alpha = alpha
+        a, b = d.range()
+        if a < 0:
+            self.a, self.b = -numpy.inf, numpy.inf
+        elif alpha > 0:
+            self.a, self.b = a ** alpha, b ** alpha
+        else:
+            self.a, self.b = _inverse_range(a ** -alpha, b ** -alpha)
     def __str__(self):
         return "#{0}**{1}".format(self.d.id(), self.alpha)
     def getName(self):
@@ -421,6 +446,7 @@ class AbsRV(OpRV):
     """Absolute value of a distribution."""
     def __init__(self, d):
         super(AbsRV, self).__init__([d], sym = sympy_abs(d.getSymname())) # TODO abs unpleasant in sympy
+        self.a, self.b = _abs_range(*d.range())
         self.d = d
     def __str__(self):
         return "|#{0}|".format(self.d.id())
@@ -431,6 +457,7 @@ class SignRV(RV):
     def __init__(self, d):
         self.d = d
         super(SignRV, self).__init__([d], sym = sympy.sign(d.getSymname()))
+        self.a, self.b = _monotone_range(numpy.sign, d)
     def __str__(self):
         return "sign({0})".format(self.d.id())
     def getName(self):
@@ -440,6 +467,8 @@ class SquareRV(OpRV):
     """Injective function of random variable"""
     def __init__(self, d):
         super(SquareRV, self).__init__([d], sym = d.getSymname()**2)
+        a, b = _abs_range(*d.range())
+        self.a, self.b = a*a, b*b
         self.d = d
     def __str__(self):
         return "#{0}**2".format(self.d.id())
-- 
2.43.0


From b4b9c636b362a89097d85deb7d627688e814a1af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:34 +0000
Subject: [PATCH 50/86] fix: symbolic form and range of the absolute value and
 the square

---
 pacal/distr.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/pacal/distr.py b/pacal/distr.py
index 5d97190..177e176 100644
--- a/pacal/distr.py
+++ b/pacal/distr.py
@@ -893,11 +893,10 @@ class PowDistr(PowRV, OpDistr):
             y[mask] = self.alpha_inv * x ** self.exp_deriv
         return y
 
-class AbsDistr(OpDistr):
+class AbsDistr(AbsRV, OpDistr):
     """Absolute value of a distribution."""
     def __init__(self, d):
-        super(AbsDistr, self).__init__([d])
-        self.d = d
+        super(AbsDistr, self).__init__(d)
     def init_piecewise_pdf(self):
         self.piecewise_pdf = self.d.get_piecewise_pdf().copyAbsComposition()
     def pdf(self, x):
@@ -918,11 +917,10 @@ class AbsDistr(OpDistr):
     def getName(self):
         return "|{0}|".format(self.d.getName())
 
-class SquareDistr(OpDistr):
+class SquareDistr(SquareRV, OpDistr):
     """Injective function of random variable"""
     def __init__(self, d):
-        super(SquareDistr, self).__init__([d])
-        self.d = d
+        super(SquareDistr, self).__init__(d)
     def init_piecewise_pdf(self):
         self.piecewise_pdf = self.d.get_piecewise_pdf().copySquareComposition()
     def pdf(self,x):
-- 
2.43.0


From 87508140d69f74ac6b14f33fe00d00c40faa6dac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:34 +0000
Subject: [PATCH 51/86] fix: ranges of functions of distributions

---
 pacal/distr.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/pacal/distr.py b/pacal/distr.py
index 177e176..bf4acb0 100644
--- a/pacal/distr.py
+++ b/pacal/distr.py
@@ -562,6 +562,7 @@ class FuncDistr(FuncRV, OpDistr):
     def __init__(self, d, pole_at_zero = False, fname = "f", sym = None):
         super(FuncDistr, self).__init__(d, sym = sym, fname = fname)
         self.pole_at_zero = pole_at_zero
+        self.init_range()
 # functions need to be implemented directly (not passed to constructor)
 #        self.f = f
 #        self.f_inv = f_inv
@@ -585,6 +586,10 @@ class FuncDistr(FuncRV, OpDistr):
             mask = isfinite(y)
             y[~mask] = 0
         return y
+    def init_range(self):
+        """Range of f(d), f is monotone on the range of d."""
+        with numpy.errstate(divide="ignore", over="ignore"):
+            self.a, self.b = sorted(self.f(x) for x in self.d.range())
     def rand_op(self, n, cache):
         return self.f(self.d.rand(n, cache))
     def init_piecewise_pdf(self):
@@ -966,6 +971,11 @@ class FuncNoninjectiveDistr(OpDistr):
         self.fname = fname
         self.d = d
         super(FuncNoninjectiveDistr, self).__init__([d])
+        a, b = d.range()
+        y = [f(min(max(x, lo), hi)) for f, (lo, hi) in zip(self.fs, self.intervals)
+                                    for x in (a, b) if a <= hi and lo <= b]
+        if len(y) > 0:
+            self.a, self.b = min(y), max(y)
     def pdf(self, x):
         return self.get_piecewise_pdf()(x)
 #    def pdf(self, x):
@@ -1057,6 +1067,12 @@ class TanDistr(FuncDistr):
     def f_inv_deriv(self, x):
         y = 1.0 / (1 + x**2)
         return y
+    def init_range(self):
+        a, b = self.d.range()
+        if numpy.floor(a / pi + 0.5) == numpy.floor(b / pi + 0.5):
+            super(TanDistr, self).init_range()
+        else:
+            self.a, self.b = -Inf, Inf
 
 def tan(d):
     """Overload the exp function."""
-- 
2.43.0


From d4cece2067b267d84381573173c58365462326e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:34 +0000
Subject: [PATCH 52/86] fix: name of the sigmoid

---
 pacal/distr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pacal/distr.py b/pacal/distr.py
index bf4acb0..95a4b9e 100644
--- a/pacal/distr.py
+++ b/pacal/distr.py
@@ -744,7 +744,7 @@ def tanh(d):
 class SigmoidDistr(FuncDistr):
     """Sigmoid function of a random variable"""
     def __init__(self, d):
-        super(SigmoidDistr, self).__init__(d, pole_at_zero= False, fname ="tanh")
+        super(SigmoidDistr, self).__init__(d, pole_at_zero= False, fname ="sigmoid")
 
     def f(self, x):
         if isscalar(x):
-- 
2.43.0


From 87e8b941f32253864232b3da287510148d22aa8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:34 +0000
Subject: [PATCH 53/86] fix: symbolic form of functions of distributions

---
 pacal/distr.py | 34 ++++++++++++++++++++++------------
 1 file changed, 22 insertions(+), 12 deletions(-)

diff --git a/pacal/distr.py b/pacal/distr.py
index 95a4b9e..34ecc58 100644
--- a/pacal/distr.py
+++ b/pacal/distr.py
@@ -9,6 +9,7 @@ from functools import partial
 
 import numpy
 import numpy as np
+import sympy
 from numpy import array, zeros_like, ones_like, unique, concatenate, isscalar, isfinite
 from numpy import sqrt, pi, arctan, tan, asarray, zeros
 #from numpy import sin, cos, tan,
@@ -616,7 +617,8 @@ class ExpDistr(FuncDistr):
     """Exponent of a random variable"""
     def __init__(self, d):
         super(ExpDistr, self).__init__(d, pole_at_zero = True,
-                                       fname = "exp")
+                                       fname = "exp",
+                                       sym = sympy.exp(d.getSymname()))
     def f(self, x):
         return numpy.exp(x)
     def f_inv(self, x):
@@ -638,7 +640,8 @@ class LogDistr(FuncDistr):
     def __init__(self, d):
         if not d.is_nonneg():
             raise ValueError("logarithm of a nonpositive distribution")
-        super(LogDistr, self).__init__(d, pole_at_zero= True, fname = "log")
+        super(LogDistr, self).__init__(d, pole_at_zero= True, fname = "log",
+                                       sym = sympy.log(d.getSymname()))
     def f(self, x):
         return numpy.log(x)
     def f_inv(self, x):
@@ -667,7 +670,8 @@ def sign(d):
 class AtanDistr(FuncDistr):
     """Arcus tangent of a random variable"""
     def __init__(self, d):
-        super(AtanDistr, self).__init__(d, pole_at_zero= False, fname ="atan")
+        super(AtanDistr, self).__init__(d, pole_at_zero= False, fname ="atan",
+                                       sym = sympy.atan(d.getSymname()))
 
     def f(self, x):
         return numpy.arctan(x)
@@ -705,7 +709,8 @@ def atan(d):
 class TanhDistr(FuncDistr):
     """Hyperbolic tangent of a random variable"""
     def __init__(self, d):
-        super(TanhDistr, self).__init__(d, pole_at_zero= False, fname ="tanh")
+        super(TanhDistr, self).__init__(d, pole_at_zero= False, fname ="tanh",
+                                       sym = sympy.tanh(d.getSymname()))
 
     def f(self, x):
         return numpy.tanh(x)
@@ -744,7 +749,8 @@ def tanh(d):
 class SigmoidDistr(FuncDistr):
     """Sigmoid function of a random variable"""
     def __init__(self, d):
-        super(SigmoidDistr, self).__init__(d, pole_at_zero= False, fname ="sigmoid")
+        super(SigmoidDistr, self).__init__(d, pole_at_zero= False, fname ="sigmoid",
+                                       sym = 1 / (1 + sympy.exp(-d.getSymname())))
 
     def f(self, x):
         if isscalar(x):
@@ -960,7 +966,7 @@ def sqrt(d):
 
 class FuncNoninjectiveDistr(OpDistr):
     """Non-injective function of random variable only piecewise smooth functions are permitted"""
-    def __init__(self, d, fname="f"):
+    def __init__(self, d, fname="f", sym = None):
 # ====================================
 #        self.intervals = []
 #        self.fs = []
@@ -970,7 +976,7 @@ class FuncNoninjectiveDistr(OpDistr):
 # ====================================
         self.fname = fname
         self.d = d
-        super(FuncNoninjectiveDistr, self).__init__([d])
+        super(FuncNoninjectiveDistr, self).__init__([d], sym = sym)
         a, b = d.range()
         y = [f(min(max(x, lo), hi)) for f, (lo, hi) in zip(self.fs, self.intervals)
                                     for x in (a, b) if a <= hi and lo <= b]
@@ -1010,7 +1016,8 @@ class Sq2Distr(FuncNoninjectiveDistr):
         self.f_invs = [lambda x: x**0.5,lambda x: -x**0.5]
         self.f_inv_derivs = [lambda x: 0.5*x**(-0.5),lambda x: -0.5*x**(-0.5)]
         self.pole_at_zero = True
-        super(Sq2Distr, self).__init__(d, fname = "sin")
+        super(Sq2Distr, self).__init__(d, fname = "sin",
+                                       sym = d.getSymname()**2)
     def is_nonneg(self):
         return True
 
@@ -1028,7 +1035,8 @@ class SinDistr(FuncNoninjectiveDistr):
         self.f_invs = [numpy.arcsin, _pi_m_arcsin]
         self.f_inv_derivs = [_arcsin_der1, _arcsin_der1]
         self.pole_at_zero = False
-        super(SinDistr, self).__init__(d, fname = "sin")
+        super(SinDistr, self).__init__(d, fname = "sin",
+                                       sym = sympy.sin(d.getSymname()))
 def sin(d):
     """Overload the exp function."""
     if isinstance(d, Distr):
@@ -1049,7 +1057,8 @@ class CosDistr(FuncNoninjectiveDistr):
         self.f_invs = [numpy.arccos, _twopi_m_arccos]
         self.f_inv_derivs = [_arccos_der1, _arccos_der2]
         self.pole_at_zero = False
-        super(CosDistr, self).__init__(d, fname = "cos")
+        super(CosDistr, self).__init__(d, fname = "cos",
+                                       sym = sympy.cos(d.getSymname()))
 def cos(d):
     """Overload the exp function."""
     if isinstance(d, Distr):
@@ -1059,7 +1068,8 @@ def cos(d):
 class TanDistr(FuncDistr):
     """Tangent of a random variable"""
     def __init__(self, d):
-        super(TanDistr, self).__init__(d, pole_at_zero = False, fname = "tan")
+        super(TanDistr, self).__init__(d, pole_at_zero = False, fname = "tan",
+                                       sym = sympy.tan(d.getSymname()))
     def f(self, x):
         return numpy.tan(x)
     def f_inv(self, x):
@@ -1130,7 +1140,7 @@ class SignDistr(DiscreteDistr):
             xi = [-1,0,1]; pi=[prMinus, prZero, prPlus]
         else:
             xi = [-1,1]; pi=[prMinus, prPlus]
-        super(SignDistr, self).__init__(xi, pi)
+        super(SignDistr, self).__init__(xi, pi, sym = sympy.sign(d.getSymname()))
         self.parents = [d]
     def __str__(self):
         return "sign({0})".format(id(self.d))
-- 
2.43.0


From 26f6885cce56d69a470813652c85055451b3cdfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:34 +0000
Subject: [PATCH 54/86] fix: range of discrete distributions

---
 pacal/distr.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pacal/distr.py b/pacal/distr.py
index 34ecc58..4c83c7b 100644
--- a/pacal/distr.py
+++ b/pacal/distr.py
@@ -1101,6 +1101,8 @@ class DiscreteDistr(Distr):
         self.xi = [p[0] for p in px]
         self.pi = [p[1] for p in px]
         self.cumP = cumsum(self.pi)
+        if len(self.xi) > 0:
+            self.a, self.b = self.xi[0], self.xi[-1]
     def pdf(self, x):
         """it override pdf() method to obtain discrete probabilities"""
         x = asarray(x)
-- 
2.43.0


From 4c01dfd89bdca95660402ef2f47fd6b740e7de64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:45 +0000
Subject: [PATCH 55/86] fix: upper bound copula at a single point

---
 pacal/depvars/copulas.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/pacal/depvars/copulas.py b/pacal/depvars/copulas.py
index 0dcd81e..6cceb2c 100644
--- a/pacal/depvars/copulas.py
+++ b/pacal/depvars/copulas.py
@@ -307,14 +307,9 @@ class MCopula(Copula):
     def cpdf(self, *X):
         return zeros_like(X[0])#self.ccdf(*X)
     def ccdf(self, *X):
-        mi = zeros_like(X[0])+1
-        for xi in X[0:]:
-            xia = array(xi)
-            ind = xia < mi
-            if isscalar(mi) | size(mi)==1:
-                mi = xia
-            else:
-                mi[ind] = xia[ind]
+        mi = X[0]
+        for xi in X[1:]:
+            mi = np.minimum(mi, xi)
         return mi
     def _segmin(self, fun, L, U, force_minf = False, force_pinf = False, force_poleL = False, force_poleU = False,
             debug_info = False, debug_plot = False):
-- 
2.43.0


From 5e8bfa98f356ddb949836539478aecc62413417c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:45 +0000
Subject: [PATCH 56/86] fix: lower bound copula in more dimensions

---
 pacal/depvars/copulas.py | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/pacal/depvars/copulas.py b/pacal/depvars/copulas.py
index 6cceb2c..d25cb94 100644
--- a/pacal/depvars/copulas.py
+++ b/pacal/depvars/copulas.py
@@ -377,17 +377,10 @@ class WCopula(MCopula):
     def cpdf(self, *X):
         return zeros_like(X[0])#self.ccdf(*X)
     def ccdf(self, *X):
-        si = zeros_like(X[0])
-        for xi in X[0:]:
-            si += array(xi)
-        si = si - 1
-        ind = (si < 0)
-        if isscalar(si) | size(si)==1:
-            if ind:
-                si = 0.0
-        else:
-            si[ind] = 0
-        return si
+        si = 1 - len(X)
+        for xi in X:
+            si = si + xi
+        return np.maximum(si, 0.0)
     def _segmax(self, fun, L, U, force_minf = False, force_pinf = False, force_poleL = False, force_poleU = False,
             debug_info = False, debug_plot = False):
         #xopt = fminbound(fun, L, U, xtol = 1e-16)
-- 
2.43.0


From 1581a7af40620ef47be84b19f3d01bf3a24556c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:45 +0000
Subject: [PATCH 57/86] fix: dual of a copula with given margins

---
 pacal/depvars/copulas.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pacal/depvars/copulas.py b/pacal/depvars/copulas.py
index d25cb94..5813cae 100644
--- a/pacal/depvars/copulas.py
+++ b/pacal/depvars/copulas.py
@@ -80,8 +80,8 @@ class Copula(NDDistr):
     def dualcdf(self, *X):
         si = zeros_like(X[0])
         for i in range(len(X)):
-            si += self.marginals[i].get_piecewise_cdf_interp()(X[i])
-        return si - self.ccdf(*X)
+            si = si + self.marginals[i].get_piecewise_cdf_interp()(X[i])
+        return si - self.cdf(*X)
     def jpdf_(self, f, g, x, y):
         """joint probability density function with marginals *X"""
         if isinstance(f, Distr):
-- 
2.43.0


From 635255bb59de5e2e5f457fe0fd8745a4d39a7163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:45 +0000
Subject: [PATCH 58/86] fix: copulas at integer arguments

---
 pacal/depvars/copulas.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/pacal/depvars/copulas.py b/pacal/depvars/copulas.py
index 5813cae..2b06c8a 100644
--- a/pacal/depvars/copulas.py
+++ b/pacal/depvars/copulas.py
@@ -298,7 +298,7 @@ class PiCopula(Copula):
     def ccdf(self, *X):
         pi = ones_like(X[0])
         for xi in X:
-            pi *= xi
+            pi = pi * xi
         return pi
 class MCopula(Copula):
     def __init__(self, marginals=None):
@@ -440,11 +440,8 @@ class ArchimedeanCopula(Copula):
         assert len(X) == len(self.marginals), "incorrect copula dimension"
         si = zeros_like(X[0])
         for xi in X:
-            si += self.fi(xi)
-        ind = (si < 0) # or isnan(si)
-        #if len(ind)>0:
-        si[ind] = 0.0
-        si = self.fi_inv(si)
+            si = si + self.fi(xi)
+        si = self.fi_inv(np.maximum(si, 0.0))
         return si
 class ArchimedeanSymbolicCopula(ArchimedeanCopula):
     # TODO
@@ -599,15 +596,15 @@ class GumbelCopula2d(Copula):
     def cpdf(self, *X):
         si = zeros_like(X[0])
         for xi in X:
-            si += self.fi(xi)
+            si = si + self.fi(xi)
         si = self.fi_inv(si) * (si ** (self.one_over_theta - 2.0) * (-1.0 + self.theta + si ** self.one_over_theta)) / self.theta_square
         for xi in X:
-            si *= self.theta * self.fi(xi) ** (1 - self.one_over_theta) / xi          
+            si = si * (self.theta * self.fi(xi) ** (1 - self.one_over_theta) / xi)
         return si
     def ccdf(self, *X):
         si = zeros_like(X[0])
         for xi in X:
-            si += self.fi(xi)
+            si = si + self.fi(xi)
         si = self.fi_inv(si)
         return si
 
@@ -693,14 +690,14 @@ class FrankCopula2d(Copula):
         pi = ones_like(X[0])
         n = len(X)
         for xi in X:
-            si += xi
-            pi *= -np.expm1(-self.theta * xi)
+            si = si + xi
+            pi = pi * -np.expm1(-self.theta * xi)
         yi = self.theta * self.eta * np.exp(-self.theta * si) / (self.eta - pi) ** n
         return yi
     def ccdf(self, *X):
         pi = ones_like(X[0])
         for xi in X:
-            pi *= -expm1(-self.theta * xi)
+            pi = pi * -expm1(-self.theta * xi)
         yi = -self.one_over_theta * np.log1p(-pi / self.eta)
         return yi
 
-- 
2.43.0


From 2467da445945a63624dd7ab7c01f3a06d0a0427a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:45 +0000
Subject: [PATCH 59/86] fix: covariance of the variables of a copula

---
 pacal/depvars/copulas.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/pacal/depvars/copulas.py b/pacal/depvars/copulas.py
index 2b06c8a..2fbfb19 100644
--- a/pacal/depvars/copulas.py
+++ b/pacal/depvars/copulas.py
@@ -196,12 +196,11 @@ class Copula(NDDistr):
         if i is not None and j is not None:
             var, c_var = self.prepare_var([i, j])
             dij = self.eliminate(c_var)
-            f, g = dij.marginals[0], self.marginals[1]
+            f, g = dij.marginals[0], dij.marginals[-1]
             fmean = f.mean()
             gmean = g.mean()
             f0, f1 = f.get_piecewise_pdf().range()
             g0, g1 = g.get_piecewise_pdf().range()
-            print(fmean, gmean, var, c_var, f0, f1, g0, g1)
             if i == j:
                 c, e = c, e = integrate_fejer2(lambda x: (x - fmean) ** 2 * f.pdf(x), f0, f1)                  
             else:
@@ -217,7 +216,7 @@ class Copula(NDDistr):
         if i is not None and j is not None:
             var, c_var = self.prepare_var([i, j])
             dij = self.eliminate(c_var)
-            f, g = dij.marginals[0], self.marginals[1]
+            f, g = dij.marginals[0], dij.marginals[-1]
             return self.cov(i, j)/f.std()/g.std()
         else:
             c = zeros((self.d, self.d))
@@ -231,7 +230,7 @@ class Copula(NDDistr):
         if i is not None and j is not None:
             var, c_var = self.prepare_var([i, j])
             dij = self.eliminate(c_var)
-            f, g = dij.marginals[0], self.marginals[1]
+            f, g = dij.marginals[0], dij.marginals[-1]
             f0, f1 = f.get_piecewise_pdf().range()
             g0, g1 = g.get_piecewise_pdf().range()
             if i == j:
-- 
2.43.0


From ac1cc43cabec389a42d9a4e27a790990145b30b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:45 +0000
Subject: [PATCH 60/86] fix: conditional distribution function of a copula on
 arrays

---
 pacal/depvars/copulas.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/pacal/depvars/copulas.py b/pacal/depvars/copulas.py
index 2fbfb19..ca24f8a 100644
--- a/pacal/depvars/copulas.py
+++ b/pacal/depvars/copulas.py
@@ -529,17 +529,15 @@ class ArchimedeanSymbolicCopula(ArchimedeanCopula):
         def fun_(*Y_):
             j, k = 0, 0
             Y = []
-            dF = ones_like(X[0])
             for i in range(len(self.Vars)):
                 if i in set(var):
                     Y.append(self.marginals[i].get_piecewise_cdf()(X[j]))
                     j += 1
                 else:
                     Y.append(self.marginals[i].get_piecewise_cdf()(Y_[k]))
-                    dF *= self.marginals[i].get_piecewise_pdf()(Y_[k])
                     k += 1
             return funcond(*Y)
-        return NDFun(len(new_cond), [self.Vars[i] for i in c_var], fun_)
+        return NDFun(len(c_var), [self.Vars[i] for i in c_var], fun_)
     def condfun(self, var):
         """It returns conditional cdf function f([var, c_vars]) = Pr(Y<c_var | var)
         """
@@ -549,13 +547,8 @@ class ArchimedeanSymbolicCopula(ArchimedeanCopula):
         def fun_(*X):
             j, k = 0, 0
             Y = []
-            dF = ones_like(X[0])
             for i in range(len(self.Vars)):
                 Y.append(self.marginals[i].get_piecewise_cdf()(X[i]))
-                if i in set(var):
-                    pass
-                else:
-                    dF *= self.marginals[i].get_piecewise_pdf()(X[i])                    
             return funcond(*Y)
         return NDFun(self.d, self.Vars, fun_)
     def debug_info(self):
-- 
2.43.0


From d803c8641ab3439dc8fdf306a51e3ee856bb6b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:22 +0000
Subject: [PATCH 61/86] fix: domain of the conditional copula

---
 pacal/depvars/copulas.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pacal/depvars/copulas.py b/pacal/depvars/copulas.py
index ca24f8a..aec6322 100644
--- a/pacal/depvars/copulas.py
+++ b/pacal/depvars/copulas.py
@@ -495,8 +495,10 @@ class ArchimedeanSymbolicCopula(ArchimedeanCopula):
                 DC = sympy.diff(DC, self.symVars[i])
             else:
                 pass
-        dC = sympy.lambdify(self.symVars, DC, "numpy")
-        return NDFun(self.d, self.Vars, sympy.lambdify(self.symVars, DC, "numpy"))       
+        dC = NDFun(self.d, self.Vars, sympy.lambdify(self.symVars, DC, "numpy"))
+        # arguments are values of distribution functions
+        dC.a, dC.b = [0.0] * self.d, [1.0] * self.d
+        return dC
 
     def condition(self, var, *X):
         """It returns conditional pdf for given copula
-- 
2.43.0


From 19f21868ed9c79866b162a58dd402d5a1aff3f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:22 +0000
Subject: [PATCH 62/86] fix: order of the conditioning variables of a copula

---
 pacal/depvars/copulas.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/pacal/depvars/copulas.py b/pacal/depvars/copulas.py
index aec6322..fb20c05 100644
--- a/pacal/depvars/copulas.py
+++ b/pacal/depvars/copulas.py
@@ -508,18 +508,17 @@ class ArchimedeanSymbolicCopula(ArchimedeanCopula):
         num = self.pdf
         den = self.eliminate(c_var)
         def fun_(*Y_):
-            j, k = 0, 0
+            k = 0
             Y, Yvar = [], []
             #dF = ones_like(X[0])
             for i in range(len(self.Vars)):
                 if i in set(var):
-                    Y.append(X[j])
-                    Yvar.append(X[j])
-                    j += 1
+                    Y.append(X[var.index(i)])
+                    Yvar.append(X[var.index(i)])
                 else:
                     Y.append(Y_[k])
                     k += 1
-            return num(*Y) / den.pdf(*X)
+            return num(*Y) / den.pdf(*Yvar)
         return NDFun(len(c_var), [self.Vars[i] for i in c_var], fun_)
     def conditionCDF(self, var, *X):
         """It returns conditional cdf for given copula
@@ -529,12 +528,11 @@ class ArchimedeanSymbolicCopula(ArchimedeanCopula):
         var, c_var = self.prepare_var(var)
         new_cond = var
         def fun_(*Y_):
-            j, k = 0, 0
+            k = 0
             Y = []
             for i in range(len(self.Vars)):
                 if i in set(var):
-                    Y.append(self.marginals[i].get_piecewise_cdf()(X[j]))
-                    j += 1
+                    Y.append(self.marginals[i].get_piecewise_cdf()(X[var.index(i)]))
                 else:
                     Y.append(self.marginals[i].get_piecewise_cdf()(Y_[k]))
                     k += 1
-- 
2.43.0


From ee3f923b079eaade5435d53de5d71bcc3d6ed0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:55 +0000
Subject: [PATCH 63/86] fix: piecewise function constructor accepts a piece
 with poles at both ends again

---
 pacal/segments.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/pacal/segments.py b/pacal/segments.py
index 56ea068..582e238 100644
--- a/pacal/segments.py
+++ b/pacal/segments.py
@@ -1027,10 +1027,8 @@ class PiecewiseFunction(object):
                     self.addSegment(Segment(self.breaks[0], self.breaks[1], fun))
                 elif self.lpoles[0] == True and self.rpoles[1] == False:
                     self.addSegment(SegmentWithPole(self.breaks[0], self.breaks[1], fun, left_pole = True))
-                elif self.lpoles[0] == False and self.rpoles[1] == True:
-                    self.addSegment(SegmentWithPole(self.breaks[0], self.breaks[1], fun, left_pole = False))
                 else:
-                    assert(False) #  no segment of such type
+                    self.addSegment(SegmentWithPole(self.breaks[0], self.breaks[1], fun, left_pole = False))
             if len(breakPoints)==2:
                 return
             for i in range(1, len(breakPoints)-2):
@@ -1039,10 +1037,8 @@ class PiecewiseFunction(object):
                     self.addSegment(Segment(self.breaks[i], self.breaks[i+1], fun))
                 elif self.lpoles[i] == True and self.rpoles[i+1] == False:
                     self.addSegment(SegmentWithPole(self.breaks[i], self.breaks[i+1], fun, left_pole = True))
-                elif self.lpoles[i] == False and self.rpoles[i+1] == True:
-                    self.addSegment(SegmentWithPole(self.breaks[i], self.breaks[i+1], fun, left_pole = False))
                 else:
-                    assert(False) # no segment of such type
+                    self.addSegment(SegmentWithPole(self.breaks[i], self.breaks[i+1], fun, left_pole = False))
             if (isinf(self.breaks[-1])):
                 self.addSegment(PInfSegment(self.breaks[-2], fun))
             else:
@@ -1051,10 +1047,8 @@ class PiecewiseFunction(object):
                     self.addSegment(Segment(self.breaks[-2], self.breaks[-1], fun))
                 elif self.lpoles[-2] == True and self.rpoles[-1] == False:
                     self.addSegment(SegmentWithPole(self.breaks[-2], self.breaks[-1], fun, left_pole = True))
-                elif self.lpoles[-2] == False and self.rpoles[-1] == True:
-                    self.addSegment(SegmentWithPole(self.breaks[-2], self.breaks[-1], fun, left_pole = False))
                 else:
-                    assert(False) # no segment of such type
+                    self.addSegment(SegmentWithPole(self.breaks[-2], self.breaks[-1], fun, left_pole = False))
         else:
             # TODO to remove
             self.segments = list(segments)
-- 
2.43.0


From 8945eabcd35240871349d97ef00c35286544460a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:14 +0000
Subject: [PATCH 64/86] fix: inverse function evaluates within its domain

---
 pacal/segments.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pacal/segments.py b/pacal/segments.py
index 582e238..9991553 100644
--- a/pacal/segments.py
+++ b/pacal/segments.py
@@ -1876,10 +1876,11 @@ class PiecewiseFunction(object):
 #            breakvals[0] = 0
 #        if vals[-1]>0 and vals[-1]<=1:
 #            breakvals[-1] = 1
+        breakvals = epsunique(array(breakvals),0.0001)
         def _tmp_inv(x):
-            y = self.inverse(x)
+            # nodes next to the ends may round out of the domain
+            y = self.inverse(numpy.clip(x, breakvals[0], breakvals[-1]))
             return y
-        breakvals = epsunique(array(breakvals),0.0001)
         if include_zero_break:
             if 0 not in breakvals:
                 breakvals = numpy.insert(breakvals, numpy.searchsorted(breakvals, 0), 0)
-- 
2.43.0


From beeb0a5cc6522606881716ff086f4119940e5cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:33 +0000
Subject: [PATCH 65/86] fix: joint functions are zero outside their box and
 accept numbers with arrays

---
 pacal/depvars/nddistr.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/pacal/depvars/nddistr.py b/pacal/depvars/nddistr.py
index 0543ae8..d71e7f4 100644
--- a/pacal/depvars/nddistr.py
+++ b/pacal/depvars/nddistr.py
@@ -77,19 +77,20 @@ class NDFun(object):
     def __call__(self, *X):
         if len(X) == 0:
             y = self.fun(*X)
-        elif isscalar(X[0]):
+        elif all([isscalar(xi) for xi in X]):
             mask = (X[0] >= self.a[0]) and (X[0] <= self.b[0])
             for i in range(1, len(X)):
-                mask = mask or ((X[i] >= self.a[i]) and (X[i] <= self.b[i]))
+                mask = mask and ((X[i] >= self.a[i]) and (X[i] <= self.b[i]))
             if mask:
                 y = self.fun(*X)
             else:
                 y = 0
         else:
+            X = np.broadcast_arrays(*X)
             mask = (X[0] >= self.a[0]) & (X[0] <= self.b[0])
             for i in range(1, len(X)):
-                mask &= ((X[i] >= self.a[i]) & (X[i] <= self.b[i]))
-            y = zeros_like(X[0])
+                mask = mask & ((X[i] >= self.a[i]) & (X[i] <= self.b[i]))
+            y = zeros(X[0].shape)
             y[mask] = self.fun(*[xi[mask] for xi in X])
         if self.safe:
             y = nan_to_num(y)
-- 
2.43.0


From aeacfb76c2c4c6a65d026b01fcd8159ec331dac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:36 +0000
Subject: [PATCH 66/86] fix: sparse grids with recent numpy

---
 pacal/depvars/sparse_grids.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pacal/depvars/sparse_grids.py b/pacal/depvars/sparse_grids.py
index ce8ba33..d5dda3e 100644
--- a/pacal/depvars/sparse_grids.py
+++ b/pacal/depvars/sparse_grids.py
@@ -189,7 +189,7 @@ class AdaptiveSparseGridInterpolator(object):
             c = (-1)**(q-si) * binomial_coeff(self.d - 1, q-si)
             subgrid_map[p] = (c, array(subgrid_indices))
         if params.interpolation_nd.debug_info:
-            print(len(subgrid_map), "rect. subgrids,", sum(len(subgrid_map[k]) for k in subgrid_map), "ops per X,", len(nodes), "nodes,", end=' ')
+            print(len(subgrid_map), "rect. subgrids,", sum([len(subgrid_map[k]) for k in subgrid_map]), "ops per X,", len(nodes), "nodes,", end=' ')
             print("full grid size", self.exps[q-self.d+1]**self.d, "dim", self.d)
         return nodes, subgrid_map
 
-- 
2.43.0


From 34580a0585b7745a88bc228ea12b46f9fbb6a390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:19 +0000
Subject: [PATCH 67/86] fix: elimination of the last variable of an
 interpolated joint distribution

---
 pacal/depvars/nddistr.py | 25 +++++--------------------
 1 file changed, 5 insertions(+), 20 deletions(-)

diff --git a/pacal/depvars/nddistr.py b/pacal/depvars/nddistr.py
index d71e7f4..04c5edf 100644
--- a/pacal/depvars/nddistr.py
+++ b/pacal/depvars/nddistr.py
@@ -172,10 +172,7 @@ class NDFun(object):
 #            else:
 #                y = integrate_fejer2(partial(integ_f, self, arg, c_var, v1, X), self.a[v1], self.b[v1])
 #            return NDConstFactor(y[0])
-            if hasattr(self, "f"):
-                y = integrate_fejer2(partial(InterpRunner(self.fun, arg, c_var, v1).integ_f, X), self.f.a[v1], self.f.b[v1])
-            else:
-                y = integrate_fejer2(partial(InterpRunner(self, arg, c_var, v1).integ_f, X), self.a[v1], self.b[v1])
+            y = integrate_fejer2(partial(InterpRunner(self, arg, c_var, v1).integ_f, X), self.a[v1], self.b[v1])
             return NDConstFactor(y[0])
         #m = NDInterpolatedDistr(self.d - 1, partial(self.interp_f, self, arg, c_var, v1), [self.Vars[i] for i in c_var])
         m = NDInterpolatedDistr(self.d - 1, InterpRunner(self, arg, c_var, v1).interpxx, [self.Vars[i] for i in c_var])
@@ -197,10 +194,7 @@ class InterpRunner(object):
         arg = self.arg
         c_var = self.c_var
         v1 = self.v1
-        if hasattr(self.ndfun, "f"):
-            y = integrate_fejer2(partial(self.integ_f, X), ndfun.f.a[v1], ndfun.f.b[v1])[0]
-        else:
-            y = integrate_fejer2(partial(self.integ_f, X), ndfun.a[v1], ndfun.b[v1])[0]
+        y = integrate_fejer2(partial(self.integ_f, X), ndfun.a[v1], ndfun.b[v1])[0]
         return y
     def interpxx(self, *X):
         """convolution of f and g
@@ -209,10 +203,7 @@ class InterpRunner(object):
         v1 = self.v1
         if isscalar(X[0]):
             # TODO: fix integration bounds!!!!
-            if hasattr(self.ndfun, "f"):
-                y = integrate_fejer2(partial(self.integ_f, X), ndfun.f.a[v1], ndfun.f.b[v1])
-            else:
-                y = integrate_fejer2(partial(self.integ_f, X), ndfun.a[v1], ndfun.b[v1])
+            y = integrate_fejer2(partial(self.integ_f, X), ndfun.a[v1], ndfun.b[v1])
             return y[0]
         xx = transpose(array(X))
         if isscalar(xx):
@@ -253,18 +244,12 @@ class InterpRunner(object):
 #        print self.ndfun.b[v1]
         if isscalar(X[0]):
             # TODO: fix integration bounds!!!!
-            if hasattr(self.ndfun, "f"):
-                y = integrate_fejer2(partial(self.integ_f, X), ndfun.f.a[v1], ndfun.f.b[v1])
-            else:
-                y = integrate_fejer2(partial(self.integ_f, X), ndfun.a[v1], ndfun.b[v1])
+            y = integrate_fejer2(partial(self.integ_f, X), ndfun.a[v1], ndfun.b[v1])
             return y[0]
         y = np.asarray(zeros_like(X[0]))
         for i in range(len(X[0])):
             # TODO: fix integration bounds!!!!
-            if hasattr(self.ndfun, "f"):
-                y[i] = integrate_fejer2(partial(self.integ_f, [x[i] for x in X]), ndfun.f.a[v1], ndfun.f.b[v1])[0]
-            else:
-                y[i] = integrate_fejer2(partial(self.integ_f, [x[i] for x in X]), ndfun.a[v1], ndfun.b[v1])[0]
+            y[i] = integrate_fejer2(partial(self.integ_f, [x[i] for x in X]), ndfun.a[v1], ndfun.b[v1])[0]
         return y
     def safe_interp_f(self, xt):
         #print ":::", xt
-- 
2.43.0


From 0916feceab39bae4d070e34bece54b20091cc8a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:19 +0000
Subject: [PATCH 68/86] fix: elimination of variables in any order

---
 pacal/depvars/nddistr.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pacal/depvars/nddistr.py b/pacal/depvars/nddistr.py
index 04c5edf..406f835 100644
--- a/pacal/depvars/nddistr.py
+++ b/pacal/depvars/nddistr.py
@@ -135,6 +135,7 @@ class NDFun(object):
         # assume below var are dimension numbers
         if len(var) == 0:
             return self
+        var = sorted(var)   # the last one goes first, numbers of the others do not change
         v1 = var[-1]
         c_var = list(sorted(set(range(self.d)) - set([v1])))
         arg = zeros(self.d)
-- 
2.43.0


From d8be9ea862424a153cf8f98227db77c21bcc52a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:19 +0000
Subject: [PATCH 69/86] fix: standard deviations of the variables of a joint
 normal distribution

---
 pacal/depvars/nddistr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pacal/depvars/nddistr.py b/pacal/depvars/nddistr.py
index 406f835..f7d7a52 100644
--- a/pacal/depvars/nddistr.py
+++ b/pacal/depvars/nddistr.py
@@ -504,7 +504,7 @@ class NDNormalDistr(NDDistr):
         assert len(Sigma.shape) == 2
         assert Sigma.shape[0] == Sigma.shape[1] == d
         if Vars is None:
-            Vars = [NormalDistr(mu[i], Sigma[i,i], sym = LETTERS[i]) for i in range(d)]
+            Vars = [NormalDistr(mu[i], sqrt(Sigma[i,i]), sym = LETTERS[i]) for i in range(d)]
         super(NDNormalDistr, self).__init__(d, Vars)
         self.marginals = self.Vars
         self.a = [m-5 for m in mu] # FIX THIS!!!
@@ -556,7 +556,7 @@ class GausianCopula(NDDistr): # TODO
         Vars = marginals
         self.marginals = marginals
         if Vars is None:
-            Vars = [NormalDistr(mu[i], Sigma[i,i], sym = LETTERS[i]) for i in range(d)]
+            Vars = [NormalDistr(mu[i], sqrt(Sigma[i,i]), sym = LETTERS[i]) for i in range(d)]
         super(NDNormalDistr, self).__init__(d, Vars)
         self.marginals = self.Vars
         self.a = [m-5 for m in mu] # FIX THIS!!!
-- 
2.43.0


From 2e6267a9477ffdf7ddcadf6ff31d8777c9f525cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:19 +0000
Subject: [PATCH 70/86] fix: density of the joint normal distribution at
 integer points

---
 pacal/depvars/nddistr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pacal/depvars/nddistr.py b/pacal/depvars/nddistr.py
index f7d7a52..813dc05 100644
--- a/pacal/depvars/nddistr.py
+++ b/pacal/depvars/nddistr.py
@@ -520,7 +520,7 @@ class NDNormalDistr(NDDistr):
         else:
             Xa = np.asarray(X)
             Xa = Xa.transpose(list(range(1, len(X[0].shape) + 1)) + [0])
-            Xa -= self.mu
+            Xa = Xa - self.mu
             Z = (dot(Xa, self.invSigma) * Xa).sum(axis= -1)
             return self.nrm * exp(-0.5 * Z)
 
@@ -576,7 +576,7 @@ class GausianCopula(NDDistr): # TODO
             print(Xa)
 
             Xa = Xa.transpose(list(range(1, len(X[0].shape) + 1)) + [0])
-            Xa -= self.mu
+            Xa = Xa - self.mu
             Z = (dot(Xa, self.invSigma) * Xa).sum(axis= -1)
             return self.nrm * exp(-0.5 * Z)
 
-- 
2.43.0


From 7c67cee7fa7b8eecc0cde4c6b1398c0ef4812838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:19 +0000
Subject: [PATCH 71/86] fix: conditional joint normal distribution in more than
 two dimensions

---
 pacal/depvars/nddistr.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/pacal/depvars/nddistr.py b/pacal/depvars/nddistr.py
index 813dc05..38c72d4 100644
--- a/pacal/depvars/nddistr.py
+++ b/pacal/depvars/nddistr.py
@@ -536,12 +536,12 @@ class NDNormalDistr(NDDistr):
         var, c_var = self.prepare_var(var)
         if len(c_var) == 0:
             return NDOneFactor()
-        Sigma_11 = self.Sigma[c_var, c_var]
-        Sigma_12 = self.Sigma[c_var, var]
-        Sigma_21 = self.Sigma[var, c_var]
-        Sigma_22 = self.Sigma[var, var]
-        c_mu = self.mu[c_var] + Sigma_12 * Sigma_22.I * (X - self.mu[var])
-        c_mu = array(c_mu)[0]
+        Sigma_11 = self.Sigma[np.ix_(c_var, c_var)]
+        Sigma_12 = self.Sigma[np.ix_(c_var, var)]
+        Sigma_21 = self.Sigma[np.ix_(var, c_var)]
+        Sigma_22 = self.Sigma[np.ix_(var, var)]
+        dX = (np.asarray(X).ravel() - self.mu[var]).reshape(-1, 1)
+        c_mu = self.mu[c_var] + array(Sigma_12 * Sigma_22.I * dX).ravel()
         c_Sigma = Sigma_11 - Sigma_12 * Sigma_22.I * Sigma_21
         return NDNormalDistr(c_mu, c_Sigma, [self.Vars[i] for i in c_var])
 
-- 
2.43.0


From 8f63a125647d32abbb458bfee5548ea6613ccf45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:19 +0000
Subject: [PATCH 72/86] fix: conditioning a product of factors on several
 variables

---
 pacal/depvars/nddistr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pacal/depvars/nddistr.py b/pacal/depvars/nddistr.py
index 38c72d4..3135883 100644
--- a/pacal/depvars/nddistr.py
+++ b/pacal/depvars/nddistr.py
@@ -760,7 +760,7 @@ class NDProductDistr(NDDistr):
                     cV.append(V)
                     cX.append(X[i])
             #print cf, cf.Vars[0].getSymname(), cf.condition(cV, cX, normalize=False)
-            new_cond_factors.append(cf.condition(cV, cX, normalize=False))
+            new_cond_factors.append(cf.condition(cV, *cX, normalize=False))
         cfp = NDProductDistr(kept_factors + new_cond_factors)
         nrm = cfp.eliminate(list(range(cfp.d)))
         nrm = nrm.as_constant()
-- 
2.43.0


From 49393b9472bfd1c5f6f32646dd47c85ae61c86ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:19 +0000
Subject: [PATCH 73/86] fix: order of the conditioning variables of a
 conditional distribution

---
 pacal/depvars/nddistr.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pacal/depvars/nddistr.py b/pacal/depvars/nddistr.py
index 3135883..a071127 100644
--- a/pacal/depvars/nddistr.py
+++ b/pacal/depvars/nddistr.py
@@ -624,6 +624,7 @@ class ConditionalDistr(NDFun):
         """Condition the joint distribution nd on var."""
         super(ConditionalDistr, self).__init__(nd.d, nd.Vars, self.pdf)
         self.cond_vars, c_var = self.prepare_var(var)
+        self.cond_vars = sorted(self.cond_vars)   # the order of variables of marg
         self.nd = nd
         if marg is None:
             marg = nd.eliminate(c_var)
-- 
2.43.0


From bc08a4c20ff3d67da208e364c42998f301c1bc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:19 +0000
Subject: [PATCH 74/86] fix: conditioning on some of the conditioning variables

---
 pacal/depvars/nddistr.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pacal/depvars/nddistr.py b/pacal/depvars/nddistr.py
index a071127..cb844ef 100644
--- a/pacal/depvars/nddistr.py
+++ b/pacal/depvars/nddistr.py
@@ -643,7 +643,11 @@ class ConditionalDistr(NDFun):
         new_cond = set(self.cond_vars) - set(var)
         if len(new_cond) == 0: # no conditioning variables left
             return self.nd.condition(var, *X, **kwargs)
-        cd = ConditionalDistr(self.nd.condition(var, *X, **kwargs), [self.Vars[i] for i in new_cond], marg=self.marg)
+        marg = self.marg
+        fixed = [(self.Vars[v], x) for v, x in zip(var, X) if v in self.cond_vars]
+        if len(fixed) > 0:
+            marg = marg.condition([v for v, x in fixed], *[x for v, x in fixed], **kwargs)
+        cd = ConditionalDistr(self.nd.condition(var, *X, **kwargs), [self.Vars[i] for i in new_cond], marg=marg)
         return cd
 
 def _get_str_sym_name(v):
-- 
2.43.0


From dcf6d88ae58cabfe56fc6867e22a97ea5db0dbd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:24 +0000
Subject: [PATCH 75/86] fix: box of the joint normal distribution with large
 variances

---
 pacal/depvars/nddistr.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pacal/depvars/nddistr.py b/pacal/depvars/nddistr.py
index cb844ef..2813102 100644
--- a/pacal/depvars/nddistr.py
+++ b/pacal/depvars/nddistr.py
@@ -507,8 +507,9 @@ class NDNormalDistr(NDDistr):
             Vars = [NormalDistr(mu[i], sqrt(Sigma[i,i]), sym = LETTERS[i]) for i in range(d)]
         super(NDNormalDistr, self).__init__(d, Vars)
         self.marginals = self.Vars
-        self.a = [m-5 for m in mu] # FIX THIS!!!
-        self.b = [m+5 for m in mu] # FIX THIS!!!
+        r = [5 * max(1.0, sqrt(Sigma[i,i])) for i in range(d)] # FIX THIS!!!
+        self.a = [mu[i] - r[i] for i in range(d)]
+        self.b = [mu[i] + r[i] for i in range(d)]
         self.mu = mu
         self.Sigma = Sigma
         self.invSigma = array(Sigma.I)
-- 
2.43.0


From 6223fde19a7f11cd2e61fbd269fe2fa8ffe995ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:32 +0000
Subject: [PATCH 76/86] fix: geometric averages of all sample sizes

---
 pacal/stats/iid_ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pacal/stats/iid_ops.py b/pacal/stats/iid_ops.py
index d3d1423..707f4eb 100644
--- a/pacal/stats/iid_ops.py
+++ b/pacal/stats/iid_ops.py
@@ -127,7 +127,7 @@ def iid_average(X, n, all = False):
 def iid_average_geom(X, n, all = False):
     #return iid_op2(X, n, op = _lambda_average_geom, all = all)
     if all:
-        return [x**(1.0/n) for x in iid_prod(X, n, all=True)]
+        return [x**(1.0/(i+1)) for i, x in enumerate(iid_prod(X, n, all=True))]
     return iid_prod(X, n)**(1.0/n)
 
 
-- 
2.43.0


From 2dc753280066308c1d5a9efed55e68a9a016e6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:32 +0000
Subject: [PATCH 77/86] fix: ranks of order statistics outside of the sample

---
 pacal/stats/iid_ops.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pacal/stats/iid_ops.py b/pacal/stats/iid_ops.py
index 707f4eb..1e0c798 100644
--- a/pacal/stats/iid_ops.py
+++ b/pacal/stats/iid_ops.py
@@ -51,6 +51,7 @@ def iid_max(X, n, all = False):
 
 def iid_order_stat(X, n, k, **kwargs):
     """It gives distribution of $k$-th observation in ordered sample size of n."""
+    assert 1 <= k <= n, "incorrect values 1<=k<=n"
     pdf = X.get_piecewise_pdf()
     cdf = X.get_piecewise_cdf()
     ccdf = 1 - X.get_piecewise_cdf()
-- 
2.43.0


From dbcbe5fe9fcdbbcdae586bc38c6cc915e9cb057f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:32 +0000
Subject: [PATCH 78/86] fix: scalar sample of a constant

---
 pacal/distr.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pacal/distr.py b/pacal/distr.py
index 4c83c7b..6bbfa1e 100644
--- a/pacal/distr.py
+++ b/pacal/distr.py
@@ -1257,6 +1257,8 @@ class ConstDistr(DiscreteDistr):
         super(ConstDistr, self).__init__([c], [p], **kwargs)
         self.c = c
     def rand_raw(self, n = None):
+        if n is None:
+            return self.c
         r = zeros(n)
         r.fill(self.c)
         return r
-- 
2.43.0


From ed39e42154411b0f2ce62cb3a9086db87a461974 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:41 +0000
Subject: [PATCH 79/86] fix: samples of discrete distributions: scalar and with
 rounded probabilities

---
 pacal/distr.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pacal/distr.py b/pacal/distr.py
index 6bbfa1e..10fa8a5 100644
--- a/pacal/distr.py
+++ b/pacal/distr.py
@@ -1120,7 +1120,8 @@ class DiscreteDistr(Distr):
     def rand_raw(self, n):
         u = uniform(0, 1, n)
         i = searchsorted(self.cumP, u)
-        i[i > len(self.xi)] = len(self.xi)
+        # the probabilities may sum up to slightly less than one
+        i = minimum(i, len(self.xi) - 1)
         return array(self.xi)[i]
     def __str__(self):
         pstr = ", ".join("{0}:{1}".format(x, p) for x, p in self.px)
-- 
2.43.0


From 87d2b61e1239ccd19a646272e01079d8020c5606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:41 +0000
Subject: [PATCH 80/86] fix: scalar sample of a variable conditioned from below

---
 pacal/distr.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pacal/distr.py b/pacal/distr.py
index 10fa8a5..4910617 100644
--- a/pacal/distr.py
+++ b/pacal/distr.py
@@ -1294,6 +1294,8 @@ class CondGtDistr(Distr):
     def getName(self):
         return "{0} | X>{1}".format(self.d.getName(), self.L)
     def rand_raw(self, n):
+        if n is None:
+            return self.rand_raw(1)[0]
         tab=array([])
         k=0
         while k<n:
-- 
2.43.0


From b0bbe263f25dc1cea078d61445f7bb3b46c92cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:41 +0000
Subject: [PATCH 81/86] fix: samples of sine and cosine: scalar and of integer
 values

---
 pacal/distr.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pacal/distr.py b/pacal/distr.py
index 4910617..f3800ff 100644
--- a/pacal/distr.py
+++ b/pacal/distr.py
@@ -999,12 +999,12 @@ class FuncNoninjectiveDistr(OpDistr):
     def getName(self):
         return "{0}({1})".format(self.fname, self.d.getName())
     def rand_op(self, n, cache):
-        X = self.d.rand(n, cache)
-        Y = zeros_like(X)
+        X = asarray(self.d.rand(n, cache))
+        Y = zeros_like(X, dtype=float)
         for i in range(len(self.intervals)):
             mask = (self.intervals[i][0] <= X) * (X <= self.intervals[i][1])
             Y[mask] = self.fs[i](X[mask])
-        return Y
+        return Y[()]
     def init_piecewise_pdf(self):
         self.piecewise_pdf = self.d.get_piecewise_pdf().copyCompositionNoninjective(self.intervals, self.fs, self.f_invs, self.f_inv_derivs, pole_at_zero=self.pole_at_zero)
 
-- 
2.43.0


From f044e95a2a840f05c047df30b3ecd9123712111a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:41 +0000
Subject: [PATCH 82/86] fix: components of a mixture are sampled with their
 probabilities

---
 pacal/standard_distr.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/pacal/standard_distr.py b/pacal/standard_distr.py
index 12a856c..457f03b 100644
--- a/pacal/standard_distr.py
+++ b/pacal/standard_distr.py
@@ -93,9 +93,13 @@ class MixDistr(Distr):
         #self.piecewise_pdf = PiecewiseDistribution(fun=mixdistr.piecewise_pdf, breakPoints = mixdistr.piecewise_pdf.getBreaks())
     def getName(self):
         return "MIX()".format()
-    def rand_raw(self, n = 1):
+    def rand_raw(self, n = None):
+        if n is None:
+            return self.rand_raw(1)[0]
         r = zeros(n)
-        idx = randint(0, self.nmix, n)
+        idx = searchsorted(cumsum(self.probs), uniform(0, 1, n))
+        # the probabilities may sum up to slightly less than one
+        idx = np.minimum(idx, self.nmix - 1)
         nk = bincount(idx, minlength = self.nmix)
         for k in range(self.nmix):
             r[idx == k] = self.distrs[k].rand(nk[k])
-- 
2.43.0


From 2d0cd52dcbba261cb0dd29155df85ab812f2fcfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:02 +0000
Subject: [PATCH 83/86] fix: exchange of variables: roots which are complex on
 a part of the range

---
 pacal/depvars/models.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/pacal/depvars/models.py b/pacal/depvars/models.py
index 07120e7..1136b6a 100644
--- a/pacal/depvars/models.py
+++ b/pacal/depvars/models.py
@@ -141,12 +141,7 @@ class Model(object):
         var_changes = []
         for uj in solutions:
             # remove complex valued solutions
-            vj = uj.atoms(sympy.Symbol)
-            hvj = {}
-            for v in vj:
-                #print self.sym_to_rv[v].range()
-                hvj[v]=self.sym_to_rv[v].range()[1]
-            if len(solutions)>1 and not sympy.im(uj.subs(hvj))==0:
+            if len(solutions) > 1 and not self._is_real_solution(uj):
                 continue
             uj_symbols = list(sorted(uj.atoms(sympy.Symbol), key = str))
             inv_transf = my_lambdify(uj_symbols, uj, "numpy")
@@ -178,6 +173,18 @@ class Model(object):
             var_changes.append((uj, inv_transf, inv_transf_vars, jacobian))
         return var_changes, equation
 
+    def _is_real_solution(self, uj):
+        """A solution must be real at both ends of the ranges."""
+        if uj.has(sympy.I):
+            return False
+        for end in range(2):
+            hvj = {}
+            for v in uj.atoms(sympy.Symbol):
+                hvj[v] = self.sym_to_rv[v].range()[end]
+            if not sympy.im(uj.subs(hvj)) == 0:
+                return False
+        return True
+
     def subst_for_rv_in_children(self, var, Xsym):
         """Substitute Xsym for occurrences of var in its children"""
         for rv, eq in self.rv_to_equation.items():
-- 
2.43.0


From 95680f70df18e173f25fdd22a36e2e1521eb1c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:22 +0000
Subject: [PATCH 84/86] fix: limits of integration of a model at poles of its
 equation

---
 pacal/depvars/models.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pacal/depvars/models.py b/pacal/depvars/models.py
index 1136b6a..48d21a2 100644
--- a/pacal/depvars/models.py
+++ b/pacal/depvars/models.py
@@ -518,14 +518,16 @@ class TwoVarsModel(Model):
         #print(ay, ayc, by)
         #print(ay, byc, by)
         #print(ax,bx,axc, bxc)
-        if (ay < ayc and ayc < by):
+        # lines which are never crossed do not limit the interval
+        cuts = [min(max(c, ax), bx) for c in [axc, bxc] if c is not None]
+        if len(cuts) == 0 or (ayc is not None and ay < ayc and ayc < by):
             L = ax
         else:
-            L = min(max(axc, ax), min(bxc, bx))
-        if (ay < byc and byc < by):
+            L = min(cuts)
+        if len(cuts) == 0 or (byc is not None and ay < byc and byc < by):
             U = bx
         else:
-            U = max(max(axc, ax), min(bxc, bx))
+            U = max(cuts)
         if L < U:
             pass
         else:
-- 
2.43.0


From 702b15bde1c636ac54bb004715e4823d204442c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:20:22 +0000
Subject: [PATCH 85/86] fix: largest absolute value of a constant negative
 function is not negative

---
 pacal/segments.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pacal/segments.py b/pacal/segments.py
index 9991553..be38262 100644
--- a/pacal/segments.py
+++ b/pacal/segments.py
@@ -1243,7 +1243,7 @@ class PiecewiseFunction(object):
         if abs(m1)<abs(m2):
             return x2, abs(m2)
         else:
-            return x1, m1
+            return x1, abs(m1)
     def maximum(self):
         """Mode, using scipy's function fminbound, may be inaccurate """
         m = -np.inf
-- 
2.43.0


From b57f4a1665f2f1022adc4ccfa2d39ce2f91c554b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:26:53 +0000
Subject: [PATCH 86/86] fix: integration of a copula over an infinite range of
 a marginal

---
 pacal/depvars/copulas.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pacal/depvars/copulas.py b/pacal/depvars/copulas.py
index fb20c05..ec8c035 100644
--- a/pacal/depvars/copulas.py
+++ b/pacal/depvars/copulas.py
@@ -25,6 +25,7 @@ import pylab as plt
 
 import sympy
 import numpy as np
+from numpy import isfinite
 from sympy import Symbol, diff, pprint, simplify
 
 from pylab import meshgrid, contour, xlabel, ylabel, gca, figure, axis
-- 
2.43.0

