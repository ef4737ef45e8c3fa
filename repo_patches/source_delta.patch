From 7de31af7ae85d8bd63f930fc124a8bac920c488a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:57 +0000
Subject: [PATCH 01/52] fix: CG search directions must use the preconditioned
 residual

With a preconditioner, p was built from r instead of y = M^{-1} r, so that
preconditioned CG did not converge.
---
 pykrylov/cg/cg.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykrylov/cg/cg.py b/pykrylov/cg/cg.py
index d733de6..61abd7d 100644
--- a/pykrylov/cg/cg.py
+++ b/pykrylov/cg/cg.py
@@ -101,7 +101,7 @@ class CG( KrylovMethod ):
         self.residHistory.append(self.residNorm0)
         threshold = max(self.abstol, self.reltol * self.residNorm0)
 
-        p = -r   # Initial search direction (copy not to overwrite rhs if x=0)
+        p = -y   # Initial search direction (copy not to overwrite rhs if x=0)
 
         hdr_fmt = '%6s  %7s  %8s'
         hdr = hdr_fmt % ('Matvec', 'Resid', 'Curv')
@@ -148,7 +148,7 @@ class CG( KrylovMethod ):
             # Update search direction
             beta = ry_next/ry
             p *= beta
-            p -= r
+            p -= y
 
             ry = ry_next
             residNorm = np.abs(np.sqrt(ry))
-- 
2.43.0


From fca5c4efa83182b2a584b506095ff3cad60fc0c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:57 +0000
Subject: [PATCH 02/52] fix: CG histories and descent direction must not
 outlive a solve

---
 pykrylov/cg/cg.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pykrylov/cg/cg.py b/pykrylov/cg/cg.py
index 61abd7d..582479b 100644
--- a/pykrylov/cg/cg.py
+++ b/pykrylov/cg/cg.py
@@ -66,6 +66,12 @@ class CG( KrylovMethod ):
         store_resids = kwargs.get('store_resids', False)
         store_iterates = kwargs.get('store_iterates', False)
 
+        # Forget histories of previous solves.
+        self.resids = []
+        self.iterates = []
+        self.residHistory = []
+        self.infiniteDescent = None
+
         if check_sym:
             if not check_symmetric(self.op):
                 self.logger.error('Coefficient operator is not symmetric')
-- 
2.43.0


From f0df469bd7294579eab93845b9083f4f51aad538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:57 +0000
Subject: [PATCH 03/52] fix: CGS and TFQMR must count the product used by an
 initial guess

---
 pykrylov/cgs/cgs.py     | 1 +
 pykrylov/tfqmr/tfqmr.py | 1 +
 2 files changed, 2 insertions(+)

diff --git a/pykrylov/cgs/cgs.py b/pykrylov/cgs/cgs.py
index a878699..c5ed9ea 100644
--- a/pykrylov/cgs/cgs.py
+++ b/pykrylov/cgs/cgs.py
@@ -58,6 +58,7 @@ class CGS( KrylovMethod ):
         r0 = rhs  # Fixed vector throughout
         if guess_supplied:
             r0 = rhs - self.op * x
+            nMatvec += 1
 
         rho = np.dot(r0,r0)
         residNorm = np.abs(np.sqrt(rho))
diff --git a/pykrylov/tfqmr/tfqmr.py b/pykrylov/tfqmr/tfqmr.py
index 5f2e55d..ee3bcea 100644
--- a/pykrylov/tfqmr/tfqmr.py
+++ b/pykrylov/tfqmr/tfqmr.py
@@ -57,6 +57,7 @@ class TFQMR( KrylovMethod ):
         r0 = rhs  # Fixed vector throughout
         if guess_supplied:
             r0 = rhs - self.op * x
+            nMatvec += 1
 
         rho = np.dot(r0,r0)
         residNorm = np.abs(np.sqrt(rho))
-- 
2.43.0


From 0e4d20afea6f9cb5491ce688d32c501473a204bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:57 +0000
Subject: [PATCH 04/52] fix: TFQMR failed when there is no iteration to perform

With a zero right-hand side, an exact initial guess or an empty budget, m was
never defined. The residual is then exact and compared as in the other solvers.
---
 pykrylov/tfqmr/tfqmr.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pykrylov/tfqmr/tfqmr.py b/pykrylov/tfqmr/tfqmr.py
index ee3bcea..0ef1091 100644
--- a/pykrylov/tfqmr/tfqmr.py
+++ b/pykrylov/tfqmr/tfqmr.py
@@ -66,6 +66,7 @@ class TFQMR( KrylovMethod ):
         self.logger.info('Initial residual = %8.2e' % self.residNorm0)
         self.logger.info('Threshold = %8.2e' % threshold)
 
+        m = 0.0
         finished = (residNorm <= threshold or nMatvec >= matvec_max)
 
         if not finished:
@@ -154,7 +155,7 @@ class TFQMR( KrylovMethod ):
             self.logger.info('%5d  %8.2e' % (nMatvec, residNorm))
 
 
-        self.converged = residNorm * np.sqrt(m+1) < threshold
+        self.converged = residNorm * np.sqrt(m+1) <= threshold
         self.nMatvec = nMatvec
         self.bestSolution = self.x = x
         self.residNorm = residNorm
-- 
2.43.0


From 036b25e0f252bbf02e5f59c203d03a58f0bebc14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:57 +0000
Subject: [PATCH 05/52] fix: Bi-CGSTAB reported the residual of a half step it
 did not take

When the budget ran out in the middle of an iteration, residNorm was that of
x + alpha q while x itself was returned.
---
 pykrylov/bicgstab/bicgstab.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pykrylov/bicgstab/bicgstab.py b/pykrylov/bicgstab/bicgstab.py
index 447e901..6127ea6 100644
--- a/pykrylov/bicgstab/bicgstab.py
+++ b/pykrylov/bicgstab/bicgstab.py
@@ -114,6 +114,7 @@ class BiCGSTAB( KrylovMethod ):
                 continue
 
             if nMatvec >= matvec_max:
+                x += alpha * q
                 finished = True
                 continue
 
-- 
2.43.0


From ec8d3c9206e92478fe10aa63e99b30acfddb0e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:14 +0000
Subject: [PATCH 06/52] fix: MINRES ignored the preconditioner given at
 instantiation

---
 pykrylov/minres/minres.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykrylov/minres/minres.py b/pykrylov/minres/minres.py
index ab9bb5d..151135f 100644
--- a/pykrylov/minres/minres.py
+++ b/pykrylov/minres/minres.py
@@ -118,7 +118,7 @@ class Minres(KrylovMethod):
         n = b.shape[0]
 
         # Read keyword arguments
-        precon = kwargs.get('precon', None)
+        precon = kwargs.get('precon', self.precon)
         shift  = kwargs.get('shift',  0.0)
         show   = kwargs.get('show',   True)
         check  = kwargs.get('check',  True)
-- 
2.43.0


From 499df04c6c8c08ba1abaf0ea4652090796909a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:14 +0000
Subject: [PATCH 07/52] fix: MINRES must stop when b is an eigenvector and
 accept b = 0

istop = -1 did not end the iterations, which went on dividing by a zero beta,
and solutions found with istop = -1 or b = 0 were reported as not converged.
---
 pykrylov/minres/minres.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykrylov/minres/minres.py b/pykrylov/minres/minres.py
index 151135f..39e0d8b 100644
--- a/pykrylov/minres/minres.py
+++ b/pykrylov/minres/minres.py
@@ -378,7 +378,7 @@ class Minres(KrylovMethod):
                     str3 = ' %8.1e %8.1e %8.1e' % (Anorm, Acond, gbar/Anorm)
                     print str1 + str2 + str3
 
-                if istop > 0: break
+                if istop != 0: break
 
                 if (itn % 10)==0: print ' '
 
@@ -392,7 +392,7 @@ class Minres(KrylovMethod):
             print last+' Arnorm  =  %12.4e' % Arnorm
             print last+self.msg[istop+1]
 
-        self.converged = istop in [1,2,3,4,10]
+        self.converged = istop in [-1,1,2,3,4,10] or beta1 == 0.0
         if istop == 10: self.status = 'direct error small'
         self.bestSolution = self.x = x
         self.istop = istop
-- 
2.43.0


From b02454ff9c6a897ec8a1385699c2322077a84857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:14 +0000
Subject: [PATCH 08/52] fix: MINRES mistook an indefinite preconditioner for
 the iteration limit

---
 pykrylov/minres/minres.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykrylov/minres/minres.py b/pykrylov/minres/minres.py
index 39e0d8b..9801131 100644
--- a/pykrylov/minres/minres.py
+++ b/pykrylov/minres/minres.py
@@ -250,7 +250,7 @@ class Minres(KrylovMethod):
                 oldb   = beta
                 beta   = dot(r2,y)
                 if beta < 0:
-                    istop = 6
+                    istop = 9
                     break
                 beta   = sqrt(beta)
                 tnorm2 = tnorm2 + alfa**2 + oldb**2 + beta**2
-- 
2.43.0


From 562ac209abea6b909119b347634e49444a34cca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:14 +0000
Subject: [PATCH 09/52] fix: MINRES residual history must not outlive a solve

---
 pykrylov/minres/minres.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pykrylov/minres/minres.py b/pykrylov/minres/minres.py
index 9801131..27b2fc1 100644
--- a/pykrylov/minres/minres.py
+++ b/pykrylov/minres/minres.py
@@ -129,6 +129,7 @@ class Minres(KrylovMethod):
         store_iterates = kwargs.get('store_iterates', False)
         window = kwargs.get('window', 5)
 
+        self.residHistory = []       # Residual norms.
         self.dir_errors_window = []  # Direct error estimates.
         self.iterates = []
 
-- 
2.43.0


From 40b736b014e71b46b70d7201245626e17ebec473 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:51 +0000
Subject: [PATCH 10/52] fix: SYMMLQ called a matvec method that does not exist

---
 pykrylov/symmlq/symmlq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykrylov/symmlq/symmlq.py b/pykrylov/symmlq/symmlq.py
index a756d45..4b5f86e 100644
--- a/pykrylov/symmlq/symmlq.py
+++ b/pykrylov/symmlq/symmlq.py
@@ -159,7 +159,7 @@ class Symmlq(KrylovMethod) :
             s     = 1.0 / beta1
             v     = s * y
 
-            y = self.matvec(v) ; nMatvec += 1
+            y = self.op * v ; nMatvec += 1
             if check:
                 r2 = self.op * y  # Do not count this matrix-vector product
                 s = np.dot(y,y)
-- 
2.43.0


From 45139de3e1a59e7d5441103bc0223b738b63a82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:51 +0000
Subject: [PATCH 11/52] fix: SYMMLQ failed when there is no iteration to
 perform

This happened with b = 0, and when the checks on the operator or on the
preconditioner fail.
---
 pykrylov/symmlq/symmlq.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/pykrylov/symmlq/symmlq.py b/pykrylov/symmlq/symmlq.py
index 4b5f86e..8d4851a 100644
--- a/pykrylov/symmlq/symmlq.py
+++ b/pykrylov/symmlq/symmlq.py
@@ -154,6 +154,10 @@ class Symmlq(KrylovMethod) :
         if beta1 == 0:
             done = True
 
+        # Values in case there is no iteration to perform.
+        cgnorm = lqnorm = qrnorm = beta1
+        x1cg = bstep = 0
+
         if beta1 > 0:
             beta1 = np.sqrt(beta1)
             s     = 1.0 / beta1
@@ -210,7 +214,8 @@ class Symmlq(KrylovMethod) :
             self.logger.info('local reorthogonalization  %14.2e' % t)
 
             #  Initialize other quantities.
-            cgnorm = beta1 ; rhs2   = 0 ; tnorm  = alfa**2 + beta**2
+            cgnorm = lqnorm = beta1
+            rhs2   = 0     ; tnorm  = alfa**2 + beta**2
             gbar   = alfa  ; bstep  = 0 ; ynorm2 = 0
             dbar   = beta  ; snprod = 1 ; gmax   = np.abs(alfa) + eps
             rhs1   = beta1 ; x1cg   = 0 ; gmin   = gmax
@@ -223,7 +228,7 @@ class Symmlq(KrylovMethod) :
         self.logger.info(head1 + head2)
 
         str1 = '%6g %12.5e %10.3e' % (itn, x1cg, cgnorm)
-        str2 = ' %10.3e  %8.1e' %    (qrnorm, bstep/beta1)
+        str2 = ' %10.3e  %8.1e' %    (qrnorm, bstep/(beta1 or 1))
         self.logger.info(str1 + str2)
 
         # ------------------------------------------------------------------
@@ -366,7 +371,7 @@ class Symmlq(KrylovMethod) :
 
         # Add the step along b.
 
-        bstep  = bstep / beta1
+        bstep  = bstep / (beta1 or 1)
         if self.precon is not None:
             y = self.precon * rhs
         else:
-- 
2.43.0


From 1fc54040244a16fbe2f783a44b3171168b08a679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:51 +0000
Subject: [PATCH 12/52] fix: SYMMLQ moved to the CG point with stale data at
 the iteration limit

The test setting istop = 5 could never succeed because the loop stopped
beforehand, after updating all quantities but diag, cgnorm and lqnorm.
---
 pykrylov/symmlq/symmlq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykrylov/symmlq/symmlq.py b/pykrylov/symmlq/symmlq.py
index 8d4851a..0600055 100644
--- a/pykrylov/symmlq/symmlq.py
+++ b/pykrylov/symmlq/symmlq.py
@@ -237,7 +237,7 @@ class Symmlq(KrylovMethod) :
         # Estimate various norms and test for convergence.
 
         if not done:
-            while nMatvec < matvec_max:
+            while True:
                 itn    = itn  +  1
                 anorm  = np.sqrt(tnorm)
                 ynorm  = np.sqrt(ynorm2)
-- 
2.43.0


From 5af212eb2be91289b347f9c554ee914a2101deaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:51 +0000
Subject: [PATCH 13/52] fix: SYMMLQ blamed the operator for an indefinite
 preconditioner

---
 pykrylov/symmlq/symmlq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykrylov/symmlq/symmlq.py b/pykrylov/symmlq/symmlq.py
index 0600055..3ac703b 100644
--- a/pykrylov/symmlq/symmlq.py
+++ b/pykrylov/symmlq/symmlq.py
@@ -316,7 +316,7 @@ class Symmlq(KrylovMethod) :
                 beta = np.dot(r2, y)
 
                 if beta < 0:
-                    istop = 6
+                    istop = 8
                     break
 
                 beta  = np.sqrt(beta)
-- 
2.43.0


From d47c3863e15b0de3330b141ef7391d33cf4e7dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:51 +0000
Subject: [PATCH 14/52] fix: SYMMLQ never reported convergence nor the reason
 for termination

---
 pykrylov/symmlq/symmlq.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pykrylov/symmlq/symmlq.py b/pykrylov/symmlq/symmlq.py
index 3ac703b..cf70eee 100644
--- a/pykrylov/symmlq/symmlq.py
+++ b/pykrylov/symmlq/symmlq.py
@@ -398,6 +398,9 @@ class Symmlq(KrylovMethod) :
         self.logger.info(last + fmt % (rnorm, xnorm))
         self.logger.info(last + msg[istop])
 
+        self.converged = istop in [-1,1,2,3] or beta1 == 0
+        self.istop = istop ; self.itn = itn
+        self.residNorm0 = beta1
         self.nMatvec = nMatvec
         self.bestSolution = x ; self.solutionNorm = xnorm
         self.x = self.bestSolution ; self.xNorm = xnorm
-- 
2.43.0


From 28b797ed65667492a9f05d1288d28230c82e8de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:13 +0000
Subject: [PATCH 15/52] fix: LSQR failed whenever wantvar was requested

---
 pykrylov/lls/lsqr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykrylov/lls/lsqr.py b/pykrylov/lls/lsqr.py
index 2cb1297..26282bb 100644
--- a/pykrylov/lls/lsqr.py
+++ b/pykrylov/lls/lsqr.py
@@ -152,7 +152,7 @@ class LSQRFramework(KrylovMethod):
         if itnlim == 0: itnlim = 3*n
 
         if wantvar:
-            var = zeros(n,1)
+            var = zeros(n)
         else:
             var = None
 
-- 
2.43.0


From c7f484e52427d1c759a6355f9cb5be390fe2ebf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:13 +0000
Subject: [PATCH 16/52] fix: LSQR ignored conlim

---
 pykrylov/lls/lsqr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykrylov/lls/lsqr.py b/pykrylov/lls/lsqr.py
index 26282bb..c591cb1 100644
--- a/pykrylov/lls/lsqr.py
+++ b/pykrylov/lls/lsqr.py
@@ -160,7 +160,7 @@ class LSQRFramework(KrylovMethod):
 
         itn = istop = 0
         ctol = 0.0
-        if conlim > 0.0: self.ctol = 1.0/conlim
+        if conlim > 0.0: ctol = 1.0/conlim
         Anorm = Acond = 0.
         z = xnorm = xxnorm = ddnorm = res2 = 0.
         cs2 = -1. ; sn2 = 0.
-- 
2.43.0


From 7a15d9973731adbcbf68e53efb418dfc802ce9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:13 +0000
Subject: [PATCH 17/52] fix: LSMR did not save its results

Only x was saved, and not even that if x = 0 is the solution. istop, itn,
optimal, residNorm and the like kept the values set at instantiation.
---
 pykrylov/lls/lsmr.py | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/pykrylov/lls/lsmr.py b/pykrylov/lls/lsmr.py
index 05d1c59..b993450 100644
--- a/pykrylov/lls/lsmr.py
+++ b/pykrylov/lls/lsmr.py
@@ -281,12 +281,13 @@ class LSMRFramework(KrylovMethod):
         # Reverse the order here from the original matlab code because
         # there was an error on return when arnorm==0
         normar = alpha * beta
+        x_is_zero = False   # Is x=0 the solution to the least-squares prob?
         if normar == 0:
             if show:
                 print msg[0]
-            return x, istop, itn, normr, normar, normA, condA, normx
+            x_is_zero = True
 
-        if show:
+        if show and not x_is_zero:
             print ' '
             print hdg1, hdg2
             test1  = 1;             test2  = alpha / beta
@@ -300,7 +301,7 @@ class LSMRFramework(KrylovMethod):
             self.normal_eqns_resids.append(normar)
 
         # Main iteration loop.
-        while itn < itnlim:
+        while itn < itnlim and not x_is_zero:
             itn = itn + 1
 
             # Perform the next step of the bidiagonalization to obtain the
@@ -488,7 +489,21 @@ class LSMRFramework(KrylovMethod):
             print str3, str4
             print 'Estimated energy norm of x: %7.1e' % sqrt(xNrgNorm2)
 
-        self.x = x
+        if istop == 0: self.status = 'solution is zero'
+        if istop in [1,2,4,5]: self.status = 'residual small'
+        if istop in [3,6]: self.status = 'ill-conditioned operator'
+        if istop == 7: self.status = 'max iterations'
+        if istop == 8: self.status = 'direct error small'
+        self.optimal = istop in [1,2,4,5,8]
+        self.x = self.bestSolution = x
+        self.istop = istop
+        self.itn = itn
+        self.nMatvec = 2*itn
+        self.residNorm = self.r2norm = normr
+        self.Anorm = normA
+        self.Acond = condA
+        self.Arnorm = normar
+        self.xnorm = normx
         return x, istop, itn, normr, normar, normA, condA, normx
 
 
-- 
2.43.0


From 674aeb58eec0abc18beb372138252047ac10a8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:13 +0000
Subject: [PATCH 18/52] fix: LSMR divided by zero when the residual vanishes

---
 pykrylov/lls/lsmr.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pykrylov/lls/lsmr.py b/pykrylov/lls/lsmr.py
index b993450..3ab6a8d 100644
--- a/pykrylov/lls/lsmr.py
+++ b/pykrylov/lls/lsmr.py
@@ -21,7 +21,7 @@ __docformat__ = 'restructuredtext'
 
 from pykrylov.generic import KrylovMethod
 
-from numpy import zeros, dot
+from numpy import zeros, dot, inf
 from numpy.linalg import norm
 from math import sqrt
 
@@ -421,7 +421,10 @@ class LSMRFramework(KrylovMethod):
             # some of which will be small near a solution.
 
             test1   = normr /normb
-            test2   = normar/(normA*normr)
+            if normA == 0 or normr == 0:
+                test2 = inf
+            else:
+                test2 = normar/(normA*normr)
             test3   =      1/condA
             t1      =  test1/(1 + normA*normx/normb)
             rtol    = btol + atol*normA*normx/normb
-- 
2.43.0


From debfaf6ec8f87a03e0a1774b5109decf19847d4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:13 +0000
Subject: [PATCH 19/52] fix: CRAIG-MR printed debugging output at every
 iteration

---
 pykrylov/lls/craigmr.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/pykrylov/lls/craigmr.py b/pykrylov/lls/craigmr.py
index 12ecbed..fc22180 100644
--- a/pykrylov/lls/craigmr.py
+++ b/pykrylov/lls/craigmr.py
@@ -187,7 +187,6 @@ class CRAIGMRFramework(KrylovMethod):
             zeta     = c_hat * zeta_hat
             zeta_hat = s_hat * zeta_hat
             xNrgNorm2 += zeta * zeta
-            print itn, xNrgNorm2
             d = (u - beta_hat * d) / alpha_hat
             x += zeta * dbar
 
-- 
2.43.0


From 5c68fbe9bc25fb42fd5f7a2b3ce83ad3683095ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:01:13 +0000
Subject: [PATCH 20/52] fix: CRAIG failed with a zero right-hand side

---
 pykrylov/lls/craig.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pykrylov/lls/craig.py b/pykrylov/lls/craig.py
index 22592ae..c1c0f2e 100644
--- a/pykrylov/lls/craig.py
+++ b/pykrylov/lls/craig.py
@@ -215,7 +215,8 @@ class CRAIGFramework(KrylovMethod):
         else:
             u = Mu
 
-        alpha = 0.
+        v = zeros(n)
+        alpha = Arnorm = 0.
         beta = sqrt(dot(u,Mu))       # norm(u)
         if beta > 0:
             u /= beta
-- 
2.43.0


From e9f4fac6a431115ddab2fc2a49300f9e44950d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:25 +0000
Subject: [PATCH 21/52] fix: dividing an operator by an integer gave the zero
 operator

1 / other is an integer division in Python 2.
---
 pykrylov/linop/linop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykrylov/linop/linop.py b/pykrylov/linop/linop.py
index a7d8155..937fbc6 100644
--- a/pykrylov/linop/linop.py
+++ b/pykrylov/linop/linop.py
@@ -431,7 +431,7 @@ class LinearOperator(BaseLinearOperator):
     def __div__(self, other):
         if not np.isscalar(other):
             raise ValueError('Cannot divide')
-        return self * (1 / other)
+        return self * (1. / other)
 
     def __truediv__(self, other):
         if not np.isscalar(other):
-- 
2.43.0


From 3646b5c444de5599d7c6c46c338cdd80858004d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:25 +0000
Subject: [PATCH 22/52] fix: CoordLinearOperator inferred sizes that are too
 small

---
 pykrylov/linop/linop.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/pykrylov/linop/linop.py b/pykrylov/linop/linop.py
index 937fbc6..180e3f2 100644
--- a/pykrylov/linop/linop.py
+++ b/pykrylov/linop/linop.py
@@ -643,8 +643,9 @@ def CoordLinearOperator(vals, rows, cols,
     `rows` and `cols`. If `symmetric` is `True`, then `vals`, `rows` and
     `cols` are assumed to only represent one triangle of the operator.
     """
-    if nargin == 0: nargin = cols.max()
-    if nargout == 0: nargout = rows.max()
+    if nargin == 0: nargin = cols.max() + 1
+    if nargout == 0: nargout = rows.max() + 1
+    if symmetric: nargin = nargout = max(nargin, nargout)
 
     def matvec(x):
       if x.shape != (nargin,):
-- 
2.43.0


From 1f4b3eab758086c35a6c0ba46968cfd9af2f2c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:25 +0000
Subject: [PATCH 23/52] fix: DiagonalOperator must use its own copy of the
 diagonal

Products followed later changes of the array given by the user, contrary to
the diag attribute, abs() and sqrt().
---
 pykrylov/linop/linop.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykrylov/linop/linop.py b/pykrylov/linop/linop.py
index 180e3f2..55e321f 100644
--- a/pykrylov/linop/linop.py
+++ b/pykrylov/linop/linop.py
@@ -497,8 +497,8 @@ class DiagonalOperator(LinearOperator):
         super(DiagonalOperator, self).__init__(diag.shape[0], diag.shape[0],
                                                symmetric=True,
                                                hermitian=(diag.dtype not in complex_types),
-                                               matvec=lambda x: diag*x,
-                                               matvec_adj=lambda x: diag.conjugate()*x,
+                                               matvec=lambda x: self.__diag*x,
+                                               matvec_adj=lambda x: self.__diag.conjugate()*x,
                                                dtype=diag.dtype,
                                                **kwargs)
 
-- 
2.43.0


From b71f8504cfcbed5ffbac34ef4bde8ddcfdc14682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:25 +0000
Subject: [PATCH 24/52] fix: linop_from_ndarray took complex symmetric arrays
 for Hermitian ones

---
 pykrylov/linop/linop.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pykrylov/linop/linop.py b/pykrylov/linop/linop.py
index 55e321f..1be02ef 100644
--- a/pykrylov/linop/linop.py
+++ b/pykrylov/linop/linop.py
@@ -724,7 +724,8 @@ def PysparseLinearOperator(A):
 def linop_from_ndarray(A, symmetric=False, **kwargs):
     "Return a linear operator from a Numpy `ndarray`."
 
-    hermitian = kwargs.get('hermitian', symmetric)
+    hermitian = kwargs.get('hermitian',
+                           symmetric and A.dtype not in complex_types)
 
     if A.dtype in complex_types:
         return LinearOperator(A.shape[1], A.shape[0],
-- 
2.43.0


From a1c681c8c953615748acbdf43fc2be904b04a725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:49 +0000
Subject: [PATCH 25/52] fix: adjoints, transposes and conjugates of complex
 operators stay consistent

When only the transpose (resp. adjoint) was given, the inferred adjoint
(resp. transpose) had no adjoint (resp. transpose) of its own; conjugates of
symmetric or Hermitian operators lost that attribute and hence their own
adjoint; and the T and H of an operator that is both symmetric and Hermitian
were replaced by other operators.
---
 pykrylov/linop/linop.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/pykrylov/linop/linop.py b/pykrylov/linop/linop.py
index 1be02ef..6b88fb3 100644
--- a/pykrylov/linop/linop.py
+++ b/pykrylov/linop/linop.py
@@ -135,15 +135,19 @@ class LinearOperator(BaseLinearOperator):
                 # Try to infer missing operators.
                 __conj = self.conjugate()
                 if self.T is not None:
-                    self.__T.__H = __conj
+                    if self.__T.__H is None:
+                        self.__T.__H = __conj
                     if self.H is None and __conj is not None:
                         self.logger.debug('Inferring .H')
                         self.__H = __conj.T
+                        self.__H.__H = self
                 if self.H is not None:
-                    self.__H.__T = __conj
+                    if self.__H.__T is None:
+                        self.__H.__T = __conj
                     if self.T is None and __conj is not None:
                         self.logger.debug('Inferring .T')
                         self.__T = __conj.H
+                        self.__T.__T = self
 
     def __set_transpose(self, matvec, transpose_of=None, matvec_transp=None, **kwargs):
 
@@ -251,6 +255,8 @@ class LinearOperator(BaseLinearOperator):
                               transpose_of=self.H,
                               adjoint_of=self.T,
                               conjugate_of=self,
+                              symmetric=self.symmetric,
+                              hermitian=self.hermitian,
                               dtype=self.dtype)
 
     def to_array(self):
-- 
2.43.0


From a812121a060d64d465acc67df65426f62b6405cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:49 +0000
Subject: [PATCH 26/52] fix: block operators must not share lists with their
 user

Filling in the lower triangle of a symmetric or Hermitian operator changed the
user's rows, which could then not be used again, and assigning to a block
diagonal operator changed the user's list.
---
 pykrylov/linop/blkop.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pykrylov/linop/blkop.py b/pykrylov/linop/blkop.py
index 41511ae..0e6cb0e 100644
--- a/pykrylov/linop/blkop.py
+++ b/pykrylov/linop/blkop.py
@@ -33,7 +33,7 @@ class BlockLinearOperator(LinearOperator):
                 if hermitian and not block_row[0].hermitian:
                     raise ValueError('Blocks on diagonal must be hermitian.')
 
-            self._blocks = copy(blocks)
+            self._blocks = [copy(row) for row in blocks]
             for i in range(1, nrow):
                 for j in range(i - 1, -1, -1):
                     if symmetric:
@@ -42,7 +42,7 @@ class BlockLinearOperator(LinearOperator):
                         self._blocks[i].insert(0, self._blocks[j][i].H)
 
         else:
-            self._blocks = copy(blocks)
+            self._blocks = [copy(row) for row in blocks]
 
         log = kwargs.get('logger', null_log)
         log.debug('Building new BlockLinearOperator')
@@ -164,7 +164,7 @@ class BlockDiagonalLinearOperator(LinearOperator):
         hermitian = reduce(lambda x, y: x and y,
                            [blk.hermitian for blk in blocks])
 
-        self._blocks = blocks
+        self._blocks = copy(blocks)
 
         log = kwargs.get('logger', null_log)
         log.debug('Building new BlockDiagonalLinearOperator')
-- 
2.43.0


From 446cb8b4c6dd51892d61a6ff0a7703f78ce153c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:49 +0000
Subject: [PATCH 27/52] fix: BlockLinearOperator only checked the width of the
 first blocks

---
 pykrylov/linop/blkop.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pykrylov/linop/blkop.py b/pykrylov/linop/blkop.py
index 0e6cb0e..09c3525 100644
--- a/pykrylov/linop/blkop.py
+++ b/pykrylov/linop/blkop.py
@@ -49,9 +49,9 @@ class BlockLinearOperator(LinearOperator):
 
         nargins = [[blk.shape[-1] for blk in row] for row in self._blocks]
         log.debug('nargins = ' + repr(nargins))
-        nargins_by_row = [nargin[0] for nargin in nargins]
-        if min(nargins_by_row) != max(nargins_by_row):
-            raise ShapeError('Inconsistent block shapes')
+        for row in nargins:
+            if row != nargins[0]:
+                raise ShapeError('Inconsistent block shapes')
 
         nargouts = [[blk.shape[0] for blk in row] for row in self._blocks]
         log.debug('nargouts = ' + repr(nargouts))
-- 
2.43.0


From 0ce840ac3836c8171ba82e29fcd1473b6ba0ed87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:49 +0000
Subject: [PATCH 28/52] fix: transpose of a block diagonal operator with
 rectangular blocks

---
 pykrylov/linop/blkop.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykrylov/linop/blkop.py b/pykrylov/linop/blkop.py
index 09c3525..942630c 100644
--- a/pykrylov/linop/blkop.py
+++ b/pykrylov/linop/blkop.py
@@ -184,9 +184,9 @@ class BlockDiagonalLinearOperator(LinearOperator):
 
         def blk_matvec(x, blks):
             nx = len(x)
-            nargins = [blk.shape[-1] for blk in blocks]
+            nargins = [blk.shape[-1] for blk in blks]
             nargin = sum(nargins)
-            nargouts = [blk.shape[0] for blk in blocks]
+            nargouts = [blk.shape[0] for blk in blks]
             nargout = sum(nargouts)
             self.logger.debug('Multiplying with a vector of size %d' % nx)
             self.logger.debug('nargin=%d, nargout=%d' % (nargin, nargout))
-- 
2.43.0


From e244e3da3ec25c59ddc1e2bfb50b7aa86c4874f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:39 +0000
Subject: [PATCH 29/52] fix: assigning blocks must update all that depends on
 them

After assigning to a symmetric or Hermitian block operator, its adjoint or
transpose still used the old blocks. Assigning a block that is not symmetric to
a symmetric block diagonal operator left it symmetric. The data type and shape
were never updated, and inconsistent blocks were accepted.
---
 pykrylov/linop/blkop.py | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/pykrylov/linop/blkop.py b/pykrylov/linop/blkop.py
index 942630c..2a46401 100644
--- a/pykrylov/linop/blkop.py
+++ b/pykrylov/linop/blkop.py
@@ -131,17 +131,15 @@ class BlockLinearOperator(LinearOperator):
     def __setitem__(self, indices, val):
         blks_mat = np.matrix(self._blocks, dtype=object)
         blks_mat.__setitem__(indices, val)
-        self._blocks = blks_mat.tolist()
+        blocks = blks_mat.tolist()
         if self.symmetric or self.hermitian:
-            for i in range(1, len(self._blocks)):
-                for j in range(i):
-                    if self.symmetric:
-                        self._blocks[i][j] = self._blocks[j][i].T
-                    else:
-                        self._blocks[i][j] = self._blocks[j][i].H
-        else:
-            self._blocksT = map(lambda *row: [blk.T for blk in row], *self._blocks)
-            self._blocksH = map(lambda *row: [blk.H for blk in row], *self._blocks)
+            # The lower triangle follows from the upper triangle.
+            blocks = [row[i:] for (i, row) in enumerate(blocks)]
+        flags = {'symmetric': self.symmetric, 'hermitian': self.hermitian}
+        BlockLinearOperator(blocks, **flags)   # Raises if inconsistent.
+        nMatvec = self.nMatvec
+        BlockLinearOperator.__init__(self, blocks, **flags)
+        self._nMatvec = nMatvec
 
     def __contains__(self, op):
         return op in list(itertools.chain(*self.blocks))
@@ -249,11 +247,11 @@ class BlockDiagonalLinearOperator(LinearOperator):
                     if not isinstance(op, BaseLinearOperator):
                         msg = 'Block operators can only contain linear operators'
                         raise ValueError(msg)
-        self._blocks.__setitem__(idx, ops)
-        if not self.symmetric:
-            self._blocksT = [blk.T for blk in self._blocks]
-        if not self.hermitian:
-            self._blocksH = [blk.H for blk in self._blocks]
+        blocks = copy(self._blocks)
+        blocks.__setitem__(idx, ops)
+        nMatvec = self.nMatvec
+        BlockDiagonalLinearOperator.__init__(self, blocks)
+        self._nMatvec = nMatvec
 
 
 class BlockPreconditioner(BlockLinearOperator):
-- 
2.43.0


From 6326477c66d3f76dc4fdd41cb40c9b7656e74245 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:39 +0000
Subject: [PATCH 30/52] fix: LBFGSOperator ignored scaling

---
 pykrylov/linop/lbfgs.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pykrylov/linop/lbfgs.py b/pykrylov/linop/lbfgs.py
index f570bf6..420ff3f 100644
--- a/pykrylov/linop/lbfgs.py
+++ b/pykrylov/linop/lbfgs.py
@@ -154,6 +154,12 @@ class LBFGSOperator(InverseLBFGSOperator):
         b = np.zeros((self.n, self.npairs))
         a = np.zeros((self.n, self.npairs))
 
+        if self.scaling:
+            last = (self.insert - 1) % self.npairs
+            if ys[last] is not None:
+                self.gamma = ys[last] / np.dot(y[:, last], y[:, last])
+                q /= self.gamma
+
         # B = Σ aa' - bb'.
         for i in range(self.npairs):
             k = (self.insert + i) % self.npairs
@@ -161,7 +167,7 @@ class LBFGSOperator(InverseLBFGSOperator):
                 b[:, k] = y[:, k] / ys[k]**.5
                 bv = np.dot(b[:, k], v[:])
                 q += bv * b[:, k]
-                a[:, k] = s[:, k].copy()
+                a[:, k] = s[:, k] / self.gamma
                 for j in range(i):
                     l = (self.insert + j) % self.npairs
                     if ys[l] is not None:
-- 
2.43.0


From 8fb5d1fadb6adec1dfd6ab2005b66dfff6e71e96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:39 +0000
Subject: [PATCH 31/52] fix: StructuredLBFGSOperator could be neither created
 nor updated

---
 pykrylov/linop/lbfgs.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pykrylov/linop/lbfgs.py b/pykrylov/linop/lbfgs.py
index 420ff3f..e212c7a 100644
--- a/pykrylov/linop/lbfgs.py
+++ b/pykrylov/linop/lbfgs.py
@@ -280,7 +280,7 @@ class StructuredLBFGSOperator(InverseLBFGSOperator):
                          done as 'method M3' in the LBFGS paper by Zhou and
                          Nocedal; the scaling factor is s'y/y'y (default: False).
         """
-        super(StructuredLBFGSOperator, self).__init__(self, n, npairs, **kwargs)
+        super(StructuredLBFGSOperator, self).__init__(n, npairs, **kwargs)
         self.yd = np.empty((self.n, self.npairs))
         self.accept_threshold = 1e-8
 
@@ -340,7 +340,7 @@ class StructuredLBFGSOperator(InverseLBFGSOperator):
         | y_k' s_k + (y's s_k' B_k s_k)**.5 | >= 1e-8.
         """
         ys = np.dot(new_s, new_y)
-        Bs = self.matvec(new_s)
+        Bs = self.lbfgs_matvec(new_s)
         ypBs = ys + (ys * np.dot(new_s, Bs))**0.5
 
         if ypBs >= self.accept_threshold:
@@ -352,5 +352,5 @@ class StructuredLBFGSOperator(InverseLBFGSOperator):
             self.insert += 1
             self.insert = self.insert % self.npairs
         else:
-            self.log.debug('Rejecting (s,y) pair')
+            self.logger.debug('Rejecting (s,y) pair')
         return
-- 
2.43.0


From d09f0ef815d62c917eefd8a5ba0df609e97868d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:39 +0000
Subject: [PATCH 32/52] fix: StructuredLBFGSOperator updates with two or more
 pairs

alTs is already divided by aTs, so that the secant equation did not hold.
---
 pykrylov/linop/lbfgs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykrylov/linop/lbfgs.py b/pykrylov/linop/lbfgs.py
index e212c7a..713577f 100644
--- a/pykrylov/linop/lbfgs.py
+++ b/pykrylov/linop/lbfgs.py
@@ -323,7 +323,7 @@ class StructuredLBFGSOperator(InverseLBFGSOperator):
                     if ys[l] is not None:
                         alTs = np.dot(a[:, l], s[:, k]) / aTs[l]
                         adlTs = np.dot(ad[:, l], s[:, k])
-                        update = alTs / aTs[l] * ad[:, l] + adlTs / aTs[l] * a[:, l] - adTs[l] / aTs[l] * alTs * a[:, l]
+                        update = alTs * ad[:, l] + adlTs / aTs[l] * a[:, l] - adTs[l] / aTs[l] * alTs * a[:, l]
                         a[:, k] += coef * update
                         ad[:, k] -= update
                 aTs[k] = np.dot(a[:, k], s[:, k])
-- 
2.43.0


From 29f68a15d02ddf0522fc8ee3bf2e18496bcd9e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:22 +0000
Subject: [PATCH 33/52] fix: roots_quadratic moved nearly double roots far away

Rounding errors make Newton steps arbitrarily long where the derivative
vanishes. Only accept steps that do not increase the residual.
---
 pykrylov/tools/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pykrylov/tools/utils.py b/pykrylov/tools/utils.py
index f37d678..34157de 100644
--- a/pykrylov/tools/utils.py
+++ b/pykrylov/tools/utils.py
@@ -54,7 +54,10 @@ def roots_quadratic(q2, q1, q0, tol=1.0e-8, nitref=1):
             if der == 0.0:
                 continue
             else:
-                root = root - val/der
+                new_root = root - val/der
+                if abs((a2 * new_root + a1) * new_root + a0) > abs(val):
+                    break   # Too close to a double root.
+                root = new_root
         new_roots.append(root)
 
     return new_roots
-- 
2.43.0


From ff43b5ac013362957c887e5775396e0cea9409c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:13:43 +0000
Subject: [PATCH 34/52] fix: SYMMLQ iterates must not outlive a solve

---
 pykrylov/symmlq/symmlq.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pykrylov/symmlq/symmlq.py b/pykrylov/symmlq/symmlq.py
index cf70eee..acb30b5 100644
--- a/pykrylov/symmlq/symmlq.py
+++ b/pykrylov/symmlq/symmlq.py
@@ -119,6 +119,7 @@ class Symmlq(KrylovMethod) :
         itn    = 0 ; xnorm  = 0 ; x = np.zeros(n) ; done=False
         anorm  = 0 ; rnorm  = 0 ; v = np.zeros(n)
 
+        self.iterates = []  # Forget iterates of previous solves.
         if store_iterates:
             self.iterates.append(x.copy())
 
-- 
2.43.0


From 1bc957911d2278f09b8dd77dd4e7a25aa2916028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:26 +0000
Subject: [PATCH 35/52] fix: products of L-BFGS operators with integer vectors
 failed

---
 pykrylov/linop/lbfgs.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/pykrylov/linop/lbfgs.py b/pykrylov/linop/lbfgs.py
index 713577f..e2f62d1 100644
--- a/pykrylov/linop/lbfgs.py
+++ b/pykrylov/linop/lbfgs.py
@@ -101,7 +101,7 @@ class InverseLBFGSOperator(LinearOperator):
         positive-definite approximation to the inverse Hessian matrix and the
         vector v using the LBFGS two-loop recursion formula.
         """
-        q = v.copy()
+        q = v.astype(np.result_type(v.dtype, np.float64))
         s = self.s
         y = self.y
         ys = self.ys
@@ -147,7 +147,7 @@ class LBFGSOperator(InverseLBFGSOperator):
         Note: there is probably some optimization that could be done in this
         function with respect to memory use and storing key dot products.
         """
-        q = v.copy()
+        q = v.astype(np.result_type(v.dtype, np.float64))
         s = self.s
         y = self.y
         ys = self.ys
@@ -201,8 +201,8 @@ class CompactLBFGSOperator(InverseLBFGSOperator):
         Note: there is probably some optimization that could be done in this
         function with respect to memory use and caching key dot products.
         """
-        q = v.copy()
-        r = v.copy()
+        q = v.astype(np.result_type(v.dtype, np.float64))
+        r = q.copy()
         s = self.s
         y = self.y
         ys = self.ys
@@ -294,7 +294,7 @@ class StructuredLBFGSOperator(InverseLBFGSOperator):
         Note: there is probably some optimization that could be done in this
         function with respect to memory use and storing key dot products.
         """
-        q = v.copy()
+        q = v.astype(np.result_type(v.dtype, np.float64))
         s = self.s
         y = self.y
         yd = self.yd
-- 
2.43.0


From c8db23bc4c2110245603ea00a300c75de00d4254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:08 +0000
Subject: [PATCH 36/52] fix: MINRES estimate of norm(A) included the norm of b

---
 pykrylov/minres/minres.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pykrylov/minres/minres.py b/pykrylov/minres/minres.py
index 27b2fc1..899a6f5 100644
--- a/pykrylov/minres/minres.py
+++ b/pykrylov/minres/minres.py
@@ -254,7 +254,8 @@ class Minres(KrylovMethod):
                     istop = 9
                     break
                 beta   = sqrt(beta)
-                tnorm2 = tnorm2 + alfa**2 + oldb**2 + beta**2
+                tnorm2 = tnorm2 + alfa**2 + beta**2
+                if itn >= 2: tnorm2 += oldb**2   # oldb = norm(b) if itn = 1.
 
                 if itn==1:                    # Initialize a few things.
                     if beta/beta1 <= 10*eps:  # beta2 = 0 or ~ 0.
-- 
2.43.0


From b0feca3c751b9232333559feb9816fdeeaec2abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:33 +0000
Subject: [PATCH 37/52] fix: MINRES reported a zero residual for b in the null
 space of A

---
 pykrylov/minres/minres.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pykrylov/minres/minres.py b/pykrylov/minres/minres.py
index 899a6f5..e4a5684 100644
--- a/pykrylov/minres/minres.py
+++ b/pykrylov/minres/minres.py
@@ -287,6 +287,8 @@ class Minres(KrylovMethod):
                 gamma  = max(gamma, eps)
                 cs     = gbar / gamma             # ck
                 sn     = beta / gamma             # sk
+                if gbar == 0 and beta == 0:
+                    sn = 1.0                      # No reduction is possible.
                 phi    = cs * phibar              # phik
                 phibar = sn * phibar              # phibark+1
 
-- 
2.43.0


From 405b95cd7ff19649d16dde40f043971b6ce1943a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:14 +0000
Subject: [PATCH 38/52] fix: TFQMR must stop when it meets a zero tolerance

---
 pykrylov/tfqmr/tfqmr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykrylov/tfqmr/tfqmr.py b/pykrylov/tfqmr/tfqmr.py
index 0ef1091..7c7d7d2 100644
--- a/pykrylov/tfqmr/tfqmr.py
+++ b/pykrylov/tfqmr/tfqmr.py
@@ -100,7 +100,7 @@ class TFQMR( KrylovMethod ):
             eta = c * c * alpha
             x += eta * d
             m = 2.0 * k - 1.0
-            if residNorm * np.sqrt(m+1) < threshold or nMatvec >= matvec_max:
+            if residNorm * np.sqrt(m+1) <= threshold or nMatvec >= matvec_max:
                 finished = True
                 continue
 
@@ -122,7 +122,7 @@ class TFQMR( KrylovMethod ):
             residNorm *= theta * c
             eta = c * c * alpha
             x += eta * d
-            if residNorm * np.sqrt(m+1) < threshold or nMatvec >= matvec_max:
+            if residNorm * np.sqrt(m+1) <= threshold or nMatvec >= matvec_max:
                 finished = True
                 continue
 
-- 
2.43.0


From 03dbd9af9df9f74005a9219a317a9aac3bbfc5e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:58 +0000
Subject: [PATCH 39/52] fix: symmetry check accepted any operator with small
 coefficients

---
 pykrylov/tools/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykrylov/tools/utils.py b/pykrylov/tools/utils.py
index 34157de..e102e07 100644
--- a/pykrylov/tools/utils.py
+++ b/pykrylov/tools/utils.py
@@ -82,7 +82,7 @@ def check_symmetric(op, repeats=10):
         s = np.dot(w, w)
         t = np.dot(x, r)
         z = abs(s - t)
-        epsa = (s + eps) * eps**(1.0/3)
+        epsa = s * eps**(1.0/3)
         if z > epsa:
             return False
     return True
-- 
2.43.0


From d262188821c3ac788d4db1cdfc39498d719b1372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:58 +0000
Subject: [PATCH 40/52] fix: SYMMLQ symmetry checks accepted anything with
 small coefficients

---
 pykrylov/symmlq/symmlq.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykrylov/symmlq/symmlq.py b/pykrylov/symmlq/symmlq.py
index acb30b5..6ba78d3 100644
--- a/pykrylov/symmlq/symmlq.py
+++ b/pykrylov/symmlq/symmlq.py
@@ -141,7 +141,7 @@ class Symmlq(KrylovMethod) :
             s = np.dot(y,y)
             t = np.dot(r1,r2)
             z = np.abs(s-t)
-            epsa = (s+eps) * eps**(1.0/3)
+            epsa = s * eps**(1.0/3)
             if z > epsa:
                 istop = 7
                 done = True
@@ -170,7 +170,7 @@ class Symmlq(KrylovMethod) :
                 s = np.dot(y,y)
                 t = np.dot(v,r2)
                 z = abs(s-t)
-                epsa = (s+eps) * eps**(1.0/3)
+                epsa = s * eps**(1.0/3)
                 if z > epsa:
                     istop = 6
                     done = True
-- 
2.43.0


From cb67bf0dd2046113848c958c0bfe75822cdf3f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:58 +0000
Subject: [PATCH 41/52] fix: SYMMLQ claimed that b is an eigenvector of
 operators with small coefficients

---
 pykrylov/symmlq/symmlq.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykrylov/symmlq/symmlq.py b/pykrylov/symmlq/symmlq.py
index 6ba78d3..e9a6bad 100644
--- a/pykrylov/symmlq/symmlq.py
+++ b/pykrylov/symmlq/symmlq.py
@@ -200,7 +200,7 @@ class Symmlq(KrylovMethod) :
             #  Cause termination (later) if beta is essentially zero.
 
             beta = np.sqrt(beta)
-            if beta <= eps:
+            if beta <= eps * np.abs(alfa):
                 istop = -1
 
             #  See if the local reorthogonalization achieved anything.
-- 
2.43.0


From fb377f01fa1ebb5663dbc4b0e6361f75a781699b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:19 +0000
Subject: [PATCH 42/52] fix: MINRES tests for eigenvectors and zero pivots
 depended on the scale of the data

---
 pykrylov/minres/minres.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykrylov/minres/minres.py b/pykrylov/minres/minres.py
index e4a5684..f88f099 100644
--- a/pykrylov/minres/minres.py
+++ b/pykrylov/minres/minres.py
@@ -258,7 +258,7 @@ class Minres(KrylovMethod):
                 if itn >= 2: tnorm2 += oldb**2   # oldb = norm(b) if itn = 1.
 
                 if itn==1:                    # Initialize a few things.
-                    if beta/beta1 <= 10*eps:  # beta2 = 0 or ~ 0.
+                    if beta <= 10*eps*abs(alfa):  # beta2 = 0 or ~ 0.
                         istop = -1            # Terminate later.
 
                     # tnorm2 = alfa**2  ??
@@ -284,7 +284,7 @@ class Minres(KrylovMethod):
                 # Compute the next plane rotation Qk
 
                 gamma  = self.normof2(gbar, beta)       # gammak
-                gamma  = max(gamma, eps)
+                gamma  = max(gamma, eps*sqrt(tnorm2)) or eps
                 cs     = gbar / gamma             # ck
                 sn     = beta / gamma             # sk
                 if gbar == 0 and beta == 0:
-- 
2.43.0


From f54c1d7d8a3a29ad6d8b0823e90599d80e4215e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:54 +0000
Subject: [PATCH 43/52] fix: MINRES left least-squares solutions along the null
 space of A

---
 pykrylov/minres/minres.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykrylov/minres/minres.py b/pykrylov/minres/minres.py
index f88f099..98e315f 100644
--- a/pykrylov/minres/minres.py
+++ b/pykrylov/minres/minres.py
@@ -287,8 +287,8 @@ class Minres(KrylovMethod):
                 gamma  = max(gamma, eps*sqrt(tnorm2)) or eps
                 cs     = gbar / gamma             # ck
                 sn     = beta / gamma             # sk
-                if gbar == 0 and beta == 0:
-                    sn = 1.0                      # No reduction is possible.
+                if root <= rtol * sqrt(tnorm2):
+                    cs = 0.0; sn = 1.0            # x is a least-squares solution.
                 phi    = cs * phibar              # phik
                 phibar = sn * phibar              # phibark+1
 
-- 
2.43.0


From 0dfc10690aee1c429c0f8a3bcf01ada80ab080d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:54 +0000
Subject: [PATCH 44/52] fix: MINRES printed blank lines with show turned off

---
 pykrylov/minres/minres.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykrylov/minres/minres.py b/pykrylov/minres/minres.py
index 98e315f..9b49109 100644
--- a/pykrylov/minres/minres.py
+++ b/pykrylov/minres/minres.py
@@ -384,7 +384,7 @@ class Minres(KrylovMethod):
 
                 if istop != 0: break
 
-                if (itn % 10)==0: print ' '
+                if show and (itn % 10)==0: print ' '
 
         # Display final status.
 
-- 
2.43.0


From c9b95ca778e38df4d837e7afdd93cb1fc72e1d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:39 +0000
Subject: [PATCH 45/52] fix: SYMMLQ condition estimate involved the first
 diagonal entry of T

---
 pykrylov/symmlq/symmlq.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykrylov/symmlq/symmlq.py b/pykrylov/symmlq/symmlq.py
index e9a6bad..7ad9d66 100644
--- a/pykrylov/symmlq/symmlq.py
+++ b/pykrylov/symmlq/symmlq.py
@@ -218,8 +218,8 @@ class Symmlq(KrylovMethod) :
             cgnorm = lqnorm = beta1
             rhs2   = 0     ; tnorm  = alfa**2 + beta**2
             gbar   = alfa  ; bstep  = 0 ; ynorm2 = 0
-            dbar   = beta  ; snprod = 1 ; gmax   = np.abs(alfa) + eps
-            rhs1   = beta1 ; x1cg   = 0 ; gmin   = gmax
+            dbar   = beta  ; snprod = 1 ; gmax   = np.abs(alfa)
+            rhs1   = beta1 ; x1cg   = 0 ; gmin   = np.inf
             qrnorm = beta1
 
         # end  if beta1 > 0
-- 
2.43.0


From 728f70c2a3450686a7e7f4cfafdb292e79423ff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:58 +0000
Subject: [PATCH 46/52] fix: MINRES gave up with x = 0 when the first Lanczos
 coefficient vanishes

---
 pykrylov/minres/minres.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pykrylov/minres/minres.py b/pykrylov/minres/minres.py
index 9b49109..4e353b6 100644
--- a/pykrylov/minres/minres.py
+++ b/pykrylov/minres/minres.py
@@ -262,8 +262,8 @@ class Minres(KrylovMethod):
                         istop = -1            # Terminate later.
 
                     # tnorm2 = alfa**2  ??
-                    gmax   = abs(alfa)        # alpha1
-                    gmin   = gmax             # alpha1
+                    gmax   = 0.0
+                    gmin   = np.inf
 
                 # Apply previous rotation Qk-1 to get
                 #   [deltak epslnk+1] = [cs  sn][dbark    0   ]
-- 
2.43.0


From a6e95d770a2a381bb4bab4405a5b980712c4ff50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:59 +0000
Subject: [PATCH 47/52] fix: CRAIG claimed convergence whenever the operator
 was large: test the residual

---
 pykrylov/lls/craig.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykrylov/lls/craig.py b/pykrylov/lls/craig.py
index c1c0f2e..c4e9099 100644
--- a/pykrylov/lls/craig.py
+++ b/pykrylov/lls/craig.py
@@ -423,7 +423,7 @@ class CRAIGFramework(KrylovMethod):
             # Now use these norms to estimate certain other quantities,
             # some of which will be small near a solution.
 
-            test1 = sqrt(rnorm) / bnorm
+            test1 = abs(sqd_resid) / bnorm   # Residual before this step.
             #if Anorm == 0. or rnorm == 0.:
             #    test2 = inf
             #else:
-- 
2.43.0


From 51c2dbdd7b64f3d5435f9f05acd829b098a70526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:50 +0000
Subject: [PATCH 48/52] fix: LSMR condition estimate took the initial value of
 rhobar for a singular value

---
 pykrylov/lls/lsmr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pykrylov/lls/lsmr.py b/pykrylov/lls/lsmr.py
index 3ab6a8d..f4b2ec9 100644
--- a/pykrylov/lls/lsmr.py
+++ b/pykrylov/lls/lsmr.py
@@ -406,8 +406,8 @@ class LSMRFramework(KrylovMethod):
             normA2        = normA2 + alpha*alpha
 
             # Estimate cond(A).
-            maxrbar       = max(maxrbar,rhobarold)
             if itn>1:
+              maxrbar     = max(maxrbar,rhobarold)
               minrbar     = min(minrbar,rhobarold)
             condA         = max(maxrbar,rhotemp)/min(minrbar,rhotemp)
 
-- 
2.43.0


From dbef9ee020d210d1884cad872659fb486c5f3465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:50 +0000
Subject: [PATCH 49/52] fix: least-squares solvers reported a zero solution as
 a failure, CRAIG-MR iterated on b=0

---
 pykrylov/lls/craig.py   | 2 +-
 pykrylov/lls/craigmr.py | 5 +++--
 pykrylov/lls/lsmr.py    | 2 +-
 pykrylov/lls/lsqr.py    | 2 +-
 4 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/pykrylov/lls/craig.py b/pykrylov/lls/craig.py
index c4e9099..0c2cf2c 100644
--- a/pykrylov/lls/craig.py
+++ b/pykrylov/lls/craig.py
@@ -504,7 +504,7 @@ class CRAIGFramework(KrylovMethod):
         if istop in [3,6]: self.status = 'ill-conditioned operator'
         if istop == 7: self.status = 'max iterations'
         if istop == 8: self.status = 'direct error small'
-        self.optimal = istop in [1,2,4,5,8]
+        self.optimal = x_is_zero or istop in [1,2,4,5,8]
         self.x = self.bestSolution = x
         self.r = r
         self.istop = istop
diff --git a/pykrylov/lls/craigmr.py b/pykrylov/lls/craigmr.py
index fc22180..1ef1eab 100644
--- a/pykrylov/lls/craigmr.py
+++ b/pykrylov/lls/craigmr.py
@@ -120,12 +120,13 @@ class CRAIGMRFramework(KrylovMethod):
 
         # Items for use in stopping rules.
         istop = 0
+        x_is_zero = beta == 0.0   # Is x=0 the solution?
 
         if store_resids:
             self.norms.append(xNrgNorm2)
 
         # Main iteration loop.
-        while itn < itnlim:
+        while itn < itnlim and not x_is_zero:
             itn = itn + 1
 
             # Perform the next step of the bidiagonalization to obtain the
@@ -233,7 +234,7 @@ class CRAIGMRFramework(KrylovMethod):
         if istop in [3,6]: self.status = 'ill-conditioned operator'
         if istop == 7: self.status = 'max iterations'
         if istop == 8: self.status = 'direct error small'
-        self.optimal = istop in [1,2,4,5,8]
+        self.optimal = x_is_zero or istop in [1,2,4,5,8]
         self.x = self.bestSolution = x
         self.istop = istop
         self.itn = itn
diff --git a/pykrylov/lls/lsmr.py b/pykrylov/lls/lsmr.py
index f4b2ec9..867b9a6 100644
--- a/pykrylov/lls/lsmr.py
+++ b/pykrylov/lls/lsmr.py
@@ -497,7 +497,7 @@ class LSMRFramework(KrylovMethod):
         if istop in [3,6]: self.status = 'ill-conditioned operator'
         if istop == 7: self.status = 'max iterations'
         if istop == 8: self.status = 'direct error small'
-        self.optimal = istop in [1,2,4,5,8]
+        self.optimal = x_is_zero or istop in [1,2,4,5,8]
         self.x = self.bestSolution = x
         self.istop = istop
         self.itn = itn
diff --git a/pykrylov/lls/lsqr.py b/pykrylov/lls/lsqr.py
index c591cb1..6ea2cc9 100644
--- a/pykrylov/lls/lsqr.py
+++ b/pykrylov/lls/lsqr.py
@@ -438,7 +438,7 @@ class LSQRFramework(KrylovMethod):
         if istop in [3,6]: self.status = 'ill-conditioned operator'
         if istop == 7: self.status = 'max iterations'
         if istop == 8: self.status = 'direct error small'
-        self.optimal = istop in [1,2,4,5,8]
+        self.optimal = x_is_zero or istop in [1,2,4,5,8]
         self.x = self.bestSolution = x
         self.istop = istop
         self.itn = itn
-- 
2.43.0


From 9d85e546e3fc27c936f713f17652ffa1dbc2453e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:05 +0000
Subject: [PATCH 50/52] fix: LSQR condition estimate mixed the metric of N with
 the Euclidean norm

---
 pykrylov/lls/lsqr.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pykrylov/lls/lsqr.py b/pykrylov/lls/lsqr.py
index 6ea2cc9..6f3238b 100644
--- a/pykrylov/lls/lsqr.py
+++ b/pykrylov/lls/lsqr.py
@@ -208,6 +208,7 @@ class LSQRFramework(KrylovMethod):
             v /= alpha
             if N is not None: Nv /= alpha
             w = v.copy()     # Should this be Nv ???
+            if N is not None: Nw = Nv.copy()
 
         x_is_zero = False   # Is x=0 the solution to the least-squares prob?
         Arnorm = alpha * beta
@@ -299,8 +300,12 @@ class LSQRFramework(KrylovMethod):
             dk      =   (1.0/rho)*w;
 
             x      += t1*w
+            if N is None:
+                ddnorm = ddnorm + norm(dk)**2
+            else:                             # norm(dk) in the metric of x.
+                ddnorm = ddnorm + dot(dk,Nw)/rho
+                Nw    *= t2 ; Nw += Nv
             w      *= t2 ; w += v
-            ddnorm  = ddnorm + norm(dk)**2
             if wantvar: var += dk*dk
 
             if store_iterates:
-- 
2.43.0


From 6a4611a3c5d17be763f87829f965ebfb839abef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:36 +0000
Subject: [PATCH 51/52] fix: LSQR did not notice that it had finished when the
 first step was exact

---
 pykrylov/lls/lsqr.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pykrylov/lls/lsqr.py b/pykrylov/lls/lsqr.py
index 6f3238b..90014f6 100644
--- a/pykrylov/lls/lsqr.py
+++ b/pykrylov/lls/lsqr.py
@@ -256,12 +256,11 @@ class LSQRFramework(KrylovMethod):
             else:
                 u = Mu
             beta = sqrt(dot(u,Mu))   # norm(u)
+            Anorm = normof4(Anorm, alpha, beta, damp)
             if beta > 0:
                 u /= beta
                 if M is not None: Mu /= beta
 
-                Anorm = normof4(Anorm, alpha, beta, damp)
-
                 Nv = A.T*u - beta*Nv
                 if N is not None:
                     v = N(Nv)
-- 
2.43.0


From 934cbc3c30786eb537701edfb60073243cba9c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:36 +0000
Subject: [PATCH 52/52] fix: LSMR stopping test mixed the metric of N with the
 Euclidean norm

---
 pykrylov/lls/lsmr.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pykrylov/lls/lsmr.py b/pykrylov/lls/lsmr.py
index 867b9a6..de58a61 100644
--- a/pykrylov/lls/lsmr.py
+++ b/pykrylov/lls/lsmr.py
@@ -245,6 +245,8 @@ class LSMRFramework(KrylovMethod):
         h    = v.copy()
         hbar = zeros(n)
         x    = zeros(n)
+        if N is not None:        # The products of inv(N) with h, hbar and x.
+            Nh, Nhbar, Nx = Nv.copy() if beta > 0 else zeros(n), zeros(n), zeros(n)
 
         if store_iterates:
             self.iterates.append(x.copy())
@@ -360,6 +362,10 @@ class LSMRFramework(KrylovMethod):
             hbar       = h - (thetabar*rho/(rhoold*rhobarold))*hbar
             x          = x + (zeta/(rho*rhobar))*hbar
             h          = v - (thetanew/rho)*h
+            if N is not None:
+                Nhbar  = Nh - (thetabar*rho/(rhoold*rhobarold))*Nhbar
+                Nx     = Nx + (zeta/(rho*rhobar))*Nhbar
+                Nh     = Nv - (thetanew/rho)*Nh
 
             if store_iterates:
                 self.iterates.append(x.copy())
@@ -415,7 +421,7 @@ class LSMRFramework(KrylovMethod):
 
             # Compute norms for convergence testing.
             normar  = abs(zetabar)
-            normx   = norm(x)
+            normx   = norm(x) if N is None else sqrt(max(dot(x,Nx), 0.))
 
             # Now use these norms to estimate certain other quantities,
             # some of which will be small near a solution.
-- 
2.43.0

