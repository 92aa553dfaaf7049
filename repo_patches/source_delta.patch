From c0376f3881e11f7aeb8f5266a91cc0027b923e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:50:30 +0000
Subject: [PATCH 01/45] fix: import on Python >= 3.11 (mutable numpy defaults
 in the Kohnsham energy dataclass)

---
 CADMium/kohnsham/kohnsham.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/CADMium/kohnsham/kohnsham.py b/CADMium/kohnsham/kohnsham.py
index 12f3397..fa6c7b7 100644
--- a/CADMium/kohnsham/kohnsham.py
+++ b/CADMium/kohnsham/kohnsham.py
@@ -2,7 +2,7 @@
 kohnsham.py
 """
 
-from dataclasses import dataclass
+from dataclasses import dataclass, field
 from multiprocessing import Process, Manager, current_process
 from pydantic import validator, BaseModel
 import numpy as np
@@ -25,8 +25,8 @@ class E:
     E  : float = 0.0 
     Ec : float = 0.0
     Ex : float = 0.0
-    Eks: np.ndarray = np.empty((1,1))
-    Vks: np.ndarray = np.empty((1,1))
+    Eks: np.ndarray = field(default_factory=lambda: np.empty((1,1)))
+    Vks: np.ndarray = field(default_factory=lambda: np.empty((1,1)))
 
 class KohnShamOptions(BaseModel):
     interaction_type : str = 'dft'
-- 
2.43.0


From c69b71d37738f758fd18b2d54364f63bd1bd1a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:58 +0000
Subject: [PATCH 02/45] fix: lay out the integration weights in the grid order
 (angular index fastest)

---
 CADMium/psgrid/initialize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/psgrid/initialize.py b/CADMium/psgrid/initialize.py
index f0eb0c7..40fd28f 100644
--- a/CADMium/psgrid/initialize.py
+++ b/CADMium/psgrid/initialize.py
@@ -60,7 +60,7 @@ def initialize(self, DISP=False, factor=True):
     wr = wr.reshape(len(wr), 1)
     
     #2d Grid of integration weights
-    self.wi = np.reshape(wa@wr.T, (self.Nelem))
+    self.wi = np.reshape(wa@wr.T, (self.Nelem), order="F")
     
     if DISP is True:
         print(" Building finite difference opperators ... \n")
-- 
2.43.0


From d2bcbaef9dfc061fed35fdc137ac572ecf46c8e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:58 +0000
Subject: [PATCH 03/45] fix: operator precedence in the up-down contracted
 gradient

---
 CADMium/psgrid/sigma.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/psgrid/sigma.py b/CADMium/psgrid/sigma.py
index f4fbad8..4b13982 100644
--- a/CADMium/psgrid/sigma.py
+++ b/CADMium/psgrid/sigma.py
@@ -16,7 +16,7 @@ def sigma(self, n):
         sigma = np.zeros((npoints, 3))
         sigma[:,2] = (self.grada @ n[:, 1]) ** 2 +  (self.gradr @ n[:, 1]) ** 2
         sigma[:,0] = (self.grada @ n[:, 0]) ** 2 +  (self.gradr @ n[:, 0]) ** 2
-        sigma[:,1] = self.grada @ n[:, 0] * self.grada @ n[:,1] + self.gradr @ n[:, 0] * self.gradr @ n[:,1]
+        sigma[:,1] = (self.grada @ n[:, 0]) * (self.grada @ n[:,1]) + (self.gradr @ n[:, 0]) * (self.gradr @ n[:,1])
 
     else:
         raise ValueError("Shape of density in second axis should not be greater than 2")
-- 
2.43.0


From 75de00e4f0e7ca3d97a7e3ec5214358004daa266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:23 +0000
Subject: [PATCH 04/45] fix: reduced density gradient crashed and was never
 returned

---
 CADMium/psgrid/psgrid.py       | 2 +-
 CADMium/psgrid/reduced_grad.py | 6 +++---
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/CADMium/psgrid/psgrid.py b/CADMium/psgrid/psgrid.py
index c3d839a..9e4830c 100644
--- a/CADMium/psgrid/psgrid.py
+++ b/CADMium/psgrid/psgrid.py
@@ -269,7 +269,7 @@ class Psgrid():
         factorize_laplacian(self, DISP)
 
     def reduced_grad(self, n):
-        reduced_grad(self, n)
+        return reduced_grad(self, n)
 
     def plotter(self, fin, max=1, sym=1):
         full, z, x = plotter(self, fin, max, sym)
diff --git a/CADMium/psgrid/reduced_grad.py b/CADMium/psgrid/reduced_grad.py
index b3a64bf..f860282 100644
--- a/CADMium/psgrid/reduced_grad.py
+++ b/CADMium/psgrid/reduced_grad.py
@@ -12,12 +12,12 @@ def reduced_grad(self, n):
     pol = n.shape[1]
 
     if pol == 1:
-        s = self.sigma(n) ** (0.5) / (2 * (3*np.pi**2)**(1/3) @ n** (4/3) )
+        s = self.sigma(n) ** (0.5) / (2 * (3*np.pi**2)**(1/3) * n** (4/3) )
 
     if pol == 2:
         s = np.zeros_like(n)
-        s[:, 0] = self.sigma(2 * n[:,0])**(0.5) / (2 * (3*np.pi**2)**(1/3) @ (2 * n[:,0])**(4/3))
-        s[:, 0] = self.sigma(2 * n[:,1])**(0.5) / (2 * (3*np.pi**2)**(1/3) @ (2 * n[:,1])**(4/3))
+        s[:, 0] = self.sigma(2 * n[:,:1])[:,0]**(0.5) / (2 * (3*np.pi**2)**(1/3) * (2 * n[:,0])**(4/3))
+        s[:, 1] = self.sigma(2 * n[:,1:])[:,0]**(0.5) / (2 * (3*np.pi**2)**(1/3) * (2 * n[:,1])**(4/3))
 
     #WARNING: S might be zero, in that case, that particular cell should be turned to zero#
 
-- 
2.43.0


From 8164b06a23bd219af40e5ec88ef137d70a0be39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:47 +0000
Subject: [PATCH 05/45] fix: undo the row and column pivoting of the Laplacian
 factorisation

---
 CADMium/psgrid/factorize_laplacian.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/CADMium/psgrid/factorize_laplacian.py b/CADMium/psgrid/factorize_laplacian.py
index 35ea94b..d174afd 100644
--- a/CADMium/psgrid/factorize_laplacian.py
+++ b/CADMium/psgrid/factorize_laplacian.py
@@ -13,8 +13,9 @@ def factorize_laplacian(self, DISP):
         print(" Factorizing Laplacian ... \n")
         
     LU = splu(self.elap, permc_spec="NATURAL")
-    self.L_lap = LU.L
-    self.U_lap = LU.U
+    #splu returns Pr A Pc = L U. Undo both permutations so that L_lap U_lap = elap
+    self.L_lap = LU.L.tocsr()[LU.perm_r].tocsc()
+    self.U_lap = LU.U[:, LU.perm_c].tocsc()
         
     if DISP is True:
         print(" Done")
\ No newline at end of file
-- 
2.43.0


From eedccc6586f3f41b613794e25f389168a90b7c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:47 +0000
Subject: [PATCH 06/45] fix: kinetic energy density uses the fractionally
 occupied orbital

---
 CADMium/pssolver/calc_ked_WFI.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/pssolver/calc_ked_WFI.py b/CADMium/pssolver/calc_ked_WFI.py
index 956717b..bb3a5b0 100644
--- a/CADMium/pssolver/calc_ked_WFI.py
+++ b/CADMium/pssolver/calc_ked_WFI.py
@@ -41,7 +41,7 @@ def calc_ked_WFI(self):
     # if self.FRACTIONAL is True and nu != 0:
     if self.optSolver.fractional and nu != 0:
         #Normalized orbital
-        phi_norm = self.phi[:,i] / self.grid.integrate( self.phi[:, int(Nocc+1) ]**2)**0.5
+        phi_norm = self.phi[:, int(Nocc)] / self.grid.integrate( self.phi[:, int(Nocc)]**2)**0.5
         phi_norm = phi_norm[:, None]
         self.ked_WFI += nu * ( phi_norm * (self.H0 @ phi_norm) ) / self.grid.w[:, None]
 
-- 
2.43.0


From 51dcee4da63975ffd5859ec579123faf5a62735f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:47 +0000
Subject: [PATCH 07/45] fix: N = -1 (fill every orbital) read a nonexistent
 attribute

---
 CADMium/pssolver/pssolver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/pssolver/pssolver.py b/CADMium/pssolver/pssolver.py
index e5d46fb..7040aa7 100644
--- a/CADMium/pssolver/pssolver.py
+++ b/CADMium/pssolver/pssolver.py
@@ -89,7 +89,7 @@ class i_solver():
         self.pol = pol
 
         if self.N == -1:
-            if self.polarization == 1:
+            if self.pol == 1:
                 self.N = 2 * self.Nmo
             else:
                 self.N = self.Nmo
-- 
2.43.0


From 2894e100d5a2a5eb5ecc4815d64585e26ecc4126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:54:48 +0000
Subject: [PATCH 08/45] fix: iterative update is only applied to the orbital it
 was solved for

---
 CADMium/pssolver/iter_orbitals.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/CADMium/pssolver/iter_orbitals.py b/CADMium/pssolver/iter_orbitals.py
index 3b0598b..4bc8e95 100644
--- a/CADMium/pssolver/iter_orbitals.py
+++ b/CADMium/pssolver/iter_orbitals.py
@@ -54,9 +54,9 @@ def iter_orbitals(self, solver_id, return_dict):
                 else:
                     x = spsolve(C, rhs)
                 
-            self.phi[:, j] -= x[:Nelem]
-            self.eig[j]    -= x[-1]
-            self.normalize_orbitals()
+                self.phi[:, j] -= x[:Nelem]
+                self.eig[j]    -= x[-1]
+                self.normalize_orbitals()
         
     else:
         self.eig = np.array([-1 / np.finfo(float).eps])
-- 
2.43.0


From 0498c2c442fc7610dda6bcbec3ccd7cac23ea9c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:29 +0000
Subject: [PATCH 09/45] fix: response of a fractionally occupied orbital

---
 CADMium/pssolver/calc_response.py | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/CADMium/pssolver/calc_response.py b/CADMium/pssolver/calc_response.py
index 464d725..d6cbd83 100644
--- a/CADMium/pssolver/calc_response.py
+++ b/CADMium/pssolver/calc_response.py
@@ -69,8 +69,7 @@ def calc_response(self):
     #If we are doing a fractional orbitals and are non-integer
     # if self.FRACTIONAL is True and nu != 0:
     if self.optSolver.fractional is  True and nu != 0:
-        print("Warning, you may need to confirm calc_response in CADMium")
-        j = Nocc + 1
+        j = int(Nocc)
 
         #Select the orbital and normalize
         phi_j = self.phi[:, j] / self.grid.integrate( self.phi[:, j]**2 )**0.5
@@ -87,16 +86,10 @@ def calc_response(self):
         A = csc_vstack(( A_inside_1, A_inside_2 ))
         A = csc_matrix(A)
 
-        lu = splu(A)
-        #Take matrox L and U from decomposition
-        L = lu.L.A
-        U = lu.U.A
-
-        #Solve linear equation
-        x = spsolve( U , spsolve(L, rhs))
+        x = spsolve(A, rhs)
 
         #Add orbital density response into total response
-        self.chi += self.chi + nu * 2 * PHI * x[0:Nelem, 0:Nelem]
+        self.chi += nu * 2 * PHI @ x[0:Nelem, 0:Nelem]
 
     #Scale responses accordingly
     if self.pol == 1:
-- 
2.43.0


From d51697830c76a553c3324615aed9bfd76dc58a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:29 +0000
Subject: [PATCH 10/45] fix: response of m>0 orbitals misses the +-m degeneracy

---
 CADMium/pssolver/calc_response.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/CADMium/pssolver/calc_response.py b/CADMium/pssolver/calc_response.py
index d6cbd83..78c6b41 100644
--- a/CADMium/pssolver/calc_response.py
+++ b/CADMium/pssolver/calc_response.py
@@ -95,4 +95,8 @@ def calc_response(self):
     if self.pol == 1:
         self.chi = 2 * self.chi
 
+    #m>0 orbitals hold twice as many electrons due to +-m symmetry
+    if self.m > 0:
+        self.chi = 2 * self.chi
+
 
-- 
2.43.0


From d431957ee878746515533759eddc41720151ae33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:29 +0000
Subject: [PATCH 11/45] fix: Kohnsham.scf silently ignored option names that
 are not lower case

---
 CADMium/kohnsham/scf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/kohnsham/scf.py b/CADMium/kohnsham/scf.py
index 62c753d..3a3200d 100644
--- a/CADMium/kohnsham/scf.py
+++ b/CADMium/kohnsham/scf.py
@@ -23,8 +23,8 @@ def scf(self, optKS):
     SCF method to handle self consistent field calculations
     """
 
+    optKS =  {k.lower(): v for k, v in optKS.items()}
     for i in optKS.keys():
-        i = i.lower()
         if i not in KohnShamSCFOptions().dict().keys():
             raise ValueError(f"{i} is not a valid option for the SCF procedure")
     optKS = KohnShamSCFOptions(**optKS)
-- 
2.43.0


From 944dd218a228d19c2cfd258385a4817dc9f2a1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:29 +0000
Subject: [PATCH 12/45] fix: auto_tol option raised NameError/TypeError in both
 SCF loops

---
 CADMium/kohnsham/scf.py  | 4 ++--
 CADMium/partition/scf.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/CADMium/kohnsham/scf.py b/CADMium/kohnsham/scf.py
index 3a3200d..40ef362 100644
--- a/CADMium/kohnsham/scf.py
+++ b/CADMium/kohnsham/scf.py
@@ -61,7 +61,7 @@ def scf(self, optKS):
         num_iter_not_min = 0
 
 
-    while (diff > optKS.e_tol or optKS.auto_tol == True and num_iter_not_min < opt.KS.auto_tol_iter) and iter < optKS.maxiter:
+    while (diff > optKS.e_tol or optKS.auto_tol == True and num_iter_not_min < optKS.auto_tol_iter) and iter < optKS.maxiter:
 
 
         #Calculate and set new effective potential:
@@ -104,7 +104,7 @@ def scf(self, optKS):
         old_n = self.n
 
         if optKS.auto_tol is True:
-            if dif < min_dif:
+            if diff < min_dif:
                 num_iter_not_min = 0
                 min_dif = diff
             else:
diff --git a/CADMium/partition/scf.py b/CADMium/partition/scf.py
index 31f2c22..1caa474 100644
--- a/CADMium/partition/scf.py
+++ b/CADMium/partition/scf.py
@@ -139,7 +139,7 @@ def scf(self, optSCF={}):
 
     #-----> SCF Procedure Begins
     while (dif > optSCF.e_tol 
-           or (optSCF.auto_tol is True and num_iter_not_min < self.optPartition["AutoTolIter"])) \
+           or (optSCF.auto_tol is True and num_iter_not_min < optSCF.auto_tol_iter)) \
            and iterations <= optSCF.max_iter                                                     \
            and STOP is False:
 
-- 
2.43.0


From 76a1719f30cf0d6a506a2d7bb3ece1a3a20778b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:29 +0000
Subject: [PATCH 13/45] fix: set_veff_external distributes the potential it is
 given

---
 CADMium/kohnsham/kohnsham.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/kohnsham/kohnsham.py b/CADMium/kohnsham/kohnsham.py
index fa6c7b7..0711d21 100644
--- a/CADMium/kohnsham/kohnsham.py
+++ b/CADMium/kohnsham/kohnsham.py
@@ -181,7 +181,7 @@ class Kohnsham():
         """
         for j in range(self.Nmo.shape[1]):
             for i in range(self.Nmo.shape[0]):
-                self.solver[i,j].setveff(self.veff[:,j])
+                self.solver[i,j].setveff(veff[:,j])
 
     def calc_density(self, ITERATIVE=False, dif=0.0):
         """
-- 
2.43.0


From a6ff1893a635caf3e9512436c669fb82ba62070e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:55:44 +0000
Subject: [PATCH 14/45] fix: ensemble energy of fragment B counted one
 component twice and dropped the other

---
 CADMium/partition/energy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/partition/energy.py b/CADMium/partition/energy.py
index eca7c39..7c7f98e 100644
--- a/CADMium/partition/energy.py
+++ b/CADMium/partition/energy.py
@@ -24,7 +24,7 @@ def energy(self):
         iks_b = [self.KSb]
     else:
         iks_a = [self.KSa, self.KSA]
-        iks_b = [self.KSB, self.KSB]
+        iks_b = [self.KSb, self.KSB]
 
     for i_KS in iks_a:
         if i_KS.E is None:
-- 
2.43.0


From 0c6d20de4e69e084dcd94bc0c9274036aa124345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:30 +0000
Subject: [PATCH 15/45] fix: von Weizsacker partition kinetic energy (sign of
 the molecular term, misplaced parenthesis in the fragment term)

---
 CADMium/partition/ep_kinetic.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/CADMium/partition/ep_kinetic.py b/CADMium/partition/ep_kinetic.py
index b15adc9..57eb874 100644
--- a/CADMium/partition/ep_kinetic.py
+++ b/CADMium/partition/ep_kinetic.py
@@ -13,7 +13,7 @@ def ep_kinetic(self):
         #Use the von-Weizacker inversion
         Tsm =   (2 * np.pi * self.grid.hr * self.grid.ha ) \
               * np.sum(self.grid.wi * np.sum(self.nf, axis=1)**0.5 \
-              * (0.5 * self.grid.elap @ np.sum(self.nf, axis=1)**0.5))
+              * (-0.5 * self.grid.elap @ np.sum(self.nf, axis=1)**0.5))
 
         tsm =   (np.sum(self.nf, axis=1)**(-0.5)) / self.grid.w \
               * (-0.5 * self.grid.elap @ np.sum(self.nf, axis=1)**0.5 )
@@ -30,8 +30,8 @@ def ep_kinetic(self):
 
         for i_KS in iks:
             Tsf += i_KS.scale * ( 2 * np.pi * self.grid.hr * self.grid.ha ) \
-                              * np.sum( self.grid.wi * np.sum(i_KS.n, axis=1)**0.5 ) \
-                              * ( -0.5 * self.grid.elap @ np.sum(i_KS.n, axis=1)**0.5 )
+                              * np.sum( self.grid.wi * np.sum(i_KS.n, axis=1)**0.5 \
+                              * ( -0.5 * self.grid.elap @ np.sum(i_KS.n, axis=1)**0.5 ) )
 
             i_KS.V.ts = np.sum( i_KS.n, axis=1 )**(-0.5) / self.grid.w \
                         * (-0.5 * self.grid.elap @ np.sum( i_KS.n, axis=1 )**0.5)
-- 
2.43.0


From f3ffdb4b1de60d199521252b5518d5b275b896cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:40 +0000
Subject: [PATCH 16/45] fix: two-orbital kinetic potential misses phi1 in the
 normalisation term

---
 CADMium/partition/vp_kinetic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/partition/vp_kinetic.py b/CADMium/partition/vp_kinetic.py
index 2a6a3aa..45cb871 100644
--- a/CADMium/partition/vp_kinetic.py
+++ b/CADMium/partition/vp_kinetic.py
@@ -142,7 +142,7 @@ def vp_kinetic(self):
         dTO_dphi2 = (eT @ phi2) / self.grid.w[:,None]
 
         # Functional derivative of KEF wrt density one
-        dTO1_dn1 =  (1/2) * (C * n1)**(-0.5) * ( dTO_dphi1 - phi1 * self.grid.integrate( (       dTO_dphi1)[:,0] ))
+        dTO1_dn1 =  (1/2) * (C * n1)**(-0.5) * ( dTO_dphi1 - phi1 * self.grid.integrate( (phi1 * dTO_dphi1)[:,0] ))
         dTO1_dn2 = -(1/2) * (C * n2)**(-0.5) * ( dTO_dphi1 - phi1 * self.grid.integrate( (phi1 * dTO_dphi1)[:,0] ))
 
         dTO2_dn1 = dTO_dphi2 * ( (1/4 - 1/2*(C * n1)**(-0.5)*phi1) /phi2) + 0.5 * (phi1/(C*n1)**(0.5)) * self.grid.integrate( (phi1**2 / phi2 * dTO_dphi2)[:,0] )
-- 
2.43.0


From 65aced360543edf2ec5b33ee16236fae190c2bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:42 +0000
Subject: [PATCH 17/45] fix: two-orbital kinetic potential is the derivative of
 the two-orbital energy, not half of it

---
 CADMium/partition/vp_kinetic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CADMium/partition/vp_kinetic.py b/CADMium/partition/vp_kinetic.py
index 45cb871..1e6d395 100644
--- a/CADMium/partition/vp_kinetic.py
+++ b/CADMium/partition/vp_kinetic.py
@@ -129,7 +129,7 @@ def vp_kinetic(self):
             iks = [self.KSa, self.KSA, self.KSb, self.KSB]
 
         for i_KS in iks:
-            i_KS.V.vt = (eT @ i_KS.n ** 0.5) / (2 * self.grid.w[:,None] * i_KS.n**0.5)
+            i_KS.V.vt = (eT @ i_KS.n ** 0.5) / (self.grid.w[:,None] * i_KS.n**0.5)
 
         integrand = (n1**(0.5) - n2**(0.5))**2
         C = self.grid.integrate( np.sum(integrand, axis=1)  ) # If pol == 2 we may need to sum axis ==1 
@@ -148,7 +148,7 @@ def vp_kinetic(self):
         dTO2_dn1 = dTO_dphi2 * ( (1/4 - 1/2*(C * n1)**(-0.5)*phi1) /phi2) + 0.5 * (phi1/(C*n1)**(0.5)) * self.grid.integrate( (phi1**2 / phi2 * dTO_dphi2)[:,0] )
         dTO2_dn2 = dTO_dphi2 * ( (1/4 + 1/2*(C * n2)**(-0.5)*phi1) /phi2) - 0.5 * (phi1/(C*n2)**(0.5)) * self.grid.integrate( (phi1**2 / phi2 * dTO_dphi2)[:,0] )
 
-        self.V.vt = 2 * np.concatenate( (dTO1_dn1 + dTO2_dn1, dTO1_dn2 + dTO2_dn2), axis=1 )
+        self.V.vt = 4 * np.concatenate( (dTO1_dn1 + dTO2_dn1, dTO1_dn2 + dTO2_dn2), axis=1 )
 
     elif self.optPartition.kinetic_part_type == "fixed":
         pass
-- 
2.43.0


From 6fac0954495b64049675e8548d3bfdc0613fd5d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:42 +0000
Subject: [PATCH 18/45] fix: ensemble-corrected Hartree energy crashed outside
 two-component ensembles

---
 CADMium/partition/EnsCorHar.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/CADMium/partition/EnsCorHar.py b/CADMium/partition/EnsCorHar.py
index d43e9c9..fe7ad85 100644
--- a/CADMium/partition/EnsCorHar.py
+++ b/CADMium/partition/EnsCorHar.py
@@ -7,15 +7,15 @@ import numpy as np
 
 def EnsCorHar(self):
     if not self.ens:  # No Ensemble
-        if not self.optPartiton.ens_spin_sym: #Not ENS Spin Symmetry
+        if not self.optPartition.ens_spin_sym: #Not ENS Spin Symmetry
             self.KSa.E.Ehcor = 0.0
             self.KSb.E.Ehcor = 0.0
             self.KSa.V.vhcor = np.zeros_like( self.KSa.V.vh )
             self.KSb.V.vhcor = np.zeros_like( self.KSb.V.vh )
             self.E.Ehcor = 0.0
         else:                                 #With ENS Spin Symmetry
-            self.KSa.E.Ehcor = self.grid.integrate( np.sum(self.KSa.n * self.grid.spinflip(self.KSb.V.vh) ))   / 2.0
-            self.KSb.E.Ehcor = self.grid.integrate( np.sum(self.KSb.n * self.grid.spinflip(self.KSa.V.vh) ))   / 2.0
+            self.KSa.E.Ehcor = self.grid.integrate( np.sum(self.KSa.n * self.grid.spinflip(self.KSb.V.vh), axis=1 ))   / 2.0
+            self.KSb.E.Ehcor = self.grid.integrate( np.sum(self.KSb.n * self.grid.spinflip(self.KSa.V.vh), axis=1 ))   / 2.0
             self.KSa.V.vhcor = self.grid.spinflip( self.KSb.V.vh )
             self.KSb.V.vhcor = self.grid.spinflip( self.KSa.V.vh )
             self.E.Ehcor = 0.0
-- 
2.43.0


From 16e6176f582a10de53e677f0da9071e7b08785b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:57:42 +0000
Subject: [PATCH 19/45] fix: sign of the ensemble-corrected Hartree term in the
 overlap_hxc potential

---
 CADMium/partition/vp_hxc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/partition/vp_hxc.py b/CADMium/partition/vp_hxc.py
index a6b6458..6bf938d 100644
--- a/CADMium/partition/vp_hxc.py
+++ b/CADMium/partition/vp_hxc.py
@@ -81,7 +81,7 @@ def vp_hxc(self):
             i_KS.V.vp_hxc = self.E.F * (i_KS.V.vp_h + i_KS.V.vp_x + i_KS.V.vp_c) + \
                             + (self.E.Ep_h + self.E.Ep_x + self.E.Ep_c) * i_KS.V.dFdn \
                             + (1 - self.E.F) * (i_KS.V.vhcor) \
-                            + (self.E.Ehcor) * i_KS.V.dFdn
+                            - (self.E.Ehcor) * i_KS.V.dFdn
 
     # elif self.optPartition.hxc_part_type == "overlap_hxc_2":
     #     #Overlap approximation for H2p
-- 
2.43.0


From dda09b588772b248ed22c21d28ac118e7671468f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:03 +0000
Subject: [PATCH 20/45] fix: derivative of the fragment overlap (total
 densities, no ensemble weight)

---
 CADMium/partition/vp_overlap.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/CADMium/partition/vp_overlap.py b/CADMium/partition/vp_overlap.py
index 9313a0b..7f32bd1 100644
--- a/CADMium/partition/vp_overlap.py
+++ b/CADMium/partition/vp_overlap.py
@@ -23,9 +23,8 @@ def vp_overlap(self):
     
     for KSa in iksa:
         #Functional derivative of the overlap
-        KSa.V.dSdn = KSa.scale * 0.5 * (self.nb_frac / self.na_frac)**0.5
-        if self.optPartition is True:
-            KSa.V.dSdn = np.repeat(KSa.V.dSdn, 2, axis=1)
+        KSa.V.dSdn = 0.5 * (np.sum(self.nb_frac, axis=1) / np.sum(self.na_frac, axis=1))[:,None]**0.5
+        KSa.V.dSdn = np.repeat(KSa.V.dSdn, self.pol, axis=1)
         #Remove any Nans
         KSa.V.dSdn[ np.isinf(KSa.V.dSdn) ] = 0.0
         KSa.V.dSdn[ np.isnan(KSa.V.dSdn) ] = 0.0
@@ -33,9 +32,8 @@ def vp_overlap(self):
 
     for KSb in iksb:
         #Functional derivative of the overlap
-        KSb.V.dSdn = KSb.scale * 0.5 *  (self.na_frac / self.nb_frac)**0.5
-        if self.optPartition is True:
-            KSb.V.dSdn = np.repeat(KSb.V.dSdn, 2, axis=1)
+        KSb.V.dSdn = 0.5 * (np.sum(self.na_frac, axis=1) / np.sum(self.nb_frac, axis=1))[:,None]**0.5
+        KSb.V.dSdn = np.repeat(KSb.V.dSdn, self.pol, axis=1)
         #Remove any Nans
         KSb.V.dSdn[ np.isinf(KSb.V.dSdn) ] = 0.0
         KSb.V.dSdn[ np.isnan(KSb.V.dSdn) ] = 0.0
-- 
2.43.0


From b4492c030e19d8eeab1e8b42e8c3c0c81034aadb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:45 +0000
Subject: [PATCH 21/45] fix: fragment Hartree energy density of an AB-symmetric
 ensemble was mirrored once per component

---
 CADMium/partition/ep_hxc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/partition/ep_hxc.py b/CADMium/partition/ep_hxc.py
index 79ead77..9acd1d1 100644
--- a/CADMium/partition/ep_hxc.py
+++ b/CADMium/partition/ep_hxc.py
@@ -28,7 +28,7 @@ def ep_hxc(self):
             for i_KS in iks:
                 if hasattr(i_KS.V, "frozen") is False or i_KS.V.frozen is False:
                     ehf += np.sum( i_KS.Q, axis=1 )[:,None] * i_KS.V.eh[:, None]
-                ehf += self.grid.mirror(ehf)
+            ehf += self.grid.mirror(ehf)
 
         else:
             if not self.ens:
-- 
2.43.0


From 55eccac0f1319cebb3354d60b971284474000af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:45 +0000
Subject: [PATCH 22/45] fix: inversion kinetic potential ignored the HOMO of
 fragment A

---
 CADMium/partition/vp_kinetic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CADMium/partition/vp_kinetic.py b/CADMium/partition/vp_kinetic.py
index 1e6d395..d1c711a 100644
--- a/CADMium/partition/vp_kinetic.py
+++ b/CADMium/partition/vp_kinetic.py
@@ -61,7 +61,7 @@ def vp_kinetic(self):
                 if self.KSa.solver[i,j].homo is not None:
                     ua = np.max( (ua, self.KSa.solver[i,j].homo) )
                 if self.KSb.solver[i,j].homo is not None:
-                    ua = np.max( (ub, self.KSb.solver[i,j].homo) )
+                    ub = np.max( (ub, self.KSb.solver[i,j].homo) )
 
         if self.ens:
             for i in range(self.Nmo_A.shape[0]):
@@ -69,7 +69,7 @@ def vp_kinetic(self):
                     if self.KSA.solver[i,j].homo is not None:
                         ua = np.max( (ua, self.KSA.solver[i,j].homo) )
                     if self.KSB.solver[i,j].homo is not None:
-                        ua = np.max( (ub, self.KSB.solver[i,j].homo) )
+                        ub = np.max( (ub, self.KSB.solver[i,j].homo) )
         u = np.max((ua, ub))
         nspin = self.pol - 1
 
-- 
2.43.0


From ac94fa91152503a5070a874e9cee28d4c0705d96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:45 +0000
Subject: [PATCH 23/45] fix: ensemble fragments were not created when only one
 mixing ratio is 1

---
 CADMium/partition/partition.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/partition/partition.py b/CADMium/partition/partition.py
index 5e6f118..14d5524 100644
--- a/CADMium/partition/partition.py
+++ b/CADMium/partition/partition.py
@@ -256,7 +256,7 @@ class Partition():
 
         self.KSa = Kohnsham(self.grid, self.Za, 0, self.pol, self.Nmo_a, self.N_a, optKS)
         self.KSb = Kohnsham(self.grid, 0, self.Zb, self.pol, self.Nmo_b, self.N_b, optKS)
-        if self.nu_a != 1.0 and self.nu_b != 1.0:
+        if self.ens:
 
             self.KSA = Kohnsham(self.grid, self.Za, 0, self.pol, self.Nmo_A, self.N_A, optKS)
             self.KSB = Kohnsham(self.grid, 0, self.Zb, self.pol, self.Nmo_B, self.N_B, optKS)
-- 
2.43.0


From a83af45b96f2418f2b64a550bffcabd931e0d78a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:45 +0000
Subject: [PATCH 24/45] fix: inverter kinetic energy density kept only the last
 angular momentum

---
 CADMium/inverter/get_ts_WFI.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CADMium/inverter/get_ts_WFI.py b/CADMium/inverter/get_ts_WFI.py
index e58e3e6..5190b5e 100644
--- a/CADMium/inverter/get_ts_WFI.py
+++ b/CADMium/inverter/get_ts_WFI.py
@@ -23,7 +23,7 @@ def get_ts_WFI(self):
         for i in range(self.solver.shape[0]):
             for j in range(self.solver.shape[1]):
                 if self.solver[i,j].ked_WFI is not None:
-                    ts[:,j] = np.sum( self.solver[i,j].ked_WFI, axis=1 ) 
+                    ts[:,j] += np.sum( self.solver[i,j].ked_WFI, axis=1 ) 
 
     else:
         for i in range(self.solver.shape[0]):
@@ -33,6 +33,6 @@ def get_ts_WFI(self):
         for i in range(self.solver.shape[0]):
             for j in range(self.solver.shape[1]):
                 if self.solver[i,j].ked_WFI is not None:
-                    ts[:,j] = np.sum( self.solver[i,j].ked_WFI, axis=1 ) 
+                    ts[:,j] += np.sum( self.solver[i,j].ked_WFI, axis=1 ) 
 
     return ts
\ No newline at end of file
-- 
2.43.0


From 465794619cd4337809d4c6868c62ce2cf37def20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:45 +0000
Subject: [PATCH 25/45] fix: inverter Jacobian only contained the m=0 response

---
 CADMium/inverter/inverter.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CADMium/inverter/inverter.py b/CADMium/inverter/inverter.py
index 2cbebc8..63af06c 100644
--- a/CADMium/inverter/inverter.py
+++ b/CADMium/inverter/inverter.py
@@ -209,7 +209,8 @@ class Inverter():
         """
 
         #Calculate jacobian of error function.
-        Jac = np.vstack( ( self.B @ self.solver[0,spin].chi, np.zeros((1, self.Nelem)) ) )
+        chi = sum(self.solver[i,spin].chi for i in range(self.solver.shape[0]))
+        Jac = np.vstack( ( self.B @ chi, np.zeros((1, self.Nelem)) ) )
         Jac = np.asarray(Jac)
         Jac[-1, -1] = 1
 
-- 
2.43.0


From fe6be52ffa916b9048057dad37cafe58d0674181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:45 +0000
Subject: [PATCH 26/45] fix: default starting potential of the wuyang inversion

---
 CADMium/inverter/linresponse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CADMium/inverter/linresponse.py b/CADMium/inverter/linresponse.py
index d3a052b..9cdf63a 100644
--- a/CADMium/inverter/linresponse.py
+++ b/CADMium/inverter/linresponse.py
@@ -18,14 +18,14 @@ def linresponse(self, n0, vs0=None):
     self.pol = pol
     self.n0  = n0
     Nelem = n0.shape[0]
-    w = self.grid.w if pol == 1 else np.hstack((self.grid.w, self.grid.w))
+    w = self.grid.w[:, None]
     
     if self.solver[0,0].veff is None:
         if vs0 is None:
             #If no initial guess is provided
             #Use the von weizacker inversion
             vs0 = (0.5 * self.grid.elap @ (n0**0.5)) / (n0**0.5 * w) 
-            vs0 -= vs[-1]
+            vs0 -= vs0[-1]
     else:
         vs0 = self.solver[0,0].veff[:,None] if len(self.solver[0,0].veff.shape) == 1 else self.solver[0,0].veff
 
-- 
2.43.0


From 28c17f7827c1a1bdf4c47e114f6e78aee8f6d1bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:07:45 +0000
Subject: [PATCH 27/45] fix: wuyang inversion of two spin columns

---
 CADMium/inverter/linresponse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CADMium/inverter/linresponse.py b/CADMium/inverter/linresponse.py
index 9cdf63a..151851b 100644
--- a/CADMium/inverter/linresponse.py
+++ b/CADMium/inverter/linresponse.py
@@ -27,7 +27,7 @@ def linresponse(self, n0, vs0=None):
             vs0 = (0.5 * self.grid.elap @ (n0**0.5)) / (n0**0.5 * w) 
             vs0 -= vs0[-1]
     else:
-        vs0 = self.solver[0,0].veff[:,None] if len(self.solver[0,0].veff.shape) == 1 else self.solver[0,0].veff
+        vs0 = np.stack([self.solver[0,i].veff for i in range(pol)], axis=1) if len(self.solver[0,0].veff.shape) == 1 else self.solver[0,0].veff
 
     self.vs = np.zeros_like(vs0)
     self.us = np.zeros((1, pol))
@@ -91,7 +91,7 @@ def linresponse(self, n0, vs0=None):
                 output[j,i] = res_lsq
 
             self.vs[:,i] = res_lsq.x
-            self.us[i]   = self.solver[0,i].get_homo()
+            self.us[0,i] = self.solver[0,i].get_homo()
 
 
     return flag, output
-- 
2.43.0


From e149b3a47da92483da9b4a7163ceba08d930e95e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:17:09 +0000
Subject: [PATCH 28/45] fix: end corrections of a single integration block
 overwrote each other

---
 CADMium/common/NC.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CADMium/common/NC.py b/CADMium/common/NC.py
index 6f975b2..612beb4 100644
--- a/CADMium/common/NC.py
+++ b/CADMium/common/NC.py
@@ -29,8 +29,8 @@ def NC(N, Nm):
 
     NP = (N-1) * Nm + 1
     wi = np.zeros(NP)
-    wi[:N-1] = w1[:]
-    wi[-(N-1):] = w1[::-1]
+    wi[:N-1] += w1[:]
+    wi[-(N-1):] += w1[::-1]
 
     for i in range(Nm):
         wi[np.array(range(N))+(N-1)*(i)] = wi[np.array(range(N))+(N-1)*(i)] + w
-- 
2.43.0


From b4eb557add74ac154622ff3f288b71411661ff6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:01 +0000
Subject: [PATCH 29/45] fix: symmetric start vector made the eigensolver miss
 odd orbitals

---
 CADMium/pssolver/pssolver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CADMium/pssolver/pssolver.py b/CADMium/pssolver/pssolver.py
index 7040aa7..49128d2 100644
--- a/CADMium/pssolver/pssolver.py
+++ b/CADMium/pssolver/pssolver.py
@@ -83,7 +83,8 @@ class i_solver():
         self.v0 = np.ones(self.grid.Nelem)
         # self.default_e0 = -20.0
 
-        self.opt = {"tol" : 1e-16, "v0":np.ones((self.grid.Nelem, 1))}
+        #A start vector without mirror symmetry: an even one can miss odd orbitals of homonuclear molecules
+        self.opt = {"tol" : 1e-16, "v0":np.linspace(1, 2, self.grid.Nelem)[:, None]}
 
         self.Nlvls = Nlvls
         self.pol = pol
-- 
2.43.0


From 4093cfe6df0e70321fff1e0f772d89d3c7aaf4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:31:58 +0000
Subject: [PATCH 30/45] fix: refined orbitals were left out of level order
 after a crossing

---
 CADMium/pssolver/iter_orbitals.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/CADMium/pssolver/iter_orbitals.py b/CADMium/pssolver/iter_orbitals.py
index 4bc8e95..0e80417 100644
--- a/CADMium/pssolver/iter_orbitals.py
+++ b/CADMium/pssolver/iter_orbitals.py
@@ -57,6 +57,11 @@ def iter_orbitals(self, solver_id, return_dict):
                 self.phi[:, j] -= x[:Nelem]
                 self.eig[j]    -= x[-1]
                 self.normalize_orbitals()
+
+        #Refinement follows each orbital, levels may have crossed
+        indx = self.eig.argsort()
+        self.eig = self.eig[indx]
+        self.phi = self.phi[:,indx]
         
     else:
         self.eig = np.array([-1 / np.finfo(float).eps])
-- 
2.43.0


From c761a24dd54baadda280a8169be22a46adff8f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:58:45 +0000
Subject: [PATCH 31/45] fix: orbital refinement could return the same orbital
 twice

---
 CADMium/pssolver/iter_orbitals.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/CADMium/pssolver/iter_orbitals.py b/CADMium/pssolver/iter_orbitals.py
index 0e80417..e5b655a 100644
--- a/CADMium/pssolver/iter_orbitals.py
+++ b/CADMium/pssolver/iter_orbitals.py
@@ -58,6 +58,12 @@ def iter_orbitals(self, solver_id, return_dict):
                 self.eig[j]    -= x[-1]
                 self.normalize_orbitals()
 
+        #If two orbitals have been refined onto the same one, solve directly
+        norms = np.sqrt(np.sum(self.phi * (W @ self.phi), axis=0))
+        overlap = np.abs(self.phi.T @ (W @ self.phi)) / np.outer(norms, norms)
+        if np.any(np.triu(overlap, 1) > 0.5):
+            self.calc_orbitals()
+
         #Refinement follows each orbital, levels may have crossed
         indx = self.eig.argsort()
         self.eig = self.eig[indx]
-- 
2.43.0


From 8ad986619d8a422b2be16523ea49727b41d98e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:33 +0000
Subject: [PATCH 32/45] fix: SCF convergence ignored the density when one spin
 had no electrons

0/0 for the empty spin made the density measure nan, and max(dif_E, nan) is dif_E, so
the loop stopped on the energy alone.
---
 CADMium/kohnsham/scf.py  | 3 ++-
 CADMium/partition/scf.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/CADMium/kohnsham/scf.py b/CADMium/kohnsham/scf.py
index 40ef362..d7a44e6 100644
--- a/CADMium/kohnsham/scf.py
+++ b/CADMium/kohnsham/scf.py
@@ -96,7 +96,8 @@ def scf(self, optKS):
 
         #Convergence check
         dif_E = np.abs( (self.E.E - old_E) / self.E.E )
-        dif_n = np.max(  self.grid.integrate(np.abs(self.n - old_n)) / self.grid.integrate(np.abs(self.n))  )
+        #A spin without electrons gives 0/0 here and must not hide the change of the other one
+        dif_n = np.nanmax(  self.grid.integrate(np.abs(self.n - old_n)) / self.grid.integrate(np.abs(self.n))  )
 
 
         diff = max(dif_E, dif_n)
diff --git a/CADMium/partition/scf.py b/CADMium/partition/scf.py
index 1caa474..ac082b3 100644
--- a/CADMium/partition/scf.py
+++ b/CADMium/partition/scf.py
@@ -198,7 +198,8 @@ def scf(self, optSCF={}):
 
     #-----> Convergence Check
         dif_E  = np.abs( np.sum(self.E.E - old_E) / self.E.E )
-        dif_nf = np.max(self.grid.integrate(np.abs(self.nf-old_nf)) / self.grid.integrate(np.abs(self.nf)))
+        #A spin without electrons gives 0/0 here and must not hide the change of the other one
+        dif_nf = np.nanmax(self.grid.integrate(np.abs(self.nf-old_nf)) / self.grid.integrate(np.abs(self.nf)))
         dif    = max(dif_E, dif_nf)
         old_E  = self.E.E
         old_nf = self.nf
-- 
2.43.0


From 77ea3c29cce3c56053ebba8122af33d9ee880976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:20 +0000
Subject: [PATCH 33/45] fix: correlated Hartree energy of spin-symmetrised
 ensembles was halved

Each component stands for itself and its spin flipped copy, as the branch without
ensembles and the potential already account for.
---
 CADMium/partition/EnsCorHar.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/CADMium/partition/EnsCorHar.py b/CADMium/partition/EnsCorHar.py
index fe7ad85..dde6d8c 100644
--- a/CADMium/partition/EnsCorHar.py
+++ b/CADMium/partition/EnsCorHar.py
@@ -41,4 +41,7 @@ def EnsCorHar(self):
 
         self.E.Ehcor = 0.0
         for iks in [self.KSa, self.KSA, self.KSb, self.KSB]:
-            self.E.Ehcor += iks.scale * iks.E.Ehcor       
+            self.E.Ehcor += iks.scale * iks.E.Ehcor
+        #Scales were halved because each component is combined with its spin flipped one
+        if self.optPartition.ens_spin_sym:
+            self.E.Ehcor *= 2
-- 
2.43.0


From 9892ef477ac8438e9fd11bb324f92b7e121ba34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:24 +0000
Subject: [PATCH 34/45] fix: overlap partition functionals crashed in the first
 SCF cycle (fragment energies not computed yet)

---
 CADMium/partition/energy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CADMium/partition/energy.py b/CADMium/partition/energy.py
index 7c7f98e..4ddb70e 100644
--- a/CADMium/partition/energy.py
+++ b/CADMium/partition/energy.py
@@ -27,7 +27,7 @@ def energy(self):
         iks_b = [self.KSb, self.KSB]
 
     for i_KS in iks_a:
-        if i_KS.E is None:
+        if not hasattr(i_KS.E, 'Ts'):
             i_KS.energy()
 
         self.E.Ea += i_KS.scale * i_KS.E.E
@@ -52,7 +52,7 @@ def energy(self):
         self.E.Eb = 0.0
 
         for i_KS in iks_b:
-            if i_KS.E is None:
+            if not hasattr(i_KS.E, 'Ts'):
                 i_KS.energy()
 
             self.E.Eb += i_KS.scale * i_KS.E.E
-- 
2.43.0


From 3a94c290b9cf065cb2403b4fb6f4f3a74f40d82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:14:40 +0000
Subject: [PATCH 35/45] fix: kinetic energy density of both spins with
 ens_spin_sym inversions

---
 CADMium/inverter/get_ts_WFI.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/CADMium/inverter/get_ts_WFI.py b/CADMium/inverter/get_ts_WFI.py
index 5190b5e..3dd644e 100644
--- a/CADMium/inverter/get_ts_WFI.py
+++ b/CADMium/inverter/get_ts_WFI.py
@@ -29,10 +29,10 @@ def get_ts_WFI(self):
         for i in range(self.solver.shape[0]):
             self.solver[i,0].calc_ked_WFI()
 
-        #Get Kinetic Energy Density
+        #Get Kinetic Energy Density, the same for every spin
         for i in range(self.solver.shape[0]):
             for j in range(self.solver.shape[1]):
-                if self.solver[i,j].ked_WFI is not None:
-                    ts[:,j] += np.sum( self.solver[i,j].ked_WFI, axis=1 ) 
+                if self.solver[i,0].ked_WFI is not None:
+                    ts[:,j] += np.sum( self.solver[i,0].ked_WFI, axis=1 ) 
 
     return ts
\ No newline at end of file
-- 
2.43.0


From 158e69ef63ad582101712c5b763c657c6fd7575a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:15:01 +0000
Subject: [PATCH 36/45] fix: one potential per spin from ens_spin_sym
 inversions of two-column densities

---
 CADMium/inverter/linresponse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CADMium/inverter/linresponse.py b/CADMium/inverter/linresponse.py
index 151851b..bb5b067 100644
--- a/CADMium/inverter/linresponse.py
+++ b/CADMium/inverter/linresponse.py
@@ -61,8 +61,8 @@ def linresponse(self, n0, vs0=None):
         output[0,0] = res_lsq
 
         #Copy information
-        self.vs = np.hstack((self.vs, self.vs))
-        self.us = np.hstack((self.us, self.us))
+        self.vs = np.hstack((self.vs[:, :1], self.vs[:, :1]))
+        self.us = np.hstack((self.us[:, :1], self.us[:, :1]))
         self.solver[0,1].setveff(self.vs[:,0])
         flag[0,1] = res_lsq.status
         output[0,1] = res_lsq
-- 
2.43.0


From 6dd1eb7d0dada0ac42bd13af98a69290b5b4126b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:24 +0000
Subject: [PATCH 37/45] fix: a restarted partition calculation began from the
 orbitals of the previous run

The initial guess of a calculation that does not continue an earlier one is the
solution in the nuclear potential. With iterative=True it was instead one
refinement step from whatever orbitals the object already had, so the result
depended on earlier runs.
---
 CADMium/partition/scf.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/CADMium/partition/scf.py b/CADMium/partition/scf.py
index ac082b3..bd14f8c 100644
--- a/CADMium/partition/scf.py
+++ b/CADMium/partition/scf.py
@@ -113,7 +113,8 @@ def scf(self, optSCF={}):
             i_KS.vext = np.zeros_like(i_KS.vnuc)
             i_KS.vhxc = np.zeros_like(i_KS.vnuc)
             i_KS.set_effective_potential() # Sets nuclear potential
-            nout = i_KS.calc_density(optSCF.iterative)
+            #Orbitals of an earlier run belong to another potential, solve directly
+            nout = i_KS.calc_density()
             i_KS.n = nout
             i_KS.calc_chempot()
 
-- 
2.43.0


From 9211ae03ede0872a9f7c11cd624abeaf1977877f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:50 +0000
Subject: [PATCH 38/45] fix: typo in building the Hamiltonian of a solver on
 demand

---
 CADMium/pssolver/calc_orbitals.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/pssolver/calc_orbitals.py b/CADMium/pssolver/calc_orbitals.py
index af37616..f774796 100644
--- a/CADMium/pssolver/calc_orbitals.py
+++ b/CADMium/pssolver/calc_orbitals.py
@@ -29,7 +29,7 @@ def calc_orbitals(self, solver_id, return_dict):
         Veff = spdiags(data= W @ self.veff, diags=0, m=Nelem, n=Nelem)
 
         if self.H0 is None:
-            self.hamiltionian()
+            self.hamiltonian()
 
         #Construct Hamiltonian
         H = self.H0 + Veff
-- 
2.43.0


From 085837f0dfdfdcd01f2e8f52898998f1b4316b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:50 +0000
Subject: [PATCH 39/45] fix: chemical potential of an inversion ignored the
 other angular momenta

---
 CADMium/inverter/linresponse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/CADMium/inverter/linresponse.py b/CADMium/inverter/linresponse.py
index bb5b067..82f7476 100644
--- a/CADMium/inverter/linresponse.py
+++ b/CADMium/inverter/linresponse.py
@@ -56,7 +56,7 @@ def linresponse(self, n0, vs0=None):
 
         #Get solution from least squares object
         self.vs[:,0] = res_lsq.x
-        self.us[0] = self.solver[0,0].get_homo()
+        self.us[0] = max(self.solver[j,0].get_homo() for j in range(self.solver.shape[0]))
         flag[0,0] = res_lsq.status
         output[0,0] = res_lsq
 
@@ -91,7 +91,7 @@ def linresponse(self, n0, vs0=None):
                 output[j,i] = res_lsq
 
             self.vs[:,i] = res_lsq.x
-            self.us[0,i] = self.solver[0,i].get_homo()
+            self.us[0,i] = max(self.solver[j,i].get_homo() for j in range(self.solver.shape[0]))
 
 
     return flag, output
-- 
2.43.0


From 5aca80e4e67009a45b47d8beb2e910e8434b3e8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:50 +0000
Subject: [PATCH 40/45] fix: density inversion for fragments with different
 numbers of angular momenta

---
 CADMium/partition/initialguessinvert.py | 10 +++++-----
 CADMium/partition/vp_kinetic.py         | 24 ++++++++++++------------
 2 files changed, 17 insertions(+), 17 deletions(-)

diff --git a/CADMium/partition/initialguessinvert.py b/CADMium/partition/initialguessinvert.py
index 9ae016e..85da194 100644
--- a/CADMium/partition/initialguessinvert.py
+++ b/CADMium/partition/initialguessinvert.py
@@ -59,14 +59,14 @@ def initialguessinvert(self, ispin=0):
         m   = None
 
         #--> Alpha Kohn Sham object
-        if len( self.KSa.solver[:,ispin]) >= i-1:
+        if len( self.KSa.solver[:,ispin]) >= i:
             phi = np.append(phi, self.KSa.solver[i-1, ispin].phi, axis = 1 )
             self.KSa.solver[i-1, ispin].hamiltonian()
             H0  = self.KSa.solver[i-1, ispin].H0
-            m   = self.KSb.solver[i-1, ispin].m
+            m   = self.KSa.solver[i-1, ispin].m
 
         if self.ens: # Ensemble?
-            if len( self.KSA.solver[:,ispin]) >= i-1:
+            if len( self.KSA.solver[:,ispin]) >= i:
                 phi = np.append(phi, self.KSA.solver[i-1, ispin].phi, axis = 1)
                 self.KSA.solver[i-1, ispin].hamiltonian()
                 H0  = self.KSA.solver[i-1, ispin].H0
@@ -79,7 +79,7 @@ def initialguessinvert(self, ispin=0):
 
         #--> Beta Kohn Sham object
         else:
-            if len(self.KSb.solver) >= i-1:
+            if len(self.KSb.solver) >= i:
                 phi = np.append(phi, self.KSb.solver[i-1, ispin].phi, axis = 1 )
                 if H0 is None:
                     H0 = self.KSb.solver[i-1, ispin].H0
@@ -87,7 +87,7 @@ def initialguessinvert(self, ispin=0):
                     m = self.KSb.solver[i-1, ispin].m
             
             if self.ens: # Ensemble?
-                if len(self.KSB.solver) >= i-1:
+                if len(self.KSB.solver) >= i:
                     phi = np.append(phi, self.KSB.solver[i-1, ispin].phi, axis = 1 )
                     if H0 is None:
                         H0 = self.KSB.solver[i-1, ispin].H0
diff --git a/CADMium/partition/vp_kinetic.py b/CADMium/partition/vp_kinetic.py
index d1c711a..da32b09 100644
--- a/CADMium/partition/vp_kinetic.py
+++ b/CADMium/partition/vp_kinetic.py
@@ -56,20 +56,20 @@ def vp_kinetic(self):
         ua, ub = -1 / np.spacing(1), -1 / np.spacing(1)
 
         #Check the values of each solver's homos and pick the largest
-        for i in range(self.Nmo_a.shape[0]):
-            for j in range(self.Nmo_a.shape[1]):
-                if self.KSa.solver[i,j].homo is not None:
-                    ua = np.max( (ua, self.KSa.solver[i,j].homo) )
-                if self.KSb.solver[i,j].homo is not None:
-                    ub = np.max( (ub, self.KSb.solver[i,j].homo) )
+        for solver in self.KSa.solver.ravel():
+            if solver.homo is not None:
+                ua = np.max( (ua, solver.homo) )
+        for solver in self.KSb.solver.ravel():
+            if solver.homo is not None:
+                ub = np.max( (ub, solver.homo) )
 
         if self.ens:
-            for i in range(self.Nmo_A.shape[0]):
-                for j in range(self.Nmo_A.shape[1]):
-                    if self.KSA.solver[i,j].homo is not None:
-                        ua = np.max( (ua, self.KSA.solver[i,j].homo) )
-                    if self.KSB.solver[i,j].homo is not None:
-                        ub = np.max( (ub, self.KSB.solver[i,j].homo) )
+            for solver in self.KSA.solver.ravel():
+                if solver.homo is not None:
+                    ua = np.max( (ua, solver.homo) )
+            for solver in self.KSB.solver.ravel():
+                if solver.homo is not None:
+                    ub = np.max( (ub, solver.homo) )
         u = np.max((ua, ub))
         nspin = self.pol - 1
 
-- 
2.43.0


From a9bf7838dc33a68c99f8a6edb089b5ae2ef7c32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:50 +0000
Subject: [PATCH 41/45] fix: kinetic energy density of fragments from their
 inversion orbitals

---
 CADMium/partition/ep_kinetic.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/CADMium/partition/ep_kinetic.py b/CADMium/partition/ep_kinetic.py
index 57eb874..9487ad5 100644
--- a/CADMium/partition/ep_kinetic.py
+++ b/CADMium/partition/ep_kinetic.py
@@ -69,7 +69,6 @@ def ep_kinetic(self):
         #Evaluate kinetic energy for fragments
         Tsf = 0.0
         tsf = np.zeros_like(tsm)
-        tsf = tsf[:, None]
 
         if self.optPartition.ab_sym is not True:
             if not self.ens:
@@ -86,7 +85,6 @@ def ep_kinetic(self):
             assert i_KS.E.Ts != None, ("Fragment energies must be evaluated before partition energy")
             Tsf += i_KS.scale * i_KS.E.Ts
             
-            i_KS.V.ts = np.zeros_like( i_KS.n )
             ts = np.zeros((self.grid.Nelem, self.pol))
 
             for i in range(i_KS.solver.shape[0]):
@@ -97,13 +95,11 @@ def ep_kinetic(self):
             for i in range(i_KS.solver.shape[0]):
                 for j in range(i_KS.solver.shape[1]):
                     if i_KS.solver[i,j].ked_WFI is not None:
-                        ts[:,j] = np.sum( i_KS.solver[i,j].ked_WFI, axis=1 ) 
+                        ts[:,j] += np.sum( i_KS.solver[i,j].ked_WFI, axis=1 ) 
 
-            for i in range(i_KS.solver.shape[0]):
-                for j in range(i_KS.solver.shape[1]):
-                    i_KS.V.ts += np.sum( ts, axis=1)[:,None] / np.sum(i_KS.n, axis=1)[:,None]
+            i_KS.V.ts = np.sum( ts, axis=1 )[:,None] / np.sum( i_KS.n, axis=1 )[:,None]
 
-            tsf += i_KS.scale * np.sum( i_KS.Q, axis=1 )[:,None] * np.sum( i_KS.V.ts, axis=1 )[:,None]
+            tsf += i_KS.scale * np.sum( i_KS.Q, axis=1 ) * i_KS.V.ts[:,0]
 
         if self.optPartition.ab_sym is True:
             tsf += self.grid.mirror(tsf)
-- 
2.43.0


From f6fb23a688c774f8b56e7d7fd7195dfd48c478a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:50 +0000
Subject: [PATCH 42/45] fix: ensemble weight counted twice in the partition
 kinetic energy density

---
 CADMium/partition/ep_kinetic.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/CADMium/partition/ep_kinetic.py b/CADMium/partition/ep_kinetic.py
index 9487ad5..d18f8e1 100644
--- a/CADMium/partition/ep_kinetic.py
+++ b/CADMium/partition/ep_kinetic.py
@@ -36,7 +36,7 @@ def ep_kinetic(self):
             i_KS.V.ts = np.sum( i_KS.n, axis=1 )**(-0.5) / self.grid.w \
                         * (-0.5 * self.grid.elap @ np.sum( i_KS.n, axis=1 )**0.5)
 
-            tsf += i_KS.scale * np.sum(i_KS.Q, axis=1) * i_KS.V.ts
+            tsf += np.sum(i_KS.Q, axis=1) * i_KS.V.ts
 
     elif self.optPartition.kinetic_part_type == "libxcke" or \
          self.optPartition.kinetic_part_type == "paramke":
@@ -59,7 +59,7 @@ def ep_kinetic(self):
         # Ts and ts for fragments obtained in ep_kinetic
         for iKS in iks:
             Tsf += iKS.scale * iKS.V.Ts
-            tsf += iKS.scale * np.sum( iKS.Q, axis=1 ) * iKS.V.ts[:,0]
+            tsf += np.sum( iKS.Q, axis=1 ) * iKS.V.ts[:,0]
 
     elif self.optPartition.kinetic_part_type == "inversion":
         
@@ -99,7 +99,7 @@ def ep_kinetic(self):
 
             i_KS.V.ts = np.sum( ts, axis=1 )[:,None] / np.sum( i_KS.n, axis=1 )[:,None]
 
-            tsf += i_KS.scale * np.sum( i_KS.Q, axis=1 ) * i_KS.V.ts[:,0]
+            tsf += np.sum( i_KS.Q, axis=1 ) * i_KS.V.ts[:,0]
 
         if self.optPartition.ab_sym is True:
             tsf += self.grid.mirror(tsf)
-- 
2.43.0


From 63379bc42a7e618bbf9c9037cf050b5a39641b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:27 +0000
Subject: [PATCH 43/45] fix: kinetic energy density of partitions with a
 component without electrons

Ensembles whose lower component holds no electrons (H2+ as 0 and 1 electrons)
gave NaN everywhere in V.ep_kin: the energy per particle of the empty
component is 0/0.
---
 CADMium/partition/ep_kinetic.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/CADMium/partition/ep_kinetic.py b/CADMium/partition/ep_kinetic.py
index d18f8e1..df874c9 100644
--- a/CADMium/partition/ep_kinetic.py
+++ b/CADMium/partition/ep_kinetic.py
@@ -35,6 +35,8 @@ def ep_kinetic(self):
 
             i_KS.V.ts = np.sum( i_KS.n, axis=1 )**(-0.5) / self.grid.w \
                         * (-0.5 * self.grid.elap @ np.sum( i_KS.n, axis=1 )**0.5)
+            #A fragment without electrons has no kinetic energy
+            i_KS.V.ts[np.isnan(i_KS.V.ts)] = 0.0
 
             tsf += np.sum(i_KS.Q, axis=1) * i_KS.V.ts
 
@@ -98,6 +100,8 @@ def ep_kinetic(self):
                         ts[:,j] += np.sum( i_KS.solver[i,j].ked_WFI, axis=1 ) 
 
             i_KS.V.ts = np.sum( ts, axis=1 )[:,None] / np.sum( i_KS.n, axis=1 )[:,None]
+            #A fragment without electrons has no kinetic energy
+            i_KS.V.ts[np.isnan(i_KS.V.ts)] = 0.0
 
             tsf += np.sum( i_KS.Q, axis=1 ) * i_KS.V.ts[:,0]
 
-- 
2.43.0


From a991db4974e0562f9c5e4bb2e76e97367d4a62f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:19:52 +0000
Subject: [PATCH 44/45] fix: symmetric two-orbital kinetic energy density
 counted fragment A twice

---
 CADMium/partition/ep_kinetic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/CADMium/partition/ep_kinetic.py b/CADMium/partition/ep_kinetic.py
index df874c9..fc5b46b 100644
--- a/CADMium/partition/ep_kinetic.py
+++ b/CADMium/partition/ep_kinetic.py
@@ -159,7 +159,7 @@ def ep_kinetic(self):
             tsf += i_KS.Q * i_KS.V.ts[:,None]
 
         if self.optPartition.ab_sym:
-            tsf += tsf + self.grid.mirror(tsf)
+            tsf += self.grid.mirror(tsf)
             Tsf *= 2      
 
         # print("Yo soy Tsf", tsf)
-- 
2.43.0


From e648b2597a5132c2e3d4c557f6d9d226bf68244d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:51 +0000
Subject: [PATCH 45/45] fix: orbital inversion with a fractionally occupied
 last orbital raised IndexError

---
 CADMium/inverter/orbitalinvert.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/CADMium/inverter/orbitalinvert.py b/CADMium/inverter/orbitalinvert.py
index e345268..691ee90 100644
--- a/CADMium/inverter/orbitalinvert.py
+++ b/CADMium/inverter/orbitalinvert.py
@@ -198,7 +198,7 @@ def orbitalinvert(self, n0, vs0, phi0, e0, ispin):
 
     isolver = self.solver[:, ispin]
     Nsol = isolver.shape[0]
-    Nmo, N, m = np.empty((Nsol), dtype=int), np.empty((Nsol), dtype=int), np.empty((Nsol), dtype=int)
+    Nmo, N, m = np.empty((Nsol), dtype=int), np.empty((Nsol)), np.empty((Nsol), dtype=int)
     for i, j in enumerate(isolver):
         j.hamiltonian()
         Nmo[i] = j.Nmo
@@ -222,7 +222,7 @@ def orbitalinvert(self, n0, vs0, phi0, e0, ispin):
                 nu = N[it] - np.floor(N[it])
             
             if nu != 0:
-                D[it,0][Nmo[it]] = D[it][Nmo[it]] * nu
+                D[it,0][Nmo[it]-1] = D[it,0][Nmo[it]-1] * nu
         
         else:
             D[it,0] = 4 *  np.ones((Nmo[it,0], 1))
@@ -232,7 +232,7 @@ def orbitalinvert(self, n0, vs0, phi0, e0, ispin):
                 nu = N[it] / 2 - np.floor(N[it] / 2)
 
             if nu != 0:
-                D[it,0][Nmo[it]] = D[it][Nmo[it]] * nu
+                D[it,0][Nmo[it]-1] = D[it,0][Nmo[it]-1] * nu
 
 
     H_matrices = []
-- 
2.43.0

