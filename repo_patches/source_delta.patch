From e90c34f2d141021e3752d88d04d8d911fcf35cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:53 +0000
Subject: [PATCH 01/30] fix: tangential convection velocity of the discrete
 solver follows Eq. (26), Gamma/(4 pi Omega R^2)

---
 wiz/Solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wiz/Solver.py b/wiz/Solver.py
index b1a6be4..58a6c9f 100644
--- a/wiz/Solver.py
+++ b/wiz/Solver.py
@@ -196,8 +196,8 @@ def WakeVorticityFromCirculation_Discr(r_cp,Gamma_cp,R,U0,Omega,nB,bSwirl,method
             # Tangential convection velocity as the mean of velocity on both side of the cylinder)
             # See Equation (26) of [1]:  a'_c,i = (\Gamma_i+\Gamma_i+1)/(4 pi Omega R_i^2)
             ap_cyl_conv      = np.zeros(Gamma_cp.shape)
-            ap_cyl_conv[:-1] = (Gamma_cp[:-1] + Gamma_cp[1:])/(4*np.pi*Omega*r_cyl[:-1])**2
-            ap_cyl_conv[-1]  = Gamma_cp[-1]/(4*np.pi*Omega*r_cyl[-1])**2
+            ap_cyl_conv[:-1] = (Gamma_cp[:-1] + Gamma_cp[1:])/(4*np.pi*Omega*r_cyl[:-1]**2)
+            ap_cyl_conv[-1]  = Gamma_cp[-1]/(4*np.pi*Omega*r_cyl[-1]**2)
         # --- Allocation
         b           = np.zeros(n) # Cummulative sum of gamma_bar
         S           = np.zeros(n) # Term under the square root
-- 
2.43.0


From 793102e7cd1161a925763345bb0ebfd3ab4df10d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:13 +0000
Subject: [PATCH 02/30] fix: infinite rotational speed is replaced by a finite
 tip-speed ratio (not a dimensional constant) in the solver

---
 wiz/Solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wiz/Solver.py b/wiz/Solver.py
index 58a6c9f..5430a43 100644
--- a/wiz/Solver.py
+++ b/wiz/Solver.py
@@ -291,7 +291,7 @@ def WakeVorticityFromCirculation_Discr(r_cp,Gamma_cp,R,U0,Omega,nB,bSwirl,method
 def WakeVorticityFromCt(r,Ct,R,U0,Omega):
     """ Returns the wake vorticity intensity for a given Ct"""
     if Omega==np.inf:
-        Omega=800 # TODO, implement infinite lambd formulae directly
+        Omega=800*U0/R # Tip speed ratio of 800. TODO, implement infinite lambd formulae directly
     Lambda=Omega*R/U0
     bSwirl=Lambda<20
     vk=CirculationFromPrescribedCt(r/R,Ct,Lambda,bSwirl)
@@ -301,7 +301,7 @@ def WakeVorticityFromCt(r,Ct,R,U0,Omega):
 def WakeVorticityFromGamma(r,Gamma,R,U0,Omega):
     """ Returns the wake vorticity intensity for a given circulation """
     if Omega==np.inf:
-        Omega=800 # TODO, implement infinite lambd formulae directly
+        Omega=800*U0/R # Tip speed ratio of 800. TODO, implement infinite lambd formulae directly
     Lambda=Omega*R/U0
     bSwirl=Lambda<20
     return WakeVorticityFromCirculation_Discr(r,Gamma,R,U0,Omega,nB=1,bSwirl=bSwirl)
-- 
2.43.0


From 3e7de2e9b348d8b993014c068a21f487394cd351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:26 +0000
Subject: [PATCH 03/30] fix: ring regularization uses the ring's own
 circulation and radius, and rejects unknown methods

---
 wiz/VortexRing.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/wiz/VortexRing.py b/wiz/VortexRing.py
index 913f879..47c55c8 100644
--- a/wiz/VortexRing.py
+++ b/wiz/VortexRing.py
@@ -87,14 +87,15 @@ def ring_u_polar(r,z,Gamma=-1,r0=1,z0=0,epsilon=0, reg_method='Saffman'):
             # Continuity in z
             rr= r0-epsilon/2
             zz= 0
-            _,uzp = ring_u_polar_singular(r0+epsilon/2, 0)
-            _,uzm = ring_u_polar_singular(r0-epsilon/2, 0)
+            _,uzp = ring_u_polar_singular(r0+epsilon/2, 0, Gamma, r0)
+            _,uzm = ring_u_polar_singular(r0-epsilon/2, 0, Gamma, r0)
             uz_mean = uzp+uzm
             #r_ref = 
             #Ir = rho < epsilon/2 
             ur[Ir]=0
             uz[Ir]=uzp+ (uzm-uzp) * (rho[Ir]/epsilon/2)
-
+        else:
+            raise NotImplementedError('Regularization method: {}'.format(reg_method))
 
     # --- From this point on, variables have the size of ~Iz..
     bnIz = np.logical_and(np.logical_not(Iz), np.logical_not(Ir))
-- 
2.43.0


From c5c29a8e059574e8a8d00a7c46e448c65c3d6fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:59 +0000
Subject: [PATCH 04/30] fix: radial velocity of the skewed longitudinal
 cylinder was a copy of the tangential one

---
 wiz/VortexCylinderSkewed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiz/VortexCylinderSkewed.py b/wiz/VortexCylinderSkewed.py
index d1001c9..8dda673 100644
--- a/wiz/VortexCylinderSkewed.py
+++ b/wiz/VortexCylinderSkewed.py
@@ -153,7 +153,7 @@ def svc_longi_u_polar(vr,vpsi,vz,gamma_l=-1,R=1,m=0,ntheta=180,polar_out=False):
             u_psi[i] = np.trapz((r - m*z*np.cos(psi) - np.cos(vtheta-psi))*DenInv,vtheta)
             u_z[i]   = np.trapz(m * (-np.sin(vtheta) + r*np.sin(psi))     *DenInv,vtheta)
         # Reshaping to input shape
-        u_r   =  u_psi.reshape(shape_in) 
+        u_r   =  u_r.reshape(shape_in) 
         u_psi =  u_psi.reshape(shape_in) 
         u_z   =  u_z.reshape(shape_in)   
         return (u_r,u_psi,u_z)
-- 
2.43.0


From e4aa6580eeaf128dff7d35203b1bead1c9c0f80d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:11 +0000
Subject: [PATCH 05/30] fix: radial velocity of the skewed root vortex has the
 shape of the control points

---
 wiz/VortexCylinderSkewed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiz/VortexCylinderSkewed.py b/wiz/VortexCylinderSkewed.py
index 8dda673..c6139c9 100644
--- a/wiz/VortexCylinderSkewed.py
+++ b/wiz/VortexCylinderSkewed.py
@@ -223,7 +223,7 @@ def svc_root_u_polar(vr,vpsi,vz,Gamma_r=-1,m=0,polar_out=False):
     # Reshaping to input shape
     u_z   =  u_z.reshape(shape_in) 
     if polar_out:
-        u_r   = u_x * np.cos(vpsi) + u_y * np.sin(vpsi)
+        u_r   = (u_x * np.cos(vpsi) + u_y * np.sin(vpsi)).reshape(shape_in)
         u_psi = u_psi.reshape(shape_in) 
         return (u_r,u_psi,u_z)
     else:
-- 
2.43.0


From 13b34699fd04b99e818cbd6f8c57fafd2047f76d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:02 +0000
Subject: [PATCH 06/30] fix: velocity of the skewed root vortex at a point does
 not depend on the other control points

---
 wiz/VortexCylinderSkewed.py | 38 +++++++++++++++++--------------------
 1 file changed, 17 insertions(+), 21 deletions(-)

diff --git a/wiz/VortexCylinderSkewed.py b/wiz/VortexCylinderSkewed.py
index c6139c9..5d7e38c 100644
--- a/wiz/VortexCylinderSkewed.py
+++ b/wiz/VortexCylinderSkewed.py
@@ -199,27 +199,23 @@ def svc_root_u_polar(vr,vpsi,vz,Gamma_r=-1,m=0,polar_out=False):
         u_x   = -np.sin(vpsi)*u_psi
         u_y   =  np.cos(vpsi)*u_psi
     else:
-        if (np.max(np.abs(vz)) > 0):
-            # need to use general formula
-            u_x = np.zeros(vr.shape)
-            u_y = np.zeros(vr.shape)
-            e = np.array([np.sin(chi),0,np.cos(chi)])
-            for i,(r,psi,z) in enumerate(zip(vr,vpsi,vz)):
-                u_x[i],u_y[i],u_z[i]= vl_semiinf_u(r*np.cos(psi),r*np.sin(psi),z,e[0],e[1],e[2],Gamma_r,visc_model=0,t=0)
-            u_psi = - u_x*np.sin(vpsi) + u_y* np.cos(vpsi)
-        else:
-            # rotor plane analytical (see Yaw article)
-            u_psi = np.zeros(vr.shape)
-            coschi = 1 / np.sqrt(1 + m ** 2)
-            sinchi = m / np.sqrt(1 + m ** 2)
-            Iz = vr > (EPSILON_AXIS)
-            bnIz = np.logical_not(Iz)
-            u_z  [Iz] = np.multiply(Gamma_r/(4*np.pi*vr[Iz]), 1.0/(1-np.cos(vpsi[Iz])*sinchi)*sinchi*np.sin(vpsi[Iz]))
-            u_psi[Iz] = np.multiply(Gamma_r/(4*np.pi*vr[Iz]), 1.0/(1-np.cos(vpsi[Iz])*sinchi)*coschi)
-            u_z  [bnIz] =0
-            u_psi[bnIz] =0
-            u_x = -np.sin(vpsi)*u_psi
-            u_y =  np.cos(vpsi)*u_psi
+        # rotor plane analytical (see Yaw article)
+        u_psi = np.zeros(vr.shape)
+        coschi = 1 / np.sqrt(1 + m ** 2)
+        sinchi = m / np.sqrt(1 + m ** 2)
+        Iz = vr > (EPSILON_AXIS)
+        bnIz = np.logical_not(Iz)
+        u_z  [Iz] = np.multiply(Gamma_r/(4*np.pi*vr[Iz]), 1.0/(1-np.cos(vpsi[Iz])*sinchi)*sinchi*np.sin(vpsi[Iz]))
+        u_psi[Iz] = np.multiply(Gamma_r/(4*np.pi*vr[Iz]), 1.0/(1-np.cos(vpsi[Iz])*sinchi)*coschi)
+        u_z  [bnIz] =0
+        u_psi[bnIz] =0
+        u_x = -np.sin(vpsi)*u_psi
+        u_y =  np.cos(vpsi)*u_psi
+        # need to use general formula outside of the rotor plane
+        for i,(r,psi,z) in enumerate(zip(vr,vpsi,vz)):
+            if np.abs(z)>0:
+                u_x[i],u_y[i],u_z[i]= vl_semiinf_u(r*np.cos(psi),r*np.sin(psi),z,np.sin(chi),0,np.cos(chi),Gamma_r,visc_model=0,t=0)
+                u_psi[i] = - u_x[i]*np.sin(psi) + u_y[i]* np.cos(psi)
     # Reshaping to input shape
     u_z   =  u_z.reshape(shape_in) 
     if polar_out:
-- 
2.43.0


From a3bb00538b70a7b4d63f3a12c5c96308afae322f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:28 +0000
Subject: [PATCH 07/30] fix: combined skewed cylinder honours the polar output
 option

---
 wiz/VortexCylinderSkewed.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wiz/VortexCylinderSkewed.py b/wiz/VortexCylinderSkewed.py
index 5d7e38c..d381018 100644
--- a/wiz/VortexCylinderSkewed.py
+++ b/wiz/VortexCylinderSkewed.py
@@ -233,12 +233,12 @@ def svc_u_polar(vr,vpsi,vz,gamma_t,gamma_l,Gamma_r,R=1,m=0,ntheta=180,polar_out=
        - longitudinal vorticity gamma_l
        - a root vortex, Gamma_r
     """
-    u1 ,u2 ,u3  = svc_longi_u_polar(vr,vpsi,vz,gamma_l,R=R,m=m,ntheta=ntheta,polar_out=False)
-    u1t,u2t,u3t = svc_tang_u_polar (vr,vpsi,vz,gamma_t,R=R,m=m,ntheta=ntheta,polar_out=False)
+    u1 ,u2 ,u3  = svc_longi_u_polar(vr,vpsi,vz,gamma_l,R=R,m=m,ntheta=ntheta,polar_out=polar_out)
+    u1t,u2t,u3t = svc_tang_u_polar (vr,vpsi,vz,gamma_t,R=R,m=m,ntheta=ntheta,polar_out=polar_out)
     u1 += u1t
     u2 += u2t
     u3 += u3t
-    u1t,u2t,u3t = svc_root_u_polar (vr,vpsi,vz,Gamma_r    ,m=m,           polar_out=False)
+    u1t,u2t,u3t = svc_root_u_polar (vr,vpsi,vz,Gamma_r    ,m=m,           polar_out=polar_out)
     u1 += u1t
     u2 += u2t
     u3 += u3t
-- 
2.43.0


From d3a3304cec1424884cdc826247045f39271beecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:52 +0000
Subject: [PATCH 08/30] fix: an undefined point does not stop the elliptic
 integral iterations of the other points

---
 wiz/elliptic.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/wiz/elliptic.py b/wiz/elliptic.py
index 1d7f98d..31d8247 100644
--- a/wiz/elliptic.py
+++ b/wiz/elliptic.py
@@ -17,6 +17,9 @@ def ellipticPiCarlson(n,m):
     # --- Performance parameters
     RES   = 1.e-12  # 
     ITMAX = 20      # 20 iterations usually sufficient
+    # --- Residual of the iterations, points with undefined values do not stop the others
+    def maxResidual(d):
+        return np.amax(np.where(np.isnan(d),0,np.abs(d)))
     # --- Subfunctions RF, RJ, RC
     def ellipticRF(y = None): 
         xo = np.zeros(y.shape)
@@ -46,7 +49,7 @@ def ellipticPiCarlson(n,m):
             s13 = s12*s1
             r = 5./26 * s13 + 3./ 26 * s2 ** 2
             RF = (mu**-0.5) * (1 + s1/5 + s2/7 + s12/6 + 3/11*s1*s2 + r)
-            res = np.amax(np.abs(RF - RFo))
+            res = maxResidual(RF - RFo)
             RFo = RF
             xo = xn
             yo = yn
@@ -109,7 +112,7 @@ def ellipticPiCarlson(n,m):
                 rhs1 = rhs1 + 3 * 4 ** - nIt * ellipticRC(alfa,bet)
                 rhs2 = (4**-(nIt+1) * mu**-1.5) * (1+3/7*s1 + s2/3 + 3/22*s12 + 3/11*s3 + 3/13*(s1*s2 + s4) + r)
                 RJLoc = rhs1 + rhs2
-                res = np.amax(np.abs(RJLoc - RJo))
+                res = maxResidual(RJLoc - RJo)
                 RJo = RJLoc
                 xo = xn
                 yo = yn
@@ -140,7 +143,7 @@ def ellipticPiCarlson(n,m):
             s5 = s4*s
             s6 = s5*s
             RC = (mu**-0.5)*(1+3/10*s2 + s3/7 + 3/8*s4 + 9/22*s5 + 159/208*s6)
-            res = np.amax(np.abs(RC - RCo))
+            res = maxResidual(RC - RCo)
             RCo = RC
             xo = xn
             yo = yn
-- 
2.43.0


From b7b488b915ddcaaff44531e98ab83ac09405633f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:05 +0000
Subject: [PATCH 09/30] fix: continuous wake solver does not modify the radii
 given by the user

---
 wiz/Solver.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wiz/Solver.py b/wiz/Solver.py
index 5430a43..29c6b1d 100644
--- a/wiz/Solver.py
+++ b/wiz/Solver.py
@@ -77,6 +77,7 @@ def InductionsFromCirculation_VC_Cont(vr_bar,lambda_r,k,bSwirl,method='analytica
     Ct_c = 4*ac*(1-ac)
     misc={}
     # Safety
+    lambda_r = np.array(lambda_r,dtype=float) # copy, user input is not modified
     if lambda_r[0]==0:
         lambda_r[0]=lambda_r[1]*0.01;
     # --- Finding Cylinders intensities
@@ -120,7 +121,7 @@ def WakeVorticityFromCirculation_Cont(r_cp,Gamma_cp,R,U0,Omega,bSwirl,method='an
     Uses continuous formulation to find wake vorticity that matches a given circulation distribution
     (need to solve for pitch angle, and hence induction)
     """
-    r_cp     = np.asarray(r_cp).ravel()
+    r_cp     = np.array(r_cp,dtype=float).ravel() # copy, user input is not modified
     Gamma_cp = np.asarray(Gamma_cp).ravel()
     if r_cp[0]==0:
         r_cp[0]=r_cp[1]*0.5;
-- 
2.43.0


From 53593740d585452a1b5456fc981c6fcffe18079b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:32 +0000
Subject: [PATCH 10/30] fix: control points outside of the cylinders give a
 warning instead of an undefined name and a debugger prompt

---
 wiz/Solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiz/Solver.py b/wiz/Solver.py
index 29c6b1d..d622686 100644
--- a/wiz/Solver.py
+++ b/wiz/Solver.py
@@ -11,6 +11,7 @@ from __future__ import division
 from __future__ import print_function
 # --- General
 import unittest
+import warnings
 import numpy as np
 import scipy.optimize as sciopt
 import scipy.integrate as sciint
@@ -171,7 +172,6 @@ def WakeVorticityFromCirculation_Discr(r_cp,Gamma_cp,R,U0,Omega,nB,bSwirl,method
     # --- Checks
     if np.amax(r_cyl) < np.amax(r_cp):
         warnings.warn('Cylinders are assumed to enclose the control points')
-        import pdb; pdb.set_trace()
     if r_cyl[0] == 0:
         raise Exception('First cylinder at 0, impossible')
 
-- 
2.43.0


From a0c48e0184d0c8ecdf7162d1177c5fdc09dc0879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:46 +0000
Subject: [PATCH 11/30] fix: unknown method is rejected by the discrete wake
 solver instead of returning nothing

---
 wiz/Solver.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wiz/Solver.py b/wiz/Solver.py
index d622686..df2a1ed 100644
--- a/wiz/Solver.py
+++ b/wiz/Solver.py
@@ -282,6 +282,8 @@ def WakeVorticityFromCirculation_Discr(r_cp,Gamma_cp,R,U0,Omega,nB,bSwirl,method
             Gamma_r     = None
 
         return gamma_t,gamma_l,Gamma_r, misc
+    else:
+        raise NotImplementedError('Method: {}'.format(method))
 
 
 
-- 
2.43.0


From 0c197f4361f3dd91078e6938c9b65574ea70d15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:59 +0000
Subject: [PATCH 12/30] fix: viscous models of the semi-infinite vortex line
 use the line direction instead of undefined names

---
 wiz/VortexLine.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/wiz/VortexLine.py b/wiz/VortexLine.py
index 065dca8..507923b 100644
--- a/wiz/VortexLine.py
+++ b/wiz/VortexLine.py
@@ -31,7 +31,7 @@ def vl_semiinf_u(xa,ya,za,xe,ye,ze,Gamma,visc_model,t):
         Kv = 1.0
     elif visc_model==1:
         # Rankine  - t<=>rc 
-        norm_r0 = np.sqrt((xa - xb) * (xa - xb) + (ya - yb) * (ya - yb) + (za - zb) * (za - zb))
+        norm_r0 = np.sqrt(xe**2 + ye**2 + ze**2)
         h = np.sqrt(crossprod[0]**2 + crossprod[1]**2+ crossprod[2]**2) / norm_r0
         if (h < t):
             Kv = h * h / t / t
@@ -39,17 +39,17 @@ def vl_semiinf_u(xa,ya,za,xe,ye,ze,Gamma,visc_model,t):
             Kv = 1.0
     elif visc_model==2:
         # Lamb-Oseen  - t<=>rc
-        norm_r0 = np.sqrt((xa - xb) * (xa - xb) + (ya - yb) * (ya - yb) + (za - zb) * (za - zb))
+        norm_r0 = np.sqrt(xe**2 + ye**2 + ze**2)
         h = np.sqrt(crossprod[0]**2 + crossprod[1]**2+ crossprod[2]**2) / norm_r0
         Kv = 1.0 - np.exp(- 1.25643 * h * h / t / t)
     elif visc_model==3:
         # Vatistas n=2  - t<=>rc */
-        norm_r0 = np.sqrt((xa - xb) * (xa - xb) + (ya - yb) * (ya - yb) + (za - zb) * (za - zb))
+        norm_r0 = np.sqrt(xe**2 + ye**2 + ze**2)
         h = np.sqrt(crossprod[0]**2 + crossprod[1]**2+ crossprod[2]**2) / norm_r0
         Kv = h * h / np.sqrt(t ** 4 + h ** 4)
     elif visc_model==4:
         # Cut-off radius no dimensions - delta*norm(r0)^2 - t<=>delta^2
-        norm_r0 = np.sqrt((xa - xb) * (xa - xb) + (ya - yb) * (ya - yb) + (za - zb) * (za - zb))
+        norm_r0 = np.sqrt(xe**2 + ye**2 + ze**2)
         denominator = denominator + t * norm_r0
         Kv = 1.0
     elif visc_model==5:
-- 
2.43.0


From 0911a3b28c4f96697224a11ef2babd00506bc600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:11 +0000
Subject: [PATCH 13/30] fix: dimensions of control points are checked against
 the ones of the vortex points

---
 wiz/VortexPoint.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiz/VortexPoint.py b/wiz/VortexPoint.py
index 556081f..e36ea4c 100644
--- a/wiz/VortexPoint.py
+++ b/wiz/VortexPoint.py
@@ -39,7 +39,7 @@ def vps_u(CP,XV,Gammas,SmoothModel=0,KernelOrder=2,SmoothParam=None):
     ncp    = CP.shape[0]
     nv     = XV.shape[0]
     ndim   = XV.shape[1]
-    ndimCP = XV.shape[1]
+    ndimCP = CP.shape[1]
     if ndim != ndimCP:
         raise Exception('Your control points and vortex point do not have the same dimension.')
 
-- 
2.43.0


From 9d2070a5d7030accf26c3cc757b4019df2e24149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:24 +0000
Subject: [PATCH 14/30] fix: default longitudinal spacing of the grid layout is
 the lateral one

---
 wiz/WindFarm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wiz/WindFarm.py b/wiz/WindFarm.py
index a3b4794..523bba2 100644
--- a/wiz/WindFarm.py
+++ b/wiz/WindFarm.py
@@ -92,6 +92,8 @@ def gridLayout(nx,xSpacing,nz,zSpacing=None,hub_height=0,mirror=False):
           z is longi, positive along the wake
       If mirror is true, mirrored turbines are placed at y=-hubheight
     """
+    if zSpacing is None:
+        zSpacing=xSpacing
     if mirror:
         ny=2
     else:
-- 
2.43.0


From 947100f63085042d394185fb2ac02a82fffcc68b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:57 +0000
Subject: [PATCH 15/30] fix: rotor plane flow expansion of the skewed wake used
 the selection mask in place of an elliptic parameter

---
 wiz/VortexCylinderSkewed.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/wiz/VortexCylinderSkewed.py b/wiz/VortexCylinderSkewed.py
index d381018..0dfbabb 100644
--- a/wiz/VortexCylinderSkewed.py
+++ b/wiz/VortexCylinderSkewed.py
@@ -424,14 +424,14 @@ def fKxit(vr,m):
         k = np.sqrt(k2)
         K = ellipk(k2)
         E = ellipe(k2)
-        b1 = (vr) > (EPSILON_AXIS) 
-        b0 = np.logical_not(b1)
-        Kxit[b1] = np.multiply(1/(np.pi)*np.sqrt(1.0/vr[b1]),(np.multiply((2 - k2[b1]) / k[b1],K[b1]) - np.multiply(2.0/k[b1],E[b1])))
+        bAx = (vr) > (EPSILON_AXIS) 
+        b0 = np.logical_not(bAx)
+        Kxit[bAx] = np.multiply(1/(np.pi)*np.sqrt(1.0/vr[bAx]),(np.multiply((2 - k2[bAx]) / k[bAx],K[bAx]) - np.multiply(2.0/k[bAx],E[bAx])))
         Kxit[b0] = 0
     else:
-        b1 = (vr) > (EPSILON_AXIS) 
-        b0 = np.logical_not(b1)
-        Kxit[b1] = np.multiply(2*(1+m**2)*vr[b1]/(m**2*np.pi),kr2[b1]) - np.multiply(np.multiply(vr[b1],(vr[b1] + 1))*np.sqrt(m ** 2 + 1)/(2*m**2*np.pi*np.sqrt(m**2+vr[b1]**2)),(np.multiply((b1[b1]+j2[b1]),Pi1[b1]) + np.multiply((b2[b1]-j2[b1]),Pi2[b1])))
+        bAx = (vr) > (EPSILON_AXIS) 
+        b0 = np.logical_not(bAx)
+        Kxit[bAx] = np.multiply(2*(1+m**2)*vr[bAx]/(m**2*np.pi),kr2[bAx]) - np.multiply(np.multiply(vr[bAx],(vr[bAx] + 1))*np.sqrt(m ** 2 + 1)/(2*m**2*np.pi*np.sqrt(m**2+vr[bAx]**2)),(np.multiply((b1[bAx]+j2[bAx]),Pi1[bAx]) + np.multiply((b2[bAx]-j2[bAx]),Pi2[bAx])))
         Kxit[b0] = 0
     # See yaw article
     chi = np.arctan(m)
-- 
2.43.0


From 4adb69554d702cd6ca00d78f5e11bd56274c975f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:10 +0000
Subject: [PATCH 16/30] fix: skew angle of the alternative rotor plane flow
 expansions was undefined

---
 wiz/VortexCylinderSkewed.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wiz/VortexCylinderSkewed.py b/wiz/VortexCylinderSkewed.py
index 0dfbabb..8394d32 100644
--- a/wiz/VortexCylinderSkewed.py
+++ b/wiz/VortexCylinderSkewed.py
@@ -445,6 +445,7 @@ def fKxit(vr,m):
 
 def fKzt(r,m,nout=2):
     """ Returns Kzt according to yaw article """
+    chi = np.arctan(m)
     fOye = 0.5 * (r + 0.4 * r ** 3 + 0.4 * r ** 5)
     vr = r
     Kzt = np.zeros(vr.shape)
-- 
2.43.0


From 1f8e11b62aeea8709b003fd830f92094233c6e3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:38 +0000
Subject: [PATCH 17/30] fix: wake skew angle follows changes of yaw position
 and wind after a velocity computation

---
 wiz/WindTurbine.py | 36 ++++++++++++++++++++++--------------
 1 file changed, 22 insertions(+), 14 deletions(-)

diff --git a/wiz/WindTurbine.py b/wiz/WindTurbine.py
index 6405d68..673a217 100644
--- a/wiz/WindTurbine.py
+++ b/wiz/WindTurbine.py
@@ -85,7 +85,7 @@ class WindTurbine:
         self.Gamma_r=None
         self.Lambda=Lambda
         self.Ground=Ground # Ground effect will be included in calculation of induced velocity
-        self.chi=None
+        self.set_chi(None)
         self.Model=Model
 
     def set_yaw0_coord(self,e_shaft_yaw0,e_vert):
@@ -241,8 +241,20 @@ class WindTurbine:
 
 
     def set_chi(self,chi):
-        self.chi=chi
-    
+        """ Prescribe the wake skew angle. If None, the wake skew angle follows the wind and the yaw position """
+        self.chi_prescribed=chi
+
+    @property
+    def chi(self):
+        """ Wake skew angle, prescribed by `set_chi`, or based on the current wind and yaw position """
+        if self.chi_prescribed is not None:
+            return self.chi_prescribed
+        # Detecting whether our vertical convention match, and define chi
+        T_c2g=np.dot(self.T_wt2g,self.T_c2wt)
+        e_vert_c = np.dot(T_c2g.T , self.e_vert_g)
+        # TODO TODO chi needs induction effect!
+        return np.sign(e_vert_c.ravel()[1])* (self.yaw_wind-self.yaw_pos)
+
     def compute_u(self, Xg, Yg, Zg, only_ind=False, longi=False, tang=True, root=False, no_wake=False, ground=None, Model=None, R_far_field=6): 
         """ 
         INPUTS:
@@ -269,18 +281,14 @@ class WindTurbine:
         # Control points in "Cylinder coordinate system" (rotation only)
         T_c2g=np.dot(self.T_wt2g,self.T_c2wt)
         Xc,Yc,Zc = transform_T(T_c2g, Xg,Yg,Zg)
-        # Detecting whether our vertical convention match, and define chi
-        e_vert_c = np.dot(T_c2g.T , self.e_vert_g)
-        if self.chi is None:
-            # TODO TODO chi needs induction effect!
-            self.chi= np.sign(e_vert_c.ravel()[1])* (self.yaw_wind-self.yaw_pos)
+        chi=self.chi
         if self.gamma_t is None:
             raise Exception('Please set loading with `update_loading` before calling `compute_u`')
 
         uxc = np.zeros(Xg.shape)
         uyc = np.zeros(Xg.shape)
         uzc = np.zeros(Xg.shape)
-        m=np.tan(self.chi)
+        m=np.tan(chi)
         # Cylinder position in "Cylinder coordinate system) (rotation only)
         Xcyl, Ycyl, Zcyl = transform_T(T_c2g,np.array([self.r_hub[0]]), np.array([self.r_hub[1]]),  np.array([self.r_hub[2]]))
         # Translate control points such that origin is at rotor center. NOTE: not all routines use this
@@ -296,7 +304,7 @@ class WindTurbine:
         # --- Root vortex influence
         if root and  (self.Gamma_r is not None) and self.Gamma_r!=0:
             for Y in Ylist:
-                if np.abs(self.chi)>1e-7:
+                if np.abs(chi)>1e-7:
                     uxc0,uyc0,uzc0 = svc_root_u(Xc0,Y,Zc0,Gamma_r=self.Gamma_r,m=m,polar_out=False)
                 else:
                     uxc0,uyc0,uzc0 =  vc_root_u(Xc0,Y,Zc0,Gamma_r=self.Gamma_r,polar_out=False)
@@ -309,7 +317,7 @@ class WindTurbine:
             # --- Tangential and longi - ONE Cylinder only
             for iY,Y in enumerate(Ylist):
                 if tang and (self.gamma_t!=0):
-                    if np.abs(self.chi)>1e-7:
+                    if np.abs(chi)>1e-7:
                         if Model =='VC':
                             uxc0,uyc0,uzc0 = svc_tang_u(Xc0,Y,Zc0,gamma_t=self.gamma_t,R=self.R,m=m,polar_out=False)
                         else:
@@ -331,7 +339,7 @@ class WindTurbine:
                     uyc += uyc0
                     uzc += uzc0
                 if longi and (self.gamma_l is not None) and self.gamma_l!=0 :
-                    if np.abs(self.chi)>1e-7:
+                    if np.abs(chi)>1e-7:
                         if Model =='VC':
                             uxc0,uyc0,uzc0 = svc_longi_u(Xc0,Y,Zc0,gamma_l=self.gamma_l,R=self.R,m=m,polar_out=False)
                         else:
@@ -358,7 +366,7 @@ class WindTurbine:
                 vR      = self.r.reshape((nWT,nr))
                 vm       = m* np.ones((nWT,nr))
                 if tang:
-                    if np.abs(self.chi)>1e-7:
+                    if np.abs(chi)>1e-7:
                         uxc0,uyc0,uzc0 = svcs_tang_u(Xc,Yc,Zc,gamma_t=gamma_t,R=vR,m=vm,Xcyl=Xcyl,Ycyl=Ycyl,Zcyl=Zcyl,Ground=ground)
                     else:
                         uxc0,uyc0,uzc0 = vcs_tang_u (Xc,Yc,Zc,gamma_t=gamma_t,R=vR    ,Xcyl=Xcyl,Ycyl=Ycyl,Zcyl=Zcyl, Ground=ground)
@@ -366,7 +374,7 @@ class WindTurbine:
                     uyc += uyc0
                     uzc += uzc0
                 if longi and (self.gamma_l is not None):
-                    if np.abs(self.chi)>1e-7:
+                    if np.abs(chi)>1e-7:
                         uxc0,uyc0,uzc0 = svcs_longi_u(Xc,Yc,Zc,gamma_l=gamma_l,R=vR,m=vm,Xcyl=Xcyl,Ycyl=Ycyl,Zcyl=Zcyl, Ground=ground)
                     else:
                         uxc0,uyc0,uzc0 = vcs_longi_u (Xc,Yc,Zc,gamma_l=gamma_l,R=vR      ,Xcyl=Xcyl,Ycyl=Ycyl,Zcyl=Zcyl, Ground=ground)
-- 
2.43.0


From a698fa62c2e71765b5272781d7934de70e8d5534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:19 +0000
Subject: [PATCH 18/30] fix: wind and shaft directions equal to rounding give a
 zero angle instead of an undefined flow field

---
 wiz/WindTurbine.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wiz/WindTurbine.py b/wiz/WindTurbine.py
index 673a217..50fbba1 100644
--- a/wiz/WindTurbine.py
+++ b/wiz/WindTurbine.py
@@ -197,9 +197,9 @@ class WindTurbine:
         e_w    = u_horz/np.linalg.norm(u_horz)
         sign = np.sign  ( np.dot(np.cross(self.e_horz_g.T, self.U0_g.T),self.e_vert_g) )
         if sign==0:
-            yaw_wind = np.arccos(np.dot(e_w.T,self.e_horz_g))
+            yaw_wind = np.arccos(np.clip(np.dot(e_w.T,self.e_horz_g),-1,1))
         else:
-            yaw_wind = sign * np.arccos(np.dot(e_w.T,self.e_horz_g))
+            yaw_wind = sign * np.arccos(np.clip(np.dot(e_w.T,self.e_horz_g),-1,1))
         return yaw_wind.ravel()[0]
 
     @property
@@ -209,7 +209,7 @@ class WindTurbine:
         u_skew  = self.U0_g-np.dot(self.U0_g.T,e_horz)*e_horz-np.dot(self.U0_g.T,self.e_vert_g)*self.e_vert_g
         e_w=self.U0_g/np.linalg.norm(self.U0_g)
         yaw_sign=np.sign  ( np.dot(np.cross(e_w.T,self.e_shaft_g.T),self.e_vert_g) )
-        yaw_error=yaw_sign * np.arccos(np.dot(e_w.T,self.e_shaft_g))
+        yaw_error=yaw_sign * np.arccos(np.clip(np.dot(e_w.T,self.e_shaft_g),-1,1))
 #         U0_wt = np.dot( self.T_wt2g.T , self.U0_g)
 #         e_skew=u_skew/np.linalg.norm(u_skew)
 #         print('e_skew',e_skew.T)
-- 
2.43.0


From 3de48b9e7f538edb8602ef28d786e326da2a67ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:31 +0000
Subject: [PATCH 19/30] fix: horizontal direction of the shaft is its
 projection normal to the vertical

---
 wiz/WindTurbine.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wiz/WindTurbine.py b/wiz/WindTurbine.py
index 50fbba1..89b5386 100644
--- a/wiz/WindTurbine.py
+++ b/wiz/WindTurbine.py
@@ -92,7 +92,7 @@ class WindTurbine:
         self.e_shaft_g = np.asarray(e_shaft_yaw0).ravel().reshape(3,1)
         self.e_shaft_g0= self.e_shaft_g
         self.e_vert_g  = np.asarray(e_vert).ravel().reshape(3,1)
-        v_horz0 = self.e_shaft_g -np.dot(self.e_shaft_g.T,self.e_vert_g)
+        v_horz0 = self.e_shaft_g -np.dot(self.e_shaft_g.T,self.e_vert_g)*self.e_vert_g
         self.e_horz_g = v_horz0/np.linalg.norm(v_horz0)
         self.e_FAST_z = self.e_vert_g
         self.e_FAST_x = self.e_horz_g
@@ -204,7 +204,7 @@ class WindTurbine:
 
     @property
     def yaw_error(self):
-        v_horz = self.e_shaft_g -np.dot(self.e_shaft_g.T,self.e_vert_g)
+        v_horz = self.e_shaft_g -np.dot(self.e_shaft_g.T,self.e_vert_g)*self.e_vert_g
         e_horz = v_horz/np.linalg.norm(v_horz)
         u_skew  = self.U0_g-np.dot(self.U0_g.T,e_horz)*e_horz-np.dot(self.U0_g.T,self.e_vert_g)*self.e_vert_g
         e_w=self.U0_g/np.linalg.norm(self.U0_g)
-- 
2.43.0


From cb45cd5906eb9e8741455cfbb6aeb9ddaf158856 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:44 +0000
Subject: [PATCH 20/30] fix: longitudinal vorticity is defined before the
 loading is set

---
 wiz/WindTurbine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiz/WindTurbine.py b/wiz/WindTurbine.py
index 89b5386..6939813 100644
--- a/wiz/WindTurbine.py
+++ b/wiz/WindTurbine.py
@@ -81,7 +81,7 @@ class WindTurbine:
         self.R=R
         self.r=None
         self.gamma_t=None
-        self.gamma_t=None
+        self.gamma_l=None
         self.Gamma_r=None
         self.Lambda=Lambda
         self.Ground=Ground # Ground effect will be included in calculation of induced velocity
-- 
2.43.0


From 1684bc1eeabd38b7bdc0da5c3602cd870beef0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:57 +0000
Subject: [PATCH 21/30] fix: thrust coefficient given to the constructor is
 used

---
 wiz/WindTurbine.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wiz/WindTurbine.py b/wiz/WindTurbine.py
index 6939813..0e67981 100644
--- a/wiz/WindTurbine.py
+++ b/wiz/WindTurbine.py
@@ -87,6 +87,8 @@ class WindTurbine:
         self.Ground=Ground # Ground effect will be included in calculation of induced velocity
         self.set_chi(None)
         self.Model=Model
+        if Ct is not None:
+            self.update_loading(Ct=Ct,Lambda=Lambda)
 
     def set_yaw0_coord(self,e_shaft_yaw0,e_vert):
         self.e_shaft_g = np.asarray(e_shaft_yaw0).ravel().reshape(3,1)
-- 
2.43.0


From 68477f65ca05cd897d35ee6a7b0aad59d78fd84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:20 +0000
Subject: [PATCH 22/30] fix: ground image of skewed longitudinal vorticity is
 taken at the mirrored points

---
 wiz/VortexCylinderSkewed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiz/VortexCylinderSkewed.py b/wiz/VortexCylinderSkewed.py
index 8394d32..da8ab21 100644
--- a/wiz/VortexCylinderSkewed.py
+++ b/wiz/VortexCylinderSkewed.py
@@ -355,7 +355,7 @@ def svcs_longi_u(Xcp,Ycp,Zcp,gamma_l,R,m,Xcyl,Ycyl,Zcyl,ntheta=180,Ground=False)
                 else:
                     print('m',end='')
                 if np.abs(gamma_l[i,j]) > 0:
-                    ux1,uy1,uz1 = svc_longi_u(Xcp0,Ycp0,Zcp0,gamma_l[i,j],R[i,j],m[i,j],ntheta=ntheta,polar_out=False)
+                    ux1,uy1,uz1 = svc_longi_u(Xcp0,Y,Zcp0,gamma_l[i,j],R[i,j],m[i,j],ntheta=ntheta,polar_out=False)
                     ux = ux + ux1
                     uy = uy + uy1
                     uz = uz + uz1
-- 
2.43.0


From 0541053e5e1f4ee06a62352758c844ff16eafd1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:29 +0000
Subject: [PATCH 23/30] fix: semi-infinite line velocity has the same shape at
 singular points

---
 wiz/VortexLine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiz/VortexLine.py b/wiz/VortexLine.py
index 507923b..25c9337 100644
--- a/wiz/VortexLine.py
+++ b/wiz/VortexLine.py
@@ -23,7 +23,7 @@ def vl_semiinf_u(xa,ya,za,xe,ye,ze,Gamma,visc_model,t):
     crossprod   = np.array([ye*za - ze*ya, ze*xa - xe*za, xe*ya - ye*xa])
     # check for singularity */
     if (denominator < 1e-12 or norm_a < 1e-05):
-        return np.array([[0],[0],[0]])
+        return np.array([0,0,0])
     # viscous model */
     Kv = 1.0
     if visc_model==0:
-- 
2.43.0


From 0268879e572db7d9a3f0cba79a8b6c53744b6263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:58:27 +0000
Subject: [PATCH 24/30] fix: solver results do not share memory with the
 caller's arrays

---
 wiz/Solver.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wiz/Solver.py b/wiz/Solver.py
index df2a1ed..c0fc7bc 100644
--- a/wiz/Solver.py
+++ b/wiz/Solver.py
@@ -59,7 +59,7 @@ def CirculationFromPrescribedCt(vr_bar,vCt,Lambda,bSwirl):
                 res=sciopt.minimize_scalar(lambda k:np.abs(k*(1+k/(4*lambda_r**2))-Ct), bounds=[0,1.8], method='bounded')
                 vk[ir] = res.x
     else:
-        vk = vCt
+        vk = np.array(vCt) # copy, result does not alias user input
     return vk
 
 
@@ -123,7 +123,7 @@ def WakeVorticityFromCirculation_Cont(r_cp,Gamma_cp,R,U0,Omega,bSwirl,method='an
     (need to solve for pitch angle, and hence induction)
     """
     r_cp     = np.array(r_cp,dtype=float).ravel() # copy, user input is not modified
-    Gamma_cp = np.asarray(Gamma_cp).ravel()
+    Gamma_cp = np.array(Gamma_cp).ravel() # copy, result does not alias user input
     if r_cp[0]==0:
         r_cp[0]=r_cp[1]*0.5;
     # Non dimensional parameters
@@ -157,7 +157,7 @@ def WakeVorticityFromCirculation_Discr(r_cp,Gamma_cp,R,U0,Omega,nB,bSwirl,method
     """ 
     Implements discrete algorithm from [1] to find gamma_t, and the inductions
     """
-    r_cp     = np.asarray(r_cp).ravel()
+    r_cp     = np.array(r_cp).ravel() # copy, result does not alias user input
     Gamma_cp = np.asarray(Gamma_cp).ravel()
     if r_cyl is None:
         r_cyl    = np.zeros(r_cp.shape)
-- 
2.43.0


From 78b703296ecf77f1f9d56de7cbefc509c08cfed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:56 +0000
Subject: [PATCH 25/30] fix: turbine keeps its own copy of position, wind, axes
 and loading arrays

---
 wiz/WindTurbine.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/wiz/WindTurbine.py b/wiz/WindTurbine.py
index 0e67981..1b13620 100644
--- a/wiz/WindTurbine.py
+++ b/wiz/WindTurbine.py
@@ -91,9 +91,9 @@ class WindTurbine:
             self.update_loading(Ct=Ct,Lambda=Lambda)
 
     def set_yaw0_coord(self,e_shaft_yaw0,e_vert):
-        self.e_shaft_g = np.asarray(e_shaft_yaw0).ravel().reshape(3,1)
+        self.e_shaft_g = np.array(e_shaft_yaw0).ravel().reshape(3,1)
         self.e_shaft_g0= self.e_shaft_g
-        self.e_vert_g  = np.asarray(e_vert).ravel().reshape(3,1)
+        self.e_vert_g  = np.array(e_vert).ravel().reshape(3,1)
         v_horz0 = self.e_shaft_g -np.dot(self.e_shaft_g.T,self.e_vert_g)*self.e_vert_g
         self.e_horz_g = v_horz0/np.linalg.norm(v_horz0)
         self.e_FAST_z = self.e_vert_g
@@ -117,10 +117,10 @@ class WindTurbine:
         self.e_shaft_g=np.dot(self.T_wt2g , self.e_shaft_g0)
 
     def update_position(self,r_hub):
-        self.r_hub=np.asarray(r_hub).ravel().reshape(3,1)
+        self.r_hub=np.array(r_hub).ravel().reshape(3,1)
 
     def update_wind(self,U0_g):
-        self.U0_g = np.asarray(U0_g).ravel().reshape(3,1)
+        self.U0_g = np.array(U0_g).ravel().reshape(3,1)
 
     def update_loading(self,r=None,Ct=None,Gamma=None,Lambda=None,nCyl=1,gamma_t_Ct=None):
         """ 
@@ -187,8 +187,8 @@ class WindTurbine:
         #print('Gamma_/2piR',-self.Gamma_r/(2*np.pi*self.R))
         #print(misc)
         self.Lambda=Lambda
-        self.r=r
-        self.Ct=Ct
+        self.r  = None if r  is None else np.array(r)  # copies, user arrays may change later
+        self.Ct = None if Ct is None else np.array(Ct)
 
     @property
     def yaw_wind(self):
-- 
2.43.0


From cc555fab0b4ed7e6f4d86b08e5103d62981c0759 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:38 +0000
Subject: [PATCH 26/30] fix: finite tangential cylinder has values on its axis
 and on its sheet

---
 wiz/VortexCylinder.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/wiz/VortexCylinder.py b/wiz/VortexCylinder.py
index d3c0836..8fa8943 100644
--- a/wiz/VortexCylinder.py
+++ b/wiz/VortexCylinder.py
@@ -328,10 +328,17 @@ def cylinder_tang_u(Xcp,Ycp,Zcp,gamma_t=-1,R=1,z1=-2,z2=2,polar_out=True,epsilon
     KK2 = ellipk(k2_2)
     PI1 = ellipticPiCarlson(k0_2,k1_2)
     PI2 = ellipticPiCarlson(k0_2,k2_2)
+    # --- Special values: on the sheet (r==R), mean of the two sides
+    PI1 = np.where(r==R, 0, PI1)
+    PI2 = np.where(r==R, 0, PI2)
     # ur
     ur = np.multiply(gamma_t / (2 * np.pi) * np.sqrt(R / r),((np.multiply((2 - k2_2) / k2,KK2) - np.multiply(2.0 / k2,EE2)) - (np.multiply((2 - k1_2) / k1,KK1) - np.multiply(2.0 / k1,EE1))))
     # uz
     uz = np.multiply(- gamma_t / (4 * np.pi * np.sqrt(r * R)),((np.multiply(np.multiply(zz2,k2),(KK2 + np.multiply((R - r) / (R + r),PI2)))) - (np.multiply(np.multiply(zz1,k1),(KK1 + np.multiply((R - r) / (R + r),PI1))))))
+    # Enforcing axis formula
+    Iz = r < (EPSILON_AXIS * R)
+    ur = np.where(Iz, 0, ur)
+    uz = np.where(Iz, gamma_t/2 * (zz1 / np.sqrt(zz1**2 + R**2) - zz2 / np.sqrt(zz2**2 + R**2)), uz)
     if polar_out:
         return ur,uz
     else:
-- 
2.43.0


From fab040416da890e2105b54be8c1ba6a594a7cc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:18 +0000
Subject: [PATCH 27/30] fix: no self-induced velocity of a point vortex

---
 wiz/VortexPoint.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wiz/VortexPoint.py b/wiz/VortexPoint.py
index e36ea4c..97390c1 100644
--- a/wiz/VortexPoint.py
+++ b/wiz/VortexPoint.py
@@ -14,6 +14,7 @@ def vp_u(CP,Pv,Gamma=1,rcore=0,bViscous=False):
     """
     DP = CP - Pv
     r2 = DP[0] ** 2 + DP[1] ** 2
+    r2 = np.where(r2 < 1e-15, np.inf, r2) # No self-induced velocity, see vps_u
     t = np.array([- DP[1],DP[0]])
     if bViscous:
         U = Gamma * t[0] / r2 / (2 * np.pi) * (1 - np.exp(- r2 / rcore ** 2))
-- 
2.43.0


From e05a2b74209769fe05a6581b7de9a9700b463580 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:18 +0000
Subject: [PATCH 28/30] fix: longitudinal cylinder has values on its axis and
 on its sheet

---
 wiz/VortexCylinder.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/wiz/VortexCylinder.py b/wiz/VortexCylinder.py
index 8fa8943..a72a8fb 100644
--- a/wiz/VortexCylinder.py
+++ b/wiz/VortexCylinder.py
@@ -170,9 +170,14 @@ def vc_longi_u_polar(vr,vpsi,vz,gamma_l=-1,R=1,polar_out=False):
     m0    = 4*vr*R/((vr+R)**2)
     K     = ellipk(m)
     PI    = ellipticPiCarlson(m0,m)
-    Ar    = (vr-R+np.abs(R-vr))/(2*np.abs(R-vr))
+    # Special values: on the sheet (vr==R), mean of the two sides
+    K     = np.where(m==1 , 0, K )
+    PI    = np.where(vr==R, 0, PI)
+    Ar    = np.where(vr==R, 1/2, (vr-R+np.abs(R-vr))/(2*np.abs(R-vr)))
     Az    = vz*np.sqrt(m)/(2*np.pi*np.sqrt(vr*R))*(K-(R-vr)/(R+vr)*PI)
     u_psi = gamma_l/2*R/vr*(Ar +Az)
+    # Enforcing axis formula
+    u_psi = np.where(vr < EPSILON_AXIS*R, 0, u_psi)
     u_z = np.zeros(shape_in)
     if polar_out:
         u_r = np.zeros(shape_in)
-- 
2.43.0


From 8188d73ff263167f4a622d0b44da7eaf2ed8392b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:48:07 +0000
Subject: [PATCH 29/30] fix: antiderivative for finite doublet lines

The antiderivative of 3/(a^2-2bx+c^2x^2)^(5/2) had 2 instead of 3 as factor
of its linear term. Lines of moderate length had a wrong, not divergence-free
velocity; the error vanishes only for very long lines.
---
 wiz/VortexDoublet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiz/VortexDoublet.py b/wiz/VortexDoublet.py
index 348affe..3b95f2f 100644
--- a/wiz/VortexDoublet.py
+++ b/wiz/VortexDoublet.py
@@ -343,7 +343,7 @@ def _integrals_DL_finite(a,b,c,L):
         s=np.sign(b)
         return 3*s/(4*c*(a -s*c*x)**4)
     def i50indef_norm(a,b,c,x):
-        return ( b*(b**2 - 3*a**2*c**2) + 2*c**2*(b**2 + a**2*c**2)*x - 6*b*c**4*x**2 + 2*c**6*x**3 )/ ((b**2 - a**2*c**2)**2*(a**2 - 2*b*x + c**2*x**2)**(3/2) ) 
+        return ( b*(b**2 - 3*a**2*c**2) + 3*c**2*(b**2 + a**2*c**2)*x - 6*b*c**4*x**2 + 2*c**6*x**3 )/ ((b**2 - a**2*c**2)**2*(a**2 - 2*b*x + c**2*x**2)**(3/2) ) 
     # I51 = \int_0^L  x'   / ( a^2  - 2 b x'  + c^2 x'^2 )^(5/2) dx'
     def i51indef_sing(a,b,c,x):
         s=np.sign(b)
-- 
2.43.0


From 19a450dacd1e218c248ff779db9e68b50fe508f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:22 +0000
Subject: [PATCH 30/30] fix: unknown viscous models of semi-infinite lines are
 rejected

---
 wiz/VortexLine.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wiz/VortexLine.py b/wiz/VortexLine.py
index 25c9337..2e67c5e 100644
--- a/wiz/VortexLine.py
+++ b/wiz/VortexLine.py
@@ -18,6 +18,8 @@ def vl_semiinf_u(xa,ya,za,xe,ye,ze,Gamma,visc_model,t):
     See fUi_VortexlineSemiInfinite
     TODO vectorize 
     """
+    if visc_model not in [0,1,2,3,4,5]:
+        raise NotImplementedError('Viscous model: {}'.format(visc_model))
     norm_a      = np.sqrt(xa**2 + ya**2 + za**2)
     denominator = norm_a * (norm_a - (xa*xe + ya*ye + za*ze))
     crossprod   = np.array([ye*za - ze*ya, ze*xa - xe*za, xe*ya - ye*xa])
-- 
2.43.0

