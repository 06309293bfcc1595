From 719027922f53eb932e0db27482b46e47588e9364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:34 +0000
Subject: [PATCH 01/38] fix: recompute the wake skew angle at each compute_u
 unless prescribed by set_chi

---
 wiz/WindTurbine.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/wiz/WindTurbine.py b/wiz/WindTurbine.py
index 6405d68..e48f0de 100644
--- a/wiz/WindTurbine.py
+++ b/wiz/WindTurbine.py
@@ -85,7 +85,7 @@ class WindTurbine:
         self.Gamma_r=None
         self.Lambda=Lambda
         self.Ground=Ground # Ground effect will be included in calculation of induced velocity
-        self.chi=None
+        self.set_chi(None)
         self.Model=Model
 
     def set_yaw0_coord(self,e_shaft_yaw0,e_vert):
@@ -241,7 +241,9 @@ class WindTurbine:
 
 
     def set_chi(self,chi):
+        """ Prescribe the wake skew angle (None: determined from yaw_wind and yaw_pos) """
         self.chi=chi
+        self.chi_prescribed=chi is not None
     
     def compute_u(self, Xg, Yg, Zg, only_ind=False, longi=False, tang=True, root=False, no_wake=False, ground=None, Model=None, R_far_field=6): 
         """ 
@@ -271,7 +273,7 @@ class WindTurbine:
         Xc,Yc,Zc = transform_T(T_c2g, Xg,Yg,Zg)
         # Detecting whether our vertical convention match, and define chi
         e_vert_c = np.dot(T_c2g.T , self.e_vert_g)
-        if self.chi is None:
+        if not self.chi_prescribed:
             # TODO TODO chi needs induction effect!
             self.chi= np.sign(e_vert_c.ravel()[1])* (self.yaw_wind-self.yaw_pos)
         if self.gamma_t is None:
-- 
2.43.0


From f759ace3cf06ef8164050211b89ed3a6bae9ed1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:34 +0000
Subject: [PATCH 02/38] fix: wrap the wake skew angle to [-pi,pi] (aligned
 turbine with yaw of 270deg was seen as skewed)

---
 wiz/WindTurbine.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/wiz/WindTurbine.py b/wiz/WindTurbine.py
index e48f0de..e018443 100644
--- a/wiz/WindTurbine.py
+++ b/wiz/WindTurbine.py
@@ -275,7 +275,8 @@ class WindTurbine:
         e_vert_c = np.dot(T_c2g.T , self.e_vert_g)
         if not self.chi_prescribed:
             # TODO TODO chi needs induction effect!
-            self.chi= np.sign(e_vert_c.ravel()[1])* (self.yaw_wind-self.yaw_pos)
+            dyaw = (self.yaw_wind-self.yaw_pos+np.pi)%(2*np.pi)-np.pi # between -pi and pi
+            self.chi= np.sign(e_vert_c.ravel()[1])* dyaw
         if self.gamma_t is None:
             raise Exception('Please set loading with `update_loading` before calling `compute_u`')
 
-- 
2.43.0


From dfb3cb4750f23b3bf3984e9ee9626c9e032e9a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:34 +0000
Subject: [PATCH 03/38] fix: yaw_wind/yaw_error NaN from arccos roundoff, and
 yaw_error of 0 when the wind is opposite to the shaft

---
 wiz/WindTurbine.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/wiz/WindTurbine.py b/wiz/WindTurbine.py
index e018443..d170fc9 100644
--- a/wiz/WindTurbine.py
+++ b/wiz/WindTurbine.py
@@ -196,10 +196,9 @@ class WindTurbine:
         u_horz = self.U0_g - np.dot(self.U0_g.T,self.e_vert_g)*self.e_vert_g
         e_w    = u_horz/np.linalg.norm(u_horz)
         sign = np.sign  ( np.dot(np.cross(self.e_horz_g.T, self.U0_g.T),self.e_vert_g) )
-        if sign==0:
-            yaw_wind = np.arccos(np.dot(e_w.T,self.e_horz_g))
-        else:
-            yaw_wind = sign * np.arccos(np.dot(e_w.T,self.e_horz_g))
+        yaw_wind = np.arccos(np.clip(np.dot(e_w.T,self.e_horz_g),-1,1)) # clip for numerical precision
+        if sign!=0:
+            yaw_wind = sign * yaw_wind
         return yaw_wind.ravel()[0]
 
     @property
@@ -209,7 +208,9 @@ class WindTurbine:
         u_skew  = self.U0_g-np.dot(self.U0_g.T,e_horz)*e_horz-np.dot(self.U0_g.T,self.e_vert_g)*self.e_vert_g
         e_w=self.U0_g/np.linalg.norm(self.U0_g)
         yaw_sign=np.sign  ( np.dot(np.cross(e_w.T,self.e_shaft_g.T),self.e_vert_g) )
-        yaw_error=yaw_sign * np.arccos(np.dot(e_w.T,self.e_shaft_g))
+        yaw_error=np.arccos(np.clip(np.dot(e_w.T,self.e_shaft_g),-1,1)) # clip for numerical precision
+        if yaw_sign!=0:
+            yaw_error = yaw_sign * yaw_error
 #         U0_wt = np.dot( self.T_wt2g.T , self.U0_g)
 #         e_skew=u_skew/np.linalg.norm(u_skew)
 #         print('e_skew',e_skew.T)
-- 
2.43.0


From 5737d9d136994c4ed9605fcd8d10cf46b992e0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:34 +0000
Subject: [PATCH 04/38] fix: copy the arrays given to a WindTurbine, modifying
 them later changed the turbine

---
 wiz/WindTurbine.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/wiz/WindTurbine.py b/wiz/WindTurbine.py
index d170fc9..1d3fcec 100644
--- a/wiz/WindTurbine.py
+++ b/wiz/WindTurbine.py
@@ -89,9 +89,9 @@ class WindTurbine:
         self.Model=Model
 
     def set_yaw0_coord(self,e_shaft_yaw0,e_vert):
-        self.e_shaft_g = np.asarray(e_shaft_yaw0).ravel().reshape(3,1)
+        self.e_shaft_g = np.array(e_shaft_yaw0).ravel().reshape(3,1)
         self.e_shaft_g0= self.e_shaft_g
-        self.e_vert_g  = np.asarray(e_vert).ravel().reshape(3,1)
+        self.e_vert_g  = np.array(e_vert).ravel().reshape(3,1)
         v_horz0 = self.e_shaft_g -np.dot(self.e_shaft_g.T,self.e_vert_g)
         self.e_horz_g = v_horz0/np.linalg.norm(v_horz0)
         self.e_FAST_z = self.e_vert_g
@@ -115,10 +115,10 @@ class WindTurbine:
         self.e_shaft_g=np.dot(self.T_wt2g , self.e_shaft_g0)
 
     def update_position(self,r_hub):
-        self.r_hub=np.asarray(r_hub).ravel().reshape(3,1)
+        self.r_hub=np.array(r_hub).ravel().reshape(3,1)
 
     def update_wind(self,U0_g):
-        self.U0_g = np.asarray(U0_g).ravel().reshape(3,1)
+        self.U0_g = np.array(U0_g).ravel().reshape(3,1)
 
     def update_loading(self,r=None,Ct=None,Gamma=None,Lambda=None,nCyl=1,gamma_t_Ct=None):
         """ 
@@ -185,7 +185,7 @@ class WindTurbine:
         #print('Gamma_/2piR',-self.Gamma_r/(2*np.pi*self.R))
         #print(misc)
         self.Lambda=Lambda
-        self.r=r
+        self.r=np.array(r)
         self.Ct=Ct
 
     @property
-- 
2.43.0


From b18b15fab502cf766b1a50c93b28ef4aebbf4287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:34 +0000
Subject: [PATCH 05/38] fix: continuous circulation solver modified the
 caller's radial arrays

---
 wiz/Solver.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wiz/Solver.py b/wiz/Solver.py
index b1a6be4..68b8c73 100644
--- a/wiz/Solver.py
+++ b/wiz/Solver.py
@@ -78,6 +78,7 @@ def InductionsFromCirculation_VC_Cont(vr_bar,lambda_r,k,bSwirl,method='analytica
     misc={}
     # Safety
     if lambda_r[0]==0:
+        lambda_r    = np.array(lambda_r, dtype=float) # not modifying the array of the caller
         lambda_r[0]=lambda_r[1]*0.01;
     # --- Finding Cylinders intensities
     if method.lower()=='analytical':
@@ -123,6 +124,7 @@ def WakeVorticityFromCirculation_Cont(r_cp,Gamma_cp,R,U0,Omega,bSwirl,method='an
     r_cp     = np.asarray(r_cp).ravel()
     Gamma_cp = np.asarray(Gamma_cp).ravel()
     if r_cp[0]==0:
+        r_cp    = np.array(r_cp, dtype=float) # not modifying the array of the caller
         r_cp[0]=r_cp[1]*0.5;
     # Non dimensional parameters
     k        = Omega*Gamma_cp/(np.pi*U0**2)
-- 
2.43.0


From 12e6794629de54743ef33889816fee5b69a5b368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:34 +0000
Subject: [PATCH 06/38] fix: WakeVorticityFromCirculation_Discr, missing import
 of warnings and debugger call

---
 wiz/Solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiz/Solver.py b/wiz/Solver.py
index 68b8c73..b6da7d1 100644
--- a/wiz/Solver.py
+++ b/wiz/Solver.py
@@ -11,6 +11,7 @@ from __future__ import division
 from __future__ import print_function
 # --- General
 import unittest
+import warnings
 import numpy as np
 import scipy.optimize as sciopt
 import scipy.integrate as sciint
@@ -172,7 +173,6 @@ def WakeVorticityFromCirculation_Discr(r_cp,Gamma_cp,R,U0,Omega,nB,bSwirl,method
     # --- Checks
     if np.amax(r_cyl) < np.amax(r_cp):
         warnings.warn('Cylinders are assumed to enclose the control points')
-        import pdb; pdb.set_trace()
     if r_cyl[0] == 0:
         raise Exception('First cylinder at 0, impossible')
 
-- 
2.43.0


From d7cc100574c8bb492a1c2b5ca4e9764f8c925302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:34 +0000
Subject: [PATCH 07/38] fix: tangential convection velocity, Eq (26) of [1] is
 dimensionless: (G_i+G_i+1)/(4 pi Omega R_i^2)

---
 wiz/Solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wiz/Solver.py b/wiz/Solver.py
index b6da7d1..ea44300 100644
--- a/wiz/Solver.py
+++ b/wiz/Solver.py
@@ -198,8 +198,8 @@ def WakeVorticityFromCirculation_Discr(r_cp,Gamma_cp,R,U0,Omega,nB,bSwirl,method
             # Tangential convection velocity as the mean of velocity on both side of the cylinder)
             # See Equation (26) of [1]:  a'_c,i = (\Gamma_i+\Gamma_i+1)/(4 pi Omega R_i^2)
             ap_cyl_conv      = np.zeros(Gamma_cp.shape)
-            ap_cyl_conv[:-1] = (Gamma_cp[:-1] + Gamma_cp[1:])/(4*np.pi*Omega*r_cyl[:-1])**2
-            ap_cyl_conv[-1]  = Gamma_cp[-1]/(4*np.pi*Omega*r_cyl[-1])**2
+            ap_cyl_conv[:-1] = (Gamma_cp[:-1] + Gamma_cp[1:])/(4*np.pi*Omega*r_cyl[:-1]**2)
+            ap_cyl_conv[-1]  = Gamma_cp[-1]/(4*np.pi*Omega*r_cyl[-1]**2)
         # --- Allocation
         b           = np.zeros(n) # Cummulative sum of gamma_bar
         S           = np.zeros(n) # Term under the square root
-- 
2.43.0


From f8fda25b31f8948a875047938ac20cfce6f50b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:34 +0000
Subject: [PATCH 08/38] fix: infinite tip-speed ratio replaced by a large
 tip-speed ratio, independent of U0 and R

---
 wiz/Solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wiz/Solver.py b/wiz/Solver.py
index ea44300..3bc6524 100644
--- a/wiz/Solver.py
+++ b/wiz/Solver.py
@@ -293,7 +293,7 @@ def WakeVorticityFromCirculation_Discr(r_cp,Gamma_cp,R,U0,Omega,nB,bSwirl,method
 def WakeVorticityFromCt(r,Ct,R,U0,Omega):
     """ Returns the wake vorticity intensity for a given Ct"""
     if Omega==np.inf:
-        Omega=800 # TODO, implement infinite lambd formulae directly
+        Omega=10000*U0/R # TODO, implement infinite lambd formulae directly
     Lambda=Omega*R/U0
     bSwirl=Lambda<20
     vk=CirculationFromPrescribedCt(r/R,Ct,Lambda,bSwirl)
@@ -303,7 +303,7 @@ def WakeVorticityFromCt(r,Ct,R,U0,Omega):
 def WakeVorticityFromGamma(r,Gamma,R,U0,Omega):
     """ Returns the wake vorticity intensity for a given circulation """
     if Omega==np.inf:
-        Omega=800 # TODO, implement infinite lambd formulae directly
+        Omega=10000*U0/R # TODO, implement infinite lambd formulae directly
     Lambda=Omega*R/U0
     bSwirl=Lambda<20
     return WakeVorticityFromCirculation_Discr(r,Gamma,R,U0,Omega,nB=1,bSwirl=bSwirl)
-- 
2.43.0


From 47983f2c15ffdc803cdcbc53c52bff8e9a1e1a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:34 +0000
Subject: [PATCH 09/38] fix: svc_longi_u polar output returned u_psi as the
 radial component

---
 wiz/VortexCylinderSkewed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiz/VortexCylinderSkewed.py b/wiz/VortexCylinderSkewed.py
index d1001c9..8dda673 100644
--- a/wiz/VortexCylinderSkewed.py
+++ b/wiz/VortexCylinderSkewed.py
@@ -153,7 +153,7 @@ def svc_longi_u_polar(vr,vpsi,vz,gamma_l=-1,R=1,m=0,ntheta=180,polar_out=False):
             u_psi[i] = np.trapz((r - m*z*np.cos(psi) - np.cos(vtheta-psi))*DenInv,vtheta)
             u_z[i]   = np.trapz(m * (-np.sin(vtheta) + r*np.sin(psi))     *DenInv,vtheta)
         # Reshaping to input shape
-        u_r   =  u_psi.reshape(shape_in) 
+        u_r   =  u_r.reshape(shape_in) 
         u_psi =  u_psi.reshape(shape_in) 
         u_z   =  u_z.reshape(shape_in)   
         return (u_r,u_psi,u_z)
-- 
2.43.0


From 26058c2ee63aed0ea03f7309ebfeb9916361008a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:34 +0000
Subject: [PATCH 10/38] fix: svc_root_u polar output, radial component not
 reshaped to the input shape

---
 wiz/VortexCylinderSkewed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiz/VortexCylinderSkewed.py b/wiz/VortexCylinderSkewed.py
index 8dda673..c6139c9 100644
--- a/wiz/VortexCylinderSkewed.py
+++ b/wiz/VortexCylinderSkewed.py
@@ -223,7 +223,7 @@ def svc_root_u_polar(vr,vpsi,vz,Gamma_r=-1,m=0,polar_out=False):
     # Reshaping to input shape
     u_z   =  u_z.reshape(shape_in) 
     if polar_out:
-        u_r   = u_x * np.cos(vpsi) + u_y * np.sin(vpsi)
+        u_r   = (u_x * np.cos(vpsi) + u_y * np.sin(vpsi)).reshape(shape_in)
         u_psi = u_psi.reshape(shape_in) 
         return (u_r,u_psi,u_z)
     else:
-- 
2.43.0


From fc4b6ea94543e1b6c358d3f5184ae6dc0dbc1b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:34 +0000
Subject: [PATCH 11/38] fix: fKxit, mask overwrote the parameter b1 of the
 elliptic integral when m!=0

---
 wiz/VortexCylinderSkewed.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/wiz/VortexCylinderSkewed.py b/wiz/VortexCylinderSkewed.py
index c6139c9..da44f27 100644
--- a/wiz/VortexCylinderSkewed.py
+++ b/wiz/VortexCylinderSkewed.py
@@ -433,10 +433,9 @@ def fKxit(vr,m):
         Kxit[b1] = np.multiply(1/(np.pi)*np.sqrt(1.0/vr[b1]),(np.multiply((2 - k2[b1]) / k[b1],K[b1]) - np.multiply(2.0/k[b1],E[b1])))
         Kxit[b0] = 0
     else:
-        b1 = (vr) > (EPSILON_AXIS) 
-        b0 = np.logical_not(b1)
-        Kxit[b1] = np.multiply(2*(1+m**2)*vr[b1]/(m**2*np.pi),kr2[b1]) - np.multiply(np.multiply(vr[b1],(vr[b1] + 1))*np.sqrt(m ** 2 + 1)/(2*m**2*np.pi*np.sqrt(m**2+vr[b1]**2)),(np.multiply((b1[b1]+j2[b1]),Pi1[b1]) + np.multiply((b2[b1]-j2[b1]),Pi2[b1])))
-        Kxit[b0] = 0
+        bnIz = (vr) > (EPSILON_AXIS) # NOTE: b1 and b2 are parameters of the elliptic integrals
+        Kxit[bnIz] = np.multiply(2*(1+m**2)*vr[bnIz]/(m**2*np.pi),kr2[bnIz]) - np.multiply(np.multiply(vr[bnIz],(vr[bnIz] + 1))*np.sqrt(m ** 2 + 1)/(2*m**2*np.pi*np.sqrt(m**2+vr[bnIz]**2)),(np.multiply((b1[bnIz]+j2[bnIz]),Pi1[bnIz]) + np.multiply((b2[bnIz]-j2[bnIz]),Pi2[bnIz])))
+        Kxit[~bnIz] = 0
     # See yaw article
     chi = np.arctan(m)
     vtheta = np.linspace(0,np.pi / 2,1000)
-- 
2.43.0


From 77eef7580ed0affc78e45b221a009906e0f95985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:34 +0000
Subject: [PATCH 12/38] fix: fKzt, chi undefined when nout>3

---
 wiz/VortexCylinderSkewed.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/wiz/VortexCylinderSkewed.py b/wiz/VortexCylinderSkewed.py
index da44f27..705eec9 100644
--- a/wiz/VortexCylinderSkewed.py
+++ b/wiz/VortexCylinderSkewed.py
@@ -486,6 +486,7 @@ def fKzt(r,m,nout=2):
         for ir,r in enumerate(vr):
             Kztnum3[ir] = 2 * r * np.sqrt(1 + m ** 2) * m / np.pi * np.trapz(np.sin(2 * vtheta) ** 2.0 / (np.multiply(np.sqrt((1 + r) ** 2 - 4 * r * np.cos(vtheta) ** 2),((1 + r) ** 2 - 4 * r * np.cos(vtheta) ** 2 + m ** 2 * np.sin(2 * vtheta) ** 2))),vtheta)
         # My formula Alternative form4
+        chi = np.arctan(m)
         vtheta = np.linspace(0,np.pi / 2,1000)
         for ir,r in enumerate(vr):
             Kztnum4[ir] = 2 * r / np.pi * 1 * np.sin(chi) * np.trapz(np.sin(2 * vtheta) ** 2.0 / (np.multiply(np.sqrt((1 + r) ** 2 - 4 * r * np.cos(vtheta) ** 2),((r - np.cos(2 * vtheta)) ** 2 * np.cos(chi) ** 2 + np.sin(2 * vtheta) ** 2))),vtheta)
-- 
2.43.0


From 13416e543aa975c409bafad70da477d71cec2e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:07 +0000
Subject: [PATCH 13/38] fix: vl_semiinf_straight_u returned NaN on the vortex
 line (e.g. root vortex at rotor center)

---
 wiz/VortexLine.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/wiz/VortexLine.py b/wiz/VortexLine.py
index 065dca8..c5c1558 100644
--- a/wiz/VortexLine.py
+++ b/wiz/VortexLine.py
@@ -78,7 +78,10 @@ def vl_semiinf_straight_u_polar(vr,vpsi,vz,Gamma_r=-1,polar_out=False):
     vpsi     = np.asarray(vpsi)
     vz       = np.asarray(vz)
 
-    u_psi = Gamma_r/(4*np.pi*vr) * ( 1 + vz/np.sqrt(vr**2 + vz**2) ) 
+    # On the line itself, the velocity is set to 0
+    bAxis = vr<EPSILON_AXIS
+    vrs   = np.where(bAxis, 1, vr)
+    u_psi = np.where(bAxis, 0, Gamma_r/(4*np.pi*vrs) * ( 1 + vz/np.sqrt(vrs**2 + vz**2) ) )
 
     u_z = np.zeros(shape_in)
     if polar_out:
-- 
2.43.0


From ac4f3c4984c79002e11fb96f429da7ac2d349bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:07 +0000
Subject: [PATCH 14/38] fix: vc_longi_u returned NaN on the axis and on the
 cylinder surface

---
 wiz/VortexCylinder.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/wiz/VortexCylinder.py b/wiz/VortexCylinder.py
index d3c0836..4bf2e7a 100644
--- a/wiz/VortexCylinder.py
+++ b/wiz/VortexCylinder.py
@@ -170,9 +170,13 @@ def vc_longi_u_polar(vr,vpsi,vz,gamma_l=-1,R=1,polar_out=False):
     m0    = 4*vr*R/((vr+R)**2)
     K     = ellipk(m)
     PI    = ellipticPiCarlson(m0,m)
-    Ar    = (vr-R+np.abs(R-vr))/(2*np.abs(R-vr))
-    Az    = vz*np.sqrt(m)/(2*np.pi*np.sqrt(vr*R))*(K-(R-vr)/(R+vr)*PI)
-    u_psi = gamma_l/2*R/vr*(Ar +Az)
+    K     = np.where(np.isfinite(K) , K , 0) # rim, vz=0
+    PI    = np.where(np.isfinite(PI), PI, 0) # r=R, the factor of PI is zero
+    Ar    = np.where(vr>R, 1, np.where(vr==R, 1/2, 0))
+    bAxis = vr<EPSILON_AXIS*R
+    vrs   = np.where(bAxis, R, vr)
+    Az    = vz*np.sqrt(m)/(2*np.pi*np.sqrt(vrs*R))*(K-(R-vr)/(R+vr)*PI)
+    u_psi = np.where(bAxis, 0, gamma_l/2*R/vrs*(Ar +Az))
     u_z = np.zeros(shape_in)
     if polar_out:
         u_r = np.zeros(shape_in)
-- 
2.43.0


From 0ba4d34d86da5c86cd6683f52fdd2f30130fecb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:07 +0000
Subject: [PATCH 15/38] fix: vc_tang_u_doublet, Ycp may be a scalar or a list,
 like Xcp and Zcp

---
 wiz/VortexCylinder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiz/VortexCylinder.py b/wiz/VortexCylinder.py
index 4bf2e7a..e0087f0 100644
--- a/wiz/VortexCylinder.py
+++ b/wiz/VortexCylinder.py
@@ -32,7 +32,7 @@ def vc_tang_u_doublet(Xcp,Ycp,Zcp,gamma_t=-1,R=1,r_bar_Cut=6, polar_out=True):
     Xcp=np.asarray(Xcp)
     shape_in=Xcp.shape
     Xcp=Xcp.ravel()
-    Ycp=Ycp.ravel()
+    Ycp=np.asarray(Ycp).ravel()
     Zcp=np.asarray(Zcp).ravel()
     Rcp  = np.sqrt(Xcp ** 2 + Ycp **2)
     Rsph = np.sqrt(Rcp ** 2 + Zcp **2)
-- 
2.43.0


From 9db0805d0767a655ee84ad0864f0aa9b454283b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:46 +0000
Subject: [PATCH 16/38] fix: cylinder_tang_u returned NaN on the axis and on
 the cylinder surface

---
 wiz/VortexCylinder.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/wiz/VortexCylinder.py b/wiz/VortexCylinder.py
index e0087f0..9b7caae 100644
--- a/wiz/VortexCylinder.py
+++ b/wiz/VortexCylinder.py
@@ -315,6 +315,9 @@ def cylinder_tang_u(Xcp,Ycp,Zcp,gamma_t=-1,R=1,z1=-2,z2=2,polar_out=True,epsilon
     r = np.sqrt(Xcp ** 2 + Ycp ** 2)
     ur = np.full(r.shape,np.nan)
     uz = np.full(r.shape,np.nan)
+    # Axis: computed at r=R to avoid singularities, replaced at the end by the axis formula
+    bAxis = r < (EPSILON_AXIS * R)
+    r     = np.where(bAxis, R, r)
     ## Vectorialization
     zz1 = Zcp - z1
     zz2 = Zcp - z2
@@ -332,10 +335,18 @@ def cylinder_tang_u(Xcp,Ycp,Zcp,gamma_t=-1,R=1,z1=-2,z2=2,polar_out=True,epsilon
     KK2 = ellipk(k2_2)
     PI1 = ellipticPiCarlson(k0_2,k1_2)
     PI2 = ellipticPiCarlson(k0_2,k2_2)
+    # --- Special values, the factor of PI is zero when r=R, the factor of K is zero at the rims
+    PI1 = np.where(np.isfinite(PI1), PI1, 0)
+    PI2 = np.where(np.isfinite(PI2), PI2, 0)
+    KK1 = np.where(np.isfinite(KK1), KK1, 0)
+    KK2 = np.where(np.isfinite(KK2), KK2, 0)
     # ur
     ur = np.multiply(gamma_t / (2 * np.pi) * np.sqrt(R / r),((np.multiply((2 - k2_2) / k2,KK2) - np.multiply(2.0 / k2,EE2)) - (np.multiply((2 - k1_2) / k1,KK1) - np.multiply(2.0 / k1,EE1))))
     # uz
     uz = np.multiply(- gamma_t / (4 * np.pi * np.sqrt(r * R)),((np.multiply(np.multiply(zz2,k2),(KK2 + np.multiply((R - r) / (R + r),PI2)))) - (np.multiply(np.multiply(zz1,k1),(KK1 + np.multiply((R - r) / (R + r),PI1))))))
+    # Enforcing axis formula
+    ur = np.where(bAxis, 0, ur)
+    uz = np.where(bAxis, gamma_t/2*(zz1/np.sqrt(zz1**2+R**2) - zz2/np.sqrt(zz2**2+R**2)), uz)
     if polar_out:
         return ur,uz
     else:
-- 
2.43.0


From 05279b582de0000cac3a1d35159296eaf25c9c56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:46 +0000
Subject: [PATCH 17/38] fix: ground effect of root and longitudinal vorticity,
 mirror image has opposite swirl (no flow through the ground)

---
 wiz/VortexCylinder.py       | 21 +++++++++++++--------
 wiz/VortexCylinderSkewed.py |  3 ++-
 wiz/WindTurbine.py          | 14 ++++++++------
 3 files changed, 23 insertions(+), 15 deletions(-)

diff --git a/wiz/VortexCylinder.py b/wiz/VortexCylinder.py
index 9b7caae..48de397 100644
--- a/wiz/VortexCylinder.py
+++ b/wiz/VortexCylinder.py
@@ -269,7 +269,7 @@ def vcs_tang_u(Xcp,Ycp,Zcp,gamma_t,R,Xcyl,Ycyl,Zcyl,epsilon=0,Ground=False):
     
 def vcs_longi_u(Xcp,Ycp,Zcp,gamma_l,R,Xcyl,Ycyl,Zcyl,Ground=False):
     """ see vcs_tang_u 
-    NOTE: Longi vorticity shouldn't matter for ground effect
+    NOTE: the swirl of the mirror image is opposite to the one of the cylinder
     """ 
     Xcp=np.asarray(Xcp)
     Ycp=np.asarray(Ycp)
@@ -281,13 +281,18 @@ def vcs_longi_u(Xcp,Ycp,Zcp,gamma_l,R,Xcyl,Ycyl,Zcyl,Ground=False):
     print('Longi. (straight) ',end='')
     for i in np.arange(nCyl):
         Xcp0,Ycp0,Zcp0=Xcp-Xcyl[i],Ycp-Ycyl[i],Zcp-Zcyl[i]
-        for j in np.arange(nr):
-            print('.',end='')
-            if np.abs(gamma_l[i,j]) > 0:
-                ux1,uy1,uz1 = vc_longi_u(Xcp0,Ycp0,Zcp0,gamma_l[i,j],R[i,j],polar_out=False)
-                ux = ux + ux1
-                uy = uy + uy1
-                uz = uz + uz1
+        if Ground:
+            YSlist = [(Ycp0,1),(Ycp0+2*Ycyl[i],-1)]
+        else:
+            YSlist = [(Ycp0,1)]
+        for Y,s in YSlist:
+            for j in np.arange(nr):
+                print('.',end='')
+                if np.abs(gamma_l[i,j]) > 0:
+                    ux1,uy1,uz1 = vc_longi_u(Xcp0,Y,Zcp0,s*gamma_l[i,j],R[i,j],polar_out=False)
+                    ux = ux + ux1
+                    uy = uy + uy1
+                    uz = uz + uz1
     print('')
     return ux,uy,uz
 
diff --git a/wiz/VortexCylinderSkewed.py b/wiz/VortexCylinderSkewed.py
index 705eec9..7d03085 100644
--- a/wiz/VortexCylinderSkewed.py
+++ b/wiz/VortexCylinderSkewed.py
@@ -359,7 +359,8 @@ def svcs_longi_u(Xcp,Ycp,Zcp,gamma_l,R,m,Xcyl,Ycyl,Zcyl,ntheta=180,Ground=False)
                 else:
                     print('m',end='')
                 if np.abs(gamma_l[i,j]) > 0:
-                    ux1,uy1,uz1 = svc_longi_u(Xcp0,Ycp0,Zcp0,gamma_l[i,j],R[i,j],m[i,j],ntheta=ntheta,polar_out=False)
+                    s = 1 if iy==0 else -1 # swirl is opposite for the mirror image
+                    ux1,uy1,uz1 = svc_longi_u(Xcp0,Y,Zcp0,s*gamma_l[i,j],R[i,j],m[i,j],ntheta=ntheta,polar_out=False)
                     ux = ux + ux1
                     uy = uy + uy1
                     uz = uz + uz1
diff --git a/wiz/WindTurbine.py b/wiz/WindTurbine.py
index 1d3fcec..5d9be13 100644
--- a/wiz/WindTurbine.py
+++ b/wiz/WindTurbine.py
@@ -293,17 +293,19 @@ class WindTurbine:
             # Mirror control points are two time the hub height above the cylinder
             Yc0mirror=Yc0+2*Ycyl[0]
             Ylist=[Yc0,Yc0mirror]
+            Slist=[1,-1] # sign of swirl (root and longi vorticity) is opposite for the mirror image
             #print('>>> Ground effect',Ycyl[0])
         else:
             Ylist=[Yc0]
+            Slist=[1]
 
         # --- Root vortex influence
         if root and  (self.Gamma_r is not None) and self.Gamma_r!=0:
-            for Y in Ylist:
+            for Y,s in zip(Ylist,Slist):
                 if np.abs(self.chi)>1e-7:
-                    uxc0,uyc0,uzc0 = svc_root_u(Xc0,Y,Zc0,Gamma_r=self.Gamma_r,m=m,polar_out=False)
+                    uxc0,uyc0,uzc0 = svc_root_u(Xc0,Y,Zc0,Gamma_r=s*self.Gamma_r,m=m,polar_out=False)
                 else:
-                    uxc0,uyc0,uzc0 =  vc_root_u(Xc0,Y,Zc0,Gamma_r=self.Gamma_r,polar_out=False)
+                    uxc0,uyc0,uzc0 =  vc_root_u(Xc0,Y,Zc0,Gamma_r=s*self.Gamma_r,polar_out=False)
                 uxc += uxc0
                 uyc += uyc0
                 uzc += uzc0
@@ -311,7 +313,7 @@ class WindTurbine:
 
         if len(self.gamma_t)==1:
             # --- Tangential and longi - ONE Cylinder only
-            for iY,Y in enumerate(Ylist):
+            for Y,s in zip(Ylist,Slist):
                 if tang and (self.gamma_t!=0):
                     if np.abs(self.chi)>1e-7:
                         if Model =='VC':
@@ -337,12 +339,12 @@ class WindTurbine:
                 if longi and (self.gamma_l is not None) and self.gamma_l!=0 :
                     if np.abs(self.chi)>1e-7:
                         if Model =='VC':
-                            uxc0,uyc0,uzc0 = svc_longi_u(Xc0,Y,Zc0,gamma_l=self.gamma_l,R=self.R,m=m,polar_out=False)
+                            uxc0,uyc0,uzc0 = svc_longi_u(Xc0,Y,Zc0,gamma_l=s*self.gamma_l,R=self.R,m=m,polar_out=False)
                         else:
                             raise NotImplementedError('Model '+Model + ', longi component.')
                     else:
                         if Model =='VC':
-                            uxc0,uyc0,uzc0 = vc_longi_u (Xc0,Y,Zc0,gamma_l=self.gamma_l,R=self.R    ,polar_out=False)
+                            uxc0,uyc0,uzc0 = vc_longi_u (Xc0,Y,Zc0,gamma_l=s*self.gamma_l,R=self.R    ,polar_out=False)
                         else:
                             raise NotImplementedError('Model'+Model + ', longi component.')
                     uxc += uxc0
-- 
2.43.0


From 58a9f4475901aa61356c3b9a60d4b470364377ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:46 +0000
Subject: [PATCH 18/38] fix: ring_u_polar linear regularization ignored the
 ring strength and radius

---
 wiz/VortexRing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wiz/VortexRing.py b/wiz/VortexRing.py
index 913f879..7fd81c4 100644
--- a/wiz/VortexRing.py
+++ b/wiz/VortexRing.py
@@ -87,8 +87,8 @@ def ring_u_polar(r,z,Gamma=-1,r0=1,z0=0,epsilon=0, reg_method='Saffman'):
             # Continuity in z
             rr= r0-epsilon/2
             zz= 0
-            _,uzp = ring_u_polar_singular(r0+epsilon/2, 0)
-            _,uzm = ring_u_polar_singular(r0-epsilon/2, 0)
+            _,uzp = ring_u_polar_singular(r0+epsilon/2, 0, Gamma, r0)
+            _,uzm = ring_u_polar_singular(r0-epsilon/2, 0, Gamma, r0)
             uz_mean = uzp+uzm
             #r_ref = 
             #Ir = rho < epsilon/2 
-- 
2.43.0


From e346db97938efe7094d9acc0c23463fcc3373acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:46 +0000
Subject: [PATCH 19/38] fix: gridLayout failed with the default value of
 zSpacing

---
 wiz/WindFarm.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wiz/WindFarm.py b/wiz/WindFarm.py
index a3b4794..523bba2 100644
--- a/wiz/WindFarm.py
+++ b/wiz/WindFarm.py
@@ -92,6 +92,8 @@ def gridLayout(nx,xSpacing,nz,zSpacing=None,hub_height=0,mirror=False):
           z is longi, positive along the wake
       If mirror is true, mirrored turbines are placed at y=-hubheight
     """
+    if zSpacing is None:
+        zSpacing=xSpacing
     if mirror:
         ny=2
     else:
-- 
2.43.0


From 2118230414dfde3a5ca32e79586027118ff659e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:46 +0000
Subject: [PATCH 20/38] fix: vl_semiinf_u, distance to the line used undefined
 variables for viscous models 1-3

---
 wiz/VortexLine.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/wiz/VortexLine.py b/wiz/VortexLine.py
index c5c1558..c2f1f82 100644
--- a/wiz/VortexLine.py
+++ b/wiz/VortexLine.py
@@ -31,21 +31,21 @@ def vl_semiinf_u(xa,ya,za,xe,ye,ze,Gamma,visc_model,t):
         Kv = 1.0
     elif visc_model==1:
         # Rankine  - t<=>rc 
-        norm_r0 = np.sqrt((xa - xb) * (xa - xb) + (ya - yb) * (ya - yb) + (za - zb) * (za - zb))
-        h = np.sqrt(crossprod[0]**2 + crossprod[1]**2+ crossprod[2]**2) / norm_r0
+        # NOTE: e is a unit vector
+        h = np.sqrt(crossprod[0]**2 + crossprod[1]**2+ crossprod[2]**2)
         if (h < t):
             Kv = h * h / t / t
         else:
             Kv = 1.0
     elif visc_model==2:
         # Lamb-Oseen  - t<=>rc
-        norm_r0 = np.sqrt((xa - xb) * (xa - xb) + (ya - yb) * (ya - yb) + (za - zb) * (za - zb))
-        h = np.sqrt(crossprod[0]**2 + crossprod[1]**2+ crossprod[2]**2) / norm_r0
+        # NOTE: e is a unit vector
+        h = np.sqrt(crossprod[0]**2 + crossprod[1]**2+ crossprod[2]**2)
         Kv = 1.0 - np.exp(- 1.25643 * h * h / t / t)
     elif visc_model==3:
         # Vatistas n=2  - t<=>rc */
-        norm_r0 = np.sqrt((xa - xb) * (xa - xb) + (ya - yb) * (ya - yb) + (za - zb) * (za - zb))
-        h = np.sqrt(crossprod[0]**2 + crossprod[1]**2+ crossprod[2]**2) / norm_r0
+        # NOTE: e is a unit vector
+        h = np.sqrt(crossprod[0]**2 + crossprod[1]**2+ crossprod[2]**2)
         Kv = h * h / np.sqrt(t ** 4 + h ** 4)
     elif visc_model==4:
         # Cut-off radius no dimensions - delta*norm(r0)^2 - t<=>delta^2
-- 
2.43.0


From d52555a45d8a40cf659250239b0b3976326a10d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:28 +0000
Subject: [PATCH 21/38] fix: high-thrust correction of an outer cylinder
 changed the momentum balance of the inner ones (no swirl)

---
 wiz/Solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiz/Solver.py b/wiz/Solver.py
index 3bc6524..f2f193a 100644
--- a/wiz/Solver.py
+++ b/wiz/Solver.py
@@ -222,7 +222,7 @@ def WakeVorticityFromCirculation_Discr(r_cp,Gamma_cp,R,U0,Omega,nB,bSwirl,method
                 Ctrot_loc[i] = 0
             else:
                 b[i]         = 1 + np.sum(gamma_t_bar[i+1:])                         # Eq.(25)
-                S[i]         = b[i]**2 - (k_r[i] - k_r[i+1])*(1 + ap_cyl_conv[i])    # Eq.(28)
+                S[i]         = S[i+1]  - (k_r[i] - k_r[i+1])*(1 + ap_cyl_conv[i])    # Eq.(28), S[i+1]=b[i]**2 without high-thrust correction
                 Ctrot_loc[i] = (k_r[i+1]/2)**2*(1/lambda_R[i]**2-1/lambda_R[i+1]**2) # Eq.(33)
             if not bSwirl:
                 Ctrot[i] = 0
-- 
2.43.0


From e7b714b3ea32b3d2f8ea94494273d2d188e60c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:15 +0000
Subject: [PATCH 22/38] fix: longitudinal vorticity of a one-cylinder turbine
 did not conserve the circulation (defined at 0.995R, used at R)

---
 wiz/WindTurbine.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/wiz/WindTurbine.py b/wiz/WindTurbine.py
index 5d9be13..da62fec 100644
--- a/wiz/WindTurbine.py
+++ b/wiz/WindTurbine.py
@@ -337,14 +337,15 @@ class WindTurbine:
                     uyc += uyc0
                     uzc += uzc0
                 if longi and (self.gamma_l is not None) and self.gamma_l!=0 :
+                    gamma_l = self.gamma_l*self.r[0]/self.R # gamma_l is defined at the control point, conserving the circulation
                     if np.abs(self.chi)>1e-7:
                         if Model =='VC':
-                            uxc0,uyc0,uzc0 = svc_longi_u(Xc0,Y,Zc0,gamma_l=s*self.gamma_l,R=self.R,m=m,polar_out=False)
+                            uxc0,uyc0,uzc0 = svc_longi_u(Xc0,Y,Zc0,gamma_l=s*gamma_l,R=self.R,m=m,polar_out=False)
                         else:
                             raise NotImplementedError('Model '+Model + ', longi component.')
                     else:
                         if Model =='VC':
-                            uxc0,uyc0,uzc0 = vc_longi_u (Xc0,Y,Zc0,gamma_l=s*self.gamma_l,R=self.R    ,polar_out=False)
+                            uxc0,uyc0,uzc0 = vc_longi_u (Xc0,Y,Zc0,gamma_l=s*gamma_l,R=self.R    ,polar_out=False)
                         else:
                             raise NotImplementedError('Model'+Model + ', longi component.')
                     uxc += uxc0
-- 
2.43.0


From 7d4363462d63fe09fa864f53e5a72176b0900e2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:58 +0000
Subject: [PATCH 23/38] fix: svc_root_u returned NaN on the root vortex at zero
 skew

---
 wiz/VortexCylinderSkewed.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/wiz/VortexCylinderSkewed.py b/wiz/VortexCylinderSkewed.py
index 7d03085..91ce799 100644
--- a/wiz/VortexCylinderSkewed.py
+++ b/wiz/VortexCylinderSkewed.py
@@ -195,7 +195,9 @@ def svc_root_u_polar(vr,vpsi,vz,Gamma_r=-1,m=0,polar_out=False):
     # --- Computes ux, uy, uz, upsi
     u_z = np.zeros(vr.shape)
     if (m == 0):
-        u_psi = np.multiply(Gamma_r/(4*np.pi*vr), (1+vz/np.sqrt(vr** 2 + vz**2)))
+        bAxis = vr<EPSILON_AXIS # On the vortex itself, the velocity is set to 0
+        vrs   = np.where(bAxis, 1, vr)
+        u_psi = np.where(bAxis, 0, Gamma_r/(4*np.pi*vrs) * (1+vz/np.sqrt(vrs**2 + vz**2)))
         u_x   = -np.sin(vpsi)*u_psi
         u_y   =  np.cos(vpsi)*u_psi
     else:
-- 
2.43.0


From 32bee6ef5dba42a7e28f347cb251bd7301c0fa23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:38 +0000
Subject: [PATCH 24/38] fix: finite doublet line, antiderivative of the I50
 integral

---
 wiz/VortexDoublet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiz/VortexDoublet.py b/wiz/VortexDoublet.py
index 348affe..3b95f2f 100644
--- a/wiz/VortexDoublet.py
+++ b/wiz/VortexDoublet.py
@@ -343,7 +343,7 @@ def _integrals_DL_finite(a,b,c,L):
         s=np.sign(b)
         return 3*s/(4*c*(a -s*c*x)**4)
     def i50indef_norm(a,b,c,x):
-        return ( b*(b**2 - 3*a**2*c**2) + 2*c**2*(b**2 + a**2*c**2)*x - 6*b*c**4*x**2 + 2*c**6*x**3 )/ ((b**2 - a**2*c**2)**2*(a**2 - 2*b*x + c**2*x**2)**(3/2) ) 
+        return ( b*(b**2 - 3*a**2*c**2) + 3*c**2*(b**2 + a**2*c**2)*x - 6*b*c**4*x**2 + 2*c**6*x**3 )/ ((b**2 - a**2*c**2)**2*(a**2 - 2*b*x + c**2*x**2)**(3/2) ) 
     # I51 = \int_0^L  x'   / ( a^2  - 2 b x'  + c^2 x'^2 )^(5/2) dx'
     def i51indef_sing(a,b,c,x):
         s=np.sign(b)
-- 
2.43.0


From 534a70e17f91738fcdd26874ee890fbada35c951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:15 +0000
Subject: [PATCH 25/38] fix: vorticity given by the user's law was not copied
 by the turbine

---
 wiz/WindTurbine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiz/WindTurbine.py b/wiz/WindTurbine.py
index da62fec..768621a 100644
--- a/wiz/WindTurbine.py
+++ b/wiz/WindTurbine.py
@@ -169,7 +169,7 @@ class WindTurbine:
         if gamma_t_Ct is not None:
             if Ct is None:
                 raise Exception('Provide `Ct` along `gamma_t_Ct`')
-            self.gamma_t = gamma_t_Ct(Ct)
+            self.gamma_t = np.array(gamma_t_Ct(Ct)) # own copy, the function may return an array of the caller
             self.gamma_l=None # TODO
             self.Gamma_r=None # TODO
         elif Ct is not None:
-- 
2.43.0


From 751c75b831dbc1cfebeffb8ffe2b36c755be4cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:36 +0000
Subject: [PATCH 26/38] fix: ellipticPiCarlson failed for empty arrays that are
 not one-dimensional

---
 wiz/elliptic.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/wiz/elliptic.py b/wiz/elliptic.py
index 1d7f98d..438f8af 100644
--- a/wiz/elliptic.py
+++ b/wiz/elliptic.py
@@ -151,8 +151,8 @@ def ellipticPiCarlson(n,m):
     if type(m) is not np.ndarray:
         m=np.array(m)
         n=np.array(n)
-    if m.shape==(0,):
-        return np.array([])
+    if m.size==0:
+        return np.zeros(m.shape)
     RF = ellipticRF(1-m)
     RJ = ellipticRJ(1-m,1-n)
     PI = RF + 1/3*n*RJ
-- 
2.43.0


From 03b7147cb602b27ab2f9e803ea3a0a78cceda317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:36 +0000
Subject: [PATCH 27/38] fix: svc_root_u_polar failed for an empty request

---
 wiz/VortexCylinderSkewed.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiz/VortexCylinderSkewed.py b/wiz/VortexCylinderSkewed.py
index 91ce799..931cb1d 100644
--- a/wiz/VortexCylinderSkewed.py
+++ b/wiz/VortexCylinderSkewed.py
@@ -201,7 +201,7 @@ def svc_root_u_polar(vr,vpsi,vz,Gamma_r=-1,m=0,polar_out=False):
         u_x   = -np.sin(vpsi)*u_psi
         u_y   =  np.cos(vpsi)*u_psi
     else:
-        if (np.max(np.abs(vz)) > 0):
+        if np.any(np.abs(vz) > 0):
             # need to use general formula
             u_x = np.zeros(vr.shape)
             u_y = np.zeros(vr.shape)
-- 
2.43.0


From 9750b960f35801019f873391ed7cff9617d38f01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:47 +0000
Subject: [PATCH 28/38] fix: finite doublet line, velocity on its prolongation
 depended on the unit of length

---
 wiz/VortexDoublet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiz/VortexDoublet.py b/wiz/VortexDoublet.py
index 3b95f2f..4b0ca8c 100644
--- a/wiz/VortexDoublet.py
+++ b/wiz/VortexDoublet.py
@@ -358,7 +358,7 @@ def _integrals_DL_finite(a,b,c,L):
         return ( -2*a**4*b + 6*a**2*b**2*x - 3*b*(b**2 +  a**2*c**2)*x**2 + c**2*(b**2  + a**2*c**2)*x**3 )/ ( (b**2 - a**2*c**2)**2 *(a**2 - 2*b*x + c**2*x**2)**(3/2) )
 
     a=np.asarray(a); b=np.asarray(b);
-    S = np.abs((b**2 - a**2*c**2))<1e-8 # a== b/c
+    S = np.abs((b**2 - a**2*c**2))<1e-8*a**2*c**2 # a== b/c
     N = np.logical_not(S)
     aS=a[S]; bS=b[S];
     aN=a[N]; bN=b[N];
-- 
2.43.0


From 96ac65bb25f43684aa30dfcb6149a6c86baf67bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:34 +0000
Subject: [PATCH 29/38] fix: elliptic integral of the third kind, a NaN among
 the values stopped the iterations of all the others

---
 wiz/elliptic.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wiz/elliptic.py b/wiz/elliptic.py
index 438f8af..42ed328 100644
--- a/wiz/elliptic.py
+++ b/wiz/elliptic.py
@@ -46,7 +46,7 @@ def ellipticPiCarlson(n,m):
             s13 = s12*s1
             r = 5./26 * s13 + 3./ 26 * s2 ** 2
             RF = (mu**-0.5) * (1 + s1/5 + s2/7 + s12/6 + 3/11*s1*s2 + r)
-            res = np.amax(np.abs(RF - RFo))
+            res = np.fmax.reduce(np.abs(RF - RFo), axis=None) # NaN ignored, the other values need to converge
             RFo = RF
             xo = xn
             yo = yn
@@ -109,7 +109,7 @@ def ellipticPiCarlson(n,m):
                 rhs1 = rhs1 + 3 * 4 ** - nIt * ellipticRC(alfa,bet)
                 rhs2 = (4**-(nIt+1) * mu**-1.5) * (1+3/7*s1 + s2/3 + 3/22*s12 + 3/11*s3 + 3/13*(s1*s2 + s4) + r)
                 RJLoc = rhs1 + rhs2
-                res = np.amax(np.abs(RJLoc - RJo))
+                res = np.fmax.reduce(np.abs(RJLoc - RJo), axis=None)
                 RJo = RJLoc
                 xo = xn
                 yo = yn
@@ -140,7 +140,7 @@ def ellipticPiCarlson(n,m):
             s5 = s4*s
             s6 = s5*s
             RC = (mu**-0.5)*(1+3/10*s2 + s3/7 + 3/8*s4 + 9/22*s5 + 159/208*s6)
-            res = np.amax(np.abs(RC - RCo))
+            res = np.fmax.reduce(np.abs(RC - RCo), axis=None)
             RCo = RC
             xo = xn
             yo = yn
-- 
2.43.0


From 0df823298045f254128fb7678809659b9fe49442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:34 +0000
Subject: [PATCH 30/38] fix: rotor outline failed for shafts along a diagonal
 of the axes (rounding)

---
 wiz/WindTurbine.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/wiz/WindTurbine.py b/wiz/WindTurbine.py
index 768621a..399c856 100644
--- a/wiz/WindTurbine.py
+++ b/wiz/WindTurbine.py
@@ -32,11 +32,11 @@ def RotMat_AxisAngle(u,theta):
 def orth_vect(u):
     """ Given one vector, returns a 3x1 orthonormal vector to it"""
     u=(u/np.linalg.norm(u)).ravel()
-    if abs(u[0])>=1/np.sqrt(3):
+    if abs(u[0])>=0.57: # a bit less than 1/sqrt(3)
         v = np.array([[-u[1]],[u[0]] ,[0]]    )
-    elif abs(u[1])>=1/np.sqrt(3):
+    elif abs(u[1])>=0.57: # a bit less than 1/sqrt(3)
         v = np.array([[0]    ,[-u[2]],[u[1]]] )
-    elif abs(u[2])>=1/np.sqrt(3):
+    elif abs(u[2])>=0.57: # a bit less than 1/sqrt(3)
         v = np.array([[u[2]] ,[0]    ,[-u[0]]])
     else:
         raise Exception('Cannot find orthogonal vector to a zero vector: {} '.format(u))
-- 
2.43.0


From 1755494ada273bbf102fbb28aef7088552dc3023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:23 +0000
Subject: [PATCH 31/38] fix: velocity of doublet lines close to the line (or to
 its prolongation), lost to cancellation

---
 wiz/VortexDoublet.py | 36 +++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/wiz/VortexDoublet.py b/wiz/VortexDoublet.py
index 4b0ca8c..c7b5e33 100644
--- a/wiz/VortexDoublet.py
+++ b/wiz/VortexDoublet.py
@@ -133,7 +133,7 @@ def doublet_line_polar_u(rcp,zcp,dmz_dz, bSelfInd=False):
     ur=np.zeros(r.shape)
 
     norm2 = r**2+z**2
-    uz[bOK]  = dmz_dz/(4*np.pi) * 1/r[bOK]**2 * ( z[bOK]**3/(norm2[bOK])**(3/2) - z[bOK]/(norm2[bOK])**(1/2) )
+    uz[bOK]   =-dmz_dz/(4*np.pi) * z[bOK]          *  1/(norm2[bOK]  )**(3/2)
     uz[bZ0Rp] = 0
     uz[bR0Zm] = dmz_dz/(4*np.pi) * 1/norm2[bR0Zm]
     #uz[bR0Zp] = dmz_dz/(4*np.pi) * 1/norm2[bR0Zp] #<<< No singularity there, but we force it to 0
@@ -168,7 +168,6 @@ def doublet_line_u(Xcp,Ycp,Zcp,dmz_dz,m=0,L=np.inf):
         uy =  np.zeros(Xcp.shape)
         uz =  np.zeros(Xcp.shape)
         #
-        a = np.sqrt(Xcp**2+Ycp**2+Zcp**2)
         b = m*Xcp+Zcp
         c = np.sqrt(m**2+1)
 
@@ -188,23 +187,26 @@ def doublet_line_u(Xcp,Ycp,Zcp,dmz_dz,m=0,L=np.inf):
 #         bOK   = np.logical_not(np.logical_or(bSing,bOnLine))
 #         bOK   = np.logical_not(bSing)
         bOK   = np.logical_not(bOnLine)
-        a=a[bOK]
-        b=b[bOK]
-        Xcp=Xcp[bOK]
-        Ycp=Ycp[bOK]
-        Zcp=Zcp[bOK]
+        P = (Xcp[bOK], Ycp[bOK], Zcp[bOK])
+        b = b[bOK]
+
+        # Velocity from a semi-infinite line starting at the origin and going downstream (s=1) or upstream (s=-1)
+        # NOTE: equal to grad( s/a + m xi/(a d) )/c^2, without cancellation close to the line or to its prolongation
+        def semi_inf(X,Y,Z,s):
+            a  = np.sqrt(X**2+Y**2+Z**2)
+            b  = s*(m*X+Z)
+            xi = X-m*Z
+            d  = np.where(b>0, (xi**2 + (c*Y)**2)/(a*c+np.abs(b)), a*c-b)
+            f  = m*xi/(a*d)
+            return [-s*x/a**3 + m*g/(a*d) - f*(x/a**2 + (c*x/a-s*e)/d) for x,g,e in ((X,1,m),(Y,0,0),(Z,-m,1))]
 
         if L==np.inf:
-            i30  = I30 (a,b,c) # NOTE: not scaling
-            ti50 = tI50(a,b,c) # = 3 x I50
-            ti51 = tI51(a,b,c) # = 3 x I50
-            ti52 = tI52(a,b,c) # = 3 x I50
-        else:
-            i30, ti50, ti51, ti52 = _integrals_DL_finite(a,b,c,L) #= I30, 3*I50, 3*I51, 3*I52
-
-        uz[bOK] = dmz_dz/(4*np.pi)  * (       Zcp**2 * ti50 +   ti52 - 2*Zcp * ti51 - i30 )
-        ux[bOK] = dmz_dz/(4*np.pi)  * ( Xcp * Zcp    * ti50 + m*ti52 - (m*Zcp+Xcp) * ti51 )
-        uy[bOK] = dmz_dz/(4*np.pi)  * ( Ycp * Zcp    * ti50         -        Ycp   * ti51 )
+            u = semi_inf(*P,1)
+        else: # difference of two semi-infinite lines, going away from the control points that are past the end
+            s = np.where(b>c**2*L, -1, 1)
+            u = [s*(u0-uL) for u0,uL in zip(semi_inf(*P,s), semi_inf(P[0]-m*L,P[1],P[2]-L,s))]
+
+        ux[bOK], uy[bOK], uz[bOK] = [dmz_dz/(4*np.pi*c**2) * ui for ui in u]
 
     return ux,uy,uz 
 
-- 
2.43.0


From b299b5590e3476da78b1533c47eda7dfb0894c3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:40:04 +0000
Subject: [PATCH 32/38] fix: thrust coefficient given when a WindTurbine is
 made was ignored

---
 wiz/WindTurbine.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wiz/WindTurbine.py b/wiz/WindTurbine.py
index 399c856..9f75cd0 100644
--- a/wiz/WindTurbine.py
+++ b/wiz/WindTurbine.py
@@ -87,6 +87,8 @@ class WindTurbine:
         self.Ground=Ground # Ground effect will be included in calculation of induced velocity
         self.set_chi(None)
         self.Model=Model
+        if Ct is not None:
+            self.update_loading(Ct=Ct)
 
     def set_yaw0_coord(self,e_shaft_yaw0,e_vert):
         self.e_shaft_g = np.array(e_shaft_yaw0).ravel().reshape(3,1)
-- 
2.43.0


From f2fbd3d0468af28f5d8cbb562c66c537bc21abfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:33 +0000
Subject: [PATCH 33/38] fix: polar_out was ignored by svc_u_polar

---
 wiz/VortexCylinderSkewed.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/wiz/VortexCylinderSkewed.py b/wiz/VortexCylinderSkewed.py
index 931cb1d..c26f24d 100644
--- a/wiz/VortexCylinderSkewed.py
+++ b/wiz/VortexCylinderSkewed.py
@@ -248,6 +248,8 @@ def svc_u_polar(vr,vpsi,vz,gamma_t,gamma_l,Gamma_r,R=1,m=0,ntheta=180,polar_out=
     u1 += u1t
     u2 += u2t
     u3 += u3t
+    if polar_out:
+        u1,u2 = polar_components(u1,u2,np.asarray(vpsi))
     return u1,u2,u3
 
 # --------------------------------------------------------------------------------}
-- 
2.43.0


From e4fe04f2b29eb71ca1c00863e3a6c1310298e670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:42 +0000
Subject: [PATCH 34/38] fix: a stored plane asked for with a thrust such as
 0.57 was looked up as 0.56 (truncation)

---
 wiz/article_blockage/helper_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiz/article_blockage/helper_functions.py b/wiz/article_blockage/helper_functions.py
index 9107f7e..e9d8525 100644
--- a/wiz/article_blockage/helper_functions.py
+++ b/wiz/article_blockage/helper_functions.py
@@ -473,7 +473,7 @@ def loadPlane(CT,HH,Lambda,Horizontal,Yaw):
     if HH>9:
         HH=9.9
 
-    base='CT0{:d}_HH{:02d}_Lambda{:02d}_Yaw{:02d}'.format(int(CT*100),int(HH*10),Lambda,-Yaw)
+    base='CT0{:d}_HH{:02d}_Lambda{:02d}_Yaw{:02d}'.format(int(round(CT*100)),int(round(HH*10)),Lambda,-Yaw)
 
     if HH>9:
         # Handling unavailable data
-- 
2.43.0


From aece3bbcc299047fa9174cc6804f2d9d4e7ef87d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:42 +0000
Subject: [PATCH 35/38] fix: make_colormap failed for RGB tuples (empty alpha
 channel)

---
 wiz/plotting_functions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/wiz/plotting_functions.py b/wiz/plotting_functions.py
index b277f3e..48a072a 100644
--- a/wiz/plotting_functions.py
+++ b/wiz/plotting_functions.py
@@ -31,7 +31,9 @@ def make_colormap(seq,values=None):
     doubled     = list(itertools.chain.from_iterable(itertools.repeat(s, 2) for s in seq))
     doubled[0]  = (None,)* nComp
     doubled[-1] = (None,)* nComp
-    cdict = {'red': [], 'green': [], 'blue': [], 'alpha':[]}
+    cdict = {'red': [], 'green': [], 'blue': []}
+    if hasAlpha:
+        cdict['alpha'] = []
     for i,v in enumerate(values):
         if hasAlpha:
             r1, g1, b1, a1 = doubled[2*i]
-- 
2.43.0


From 46c59c77a8fc321132a2ed23a6ba677ddbd0ce70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:42 +0000
Subject: [PATCH 36/38] fix: colours of a plotted plane with missing values
 (NaN) were lost

---
 coupling_examples/helper_functions.py    | 4 ++--
 wiz/article_blockage/helper_functions.py | 8 ++++----
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/coupling_examples/helper_functions.py b/coupling_examples/helper_functions.py
index 76d2ae2..f688226 100644
--- a/coupling_examples/helper_functions.py
+++ b/coupling_examples/helper_functions.py
@@ -61,8 +61,8 @@ def plotPlane(x,y,u,v,ax,minSpeed=None,maxSpeed=None, cmap='coolwarm', colors='w
     else:
         Speed=np.sqrt(u**2+v**2)
     if minSpeed is None:
-        minSpeed = Speed.min()
-        maxSpeed = Speed.max()
+        minSpeed = np.nanmin(Speed)
+        maxSpeed = np.nanmax(Speed)
 
     if not ax:
         fig, ax = plt.subplots()
diff --git a/wiz/article_blockage/helper_functions.py b/wiz/article_blockage/helper_functions.py
index e9d8525..ea37106 100644
--- a/wiz/article_blockage/helper_functions.py
+++ b/wiz/article_blockage/helper_functions.py
@@ -673,8 +673,8 @@ def plotPlane(data,X=None,Y=None,Z=None,ax=None,minSpeed=None,maxSpeed=None, cma
     else:
         Speed=np.sqrt(u**2+v**2)
     if minSpeed is None:
-        minSpeed = Speed.min()
-        maxSpeed = Speed.max()
+        minSpeed = np.nanmin(Speed)
+        maxSpeed = np.nanmax(Speed)
 
     if not ax:
         fig, ax = plt.subplots()
@@ -728,8 +728,8 @@ def plotPlaneVert(Y,Z,V,W,ax=None,minSpeed=None,maxSpeed=None, cmap='coolwarm',
     else:
         Speed=np.sqrt(V**2+W**2)
     if minSpeed is None:
-        minSpeed = Speed.min()
-        maxSpeed = Speed.max()
+        minSpeed = np.nanmin(Speed)
+        maxSpeed = np.nanmax(Speed)
 
     if not ax:
         fig, ax = plt.subplots()
-- 
2.43.0


From 11c9d0bf512d626ea732aa2628cdcf9f048115cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:52 +0000
Subject: [PATCH 37/38] fix: the thrust distribution stored by a turbine was
 the caller's own array

---
 wiz/WindTurbine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/wiz/WindTurbine.py b/wiz/WindTurbine.py
index 9f75cd0..1cdc089 100644
--- a/wiz/WindTurbine.py
+++ b/wiz/WindTurbine.py
@@ -188,7 +188,7 @@ class WindTurbine:
         #print(misc)
         self.Lambda=Lambda
         self.r=np.array(r)
-        self.Ct=Ct
+        self.Ct=None if Ct is None else np.array(Ct)
 
     @property
     def yaw_wind(self):
-- 
2.43.0


From 97b1f88cbb1c98f2d635836a1c393ee7fb2ef08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:26:33 +0000
Subject: [PATCH 38/38] fix: the elliptic integral of the third kind lost its
 accuracy for very negative characteristics (0.1 % at -1e8): absolute
 criterion of convergence and too few iterations

---
 wiz/elliptic.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/wiz/elliptic.py b/wiz/elliptic.py
index 42ed328..998adaf 100644
--- a/wiz/elliptic.py
+++ b/wiz/elliptic.py
@@ -16,7 +16,7 @@ def ellipticPiCarlson(n,m):
     """
     # --- Performance parameters
     RES   = 1.e-12  # 
-    ITMAX = 20      # 20 iterations usually sufficient
+    ITMAX = 50      # 20 iterations usually sufficient, more are needed for large values of n or m
     # --- Subfunctions RF, RJ, RC
     def ellipticRF(y = None): 
         xo = np.zeros(y.shape)
@@ -46,7 +46,7 @@ def ellipticPiCarlson(n,m):
             s13 = s12*s1
             r = 5./26 * s13 + 3./ 26 * s2 ** 2
             RF = (mu**-0.5) * (1 + s1/5 + s2/7 + s12/6 + 3/11*s1*s2 + r)
-            res = np.fmax.reduce(np.abs(RF - RFo), axis=None) # NaN ignored, the other values need to converge
+            res = np.fmax.reduce(np.abs(RF - RFo)/np.abs(RF), axis=None) # NaN ignored, the other values need to converge
             RFo = RF
             xo = xn
             yo = yn
@@ -109,7 +109,7 @@ def ellipticPiCarlson(n,m):
                 rhs1 = rhs1 + 3 * 4 ** - nIt * ellipticRC(alfa,bet)
                 rhs2 = (4**-(nIt+1) * mu**-1.5) * (1+3/7*s1 + s2/3 + 3/22*s12 + 3/11*s3 + 3/13*(s1*s2 + s4) + r)
                 RJLoc = rhs1 + rhs2
-                res = np.fmax.reduce(np.abs(RJLoc - RJo), axis=None)
+                res = np.fmax.reduce(np.abs(RJLoc - RJo)/np.abs(RJLoc), axis=None)
                 RJo = RJLoc
                 xo = xn
                 yo = yn
@@ -140,7 +140,7 @@ def ellipticPiCarlson(n,m):
             s5 = s4*s
             s6 = s5*s
             RC = (mu**-0.5)*(1+3/10*s2 + s3/7 + 3/8*s4 + 9/22*s5 + 159/208*s6)
-            res = np.fmax.reduce(np.abs(RC - RCo), axis=None)
+            res = np.fmax.reduce(np.abs(RC - RCo)/np.abs(RC), axis=None)
             RCo = RC
             xo = xn
             yo = yn
-- 
2.43.0

