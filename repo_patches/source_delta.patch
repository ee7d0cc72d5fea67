From ca991555a3dbc62bfa041a9e87b366eefd3f764a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:51:43 +0000
Subject: [PATCH 01/33] fix: propeller section CL/CD no longer left
 uninitialised at zero or exact-stall alpha

---
 machup/propmodel.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/machup/propmodel.py b/machup/propmodel.py
index 91c8379..54832a3 100644
--- a/machup/propmodel.py
+++ b/machup/propmodel.py
@@ -1272,7 +1272,7 @@ class PropModel:
 
         CL = np.empty_like(alpha)
         neg = np.where(alpha<0)
-        pos = np.where(alpha>0)
+        pos = np.where(alpha>=0)
 
         #Corrigan Stall Delay
         a_less_dA_p = alpha[pos]-self._dA[pos]
@@ -1308,8 +1308,8 @@ class PropModel:
         ca = np.cos(alpha)
         sa = np.sin(alpha)
         pre_stall = np.where((alpha<self._delay_a_stall) & (alpha>self._delay_a_stall_neg))
-        stall_pos = np.where(alpha>self._delay_a_stall)
-        stall_neg = np.where(alpha<self._delay_a_stall_neg)
+        stall_pos = np.where(alpha>=self._delay_a_stall)
+        stall_neg = np.where(alpha<=self._delay_a_stall_neg)
         CD[pre_stall] = self._CD_0[pre_stall]+self._CD_L[pre_stall]*CL[pre_stall]+self._CD_L2[pre_stall]*CL[pre_stall]*CL[pre_stall]
         CD[stall_pos] = self._B1*sa[stall_pos]*sa[stall_pos]+self._B2[stall_pos]*ca[stall_pos]
         CD[stall_neg] = self._B1*np.sin(-alpha[stall_neg])**2+self._B2_neg[stall_neg]*np.cos(-alpha[stall_neg])
-- 
2.43.0


From bb9eda5d88e9b2ca13a05ff308259b45ea7a9f84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:53:09 +0000
Subject: [PATCH 02/33] fix: restart the propeller induced-angle solution for
 every operating state

---
 machup/propmodel.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/machup/propmodel.py b/machup/propmodel.py
index 54832a3..487a589 100644
--- a/machup/propmodel.py
+++ b/machup/propmodel.py
@@ -378,9 +378,9 @@ class PropModel:
         self._einf = np.arctan2(self._J, (m.pi*self._zeta))
 
         
-        #initial guess for iterative solution of ei if not previously solved
-        if not np.any(self._ei):
-            self._ei = self._beta-self._einf
+        #initial guess for iterative solution of ei. always restart from the zero angle of attack
+        #guess, as the solution of a previous operating state may not lead to the correct root
+        self._ei = self._beta-self._einf
 
         #set constant values for ei solver
         self._ei_func_a = (self._chatb/(8*self._zeta))
-- 
2.43.0


From 9fdf52bf5e6b16e3637875d26aef7e61e7d55fcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:01 +0000
Subject: [PATCH 03/33] fix: brake power and throttle solutions no longer
 depend on the previous state or iterate forever

---
 machup/propmodel.py | 67 +++++++++++++++++++++++++++------------------
 1 file changed, 41 insertions(+), 26 deletions(-)

diff --git a/machup/propmodel.py b/machup/propmodel.py
index 487a589..4706715 100644
--- a/machup/propmodel.py
+++ b/machup/propmodel.py
@@ -475,24 +475,55 @@ class PropModel:
             self._rot_per_sec = self._find_rot_rate_power()
         self._J = self._Vinf/(self._rot_per_sec*self._d)
 
-    def _find_rot_rate_power(self, error = 1E-14):
-        x0 = self._rot_per_sec #get a better guess
+    def _find_rot_rate_power(self):
+        return self._find_rot_rate(self._zero_power_difference)
+
+    def _find_rot_rate(self, zero_function, error = 1E-13, max_iters = 50):
+        #find the positive rotation rate at which zero_function is zero. the initial guess is the same
+        #for every solution, so that the result does not depend on the previous operating state
+        guess = 15.
+        x0 = guess
         x1 = x0*1.5
-        y0 = self._zero_power_difference(x0)
-        if abs(y0)<error:
+        y0 = zero_function(x0)
+        if y0 == 0.:
             return x0
-        y1 = self._zero_power_difference(x1)
-        while True:
+        y1 = zero_function(x1)
+        for i in range(max_iters):
+            if y1 == 0.:
+                return x1
+            if y1 == y0:
+                break
             #new guess based on secant method
             x2 = x1-((y1*(x1-x0))/(y1-y0))
+            if not (m.isfinite(x2) and x2>0.):
+                break
             #if solution has converged, return results
-            if abs(x2-x1)<error:
+            if abs(x2-x1)<=error*abs(x1):
                 return x2
             #set variables for next iteration
             x0=x1
             y0=y1
             x1=x2
-            y1=self._zero_power_difference(x1)
+            y1=zero_function(x1)
+
+        #the secant method left the range of possible rotation rates or did not converge, so search
+        #for an interval that contains the solution and converge on it
+        high = guess
+        y_high = zero_function(high)
+        while not y_high>0. and high<1E6:
+            high *= 1.5
+            y_high = zero_function(high)
+        low = high
+        y_low = y_high
+        while y_low>0. and low>1E-6:
+            high = low
+            low /= 1.5
+            y_low = zero_function(low)
+        if not (y_high>0. and y_low<=0.):
+            raise RuntimeError("Unable to determine the rotation rate of propeller "+str(self._name))
+        root = opt.brentq(zero_function,low,high,xtol = 1E-13*high,rtol = 1E-13)
+        zero_function(root)
+        return root
 
     def _zero_power_difference(self,rot_per_sec_est):
         self._rot_per_sec = rot_per_sec_est
@@ -501,24 +532,8 @@ class PropModel:
         prop_power = (self._rho*(self._rot_per_sec**3)*(self._d**5)*self._CP)
         return prop_power-self._brake_power
 
-    def _find_rot_rate_motor(self,error = 1E-14):
-        x0 = self._rot_per_sec #get a better guess
-        x1 = x0*1.5
-        y0 = self._zero_torque_difference(x0)
-        if abs(y0)<error:
-            return x0
-        y1 = self._zero_torque_difference(x1)
-        while True:
-            #new guess based on secant method
-            x2 = x1-((y1*(x1-x0))/(y1-y0))
-            #if solution has converged, return results
-            if abs(x2-x1)<error:
-                return x2
-            #set variables for next iteration
-            x0=x1
-            y0=y1
-            x1=x2
-            y1=self._zero_torque_difference(x1)
+    def _find_rot_rate_motor(self):
+        return self._find_rot_rate(self._zero_torque_difference)
 
     def _zero_torque_difference(self,rot_per_sec_est):
         self._rot_per_sec = rot_per_sec_est
-- 
2.43.0


From 2232c23aaca17d3f0d6abfee548a5869882d9754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:29 +0000
Subject: [PATCH 04/33] fix: omitted control or aero state no longer reuses the
 one of the previous solution

---
 machup/llmodel.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/machup/llmodel.py b/machup/llmodel.py
index 812c189..ebff4bd 100644
--- a/machup/llmodel.py
+++ b/machup/llmodel.py
@@ -210,8 +210,9 @@ class LLModel:
 
         else:
             # assume uniform flow in -x direction for now
-            v_local[:, 0] = -10.
-            u_inf[0] = -1.
+            v_local[:] = [-10., 0., 0.]
+            u_inf[:] = [-1., 0., 0.]
+            rho_local[:] = 1.
 
     def _superimpose_rotation(self, state):
         # Calculate velocities due to rotation and superimpose them
@@ -244,6 +245,10 @@ class LLModel:
                                                 delta_f*mix_f)*np.pi/180.
 
             self._compute_deflection_efficiency()
+        else:
+            # all control surfaces are at zero deflection
+            self._control_data["delta_flap"] = np.zeros(self._num_vortices)
+            self._compute_deflection_efficiency()
 
     def _compute_deflection_efficiency(self):
         # Compute flap deflection efficiency using linear fit of
-- 
2.43.0


From 6c1a3fa4633bbbaf4ebf31f67e1727889401e982 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:06:29 +0000
Subject: [PATCH 05/33] fix: results and distributions are snapshots instead of
 references to solver data

---
 machup/llmodel.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/machup/llmodel.py b/machup/llmodel.py
index ebff4bd..a4a3f15 100644
--- a/machup/llmodel.py
+++ b/machup/llmodel.py
@@ -309,7 +309,9 @@ class LLModel:
             self._setup_linear_matrices()
             self._solve_linear_system()
             self._forces_and_moments()
-            return self._results
+            # return a snapshot, as self._results is overwritten by the next
+            # solution
+            return {key: dict(val) for key, val in self._results.items()}
         else:
             raise RuntimeError("solver type not yet supported")
 
@@ -626,7 +628,9 @@ class LLModel:
         distributions["section_Cm"] = self.section_cm
         distributions["section_CD_parasitic"] = self.section_cd
         distributions["section_alpha_L0"] = self._grid.get_zero_lift_alpha()
-        return distributions
+        # return a snapshot, as changes to the grid arrays would change the
+        # model itself
+        return {key: np.copy(val) for key, val in distributions.items()}
 
 
     def _find_stall_location(self):
-- 
2.43.0


From d0345ba82d26c55f8169cb437d47764353a8edbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:03 +0000
Subject: [PATCH 06/33] fix: analyses no longer modify the aero and control
 state of the caller

---
 machup/MU.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/machup/MU.py b/machup/MU.py
index 55eb927..2d82753 100644
--- a/machup/MU.py
+++ b/machup/MU.py
@@ -149,6 +149,7 @@ class MachUp:
             wing_results = {}
             total_results = {}
 
+            aero_state = aero_state.copy() #the caller's dictionary is left as it is
             if self.myairplane._props:
                 prop_results,velocity_array = self.myprops.solve(aero_state,prop_state)
                 if velocity_array is not None:
@@ -415,6 +416,7 @@ class MachUp:
         """
 
         if aero_state:
+            aero_state = aero_state.copy()
             ao = aero_state.get("alpha",0.)
             DP = 0.5*aero_state.get("rho",0.0023769)*(aero_state.get("V_mag",10.)**2)*self.Sw
             Normal = []
@@ -562,6 +564,7 @@ class MachUp:
         """
         if self.myairplane._wings:
             if aero_state:
+                aero_state = aero_state.copy()
                 a0 = aero_state.get("alpha",0.) 
                 a = 0.
                 while True:
@@ -793,6 +796,7 @@ class MachUp:
         stab_deriv = {}
 
         if aero_state:
+            aero_state = aero_state.copy()
             DP = 0.5*aero_state.get("rho",0.0023769)*(aero_state.get("V_mag",10.)**2)*self.Sw
 
             delta = 0.5
@@ -879,6 +883,7 @@ class MachUp:
         damp_deriv = {}
         
         if aero_state:
+            aero_state = aero_state.copy()
             V = aero_state.get("V_mag",10.)
             DP = 0.5*aero_state.get("rho",0.0023769)*V*V*self.Sw
 
@@ -989,6 +994,7 @@ class MachUp:
         cont_deriv = {}
 
         if control_state:
+            control_state = control_state.copy()
             DP = 0.5*aero_state.get("rho",0.0023769)*(aero_state.get("V_mag",10.)**2)*self.Sw
 
             delta = 0.25
@@ -1225,6 +1231,8 @@ class MachUp:
         """
         if aero_state and control_state:
 
+            aero_state = aero_state.copy()
+            control_state = control_state.copy()
             a, de = 0.,0.
             iters = 0.
             while True:
-- 
2.43.0


From 2facc31225160d9a0e707932ae251dc3627eaa9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:03 +0000
Subject: [PATCH 07/33] fix: damping derivatives restore the yaw rate

---
 machup/MU.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/machup/MU.py b/machup/MU.py
index 2d82753..9eea442 100644
--- a/machup/MU.py
+++ b/machup/MU.py
@@ -943,7 +943,7 @@ class MachUp:
             damp_deriv["Cl_rbar"] = (forw["MX"]-back["MX"])/non_dim/self.lat_ref
             damp_deriv["Cm_rbar"] = (forw["MY"]-back["MY"])/non_dim/self.long_ref
             damp_deriv["Cn_rbar"] = (forw["MZ"]-back["MZ"])/non_dim/self.lat_ref
-            aero_state["yaw_rate"] = q0
+            aero_state["yaw_rate"] = r0
 
         else:
             aero_state = {"V_mag":10,
-- 
2.43.0


From 19a4187f4958631895d17327fcf2ebec38a41ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:03 +0000
Subject: [PATCH 08/33] fix: solve with a filename and control derivatives work
 for the default aero state

---
 machup/MU.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/machup/MU.py b/machup/MU.py
index 9eea442..1c42f7c 100644
--- a/machup/MU.py
+++ b/machup/MU.py
@@ -177,7 +177,7 @@ class MachUp:
             aero_state = {"V_mag":10,
                           "rho":0.0023769,
                           "alpha": 0}
-            total_results = self.solve(aero_state = aero_state,control_state = control_state, prop_state = prop_state)
+            return self.solve(aero_state,control_state,prop_state,filename)
 
         if filename:
             results = {
@@ -993,6 +993,11 @@ class MachUp:
         """
         cont_deriv = {}
 
+        if not aero_state:
+            aero_state = {"V_mag":10,
+                          "rho":0.0023769,
+                          "alpha": 0}
+
         if control_state:
             control_state = control_state.copy()
             DP = 0.5*aero_state.get("rho",0.0023769)*(aero_state.get("V_mag",10.)**2)*self.Sw
-- 
2.43.0


From 43b26451406e376726ec21cc57679b4f289d583a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:03 +0000
Subject: [PATCH 09/33] fix: default aero and control states no longer drop the
 filename and error of an analysis

---
 machup/MU.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/machup/MU.py b/machup/MU.py
index 1c42f7c..bf089f3 100644
--- a/machup/MU.py
+++ b/machup/MU.py
@@ -676,7 +676,7 @@ class MachUp:
                 aero_state = {"V_mag":10,
                               "rho":0.0023769,
                               "alpha": 0}
-                stall_airspeed_info = self.stall_airspeed(self, weight, aero_state, control_state, prop_state)
+                stall_airspeed_info = self.stall_airspeed(weight, aero_state, control_state, prop_state, filename, error)
         else:
             if filename:
                 stall_airspeed_info = {"error":"unstallable"}
@@ -1134,7 +1134,7 @@ class MachUp:
         if aero_state:
             aero0 = aero_state.copy()
             aero1 = aero_state.copy()
-            x0 = aero0["alpha"] #alpha guess
+            x0 = aero0.get("alpha",0.) #alpha guess
             x1 = (x0*1.5)+0.1
             aero0["alpha"] = x0
             aero1["alpha"] = x1
@@ -1173,7 +1173,7 @@ class MachUp:
                           "rho":0.0023769,
                           "alpha": 0}
 
-            target_state = self.target_lift(L_target, aero_state, control_state, prop_state)
+            target_state = self.target_lift(L_target, aero_state, control_state, prop_state, filename, error)
 
         if filename:
             with open(filename, 'w') as outfile:
@@ -1284,12 +1284,12 @@ class MachUp:
                              "elevator":0.,
                              "rudder": 0.,
                              "flap": 0.}
-            return self.pitch_trim(L_target,m_target,aero_state,control_state,prop_state)
+            return self.pitch_trim(L_target,m_target,aero_state,control_state,prop_state,filename,error)
 
         elif control_state:
             aero_state = {"V_mag":10,
                           "rho":0.0023769}
-            return self.pitch_trim(L_target,m_target,aero_state,control_state,prop_state)
+            return self.pitch_trim(L_target,m_target,aero_state,control_state,prop_state,filename,error)
 
         else:
             aero_state = {"V_mag":10,
@@ -1298,7 +1298,7 @@ class MachUp:
                              "elevator":0.,
                              "rudder": 0.,
                              "flap": 0.}
-            return self.pitch_trim(L_target,m_target,aero_state,control_state,prop_state)
+            return self.pitch_trim(L_target,m_target,aero_state,control_state,prop_state,filename,error)
 
     def _lift_slope(self,aero_state = None, control_state = None, prop_state = None):
         delta = 0.25
-- 
2.43.0


From 54e096ee72c22e37a594010fb54a94cc51380f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:32 +0000
Subject: [PATCH 10/33] fix: stall analyses signal an error instead of
 searching forever

---
 machup/MU.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/machup/MU.py b/machup/MU.py
index bf089f3..0cbaec5 100644
--- a/machup/MU.py
+++ b/machup/MU.py
@@ -576,11 +576,18 @@ class MachUp:
                         stall_info["lift"] = results["FL"]
                         break
                     a+=0.1
+                    if a>90.:
+                        #no section of the wings ever exceeds its maximum lift coefficient
+                        if filename:
+                            stall_info = {"error":"unstallable"}
+                            break
+                        else:
+                            raise RuntimeError("Unable to stall the wings of the current model")
             else:
                 aero_state = {"V_mag":10,
                               "rho":0.0023769,
                               "alpha": 0}
-                stall_info = self.stall_onset(aero_state,control_state,prop_state)
+                stall_info = self.stall_onset(aero_state,control_state,prop_state,filename)
 
         else:
             if filename:
@@ -655,6 +662,7 @@ class MachUp:
                 y0 = stall_info0["lift"]-weight #difference between max lift and weight
                 y1 = stall_info1["lift"]-weight
 
+                iters = 0
                 while True:
                     #new guess based on secant method
                     x2 = x1-((y1*(x1-x0))/(y1-y0))
@@ -672,6 +680,13 @@ class MachUp:
                     aero1["V_mag"] = x1
                     stall_info1 = self.stall_onset(aero1,control_state,prop_state)
                     y1=stall_info1["lift"]-weight
+                    iters += 1
+                    if iters>50:
+                        if filename:
+                            stall_airspeed_info = {"error":"unstallable"}
+                            break
+                        else:
+                            raise RuntimeError("Unable to determine the stall airspeed")
             else:
                 aero_state = {"V_mag":10,
                               "rho":0.0023769,
-- 
2.43.0


From 668275bb45051fdc168478970acd9b3e15c1c090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:32 +0000
Subject: [PATCH 11/33] fix: cg_location honours coordinates of zero

---
 machup/geometry.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/machup/geometry.py b/machup/geometry.py
index 3e0ad27..ab53418 100644
--- a/machup/geometry.py
+++ b/machup/geometry.py
@@ -383,11 +383,11 @@ class Airplane:
             The updated z-coordinate of the center of gravity.
 
         """
-        if x_coord:
+        if x_coord is not None:
             self._cg_loc[0] = x_coord
-        if y_coord:
+        if y_coord is not None:
             self._cg_loc[1] = y_coord
-        if z_coord:
+        if z_coord is not None:
             self._cg_loc[2] = z_coord
 
     def set_reference_lengths(self, lateral = None, longitudinal = None):
-- 
2.43.0


From 1484793296af2bdbdd3bf954d6e1b8147b1c6270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:32 +0000
Subject: [PATCH 12/33] fix: airplanes built in Python have units and accept an
 array as position

---
 machup/geometry.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/machup/geometry.py b/machup/geometry.py
index ab53418..548a59e 100644
--- a/machup/geometry.py
+++ b/machup/geometry.py
@@ -68,6 +68,7 @@ class Airplane:
         self._cg_loc = np.zeros(3)
         self._long_ref = None
         self._lat_ref = None
+        self._units = None
         self._position = position
         self._connections = {}
 
@@ -424,7 +425,7 @@ class Airplane:
             Position of Airplane as specified by the user.
         """
         # pylint: disable=unused-argument
-        if self._position:
+        if self._position is not None:
             return self._position
 
         return np.array([0., 0., 0.])
-- 
2.43.0


From d422fb7d42dc250447a1bdde8a2ca568ab244f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:32 +0000
Subject: [PATCH 13/33] fix: rotation direction 0 is clockwise, as documented

---
 machup/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/machup/geometry.py b/machup/geometry.py
index 548a59e..4984d96 100644
--- a/machup/geometry.py
+++ b/machup/geometry.py
@@ -1187,7 +1187,7 @@ class Prop:
         """
         if self._rot_dir == "CCW" or self._rot_dir =="ccw" or self._rot_dir == 1.:
             return 1.
-        elif self._rot_dir == "CW" or self._rot_dir =="cw" or self._rot_dir == -1.:
+        elif self._rot_dir == "CW" or self._rot_dir =="cw" or self._rot_dir == -1. or self._rot_dir == 0:
             return -1
         else: 
             return 1.
-- 
2.43.0


From 16f71efca0e9d34c3004835bd22ef4218b6f93e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:32 +0000
Subject: [PATCH 14/33] fix: is_main is optional in the input file, as it is in
 add_wing

---
 machup/geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/machup/geometry.py b/machup/geometry.py
index 4984d96..d30235f 100644
--- a/machup/geometry.py
+++ b/machup/geometry.py
@@ -128,7 +128,7 @@ class Airplane:
                              position=[wing_dict["connect"]["dx"],
                                        wing_dict["connect"]["dy"],
                                        wing_dict["connect"]["dz"]],
-                             is_main = wing_dict["is_main"],
+                             is_main = wing_dict.get("is_main",1),
                              yoffset=wing_dict["connect"]["yoffset"],
                              semispan=wing_dict["span"],
                              sweep=wing_dict["sweep"],
-- 
2.43.0


From ff2eeb68086411d8bc088402958d5408f9abd533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:32 +0000
Subject: [PATCH 15/33] fix: propeller forces are finite when the flow is axial
 up to rounding

---
 machup/propmodel.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/machup/propmodel.py b/machup/propmodel.py
index 4706715..c2b74a4 100644
--- a/machup/propmodel.py
+++ b/machup/propmodel.py
@@ -573,7 +573,9 @@ class PropModel:
             N = self._rho*(self._rot_per_sec*self._rot_per_sec)*(self._d**4)*self._CN_a*angle
             n = self._rho*(self._rot_per_sec*self._rot_per_sec)*(self._d**5)*self._Cn_a*angle
             N_dir = np.cross(np.cross(-self._v_xyz, self._prop_forward),self._prop_forward)
-            N_vec = N_dir/m.sqrt(N_dir[0]**2+N_dir[1]**2+N_dir[2]**2)
+            N_mag = m.sqrt(N_dir[0]**2+N_dir[1]**2+N_dir[2]**2)
+            #the normal direction vanishes when rounding alone keeps the flow from being axial
+            N_vec = N_dir/N_mag if N_mag>0. else np.zeros(3)
 
         self._T = self._rho*(self._rot_per_sec*self._rot_per_sec)*(self._d**4)*self._CT
         self._l = self._rho*(self._rot_per_sec*self._rot_per_sec)*(self._d**5)*self._Cl*(-self._rot_dir)
@@ -1563,4 +1565,5 @@ class PropModel:
         d,e,f = v2
         dot = a*d+b*e+c*f
         mag = m.sqrt(a*a+b*b+c*c)*m.sqrt(d*d+e*e+f*f)
-        return m.acos(dot/mag)
+        #rounding can leave the cosine of nearly aligned vectors slightly outside of [-1,1]
+        return m.acos(max(-1.,min(1.,dot/mag)))
-- 
2.43.0


From fc30c555309c86d9a09002f6a87c42c83b0ce7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:32 +0000
Subject: [PATCH 16/33] fix: wing points on the propeller axis no longer
 receive a NaN velocity

---
 machup/propmodel.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/machup/propmodel.py b/machup/propmodel.py
index c2b74a4..f1e1661 100644
--- a/machup/propmodel.py
+++ b/machup/propmodel.py
@@ -289,7 +289,9 @@ class PropModel:
         center2point_vec = wing_points-P #vector from point to centerline
         self._center2point_dist = self._vec_mag_mult(center2point_vec) #distance from point to center line
         tangent = np.cross(self._prop_forward,center2point_vec)
-        self._tangent_norm = tangent/self._vec_mag_mult(tangent)[:,None]
+        tangent_mag = self._vec_mag_mult(tangent)
+        tangent_mag[tangent_mag==0.] = 1. #points on the centerline have no tangential direction
+        self._tangent_norm = tangent/tangent_mag[:,None]
 
         self._points_in_stream = np.where((abs(self._center2point_dist)<=(self._d/2))&(self._t<0.))
 
-- 
2.43.0


From 6c8ee0f447a6038799c45c35ff69f21289e58737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:08:53 +0000
Subject: [PATCH 17/33] fix: distributions file is complete and contains only
 the requested distributions

---
 machup/MU.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/machup/MU.py b/machup/MU.py
index 0cbaec5..44ace53 100644
--- a/machup/MU.py
+++ b/machup/MU.py
@@ -325,7 +325,7 @@ class MachUp:
                 np.savetxt(filename,ab,fmt= format_string,header = wing_header)
 
             if self.myairplane._props:
-                distrib_file = open(filename, 'ab')
+                distrib_file = open(filename, 'ab' if self.myairplane._wings else 'wb')
                 pd = prop_distributions
 
                 prop_header = "\n\nPropellerDistributions \n{:<16}{:>21}{:>21}{:>21}{:>21}{:>21}{:>21}{:>21}{:>21}{:>21}{:>21}{:>21}".format(
@@ -362,9 +362,11 @@ class MachUp:
 
                 format_string = "%-18s %20.12e %20.12e %20.12e %20.12e %20.12e %20.12e %20.12e %20.12e %20.12e %20.12e %20.12e"
                 np.savetxt(distrib_file,ab,fmt= format_string,header = prop_header)
+                distrib_file.close()
             if filename[-4:] == "json":
                 rawtxtfile = open(filename, "r+")
                 data = rawtxtfile.read()
+                rawtxtfile.close()
                 data = data.replace("\n", "newline")
                 output = {"data":data}
                 with open(filename, 'w') as outfile:
-- 
2.43.0


From bc5be2c49fe9986ba00b905750e0be50fe081e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:12 +0000
Subject: [PATCH 18/33] fix: NACA airfoil names that do not have four digits
 use the default section in .stl files

---
 machup/outputstl.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/machup/outputstl.py b/machup/outputstl.py
index bb24145..0672655 100644
--- a/machup/outputstl.py
+++ b/machup/outputstl.py
@@ -43,14 +43,12 @@ def create_from_grid(llgrid = None, prop_models = None,filename = None):
             left_name = left_airfoil.get_name()
             right_name = right_airfoil.get_name()
         
-            if left_name[:4] == 'NACA' or left_name[:4] == 'naca':
-                if len(left_name) == 8:
-                    left_NACA = left_name[4:]
+            if (left_name[:4] == 'NACA' or left_name[:4] == 'naca') and len(left_name) == 8:
+                left_NACA = left_name[4:]
             else: left_NACA = '2412'
                     
-            if right_name[:4] == 'NACA' or right_name[:4] == 'naca':
-                if len(right_name) == 8:
-                    right_NACA = right_name[4:]
+            if (right_name[:4] == 'NACA' or right_name[:4] == 'naca') and len(right_name) == 8:
+                right_NACA = right_name[4:]
             else: right_NACA = '2412'
 
             left_X,left_Z = plotNACA(left_NACA,n)
@@ -108,9 +106,8 @@ def create_from_grid(llgrid = None, prop_models = None,filename = None):
                 af_loc.append(airfoil[0])
                 af = airfoil[1]
                 name = af.get_name()
-                if name[:4] == 'NACA' or name[:4] == 'naca':
-                    if len(name) == 8:
-                        NACA = name[4:]
+                if (name[:4] == 'NACA' or name[:4] == 'naca') and len(name) == 8:
+                    NACA = name[4:]
                 else: NACA = '2412'
                 X,Z = plotNACA(NACA,n)
                 X_list.append(X)
-- 
2.43.0


From 8d53655ac1ab66119c035076f62f5f1b0bd2985a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:23 +0000
Subject: [PATCH 19/33] fix: propeller nodes the secant method does not
 converge for are bisected

---
 machup/propmodel.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/machup/propmodel.py b/machup/propmodel.py
index f1e1661..b78c62a 100644
--- a/machup/propmodel.py
+++ b/machup/propmodel.py
@@ -440,11 +440,9 @@ class PropModel:
             x2[loc] = x1[loc]-((y1[loc]*(x1[loc]-x0[loc]))/(y1[loc]-y0[loc]))
             i+=1
             x2 = self._correct_ei(x2)
-            if i>50 and loc[0].size<3:
+            if i>50 or loc[0].size == 0:
                 #print("Ei convergence issues @ J=",self._J)
-                return x2
-            if loc[0].size == 0:
-                return x2
+                return self._bisect_unconverged_ei(x2)
 
             x0 = np.copy(x1)
             x1 = np.copy(x2)
@@ -452,6 +450,22 @@ class PropModel:
             y1 = self._ei_function(x1)
 
 
+    def _bisect_unconverged_ei(self,ei,error = 1E-9):
+        #bisect the nodes that the secant method did not converge for. the solution lies between zero
+        #induced angle and the induced angle at which the section does not produce any lift
+        unconverged = np.logical_not(np.absolute(self._ei_function(ei))<=error)
+        if np.any(unconverged):
+            sign = np.sign(self._beta-self._einf)
+            low = np.zeros_like(ei)
+            high = self._beta-self._einf
+            for i in range(60):
+                mid = 0.5*(low+high)
+                beyond = np.sign(self._ei_function(mid)) != sign
+                low = np.where(beyond,low,mid)
+                high = np.where(beyond,mid,high)
+            ei = np.where(unconverged,0.5*(low+high),ei)
+        return ei
+
     def _ei_function(self,ei):
         alpha = self._beta-self._einf-ei
         CLift = self._get_CL(alpha)
-- 
2.43.0


From 5f97944762e1d26642ba2a38e7ce6283a420d7d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:21:28 +0000
Subject: [PATCH 20/33] fix: angle of attack in the distributions file is in
 degrees, as its header says

---
 machup/MU.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/machup/MU.py b/machup/MU.py
index 44ace53..d2bff34 100644
--- a/machup/MU.py
+++ b/machup/MU.py
@@ -311,7 +311,7 @@ class MachUp:
                 ab['dih'] = wd["dihedral"]
                 ab['swp'] = wd["sweep"]
                 ab['are'] = wd["area"]
-                ab['alp'] = wd["alpha"]
+                ab['alp'] = np.degrees(wd["alpha"])
                 ab['f_x'] = wd["forces_xyz"][:,0]
                 ab['f_y'] = wd["forces_xyz"][:,1]
                 ab['f_z'] = wd["forces_xyz"][:,2]
-- 
2.43.0


From 4becf0ee194d6884631cf2b1f1c67ec903b31bf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:51 +0000
Subject: [PATCH 21/33] fix: a control point at the edge of a control surface
 is treated alike on both sides

---
 machup/llgrid.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/machup/llgrid.py b/machup/llgrid.py
index c4a055f..73e645d 100644
--- a/machup/llgrid.py
+++ b/machup/llgrid.py
@@ -380,8 +380,10 @@ class LLGrid:
 
         for i in range(num_sections):
             # if control point is covered by control surface, then
-            # set mixing parameters.
-            if ((spacing[i] > surf_start) and (spacing[i] < surf_end)):
+            # set mixing parameters. A point at the edge is not covered,
+            # on either side of the airplane, whatever its rounding error.
+            if ((spacing[i] - surf_start > 1e-10) and
+                    (surf_end - spacing[i] > 1e-10)):
                 # pylint: disable=no-member
                 # cf_c = chord_start
                 theta_f = np.arccos(2.*cf_c[i] - 1.)
-- 
2.43.0


From 1efb31e6036f30697c63ac70a9a8b18d4fe5c1de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:37:24 +0000
Subject: [PATCH 22/33] fix: propeller nodes whose induced angle converges
 outside the solution bracket are bisected

---
 machup/propmodel.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/machup/propmodel.py b/machup/propmodel.py
index b78c62a..26802aa 100644
--- a/machup/propmodel.py
+++ b/machup/propmodel.py
@@ -451,9 +451,12 @@ class PropModel:
 
 
     def _bisect_unconverged_ei(self,ei,error = 1E-9):
-        #bisect the nodes that the secant method did not converge for. the solution lies between zero
+        #bisect the nodes that the secant method did not converge for or for which it converged to a
+        #root that is not the solution. the solution lies between zero
         #induced angle and the induced angle at which the section does not produce any lift
+        outside = ei*(self._beta-self._einf-ei) < 0.
         unconverged = np.logical_not(np.absolute(self._ei_function(ei))<=error)
+        unconverged = np.logical_or(unconverged,outside)
         if np.any(unconverged):
             sign = np.sign(self._beta-self._einf)
             low = np.zeros_like(ei)
-- 
2.43.0


From f9f0973707a2968d17d6a6fc0b1c65276c72aef9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:44:21 +0000
Subject: [PATCH 23/33] fix: target lift search no longer starts from two equal
 guesses at an angle of attack of -0.2

---
 machup/MU.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/machup/MU.py b/machup/MU.py
index d2bff34..df93cd4 100644
--- a/machup/MU.py
+++ b/machup/MU.py
@@ -1152,7 +1152,7 @@ class MachUp:
             aero0 = aero_state.copy()
             aero1 = aero_state.copy()
             x0 = aero0.get("alpha",0.) #alpha guess
-            x1 = (x0*1.5)+0.1
+            x1 = x0+(abs(x0)*0.5)+0.1 #always differs from x0
             aero0["alpha"] = x0
             aero1["alpha"] = x1
             FM0 = self.solve(aero0,control_state,prop_state)
-- 
2.43.0


From 8845b3995247fafd2135a5a9048a46db152eb196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:58:40 +0000
Subject: [PATCH 24/33] fix: propeller blades are drawn at the pitch angle of
 their chord line in .stl files

---
 machup/outputstl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/machup/outputstl.py b/machup/outputstl.py
index 0672655..35ea9a4 100644
--- a/machup/outputstl.py
+++ b/machup/outputstl.py
@@ -157,7 +157,7 @@ def create_from_grid(llgrid = None, prop_models = None,filename = None):
             Coords = np.zeros((num_nodes,n,3))
             Coords[:,:,0] = -Z_coords
             Coords[:,:,1] =  X_coords*rot_dir
-            twist = prop.get_aero_pitch_angle()-prop.get_zero_lift_alpha()
+            twist = prop.get_aero_pitch_angle()+prop.get_zero_lift_alpha() #pitch angle of the chord line
             e = Euler2Quat((0.,0.,-rot_dir*twist))
             e = np.transpose(e)
 
-- 
2.43.0


From d556a5a83cc6b8e0fa0a9ceb5e4c1f7c2119c6aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:59:52 +0000
Subject: [PATCH 25/33] fix: NACA sections in .stl files use the slope of their
 camber line behind its maximum too

---
 machup/outputstl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/machup/outputstl.py b/machup/outputstl.py
index 35ea9a4..7eeea03 100644
--- a/machup/outputstl.py
+++ b/machup/outputstl.py
@@ -226,7 +226,7 @@ def plotNACA(airfoil,n):
         Yc_x = np.copy(Yc)
     else:
         Yc = np.where(Xc<p,(m/(p*p))*(2*p*Xc-Xc*Xc),(m/((1-p)**2))*((1-2*p)+2*p*Xc-Xc*Xc))
-        Yc_x = np.where(Xc<p,(2*m/(p*p))*(p-Xc),(m/(1-p)**2)*(p-Xc))
+        Yc_x = np.where(Xc<p,(2*m/(p*p))*(p-Xc),(2*m/(1-p)**2)*(p-Xc))
 
     Yul = Yc+(Yt*np.cos(np.arctan(Yc_x))*np.sign(theta))
     Xul = Xc-(Yt*np.sin(np.arctan(Yc_x))*np.sign(theta))
-- 
2.43.0


From 564e926061596b0a3d585069ccf44c59baae012e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:41 +0000
Subject: [PATCH 26/33] fix: control surfaces accept a numpy number as
 percent_chord

---
 machup/geometry.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/machup/geometry.py b/machup/geometry.py
index d30235f..b20f3af 100644
--- a/machup/geometry.py
+++ b/machup/geometry.py
@@ -1398,12 +1398,12 @@ class ControlSurface:
         if dimensions:
             self._span_root = dimensions["percent_span"][0]
             self._span_tip = dimensions["percent_span"][1]
-            try:
-                self._chord_root = dimensions["percent_chord"][0]
-                self._chord_tip = dimensions["percent_chord"][1]
-            except TypeError:
+            if np.ndim(dimensions["percent_chord"]) == 0:
                 self._chord_root = dimensions["percent_chord"]
                 self._chord_tip = dimensions["percent_chord"]
+            else:
+                self._chord_root = dimensions["percent_chord"][0]
+                self._chord_tip = dimensions["percent_chord"][1]
             self._is_sealed = dimensions.get("sealed", 1)
 
             mix_dict = dimensions["mix"]
-- 
2.43.0


From e0eb782831a9ae8afbd429433f415a27c65b4c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:46 +0000
Subject: [PATCH 27/33] fix: an .stl file that cannot be written completely is
 reported

---
 machup/outputstl.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/machup/outputstl.py b/machup/outputstl.py
index 7eeea03..00ad587 100644
--- a/machup/outputstl.py
+++ b/machup/outputstl.py
@@ -1,3 +1,4 @@
+import io
 import numpy as np
 import matplotlib.pyplot as plt
 from numpy import cos as c
@@ -206,7 +207,11 @@ def create_from_grid(llgrid = None, prop_models = None,filename = None):
 
             index+=num_blades*(num_nodes-1)*(n-1)*2
 
-    plane_stl.save(filename)
+    # numpy does not report errors at the end of a file it writes itself
+    stl_data = io.BytesIO()
+    plane_stl.save(filename,fh=stl_data)
+    with open(filename,'wb') as stl_file:
+        stl_file.write(stl_data.getvalue())
 
 
 def plotNACA(airfoil,n):
-- 
2.43.0


From 7550474bb7ca66e23a2f7b9029eb59e6084ad9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:33 +0000
Subject: [PATCH 28/33] fix: drag coefficients of the grid are interpolated
 like its other section properties

---
 machup/llgrid.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/machup/llgrid.py b/machup/llgrid.py
index 73e645d..80d7928 100644
--- a/machup/llgrid.py
+++ b/machup/llgrid.py
@@ -514,17 +514,17 @@ class LLGrid:
         return self._data["CL_max"]
 
     def get_drag_coefficients(self):
-        """Get airfoil drag coefficients of segment that section lays on.
+        """Get linearly interpolated drag coefficients at each wing section.
 
         Returns
         -------
         numpy array
-            Array of airfoil drag coefficients for each section.
+            Array of drag coefficients at each section.
 
         """
-        return (self._data["CD0_left"],
-                self._data["CD1_left"],
-                self._data["CD2_left"])
+        return (self._data["CD0"],
+                self._data["CD1"],
+                self._data["CD2"])
 
     def get_right_drag_coeff(self):
         """Get right airfoil drag coefficients of segment that section lays on.
-- 
2.43.0


From 6625611dab2940932c8aaaa6fc8e8ff88f10fe2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:13:51 +0000
Subject: [PATCH 29/33] fix: distributions file of propellers is written in the
 encoding of the wing table

---
 machup/MU.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/machup/MU.py b/machup/MU.py
index df93cd4..25c9292 100644
--- a/machup/MU.py
+++ b/machup/MU.py
@@ -325,7 +325,7 @@ class MachUp:
                 np.savetxt(filename,ab,fmt= format_string,header = wing_header)
 
             if self.myairplane._props:
-                distrib_file = open(filename, 'ab' if self.myairplane._wings else 'wb')
+                distrib_file = open(filename, 'a' if self.myairplane._wings else 'w')
                 pd = prop_distributions
 
                 prop_header = "\n\nPropellerDistributions \n{:<16}{:>21}{:>21}{:>21}{:>21}{:>21}{:>21}{:>21}{:>21}{:>21}{:>21}{:>21}".format(
-- 
2.43.0


From 743f71e419230208ab60e9174749d5ae0fd371f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:21 +0000
Subject: [PATCH 30/33] fix: export airfoils whose eight-letter NACA name has
 no four digits

---
 machup/outputstl.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/machup/outputstl.py b/machup/outputstl.py
index 00ad587..e2def55 100644
--- a/machup/outputstl.py
+++ b/machup/outputstl.py
@@ -215,6 +215,8 @@ def create_from_grid(llgrid = None, prop_models = None,filename = None):
 
 
 def plotNACA(airfoil,n):
+    if not airfoil.isdigit():
+        airfoil = '2412' #other names, e.g. "NACA-M12"
     max_camb = float(airfoil[0])/100
     max_camb_loc = float(airfoil[1])/10
     max_thickness = float(airfoil[2:4])/100
-- 
2.43.0


From c205c7599419edbcb80e78abb26d34f92f1e7179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:56:19 +0000
Subject: [PATCH 31/33] fix: the propeller solver works with its default aero
 state

---
 machup/propssolver.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/machup/propssolver.py b/machup/propssolver.py
index 6853958..698f889 100644
--- a/machup/propssolver.py
+++ b/machup/propssolver.py
@@ -109,6 +109,8 @@ class PropsSolver:
         return self._results
 
     def _rotate_aero_forces(self,F,aero_state):
+        if not aero_state:
+            aero_state = {}
         a = m.radians(aero_state.get("alpha",0.))
         b = m.radians(aero_state.get("beta",0.))
         ca = m.cos(a)
-- 
2.43.0


From 7e7a9efaa1abd26410048ae7529898ef78c41291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:21 +0000
Subject: [PATCH 32/33] fix: a propeller keeps its own copy of the containers
 it is defined with

Prop kept references to the position, orientation, pitch, chord and motor
containers passed to add_prop (wings copy theirs), so reusing one of them
for the next propeller changed the ones already added, and an existing
model even took on the new position.
---
 machup/geometry.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/machup/geometry.py b/machup/geometry.py
index b20f3af..60be702 100644
--- a/machup/geometry.py
+++ b/machup/geometry.py
@@ -1051,16 +1051,16 @@ class Prop:
 
 
     def _unpack(self, prop_dict):
-        self._position = prop_dict.get("position", [0.,0.,0.])
-        self._orientation = prop_dict.get("orientation", [0.,0.])
+        self._position = np.array(prop_dict.get("position", [0.,0.,0.]), dtype=float)
+        self._orientation = list(prop_dict.get("orientation", [0.,0.]))
         self._nodes = prop_dict.get("nodes", 100)
         self._diameter = prop_dict.get("diameter", 1.0)
         self._hub_diameter = prop_dict.get("hub_diameter", 0.1*self._diameter)
         self._blades = prop_dict.get("num_of_blades", 2)
         self._rot_dir = prop_dict.get("rot_dir", 1.)
-        self._pitch_info = prop_dict.get("pitch_info",{"type":"default"})
-        self._chord_info = prop_dict.get("chord_info",{"type":"default"})
-        self._motor_info = prop_dict.get("electric_motor",{})
+        self._pitch_info = dict(prop_dict.get("pitch_info",{"type":"default"}))
+        self._chord_info = dict(prop_dict.get("chord_info",{"type":"default"}))
+        self._motor_info = dict(prop_dict.get("electric_motor",{}))
         '''
         self._root_airfoil = Airfoil()
         self._tip_airfoil = Airfoil()
-- 
2.43.0


From ce596bfeccf1525bdc364bae36008e6e1b9c627a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:00:17 +0000
Subject: [PATCH 33/33] fix: building a model does not add an airfoil to the
 airplane's propellers

PropModel stored a default airfoil in a Prop that had none, so an airfoil
given to that propeller after a first model was built became its second
one, and the next model raised a RuntimeError.
---
 machup/propmodel.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/machup/propmodel.py b/machup/propmodel.py
index 26802aa..4bb97dc 100644
--- a/machup/propmodel.py
+++ b/machup/propmodel.py
@@ -4,6 +4,7 @@ from scipy.integrate import simps, ode,trapz
 import math as m
 import matplotlib.pyplot as plt
 from scipy import optimize as opt
+from machup.geometry import Airfoil
 
 
 class PropModel:
@@ -77,7 +78,7 @@ class PropModel:
 
         airfoils = self._prop.get_airfoils()
         if len(airfoils) == 0:
-            self._prop.airfoil()
+            airfoils = {"NACA2412": Airfoil()}
 
         if len(airfoils) == 1:
             af = list(airfoils.values())[0]
-- 
2.43.0

