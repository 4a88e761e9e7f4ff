From 9bfd90f781dcaaeee9c7cb9b188f599c3affb0dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:47 +0000
Subject: [PATCH 01/32] fix: start the absorption term from zero on every call
 in sigma_integrator.make_vectors

---
 moving_mesh_transport/solver_classes/opacity.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/moving_mesh_transport/solver_classes/opacity.py b/moving_mesh_transport/solver_classes/opacity.py
index 930b17f..f8b2236 100644
--- a/moving_mesh_transport/solver_classes/opacity.py
+++ b/moving_mesh_transport/solver_classes/opacity.py
@@ -168,6 +168,7 @@ class sigma_integrator():
         if self.sigma_func['constant'] == True:
             self.VV = u * self.sigma_t
         else:
+            self.VV = np.zeros(self.M+1)
             for i in range(self.M + 1):
                 for j in range(self.M + 1):
                     for k in range(self.Msigma + 1):
-- 
2.43.0


From c591cf917b647e0d2aaf64e880a2e82f944d12c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:47 +0000
Subject: [PATCH 02/32] fix: recompute opacity moments of the time-dependent
 fake_sedov profile on unchanged cells

---
 moving_mesh_transport/solver_classes/opacity.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/moving_mesh_transport/solver_classes/opacity.py b/moving_mesh_transport/solver_classes/opacity.py
index f8b2236..08b8472 100644
--- a/moving_mesh_transport/solver_classes/opacity.py
+++ b/moving_mesh_transport/solver_classes/opacity.py
@@ -62,8 +62,9 @@ class sigma_integrator():
         self.VP = np.zeros(self.M+1)
         self.AAA = np.zeros((self.M+1, self.M + 1, self.Msigma + 1))
         self.moving = False
-        # if self.sigma_func['fake_sedov'] == True:
-        #     self.moving = True
+        # the fake_sedov profile depends on time, so cells must be recomputed even if their edges are unchanged
+        if self.sigma_func['fake_sedov'] == True:
+            self.moving = True
         # self.sigma_v = 0.005
         self.sigma_v = build.fake_sedov_v0
 
-- 
2.43.0


From 7eeb6dba990bce2a06fe16bdfd689089bec12b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:45 +0000
Subject: [PATCH 03/32] fix: dx_normPn returns the derivative with respect to
 position

---
 moving_mesh_transport/solver_classes/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moving_mesh_transport/solver_classes/functions.py b/moving_mesh_transport/solver_classes/functions.py
index ab5066f..7ee5b1b 100644
--- a/moving_mesh_transport/solver_classes/functions.py
+++ b/moving_mesh_transport/solver_classes/functions.py
@@ -107,7 +107,7 @@ def dx_normPn(n, x, a = -1.0, b = 1.0):
             tmp[count] = (-693 + 45045*z**2 - 450450*z**4 + 1531530*z**6 - 2078505*z**8 + 969969*z**10)/256.
 
 
-    return tmp * fact
+    return tmp * fact * 2 / (b-a) # z = (2*x - a - b)/(b-a)
 
 
 
-- 
2.43.0


From faec6ad11603b29e6027d936666716d7dfb157c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:36 +0000
Subject: [PATCH 04/32] fix: store the initial edges for every mesh
 initialisation so that moves restart from them

---
 moving_mesh_transport/solver_classes/mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moving_mesh_transport/solver_classes/mesh.py b/moving_mesh_transport/solver_classes/mesh.py
index ac29274..8c7b90d 100644
--- a/moving_mesh_transport/solver_classes/mesh.py
+++ b/moving_mesh_transport/solver_classes/mesh.py
@@ -855,7 +855,7 @@ class mesh_class(object):
                     elif self.move_func == 2:
                             self.thin_square_init_func()
 
-        # self.edges0 = self.edges
+        self.edges0 = self.edges
         self.Dedges_const = self.Dedges
 
 
-- 
2.43.0


From 77a240b5ff5baf08b535da754a659c88ef5b815b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:36 +0000
Subject: [PATCH 05/32] fix: move the mesh before t0 with the constant initial
 velocities

---
 moving_mesh_transport/solver_classes/mesh.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/moving_mesh_transport/solver_classes/mesh.py b/moving_mesh_transport/solver_classes/mesh.py
index 8c7b90d..c853741 100644
--- a/moving_mesh_transport/solver_classes/mesh.py
+++ b/moving_mesh_transport/solver_classes/mesh.py
@@ -230,7 +230,8 @@ class mesh_class(object):
 
                             elif (t < self.t0):
                             
-                                self.edges = self.edges0 + self.Dedges*t
+                                self.edges = self.edges0 + self.Dedges_const*t
+                                self.Dedges = self.Dedges_const
 
 
                             # self.Dedges = self.Dedges_const
-- 
2.43.0


From 334b1c65799ac408df753657f2e8152ece5d98fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:28 +0000
Subject: [PATCH 06/32] fix: compute the acceleration of the mesh after t0 for
 every initial mesh

---
 moving_mesh_transport/solver_classes/mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moving_mesh_transport/solver_classes/mesh.py b/moving_mesh_transport/solver_classes/mesh.py
index c853741..43cc994 100644
--- a/moving_mesh_transport/solver_classes/mesh.py
+++ b/moving_mesh_transport/solver_classes/mesh.py
@@ -275,7 +275,7 @@ class mesh_class(object):
     def move_middle_edges(self,t):
         middlebin = int(self.N_space/2)
         sidebin = int(middlebin/2)
-        if self.Dedges[sidebin] == 0:
+        if t >= self.t0:
             self.edges0_2 = self.edges0 + self.Dedges_const * self.t0
             # final_pos = self.edges0[-1] + self.Dedges[-1] * self.tfinal
             final_pos = self.pad
-- 
2.43.0


From 5310d4243d76a433bf902c4029d09fa47302adc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:47 +0000
Subject: [PATCH 07/32] fix: move the mesh of Gaussian problems and of
 infinite-domain square sources with its velocities

---
 moving_mesh_transport/solver_classes/mesh.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/moving_mesh_transport/solver_classes/mesh.py b/moving_mesh_transport/solver_classes/mesh.py
index 43cc994..ad94fa4 100644
--- a/moving_mesh_transport/solver_classes/mesh.py
+++ b/moving_mesh_transport/solver_classes/mesh.py
@@ -262,6 +262,9 @@ class mesh_class(object):
                 # print(self.Dedges)
                 self.edges = self.edges0 + self.Dedges*t
 
+            else:
+                self.edges = self.edges0 + self.Dedges_const*t
+
             # if self.debugging == True:
             #     for itest in range(self.edges.size()):
             #         if self.edges[itest] != np.sort(self.edges)[itest]:
-- 
2.43.0


From 779643b114e86f5bad0734e5181a430f11ab5fe1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:06 +0000
Subject: [PATCH 08/32] fix: right-moving lower limit in the two-direction
 square source after switch-off

---
 moving_mesh_transport/solver_classes/functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moving_mesh_transport/solver_classes/functions.py b/moving_mesh_transport/solver_classes/functions.py
index 7ee5b1b..69711ad 100644
--- a/moving_mesh_transport/solver_classes/functions.py
+++ b/moving_mesh_transport/solver_classes/functions.py
@@ -311,7 +311,7 @@ def uncollided_su_olson_s2(x,t,x0,t0):
             if t - (x0-x)*3/math.sqrt(3) <= 0:
                 return  2*(s2_F(t,  T0) - s2_F(t, 0))
             elif t - (x0-x)*3/math.sqrt(3) > 0 and t - (x0-x)*3/math.sqrt(3) < T0:
-                return 2*(s2_F(t,  T0) - s2_F(t, arg)) + s2_F(t, arg) - s2_F(t, 0)
+                return 2*(s2_F(t,  T0) - s2_F(t, arg)) + s2_F(t, arg) - s2_F(t, max(t - (x0+x)*3/math.sqrt(3),0))
             else:
                 return 0
          
-- 
2.43.0


From cf86706059ff1ce037698f3d87494bab6ce020f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:40 +0000
Subject: [PATCH 09/32] fix: multiply the uncollided flux and its scattered
 source by the source strength once

---
 moving_mesh_transport/solver_classes/sources.py             | 6 ++++--
 .../solver_classes/uncollided_solutions.py                  | 4 ++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/moving_mesh_transport/solver_classes/sources.py b/moving_mesh_transport/solver_classes/sources.py
index a0fe790..b92dc51 100644
--- a/moving_mesh_transport/solver_classes/sources.py
+++ b/moving_mesh_transport/solver_classes/sources.py
@@ -119,7 +119,7 @@ class source_class(object):
         if self.geometry['slab'] == True:
             if self.uncollided == True:
                 if (self.source_type[0] == 1) and  (self.moving == True):
-                        self.S[0] = uncollided_solution.plane_IC_uncollided_solution_integrated(t, xL, xR)
+                        self.S[0] = uncollided_solution.plane_IC_uncollided_solution_integrated(t, xL, xR) * self.source_strength
                 else:
                     for j in range(self.M+1):
                         self.integrate_quad(t, xL, xR, j, uncollided_solution.uncollided_solution)
@@ -146,7 +146,9 @@ class source_class(object):
 
                         
 
-        self.S = self.S * self.source_strength
+        # the uncollided solution already contains the source strength
+        if self.uncollided == False:
+            self.S = self.S * self.source_strength
 
     def make_source_not_isotropic(self, t, mu, xL, xR):
             if self.source_type[4] ==1:
diff --git a/moving_mesh_transport/solver_classes/uncollided_solutions.py b/moving_mesh_transport/solver_classes/uncollided_solutions.py
index c8c2478..6c0e820 100644
--- a/moving_mesh_transport/solver_classes/uncollided_solutions.py
+++ b/moving_mesh_transport/solver_classes/uncollided_solutions.py
@@ -222,7 +222,7 @@ class uncollided_solution(object):
                     temp[ix] = math.exp(-t)*(t + xx + self.x0)/(2.0 * t + 1e-12)
                 elif (self.x0 - xx <= t) and (self.x0 + xx >= t):
                     temp[ix] = math.exp(-t)*(t - xx + self.x0)/(2.0 * t + 1e-12)
-        return temp * self.source_strength
+        return temp
     
     def shell_IC_uncollided_solution(self, xs, t):
         temp = xs*0 
@@ -244,7 +244,7 @@ class uncollided_solution(object):
         sqrtpi = math.sqrt(math.pi)
         for ix in range(xs.size):
             xx = xs[ix]
-            temp[ix] = self.sigma * math.exp(-t) * sqrtpi * (math.erf((t-xx)/self.sigma) + math.erf((t+xx)/self.sigma))/(4.0 * t + 1e-12) * self.source_strength
+            temp[ix] = self.sigma * math.exp(-t) * sqrtpi * (math.erf((t-xx)/self.sigma) + math.erf((t+xx)/self.sigma))/(4.0 * t + 1e-12)
         return temp
         
     def plane_IC_uncollided_solution(self, xs, t):
-- 
2.43.0


From 70c2003aaef30ab69eef8d2cda91ba1ec1e281cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:58 +0000
Subject: [PATCH 10/32] fix: evaluate the uncollided exit flux at the two ends
 of the mesh

---
 moving_mesh_transport/solver_classes/make_phi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moving_mesh_transport/solver_classes/make_phi.py b/moving_mesh_transport/solver_classes/make_phi.py
index dc67814..3b7f87e 100644
--- a/moving_mesh_transport/solver_classes/make_phi.py
+++ b/moving_mesh_transport/solver_classes/make_phi.py
@@ -107,7 +107,7 @@ class make_output:
         self.exit_dist = psi
         output = np.sum(np.multiply(psi.transpose(), self.ws), axis = 1)
         if self.uncollided == True:
-            uncol = uncollided_solution.uncollided_solution(self.xs, self.t)
+            uncol = uncollided_solution.uncollided_solution(x_eval, self.t)
             output += uncol
         return self.exit_dist, output
         
-- 
2.43.0


From e05a9e42f4b0e13851b3f36353907ad02ff9973e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:05 +0000
Subject: [PATCH 11/32] fix: give the two-point Gauss-Lobatto rule its end
 weights

---
 moving_mesh_transport/solver_classes/functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/moving_mesh_transport/solver_classes/functions.py b/moving_mesh_transport/solver_classes/functions.py
index 69711ad..64c4d6d 100644
--- a/moving_mesh_transport/solver_classes/functions.py
+++ b/moving_mesh_transport/solver_classes/functions.py
@@ -643,8 +643,8 @@ def quadrature(n, name, testing = False):
         for nn in range(1, n-1):
             inn = nn + 1
             ws[nn] = 2 / (n*(n-1)) / (sps.eval_legendre(n-1, roots[nn]))**2
-            ws[0] = 2/ (n*(n-1))
-            ws[-1] = 2/ (n*(n-1))
+        ws[0] = 2/ (n*(n-1))
+        ws[-1] = 2/ (n*(n-1))
         # if testing == True:
         #     testxs = quadpy.c1.gauss_lobatto(n).points
         #     testws = quadpy.c1.gauss_lobatto(n).weights
-- 
2.43.0


From 5d14579e2fbf52b5792c5ed8f7462a380a56a167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:52 +0000
Subject: [PATCH 12/32] fix: save solutions in double precision

---
 moving_mesh_transport/loading_and_saving/save_output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moving_mesh_transport/loading_and_saving/save_output.py b/moving_mesh_transport/loading_and_saving/save_output.py
index 0fd22c8..99e6bbb 100644
--- a/moving_mesh_transport/loading_and_saving/save_output.py
+++ b/moving_mesh_transport/loading_and_saving/save_output.py
@@ -194,7 +194,7 @@ class save_output:
         print('###  ###  ###  ###  ###  ###  ###  ###  ###')
         print(folder_name + 'solution/' + full_str)
         print('###  ###  ###  ###  ###  ###  ###  ###  ###')
-        dset = f[folder_name].create_dataset('solution/' + full_str, (4, len(xs)))
+        dset = f[folder_name].create_dataset('solution/' + full_str, (4, len(xs)), dtype = 'float64')
         
         if not f[folder_name].__contains__(full_str):
             f.create_group(full_str)
-- 
2.43.0


From 10c8ee0abc3dd2a9a562d0d6e63390b29c61a9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:21 +0000
Subject: [PATCH 13/32] fix: keep saved angular fluxes of different problems
 apart

---
 .../loading_and_saving/load_solution.py         |  4 ++--
 .../loading_and_saving/save_output.py           | 17 +++++++++--------
 2 files changed, 11 insertions(+), 10 deletions(-)

diff --git a/moving_mesh_transport/loading_and_saving/load_solution.py b/moving_mesh_transport/loading_and_saving/load_solution.py
index f294f3c..48699b0 100644
--- a/moving_mesh_transport/loading_and_saving/load_solution.py
+++ b/moving_mesh_transport/loading_and_saving/load_solution.py
@@ -50,10 +50,10 @@ class load_sol:
         self.phi = sol_data[1]
         self.e = sol_data[2]
 
-        self.psi = f[self.problem_name][full_str]['psi'][:,:]
+        self.psi = f[self.problem_name][full_str[1:]]['psi'][:,:]
         print(self.psi)
 
-        self.mus = f[self.problem_name][full_str]['mus'][:]
+        self.mus = f[self.problem_name][full_str[1:]]['mus'][:]
 
       
         self.ws = f[self.problem_name]['weights/' + full_str][:]
diff --git a/moving_mesh_transport/loading_and_saving/save_output.py b/moving_mesh_transport/loading_and_saving/save_output.py
index 99e6bbb..3d2c849 100644
--- a/moving_mesh_transport/loading_and_saving/save_output.py
+++ b/moving_mesh_transport/loading_and_saving/save_output.py
@@ -196,23 +196,24 @@ class save_output:
         print('###  ###  ###  ###  ###  ###  ###  ###  ###')
         dset = f[folder_name].create_dataset('solution/' + full_str, (4, len(xs)), dtype = 'float64')
         
-        if not f[folder_name].__contains__(full_str):
-            f.create_group(full_str)
+        psi_str = full_str[1:] # inside the folder of this problem
+        if not f[folder_name].__contains__(psi_str):
+            f[folder_name].create_group(psi_str)
 
 
 
-        if f[folder_name][full_str].__contains__('psi'):
-            del f[folder_name][full_str]['psi']
-        if f[folder_name][full_str].__contains__('mus'):
-            del f[folder_name][full_str]['mus']
+        if f[folder_name][psi_str].__contains__('psi'):
+            del f[folder_name][psi_str]['psi']
+        if f[folder_name][psi_str].__contains__('mus'):
+            del f[folder_name][psi_str]['mus']
         print("saving solution")
         dset[0] = xs
         dset[1] = phi
         if folder_name != 'transport':
             dset[2] = e
         
-        dsetpsi = f[folder_name][full_str].create_dataset('psi', data = psi)
-        dsetmus = f[folder_name][full_str].create_dataset('mus', data = mus)
+        dsetpsi = f[folder_name][psi_str].create_dataset('psi', data = psi)
+        dsetmus = f[folder_name][psi_str].create_dataset('mus', data = mus)
         # dsetpsi = psi
         # dset[3] = psi
         # dset[2] = self.ws
-- 
2.43.0


From e76506351a40356dfe68949f9ccb54cd3d70478c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:21 +0000
Subject: [PATCH 14/32] fix: load constant heat capacity solutions under the
 name they are saved with

---
 .../loading_and_saving/load_solution.py         | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/moving_mesh_transport/loading_and_saving/load_solution.py b/moving_mesh_transport/loading_and_saving/load_solution.py
index 48699b0..7920c5d 100644
--- a/moving_mesh_transport/loading_and_saving/load_solution.py
+++ b/moving_mesh_transport/loading_and_saving/load_solution.py
@@ -44,31 +44,32 @@ class load_sol:
         f = h5py.File(self.data_file_path, "r+")
         f2 = h5py.File(self.final_sol_path, 'a')
 
-        sol_data = f[self.problem_name]['solution/'+full_str]
+        folder_name = self.problem_name.replace('rad_transfer_constant_cv', f'transfer_const_cv={self.cv0}')
+        sol_data = f[folder_name]['solution/'+full_str]
 
         self.xs = sol_data[0]
         self.phi = sol_data[1]
         self.e = sol_data[2]
 
-        self.psi = f[self.problem_name][full_str[1:]]['psi'][:,:]
+        self.psi = f[folder_name][full_str[1:]]['psi'][:,:]
         print(self.psi)
 
-        self.mus = f[self.problem_name][full_str[1:]]['mus'][:]
+        self.mus = f[folder_name][full_str[1:]]['mus'][:]
 
       
-        self.ws = f[self.problem_name]['weights/' + full_str][:]
-        self.edges = f[self.problem_name]['edges/' + full_str][:]
+        self.ws = f[folder_name]['weights/' + full_str][:]
+        self.edges = f[folder_name]['edges/' + full_str][:]
         # print(f[self.problem_name]['weights'].keys())
         # print(f[self.problem_name]['coefficients'].keys())
         
         if self.rad_or_transfer == 'transfer':
             if mat_or_rad == 'rad':
-                self.coeff_mat = f[self.problem_name]['coefficients/' + full_str][:-1,:,:]
+                self.coeff_mat = f[folder_name]['coefficients/' + full_str][:-1,:,:]
                 
             elif mat_or_rad =='mat':
-                self.coeff_mat = f[self.problem_name]['coefficients/' + full_str][-1,:,:]
+                self.coeff_mat = f[folder_name]['coefficients/' + full_str][-1,:,:]
         else:
-            self.coeff_mat = f[self.problem_name]['coefficients/' + full_str][:,:,:]
+            self.coeff_mat = f[folder_name]['coefficients/' + full_str][:,:,:]
 
         # x = f[self.problem_name]
 
-- 
2.43.0


From 77785a1c32b0766864f186e6fa827d9a48ff7bb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:21 +0000
Subject: [PATCH 15/32] fix: name saved runs of boundary, dipole and
 self-similar plane problems

---
 moving_mesh_transport/loading_and_saving/save_output.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/moving_mesh_transport/loading_and_saving/save_output.py b/moving_mesh_transport/loading_and_saving/save_output.py
index 3d2c849..cf8fe86 100644
--- a/moving_mesh_transport/loading_and_saving/save_output.py
+++ b/moving_mesh_transport/loading_and_saving/save_output.py
@@ -42,6 +42,8 @@ class save_output:
         gaussian_sources = ["gaussian_IC", "gaussian_s"]
         index_of_source_name = np.argmin(np.abs(np.array(source_type)-1))
         self.source_name = source_name_list[index_of_source_name]  
+        if source_type[index_of_source_name] != 1:
+            self.source_name = {0: "boundary_source", 2: "dipole", 3: "self_sim_plane"}[int(source_type[0])]
               
     def save_RMS(self, RMS_list, energy_RMS_list, N_angles, r_times):
         if (self.tfinal in [1,5,10,1.25, 0.8333333333333334]) or (self.thermal_couple == 1 and self.tfinal == 31.6228) :
-- 
2.43.0


From 6b0c44566a807b2eac936916f2d0ba2190f0466a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:38 +0000
Subject: [PATCH 16/32] fix: pass the geometry to find_nodes when output times
 are given

---
 moving_mesh_transport/solver_functions/main_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moving_mesh_transport/solver_functions/main_functions.py b/moving_mesh_transport/solver_functions/main_functions.py
index 969915a..06a525f 100644
--- a/moving_mesh_transport/solver_functions/main_functions.py
+++ b/moving_mesh_transport/solver_functions/main_functions.py
@@ -258,7 +258,7 @@ def solve(tfinal, N_space, N_ang, M, x0, t0, sigma_t, sigma_s, t_nodes, source_t
             mesh.move(tt)
             edges = mesh.edges
             if choose_xs == False:
-                xs = find_nodes(edges, M)
+                xs = find_nodes(edges, M, geometry)
             elif choose_xs == True:
                 xs = specified_xs
             output = make_output(tt, N_ang, ws, xs, sol.y[:,it].reshape((N_ang+extra_deg_freedom,N_space,M+1)), M, edges, uncollided, geometry)
-- 
2.43.0


From 4c4f612ad9272891450cb91e932465602357cb98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:12 +0000
Subject: [PATCH 17/32] fix: boundary_source plots look opacity options up by
 name

---
 .../solver_functions/run_functions.py                | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/moving_mesh_transport/solver_functions/run_functions.py b/moving_mesh_transport/solver_functions/run_functions.py
index 203bad9..c2e7730 100644
--- a/moving_mesh_transport/solver_functions/run_functions.py
+++ b/moving_mesh_transport/solver_functions/run_functions.py
@@ -204,17 +204,17 @@ class run:
             f = lambda x: np.exp(-x**2 /(2 * 0.5**2))
             fsol = lambda x, mu: np.exp(x * 1/mu) 
             plt.figure(3)
-            if solver.sigma_func[0] == 1:
+            if solver.sigma_func['constant'] == 1:
                 # plt.plot(self.xs, self.psi[-1,:], '-^')
                 plt.plot(self.xs, fsol(self.xs+self.x0, -1), 'rx')
                 plt.show()
-            elif solver.sigma_func[1] == 1:
+            elif solver.sigma_func['gaussian'] == 1:
                 self.steady_state_gaussian_benchmark()
             
-            elif solver.sigma_func[2] == 1 or solver.sigma_func[3] == 1:
+            elif solver.sigma_func['siewert1'] == 1 or solver.sigma_func['siewert2'] == 1:
                 self.siewert_bench(solver.sigma_func)
             
-            elif solver.sigma_func[4] == 1:
+            elif solver.sigma_func['fake_sedov'] == 1:
                 plt.figure(4)
                 mu2 = self.mus[np.argmin(np.abs(self.mus - 0.6))]
                 # plt.plot(self.xs[-1], self.psi[-1,-1], '--', label = 'mu = 1 from solver')
@@ -369,7 +369,7 @@ class run:
 
 
 
-        if sigma[2] == 1: 
+        if sigma['siewert1'] == 1: 
             resultsfigns = [9,10]
             plt.figure(9)
             plt.plot(self.psibenchpsis, self.psi0bench, 'kx', label = 'benchmark s = 1')
@@ -379,7 +379,7 @@ class run:
             plt.plot(self.psibenchpsis, self.psi1bench, 'kx', label = 'benchmark s = 1')
             plt.legend()
             plt.show()
-        elif sigma[3] == 1: 
+        elif sigma['siewert2'] == 1: 
             resultsfigns = [11,12]
             plt.figure(11)
             plt.plot(self.psibenchpsis, self.psi0benchinf, 'kx', label = 'benchmark s = inf')
-- 
2.43.0


From bdcc55b7c6b5fdd340e2685ff0cd55ef39b98a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:12 +0000
Subject: [PATCH 18/32] fix: opacity accepts decks without a fake_sedov option

---
 moving_mesh_transport/solver_classes/opacity.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/moving_mesh_transport/solver_classes/opacity.py b/moving_mesh_transport/solver_classes/opacity.py
index 08b8472..1345649 100644
--- a/moving_mesh_transport/solver_classes/opacity.py
+++ b/moving_mesh_transport/solver_classes/opacity.py
@@ -63,8 +63,9 @@ class sigma_integrator():
         self.AAA = np.zeros((self.M+1, self.M + 1, self.Msigma + 1))
         self.moving = False
         # the fake_sedov profile depends on time, so cells must be recomputed even if their edges are unchanged
-        if self.sigma_func['fake_sedov'] == True:
-            self.moving = True
+        if 'fake_sedov' in self.sigma_func:
+            if self.sigma_func['fake_sedov'] == True:
+                self.moving = True
         # self.sigma_v = 0.005
         self.sigma_v = build.fake_sedov_v0
 
-- 
2.43.0


From d864d0ab1e8f1a5b16d52e06080c31ab5b0497c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:12 +0000
Subject: [PATCH 19/32] fix: mesh deck names the fake_sedov opacity as the
 solver does

---
 moving_mesh_transport/input_scripts/mesh_parameters.yaml | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moving_mesh_transport/input_scripts/mesh_parameters.yaml b/moving_mesh_transport/input_scripts/mesh_parameters.yaml
index 4632cb4..a333e68 100644
--- a/moving_mesh_transport/input_scripts/mesh_parameters.yaml
+++ b/moving_mesh_transport/input_scripts/mesh_parameters.yaml
@@ -25,7 +25,7 @@
 'boundary_source_strength': 1.0
 'boundary_source': False
 'boundary_source_loc': [10,0]
-'sigma_func': {constant: True,linear: False, siewert1: False, siewert2: False, gaussian: False, f_sedov: False} # [constant, gaussian, siewert s = 1, siewert s = infty, Fake Sedov]
+'sigma_func': {constant: True,linear: False, siewert1: False, siewert2: False, gaussian: False, fake_sedov: False} # [constant, gaussian, siewert s = 1, siewert s = infty, Fake Sedov]
 'Msigma': 0
 'fake_sedov_v0': 0.005
 
-- 
2.43.0


From bd571e8e2f07ad45dd5e944cd6b8496717258155 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:50 +0000
Subject: [PATCH 20/32] fix: solve accepts fewer than four cells

---
 moving_mesh_transport/solver_functions/main_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moving_mesh_transport/solver_functions/main_functions.py b/moving_mesh_transport/solver_functions/main_functions.py
index 06a525f..3686bdd 100644
--- a/moving_mesh_transport/solver_functions/main_functions.py
+++ b/moving_mesh_transport/solver_functions/main_functions.py
@@ -124,7 +124,7 @@ def solve(tfinal, N_space, N_ang, M, x0, t0, sigma_t, sigma_s, t_nodes, source_t
 
     # t_ws = quadpy.c1.gauss_legendre(t_nodes).weights
     quad_thick_source, blank = quadrature(int(N_space/2+1), 'gauss_lobatto')
-    quad_thick_edge, blank = quadrature(int(N_space/4+1), 'gauss_lobatto')
+    quad_thick_edge, blank = quadrature(max(int(N_space/4+1), 2), 'gauss_lobatto')
     # quad_thick_source = quadpy.c1.gauss_lobatto(int(N_space/2+1)).points
     # quad_thick_edge = quadpy.c1.gauss_lobatto(int(N_space/4+1)).points
     # quad_thick_source = ([quad_thick_source_inside, quad_thick_source_outside])
-- 
2.43.0


From 55928850bd456078379946ba2c24a050641549c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:58 +0000
Subject: [PATCH 21/32] fix: save manufactured-solution runs under the x0 they
 were run with

---
 moving_mesh_transport/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moving_mesh_transport/solver.py b/moving_mesh_transport/solver.py
index e8464a4..8bd7bf2 100644
--- a/moving_mesh_transport/solver.py
+++ b/moving_mesh_transport/solver.py
@@ -146,7 +146,7 @@ class main_class(parameter_load_class):
                 # plt.figure(1)
                 # plt.plot(xs, phi, 'o', mfc = 'none')
                 if self.sigma == 0:
-                    x0_or_sigma = self.x0[0]
+                    x0_or_sigma = x0_new
                 else:
                     x0_or_sigma = self.sigma
                     
-- 
2.43.0


From b3002cc50a82cdcb994bf7ceceeaca5bfaaaa4ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:39 +0000
Subject: [PATCH 22/32] fix: with output times the coefficients and edges of
 every output time are returned and saved

---
 moving_mesh_transport/solver.py                      |  4 ++--
 .../solver_functions/main_functions.py               | 12 +++++++++---
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/moving_mesh_transport/solver.py b/moving_mesh_transport/solver.py
index 8bd7bf2..b09a8ee 100644
--- a/moving_mesh_transport/solver.py
+++ b/moving_mesh_transport/solver.py
@@ -165,7 +165,7 @@ class main_class(parameter_load_class):
                             self.temp_function, self.scattering_ratio, self.sigma,
                             self.x0, self.cv0, self.problem_type, self.N_angles, self.epsilon)
 
-                            saving.save_solution(xs[it], phi[it], e, sol_matrix, edges, x0_or_sigma, ws, N_space, s2, psi[it, :, :], self.epsilon, mus)
+                            saving.save_solution(xs[it], phi[it], e, sol_matrix[it], edges[it], x0_or_sigma, ws, N_space, s2, psi[it, :, :], self.epsilon, mus)
                 
                 
                 self.r_times[count] += (time)/self.N_runs
@@ -187,7 +187,7 @@ class main_class(parameter_load_class):
                 plt.xlabel("x")
                 plt.ylabel("scalar flux")
                 if count == len(self.N_angles)-1:
-                    plot_edges(edges, 1)
+                    plot_edges(edges if self.eval_times == False else edges[-1], 1)
                 # if self.thermal_couple == 1:
                 #     plt.plot(xs, e, "-^", label = "energy density", mfc = "none")
                 # if self.temp_function[0]==1:
diff --git a/moving_mesh_transport/solver_functions/main_functions.py b/moving_mesh_transport/solver_functions/main_functions.py
index 3686bdd..ea9c80a 100644
--- a/moving_mesh_transport/solver_functions/main_functions.py
+++ b/moving_mesh_transport/solver_functions/main_functions.py
@@ -216,12 +216,12 @@ def solve(tfinal, N_space, N_ang, M, x0, t0, sigma_t, sigma_s, t_nodes, source_t
        
         sol_last = sol.y[:,-1].reshape((N_ang,N_space,M+1))
         if eval_times ==True:
-            sol_array = sol.y.reshape((eval_array.size, N_ang,N_space,M+1)) 
+            sol_array = np.zeros((eval_array.size, N_ang,N_space,M+1))
     elif thermal_couple['none'] != 1:
         extra_deg_freedom = 1
         sol_last = sol.y[:,-1].reshape((N_ang+1,N_space,M+1))
         if eval_times == True:
-            sol_array = sol.y.reshape((eval_array.size, N_ang+1,N_space,M+1)) 
+            sol_array = np.zeros((eval_array.size, N_ang+1,N_space,M+1))
 
 
     
@@ -254,6 +254,7 @@ def solve(tfinal, N_space, N_ang, M, x0, t0, sigma_t, sigma_s, t_nodes, source_t
         exit_dist = np.zeros((eval_array.size, N_ang, 2))
         exit_phi = np.zeros((eval_array.size, 2))
         xs_ret = np.zeros((eval_array.size, xs.size))
+        edges_array = np.zeros((eval_array.size, N_space+1))
         for it, tt in enumerate(eval_array):
             mesh.move(tt)
             edges = mesh.edges
@@ -261,7 +262,9 @@ def solve(tfinal, N_space, N_ang, M, x0, t0, sigma_t, sigma_s, t_nodes, source_t
                 xs = find_nodes(edges, M, geometry)
             elif choose_xs == True:
                 xs = specified_xs
-            output = make_output(tt, N_ang, ws, xs, sol.y[:,it].reshape((N_ang+extra_deg_freedom,N_space,M+1)), M, edges, uncollided, geometry)
+            sol_array[it] = sol.y[:,it].reshape((N_ang+extra_deg_freedom,N_space,M+1))
+            edges_array[it] = edges
+            output = make_output(tt, N_ang, ws, xs, sol_array[it], M, edges, uncollided, geometry)
             phi[it,:] = output.make_phi(uncollided_sol)
             psi[it, :, :] = output.psi_out # this is the collided psi
             exit_dist[it], exit_phi[it] = output.get_exit_dist(uncollided_sol)
@@ -270,6 +273,9 @@ def solve(tfinal, N_space, N_ang, M, x0, t0, sigma_t, sigma_s, t_nodes, source_t
                 e = output.make_e()
             else:
                 e = phi*0
+        # coefficients and mesh of every output time
+        sol_last = sol_array
+        edges = edges_array
     computation_time = end-start
     
     return xs_ret, phi, psi, exit_dist, exit_phi,  e, computation_time, sol_last, mus, ws, edges, wavespeed_array, tpnts, left_edges, right_edges, wave_tpnts, wave_xpnts, T_front_location, mus
-- 
2.43.0


From 39aebe92c53a05d4f4931928398e85cc0d7dfb95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:58 +0000
Subject: [PATCH 23/32] fix: slab problems had no right-hand side, so that
 every state grew like exp(t)

---
 moving_mesh_transport/solver_classes/rhs_class_1.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/moving_mesh_transport/solver_classes/rhs_class_1.py b/moving_mesh_transport/solver_classes/rhs_class_1.py
index 4bf9059..60b7a39 100644
--- a/moving_mesh_transport/solver_classes/rhs_class_1.py
+++ b/moving_mesh_transport/solver_classes/rhs_class_1.py
@@ -363,6 +363,12 @@ class rhs_class():
                     
                     V_new[angle,space,:] = RHS  
 
+                elif self.geometry['slab'] == True:
+                    if self.source_type[4] == 1: # the manufactured source depends on angle
+                        source.make_source_not_isotropic(t, mul, xL, xR)
+                    RHS = np.dot(G,U) - LU + mul*np.dot(L,U) - VV + PV + 0.5*source.S
+                    V_new[angle,space,:] = RHS
+
         return V_new.reshape((self.N_ang) * self.N_space * (self.M+1))
         
     
-- 
2.43.0


From be8de00def52708c49729baa1146f865692cf3b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:58 +0000
Subject: [PATCH 24/32] fix: manufactured-solution and self-similar problems
 had no initial mesh (all edges zero)

---
 moving_mesh_transport/solver_classes/mesh.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moving_mesh_transport/solver_classes/mesh.py b/moving_mesh_transport/solver_classes/mesh.py
index ad94fa4..61ee86d 100644
--- a/moving_mesh_transport/solver_classes/mesh.py
+++ b/moving_mesh_transport/solver_classes/mesh.py
@@ -805,7 +805,7 @@ class mesh_class(object):
         """
         print('initializing mesh')
         # if self.problem_type in ['plane_IC']:
-        if self.source_type[0] == 1 or self.source_type[0] == 2:
+        if self.source_type[0] != 0 or self.source_type[4] == 1:
             self.simple_moving_init_func()
 
         if self.thick == False:     # thick and thin sources have different moving functions
-- 
2.43.0


From a9fd61ae838e73d86b6373754a0df8641112fe01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:05 +0000
Subject: [PATCH 25/32] fix: the transport deck lacked the source strengths of
 the Gaussian source and the manufactured problem

---
 moving_mesh_transport/input_scripts/transport.yaml | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/moving_mesh_transport/input_scripts/transport.yaml b/moving_mesh_transport/input_scripts/transport.yaml
index d08f647..63cbc22 100644
--- a/moving_mesh_transport/input_scripts/transport.yaml
+++ b/moving_mesh_transport/input_scripts/transport.yaml
@@ -75,6 +75,7 @@
 'gaussian_source':
     'sigma': 0.5
     'x0': [3,3,3,3,3]
+    'source_strength': 1.0
     'source_type': [0,0,0,0,0,1,0,0,0,0,0,0,0,0,0]
     'N_angles': [64,128,128,256,512]
     'move_type': [1,0]              # moving mesh function selector
@@ -84,6 +85,7 @@
 # manufactured problem
 'MMS':
     'x0': [0.1]
+    'source_strength': 1.0
     'source_type': [0,0,0,0,1,0,0,0,0,0,0,0,0,0,0]
     'N_angles': [64, 64, 64]
     'move_type': [1,0]              # moving mesh function selector
-- 
2.43.0


From b1f7f0a4689c494f8b051fc72a5f5aee93d8cdb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:30 +0000
Subject: [PATCH 26/32] fix: wave fronts of thick Su-Olson problems could not
 be loaded (unbound folder name)

---
 moving_mesh_transport/loading_and_saving/load_solution.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/moving_mesh_transport/loading_and_saving/load_solution.py b/moving_mesh_transport/loading_and_saving/load_solution.py
index 7920c5d..06586f7 100644
--- a/moving_mesh_transport/loading_and_saving/load_solution.py
+++ b/moving_mesh_transport/loading_and_saving/load_solution.py
@@ -92,7 +92,7 @@ class load_sol:
                 self.tpnts = f['su_olson_thick']['tpnts_' + full_str][:]
                 self.left = f['su_olson_thick']['left_' + full_str][:]
                 self.right = f['su_olson_thick']['right_' + full_str][:]
-                self.T_wave = f[folder_name]['T_wave_' + full_str][:]
+                self.T_wave = f['su_olson_thick']['T_wave_' + full_str][:]
 
         elif self.problem_name == 'su_olson_thick_s2':
                 if not f.__contains__(self.problem_name):
@@ -149,7 +149,7 @@ class load_sol:
             self.tpnts = f[self.problem_name]['tpnts_' + full_str][:]
             self.left = f[self.problem_name]['left_' + full_str][:]
             self.right = f[self.problem_name]['right_' + full_str][:]
-            self.T_wave = f[folder_name]['T_wave_' + full_str][:]
+            self.T_wave = f[self.problem_name]['T_wave_' + full_str][:]
 
 
 
-- 
2.43.0


From c6e329df52f459b6f520f82272252e54270b38bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:30 +0000
Subject: [PATCH 27/32] fix: wave fronts were saved to another file than the
 one they are loaded from

---
 moving_mesh_transport/loading_and_saving/save_output.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/moving_mesh_transport/loading_and_saving/save_output.py b/moving_mesh_transport/loading_and_saving/save_output.py
index cf8fe86..6d9ed98 100644
--- a/moving_mesh_transport/loading_and_saving/save_output.py
+++ b/moving_mesh_transport/loading_and_saving/save_output.py
@@ -14,7 +14,7 @@ class save_output:
                  thermal_couple, temp_function, c, sigma, x0, cv_const, problem_type, N_angles, epsilon):
         data_folder = Path("moving_mesh_transport/local_run_data")
         self.solution_file_path = data_folder / 'run_data.hdf5'
-        self.wavepoints_file_path = data_folder / 'wavepoints_crc.hdf5'
+        self.wavepoints_file_path = data_folder / 'wavepoints.h5' # the file load_sol reads
         self.problem_type = problem_type              
         self.Ms = Ms
         self.tfinal = tfinal
-- 
2.43.0


From e979899dd16ee8f361c8cdd0d3553153259d4d5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:30 +0000
Subject: [PATCH 28/32] fix: wave fronts of the two-direction constant heat
 capacity problems were saved where they are not loaded from

---
 moving_mesh_transport/loading_and_saving/save_output.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/moving_mesh_transport/loading_and_saving/save_output.py b/moving_mesh_transport/loading_and_saving/save_output.py
index 6d9ed98..7c11d16 100644
--- a/moving_mesh_transport/loading_and_saving/save_output.py
+++ b/moving_mesh_transport/loading_and_saving/save_output.py
@@ -252,8 +252,12 @@ class save_output:
             folder_name = "transport"
         elif self.problem_type == 'rad_transfer_constant_cv':
             folder_name =  f"transfer_const_cv={self.cv_const}"
+        elif self.problem_type == 'rad_transfer_constant_cv_s2':
+            folder_name =  f"transfer_const_cv={self.cv_const}_s2"
         elif self.problem_type == 'rad_transfer_constant_cv_thick':
             folder_name =  f"transfer_const_cv={self.cv_const}_thick"
+        elif self.problem_type == 'rad_transfer_constant_cv_thick_s2':
+            folder_name =  f"transfer_const_cv={self.cv_const}_thick_s2"
         elif self.problem_type == "su_olson_s2":
             folder_name = "su_olson_s2"
         elif self.problem_type == "su_olson_thick_s2":
-- 
2.43.0


From 4f6688b9af07fdee627e291b271723b67c3af1ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:37 +0000
Subject: [PATCH 29/32] fix: wave fronts of constant heat capacity problems
 were looked for in a group nothing is saved to

---
 .../loading_and_saving/load_solution.py                  | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/moving_mesh_transport/loading_and_saving/load_solution.py b/moving_mesh_transport/loading_and_saving/load_solution.py
index 06586f7..d1fa67c 100644
--- a/moving_mesh_transport/loading_and_saving/load_solution.py
+++ b/moving_mesh_transport/loading_and_saving/load_solution.py
@@ -146,10 +146,11 @@ class load_sol:
         else:
             # print(f.keys())
             print(self.problem_name, "pn")
-            self.tpnts = f[self.problem_name]['tpnts_' + full_str][:]
-            self.left = f[self.problem_name]['left_' + full_str][:]
-            self.right = f[self.problem_name]['right_' + full_str][:]
-            self.T_wave = f[self.problem_name]['T_wave_' + full_str][:]
+            folder_name = self.problem_name.replace('rad_transfer_constant_cv', f'transfer_const_cv={self.cv0}')
+            self.tpnts = f[folder_name]['tpnts_' + full_str][:]
+            self.left = f[folder_name]['left_' + full_str][:]
+            self.right = f[folder_name]['right_' + full_str][:]
+            self.T_wave = f[folder_name]['T_wave_' + full_str][:]
 
 
 
-- 
2.43.0


From 40e718784c62db85d1e81cad9e4cb8c32fd234b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:29 +0000
Subject: [PATCH 30/32] fix: wave-front tables were laid out so that the mesh
 read them past the end of an axis

---
 moving_mesh_transport/solver.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/moving_mesh_transport/solver.py b/moving_mesh_transport/solver.py
index b09a8ee..321a045 100644
--- a/moving_mesh_transport/solver.py
+++ b/moving_mesh_transport/solver.py
@@ -85,7 +85,7 @@ class main_class(parameter_load_class):
                 self.left_wave = sol_loader.left
                 self.right_wave = sol_loader.right
                 self.T_wave = sol_loader.T_wave
-                self.wave_loc_array = np.array([[(self.tpnts_wave)], [(self.left_wave)], [(self.right_wave)], [(self.T_wave)]])
+                self.wave_loc_array = np.array([[self.tpnts_wave, self.left_wave, self.right_wave, self.T_wave]])
                 print(self.wave_loc_array)
 
             elif (self.thick == True and self.source_type[5] == 1):
@@ -95,7 +95,7 @@ class main_class(parameter_load_class):
                 self.left_wave = sol_loader.left
                 self.right_wave = sol_loader.right
                 self.T_wave = sol_loader.T_wave
-                self.wave_loc_array = np.array([[(self.tpnts_wave)], [(self.left_wave)], [(self.right_wave)], [(self.T_wave)]])
+                self.wave_loc_array = np.array([[self.tpnts_wave, self.left_wave, self.right_wave, self.T_wave]])
         else:
             self.wave_loc_array = np.zeros((1,1,1))
 
-- 
2.43.0


From 60bbb22ce1bfd9f25e594ebb7cb4ca049cd19778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:16 +0000
Subject: [PATCH 31/32] fix: wave-tracking mesh failed at and after the last
 time of a one-point wave-front table (and read past the end of the table)

---
 moving_mesh_transport/solver_classes/mesh_functions.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/moving_mesh_transport/solver_classes/mesh_functions.py b/moving_mesh_transport/solver_classes/mesh_functions.py
index e9c8fc6..6991513 100644
--- a/moving_mesh_transport/solver_classes/mesh_functions.py
+++ b/moving_mesh_transport/solver_classes/mesh_functions.py
@@ -98,13 +98,13 @@ def _interp1d(xnew, xvals, yvals, ynew):
         x_b = xvals[0]
         y_b = yvals[0]
     else:
-        while xnew[0] >= xvals[i] and i < N:
+        while i < N and xnew[0] >= xvals[i]:
             i += 1
-        if xnew[0] == xvals[i]:
-            ynew[0] = yvals[i]
-            return ynew
         if i == N:
             i = N-1
+        if xnew[0] == xvals[i] or i == 0:
+            ynew[0] = yvals[i]
+            return ynew
         x_a = xvals[i-1]
         y_a = yvals[i-1]
         x_b = xvals[i]
-- 
2.43.0


From 099a11d14d12851ea133e58568be42fed512a38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:45 +0000
Subject: [PATCH 32/32] fix: energy density of coupled problems was reported as
 zero

---
 moving_mesh_transport/solver.py                          | 2 +-
 moving_mesh_transport/solver_functions/main_functions.py | 9 ++++-----
 2 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/moving_mesh_transport/solver.py b/moving_mesh_transport/solver.py
index 321a045..d7c9c81 100644
--- a/moving_mesh_transport/solver.py
+++ b/moving_mesh_transport/solver.py
@@ -165,7 +165,7 @@ class main_class(parameter_load_class):
                             self.temp_function, self.scattering_ratio, self.sigma,
                             self.x0, self.cv0, self.problem_type, self.N_angles, self.epsilon)
 
-                            saving.save_solution(xs[it], phi[it], e, sol_matrix[it], edges[it], x0_or_sigma, ws, N_space, s2, psi[it, :, :], self.epsilon, mus)
+                            saving.save_solution(xs[it], phi[it], e[it], sol_matrix[it], edges[it], x0_or_sigma, ws, N_space, s2, psi[it, :, :], self.epsilon, mus)
                 
                 
                 self.r_times[count] += (time)/self.N_runs
diff --git a/moving_mesh_transport/solver_functions/main_functions.py b/moving_mesh_transport/solver_functions/main_functions.py
index ea9c80a..bfb17b2 100644
--- a/moving_mesh_transport/solver_functions/main_functions.py
+++ b/moving_mesh_transport/solver_functions/main_functions.py
@@ -244,12 +244,13 @@ def solve(tfinal, N_space, N_ang, M, x0, t0, sigma_t, sigma_s, t_nodes, source_t
         psi = output.psi_out # this is the collided psi
         exit_dist, exit_phi = output.get_exit_dist(uncollided_sol)
         xs_ret = xs
-        if thermal_couple == 1:
+        if thermal_couple['none'] != 1:
             e = output.make_e()
         else:
             e = phi*0
     else:
         phi = np.zeros((eval_array.size, xs.size))
+        e = np.zeros((eval_array.size, xs.size))
         psi = np.zeros((eval_array.size, N_ang, xs.size))
         exit_dist = np.zeros((eval_array.size, N_ang, 2))
         exit_phi = np.zeros((eval_array.size, 2))
@@ -269,10 +270,8 @@ def solve(tfinal, N_space, N_ang, M, x0, t0, sigma_t, sigma_s, t_nodes, source_t
             psi[it, :, :] = output.psi_out # this is the collided psi
             exit_dist[it], exit_phi[it] = output.get_exit_dist(uncollided_sol)
             xs_ret[it] = xs
-            if thermal_couple == 1:
-                e = output.make_e()
-            else:
-                e = phi*0
+            if thermal_couple['none'] != 1:
+                e[it] = output.make_e()
         # coefficients and mesh of every output time
         sol_last = sol_array
         edges = edges_array
-- 
2.43.0

