From 64cdb530b684827868595d1f328bdfcdaab595bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:43 +0000
Subject: [PATCH 01/43] fix: evaluate the terminal cost at the leaf of every
 branch

With n_robust == n_horizon the last stage branches, but the terminal cost was
evaluated at the node with the index of the parent.
---
 do_mpc/controller/_mpc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/do_mpc/controller/_mpc.py b/do_mpc/controller/_mpc.py
index ec19579..6e6ef87 100644
--- a/do_mpc/controller/_mpc.py
+++ b/do_mpc/controller/_mpc.py
@@ -1235,7 +1235,7 @@ class MPC(do_mpc.optimizer.Optimizer, do_mpc.model.IteratedVariables):
 
                     # In the last step add the terminal cost too
                     if k == self._settings.n_horizon - 1:
-                        obj += omega[k] * self.mterm_fun(opt_x_unscaled['_x', k + 1, s, -1], opt_p['_tvp', k+1],
+                        obj += omega[k] * self.mterm_fun(opt_x_unscaled['_x', k + 1, child_scenario[k][s][b], -1], opt_p['_tvp', k+1],
                                                          opt_p['_p', current_scenario])
 
                     # U regularization:
-- 
2.43.0


From b802ede87c28b9eafae0b96eca11b0f774786175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:43 +0000
Subject: [PATCH 02/43] fix: pass the unscaled previous input to a user defined
 rterm

The current input is unscaled, the previous one was scaled.
---
 do_mpc/controller/_mpc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/do_mpc/controller/_mpc.py b/do_mpc/controller/_mpc.py
index 6e6ef87..c92f8b0 100644
--- a/do_mpc/controller/_mpc.py
+++ b/do_mpc/controller/_mpc.py
@@ -1242,10 +1242,10 @@ class MPC(do_mpc.optimizer.Optimizer, do_mpc.model.IteratedVariables):
                     # For user defined penalty term
                     if self.flags['rterm_fun'] == True:
                         if k==0:
-                            obj += self.rterm_fun(opt_x_unscaled['_x', k, s, -1], opt_x_unscaled['_u', k, s_u], opt_p['_u_prev']/self._u_scaling,
+                            obj += self.rterm_fun(opt_x_unscaled['_x', k, s, -1], opt_x_unscaled['_u', k, s_u], opt_p['_u_prev'],
                                                      opt_x_unscaled['_z', k, s, -1], opt_p['_tvp', k], opt_p['_p', current_scenario])
                         else:
-                            obj += self.rterm_fun(opt_x_unscaled['_x', k, s, -1], opt_x_unscaled['_u', k, s_u], opt_x['_u', k-1, parent_scenario[k][s_u]],
+                            obj += self.rterm_fun(opt_x_unscaled['_x', k, s, -1], opt_x_unscaled['_u', k, s_u], opt_x_unscaled['_u', k-1, parent_scenario[k][s_u]],
                                                      opt_x_unscaled['_z', k, s, -1], opt_p['_tvp', k], opt_p['_p', current_scenario])
                     # Default penalty term
                     if self.flags['rterm_fun'] == False:
-- 
2.43.0


From 213073b36f255ec55e2957501c4258ddb8165059 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:55 +0000
Subject: [PATCH 03/43] fix: terminal_bounds getter returned the state bounds

---
 do_mpc/controller/_mpc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/do_mpc/controller/_mpc.py b/do_mpc/controller/_mpc.py
index c92f8b0..86ee26c 100644
--- a/do_mpc/controller/_mpc.py
+++ b/do_mpc/controller/_mpc.py
@@ -431,10 +431,10 @@ class MPC(do_mpc.optimizer.Optimizer, do_mpc.model.IteratedVariables):
         assert bound_type in ('lower', 'upper'), err_msg.format(bound_type)
 
         if bound_type == 'lower':
-            query = '{var_type}_{bound_type}'.format(var_type="_x", bound_type='lb')
+            query = '_x_terminal_lb'
         elif bound_type == 'upper':
-            query = '{var_type}_{bound_type}'.format(var_type="_x", bound_type='ub')
-        # query results string e.g. _x_lb, _x_ub
+            query = '_x_terminal_ub'
+        # query results string e.g. _x_terminal_lb, _x_terminal_ub
 
         # Get the desired struct:
         var_struct = getattr(self, query)
-- 
2.43.0


From e78ccb786f122551399ca6e70f2cb191546dce5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:55 +0000
Subject: [PATCH 04/43] fix: t0 could not be set with a casadi.DM

DM.size is a method, the assertion always failed.
---
 do_mpc/model/_iteratedvariables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/do_mpc/model/_iteratedvariables.py b/do_mpc/model/_iteratedvariables.py
index 9a1d35e..a96455c 100644
--- a/do_mpc/model/_iteratedvariables.py
+++ b/do_mpc/model/_iteratedvariables.py
@@ -205,7 +205,7 @@ class IteratedVariables:
             assert val.size == 1, 'Cant set time with shape {}. Must contain exactly one element.'.format(val.size)
             self._t0 = val.flatten()
         elif isinstance(val, castools.DM):
-            assert val.size == 1, 'Cant set time with shape {}. Must contain exactly one element.'.format(val.size)
+            assert val.numel() == 1, 'Cant set time with shape {}. Must contain exactly one element.'.format(val.shape)
             self._t0 = val.full().flatten()
         else:
             types = (np.ndarray, float, int, castools.DM)
-- 
2.43.0


From 3298a0efe9939ca74020f4784d6cba48f0d0b6b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:55 +0000
Subject: [PATCH 05/43] fix: compile_nlp raised NameError (nlpsol)

---
 do_mpc/optimizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/do_mpc/optimizer.py b/do_mpc/optimizer.py
index 4a2dff7..21058fb 100644
--- a/do_mpc/optimizer.py
+++ b/do_mpc/optimizer.py
@@ -698,7 +698,7 @@ class Optimizer:
 
         ::
 
-            self.S = nlpsol('solver_compiled', 'ipopt', f'{libname}', self.nlpsol_opts)      
+            self.S = castools.nlpsol('solver_compiled', 'ipopt', f'{libname}', self.nlpsol_opts)      
 
         Args:
             overwrite: If True, the existing compiled NLP will be overwritten.
@@ -725,7 +725,7 @@ class Optimizer:
             subprocess.Popen(compiler_command, shell=True).wait()
 
         # Overwrite solver object with loaded nlp:
-        self.S = nlpsol('solver_compiled', 'ipopt', libname, self.settings.nlpsol_opts)
+        self.S = castools.nlpsol('solver_compiled', 'ipopt', libname, self.settings.nlpsol_opts)
         print('Using compiled NLP solver.')
 
     def solve(self)->None:
-- 
2.43.0


From 06bf6e584aad6f3c7e7786d5e7c709af5c3eca57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:55 +0000
Subject: [PATCH 06/43] fix: set_variable rejected the documented type
 'timevarying_parameter'

---
 do_mpc/model/_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/do_mpc/model/_model.py b/do_mpc/model/_model.py
index 681aa34..a78d283 100644
--- a/do_mpc/model/_model.py
+++ b/do_mpc/model/_model.py
@@ -586,8 +586,8 @@ class Model:
         var_type =var_type.replace('states', '_x'
             ).replace('inputs', '_u'
             ).replace('algebraic', '_z'
-            ).replace('parameter', '_p'
-            ).replace('timevarying_parameter', '_tvp')
+            ).replace('timevarying_parameter', '_tvp'
+            ).replace('parameter', '_p')
 
         # Check validity of var_type:
         assert var_type in ['_x','_u','_z','_p','_tvp'], 'Trying to set non-existing variable var_type: {} with var_name {}'.format(var_type, var_name)
-- 
2.43.0


From 8a2f6035be3de2f8faad5ccfd02f5cee9d0b8b65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:19 +0000
Subject: [PATCH 07/43] fix: use the algebraic states of the branch in cost,
 constraints and aux

The model equations of the edge (k,s,b) determine _z[k,child_scenario[k][s][b]];
cost, nonlinear constraints and auxiliary expressions of that edge were
evaluated with _z[k,s] of a different edge wherever the tree branches.
---
 do_mpc/controller/_mpc.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/do_mpc/controller/_mpc.py b/do_mpc/controller/_mpc.py
index 86ee26c..26ca1d8 100644
--- a/do_mpc/controller/_mpc.py
+++ b/do_mpc/controller/_mpc.py
@@ -1210,7 +1210,7 @@ class MPC(do_mpc.optimizer.Optimizer, do_mpc.model.IteratedVariables):
                         # Ensure nonlinear constraints on all collocation points
                         for i in range(n_total_coll_points):
                             nl_cons_k = self._nl_cons_fun(
-                                opt_x_unscaled['_x', k, s, i], opt_x_unscaled['_u', k, s_u], opt_x_unscaled['_z', k, s, i],
+                                opt_x_unscaled['_x', k, s, i], opt_x_unscaled['_u', k, s_u], opt_x_unscaled['_z', k, child_scenario[k][s][b], i],
                                 opt_p['_tvp', k], opt_p['_p', current_scenario], opt_x_unscaled['_eps', k_eps, s])
                             cons.append(nl_cons_k)
                             cons_lb.append(self._nl_cons_lb)
@@ -1218,7 +1218,7 @@ class MPC(do_mpc.optimizer.Optimizer, do_mpc.model.IteratedVariables):
                     else:
                         # Ensure nonlinear constraints only on the beginning of the FE
                         nl_cons_k = self._nl_cons_fun(
-                            opt_x_unscaled['_x', k, s, -1], opt_x_unscaled['_u', k, s_u], opt_x_unscaled['_z', k, s, 0],
+                            opt_x_unscaled['_x', k, s, -1], opt_x_unscaled['_u', k, s_u], opt_x_unscaled['_z', k, child_scenario[k][s][b], 0],
                             opt_p['_tvp', k], opt_p['_p', current_scenario], opt_x_unscaled['_eps', k_eps, s])
                         cons.append(nl_cons_k)
                         cons_lb.append(self._nl_cons_lb)
@@ -1229,7 +1229,7 @@ class MPC(do_mpc.optimizer.Optimizer, do_mpc.model.IteratedVariables):
 
                     # Add contribution to the cost
                     obj += omega[k] * self.lterm_fun(opt_x_unscaled['_x', k, s, -1], opt_x_unscaled['_u', k, s_u],
-                                                     opt_x_unscaled['_z', k, s, -1], opt_p['_tvp', k], opt_p['_p', current_scenario])
+                                                     opt_x_unscaled['_z', k, child_scenario[k][s][b], -1], opt_p['_tvp', k], opt_p['_p', current_scenario])
                     # Add slack variables to the cost
                     obj += self.epsterm_fun(opt_x_unscaled['_eps', k_eps, s])
 
@@ -1243,10 +1243,10 @@ class MPC(do_mpc.optimizer.Optimizer, do_mpc.model.IteratedVariables):
                     if self.flags['rterm_fun'] == True:
                         if k==0:
                             obj += self.rterm_fun(opt_x_unscaled['_x', k, s, -1], opt_x_unscaled['_u', k, s_u], opt_p['_u_prev'],
-                                                     opt_x_unscaled['_z', k, s, -1], opt_p['_tvp', k], opt_p['_p', current_scenario])
+                                                     opt_x_unscaled['_z', k, child_scenario[k][s][b], -1], opt_p['_tvp', k], opt_p['_p', current_scenario])
                         else:
                             obj += self.rterm_fun(opt_x_unscaled['_x', k, s, -1], opt_x_unscaled['_u', k, s_u], opt_x_unscaled['_u', k-1, parent_scenario[k][s_u]],
-                                                     opt_x_unscaled['_z', k, s, -1], opt_p['_tvp', k], opt_p['_p', current_scenario])
+                                                     opt_x_unscaled['_z', k, child_scenario[k][s][b], -1], opt_p['_tvp', k], opt_p['_p', current_scenario])
                     # Default penalty term
                     if self.flags['rterm_fun'] == False:
                         if k == 0:
@@ -1256,7 +1256,7 @@ class MPC(do_mpc.optimizer.Optimizer, do_mpc.model.IteratedVariables):
 
                     # Calculate the auxiliary expressions for the current scenario:
                     opt_aux['_aux', k, s] = self.model._aux_expression_fun(
-                        opt_x_unscaled['_x', k, s, -1], opt_x_unscaled['_u', k, s_u], opt_x_unscaled['_z', k, s, -1], opt_p['_tvp', k], opt_p['_p', current_scenario])
+                        opt_x_unscaled['_x', k, s, -1], opt_x_unscaled['_u', k, s_u], opt_x_unscaled['_z', k, child_scenario[k][s][b], -1], opt_p['_tvp', k], opt_p['_p', current_scenario])
 
                     # For some reason when working with MX, the "unused" aux values in the scenario tree must be set explicitly (they are not ever used...)
                 for s_ in range(n_scenarios[k],n_max_scenarios):
-- 
2.43.0


From d783fe301562aeb816c919f5204a589e6182cc74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:19 +0000
Subject: [PATCH 08/43] fix: nl_cons_check_colloc_points of MPC paired states
 of the previous interval

The collocation points of the interval k are stored with the child node at k+1.
The constraints used the points stored with node k (dummies for k=0), together
with input and algebraic states of interval k; the last interval was never
checked and discrete-time models lost all nonlinear constraints.
---
 do_mpc/controller/_mpc.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/do_mpc/controller/_mpc.py b/do_mpc/controller/_mpc.py
index 26ca1d8..a9ef373 100644
--- a/do_mpc/controller/_mpc.py
+++ b/do_mpc/controller/_mpc.py
@@ -1207,10 +1207,13 @@ class MPC(do_mpc.optimizer.Optimizer, do_mpc.model.IteratedVariables):
 
                     k_eps = min(k, n_eps-1)
                     if self._settings.nl_cons_check_colloc_points:
-                        # Ensure nonlinear constraints on all collocation points
-                        for i in range(n_total_coll_points):
+                        # Ensure nonlinear constraints on the beginning of the interval and all its collocation points
+                        # NOTE: The collocation points between k and k+1 are stored with the child node and the last of
+                        #       them coincides with the beginning of the next interval.
+                        x_points = [opt_x_unscaled['_x', k, s, -1]] + opt_x_unscaled['_x', k+1, child_scenario[k][s][b], :-2]
+                        for i, x_point in enumerate(x_points):
                             nl_cons_k = self._nl_cons_fun(
-                                opt_x_unscaled['_x', k, s, i], opt_x_unscaled['_u', k, s_u], opt_x_unscaled['_z', k, child_scenario[k][s][b], i],
+                                x_point, opt_x_unscaled['_u', k, s_u], opt_x_unscaled['_z', k, child_scenario[k][s][b], i],
                                 opt_p['_tvp', k], opt_p['_p', current_scenario], opt_x_unscaled['_eps', k_eps, s])
                             cons.append(nl_cons_k)
                             cons_lb.append(self._nl_cons_lb)
-- 
2.43.0


From c1ef5a519ca47e0559bd492915bd042a29a1ba8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:25 +0000
Subject: [PATCH 09/43] fix: nl_cons_check_colloc_points of MHE paired states
 of the previous interval

Same defect as in MPC.
---
 do_mpc/estimator/_mhe.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/do_mpc/estimator/_mhe.py b/do_mpc/estimator/_mhe.py
index 8b77e9a..7a448bd 100644
--- a/do_mpc/estimator/_mhe.py
+++ b/do_mpc/estimator/_mhe.py
@@ -1143,10 +1143,13 @@ class MHE(Optimizer, Estimator):
 
             k_eps = min(k, n_eps-1)
             if self.settings.nl_cons_check_colloc_points:
-                # Ensure nonlinear constraints on all collocation points
-                for i in range(n_total_coll_points):
+                # Ensure nonlinear constraints on the beginning of the interval and all its collocation points
+                # NOTE: The collocation points between k and k+1 are stored with the node at k+1 and the last of
+                #       them coincides with the beginning of the next interval.
+                x_points = [opt_x_unscaled['_x', k, -1]] + opt_x_unscaled['_x', k+1, :-2]
+                for i, x_point in enumerate(x_points):
                     nl_cons_k = self._nl_cons_fun(
-                        opt_x_unscaled['_x', k, i], opt_x_unscaled['_u', k], opt_x_unscaled['_z', k, i],
+                        x_point, opt_x_unscaled['_u', k], opt_x_unscaled['_z', k, i],
                         opt_p['_tvp', k], opt_x['_p_est'], opt_p['_p_set'], opt_x_unscaled['_eps', k_eps])
                     cons.append(nl_cons_k)
                     cons_lb.append(self._nl_cons_lb)
-- 
2.43.0


From ceefcc3c96e40fdedcb9fb352ffd7e20868151c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:19 +0000
Subject: [PATCH 10/43] fix: MHE nonlinear constraints used the scaled
 parameter estimate

---
 do_mpc/estimator/_mhe.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/do_mpc/estimator/_mhe.py b/do_mpc/estimator/_mhe.py
index 7a448bd..341207a 100644
--- a/do_mpc/estimator/_mhe.py
+++ b/do_mpc/estimator/_mhe.py
@@ -1150,7 +1150,7 @@ class MHE(Optimizer, Estimator):
                 for i, x_point in enumerate(x_points):
                     nl_cons_k = self._nl_cons_fun(
                         x_point, opt_x_unscaled['_u', k], opt_x_unscaled['_z', k, i],
-                        opt_p['_tvp', k], opt_x['_p_est'], opt_p['_p_set'], opt_x_unscaled['_eps', k_eps])
+                        opt_p['_tvp', k], opt_x_unscaled['_p_est'], opt_p['_p_set'], opt_x_unscaled['_eps', k_eps])
                     cons.append(nl_cons_k)
                     cons_lb.append(self._nl_cons_lb)
                     cons_ub.append(self._nl_cons_ub)
@@ -1158,7 +1158,7 @@ class MHE(Optimizer, Estimator):
                 # Ensure nonlinear constraints only on the beginning of the FE
                 nl_cons_k = self._nl_cons_fun(
                     opt_x_unscaled['_x', k, -1], opt_x_unscaled['_u', k], opt_x_unscaled['_z', k, 0],
-                    opt_p['_tvp', k], opt_x['_p_est'], opt_p['_p_set'], opt_x_unscaled['_eps', k_eps])
+                    opt_p['_tvp', k], opt_x_unscaled['_p_est'], opt_p['_p_set'], opt_x_unscaled['_eps', k_eps])
                 cons.append(nl_cons_k)
                 cons_lb.append(self._nl_cons_lb)
                 cons_ub.append(self._nl_cons_ub)
-- 
2.43.0


From 1ff6dea84346025520123df5168139ff17b5a3cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:41 +0000
Subject: [PATCH 11/43] fix: MHE measurement, stage cost and aux used scaled
 parameters

The model integrator expects scaled parameters, the measurement function, the
stage cost and the auxiliary expressions expect physical values.
---
 do_mpc/estimator/_mhe.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/do_mpc/estimator/_mhe.py b/do_mpc/estimator/_mhe.py
index 341207a..5faadbb 100644
--- a/do_mpc/estimator/_mhe.py
+++ b/do_mpc/estimator/_mhe.py
@@ -1112,6 +1112,8 @@ class MHE(Optimizer, Estimator):
 
         # Get concatenated parameters vector containing the estimated and fixed parameters (scaled)
         _p = self._p_cat_fun(opt_x['_p_est'], opt_p['_p_set']/self._p_set_scaling)
+        # Same, but unscaled (physical) values:
+        _p_unscaled = self._p_cat_fun(opt_x_unscaled['_p_est'], opt_p['_p_set'])
 
         # For all control intervals
         for k in range(self.settings.n_horizon):
@@ -1124,7 +1126,7 @@ class MHE(Optimizer, Estimator):
 
             # Compute current measurement
             yk_calc = self.model._meas_fun(opt_x_unscaled['_x', k+1, -1], opt_x_unscaled['_u', k], opt_x_unscaled['_z', k, 0],
-                opt_p['_tvp', k], _p, opt_x_unscaled['_v', k])
+                opt_p['_tvp', k], _p_unscaled, opt_x_unscaled['_v', k])
 
             # Add the collocation equations
             cons.append(g_ksb)
@@ -1168,7 +1170,7 @@ class MHE(Optimizer, Estimator):
             cons_ub.append(self._nl_cons_ub)
 
             obj += self.stage_cost_fun(
-                opt_x_unscaled['_w', k], opt_x_unscaled['_v', k], opt_p['_tvp', k], _p
+                opt_x_unscaled['_w', k], opt_x_unscaled['_v', k], opt_p['_tvp', k], _p_unscaled
             )
 
             # Add slack variables to the cost
@@ -1177,7 +1179,7 @@ class MHE(Optimizer, Estimator):
 
             # Calculate the auxiliary expressions for the current scenario:
             opt_aux['_aux', k] = self.model._aux_expression_fun(
-                opt_x_unscaled['_x', k, -1], opt_x_unscaled['_u', k], opt_x_unscaled['_z', k, -1], opt_p['_tvp', k], _p)
+                opt_x_unscaled['_x', k, -1], opt_x_unscaled['_u', k], opt_x_unscaled['_z', k, -1], opt_p['_tvp', k], _p_unscaled)
 
         self._update_bounds()
 
-- 
2.43.0


From 0b9f3e5d021f4a58e3f9037a05f9aecf869186a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:41 +0000
Subject: [PATCH 12/43] fix: MHE state bounds skipped the first and last state
 of the horizon

With cons_check_colloc_points=False neither the initial state nor the returned
estimate were bounded.
---
 do_mpc/estimator/_mhe.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/do_mpc/estimator/_mhe.py b/do_mpc/estimator/_mhe.py
index 5faadbb..49df5bb 100644
--- a/do_mpc/estimator/_mhe.py
+++ b/do_mpc/estimator/_mhe.py
@@ -1005,8 +1005,8 @@ class MHE(Optimizer, Estimator):
             self.ub_opt_x['_z'] = self._z_ub.cat
         else:   # Constraints only at the beginning of the finite Element
             # Bounds for the states on all discretize values along the horizon
-            self.lb_opt_x['_x', 1:self.settings.n_horizon, -1] = self._x_lb.cat
-            self.ub_opt_x['_x', 1:self.settings.n_horizon, -1] = self._x_ub.cat
+            self.lb_opt_x['_x', :, -1] = self._x_lb.cat
+            self.ub_opt_x['_x', :, -1] = self._x_ub.cat
 
             # Bounds for the algebraic states along the horizon
             self.lb_opt_x['_z', :, 0] = self._z_lb.cat
-- 
2.43.0


From 340d2cc1979e25e25f9a1abd9380555e7476adf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:41 +0000
Subject: [PATCH 13/43] fix: structure_scenario did not follow the branches of
 the scenario tree

For n_robust >= 3 (or n_robust == n_horizon) the columns did not list the nodes on
the path to the respective leaf, and prediction() mixed different scenarios.
---
 do_mpc/optimizer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/do_mpc/optimizer.py b/do_mpc/optimizer.py
index 21058fb..ba251b7 100644
--- a/do_mpc/optimizer.py
+++ b/do_mpc/optimizer.py
@@ -1005,6 +1005,9 @@ class Optimizer:
         parent_scenario = -1 * np.ones((nk + 1, n_scenarios[-1])).astype(int)
         branch_offset = -1 * np.ones((nk, n_scenarios[-1])).astype(int)
         structure_scenario = np.zeros((nk + 1, n_scenarios[-1])).astype(int)
+        # Node at each stage that is part of the scenario (column) ending in the respective leaf
+        for k in range(nk + 1):
+            structure_scenario[k] = np.arange(n_scenarios[-1]) // (n_scenarios[-1] // n_scenarios[k])
         # Fill in the auxiliary structures
         for k in range(nk):
             # Scenario counter
@@ -1014,8 +1017,6 @@ class Optimizer:
                 # For all uncertainty realizations
                 for b in range(n_branches[k]):
                     child_scenario[k][s][b] = scenario_counter
-                    structure_scenario[k][scenario_counter] = s
-                    structure_scenario[k+1][scenario_counter] = s
                     parent_scenario[k + 1][scenario_counter] = s
                     scenario_counter += 1
                 # Store the range of branches
-- 
2.43.0


From 073b8d1bfd4b03b12fd28ac0f7300c26fa2ab6c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:02 +0000
Subject: [PATCH 14/43] fix: LQR.set_setpoint lost the setpoint when called
 again with rate penalization

Updating only xss reset uss to zero, updating only uss failed.
---
 do_mpc/controller/_lqr.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/do_mpc/controller/_lqr.py b/do_mpc/controller/_lqr.py
index 44052b9..1197bbe 100644
--- a/do_mpc/controller/_lqr.py
+++ b/do_mpc/controller/_lqr.py
@@ -443,6 +443,10 @@ class LQR(IteratedVariables):
         """
         assert self.flags['setup'] == True, 'LQR is not setup. Run setup() function.'
 
+        # With rate penalization the stored setpoint is augmented with uss: recover both parts before updating them.
+        if self.mode == 'inputRatePenalization' and hasattr(self,'xss'):
+            self.xss, self.uss = self.xss[:self.model.n_x], self.xss[self.model.n_x:]
+
         # Set or reset xss. Don't change xss if it already exists and uss is not passed
         if isinstance(xss, np.ndarray):
             self.xss = xss
-- 
2.43.0


From a5a6e633aa5eecd7bda3e202b6c893fe33ba58b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:02 +0000
Subject: [PATCH 15/43] fix: get_steady_state checked the rank of A instead of
 I - A

A unique steady state exists iff I - A is invertible.
---
 do_mpc/model/_linearmodel.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/do_mpc/model/_linearmodel.py b/do_mpc/model/_linearmodel.py
index c999827..f922bfc 100644
--- a/do_mpc/model/_linearmodel.py
+++ b/do_mpc/model/_linearmodel.py
@@ -307,13 +307,13 @@ class LinearModel(Model):
         I = np.identity(np.shape(self.sys_A)[0])
         
         #Calculation of steady state
-        if np.all(xss) == None and np.linalg.matrix_rank(self.sys_A) == self.x.shape[0]:
+        if np.all(xss) == None and np.linalg.matrix_rank(I-self.sys_A) == self.x.shape[0]:
             assert np.all(uss) != None and isinstance(uss,np.ndarray), 'Provide either steady state states or steady state inputs.'
             self.xss = np.linalg.inv(I-self.sys_A)@self.sys_B@uss
             self.uss = uss
             return self.xss
-        elif np.all(xss) == None and np.linalg.matrix_rank(self.sys_A) != self.x.shape[0]:
-            raise ValueError("State matrix does not have full rank. Hence, either multiple steady state or no steady state values is possible.")
+        elif np.all(xss) == None and np.linalg.matrix_rank(I-self.sys_A) != self.x.shape[0]:
+            raise ValueError("I - A does not have full rank. Hence, either multiple steady state or no steady state values is possible.")
         elif np.all(uss) == None and np.shape(self.sys_B)[0] != np.shape(self.sys_B)[1]:
             assert np.all(xss) != None and isinstance(xss,np.ndarray), 'Provide either steady state states or steady state inputs.'
             self.uss = np.linalg.pinv(self.sys_B)@(I-self.sys_A)@xss
-- 
2.43.0


From b0347c4fa58d3e57f51ee11f2af9010c47be92c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:02 +0000
Subject: [PATCH 16/43] fix: LinearModel.discretize dropped the feedthrough
 matrix

---
 do_mpc/model/_linearmodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/do_mpc/model/_linearmodel.py b/do_mpc/model/_linearmodel.py
index f922bfc..a140919 100644
--- a/do_mpc/model/_linearmodel.py
+++ b/do_mpc/model/_linearmodel.py
@@ -275,7 +275,7 @@ class LinearModel(Model):
         self._transfer_variables(self, discreteModel)
 
         # Setup linearized model
-        discreteModel.setup(A,B,C)
+        discreteModel.setup(A,B,C,D)
         
         return discreteModel 
  
-- 
2.43.0


From ca9ea8350832aa8d1b099639b3a9e0eecae3f6f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:02 +0000
Subject: [PATCH 17/43] fix: linearize failed for state measurements with
 feedthrough

C was dropped while D was kept, LinearModel.setup cannot handle this.
---
 do_mpc/model/_linearize.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/do_mpc/model/_linearize.py b/do_mpc/model/_linearize.py
index 00e25ce..4bf902c 100644
--- a/do_mpc/model/_linearize.py
+++ b/do_mpc/model/_linearize.py
@@ -91,9 +91,8 @@ def linearize(model:Model,
     n_u = model.n_u
     
     # Check for trivial measurement equation
-    if C.shape == (n_x,n_x) and (C == np.eye(n_x)).all():
+    if C.shape == (n_x,n_x) and (C == np.eye(n_x)).all() and (D == 0).all():
         C = None
-    if D.shape == (n_x,n_u) and (D == np.zeros((n_x,n_u))).all():
         D = None
     
     # Setup linearized model
-- 
2.43.0


From 9fddc227f1cade1456e1d1dc65f8c3b646a1ca7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:02 +0000
Subject: [PATCH 18/43] fix: dae2odeconversion assigned wrong rates to vector
 valued inputs

---
 do_mpc/model/_dae2odeconversion.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/do_mpc/model/_dae2odeconversion.py b/do_mpc/model/_dae2odeconversion.py
index 29e2770..e2ca7c9 100644
--- a/do_mpc/model/_dae2odeconversion.py
+++ b/do_mpc/model/_dae2odeconversion.py
@@ -95,8 +95,11 @@ def dae2odeconversion(model:Model)->Model:
     rhs_mod = castools.substitute(rhs,model.w.cat,daeModel.w.cat)
     z_next = -castools.inv(castools.jacobian(alg,castools.vertcat(*z_new)))@castools.jacobian(alg,castools.vertcat(*x_new))@rhs_mod-castools.inv(castools.jacobian(alg,castools.vertcat(*z_new)))@castools.jacobian(alg,castools.vertcat(*u_new))@q
     
+    u_count = 0
     for j in range(np.size(model.u.keys())-1):
-        daeModel.set_rhs(model.u.keys()[j+1],daeModel.u['q',j])
+        n_u_j = model.u[model.u.keys()[j+1]].size()[0]
+        daeModel.set_rhs(model.u.keys()[j+1],daeModel.u['q'][u_count:u_count+n_u_j])
+        u_count += n_u_j
     
     z_count = 0
     for k in range(np.size(model.z.keys())-1):
-- 
2.43.0


From c98787a56fdaf7502af03b6c8e097601d0f26bb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:11 +0000
Subject: [PATCH 19/43] fix: NLPDifferentiator failed with set_lam_zero=True

---
 do_mpc/differentiator/_nlpdifferentiator.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/do_mpc/differentiator/_nlpdifferentiator.py b/do_mpc/differentiator/_nlpdifferentiator.py
index 033d427..43d8088 100644
--- a/do_mpc/differentiator/_nlpdifferentiator.py
+++ b/do_mpc/differentiator/_nlpdifferentiator.py
@@ -417,13 +417,14 @@ class NLPDifferentiator:
         where_cons_active = np.concatenate((where_g_active,where_x_active+self.n_g))
         where_cons_inactive = np.concatenate((where_g_inactive,where_x_inactive+self.n_g))
 
-        # set lagrange multipliers of inactive constraints to zero
-        if self.settings.set_lam_zero:
-            lam_num[where_cons_inactive] = 0
-        
         # stack primal and dual solution
         x_num = nlp_sol["x"]
         lam_num = ca.vertcat(nlp_sol["lam_g"],nlp_sol["lam_x"])
+
+        # set lagrange multipliers of inactive constraints to zero
+        if self.settings.set_lam_zero:
+            lam_num[where_cons_inactive] = 0
+
         z_num = ca.vertcat(x_num,lam_num)
 
         return z_num, where_cons_active        
-- 
2.43.0


From 259dfa506059324e94efd0a73e11b6d5edc18a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:31 +0000
Subject: [PATCH 20/43] fix: DataHandler.filter failed for filters with local
 variables

co_varnames lists the local variables after the arguments.
---
 do_mpc/sampling/_datahandler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/do_mpc/sampling/_datahandler.py b/do_mpc/sampling/_datahandler.py
index 8ddb6e6..4a73780 100644
--- a/do_mpc/sampling/_datahandler.py
+++ b/do_mpc/sampling/_datahandler.py
@@ -218,14 +218,14 @@ class DataHandler:
             if input_filter is None:
                 return True
             else:
-                return input_filter(**{arg_i: kwargs[arg_i] for arg_i in input_filter.__code__.co_varnames})
+                return input_filter(**{arg_i: kwargs[arg_i] for arg_i in input_filter.__code__.co_varnames[:input_filter.__code__.co_argcount]})
 
         # Wrapper to ensure arbitrary arguments are accepted
         def wrap_fun_out(**kwargs):
             if output_filter is None:
                 return True
             else:
-                return output_filter(**{arg_i: kwargs[arg_i] for arg_i in output_filter.__code__.co_varnames})
+                return output_filter(**{arg_i: kwargs[arg_i] for arg_i in output_filter.__code__.co_varnames[:output_filter.__code__.co_argcount]})
 
         # For each sample:
         for sample in self.sampling_plan:
-- 
2.43.0


From 502e99cc6dff11877a8589b5c353f5d2d7d414ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:31 +0000
Subject: [PATCH 21/43] fix: DataHandler could not be indexed with a tuple or
 list

---
 do_mpc/sampling/_datahandler.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/do_mpc/sampling/_datahandler.py b/do_mpc/sampling/_datahandler.py
index 4a73780..71bb8d2 100644
--- a/do_mpc/sampling/_datahandler.py
+++ b/do_mpc/sampling/_datahandler.py
@@ -112,8 +112,10 @@ class DataHandler:
         try:
             if isinstance(ind, int):
                 samples = [self.sampling_plan[ind]]
-            elif isinstance(ind, (tuple, slice, list)):
+            elif isinstance(ind, slice):
                 samples = self.sampling_plan[ind]
+            elif isinstance(ind, (tuple, list)):
+                samples = [self.sampling_plan[i] for i in ind]
             else:
                 raise Exception('ind must be of type int, tuple, slice or list. You have {}'.format(type(ind)))
         except IndexError:
-- 
2.43.0


From 170b23661998263bad4541f5207db1ef2dbf2fd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:31 +0000
Subject: [PATCH 22/43] fix: save_pickle changed paths that contain '.pkl' in
 the middle

The existence checks of Sampler and SamplingPlanner use the full path, the file was
written to a different one.
---
 do_mpc/tools/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/do_mpc/tools/__init__.py b/do_mpc/tools/__init__.py
index 32751d3..da2dbe1 100644
--- a/do_mpc/tools/__init__.py
+++ b/do_mpc/tools/__init__.py
@@ -34,8 +34,9 @@ from ._timer import Timer
 
 
 def save_pickle(filename, data):
-    filename = filename.replace('.pkl','')
-    with open(filename + '.pkl', 'wb') as f:
+    if not filename.endswith('.pkl'):
+        filename = filename + '.pkl'
+    with open(filename, 'wb') as f:
         pickle.dump(data, f)
 
 def load_pickle(path_to_file):
-- 
2.43.0


From 80835fe4c974876ee2ff1ef86b2fd8533a53c539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:31 +0000
Subject: [PATCH 23/43] fix: recording solver stats such as 'return_status'
 failed

'return_status' and 'iterations' are accepted in store_solver_stats but are neither
numbers nor arrays.
---
 do_mpc/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/do_mpc/data.py b/do_mpc/data.py
index dc49ea5..1c4dc4a 100644
--- a/do_mpc/data.py
+++ b/do_mpc/data.py
@@ -208,7 +208,7 @@ class Data:
             if type(value) == castools.DM:
                 # Convert to numpy
                 value = value.full()
-            elif type(value) in [float, int, bool]:
+            elif not isinstance(value, np.ndarray):
                 value = np.array(value)
             # Get current results array for the given key:
             arr = getattr(self, key)
-- 
2.43.0


From 28703569a8b1cffd794ba9598e0e55e5f0840af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:31 +0000
Subject: [PATCH 24/43] fix: ONNX Elu ignored the attribute alpha

---
 do_mpc/sysid/_onnxconversion.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/do_mpc/sysid/_onnxconversion.py b/do_mpc/sysid/_onnxconversion.py
index 235e748..9140be9 100644
--- a/do_mpc/sysid/_onnxconversion.py
+++ b/do_mpc/sysid/_onnxconversion.py
@@ -326,7 +326,11 @@ class ONNXOperations:
         return casadi.fmax(0,x)
 
     def Elu(self,x, attribute = None):
-        return casadi.fmax(0,x) + casadi.fmin(0,casadi.exp(x)-1)
+        alpha = 1
+        for k in (attribute or []):
+            if k.name == 'alpha':
+                alpha = k.f
+        return casadi.fmax(0,x) + alpha*(casadi.exp(casadi.fmin(0,x))-1)
 
     def MatMul(self,*args, attribute = None):
         return casadi.mtimes(*args)
-- 
2.43.0


From 0d60868b67fac145616dc60cb1b38a478bd2a697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:43 +0000
Subject: [PATCH 25/43] fix: prediction of vector valued time-varying
 parameters had the wrong shape

The elements of all stages were flattened into a single row.
---
 do_mpc/data.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/do_mpc/data.py b/do_mpc/data.py
index 1c4dc4a..a7d7364 100644
--- a/do_mpc/data.py
+++ b/do_mpc/data.py
@@ -346,7 +346,7 @@ class MPCData(Data):
                 f_ind = self.prediction_queries['f_ind'][i]
             else:
                 f_ind = self.opt_p.f[(ind[0], slice(None))+ind[1:]]
-                f_ind = np.array(f_ind).reshape(1, -1, 1)
+                f_ind = np.array(f_ind).reshape(self.meta_data['n_horizon']+1, -1, 1).transpose(1, 0, 2)
                 #f_ind = np.array([f_ind_k.full() for f_ind_k in f_ind], dtype='int32')
                 # Store f_ind:
                 self.prediction_queries['ind'].append(ind)
-- 
2.43.0


From b1683dc5b72cd5e240f5ac56fe5ef327630f7130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:57 +0000
Subject: [PATCH 26/43] fix: terminal bounds set after setup take effect and do
 not alter the state bounds

---
 do_mpc/controller/_mpc.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/do_mpc/controller/_mpc.py b/do_mpc/controller/_mpc.py
index a9ef373..da1ea00 100644
--- a/do_mpc/controller/_mpc.py
+++ b/do_mpc/controller/_mpc.py
@@ -467,9 +467,18 @@ class MPC(do_mpc.optimizer.Optimizer, do_mpc.model.IteratedVariables):
         err_msg = 'Calling .bounds with {} is not valid. Possible keys are {}.'
         assert (var_name[0] if isinstance(var_name, tuple) else var_name) in var_struct.keys(), err_msg.format(ind, var_struct.keys())
 
+        # Decouple the terminal bounds if they currently default to the bounds of the states:
+        if var_struct is self._x_lb or var_struct is self._x_ub:
+            var_struct = self.model._x(var_struct)
+            setattr(self, query, var_struct)
+
         # Set value on struct:
         var_struct[var_name] = val
 
+        # Update bounds of optimization variables, if the problem is already created:
+        if self.flags['prepare_nlp']:
+            self._update_bounds()
+
     def set_param(self, **kwargs)->None:
         """Set the parameters of the :py:class:`MPC` class. Parameters must be passed as pairs of valid keywords and respective argument.
         
-- 
2.43.0


From 966102de2cb71a1f3d34c67cae97eb8163ad813c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:02 +0000
Subject: [PATCH 27/43] fix: prediction of algebraic states used the nodes of
 the wrong branch

---
 do_mpc/data.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/do_mpc/data.py b/do_mpc/data.py
index a7d7364..4b5fdcd 100644
--- a/do_mpc/data.py
+++ b/do_mpc/data.py
@@ -315,8 +315,9 @@ class MPCData(Data):
                 f_ind = self.opt_x.f[(ind[0], slice(None), lambda v: castools.horzcat(*v),slice(None), -1)+ind[1:]]
                 f_ind = np.array([f_ind_k.full() for f_ind_k in f_ind], dtype='int32')
                 # sort pred such that each column belongs to one scenario
-                # - By indexing structure_scenario until f_ind.shape[0] we cover the case of _x and _z at the same time
-                f_ind = f_ind[range(f_ind.shape[0]),:,structure_scenario[:f_ind.shape[0],:].T].T
+                # - The algebraic states of an interval are stored with the child node at its end.
+                nodes = structure_scenario[1:,:] if ind[0] == '_z' else structure_scenario
+                f_ind = f_ind[range(f_ind.shape[0]),:,nodes.T].T
                 # Store f_ind:
                 self.prediction_queries['ind'].append(ind)
                 self.prediction_queries['f_ind'].append(f_ind)
-- 
2.43.0


From ce479fba4f139ec9605012b908ff1cbd66022048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:31 +0000
Subject: [PATCH 28/43] fix: LQR with input rate penalization failed for DM or
 structure states

---
 do_mpc/controller/_lqr.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/do_mpc/controller/_lqr.py b/do_mpc/controller/_lqr.py
index 1197bbe..253d867 100644
--- a/do_mpc/controller/_lqr.py
+++ b/do_mpc/controller/_lqr.py
@@ -323,7 +323,7 @@ class LQR(IteratedVariables):
         
         This method is used to augmented states and inputs for input rate penalization.
         """
-        x0 = np.block([[x],[u]])
+        x0 = np.block([[castools.DM(x).full()],[u]])
         return x0
         
     def set_objective(self, Q:np.ndarray, R:np.ndarray, P:np.ndarray = None)->None:
-- 
2.43.0


From de3bc295e967fdfc9ad285cdee7b9d9d7e1f0ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:45 +0000
Subject: [PATCH 29/43] fix: a restored model could not be pickled again

---
 do_mpc/model/_model.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/do_mpc/model/_model.py b/do_mpc/model/_model.py
index a78d283..1029827 100644
--- a/do_mpc/model/_model.py
+++ b/do_mpc/model/_model.py
@@ -152,10 +152,10 @@ class Model:
         self.__dict__.update(state)
 
         # Update expressions with new symbolic variables created when unpickling:
-        self._rhs = self._rhs(self._rhs_fun(self._x, self._u, self._z, self._tvp, self._p, self._w))
-        self._alg = self._alg(self._alg_fun(self._x, self._u, self._z, self._tvp, self._p, self._w))
-        self._aux_expression = self._aux_expression(self._aux_expression_fun(self._x, self._u, self._z, self._tvp, self._p))
-        self._y_expression = self._y_expression(self._meas_fun(self._x, self._u, self._z, self._tvp, self._p, self._v))
+        self._rhs.master = self._rhs_fun(self._x, self._u, self._z, self._tvp, self._p, self._w)
+        self._alg.master = self._alg_fun(self._x, self._u, self._z, self._tvp, self._p, self._w)
+        self._aux_expression.master = self._aux_expression_fun(self._x, self._u, self._z, self._tvp, self._p)
+        self._y_expression.master = self._meas_fun(self._x, self._u, self._z, self._tvp, self._p, self._v)
 
 
     def __getitem__(self, ind):
-- 
2.43.0


From 9d5c274afc202a727bec021318209f0e5c4fd4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:45 +0000
Subject: [PATCH 30/43] fix: LinearModel accepted output and feedthrough
 matrices of the wrong shape

---
 do_mpc/model/_linearmodel.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/do_mpc/model/_linearmodel.py b/do_mpc/model/_linearmodel.py
index a140919..de2cfd8 100644
--- a/do_mpc/model/_linearmodel.py
+++ b/do_mpc/model/_linearmodel.py
@@ -196,6 +196,13 @@ class LinearModel(Model):
             raise ValueError('C must be a numpy array or None')
         if not isinstance(D, (np.ndarray, type(None))):
             raise ValueError('D must be a numpy array or None')
+
+        if C is not None and C.shape[-1] != self.x.size:
+            raise ValueError('C must be a matrix with n_x columns. You have C.shape={}'.format(C.shape))
+        if D is not None and D.shape[-1] != self.u.size:
+            raise ValueError('D must be a matrix with n_u columns. You have D.shape={}'.format(D.shape))
+        if C is not None and D is not None and C.shape[0] != D.shape[0]:
+            raise ValueError('C and D must have the same number of rows. You have C.shape={} and D.shape={}'.format(C.shape, D.shape))
     
         # Three use cases:
         # 1. C / D are given -> Create measurement function
-- 
2.43.0


From 7db0f329b0be43f5d2e040fcb21d7e939f6658a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:45 +0000
Subject: [PATCH 31/43] fix: DataHandler kept reporting samples as missing
 after they were generated

---
 do_mpc/sampling/_datahandler.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/do_mpc/sampling/_datahandler.py b/do_mpc/sampling/_datahandler.py
index 71bb8d2..be1bcb0 100644
--- a/do_mpc/sampling/_datahandler.py
+++ b/do_mpc/sampling/_datahandler.py
@@ -143,8 +143,10 @@ class DataHandler:
             result = self.pre_loaded_data['data'][ind]
         else:
             result = self._load(sample['id'])
-            self.pre_loaded_data['id'].append(sample['id'])
-            self.pre_loaded_data['data'].append(result)
+            # A missing sample may still be generated later.
+            if result is not None:
+                self.pre_loaded_data['id'].append(sample['id'])
+                self.pre_loaded_data['data'].append(result)
 
         return result
 
-- 
2.43.0


From dac21fc0a4f6fa93890e95fb39948c95ed58a597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:45 +0000
Subject: [PATCH 32/43] fix: NLPDifferentiator with lin_solver scipy failed for
 a single parameter

---
 do_mpc/differentiator/_nlpdifferentiator.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/do_mpc/differentiator/_nlpdifferentiator.py b/do_mpc/differentiator/_nlpdifferentiator.py
index 43d8088..030fbc5 100644
--- a/do_mpc/differentiator/_nlpdifferentiator.py
+++ b/do_mpc/differentiator/_nlpdifferentiator.py
@@ -485,6 +485,8 @@ class NLPDifferentiator:
             if lin_solver == 'scipy':
                 logging.info("Solving linear system with Scipy.")
                 param_sens = sp_sparse.linalg.spsolve(A_num.tocsc(),-B_num.tocsc())
+                if param_sens.ndim == 1: # spsolve returns a vector if there is only one parameter
+                    param_sens = param_sens.reshape(-1,1)
 
             elif lin_solver == 'casadi':
                 logging.info("Solving linear system with Casadi.")
-- 
2.43.0


From 7aaab23db0e5cd65c96f57186d26406b17e612d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:45 +0000
Subject: [PATCH 33/43] fix: ONNXConversion accepted matrix inputs of the wrong
 shape

---
 do_mpc/sysid/_onnxconversion.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/do_mpc/sysid/_onnxconversion.py b/do_mpc/sysid/_onnxconversion.py
index 9140be9..0102aa1 100644
--- a/do_mpc/sysid/_onnxconversion.py
+++ b/do_mpc/sysid/_onnxconversion.py
@@ -222,7 +222,10 @@ class ONNXConversion:
             check_1 = (len(inputshape[input_name]) == 1)
             check_2 = (inputshape[input_name][0] != kwargs[input_name].shape[0])
             check_3 = (inputshape[input_name] != kwargs[input_name].shape)
-            if check_1 and check_2 and check_3:
+            # All dimensions but the first (batch) must match, unless they are dynamic (zero)
+            check_4 = len(shape) > 1 and (len(kwargs[input_name].shape) != len(shape) or any(
+                s not in (0, v) for s, v in zip(shape[1:], kwargs[input_name].shape[1:])))
+            if (check_1 and check_2 and check_3) or check_4:
                 raise Exception("The shape of the input '{}' should be {}".format(input_name,inputshape[input_name]))
 
             self.input[input_name] = kwargs[input_name]
-- 
2.43.0


From 8132007d374764ee96a7487fd44ce88ddc853518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:45 +0000
Subject: [PATCH 34/43] fix: ONNX Add, Sub and Mul failed for one-dimensional
 bias vectors

---
 do_mpc/sysid/_onnxconversion.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/do_mpc/sysid/_onnxconversion.py b/do_mpc/sysid/_onnxconversion.py
index 0102aa1..b9c1000 100644
--- a/do_mpc/sysid/_onnxconversion.py
+++ b/do_mpc/sysid/_onnxconversion.py
@@ -343,16 +343,24 @@ class ONNXOperations:
         See `ONNX documentation <https://github.com/onnx/onnx/blob/main/docs/Operators.md#add>`_ for more details.
         """
         out = 0
-        for arg in args:
-            out += arg
+        for arg in self._align(args):
+            out = out + arg
         return out
 
     def Mul(self,*args, attribute = None):
+        args = self._align(args)
         return args[0]*args[1]
 
     def Sub(self, *args, attribute = None):
+        args = self._align(args)
         return args[0] - args[1]
 
+    def _align(self, args):
+        """One dimensional tensors (e.g. bias vectors) act on the last axis of a matrix. CasADi would treat them as columns."""
+        shapes = [getattr(arg, 'shape', ()) for arg in args]
+        widths = [shape[1] for shape in shapes if len(shape) == 2]
+        return [arg.reshape(1,-1) if len(shape) == 1 and shape[0] > 1 and shape[0] in widths else arg for arg, shape in zip(args, shapes)]
+
     def Gemm(self, *args, attribute = None):
         """General Matrix Multiplication.
         See `ONNX documentation  <https://github.com/onnx/onnx/blob/main/docs/Operators.md#gemm>`_ for more details.
-- 
2.43.0


From 3d8fb592e1f3aeeb328509d7400cd29f98971ac4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:45 +0000
Subject: [PATCH 35/43] fix: Structure could not be queried with an index
 longer than a stored one

---
 do_mpc/tools/_structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/do_mpc/tools/_structure.py b/do_mpc/tools/_structure.py
index 0523cde..8cb17c8 100644
--- a/do_mpc/tools/_structure.py
+++ b/do_mpc/tools/_structure.py
@@ -179,7 +179,7 @@ class Structure:
             else:
                 # Regular case: Iter over all indices and check condition.
                 for i, ind_i in enumerate(_iter_index):
-                    if j>len(ind_i):
+                    if j>=len(ind_i):
                         None
                     elif ind_i[j] == ind_j:
                         _tmp_master.append(_iter_master[i])
-- 
2.43.0


From 71cf66460be8cfe88b47df0c7fc6330e9582b71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:19 +0000
Subject: [PATCH 36/43] fix: inconsistent terminal bounds were accepted

---
 do_mpc/controller/_mpc.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/do_mpc/controller/_mpc.py b/do_mpc/controller/_mpc.py
index da1ea00..104b352 100644
--- a/do_mpc/controller/_mpc.py
+++ b/do_mpc/controller/_mpc.py
@@ -917,6 +917,13 @@ class MPC(do_mpc.optimizer.Optimizer, do_mpc.model.IteratedVariables):
         if np.all(self._x_terminal_lb.cat == -np.inf) and self._settings.use_terminal_bounds:
             self._x_terminal_lb = self._x_lb
 
+        # Lower terminal bounds should be lower than upper terminal bounds:
+        if self._settings.use_terminal_bounds:
+            bound_check = self._x_terminal_lb.cat > self._x_terminal_ub.cat
+            bound_fail = [label_i for i,label_i in enumerate(self._x_terminal_lb.labels()) if bound_check[i]]
+            if np.any(bound_check):
+                raise Exception('Your terminal bounds are inconsistent. For {} you have lower bound > upper bound.'.format(bound_fail))
+
         # Set dummy functions for tvp and p in case these parameters are unused.
         if 'tvp_fun' not in self.__dict__:
             _tvp = self.get_tvp_template()
-- 
2.43.0


From a463d450e56a9c9ae13aa66c92e6e52d2d28dd3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:19 +0000
Subject: [PATCH 37/43] fix: inconsistent bounds of estimated parameters were
 accepted

---
 do_mpc/estimator/_mhe.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/do_mpc/estimator/_mhe.py b/do_mpc/estimator/_mhe.py
index 49df5bb..5d701dd 100644
--- a/do_mpc/estimator/_mhe.py
+++ b/do_mpc/estimator/_mhe.py
@@ -817,7 +817,7 @@ class MHE(Optimizer, Estimator):
 
 
         # Lower bounds should be lower than upper bounds:
-        for lb, ub in zip([self._x_lb, self._u_lb, self._z_lb], [self._x_ub, self._u_ub, self._z_ub]):
+        for lb, ub in zip([self._x_lb, self._u_lb, self._z_lb, self._p_est_lb], [self._x_ub, self._u_ub, self._z_ub, self._p_est_ub]):
             bound_check = lb.cat > ub.cat
             bound_fail = [label_i for i,label_i in enumerate(lb.labels()) if bound_check[i]]
             if np.any(bound_check):
-- 
2.43.0


From 5c29c7989216739c398132281d71450d99efd9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:23 +0000
Subject: [PATCH 38/43] fix: pair process noises by name when converting a DAE
 model whose equations are not in the order of its states

---
 do_mpc/model/_dae2odeconversion.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/do_mpc/model/_dae2odeconversion.py b/do_mpc/model/_dae2odeconversion.py
index e2ca7c9..9f5159d 100644
--- a/do_mpc/model/_dae2odeconversion.py
+++ b/do_mpc/model/_dae2odeconversion.py
@@ -92,7 +92,9 @@ def dae2odeconversion(model:Model)->Model:
             daeModel.set_rhs(model.x.keys()[i],rhs_new[x_count:x_count+model.x[model.x.keys()[i]].size()[0]])
             x_count += model.x[model.x.keys()[i]].size()[0]
     alg = model._alg_fun(castools.vertcat(*x_new),castools.vertcat(*u_new),castools.vertcat(*z_new),castools.vertcat(*tvp_new),castools.vertcat(*p_new),daeModel.w)
-    rhs_mod = castools.substitute(rhs,model.w.cat,daeModel.w.cat)
+    # process noises by name: the original model has them in the order of its set_rhs calls, the new model in the order of its states
+    w_new = daeModel.w[model.w.keys()]
+    rhs_mod = model._rhs_fun(castools.vertcat(*x_new),castools.vertcat(*u_new),castools.vertcat(*z_new),castools.vertcat(*tvp_new),castools.vertcat(*p_new),castools.vertcat(*w_new))
     z_next = -castools.inv(castools.jacobian(alg,castools.vertcat(*z_new)))@castools.jacobian(alg,castools.vertcat(*x_new))@rhs_mod-castools.inv(castools.jacobian(alg,castools.vertcat(*z_new)))@castools.jacobian(alg,castools.vertcat(*u_new))@q
     
     u_count = 0
-- 
2.43.0


From b7fc7523a033ddd4d10ea372beeaa506e8198b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:53 +0000
Subject: [PATCH 39/43] fix: variables with 'default' in their name had no node
 in the default OPC UA namespace

---
 do_mpc/opcua/_base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/do_mpc/opcua/_base.py b/do_mpc/opcua/_base.py
index 1d8df0c..6f885bb 100644
--- a/do_mpc/opcua/_base.py
+++ b/do_mpc/opcua/_base.py
@@ -110,7 +110,8 @@ class RTBase:
         for var in variable_list:
             
             for key in model[var].labels():
-                if 'default' in key:
+                # Skip the placeholder of the model, but not user-defined variables with a similar name.
+                if var == 'aux' and key == '[default,0]':
                     continue
                 
                 node_list.append(NamespaceEntry(var, key))
-- 
2.43.0


From e6c90dcaf48e8a8cb6a08bdc265b754fab136b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:21 +0000
Subject: [PATCH 40/43] fix: ONNX Gemm without a bias or with a computed bias
 could not be converted

---
 do_mpc/sysid/_onnxconversion.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/do_mpc/sysid/_onnxconversion.py b/do_mpc/sysid/_onnxconversion.py
index b9c1000..efaef55 100644
--- a/do_mpc/sysid/_onnxconversion.py
+++ b/do_mpc/sysid/_onnxconversion.py
@@ -372,7 +372,7 @@ class ONNXOperations:
 
         A = args[0]
         B = args[1]
-        C = args[2]
+        C = args[2] if len(args) > 2 else 0 # The bias is optional.
 
         if 'transA' in attr_dict.keys() and attr_dict['transA'] == 1:
             A = casadi.transpose(A)
@@ -387,7 +387,7 @@ class ONNXOperations:
         else:
             beta = 1
 
-        if C.ndim == 1:
+        if len(getattr(C, 'shape', ())) == 1:
             C = C.reshape(1,-1)
         
         res = alpha*self.MatMul(A,B) + beta*C
-- 
2.43.0


From 5952289bbe30a14ebed22c831f07817519103137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:28 +0000
Subject: [PATCH 41/43] fix: default_plot accepts the algebraic states of the
 model (checked against the inputs before)

---
 do_mpc/graphics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/do_mpc/graphics.py b/do_mpc/graphics.py
index 2ade94d..8cfe142 100644
--- a/do_mpc/graphics.py
+++ b/do_mpc/graphics.py
@@ -382,7 +382,7 @@ def default_plot(data,
         # Pop default variable:
         dae_states_list.pop(0)
     else:
-        assert set(dae_states_list).issubset(data.model['_u'].keys()), err_message.format('dae_states_list',data.model['_z'].keys(), dae_states_list)
+        assert set(dae_states_list).issubset(data.model['_z'].keys()), err_message.format('dae_states_list',data.model['_z'].keys(), dae_states_list)
 
     if inputs_list is None:
         inputs_list = data.model['_u'].keys()
-- 
2.43.0


From ee57f86f1244c1321f09c403c89b05793238be24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:28 +0000
Subject: [PATCH 42/43] fix: animate does not overwrite existing animations
 unless asked to

---
 do_mpc/graphics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/do_mpc/graphics.py b/do_mpc/graphics.py
index 8cfe142..82c9cbc 100644
--- a/do_mpc/graphics.py
+++ b/do_mpc/graphics.py
@@ -503,7 +503,7 @@ def animate(graphics:Graphics,
     if overwrite==False:
         ind = 1
         ext_export_name = export_name
-        while os.path.isfile(export_path+ext_export_name+'.pkl'):
+        while os.path.isfile('{}{}.{}'.format(export_path, ext_export_name, extension)):
             ext_export_name = '{ind:03d}_{name}'.format(ind=ind, name=export_name)
             ind += 1
         export_name = ext_export_name
-- 
2.43.0


From d1ae626587780cddc38d01f00c444eab90e185f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:42:28 +0000
Subject: [PATCH 43/43] fix: parameters can be plotted for controllers that
 store the full solution

---
 do_mpc/graphics.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/do_mpc/graphics.py b/do_mpc/graphics.py
index 82c9cbc..f383a03 100644
--- a/do_mpc/graphics.py
+++ b/do_mpc/graphics.py
@@ -273,7 +273,8 @@ class Graphics:
 
         self.result_lines[var_type, var_name] = axis.plot(self.data['_time'] , self.data[var_type, var_name], **pltkwargs)
 
-        if self.data.dtype == 'MPC' and self.data.meta_data['store_full_solution']:
+        # Parameters are not part of the predicted trajectories.
+        if self.data.dtype == 'MPC' and self.data.meta_data['store_full_solution'] and var_type != '_p':
             # y_data has shape (n_elem, n_horizon, n_scenario), where n_elem = 1 for scalars and >1 for vectors
             y_data = self.data.prediction((var_type, var_name))
             x_data = np.zeros(y_data.shape[1])
-- 
2.43.0

