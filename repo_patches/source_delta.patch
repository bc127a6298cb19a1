From 5b928d7d165c48c2abc58ef95295cb1ad3979d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:41 +0000
Subject: [PATCH 01/74] fix: ancestor flag covers every argument of a
 multi-argument ancestor

---
 kd/model/discover/dso/subroutines.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kd/model/discover/dso/subroutines.py b/kd/model/discover/dso/subroutines.py
index dbbf4c9..248abc6 100644
--- a/kd/model/discover/dso/subroutines.py
+++ b/kd/model/discover/dso/subroutines.py
@@ -190,7 +190,8 @@ def ancestors(actions, arities, ancestor_tokens):
             if threshold is None:
                 for trig_token in ancestor_tokens:
                     if actions[r, c] == trig_token:
-                        threshold = dangling - 1
+                        # The branch is complete once all of its arguments are
+                        threshold = dangling - arity
                         break
             # Turn "off" once the branch completes
             else:
-- 
2.43.0


From fc780e1420cfc48a37dd7f362673ca67970bfaa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:41 +0000
Subject: [PATCH 02/74] fix: post-hoc descendant checks follow the whole branch
 of every effector

---
 kd/model/discover/dso/subroutines.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/kd/model/discover/dso/subroutines.py b/kd/model/discover/dso/subroutines.py
index 248abc6..fce9ada 100644
--- a/kd/model/discover/dso/subroutines.py
+++ b/kd/model/discover/dso/subroutines.py
@@ -516,7 +516,8 @@ def jit_check_constraint_violation_descendant_no_target_tokens(\
                 
                 return True
             descendant  = True
-            dangling    = 1
+            # One open slot per argument of the effector
+            dangling    = 2 if a_in_b(action, binary_tokens, B) else 1
         elif descendant:
             if a_in_b(action, binary_tokens, B):
                 # Does action match a binary token?
@@ -582,6 +583,7 @@ def jit_check_constraint_violation_descendant_with_target_tokens(\
             
     _,L     = actions.shape
     T       = target_tokens.shape[0]
+    E       = effector_tokens.shape[0]
     B       = binary_tokens.shape[0]
     U       = unary_tokens.shape[0]
     
@@ -592,13 +594,14 @@ def jit_check_constraint_violation_descendant_with_target_tokens(\
         
         action = actions[0,l]
         
-        if a_in_b(action, effector_tokens, T):
-            # Does action match a target token?
+        if descendant and a_in_b(action, target_tokens, T):
+            # Target token inside the branch of an effector
+            return True
+        
+        if not descendant and a_in_b(action, effector_tokens, E):
             descendant  = True
-            dangling    = 1
-        elif a_in_b(action, target_tokens, T):
-            if descendant:                
-                return True
+            # One open slot per argument of the effector
+            dangling    = 2 if a_in_b(action, binary_tokens, B) else 1
         elif descendant:
             if a_in_b(action, binary_tokens, B):
                 # Does action match a binary token?
-- 
2.43.0


From 6aca46a53898625fbe6020bcbb7da85e485ed5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:41 +0000
Subject: [PATCH 03/74] fix: post-hoc check of left-child and right-child
 constraints

---
 kd/model/discover/dso/prior.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/kd/model/discover/dso/prior.py b/kd/model/discover/dso/prior.py
index 9d548b2..e8d0cd7 100644
--- a/kd/model/discover/dso/prior.py
+++ b/kd/model/discover/dso/prior.py
@@ -457,6 +457,15 @@ class RelationalConstraint(Constraint):
             violated = jit_check_constraint_violation_uchild(actions, parent, sibling, self.targets, 
                                                      adj_unary_effectors, adj_effectors)
 
+        elif self.relationship in ("lchild", "rchild"):
+            adj_parents = self.library.parent_adjust[self.effectors]
+            if self.relationship == "lchild":
+                side = np.equal(sibling, self.L)
+            else:
+                side = np.less(sibling, self.L)
+            mask = np.isin(parent, adj_parents) & side
+            violated = bool(np.any(mask & np.isin(actions, self.targets)))
+
         return violated
 
     def validate(self):
-- 
2.43.0


From a24ad4fe082cfe1619fcf9c5e398703da283ae02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:41 +0000
Subject: [PATCH 04/74] fix: generic post-hoc constraint check replays sampling
 and leaves the constraint unchanged

---
 kd/model/discover/dso/prior.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/kd/model/discover/dso/prior.py b/kd/model/discover/dso/prior.py
index e8d0cd7..e943325 100644
--- a/kd/model/discover/dso/prior.py
+++ b/kd/model/discover/dso/prior.py
@@ -336,16 +336,19 @@ class Constraint(Prior):
         assert len(actions.shape) == 2, "Only takes in one action at a time since this is how Deap will use it."
         assert actions.shape[0] == 1, "Only takes in one action at a time since this is how Deap will use it."
         
-        self.mask_val   = 1.0
         dangling        = np.ones((1), dtype=np.int32)
         
         # For each step in time, get the prior                                
         for t in range(actions.shape[1]):
-            dangling    += self.library.arities[actions[:,t]] - 1   
-            priors      = self.__call__(actions[:,:t], parent[:,t], sibling[:,t], dangling)
+            if t == 0:
+                priors  = self.initial_prior()[None, :]
+            else:
+                # Update dangling based on the previous token, as in sampling
+                dangling    += self.library.arities[actions[:,t-1]] - 1   
+                priors  = self.__call__(actions[:,:t], parent[:,t], sibling[:,t], dangling)
             
             # Does our action conflict with this prior?
-            if priors[0,actions[0,t]]:
+            if priors[0,actions[0,t]] == -np.inf:
                 return True
              
         return False
-- 
2.43.0


From 63adc5d2d686233829e97438a9c0b33a81d0e69c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:44 +0000
Subject: [PATCH 05/74] fix: get_next_obs no longer overwrites the open-slot
 count of the observation it is given

---
 kd/model/discover/task/task.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kd/model/discover/task/task.py b/kd/model/discover/task/task.py
index 15b8d3d..51bef09 100644
--- a/kd/model/discover/task/task.py
+++ b/kd/model/discover/task/task.py
@@ -124,7 +124,7 @@ class HierarchicalTask(Task):
 
     def get_next_obs(self, actions, obs):
 
-        dangling = obs[:, 3] # Shape of obs: (?, 4)
+        dangling = obs[:, 3].copy() # Shape of obs: (?, 4); obs is kept by the caller
         action = actions[:, -1] # Current action
         lib = self.library
         # import pdb;pdb.set_trace()
-- 
2.43.0


From 23a170ab1ef161b28215ce0a1df1e35121cfa7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:37 +0000
Subject: [PATCH 06/74] fix: keep reward, constants, validity and counters when
 pickling a Program

The cached reward attribute is r_ridge (the name of its getter), so looking for
'r' never found it and constants/validity were dropped as well; counters were
reduced to booleans and an invalid program without error message could not be
pickled.
---
 kd/model/discover/program.py | 36 ++++++++++++++++--------------------
 1 file changed, 16 insertions(+), 20 deletions(-)

diff --git a/kd/model/discover/program.py b/kd/model/discover/program.py
index 14e9b12..388f55e 100644
--- a/kd/model/discover/program.py
+++ b/kd/model/discover/program.py
@@ -295,22 +295,23 @@ class Program(object):
                     
     def __getstate__(self):
         
-        have_r = "r" in self.__dict__
+        have_r = "r_ridge" in self.__dict__
         have_evaluate = "evaluate" in self.__dict__
-        possible_const = have_r or have_evaluate
+        # Placeholder constants have no value until optimized or set
+        have_const = all(self.traversal[i].value is not None for i in self.const_pos)
         
         state_dict = {'tokens' : self.tokens, # string rep comes out different if we cast to array, so we can get cache misses.
                       'have_r' : bool(have_r),
-                      'r' : float(self.r) if have_r else float(-np.inf), 
+                      'r' : float(self.r_ridge) if have_r else float(-np.inf), 
                       'have_evaluate' : bool(have_evaluate),
                       'evaluate' : self.evaluate if have_evaluate else float(-np.inf), 
-                      'const' : array.array('d', self.get_constants()) if possible_const else float(-np.inf), 
-                      'on_policy_count' : bool(self.on_policy_count),
-                      'off_policy_count' : bool(self.off_policy_count),
+                      'const' : array.array('d', self.get_constants() if have_const else []),
+                      'on_policy_count' : int(self.on_policy_count),
+                      'off_policy_count' : int(self.off_policy_count),
                       'originally_on_policy' : bool(self.originally_on_policy),
                       'invalid' : bool(self.invalid), 
-                      'error_node' : array.array('u', "" if not self.invalid else self.error_node), 
-                      'error_type' : array.array('u', "" if not self.invalid else self.error_type)}    
+                      'error_node' : array.array('u', str(self.error_node or "") if self.invalid else ""), 
+                      'error_type' : array.array('u', str(self.error_type or "") if self.invalid else "")}    
         
         # In the future we might also return sympy_expr and complexity if we ever need to compute in parallel 
 
@@ -321,23 +322,18 @@ class Program(object):
         # Question, do we need to init everything when we have already run, or just some things?
         self._init(state_dict['tokens'], state_dict['originally_on_policy'])
         
-        have_run = False
-        
         if state_dict['have_r']:
-            setattr(self, 'r', state_dict['r'])
-            have_run = True
+            setattr(self, 'r_ridge', state_dict['r'])
             
         if state_dict['have_evaluate']:
             setattr(self, 'evaluate', state_dict['evaluate'])
-            have_run = True 
         
-        if have_run:
-            self.set_constants(state_dict['const'].tolist())
-            self.invalid = state_dict['invalid']
-            self.error_node = state_dict['error_node'].tounicode()
-            self.error_type = state_dict['error_type'].tounicode()
-            self.on_policy_count = state_dict['on_policy_count']
-            self.off_policy_count = state_dict['off_policy_count']
+        self.set_constants(state_dict['const'].tolist())
+        self.invalid = state_dict['invalid']
+        self.error_node = state_dict['error_node'].tounicode()
+        self.error_type = state_dict['error_type'].tounicode()
+        self.on_policy_count = state_dict['on_policy_count']
+        self.off_policy_count = state_dict['off_policy_count']
 
     def execute_STR(self,u, x,ut,  test=False, wf=False):
         if wf:
-- 
2.43.0


From 024f442884cd7128974e25498daa8d4c9ce47434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:39 +0000
Subject: [PATCH 07/74] fix: count constrained tokens per constraint when soft
 priors precede constraints

constraint_counts has one entry per Constraint but was indexed by the position
of the prior, so a non-constraint prior before a constraint raised IndexError
or credited the wrong constraint.
---
 kd/model/discover/dso/prior.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kd/model/discover/dso/prior.py b/kd/model/discover/dso/prior.py
index e943325..c492280 100644
--- a/kd/model/discover/dso/prior.py
+++ b/kd/model/discover/dso/prior.py
@@ -155,8 +155,8 @@ class JointPrior():
         if self.do_count:
             mask = dangling > 0 
             self.total_tokens += mask.sum() * actions.shape[1]
-            for i in self.constraint_indices:
-                self.constraint_counts[i] += np.count_nonzero(ind_priors[i][mask] == -np.inf)
+            for n, i in enumerate(self.constraint_indices):
+                self.constraint_counts[n] += np.count_nonzero(ind_priors[i][mask] == -np.inf)
             self.total_constraints += np.count_nonzero(combined_prior[mask] == -np.inf)
 
         return combined_prior
-- 
2.43.0


From ed3a947363c4e3f7f14d13e5072fa35c1e6df90e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:53 +0000
Subject: [PATCH 08/74] fix: signs of additive terms below nested additions and
 subtractions

---
 kd/model/discover/stridge.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/kd/model/discover/stridge.py b/kd/model/discover/stridge.py
index 729c278..afb88d2 100644
--- a/kd/model/discover/stridge.py
+++ b/kd/model/discover/stridge.py
@@ -319,16 +319,10 @@ class STRidge(object):
                 
                 return [root]
 
-            if 'sub' in root.val:
+            # a term's sign is the product of the signs on its path to the root
+            root.children[0].symbol *= root.symbol
+            root.children[1].symbol *= -root.symbol if 'sub' in root.val else root.symbol
 
-                if root.symbol == 1:
-                    root.children[1].symbol *=-1
-                else:
-                    #
-                    if 'sub' in root.val:    
-                        root.children[0].symbol*=-1
-                        root.children[1].symbol*=-1
-            
             return [split_sum(root.children[0]), split_sum(root.children[1])]
 
         def expand_list(input_list):
-- 
2.43.0


From 0b1441dce9d28a2b56fd54d10071f87d1897c396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:09 +0000
Subject: [PATCH 09/74] fix: make_pde_metric offers inv_nrmse and R2 with the
 signature reward_function calls

---
 kd/model/discover/task/pde/pde.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/kd/model/discover/task/pde/pde.py b/kd/model/discover/task/pde/pde.py
index 9d8d40c..3462457 100644
--- a/kd/model/discover/task/pde/pde.py
+++ b/kd/model/discover/task/pde/pde.py
@@ -281,7 +281,7 @@ def make_pde_metric(name, *args):
     # ut = 
     all_metrics = {
 
-        "inv_nrmse" :    (lambda y, y_hat : 1/(1 + np.sqrt(np.mean((y - y_hat)**2)/np.var(y))),
+        "inv_nrmse" :    (lambda y, y_hat,n : 1/(1 + np.sqrt(np.mean((y - y_hat)**2)/np.var(y))),
                         1),
 
         "pde_reward":  (lambda y, y_hat,n : (1-args[0]*n)/(1 + np.sqrt(np.mean((y - y_hat)**2)/np.var(y))),
@@ -289,7 +289,8 @@ def make_pde_metric(name, *args):
 
         "correlation": (lambda y,y_hat,n: pearsonr(y.ravel(), y_hat.ravel())[0],
                         1),
-        "R2":(lambda y, y_hat,n: 1 - ((y_hat - y)**2).sum() / ((y - y.mean())**2).sum() )
+        "R2":(lambda y, y_hat,n: 1 - ((y_hat - y)**2).sum() / ((y - y.mean())**2).sum(),
+                        1)
 
       
     }
@@ -305,7 +306,8 @@ def make_pde_metric(name, *args):
        
         "inv_nrmse" : 0.0, #1/(1 + args[0]),
         'pde_reward':0.0,
-        'correlation':0.0
+        'correlation':0.0,
+        'R2':0.0
 
     }
     invalid_reward = all_invalid_rewards[name]
@@ -313,7 +315,8 @@ def make_pde_metric(name, *args):
     all_max_rewards = {
         "inv_nrmse" : 1.0,
         "pde_reward":1.0,
-        'correlation':1.0
+        'correlation':1.0,
+        'R2':1.0
 
     }
     max_reward = all_max_rewards[name]
-- 
2.43.0


From 64231c098c4a2329c09eb9663765a750362d79ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:09 +0000
Subject: [PATCH 10/74] fix: pde_reward keeps its documented range when the
 complexity penalty exceeds one

---
 kd/model/discover/task/pde/pde.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kd/model/discover/task/pde/pde.py b/kd/model/discover/task/pde/pde.py
index 3462457..c7a1b0b 100644
--- a/kd/model/discover/task/pde/pde.py
+++ b/kd/model/discover/task/pde/pde.py
@@ -284,7 +284,7 @@ def make_pde_metric(name, *args):
         "inv_nrmse" :    (lambda y, y_hat,n : 1/(1 + np.sqrt(np.mean((y - y_hat)**2)/np.var(y))),
                         1),
 
-        "pde_reward":  (lambda y, y_hat,n : (1-args[0]*n)/(1 + np.sqrt(np.mean((y - y_hat)**2)/np.var(y))),
+        "pde_reward":  (lambda y, y_hat,n : max(0.0, 1-args[0]*n)/(1 + np.sqrt(np.mean((y - y_hat)**2)/np.var(y))),
                         1),
 
         "correlation": (lambda y,y_hat,n: pearsonr(y.ravel(), y_hat.ravel())[0],
-- 
2.43.0


From a6566b8a5e7c83278c04f103f8c37cf4cf547d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:09 +0000
Subject: [PATCH 11/74] fix: a failed torch evaluation no longer marks the next
 numpy evaluation invalid

---
 kd/model/discover/stridge.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/kd/model/discover/stridge.py b/kd/model/discover/stridge.py
index afb88d2..be0344a 100644
--- a/kd/model/discover/stridge.py
+++ b/kd/model/discover/stridge.py
@@ -58,7 +58,6 @@ def unsafe_execute_torch(traversal, u, x):
     with np.errstate(all='log'):
         y = python_execute_torch(traversal, u,x)
         if y is None:
-            invalid_log.write("bad_diff bad_diff bad_diff")
             return 0, True,'bad_diff','bad_diff'
         
         error_node,error_type=None,None
-- 
2.43.0


From 42f80b633f1193929af5354dbcc55c0c0ecce2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:28 +0000
Subject: [PATCH 12/74] fix: make the discover Laplacian callable outside numba
 (it called plain Python functions in nopython mode)

---
 kd/model/discover/task/pde/utils_fd.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/kd/model/discover/task/pde/utils_fd.py b/kd/model/discover/task/pde/utils_fd.py
index 74d9e58..d4cd645 100644
--- a/kd/model/discover/task/pde/utils_fd.py
+++ b/kd/model/discover/task/pde/utils_fd.py
@@ -192,7 +192,6 @@ def Diff2_2(u, dxt, name=1):
 
     return uxt
 
-@jit(nopython=True)
 def Laplace(u,x):
     x1,x2 = x
     uxt = Diff2_2(u,x1, name = 1)
-- 
2.43.0


From 07ccba657d7f1b86bc8fc32ffa70cb4292c834be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:25 +0000
Subject: [PATCH 13/74] fix: 3-D finite differences of utils_v1: third-axis
 extent and boundary, stray debugger call, unsupported axis

---
 kd/model/discover/task/pde/utils_v1.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/kd/model/discover/task/pde/utils_v1.py b/kd/model/discover/task/pde/utils_v1.py
index c99795a..c353cca 100644
--- a/kd/model/discover/task/pde/utils_v1.py
+++ b/kd/model/discover/task/pde/utils_v1.py
@@ -189,13 +189,12 @@ def Diff2_2(u, dxt, name=1):
         # uxt[:,:,n - 1] = (2 * u[:,:,n - 1] - 5 * u[:,:,n - 2] + 4 * u[:,:,n - 3] - u[:,:,n - 4]) / dxt ** 2
         
     else:
-        NotImplementedError()
+        raise NotImplementedError(f"Diff2_2: name={name} not supported")
 # except:
     #     import pdb;pdb.set_trace()
 
     return uxt
 
-@jit(nopython=True)
 def Laplace(u,x):
     x1,x2 = x
     uxt = Diff2_2(u,x1, name = 1)
@@ -214,7 +213,6 @@ def Diff_3(u, dxt, name=1):
     t,n,m,p = u.shape
     uxt = np.zeros((t, n, m, p))
     if len(dxt.shape) == 2:
-        import pdb;pdb.set_trace()
         dxt = dxt[:,0]
     dxt = dxt.ravel()
     # import pdb;pdb.set_trace()
@@ -272,13 +270,13 @@ def Diff2_3(u, dxt, name=1):
         uxt[:,:,0,:] = (2 * u[:,:,0,:] - 5 * u[:,:,1,:] + 4 * u[:,:,2,:] - u[:,:,3,:]) / dxt ** 2
         uxt[:,:,m - 1,:] = (2 * u[:,:,m - 1,:] - 5 * u[:,:,m - 2,:] + 4 * u[:,:,m - 3,:] - u[:,:,m - 4,:]) / dxt ** 2
     elif name == 3:
-        uxt[:,:,:,1:m-1]= (u[:,:,:,2:m] - 2 * u[:,:,:,1:m-1] + u[:,:,:,0:m-2]) / dxt ** 2
+        uxt[:,:,:,1:p-1]= (u[:,:,:,2:p] - 2 * u[:,:,:,1:p-1] + u[:,:,:,0:p-2]) / dxt ** 2
         # uxt[:,:,:,0] = (u[:,:,:,1]+u[:,:,:,-1]-2*u[:,:,:,0])/dxt ** 2
         # uxt[:,:,-1] = (u[:,:,0]+u[:,:,-2]-2*u[:,:,-1])/dxt ** 2  
-        uxt[:,:,0] = (2 * u[:,:,0] - 5 * u[:,:,1] + 4 * u[:,:,2] - u[:,:,3]) / dxt ** 2
+        uxt[:,:,:,0] = (2 * u[:,:,:,0] - 5 * u[:,:,:,1] + 4 * u[:,:,:,2] - u[:,:,:,3]) / dxt ** 2
         uxt[:,:,:,p - 1] = (2 * u[:,:,:,p - 1] - 5 * u[:,:,:,p - 2] + 4 * u[:,:,:,p - 3] - u[:,:,:,p- 4]) / dxt ** 2       
     else:
-        NotImplementedError()
+        raise NotImplementedError(f"Diff2_3: name={name} not supported")
 # except:
     #     import pdb;pdb.set_trace()
 
-- 
2.43.0


From 56af673509674f00e979a4a1ae876a6f33609a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:25 +0000
Subject: [PATCH 14/74] fix: FiniteDifferenceOperator truncated the derivative
 of an integer-valued field

---
 kd/utils/solver.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kd/utils/solver.py b/kd/utils/solver.py
index d94818d..562bddc 100644
--- a/kd/utils/solver.py
+++ b/kd/utils/solver.py
@@ -12,7 +12,7 @@ class FiniteDifferenceOperator:
         self.dx = dx
         self.dim = dim
         self.n, self.m = u.shape
-        self.ux = np.zeros_like(u)
+        self.ux = np.zeros_like(u, dtype=np.result_type(u, float))
 
     def _finite_diff_1st(self):
         """
-- 
2.43.0


From 3a443a013e821d987ae0788fa1808acfb0a8fec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:35 +0000
Subject: [PATCH 15/74] fix: kd.utils FiniteDiff returned the third derivative
 with the wrong sign

---
 kd/utils/utils_fd.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kd/utils/utils_fd.py b/kd/utils/utils_fd.py
index c57d737..08391da 100644
--- a/kd/utils/utils_fd.py
+++ b/kd/utils/utils_fd.py
@@ -61,7 +61,7 @@ def FiniteDiff(u, dx, order=1):
         ux[n-1] = (2*u[n-1] - 5*u[n-2] + 4*u[n-3] - u[n-4]) / (dx**2)
     elif order == 3:
         for i in range(2, n-2):
-            ux[i] = (-u[i+2] + 2*u[i+1] - 2*u[i-1] + u[i-2]) / (2*dx**3)
+            ux[i] = (u[i+2] - 2*u[i+1] + 2*u[i-1] - u[i-2]) / (2*dx**3)
         ux[0:2] = 0
         ux[n-2:] = 0
     elif order == 4:
-- 
2.43.0


From cff60b610eb46115c78eb9aa9db1e5d0ee44e4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:39 +0000
Subject: [PATCH 16/74] fix: STRidge kept original units when every coefficient
 is below the threshold, refits ties and single columns

---
 kd/model/discover/ga_utils.py   | 6 +++---
 kd/model/sga/sgapde/PDE_find.py | 4 ++--
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/kd/model/discover/ga_utils.py b/kd/model/discover/ga_utils.py
index e61622d..795b9f5 100644
--- a/kd/model/discover/ga_utils.py
+++ b/kd/model/discover/ga_utils.py
@@ -105,7 +105,7 @@ def STRidge(X0, y, lam, maxit, tol, normalize=0, print_results=False):
     else:
         w = np.linalg.lstsq(X, y)[0]
     num_relevant = d
-    biginds = np.where(abs(w) > tol)[0]
+    biginds = np.where(abs(w) >= tol)[0]
     # Threshold and continue
     for j in range(maxit):
         # Figure out which items to cut out
@@ -119,7 +119,7 @@ def STRidge(X0, y, lam, maxit, tol, normalize=0, print_results=False):
         # Also make sure we didn't just lose all the coefficients
         if len(new_biginds) == 0:
             if j == 0:
-                return w
+                return np.multiply(Mreg, w) if normalize != 0 else w
             else:
                 break
         biginds = new_biginds
@@ -130,7 +130,7 @@ def STRidge(X0, y, lam, maxit, tol, normalize=0, print_results=False):
         else:
             w[biginds] = np.linalg.lstsq(X[:, biginds], y)[0]
     # Now that we have the sparsity pattern, use standard least squares to get w
-    if biginds != []: 
+    if len(biginds) > 0: 
         w[biginds] = np.linalg.lstsq(X[:, biginds], y)[0]
     if normalize != 0:
         return np.multiply(Mreg, w)
diff --git a/kd/model/sga/sgapde/PDE_find.py b/kd/model/sga/sgapde/PDE_find.py
index 14c0843..c3100fc 100644
--- a/kd/model/sga/sgapde/PDE_find.py
+++ b/kd/model/sga/sgapde/PDE_find.py
@@ -176,7 +176,7 @@ def STRidge(X0, y, lam, maxit, tol, normalize=0, print_results=False):
     else:
         w = np.linalg.lstsq(X, y)[0]
     num_relevant = d
-    biginds = np.where(abs(w) > tol)[0]
+    biginds = np.where(abs(w) >= tol)[0]
     # Threshold and continue
     for j in range(maxit):
         # Figure out which items to cut out
@@ -191,7 +191,7 @@ def STRidge(X0, y, lam, maxit, tol, normalize=0, print_results=False):
         if len(new_biginds) == 0:
             if j == 0:
                 # if print_results: print "Tolerance too high - all coefficients set below tolerance"
-                return w
+                return np.multiply(Mreg, w) if normalize != 0 else w
             else:
                 break
         biginds = new_biginds
-- 
2.43.0


From 5032bad1f6036e0a7253c74cec23dfc4060496b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:39 +0000
Subject: [PATCH 17/74] fix: Lasso in PDE_find (array shapes, single column)
 and Train returning its coefficients

---
 kd/model/sga/sgapde/PDE_find.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/kd/model/sga/sgapde/PDE_find.py b/kd/model/sga/sgapde/PDE_find.py
index c3100fc..f3ef316 100644
--- a/kd/model/sga/sgapde/PDE_find.py
+++ b/kd/model/sga/sgapde/PDE_find.py
@@ -145,7 +145,7 @@ def Train(R, Ut, lam, d_tol, AIC_ratio=1, maxit=10, STR_iters=10, l0_penalty=1,
         if print_best_tol: print("Optimal tolerance:", tol_best)
 
     elif sparse == 'Lasso':
-        w = Lasso(R, Ut, lam, w=np.array([0]), maxit=maxit*10, normalize=normalize)
+        w_best = w = Lasso(R, Ut, lam, w=np.array([0]), maxit=maxit*10, normalize=normalize)
         # err = np.linalg.norm(Ut - R.dot(w), 2) + l0_penalty * np.count_nonzero(w)
         data_err_best = np.linalg.norm(Ut - R.dot(w), 2)
         mse_best = np.mean((TrainY - TrainR.dot(w)) ** 2)
@@ -220,7 +220,7 @@ def Lasso(X0, Y, lam, w=np.array([0]), maxit=100, normalize=2):
     X = np.zeros((n, d))
     Y = Y.reshape(n, 1)
     # Create w if none is given
-    if w.size != d:
+    if w.shape != (d, 1):
         w = np.zeros((d, 1))
     w_old = np.zeros((d, 1))
     # First normalize data
@@ -240,7 +240,7 @@ def Lasso(X0, Y, lam, w=np.array([0]), maxit=100, normalize=2):
         w_old = w
         z = z - X.T.dot(X.dot(z) - Y) / L
         for j in range(d):
-            w[j] = np.multiply(np.sign(z[j]), np.max([abs(z[j]) - lam / L, 0]))
+            w[j] = np.multiply(np.sign(z[j]), np.maximum(abs(z[j]) - lam / L, 0))
 
         # Could put in some sort of break condition based on convergence here.
     # Now that we have the sparsity pattern, used least squares.
-- 
2.43.0


From 74ec5b501ae095aed887653550eb976cf4cd2328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:56 +0000
Subject: [PATCH 18/74] fix: tree mutation never ended when the only
 differentiation variable had no alternative

---
 kd/model/sga/sgapde/tree.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/kd/model/sga/sgapde/tree.py b/kd/model/sga/sgapde/tree.py
index b602314..e2822a9 100644
--- a/kd/model/sga/sgapde/tree.py
+++ b/kd/model/sga/sgapde/tree.py
@@ -117,6 +117,10 @@ class Tree: #对应于pde中的一个term
                     num_child = self.tree[depth][parent.child_st + j].child_num  # 当前变异节点的子节点数
                     # print('mutate!')
                     if num_child == 0: # 叶子节点
+                        # the only differentiation variable has no alternative: resampling would never end
+                        if parent.name in {'d', 'd^2'} and not any(
+                                var[0] != temp and var[0] in context.den[:, 0] for var in context.VARS):
+                            continue
                         node = context.VARS[np.random.randint(0, len(context.VARS))] # rule 2: 叶节点必须是var，不能是op
                         while node[0] == temp or (parent.name in {'d', 'd^2'} and node[0] not in context.den[:, 0]):# rule 3: 如果编译前后结果重复，或者d的节点不在den中（即出现不能求导的对象），则重新抽取
                             if context.simple_mode and parent.name in {'d', 'd^2'} and node[0] == 'x': # simple_mode中，遇到对于x的导数，直接停止变异
-- 
2.43.0


From 90a12ac29c14a6494d03ba44ef7072cbab5d172f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:30 +0000
Subject: [PATCH 19/74] fix: tree mutation could differentiate with respect to
 a field named x that is not a coordinate

---
 kd/model/sga/sgapde/tree.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kd/model/sga/sgapde/tree.py b/kd/model/sga/sgapde/tree.py
index e2822a9..02e6986 100644
--- a/kd/model/sga/sgapde/tree.py
+++ b/kd/model/sga/sgapde/tree.py
@@ -123,7 +123,7 @@ class Tree: #对应于pde中的一个term
                             continue
                         node = context.VARS[np.random.randint(0, len(context.VARS))] # rule 2: 叶节点必须是var，不能是op
                         while node[0] == temp or (parent.name in {'d', 'd^2'} and node[0] not in context.den[:, 0]):# rule 3: 如果编译前后结果重复，或者d的节点不在den中（即出现不能求导的对象），则重新抽取
-                            if context.simple_mode and parent.name in {'d', 'd^2'} and node[0] == 'x': # simple_mode中，遇到对于x的导数，直接停止变异
+                            if context.simple_mode and parent.name in {'d', 'd^2'} and node[0] == 'x' and 'x' in context.den[:, 0]: # simple_mode中，遇到对于x的导数，直接停止变异
                                 break
                             node = context.VARS[np.random.randint(0, len(context.VARS))] # 重新抽取一个vars
                         new_node = Node(depth=depth, idx=idx_this_depth, parent_idx=parent_idx, name=node[0],
-- 
2.43.0


From 1e668c014c1813e132925a7452e05eb98a2eec36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:27 +0000
Subject: [PATCH 20/74] fix: SolverConfig.divide changed its divisor in place
 and failed on integer divisors

---
 kd/model/sga/sgapde/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kd/model/sga/sgapde/config.py b/kd/model/sga/sgapde/config.py
index 66200ac..71c1d13 100644
--- a/kd/model/sga/sgapde/config.py
+++ b/kd/model/sga/sgapde/config.py
@@ -265,7 +265,7 @@ class SolverConfig:
     def divide(up, down, eta=1e-10):
         """Safe division function."""
         while np.any(down == 0):
-            down += eta
+            down = down + eta
         return up / down
         
     def get_device(self):
-- 
2.43.0


From 4a152c9054dbf589da0212182f77a16ff2dee014 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:26 +0000
Subject: [PATCH 21/74] fix: parameter fields could shadow other variables or
 leak the target derivative, and their shape was not checked

---
 kd/model/sga/sgapde/context.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/kd/model/sga/sgapde/context.py b/kd/model/sga/sgapde/context.py
index 716dd65..e8baf34 100644
--- a/kd/model/sga/sgapde/context.py
+++ b/kd/model/sga/sgapde/context.py
@@ -249,7 +249,14 @@ class ProblemContext:
         self.coord_grids = self._build_coord_grids(coords_1d, self.axis_map, grid_shape)
 
     def _validate_registry_names(self, fields, coords_1d, axis_order):
-        field_names = list(fields.keys())
+        param_names = list((getattr(self.config, "param_fields", None) or {}).keys())
+        shared_names = sorted(set(fields.keys()) & set(param_names))
+        if shared_names:
+            raise ValueError(
+                f"Parameter fields conflict with field names: {shared_names}."
+            )
+        # Parameter fields are terminals of VARS just like the fields.
+        field_names = list(fields.keys()) + param_names
         coord_names = list(coords_1d.keys())
 
         for axis in axis_order:
@@ -269,7 +276,7 @@ class ProblemContext:
 
         derivative_keys = {
             build_derivative_key(field, axis, order=1)
-            for field in field_names
+            for field in fields
             for axis in axis_order
         }
         derivative_conflicts = sorted(set(field_names) & derivative_keys)
@@ -346,6 +353,14 @@ class ProblemContext:
                     f"Field '{name}' has shape {field.shape}, expected {grid_shape}."
                 )
 
+        param_fields = getattr(self.config, "param_fields", None) or {}
+        for name, value in param_fields.items():
+            if np.shape(value) != grid_shape:
+                raise ValueError(
+                    "Structured grid requires all parameter fields to share the grid shape. "
+                    f"Parameter '{name}' has shape {np.shape(value)}, expected {grid_shape}."
+                )
+
         if self.config.enforce_uniform_grid:
             for axis in axis_order:
                 coord = coords_1d[axis]
-- 
2.43.0


From 5de6f045308d1ed0727c30381557d619369b154d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:26 +0000
Subject: [PATCH 22/74] fix: delete_edges left the parameter fields untrimmed

---
 kd/model/sga/sgapde/context.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/kd/model/sga/sgapde/context.py b/kd/model/sga/sgapde/context.py
index e8baf34..a90a6ce 100644
--- a/kd/model/sga/sgapde/context.py
+++ b/kd/model/sga/sgapde/context.py
@@ -437,6 +437,11 @@ class ProblemContext:
         # Rebuild the variable registry so fields/coords/axis_map/delta/coord_grids stay in sync.
         self.config.fields_data = new_fields
         self.config.coords_1d = new_coords_1d
+        param_fields = getattr(self.config, "param_fields", None)
+        if param_fields:
+            self.config.param_fields = {
+                name: np.asarray(value)[slicer] for name, value in param_fields.items()
+            }
         self._init_variable_registry(new_fields, new_coords_1d, self.axis_order)
         self._resolve_primary_spatial_axis()
         legacy_x_axis = "x" if "x" in self.axis_map else self.primary_spatial_axis
-- 
2.43.0


From 5d8417e1c9ba46d4f408f6fa00670395e0289415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:26 +0000
Subject: [PATCH 23/74] fix: names ending in a newline passed name validation

---
 kd/model/sga/sgapde/naming.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kd/model/sga/sgapde/naming.py b/kd/model/sga/sgapde/naming.py
index 5d96e52..7beabfc 100644
--- a/kd/model/sga/sgapde/naming.py
+++ b/kd/model/sga/sgapde/naming.py
@@ -6,7 +6,7 @@ from typing import Iterable, Dict, List, Tuple, Optional, Sequence, Set
 import re
 
 
-_NAME_RE = re.compile(r"^[A-Za-z][A-Za-z0-9_]*$")
+_NAME_RE = re.compile(r"[A-Za-z][A-Za-z0-9_]*")
 DEFAULT_RESERVED: Set[str] = {
     "0",
     "d",
@@ -24,7 +24,7 @@ def validate_name(name: str, *, reserved: Optional[Set[str]] = None) -> str:
     """Validate a field/coord name and return it."""
     if not isinstance(name, str) or not name:
         raise ValueError("invalid name: empty or non-string.")
-    if not _NAME_RE.match(name):
+    if not _NAME_RE.fullmatch(name):
         raise ValueError(f"invalid name: '{name}'.")
     reserved_set = reserved or DEFAULT_RESERVED
     if name in reserved_set:
-- 
2.43.0


From 37d09cb7f50f66ff55b81073f6862ac69619e1eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:48 +0000
Subject: [PATCH 24/74] fix: KD_SGA.fit_dataset failed when the user overrode
 target_field or lhs_axis of an N-D dataset

---
 kd/model/kd_sga.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/kd/model/kd_sga.py b/kd/model/kd_sga.py
index a4460d0..cae422c 100644
--- a/kd/model/kd_sga.py
+++ b/kd/model/kd_sga.py
@@ -148,16 +148,10 @@ class KD_SGA(BaseEstimator):
         )
 
         # 推断优先级：用户显式设置 > adapter 推断 > 默认值
-        final_target_field = (
-            self.target_field
-            or solver_kwargs.pop("target_field", None)
-            or "u"
-        )
-        final_lhs_axis = (
-            self.lhs_axis
-            or solver_kwargs.pop("lhs_axis", None)
-            or "t"
-        )
+        inferred_target_field = solver_kwargs.pop("target_field", None)
+        inferred_lhs_axis = solver_kwargs.pop("lhs_axis", None)
+        final_target_field = self.target_field or inferred_target_field or "u"
+        final_lhs_axis = self.lhs_axis or inferred_lhs_axis or "t"
 
         config = SolverConfig(
             problem_name=problem_label,
-- 
2.43.0


From 93f50b74d7320457e50df2a4be8b1171438f3c94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:48 +0000
Subject: [PATCH 25/74] fix: the SGA adapter dropped the parameter fields of
 x/t/usol datasets

---
 kd/model/sga/adapter.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/kd/model/sga/adapter.py b/kd/model/sga/adapter.py
index e57d5c9..95e1f92 100644
--- a/kd/model/sga/adapter.py
+++ b/kd/model/sga/adapter.py
@@ -57,9 +57,13 @@ class SGADataAdapter:
                 f"({len(x)}, {len(t)}) but got {u.shape}"
             )
 
-        return {
+        kwargs = {
             "u_data": u,
             "x_data": x,
             "t_data": t,
             "problem_name": getattr(self.dataset, "equation_name", "custom_dataset") or "custom_dataset",
         }
+        param_fields = getattr(self.dataset, "param_fields", None)
+        if param_fields:
+            kwargs["param_fields"] = {k: np.asarray(v) for k, v in param_fields.items()}
+        return kwargs
-- 
2.43.0


From 2d51dd0729b145fdb7ef657ebc2425e59d512ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:07 +0000
Subject: [PATCH 26/74] fix: SGA LaTeX lost the grouping of differentiated
 products, quotients and powers

---
 kd/model/sga/sgapde/equation.py | 77 ++++++++++++++++++++-------------
 1 file changed, 48 insertions(+), 29 deletions(-)

diff --git a/kd/model/sga/sgapde/equation.py b/kd/model/sga/sgapde/equation.py
index 50b3669..c8d38b2 100644
--- a/kd/model/sga/sgapde/equation.py
+++ b/kd/model/sga/sgapde/equation.py
@@ -282,17 +282,19 @@ def _combine_node(name: str, children: Sequence[str], *, notation: str = "subscr
         return f"{base}^{{3}}"
     if name == 'd':
         var = _render_derivative_variable(children)
-        operand = children[0]
+        operand = _ensure_group(children[0])
         if notation == "subscript":
-            merged = _merge_subscript(operand, var)
-            return merged if merged is not None else f"{operand}_{{{var}}}"
+            sub = _subscript_part(var)
+            merged = _merge_subscript(operand, sub)
+            return merged if merged is not None else f"{operand}_{{{sub}}}"
         return f"\\frac{{\\partial {operand}}}{{\\partial {var}}}"
     if name == 'd^2':
         var = _render_derivative_variable(children)
-        operand = children[0]
+        operand = _ensure_group(children[0])
         if notation == "subscript":
-            merged = _merge_subscript(operand, var + var)
-            return merged if merged is not None else f"{operand}_{{{var}{var}}}"
+            sub = _subscript_part(var) * 2
+            merged = _merge_subscript(operand, sub)
+            return merged if merged is not None else f"{operand}_{{{sub}}}"
         return f"\\frac{{\\partial^{{2}} {operand}}}{{\\partial {var}^{{2}}}}"
     if not children:
         return name
@@ -305,28 +307,48 @@ def _render_derivative_variable(children: Sequence[str]) -> str:
     return children[1]
 
 
-def _merge_subscript(operand: str, new_sub: str) -> str | None:
-    """Merge new subscript into existing one: u_{x} + 'x' -> u_{xx}.
+def _subscript_part(var: str) -> str:
+    """One variable inside a subscript; longer names keep their own braces."""
+    return var if len(var) == 1 else f"{{{var}}}"
 
-    Only merges when operand strictly ends with ``_{...}`` (no trailing
-    superscript like ``^{2}`` or other braces).  Returns *None* when
-    merging is unsafe so the caller falls through to the normal path.
-    """
-    idx = operand.rfind('_{')
-    if idx < 0:
-        return None
-    # Ensure the closing brace of the subscript is the very last character.
-    # Walk from idx+2, counting brace depth, to find the matching '}'.
+
+def _closing(expr: str, start: int) -> int:
+    """Index of the bracket that closes the one at ``start`` (-1 if none)."""
+    opening = expr[start]
+    ending = {'{': '}', '(': ')'}[opening]
     depth = 0
-    close = -1
-    for i in range(idx + 1, len(operand)):
-        if operand[i] == '{':
+    for i in range(start, len(expr)):
+        if expr[i] == opening:
             depth += 1
-        elif operand[i] == '}':
+        elif expr[i] == ending:
             depth -= 1
             if depth == 0:
-                close = i
-                break
+                return i
+    return -1
+
+
+def _is_unit(expr: str) -> bool:
+    """True for a single symbol or one parenthesised group."""
+    if expr.startswith('('):
+        return _closing(expr, 0) == len(expr) - 1
+    return bool(expr) and not any(ch in expr for ch in ' +-^{}()')
+
+
+def _merge_subscript(operand: str, new_sub: str) -> str | None:
+    """Merge new subscript into existing one: u_{x} + 'x' -> u_{xx}.
+
+    Only merges when the operand is a single symbol or group with one
+    subscript ``_{...}`` (no product, no trailing superscript like ``^{2}``
+    or other braces).  Returns *None* when merging is unsafe so the caller
+    falls through to the normal path.
+    """
+    idx = 0
+    if operand.startswith('('):
+        idx = max(_closing(operand, 0), 0)
+    idx = operand.find('_{', idx)
+    if idx < 0 or not _is_unit(operand[:idx]):
+        return None
+    close = _closing(operand, idx + 1)
     if close != len(operand) - 1:
         # Subscript brace closes before end (e.g. u_{x}^{2}) — unsafe to merge.
         return None
@@ -336,13 +358,10 @@ def _merge_subscript(operand: str, new_sub: str) -> str | None:
 
 
 def _ensure_group(expr: str) -> str:
-    if expr.startswith('(') and expr.endswith(')'):
+    """Parenthesise ``expr`` unless it is one symbol, group or derivative."""
+    if _is_unit(expr) or _merge_subscript(expr, '') is not None:
         return expr
-    if expr.startswith('\\frac'):
-        return f"({expr})"
-    if any(ch in expr for ch in [' ', '+', '-']):
-        return f"({expr})"
-    return expr
+    return f"({expr})"
 
 
 __all__ = [
-- 
2.43.0


From 84e8c900684fa0132d84f23f5aa8bc25be8a03e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:16 +0000
Subject: [PATCH 27/74] fix: SGA LaTeX printed derivative leaves of other
 fields as plain names with a double subscript

---
 kd/model/sga/sgapde/equation.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/kd/model/sga/sgapde/equation.py b/kd/model/sga/sgapde/equation.py
index c8d38b2..63c2bd0 100644
--- a/kd/model/sga/sgapde/equation.py
+++ b/kd/model/sga/sgapde/equation.py
@@ -3,6 +3,7 @@
 from __future__ import annotations
 
 import copy
+import re
 from dataclasses import dataclass
 from typing import Iterable, Literal, Sequence
 
@@ -202,6 +203,7 @@ def _sanitize_label(label: str) -> str:
     leaf = _render_leaf(cleaned)
     if leaf != cleaned:
         return leaf
+    cleaned = cleaned.replace(' ', '')
     replacements = {
         '*': '\\cdot ',
         '^2': '^{2}',
@@ -209,7 +211,6 @@ def _sanitize_label(label: str) -> str:
     }
     for src, dst in replacements.items():
         cleaned = cleaned.replace(src, dst)
-    cleaned = cleaned.replace(' ', '')
     return cleaned
 
 
@@ -245,6 +246,7 @@ def _render_leaf(name: str) -> str:
         't': 't',
         'ux': 'u_{x}',
         'u_x': 'u_{x}',
+        'u_t': 'u_t',
         'uxx': 'u_{xx}',
         'uxxx': 'u_{xxx}',
         'ut': 'u_{t}',
@@ -262,7 +264,15 @@ def _render_leaf(name: str) -> str:
         'rho': '\\rho',
         'sigma': '\\sigma',
     }
-    return mapping.get(name, name)
+    if name in mapping:
+        return mapping[name]
+    if re.fullmatch(r'[A-Za-z][A-Za-z0-9_]*', name) and '_' in name:
+        # Derivative keys (v_x) and names with an index (w_1).
+        base, *subs = name.split('_')
+        if all(subs):
+            return f"{mapping.get(base, base)}_{{{''.join(_subscript_part(sub) for sub in subs)}}}"
+        return name.replace('_', '\\_')
+    return name
 
 
 def _combine_node(name: str, children: Sequence[str], *, notation: str = "subscript") -> str:
-- 
2.43.0


From 894207efd4a682871b5af3abdaf65656962fd558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:38 +0000
Subject: [PATCH 28/74] fix: SGA equations named the left-hand side and the
 default term u whatever the target field and axis

---
 kd/model/sga/sgapde/context.py  | 2 +-
 kd/model/sga/sgapde/equation.py | 9 ++++++---
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/kd/model/sga/sgapde/context.py b/kd/model/sga/sgapde/context.py
index a90a6ce..4ecff94 100644
--- a/kd/model/sga/sgapde/context.py
+++ b/kd/model/sga/sgapde/context.py
@@ -1073,7 +1073,7 @@ class ProblemContext:
         self.default_u2 = np.reshape(self.u**2, (flat_size, 1))
         self.default_u3 = np.reshape(self.u**3, (flat_size, 1))
         self.default_terms = self.default_u
-        self.default_names = ['u']
+        self.default_names = [self.target_field]
         self.num_default = self.default_terms.shape[1]
 
         # 若无解析模板或显式标记为无真解，则跳过 ground-truth 误差计算
diff --git a/kd/model/sga/sgapde/equation.py b/kd/model/sga/sgapde/equation.py
index 63c2bd0..6b2e8b0 100644
--- a/kd/model/sga/sgapde/equation.py
+++ b/kd/model/sga/sgapde/equation.py
@@ -39,12 +39,15 @@ class SGAEquationDetails:
 
 
 def _infer_lhs_label(config) -> str:
+    target = getattr(config, 'target_field', None) or 'u'
+    axis = getattr(config, 'lhs_axis', None) or 't'
+    label = f'{target}_{axis}'
     raw = getattr(config, 'left_side', None)
     if not raw:
-        return 'u_t'
+        return label
     if isinstance(raw, str) and '=' in raw:
-        return raw.split('=', 1)[1].strip() or 'u_t'
-    return 'u_t'
+        return raw.split('=', 1)[1].strip() or label
+    return label
 
 
 def extract_equation_details(pde, context, *, coefficient_tol: float = _DEFAULT_TOL) -> SGAEquationDetails:
-- 
2.43.0


From dd940c0a51dd0ddb2cbb9c529a8efeb2f10ab577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:59 +0000
Subject: [PATCH 29/74] fix: replacing a same-reward candidate in the memory
 broke its heap order

---
 kd/model/discover/dso/memory.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/kd/model/discover/dso/memory.py b/kd/model/discover/dso/memory.py
index a1999ba..7469ee3 100644
--- a/kd/model/discover/dso/memory.py
+++ b/kd/model/discover/dso/memory.py
@@ -274,6 +274,7 @@ class UniquePriorityQueue(Queue):
                 #replace 
                 new_ = ItemContainer(score, item, extra_data)
                 self.heap[id_],new_ = new_, self.heap[id_]
+                heapq.heapify(self.heap)
                 popped_item = new_.item
             else:
                 _, popped_item, _ = heapq.heappushpop(
-- 
2.43.0


From 15f98c5d111e5d65a9d5b7d06db85160d7740f6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:33 +0000
Subject: [PATCH 30/74] fix: DLGA crossover paired individuals by the number of
 generations (IndexError when larger than the population)

---
 kd/model/dlga.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kd/model/dlga.py b/kd/model/dlga.py
index 246c203..ae9ec9e 100644
--- a/kd/model/dlga.py
+++ b/kd/model/dlga.py
@@ -324,9 +324,9 @@ class DLGA(BaseGa):
         Returns:
             list: New population after crossover.
         """
-        Chrom, size_pop = self.Chrom, self.n_generations
+        Chrom = self.Chrom
         Chrom1, Chrom2 = Chrom[::2], Chrom[1::2]
-        for i in range(int(size_pop / 2)):
+        for i in range(len(Chrom2)):
             n1 = np.random.randint(0, len(Chrom1[i]))
             n2 = np.random.randint(0, len(Chrom2[i]))
 
-- 
2.43.0


From fd2900f0345a40df74594871129b5332bddb5d99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:33 +0000
Subject: [PATCH 31/74] fix: DLGA selection kept one of several equally fit
 candidates more than once, as the same list, and shrank odd populations

---
 kd/model/dlga.py    | 6 +++---
 kd/model/kd_dlga.py | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/kd/model/dlga.py b/kd/model/dlga.py
index ae9ec9e..ebf275b 100644
--- a/kd/model/dlga.py
+++ b/kd/model/dlga.py
@@ -395,8 +395,8 @@ class DLGA(BaseGa):
             coef_list.append(coef)
             name_list.append(name)
         # Select best 50% individuals
-        re1 = list(
-            map(fitness_list.index, heapq.nsmallest(int(size_pop / 2), fitness_list))
+        re1 = heapq.nsmallest(
+            int(size_pop / 2), range(size_pop), key=fitness_list.__getitem__
         )
 
         for index in re1:
@@ -405,7 +405,7 @@ class DLGA(BaseGa):
             new_coef.append(coef_list[index])
             new_name.append(name_list[index])
         # Fill the rest with new random individuals
-        for _ in range(int(size_pop / 2)):
+        for _ in range(size_pop - len(new_Chrom)):
             new = DLGA.random_genome(self)
             new_Chrom.append(new)
 
diff --git a/kd/model/kd_dlga.py b/kd/model/kd_dlga.py
index ac0d889..2bc92bf 100644
--- a/kd/model/kd_dlga.py
+++ b/kd/model/kd_dlga.py
@@ -188,7 +188,7 @@ class KD_DLGA(DLGA):
         num_to_keep = int(size_pop / 2)
         if len(fitness_list) < num_to_keep:
             num_to_keep = len(fitness_list)
-        re1 = list(map(fitness_list.index, heapq.nsmallest(num_to_keep, fitness_list)))
+        re1 = heapq.nsmallest(num_to_keep, range(len(fitness_list)), key=fitness_list.__getitem__)
         for index in re1:
             new_Chrom.append(Chrom[index])
             new_fitness.append(fitness_list[index])
-- 
2.43.0


From e38ad7a204f4fe4f9ab6e4d08e71be95264e3e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:33 +0000
Subject: [PATCH 32/74] fix: KD_DLGA skipped unknown operator names, so genes
 were reported under the names of other columns

---
 kd/model/kd_dlga.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kd/model/kd_dlga.py b/kd/model/kd_dlga.py
index 2bc92bf..ce640b7 100644
--- a/kd/model/kd_dlga.py
+++ b/kd/model/kd_dlga.py
@@ -54,6 +54,9 @@ class KD_DLGA(DLGA):
             utt = torch.zeros_like(u)
         available_ops = {'u': u, 'u_x': ux, 'u_t': ut, 'u_xx': uxx, 'u_xxx': uxxx, 'u_tt': utt}
         # 1. Theta 矩阵的构建依然严格遵守 user_operators，这用于方程搜索
+        unknown = [op_name for op_name in self.user_operators if op_name not in available_ops]
+        if unknown:
+            raise ValueError(f"Unknown operators {unknown}; available: {sorted(available_ops)}")
         theta_columns = []
         for op_name in self.user_operators:
             if op_name in available_ops:
-- 
2.43.0


From fabb1e3058bb7db29dd9a8cddbf66ad825e655da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:33 +0000
Subject: [PATCH 33/74] fix: DLGA training shuffled the arrays of the caller,
 including the field of the dataset

---
 kd/model/dlga.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kd/model/dlga.py b/kd/model/dlga.py
index ebf275b..a6d9f44 100644
--- a/kd/model/dlga.py
+++ b/kd/model/dlga.py
@@ -118,7 +118,8 @@ class DLGA(BaseGa):
         Returns:
             tuple: (trained network, best epoch)
         """
-        # Shuffle data
+        # Shuffle copies: X and y may be the caller's arrays or views of a dataset
+        X, y = X.copy(), y.copy()
         state = np.random.get_state()
         np.random.shuffle(X)
         np.random.set_state(state)
-- 
2.43.0


From 4e45c121250b9a6864878722930e8474def59eaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:09:45 +0000
Subject: [PATCH 34/74] fix: DLGA LaTeX ignored the operator list of the model
 and named other derivatives, and printed u_tt with a broken subscript

---
 kd/viz/dlga_eq2latex.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/kd/viz/dlga_eq2latex.py b/kd/viz/dlga_eq2latex.py
index 3440818..a45933a 100644
--- a/kd/viz/dlga_eq2latex.py
+++ b/kd/viz/dlga_eq2latex.py
@@ -17,6 +17,9 @@ DEFAULT_LATEX_STYLE_MAP = {
     "uxxx": "u_{xxx}",
     "ut": "u_t",    # 更标准的 LaTeX 可以是 r"\frac{\partial u}{\partial t}"
     "utt": "u_{tt}", # r"\frac{\partial^2 u}{\partial t^2}"
+    "u_xx": "u_{xx}",
+    "u_xxx": "u_{xxx}",
+    "u_tt": "u_{tt}",
 }
 
 
@@ -170,7 +173,7 @@ def dlga_eq2latex(
     for i, module in enumerate(chromosome):
         print(f"    Term {i+1} - Module (gene indices): {module}")
         # Further explain the meaning of the module
-        term_parts = [DLGA_INTERNAL_TERM_NAMES[idx] if 0 <= idx < len(DLGA_INTERNAL_TERM_NAMES) else f"Unknown Gene({idx})" for idx in module]
+        term_parts = [name[idx] if 0 <= idx < len(name) else f"Unknown Gene({idx})" for idx in module]
         print(f"      Meaning (product of terms): {' * '.join(term_parts) if term_parts else 'Base constant term'}")
 
     print(f"  Coefficients (NumPy array, corresponding to each module/term in the chromosome):")
@@ -178,15 +181,16 @@ def dlga_eq2latex(
         print(f"    Term {i+1} - Coefficient: {coeff_row[0]:.4f}")
         
     print(f"  Left-hand side term name (string): {lhs_name_str}")
-    print(f"  (Note: Gene indices in the chromosome map to the following list: {DLGA_INTERNAL_TERM_NAMES})")
+    print(f"  (Note: Gene indices in the chromosome map to the following list: {name})")
     print("--- Equation Renderer data reception end ---\n")
 
     # Generate LaTeX string
     dlga_latex_str = chromosome_to_latex(
         chromosome=chromosome,
         coefficients=coefficients,
-        lhs_name_str=lhs_name_str
-        # dlga_term_names and latex_style_map will use the function's default values
+        lhs_name_str=lhs_name_str,
+        dlga_term_names=name
+        # latex_style_map will use the function's default value
     )
 
     print(f"[Equation Renderer INFO]: LaTeX: {dlga_latex_str}")
-- 
2.43.0


From d40ef3192b4af1cabbcd02b7c7df2ef964a19507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:54 +0000
Subject: [PATCH 35/74] fix: discovered terms that print as sums or signed
 products were not bracketed after their coefficient

---
 kd/viz/discover_eq2latex.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/kd/viz/discover_eq2latex.py b/kd/viz/discover_eq2latex.py
index 258e66d..b994d48 100644
--- a/kd/viz/discover_eq2latex.py
+++ b/kd/viz/discover_eq2latex.py
@@ -161,7 +161,20 @@ def _discover_term_node_to_latex_expanded(
     else:
         latex_output = sympy.latex(expanded)
 
-    return factor, latex_output
+    return factor, _factor_latex(expanded, latex_output)
+
+
+def _factor_latex(expr: sympy.Basic, latex: str) -> str:
+    """LaTeX of *expr* as a factor that may follow a coefficient.
+
+    Sums and terms carrying their own number or sign are bracketed, so that
+    the coefficient in front multiplies the whole term.
+    """
+    if expr == 1:
+        return latex
+    if isinstance(expr, sympy.Add) or expr.as_coeff_Mul()[0] != 1:
+        return f"\\left({latex}\\right)"
+    return latex
 
 
 # Node -> LaTeX
@@ -192,7 +205,7 @@ def _discover_term_node_to_latex(term_node_obj, local_sympy_symbols=None, *, not
             latex_output = _SubscriptLatexPrinter().doprint(parsed_sympy_expr)
         else:
             latex_output = sympy.latex(parsed_sympy_expr)
-        return latex_output
+        return _factor_latex(parsed_sympy_expr, latex_output)
     except Exception as e:
         import traceback
         error_repr = repr(term_node_obj) if term_node_obj else "None"
-- 
2.43.0


From 368012f2f403415ced3b15887e682131ff602f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:16 +0000
Subject: [PATCH 36/74] fix: expanding the derivative of a product with a
 coordinate or a parameter field lost terms

---
 kd/viz/discover_eq2latex.py | 42 ++++++++++++++++++++++---------------
 1 file changed, 25 insertions(+), 17 deletions(-)

diff --git a/kd/viz/discover_eq2latex.py b/kd/viz/discover_eq2latex.py
index b994d48..7b1baa3 100644
--- a/kd/viz/discover_eq2latex.py
+++ b/kd/viz/discover_eq2latex.py
@@ -66,8 +66,9 @@ class _SubscriptLatexPrinter(LatexPrinter):
 # First-order compound derivative expansion
 # ---------------------------------------------------------------------------
 
-# Symbols that represent dependent variables (functions of x1, x2, x3)
-_FUNC_SYMBOL_NAMES = frozenset({'u1'})
+# Symbols that represent dependent variables and parameter fields
+# (functions of x1, x2, x3)
+_FUNC_SYMBOL_NAMES = frozenset({'u1', 'p1', 'p2', 'p3'})
 _VAR_SYMBOL_NAMES = frozenset({'x1', 'x2', 'x3'})
 
 
@@ -106,22 +107,29 @@ def _expand_first_order_compound_derivatives(
         fn = sympy.Function(name)(*var_syms)
         sym_to_fn[sym] = fn
 
-    expr_fn = expr
-    for sym, fn in sym_to_fn.items():
-        expr_fn = expr_fn.subs(sym, fn)
-
-    expanded = expr_fn.doit()
+    # Only the symbols that really occur are promoted; functions that are
+    # already applied (Leibniz mode) stay as they are.
+    sym_to_fn = {
+        sym: fn for sym, fn in sym_to_fn.items() if sym in expr.free_symbols
+    }
+    expanded = expr.xreplace(sym_to_fn).doit()
+
+    # Function → Symbol substitution (reverse). The tree is rebuilt node by
+    # node: evaluating derivatives of the bare symbols would drop them.
+    fn_to_sym = {fn: sym for sym, fn in sym_to_fn.items()}
+
+    def _restore(node):
+        if node in fn_to_sym:
+            return fn_to_sym[node]
+        if isinstance(node, sympy.Derivative):
+            return sympy.Derivative(
+                _restore(node.expr), *node.variable_count, evaluate=False,
+            )
+        if not node.args:
+            return node
+        return node.func(*[_restore(arg) for arg in node.args])
 
-    # Function → Symbol substitution (reverse)
-    for sym, fn in sym_to_fn.items():
-        # Replace derivatives first (higher order → lower order)
-        for vs in var_syms:
-            for order in range(4, 0, -1):
-                expanded = expanded.subs(
-                    sympy.Derivative(fn, (vs, order)),
-                    sympy.Derivative(sym, *([vs] * order)),
-                )
-        expanded = expanded.subs(fn, sym)
+    expanded = _restore(expanded)
 
     # Extract numeric factor: 2*u1*Derivative(u1, x1) → (2, u1*Derivative(...))
     coeff, rest = expanded.as_coeff_Mul()
-- 
2.43.0


From a17e6b935133b3434932c959118d3d96bff38e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:01 +0000
Subject: [PATCH 37/74] fix: Leibniz notation printed the derivative of a
 product as the derivative of its first factor

---
 kd/viz/discover_eq2latex.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/kd/viz/discover_eq2latex.py b/kd/viz/discover_eq2latex.py
index 7b1baa3..f25f8e2 100644
--- a/kd/viz/discover_eq2latex.py
+++ b/kd/viz/discover_eq2latex.py
@@ -62,6 +62,21 @@ class _SubscriptLatexPrinter(LatexPrinter):
         return _SYMBOL_DISPLAY.get(name, super()._print_Symbol(expr))
 
 
+class _LeibnizLatexPrinter(LatexPrinter):
+    """Leibniz notation with products bracketed under the operator.
+
+    SymPy prints the derivative of a product without brackets, which reads as
+    the derivative of its first factor times the other factors.
+    """
+
+    def parenthesize(self, item, level, is_neg=False, strict=False):
+        # An operand of a differentiation operator is requested with
+        # strict=True, for which SymPy leaves products unbracketed.
+        if strict and isinstance(item, sympy.Mul):
+            return self._add_parens(self._print(item))
+        return super().parenthesize(item, level, is_neg=is_neg, strict=strict)
+
+
 # ---------------------------------------------------------------------------
 # First-order compound derivative expansion
 # ---------------------------------------------------------------------------
@@ -167,7 +182,7 @@ def _discover_term_node_to_latex_expanded(
     if notation == "subscript":
         latex_output = _SubscriptLatexPrinter().doprint(expanded)
     else:
-        latex_output = sympy.latex(expanded)
+        latex_output = _LeibnizLatexPrinter().doprint(expanded)
 
     return factor, _factor_latex(expanded, latex_output)
 
@@ -212,7 +227,7 @@ def _discover_term_node_to_latex(term_node_obj, local_sympy_symbols=None, *, not
         if notation == "subscript":
             latex_output = _SubscriptLatexPrinter().doprint(parsed_sympy_expr)
         else:
-            latex_output = sympy.latex(parsed_sympy_expr)
+            latex_output = _LeibnizLatexPrinter().doprint(parsed_sympy_expr)
         return _factor_latex(parsed_sympy_expr, latex_output)
     except Exception as e:
         import traceback
-- 
2.43.0


From 42cf6a66c1ff1699e0c5cb637adbac34f16d1653 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:01 +0000
Subject: [PATCH 38/74] fix: derivatives of parameter fields were printed with
 a double subscript, which is not valid LaTeX

---
 kd/viz/discover_eq2latex.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/kd/viz/discover_eq2latex.py b/kd/viz/discover_eq2latex.py
index f25f8e2..18f4ddd 100644
--- a/kd/viz/discover_eq2latex.py
+++ b/kd/viz/discover_eq2latex.py
@@ -55,6 +55,9 @@ class _SubscriptLatexPrinter(LatexPrinter):
             subscript_parts.append(var_name * count)
 
         subscript = "".join(subscript_parts)
+        if "_" in func_name:
+            # A name with its own subscript (p_{1}) cannot take a second one.
+            func_name = "{" + func_name + "}"
         return f"{func_name}_{{{subscript}}}"
 
     def _print_Symbol(self, expr):
-- 
2.43.0


From 572664d6cac66bb56c0abf1898d68983cfd2af5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:20 +0000
Subject: [PATCH 39/74] fix: Laplace operators and names unknown to the LaTeX
 renderer were printed as products of their letters

---
 kd/viz/discover_eq2latex.py | 76 +++++++++++++++++++++++++------------
 1 file changed, 51 insertions(+), 25 deletions(-)

diff --git a/kd/viz/discover_eq2latex.py b/kd/viz/discover_eq2latex.py
index 18f4ddd..68df6ee 100644
--- a/kd/viz/discover_eq2latex.py
+++ b/kd/viz/discover_eq2latex.py
@@ -1,9 +1,11 @@
 import logging
+import re
 from typing import Optional
 
 import sympy
 
 logger = logging.getLogger(__name__)
+from sympy.core.function import AppliedUndef
 from sympy.parsing.sympy_parser import parse_expr
 from sympy.printing.latex import LatexPrinter
 
@@ -35,13 +37,48 @@ _LEIBNIZ_SYMBOLS_FOR_SYMPY = {
 }
 
 
+class laplacian(sympy.Function):
+    """Laplace operator over the spatial axes, kept as one operator."""
+
+    nargs = 1
+
+    def _eval_derivative(self, s):
+        return laplacian(sympy.Derivative(self.args[0], s, evaluate=True))
+
+    def _latex(self, printer, exp=None):
+        operand = self.args[0]
+        tex = printer._print(operand)
+        if not (operand.is_Symbol or isinstance(operand, sympy.Derivative)
+                or isinstance(operand, AppliedUndef)):
+            tex = f"\\left({tex}\\right)"
+        tex = f"\\nabla^{{2}} {tex}"
+        if exp is not None:
+            return f"\\left({tex}\\right)^{{{exp}}}"
+        return tex
+
+
+def _parse_term(sympy_expr_str: str, symbols: dict) -> sympy.Basic:
+    """Parse a term, reading every name as one operand or one operator.
+
+    Names that are not in *symbols* (further fields, parameters with their own
+    names) become symbols of that name instead of products of their letters.
+    """
+    local_dict = {
+        name: sympy.Symbol(name)
+        for name in re.findall(r"(?<![\w.])([^\W\d]\w*)(?!\w*\s*\()", sympy_expr_str)
+    }
+    local_dict["laplacian"] = laplacian
+    local_dict.update(symbols)
+    return parse_expr(sympy_expr_str, local_dict=local_dict)
+
+
 class _SubscriptLatexPrinter(LatexPrinter):
     """Render Derivative(u, x, x) as u_{xx} instead of Leibniz notation."""
 
     def _print_Derivative(self, expr):
         func = expr.args[0]
         if isinstance(func, sympy.Symbol):
-            func_name = _SYMBOL_DISPLAY.get(func.name, func.name)
+            func_name = self._print(func)
         elif hasattr(func, 'func') and hasattr(func.func, 'name'):
             # Applied function like u1(x1, x2): func.func has .name
             func_name = _SYMBOL_DISPLAY.get(func.func.name, func.func.name)
@@ -84,9 +121,9 @@ class _LeibnizLatexPrinter(LatexPrinter):
 # First-order compound derivative expansion
 # ---------------------------------------------------------------------------
 
-# Symbols that represent dependent variables and parameter fields
-# (functions of x1, x2, x3)
-_FUNC_SYMBOL_NAMES = frozenset({'u1', 'p1', 'p2', 'p3'})
+# All symbols other than constants and coordinates represent dependent
+# variables or parameter fields (functions of x1, x2, x3).
+_CONSTANT_SYMBOL_NAMES = frozenset({'c'})
 _VAR_SYMBOL_NAMES = frozenset({'x1', 'x2', 'x3'})
 
 
@@ -98,7 +135,6 @@ def _is_first_order_compound_derivative(expr: sympy.Basic) -> bool:
     if total_order != 1:
         return False
     func = expr.args[0]
-    from sympy.core.function import AppliedUndef
     return not isinstance(func, (sympy.Symbol, AppliedUndef))
 
 
@@ -117,19 +153,17 @@ def _expand_first_order_compound_derivatives(
     if not _is_first_order_compound_derivative(expr):
         return sympy.Integer(1), expr
 
-    # Symbol → Function substitution
-    sym_to_fn: dict = {}
+    # Symbol → Function substitution: fields and parameters that occur.
+    # Functions that are already applied (Leibniz mode) stay as they are.
     var_syms = [sympy.Symbol(v) for v in sorted(_VAR_SYMBOL_NAMES)]
-    for name in _FUNC_SYMBOL_NAMES:
-        sym = sympy.Symbol(name)
-        fn = sympy.Function(name)(*var_syms)
-        sym_to_fn[sym] = fn
-
-    # Only the symbols that really occur are promoted; functions that are
-    # already applied (Leibniz mode) stay as they are.
     sym_to_fn = {
-        sym: fn for sym, fn in sym_to_fn.items() if sym in expr.free_symbols
+        sym: sympy.Function(sym.name)(*var_syms)
+        for sym in expr.free_symbols
+        if sym.name not in _CONSTANT_SYMBOL_NAMES | _VAR_SYMBOL_NAMES
     }
+    if any(app.args != tuple(var_syms) for app in expr.atoms(AppliedUndef)):
+        # Operators SymPy cannot differentiate: keep the derivative as it is.
+        return sympy.Integer(1), expr
     expanded = expr.xreplace(sym_to_fn).doit()
 
     # Function → Symbol substitution (reverse). The tree is rebuilt node by
@@ -174,11 +208,7 @@ def _discover_term_node_to_latex_expanded(
             local_sympy_symbols = DEEPRL_SYMBOLS_FOR_SYMPY
 
     sympy_expr_str = term_node_obj.to_sympy_string()
-    parsed = parse_expr(
-        sympy_expr_str,
-        local_dict=local_sympy_symbols,
-        transformations='all',
-    )
+    parsed = _parse_term(sympy_expr_str, local_sympy_symbols)
 
     factor, expanded = _expand_first_order_compound_derivatives(parsed)
 
@@ -219,11 +249,7 @@ def _discover_term_node_to_latex(term_node_obj, local_sympy_symbols=None, *, not
         if DEBUG_RENDERER_MODE:
              logger.debug("Node '%r'.to_sympy_string() -> '%s'", term_node_obj, sympy_expr_str)
 
-        parsed_sympy_expr = parse_expr(
-            sympy_expr_str,
-            local_dict=local_sympy_symbols,
-            transformations='all',  # allow a broad set of SymPy-compatible transformations
-        )
+        parsed_sympy_expr = _parse_term(sympy_expr_str, local_sympy_symbols)
         if DEBUG_RENDERER_MODE:
             logger.debug("Parsed SymPy expression: %s", parsed_sympy_expr)
 
-- 
2.43.0


From 63b43fd6061d3fdf56c4a98d932d1543ab30725b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:40 +0000
Subject: [PATCH 40/74] fix: equations of models fitted along another axis were
 rendered with u_t and with the wrong coordinate names

---
 kd/viz/_adapters/discover.py | 10 +++++++++-
 kd/viz/discover_eq2latex.py  | 27 ++++++++++++++++++++-------
 2 files changed, 29 insertions(+), 8 deletions(-)

diff --git a/kd/viz/_adapters/discover.py b/kd/viz/_adapters/discover.py
index 0426da0..83e9529 100644
--- a/kd/viz/_adapters/discover.py
+++ b/kd/viz/_adapters/discover.py
@@ -218,7 +218,15 @@ class DiscoverVizAdapter:
 
         try:
             notation = ctx.options.get('notation', 'subscript')
-            latex = discover_program_to_latex(program, notation=notation)
+            # The axes of the dataset the model was configured with.
+            axes = {}
+            dataset = getattr(model, 'dataset_', None)
+            axis_order = getattr(dataset, 'axis_order', None)
+            if axis_order:
+                lhs_axis = getattr(dataset, 'lhs_axis', 't') or 't'
+                axes['lhs_axis'] = lhs_axis
+                axes['axis_names'] = [a for a in axis_order if a != lhs_axis]
+            latex = discover_program_to_latex(program, notation=notation, **axes)
         except Exception as exc:  # pragma: no cover - dependent on program internals
             return VizResult(intent='equation', warnings=[f'Failed to convert program to LaTeX: {exc}'])
 
diff --git a/kd/viz/discover_eq2latex.py b/kd/viz/discover_eq2latex.py
index 68df6ee..7c76082 100644
--- a/kd/viz/discover_eq2latex.py
+++ b/kd/viz/discover_eq2latex.py
@@ -75,20 +75,26 @@ def _parse_term(sympy_expr_str: str, symbols: dict) -> sympy.Basic:
 class _SubscriptLatexPrinter(LatexPrinter):
     """Render Derivative(u, x, x) as u_{xx} instead of Leibniz notation."""
 
+    def __init__(self, settings=None, *, axis_names=None):
+        super().__init__(settings)
+        self._display = dict(_SYMBOL_DISPLAY)
+        for i, name in enumerate(axis_names or (), start=1):
+            self._display[f"x{i}"] = name
+
     def _print_Derivative(self, expr):
         func = expr.args[0]
         if isinstance(func, sympy.Symbol):
             func_name = self._print(func)
         elif hasattr(func, 'func') and hasattr(func.func, 'name'):
             # Applied function like u1(x1, x2): func.func has .name
-            func_name = _SYMBOL_DISPLAY.get(func.func.name, func.func.name)
+            func_name = self._display.get(func.func.name, func.func.name)
         else:
             # Compound expression (Pow, Mul, Add, etc.): render via printer
             func_name = "(" + self._print(func) + ")"
 
         subscript_parts = []
         for var, count in expr.variable_count:
-            var_name = _SYMBOL_DISPLAY.get(var.name, var.name)
+            var_name = self._display.get(var.name, var.name)
             subscript_parts.append(var_name * count)
 
         subscript = "".join(subscript_parts)
@@ -99,7 +105,7 @@ class _SubscriptLatexPrinter(LatexPrinter):
 
     def _print_Symbol(self, expr):
         name = expr.name
-        return _SYMBOL_DISPLAY.get(name, super()._print_Symbol(expr))
+        return self._display.get(name, super()._print_Symbol(expr))
 
 
 class _LeibnizLatexPrinter(LatexPrinter):
@@ -197,6 +203,7 @@ def _discover_term_node_to_latex_expanded(
     local_sympy_symbols=None,
     *,
     notation: str = "subscript",
+    axis_names=None,
 ) -> tuple:
     """Like ``_discover_term_node_to_latex`` but also expands first-order
     compound derivatives, returning ``(numeric_factor, latex_string)``.
@@ -213,7 +220,7 @@ def _discover_term_node_to_latex_expanded(
     factor, expanded = _expand_first_order_compound_derivatives(parsed)
 
     if notation == "subscript":
-        latex_output = _SubscriptLatexPrinter().doprint(expanded)
+        latex_output = _SubscriptLatexPrinter(axis_names=axis_names).doprint(expanded)
     else:
         latex_output = _LeibnizLatexPrinter().doprint(expanded)
 
@@ -234,7 +241,7 @@ def _factor_latex(expr: sympy.Basic, latex: str) -> str:
 
 
 # Node -> LaTeX
-def _discover_term_node_to_latex(term_node_obj, local_sympy_symbols=None, *, notation="subscript"):
+def _discover_term_node_to_latex(term_node_obj, local_sympy_symbols=None, *, notation="subscript", axis_names=None):
     if local_sympy_symbols is None:
         if notation == "leibniz":
             local_sympy_symbols = _LEIBNIZ_SYMBOLS_FOR_SYMPY
@@ -254,7 +261,7 @@ def _discover_term_node_to_latex(term_node_obj, local_sympy_symbols=None, *, not
             logger.debug("Parsed SymPy expression: %s", parsed_sympy_expr)
 
         if notation == "subscript":
-            latex_output = _SubscriptLatexPrinter().doprint(parsed_sympy_expr)
+            latex_output = _SubscriptLatexPrinter(axis_names=axis_names).doprint(parsed_sympy_expr)
         else:
             latex_output = _LeibnizLatexPrinter().doprint(parsed_sympy_expr)
         return _factor_latex(parsed_sympy_expr, latex_output)
@@ -278,7 +285,8 @@ def discover_program_to_latex(program_object, # lhs_name_str,
                             custom_deeprl_symbols=None,
                             lhs_axis: Optional[str] = None,
                             notation: str = "subscript",
-                            expand_derivatives: bool = True):
+                            expand_derivatives: bool = True,
+                            axis_names=None):
     """
     Convert a Program object to a full LaTeX equation string.
 
@@ -287,6 +295,9 @@ def discover_program_to_latex(program_object, # lhs_name_str,
     lhs_axis : str, optional
         Axis name for the LHS derivative (e.g. 't', 'x', 'y').
         Defaults to 't' → ``u_t``.
+    axis_names : sequence of str, optional
+        Display names of the coordinates x1, x2, x3 in subscript notation.
+        Defaults to x, y, z.
     """
     if notation not in _VALID_NOTATIONS:
         raise ValueError(f"notation must be one of {_VALID_NOTATIONS}, got {notation!r}")
@@ -351,6 +362,7 @@ def discover_program_to_latex(program_object, # lhs_name_str,
                 term_node,
                 local_sympy_symbols=current_sympy_symbols,
                 notation=notation,
+                axis_names=axis_names,
             )
             coeff_val *= float(factor)
         else:
@@ -358,6 +370,7 @@ def discover_program_to_latex(program_object, # lhs_name_str,
                 term_node,
                 local_sympy_symbols=current_sympy_symbols,
                 notation=notation,
+                axis_names=axis_names,
             )
 
         if DEBUG_RENDERER_MODE and "\\text{Error" in base_term_latex:
-- 
2.43.0


From 761671af40dc593c02a2ae7ea22cffbf345679dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:42 +0000
Subject: [PATCH 41/74] fix: the mesh of a dataset ignored its axis order, so
 its rows did not belong to the entries of the field

---
 kd/dataset/_base.py | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/kd/dataset/_base.py b/kd/dataset/_base.py
index c0c10f8..68ae962 100644
--- a/kd/dataset/_base.py
+++ b/kd/dataset/_base.py
@@ -555,19 +555,34 @@ class PDEDataset(MetaData):
 
         return sampled_points, sampled_usol.reshape(-1, 1)
     
+    def _grid_axes(self) -> List[Tuple[str, np.ndarray]]:
+        """(name, coordinates) of every array axis, in the order of the array."""
+        if self.coords_1d is not None:
+            return [(axis, self.coords_1d[axis]) for axis in self.axis_order]
+        return [('x', self.x), ('t', self.t)]
+
+    def _stack_points(self, columns: List[np.ndarray]) -> np.ndarray:
+        """Stack per-axis coordinates to rows (x, ..., t): the time axis comes last."""
+        names = [name for name, _ in self._grid_axes()]
+        order = sorted(range(len(names)), key=lambda i: names[i] == 't')
+        return np.column_stack([columns[i] for i in order])
+
     def mesh(self, indexing='ij') -> np.ndarray:
         """
         Returns a 2D coordinate grid where each row is a combination of (x, t).
         Equivalent to np.meshgrid(x, t) but flattened into a 2D array.
 
-        :return: A 2D array of shape (len(x) * len(t), 2) where each row is (x, t).
+        With the default indexing, row k belongs to entry k of the flattened
+        solution array, whatever the order of its axes.
+
+        :return: A 2D array of shape (len(x) * len(t), 2) where each row is (x, t)
+            (one column per axis for N-D data, the time axis last).
         """
-        X, T = np.meshgrid(self.x, self.t, indexing=indexing)
-        return np.column_stack([X.ravel(), T.ravel()])
+        grids = np.meshgrid(*[coords for _, coords in self._grid_axes()], indexing=indexing)
+        return self._stack_points([grid.ravel() for grid in grids])
 
     def mesh_bounds(self, indexing='ij') -> np.ndarray:
-        X, T = np.meshgrid(self.x, self.t, indexing=indexing)
-        mesh_data = np.column_stack([X.ravel(), T.ravel()])
+        mesh_data = self.mesh(indexing=indexing)
         return mesh_data.min(0), mesh_data.max(0)
     
     def get_boundaries(self) -> Dict[str, Tuple[float, float]]:
-- 
2.43.0


From a2b4a462588d95f2d4769eb9422dc0e353652681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:42 +0000
Subject: [PATCH 42/74] fix: the derivative accessor of a dataset ignored the
 grid spacing and the axis order

---
 kd/dataset/_base.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/kd/dataset/_base.py b/kd/dataset/_base.py
index 68ae962..36678f8 100644
--- a/kd/dataset/_base.py
+++ b/kd/dataset/_base.py
@@ -608,15 +608,14 @@ class PDEDataset(MetaData):
         """
         Computes the derivative of `usol` along the spatial or temporal axis.
 
-        :param axis: Direction of differentiation ('x' or 't').
+        :param axis: Direction of differentiation ('x', 't' or another axis of N-D data).
         :return: The computed derivative array.
         """
-        if axis == 'x':
-            return np.gradient(self.usol, axis=0)
-        elif axis == 't':
-            return np.gradient(self.usol, axis=1)
-        else:
-            raise ValueError("Invalid axis name, must be 'x' or 't'.")
+        for i, (name, coords) in enumerate(self._grid_axes()):
+            if name == axis:
+                return np.gradient(self.usol, coords, axis=i)
+        names = [name for name, _ in self._grid_axes()]
+        raise ValueError(f"Invalid axis name, must be one of {names}.")
 
     def get_range(self, x_range: Tuple[float, float], t_range: Tuple[float, float]) -> Dict[str, np.ndarray]:
         """
-- 
2.43.0


From 0592fb2c001eff0d330511851d0341e4519a2e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:42 +0000
Subject: [PATCH 43/74] fix: range and point access of a dataset ignored the
 axis order, and ranges lost their upper end

---
 kd/dataset/_base.py | 30 +++++++++++++++++++++---------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/kd/dataset/_base.py b/kd/dataset/_base.py
index 36678f8..b469a9d 100644
--- a/kd/dataset/_base.py
+++ b/kd/dataset/_base.py
@@ -494,9 +494,13 @@ class PDEDataset(MetaData):
         :param t_id: Index in the temporal dimension.
         :return: A tuple (x, t, usol) representing the coordinates and solution.
         """
+        index = {'x': x_id, 't': t_id}
+        names = [name for name, _ in self._grid_axes()]
+        if sorted(names) != ['t', 'x']:
+            raise ValueError("get_datapoint requires exactly the axes 'x' and 't'.")
         if not (0 <= x_id < len(self.x)) or not (0 <= t_id < len(self.t)):
             raise IndexError("Index out of range.")
-        return self.x[x_id], self.t[t_id], self.usol[x_id, t_id]
+        return self.x[x_id], self.t[t_id], self.usol[tuple(index[name] for name in names)]
 
     def get_data(self) -> Dict[str, Any]:
         """
@@ -621,16 +625,24 @@ class PDEDataset(MetaData):
         """
         Retrieves subsets of x, t, and the corresponding solution within the specified range.
 
-        :param x_range: Tuple representing the range of x values (min_x, max_x).
-        :param t_range: Tuple representing the range of t values (min_t, max_t).
+        :param x_range: Tuple representing the range of x values (min_x, max_x), both included.
+        :param t_range: Tuple representing the range of t values (min_t, max_t), both included.
         :return: A dictionary containing subsets of x, t, and usol.
         """
-        x_start, x_end = np.searchsorted(self.x, [x_range[0], x_range[1]])
-        t_start, t_end = np.searchsorted(self.t, [t_range[0], t_range[1]])
-
-        return {'x': self.x[x_start:x_end], 
-                't': self.t[t_start:t_end], 
-                'usol': self.usol[x_start:x_end, t_start:t_end]}
+        ranges = {'x': x_range, 't': t_range}
+        result = {}
+        usol = self.usol
+        for i, (name, coords) in enumerate(self._grid_axes()):
+            if name not in ranges:
+                continue
+            low, high = ranges[name]
+            inside = np.flatnonzero((coords >= low) & (coords <= high))
+            usol = np.take(usol, inside, axis=i)
+            result[name] = coords[inside]
+        if len(result) < len(ranges):
+            raise ValueError("get_range requires the axes 'x' and 't'.")
+        result['usol'] = usol
+        return result
 
     def get_size(self) -> Tuple[int, int]:
         """ Returns the dimensions of the solution array (x dimension, t dimension). """
-- 
2.43.0


From cdd88f93fe618f9d1ca03c35f703d8920c880679 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:42 +0000
Subject: [PATCH 44/74] fix: loaders transposed fields on square grids that
 were already in (x, t) order

---
 kd/dataset/__init__.py | 6 +++---
 kd/dataset/_base.py    | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/kd/dataset/__init__.py b/kd/dataset/__init__.py
index fb47d36..7608e1b 100644
--- a/kd/dataset/__init__.py
+++ b/kd/dataset/__init__.py
@@ -49,7 +49,7 @@ def load_pde(name: str, **kwargs) -> PDEDataset:
         x = np.asarray(np.load(data_path / info['files']['x']), dtype=float).flatten()
         t = np.asarray(np.load(data_path / info['files']['t']), dtype=float).flatten()
 
-        if u.shape == (len(t), len(x)):
+        if u.shape != (len(x), len(t)) and u.shape == (len(t), len(x)):
             u = u.T
 
         dataset = PDEDataset(
@@ -69,9 +69,9 @@ def load_pde(name: str, **kwargs) -> PDEDataset:
         target_shape = info.get('shape')
         if target_shape:
             # 数据文件有时是 (nt, nx)，因此需要在匹配时考虑转置
-            if data.shape == tuple(reversed(target_shape)):
+            if data.shape != tuple(target_shape) and data.shape == tuple(reversed(target_shape)):
                 data = data.T
-            elif data.shape != target_shape:
+            elif data.shape != tuple(target_shape):
                 data = data.reshape(target_shape)
         shape = data.shape
 
diff --git a/kd/dataset/_base.py b/kd/dataset/_base.py
index b469a9d..75b1514 100644
--- a/kd/dataset/_base.py
+++ b/kd/dataset/_base.py
@@ -770,7 +770,7 @@ def load_pde_dataset(
         u_data = np.asarray(pde_data[u_key])
 
         # 确保 u_data 的形状与 (len(x), len(t)) 对齐
-        if u_data.shape == (len(t_data), len(x_data)):
+        if u_data.shape != (len(x_data), len(t_data)) and u_data.shape == (len(t_data), len(x_data)):
             u_data = u_data.T
 
         # 4. 将所有信息送入 PDEDataset 进行标准化封装
-- 
2.43.0


From 7fa32af17139d4369d342a5cfdc0301eee8b7c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:51 +0000
Subject: [PATCH 45/74] fix: uniform and spline sampling returned another
 number of points and paired spline points with the values of other points

---
 kd/dataset/_base.py | 62 +++++++++++++++++++++++++++++----------------
 1 file changed, 40 insertions(+), 22 deletions(-)

diff --git a/kd/dataset/_base.py b/kd/dataset/_base.py
index 75b1514..4046701 100644
--- a/kd/dataset/_base.py
+++ b/kd/dataset/_base.py
@@ -13,7 +13,7 @@ from pathlib import Path
 from importlib import resources
 from abc import ABC, abstractmethod
 from ._info import DatasetInfo
-from scipy.interpolate import interp2d
+from scipy.interpolate import RectBivariateSpline
 
 
 DATA_MODULE = "kd.dataset.data"
@@ -518,7 +518,9 @@ class PDEDataset(MetaData):
                 - sampled_points is an array of shape (n, 2) with (x, t) pairs
                 - sampled_usol is an array of shape (n,) with corresponding solution values
         """
-        total_points = len(self.x) * len(self.t)
+        axes = [coords for _, coords in self._grid_axes()]
+        shape = self.usol.shape
+        total_points = self.usol.size
         
         # Convert ratio to absolute count if n_samples is a float < 1
         if isinstance(n_samples, float) and 0 < n_samples < 1:
@@ -529,30 +531,36 @@ class PDEDataset(MetaData):
 
         if method == 'random':
             indices = np.random.choice(total_points, n_samples, replace=False)
-            x_samples, t_samples = np.unravel_index(indices, self.usol.shape)
-            sampled_points = np.column_stack((self.x[x_samples], self.t[t_samples]))
-            sampled_usol = self.usol[x_samples, t_samples]
+            samples = np.unravel_index(indices, shape)
+            sampled_points = self._stack_points([c[i] for c, i in zip(axes, samples)])
+            sampled_usol = self.usol[samples]
 
         elif method == 'uniform':
-            grid_size = int(np.sqrt(n_samples))
-            x_indices = np.linspace(0, len(self.x) - 1, grid_size, dtype=int)
-            t_indices = np.linspace(0, len(self.t) - 1, grid_size, dtype=int)
-            x_samples, t_samples = np.meshgrid(x_indices, t_indices)
-            sampled_points = np.column_stack((
-                self.x[x_samples.flatten()],
-                self.t[t_samples.flatten()]
-            ))
-            sampled_usol = self.usol[x_samples.flatten(), t_samples.flatten()]
+            sizes = self._sample_grid(n_samples, shape)
+            pick = np.linspace(0, np.prod(sizes) - 1, n_samples, dtype=int)
+            samples = tuple(
+                np.linspace(0, n - 1, size, dtype=int)[i]
+                for n, size, i in zip(shape, sizes, np.unravel_index(pick, sizes, order='F'))
+            )
+            sampled_points = self._stack_points([c[i] for c, i in zip(axes, samples)])
+            sampled_usol = self.usol[samples]
 
         elif method == 'spline':
-            grid_size = int(np.sqrt(n_samples))
-            x_new = np.linspace(self.x.min(), self.x.max(), grid_size)
-            t_new = np.linspace(self.t.min(), self.t.max(), grid_size)
-            spline = interp2d(self.t, self.x, self.usol, kind='cubic')
-            usol_new = spline(t_new, x_new)
-            x_samples, t_samples = np.meshgrid(x_new, t_new)
-            sampled_points = np.column_stack((x_samples.flatten(), t_samples.flatten()))
-            sampled_usol = usol_new.flatten()
+            if len(axes) != 2:
+                raise ValueError("Spline sampling requires a two-dimensional dataset.")
+            sizes = self._sample_grid(n_samples, (n_samples, n_samples))
+            pick = np.linspace(0, np.prod(sizes) - 1, n_samples, dtype=int)
+            new = [
+                np.linspace(c.min(), c.max(), size)[i]
+                for c, size, i in zip(axes, sizes, np.unravel_index(pick, sizes, order='F'))
+            ]
+            order = [np.argsort(c) for c in axes]
+            spline = RectBivariateSpline(
+                axes[0][order[0]], axes[1][order[1]], self.usol[np.ix_(*order)],
+                kx=min(3, shape[0] - 1), ky=min(3, shape[1] - 1),
+            )
+            sampled_points = self._stack_points(new)
+            sampled_usol = spline.ev(*new)
 
         else:
             raise ValueError(f"Unsupported sampling method: {method}")
@@ -565,6 +573,16 @@ class PDEDataset(MetaData):
             return [(axis, self.coords_1d[axis]) for axis in self.axis_order]
         return [('x', self.x), ('t', self.t)]
 
+    @staticmethod
+    def _sample_grid(n_samples: int, limits: Tuple[int, ...]) -> Tuple[int, ...]:
+        """Sizes of an even sub-grid with at least n_samples points."""
+        sizes = [1] * len(limits)
+        while np.prod(sizes) < n_samples:
+            # Grow the coarsest axis that still has grid points left.
+            free = [i for i in range(len(limits)) if sizes[i] < limits[i]]
+            sizes[min(free, key=lambda i: sizes[i])] += 1
+        return tuple(sizes)
+
     def _stack_points(self, columns: List[np.ndarray]) -> np.ndarray:
         """Stack per-axis coordinates to rows (x, ..., t): the time axis comes last."""
         names = [name for name, _ in self._grid_axes()]
-- 
2.43.0


From e0cc1d0dd6e75c56a7ebd3ed69e30952176847ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:21 +0000
Subject: [PATCH 46/74] fix: grid checks of the regular adapter depended on the
 unit of the coordinates and let non-finite coordinates pass

---
 kd/model/discover/adapter.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/kd/model/discover/adapter.py b/kd/model/discover/adapter.py
index e575401..0b6b4a2 100644
--- a/kd/model/discover/adapter.py
+++ b/kd/model/discover/adapter.py
@@ -77,6 +77,8 @@ class DiscoverRegularAdapter:
 
         if not np.all(np.isfinite(u)):
             raise ValueError("Input field u contains NaN or Inf values")
+        if not (np.all(np.isfinite(x)) and np.all(np.isfinite(t))):
+            raise ValueError("Coordinates contain NaN or Inf values")
 
         if t.size < 3:
             raise ValueError(
@@ -86,7 +88,7 @@ class DiscoverRegularAdapter:
 
         # Ensure evenly spaced time grid when requested.
         dt = np.diff(t)
-        if self.enforce_uniform_dt and not np.allclose(dt, dt[0]):
+        if self.enforce_uniform_dt and not np.allclose(dt, dt[0], atol=0.0):
             raise ValueError("Time grid must be evenly spaced for finite-difference evaluation")
         delta_t = float(dt[0])
         if delta_t == 0.0:
@@ -155,6 +157,8 @@ class DiscoverRegularAdapter:
 
         if not np.all(np.isfinite(u_raw)):
             raise ValueError("Input field u contains NaN or Inf values")
+        if not all(np.all(np.isfinite(c)) for c in coords_1d.values()):
+            raise ValueError("Coordinates contain NaN or Inf values")
 
         # Separate lhs (time) axis from spatial axes.
         if lhs_axis not in axis_order:
@@ -189,7 +193,8 @@ class DiscoverRegularAdapter:
                 )
             coord = coords_1d[axis_name]
             dx_vals = np.diff(coord)
-            if np.any(np.isclose(dx_vals, 0.0)):
+            # Relative to the grid itself: its unit of length is the user's choice.
+            if np.any(np.abs(dx_vals) <= 1e-8 * np.max(np.abs(dx_vals))):
                 raise ValueError(
                     f"Spatial axis '{axis_name}' has zero spacing "
                     f"between consecutive points"
@@ -205,7 +210,7 @@ class DiscoverRegularAdapter:
             )
 
         dt = np.diff(t_coord)
-        if self.enforce_uniform_dt and not np.allclose(dt, dt[0]):
+        if self.enforce_uniform_dt and not np.allclose(dt, dt[0], atol=0.0):
             raise ValueError(
                 f"Grid along '{lhs_axis}' must be evenly spaced "
                 "for finite-difference evaluation"
-- 
2.43.0


From 89c395e812b5d62d3cff01f93a591070d32879a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:44 +0000
Subject: [PATCH 47/74] fix: the EqGPT words uyyt and sint were computed with
 the columns of other variables

---
 kd/model/eqgpt/calculate_terms.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/kd/model/eqgpt/calculate_terms.py b/kd/model/eqgpt/calculate_terms.py
index 34bfc33..9b008e8 100644
--- a/kd/model/eqgpt/calculate_terms.py
+++ b/kd/model/eqgpt/calculate_terms.py
@@ -233,12 +233,12 @@ def calculate_terms(word,Net,database,variables,nx,nt):
     if word=='exp(x)':
         return torch.exp(database[:,x_index]).cpu().data.numpy()
     if word=='uyyt':
-        Hy = H_grad[:, 2].reshape(-1,1)
+        Hy = H_grad[:, y_index].reshape(-1,1)
         Hyy = torch.autograd.grad(outputs=Hy.sum(), inputs=database, create_graph=True)[0][:, y_index].reshape(-1, 1)
-        Hyyt=torch.autograd.grad(outputs=Hyy.sum(), inputs=database, create_graph=True)[0][:, x_index].reshape(-1, 1)
+        Hyyt=torch.autograd.grad(outputs=Hyy.sum(), inputs=database, create_graph=True)[0][:, t_index].reshape(-1, 1)
         return Hyyt.cpu().data.numpy()
     if word=='sint':
-        return torch.sin(database[:,x_index]).cpu().data.numpy()
+        return torch.sin(database[:,t_index]).cpu().data.numpy()
     if word=='sinx':
         return torch.sin(database[:, x_index]).cpu().data.numpy()
     if word=='(uxx+ux/x)^2':
@@ -515,12 +515,12 @@ def calculate_terms_PINN(word,Net,database,variables):
     if word=='exp(x)':
         return torch.exp(database[:,x_index])
     if word=='uyyt':
-        Hy = H_grad[:, 2].reshape(-1,1)
+        Hy = H_grad[:, y_index].reshape(-1,1)
         Hyy = torch.autograd.grad(outputs=Hy.sum(), inputs=database, create_graph=True)[0][:, y_index].reshape(-1, 1)
-        Hyyt=torch.autograd.grad(outputs=Hyy.sum(), inputs=database, create_graph=True)[0][:, x_index].reshape(-1, 1)
+        Hyyt=torch.autograd.grad(outputs=Hyy.sum(), inputs=database, create_graph=True)[0][:, t_index].reshape(-1, 1)
         return Hyyt
     if word=='sint':
-        return torch.sin(database[:,x_index])
+        return torch.sin(database[:,t_index])
     if word=='sinx':
         return torch.sin(database[:, x_index])
     if word=='(uxx+ux/x)^2':
-- 
2.43.0


From 2657ec790d7a46bc2d92c79a9f0c160a1d9a0246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:02 +0000
Subject: [PATCH 48/74] fix: the EqGPT words (u(u^2)xx)xx and (u^2)xx were
 computed as other expressions

---
 kd/model/eqgpt/calculate_terms.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/kd/model/eqgpt/calculate_terms.py b/kd/model/eqgpt/calculate_terms.py
index 9b008e8..7285ef7 100644
--- a/kd/model/eqgpt/calculate_terms.py
+++ b/kd/model/eqgpt/calculate_terms.py
@@ -54,7 +54,7 @@ def calculate_terms(word,Net,database,variables,nx,nt):
         Hxxxx = torch.autograd.grad(outputs=Hxxx.sum(), inputs=database, create_graph=True)[0][:, x_index]
         return Hxxxx.cpu().data.numpy()
     if word=='(u^2)xx':
-        H2x= torch.autograd.grad(outputs=(Hx**2).sum(), inputs=database, create_graph=True)[0][:, x_index].reshape(-1,1)
+        H2x= torch.autograd.grad(outputs=(u**2).sum(), inputs=database, create_graph=True)[0][:, x_index].reshape(-1,1)
         H2xx = torch.autograd.grad(outputs=H2x.sum(), inputs=database, create_graph=True)[0][:, x_index]
         return H2xx.cpu().data.numpy()
     if word=='(uux)x':
@@ -276,7 +276,7 @@ def calculate_terms(word,Net,database,variables,nx,nt):
         return result.cpu().data.numpy()
 
     if word=='(u(u^2)xx)xx':
-        temp = torch.autograd.grad(outputs=(u * Hx).sum(), inputs=database, create_graph=True)[0][:, x_index].reshape(-1, 1)
+        temp = torch.autograd.grad(outputs=(u ** 2).sum(), inputs=database, create_graph=True)[0][:, x_index].reshape(-1, 1)
         temp_1 = torch.autograd.grad(outputs=(temp).sum(), inputs=database, create_graph=True)[0][:, x_index].reshape(-1, 1)
         temp_2=torch.autograd.grad(outputs=(u*temp_1).sum(), inputs=database, create_graph=True)[0][:, x_index].reshape(-1, 1)
         result = torch.autograd.grad(outputs=(temp_2).sum(), inputs=database, create_graph=True)[0][:,x_index].reshape(-1, 1)
@@ -336,7 +336,7 @@ def calculate_terms_PINN(word,Net,database,variables):
         Hxxxx = torch.autograd.grad(outputs=Hxxx.sum(), inputs=database, create_graph=True)[0][:, x_index]
         return Hxxxx
     if word=='(u^2)xx':
-        H2x= torch.autograd.grad(outputs=(Hx**2).sum(), inputs=database, create_graph=True)[0][:, x_index].reshape(-1,1)
+        H2x= torch.autograd.grad(outputs=(u**2).sum(), inputs=database, create_graph=True)[0][:, x_index].reshape(-1,1)
         H2xx = torch.autograd.grad(outputs=H2x.sum(), inputs=database, create_graph=True)[0][:, x_index]
         return H2xx
     if word=='(uux)x':
@@ -558,7 +558,7 @@ def calculate_terms_PINN(word,Net,database,variables):
         return result
 
     if word=='(u(u^2)xx)xx':
-        temp = torch.autograd.grad(outputs=(u * Hx).sum(), inputs=database, create_graph=True)[0][:, x_index].reshape(-1, 1)
+        temp = torch.autograd.grad(outputs=(u ** 2).sum(), inputs=database, create_graph=True)[0][:, x_index].reshape(-1, 1)
         temp_1 = torch.autograd.grad(outputs=(temp).sum(), inputs=database, create_graph=True)[0][:, x_index].reshape(-1, 1)
         temp_2=torch.autograd.grad(outputs=(u*temp_1).sum(), inputs=database, create_graph=True)[0][:, x_index].reshape(-1, 1)
         result = torch.autograd.grad(outputs=(temp_2).sum(), inputs=database, create_graph=True)[0][:,x_index].reshape(-1, 1)
-- 
2.43.0


From 89d18a74cf08186db6c76b28b4dbf865c342ed7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:12 +0000
Subject: [PATCH 49/74] fix: the EqGPT word BiLaplace(u) left out the z
 derivatives of three-dimensional problems

---
 kd/model/eqgpt/calculate_terms.py | 72 +++++++++++++++----------------
 1 file changed, 36 insertions(+), 36 deletions(-)

diff --git a/kd/model/eqgpt/calculate_terms.py b/kd/model/eqgpt/calculate_terms.py
index 7285ef7..3a2297a 100644
--- a/kd/model/eqgpt/calculate_terms.py
+++ b/kd/model/eqgpt/calculate_terms.py
@@ -118,24 +118,24 @@ def calculate_terms(word,Net,database,variables,nx,nt):
         Hyy = torch.autograd.grad(outputs=Hy.sum(), inputs=database, create_graph=True)[0][:, y_index].reshape(-1, 1)
         Hyyy = torch.autograd.grad(outputs=Hyy.sum(), inputs=database, create_graph=True)[0][:, y_index].reshape(-1, 1)
         Hyyyy = torch.autograd.grad(outputs=Hyyy.sum(), inputs=database, create_graph=True)[0][:,y_index].reshape(-1, 1)
-        # if 'z' in variables:
-        #     Hz =H_grad[:, z_index].reshape(-1,1)
-        #     Hzz = torch.autograd.grad(outputs=Hz.sum(), inputs=database, create_graph=True)[0][:, z_index].reshape(-1, 1)
-        #     Hzzz = torch.autograd.grad(outputs=Hzz.sum(), inputs=database, create_graph=True)[0][:, z_index].reshape(-1, 1)
-        #     Hzzzz = torch.autograd.grad(outputs=Hzzz.sum(), inputs=database, create_graph=True)[0][:, z_index].reshape(-1, 1)
-        #     Hxxy=torch.autograd.grad(outputs=Hxx.sum(), inputs=database, create_graph=True)[0][:, y_index].reshape(-1, 1)
-        #     Hxxyy=torch.autograd.grad(outputs=Hxxy.sum(), inputs=database, create_graph=True)[0][:, y_index].reshape(-1, 1)
-        #     Hyyz= torch.autograd.grad(outputs=Hyy.sum(), inputs=database, create_graph=True)[0][:,  z_index].reshape(-1, 1)
-        #     Hyyzz= torch.autograd.grad(outputs=Hyyz.sum(), inputs=database, create_graph=True)[0][:,  z_index].reshape(-1, 1)
-        #     Hxxz=torch.autograd.grad(outputs=Hxx.sum(), inputs=database, create_graph=True)[0][:,  z_index].reshape(-1, 1)
-        #     Hxxzz=torch.autograd.grad(outputs=Hxxz.sum(), inputs=database, create_graph=True)[0][:,  z_index].reshape(-1, 1)
-        #     result=Hxxxx+Hyyyy+Hzzzz+2*Hxxyy+2*Hyyzz+2*Hxxzz
-        # else:
-        Hxxy = torch.autograd.grad(outputs=Hxx.sum(), inputs=database, create_graph=True)[0][:, y_index].reshape(-1,
-                                                                                                                 1)
-        Hxxyy = torch.autograd.grad(outputs=Hxxy.sum(), inputs=database, create_graph=True)[0][:, y_index].reshape(
-            -1, 1)
-        result = Hxxxx + Hyyyy + 2 * Hxxyy
+        if 'z' in variables:
+            Hz =H_grad[:, z_index].reshape(-1,1)
+            Hzz = torch.autograd.grad(outputs=Hz.sum(), inputs=database, create_graph=True)[0][:, z_index].reshape(-1, 1)
+            Hzzz = torch.autograd.grad(outputs=Hzz.sum(), inputs=database, create_graph=True)[0][:, z_index].reshape(-1, 1)
+            Hzzzz = torch.autograd.grad(outputs=Hzzz.sum(), inputs=database, create_graph=True)[0][:, z_index].reshape(-1, 1)
+            Hxxy=torch.autograd.grad(outputs=Hxx.sum(), inputs=database, create_graph=True)[0][:, y_index].reshape(-1, 1)
+            Hxxyy=torch.autograd.grad(outputs=Hxxy.sum(), inputs=database, create_graph=True)[0][:, y_index].reshape(-1, 1)
+            Hyyz= torch.autograd.grad(outputs=Hyy.sum(), inputs=database, create_graph=True)[0][:,  z_index].reshape(-1, 1)
+            Hyyzz= torch.autograd.grad(outputs=Hyyz.sum(), inputs=database, create_graph=True)[0][:,  z_index].reshape(-1, 1)
+            Hxxz=torch.autograd.grad(outputs=Hxx.sum(), inputs=database, create_graph=True)[0][:,  z_index].reshape(-1, 1)
+            Hxxzz=torch.autograd.grad(outputs=Hxxz.sum(), inputs=database, create_graph=True)[0][:,  z_index].reshape(-1, 1)
+            result=Hxxxx+Hyyyy+Hzzzz+2*Hxxyy+2*Hyyzz+2*Hxxzz
+        else:
+            Hxxy = torch.autograd.grad(outputs=Hxx.sum(), inputs=database, create_graph=True)[0][:, y_index].reshape(-1,
+                                                                                                                     1)
+            Hxxyy = torch.autograd.grad(outputs=Hxxy.sum(), inputs=database, create_graph=True)[0][:, y_index].reshape(
+                -1, 1)
+            result = Hxxxx + Hyyyy + 2 * Hxxyy
         del Hxxxx
         del Hyyyy
         del Hxxyy
@@ -400,24 +400,24 @@ def calculate_terms_PINN(word,Net,database,variables):
         Hyy = torch.autograd.grad(outputs=Hy.sum(), inputs=database, create_graph=True)[0][:, y_index].reshape(-1, 1)
         Hyyy = torch.autograd.grad(outputs=Hyy.sum(), inputs=database, create_graph=True)[0][:, y_index].reshape(-1, 1)
         Hyyyy = torch.autograd.grad(outputs=Hyyy.sum(), inputs=database, create_graph=True)[0][:,y_index].reshape(-1, 1)
-        # if 'z' in variables:
-        #     Hz =H_grad[:, z_index].reshape(-1,1)
-        #     Hzz = torch.autograd.grad(outputs=Hz.sum(), inputs=database, create_graph=True)[0][:, z_index].reshape(-1, 1)
-        #     Hzzz = torch.autograd.grad(outputs=Hzz.sum(), inputs=database, create_graph=True)[0][:, z_index].reshape(-1, 1)
-        #     Hzzzz = torch.autograd.grad(outputs=Hzzz.sum(), inputs=database, create_graph=True)[0][:, z_index].reshape(-1, 1)
-        #     Hxxy=torch.autograd.grad(outputs=Hxx.sum(), inputs=database, create_graph=True)[0][:, y_index].reshape(-1, 1)
-        #     Hxxyy=torch.autograd.grad(outputs=Hxxy.sum(), inputs=database, create_graph=True)[0][:, y_index].reshape(-1, 1)
-        #     Hyyz= torch.autograd.grad(outputs=Hyy.sum(), inputs=database, create_graph=True)[0][:,  z_index].reshape(-1, 1)
-        #     Hyyzz= torch.autograd.grad(outputs=Hyyz.sum(), inputs=database, create_graph=True)[0][:,  z_index].reshape(-1, 1)
-        #     Hxxz=torch.autograd.grad(outputs=Hxx.sum(), inputs=database, create_graph=True)[0][:,  z_index].reshape(-1, 1)
-        #     Hxxzz=torch.autograd.grad(outputs=Hxxz.sum(), inputs=database, create_graph=True)[0][:,  z_index].reshape(-1, 1)
-        #     result=Hxxxx+Hyyyy+Hzzzz+2*Hxxyy+2*Hyyzz+2*Hxxzz
-        # else:
-        Hxxy = torch.autograd.grad(outputs=Hxx.sum(), inputs=database, create_graph=True)[0][:, y_index].reshape(-1,
-                                                                                                                 1)
-        Hxxyy = torch.autograd.grad(outputs=Hxxy.sum(), inputs=database, create_graph=True)[0][:, y_index].reshape(
-            -1, 1)
-        result = Hxxxx + Hyyyy + 2 * Hxxyy
+        if 'z' in variables:
+            Hz =H_grad[:, z_index].reshape(-1,1)
+            Hzz = torch.autograd.grad(outputs=Hz.sum(), inputs=database, create_graph=True)[0][:, z_index].reshape(-1, 1)
+            Hzzz = torch.autograd.grad(outputs=Hzz.sum(), inputs=database, create_graph=True)[0][:, z_index].reshape(-1, 1)
+            Hzzzz = torch.autograd.grad(outputs=Hzzz.sum(), inputs=database, create_graph=True)[0][:, z_index].reshape(-1, 1)
+            Hxxy=torch.autograd.grad(outputs=Hxx.sum(), inputs=database, create_graph=True)[0][:, y_index].reshape(-1, 1)
+            Hxxyy=torch.autograd.grad(outputs=Hxxy.sum(), inputs=database, create_graph=True)[0][:, y_index].reshape(-1, 1)
+            Hyyz= torch.autograd.grad(outputs=Hyy.sum(), inputs=database, create_graph=True)[0][:,  z_index].reshape(-1, 1)
+            Hyyzz= torch.autograd.grad(outputs=Hyyz.sum(), inputs=database, create_graph=True)[0][:,  z_index].reshape(-1, 1)
+            Hxxz=torch.autograd.grad(outputs=Hxx.sum(), inputs=database, create_graph=True)[0][:,  z_index].reshape(-1, 1)
+            Hxxzz=torch.autograd.grad(outputs=Hxxz.sum(), inputs=database, create_graph=True)[0][:,  z_index].reshape(-1, 1)
+            result=Hxxxx+Hyyyy+Hzzzz+2*Hxxyy+2*Hyyzz+2*Hxxzz
+        else:
+            Hxxy = torch.autograd.grad(outputs=Hxx.sum(), inputs=database, create_graph=True)[0][:, y_index].reshape(-1,
+                                                                                                                     1)
+            Hxxyy = torch.autograd.grad(outputs=Hxxy.sum(), inputs=database, create_graph=True)[0][:, y_index].reshape(
+                -1, 1)
+            result = Hxxxx + Hyyyy + 2 * Hxxyy
         del Hxxxx
         del Hyyyy
         del Hxxyy
-- 
2.43.0


From af5cf48b270d47a47433e5e42987942fb3147021 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:43:12 +0000
Subject: [PATCH 50/74] fix: the coefficients of an EqGPT sentence could not be
 computed (calculate_terms without grid sizes)

---
 kd/model/eqgpt/calculate_terms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kd/model/eqgpt/calculate_terms.py b/kd/model/eqgpt/calculate_terms.py
index 3a2297a..e7a642d 100644
--- a/kd/model/eqgpt/calculate_terms.py
+++ b/kd/model/eqgpt/calculate_terms.py
@@ -10,7 +10,7 @@ id2word= dict_datas["id2word"]
 
 #print(id2word)
 
-def calculate_terms(word,Net,database,variables,nx,nt):
+def calculate_terms(word,Net,database,variables,nx=None,nt=None):
     if 'x' in variables:
         x_index=variables.index('x')
     if 't' in variables:
-- 
2.43.0


From 4042b997c4253dc7a6459b29a534371394fd1640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:08 +0000
Subject: [PATCH 51/74] fix: EqGPT removed quotients as repetitions of products
 of the same words

---
 kd/model/eqgpt/continue_train_GPT_all.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/kd/model/eqgpt/continue_train_GPT_all.py b/kd/model/eqgpt/continue_train_GPT_all.py
index e7a856b..629130f 100644
--- a/kd/model/eqgpt/continue_train_GPT_all.py
+++ b/kd/model/eqgpt/continue_train_GPT_all.py
@@ -187,8 +187,10 @@ def delete_duplicate(sentence):
     no_duplicate=[]
     true_duplicate=[]
     for sentence in all_sentence:
-        if sorted(sentence[::2]) not in no_duplicate:
-            no_duplicate.append(sorted(sentence[::2]))
+        # words of the term, each with the operator that joins it (the first is multiplied)
+        factors=sorted(zip([3]+sentence[1::2],sentence[::2]))
+        if factors not in no_duplicate:
+            no_duplicate.append(factors)
             true_duplicate.append(sentence)
     concise_sentence=[]
     for sentence in true_duplicate:
-- 
2.43.0


From f9dd3b38dd640e9c9292ad6742ab415c10b06ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:09 +0000
Subject: [PATCH 52/74] fix: removing repeated terms cut the end mark off the
 sentence it was given

---
 kd/model/eqgpt/continue_train_GPT_all.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/kd/model/eqgpt/continue_train_GPT_all.py b/kd/model/eqgpt/continue_train_GPT_all.py
index 629130f..47e8476 100644
--- a/kd/model/eqgpt/continue_train_GPT_all.py
+++ b/kd/model/eqgpt/continue_train_GPT_all.py
@@ -176,7 +176,7 @@ def delete_duplicate(sentence):
     all_sentence=[]
     temp_sentence=[]
     if sentence[-1]==1:
-        sentence.pop(-1)
+        sentence=sentence[:-1]
     for word in sentence:
         if word!=2:
             temp_sentence.append(word)
-- 
2.43.0


From b072ce6c8c8e705fb5de61b9861afb0f2fbad381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:09 +0000
Subject: [PATCH 53/74] fix: EqGPT sentences that cannot be evaluated got a
 reward of nan and headed the leader board

---
 kd/model/eqgpt/continue_train_GPT_all.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/kd/model/eqgpt/continue_train_GPT_all.py b/kd/model/eqgpt/continue_train_GPT_all.py
index 47e8476..23ae700 100644
--- a/kd/model/eqgpt/continue_train_GPT_all.py
+++ b/kd/model/eqgpt/continue_train_GPT_all.py
@@ -313,7 +313,9 @@ def calculate_reward(ulti_sentence,all_Net,all_database,words2value,mask_invalid
                     reward=0
         #print(all_reward)
         # plot_reward(all_reward,'L')  # disabled: called per candidate, too slow
-        reward=np.mean(np.array(all_reward))
+        reward=np.mean(np.array(all_reward)) if len(all_reward)>0 else 0
+        if not np.isfinite(reward):
+            reward=0
     if ({word2id['u'], word2id['sin(u)']}.issubset(terms)
             or {word2id['u'], word2id['sinh(u)']}.issubset(terms)
             or {word2id['sin(u)'], word2id['sinh(u)']}.issubset(terms)
-- 
2.43.0


From c81dd5b09011492e8c29619b9a05dc4aa3c81fe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:09 +0000
Subject: [PATCH 54/74] fix: the EqGPT leader board never grew beyond the first
 epoch when that had fewer than ten distinct equations

---
 kd/model/kd_eqgpt.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/kd/model/kd_eqgpt.py b/kd/model/kd_eqgpt.py
index 1170237..267ceed 100644
--- a/kd/model/kd_eqgpt.py
+++ b/kd/model/kd_eqgpt.py
@@ -475,15 +475,16 @@ class KD_EqGPT:
             potential_text = all_sentence[second_index[p_idx]]
             array = np.asarray(best_award)
             idx_arr = np.where((array - potential_award) < 0)[0]
-            if len(idx_arr) == 0:
+            if len(idx_arr) == 0 and len(best_award) >= 10:
                 continue
             if np.isin(potential_award, array):
                 continue
-            ins_idx = idx_arr[0]
+            ins_idx = idx_arr[0] if len(idx_arr) else len(best_award)
             best_sentence.insert(ins_idx, potential_text)
             best_award.insert(ins_idx, potential_award)
-            best_sentence.pop(-1)
-            best_award.pop(-1)
+            if len(best_award) > 10:
+                best_sentence.pop(-1)
+                best_award.pop(-1)
 
         return best_award, best_sentence
 
-- 
2.43.0


From 10480868095f4efaeceb608abe41939e74eb788d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:49 +0000
Subject: [PATCH 55/74] fix: set_params changed parameters before it rejected
 an unknown name

---
 kd/base.py | 41 +++++++++++++++++++++++++++++------------
 1 file changed, 29 insertions(+), 12 deletions(-)

diff --git a/kd/base.py b/kd/base.py
index eb9bd5c..71043ca 100644
--- a/kd/base.py
+++ b/kd/base.py
@@ -63,24 +63,41 @@ class BaseEstimator:
         """
         if not params:
             return self
-        valid_params = self.get_params(deep=True)
+        # All names are checked before anything is changed.
+        own_params, nested_params = self._split_params(self, params)
         
-        nested_params = defaultdict(dict)
-        for key, value in params.items():
-            key, delim, sub_key = key.partition("__")
+        for key, value in own_params.items():
+            setattr(self, key, value)
+        
+        for key, sub_params in nested_params.items():
+            getattr(self, key).set_params(**sub_params)
+        
+        return self
+
+    @staticmethod
+    def _split_params(estimator, params):
+        """Split params into the estimator's own and those of its nested estimators.
+
+        Raises:
+            ValueError: If a name is unknown, at any level.
+        """
+        valid_params = estimator.get_params(deep=False)
+        own_params, nested_params = {}, defaultdict(dict)
+        for name, value in params.items():
+            key, delim, sub_key = name.partition("__")
             if key not in valid_params:
-                raise ValueError(f"Invalid parameter {key} for {self}.")
-            
+                raise ValueError(f"Invalid parameter {key} for {estimator}.")
             if delim:
                 nested_params[key][sub_key] = value
             else:
-                setattr(self, key, value)
-                valid_params[key] = value
-        
+                own_params[key] = value
+
         for key, sub_params in nested_params.items():
-            valid_params[key].set_params(**sub_params)
-        
-        return self
+            nested = own_params.get(key, valid_params[key])
+            if not hasattr(nested, "set_params") or isinstance(nested, type):
+                raise ValueError(f"Parameter {key} of {estimator} has no parameters.")
+            BaseEstimator._split_params(nested, sub_params)
+        return own_params, nested_params
 
     @classmethod
     def _get_param_names(cls):
-- 
2.43.0


From 014d0b245a5d227145416c6d0bf39a12469e7945 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:49 +0000
Subject: [PATCH 56/74] fix: the discover models could not report their
 parameters

---
 kd/model/kd_discover.py            | 37 ++++++++++++++++++++++--------
 kd/model/kd_discover_regression.py | 18 +++++++++++++--
 2 files changed, 43 insertions(+), 12 deletions(-)

diff --git a/kd/model/kd_discover.py b/kd/model/kd_discover.py
index 840f7a3..5089ac0 100644
--- a/kd/model/kd_discover.py
+++ b/kd/model/kd_discover.py
@@ -95,8 +95,11 @@ class KD_Discover(BaseRL):
         """
         self.n_iterations = n_iterations
         self.n_samples_per_batch = n_samples_per_batch
-        self.operator = binary_operators + unary_operators
+        self.binary_operators = list(binary_operators)
+        self.unary_operators = list(unary_operators)
+        self.operator = self.binary_operators + self.unary_operators
         self.out_path = out_path
+        self.config_out = config_out
          
         self.dataset = None
         self.seed = seed
@@ -104,6 +107,15 @@ class KD_Discover(BaseRL):
         self.base_config_file = "./discover/config/config_pde.json"
         self.set_config(config_out)
 
+    def set_params(self, **params):
+        """Set the parameters of this estimator; the operator set and the configuration follow."""
+        super().set_params(**params)
+        if 'binary_operators' in params or 'unary_operators' in params:
+            self.operator = list(self.binary_operators) + list(self.unary_operators)
+        if 'config_out' in params:
+            self.set_config(self.config_out)
+        return self
+
     def setup(self):
         """Setup model components.
         
@@ -473,16 +485,21 @@ class KD_Discover_SPR(KD_Discover):
     equation discovery in sparse data settings.
     """
 
-    def __init__(self, *args, config_out=None, **kwargs):
-        """Initialize KD_Discover_SPR model.
-
-        Args:
-            *args: Positional arguments for KD_Discover.
-            config_out: Optional output configuration.
-            **kwargs: Keyword arguments for KD_Discover.
-        """
-        super().__init__(*args, config_out=None, **kwargs)
+    def __init__(self,
+        n_iterations=100,
+        n_samples_per_batch=100,
+        binary_operators=[],
+        unary_operators=[],
+        out_path='./log/',
+        core_num=1,
+        config_out=None,
+        seed=0,
+        ):
+        """Initialize KD_Discover_SPR model (arguments as for KD_Discover)."""
+        super().__init__(n_iterations, n_samples_per_batch, binary_operators, unary_operators,
+                         out_path, core_num, None, seed)
         self.base_config_file = "./discover/config/config_pde_pinn.json"
+        self.config_out = config_out
         self.set_config(config_out)
         self.is_realtime = False
 
diff --git a/kd/model/kd_discover_regression.py b/kd/model/kd_discover_regression.py
index a844d1c..813dfbd 100644
--- a/kd/model/kd_discover_regression.py
+++ b/kd/model/kd_discover_regression.py
@@ -27,9 +27,23 @@ class _RegressionArrayData:
 class KD_Discover_Regression(KD_Discover):
     """Discover wrapper for generic symbolic regression on tabular data."""
 
-    def __init__(self, *args, config_out=None, **kwargs):
-        super().__init__(*args, config_out=None, **kwargs)
+    def __init__(
+        self,
+        n_iterations=100,
+        n_samples_per_batch=100,
+        binary_operators=[],
+        unary_operators=[],
+        out_path="./log/",
+        core_num=1,
+        config_out=None,
+        seed=0,
+    ):
+        super().__init__(
+            n_iterations, n_samples_per_batch, binary_operators, unary_operators,
+            out_path, core_num, None, seed,
+        )
         self.base_config_file = "./discover/config/config_regression.json"
+        self.config_out = config_out
         self.set_config(config_out)
         self.best_program_ = None
         self.result_ = None
-- 
2.43.0


From ef699916e621937310c8d934c4641a020381ad26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:49 +0000
Subject: [PATCH 57/74] fix: the genetic models could not report their
 parameters

---
 kd/model/dlga.py    |  1 +
 kd/model/kd_dlga.py | 16 ++++++++++++----
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/kd/model/dlga.py b/kd/model/dlga.py
index a6d9f44..016ba20 100644
--- a/kd/model/dlga.py
+++ b/kd/model/dlga.py
@@ -98,6 +98,7 @@ class DLGA(BaseGa):
             Batch_Norm=False,
         )
 
+        self.input_dim = input_dim
         self.max_iter = max_iter
         self.eq_latex = ""
         self.epi = epi
diff --git a/kd/model/kd_dlga.py b/kd/model/kd_dlga.py
index ce640b7..d7c99b7 100644
--- a/kd/model/kd_dlga.py
+++ b/kd/model/kd_dlga.py
@@ -15,15 +15,23 @@ class KD_DLGA(DLGA):
     with KD's dataset and visualization utilities.
     """
 
-    def __init__(self, operators: list[str], epi: float, input_dim: int, verbose: bool = True, **kwargs):
-        self.user_operators = operators
-        self.library_size = len(operators)
+    def __init__(self, operators: list[str], epi: float, input_dim: int, verbose: bool = True, max_iter: int = 50000):
+        self.operators = operators
         self.verbose = verbose
-        super().__init__(epi=epi, input_dim=input_dim, **kwargs)
+        super().__init__(epi=epi, input_dim=input_dim, max_iter=max_iter)
         self.equations_ = None
         self.best_equation_ = None
 
 
+    @property
+    def operators(self):
+        return self.user_operators
+
+    @operators.setter
+    def operators(self, operators):
+        self.user_operators = operators
+        self.library_size = len(operators)
+
     def generate_meta_data(self, X):
         """Build the feature library (Theta) and metadata from the trained network."""
         X_tensor = torch.from_numpy(X.astype(np.float32)).to(self.device)
-- 
2.43.0


From 789cc3a4bfe55c779e37c0e752cfa33f94281244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:49 +0000
Subject: [PATCH 58/74] fix: KD_PySR reported another extra_model_kwargs than
 the one passed in

---
 kd/model/kd_pysr.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kd/model/kd_pysr.py b/kd/model/kd_pysr.py
index 56d178f..9b7026d 100644
--- a/kd/model/kd_pysr.py
+++ b/kd/model/kd_pysr.py
@@ -63,7 +63,7 @@ class KD_PySR(BaseEstimator):
         self.niterations = int(niterations)
         self.binary_operators = list(binary_operators) if binary_operators is not None else None
         self.unary_operators = list(unary_operators) if unary_operators is not None else None
-        self.extra_model_kwargs = dict(extra_model_kwargs) if extra_model_kwargs is not None else {}
+        self.extra_model_kwargs = dict(extra_model_kwargs) if extra_model_kwargs is not None else None
 
         # 训练后填充的属性
         self._model: Any = None
@@ -113,7 +113,7 @@ class KD_PySR(BaseEstimator):
             kwargs["binary_operators"] = self.binary_operators
         if self.unary_operators is not None:
             kwargs["unary_operators"] = self.unary_operators
-        kwargs.update(self.extra_model_kwargs)
+        kwargs.update(self.extra_model_kwargs or {})
 
         return _PySRRegressor(**kwargs)  # type: ignore[call-arg]
 
-- 
2.43.0


From 273238dd9bb1d594a8957ebb62736a475102c87e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:49 +0000
Subject: [PATCH 59/74] fix: user configurations of the discover models failed
 (collections.Mapping)

---
 kd/model/discover/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/kd/model/discover/utils.py b/kd/model/discover/utils.py
index 07c3de8..20d3e45 100644
--- a/kd/model/discover/utils.py
+++ b/kd/model/discover/utils.py
@@ -1,6 +1,6 @@
 """Utility functions used in deep symbolic optimization."""
 
-import collections
+import collections.abc
 import copy
 import functools
 import numpy as np
@@ -270,7 +270,7 @@ def safe_merge_dicts(base_dict, update_dict):
         return base_dict
     base_dict = copy.deepcopy(base_dict)
     for key, value in update_dict.items():
-        if isinstance(value, collections.Mapping):
+        if isinstance(value, collections.abc.Mapping):
             base_dict[key] = safe_merge_dicts(base_dict.get(key, {}), value)
         else:
             base_dict[key] = value
-- 
2.43.0


From 0f79d0a78e6a1ae497359939ffdb929a5faae651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:49 +0000
Subject: [PATCH 60/74] fix: importing a second dataset nested its output path
 below the file of the first

---
 kd/model/kd_discover.py | 28 +++++++++++++---------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/kd/model/kd_discover.py b/kd/model/kd_discover.py
index 5089ac0..91a78a1 100644
--- a/kd/model/kd_discover.py
+++ b/kd/model/kd_discover.py
@@ -157,12 +157,18 @@ class KD_Discover(BaseRL):
             self.data_class.load_data()
             
             # Save file
-            if self.out_path is not None:
-                self.out_path = os.path.join(self.out_path,
-                                    "discover_{}_{}.csv".format(dataset, self.seed)
-                )            
+            self._set_out_file(dataset)
         self.setup()
 
+    def _set_out_file(self, name):
+        """Name the output file of a dataset, in the directory given by the user."""
+        if self.out_path is None:
+            return
+        if self.out_path != getattr(self, '_out_file', None):
+            self._out_dir = self.out_path
+        self.out_path = os.path.join(self._out_dir, f"discover_{name}_{self.seed}.csv")
+        self._out_file = self.out_path
+
     def import_dataset(self, dataset, *, sym_true=None, n_input_dim=None, dataset_name=None):
         """Import data through a :class:`~kd.dataset.PDEDataset` instance.
 
@@ -193,11 +199,7 @@ class KD_Discover(BaseRL):
         resolved_name = dataset_name or getattr(dataset, 'legacy_name', None) or \
             getattr(dataset, 'registry_name', None) or getattr(dataset, 'equation_name', None) or "custom_dataset"
         self.dataset = resolved_name
-        if self.out_path is not None:
-            self.out_path = os.path.join(
-                self.out_path,
-                f"discover_{resolved_name}_{self.seed}.csv"
-            )
+        self._set_out_file(resolved_name)
 
         self.setup()
         return self
@@ -570,11 +572,7 @@ class KD_Discover_SPR(KD_Discover):
         resolved_name = dataset_name or getattr(dataset, 'legacy_name', None) or \
             getattr(dataset, 'registry_name', None) or getattr(dataset, 'equation_name', None) or "custom_dataset"
         self.dataset = resolved_name
-        if self.out_path is not None:
-            self.out_path = os.path.join(
-                self.out_path,
-                f"discover_{resolved_name}_{self.seed}.csv"
-            )
+        self._set_out_file(resolved_name)
 
         self.setup()
         return self
@@ -678,7 +676,7 @@ class KD_Discover_SPR(KD_Discover):
 
             print(f"The No.{i} pde discovery process")   
             results = [self.searcher.search(n_epochs=n_epochs, verbose=verbose, keep_history=False)]
-            self.out_path = f"{prefix}_{i+1}.csv"
+            self.out_path = self._out_file = f"{prefix}_{i+1}.csv"
             best_p = [results[j]['program'] for j in range(len(results))]
 
             if len(best_tokens) > 0:
-- 
2.43.0


From 710bafec11d18626afe508d345ba952f828597a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:19 +0000
Subject: [PATCH 61/74] fix: setting a discover model up a second time disabled
 all of its constraints

---
 kd/model/discover/dso/prior.py     | 3 +++
 kd/model/discover/state_manager.py | 3 +--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/kd/model/discover/dso/prior.py b/kd/model/discover/dso/prior.py
index c492280..ff61b06 100644
--- a/kd/model/discover/dso/prior.py
+++ b/kd/model/discover/dso/prior.py
@@ -41,6 +41,8 @@ def make_prior(library, config_prior):
         
     }
     # import pdb;pdb.set_trace()
+    # The configuration is read again when the model is set up for another dataset.
+    config_prior = dict(config_prior)
     count_constraints = config_prior.pop("count_constraints", False)
     
     priors = []
@@ -57,6 +59,7 @@ def make_prior(library, config_prior):
         for single_prior_args in prior_args:
             # Attempt to build the Prior. Any Prior can fail if it references a
             # Token not in the Library.
+            single_prior_args = dict(single_prior_args)
             prior_is_enabled = single_prior_args.pop('on', False)
             if prior_is_enabled:
                 try:
diff --git a/kd/model/discover/state_manager.py b/kd/model/discover/state_manager.py
index 42d4288..f436ddc 100644
--- a/kd/model/discover/state_manager.py
+++ b/kd/model/discover/state_manager.py
@@ -67,8 +67,7 @@ def make_state_manager(config):
         "grammar": GrammarStateManager
     }
 
-    if config is None:
-        config = {}
+    config = dict(config) if config is not None else {}
 
     # Use HierarchicalStateManager by default
     manager_type = config.pop("type", "hierarchical")
-- 
2.43.0


From 7fd3c37f5eb17f07c7f42467815cc76a60a2dead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:03 +0000
Subject: [PATCH 62/74] fix: data imported without a PDEDataset kept the name
 and the dimensions of the dataset imported before

---
 kd/model/kd_discover.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/kd/model/kd_discover.py b/kd/model/kd_discover.py
index 91a78a1..04993bd 100644
--- a/kd/model/kd_discover.py
+++ b/kd/model/kd_discover.py
@@ -155,6 +155,7 @@ class KD_Discover(BaseRL):
         if data_type == 'regular':
             self.data_class = RegularData(dataset)
             self.data_class.load_data()
+            self.dataset, self.dataset_ = dataset, None
             
             # Save file
             self._set_out_file(dataset)
@@ -743,6 +744,12 @@ class KD_Discover_SPR(KD_Discover):
         """
         self.data_class = SparseData(x, y)
         self.data_class.process_data(domains)    
+        if getattr(self, 'dataset_', None) is not None:
+            # Forget the dataset imported before.
+            self._inject_nd_config()
+            self.dataset = self.dataset_ = None
+            if self.out_path is not None and self.out_path == getattr(self, '_out_file', None):
+                self.out_path = self._out_dir
 
     def fit(self, x, y, domains, n_epochs=20, verbose=True, data_type='Sparse'):
         """Fit model to data.
-- 
2.43.0


From 54aebb7f76132b0d49247b2e3b2347acfdcc8412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:03 +0000
Subject: [PATCH 63/74] fix: a configured mapping could not replace a default
 that is no mapping

---
 kd/model/discover/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/kd/model/discover/utils.py b/kd/model/discover/utils.py
index 20d3e45..b12f348 100644
--- a/kd/model/discover/utils.py
+++ b/kd/model/discover/utils.py
@@ -271,7 +271,10 @@ def safe_merge_dicts(base_dict, update_dict):
     base_dict = copy.deepcopy(base_dict)
     for key, value in update_dict.items():
         if isinstance(value, collections.abc.Mapping):
-            base_dict[key] = safe_merge_dicts(base_dict.get(key, {}), value)
+            base_value = base_dict.get(key)
+            if not isinstance(base_value, collections.abc.Mapping):
+                base_value = {}
+            base_dict[key] = safe_merge_dicts(base_value, value)
         else:
             base_dict[key] = value
     return base_dict
-- 
2.43.0


From c2c3dc9cb8d23cd23144e8371ed579cd09e0e280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:30:59 +0000
Subject: [PATCH 64/74] fix: the configured observations embedding and
 observe_dangling failed

---
 kd/model/discover/state_manager.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/kd/model/discover/state_manager.py b/kd/model/discover/state_manager.py
index f436ddc..79ceab3 100644
--- a/kd/model/discover/state_manager.py
+++ b/kd/model/discover/state_manager.py
@@ -164,26 +164,26 @@ class HierarchicalStateManager(StateManager):
         # Action, parent, and sibling inputs are either one-hot or embeddings
         if self.observe_action:
             if self.embedding:
-                x = self.action_embeddings(action)
+                x = F.embedding(action, self.action_embeddings)
             else:
                 x = F.one_hot(action, num_classes=self.library.n_action_inputs)
             observations.append(x)
         if self.observe_parent:
             if self.embedding:
-                x = self.parent_embeddings(parent)
+                x = F.embedding(parent, self.parent_embeddings)
             else:
                 x = F.one_hot(parent, num_classes=self.library.n_parent_inputs)
             observations.append(x)
         if self.observe_sibling:
             if self.embedding:
-                x = self.sibling_embeddings(sibling)
+                x = F.embedding(sibling, self.sibling_embeddings)
             else:
                 x = F.one_hot(sibling, num_classes=self.library.n_sibling_inputs)
             observations.append(x)
 
         # Dangling input is just the value of dangling
         if self.observe_dangling:
-            x = dangling.unsqueeze(-1)
+            x = torch.Tensor(dangling).unsqueeze(-1)
             observations.append(x)
         input_ = torch.cat(observations, dim=-1)
         return input_
-- 
2.43.0


From c857eb5137dc23200cdf0b12294e49179208ec17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:55 +0000
Subject: [PATCH 65/74] fix: symbolic regression accepted targets that are not
 one-dimensional and values that are not finite

---
 kd/model/kd_discover_regression.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/kd/model/kd_discover_regression.py b/kd/model/kd_discover_regression.py
index 813dfbd..627d8e8 100644
--- a/kd/model/kd_discover_regression.py
+++ b/kd/model/kd_discover_regression.py
@@ -51,14 +51,19 @@ class KD_Discover_Regression(KD_Discover):
 
     def _validate_inputs(self, X, y, var_names: Sequence[str] | None):
         X_arr = np.asarray(X, dtype=float)
-        y_arr = np.asarray(y, dtype=float).reshape(-1)
+        y_arr = np.asarray(y, dtype=float)
 
         if X_arr.ndim != 2:
             raise ValueError(f"KD_Discover_Regression.fit 期望 X 为二维数组，但收到 X.shape={X_arr.shape}")
+        if y_arr.ndim != 1 and not (y_arr.ndim == 2 and y_arr.shape[1] == 1):
+            raise ValueError(f"KD_Discover_Regression.fit 期望 y 为一维数组，但收到 y.shape={y_arr.shape}")
+        y_arr = y_arr.reshape(-1)
         if X_arr.shape[0] != y_arr.shape[0]:
             raise ValueError(
                 f"KD_Discover_Regression.fit 收到不匹配的样本数：X.shape[0]={X_arr.shape[0]}, y.shape[0]={y_arr.shape[0]}"
             )
+        if not (np.isfinite(X_arr).all() and np.isfinite(y_arr).all()):
+            raise ValueError("KD_Discover_Regression.fit 的 X 与 y 不能包含 NaN 或无穷大")
 
         if var_names is None:
             names = [f"x{i + 1}" for i in range(X_arr.shape[1])]
-- 
2.43.0


From eec558b6b51d6773280f778de83c8ec96f06715b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:55 +0000
Subject: [PATCH 66/74] fix: the named expression renamed features inside the
 names of other features

---
 kd/model/kd_discover_regression.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/kd/model/kd_discover_regression.py b/kd/model/kd_discover_regression.py
index 627d8e8..34d64c3 100644
--- a/kd/model/kd_discover_regression.py
+++ b/kd/model/kd_discover_regression.py
@@ -77,10 +77,8 @@ class KD_Discover_Regression(KD_Discover):
 
     @staticmethod
     def _render_named_expression(expression: str, var_names: Sequence[str]) -> str:
-        rendered = expression
-        for index, name in reversed(list(enumerate(var_names, start=1))):
-            rendered = rendered.replace(f"x{index}", name)
-        return rendered
+        names = {f"x{index}": str(name) for index, name in enumerate(var_names, start=1)}
+        return ",".join(names.get(token, token) for token in expression.split(","))
 
     @staticmethod
     def _format_constant(value: float) -> str:
-- 
2.43.0


From e2f08ecb9a7a69c7152b117c0d8543a09d9f514a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:55 +0000
Subject: [PATCH 67/74] fix: the reported expression of a regression turned
 small constants into zero

---
 kd/model/kd_discover_regression.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/kd/model/kd_discover_regression.py b/kd/model/kd_discover_regression.py
index 34d64c3..d10b03a 100644
--- a/kd/model/kd_discover_regression.py
+++ b/kd/model/kd_discover_regression.py
@@ -83,11 +83,10 @@ class KD_Discover_Regression(KD_Discover):
     @staticmethod
     def _format_constant(value: float) -> str:
         scalar = float(np.asarray(value).reshape(-1)[0])
-        rounded = round(scalar, 6)
-        text = f"{rounded:.6f}".rstrip("0").rstrip(".")
-        if "." not in text:
-            text += ".0"
-        return text
+        # six decimals, and for small constants six significant digits
+        return np.format_float_positional(
+            scalar, precision=6, unique=False, fractional=abs(scalar) >= 1, trim="0"
+        )
 
     def _serialize_program(self, program) -> str:
         parts = []
-- 
2.43.0


From 0c33211d140801522e44ca6e9f60d34cdca45cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:40:27 +0000
Subject: [PATCH 68/74] fix: predictions of a regression were zero once a model
 evaluated with torch was set up

---
 kd/model/discover/program.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/kd/model/discover/program.py b/kd/model/discover/program.py
index 388f55e..58b6559 100644
--- a/kd/model/discover/program.py
+++ b/kd/model/discover/program.py
@@ -400,7 +400,8 @@ class Program(object):
 
     def execute_direct(self, x):
         x_inputs = self._normalize_x_inputs(x)
-        y_hat, self.invalid, self.error_node, self.error_type = Program.execute_function(
+        # the arrays are numpy whatever another task set Program.execute_function to
+        y_hat, self.invalid, self.error_node, self.error_type = unsafe_execute(
             self.traversal,
             [],
             x_inputs,
-- 
2.43.0


From 95cf52d4534f0ed7ed33071a006dbbdae87dcdc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:44:49 +0000
Subject: [PATCH 69/74] fix: the search reported invalid or worse candidates
 after batches without accepted candidates, and failed when no reward was
 positive

---
 kd/model/discover/searcher.py | 43 ++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 24 deletions(-)

diff --git a/kd/model/discover/searcher.py b/kd/model/discover/searcher.py
index a1ebc84..8833ffe 100644
--- a/kd/model/discover/searcher.py
+++ b/kd/model/discover/searcher.py
@@ -117,7 +117,6 @@ class Searcher:
         self.batch_size = self.args['n_samples_per_batch']
         self.stability_selection = self.args['stability_selection']
         self.r_best= -np.inf
-        self.prev_r_best = None
         self.best_p = None
         self.pq = make_queue(priority=True, capacity=self.controller.pqt_k)
         self.r_history = []
@@ -127,6 +126,20 @@ class Searcher:
         self.top_samples_per_batch = list()
 
 
+    def update_best(self, programs, rewards):
+        """
+        Keep the valid program with the largest reward seen so far. Only while there is
+        no valid one, the program with the largest reward, so that self.best_p is not None
+        after the search. Returns whether the best program changed.
+        """
+        changed = False
+        for p, r in zip(programs, rewards):
+            if not np.isfinite(r):
+                continue
+            if self.best_p is None or (not p.invalid, r) > (not self.best_p.invalid, self.r_best):
+                self.best_p, self.r_best, changed = p, r, True
+        return changed
+
     @property
     def best_expression(self):
         return self.pq.get_max()[1]
@@ -150,22 +163,13 @@ class Searcher:
       
         # Compute rewards (or retrieve cached rewards)
         r = np.array([p.r_ridge for p in programs])
+        # Update the best expression from the whole batch, whether it passes the quantile filter or not
+        new_r_best = self.update_best(programs, r)
         reserved = quantile_select(actions, obs, priors, programs, r.copy(), self.args['epsilon'])
         if reserved is None:
-            # Even when no valid programs pass the quantile filter, keep the
-            # best-reward program so that self.best_p is not None after search.
-            if programs:
-                r_safe = np.where(np.isfinite(r), r, -np.inf)
-                best_idx = int(np.argmax(r_safe))
-                if np.isfinite(r[best_idx]) and (self.best_p is None or r[best_idx] > self.r_best):
-                    self.best_p = programs[best_idx]
-                    self.r_best = r[best_idx]
             return
         programs, r, r_train, r_full_valid, p_train, priors,on_policy,obs, actions, baseline_r = reserved
         
-        r_max = np.max(r_full_valid)
-        self.r_best = max(r_max, self.r_best)
-        
         if self.gp_aggregator is not None:   
             p_agg, action_agg, ob_agg, prior_agg = self.gp_aggregator( p_train, actions.shape[1])
 
@@ -181,8 +185,7 @@ class Searcher:
                 r_full_valid = np.append(r_full_valid, [p_agg[i].r_ridge for i in range(len(p_agg))])
                 p_train = p_train + p_agg
                 on_policy = np.append(on_policy, [False]*len(p_agg))
-                r_max = np.max(r)
-                self.r_best = max(r_max, self.r_best)
+                new_r_best = self.update_best(p_agg, [p.r_ridge for p in p_agg]) or new_r_best
         
         self.r_history.append(r_full_valid)
         self.r_train.append(r_train)
@@ -222,17 +225,9 @@ class Searcher:
         #                   s_history, b_train, epoch_walltime, controller_programs)
 
 
-        # Update new best expression
-        new_r_best = False
-
-        if self.prev_r_best is None or r_max > self.prev_r_best:
-            new_r_best = True
-            self.best_p = cur_best_program
-            
-        self.prev_r_best = self.r_best
         # Print new best expression
         if verbose and new_r_best:
-            print("Training epoch {}/{}, current best R: {:.4f}, cost time: {:.2f}".format( epoch + 1, self.n_iterations, self.prev_r_best,epoch_walltime ))
+            print("Training epoch {}/{}, current best R: {:.4f}, cost time: {:.2f}".format( epoch + 1, self.n_iterations, self.r_best,epoch_walltime ))
             print("\n\t** New best")
             self.best_p.print_stats()
 
@@ -256,7 +251,7 @@ class Searcher:
             self.n_iterations=n_epochs
         
         # whether keep priority queue
-        if not keep_history and len(self.pq)>0:
+        if not keep_history and self.best_p is not None:
             self.set_up()
             
         pbar = tqdm(range(n_epochs), desc='Progress', ncols=100)
-- 
2.43.0


From 066d6b1eb0048943ad292925fe68c3f0a3da749f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:28 +0000
Subject: [PATCH 70/74] fix: training the network failed for a candidate with a
 term that cannot be evaluated or with a huge residual

---
 kd/model/discover/pinn.py    | 3 ++-
 kd/model/discover/stridge.py | 3 +++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/kd/model/discover/pinn.py b/kd/model/discover/pinn.py
index 6d2dd1b..58a265c 100644
--- a/kd/model/discover/pinn.py
+++ b/kd/model/discover/pinn.py
@@ -296,7 +296,8 @@ class PINN_model:
             program_pde[i].switch_tokens()
         if last:
             # self.pinn_epoch *=3
-            best_loss = 1e8
+            best_loss = np.inf
+            last_improvement = 0
 
         logging.info(f"coef:{coef}")
         if local_sample:
diff --git a/kd/model/discover/stridge.py b/kd/model/discover/stridge.py
index be0344a..08090a7 100644
--- a/kd/model/discover/stridge.py
+++ b/kd/model/discover/stridge.py
@@ -605,6 +605,9 @@ class STRidge(object):
 
     def calculate_RHS(self, u, x, ut, coefs, execute_func = unsafe_execute_torch,extra_gradient=False ):
         results = self.calculate_RHS_terms(u,x, execute_func,extra_gradient=extra_gradient)
+        if isinstance(results, torch.Tensor):
+            # a term cannot be evaluated: the residual is not a number
+            return results
         RHS = 0
         if isinstance(coefs, list):
             for i in range(len(coefs)):
-- 
2.43.0


From 871cd8f3467f769b2c9870d2aaada75a4ac9e6d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:14 +0000
Subject: [PATCH 71/74] fix: plots of a model used the adapter registered first
 for any base class instead of the nearest one, and missed lazily registered
 base classes

---
 kd/viz/registry.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/kd/viz/registry.py b/kd/viz/registry.py
index b6aa236..bbe7710 100644
--- a/kd/viz/registry.py
+++ b/kd/viz/registry.py
@@ -52,18 +52,19 @@ def get_adapter(target: Any) -> Optional[VizAdapter]:
         return None
     model_cls = target if isinstance(target, type) else type(target)
 
-    adapter = _ADAPTERS.get(model_cls)
-    if adapter is not None:
-        return adapter
-
-    # Check lazy adapters by class name before subclass walk.
-    class_name = model_cls.__name__
-    if class_name in _LAZY_ADAPTERS:
-        _resolve_lazy(class_name)
-        adapter = _ADAPTERS.get(model_cls)
+    # The class itself, otherwise its nearest registered base class, whatever
+    # the order of registration. Lazy adapters are resolved by class name.
+    for cls in model_cls.__mro__:
+        adapter = _ADAPTERS.get(cls)
         if adapter is not None:
             return adapter
+        if cls.__name__ in _LAZY_ADAPTERS:
+            _resolve_lazy(cls.__name__)
+            adapter = _ADAPTERS.get(cls)
+            if adapter is not None:
+                return adapter
 
+    # Virtual subclasses (abc.ABCMeta.register) are not in the resolution order.
     for registered_cls, registered_adapter in _ADAPTERS.items():
         try:
             if issubclass(model_cls, registered_cls):
-- 
2.43.0


From 83838c3f5d347889eeadc3b14233d499cf77c7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:49 +0000
Subject: [PATCH 72/74] fix: training the network on a diverging residual left
 a network of NaN and ended the search with an error

---
 kd/model/discover/pinn.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/kd/model/discover/pinn.py b/kd/model/discover/pinn.py
index 58a265c..d0c8274 100644
--- a/kd/model/discover/pinn.py
+++ b/kd/model/discover/pinn.py
@@ -310,7 +310,7 @@ class PINN_model:
             for i in range(pde_num):
                 pde_loss = torch.tensor([0]).to(loss_mse)
                 loss_res = pinn_loss(self,  program_pde[i], self.x_f, self.t_f, program_pde[i].w, self.extra_gradient)
-                if torch.isnan(loss_res):
+                if not torch.isfinite(loss_res):
                     logging.info("nan")
                     loss_res=torch.tensor([0]).to(loss_mse)
                 self.writer.add_scalar(f"pinn/pinn_loss_{i}",loss_res.item(),epoch)
@@ -319,13 +319,18 @@ class PINN_model:
             #local samling based on observations    
                 if local_sample:
                     loss_res2= pinn_loss(self, program_pde[i], self.x_local, self.t_local, program_pde[i].w, extra_gradient=self.extra_gradient)
+                    if not torch.isfinite(loss_res2):
+                        logging.info("nan")
+                        loss_res2=torch.tensor([0]).to(loss_mse)
                     self.writer.add_scalar(f"pinn/local_pinn_loss_{i}",loss_res2.item(),epoch)
                     pde_loss+=loss_res2
                 
                 
             loss = coef*(pde_loss)+loss_mse  #delete res3
             loss.backward()
-            self.optimizer.step()
+            # a huge residual can have gradients that overflow: such a step would leave no usable network
+            if all(torch.isfinite(p.grad).all() for p in self.nn.parameters() if p.grad is not None):
+                self.optimizer.step()
             
             if (epoch+1)%10==0:
                 logging.info(f"epoch: {epoch+1}, mse: {loss_mse.item()}, pde_loss:{pde_loss.item()}, total_loss:{loss.item()}")
-- 
2.43.0


From 7917671c9858648668d0935ce69b1a77f3c1b73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:01:32 +0000
Subject: [PATCH 73/74] fix: computing derivatives with trained networks
 changed the dictionaries of models given by the caller

---
 kd/model/sga/sgapde/context.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/kd/model/sga/sgapde/context.py b/kd/model/sga/sgapde/context.py
index 4ecff94..20d535a 100644
--- a/kd/model/sga/sgapde/context.py
+++ b/kd/model/sga/sgapde/context.py
@@ -633,6 +633,7 @@ class ProblemContext:
             autograd_models = {}
         if not isinstance(autograd_models, dict):
             raise TypeError("autograd_models must be a dict when provided.")
+        autograd_models = dict(autograd_models)  # the caller's dict stays as given
 
         if (
             getattr(self.config, "autograd_model", None) is not None
@@ -645,6 +646,7 @@ class ProblemContext:
             autograd_model_paths = {}
         if not isinstance(autograd_model_paths, dict):
             raise TypeError("autograd_model_paths must be a dict when provided.")
+        autograd_model_paths = dict(autograd_model_paths)
         if self.config.model_path and self.target_field not in autograd_model_paths:
             autograd_model_paths[self.target_field] = self.config.model_path
 
-- 
2.43.0


From d45e36a47368c06d25541c78fa608ff0c2026f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:39 +0000
Subject: [PATCH 74/74] fix: merging duplicate candidates overwrote an
 unrelated candidate of the same length

---
 kd/model/discover/ga_utils.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/kd/model/discover/ga_utils.py b/kd/model/discover/ga_utils.py
index 795b9f5..6f0e11a 100644
--- a/kd/model/discover/ga_utils.py
+++ b/kd/model/discover/ga_utils.py
@@ -211,13 +211,12 @@ def drop_duplicates( tokens, values):
 
     for i, (arr_current, str_current) in enumerate(zip(values, token_len)):
         duplicate_found = False
-        for arr_compare, str_compare in zip(values[i+1:], token_len[i+1:]):
+        for idx, (arr_compare, str_compare) in enumerate(zip(values[i+1:], token_len[i+1:]), start=i+1):
             # if the sum of differences is less than 1e-5, consider them the same
             if np.abs(np.sum(arr_compare - arr_current)) < 1e-5:
                 duplicate_found = True
                 # if the current string is shorter, replace the compared one
                 if str_current < str_compare:
-                    idx = token_len.index(str_compare)
                     token_len[idx] = str_current
                     tokens[idx]=tokens[i]
                     values[idx]=values[i]
-- 
2.43.0

