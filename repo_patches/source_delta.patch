From 3ef3bacbf5ddbd06c47185d76c0100e8a4738af8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:49 +0000
Subject: [PATCH 01/23] fix: insert control costates after the state costates

The control costate was inserted before the last state costate, so the costates of the guess were
assigned to the wrong states and the inverse map deleted the wrong column.
---
 beluga/numeric/data_classes/trajectory_mappers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beluga/numeric/data_classes/trajectory_mappers.py b/beluga/numeric/data_classes/trajectory_mappers.py
index ec8be83..9f94db5 100644
--- a/beluga/numeric/data_classes/trajectory_mappers.py
+++ b/beluga/numeric/data_classes/trajectory_mappers.py
@@ -262,7 +262,7 @@ class DifferentialControlMapperDiffyG(SolMapper):
             else:
                 costate_insert = control_costate * np.ones_like(sol.t)
 
-            sol.dual = np.insert(sol.dual, -1, costate_insert, axis=1)
+            sol.dual = np.insert(sol.dual, idx_y, costate_insert, axis=1)
             if len(sol.dual_u) == 0:
                 sol.dual_u = np.array([costate_insert])
             else:
-- 
2.43.0


From b173dcc87c128afacaae90b1a1ec57862430a54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:49 +0000
Subject: [PATCH 02/23] fix: static guess no longer modifies the user's
 trajectory

The mappers work in place, so solving twice from the same static guess mapped it twice.
---
 beluga/continuation/guess_generators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beluga/continuation/guess_generators.py b/beluga/continuation/guess_generators.py
index 25b1139..a4a1ae8 100644
--- a/beluga/continuation/guess_generators.py
+++ b/beluga/continuation/guess_generators.py
@@ -69,7 +69,7 @@ class GuessGenerator(object):
 
     def static(self, bvp_fn, solinit, ocp_map, ocp_map_inverse):
         """Directly specify initial guess structure"""
-        return ocp_map(self.solinit)
+        return ocp_map(copy.deepcopy(self.solinit))
 
     def setup_auto(self, start=None, direction='forward', time_integrate=1, quad_guess=np.array([]), costate_guess=0.1,
                    control_guess=0.1, use_control_guess=False, param_guess=None):
-- 
2.43.0


From 901bf66877d898bbed6ebe7b656c751e28f35669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:49 +0000
Subject: [PATCH 03/23] fix: fsolve shooting judges convergence at the
 solution, not the guess

---
 beluga/numeric/bvp_solvers/Shooting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beluga/numeric/bvp_solvers/Shooting.py b/beluga/numeric/bvp_solvers/Shooting.py
index 2d1eb2b..541a0c4 100644
--- a/beluga/numeric/bvp_solvers/Shooting.py
+++ b/beluga/numeric/bvp_solvers/Shooting.py
@@ -695,7 +695,7 @@ class Shooting(BaseAlgorithm):
 
         elif self.algorithm.lower() == 'fsolve':
             x = fsolve(_constraint_function_wrapper, x_init, fprime=_jacobian_function_wrapper, xtol=self.tolerance)
-            err = np.linalg.norm(_constraint_function_wrapper(x_init))**2
+            err = np.linalg.norm(_constraint_function_wrapper(x))**2
             x_init = x
             n_iter = -1
             converged = isclose(err, 0, abs_tol=self.tolerance)
-- 
2.43.0


From d55d1724826179697376426327cd12d894983bd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:49 +0000
Subject: [PATCH 04/23] fix: use the residual norm with scipy root shooting
 algorithms

opt.fun is the residual vector; comparing it with the tolerance raised an ambiguous truth value error.
---
 beluga/numeric/bvp_solvers/Shooting.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beluga/numeric/bvp_solvers/Shooting.py b/beluga/numeric/bvp_solvers/Shooting.py
index 541a0c4..425d605 100644
--- a/beluga/numeric/bvp_solvers/Shooting.py
+++ b/beluga/numeric/bvp_solvers/Shooting.py
@@ -688,7 +688,7 @@ class Shooting(BaseAlgorithm):
         elif self.algorithm in scipy_root_algorithms:
             opt = root(_constraint_function_wrapper, x_init, jac=_jacobian_function_wrapper, method=self.algorithm,
                        tol=self.tolerance, options={'maxiter': self.max_iterations})
-            err = opt.fun
+            err = np.linalg.norm(opt.fun)
             x_init = opt.x
             n_iter = -1
             converged = opt.success
-- 
2.43.0


From 39425b6bc01ac8d475a7d8db1337260669d7a762 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:49 +0000
Subject: [PATCH 05/23] fix: parallel arcs pass the same arguments as serial
 arcs

The control was passed as an extra positional argument, shifting the parameters of the
equations of motion when a process pool is used.
---
 beluga/numeric/bvp_solvers/Shooting.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/beluga/numeric/bvp_solvers/Shooting.py b/beluga/numeric/bvp_solvers/Shooting.py
index 425d605..eb25cf3 100644
--- a/beluga/numeric/bvp_solvers/Shooting.py
+++ b/beluga/numeric/bvp_solvers/Shooting.py
@@ -284,13 +284,13 @@ class Shooting(BaseAlgorithm):
             u0g[ii] = _u0g
 
         def preload(args):
-            return prop(pickle.loads(derivative_function), pickle.loads(quadrature_function), args[0], args[1], args[2], args[3],
+            return prop(pickle.loads(derivative_function), pickle.loads(quadrature_function), args[0], args[1], args[2],
                         dyn_param, sol.const)
 
         if pool is not None:
-            gamma_set_new = pool.map(preload, zip(tspan, y0g, q0g, u0g))
+            gamma_set_new = pool.map(preload, zip(tspan, y0g, q0g))
         else:
-            gamma_set_new = [preload([T, Y, Q, U]) for T, Y, Q, U in zip(tspan, y0g, q0g, u0g)]
+            gamma_set_new = [preload([T, Y, Q]) for T, Y, Q in zip(tspan, y0g, q0g)]
 
         if n_arcs > 1 and nquads > 0:
             for ii in range(n_arcs - 1):
-- 
2.43.0


From 7c1ea520d91c160700f4a8507dc01f762dd4509d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:49 +0000
Subject: [PATCH 06/23] fix: time-dependent path cost breaks the time symmetry

---
 beluga/symbolic/data_classes/mapping_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beluga/symbolic/data_classes/mapping_functions.py b/beluga/symbolic/data_classes/mapping_functions.py
index 2887a2b..1b939e3 100644
--- a/beluga/symbolic/data_classes/mapping_functions.py
+++ b/beluga/symbolic/data_classes/mapping_functions.py
@@ -166,7 +166,7 @@ class MomentumShift(GenericFunctor):
         for symmetry in prob.symmetries:
             symmetry.field = np.append(symmetry.field, sympy.Integer(0))
 
-        independent_symmetry = True
+        independent_symmetry = prob.cost.path.diff(new_state.sym) == 0
         for state in prob.states:
             if state.eom.diff(new_state.sym) != 0:
                 independent_symmetry = False
-- 
2.43.0


From c2a9435b107afaa353619d735d88628b9ef472d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:49 +0000
Subject: [PATCH 07/23] fix: time normalisation scales the rates of quadratures
 and coparameters

---
 beluga/symbolic/data_classes/mapping_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beluga/symbolic/data_classes/mapping_functions.py b/beluga/symbolic/data_classes/mapping_functions.py
index 1b939e3..1364f29 100644
--- a/beluga/symbolic/data_classes/mapping_functions.py
+++ b/beluga/symbolic/data_classes/mapping_functions.py
@@ -698,7 +698,7 @@ class NormalizeTime(GenericFunctor):
                                         local_compiler=prob.local_compiler).sympify_self()
         prob.parameters.append(delta_t)
 
-        _dynamic_structs = [prob.states, prob.costates]
+        _dynamic_structs = [prob.states, prob.costates, prob.coparameters, prob.quads]
 
         for state in combine_component_lists(_dynamic_structs):
             state.eom = state.eom * delta_t.sym
-- 
2.43.0


From ec0c21e8e68341dd5979279afa92a065e83f80d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:49 +0000
Subject: [PATCH 08/23] fix: geometric dualization with parameters assigns each
 costate its own rate

---
 beluga/symbolic/data_classes/mapping_functions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beluga/symbolic/data_classes/mapping_functions.py b/beluga/symbolic/data_classes/mapping_functions.py
index 1364f29..851221a 100644
--- a/beluga/symbolic/data_classes/mapping_functions.py
+++ b/beluga/symbolic/data_classes/mapping_functions.py
@@ -359,8 +359,8 @@ class Dualize(GenericFunctor):
             costate_syms = extract_syms(prob.costates + prob.coparameters)
             omega = make_standard_symplectic_form(state_syms, costate_syms)
             chi_h = make_hamiltonian_vector_field(prob.hamiltonian.expr, omega, state_syms + costate_syms)
-            costate_rates = chi_h[-len(prob.states):]
-            for costate, rate in zip(prob.costates, costate_rates):
+            costate_rates = chi_h[-len(costate_syms):]
+            for costate, rate in zip(prob.costates + prob.coparameters, costate_rates):
                 costate.eom = rate
             prob.omega = omega
 
-- 
2.43.0


From 025c7998a044eeb025fcfb732661aa6c6cdb7959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:49 +0000
Subject: [PATCH 09/23] fix: constraint adjoint slice points at the appended
 adjoints

---
 beluga/symbolic/data_classes/mapping_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beluga/symbolic/data_classes/mapping_functions.py b/beluga/symbolic/data_classes/mapping_functions.py
index 851221a..a887a45 100644
--- a/beluga/symbolic/data_classes/mapping_functions.py
+++ b/beluga/symbolic/data_classes/mapping_functions.py
@@ -670,10 +670,10 @@ class SquashToBVP(GenericFunctor):
         prob.quads += prob.coparameters
         prob.coparameters = []
 
-        prob.constraint_parameters += prob.constraint_adjoints
         constraint_adjoints_idxs = \
             slice(len(prob.constraint_parameters),
                 len(prob.constraint_parameters) + len(prob.constraint_adjoints))
+        prob.constraint_parameters += prob.constraint_adjoints
         prob.constraint_adjoints = []
 
         prob.sol_map_chain.append(SquashToBVPMapper(costate_idxs, coparameter_idxs, constraint_adjoints_idxs))
-- 
2.43.0


From 3554b24492a50a59c15affa2b5591bb0d62a4db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:49 +0000
Subject: [PATCH 10/23] fix: report the missing activator instead of failing to
 subscript the constraint

---
 beluga/symbolic/data_classes/mapping_functions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beluga/symbolic/data_classes/mapping_functions.py b/beluga/symbolic/data_classes/mapping_functions.py
index a887a45..42d68ac 100644
--- a/beluga/symbolic/data_classes/mapping_functions.py
+++ b/beluga/symbolic/data_classes/mapping_functions.py
@@ -261,7 +261,7 @@ class UTM(GenericFunctor):
                 activator_units = constant.units
 
         if activator_units is None:
-            raise Exception('Activator \'' + str(constraint['activator']) + '\' not found in constants.')
+            raise Exception('Activator \'' + str(constraint.activator) + '\' not found in constants.')
 
         expr, activator, upper, lower = constraint.expr, constraint.activator, constraint.upper, constraint.lower
 
-- 
2.43.0


From 00aa155fce13d83a72cb3fcd8fb3e5fedaaaa52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:49 +0000
Subject: [PATCH 11/23] fix: tables no longer use the removed np.float alias

---
 beluga/symbolic/data_classes/components_structures.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beluga/symbolic/data_classes/components_structures.py b/beluga/symbolic/data_classes/components_structures.py
index 334a772..a6e3bd8 100644
--- a/beluga/symbolic/data_classes/components_structures.py
+++ b/beluga/symbolic/data_classes/components_structures.py
@@ -234,8 +234,8 @@ class TableStruct(CallableStruct):
                  dim_consistent=False, local_compiler=None):
 
         self.table_type = table_type
-        self.data = np.array(data, dtype=np.float)
-        self.arg_data = np.array(arg_data, dtype=np.float)
+        self.data = np.array(data, dtype=float)
+        self.arg_data = np.array(arg_data, dtype=float)
         self.dim_consistent = dim_consistent
 
         # TODO Add checks for size of data, arg_data consistent with type
-- 
2.43.0


From cab05b533defff96e1331fc750ac4ec41d123df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:49 +0000
Subject: [PATCH 12/23] fix: product strategy recomputes its steps when
 initialised again

---
 beluga/continuation/continuation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/beluga/continuation/continuation.py b/beluga/continuation/continuation.py
index 429d8b7..9dfdda5 100644
--- a/beluga/continuation/continuation.py
+++ b/beluga/continuation/continuation.py
@@ -346,6 +346,7 @@ class ProductStrategy(ContinuationStrategy):
         for var_name in self.vars.keys():
             jj = getattr_from_list(bvp.constants, 'name').index(var_name)
             self.vars[var_name].value = sol.const[jj]
+            self.vars[var_name].steps = []
 
         ls_set = [np.linspace(self.vars[var_name].value, self.vars[var_name].target,
                               self._num_subdivisions) for var_name in self.vars.keys()]
-- 
2.43.0


From 2f78e1d33bac51ecc2de8d1307151d0832f5a9fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:49 +0000
Subject: [PATCH 13/23] fix: sparse product strategy recomputes its steps when
 initialised again

---
 beluga/continuation/continuation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/beluga/continuation/continuation.py b/beluga/continuation/continuation.py
index 9dfdda5..c2eb8a6 100644
--- a/beluga/continuation/continuation.py
+++ b/beluga/continuation/continuation.py
@@ -438,6 +438,7 @@ class SparseProductStrategy(ContinuationStrategy):
         for var_name in self.vars.keys():
             jj = getattr_from_list(bvp.constants, 'name').index(var_name)
             self.vars[var_name].value = sol.const[jj]
+            self.vars[var_name].steps = []
             lower_bounds.append(sol.const[jj])
             upper_bounds.append(self.vars[var_name].target)
 
-- 
2.43.0


From 4055e0a8136663b7914279137261c8be366d14cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:30:49 +0000
Subject: [PATCH 14/23] fix: total derivative substitutes dependent variables

---
 beluga/symbolic/differential_geometry/differential_geometry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beluga/symbolic/differential_geometry/differential_geometry.py b/beluga/symbolic/differential_geometry/differential_geometry.py
index 72b5fc2..2620237 100644
--- a/beluga/symbolic/differential_geometry/differential_geometry.py
+++ b/beluga/symbolic/differential_geometry/differential_geometry.py
@@ -109,7 +109,7 @@ def total_derivative(expr, var, dependent_vars=None):
     dep_var_names = dependent_vars.keys()
     dep_var_expr = [expr for (_, expr) in dependent_vars.items()]
 
-    dfdq = [expr.diff(dep_var).subs_self(dependent_vars.items()) for dep_var in dep_var_names]
+    dfdq = [expr.diff(dep_var).subs(dependent_vars.items()) for dep_var in dep_var_names]
     dqdx = [qexpr.diff(var) for qexpr in dep_var_expr]
     out = sum(d1 * d2 for d1, d2 in zip(dfdq, dqdx)) + sympy.diff(expr, var)
     return out
-- 
2.43.0


From 21aa51192af907a20e312d04a77353b7e39c7ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:55 +0000
Subject: [PATCH 15/23] fix: numerical derivatives log through the logging
 module

logging.beluga does not exist, so every derivative of a custom function with more than one
argument failed in its fallback path.
---
 .../numerical_derivatives/complex_step.py        | 16 ++++++++--------
 .../numeric/numerical_derivatives/finite_diff.py | 12 ++++++------
 2 files changed, 14 insertions(+), 14 deletions(-)

diff --git a/beluga/numeric/numerical_derivatives/complex_step.py b/beluga/numeric/numerical_derivatives/complex_step.py
index 7a8191f..c903446 100644
--- a/beluga/numeric/numerical_derivatives/complex_step.py
+++ b/beluga/numeric/numerical_derivatives/complex_step.py
@@ -10,12 +10,12 @@ import inspect
 def gen_csd(func, deriv_order=None, step_size=1e-6, complex_arg=False):
 
     if max(deriv_order) > 2:
-        logging.beluga('Complex-step derivative not supported for order > 2.'
+        logging.warning('Complex-step derivative not supported for order > 2.'
                        ' Falling back to finite difference for {}'.format(func.__name__))
         return beluga.numeric.numerical_derivatives.gen_fin_diff(func, deriv_order=deriv_order, step_size=step_size)
 
     if len(np.nonzero(deriv_order)[0]) > 1:
-        logging.beluga('Complex-step derivative not supported for multivariate derivatives.'
+        logging.warning('Complex-step derivative not supported for multivariate derivatives.'
                        ' Falling back to finite difference for {}'.format(func.__name__))
         return beluga.numeric.numerical_derivatives.gen_fin_diff(func, deriv_order=deriv_order, step_size=step_size)
     else:
@@ -43,8 +43,8 @@ def gen_csd(func, deriv_order=None, step_size=1e-6, complex_arg=False):
             func_re = njit(tuple(arg_list_re))(func)
             func_im = njit(tuple(arg_list_im))(func)
 
-    except errors.NumbaError as e:
-        logging.beluga(e, 'Cannot jit compile {} to compile numerical derivative'.format(func.__name__))
+    except errors.NumbaError:
+        logging.warning('Cannot jit compile {} to compile numerical derivative'.format(func.__name__))
 
     if arg_len == 1:
         if deriv_order == 1:
@@ -66,8 +66,8 @@ def gen_csd(func, deriv_order=None, step_size=1e-6, complex_arg=False):
 
         try:
             csd = njit((arg_type,))(csd)
-        except errors.NumbaError as e:
-            logging.beluga(e, 'Cannot jit compile numerical derivative of {}'.format(func.__name__))
+        except errors.NumbaError:
+            logging.warning('Cannot jit compile numerical derivative of {}'.format(func.__name__))
 
     else:
         arg_select = np.concatenate((np.zeros((arg_idx,), dtype=float), np.array([1.]),
@@ -94,8 +94,8 @@ def gen_csd(func, deriv_order=None, step_size=1e-6, complex_arg=False):
 
             csd = njit((types.UniTuple(arg_type, arg_len),))(csd)
 
-        except errors.NumbaError as e:
-            logging.beluga(e, 'Cannot jit compile numerical derivative of {}'.format(func.__name__))
+        except errors.NumbaError:
+            logging.warning('Cannot jit compile numerical derivative of {}'.format(func.__name__))
 
             if deriv_order == 1:
                 step = 1e-50
diff --git a/beluga/numeric/numerical_derivatives/finite_diff.py b/beluga/numeric/numerical_derivatives/finite_diff.py
index 5366358..6f2cf38 100644
--- a/beluga/numeric/numerical_derivatives/finite_diff.py
+++ b/beluga/numeric/numerical_derivatives/finite_diff.py
@@ -30,8 +30,8 @@ def gen_fin_diff(func, deriv_order=None, step_size=1e-6, acc_order=1, method='ce
         else:
             func = njit(tuple(arg_list))(func)
 
-    except errors.NumbaError as e:
-        logging.beluga(e, 'Cannot jit compile {} to compile numerical derivative'.format(func.__name__))
+    except errors.NumbaError:
+        logging.warning('Cannot jit compile {} to compile numerical derivative'.format(func.__name__))
 
     step_array = []
     coeff_array = []
@@ -73,8 +73,8 @@ def gen_fin_diff(func, deriv_order=None, step_size=1e-6, acc_order=1, method='ce
 
         try:
             fin_diff = njit((arg_type,))(fin_diff)
-        except errors.NumbaError as e:
-            logging.beluga(e, 'Cannot jit compile numerical derivative of {}'.format(func.__name__))
+        except errors.NumbaError:
+            logging.warning('Cannot jit compile numerical derivative of {}'.format(func.__name__))
 
     else:
         try:
@@ -89,8 +89,8 @@ def gen_fin_diff(func, deriv_order=None, step_size=1e-6, acc_order=1, method='ce
 
             fin_diff = njit((types.UniTuple(arg_type, arg_len),))(fin_diff)
 
-        except errors.NumbaError as e:
-            logging.beluga(e, 'Cannot jit compile numerical derivative of {}'.format(func.__name__))
+        except errors.NumbaError:
+            logging.warning('Cannot jit compile numerical derivative of {}'.format(func.__name__))
 
             def fin_diff(*args):
                 diff = 0.
-- 
2.43.0


From c68e18f5de62c6cdd2226efb1d7706a70e73acbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:55 +0000
Subject: [PATCH 16/23] fix: complex-step derivatives of functions with several
 arguments

---
 beluga/numeric/numerical_derivatives/complex_step.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/beluga/numeric/numerical_derivatives/complex_step.py b/beluga/numeric/numerical_derivatives/complex_step.py
index c903446..127c17e 100644
--- a/beluga/numeric/numerical_derivatives/complex_step.py
+++ b/beluga/numeric/numerical_derivatives/complex_step.py
@@ -79,7 +79,7 @@ def gen_csd(func, deriv_order=None, step_size=1e-6, complex_arg=False):
 
                 def csd(*args):
                     args_k = tuple(np.array(args) + step*1j*arg_select)
-                    return func_im(args_k).imag/step
+                    return func_im(*args_k).imag/step
 
             else:
                 im_step_size = math.sqrt(3 + 2 * math.sqrt(2)) * step_size
@@ -88,9 +88,9 @@ def gen_csd(func, deriv_order=None, step_size=1e-6, complex_arg=False):
 
                 def csd(*args):
                     args_array = np.array(args)
-                    args_k_re = tuple(args_array + step_re, arg_len)
-                    args_k_im = tuple(args_array + step_im, arg_len)
-                    return 2 * (func_re(args_k_re) - func_im(args_k_im)).real / im_step_size ** 2
+                    args_k_re = tuple(args_array + step_re)
+                    args_k_im = tuple(args_array + step_im)
+                    return 2 * (func_re(*args_k_re) - func_im(*args_k_im)).real / im_step_size ** 2
 
             csd = njit((types.UniTuple(arg_type, arg_len),))(csd)
 
@@ -101,8 +101,8 @@ def gen_csd(func, deriv_order=None, step_size=1e-6, complex_arg=False):
                 step = 1e-50
 
                 def csd(*args):
-                    args_k = tuple(np.array(args) + step * 1j * arg_select, arg_len)
-                    return func_im(args_k) / step
+                    args_k = np.array(args) + step * 1j * arg_select
+                    return func_im(*args_k).imag / step
 
             else:
                 im_step_size = math.sqrt(3 + 2 * math.sqrt(2)) * step_size
-- 
2.43.0


From 363b58f9dbcc29a94a1f7ab2110f8a0a3e33f3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:55 +0000
Subject: [PATCH 17/23] fix: name derivatives of custom functions and tables by
 argument position

The printed argument was part of the function name, so a derivative of f(2*x) was not a valid
identifier in the generated code and the partial derivatives of f(x, x) shared a name.
---
 beluga/symbolic/special_functions/custom_functions.py | 6 ++----
 beluga/symbolic/special_functions/tables.py           | 4 ++--
 2 files changed, 4 insertions(+), 6 deletions(-)

diff --git a/beluga/symbolic/special_functions/custom_functions.py b/beluga/symbolic/special_functions/custom_functions.py
index 497c351..1585320 100644
--- a/beluga/symbolic/special_functions/custom_functions.py
+++ b/beluga/symbolic/special_functions/custom_functions.py
@@ -106,13 +106,11 @@ class CustomFunction(Function):
         total_order = sum(order)
 
         post = '_'
-        for arg_k, order_k in zip(arg_list, order):
+        for arg_idx, order_k in enumerate(order):
             if order_k == 0:
                 pass
-            elif order_k == 1:
-                post += 'd' + str(arg_k)
             else:
-                post += 'd' + str(arg_k) + str(order_k)
+                post += 'd' + str(arg_idx) + '_' + str(order_k)
 
         if total_order == 0:
             pre = ''
diff --git a/beluga/symbolic/special_functions/tables.py b/beluga/symbolic/special_functions/tables.py
index 80d69c7..2e432c2 100644
--- a/beluga/symbolic/special_functions/tables.py
+++ b/beluga/symbolic/special_functions/tables.py
@@ -62,10 +62,10 @@ class SymTable(SymTableMeta):
             post = ''
         elif order == 1:
             pre = 'd'
-            post = '_d' + arg_name
+            post = '_d1'
         else:
             pre = 'd' + str(order)
-            post = '_d' + arg_name + str(order)
+            post = '_d' + str(order)
         return pre + table_name + post
 
 
-- 
2.43.0


From 8809ab7e1bfe96fbfc54b962e70e7cd681732498 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:55 +0000
Subject: [PATCH 18/23] fix: tables evaluate at and beyond the ends of their
 data

At the last data point the interpolation read past the end of the arrays, and below the first one it
used the last segment.
---
 beluga/symbolic/special_functions/tables.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/beluga/symbolic/special_functions/tables.py b/beluga/symbolic/special_functions/tables.py
index 2e432c2..7f73e69 100644
--- a/beluga/symbolic/special_functions/tables.py
+++ b/beluga/symbolic/special_functions/tables.py
@@ -105,7 +105,7 @@ class TableSpline1D(object):
 
         if order == 0:
             def interp(x):
-                i = np.searchsorted(data_x, x, side='right')
+                i = min(max(np.searchsorted(data_x, x, side='right'), 1), len(data_x) - 1)
                 coeff = coeff_set[i - 1]
                 t0 = data_x[i - 1]
                 t1 = data_x[i]
@@ -113,7 +113,7 @@ class TableSpline1D(object):
 
         elif order == 1:
             def interp(x):
-                i = np.searchsorted(data_x, x, side='right')
+                i = min(max(np.searchsorted(data_x, x, side='right'), 1), len(data_x) - 1)
                 coeff = coeff_set[i - 1]
                 t0 = data_x[i - 1]
                 t1 = data_x[i]
@@ -121,7 +121,7 @@ class TableSpline1D(object):
 
         elif order == 2:
             def interp(x):
-                i = np.searchsorted(data_x, x, side='right')
+                i = min(max(np.searchsorted(data_x, x, side='right'), 1), len(data_x) - 1)
                 coeff = coeff_set[i - 1]
                 t0 = data_x[i - 1]
                 t1 = data_x[i]
@@ -129,7 +129,7 @@ class TableSpline1D(object):
 
         elif order == 3:
             def interp(x):
-                i = np.searchsorted(data_x, x, side='right')
+                i = min(max(np.searchsorted(data_x, x, side='right'), 1), len(data_x) - 1)
                 coeff = coeff_set[i - 1]
                 return 6*(coeff[0] - coeff[1])
 
-- 
2.43.0


From 3f7d645dda088fbdad32d7cb29cf3f3aeb38c51e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:55 +0000
Subject: [PATCH 19/23] fix: guess generator keeps the options it is
 constructed with

---
 beluga/continuation/guess_generators.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/beluga/continuation/guess_generators.py b/beluga/continuation/guess_generators.py
index a4a1ae8..5a2cf29 100644
--- a/beluga/continuation/guess_generators.py
+++ b/beluga/continuation/guess_generators.py
@@ -33,7 +33,6 @@ class GuessGenerator(object):
         self.generate_funcs = {'auto': self.auto,
                                'static': self.static,
                                'ones': self.ones}
-        self.setup(**kwargs)
         self.dae_num_states = 0
 
         self.mode = 'auto'
@@ -47,6 +46,8 @@ class GuessGenerator(object):
         self.control_guess = None
         self.use_control_guess = False
 
+        self.setup(**kwargs)
+
     def setup(self, mode='auto', **kwargs):
         """Sets up the initial guess generation process"""
         self.mode = mode
-- 
2.43.0


From e13c30c66b3ae3ec7aebf0b89f08b31c47c7358a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:09 +0000
Subject: [PATCH 20/23] fix: quick quadrature reconstruction calls the
 quadrature function like the full one

integrate_quads passes time to the quadrature function, while the propagator's convention is
quad_func(y, *args).
---
 beluga/numeric/ivp_solvers/ivpsol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beluga/numeric/ivp_solvers/ivpsol.py b/beluga/numeric/ivp_solvers/ivpsol.py
index 4f2ddfa..4567417 100644
--- a/beluga/numeric/ivp_solvers/ivpsol.py
+++ b/beluga/numeric/ivp_solvers/ivpsol.py
@@ -96,7 +96,7 @@ class Propagator(Algorithm):
 
         if quad_func is not None and len(q0) != 0:
             if self.quick_reconstruct:
-                qf = integrate_quads(quad_func, tspan, gamma, *args)
+                qf = integrate_quads(lambda t, _y, *_args: quad_func(_y, *_args), tspan, gamma, *args)
                 gamma.q = np.vstack((q0, np.zeros((len(gamma.t)-2, len(q0))), qf+q0))
             else:
                 gamma = reconstruct(quad_func, gamma, q0, *args)
-- 
2.43.0


From 8582ccf484f8149617fccfa3e23bacc6959cbcee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:17 +0000
Subject: [PATCH 21/23] fix: differential control law ignores explicit time
 dependence when time is not a state

---
 beluga/symbolic/data_classes/mapping_functions.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/beluga/symbolic/data_classes/mapping_functions.py b/beluga/symbolic/data_classes/mapping_functions.py
index 42d68ac..079caa4 100644
--- a/beluga/symbolic/data_classes/mapping_functions.py
+++ b/beluga/symbolic/data_classes/mapping_functions.py
@@ -438,7 +438,9 @@ class DifferentialControlLaw(GenericFunctor):
         dg_dx = g.jacobian(state_syms)
         dg_du = g.jacobian(control_syms)
 
-        u_dot = dg_du.LUsolve(-dg_dx * eom)  # dg_du * u_dot + dg_dx * x_dot = 0
+        dg_dt = g.diff(prob.independent_variable.sym)
+
+        u_dot = dg_du.LUsolve(-dg_dx * eom - dg_dt)  # dg_du * u_dot + dg_dx * x_dot + dg_dt = 0
         if sympy.zoo in u_dot.atoms():
             raise NotImplementedError('Complex infinity in differential control law. Potential bang-bang solution.')
 
-- 
2.43.0


From 3382716e6daeb87b13856e52ad4c1b0eb46237c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:24 +0000
Subject: [PATCH 22/23] fix: log without a file shows messages of the display
 level

---
 beluga/utils/logging.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/beluga/utils/logging.py b/beluga/utils/logging.py
index 73e4840..fcf4c8e 100644
--- a/beluga/utils/logging.py
+++ b/beluga/utils/logging.py
@@ -10,7 +10,11 @@ def root():
 
 def init_logging(display_level=logging.INFO, file_level=logging.NOTSET, filename='beluga.log'):
 
-    logging_level = min(display_level, file_level)
+    # NOTSET means that no file is written, it must not lower the level of the logger itself
+    if file_level > logging.NOTSET:
+        logging_level = min(display_level, file_level)
+    else:
+        logging_level = display_level
 
     beluga_logger = logging.getLogger('beluga')
     beluga_logger.setLevel(logging_level)
-- 
2.43.0


From 72bc8facf9e32e98758b5779debaf66ae2f61dd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:51 +0000
Subject: [PATCH 23/23] fix: geometric control mapper handles several controls

---
 beluga/numeric/data_classes/trajectory_mappers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beluga/numeric/data_classes/trajectory_mappers.py b/beluga/numeric/data_classes/trajectory_mappers.py
index 9f94db5..6fccbc3 100644
--- a/beluga/numeric/data_classes/trajectory_mappers.py
+++ b/beluga/numeric/data_classes/trajectory_mappers.py
@@ -264,9 +264,9 @@ class DifferentialControlMapperDiffyG(SolMapper):
 
             sol.dual = np.insert(sol.dual, idx_y, costate_insert, axis=1)
             if len(sol.dual_u) == 0:
-                sol.dual_u = np.array([costate_insert])
+                sol.dual_u = np.array([costate_insert]).T
             else:
-                sol.dual_u = np.insert(sol.dual_u, -1, costate_insert, axis=1)
+                sol.dual_u = np.insert(sol.dual_u, np.shape(sol.dual_u)[1], costate_insert, axis=1)
 
             idx_u_list.append(idx_u)
 
-- 
2.43.0

