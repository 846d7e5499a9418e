From 9d6902f601a0902df0de3f48211dff95c9069a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:40 +0000
Subject: [PATCH 01/37] fix: keep the full free-parameter block of the Hessian,
 not its diagonal

---
 symfit/core/minimizers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfit/core/minimizers.py b/symfit/core/minimizers.py
index ba79f6a..1ecd37e 100644
--- a/symfit/core/minimizers.py
+++ b/symfit/core/minimizers.py
@@ -187,7 +187,7 @@ class HessianMinimizer(GradientMinimizer):
             # Make two dimensional, corresponding to a scalar function.
             out = np.atleast_2d(np.squeeze(out))
             mask = [p not in self._fixed_params for p in self.parameters]
-            return np.atleast_2d(out[mask, mask])
+            return np.atleast_2d(out[np.ix_(mask, mask)])
         return resized
 
 
-- 
2.43.0


From 0d73cb6ca4b71e3a3663dfdb5fc6adf0737f6d2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:40 +0000
Subject: [PATCH 02/37] fix: give every TrustConstr constraint its own Hessian

---
 symfit/core/minimizers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfit/core/minimizers.py b/symfit/core/minimizers.py
index 1ecd37e..1b817ef 100644
--- a/symfit/core/minimizers.py
+++ b/symfit/core/minimizers.py
@@ -588,7 +588,7 @@ class TrustConstr(ScipyHessianMinimize, ScipyConstrainedMinimize, ScipyBoundedMi
             }
             # If None is given to NonlinearConstraint it'll throw a hissy fit.
             if con['hess'] is not None:
-                nonlinearconstr_kwargs['hess'] = lambda x, v: con['hess'](x) * v
+                nonlinearconstr_kwargs['hess'] = lambda x, v, hess=con['hess']: hess(x) * v
             if con['jac'] is not None:
                 nonlinearconstr_kwargs['jac'] = con['jac']
             tc_con = NonlinearConstraint(**nonlinearconstr_kwargs)
-- 
2.43.0


From 7849116ce6b85b7010df2e1102bc854e958e634b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:40 +0000
Subject: [PATCH 03/37] fix: pass only free parameters on between chained
 minimizers

---
 symfit/core/minimizers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfit/core/minimizers.py b/symfit/core/minimizers.py
index 1b817ef..5ab72d7 100644
--- a/symfit/core/minimizers.py
+++ b/symfit/core/minimizers.py
@@ -261,7 +261,7 @@ class ChainedMinimizer(BaseMinimizer):
         for minimizer, kwargs in zip(self.minimizers, bound_arguments.arguments.values()):
             minimizer.initial_guesses = next_guess
             ans = minimizer.execute(**kwargs)
-            next_guess = list(ans.params.values())
+            next_guess = [ans.params[p.name] for p in self.params]
             answers.append(ans)
         final = answers[-1]
         # TODO: Compile all previous results in one, instead of just the
-- 
2.43.0


From 78de28100ef47f1b282341c75b684df4c15ed3a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:40 +0000
Subject: [PATCH 04/37] fix: chained minimizers which do not report their
 number of iterations

---
 symfit/core/minimizers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/symfit/core/minimizers.py b/symfit/core/minimizers.py
index 5ab72d7..fb3576f 100644
--- a/symfit/core/minimizers.py
+++ b/symfit/core/minimizers.py
@@ -267,7 +267,9 @@ class ChainedMinimizer(BaseMinimizer):
         # TODO: Compile all previous results in one, instead of just the
         # number of function evaluations. But there's some code down the
         # line that expects scalars.
-        final.minimizer_output['nit'] = sum(ans.iterations for ans in answers)
+        final.minimizer_output['nit'] = sum(
+            ans.iterations for ans in answers if ans.iterations is not None
+        )
         return final
 
     def _make_signature(self):
-- 
2.43.0


From ea758da4eaf0869bb0b85a94ecdb0dbb1c3f4fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:40 +0000
Subject: [PATCH 05/37] fix: do not modify the options dict provided to
 TrustConstr.execute

---
 symfit/core/minimizers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/symfit/core/minimizers.py b/symfit/core/minimizers.py
index fb3576f..cfed801 100644
--- a/symfit/core/minimizers.py
+++ b/symfit/core/minimizers.py
@@ -598,8 +598,8 @@ class TrustConstr(ScipyHessianMinimize, ScipyConstrainedMinimize, ScipyBoundedMi
         return out
 
     def execute(self, *, jacobian=None, hessian=None, options=None, **minimize_options):
-        if options is None:
-            options = {}
+        # Work on a copy, the options belong to the user.
+        options = {} if options is None else dict(options)
         # Our Jacobians are dense, and apparently we need to explicitely
         # tell this.
         options['sparse_jacobian'] = False
-- 
2.43.0


From 8c0c1ce83ddf41dd1ed2e34f0f72ddec9187b4f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:40 +0000
Subject: [PATCH 06/37] fix: do not modify the minimizer_kwargs dict provided
 to BasinHopping.execute

---
 symfit/core/minimizers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/symfit/core/minimizers.py b/symfit/core/minimizers.py
index cfed801..bd1788b 100644
--- a/symfit/core/minimizers.py
+++ b/symfit/core/minimizers.py
@@ -719,8 +719,10 @@ class BasinHopping(ScipyMinimize, GlobalMinimizer):
             :func:`scipy.optimize.basinhopping`.
         :return: :class:`symfit.core.fit_results.FitResults`
         """
-        if 'minimizer_kwargs' not in minimize_options:
-            minimize_options['minimizer_kwargs'] = {}
+        # Work on a copy, minimizer_kwargs belongs to the user.
+        minimize_options['minimizer_kwargs'] = dict(
+            minimize_options.get('minimizer_kwargs', {})
+        )
 
         if 'method' not in minimize_options['minimizer_kwargs']:
             # If no minimizer was set by the user upon execute, use local_minimizer
-- 
2.43.0


From f1bebb875621c825ee1a804573bb2ab0aa52a6db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:40 +0000
Subject: [PATCH 07/37] fix: accept Le relations given directly to a
 constrained minimizer

---
 symfit/core/minimizers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/symfit/core/minimizers.py b/symfit/core/minimizers.py
index bd1788b..6779ccc 100644
--- a/symfit/core/minimizers.py
+++ b/symfit/core/minimizers.py
@@ -484,10 +484,11 @@ class ScipyConstrainedMinimize(ScipyMinimize, ConstrainedMinimizer):
                 constraint_type = constraint.constraint_type
                 constraint = MinimizeModel(constraint, data=self.objective.data)
             elif isinstance(constraint, sympy.Rel):
-                constraint_type = constraint.__class__
                 constraint = self.objective.model.__class__.as_constraint(
                     constraint, self.objective.model
                 )
+                # as_constraint turns Le into Ge, so use the type it settled on
+                constraint_type = constraint.constraint_type
                 constraint = MinimizeModel(constraint, data=self.objective.data)
             else:
                 raise TypeError('Unknown type for a constraint.')
-- 
2.43.0


From c184f2a372e93e328edf2f2029b31a3d9aca5008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:40 +0000
Subject: [PATCH 08/37] fix: compare model lengths by value instead of identity

---
 symfit/core/models.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfit/core/models.py b/symfit/core/models.py
index dbbe855..223cd4d 100644
--- a/symfit/core/models.py
+++ b/symfit/core/models.py
@@ -287,7 +287,7 @@ class BaseModel(Mapping):
         :param other: Instance of ``Model``.
         :return: bool
         """
-        if len(self) is not len(other):
+        if len(self) != len(other):
             return False
         else:
             for var_1, var_2 in zip(self, other):
-- 
2.43.0


From 29acbac9b717afac147fa5847e1cc3d52fc1c2af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:40 +0000
Subject: [PATCH 09/37] fix: keep the integrator settings when negating an
 ODEModel

---
 symfit/core/models.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/symfit/core/models.py b/symfit/core/models.py
index 223cd4d..1e50d0c 100644
--- a/symfit/core/models.py
+++ b/symfit/core/models.py
@@ -1095,7 +1095,8 @@ class ODEModel(BaseGradientModel):
         new_model_dict = self.model_dict.copy()
         for key in new_model_dict:
             new_model_dict[key] *= -1
-        return self.__class__(new_model_dict, initial=self.initial)
+        return self.__class__(new_model_dict, initial=self.initial,
+                              **self.integrator_kwargs)
 
     @cached_property
     def _ncomponents(self):
-- 
2.43.0


From 189a501412c678f52008fdc29356f586d51f556a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:40 +0000
Subject: [PATCH 10/37] fix: negating numerical models

---
 symfit/core/models.py | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/symfit/core/models.py b/symfit/core/models.py
index 1e50d0c..066dc1b 100644
--- a/symfit/core/models.py
+++ b/symfit/core/models.py
@@ -618,9 +618,18 @@ class BaseNumericalModel(BaseModel):
             but returns a new copy.
         """
         new_model_dict = {}
-        for key, callable_expr in self.model_dict.values():
-            new_model_dict[key] = lambda *args, **kwargs: - callable_expr(*args, **kwargs)
-        return self.__class__(new_model_dict)
+        for key, component in self.model_dict.items():
+            if key not in self.dependent_vars:
+                # Interdependent, so it only acts as input to other components
+                new_model_dict[key] = component
+            elif isinstance(component, sympy.Basic):
+                new_model_dict[key] = - component
+            else:
+                new_model_dict[key] = partial(_negated_call, component)
+        return self.__class__(
+            new_model_dict,
+            connectivity_mapping=self.connectivity_mapping.copy()
+        )
 
     @property
     def shared_parameters(self):
@@ -632,6 +641,11 @@ class BaseNumericalModel(BaseModel):
         )
 
 
+def _negated_call(func, *args, **kwargs):
+    """ Minus the value of ``func``. At module level so it can be pickled. """
+    return - func(*args, **kwargs)
+
+
 class BaseCallableModel(BaseModel):
     """
     Baseclass for callable models. A callable model is expected to have
-- 
2.43.0


From 3512b02b07da47fe04dc2fca185746ae7fd91065 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:40 +0000
Subject: [PATCH 11/37] fix: evaluate an ODEModel at an array with only the
 initial point

---
 symfit/core/models.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/symfit/core/models.py b/symfit/core/models.py
index 066dc1b..c355547 100644
--- a/symfit/core/models.py
+++ b/symfit/core/models.py
@@ -1235,6 +1235,9 @@ class ODEModel(BaseGradientModel):
             elif not ans_bigger.success:
                 raise ODEError(ans_bigger.message)
             ans = np.concatenate((ans_smaller.y[:, :0:-1], ans_bigger.y), axis=1)
+        elif ans_smaller is None and ans_bigger is None:
+            # Evaluated only at the initial condition, so we know the answer.
+            ans = np.atleast_2d(initial_dependent).T
         elif ans_smaller is None:
             if not ans_bigger.success:
                 raise ODEError(ans_bigger.message)
-- 
2.43.0


From 61e521210c0526beec4400ac44d73eac5b1440ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:40 +0000
Subject: [PATCH 12/37] fix: apply the chain rule in the symbolic Hessian of
 interdependent models

---
 symfit/core/models.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/symfit/core/models.py b/symfit/core/models.py
index c355547..227285b 100644
--- a/symfit/core/models.py
+++ b/symfit/core/models.py
@@ -938,8 +938,10 @@ class HessianModel(GradientModel):
             second order partial derivatives. Partial derivatives are taken with
             respect to the Parameter's, not the independent Variable's.
         """
-        return [[[sympy.diff(partial_dv, param) for param in self.params]
-                 for partial_dv in comp] for comp in self.jacobian]
+        # Second derivatives which are not present are zero.
+        return [[[self.hessian_model.model_dict.get(D(var, p1, p2), sympy.S.Zero)
+                  for p2 in self.params] for p1 in self.params]
+                for var in self]
 
     def eval_hessian(self, *args, **kwargs):
         """
-- 
2.43.0


From e43371964d9e384cdbed537473431877ae0503a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:40 +0000
Subject: [PATCH 13/37] fix: LeastSquares per component

---
 symfit/core/objectives.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/symfit/core/objectives.py b/symfit/core/objectives.py
index 89255d6..eab4168 100644
--- a/symfit/core/objectives.py
+++ b/symfit/core/objectives.py
@@ -317,8 +317,9 @@ class LeastSquares(HessianObjective):
                 chi2[index] += np.sum(
                     (dep_var_value - dep_data) ** 2 / sigma ** 2
                 )
-        chi2 = np.sum(chi2) if flatten_components else chi2
-        return chi2 / 2
+        if flatten_components:
+            return np.sum(chi2) / 2
+        return [component / 2 for component in chi2]
 
     def eval_jacobian(self, ordered_parameters=[], **parameters):
         """
-- 
2.43.0


From 16f3ab5d891b91e61e818b7ec3d4d92ebe4f1fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:40 +0000
Subject: [PATCH 14/37] fix: comparing objectives whose data has different keys
 or shapes

---
 symfit/core/objectives.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/symfit/core/objectives.py b/symfit/core/objectives.py
index eab4168..3f09e58 100644
--- a/symfit/core/objectives.py
+++ b/symfit/core/objectives.py
@@ -158,14 +158,18 @@ class BaseObjective(object, metaclass=abc.ABCMeta):
             return False
 
         # Check if the data is also equivalent
+        if set(self.data) != set(other.data):
+            return False
         for key, value in self.data.items():
             try:
                 equal = np.allclose(other.data[key], value)
             except TypeError:
                 equal = other.data[key] == value
-            finally:
-                if not equal:
-                    return False
+            except ValueError:
+                # Arrays which can not be broadcast together
+                equal = False
+            if not equal:
+                return False
         return True
 
     def _sanity_checking(self):
-- 
2.43.0


From 11073a1849e97f4239f4a7e57383a0a37e94ae5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:40 +0000
Subject: [PATCH 15/37] fix: accept zero-dimensional arrays as constant sigma

---
 symfit/core/fit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfit/core/fit.py b/symfit/core/fit.py
index 3cbcadb..5100243 100644
--- a/symfit/core/fit.py
+++ b/symfit/core/fit.py
@@ -98,7 +98,7 @@ class TakesData(object):
                 if self.data[var] is not None and self.data[sigma] is None:
                     self.data[sigma] = np.ones(self.data[var].shape)
                 elif self.data[var] is not None:
-                    self.data[sigma] *= np.ones(self.data[var].shape)
+                    self.data[sigma] = self.data[sigma] * np.ones(self.data[var].shape)
 
         # If user gives a preference, use that. Otherwise, use True if at least one sigma is
         # given, False if no sigma is given.
-- 
2.43.0


From 52d31040f9936fe0b5a72799695e2d1d0f213f72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:40 +0000
Subject: [PATCH 16/37] fix: covariance is None, like variance, when there is
 no covariance matrix

---
 symfit/core/fit_results.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/symfit/core/fit_results.py b/symfit/core/fit_results.py
index ad41ecb..d0520ee 100644
--- a/symfit/core/fit_results.py
+++ b/symfit/core/fit_results.py
@@ -151,7 +151,11 @@ class FitResults(object):
         """
         param_1_number = self.model.params.index(param_1)
         param_2_number = self.model.params.index(param_2)
-        return self.covariance_matrix[param_1_number, param_2_number]
+        try:
+            return self.covariance_matrix[param_1_number, param_2_number]
+        except TypeError:
+            # covariance_matrix can be None
+            return None
 
     @staticmethod
     def _array_safe_dict_eq(one_dict, other_dict):
-- 
2.43.0


From 5288fd5fa4cf3b0e124b695a92dfa41e88f67d3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:40 +0000
Subject: [PATCH 17/37] fix: always set the bounds of a fixed Parameter

---
 symfit/core/argument.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/symfit/core/argument.py b/symfit/core/argument.py
index ef0bba0..2557b90 100644
--- a/symfit/core/argument.py
+++ b/symfit/core/argument.py
@@ -119,9 +119,8 @@ class Parameter(Argument):
             if not self.fixed:
                 raise ValueError('The value of `min` should be less than or'
                                  ' equal to the value of `max`.')
-        else:
-            self.min = min
-            self.max = max
+        self.min = min
+        self.max = max
 
     def __eq__(self, other):
         """
-- 
2.43.0


From 2dd2f2dffb36f1e37ba6eea5e56216873715466f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:24 +0000
Subject: [PATCH 18/37] fix: name the offending keyword when a sequence has the
 wrong length

---
 symfit/core/support.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfit/core/support.py b/symfit/core/support.py
index 58a4376..28b8d87 100644
--- a/symfit/core/support.py
+++ b/symfit/core/support.py
@@ -223,7 +223,7 @@ def parameters(names, **kwargs):
         except AssertionError:
             raise ValueError(
                 '`len` of keyword-argument `{}` does not match the number of '
-                '`Parameter`s created.'.format(attr)
+                '`Parameter`s created.'.format(key)
             )
         except TypeError:
             # Iterator do not have a `len` but are allowed.
-- 
2.43.0


From 430ef696d9c96c82941f824c07ddc3654b9eb531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:24 +0000
Subject: [PATCH 19/37] fix: leave fixed parameters out of the covariance
 matrix

---
 symfit/core/fit.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/symfit/core/fit.py b/symfit/core/fit.py
index 5100243..e5393e2 100644
--- a/symfit/core/fit.py
+++ b/symfit/core/fit.py
@@ -243,7 +243,13 @@ class HasCovarianceMatrix(TakesData):
 
         try:
             # The squeezing to a matrix is required for MinimizeModel objectives
-            hess_inv = np.linalg.inv(np.atleast_2d(np.squeeze(hess)))
+            hess = np.atleast_2d(np.squeeze(hess))
+            # Fixed parameters are constants, so they have no (co)variance and
+            # should not influence that of the others.
+            mask = [not p.fixed for p in self.model.params]
+            free = np.ix_(mask, mask)
+            hess_inv = np.zeros(hess.shape)
+            hess_inv[free] = np.linalg.inv(hess[free])
         except np.linalg.LinAlgError:
             return None
 
@@ -254,7 +260,7 @@ class HasCovarianceMatrix(TakesData):
             rss = 2 * objective(**key2str(best_fit_params))
             # Degrees of freedom
             raw_dof = np.sum([np.product(shape) for shape in self.data_shapes[1]])
-            dof = raw_dof - len(self.model.params)
+            dof = raw_dof - len(self.model.free_params)
             if self.absolute_sigma:
                 # When interpreting as measurement error, we do not rescale.
                 s2 = 1
-- 
2.43.0


From 1d9449c998e28cc362ac5b16b7316d647c8e3677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:53 +0000
Subject: [PATCH 20/37] fix: draw the percentile error bars of InteractiveGuess
 at the percentiles

---
 symfit/contrib/interactive_guess/interactive_guess.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/symfit/contrib/interactive_guess/interactive_guess.py b/symfit/contrib/interactive_guess/interactive_guess.py
index 370d7c0..f4d4ab3 100644
--- a/symfit/contrib/interactive_guess/interactive_guess.py
+++ b/symfit/contrib/interactive_guess/interactive_guess.py
@@ -345,8 +345,8 @@ class StrategynD:
         y_plot_error = np.array(y_plot_error)
 
         xs = np.column_stack((x_plot_data, x_plot_data))
-        yerr = y_plot_error + y_plot_data[:, np.newaxis]
-        y_segments = np.dstack((xs, yerr))
+        # The percentiles are y values already, not offsets from the mean.
+        y_segments = np.dstack((xs, y_plot_error))
         plot_line, caps, error_lines = self.ig._plots[(indep_var, dep_var)]
         plot_line.set_data(x_plot_data, y_plot_data)
         error_lines[1].set_segments(y_segments)
-- 
2.43.0


From 272ce2923f9c18bf0ca3f533338d3acaf4c71eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:30 +0000
Subject: [PATCH 21/37] fix: chain rule through more than two levels of
 interdependent variables

---
 symfit/core/models.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/symfit/core/models.py b/symfit/core/models.py
index 227285b..1fed45f 100644
--- a/symfit/core/models.py
+++ b/symfit/core/models.py
@@ -1315,13 +1315,26 @@ def jacobian_from_model(model, as_functions=False):
     :return: :class:`~symfit.core.models.CallableModel` representing the Jacobian
         of ``model``.
     """
+    # Functions of only the independent symbols, e.g. z(x, a) instead of
+    # z(y(x, a), a). The derivative of such a function is a single object, whereas
+    # sympy applies the chain rule to the derivative of a nested one.
+    key = lambda arg: [isinstance(arg, Parameter), str(arg)]
+    flattened = {}
+    independent = {}
+    for var, func in model.vars_as_functions.items():
+        independent[var] = set()
+        for symbol in model.connectivity_mapping[var]:
+            independent[var] |= independent.get(symbol, {symbol})
+        flattened[func] = func.func(*sorted(independent[var], key=key))
     # Inverse dict so we can turn functions back into vars in the end
-    functions_as_vars = dict((v, k) for k, v in model.vars_as_functions.items())
+    functions_as_vars = dict((flattened[v], k)
+                             for k, v in model.vars_as_functions.items())
     # Create the jacobian components. The `vars` here in the model_dict are
     # always of the type D(y, a), but the righthand-side might still contain
     # functions instead of vars depending on the value of `as_functions`.
     jac = {}
     for func, expr in model.function_dict.items():
+        func, expr = flattened[func], expr.xreplace(flattened)
         for param in model.params:
             target = D(func, param)
             dfdp = expr.diff(param)
-- 
2.43.0


From bb8aa15427a550b6655712c65d250f4974be95c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:06 +0000
Subject: [PATCH 22/37] fix: pass values to a custom callable in the order of
 the given parameters

---
 symfit/core/minimizers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/symfit/core/minimizers.py b/symfit/core/minimizers.py
index 6779ccc..ddb2b24 100644
--- a/symfit/core/minimizers.py
+++ b/symfit/core/minimizers.py
@@ -68,6 +68,8 @@ class BaseMinimizer(object):
                     {y: func},
                     connectivity_mapping={y: set(self.parameters)}
                 )
+                # Values are passed on in the order of the given parameters.
+                model.params = list(self.parameters)
             return objective_type(model,
                                   data={})
 
-- 
2.43.0


From b734d0cb4ee61a06d1a11b6dd02a450acf9ac44c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:16 +0000
Subject: [PATCH 23/37] fix: with_dependencies adds only the components which
 are depended upon

---
 symfit/core/models.py | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/symfit/core/models.py b/symfit/core/models.py
index 1fed45f..4115664 100644
--- a/symfit/core/models.py
+++ b/symfit/core/models.py
@@ -233,20 +233,18 @@ class BaseModel(Mapping):
             # This is the case for BaseNumericalModel's
             connectivity_mapping = init_kwargs.get('connectivity_mapping',
                                                    model.connectivity_mapping)
-            for var in model.independent_vars:
-                if var in dependency_model:
-                    # Add this var and all its dependencies.
-                    # Walk over all possible dependencies of this
-                    # variable until we no longer have dependencies.
-                    for symbol in dependency_model.ordered_symbols:
-                        # Not everything in ordered_symbols is a key of
-                        # model, think e.g. parameters
-                        if symbol in dependency_model:
-                            if symbol not in model_dict:
-                                model_dict[symbol] = dependency_model[symbol]
-                                connectivity_mapping[symbol] = dependency_model.connectivity_mapping[symbol]
-                        if symbol == var:
-                            break
+            # Add these vars and all their dependencies. Walk over all possible
+            # dependencies until we no longer have any. Only the ones which are
+            # really needed are added, so the result does not depend on the
+            # arbitrary order of equal priority symbols in ordered_symbols.
+            dependencies = list(model.independent_vars)
+            while dependencies:
+                symbol = dependencies.pop()
+                # Not every dependency is a key of model, think e.g. parameters
+                if symbol in dependency_model and symbol not in model_dict:
+                    model_dict[symbol] = dependency_model[symbol]
+                    connectivity_mapping[symbol] = dependency_model.connectivity_mapping[symbol]
+                    dependencies.extend(connectivity_mapping[symbol])
             # connectivity_mapping in init_kwargs has been updated if it was
             # present, since python is pass by reference. If it wasn't present,
             # we are dealing with a type of model that will build its own
-- 
2.43.0


From 9ad86c6f62a9c88a2eae2dd1f5e4ad90b3ebf4b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:32 +0000
Subject: [PATCH 24/37] fix: parameters() checks the bounds of every parameter
 it creates

---
 symfit/core/support.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/symfit/core/support.py b/symfit/core/support.py
index 28b8d87..39a9049 100644
--- a/symfit/core/support.py
+++ b/symfit/core/support.py
@@ -210,12 +210,6 @@ def parameters(names, **kwargs):
         else:
             sequences[attr] = kwargs.pop(attr)
 
-    if 'min' in sequences and 'max' in sequences:
-        for min, max in zip(sequences['min'], sequences['max']):
-            if min > max:
-                raise ValueError('The value of `min` should be less than or'
-                                 ' equal to the value of `max`.')
-
     params = symbols(names, cls=Parameter, seq=True, **kwargs)
     for key, values in sequences.items():
         try:
@@ -231,6 +225,12 @@ def parameters(names, **kwargs):
         finally:
             for param, value in zip(params, values):
                 setattr(param, key, value)
+
+    for param in params:
+        if param.min is not None and param.max is not None and not param.fixed:
+            if param.min > param.max:
+                raise ValueError('The value of `min` should be less than or'
+                                 ' equal to the value of `max`.')
     return params
 
 
-- 
2.43.0


From 3f00366a4ff6901efa1f4c741538b9fabc9ccd89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:35:53 +0000
Subject: [PATCH 25/37] fix: ODEModels with different initial conditions are
 not equal

---
 symfit/core/models.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/symfit/core/models.py b/symfit/core/models.py
index 4115664..3717cf2 100644
--- a/symfit/core/models.py
+++ b/symfit/core/models.py
@@ -287,6 +287,9 @@ class BaseModel(Mapping):
         """
         if len(self) != len(other):
             return False
+        elif getattr(self, 'initial', None) != getattr(other, 'initial', None):
+            # Only an ODEModel has initial conditions, which are part of it.
+            return False
         else:
             for var_1, var_2 in zip(self, other):
                 if var_1 != var_2:
-- 
2.43.0


From 6978b022d4c8f9d02d8ee9ae66083678d34d329e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:04 +0000
Subject: [PATCH 26/37] fix: comparing a model with one made of callables gives
 an answer

---
 symfit/core/models.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/symfit/core/models.py b/symfit/core/models.py
index 3717cf2..81c8871 100644
--- a/symfit/core/models.py
+++ b/symfit/core/models.py
@@ -295,7 +295,11 @@ class BaseModel(Mapping):
                 if var_1 != var_2:
                     return False
                 else:
-                    if not self[var_1].expand() == other[var_2].expand():
+                    try:
+                        equal = self[var_1].expand() == other[var_2].expand()
+                    except AttributeError:  # Not an expression, but a callable
+                        equal = self[var_1] == other[var_2]
+                    if not equal:
                         return False
             else:
                 return True
-- 
2.43.0


From d54ea142f3f9c028bc96e7405595cf166d2dcee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:36 +0000
Subject: [PATCH 27/37] fix: with_dependencies leaves the connectivity_mapping
 of the user alone

---
 symfit/core/models.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/symfit/core/models.py b/symfit/core/models.py
index 81c8871..f0d1e77 100644
--- a/symfit/core/models.py
+++ b/symfit/core/models.py
@@ -225,6 +225,9 @@ class BaseModel(Mapping):
             init method of this class.
         :return: A stand-alone :class:`~symfit.core.models.BaseModel` subclass.
         """
+        if init_kwargs.get('connectivity_mapping'):
+            # It is extended below, the mapping of the user should stay the same
+            init_kwargs['connectivity_mapping'] = dict(init_kwargs['connectivity_mapping'])
         model = cls(model_expr, **init_kwargs)  # Initiate model instance.
         if any(var in dependency_model for var in model.independent_vars):
             # This model depends on the output of the dependency_model,
-- 
2.43.0


From 6f95e8f333b86fd6ef73e3921c05ab6583ab2b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:56 +0000
Subject: [PATCH 28/37] fix: element-wise products and powers of matrices are
 printed completely and with parentheses

---
 symfit/core/printing.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/symfit/core/printing.py b/symfit/core/printing.py
index 487284c..0040c6a 100644
--- a/symfit/core/printing.py
+++ b/symfit/core/printing.py
@@ -13,6 +13,7 @@ Users using both ``symfit`` and ``sympy`` should be aware of this.
 import pkg_resources
 from sympy import HadamardProduct, MatPow, Idx, Inverse
 from sympy.printing.codeprinter import CodePrinter
+from sympy.printing.precedence import PRECEDENCE
 
 ##########################################################
 # Monkeypatch the printers until this is merged upstream #
@@ -41,8 +42,8 @@ def _print_Inverse(self, printer):
 Inverse._numpycode = _print_Inverse
 
 def _print_HadamardProduct(self, printer):
-    return "%s*%s" % (printer.doprint(self.args[0]),
-                      printer.doprint(self.args[1]))
+    return "*".join(printer.parenthesize(arg, PRECEDENCE['Mul'])
+                    for arg in self.args)
 HadamardProduct._numpycode = _print_HadamardProduct
 
 if pkg_resources.parse_version(pkg_resources.get_distribution('sympy').version) \
@@ -50,8 +51,8 @@ if pkg_resources.parse_version(pkg_resources.get_distribution('sympy').version)
     from sympy import HadamardPower
 
     def _print_HadamardPower(self, printer):
-        return "%s**%s" % (printer.doprint(self.args[0]),
-                          printer.doprint(self.args[1]))
+        return "%s**%s" % (printer.parenthesize(self.args[0], PRECEDENCE['Pow']),
+                           printer.parenthesize(self.args[1], PRECEDENCE['Pow']))
     HadamardPower._numpycode = _print_HadamardPower
 
 def _print_Idx(self, printer):
-- 
2.43.0


From f817e4eda646d5321aca8efdd0004ced0b5bfeda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:47:43 +0000
Subject: [PATCH 29/37] fix: a parameter or variable called beta, gamma, S or N
 made evaluating any model with it fail

---
 symfit/core/argument.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfit/core/argument.py b/symfit/core/argument.py
index 2557b90..9dac540 100644
--- a/symfit/core/argument.py
+++ b/symfit/core/argument.py
@@ -73,7 +73,7 @@ class Argument(Symbol):
         return state
 
     def _sympystr(self, printer, *args, **kwargs):
-        return printer.doprint(self.name)
+        return self.name
 
     _lambdacode = _sympystr
     _numpycode = _sympystr
-- 
2.43.0


From a8630672cc87d77681364e6d9f74f4c8625f8a83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:42 +0000
Subject: [PATCH 30/37] fix: with a data shape beginning with the number of
 parameters, derivatives of components of fewer dimensions were not broadcast

---
 symfit/core/objectives.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/symfit/core/objectives.py b/symfit/core/objectives.py
index 3f09e58..431efb8 100644
--- a/symfit/core/objectives.py
+++ b/symfit/core/objectives.py
@@ -114,7 +114,7 @@ class BaseObjective(object, metaclass=abc.ABCMeta):
         for dep_var, component in zip(self.model.dependent_vars, model_output):
             dep_data = self.dependent_data.get(dep_var, None)
             if dep_data is not None:
-                if dep_data.shape == component.shape:
+                if dep_data.shape == component.shape[param_level:]:
                     shaped_result.append(component)
                 else:
                     # Add extra dimensions to the component if needed.
-- 
2.43.0


From c3e51e68a4b48553d2559b956fac169fbb5fb34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:09 +0000
Subject: [PATCH 31/37] fix: the components of a model made of a list were
 ordered by memory address, and equal ones were dropped

---
 symfit/core/models.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/symfit/core/models.py b/symfit/core/models.py
index f0d1e77..362b9ac 100644
--- a/symfit/core/models.py
+++ b/symfit/core/models.py
@@ -139,7 +139,15 @@ class BaseModel(Mapping):
             # the object's ID (preappended with an underscore for it to be a
             # valid identifier) to surpress the DepricationWarnings raised when
             # instantiating a Variable without a name.
-            model = {Variable("_" + str(id(expr))): expr for expr in model}
+            #
+            # The position comes first in the name, such that the components
+            # keep their order and equal expressions have their own name.
+            model = list(model)
+            width = len(str(len(model)))
+            model = {
+                Variable('_{}_{}'.format(str(idx).zfill(width), id(expr))): expr
+                for idx, expr in enumerate(model)
+            }
         self._init_from_dict(model)
 
     @classmethod
-- 
2.43.0


From f4df07a79d562c9baa56ba7c111c355c477d7d5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:05:09 +0000
Subject: [PATCH 32/37] fix: the slider of an unbounded parameter with a
 negative value was reversed, and set the parameter to 0

---
 symfit/contrib/interactive_guess/interactive_guess.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/symfit/contrib/interactive_guess/interactive_guess.py b/symfit/contrib/interactive_guess/interactive_guess.py
index f4d4ab3..8ab5cc1 100644
--- a/symfit/contrib/interactive_guess/interactive_guess.py
+++ b/symfit/contrib/interactive_guess/interactive_guess.py
@@ -30,7 +30,7 @@ class InteractiveGuess(TakesData):
         percentile of data within the thresholds.
 
         Slider extremes are taken from the parameters where possible. If
-        these are not provided, the minimum is 0; and the maximum is value*2.
+        these are not provided, they are 0 and value*2.
         If no initial value is provided, it defaults to 1.
 
         This will modify the values of the parameters present in model.
@@ -172,11 +172,11 @@ class InteractiveGuess(TakesData):
                                    facecolor=axbg, label=param)
             val = param.value
             if not hasattr(param, 'min') or param.min is None:
-                minimum = 0
+                minimum = min(0, 2 * val)
             else:
                 minimum = param.min
             if not hasattr(param, 'max') or param.max is None:
-                maximum = 2 * val
+                maximum = max(0, 2 * val)
             else:
                 maximum = param.max
 
-- 
2.43.0


From e99c4d6e00e22305ced371c478a1722907ba2899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:49 +0000
Subject: [PATCH 33/37] fix: comparing objectives of which one lacks data that
 the other has raised ValueError

---
 symfit/core/objectives.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/symfit/core/objectives.py b/symfit/core/objectives.py
index 431efb8..b4d19c8 100644
--- a/symfit/core/objectives.py
+++ b/symfit/core/objectives.py
@@ -164,7 +164,8 @@ class BaseObjective(object, metaclass=abc.ABCMeta):
             try:
                 equal = np.allclose(other.data[key], value)
             except TypeError:
-                equal = other.data[key] == value
+                # Not numbers, for example None
+                equal = np.array_equal(other.data[key], value)
             except ValueError:
                 # Arrays which can not be broadcast together
                 equal = False
-- 
2.43.0


From 3f3ca2ea42d4740e85aff7ff3c27339f14a4d398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:25 +0000
Subject: [PATCH 34/37] fix: symbols which are not components are not part of
 an ODEModel

---
 symfit/core/models.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/symfit/core/models.py b/symfit/core/models.py
index 362b9ac..6c622b2 100644
--- a/symfit/core/models.py
+++ b/symfit/core/models.py
@@ -1110,8 +1110,10 @@ class ODEModel(BaseGradientModel):
         :return:
         """
         for d, f in self.model_dict.items():
-            if dependent_var == self.dependent_derivatives[d]:
+            # The equations can also be looked up by the derivative they define
+            if dependent_var in (self.dependent_derivatives[d], d):
                 return f
+        raise KeyError(dependent_var)
 
     def __iter__(self):
         """
-- 
2.43.0


From 658822f91c83a42d970db39dbff9019bcd8d223d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:16 +0000
Subject: [PATCH 35/37] fix: BaseModel could not be pickled

Only callable models have a __signature__ to remove and restore.
---
 symfit/core/models.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/symfit/core/models.py b/symfit/core/models.py
index 6c622b2..b957ace 100644
--- a/symfit/core/models.py
+++ b/symfit/core/models.py
@@ -537,7 +537,7 @@ class BaseModel(Mapping):
         # Remove cached_property values from the state, they need to be
         # re-calculated after pickle.
         state = self.__dict__.copy()
-        del state['__signature__']
+        state.pop('__signature__', None)  # Only callable models have one
         for key in self.__dict__:
             if key.startswith(cached_property.base_str):
                 del state[key]
@@ -545,7 +545,8 @@ class BaseModel(Mapping):
 
     def __setstate__(self, state):
         self.__dict__.update(state)
-        self.__signature__ = self._make_signature()
+        if hasattr(self, '_make_signature'):
+            self.__signature__ = self._make_signature()
 
 
 class BaseNumericalModel(BaseModel):
-- 
2.43.0


From acc7703e0460f67bb5cc6bb9e5dd1a868b954cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:26:16 +0000
Subject: [PATCH 36/37] fix: components of callables given as a list could
 change order

The generated names var_9, var_10 are not in alphabetical order, so the
outputs came in another order than the callables when counting reached
another number of digits. Name them the way BaseModel does.
---
 symfit/core/models.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/symfit/core/models.py b/symfit/core/models.py
index b957ace..c576420 100644
--- a/symfit/core/models.py
+++ b/symfit/core/models.py
@@ -580,7 +580,13 @@ class BaseNumericalModel(BaseModel):
                 except TypeError:
                     model = [model]  # make model iterable
 
-                model = {Variable(): expr for expr in model}
+                # Like in BaseModel, the names have to preserve the order given
+                model = list(model)
+                width = len(str(len(model)))
+                model = {
+                    Variable('_{}_{}'.format(str(idx).zfill(width), id(expr))): expr
+                    for idx, expr in enumerate(model)
+                }
             warnings.warn(DeprecationWarning(
                 '`independent_vars` and `params` have been deprecated.'
                 ' Use `connectivity_mapping` instead.'
-- 
2.43.0


From 197e3bd23ecd9a85ca69d8fe7ec0896c5b292b7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:29:07 +0000
Subject: [PATCH 37/37] fix: constant components could not be shown by
 InteractiveGuess

A component without independent variables is a single number, which can
not be plotted against the grid.
---
 symfit/contrib/interactive_guess/interactive_guess.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/symfit/contrib/interactive_guess/interactive_guess.py b/symfit/contrib/interactive_guess/interactive_guess.py
index 8ab5cc1..bc92a10 100644
--- a/symfit/contrib/interactive_guess/interactive_guess.py
+++ b/symfit/contrib/interactive_guess/interactive_guess.py
@@ -6,6 +6,7 @@
 
 from ... import ODEModel, Derivative, latex
 from ...core.fit import TakesData
+from ...core.models import ModelOutput
 from ...core.support import key2str, deprecated
 
 import itertools
@@ -217,7 +218,10 @@ class InteractiveGuess(TakesData):
         """
         arguments = self._x_grid.copy()
         arguments.update({param: param.value for param in self.model.params})
-        return self.model(**key2str(arguments))
+        output = self.model(**key2str(arguments))
+        # Constant components are a single number, so show it at every point
+        arrays = np.broadcast_arrays(*output, *self._x_grid.values())
+        return ModelOutput(self.model.keys(), arrays[:len(output)])
 
     def __str__(self):
         """
-- 
2.43.0

