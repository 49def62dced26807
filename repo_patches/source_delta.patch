From 882ef033713cb595098b54e7b234c2bff5d52c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:27 +0000
Subject: [PATCH 01/95] fix: remove_state also drops the state's initial
 condition symbol from x_0

---
 yaocptool/modelling/mixins/continuous_states_mixin.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/yaocptool/modelling/mixins/continuous_states_mixin.py b/yaocptool/modelling/mixins/continuous_states_mixin.py
index c746088..a203d11 100644
--- a/yaocptool/modelling/mixins/continuous_states_mixin.py
+++ b/yaocptool/modelling/mixins/continuous_states_mixin.py
@@ -7,7 +7,11 @@ from casadi import SX, substitute, vec, vertcat
 
 from yaocptool.modelling.mixins.base_mixin import BaseMixin
 from yaocptool.modelling.utils import Derivative, EqualityEquation
-from yaocptool.util.util import remove_variables_from_vector
+from yaocptool.util.util import (
+    find_variables_indices_in_vector,
+    remove_variables_from_vector,
+    remove_variables_from_vector_by_indices,
+)
 
 
 class ContinuousStateMixin(BaseMixin):
@@ -72,7 +76,9 @@ class ContinuousStateMixin(BaseMixin):
         return x_0
 
     def remove_state(self, var: SX):
+        indices = find_variables_indices_in_vector(var, self.x)
         self.x = remove_variables_from_vector(var, self.x)
+        self.x_0 = remove_variables_from_vector_by_indices(indices, self.x_0)
 
         for x_i in var.nz:
             del self._ode[x_i]
-- 
2.43.0


From a51cfaf17cb4b8ea2b3dc0ffce8ed4435a8c86a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:54 +0000
Subject: [PATCH 02/95] fix: include_state rejects a duplicate state or a
 wrong-size ode before changing the model

---
 yaocptool/modelling/mixins/continuous_states_mixin.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/yaocptool/modelling/mixins/continuous_states_mixin.py b/yaocptool/modelling/mixins/continuous_states_mixin.py
index a203d11..57cafde 100644
--- a/yaocptool/modelling/mixins/continuous_states_mixin.py
+++ b/yaocptool/modelling/mixins/continuous_states_mixin.py
@@ -60,6 +60,14 @@ class ContinuousStateMixin(BaseMixin):
     def include_state(
         self, var: SX, ode: Optional[SX] = None, x_0: Optional[SX] = None
     ) -> SX:
+        for x_i in var.nz:
+            if x_i in self._ode:
+                raise ValueError(f'State "{x_i}" already in this model')
+        if isinstance(ode, abc.Sequence):
+            ode = vertcat(*ode)
+        if ode is not None and ode.numel() != var.numel():
+            raise ValueError("Expected `var` and `ode` of same size")
+
         self.x = vertcat(self.x, var)
 
         if x_0 is None:
@@ -68,8 +76,6 @@ class ContinuousStateMixin(BaseMixin):
 
         # crate entry for included state
         for x_i in var.nz:
-            if x_i in self._ode:
-                raise ValueError(f'State "{x_i}" already in this model')
             self._ode[x_i] = None
         if ode is not None:
             self.include_equations(ode=ode, x=var)
-- 
2.43.0


From 6be9d5f95c5ed5fe4458ef44ec3937cfcfefaf17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:24 +0000
Subject: [PATCH 03/95] fix: remove_control leaves the model unchanged when it
 refuses a parametrized control

---
 yaocptool/modelling/mixins/control_mixin.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/yaocptool/modelling/mixins/control_mixin.py b/yaocptool/modelling/mixins/control_mixin.py
index 572a72d..e0e6eee 100644
--- a/yaocptool/modelling/mixins/control_mixin.py
+++ b/yaocptool/modelling/mixins/control_mixin.py
@@ -56,11 +56,13 @@ class ControlMixin(BaseMixin):
         self.u_par = vertcat(self.u_par, var)
 
     def remove_control(self, var: SX):
+        # raises, before anything is changed, if the control is parametrized
+        u_par = remove_variables_from_vector(var, self.u_par)
         self.u_expr = remove_variables_from_vector_by_indices(
             find_variables_indices_in_vector(var, self.u), self.u_expr
         )
         self.u = remove_variables_from_vector(var, self.u)
-        self.u_par = remove_variables_from_vector(var, self.u_par)
+        self.u_par = u_par
 
     def replace_variable(self, original: SX, replacement: SX):
         if original.numel() != replacement.numel():
-- 
2.43.0


From b61caf2c1f143e5dd53a90d30735a6395822f684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:29 +0000
Subject: [PATCH 04/95] fix: parametrize_control registers nothing when one of
 the controls is refused

---
 yaocptool/modelling/mixins/control_mixin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yaocptool/modelling/mixins/control_mixin.py b/yaocptool/modelling/mixins/control_mixin.py
index e0e6eee..3a1d644 100644
--- a/yaocptool/modelling/mixins/control_mixin.py
+++ b/yaocptool/modelling/mixins/control_mixin.py
@@ -97,11 +97,11 @@ class ControlMixin(BaseMixin):
         for u_i in u.nz:
             if self.control_is_parametrized(u_i):
                 raise ValueError(f'The control "{u_i}" is already parametrized.')
-            # to get have a new memory address
-            self._parametrized_controls = self._parametrized_controls + [u_i]
 
         # Remove u from u_par if they are going to be parametrized
         self.u_par = remove_variables_from_vector(u, self.u_par)
+        # to get have a new memory address
+        self._parametrized_controls = self._parametrized_controls + list(u.nz)
         if u_par is not None:
             self.u_par = vertcat(self.u_par, u_par)
 
-- 
2.43.0


From 10a9cc3a9fce0f340bdb3c9f5faac839afbbf2a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:20 +0000
Subject: [PATCH 05/95] fix: keep state equations aligned when an ode entry is
 structurally zero

---
 yaocptool/modelling/mixins/continuous_states_mixin.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yaocptool/modelling/mixins/continuous_states_mixin.py b/yaocptool/modelling/mixins/continuous_states_mixin.py
index 57cafde..fdf9609 100644
--- a/yaocptool/modelling/mixins/continuous_states_mixin.py
+++ b/yaocptool/modelling/mixins/continuous_states_mixin.py
@@ -3,7 +3,7 @@ from collections import abc
 from itertools import islice
 from typing import Dict, List, Optional, Tuple, Union
 
-from casadi import SX, substitute, vec, vertcat
+from casadi import SX, densify, substitute, vec, vertcat
 
 from yaocptool.modelling.mixins.base_mixin import BaseMixin
 from yaocptool.modelling.utils import Derivative, EqualityEquation
@@ -158,7 +158,7 @@ class ContinuousStateMixin(BaseMixin):
                 warnings.warn(
                     f'State "{x_i}" already had an ODE associated, overriding it!'
                 )
-        self._ode = {**self._ode, **dict(zip(x.nz, ode.nz))}
+        self._ode = {**self._ode, **dict(zip(x.nz, densify(ode).nz))}
 
     def _include_equation_from_diff_equations(self, *args: Union[SX, EqualityEquation]):
         x = SX(0, 1)
-- 
2.43.0


From b02798dbf4170f9c3bf55ac20785b498e69cb53c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:25 +0000
Subject: [PATCH 06/95] fix: include_models keeps the control parametrization
 of the included model

---
 yaocptool/modelling/system_model.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/yaocptool/modelling/system_model.py b/yaocptool/modelling/system_model.py
index 8fe0dc8..f9f8168 100644
--- a/yaocptool/modelling/system_model.py
+++ b/yaocptool/modelling/system_model.py
@@ -378,7 +378,12 @@ class SystemModel(ContinuousStateMixin, AlgebraicMixin, ControlMixin, ParameterM
             # include variables
             self.include_state(model.x, x_0=model.x_0)
             self.include_algebraic(model.y)
-            self.include_control(model.u)
+            self.u = vertcat(self.u, model.u)
+            self.u_expr = vertcat(self.u_expr, model.u_expr)
+            self.u_par = vertcat(self.u_par, model.u_par)
+            self._parametrized_controls = (
+                self._parametrized_controls + model._parametrized_controls
+            )
             self.include_parameter(model.p)
             self.include_theta(model.theta)
 
-- 
2.43.0


From f6f52ad89b3577b58a2166b4963a375d0da50390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:29 +0000
Subject: [PATCH 07/95] fix: get_deepcopy makes an independent and complete
 copy of the model

---
 yaocptool/modelling/system_model.py | 47 ++++++++++++++++++++++-------
 1 file changed, 36 insertions(+), 11 deletions(-)

diff --git a/yaocptool/modelling/system_model.py b/yaocptool/modelling/system_model.py
index f9f8168..348cfe8 100644
--- a/yaocptool/modelling/system_model.py
+++ b/yaocptool/modelling/system_model.py
@@ -490,9 +490,8 @@ class SystemModel(ContinuousStateMixin, AlgebraicMixin, ControlMixin, ParameterM
 
         :rtype: SystemModel
         """
-        model_copy = SystemModel(
-            name=self.name, model_name_as_prefix=self.model_name_as_prefix
-        )
+        # the names of the variables already carry the prefix (if any)
+        model_copy = SystemModel(name=self.name)
         x_copy = SX(0, 1)
         y_copy = SX(0, 1)
         u_copy = SX(0, 1)
@@ -532,21 +531,47 @@ class SystemModel(ContinuousStateMixin, AlgebraicMixin, ControlMixin, ParameterM
             )
 
         if self.n_u_par > 0:
+            # a free control is its own parameter
             u_par_copy = vertcat(
-                *[SX.sym(self.u_par[i].name()) for i in range(self.n_u_par)]
+                *[
+                    substitute(self.u_par[i], self.u, u_copy)
+                    if find_variables_indices_in_vector(self.u_par[i], self.u)
+                    else SX.sym(self.u_par[i].name())
+                    for i in range(self.n_u_par)
+                ]
             )
 
-        model_copy.include_equations(ode=self.ode, alg=self.alg)
-        model_copy.u_par = self.u_par
+        model_copy._ode = dict(zip(x_copy.nz, self._ode.values()))
+        model_copy.include_equations(alg=self.alg)
+        model_copy.u_par = u_par_copy
         model_copy.u_expr = self.u_expr
+        model_copy._parametrized_controls = [
+            u_copy[i] for i in range(self.n_u) if self.control_is_parametrized(self.u[i])
+        ]
 
-        model_copy.replace_variable(self.x, x_copy)
-        model_copy.replace_variable(self.y, y_copy)
-        model_copy.replace_variable(self.u, u_copy)
-        model_copy.replace_variable(self.p, p_copy)
-        model_copy.replace_variable(self.theta, theta_copy)
+        model_copy.replace_variable(
+            vertcat(
+                self.x,
+                self.y,
+                self.u,
+                self.p,
+                self.theta,
+                self.t,
+                self.tau,
+            ),
+            vertcat(
+                x_copy,
+                y_copy,
+                u_copy,
+                p_copy,
+                theta_copy,
+                model_copy.t,
+                model_copy.tau,
+            ),
+        )
         model_copy.replace_variable(self.u_par, u_par_copy)
 
+        model_copy.model_name_as_prefix = self.model_name_as_prefix
         model_copy.has_adjoint_variables = self.has_adjoint_variables
 
         return model_copy
-- 
2.43.0


From 0c98d0cee611336ccaa861008b3f143eec9d4274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:52 +0000
Subject: [PATCH 08/95] fix: include_constraint(x <= c) bounds the expression
 from above, not from below

---
 yaocptool/optimization/abstract_optimization_problem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yaocptool/optimization/abstract_optimization_problem.py b/yaocptool/optimization/abstract_optimization_problem.py
index 712479c..dad3629 100644
--- a/yaocptool/optimization/abstract_optimization_problem.py
+++ b/yaocptool/optimization/abstract_optimization_problem.py
@@ -1,6 +1,6 @@
 from typing import Any, Dict, List, Optional, TypedDict, Union
 
-from casadi import DM, MX, Function, depends_on, inf, is_equal, repmat, vertcat
+from casadi import DM, MX, Function, depends_on, inf, repmat, vertcat
 
 from yaocptool import is_equality, is_inequality
 
@@ -372,7 +372,7 @@ class AbstractOptimizationProblem(object):
                 # by default all inequalities are treated as 'less than' or 'less or equal', e.g.: x<=1 or 1<=x
                 # if the term on the rhs term is the non-symbolic term, then it is a 'x<=1' inequality,
                 # where the independent term is the upper bound
-                if is_equal(indep_term_dm, expr.dep(1)):
+                if depends_on(expr.dep(0), vertcat(self.x, self.p)):
                     self.include_inequality(dep_term, ub=indep_term_dm)
                 # otherwise, it is a '1<=x' inequality, where the independent term is the lower bound
                 else:
-- 
2.43.0


From 165f59bcae6b864e35e6b6de311ab4426199feb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:56 +0000
Subject: [PATCH 09/95] fix: is_inequality recognises strict inequalities

---
 yaocptool/util/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/util/util.py b/yaocptool/util/util.py
index 45f1a5d..dce5e9e 100644
--- a/yaocptool/util/util.py
+++ b/yaocptool/util/util.py
@@ -240,7 +240,7 @@ def is_inequality(expr: Union[SX, MX]):
     :return: True if 'expr' is an inequality, False otherwise
     :rtype: bool
     """
-    return isinstance(expr, (MX, SX)) and (expr.op() == OP_LE or expr.op == OP_LT)
+    return isinstance(expr, (MX, SX)) and (expr.op() == OP_LE or expr.op() == OP_LT)
 
 
 def is_equality(expr: Union[SX, MX]):
-- 
2.43.0


From 1adb61d1fe314b35d6c477c30bae409d29c7d10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:00 +0000
Subject: [PATCH 10/95] fix: include_variable accepts integer bounds

---
 yaocptool/optimization/abstract_optimization_problem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yaocptool/optimization/abstract_optimization_problem.py b/yaocptool/optimization/abstract_optimization_problem.py
index dad3629..e1b9936 100644
--- a/yaocptool/optimization/abstract_optimization_problem.py
+++ b/yaocptool/optimization/abstract_optimization_problem.py
@@ -132,9 +132,9 @@ class AbstractOptimizationProblem(object):
             upper bound, a vector of ub  with size of the given variable will be used as a upper bound.
             (default = [inf]*size)
         """
-        if isinstance(lb, float):
+        if isinstance(lb, (float, int)):
             lb = vertcat(lb)
-        if isinstance(ub, float):
+        if isinstance(ub, (float, int)):
             ub = vertcat(ub)
 
         if lb.numel() == 1 and variable.numel() > 1:
-- 
2.43.0


From cde03b8c4beaedf0baccbc68902faa284307c7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:04 +0000
Subject: [PATCH 11/95] fix: rebuild the cached solver after the optimization
 problem changes

---
 yaocptool/optimization/abstract_optimization_problem.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/yaocptool/optimization/abstract_optimization_problem.py b/yaocptool/optimization/abstract_optimization_problem.py
index e1b9936..83ceecd 100644
--- a/yaocptool/optimization/abstract_optimization_problem.py
+++ b/yaocptool/optimization/abstract_optimization_problem.py
@@ -167,6 +167,7 @@ class AbstractOptimizationProblem(object):
                     )
                 )
 
+        self._solver = None
         self.x = vertcat(self.x, variable)
         self.x_lb = vertcat(self.x_lb, lb)
         self.x_ub = vertcat(self.x_ub, ub)
@@ -190,6 +191,7 @@ class AbstractOptimizationProblem(object):
 
         :param MX|SX par: parameter to be included
         """
+        self._solver = None
         self.p = vertcat(self.p, par)
 
     def set_objective(self, expr: Union[MX, List[MX], float, int]):
@@ -208,6 +210,7 @@ class AbstractOptimizationProblem(object):
                 "Objective function should be an scalar. "
                 "Given objective has shape = {}".format(expr.shape)
             )
+        self._solver = None
         self.f = expr
 
     def include_inequality(
@@ -283,6 +286,7 @@ class AbstractOptimizationProblem(object):
                     )
                 )
 
+        self._solver = None
         self.g = vertcat(self.g, expr)
         self.g_lb = vertcat(self.g_lb, lb)
         self.g_ub = vertcat(self.g_ub, ub)
@@ -325,6 +329,7 @@ class AbstractOptimizationProblem(object):
                 "RHS = {}".format(rhs)
             )
 
+        self._solver = None
         self.g = vertcat(self.g, expr)
         self.g_lb = vertcat(self.g_lb, rhs)
         self.g_ub = vertcat(self.g_ub, rhs)
-- 
2.43.0


From fc04078e5878250075d84401137e96a2b6282af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:01 +0000
Subject: [PATCH 12/95] fix: SimulationResult keeps the finite_elements and
 delta_t it is given

---
 yaocptool/modelling/simulation_result.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yaocptool/modelling/simulation_result.py b/yaocptool/modelling/simulation_result.py
index 770feee..512bd48 100644
--- a/yaocptool/modelling/simulation_result.py
+++ b/yaocptool/modelling/simulation_result.py
@@ -22,10 +22,10 @@ class SimulationResult(DataSet):
         **kwargs
     ):
         self.model_name = model_name
-        self.delta_t = (delta_t,)
+        self.delta_t = delta_t
         self.t_0 = t_0
         self.t_f = t_f
-        self.finite_elements = 0
+        self.finite_elements = finite_elements
 
         DataSet.__init__(self, **kwargs)
         self.plot_style = "plot"
-- 
2.43.0


From 922933345fd98ba4153a7e390a330fe957c71c43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:05 +0000
Subject: [PATCH 13/95] fix: linearize builds the linear model with the states
 and controls of the original

---
 yaocptool/modelling/system_model.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/yaocptool/modelling/system_model.py b/yaocptool/modelling/system_model.py
index 348cfe8..e1f44b5 100644
--- a/yaocptool/modelling/system_model.py
+++ b/yaocptool/modelling/system_model.py
@@ -733,11 +733,14 @@ class SystemModel(ContinuousStateMixin, AlgebraicMixin, ControlMixin, ParameterM
             x_bar, u_bar
         )
 
-        linear_model = SystemModel(n_x=self.n_x, n_u=self.n_u)
+        linear_model = SystemModel(name="linearized_" + self.name)
+        for i in range(self.n_x):
+            linear_model.create_state(self.x[i].name())
+        for i in range(self.n_u):
+            linear_model.create_control(self.u[i].name())
         linear_model.include_equations(
-            ode=[mtimes(a_matrix, linear_model.x) + mtimes(b_matrix, linear_model.u)]
+            ode=mtimes(a_matrix, linear_model.x) + mtimes(b_matrix, linear_model.u)
         )
-        linear_model.name = "linearized_" + self.name
 
         return linear_model
 
-- 
2.43.0


From 905e02b5b7b499bf1b3349ce850bdf4f99e3c1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:27:09 +0000
Subject: [PATCH 14/95] fix: find_equilibrium solves for the controls

---
 yaocptool/modelling/system_model.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/yaocptool/modelling/system_model.py b/yaocptool/modelling/system_model.py
index e1f44b5..5499299 100644
--- a/yaocptool/modelling/system_model.py
+++ b/yaocptool/modelling/system_model.py
@@ -779,7 +779,9 @@ class SystemModel(ContinuousStateMixin, AlgebraicMixin, ControlMixin, ParameterM
         eqs = vertcat(self.ode, self.alg, additional_eqs)
         eqs = substitute(eqs, self.t, t_0)
         eqs = substitute(eqs, self.tau, 0)
-        f_eqs = Function("f_equilibrium", [vertcat(*self.all_sym[1:-1])], [eqs])
+        f_eqs = Function(
+            "f_equilibrium", [vertcat(self.x, self.y, self.u_par)], [eqs]
+        )
 
         rf = rootfinder("rf_equilibrium", "nlpsol", f_eqs, rootfinder_options)
         res = rf(guess)
-- 
2.43.0


From 0ca1bfd81172681542a3921960d422c1821f035b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:15 +0000
Subject: [PATCH 15/95] fix: accept list bounds with more than one entry in
 OCP.include_state

---
 yaocptool/modelling/ocp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yaocptool/modelling/ocp.py b/yaocptool/modelling/ocp.py
index c8eeb37..ed2d06d 100644
--- a/yaocptool/modelling/ocp.py
+++ b/yaocptool/modelling/ocp.py
@@ -309,9 +309,9 @@ class OptimalControlProblem(object):
         if isinstance(x_0, list):
             x_0 = vertcat(*x_0)
         if isinstance(x_min, list):
-            x_min = DM(*x_min)
+            x_min = vertcat(*x_min)
         if isinstance(x_max, list):
-            x_max = DM(*x_max)
+            x_max = vertcat(*x_max)
 
         if var.numel() != x_max.numel():
             raise ValueError(
-- 
2.43.0


From c3e54a7e10f7a0a88273ae17161f90a468cb95d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:19 +0000
Subject: [PATCH 16/95] fix: keep the guess of the first algebraic variable
 included in an OCP

---
 yaocptool/modelling/ocp.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/yaocptool/modelling/ocp.py b/yaocptool/modelling/ocp.py
index ed2d06d..8cca901 100644
--- a/yaocptool/modelling/ocp.py
+++ b/yaocptool/modelling/ocp.py
@@ -361,6 +361,8 @@ class OptimalControlProblem(object):
             y_min = vertcat(*y_min)
         if isinstance(y_max, list):
             y_max = vertcat(*y_max)
+        if isinstance(y_guess, list):
+            y_guess = vertcat(*y_guess)
 
         if var.numel() != y_min.numel():
             raise ValueError(
@@ -380,6 +382,8 @@ class OptimalControlProblem(object):
                 self.y_guess = vertcat(self.y_guess, DM.zeros(var.numel()))
             else:
                 self.y_guess = vertcat(self.y_guess, y_guess)
+        elif y_guess is not None and self.model.n_y == 0:
+            self.y_guess = vertcat(y_guess)
 
         self.model.include_algebraic(var, alg)
         self.y_min = vertcat(self.y_min, y_min)
-- 
2.43.0


From 3b044baa674d4c02dbc2cb010898fec660b49304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:23 +0000
Subject: [PATCH 17/95] fix: let the model refuse an OCP variable removal
 before bounds are dropped

---
 yaocptool/modelling/ocp.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/yaocptool/modelling/ocp.py b/yaocptool/modelling/ocp.py
index 8cca901..31e36c4 100644
--- a/yaocptool/modelling/ocp.py
+++ b/yaocptool/modelling/ocp.py
@@ -590,7 +590,8 @@ class OptimalControlProblem(object):
 
     def remove_algebraic(self, var: SX, eq: SX = None):
         to_remove = find_variables_indices_in_vector(var, self.model.y)
-        to_remove.reverse()
+
+        self.model.remove_algebraic(var, eq)
 
         self.y_max = remove_variables_from_vector_by_indices(to_remove, self.y_max)
         self.y_min = remove_variables_from_vector_by_indices(to_remove, self.y_min)
@@ -599,11 +600,11 @@ class OptimalControlProblem(object):
                 to_remove, self.y_guess
             )
 
-        self.model.remove_algebraic(var, eq)
-
     def remove_control(self, var: SX):
         to_remove = find_variables_indices_in_vector(var, self.model.u)
 
+        self.model.remove_control(var)
+
         self.u_max = remove_variables_from_vector_by_indices(to_remove, self.u_max)
         self.u_min = remove_variables_from_vector_by_indices(to_remove, self.u_min)
         self.delta_u_max = remove_variables_from_vector_by_indices(
@@ -618,8 +619,6 @@ class OptimalControlProblem(object):
                 to_remove, self.u_guess
             )
 
-        self.model.remove_control(var)
-
     def replace_variable(
         self, original: Union[SX, List[SX]], replacement: Union[SX, List[SX]]
     ):
-- 
2.43.0


From f8fa0f5e765f1111e0ef9b81e8d5c100e2e425f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:28 +0000
Subject: [PATCH 18/95] fix: drop the entries of last_u that belong to removed
 controls

---
 yaocptool/modelling/ocp.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/yaocptool/modelling/ocp.py b/yaocptool/modelling/ocp.py
index 31e36c4..3c1357c 100644
--- a/yaocptool/modelling/ocp.py
+++ b/yaocptool/modelling/ocp.py
@@ -618,6 +618,10 @@ class OptimalControlProblem(object):
             self.u_guess = remove_variables_from_vector_by_indices(
                 to_remove, self.u_guess
             )
+        if self.last_u is not None:
+            self.last_u = remove_variables_from_vector_by_indices(
+                to_remove, self.last_u
+            )
 
     def replace_variable(
         self, original: Union[SX, List[SX]], replacement: Union[SX, List[SX]]
@@ -1019,6 +1023,8 @@ class OptimalControlProblem(object):
 
         if self.u_guess is not None:
             self.u_guess = remove_variables_from_vector_by_indices(ind_u, self.u_guess)
+        if self.last_u is not None:
+            self.last_u = remove_variables_from_vector_by_indices(ind_u, self.last_u)
 
         self.delta_u_max = remove_variables_from_vector_by_indices(
             ind_u, self.delta_u_max
-- 
2.43.0


From 5469acd2b7a43502f1bd46e885352762a4968c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:52 +0000
Subject: [PATCH 19/95] fix: remove_algebraic leaves the model alone when the
 equation is unknown

---
 yaocptool/modelling/mixins/algebraic_mixin.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yaocptool/modelling/mixins/algebraic_mixin.py b/yaocptool/modelling/mixins/algebraic_mixin.py
index 48cfdb8..2518736 100644
--- a/yaocptool/modelling/mixins/algebraic_mixin.py
+++ b/yaocptool/modelling/mixins/algebraic_mixin.py
@@ -79,9 +79,10 @@ class AlgebraicMixin(BaseMixin):
             self.include_equations(alg=alg)
 
     def remove_algebraic(self, var: SX, eq: SX = None):
-        self.y = remove_variables_from_vector(var, self.y)
+        y = remove_variables_from_vector(var, self.y)
         if eq is not None:
             self.alg = remove_variables_from_vector(eq, self.alg)
+        self.y = y
 
     def replace_variable(self, original: SX, replacement: SX):
         # TODO: Remove or reinstate
-- 
2.43.0


From f2b2a5059b79f5303742e9283329e136567e891f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:39:56 +0000
Subject: [PATCH 20/95] fix: OCP.connect(replace=True) replaces the input in
 costs and constraints

---
 yaocptool/modelling/ocp.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/yaocptool/modelling/ocp.py b/yaocptool/modelling/ocp.py
index 3c1357c..66503c8 100644
--- a/yaocptool/modelling/ocp.py
+++ b/yaocptool/modelling/ocp.py
@@ -1011,7 +1011,9 @@ class OptimalControlProblem(object):
 
         self.model.connect(u, y, replace=replace)
 
-        if not replace:
+        if replace:
+            self.replace_variable(u, y)
+        else:
             if self.u_guess is not None and self.y_guess is not None:
                 self.y_guess = vertcat(self.y_guess, self.u_guess[ind_u])
 
-- 
2.43.0


From 3542d97cba0808828f1d2c4e0de8b45f23e77a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:40:01 +0000
Subject: [PATCH 21/95] fix: OCP.connect keeps y_guess aligned when there is no
 control guess

---
 yaocptool/modelling/ocp.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/yaocptool/modelling/ocp.py b/yaocptool/modelling/ocp.py
index 66503c8..7f5a5cb 100644
--- a/yaocptool/modelling/ocp.py
+++ b/yaocptool/modelling/ocp.py
@@ -1014,8 +1014,12 @@ class OptimalControlProblem(object):
         if replace:
             self.replace_variable(u, y)
         else:
-            if self.u_guess is not None and self.y_guess is not None:
-                self.y_guess = vertcat(self.y_guess, self.u_guess[ind_u])
+            if self.y_guess is not None:
+                if self.u_guess is not None:
+                    new_guess = self.u_guess[ind_u]
+                else:
+                    new_guess = DM.zeros(u.numel())
+                self.y_guess = vertcat(self.y_guess, new_guess)
 
             self.y_max = vertcat(self.y_max, self.u_max[ind_u])
             self.y_min = vertcat(self.y_min, self.u_min[ind_u])
-- 
2.43.0


From 14a5d0ad6246589588d5644fb2be5d06e3b729e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:15 +0000
Subject: [PATCH 22/95] fix: OCP.merge checks every horizon before merging
 anything

---
 yaocptool/modelling/ocp.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yaocptool/modelling/ocp.py b/yaocptool/modelling/ocp.py
index 7f5a5cb..a8b378e 100644
--- a/yaocptool/modelling/ocp.py
+++ b/yaocptool/modelling/ocp.py
@@ -819,6 +819,7 @@ class OptimalControlProblem(object):
 
         :param list of OptimalControlProblem problems:
         """
+        problems = list(problems)
         for problem in problems:
             if self.t_0 != problem.t_0:
                 raise ValueError(
@@ -833,6 +834,7 @@ class OptimalControlProblem(object):
                     )
                 )
 
+        for problem in problems:
             self.x_0 = vertcat(self.x_0, problem.x_0)
 
             self.eta = vertcat(self.eta, problem.eta)
-- 
2.43.0


From 934116548dcf3819d678a6113cbced4f8f6284d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:20 +0000
Subject: [PATCH 23/95] fix: OCP.merge replaces the time symbols of the merged
 problems

---
 yaocptool/modelling/ocp.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/yaocptool/modelling/ocp.py b/yaocptool/modelling/ocp.py
index a8b378e..db0944b 100644
--- a/yaocptool/modelling/ocp.py
+++ b/yaocptool/modelling/ocp.py
@@ -908,6 +908,13 @@ class OptimalControlProblem(object):
             # Merge models
             self.model.merge([problem.model])
 
+            # use this problem's time variables
+            if not is_equal(self.model.t, problem.model.t):
+                self.replace_variable(
+                    vertcat(problem.model.t, problem.model.tau),
+                    vertcat(self.model.t, self.model.tau),
+                )
+
     def set_parameter_as_optimization_parameter(
         self,
         new_p_opt: SX,
-- 
2.43.0


From d02bb56f743d47df7587a3723eacbcbdad42208e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:53:52 +0000
Subject: [PATCH 24/95] fix: OCP.merge keeps guesses when the merged problem
 has no such variables

---
 yaocptool/modelling/ocp.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/yaocptool/modelling/ocp.py b/yaocptool/modelling/ocp.py
index db0944b..ecba5cd 100644
--- a/yaocptool/modelling/ocp.py
+++ b/yaocptool/modelling/ocp.py
@@ -876,7 +876,7 @@ class OptimalControlProblem(object):
                 self.last_u = problem.last_u
             elif self.last_u is not None and problem.last_u is not None:
                 self.last_u = vertcat(self.last_u, problem.last_u)
-            else:
+            elif problem.last_u is not None or problem.model.n_u > 0:
                 self.last_u = None
 
             if (
@@ -887,7 +887,7 @@ class OptimalControlProblem(object):
                 self.y_guess = problem.y_guess
             elif self.y_guess is not None and problem.y_guess is not None:
                 self.y_guess = vertcat(self.y_guess, problem.y_guess)
-            else:
+            elif problem.y_guess is not None or problem.model.n_y > 0:
                 self.y_guess = None
 
             if (
@@ -898,7 +898,7 @@ class OptimalControlProblem(object):
                 self.u_guess = problem.u_guess
             elif self.u_guess is not None and problem.u_guess is not None:
                 self.u_guess = vertcat(self.u_guess, problem.u_guess)
-            else:
+            elif problem.u_guess is not None or problem.model.n_u > 0:
                 self.u_guess = None
 
             self.positive_objective = (
-- 
2.43.0


From 041e345356ffa46fe4af6fea2763afd68c994e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:54:45 +0000
Subject: [PATCH 25/95] fix: a refused optimization parameter is not left in
 the model

---
 yaocptool/modelling/ocp.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/yaocptool/modelling/ocp.py b/yaocptool/modelling/ocp.py
index ecba5cd..97ede17 100644
--- a/yaocptool/modelling/ocp.py
+++ b/yaocptool/modelling/ocp.py
@@ -244,22 +244,22 @@ class OptimalControlProblem(object):
         p_opt_min: Optional[DM] = None,
         p_opt_max: Optional[DM] = None,
     ) -> SX:
-        new_p_opt = self.model.create_parameter(name=name, size=size)
+        new_p_opt = SX.sym(self.model.name_variable(name), size)
 
-        self.set_parameter_as_optimization_parameter(
-            new_p_opt, new_p_opt_min=p_opt_min, new_p_opt_max=p_opt_max
+        self.include_optimization_parameter(
+            new_p_opt, p_opt_min=p_opt_min, p_opt_max=p_opt_max
         )
         return new_p_opt
 
     def create_optimization_theta(
         self, name, size=1, new_theta_opt_min=None, new_theta_opt_max=None
     ) -> SX:
-        new_theta_opt = self.model.create_theta(name=name, size=size)
+        new_theta_opt = SX.sym(self.model.name_variable(name), size)
 
-        self.set_theta_as_optimization_theta(
+        self.include_optimization_theta(
             new_theta_opt,
-            new_theta_opt_min=new_theta_opt_min,
-            new_theta_opt_max=new_theta_opt_max,
+            theta_opt_min=new_theta_opt_min,
+            theta_opt_max=new_theta_opt_max,
         )
         return new_theta_opt
 
@@ -504,8 +504,8 @@ class OptimalControlProblem(object):
         if p_opt_max is None:
             p_opt_max = DM.inf(var.numel())
 
-        self.model.include_parameter(var)
         self.set_parameter_as_optimization_parameter(var, p_opt_min, p_opt_max)
+        self.model.include_parameter(var)
 
     def include_optimization_theta(
         self, var: SX, theta_opt_min: DM = None, theta_opt_max: DM = None
@@ -515,10 +515,10 @@ class OptimalControlProblem(object):
         if theta_opt_max is None:
             theta_opt_max = DM.inf(var.numel())
 
-        self.model.include_theta(var)
         self.set_theta_as_optimization_theta(
             var, new_theta_opt_min=theta_opt_min, new_theta_opt_max=theta_opt_max
         )
+        self.model.include_theta(var)
 
     def include_initial_time_equality(self, eq: Union[SX, List[SX]]):
         """Include initial time equality. Equality that is evaluated at t=t_0.
-- 
2.43.0


From 0512d541d2a359c6b39731c19bfe70ee051dab9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:54:49 +0000
Subject: [PATCH 26/95] fix: create_quadratic_cost does not write into the
 caller's dictionary

---
 yaocptool/modelling/ocp.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yaocptool/modelling/ocp.py b/yaocptool/modelling/ocp.py
index 97ede17..721cf82 100644
--- a/yaocptool/modelling/ocp.py
+++ b/yaocptool/modelling/ocp.py
@@ -788,6 +788,7 @@ class OptimalControlProblem(object):
     def create_quadratic_cost(self, par_dict: Dict[str, DM]):
         self.L = SX(0)
         self.V = SX(0)
+        par_dict = dict(par_dict)
         if "x_ref" not in par_dict:
             par_dict["x_ref"] = DM.zeros(self.model.n_x)
         if "u_ref" not in par_dict:
-- 
2.43.0


From 358fd376c5c972c6f160e4b96f832ced816f8c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:54:54 +0000
Subject: [PATCH 27/95] fix: OCP.simulate covers the whole horizon and honours
 t_0

---
 yaocptool/modelling/ocp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yaocptool/modelling/ocp.py b/yaocptool/modelling/ocp.py
index 721cf82..534768f 100644
--- a/yaocptool/modelling/ocp.py
+++ b/yaocptool/modelling/ocp.py
@@ -1072,14 +1072,14 @@ class OptimalControlProblem(object):
 
         if finite_elements is not None and isinstance(t_f, (DM, float, int)):
             delta_t = (t_f - t_0) / finite_elements
-            t_f = [delta_t * t for t in range(1, finite_elements)]
+            t_f = [t_0 + delta_t * t for t in range(1, finite_elements + 1)]
 
         x_0 = x_0 if x_0 is not None else self.x_0
 
         return self.model.simulate(
             x_0=x_0,
             t_f=t_f,
-            t_0=self.t_0,
+            t_0=t_0,
             u=u if u is not None else self.u_guess,
             p=p,
             theta=theta,
-- 
2.43.0


From 3227df5afbf3a22088af0416812b493015074f65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:54:59 +0000
Subject: [PATCH 28/95] fix: StochasticOCP uses the current names of the model
 vectors

---
 yaocptool/modelling/stochastic_ocp.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/yaocptool/modelling/stochastic_ocp.py b/yaocptool/modelling/stochastic_ocp.py
index b2efbaa..972f882 100644
--- a/yaocptool/modelling/stochastic_ocp.py
+++ b/yaocptool/modelling/stochastic_ocp.py
@@ -119,15 +119,15 @@ class StochasticOCP(OptimalControlProblem):
 
     def get_p_without_p_unc(self):
         return remove_variables_from_vector_by_indices(
-            self.get_p_unc_indices(), self.model.p_sym
+            self.get_p_unc_indices(), self.model.p
         )
 
     def get_p_unc_indices(self):
-        return find_variables_indices_in_vector(self.p_unc, self.model.p_sym)
+        return find_variables_indices_in_vector(self.p_unc, self.model.p)
 
     def get_uncertain_initial_cond_indices(self):
         return find_variables_indices_in_vector(
-            self.uncertain_initial_conditions, self.model.x_0_sym
+            self.uncertain_initial_conditions, self.model.x_0
         )
 
     def include_time_chance_inequality(self, ineq, prob, rhs=None, when="default"):
-- 
2.43.0


From 3b2e165d36452ac64c09c1d1d9e362160a33c1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:03 +0000
Subject: [PATCH 29/95] fix: include_time_chance_inequality checks the size of
 prob

---
 yaocptool/modelling/stochastic_ocp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/modelling/stochastic_ocp.py b/yaocptool/modelling/stochastic_ocp.py
index 972f882..fd2e7e6 100644
--- a/yaocptool/modelling/stochastic_ocp.py
+++ b/yaocptool/modelling/stochastic_ocp.py
@@ -167,7 +167,7 @@ class StochasticOCP(OptimalControlProblem):
                 'Given inequality does not have the same dimensions of the provided "rhs". '
                 "Size of ineq: {}, size of rhs: {}".format(ineq.shape, rhs.shape)
             )
-        if not ineq.numel() == rhs.numel():
+        if not ineq.numel() == prob.numel():
             raise ValueError(
                 'Given inequality does not have the same dimensions of the provided "prob". '
                 "Size of ineq: {}, size of prob: {}".format(ineq.shape, prob.shape)
-- 
2.43.0


From eade229938ebe8f9d194cc8ed7b64724a87b198d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:55:07 +0000
Subject: [PATCH 30/95] fix: a refused uncertain parameter is not left in the
 model

---
 yaocptool/modelling/stochastic_ocp.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/yaocptool/modelling/stochastic_ocp.py b/yaocptool/modelling/stochastic_ocp.py
index fd2e7e6..a116f37 100644
--- a/yaocptool/modelling/stochastic_ocp.py
+++ b/yaocptool/modelling/stochastic_ocp.py
@@ -1,4 +1,4 @@
-from casadi import DM, diagcat, vertcat
+from casadi import DM, SX, diagcat, vertcat
 
 from yaocptool import (
     find_variables_indices_in_vector,
@@ -40,18 +40,16 @@ class StochasticOCP(OptimalControlProblem):
     def create_uncertain_parameter(
         self, name, mean, var, size=1, distribution="normal"
     ):
-        par = self.model.create_parameter(name=name, size=size)
+        par = SX.sym(self.model.name_variable(name), size)
 
-        self.set_parameter_as_uncertain_parameter(
-            par, mean, var, distribution=distribution
-        )
+        self.include_uncertain_parameter(par, mean, var, distribution=distribution)
         return par
 
     def include_uncertain_parameter(self, par, mean, cov, distribution="normal"):
-        self.model.include_parameter(par)
         self.set_parameter_as_uncertain_parameter(
             par, mean, cov, distribution=distribution
         )
+        self.model.include_parameter(par)
 
     def set_parameter_as_uncertain_parameter(
         self, par, mean, cov, distribution="normal"
-- 
2.43.0


From a6cd7b8ea93e7ed5edbc97a547e70476eb73f09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:57:51 +0000
Subject: [PATCH 31/95] fix: a control included after last_u was set can be
 removed again

---
 yaocptool/modelling/ocp.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/yaocptool/modelling/ocp.py b/yaocptool/modelling/ocp.py
index 534768f..00b69ea 100644
--- a/yaocptool/modelling/ocp.py
+++ b/yaocptool/modelling/ocp.py
@@ -620,7 +620,7 @@ class OptimalControlProblem(object):
             )
         if self.last_u is not None:
             self.last_u = remove_variables_from_vector_by_indices(
-                to_remove, self.last_u
+                [i for i in to_remove if i < self.last_u.numel()], self.last_u
             )
 
     def replace_variable(
@@ -1040,7 +1040,9 @@ class OptimalControlProblem(object):
         if self.u_guess is not None:
             self.u_guess = remove_variables_from_vector_by_indices(ind_u, self.u_guess)
         if self.last_u is not None:
-            self.last_u = remove_variables_from_vector_by_indices(ind_u, self.last_u)
+            self.last_u = remove_variables_from_vector_by_indices(
+                [i for i in ind_u if i < self.last_u.numel()], self.last_u
+            )
 
         self.delta_u_max = remove_variables_from_vector_by_indices(
             ind_u, self.delta_u_max
-- 
2.43.0


From f9ea6f2239e3959383ab083d4cf67346094a67de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:06:47 +0000
Subject: [PATCH 32/95] fix: removing a vector with an unknown variable is
 refused as a whole

---
 yaocptool/util/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/util/util.py b/yaocptool/util/util.py
index dce5e9e..e42a41a 100644
--- a/yaocptool/util/util.py
+++ b/yaocptool/util/util.py
@@ -88,7 +88,7 @@ def remove_variables_from_vector(var: SymbolicMT, vector: SymbolicMT) -> Symboli
     :return:
     """
     to_remove = find_variables_indices_in_vector(var, vector)
-    if len(to_remove) == 0:
+    if len(to_remove) == 0 or len(to_remove) < var.numel():
         raise ValueError(
             '"var" not found in "vector", var={}, vector={}'.format(var, vector)
         )
-- 
2.43.0


From 3a3cae02c408a0847c82f608e21f6b11e062f23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:06:54 +0000
Subject: [PATCH 33/95] fix: remove_variables_from_vector_by_indices handles
 its boundary indices

---
 yaocptool/util/util.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/yaocptool/util/util.py b/yaocptool/util/util.py
index e42a41a..9a4a0bc 100644
--- a/yaocptool/util/util.py
+++ b/yaocptool/util/util.py
@@ -108,7 +108,7 @@ def remove_variables_from_vector_by_indices(
     """
     if indices:
         numel = vector.numel()
-        if max(indices) > numel:
+        if max(indices) >= numel:
             raise ValueError(
                 "Found indices out of bounds. Index violating: {}, indices: {}".format(
                     max(indices), indices
@@ -121,7 +121,9 @@ def remove_variables_from_vector_by_indices(
                 )
             )
 
-    remaining_ind = [ind for ind in range(vector.numel()) if ind not in indices]
+    numel = vector.numel()
+    to_remove = {ind + numel if ind < 0 else ind for ind in indices}
+    remaining_ind = [ind for ind in range(numel) if ind not in to_remove]
     vector = vector[remaining_ind]
 
     if vector.shape == (1, 0):
-- 
2.43.0


From 736b00a4d9e3666872db64168dca170f1f42fd7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:34:46 +0000
Subject: [PATCH 34/95] fix: the time grid of the solution methods starts at
 problem.t_0

---
 yaocptool/methods/base/solutionmethodsbase.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/yaocptool/methods/base/solutionmethodsbase.py b/yaocptool/methods/base/solutionmethodsbase.py
index a56f1db..d243d0b 100644
--- a/yaocptool/methods/base/solutionmethodsbase.py
+++ b/yaocptool/methods/base/solutionmethodsbase.py
@@ -107,7 +107,9 @@ class SolutionMethodsBase(SolutionMethodInterface):
 
     @cached_property
     def time_breakpoints(self) -> List[float]:
-        return [self.delta_t * k for k in range(self.finite_elements + 1)]
+        return [
+            self.problem.t_0 + self.delta_t * k for k in range(self.finite_elements + 1)
+        ]
 
     @property
     def time_interpolation_controls(self) -> List[List[float]]:
-- 
2.43.0


From 98efa2b05ebe9916abcf586493ae6929f749b441 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:34:50 +0000
Subject: [PATCH 35/95] fix: the last_u given to solve reaches the NLP

---
 yaocptool/methods/base/solutionmethodsbase.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yaocptool/methods/base/solutionmethodsbase.py b/yaocptool/methods/base/solutionmethodsbase.py
index d243d0b..53f8ea3 100644
--- a/yaocptool/methods/base/solutionmethodsbase.py
+++ b/yaocptool/methods/base/solutionmethodsbase.py
@@ -385,6 +385,8 @@ class SolutionMethodsBase(SolutionMethodInterface):
                 )
 
             last_u = self.problem.last_u
+
+        if self.last_control_as_parameter:
             par_last_u = last_u
 
         par = vertcat(p, theta_vector, par_x_0, par_last_u)
-- 
2.43.0


From dc625321f4695b98ad66fa2e543766cf5a46eb52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:34:54 +0000
Subject: [PATCH 36/95] fix: delta_u bounds without a last_u only bind between
 elements

---
 yaocptool/methods/base/solutionmethodsbase.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/yaocptool/methods/base/solutionmethodsbase.py b/yaocptool/methods/base/solutionmethodsbase.py
index 53f8ea3..852087b 100644
--- a/yaocptool/methods/base/solutionmethodsbase.py
+++ b/yaocptool/methods/base/solutionmethodsbase.py
@@ -269,9 +269,14 @@ class SolutionMethodsBase(SolutionMethodInterface):
         if self.last_control_as_parameter:
             p_last_u = MX.sym("mx_last_u", self.model.n_u)
         else:
-            p_last_u = MX()
+            p_last_u = None
 
-        all_mx = vertcat(p_mx, vec(theta_mx), p_mx_x_0, p_last_u)
+        all_mx = vertcat(
+            p_mx,
+            vec(theta_mx),
+            p_mx_x_0,
+            MX() if p_last_u is None else p_last_u,
+        )
 
         # Discretize the problem
         opt_problem = self.discretizer.discretize(
-- 
2.43.0


From e9965ce1da16a215682a6f3e903c7211acb41fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:35:33 +0000
Subject: [PATCH 37/95] fix: initial_condition_as_parameter=False uses the
 initial condition of the problem

---
 yaocptool/methods/base/solutionmethodsbase.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/yaocptool/methods/base/solutionmethodsbase.py b/yaocptool/methods/base/solutionmethodsbase.py
index 852087b..066a38a 100644
--- a/yaocptool/methods/base/solutionmethodsbase.py
+++ b/yaocptool/methods/base/solutionmethodsbase.py
@@ -263,7 +263,10 @@ class SolutionMethodsBase(SolutionMethodInterface):
         theta = {i: vec(theta_mx[:, i]) for i in range(self.finite_elements)}
 
         # initial cond MX
-        p_mx_x_0 = MX.sym("mx_x_0_p", self.model.n_x)
+        if self.initial_condition_as_parameter:
+            p_mx_x_0 = MX.sym("mx_x_0_p", self.model.n_x)
+        else:
+            p_mx_x_0 = None
 
         # last control MX
         if self.last_control_as_parameter:
@@ -274,7 +277,7 @@ class SolutionMethodsBase(SolutionMethodInterface):
         all_mx = vertcat(
             p_mx,
             vec(theta_mx),
-            p_mx_x_0,
+            MX() if p_mx_x_0 is None else p_mx_x_0,
             MX() if p_last_u is None else p_last_u,
         )
 
-- 
2.43.0


From 89ab4ecfaf8f10d15ca6998252ebbc18ed0c4753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:35:38 +0000
Subject: [PATCH 38/95] fix: solve does not write the optimized parameters in
 the arguments of the caller

---
 yaocptool/methods/base/solutionmethodsbase.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/yaocptool/methods/base/solutionmethodsbase.py b/yaocptool/methods/base/solutionmethodsbase.py
index 066a38a..4cf6bf6 100644
--- a/yaocptool/methods/base/solutionmethodsbase.py
+++ b/yaocptool/methods/base/solutionmethodsbase.py
@@ -493,8 +493,9 @@ class SolutionMethodsBase(SolutionMethodInterface):
 
         # Initial condition, theta, and parameters used
         optimization_result.x_0 = x_0
-        optimization_result.theta = theta
-        optimization_result.p = p
+        # (copies: the optimized values are written in them)
+        optimization_result.theta = {el: DM(theta[el]) for el in theta}
+        optimization_result.p = DM(p)
 
         # From the problem
         for attr in ["t_0", "t_f"]:
-- 
2.43.0


From 922b881d0f266ed49c5185ed016393295a07c171 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:35:43 +0000
Subject: [PATCH 39/95] fix: solution methods do not share their solver options

---
 yaocptool/methods/base/solutionmethodsbase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/methods/base/solutionmethodsbase.py b/yaocptool/methods/base/solutionmethodsbase.py
index 4cf6bf6..d4a9eba 100644
--- a/yaocptool/methods/base/solutionmethodsbase.py
+++ b/yaocptool/methods/base/solutionmethodsbase.py
@@ -67,7 +67,7 @@ class SolutionMethodsBase(SolutionMethodInterface):
         self.integrator_type = integrator_type
         self.discretization_scheme = discretization_scheme
         self.initial_condition_as_parameter = initial_condition_as_parameter
-        self.nlpsol_opts: Dict[str, Any] = nlpsol_opts
+        self.nlpsol_opts: Dict[str, Any] = dict(nlpsol_opts)
         self.initial_guess_heuristic = initial_guess_heuristic
         self.last_control_as_parameter = last_control_as_parameter
         self.initial_guess_model = None
-- 
2.43.0


From c31f478f04a20eab95c22b1e7e6cd49e44048da1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:36:32 +0000
Subject: [PATCH 40/95] fix: collocation with degree=1

---
 yaocptool/methods/base/solutionmethodsbase.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/methods/base/solutionmethodsbase.py b/yaocptool/methods/base/solutionmethodsbase.py
index d4a9eba..0719c63 100644
--- a/yaocptool/methods/base/solutionmethodsbase.py
+++ b/yaocptool/methods/base/solutionmethodsbase.py
@@ -166,7 +166,7 @@ class SolutionMethodsBase(SolutionMethodInterface):
         if tau is None:
             tau = self.model.tau  # Collocation point
 
-        if degree == 1:
+        if degree == 1 and not point_at_t0:
             if size > 0:
                 points = vertcat(*[SX.sym(name[s], 1, degree) for s in range(size)])
             else:
-- 
2.43.0


From 7e350c7524702e46f3c5f0357980dbf5dd61b54e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:02 +0000
Subject: [PATCH 41/95] fix: relaxing time equalities does not depend on the
 algebraic equations

---
 yaocptool/methods/augmented_lagrangian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/methods/augmented_lagrangian.py b/yaocptool/methods/augmented_lagrangian.py
index 6694473..2ee7146 100644
--- a/yaocptool/methods/augmented_lagrangian.py
+++ b/yaocptool/methods/augmented_lagrangian.py
@@ -214,7 +214,7 @@ class AugmentedLagrangian(SolutionMethodInterface, metaclass=OptionsOverride):
         if self.model.alg[self.relax_algebraic_index].numel() > 0:
             self._relax_algebraic_equations()
 
-        if self.model.alg[self.relax_time_equality_index].numel() > 0:
+        if self.relax_time_equality_index:
             self._relax_time_equalities()
 
         if self.relax_state_bounds:
-- 
2.43.0


From af94550dba8f98822ab0a88c8f5f69f1bae227bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:07 +0000
Subject: [PATCH 42/95] fix: degree and finite_elements given in solver_options
 reach the multipliers

---
 yaocptool/methods/augmented_lagrangian.py | 47 +++++++++++------------
 1 file changed, 23 insertions(+), 24 deletions(-)

diff --git a/yaocptool/methods/augmented_lagrangian.py b/yaocptool/methods/augmented_lagrangian.py
index 2ee7146..d1efdda 100644
--- a/yaocptool/methods/augmented_lagrangian.py
+++ b/yaocptool/methods/augmented_lagrangian.py
@@ -147,8 +147,7 @@ class AugmentedLagrangian(SolutionMethodInterface, metaclass=OptionsOverride):
             via an algebraic variable
         :param kwargs:
         """
-        if solver_options is None:
-            solver_options = {}
+        solver_options = dict(solver_options or {})
         if options is None:
             options = {}
 
@@ -209,6 +208,28 @@ class AugmentedLagrangian(SolutionMethodInterface, metaclass=OptionsOverride):
 
         self.mu = DM()
 
+        #  make sure that the ocp_solver and the augmented_lagrangian has the same options
+        for attr in ["degree", "finite_elements"]:
+            if (
+                attr in solver_options
+                and attr in kwargs
+                and solver_options[attr] != kwargs[attr]
+            ):
+                exc_mess = "Trying to pass attribute '{}' for '{}' and '{}' that are not equal: {} != {}"
+                raise ValueError(
+                    exc_mess.format(
+                        attr,
+                        self.__class__.__name__,
+                        ocp_solver_class.__name__,
+                        kwargs[attr],
+                        solver_options[attr],
+                    )
+                )
+            elif attr in solver_options:
+                setattr(self.options, attr, solver_options[attr])
+            else:
+                solver_options[attr] = getattr(self.options, attr)
+
         # RELAXATION
 
         if self.model.alg[self.relax_algebraic_index].numel() > 0:
@@ -236,28 +257,6 @@ class AugmentedLagrangian(SolutionMethodInterface, metaclass=OptionsOverride):
                 finite_elements=self.options.finite_elements,
             )
 
-        #  make sure that the ocp_solver and the augmented_lagrangian has the same options
-        for attr in ["degree", "finite_elements"]:
-            if (
-                attr in solver_options
-                and attr in kwargs
-                and solver_options[attr] != kwargs[attr]
-            ):
-                exc_mess = "Trying to pass attribute '{}' for '{}' and '{}' that are not equal: {} != {}"
-                raise ValueError(
-                    exc_mess.format(
-                        attr,
-                        self.__class__.__name__,
-                        ocp_solver_class.__name__,
-                        kwargs[attr],
-                        solver_options[attr],
-                    )
-                )
-            elif attr in solver_options:
-                setattr(self.options, attr, solver_options[attr])
-            else:
-                solver_options[attr] = getattr(self.options, attr)
-
         #  solver_options["integrator_type"] = self.integrator_type
 
         # Initialize OCP solver
-- 
2.43.0


From 6a39e63c06cc72a60d60422403eb59f06432a60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:12 +0000
Subject: [PATCH 43/95] fix: guess of relaxed variables is taken at their own
 index

---
 yaocptool/methods/augmented_lagrangian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/methods/augmented_lagrangian.py b/yaocptool/methods/augmented_lagrangian.py
index d1efdda..a913e85 100644
--- a/yaocptool/methods/augmented_lagrangian.py
+++ b/yaocptool/methods/augmented_lagrangian.py
@@ -311,7 +311,7 @@ class AugmentedLagrangian(SolutionMethodInterface, metaclass=OptionsOverride):
 
         # include the relaxed y_sym as controls
         u_guess = (
-            self.problem.y_guess[self.relax_algebraic_index]
+            self.problem.y_guess[self.relax_algebraic_var_index]
             if self.problem.y_guess is not None
             else None
         )
-- 
2.43.0


From 6f61d602069ff75e0ae3198cda3c85926dcfef36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:16 +0000
Subject: [PATCH 44/95] fix: multipliers and residuals are in the same order

---
 yaocptool/methods/augmented_lagrangian.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/yaocptool/methods/augmented_lagrangian.py b/yaocptool/methods/augmented_lagrangian.py
index a913e85..e057ea6 100644
--- a/yaocptool/methods/augmented_lagrangian.py
+++ b/yaocptool/methods/augmented_lagrangian.py
@@ -235,12 +235,12 @@ class AugmentedLagrangian(SolutionMethodInterface, metaclass=OptionsOverride):
         if self.model.alg[self.relax_algebraic_index].numel() > 0:
             self._relax_algebraic_equations()
 
-        if self.relax_time_equality_index:
-            self._relax_time_equalities()
-
         if self.relax_state_bounds:
             self._relax_states_constraints()
 
+        if self.relax_time_equality_index:
+            self._relax_time_equalities()
+
         if not self.options.debug_skip_initialize:
             if not self.options.debug_skip_parametrize:
                 self._parametrize_nu()
-- 
2.43.0


From 50b3558bbb6a1d383769da07a79ea11e515c22b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:20 +0000
Subject: [PATCH 45/95] fix: only_update_if_improve keeps whole multipliers

---
 yaocptool/methods/augmented_lagrangian.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/yaocptool/methods/augmented_lagrangian.py b/yaocptool/methods/augmented_lagrangian.py
index e057ea6..9c8aa05 100644
--- a/yaocptool/methods/augmented_lagrangian.py
+++ b/yaocptool/methods/augmented_lagrangian.py
@@ -779,12 +779,14 @@ class AugmentedLagrangian(SolutionMethodInterface, metaclass=OptionsOverride):
                     for ind, (error, last_error) in enumerate(
                         zip(errors.nz, self.last_violation_error.nz)
                     ):
-                        if (error - last_error) < 0:
-                            self.last_violation_error[ind] = error
-                            for el in self.nu_tilde:
-                                self.nu_tilde[el][ind] = nu_tilde[el][ind]
-                        else:
+                        if (error - last_error) >= 0:
                             LOGGER.info("Error is greater than zero")
+                            # keep the multiplier at all its collocation points
+                            for el in nu_tilde:
+                                nu_tilde[el][ind :: self.n_relax] = self.nu[el][
+                                    ind :: self.n_relax
+                                ]
+                    self.nu_tilde = nu_tilde
                 else:
                     self.nu_tilde = nu_tilde
         return errors
-- 
2.43.0


From 68a21bd77ffdc227a1325a2b6bb6920f526a3ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:24 +0000
Subject: [PATCH 46/95] fix: the primal penalty rule does not change the
 reported parameters

---
 yaocptool/methods/augmented_lagrangian.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yaocptool/methods/augmented_lagrangian.py b/yaocptool/methods/augmented_lagrangian.py
index 9c8aa05..4293847 100644
--- a/yaocptool/methods/augmented_lagrangian.py
+++ b/yaocptool/methods/augmented_lagrangian.py
@@ -656,6 +656,7 @@ class AugmentedLagrangian(SolutionMethodInterface, metaclass=OptionsOverride):
             raise ValueError(f"Unkwon `mu_update_rule`: {self.options.mu_update_rule}")
 
     def _update_mu_primal(self, error: DM, last_error: Optional[DM]):
+        self.mu = DM(self.mu)
         for ind, (mu, err, last_err) in enumerate(
             zip(self.mu.nz, error.nz, last_error.nz)
         ):
-- 
2.43.0


From af7e1d173c2f2ff05e387282d4a56fea9300b169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:30 +0000
Subject: [PATCH 47/95] fix: AugmentedLagrangian updates its multipliers by
 default

---
 yaocptool/methods/augmented_lagrangian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/methods/augmented_lagrangian.py b/yaocptool/methods/augmented_lagrangian.py
index 4293847..3336471 100644
--- a/yaocptool/methods/augmented_lagrangian.py
+++ b/yaocptool/methods/augmented_lagrangian.py
@@ -129,7 +129,7 @@ class AugmentedLagrangian(SolutionMethodInterface, metaclass=OptionsOverride):
         relax_time_equality_index: List[int] = None,
         relax_time_equality_var_index: List[int] = None,
         relax_state_bounds: bool = False,
-        no_update_after_solving: bool = True,
+        no_update_after_solving: bool = False,
         block_number: Optional[int] = None,
         **kwargs,
     ):
-- 
2.43.0


From 41f821990e8c1beaafcb88911b1cbb55c74fdc90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:11:34 +0000
Subject: [PATCH 48/95] fix: relaxing state bounds works when the problem has a
 control guess

---
 yaocptool/methods/augmented_lagrangian.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/yaocptool/methods/augmented_lagrangian.py b/yaocptool/methods/augmented_lagrangian.py
index 3336471..e3edcc2 100644
--- a/yaocptool/methods/augmented_lagrangian.py
+++ b/yaocptool/methods/augmented_lagrangian.py
@@ -360,7 +360,12 @@ class AugmentedLagrangian(SolutionMethodInterface, metaclass=OptionsOverride):
 
                 self.relaxed_alg = vertcat(self.relaxed_alg, new_alg)
                 self.problem.include_control(
-                    y_x, u_min=self.problem.x_min[i], u_max=self.problem.x_max[i]
+                    y_x,
+                    u_min=self.problem.x_min[i],
+                    u_max=self.problem.x_max[i],
+                    u_guess=(
+                        self.problem.x_0[i] if self.problem.u_guess is not None else None
+                    ),
                 )
                 self.problem.x_max[i] = inf
                 self.problem.x_min[i] = -inf
-- 
2.43.0


From 61b8efacbc87688d69255b0d72b2d34865a1fda4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:36 +0000
Subject: [PATCH 49/95] fix: plant data set has one row per measurement

---
 yaocptool/mpc/plant.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/yaocptool/mpc/plant.py b/yaocptool/mpc/plant.py
index 3af29ba..a2e2639 100644
--- a/yaocptool/mpc/plant.py
+++ b/yaocptool/mpc/plant.py
@@ -235,13 +235,14 @@ class PlantSimulation(PlantInterface):
             plot_style="step",
         )
 
+        n_meas = self.c_matrix.shape[0]
         self.dataset.create_entry(
             "meas_wo_noise",
-            self.model.n_x,
-            ["meas_wo_noise_" + str(i) for i in range(self.model.n_x)],
+            n_meas,
+            ["meas_wo_noise_" + str(i) for i in range(n_meas)],
         )
         self.dataset.create_entry(
             "meas",
-            self.model.n_x,
-            ["meas_" + str(i) for i in range(self.model.n_x)],
+            n_meas,
+            ["meas_" + str(i) for i in range(n_meas)],
         )
-- 
2.43.0


From f307044d30f5bd34dc11c877d908c6d34c504dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:41 +0000
Subject: [PATCH 50/95] fix: insert_data checks the rows and sets the size of
 an entry without one

---
 yaocptool/modelling/dataset.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/yaocptool/modelling/dataset.py b/yaocptool/modelling/dataset.py
index 1caab4f..3b50cd9 100644
--- a/yaocptool/modelling/dataset.py
+++ b/yaocptool/modelling/dataset.py
@@ -147,11 +147,19 @@ class DataSet:
                 "time.shape={} and value.shape={}".format(time.shape[1], value.shape)
             )
 
+        size = self.data[entry].size
+        if value.shape[1] > 0:
+            if size is None:
+                size = value.size1()
+            if value.size1() != size:
+                raise ValueError(
+                    'Number of rows of "value" should be the size of the entry "{}", '
+                    "size={} and value.shape={}".format(entry, size, value.shape)
+                )
+
         self.data[entry].values = horzcat(self.data[entry].values, value)
         self.data[entry].time = horzcat(self.data[entry].time, time)
-
-        if self.data[entry].size is None:
-            self.data["entry"].size = value.size1()
+        self.data[entry].size = size
 
     def get_copy(self) -> "DataSet":
         """
-- 
2.43.0


From 488bb38c4bb6ca6fa2e393bcf2bfcb074fcc703f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:45 +0000
Subject: [PATCH 51/95] fix: DataSet.extend creates missing entries and changes
 nothing when it refuses

---
 yaocptool/modelling/dataset.py           | 9 +++++++--
 yaocptool/modelling/simulation_result.py | 4 ++--
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/yaocptool/modelling/dataset.py b/yaocptool/modelling/dataset.py
index 3b50cd9..89d5b89 100644
--- a/yaocptool/modelling/dataset.py
+++ b/yaocptool/modelling/dataset.py
@@ -182,18 +182,23 @@ class DataSet:
         """
 
         for entry in other_dataset.data:
-            if self.get_entry_size(entry) != other_dataset.get_entry_size(entry):
+            if entry in self.data and (
+                self.get_entry_size(entry) != other_dataset.get_entry_size(entry)
+            ):
                 raise ValueError(
                     "The size of the same entry is different in the two datasets, "
                     "{}!={}".format(
                         self.get_entry_size(entry), other_dataset.get_entry_size(entry)
                     )
                 )
+
+        for entry in other_dataset.data:
             if entry not in self.data:
                 self.create_entry(
                     entry,
                     size=other_dataset.get_entry_size(entry),
-                    names=other_dataset.get_entry_names(entry),
+                    names=list(other_dataset.get_entry_names(entry)),
+                    plot_style=other_dataset.data[entry].plot_style,
                 )
             self.insert_data(
                 entry,
diff --git a/yaocptool/modelling/simulation_result.py b/yaocptool/modelling/simulation_result.py
index 512bd48..cc309b0 100644
--- a/yaocptool/modelling/simulation_result.py
+++ b/yaocptool/modelling/simulation_result.py
@@ -108,8 +108,8 @@ class SimulationResult(DataSet):
                     )
                 )
 
+        DataSet.extend(self, other_sim_result)
+
         self.t_f = max(self.t_f, other_sim_result.t_f)
         self.t_0 = min(self.t_0, other_sim_result.t_0)
         self.finite_elements += other_sim_result.finite_elements
-
-        DataSet.extend(self, other_sim_result)
-- 
2.43.0


From 7822286d132570c030a3aec5aa61bb0368037dc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:51 +0000
Subject: [PATCH 52/95] fix: a data set with an empty entry can be sorted

---
 yaocptool/modelling/dataset.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/yaocptool/modelling/dataset.py b/yaocptool/modelling/dataset.py
index 89d5b89..92e2937 100644
--- a/yaocptool/modelling/dataset.py
+++ b/yaocptool/modelling/dataset.py
@@ -220,6 +220,9 @@ class DataSet:
 
         for entry in entries:
             entry_length = self.data[entry].time.shape[1]
+            if entry_length == 0:
+                continue
+
             time = [self.data[entry].time[i] for i in range(entry_length)]
             values = [
                 self.data[entry].values[:, i]
-- 
2.43.0


From 7978945a678f5d451c5e22f54f42f4de3430a7cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:45:57 +0000
Subject: [PATCH 53/95] fix: as_dataframe works with entries without data

---
 yaocptool/modelling/dataset.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/yaocptool/modelling/dataset.py b/yaocptool/modelling/dataset.py
index 92e2937..247ae30 100644
--- a/yaocptool/modelling/dataset.py
+++ b/yaocptool/modelling/dataset.py
@@ -61,7 +61,7 @@ class DataSet:
             #  entry_time_value_dict = [
             #      np.atleast_2d(col).T for col in horzsplit(entry.values, 1)
             #  ]
-            values = entry.values.T.full()
+            values = entry.values.T.full().reshape(len(time), len(entry.names))
             names_tuples = [(entry_name, name) for name in entry.names]
             index = pd.MultiIndex.from_tuples(names_tuples)
             entry_df = pd.DataFrame(values, index=time, columns=index)
@@ -77,6 +77,8 @@ class DataSet:
                 if df is not None
                 else entry_df
             )
+        if df is None:
+            df = pd.DataFrame()
         df.index.name = "time"
         return df
 
-- 
2.43.0


From 8c4fe768b5eb6657fadc7e026815bdf6f6900fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:02 +0000
Subject: [PATCH 54/95] fix: plot accepts a list of plots and 'all' as
 documented

---
 yaocptool/modelling/dataset.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/yaocptool/modelling/dataset.py b/yaocptool/modelling/dataset.py
index 247ae30..74a7958 100644
--- a/yaocptool/modelling/dataset.py
+++ b/yaocptool/modelling/dataset.py
@@ -306,7 +306,9 @@ class DataSet:
         :param bool exact: If true only precise match of entry elements will be plotted, otherwise a regex match will
             be used
         """
-        if not plot_list:
+        if len(plot_list) == 1 and isinstance(plot_list[0], (list, tuple)):
+            plot_list = tuple(plot_list[0])
+        if not plot_list or plot_list == ("all",):
             plot_list = ({"x": "all"}, {"y": "all"}, {"u": "all"})
 
         if use_tex:
-- 
2.43.0


From 1a39b03796602d2e79c10386f488f11d52ca9572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:06 +0000
Subject: [PATCH 55/95] fix: plot draws on the given figures

---
 yaocptool/modelling/dataset.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/yaocptool/modelling/dataset.py b/yaocptool/modelling/dataset.py
index 74a7958..4473082 100644
--- a/yaocptool/modelling/dataset.py
+++ b/yaocptool/modelling/dataset.py
@@ -319,10 +319,8 @@ class DataSet:
 
         # for each plot asked
         for k, entry_dict in enumerate(plot_list):
-            fig = (
-                figures[k]
-                if figures is not None and len(figures) < k
-                else plt.figure(k)
+            fig = plt.figure(
+                figures[k].number if figures is not None and k < len(figures) else k
             )
             used_figures.append(fig)
 
-- 
2.43.0


From c2057fad4ee6a391ad35e21483366e373d43d54c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:11 +0000
Subject: [PATCH 56/95] fix: plot does not change the caller's selection

---
 yaocptool/modelling/dataset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yaocptool/modelling/dataset.py b/yaocptool/modelling/dataset.py
index 4473082..eeb0e34 100644
--- a/yaocptool/modelling/dataset.py
+++ b/yaocptool/modelling/dataset.py
@@ -335,7 +335,8 @@ class DataSet:
                 indexes_or_names = entry_dict[entry]
                 # if it is 'all'
                 if isinstance(indexes_or_names, str):
-                    indexes_or_names = list(range(self.data[entry].size))
+                    indexes_or_names = range(self.data[entry].size)
+                indexes_or_names = list(indexes_or_names)
 
                 var_names = self.get_entry_names(entry)
                 only_indices = [ind for ind in indexes_or_names if isinstance(ind, int)]
-- 
2.43.0


From f5df792a9655700a5a12b51071f2682b0580ef61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:18 +0000
Subject: [PATCH 57/95] fix: the first plant measurement uses c_matrix

---
 yaocptool/mpc/plant.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/mpc/plant.py b/yaocptool/mpc/plant.py
index a2e2639..30e6606 100644
--- a/yaocptool/mpc/plant.py
+++ b/yaocptool/mpc/plant.py
@@ -62,7 +62,6 @@ class PlantSimulation(PlantInterface):
         self.t_s = float(t_s)
 
         self.x = x_0
-        self.measurement = x_0
         self.u = u_0 if u_0 is not None else DM.zeros(self.model.n_u)
         self.t = self.t_0 = float(t_0)
 
@@ -101,6 +100,7 @@ class PlantSimulation(PlantInterface):
         self._initialize_dataset()
 
         meas_data = self._measure(self.x, self.y_guess)
+        self.measurement = meas_data["measurement"]
 
         self._save_data(self.x, self.y_guess, self.u, **meas_data)
         if self.has_noise and self.noise_seed is not None:
-- 
2.43.0


From 17a2ce8cec4feff5fb2240bd116ab34cdfe80806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:22 +0000
Subject: [PATCH 58/95] fix: set_control replaces a control function

---
 yaocptool/mpc/plant.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yaocptool/mpc/plant.py b/yaocptool/mpc/plant.py
index 30e6606..a90fb00 100644
--- a/yaocptool/mpc/plant.py
+++ b/yaocptool/mpc/plant.py
@@ -146,6 +146,7 @@ class PlantSimulation(PlantInterface):
                 )
             )
         self.u = u
+        self.u_function = None
 
         # go to next time
         self._advance()
-- 
2.43.0


From 4247397fb370a7af3f562b9852deb0f4f27037db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:27 +0000
Subject: [PATCH 59/95] fix: remove a debugger call from MPC

---
 yaocptool/mpc/mpc.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/yaocptool/mpc/mpc.py b/yaocptool/mpc/mpc.py
index 9f2d65f..6fa7539 100644
--- a/yaocptool/mpc/mpc.py
+++ b/yaocptool/mpc/mpc.py
@@ -131,7 +131,6 @@ class MPC:
         #      if len(initial_guess_dict) == 1:
         #          initial_guess_dict = initial_guess_dict[0]
 
-        __import__("ipdb").set_trace()
         solutions = self.solution_method.solve(
             x_0=x_k, initial_guess=self.initial_guess, p=p, last_u=u_k
         )
-- 
2.43.0


From 2d4f36c64201a0350ee29ad1fc19a21dd44b1c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:34 +0000
Subject: [PATCH 60/95] fix: MPC passes theta to the solution method

---
 yaocptool/mpc/mpc.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/yaocptool/mpc/mpc.py b/yaocptool/mpc/mpc.py
index 6fa7539..2ef3063 100644
--- a/yaocptool/mpc/mpc.py
+++ b/yaocptool/mpc/mpc.py
@@ -132,7 +132,11 @@ class MPC:
         #          initial_guess_dict = initial_guess_dict[0]
 
         solutions = self.solution_method.solve(
-            x_0=x_k, initial_guess=self.initial_guess, p=p, last_u=u_k
+            x_0=x_k,
+            initial_guess=self.initial_guess,
+            p=p,
+            theta=self.theta,
+            last_u=u_k,
         )
         self.initial_guess = self.step(solutions.raw_decision_variables)
 
-- 
2.43.0


From 803d7f47bff4946afc73a00e1baff0b44dd434b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:39 +0000
Subject: [PATCH 61/95] fix: MPC builds the control polynomial with
 degree_control

---
 yaocptool/mpc/mpc.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/yaocptool/mpc/mpc.py b/yaocptool/mpc/mpc.py
index 2ef3063..093ce84 100644
--- a/yaocptool/mpc/mpc.py
+++ b/yaocptool/mpc/mpc.py
@@ -152,7 +152,10 @@ class MPC:
 
     def _make_control_function(self, control_parameters):
         u_pol, u_par = create_polynomial_approximation(
-            self.plant.model.tau, self.plant.model.n_u, self.solution_method.degree, "u"
+            self.plant.model.tau,
+            self.plant.model.n_u,
+            self.solution_method.degree_control,
+            "u",
         )
 
         u_pol = substitute(u_pol, u_par, control_parameters)
-- 
2.43.0


From c6f896ce284a6febe17087a05524479b853d3a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:44 +0000
Subject: [PATCH 62/95] fix: MPC sends the given control to the plant

---
 yaocptool/mpc/mpc.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/yaocptool/mpc/mpc.py b/yaocptool/mpc/mpc.py
index 093ce84..2a014bf 100644
--- a/yaocptool/mpc/mpc.py
+++ b/yaocptool/mpc/mpc.py
@@ -179,8 +179,10 @@ class MPC:
 
         :param u: DM
         """
-        #  self.plant.set_control(u)
+        self.plant.set_control(u)  # this advances the simulation
 
+    def send_control_function(self):
+        """Sent the control polynomial of the last solution to the plant."""
         self.plant.set_control_function(
             self._make_control_function(
                 self._get_solution_parameters(
@@ -242,8 +244,10 @@ class MPC:
                     )
                 )
 
-            # FIXME: Trying with function
-            self.send_control(new_u)  # this advances the simulation
+            if getattr(self.solution_method, "degree_control", 1) > 1:
+                self.send_control_function()  # this advances the simulation
+            else:
+                self.send_control(new_u)  # this advances the simulation
 
             if k >= iterations - 1:
                 print("End of MPC.un".center(30, "="))
-- 
2.43.0


From 0e8f77d8bffe91abaa015c540d44a7fcf9d8d5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:50 +0000
Subject: [PATCH 63/95] fix: MPC.run(0) runs indefinitely as documented

---
 yaocptool/mpc/mpc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/mpc/mpc.py b/yaocptool/mpc/mpc.py
index 2a014bf..e52ec26 100644
--- a/yaocptool/mpc/mpc.py
+++ b/yaocptool/mpc/mpc.py
@@ -249,7 +249,7 @@ class MPC:
             else:
                 self.send_control(new_u)  # this advances the simulation
 
-            if k >= iterations - 1:
+            if iterations > 0 and k >= iterations - 1:
                 print("End of MPC.un".center(30, "="))
                 break
 
-- 
2.43.0


From f3b59c391beb86a5516cc13ffe7bf8bfee6d5d4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:54 +0000
Subject: [PATCH 64/95] fix: MPC does not change the parameter vector it is
 given

---
 yaocptool/mpc/mpc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/mpc/mpc.py b/yaocptool/mpc/mpc.py
index e52ec26..78f6489 100644
--- a/yaocptool/mpc/mpc.py
+++ b/yaocptool/mpc/mpc.py
@@ -339,7 +339,7 @@ class MPC:
         return next_initial_guess * 1.1
 
     def _get_parameter(self, x_k, p_k):
-        p = self.p
+        p = DM(self.p) if self.p is not None else None
 
         if self.mean_as_parameter:
             for mean_index, p_index in self.mean_p_indices:
-- 
2.43.0


From 834c774c822776e27b4339c519e6468a8811659a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:59 +0000
Subject: [PATCH 65/95] fix: MPC works with a horizon of one element

---
 yaocptool/mpc/mpc.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/yaocptool/mpc/mpc.py b/yaocptool/mpc/mpc.py
index 78f6489..3ce0dc4 100644
--- a/yaocptool/mpc/mpc.py
+++ b/yaocptool/mpc/mpc.py
@@ -316,19 +316,16 @@ class MPC:
             decision_variables
         )
 
-        next_initial_guess = collocation_scheme.repack_decision_variables(
-            x, y, u, eta, p_opt, theta_opt
-        )
-        x.pop(0)  # remove first
         x.pop()  # remove last, which has single collocation equal to the previous
         x.append(x[-1])
+        x.pop(0)  # remove first
         x.append([x[-1][-1]])
 
-        y.pop(0)
         y.append(y[-1])
+        y.pop(0)
 
-        u.pop(0)
         u.append(u[-1])
+        u.pop(0)
 
         next_initial_guess = collocation_scheme.repack_decision_variables(
             x, y, u, eta, p_opt, theta_opt
-- 
2.43.0


From 64d4ba1cd79a9abedd36a354825ecd09e3e6cce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:47:04 +0000
Subject: [PATCH 66/95] fix: MPC works with multiple shooting

---
 yaocptool/methods/classic/multipleshooting.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/yaocptool/methods/classic/multipleshooting.py b/yaocptool/methods/classic/multipleshooting.py
index e6eddda..570bff6 100644
--- a/yaocptool/methods/classic/multipleshooting.py
+++ b/yaocptool/methods/classic/multipleshooting.py
@@ -86,6 +86,19 @@ class MultipleShootingScheme(DiscretizationSchemeBase):
 
         return v, x, y, u, eta, p_opt, theta_opt
 
+    def repack_decision_variables(self, x, y, u, eta, p_opt, theta_opt):
+        """Return the decision variables vector from the structured data, the inverse of
+        unpack_decision_variables
+
+        :return: decision variables
+        """
+        decision_variables_list = []
+        for data in (x, y, u):
+            for data_k in data:
+                decision_variables_list.extend(data_k)
+
+        return vertcat(*decision_variables_list, eta, p_opt, *theta_opt)
+
     def unpack_decision_variables(self, decision_variables):
         """Return a structured data from the decision variables vector
 
-- 
2.43.0


From 827b0c85a233739e4a1e0e9881c47346e675052b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:32 +0000
Subject: [PATCH 67/95] fix: remove_control changes nothing when it raises

---
 yaocptool/modelling/mixins/control_mixin.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yaocptool/modelling/mixins/control_mixin.py b/yaocptool/modelling/mixins/control_mixin.py
index 3a1d644..dcf4b94 100644
--- a/yaocptool/modelling/mixins/control_mixin.py
+++ b/yaocptool/modelling/mixins/control_mixin.py
@@ -58,10 +58,11 @@ class ControlMixin(BaseMixin):
     def remove_control(self, var: SX):
         # raises, before anything is changed, if the control is parametrized
         u_par = remove_variables_from_vector(var, self.u_par)
+        u = remove_variables_from_vector(var, self.u)
         self.u_expr = remove_variables_from_vector_by_indices(
             find_variables_indices_in_vector(var, self.u), self.u_expr
         )
-        self.u = remove_variables_from_vector(var, self.u)
+        self.u = u
         self.u_par = u_par
 
     def replace_variable(self, original: SX, replacement: SX):
-- 
2.43.0


From 863b3e0ef7e447d9f2c3de33851f73dfcdbdc56e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:38 +0000
Subject: [PATCH 68/95] fix: connect refuses what is not a free input before
 changing the model

---
 yaocptool/modelling/system_model.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/yaocptool/modelling/system_model.py b/yaocptool/modelling/system_model.py
index 5499299..dbdf3ee 100644
--- a/yaocptool/modelling/system_model.py
+++ b/yaocptool/modelling/system_model.py
@@ -423,14 +423,20 @@ class SystemModel(ContinuousStateMixin, AlgebraicMixin, ControlMixin, ParameterM
             u.numel() == y.numel()
         ), f'Size of "u" and "y" "are not the same, u={u.numel()} and y={y.numel()}'
 
+        if len(set(find_variables_indices_in_vector(u, self.u))) != u.numel():
+            raise ValueError(
+                '"u" must be inputs of the model, each of them once, u={}'.format(u)
+            )
+
+        # raises, before anything is changed, if an input is parametrized
+        self.remove_control(u)
+
         if replace:
             self.replace_variable(u, y)
         else:
             self.include_equations(alg=[u - y])
             self.include_algebraic(u)
 
-        self.remove_control(u)
-
     @staticmethod
     def put_values_in_all_sym_format(
         t: Any = None,
-- 
2.43.0


From bf63cee44987d3b9c876bd7a5706b67fc0c4f56f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:44 +0000
Subject: [PATCH 69/95] fix: Network.connect checks every connected variable

---
 yaocptool/modelling/network/network.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/yaocptool/modelling/network/network.py b/yaocptool/modelling/network/network.py
index a3e440c..dac1cc4 100644
--- a/yaocptool/modelling/network/network.py
+++ b/yaocptool/modelling/network/network.py
@@ -152,13 +152,13 @@ class Network:
         :param node1: node1 (which has 'y')
         :param node2: node2 (which has 'u')
         """
-        if not node1.model.has_variable(y):
+        if not all(node1.model.has_variable(var) for var in y.nz):
             raise ValueError(
                 '"node1" ({}) does not have the passed "y" ({})'.format(node1.name, y)
             )
-        if not node2.model.has_variable(u):
+        if not all(node2.model.has_variable(var) for var in u.nz):
             raise ValueError(
-                '"node2" ({}) does not have the passed "u" ({})'.format(node2.name, y)
+                '"node2" ({}) does not have the passed "u" ({})'.format(node2.name, u)
             )
 
         if not self.intermediary_nodes:
-- 
2.43.0


From 5e337ae45bac9aba9ceecfe2c91e439678fdde42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:50 +0000
Subject: [PATCH 70/95] fix: Network.connect refuses vectors of different sizes

---
 yaocptool/modelling/network/network.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/yaocptool/modelling/network/network.py b/yaocptool/modelling/network/network.py
index dac1cc4..ebe1933 100644
--- a/yaocptool/modelling/network/network.py
+++ b/yaocptool/modelling/network/network.py
@@ -161,6 +161,13 @@ class Network:
                 '"node2" ({}) does not have the passed "u" ({})'.format(node2.name, u)
             )
 
+        if y.numel() != u.numel():
+            raise ValueError(
+                '"y" and "u" must have the same number of elements, {}!={}'.format(
+                    y.numel(), u.numel()
+                )
+            )
+
         if not self.intermediary_nodes:
             self._connect(y, u, node1, node2)
         else:
-- 
2.43.0


From cf6312ec93ace1a4bdeaf70067db4a5fd79e63e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:55 +0000
Subject: [PATCH 71/95] fix: ids given to nodes are unique in the network

---
 yaocptool/modelling/network/network.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/yaocptool/modelling/network/network.py b/yaocptool/modelling/network/network.py
index ebe1933..2c797b7 100644
--- a/yaocptool/modelling/network/network.py
+++ b/yaocptool/modelling/network/network.py
@@ -129,7 +129,7 @@ class Network:
         # if node does not have an id
         for node in nodes:
             if node.node_id is None:
-                self._set_node_an_id(node)
+                self._set_node_an_id(node, other_nodes=nodes)
 
         self.graph.add_nodes_from(nodes)
 
@@ -230,14 +230,18 @@ class Network:
             if node.name == name:
                 return node
 
-    def _set_node_an_id(self, node):
+    def _set_node_an_id(self, node, other_nodes=()):
         """
             Set a unique id to a node
 
         :param Node node:
+        :param list of Node other_nodes: nodes being included with this one
         :return: node id
         :rtype: int
         """
+        taken = {other.node_id for other in [*self.nodes, *other_nodes]}
+        while self._nodes_id_counter in taken:
+            self._nodes_id_counter += 1
         node.node_id = self._nodes_id_counter
         self._nodes_id_counter += 1
 
-- 
2.43.0


From 3a262afaf97589153bf2c4fbc296d4cec7d6ac6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:59 +0000
Subject: [PATCH 72/95] fix: Network.connect includes the nodes it connects

---
 yaocptool/modelling/network/network.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yaocptool/modelling/network/network.py b/yaocptool/modelling/network/network.py
index 2c797b7..5967db6 100644
--- a/yaocptool/modelling/network/network.py
+++ b/yaocptool/modelling/network/network.py
@@ -168,6 +168,8 @@ class Network:
                 )
             )
 
+        self.include_nodes([node1, node2])
+
         if not self.intermediary_nodes:
             self._connect(y, u, node1, node2)
         else:
-- 
2.43.0


From dd6ce2a96440f3c090a4aebae9de70b7cc2c44c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:05 +0000
Subject: [PATCH 73/95] fix: insert_intermediary_nodes keeps unconnected nodes

---
 yaocptool/modelling/network/network.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yaocptool/modelling/network/network.py b/yaocptool/modelling/network/network.py
index 5967db6..29c4ed9 100644
--- a/yaocptool/modelling/network/network.py
+++ b/yaocptool/modelling/network/network.py
@@ -287,7 +287,9 @@ class Network:
             )
             for (node1, node2) in self.graph.edges
         }
+        nodes = list(self.nodes)
         self.graph = networkx.DiGraph()
+        self.include_nodes(nodes)
 
         for (node1, node2), (y, u) in old_connections.items():
             self.insert_intermediary_node(y, u, node1, node2)
-- 
2.43.0


From a6b1de9af56432db7f86d675a8019e63949093ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:09 +0000
Subject: [PATCH 74/95] fix: intermediary problems start at the same time as
 their neighbours

---
 yaocptool/modelling/network/network.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yaocptool/modelling/network/network.py b/yaocptool/modelling/network/network.py
index 29c4ed9..f63dc93 100644
--- a/yaocptool/modelling/network/network.py
+++ b/yaocptool/modelling/network/network.py
@@ -313,6 +313,7 @@ class Network:
         new_problem = OptimalControlProblem(
             name="OCP_Dummy_{}_to_{}".format(node1.name, node2.name),
             model=new_model,
+            t_0=node1.problem.t_0,
             t_f=node1.problem.t_f,
         )
 
-- 
2.43.0


From c2fdc4da06514a294c19ee1a9fa0418131a0a29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:45:37 +0000
Subject: [PATCH 75/95] fix: every pickled message can be read on its own, in
 any order

---
 yaocptool/util/serializer.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/yaocptool/util/serializer.py b/yaocptool/util/serializer.py
index e1475e5..c903ae5 100644
--- a/yaocptool/util/serializer.py
+++ b/yaocptool/util/serializer.py
@@ -21,15 +21,14 @@ class NewForkingPickler(mp.reduction.ForkingPickler):
 
 
 class CasadiPicklerDepickler:
-    serializer = StringSerializer()
-    deserializer = StringDeserializer(serializer.encode())
-
     def __init__(self):
         #  print("creating pickler/depickler", os.getpid())
-        self.__class__.serializer = StringSerializer()
-        self.__class__.deserializer = StringDeserializer(
-            self.__class__.serializer.encode()
-        )
+        self.serializer = StringSerializer()
+        self.deserializer = StringDeserializer(self.serializer.encode())
+
+    def __reduce__(self):
+        # every message is read with a stream of its own, from the start
+        return self.__class__, ()
 
     def dumps(self, var: Union[SX, MX]) -> str:
         #  print(os.getpid(), id(self.serializer), "starting to dump", repr(var))
-- 
2.43.0


From 0638771cfe3e3a4966d149bee14052844794138c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:05 +0000
Subject: [PATCH 76/95] fix: a timeout is about its own time limit only

---
 yaocptool/util/timeout.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/yaocptool/util/timeout.py b/yaocptool/util/timeout.py
index 7bd3de6..ca5cce4 100644
--- a/yaocptool/util/timeout.py
+++ b/yaocptool/util/timeout.py
@@ -11,6 +11,7 @@ class timeout:
         self.raise_exc = raise_exc
         self.error_message = error_message
         self._timedout = None
+        self._error = None
 
     @property
     def timedout(self):
@@ -19,10 +20,12 @@ class timeout:
         return self._timedout
 
     def handle_timeout(self, signum, frame):
-        self._timedout = True
-        raise TimeoutError(self.error_message)
+        self._error = TimeoutError(self.error_message)
+        raise self._error
 
     def __enter__(self):
+        self._timedout = None
+        self._error = None
         signal.signal(signal.SIGALRM, self.handle_timeout)
         signal.alarm(self.seconds)
         return self
@@ -34,6 +37,7 @@ class timeout:
         traceback: TracebackType,
     ):
         signal.alarm(0)
+        self._timedout = self._error is not None
         if exc_type is None:
             return True
 
@@ -44,9 +48,7 @@ class timeout:
                 break
             cause = cause.__cause__
 
-        if type(cause) is not TimeoutError:
-            self._timedout = False
+        if cause is not self._error:
             return
 
-        self._timedout = True
         return not self.raise_exc
-- 
2.43.0


From c513323ca8760bd085b28e7a4ea6b6febfa571a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:51:10 +0000
Subject: [PATCH 77/95] fix: a timeout keeps the alarms set outside of it

---
 yaocptool/util/timeout.py | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/yaocptool/util/timeout.py b/yaocptool/util/timeout.py
index ca5cce4..a2374fb 100644
--- a/yaocptool/util/timeout.py
+++ b/yaocptool/util/timeout.py
@@ -1,4 +1,5 @@
 import signal
+import time
 from types import TracebackType
 from typing import Type
 
@@ -12,6 +13,8 @@ class timeout:
         self.error_message = error_message
         self._timedout = None
         self._error = None
+        self._due = self._outer_due = float("inf")
+        self._outer_handler = signal.SIG_DFL
 
     @property
     def timedout(self):
@@ -19,15 +22,37 @@ class timeout:
         #      raise ValueError("timeout hasn't finished yet")
         return self._timedout
 
+    def _set_alarm(self, due: float):
+        seconds = max(due - time.monotonic(), 1e-6) if due < float("inf") else 0
+        signal.setitimer(signal.ITIMER_REAL, seconds)
+
+    def _save_outer_alarm(self):
+        remaining, _ = signal.setitimer(signal.ITIMER_REAL, 0)
+        self._outer_due = time.monotonic() + remaining if remaining else float("inf")
+
     def handle_timeout(self, signum, frame):
+        if self._outer_due < self._due and callable(self._outer_handler):
+            # the alarm that was set before entering is due first
+            try:
+                self._outer_handler(signum, frame)
+            finally:
+                self._save_outer_alarm()
+                self._set_alarm(min(self._due, self._outer_due))
+            return
+
+        self._due = float("inf")
+        self._set_alarm(self._outer_due)
         self._error = TimeoutError(self.error_message)
         raise self._error
 
     def __enter__(self):
         self._timedout = None
         self._error = None
+        self._outer_handler = signal.getsignal(signal.SIGALRM) or signal.SIG_DFL
+        self._save_outer_alarm()
+        self._due = time.monotonic() + self.seconds if self.seconds else float("inf")
         signal.signal(signal.SIGALRM, self.handle_timeout)
-        signal.alarm(self.seconds)
+        self._set_alarm(min(self._due, self._outer_due))
         return self
 
     def __exit__(
@@ -36,7 +61,9 @@ class timeout:
         value: BaseException,
         traceback: TracebackType,
     ):
-        signal.alarm(0)
+        signal.setitimer(signal.ITIMER_REAL, 0)
+        signal.signal(signal.SIGALRM, self._outer_handler)
+        self._set_alarm(self._outer_due)
         self._timedout = self._error is not None
         if exc_type is None:
             return True
-- 
2.43.0


From 3c1a0675d463572331ef5d0b24cc07d36f458625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:18:27 +0000
Subject: [PATCH 78/95] fix: join_thetas refuses thetas with different keys

---
 yaocptool/util/util.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/yaocptool/util/util.py b/yaocptool/util/util.py
index 9a4a0bc..663ec1e 100644
--- a/yaocptool/util/util.py
+++ b/yaocptool/util/util.py
@@ -167,15 +167,13 @@ def join_thetas(*args: Optional[Dict[int, DM]]) -> Dict[int, DM]:
     """
     new_theta: Dict[int, DM] = {}
     all_keys: List[int] = []
-    n_keys = 0
     for theta in args:
         if theta is not None:
             theta_keys = theta.keys()
-            n_keys = len(theta_keys) if n_keys == 0 else n_keys
-            if len(theta_keys) > 0 and len(theta_keys) != n_keys:
+            if theta_keys and all_keys and set(theta_keys) != set(all_keys):
                 raise ValueError(
-                    "Only thetas with size zero or same size are accepted, given: {}".format(
-                        [len(th.keys()) if th is not None else None for th in args]
+                    "Only thetas with size zero or same keys are accepted, given: {}".format(
+                        [list(th.keys()) if th is not None else None for th in args]
                     )
                 )
             all_keys.extend(theta.keys())
-- 
2.43.0


From 4ce3fde1cbe2158eddcbc8f505a659cb3de40b04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:33:07 +0000
Subject: [PATCH 79/95] fix: give each nonlinear problem its own solver options

---
 yaocptool/optimization/nonlinear_problem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/optimization/nonlinear_problem.py b/yaocptool/optimization/nonlinear_problem.py
index d359ee0..de36af1 100644
--- a/yaocptool/optimization/nonlinear_problem.py
+++ b/yaocptool/optimization/nonlinear_problem.py
@@ -23,7 +23,7 @@ class NonlinearOptimizationProblem(AbstractOptimizationProblem):
         """
         super(NonlinearOptimizationProblem, self).__init__(**kwargs)
         if self.solver_options == {}:
-            self.solver_options = SOLVER_OPTIONS["nlpsol_options"]
+            self.solver_options = dict(SOLVER_OPTIONS["nlpsol_options"])
 
     def _create_solver(self) -> Function:
         problem_dict = self.get_problem_dict()
-- 
2.43.0


From f1ad89c827d0827a8ddabf4654bedaec49dd2046 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:19 +0000
Subject: [PATCH 80/95] fix: keep the final cost when costs are summed over the
 elements

---
 yaocptool/methods/classic/multipleshooting.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/yaocptool/methods/classic/multipleshooting.py b/yaocptool/methods/classic/multipleshooting.py
index 570bff6..1188020 100644
--- a/yaocptool/methods/classic/multipleshooting.py
+++ b/yaocptool/methods/classic/multipleshooting.py
@@ -286,11 +286,11 @@ class MultipleShootingScheme(DiscretizationSchemeBase):
         nlp.include_equality(f_h(p))
 
         if self.solution_method.solution_class == "direct":
-            if not self.solution_method.cost_as_a_sum:
-                f_final_cost = Function(
-                    "FinalCost", [self.model.x, self.model.p], [self.problem.V]
-                )
-                cost = f_final_cost(x_var[-1][0], p)
+            # (with cost_as_a_sum the final value of the cost state is zero)
+            f_final_cost = Function(
+                "FinalCost", [self.model.x, self.model.p], [self.problem.V]
+            )
+            cost += f_final_cost(x_var[-1][0], p)
             cost += s_cost
         nlp.set_objective(cost)
 
-- 
2.43.0


From 38812653e6c5fe8d9f84ae32c577bd9947db511f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:59:46 +0000
Subject: [PATCH 81/95] fix: look at the objective an optimization result has
 in is_valid

---
 yaocptool/methods/base/optimizationresult.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/methods/base/optimizationresult.py b/yaocptool/methods/base/optimizationresult.py
index 065092b..b67b51a 100644
--- a/yaocptool/methods/base/optimizationresult.py
+++ b/yaocptool/methods/base/optimizationresult.py
@@ -86,7 +86,7 @@ class OptimizationResult:
                     self.__class__.__name__, "time_breakpoints"
                 )
             )
-        for attr in ["objective"]:
+        for attr in ["objective_opt_problem"]:
             if getattr(self, attr) is None:
                 raise Exception(
                     "{} attribute {} is None".format(self.__class__.__name__, attr)
-- 
2.43.0


From 547ae623376ebd06ff72db0c6faa0bd5b9d13ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:16 +0000
Subject: [PATCH 82/95] fix: create the Kalman filters with the variables
 models have and the entries data sets have

---
 .../estimation/extended_kalman_filter.py      | 91 ++++++++++---------
 yaocptool/estimation/pce_kalman_filter.py     | 26 +++---
 .../estimation/unscented_kalman_filter.py     | 65 +++++++------
 3 files changed, 102 insertions(+), 80 deletions(-)

diff --git a/yaocptool/estimation/extended_kalman_filter.py b/yaocptool/estimation/extended_kalman_filter.py
index 9fc18a2..2c63fd9 100644
--- a/yaocptool/estimation/extended_kalman_filter.py
+++ b/yaocptool/estimation/extended_kalman_filter.py
@@ -70,34 +70,43 @@ class ExtendedKalmanFilter(EstimatorAbstract):
 
         # Data set
         self.dataset = DataSet(name=self.model.name)
-        self.dataset.data["x"]["size"] = self.model.n_x
-        self.dataset.data["x"]["names"] = [
-            "ekf_" + self.model.x_sym[i].name() for i in range(self.model.n_x)
-        ]
-
-        self.dataset.data["y"]["size"] = self.model.n_y
-        self.dataset.data["y"]["names"] = [
-            "ekf_" + self.model.y_sym[i].name() for i in range(self.model.n_y)
-        ]
-
-        self.dataset.data["P"]["size"] = self.model.n_x ** 2
-        self.dataset.data["P"]["names"] = [
-            "ekf_P_" + str(i) + str(j)
-            for i in range(self.model.n_x)
-            for j in range(self.model.n_x)
-        ]
-
-        self.dataset.data["P_y"]["size"] = self.model.n_y ** 2
-        self.dataset.data["P_y"]["names"] = [
-            "ekf_P_y_" + str(i) + str(j)
-            for i in range(self.model.n_y)
-            for j in range(self.model.n_y)
-        ]
-
-        self.dataset.data["meas"]["size"] = self.n_meas
-        self.dataset.data["meas"]["names"] = [
-            "ekf_meas_" + str(i) for i in range(self.n_meas)
-        ]
+        self.dataset.create_entry(
+            "x",
+            size=self.model.n_x,
+            names=["ekf_" + self.model.x[i].name() for i in range(self.model.n_x)],
+        )
+
+        self.dataset.create_entry(
+            "y",
+            size=self.model.n_y,
+            names=["ekf_" + self.model.y[i].name() for i in range(self.model.n_y)],
+        )
+
+        self.dataset.create_entry(
+            "P",
+            size=self.model.n_x ** 2,
+            names=[
+                "ekf_P_" + str(i) + str(j)
+                for i in range(self.model.n_x)
+                for j in range(self.model.n_x)
+            ],
+        )
+
+        self.dataset.create_entry(
+            "P_y",
+            size=self.model.n_y ** 2,
+            names=[
+                "ekf_P_y_" + str(i) + str(j)
+                for i in range(self.model.n_y)
+                for j in range(self.model.n_y)
+            ],
+        )
+
+        self.dataset.create_entry(
+            "meas",
+            size=self.n_meas,
+            names=["ekf_meas_" + str(i) for i in range(self.n_meas)],
+        )
 
     @property
     def n_meas(self):
@@ -178,14 +187,14 @@ class ExtendedKalmanFilter(EstimatorAbstract):
 
         # Obtain the matrix G (linearized measurement model)
         measurement_sym = self._get_measurement_from_prediction(
-            self.model.x_sym, self.model.y_sym, self.model.u_sym
+            self.model.x, self.model.y, self.model.u
         )
         dh_dx_aug_sym = jacobian(
-            measurement_sym, vertcat(self.model.x_sym, self.model.y_sym)
+            measurement_sym, vertcat(self.model.x, self.model.y)
         )
         f_dh_dx_aug = Function(
             "dh_dx_aug",
-            [self.model.x_sym, self.model.y_sym, self.model.u_sym],
+            [self.model.x, self.model.y, self.model.u],
             [dh_dx_aug_sym],
         )
 
@@ -239,27 +248,27 @@ class ExtendedKalmanFilter(EstimatorAbstract):
         :type model: SystemModel
         """
         aug_model = SystemModel("aug_linearized_EKF_model")
-        aug_model.include_state(self.model.x_sym)
-        aug_model.include_state(self.model.y_sym)
-        aug_model.include_control(self.model.u_sym)
-        aug_model.include_parameter(self.model.p_sym)
-        aug_model.include_theta(self.model.theta_sym)
+        aug_model.include_state(self.model.x)
+        aug_model.include_state(self.model.y)
+        aug_model.include_control(self.model.u)
+        aug_model.include_parameter(self.model.p)
+        aug_model.include_theta(self.model.theta)
 
         # remove u_par (self.model.u_par model.u_par)
         all_sym = list(self.model.all_sym)
 
         # Mean
         a_func = Function(
-            "A_matrix", all_sym, [jacobian(self.model.ode, self.model.x_sym)]
+            "A_matrix", all_sym, [jacobian(self.model.ode, self.model.x)]
         )
         b_func = Function(
-            "B_matrix", all_sym, [jacobian(self.model.ode, self.model.y_sym)]
+            "B_matrix", all_sym, [jacobian(self.model.ode, self.model.y)]
         )
         c_func = Function(
-            "C_matrix", all_sym, [jacobian(self.model.alg, self.model.x_sym)]
+            "C_matrix", all_sym, [jacobian(self.model.alg, self.model.x)]
         )
         d_func = Function(
-            "D_matrix", all_sym, [jacobian(self.model.alg, self.model.y_sym)]
+            "D_matrix", all_sym, [jacobian(self.model.alg, self.model.y)]
         )
 
         x_lin = aug_model.create_parameter("x_lin", self.model.n_x)
@@ -281,7 +290,7 @@ class ExtendedKalmanFilter(EstimatorAbstract):
             ),
         )
 
-        x_aug = vertcat(model.x_sym, model.y_sym)
+        x_aug = vertcat(model.x, model.y)
         aug_model.include_equations(ode=[mtimes(a_aug_matrix, x_aug)])
 
         # Covariance
diff --git a/yaocptool/estimation/pce_kalman_filter.py b/yaocptool/estimation/pce_kalman_filter.py
index e9fa0d4..329f0e0 100644
--- a/yaocptool/estimation/pce_kalman_filter.py
+++ b/yaocptool/estimation/pce_kalman_filter.py
@@ -72,17 +72,21 @@ class PCEKalmanFilter(EstimatorAbstract):
         )
 
         self.dataset = DataSet(name=self.model.name)
-        self.dataset.data["x"]["size"] = self.model.n_x
-        self.dataset.data["x"]["names"] = [
-            "est_" + self.model.x_sym[i].name() for i in range(self.model.n_x)
-        ]
-
-        self.dataset.data["P"]["size"] = self.model.n_x ** 2
-        self.dataset.data["P"]["names"] = [
-            "P_" + str(i) + str(j)
-            for i in range(self.model.n_x)
-            for j in range(self.model.n_x)
-        ]
+        self.dataset.create_entry(
+            "x",
+            size=self.model.n_x,
+            names=["est_" + self.model.x[i].name() for i in range(self.model.n_x)],
+        )
+
+        self.dataset.create_entry(
+            "P",
+            size=self.model.n_x ** 2,
+            names=[
+                "P_" + str(i) + str(j)
+                for i in range(self.model.n_x)
+                for j in range(self.model.n_x)
+            ],
+        )
 
     @property
     def n_pol_parameters(self):
diff --git a/yaocptool/estimation/unscented_kalman_filter.py b/yaocptool/estimation/unscented_kalman_filter.py
index 44e5c6d..36dcaee 100644
--- a/yaocptool/estimation/unscented_kalman_filter.py
+++ b/yaocptool/estimation/unscented_kalman_filter.py
@@ -61,34 +61,43 @@ class UnscentedKalmanFilter(EstimatorAbstract):
 
         # Data set
         self.dataset = DataSet(name=self.model.name)
-        self.dataset.data["x"]["size"] = self.model.n_x
-        self.dataset.data["x"]["names"] = [
-            "ukf_" + self.model.x_sym[i].name() for i in range(self.model.n_x)
-        ]
-
-        self.dataset.data["y"]["size"] = self.model.n_y
-        self.dataset.data["y"]["names"] = [
-            "ukf_" + self.model.y_sym[i].name() for i in range(self.model.n_y)
-        ]
-
-        self.dataset.data["P"]["size"] = self.model.n_x ** 2
-        self.dataset.data["P"]["names"] = [
-            "ukf_P_" + str(i) + str(j)
-            for i in range(self.model.n_x)
-            for j in range(self.model.n_x)
-        ]
-
-        self.dataset.data["P_y"]["size"] = self.model.n_y ** 2
-        self.dataset.data["P_y"]["names"] = [
-            "ukf_P_y_" + str(i) + str(j)
-            for i in range(self.model.n_y)
-            for j in range(self.model.n_y)
-        ]
-
-        self.dataset.data["meas"]["size"] = self.n_meas
-        self.dataset.data["meas"]["names"] = [
-            "ukf_meas_" + str(i) for i in range(self.n_meas)
-        ]
+        self.dataset.create_entry(
+            "x",
+            size=self.model.n_x,
+            names=["ukf_" + self.model.x[i].name() for i in range(self.model.n_x)],
+        )
+
+        self.dataset.create_entry(
+            "y",
+            size=self.model.n_y,
+            names=["ukf_" + self.model.y[i].name() for i in range(self.model.n_y)],
+        )
+
+        self.dataset.create_entry(
+            "P",
+            size=self.model.n_x ** 2,
+            names=[
+                "ukf_P_" + str(i) + str(j)
+                for i in range(self.model.n_x)
+                for j in range(self.model.n_x)
+            ],
+        )
+
+        self.dataset.create_entry(
+            "P_y",
+            size=self.model.n_y ** 2,
+            names=[
+                "ukf_P_y_" + str(i) + str(j)
+                for i in range(self.model.n_y)
+                for j in range(self.model.n_y)
+            ],
+        )
+
+        self.dataset.create_entry(
+            "meas",
+            size=self.n_meas,
+            names=["ukf_meas_" + str(i) for i in range(self.n_meas)],
+        )
 
         # Choose the UKF implementation
         if self.implementation == "standard":
-- 
2.43.0


From 09a5284ed7dd727f73126c8ce00b9957f5b21bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:23 +0000
Subject: [PATCH 83/95] fix: keep the covariance of the algebraic variables as
 a vector, as the entry has it

---
 yaocptool/estimation/extended_kalman_filter.py  | 4 +++-
 yaocptool/estimation/unscented_kalman_filter.py | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/yaocptool/estimation/extended_kalman_filter.py b/yaocptool/estimation/extended_kalman_filter.py
index 2c63fd9..6c1f781 100644
--- a/yaocptool/estimation/extended_kalman_filter.py
+++ b/yaocptool/estimation/extended_kalman_filter.py
@@ -238,7 +238,9 @@ class ExtendedKalmanFilter(EstimatorAbstract):
         self.dataset.insert_data("y", t_k, x_mean[self.model.n_x :])
         self.dataset.insert_data("meas", t_k, meas_corr)
         self.dataset.insert_data("P", t_k, vec(self.p_k))
-        self.dataset.insert_data("P_y", t_k, p_k[self.model.n_x :, self.model.n_x :])
+        self.dataset.insert_data(
+            "P_y", t_k, vec(p_k[self.model.n_x :, self.model.n_x :])
+        )
 
         return self.x_mean, self.p_k
 
diff --git a/yaocptool/estimation/unscented_kalman_filter.py b/yaocptool/estimation/unscented_kalman_filter.py
index 36dcaee..6f78d07 100644
--- a/yaocptool/estimation/unscented_kalman_filter.py
+++ b/yaocptool/estimation/unscented_kalman_filter.py
@@ -257,7 +257,7 @@ class UnscentedKalmanFilter(EstimatorAbstract):
         self.dataset.insert_data("meas", t_k, meas_corr)
         self.dataset.insert_data("P", t_k, vec(self.p_k))
         self.dataset.insert_data(
-            "P_y", t_k, cov_x_aug[self.model.n_x :, self.model.n_x :]
+            "P_y", t_k, vec(cov_x_aug[self.model.n_x :, self.model.n_x :])
         )
 
         return x_mean, cov_x_aug
-- 
2.43.0


From 0f8dad82d9224243553a7b2756371764face1bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:31 +0000
Subject: [PATCH 84/95] fix: advance the time of the Kalman filters with every
 estimate

---
 yaocptool/estimation/extended_kalman_filter.py  | 1 +
 yaocptool/estimation/pce_kalman_filter.py       | 1 +
 yaocptool/estimation/unscented_kalman_filter.py | 1 +
 3 files changed, 3 insertions(+)

diff --git a/yaocptool/estimation/extended_kalman_filter.py b/yaocptool/estimation/extended_kalman_filter.py
index 6c1f781..171e997 100644
--- a/yaocptool/estimation/extended_kalman_filter.py
+++ b/yaocptool/estimation/extended_kalman_filter.py
@@ -232,6 +232,7 @@ class ExtendedKalmanFilter(EstimatorAbstract):
         self.x_mean = x_mean[: self.model.n_x]
         self._p_k_aug = p_k
         self.p_k = p_k[: self.model.n_x, : self.model.n_x]
+        self.t = self.t + self.t_s
 
         # Save in the data set
         self.dataset.insert_data("x", t_k, self.x_mean)
diff --git a/yaocptool/estimation/pce_kalman_filter.py b/yaocptool/estimation/pce_kalman_filter.py
index 329f0e0..fc0c5ce 100644
--- a/yaocptool/estimation/pce_kalman_filter.py
+++ b/yaocptool/estimation/pce_kalman_filter.py
@@ -142,6 +142,7 @@ class PCEKalmanFilter(EstimatorAbstract):
 
         self.x_mean = x_hat_k
         self.p_k = p_k
+        self.t = self.t + self.t_s
 
         self.dataset.insert_data("x", t_k, self.x_mean)
         self.dataset.insert_data("P", t_k, vec(self.p_k))
diff --git a/yaocptool/estimation/unscented_kalman_filter.py b/yaocptool/estimation/unscented_kalman_filter.py
index 6f78d07..c3fd064 100644
--- a/yaocptool/estimation/unscented_kalman_filter.py
+++ b/yaocptool/estimation/unscented_kalman_filter.py
@@ -250,6 +250,7 @@ class UnscentedKalmanFilter(EstimatorAbstract):
         self.x_mean = x_mean[: self.model.n_x]
         self._p_k_aug = cov_x_aug_pred
         self.p_k = cov_x_aug[: self.model.n_x, : self.model.n_x]
+        self.t = self.t + self.t_s
 
         # Save in the data set
         self.dataset.insert_data("x", t_k, self.x_mean)
-- 
2.43.0


From ab89d9b3b7b1549601dd4033f05d3b4ceba23760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:38 +0000
Subject: [PATCH 85/95] fix: return the estimated states from the unscented
 Kalman filter as the other filters do

---
 yaocptool/estimation/unscented_kalman_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/estimation/unscented_kalman_filter.py b/yaocptool/estimation/unscented_kalman_filter.py
index c3fd064..8ff7b7f 100644
--- a/yaocptool/estimation/unscented_kalman_filter.py
+++ b/yaocptool/estimation/unscented_kalman_filter.py
@@ -261,7 +261,7 @@ class UnscentedKalmanFilter(EstimatorAbstract):
             "P_y", t_k, vec(cov_x_aug[self.model.n_x :, self.model.n_x :])
         )
 
-        return x_mean, cov_x_aug
+        return self.x_mean, self.p_k
 
     def _estimate_square_root_ukf(self, t_k, y_k, u_k):
         raise NotImplementedError
-- 
2.43.0


From 624a96bd3ab99b6a0a7f0ab4fa9e6dc684f1aae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:44 +0000
Subject: [PATCH 86/95] fix: linearize the extended Kalman filter at the
 control that is applied

---
 yaocptool/estimation/extended_kalman_filter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/estimation/extended_kalman_filter.py b/yaocptool/estimation/extended_kalman_filter.py
index 171e997..5032fab 100644
--- a/yaocptool/estimation/extended_kalman_filter.py
+++ b/yaocptool/estimation/extended_kalman_filter.py
@@ -173,7 +173,7 @@ class ExtendedKalmanFilter(EstimatorAbstract):
 
         # Covariance
         all_sym_values = self.model.put_values_in_all_sym_format(
-            t=self.t, x=x_pred, y=y_pred, p=self.p, theta=self.theta
+            t=self.t, x=x_pred, y=y_pred, p=self.p, theta=self.theta, u_par=u_f
         )
         all_sym_values = all_sym_values
 
-- 
2.43.0


From 04dd33574226361ef8b53697b5c3493a07deb784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:49 +0000
Subject: [PATCH 87/95] fix: sum over the coefficients of the polynomials in
 the PCE Kalman filter

---
 yaocptool/estimation/pce_kalman_filter.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/yaocptool/estimation/pce_kalman_filter.py b/yaocptool/estimation/pce_kalman_filter.py
index fc0c5ce..2d7c539 100644
--- a/yaocptool/estimation/pce_kalman_filter.py
+++ b/yaocptool/estimation/pce_kalman_filter.py
@@ -207,10 +207,10 @@ class PCEKalmanFilter(EstimatorAbstract):
         p_k_minus = DM.zeros(self.model.n_x, self.model.n_x)
         for i in range(self.model.n_x):
             for j in range(self.model.n_x):
-                p_k_minus[i, j] = (
-                    sum([a_x[i][k] * a_x[j][k] for k in range(1, self.n_samples)])
-                    + self.r_v[i, j]
+                p_k_minus[i, j] = sum(
+                    [a_x[i][k] * a_x[j][k] for k in range(1, a_x[i].numel())]
                 )
+        p_k_minus = p_k_minus + self.r_v
 
         # calculate the measurement for each sample
         y_cal_k_at_k_minus_1 = []
@@ -241,7 +241,7 @@ class PCEKalmanFilter(EstimatorAbstract):
         for i in range(n_meas):
             for j in range(n_meas):
                 p_yk_yk[i, j] = sum(
-                    [a_meas[i][k] * a_meas[j][k] for k in range(1, self.n_samples)]
+                    [a_meas[i][k] * a_meas[j][k] for k in range(1, a_meas[i].numel())]
                 )
         p_yk_yk = p_yk_yk + self.r_n
 
@@ -250,7 +250,7 @@ class PCEKalmanFilter(EstimatorAbstract):
         for i in range(self.model.n_x):
             for j in range(n_meas):
                 p_xk_yk[i, j] = sum(
-                    [a_x[i][k] * a_meas[j][k] for k in range(1, self.n_samples)]
+                    [a_x[i][k] * a_meas[j][k] for k in range(1, a_x[i].numel())]
                 )
 
         # k_gain = mtimes(p_xk_yk, inv(p_yk_yk))
-- 
2.43.0


From 0e39b2b64b58ede6fa08218a71fe5e2587d9c5df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:28:03 +0000
Subject: [PATCH 88/95] fix: let the Kalman filters estimate models with a
 single state

---
 yaocptool/estimation/extended_kalman_filter.py  | 4 ++--
 yaocptool/estimation/unscented_kalman_filter.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/yaocptool/estimation/extended_kalman_filter.py b/yaocptool/estimation/extended_kalman_filter.py
index 5032fab..c3d11b8 100644
--- a/yaocptool/estimation/extended_kalman_filter.py
+++ b/yaocptool/estimation/extended_kalman_filter.py
@@ -212,7 +212,7 @@ class ExtendedKalmanFilter(EstimatorAbstract):
         # Correct prediction of the state estimation
         x_mean = x_aug_f + mtimes(k_gain, (y_k - meas_pred))
         meas_corr = self._get_measurement_from_prediction(
-            x_mean[: self.model.n_x], x_mean[self.model.n_x :], u_f
+            x_mean[: self.model.n_x], x_mean[self.model.n_x :, :], u_f
         )
         if self.verbosity > 1:
             print("Predicted state: {}".format(x_pred))
@@ -236,7 +236,7 @@ class ExtendedKalmanFilter(EstimatorAbstract):
 
         # Save in the data set
         self.dataset.insert_data("x", t_k, self.x_mean)
-        self.dataset.insert_data("y", t_k, x_mean[self.model.n_x :])
+        self.dataset.insert_data("y", t_k, x_mean[self.model.n_x :, :])
         self.dataset.insert_data("meas", t_k, meas_corr)
         self.dataset.insert_data("P", t_k, vec(self.p_k))
         self.dataset.insert_data(
diff --git a/yaocptool/estimation/unscented_kalman_filter.py b/yaocptool/estimation/unscented_kalman_filter.py
index 8ff7b7f..7bba367 100644
--- a/yaocptool/estimation/unscented_kalman_filter.py
+++ b/yaocptool/estimation/unscented_kalman_filter.py
@@ -230,7 +230,7 @@ class UnscentedKalmanFilter(EstimatorAbstract):
         # Correct prediction of the state estimation
         x_mean = x_aug_pred + mtimes(k_gain, (y_k - meas_pred))
         meas_corr = self._get_measurement_from_prediction(
-            x_mean[: self.model.n_x], x_mean[self.model.n_x :], u_k
+            x_mean[: self.model.n_x], x_mean[self.model.n_x :, :], u_k
         )
         print("Predicted state: {}".format(x_pred))
         print("Prediction error: {}".format(y_k - meas_pred))
@@ -254,7 +254,7 @@ class UnscentedKalmanFilter(EstimatorAbstract):
 
         # Save in the data set
         self.dataset.insert_data("x", t_k, self.x_mean)
-        self.dataset.insert_data("y", t_k, x_mean[self.model.n_x :])
+        self.dataset.insert_data("y", t_k, x_mean[self.model.n_x :, :])
         self.dataset.insert_data("meas", t_k, meas_corr)
         self.dataset.insert_data("P", t_k, vec(self.p_k))
         self.dataset.insert_data(
-- 
2.43.0


From c39284b1ef71c56dd8b003e722da3637d448428e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:45 +0000
Subject: [PATCH 89/95] fix: use the tenth Hermite polynomial in the polynomial
 chaos expansion

---
 yaocptool/stochastic/pce.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/stochastic/pce.py b/yaocptool/stochastic/pce.py
index 805e648..bee762e 100644
--- a/yaocptool/stochastic/pce.py
+++ b/yaocptool/stochastic/pce.py
@@ -493,7 +493,7 @@ def get_ls_factor(n_uncertain, n_samples, pc_order, lamb=0.0):
     he10fcn = Function(
         "He10fcn",
         [x],
-        [x ** 10 - 45 * x ** 8 + 640 * x ** 6 - 3150 * x ** 4 + 4725 * x ** 2 - 945],
+        [x ** 10 - 45 * x ** 8 + 630 * x ** 6 - 3150 * x ** 4 + 4725 * x ** 2 - 945],
     )
     helist = [
         he0fcn,
-- 
2.43.0


From 44aaecbeca187f8ad6a1a41faa05f53d0872a07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:00 +0000
Subject: [PATCH 90/95] fix: give the options of the distributed method a
 default that a dataclass accepts

---
 yaocptool/methods/network/distributedaugmetedlagrangian.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/yaocptool/methods/network/distributedaugmetedlagrangian.py b/yaocptool/methods/network/distributedaugmetedlagrangian.py
index b09863c..9b8c14e 100644
--- a/yaocptool/methods/network/distributedaugmetedlagrangian.py
+++ b/yaocptool/methods/network/distributedaugmetedlagrangian.py
@@ -9,7 +9,7 @@ import logging
 import random
 import time
 from collections import defaultdict
-from dataclasses import asdict, dataclass
+from dataclasses import asdict, dataclass, field
 from typing import Dict, List, Literal, Optional, Tuple, Type, Union, cast
 
 import matplotlib.pyplot as plt
@@ -55,7 +55,9 @@ class DistributedAugmentedLagrangianOptions:
     ] = "cyclic"
     debug_skip_replace_by_approximation: bool = False
 
-    al_options: AugmentedLagrangianOptions = AugmentedLagrangianOptions()
+    al_options: AugmentedLagrangianOptions = field(
+        default_factory=AugmentedLagrangianOptions
+    )
 
     def __post_init__(self):
         if not isinstance(self.al_options, AugmentedLagrangianOptions):
-- 
2.43.0


From 263dfc6da7d964079af879070d0c21cf06899acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:04 +0000
Subject: [PATCH 91/95] fix: put every node in one block, and connected nodes
 in different ones

---
 yaocptool/methods/network/distributedaugmetedlagrangian.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/yaocptool/methods/network/distributedaugmetedlagrangian.py b/yaocptool/methods/network/distributedaugmetedlagrangian.py
index 9b8c14e..d79051f 100644
--- a/yaocptool/methods/network/distributedaugmetedlagrangian.py
+++ b/yaocptool/methods/network/distributedaugmetedlagrangian.py
@@ -85,13 +85,15 @@ class DistributedAugmentedLagrangian(SolutionMethodInterface):
         if blocks is not None:
             self.blocks = blocks
         else:
+            # connected nodes, in either direction, belong to different blocks
             coloring: Dict[Node, int] = networkx.algorithms.coloring.greedy_color(
-                self.network.graph
+                self.network.graph.to_undirected(as_view=True)
             )
             self.blocks = {
                 group_number: [node for node, _ in group]
                 for group_number, group in itertools.groupby(
-                    coloring.items(), key=lambda item: item[1]
+                    sorted(coloring.items(), key=lambda item: item[1]),
+                    key=lambda item: item[1],
                 )
             }
 
-- 
2.43.0


From 03bd08b8451a44ed16dd76d17d77610f99cd1413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:08 +0000
Subject: [PATCH 92/95] fix: let the next block see the results of the previous
 one when distributed

---
 yaocptool/methods/network/distributedaugmetedlagrangian.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yaocptool/methods/network/distributedaugmetedlagrangian.py b/yaocptool/methods/network/distributedaugmetedlagrangian.py
index d79051f..e3f80cd 100644
--- a/yaocptool/methods/network/distributedaugmetedlagrangian.py
+++ b/yaocptool/methods/network/distributedaugmetedlagrangian.py
@@ -352,6 +352,8 @@ class DistributedAugmentedLagrangian(SolutionMethodInterface):
                     if result.success
                 }
             )
+            # the next block is solved with the results of this one
+            self._last_result.update(result_dict)
 
         return result_dict
 
-- 
2.43.0


From ebb962e709621672ad3a1f905a6447e4b3ae30af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:12 +0000
Subject: [PATCH 93/95] fix: accept a network with a single connection error

---
 yaocptool/methods/network/distributedaugmetedlagrangian.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yaocptool/methods/network/distributedaugmetedlagrangian.py b/yaocptool/methods/network/distributedaugmetedlagrangian.py
index e3f80cd..3a9e589 100644
--- a/yaocptool/methods/network/distributedaugmetedlagrangian.py
+++ b/yaocptool/methods/network/distributedaugmetedlagrangian.py
@@ -455,7 +455,7 @@ class DistributedAugmentedLagrangian(SolutionMethodInterface):
                     # error
                     node_error_last = node_error.copy()
                     max_error = max(
-                        *itertools.chain(*(val.nz for val in node_error.values()))
+                        itertools.chain(*(val.nz for val in node_error.values()))
                     )
                     if max_error < self.options.abs_tol:
                         LOGGER.info(
-- 
2.43.0


From a1b4b9cae9fe8901a826e91a07362851e86efa3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:17 +0000
Subject: [PATCH 94/95] fix: let intermediary nodes use their multipliers, for
 every degree and width

---
 .../intermediary_node_solution_method.py      | 58 ++++++++++++-------
 1 file changed, 37 insertions(+), 21 deletions(-)

diff --git a/yaocptool/methods/network/intermediary_node_solution_method.py b/yaocptool/methods/network/intermediary_node_solution_method.py
index 8953020..2bbe616 100644
--- a/yaocptool/methods/network/intermediary_node_solution_method.py
+++ b/yaocptool/methods/network/intermediary_node_solution_method.py
@@ -8,6 +8,8 @@ from casadi.casadi import (
     horzcat,
     horzsplit,
     mmax,
+    reshape,
+    vec,
     vertcat,
     vertsplit,
 )
@@ -28,6 +30,29 @@ class IntermediaryNodeSolutionMethod(AugmentedLagrangian):
             self._u_c_function = self._create_solve_function()
         return self._u_c_function
 
+    @property
+    def n_c(self) -> int:
+        """Number of variables of the connection"""
+        return len(self.relax_algebraic_index)
+
+    def _split_theta(self, theta: Dict[int, DM]):
+        """Split theta in (y_p1, u_p2, nu_p1_c, nu_c_p2): a row for each variable of the
+        connection, a column for each point of each finite element"""
+        size = self.n_c * self.options.degree
+        return [
+            horzcat(
+                *[
+                    reshape(
+                        theta[el][ind * size : (ind + 1) * size],
+                        self.options.degree,
+                        self.n_c,
+                    ).T
+                    for el in range(self.options.finite_elements)
+                ]
+            )
+            for ind in range(4)
+        ]
+
     def _create_solve_function(self):
         mu_k, y_p1, u_p2, nu_p1_c, nu_c_p2 = self._get_symb_variables()
         u_c = (nu_c_p2 - nu_p1_c) / (2 * mu_k) + (y_p1 + u_p2) / 2
@@ -43,13 +68,13 @@ class IntermediaryNodeSolutionMethod(AugmentedLagrangian):
 
         u_c = vectorize(
             [
-                [MX.sym(f"u_c_{el}_{deg}") for deg in range(self.options.degree)]
+                [MX.sym(f"u_c_{el}_{deg}", self.n_c) for deg in range(self.options.degree)]
                 for el in range(self.options.finite_elements)
             ]
         )
         y_c = vectorize(
             [
-                [MX.sym(f"y_c_{el}_{deg}") for deg in range(self.options.degree)]
+                [MX.sym(f"y_c_{el}_{deg}", self.n_c) for deg in range(self.options.degree)]
                 for el in range(self.options.finite_elements)
             ]
         )
@@ -70,20 +95,20 @@ class IntermediaryNodeSolutionMethod(AugmentedLagrangian):
         mu_k = MX.sym("mu_k")
 
         y_p1 = [
-            [MX.sym("y_p1_{el}_{deg}") for deg in range(self.options.degree)]
+            [MX.sym("y_p1_{el}_{deg}", self.n_c) for deg in range(self.options.degree)]
             for el in range(self.options.finite_elements)
         ]
         u_p2 = [
-            [MX.sym("u_p2_{el}_{deg}") for deg in range(self.options.degree)]
+            [MX.sym("u_p2_{el}_{deg}", self.n_c) for deg in range(self.options.degree)]
             for el in range(self.options.finite_elements)
         ]
 
         nu_p1_c = [
-            [MX.sym("nu_p1_{el}_{deg}") for deg in range(self.options.degree)]
+            [MX.sym("nu_p1_{el}_{deg}", self.n_c) for deg in range(self.options.degree)]
             for el in range(self.options.finite_elements)
         ]
         nu_c_p2 = [
-            [MX.sym("nu_p2_{el}_{deg}") for deg in range(self.options.degree)]
+            [MX.sym("nu_p2_{el}_{deg}", self.n_c) for deg in range(self.options.degree)]
             for el in range(self.options.finite_elements)
         ]
 
@@ -112,13 +137,7 @@ class IntermediaryNodeSolutionMethod(AugmentedLagrangian):
         if self.options.debug_skip_compute_nu_and_error:
             return errors
 
-        split_vector = lambda ind: horzcat(
-            *[
-                vertsplit(theta[el], self.options.degree)[ind].T
-                for el in range(self.options.finite_elements)
-            ]
-        )
-        y_p1, u_p2, nu_p1_c, nu_c_p2 = (split_vector(i) for i in range(4))
+        y_p1, u_p2, nu_p1_c, nu_c_p2 = self._split_theta(theta)
         u_c = raw_solution_dict["x"]
         y_c = u_c
 
@@ -129,7 +148,7 @@ class IntermediaryNodeSolutionMethod(AugmentedLagrangian):
         errors = DM([mmax(fabs(row)) for row in vertsplit(vertcat(rel_alg, rel_eq), 1)])
 
         nu_tilde = {
-            el: vertcat(nu_p1_c_next_el, nu_c_p2_next_el)
+            el: vertcat(vec(nu_p1_c_next_el.T), vec(nu_c_p2_next_el.T))
             for el, (nu_p1_c_next_el, nu_c_p2_next_el) in enumerate(
                 zip(
                     horzsplit(nu_p1_c_next, self.options.degree),
@@ -158,16 +177,13 @@ class IntermediaryNodeSolutionMethod(AugmentedLagrangian):
         return errors
 
     def solve(self, theta, p=None, *args, **kwargs):
+        if self.nu_tilde is not None:
+            self.nu = self.nu_tilde
+
         theta_k = self.join_nu_to_theta(theta, self.nu)
         p_k = vertcat(p, self.mu) if p is not None else self.mu
 
-        split_vector = lambda ind: horzcat(
-            *[
-                vertsplit(theta_k[el], self.options.degree)[ind].T
-                for el in range(self.options.finite_elements)
-            ]
-        )
-        y_p1, u_p2, nu_p1_c, nu_c_p2 = (split_vector(i) for i in range(4))
+        y_p1, u_p2, nu_p1_c, nu_c_p2 = self._split_theta(theta_k)
 
         u_c = self.u_c_function(p_k[0], y_p1, u_p2, nu_p1_c, nu_c_p2)
         raw_solution_dict = {"x": u_c}
-- 
2.43.0


From f508d626062faa4544e39dccaaef410f47e7ff97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:44 +0000
Subject: [PATCH 95/95] fix: read the trajectories of the Jacobi variant from
 the problems, point by point

---
 .../methods/network/bipartite_jacobi_admm.py  | 36 +++++++++----------
 1 file changed, 16 insertions(+), 20 deletions(-)

diff --git a/yaocptool/methods/network/bipartite_jacobi_admm.py b/yaocptool/methods/network/bipartite_jacobi_admm.py
index 71a8002..affdbf6 100644
--- a/yaocptool/methods/network/bipartite_jacobi_admm.py
+++ b/yaocptool/methods/network/bipartite_jacobi_admm.py
@@ -87,31 +87,27 @@ class BipartiteJacobiADMM(DistributedAugmentedLagrangian):
             y = connections["y"]
             u = connections["u"]
 
-            y_indices = find_variables_indices_in_vector(y, p.model.y)
-            u_indices = find_variables_indices_in_vector(u, node.model.u)
-            for ind in y_indices:
-                y_data = self._get_variable_last_result(p, "y", ind)
-                for i in range(self.options.finite_elements):
-                    data[i] = vertcat(data[i], *y_data[i])
-            for ind in u_indices:
-                u_data = self._get_variable_last_result(node, "u", ind)
-                for i in range(self.options.finite_elements):
-                    data[i] = vertcat(data[i], *u_data[i])
+            y_indices = find_variables_indices_in_vector(y, p.problem.model.y)
+            u_indices = find_variables_indices_in_vector(u, node.problem.model.u)
+            y_data = self._get_variable_last_result(p, "y", y_indices)
+            for i in range(self.options.finite_elements):
+                data[i] = vertcat(data[i], *y_data[i])
+            u_data = self._get_variable_last_result(node, "u", u_indices)
+            for i in range(self.options.finite_elements):
+                data[i] = vertcat(data[i], *u_data[i])
 
         for s in self.network.graph.succ[node]:
             connections = self.network.graph.edges[node, s]
             y = connections["y"]
             u = connections["u"]
 
-            u_indices = find_variables_indices_in_vector(u, s.model.u)
-            y_indices = find_variables_indices_in_vector(y, node.model.y)
-            for ind in u_indices:
-                u_data = self._get_variable_last_result(s, "u", ind)
-                for i in range(self.options.finite_elements):
-                    data[i] = vertcat(data[i], *u_data[i])
-            for ind in y_indices:
-                y_data = self._get_variable_last_result(node, "y", ind)
-                for i in range(self.options.finite_elements):
-                    data[i] = vertcat(data[i], *y_data[i])
+            u_indices = find_variables_indices_in_vector(u, s.problem.model.u)
+            y_indices = find_variables_indices_in_vector(y, node.problem.model.y)
+            u_data = self._get_variable_last_result(s, "u", u_indices)
+            for i in range(self.options.finite_elements):
+                data[i] = vertcat(data[i], *u_data[i])
+            y_data = self._get_variable_last_result(node, "y", y_indices)
+            for i in range(self.options.finite_elements):
+                data[i] = vertcat(data[i], *y_data[i])
 
         return dict(data)
-- 
2.43.0

