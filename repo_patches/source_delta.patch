From 239528a5ccc0e991aea393d47a5f8f4eef359545 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:33 +0000
Subject: [PATCH 01/37] fix: include the cross-covariance dynamics in the
 diffusion formulation

---
 src/sympkf/symbolic/pkfcas.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index 91635e2..2f71804 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -508,7 +508,9 @@ class SymbolicPKF(object):
 
             #  2. Migration of expectation and variance systems
             diffusion_system = []
-            for system in [self.expectation_system, self.variance_system]:
+            for system in [self.expectation_system, self.variance_system, self.cross_covariance_system]:
+                if system is None: # to handle the multivariate situation: None is for univariate
+                    continue
                 # -1- apply external closure
                 system = self._apply_closure(system)
                 # -2- switch from metric to diffusion
-- 
2.43.0


From f18919ec6191106b68ffd9d51266a474a3cbacea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:42 +0000
Subject: [PATCH 02/37] fix: keep every variable when the expectation commutes
 with a derivative or an integral

---
 src/sympkf/symbolic/random.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sympkf/symbolic/random.py b/src/sympkf/symbolic/random.py
index 958d818..f66478d 100644
--- a/src/sympkf/symbolic/random.py
+++ b/src/sympkf/symbolic/random.py
@@ -102,10 +102,10 @@ class Expectation(Function):
                 return cls(arg, evaluate=False)
         # Commutativité par rapport aux opérateurs de dérivations time/space
         elif isinstance(arg, Derivative):
-            return Derivative(cls(arg.args[0]), arg.args[1])
+            return Derivative(cls(arg.args[0]), *arg.args[1:])
         # Commutativité par rapport aux opérateurs de intégraux time/space
         elif isinstance(arg, Integral):
-            return Integral(cls(arg.args[0]), arg.args[1])
+            return Integral(cls(arg.args[0]), *arg.args[1:])
         #
         # Apply to particular structure
         #
-- 
2.43.0


From eaf0a85328e77e74643a3d3a794d776ea0402573 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:02 +0000
Subject: [PATCH 03/37] fix: do not share the closure dictionary passed by the
 caller

---
 src/sympkf/symbolic/pkfcas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index 2f71804..02e5969 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -72,7 +72,7 @@ class SymbolicPKF(object):
         self._internal_closure = None
 
         # external closure
-        self._closure = {} if closure is None else closure
+        self._closure = {} if closure is None else dict(closure)
 
         # Introduce or modify labels for error/normalized error/variance/cross-covariance
         self._label_covariance = "V_"
-- 
2.43.0


From 3dcc6187470c631239ad8cfed40cb4dde7c455f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:20 +0000
Subject: [PATCH 04/37] fix: compare symbols and terms by equality instead of
 identity

---
 src/sympkf/symbolic/pkfcas.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index 02e5969..08fb975 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -872,12 +872,12 @@ class UnivariateTerm(object):
 
             if len(derivatives) == 1: # E[eps D^beta eps] or E[(D^alpha eps)**2] or E[(D^alpha eps)**k] k>2
                 derivative = derivatives.pop()
-                if term is Expectation(function * derivative): # E[eps D^beta eps]
+                if term == Expectation(function * derivative): # E[eps D^beta eps]
                     alpha = 0
                     beta = derivative.args[1:]
                     degree = derivative.derivative_count
                     return cls(term, function, alpha, beta, degree)
-                elif term is Expectation(derivative*derivative): #E[(D^alpha eps)**2]
+                elif term == Expectation(derivative*derivative): #E[(D^alpha eps)**2]
                     alpha = derivative.args[1:]
                     beta = derivative.args[1:]
                     degree = 2*derivative.derivative_count
@@ -887,7 +887,7 @@ class UnivariateTerm(object):
                     return None
 
             elif len(derivatives) == 2:
-                if term is Expectation(Mul(*derivatives)):
+                if term == Expectation(Mul(*derivatives)):
                     # -1- Compute the total degree
                     degree = 0
                     for derivative in derivatives:
@@ -925,7 +925,7 @@ class Field(object):
         self.code = clean_latex_name(field.func)
 
         self.coordinates = field.args
-        self.spatial_coordinates = tuple([coord for coord in self.coordinates if coord is not time_symbol])
+        self.spatial_coordinates = tuple([coord for coord in self.coordinates if coord != time_symbol])
 
         self.coords_code = tuple(clean_latex_name(coord) for coord in self.coordinates)
         self.spatial_coords_code = tuple(clean_latex_name(coord) for coord in self.spatial_coordinates)
-- 
2.43.0


From 3dfa5388eaacc4e5cb2df3e63cb1665e8983e756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:22 +0000
Subject: [PATCH 05/37] fix: forecast_tl normalises each saved time once

---
 src/sympkf/model/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sympkf/model/model.py b/src/sympkf/model/model.py
index e6592b8..7f8fb0c 100644
--- a/src/sympkf/model/model.py
+++ b/src/sympkf/model/model.py
@@ -262,7 +262,7 @@ class Model(object):
         perturbed_states = ( (state + perturbation * h) for perturbation in perturbations)
         tl_forecasts = self.ensemble_forecast(window, perturbed_states, saved_times)
         # Computation of the perturbation a time
-        for q in saved_times:
+        for q in forecast:
             tl_forecasts[q] = [ (state - forecast[q] )/h for state in tl_forecasts[q] ]
         return forecast, tl_forecasts
     
-- 
2.43.0


From 59173837359425e98ee2c5e2bd5eb3406dfea729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:38 +0000
Subject: [PATCH 06/37] fix: LinearModel.make_M returned the transpose of the
 propagator

---
 src/sympkf/model/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sympkf/model/model.py b/src/sympkf/model/model.py
index 7f8fb0c..84aa99a 100644
--- a/src/sympkf/model/model.py
+++ b/src/sympkf/model/model.py
@@ -314,7 +314,8 @@ class LinearModel(Model):
                 return out
             M = self.ensemble_forecast(window, [dirac(i) for i in range(self.n)], \
                                        saved_times)[window[-1]]
-            M = np.asarray(M)
+            # The forecast of the i-th canonical vector is the i-th column
+            M = np.asarray(M).T
         else:
             for i in range(self.n):
                 ei[i] = 1.
-- 
2.43.0


From 3614302d201380e86f8846c69e7ccca717c82d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:51 +0000
Subject: [PATCH 07/37] fix: a single saved time may be any number (int, numpy
 scalar)

---
 src/sympkf/model/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sympkf/model/model.py b/src/sympkf/model/model.py
index 84aa99a..678aea2 100644
--- a/src/sympkf/model/model.py
+++ b/src/sympkf/model/model.py
@@ -287,7 +287,7 @@ class Model(object):
     def _check_saved_times(window, saved_times):
         if saved_times is None:
             saved_times = window
-        elif type(saved_times)==float or type(saved_times)==np.float64:
+        elif np.isscalar(saved_times):
             saved_times = [saved_times]
         return saved_times
 
-- 
2.43.0


From d4da3e9e6afb22e4f4be37c58359f9712fbc7497 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:49:08 +0000
Subject: [PATCH 08/37] fix: a coordinate whose name starts with 'd' was taken
 for a grid step

---
 src/sympkf/symbolic/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sympkf/symbolic/util.py b/src/sympkf/symbolic/util.py
index d918053..d1e9691 100644
--- a/src/sympkf/symbolic/util.py
+++ b/src/sympkf/symbolic/util.py
@@ -394,7 +394,7 @@ def get_coordinates(function):
 
         if len(coordinate) == 2:
             xi, dxi = coordinate
-            if str(xi)[0] == 'd':
+            if str(dxi) != 'd' + str(xi):
                 xi, dxi = dxi, xi
         elif len(coordinate) == 1:
             xi = coordinate.pop()
@@ -436,7 +436,7 @@ def get_function_coordinates(function):
 
         if len(coordinate) == 2:
             xi, dxi = coordinate
-            if str(xi)[0] == 'd':
+            if str(dxi) != 'd' + str(xi):
                 xi, dxi = dxi, xi
         elif len(coordinate) == 1:
             xi = coordinate.pop()
-- 
2.43.0


From cfcd482734aeb27e74bceb57b6d52b4a1fdb94ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:33 +0000
Subject: [PATCH 09/37] fix: align the coordinate arrays of generated models
 with the field arrays

---
 src/sympkf/symbolic/templates/body_FDModelBuilder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sympkf/symbolic/templates/body_FDModelBuilder.py b/src/sympkf/symbolic/templates/body_FDModelBuilder.py
index 84032f2..89cc0ae 100644
--- a/src/sympkf/symbolic/templates/body_FDModelBuilder.py
+++ b/src/sympkf/symbolic/templates/body_FDModelBuilder.py
@@ -30,7 +30,7 @@ template = '''
         #-------------
         self.dx = tuple(length/shape for length, shape in zip(self.lengths, self.shape))
         self.x = tuple(self.index(coord,0)*dx for coord, dx in zip(self.coordinates, self.dx))
-        self.X = np.meshgrid(*self.x)
+        self.X = np.meshgrid(*self.x, indexing='ij')
 
         {% if constant_functions_flag %}
         #-----------------------
-- 
2.43.0


From 5e4df47967099425ce967988a8b885f07b4a625c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:49 +0000
Subject: [PATCH 10/37] fix: models generated for a manifold honour the time
 scheme keyword

---
 src/sympkf/symbolic/templates/body_ManifoldModelBuilder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sympkf/symbolic/templates/body_ManifoldModelBuilder.py b/src/sympkf/symbolic/templates/body_ManifoldModelBuilder.py
index 18672ce..976b27d 100644
--- a/src/sympkf/symbolic/templates/body_ManifoldModelBuilder.py
+++ b/src/sympkf/symbolic/templates/body_ManifoldModelBuilder.py
@@ -1,7 +1,7 @@
 template='''
     def __init__(self, base_space, **kwargs):
 
-        super().__init__() # Time scheme is set from Model.__init__()
+        super().__init__(**kwargs) # Time scheme is set from Model.__init__()
 
         # Set base space (manifold)
         #------------------------------
-- 
2.43.0


From 5f26b72fed9cb3fd0f0ca323f66f5557e2c1d2a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:18 +0000
Subject: [PATCH 11/37] fix: look for time in every argument of a constant
 function

---
 src/sympkf/symbolic/util.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/sympkf/symbolic/util.py b/src/sympkf/symbolic/util.py
index d1e9691..bb09017 100644
--- a/src/sympkf/symbolic/util.py
+++ b/src/sympkf/symbolic/util.py
@@ -265,8 +265,7 @@ class PDESystem(object):
         constant_functions = set()
 
         for variable in self.functions.difference(self.prognostic_functions):
-            coordinates = variable.args[0].atoms(Symbol)
-            if self._time_symbol not in coordinates:
+            if self._time_symbol not in variable.atoms(Symbol):
                 constant_functions.update({variable})
 
         return constant_functions
-- 
2.43.0


From d6b9907505a42715313c42495a04e7f280e8b8ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:31 +0000
Subject: [PATCH 12/37] fix: sin, exp, ... are not fields of a PDE system

---
 src/sympkf/symbolic/util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sympkf/symbolic/util.py b/src/sympkf/symbolic/util.py
index bb09017..860e338 100644
--- a/src/sympkf/symbolic/util.py
+++ b/src/sympkf/symbolic/util.py
@@ -5,6 +5,7 @@
 from sympy import Derivative, Function, Symbol, symbols, Add
 from .tool import clean_latex_name
 import sympy
+from sympy.core.function import AppliedUndef
 
 from .constants import t as time_coordinate
 
@@ -241,7 +242,7 @@ class PDESystem(object):
         functions = set()
 
         for equation in self.equations:
-            functions.update(equation.atoms(Function))
+            functions.update(equation.atoms(AppliedUndef))
 
         return functions
 
-- 
2.43.0


From 57385380bf22483d34f7c8769f67233b92f64ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:46 +0000
Subject: [PATCH 13/37] fix: a time derivative in a right-hand side makes
 neither a prognostic function nor a spatial derivative

---
 src/sympkf/symbolic/util.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/sympkf/symbolic/util.py b/src/sympkf/symbolic/util.py
index 860e338..034c25b 100644
--- a/src/sympkf/symbolic/util.py
+++ b/src/sympkf/symbolic/util.py
@@ -252,10 +252,11 @@ class PDESystem(object):
         prognostic_functions = []
 
         for equation in self.equations:
-            derivatives = equation.atoms(Derivative)
+            # the time derivative of a prognostic function is given by the lhs
+            derivatives = equation.args[0].atoms(Derivative)
             for derivative in derivatives:
                 coordinates = derivative.args[1].atoms(Symbol)
-                if self._time_symbol in coordinates:
+                if self._time_symbol in coordinates and derivative.args[0] not in prognostic_functions:
                     prognostic_functions.append(derivative.args[0])
 
         return prognostic_functions
@@ -328,7 +329,8 @@ class PDESystem(object):
         for equation in self.equations:
             # extract constant from rhs of equations
             rhs = equation.args[1]
-            spatial_derivatives.update(rhs.atoms(Derivative))
+            spatial_derivatives.update(derivative for derivative in rhs.atoms(Derivative)
+                                       if self._time_symbol not in derivative.variables)
 
         return spatial_derivatives
 
-- 
2.43.0


From 00bed5e54f5f47299a0aaecdd475a0af77de14a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:19 +0000
Subject: [PATCH 14/37] fix: the coordinates of a system are those of all its
 prognostic functions

---
 src/sympkf/symbolic/util.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sympkf/symbolic/util.py b/src/sympkf/symbolic/util.py
index 034c25b..1dc9113 100644
--- a/src/sympkf/symbolic/util.py
+++ b/src/sympkf/symbolic/util.py
@@ -292,6 +292,9 @@ class PDESystem(object):
             args = function.args
             if len(args) > len(coordinates):
                 coordinates = args
+        # add the coordinates that the longest list of arguments does not include
+        for function in self.prognostic_functions:
+            coordinates += tuple(xi for xi in function.args if xi not in coordinates)
         return coordinates
 
     def _get_spatial_coordinates(self):
-- 
2.43.0


From 051ea04bb1929cc280688b79f64eee5a30e66d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:32 +0000
Subject: [PATCH 15/37] fix: replace functions and grid steps as symbols and
 not as text when coding finite differences

---
 src/sympkf/symbolic/finite_difference.py | 23 +++++++----------------
 1 file changed, 7 insertions(+), 16 deletions(-)

diff --git a/src/sympkf/symbolic/finite_difference.py b/src/sympkf/symbolic/finite_difference.py
index e38ebe2..5e8cb24 100644
--- a/src/sympkf/symbolic/finite_difference.py
+++ b/src/sympkf/symbolic/finite_difference.py
@@ -349,28 +349,19 @@ def code_finite_difference(finite, slice_coding_rule, dx_coding_rule):
     :param slice_coding_rule:
     :return:
     """
-    from sympy import Function
+    from sympy import Function, Symbol
 
+    coding_rules = {}
 
-    code = str(finite)
-
-
-    loc_x_dx = []
-
-    # -1- Replace functions
     for function in finite.atoms(Function):
+        # -1- Replace functions
+        coding_rules[function] = Symbol(code_regular_function(function, slice_coding_rule))
+        # -2- Replace dx's
         x, dx = get_function_coordinates(function)
         for xi,dxi in zip(x,dx):
-            if (xi,dxi) not in loc_x_dx:
-                loc_x_dx.append((xi,dxi))
-        code = code.replace(str(function), code_regular_function(function, slice_coding_rule))
+            coding_rules[dxi] = Symbol(dx_coding_rule(xi))
 
-    # -2- Replace dx's
-    for x_dx in loc_x_dx:
-        xi, dxi = x_dx
-        code = code.replace(str(dxi), dx_coding_rule(xi))
-
-    return code
+    return str(finite.xreplace(coding_rules))
 
 
 class Code(object):
-- 
2.43.0


From e7a73bde8a59e3f4364d1ee46db5954a9f8da94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:10 +0000
Subject: [PATCH 16/37] fix: coordinates written for LaTeX are valid
 identifiers in the generated code

---
 src/sympkf/symbolic/finite_difference.py | 7 ++++---
 src/sympkf/symbolic/model_builder.py     | 4 ++--
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/sympkf/symbolic/finite_difference.py b/src/sympkf/symbolic/finite_difference.py
index 5e8cb24..3e22819 100644
--- a/src/sympkf/symbolic/finite_difference.py
+++ b/src/sympkf/symbolic/finite_difference.py
@@ -329,7 +329,7 @@ def code_regular_function(function, slice_coding_rule):
         for k, step in enumerate(displacement):
             assert isinstance(step, Integer), f"displacement is not on regular grid for function: {function}"
 
-            code += slice_coding_rule(f"'{x[k]}'", step) + ','
+            code += slice_coding_rule(f"'{clean_latex_name(x[k])}'", step) + ','
 
         # Suffix for closing array
         code = code[:-1]
@@ -350,6 +350,7 @@ def code_finite_difference(finite, slice_coding_rule, dx_coding_rule):
     :return:
     """
     from sympy import Function, Symbol
+    from .tool import clean_latex_name
 
     coding_rules = {}
 
@@ -359,7 +360,7 @@ def code_finite_difference(finite, slice_coding_rule, dx_coding_rule):
         # -2- Replace dx's
         x, dx = get_function_coordinates(function)
         for xi,dxi in zip(x,dx):
-            coding_rules[dxi] = Symbol(dx_coding_rule(xi))
+            coding_rules[dxi] = Symbol(dx_coding_rule(clean_latex_name(xi)))
 
     return str(finite.xreplace(coding_rules))
 
@@ -441,7 +442,7 @@ class Code(object):
             for k, step in enumerate(displacement):
                 assert isinstance(step, Integer), f"displacement is not on regular grid for function: {function}"
 
-                code += self.slice_coding_rule(f"'{x[k]}'", step) + ','
+                code += self.slice_coding_rule(f"'{clean_latex_name(x[k])}'", step) + ','
 
             # Suffix for closing array
             code = code[:-1]
diff --git a/src/sympkf/symbolic/model_builder.py b/src/sympkf/symbolic/model_builder.py
index 12d1f93..de52227 100644
--- a/src/sympkf/symbolic/model_builder.py
+++ b/src/sympkf/symbolic/model_builder.py
@@ -43,13 +43,13 @@ class MetaDerivative(object):
         self.as_code = self._set_as_code()
 
     def _set_as_keyvar(self):
-        keyvar = "_".join(f'{coordinate}_o{partial_order}'
+        keyvar = "_".join(f'{clean_latex_name(coordinate)}_o{partial_order}'
                           for coordinate, partial_order in self._partial_orders.items())
         keyvar = 'D' + self.function.as_keyvar + '_' + keyvar
         return keyvar
 
     def _set_as_partial_orders(self):
-        return ",".join(f"'{coordinate}',{partial_order}"
+        return ",".join(f"'{clean_latex_name(coordinate)}',{partial_order}"
                         for coordinate, partial_order in self._partial_orders.items())
 
     def _set_as_str(self):
-- 
2.43.0


From e451556e85b56e5bde7545383e543397b9b5d440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:25 +0000
Subject: [PATCH 17/37] fix: generated code calls the numpy functions (sqrt,
 exp, ...)

---
 src/sympkf/symbolic/model_builder.py    | 3 ++-
 src/sympkf/symbolic/templates/header.py | 1 +
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sympkf/symbolic/model_builder.py b/src/sympkf/symbolic/model_builder.py
index de52227..265be60 100644
--- a/src/sympkf/symbolic/model_builder.py
+++ b/src/sympkf/symbolic/model_builder.py
@@ -2,6 +2,7 @@ from sympy import Eq
 from .util import PDESystem, get_trend, get_derivative_partial_orders, FunctionSymbol, ScalarSymbol
 
 from jinja2 import Template
+from sympy.printing.numpy import NumPyPrinter
 
 from .tool import clean_latex_name
 
@@ -273,7 +274,7 @@ class ModelBuilder(object):
             function = lhs.args[0]
             lhs = subs_trend[function]
             # 3. implement the code line: set the lhs **np.array** from the rhs
-            code_line = str(lhs)+'[:] = '+str(rhs)
+            code_line = str(lhs)+'[:] = '+NumPyPrinter().doprint(rhs)
             # 4. Add to code.
             trend_code.append(code_line)
 
diff --git a/src/sympkf/symbolic/templates/header.py b/src/sympkf/symbolic/templates/header.py
index ec1d9f3..0540e63 100644
--- a/src/sympkf/symbolic/templates/header.py
+++ b/src/sympkf/symbolic/templates/header.py
@@ -1,4 +1,5 @@
 template = '''from sympkf.model import Model
+import numpy
 import numpy as np
 
 class {{class_name}}(Model):
-- 
2.43.0


From f1ec3af04c2fdd579fd2615307e3489820d10d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:02 +0000
Subject: [PATCH 18/37] fix: a name that is a python keyword (lambda) is not a
 valid identifier

---
 src/sympkf/symbolic/tool.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sympkf/symbolic/tool.py b/src/sympkf/symbolic/tool.py
index 758cfbc..ca9fff8 100644
--- a/src/sympkf/symbolic/tool.py
+++ b/src/sympkf/symbolic/tool.py
@@ -1,3 +1,5 @@
+import keyword
+
 def clean_latex_name(label):
     """ Convert possible latex expression into valid variable name """
 
@@ -17,4 +19,8 @@ def clean_latex_name(label):
     # -4- Replace ',' by '_'
     label = label.replace(',','_')
 
+    # -5- Add '_' to the keywords of python (e.g. lambda)
+    if keyword.iskeyword(label):
+        label += '_'
+
     return label
-- 
2.43.0


From 4ef99d51c4e2e82052c514cd2c7e6bd4bcedadcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:20 +0000
Subject: [PATCH 19/37] fix: generated code evaluates the derivatives of
 expressions

---
 src/sympkf/symbolic/model_builder.py | 1 +
 src/sympkf/symbolic/util.py          | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sympkf/symbolic/model_builder.py b/src/sympkf/symbolic/model_builder.py
index 265be60..f353296 100644
--- a/src/sympkf/symbolic/model_builder.py
+++ b/src/sympkf/symbolic/model_builder.py
@@ -240,6 +240,7 @@ class ModelBuilder(object):
 
             if lhs != get_trend(equation):
                 raise ValueError(f"Equation {lhs}= .. is not prognostic.")
+            rhs = rhs.doit() # evaluate derivatives of products, .. as in the finite differences
 
             # -2- Replace all Derivative in the rhs string from the higher to the lower order derivative
             for order in orders:
diff --git a/src/sympkf/symbolic/util.py b/src/sympkf/symbolic/util.py
index 1dc9113..ba07e47 100644
--- a/src/sympkf/symbolic/util.py
+++ b/src/sympkf/symbolic/util.py
@@ -332,7 +332,7 @@ class PDESystem(object):
         for equation in self.equations:
             # extract constant from rhs of equations
             rhs = equation.args[1]
-            spatial_derivatives.update(derivative for derivative in rhs.atoms(Derivative)
+            spatial_derivatives.update(derivative for derivative in rhs.doit().atoms(Derivative)
                                        if self._time_symbol not in derivative.variables)
 
         return spatial_derivatives
-- 
2.43.0


From 30935c3d39acd7fa38f67324e5d6a55a27ac0dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:53 +0000
Subject: [PATCH 20/37] fix: the field of the 1D advection had the name of the
 velocity

---
 src/sympkf/symbolic/dynamics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sympkf/symbolic/dynamics.py b/src/sympkf/symbolic/dynamics.py
index 6f00fa2..3e0a453 100644
--- a/src/sympkf/symbolic/dynamics.py
+++ b/src/sympkf/symbolic/dynamics.py
@@ -25,7 +25,7 @@ diffusion = PDESystem(
         )
 
 
-c = Function('u')(t,x)
+c = Function('c')(t,x)
 u = Function('u')(x)
 
 advection = PDESystem(
-- 
2.43.0


From 85b83fd1ec66615bfff7d4349378a651c5b892a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:20:38 +0000
Subject: [PATCH 21/37] fix: the trend of u is not named du, which may be the
 name of another field

---
 src/sympkf/symbolic/model_builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sympkf/symbolic/model_builder.py b/src/sympkf/symbolic/model_builder.py
index f353296..4139d34 100644
--- a/src/sympkf/symbolic/model_builder.py
+++ b/src/sympkf/symbolic/model_builder.py
@@ -28,7 +28,7 @@ class MetaPrognosticFunction(MetaFunction):
         self.trend = self._set_trend()
 
     def _set_trend(self):
-        return 'd'+self.as_keyvar
+        return 'd'+self.as_keyvar+'_dt'
 
 
 class MetaDerivative(object):
-- 
2.43.0


From 5b91242543c318ebb8ea40bad8059b2e3aeefb72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:23 +0000
Subject: [PATCH 22/37] fix: finite difference of the derivative of a product:
 replace the highest orders first

---
 src/sympkf/symbolic/finite_difference.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sympkf/symbolic/finite_difference.py b/src/sympkf/symbolic/finite_difference.py
index 3e22819..63ba2f9 100644
--- a/src/sympkf/symbolic/finite_difference.py
+++ b/src/sympkf/symbolic/finite_difference.py
@@ -90,8 +90,9 @@ def finite_difference_derivative(derivative):
         if derivatives == set():
             # if no derivative then exit loop !
             break
-        # -2- Replace all derivatives found above
-        for derivative in derivatives:
+        # -2- Replace all derivatives found above, by decreasing orders
+        #     so that a derivative is not substituted in a derivative of higher order
+        for derivative in sorted(derivatives, key=get_total_order, reverse=True):
             subs_derivative = get_subs_derivative(derivative)
             expr = expr.subs(derivative, subs_derivative).expand()
 
-- 
2.43.0


From d65088ada2bd0578a9df997ca4fce21167868b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:11 +0000
Subject: [PATCH 23/37] fix: in_metric_by_order read the tensor indices of two
 dimensional closures from the derivation orders

---
 src/sympkf/symbolic/pkfcas.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index 08fb975..b1242d7 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -1424,10 +1424,7 @@ class Closure(object):
             subs_term = subs_term.subs({derivative: 0 for derivative in subs_term.atoms(Derivative)})
             subs_closure_by_order[second_order][term] = subs_term
             # -3-
-            if len(self.spatial_coordinates) > 1:
-                i, j = alpha.as_tuple[0], alpha.as_tuple[1]
-            else:
-                i, j = 0, 0
+            i, j = [self.spatial_coordinates.index(xi) for xi in alpha.as_sequence]
 
             g_dico[term] = -self.mfield.metric_func(i, j)
             s_dico[term] = self.mfield.aspect_func(i, j)
-- 
2.43.0


From 41083892570f1bcfa8a75bd548f5dc3f49560031 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:29 +0000
Subject: [PATCH 24/37] fix: the local Gaussian correlation had twice the
 metric as its curvature

---
 src/sympkf/symbolic/pkfcas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index b1242d7..d923902 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -1463,7 +1463,7 @@ class LocGaussianClosure(Closure):
 
         if metric:
             gux = self.metric.subs(cpx)
-            dot_prod = dxy.T @ gux @ dxy
+            dot_prod = Rational(1 , 2) * dxy.T @ gux @ dxy
         else:
             sx = self.aspect.subs(cpx)
             dot_prod = dxy.T @ (Integer(2)*sx).inv() @ dxy
-- 
2.43.0


From 2af9799907cdb95653416c732af4e9b175a492bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:45 +0000
Subject: [PATCH 25/37] fix: the closure of mixed derivatives used |alpha|! in
 place of alpha!

---
 src/sympkf/symbolic/pkfcas.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index d923902..be314f3 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -1376,25 +1376,23 @@ class Closure(object):
         order = order + 1
         if self._order < order:
             # 1. Compute terms until order
-            factorial = 1
             for partial_order in range(order):
 
                 partial_order = int(partial_order)
                 closure = {}
 
-                if partial_order != 0:
-                    factorial *= partial_order
-
                 for alpha in PartialOrderDerivative.all_of_degree(self.spatial_coordinates, partial_order):
                     # -1- Extract taylor coefficient of dx^alpha
                     coeff_alpha = self.taylor(order).expand()
+                    factorial = Integer(1) # alpha!
                     for xi, dxi in zip(self._x,self._dx):
                         alpha_i = alpha.as_sequence.count(xi)
                         coeff_alpha = coeff_alpha.coeff(dxi, alpha_i)
+                        factorial *= sympy.factorial(alpha_i)
 
                     # -2- Extract coefficient of dx^alpha in taylor expansion
                     term = Expectation(self.epsilon * Derivative(self.epsilon, *alpha.as_couples))
-                    closure[term] = Integer(factorial) * coeff_alpha
+                    closure[term] = factorial * coeff_alpha
                 self._closure_by_order[partial_order] = closure
 
             # 2. Update the order
-- 
2.43.0


From 20cfde2698e91b1e00fcb359cff5a1354bce9c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:00 +0000
Subject: [PATCH 26/37] fix: closures depended on the expansions requested
 before

---
 src/sympkf/symbolic/pkfcas.py | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index be314f3..06144b1 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -1300,8 +1300,7 @@ class Closure(object):
         self.metric = mfield.metric
         self.diffusion = mfield.diffusion
         self.aspect = mfield.aspect
-        self._order = 0
-        self._taylor = None
+        self._taylor = {} # Taylor expansions, per order
         self._in_metric = None
         self._in_diffusion = None
         self._in_aspect = None
@@ -1354,7 +1353,7 @@ class Closure(object):
 
     def taylor(self, order):
         """ Compute the Taylor expansion until degree 'order' """
-        if self._order < order:
+        if order not in self._taylor:
             px = self._x
             py = tuple([xi + dxi for xi, dxi in zip(self._x, self._dx)])
             taylor = self.correlation(px, py)
@@ -1362,10 +1361,9 @@ class Closure(object):
                 taylor = taylor.series(dxi, 0, order).removeO()
                 taylor = remove_eval_derivative(taylor)
 
-            self._taylor = taylor
-            self._order = order
+            self._taylor[order] = taylor
 
-        return self._taylor
+        return self._taylor[order]
 
     def closure_by_order(self, order):
         """
@@ -1373,17 +1371,18 @@ class Closure(object):
         :param order:
         :return: a
         """
-        order = order + 1
-        if self._order < order:
+        if order not in self._closure_by_order:
             # 1. Compute terms until order
-            for partial_order in range(order):
+            taylor = self.taylor(order + 1).expand()
+            closure_by_order = {}
+            for partial_order in range(order + 1):
 
                 partial_order = int(partial_order)
                 closure = {}
 
                 for alpha in PartialOrderDerivative.all_of_degree(self.spatial_coordinates, partial_order):
                     # -1- Extract taylor coefficient of dx^alpha
-                    coeff_alpha = self.taylor(order).expand()
+                    coeff_alpha = taylor
                     factorial = Integer(1) # alpha!
                     for xi, dxi in zip(self._x,self._dx):
                         alpha_i = alpha.as_sequence.count(xi)
@@ -1393,12 +1392,13 @@ class Closure(object):
                     # -2- Extract coefficient of dx^alpha in taylor expansion
                     term = Expectation(self.epsilon * Derivative(self.epsilon, *alpha.as_couples))
                     closure[term] = factorial * coeff_alpha
-                self._closure_by_order[partial_order] = closure
+                closure_by_order[partial_order] = closure
 
-            # 2. Update the order
-            self._order = order
+            # 2. Save the closure for this order
+            self._closure_by_order[order] = closure_by_order
 
-        return self._closure_by_order
+        # copy, so that the saved closure can not be altered
+        return {partial_order: dict(closure) for partial_order, closure in self._closure_by_order[order].items()}
 
     def closure(self, order):
         closure = {}
-- 
2.43.0


From 8cb85edcb9435f14670c6e8bf4e037d42674bc3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:13 +0000
Subject: [PATCH 27/37] fix: in_metric_by_order failed for the orders below two

---
 src/sympkf/symbolic/pkfcas.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index 06144b1..a3f9e0d 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -1408,7 +1408,8 @@ class Closure(object):
         return closure
 
     def in_metric_by_order(self, order):
-        subs_closure_by_order = self.closure_by_order(order)
+        # the change of variables comes from the second order terms
+        subs_closure_by_order = self.closure_by_order(max(order, 2))
         g_dico = {} # denotes the metric tensor
         s_dico = {} # denotes the aspect tensor (here the parameter of the formulation)
         # -1- Supress partial derivative in metric terms
@@ -1432,11 +1433,11 @@ class Closure(object):
         s_to_g = sympy.solve(system_s_to_g, *s_dico.values())
 
         # -3- Replace in all subs_closure
-        for order in subs_closure_by_order:
-            for term in subs_closure_by_order[order]:
-                subs_closure_by_order[order][term] = subs_closure_by_order[order][term].subs(s_to_g).doit()
+        for partial_order in subs_closure_by_order:
+            for term in subs_closure_by_order[partial_order]:
+                subs_closure_by_order[partial_order][term] = subs_closure_by_order[partial_order][term].subs(s_to_g).doit()
 
-        return subs_closure_by_order
+        return {partial_order: closure for partial_order, closure in subs_closure_by_order.items() if partial_order <= order}
 
     def in_diffusion(self, order):
         raise NotImplementedError
-- 
2.43.0


From 94b3f2cf47c930bd073a84bc281128a5a9987f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:07 +0000
Subject: [PATCH 28/37] fix: Burgers(n) raised NameError (class generated in
 the wrong namespace)

---
 src/sympkf/dynamics/burgers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sympkf/dynamics/burgers.py b/src/sympkf/dynamics/burgers.py
index 97c0d67..c4e5f57 100644
--- a/src/sympkf/dynamics/burgers.py
+++ b/src/sympkf/dynamics/burgers.py
@@ -29,6 +29,7 @@ class Burgers(object):
 
     def __init__(self, n=241):
         def factory():
-            exec(FDModelBuilder(Burgers.closed_pkf.in_aspect, class_name='ClosedPKFBurgers').code)
-            return ClosedPKFBurgers
+            namespace = {}
+            exec(FDModelBuilder(Burgers.closed_pkf.in_aspect, class_name='ClosedPKFBurgers').code, namespace)
+            return namespace['ClosedPKFBurgers']
         self.model = factory()(shape=(n,))
-- 
2.43.0


From a2ed70111d0726c422a688d7d595bcc418eacd0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:54 +0000
Subject: [PATCH 29/37] fix: operations on an equation that becomes trivial
 return its truth value

Eq.subs, doit and expand raised TypeError (missing sides) when the two
sides of the result are found equal, e.g. Eq(a, b).subs(a, b).
---
 src/sympkf/symbolic/util.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/sympkf/symbolic/util.py b/src/sympkf/symbolic/util.py
index ba07e47..680d7c5 100644
--- a/src/sympkf/symbolic/util.py
+++ b/src/sympkf/symbolic/util.py
@@ -133,15 +133,18 @@ class Eq(sympy.Eq):
 
     def subs(self, *args, **hints):
         eq = super().subs(*args, **hints)
-        return self.__class__(*eq.args)
+        # An equation whose two sides are found equal is evaluated to a truth value
+        return self.__class__(*eq.args) if eq.args else eq
 
     def doit(self, *args, **hints):
         eq = super().doit(*args, **hints)
-        return self.__class__(*eq.args)
+        # An equation whose two sides are found equal is evaluated to a truth value
+        return self.__class__(*eq.args) if eq.args else eq
 
     def expand(self, *args, **hints):
         eq = super().expand(*args, **hints)
-        return self.__class__(*eq.args)
+        # An equation whose two sides are found equal is evaluated to a truth value
+        return self.__class__(*eq.args) if eq.args else eq
 
     def isolate(self, expr):
         """ Isolate an expression from an equation
-- 
2.43.0


From 465185f25fef9170b2716d50ccab9a5bc66ac905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:12 +0000
Subject: [PATCH 30/37] fix: fields given through functions (sin(f), exp(f))
 were rejected by CoordinateSystem

---
 src/sympkf/symbolic/util.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sympkf/symbolic/util.py b/src/sympkf/symbolic/util.py
index 680d7c5..dc14e6d 100644
--- a/src/sympkf/symbolic/util.py
+++ b/src/sympkf/symbolic/util.py
@@ -586,7 +586,8 @@ class CoordinateSystem(object):
     def is_compatible(self, scalar_function):
         """ Verify if coordinates of scalar_function includes the coordinate system """
         coords = set(self._coords)
-        function_coords = set(scalar_function.args)
+        # symbols of the arguments: sin(f(x,y)) is a function of x and y
+        function_coords = scalar_function.free_symbols
         if coords.issubset(function_coords):
             return True
         else:
-- 
2.43.0


From 9f45428059187b10edd54b380dad2d73d98d3f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:51:59 +0000
Subject: [PATCH 31/37] fix: integrals whose bounds are random were taken for
 deterministic and commuted with the expectation

---
 src/sympkf/symbolic/random.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sympkf/symbolic/random.py b/src/sympkf/symbolic/random.py
index f66478d..213431c 100644
--- a/src/sympkf/symbolic/random.py
+++ b/src/sympkf/symbolic/random.py
@@ -104,7 +104,8 @@ class Expectation(Function):
         elif isinstance(arg, Derivative):
             return Derivative(cls(arg.args[0]), *arg.args[1:])
         # Commutativité par rapport aux opérateurs de intégraux time/space
-        elif isinstance(arg, Integral):
+        # (except when the bounds of the integral are random)
+        elif isinstance(arg, Integral) and not any(israndom(bound) for lim in arg.limits for bound in lim[1:]):
             return Integral(cls(arg.args[0]), *arg.args[1:])
         #
         # Apply to particular structure
@@ -207,6 +208,8 @@ def israndom(arg, verbose=False):
         return arg == omega
     elif isinstance(arg, (Derivative, Integral)):
         lprint(f'israndom: {type(arg)}')
+        if isinstance(arg, Integral) and any(israndom(bound, verbose=verbose) for lim in arg.limits for bound in lim[1:]):
+            return True
         return israndom(arg.args[0], verbose=verbose)
     elif isinstance(arg, (Mul, Add, Pow)):
         lprint(f'israndom: {type(arg)}')
-- 
2.43.0


From 6ddfdd182720ea7885e2d0f2f1eccb33a0c6888a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:04:21 +0000
Subject: [PATCH 32/37] fix: two couples of fields (a, bc and ab, c) had the
 same cross-covariance function

---
 src/sympkf/symbolic/pkfcas.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index a3f9e0d..1d50092 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -736,7 +736,14 @@ class SymbolicPKF(object):
             assert cf1==cf2, ValueError("f1 and f2 have different coordinate system")
             coordinates = cf1
 
-            return Function(self._label_covariance+f1.name+f2.name)(*coordinates)
+            # 3. Label, with a separator when another couple of fields would give the same
+            #    (e.g. the couples `a`, `bc` and `ab`, `c`)
+            label = f1.name + f2.name
+            if any(g1.name + g2.name == label for g1 in self.fields for g2 in self.fields
+                   if g1 != g2 and (g1, g2) != (f1, f2)):
+                label = f1.name + '_' + f2.name
+
+            return Function(self._label_covariance+label)(*coordinates)
         else:
             raise ValueError("f1 or f2 are not prognostic fields")
 
-- 
2.43.0


From e3dc7f10873797e2a6ef467ed6194afd7ab7fac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:14 +0000
Subject: [PATCH 33/37] fix: the mean dynamics left univariate terms such as
 E[(D eps)**2] (the metric) unclosed

---
 src/sympkf/symbolic/pkfcas.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index 1d50092..1679e30 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -165,10 +165,11 @@ class SymbolicPKF(object):
                 equation = Expectation(equation)
                 # 2) Substitute error in Variance/Corrélation
                 equation = equation.subs(subs_error).doit().expand()
-                # 3) Apply internal closure
-                equation = equation.subs(self.internal_closure).doit()
+                # 3) Apply internal closure (univariate terms included, e.g. E[(D eps)**2])
+                lhs, rhs = equation.args
+                rhs = self._apply_internal_closure(rhs).doit()
 
-                expectation_system.append(equation)
+                expectation_system.append(Eq(lhs.subs(self.internal_closure).doit(), rhs))
 
             self._expectation_system = expectation_system
 
-- 
2.43.0


From 28ec743c0c2c8ff3313a8f32abc09245c1de510d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:51:40 +0000
Subject: [PATCH 34/37] fix: keep the arguments of elementary functions in
 rendered finite differences

---
 src/sympkf/symbolic/finite_difference.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sympkf/symbolic/finite_difference.py b/src/sympkf/symbolic/finite_difference.py
index 63ba2f9..e8aed53 100644
--- a/src/sympkf/symbolic/finite_difference.py
+++ b/src/sympkf/symbolic/finite_difference.py
@@ -350,12 +350,14 @@ def code_finite_difference(finite, slice_coding_rule, dx_coding_rule):
     :param slice_coding_rule:
     :return:
     """
-    from sympy import Function, Symbol
+    from sympy import Symbol
+    from sympy.core.function import AppliedUndef
     from .tool import clean_latex_name
 
     coding_rules = {}
 
-    for function in finite.atoms(Function):
+    # Only the fields are replaced, not the elementary functions (e.g. exp) applied to them
+    for function in finite.atoms(AppliedUndef):
         # -1- Replace functions
         coding_rules[function] = Symbol(code_regular_function(function, slice_coding_rule))
         # -2- Replace dx's
-- 
2.43.0


From 3dee51a7c18769e0c2723519eb2ad8d155553fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:52:00 +0000
Subject: [PATCH 35/37] fix: name constants by valid identifiers in rendered
 finite differences

---
 src/sympkf/symbolic/finite_difference.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sympkf/symbolic/finite_difference.py b/src/sympkf/symbolic/finite_difference.py
index e8aed53..c4f07c4 100644
--- a/src/sympkf/symbolic/finite_difference.py
+++ b/src/sympkf/symbolic/finite_difference.py
@@ -354,7 +354,8 @@ def code_finite_difference(finite, slice_coding_rule, dx_coding_rule):
     from sympy.core.function import AppliedUndef
     from .tool import clean_latex_name
 
-    coding_rules = {}
+    # Constants and coordinates are named by valid identifiers
+    coding_rules = {symbol: Symbol(clean_latex_name(symbol)) for symbol in finite.atoms(Symbol)}
 
     # Only the fields are replaced, not the elementary functions (e.g. exp) applied to them
     for function in finite.atoms(AppliedUndef):
-- 
2.43.0


From 87d7f04cb0f62f227a59d90e18d907fc39498879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:18 +0000
Subject: [PATCH 36/37] fix: a constant named \varepsilon was replaced by 1 in
 the Reynolds system

---
 src/sympkf/symbolic/pkfcas.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index 1679e30..ad5df7d 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -86,7 +86,8 @@ class SymbolicPKF(object):
         first_order_reynolds = []
         second_order_reynolds = []
 
-        epsilon = symbols('\\varepsilon')
+        # (not a symbol of the user's system, whatever its name)
+        epsilon = sympy.Dummy('\\varepsilon')
         subs_reynolds = {            
             field: Expectation(self.fields[field].random) + epsilon * self.fields[field].error            
             for field in self.fields
-- 
2.43.0


From f3ed1a49c81bc919d497fa89290d344cb6b5cf7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:44:28 +0000
Subject: [PATCH 37/37] fix: canonical order of derivatives for coordinates
 that are not in alphabetical order

---
 src/sympkf/symbolic/pkfcas.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index ad5df7d..ee890b8 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -915,14 +915,14 @@ class UnivariateTerm(object):
 
 
 def gamma_def(epsilon, k, i, j):    
-    return Expectation(Derivative(epsilon, k) * Derivative(epsilon, i, j))
+    return Expectation(epsilon.diff(k) * epsilon.diff(i, j))
 
 def gamma_subs(metric, k, i, j):
     return Rational(1 , 2) * (Derivative(metric(k, j), i) + Derivative(metric(i, k), j) \
                               - Derivative(metric(i, j), k))
 
 def skewness_def(epsilon, k, i, j):
-    return Expectation(epsilon * Derivative(epsilon, k, i, j))
+    return Expectation(epsilon * epsilon.diff(k, i, j))
 
 def skewness_subs(metric, k, i, j):
     return -Rational(1 , 2) * (Derivative(metric(k, j), i) + Derivative(metric(i, k), j) \
@@ -1017,7 +1017,7 @@ class Field(object):
         return Function('{g_{' + self.code + ',' + self.index_code(i, j) + '}}', real=True)(*self.coordinates)
 
     def metric_definition(self,i,j):
-        return -Expectation(self.epsilon * Derivative(self.epsilon, self.spatial_coordinates[i], self.spatial_coordinates[j]))
+        return -Expectation(self.epsilon * self.epsilon.diff(self.spatial_coordinates[i], self.spatial_coordinates[j]))
 
     def nu_func(self,i,j):
         return Function('{\\nu_{' + self.code + ',' + self.index_code(i, j) + '}}', real=True)(
@@ -1257,10 +1257,11 @@ class UnivariateTree(object):
                 for beta in PartialOrderDerivative.all_of_degree(self.spatial_coordinates, beta_degree):
 
                     # term = Expectation(Derivative(self.epsilon, *alpha) * Derivative(self.epsilon, *beta))
-                    term = Derivative(self.epsilon, *alpha.as_couples) * Derivative(self.epsilon, *beta.as_couples)
+                    # (evaluated derivatives: the order of differentiation is the canonical one)
+                    term = self.epsilon.diff(*alpha.as_couples) * self.epsilon.diff(*beta.as_couples)
                     term = Expectation(term)
 
-                    lhs = Derivative(Derivative(self.epsilon, *sub_alpha.as_couples) * Derivative(self.epsilon, *beta.as_couples), alpha.as_sequence[0])
+                    lhs = Derivative(self.epsilon.diff(*sub_alpha.as_couples) * self.epsilon.diff(*beta.as_couples), alpha.as_sequence[0])
                     rhs = lhs.doit()
 
                     equation = Eq(Expectation(lhs), Expectation(rhs))
@@ -1399,7 +1400,7 @@ class Closure(object):
                         factorial *= sympy.factorial(alpha_i)
 
                     # -2- Extract coefficient of dx^alpha in taylor expansion
-                    term = Expectation(self.epsilon * Derivative(self.epsilon, *alpha.as_couples))
+                    term = Expectation(self.epsilon * self.epsilon.diff(*alpha.as_couples))
                     closure[term] = factorial * coeff_alpha
                 closure_by_order[partial_order] = closure
 
@@ -1426,7 +1427,7 @@ class Closure(object):
         system_s_to_g = []
         for alpha in PartialOrderDerivative.all_of_degree(self.spatial_coordinates, second_order):
             # -1- get term
-            term = Expectation(self.epsilon * Derivative(self.epsilon, *alpha.as_couples))
+            term = Expectation(self.epsilon * self.epsilon.diff(*alpha.as_couples))
             # -2- Eliminate derivatives
             subs_term = subs_closure_by_order[second_order][term]
             subs_term = subs_term.subs({derivative: 0 for derivative in subs_term.atoms(Derivative)})
-- 
2.43.0

