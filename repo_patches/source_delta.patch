From 0604672649fb143d7da2e147ebe6960977521a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:58 +0000
Subject: [PATCH 01/34] fix: keep every variable of a mixed derivative or
 multiple integral under Expectation

---
 src/sympkf/symbolic/random.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sympkf/symbolic/random.py b/src/sympkf/symbolic/random.py
index 958d818..f66478d 100644
--- a/src/sympkf/symbolic/random.py
+++ b/src/sympkf/symbolic/random.py
@@ -102,10 +102,10 @@ class Expectation(Function):
                 return cls(arg, evaluate=False)
         # Commutativité par rapport aux opérateurs de dérivations time/space
         elif isinstance(arg, Derivative):
-            return Derivative(cls(arg.args[0]), arg.args[1])
+            return Derivative(cls(arg.args[0]), *arg.args[1:])
         # Commutativité par rapport aux opérateurs de intégraux time/space
         elif isinstance(arg, Integral):
-            return Integral(cls(arg.args[0]), arg.args[1])
+            return Integral(cls(arg.args[0]), *arg.args[1:])
         #
         # Apply to particular structure
         #
-- 
2.43.0


From 3aa8adc22e463081a41567ac9db3faff5e2b72f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:58 +0000
Subject: [PATCH 02/34] fix: identify the increment of a coordinate whose own
 name starts with 'd'

---
 src/sympkf/symbolic/util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sympkf/symbolic/util.py b/src/sympkf/symbolic/util.py
index d918053..38e1d03 100644
--- a/src/sympkf/symbolic/util.py
+++ b/src/sympkf/symbolic/util.py
@@ -394,7 +394,7 @@ def get_coordinates(function):
 
         if len(coordinate) == 2:
             xi, dxi = coordinate
-            if str(xi)[0] == 'd':
+            if str(xi) == 'd' + str(dxi):
                 xi, dxi = dxi, xi
         elif len(coordinate) == 1:
             xi = coordinate.pop()
@@ -436,7 +436,7 @@ def get_function_coordinates(function):
 
         if len(coordinate) == 2:
             xi, dxi = coordinate
-            if str(xi)[0] == 'd':
+            if str(xi) == 'd' + str(dxi):
                 xi, dxi = dxi, xi
         elif len(coordinate) == 1:
             xi = coordinate.pop()
-- 
2.43.0


From ce11e281c9857b9fadda31cd6d101b5e3ee5d3ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:58 +0000
Subject: [PATCH 03/34] fix: Burgers() raised NameError when building its
 numerical model

---
 src/sympkf/dynamics/burgers.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sympkf/dynamics/burgers.py b/src/sympkf/dynamics/burgers.py
index 97c0d67..c4e5f57 100644
--- a/src/sympkf/dynamics/burgers.py
+++ b/src/sympkf/dynamics/burgers.py
@@ -29,6 +29,7 @@ class Burgers(object):
 
     def __init__(self, n=241):
         def factory():
-            exec(FDModelBuilder(Burgers.closed_pkf.in_aspect, class_name='ClosedPKFBurgers').code)
-            return ClosedPKFBurgers
+            namespace = {}
+            exec(FDModelBuilder(Burgers.closed_pkf.in_aspect, class_name='ClosedPKFBurgers').code, namespace)
+            return namespace['ClosedPKFBurgers']
         self.model = factory()(shape=(n,))
-- 
2.43.0


From d96a07bee1c42137fcf971d41c7e47731b0f1d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:58 +0000
Subject: [PATCH 04/34] fix: include the cross-covariance equations in the
 diffusion formulation

---
 src/sympkf/symbolic/pkfcas.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index 91635e2..f434f18 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -508,7 +508,11 @@ class SymbolicPKF(object):
 
             #  2. Migration of expectation and variance systems
             diffusion_system = []
-            for system in [self.expectation_system, self.variance_system]:
+            for system in [self.expectation_system, self.variance_system, self.cross_covariance_system]:
+
+                if system is None: # to handle the multivariate situation: None is for univariate
+                    continue
+
                 # -1- apply external closure
                 system = self._apply_closure(system)
                 # -2- switch from metric to diffusion
-- 
2.43.0


From 36e400439d41ef83011d7543589fe82ff069eed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:58 +0000
Subject: [PATCH 05/34] fix: set_closure modified the closure dictionary given
 by the caller

---
 src/sympkf/symbolic/pkfcas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index f434f18..1bb488d 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -72,7 +72,7 @@ class SymbolicPKF(object):
         self._internal_closure = None
 
         # external closure
-        self._closure = {} if closure is None else closure
+        self._closure = {} if closure is None else dict(closure)
 
         # Introduce or modify labels for error/normalized error/variance/cross-covariance
         self._label_covariance = "V_"
-- 
2.43.0


From aa1d17fd0af7ee4eaa64790d425ab78058c2caf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:58 +0000
Subject: [PATCH 06/34] fix: a function that depends on time is not a constant
 function, wherever time stands in its arguments

---
 src/sympkf/symbolic/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sympkf/symbolic/util.py b/src/sympkf/symbolic/util.py
index 38e1d03..f9d2524 100644
--- a/src/sympkf/symbolic/util.py
+++ b/src/sympkf/symbolic/util.py
@@ -265,7 +265,7 @@ class PDESystem(object):
         constant_functions = set()
 
         for variable in self.functions.difference(self.prognostic_functions):
-            coordinates = variable.args[0].atoms(Symbol)
+            coordinates = variable.atoms(Symbol)
             if self._time_symbol not in coordinates:
                 constant_functions.update({variable})
 
-- 
2.43.0


From 8f895dc4ed15b0bb787c478d45fefdd696cf9805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:58 +0000
Subject: [PATCH 07/34] fix: mesh arrays of generated models had their first
 two axes swapped with respect to the fields

---
 src/sympkf/symbolic/templates/body_FDModelBuilder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sympkf/symbolic/templates/body_FDModelBuilder.py b/src/sympkf/symbolic/templates/body_FDModelBuilder.py
index 84032f2..89cc0ae 100644
--- a/src/sympkf/symbolic/templates/body_FDModelBuilder.py
+++ b/src/sympkf/symbolic/templates/body_FDModelBuilder.py
@@ -30,7 +30,7 @@ template = '''
         #-------------
         self.dx = tuple(length/shape for length, shape in zip(self.lengths, self.shape))
         self.x = tuple(self.index(coord,0)*dx for coord, dx in zip(self.coordinates, self.dx))
-        self.X = np.meshgrid(*self.x)
+        self.X = np.meshgrid(*self.x, indexing='ij')
 
         {% if constant_functions_flag %}
         #-----------------------
-- 
2.43.0


From 7986f5266337645bf11f2b0051acf70930294802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:58 +0000
Subject: [PATCH 08/34] fix: LinearModel.make_M returned the transpose of the
 resolvent

---
 src/sympkf/model/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sympkf/model/model.py b/src/sympkf/model/model.py
index e6592b8..9ce8518 100644
--- a/src/sympkf/model/model.py
+++ b/src/sympkf/model/model.py
@@ -314,7 +314,7 @@ class LinearModel(Model):
                 return out
             M = self.ensemble_forecast(window, [dirac(i) for i in range(self.n)], \
                                        saved_times)[window[-1]]
-            M = np.asarray(M)
+            M = np.asarray(M).T # column i is the forecast of the i-th Dirac
         else:
             for i in range(self.n):
                 ei[i] = 1.
-- 
2.43.0


From e94cead1e643931597ad2c5eab413ab76afa9c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:58 +0000
Subject: [PATCH 09/34] fix: _apply_internal_closure popped from the dictionary
 it was iterating

---
 src/sympkf/symbolic/pkfcas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index 1bb488d..280449a 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -803,7 +803,7 @@ class SymbolicPKF(object):
         univariates = self.check_univariate(rhs)
 
         # -2- Retain epsilon's that are in self.fields !!
-        for epsilon in univariates:
+        for epsilon in list(univariates):
             if epsilon not in epsilon_to_mfields:
                 univariates.pop(epsilon)
 
-- 
2.43.0


From 65e215860a96671c7a158d860b9d8a7767807a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:58 +0000
Subject: [PATCH 10/34] fix: manifold models ignored the requested time scheme

---
 src/sympkf/symbolic/templates/body_ManifoldModelBuilder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sympkf/symbolic/templates/body_ManifoldModelBuilder.py b/src/sympkf/symbolic/templates/body_ManifoldModelBuilder.py
index 18672ce..976b27d 100644
--- a/src/sympkf/symbolic/templates/body_ManifoldModelBuilder.py
+++ b/src/sympkf/symbolic/templates/body_ManifoldModelBuilder.py
@@ -1,7 +1,7 @@
 template='''
     def __init__(self, base_space, **kwargs):
 
-        super().__init__() # Time scheme is set from Model.__init__()
+        super().__init__(**kwargs) # Time scheme is set from Model.__init__()
 
         # Set base space (manifold)
         #------------------------------
-- 
2.43.0


From 2c3f97a660fe2523ada827a8587ceb4d110866b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:58 +0000
Subject: [PATCH 11/34] fix: local Gaussian closure written with the metric
 lacked the factor 1/2

---
 src/sympkf/symbolic/pkfcas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index 280449a..e186e05 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -1468,7 +1468,7 @@ class LocGaussianClosure(Closure):
 
         if metric:
             gux = self.metric.subs(cpx)
-            dot_prod = dxy.T @ gux @ dxy
+            dot_prod = Rational(1, 2) * dxy.T @ gux @ dxy
         else:
             sx = self.aspect.subs(cpx)
             dot_prod = dxy.T @ (Integer(2)*sx).inv() @ dxy
-- 
2.43.0


From 0db5dc70a57e02906b1b6991caf171312bdfb1a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:14 +0000
Subject: [PATCH 12/34] fix: closure_by_order used |alpha|! in place of the
 multi-index factorial alpha!

---
 src/sympkf/symbolic/pkfcas.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index e186e05..b770d0f 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -1378,20 +1378,18 @@ class Closure(object):
         order = order + 1
         if self._order < order:
             # 1. Compute terms until order
-            factorial = 1
             for partial_order in range(order):
 
                 partial_order = int(partial_order)
                 closure = {}
 
-                if partial_order != 0:
-                    factorial *= partial_order
-
                 for alpha in PartialOrderDerivative.all_of_degree(self.spatial_coordinates, partial_order):
                     # -1- Extract taylor coefficient of dx^alpha
                     coeff_alpha = self.taylor(order).expand()
+                    factorial = 1 # multi-index factorial: prod_i alpha_i!
                     for xi, dxi in zip(self._x,self._dx):
                         alpha_i = alpha.as_sequence.count(xi)
+                        factorial *= sympy.factorial(alpha_i)
                         coeff_alpha = coeff_alpha.coeff(dxi, alpha_i)
 
                     # -2- Extract coefficient of dx^alpha in taylor expansion
-- 
2.43.0


From c58a8b01ef89a0e5949bba5a29e17d21b2cb4977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:14 +0000
Subject: [PATCH 13/34] fix: closure_by_order was empty when taylor had been
 called before at the same order

---
 src/sympkf/symbolic/pkfcas.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index b770d0f..fc19b55 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -1303,6 +1303,7 @@ class Closure(object):
         self.diffusion = mfield.diffusion
         self.aspect = mfield.aspect
         self._order = 0
+        self._closure_order = 0
         self._taylor = None
         self._in_metric = None
         self._in_diffusion = None
@@ -1376,7 +1377,7 @@ class Closure(object):
         :return: a
         """
         order = order + 1
-        if self._order < order:
+        if self._closure_order < order:
             # 1. Compute terms until order
             for partial_order in range(order):
 
@@ -1398,7 +1399,7 @@ class Closure(object):
                 self._closure_by_order[partial_order] = closure
 
             # 2. Update the order
-            self._order = order
+            self._closure_order = order
 
         return self._closure_by_order
 
-- 
2.43.0


From 92646da53a5fd74e23b406f4a92dee48c3ed1540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:14 +0000
Subject: [PATCH 14/34] fix: in_metric_by_order modified the closure cached for
 closure_by_order

---
 src/sympkf/symbolic/pkfcas.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index fc19b55..7abc221 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -1411,7 +1411,9 @@ class Closure(object):
         return closure
 
     def in_metric_by_order(self, order):
-        subs_closure_by_order = self.closure_by_order(order)
+        subs_closure_by_order = {
+            partial_order: dict(closure) for partial_order, closure in self.closure_by_order(order).items()
+        }
         g_dico = {} # denotes the metric tensor
         s_dico = {} # denotes the aspect tensor (here the parameter of the formulation)
         # -1- Supress partial derivative in metric terms
-- 
2.43.0


From 63b7779aaa16c7dbbea493ea20d44465a6e7a71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:14 +0000
Subject: [PATCH 15/34] fix: in_metric_by_order used the orders of the
 derivative as indices of the metric tensor

---
 src/sympkf/symbolic/pkfcas.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index 7abc221..f51b829 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -1427,10 +1427,7 @@ class Closure(object):
             subs_term = subs_term.subs({derivative: 0 for derivative in subs_term.atoms(Derivative)})
             subs_closure_by_order[second_order][term] = subs_term
             # -3-
-            if len(self.spatial_coordinates) > 1:
-                i, j = alpha.as_tuple[0], alpha.as_tuple[1]
-            else:
-                i, j = 0, 0
+            i, j = [self.spatial_coordinates.index(xi) for xi in alpha.as_sequence]
 
             g_dico[term] = -self.mfield.metric_func(i, j)
             s_dico[term] = self.mfield.aspect_func(i, j)
-- 
2.43.0


From aee618458ea52e3a3a52bb3e7a9a56efafe3d9f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:14 +0000
Subject: [PATCH 16/34] fix: get_covariance(f1,f2) and get_covariance(f2,f1)
 gave different functions

---
 src/sympkf/symbolic/pkfcas.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index f51b829..08f057e 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -725,6 +725,9 @@ class SymbolicPKF(object):
     def get_covariance(self, f1, f2):
         if all([field in self.fields for field in [f1,f2]]):
             # 1. Get associated metafields
+            # (the covariance is symmetric: same label for (f1,f2) and (f2,f1))
+            fields = list(self.fields)
+            f1, f2 = sorted((f1, f2), key=fields.index)
             mf1 = self.fields[f1]
             mf2 = self.fields[f2]
 
-- 
2.43.0


From bc211f90de69206cd2a4b315b050b258608ad377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:14 +0000
Subject: [PATCH 17/34] fix: known statistics such as E[(D_x eps)^2] were left
 unclosed in the expectation system

---
 src/sympkf/symbolic/pkfcas.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index 08f057e..a02f988 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -166,7 +166,8 @@ class SymbolicPKF(object):
                 # 2) Substitute error in Variance/Corrélation
                 equation = equation.subs(subs_error).doit().expand()
                 # 3) Apply internal closure
-                equation = equation.subs(self.internal_closure).doit()
+                lhs, rhs = equation.subs(self.internal_closure).doit().args
+                equation = Eq(lhs, self._apply_internal_closure(rhs).doit())
 
                 expectation_system.append(equation)
 
-- 
2.43.0


From fe336f80cb2713df524aefdb07772ce2e5d58c3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:27 +0000
Subject: [PATCH 18/34] fix: in_metric_by_order failed on the solution of the
 metric/aspect relation of multidimensional fields

---
 src/sympkf/symbolic/pkfcas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index a02f988..01b25f8 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -1438,7 +1438,7 @@ class Closure(object):
             system_s_to_g.append(Eq(g_dico[term], subs_term))
 
         # -2- expression en fonction de la notation de la métrique
-        s_to_g = sympy.solve(system_s_to_g, *s_dico.values())
+        s_to_g = sympy.solve(system_s_to_g, *s_dico.values(), dict=True)[0]
 
         # -3- Replace in all subs_closure
         for order in subs_closure_by_order:
-- 
2.43.0


From 31059eef32ec1305b56f8063b6619277b0cc2c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:50 +0000
Subject: [PATCH 19/34] fix: Eq.subs/doit/expand raised TypeError when the
 equation reduces to True or False

---
 src/sympkf/symbolic/util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sympkf/symbolic/util.py b/src/sympkf/symbolic/util.py
index f9d2524..22f60f3 100644
--- a/src/sympkf/symbolic/util.py
+++ b/src/sympkf/symbolic/util.py
@@ -132,15 +132,15 @@ class Eq(sympy.Eq):
 
     def subs(self, *args, **hints):
         eq = super().subs(*args, **hints)
-        return self.__class__(*eq.args)
+        return self.__class__(*eq.args) if isinstance(eq, sympy.Eq) else eq
 
     def doit(self, *args, **hints):
         eq = super().doit(*args, **hints)
-        return self.__class__(*eq.args)
+        return self.__class__(*eq.args) if isinstance(eq, sympy.Eq) else eq
 
     def expand(self, *args, **hints):
         eq = super().expand(*args, **hints)
-        return self.__class__(*eq.args)
+        return self.__class__(*eq.args) if isinstance(eq, sympy.Eq) else eq
 
     def isolate(self, expr):
         """ Isolate an expression from an equation
-- 
2.43.0


From 4c8aa7a2c07760385ee27b88928b1127d1efca2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:50 +0000
Subject: [PATCH 20/34] fix: coordinates with a LaTeX name gave generated code
 that does not compile or looks up unknown coordinates

---
 src/sympkf/symbolic/finite_difference.py | 4 ++--
 src/sympkf/symbolic/model_builder.py     | 4 ++--
 src/sympkf/symbolic/model_builder_FD.py  | 3 ++-
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/sympkf/symbolic/finite_difference.py b/src/sympkf/symbolic/finite_difference.py
index e38ebe2..3d4dfa0 100644
--- a/src/sympkf/symbolic/finite_difference.py
+++ b/src/sympkf/symbolic/finite_difference.py
@@ -329,7 +329,7 @@ def code_regular_function(function, slice_coding_rule):
         for k, step in enumerate(displacement):
             assert isinstance(step, Integer), f"displacement is not on regular grid for function: {function}"
 
-            code += slice_coding_rule(f"'{x[k]}'", step) + ','
+            code += slice_coding_rule(f"'{clean_latex_name(x[k])}'", step) + ','
 
         # Suffix for closing array
         code = code[:-1]
@@ -450,7 +450,7 @@ class Code(object):
             for k, step in enumerate(displacement):
                 assert isinstance(step, Integer), f"displacement is not on regular grid for function: {function}"
 
-                code += self.slice_coding_rule(f"'{x[k]}'", step) + ','
+                code += self.slice_coding_rule(f"'{clean_latex_name(x[k])}'", step) + ','
 
             # Suffix for closing array
             code = code[:-1]
diff --git a/src/sympkf/symbolic/model_builder.py b/src/sympkf/symbolic/model_builder.py
index 12d1f93..de52227 100644
--- a/src/sympkf/symbolic/model_builder.py
+++ b/src/sympkf/symbolic/model_builder.py
@@ -43,13 +43,13 @@ class MetaDerivative(object):
         self.as_code = self._set_as_code()
 
     def _set_as_keyvar(self):
-        keyvar = "_".join(f'{coordinate}_o{partial_order}'
+        keyvar = "_".join(f'{clean_latex_name(coordinate)}_o{partial_order}'
                           for coordinate, partial_order in self._partial_orders.items())
         keyvar = 'D' + self.function.as_keyvar + '_' + keyvar
         return keyvar
 
     def _set_as_partial_orders(self):
-        return ",".join(f"'{coordinate}',{partial_order}"
+        return ",".join(f"'{clean_latex_name(coordinate)}',{partial_order}"
                         for coordinate, partial_order in self._partial_orders.items())
 
     def _set_as_str(self):
diff --git a/src/sympkf/symbolic/model_builder_FD.py b/src/sympkf/symbolic/model_builder_FD.py
index cd0230e..58bcfa8 100644
--- a/src/sympkf/symbolic/model_builder_FD.py
+++ b/src/sympkf/symbolic/model_builder_FD.py
@@ -1,5 +1,6 @@
 from .model_builder import ModelBuilder
 from .model_builder_manifold import MetaDerivative as AbstractMetaDerivative
+from .tool import clean_latex_name
 
 class MetaDerivative(AbstractMetaDerivative):
 
@@ -9,7 +10,7 @@ class MetaDerivative(AbstractMetaDerivative):
 
     @staticmethod
     def dx_coding_rule(coord):
-        return f"self.dx[self.coordinates.index('{coord}')]"
+        return f"self.dx[self.coordinates.index('{clean_latex_name(coord)}')]"
 
     def _set_as_code(self):
         """ Transform derivative into finite differences """
-- 
2.43.0


From 1965e2a0f5992566f33827fc1d52aeb9e5044568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:50 +0000
Subject: [PATCH 21/34] fix: rendering of a grid step rewrote names that
 contain it (field 'width' and dt, coordinates given as y, x)

---
 src/sympkf/symbolic/finite_difference.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/sympkf/symbolic/finite_difference.py b/src/sympkf/symbolic/finite_difference.py
index 3d4dfa0..23e4dde 100644
--- a/src/sympkf/symbolic/finite_difference.py
+++ b/src/sympkf/symbolic/finite_difference.py
@@ -1,4 +1,5 @@
 from .util import Eq, get_function_coordinates, get_total_order
+import re
 import warnings
 
 def get_subs_derivative(derivative):
@@ -366,9 +367,11 @@ def code_finite_difference(finite, slice_coding_rule, dx_coding_rule):
         code = code.replace(str(function), code_regular_function(function, slice_coding_rule))
 
     # -2- Replace dx's
-    for x_dx in loc_x_dx:
-        xi, dxi = x_dx
-        code = code.replace(str(dxi), dx_coding_rule(xi))
+    # (all at once, and only where dx is the whole name: not in `width`, nor in the code rendered for another dx)
+    coded_dx = {str(dxi): dx_coding_rule(xi) for xi, dxi in loc_x_dx}
+    if coded_dx:
+        pattern = '|'.join(re.escape(name) for name in coded_dx)
+        code = re.sub(rf'(?<!\w)(?:{pattern})(?!\w)', lambda match: coded_dx[match.group(0)], code)
 
     return code
 
-- 
2.43.0


From c87c8bdb8420cb08c23c6e5cecca2dd6307731f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:17 +0000
Subject: [PATCH 22/34] fix: elementary functions (sin, exp, ..) were taken for
 exogenous fields

---
 src/sympkf/symbolic/util.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/sympkf/symbolic/util.py b/src/sympkf/symbolic/util.py
index 22f60f3..9ac5a9e 100644
--- a/src/sympkf/symbolic/util.py
+++ b/src/sympkf/symbolic/util.py
@@ -236,12 +236,14 @@ class PDESystem(object):
         return string
 
     def _get_functions(self):
-        """ Extract all functions present in the system of pde """
+        """ Extract all functions present in the system of pde (not the elementary functions: sin, exp, .. ) """
+        from sympy.core.function import AppliedUndef
+        from .random import Expectation
 
         functions = set()
 
         for equation in self.equations:
-            functions.update(equation.atoms(Function))
+            functions.update(equation.atoms(AppliedUndef, Expectation))
 
         return functions
 
-- 
2.43.0


From b8e06941267a35a6ff82310da057d070da8c5ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:17 +0000
Subject: [PATCH 23/34] fix: generated trends used undefined names for sqrt,
 sin, pi, ..

---
 src/sympkf/symbolic/model_builder.py    | 5 ++++-
 src/sympkf/symbolic/templates/header.py | 1 +
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/sympkf/symbolic/model_builder.py b/src/sympkf/symbolic/model_builder.py
index de52227..5c045df 100644
--- a/src/sympkf/symbolic/model_builder.py
+++ b/src/sympkf/symbolic/model_builder.py
@@ -263,6 +263,9 @@ class ModelBuilder(object):
 
     def _make_trend_code(self):
         """ Create the code for the trend from the pseudo algebraic system """
+        from sympy.printing.numpy import NumPyPrinter
+        numpy_printer = NumPyPrinter()
+
         subs_trend = {function.as_symbolic:function.trend
                       for function in self.prognostic_functions}
         trend_code = []
@@ -273,7 +276,7 @@ class ModelBuilder(object):
             function = lhs.args[0]
             lhs = subs_trend[function]
             # 3. implement the code line: set the lhs **np.array** from the rhs
-            code_line = str(lhs)+'[:] = '+str(rhs)
+            code_line = str(lhs)+'[:] = '+numpy_printer.doprint(rhs)
             # 4. Add to code.
             trend_code.append(code_line)
 
diff --git a/src/sympkf/symbolic/templates/header.py b/src/sympkf/symbolic/templates/header.py
index ec1d9f3..0540e63 100644
--- a/src/sympkf/symbolic/templates/header.py
+++ b/src/sympkf/symbolic/templates/header.py
@@ -1,4 +1,5 @@
 template = '''from sympkf.model import Model
+import numpy
 import numpy as np
 
 class {{class_name}}(Model):
-- 
2.43.0


From fbebbb009f82abddfc91f2afa87185a542e874f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:01 +0000
Subject: [PATCH 24/34] fix: derivatives of composite expressions gave
 generated code that does not compile

---
 src/sympkf/symbolic/model_builder.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/sympkf/symbolic/model_builder.py b/src/sympkf/symbolic/model_builder.py
index 5c045df..ce65a34 100644
--- a/src/sympkf/symbolic/model_builder.py
+++ b/src/sympkf/symbolic/model_builder.py
@@ -122,6 +122,9 @@ class ModelBuilder(object):
         if not isinstance(pde_system, PDESystem):
             pde_system = PDESystem(pde_system)
 
+        # Develop the derivatives of composite expressions, e.g. Derivative(u**2,x), in derivatives of functions
+        pde_system = PDESystem([equation.doit() for equation in pde_system.equations], name=pde_system.name)
+
         self.pde_system = pde_system
 
         if class_name is None:
-- 
2.43.0


From ead6c61f835f13727044c5506234452c0125aec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:00 +0000
Subject: [PATCH 25/34] fix: fields and univariate terms were not recognized
 once sympy's cache had evicted them

---
 src/sympkf/symbolic/pkfcas.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index 01b25f8..7fa5fd6 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -878,12 +878,12 @@ class UnivariateTerm(object):
 
             if len(derivatives) == 1: # E[eps D^beta eps] or E[(D^alpha eps)**2] or E[(D^alpha eps)**k] k>2
                 derivative = derivatives.pop()
-                if term is Expectation(function * derivative): # E[eps D^beta eps]
+                if term == Expectation(function * derivative): # E[eps D^beta eps]
                     alpha = 0
                     beta = derivative.args[1:]
                     degree = derivative.derivative_count
                     return cls(term, function, alpha, beta, degree)
-                elif term is Expectation(derivative*derivative): #E[(D^alpha eps)**2]
+                elif term == Expectation(derivative*derivative): #E[(D^alpha eps)**2]
                     alpha = derivative.args[1:]
                     beta = derivative.args[1:]
                     degree = 2*derivative.derivative_count
@@ -893,7 +893,7 @@ class UnivariateTerm(object):
                     return None
 
             elif len(derivatives) == 2:
-                if term is Expectation(Mul(*derivatives)):
+                if term == Expectation(Mul(*derivatives)):
                     # -1- Compute the total degree
                     degree = 0
                     for derivative in derivatives:
@@ -931,7 +931,7 @@ class Field(object):
         self.code = clean_latex_name(field.func)
 
         self.coordinates = field.args
-        self.spatial_coordinates = tuple([coord for coord in self.coordinates if coord is not time_symbol])
+        self.spatial_coordinates = tuple([coord for coord in self.coordinates if coord != time_symbol])
 
         self.coords_code = tuple(clean_latex_name(coord) for coord in self.coordinates)
         self.spatial_coords_code = tuple(clean_latex_name(coord) for coord in self.spatial_coordinates)
-- 
2.43.0


From eb927fffd5289fd1bcdd39f5070303e3e64ea3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:11 +0000
Subject: [PATCH 26/34] fix: israndom was not defined for derivatives evaluated
 at a point

---
 src/sympkf/symbolic/random.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sympkf/symbolic/random.py b/src/sympkf/symbolic/random.py
index f66478d..b4324b2 100644
--- a/src/sympkf/symbolic/random.py
+++ b/src/sympkf/symbolic/random.py
@@ -208,6 +208,10 @@ def israndom(arg, verbose=False):
     elif isinstance(arg, (Derivative, Integral)):
         lprint(f'israndom: {type(arg)}')
         return israndom(arg.args[0], verbose=verbose)
+    elif isinstance(arg, sympy.Subs):
+        # e.g. a derivative evaluated at a given point
+        lprint('israndom: Subs')
+        return any(israndom(elm, verbose=verbose) for elm in (arg.expr, *arg.point))
     elif isinstance(arg, (Mul, Add, Pow)):
         lprint(f'israndom: {type(arg)}')
         return any(israndom(elm, verbose=verbose) for elm in arg.args)
-- 
2.43.0


From 103f9fa40b0d24ce1ffe7cbb4d57d37069a83556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:21 +0000
Subject: [PATCH 27/34] fix: PKF dynamics failed for spatial coordinates that
 are not in alphabetical order

---
 src/sympkf/symbolic/pkfcas.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index 7fa5fd6..839a8ea 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -919,7 +919,7 @@ def gamma_subs(metric, k, i, j):
                               - Derivative(metric(i, j), k))
 
 def skewness_def(epsilon, k, i, j):
-    return Expectation(epsilon * Derivative(epsilon, k, i, j))
+    return Expectation(epsilon * Derivative(epsilon, k, i, j).doit())
 
 def skewness_subs(metric, k, i, j):
     return -Rational(1 , 2) * (Derivative(metric(k, j), i) + Derivative(metric(i, k), j) \
@@ -1014,7 +1014,7 @@ class Field(object):
         return Function('{g_{' + self.code + ',' + self.index_code(i, j) + '}}', real=True)(*self.coordinates)
 
     def metric_definition(self,i,j):
-        return -Expectation(self.epsilon * Derivative(self.epsilon, self.spatial_coordinates[i], self.spatial_coordinates[j]))
+        return -Expectation(self.epsilon * Derivative(self.epsilon, self.spatial_coordinates[i], self.spatial_coordinates[j]).doit())
 
     def nu_func(self,i,j):
         return Function('{\\nu_{' + self.code + ',' + self.index_code(i, j) + '}}', real=True)(
@@ -1255,7 +1255,8 @@ class UnivariateTree(object):
 
                     # term = Expectation(Derivative(self.epsilon, *alpha) * Derivative(self.epsilon, *beta))
                     term = Derivative(self.epsilon, *alpha.as_couples) * Derivative(self.epsilon, *beta.as_couples)
-                    term = Expectation(term)
+                    # (`doit` gives the canonical order of the coordinates in mixed derivatives)
+                    term = Expectation(term.doit())
 
                     lhs = Derivative(Derivative(self.epsilon, *sub_alpha.as_couples) * Derivative(self.epsilon, *beta.as_couples), alpha.as_sequence[0])
                     rhs = lhs.doit()
@@ -1398,7 +1399,7 @@ class Closure(object):
                         coeff_alpha = coeff_alpha.coeff(dxi, alpha_i)
 
                     # -2- Extract coefficient of dx^alpha in taylor expansion
-                    term = Expectation(self.epsilon * Derivative(self.epsilon, *alpha.as_couples))
+                    term = Expectation(self.epsilon * Derivative(self.epsilon, *alpha.as_couples).doit())
                     closure[term] = Integer(factorial) * coeff_alpha
                 self._closure_by_order[partial_order] = closure
 
@@ -1425,7 +1426,7 @@ class Closure(object):
         system_s_to_g = []
         for alpha in PartialOrderDerivative.all_of_degree(self.spatial_coordinates, second_order):
             # -1- get term
-            term = Expectation(self.epsilon * Derivative(self.epsilon, *alpha.as_couples))
+            term = Expectation(self.epsilon * Derivative(self.epsilon, *alpha.as_couples).doit())
             # -2- Eliminate derivatives
             subs_term = subs_closure_by_order[second_order][term]
             subs_term = subs_term.subs({derivative: 0 for derivative in subs_term.atoms(Derivative)})
-- 
2.43.0


From 72c9fe9b677853a46b308909d1004db033bd4136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:16 +0000
Subject: [PATCH 28/34] fix: code of an expression with fields whose names end
 alike, or with elementary functions

---
 src/sympkf/symbolic/finite_difference.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/sympkf/symbolic/finite_difference.py b/src/sympkf/symbolic/finite_difference.py
index 23e4dde..88bbd0a 100644
--- a/src/sympkf/symbolic/finite_difference.py
+++ b/src/sympkf/symbolic/finite_difference.py
@@ -350,7 +350,7 @@ def code_finite_difference(finite, slice_coding_rule, dx_coding_rule):
     :param slice_coding_rule:
     :return:
     """
-    from sympy import Function
+    from sympy.core.function import AppliedUndef
 
 
     code = str(finite)
@@ -359,7 +359,8 @@ def code_finite_difference(finite, slice_coding_rule, dx_coding_rule):
     loc_x_dx = []
 
     # -1- Replace functions
-    for function in finite.atoms(Function):
+    # (longest first: `u(t, x)` is also found in `\\mu(t, x)`)
+    for function in sorted(finite.atoms(AppliedUndef), key=lambda function: len(str(function)), reverse=True):
         x, dx = get_function_coordinates(function)
         for xi,dxi in zip(x,dx):
             if (xi,dxi) not in loc_x_dx:
-- 
2.43.0


From 08041dc87e0b3843f5620653e73eb2032ac86892 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:45 +0000
Subject: [PATCH 29/34] fix: increments of coordinates with a comma in their
 LaTeX name

---
 src/sympkf/symbolic/finite_difference.py | 8 ++++----
 src/sympkf/symbolic/pkfcas.py            | 4 +---
 src/sympkf/symbolic/util.py              | 4 ++--
 3 files changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/sympkf/symbolic/finite_difference.py b/src/sympkf/symbolic/finite_difference.py
index 88bbd0a..3253b53 100644
--- a/src/sympkf/symbolic/finite_difference.py
+++ b/src/sympkf/symbolic/finite_difference.py
@@ -37,13 +37,13 @@ def get_subs_derivative(derivative):
         subs_derivative = Derivative(finite_diff, y,1)
 
     """
-    from sympy import Derivative, Integer, symbols
+    from sympy import Derivative, Integer, Symbol
     from numpy import arange
 
     # Get arguments from the derivative
     func_part = derivative.args[0]
     xi, oi = derivative.args[1]
-    dxi = symbols('d' + str(xi))    
+    dxi = Symbol('d' + str(xi))    
     
     # 1. Compute the finite difference of the derivation with respect to the first argument
     
@@ -166,7 +166,7 @@ def _sympy_finite_difference(expr):
         f(x+dx)/2*dx - f(x-dx)/2*dx
 
     """
-    from sympy import Derivative, symbols
+    from sympy import Derivative, Symbol
 
     expr = expr.doit()
 
@@ -180,7 +180,7 @@ def _sympy_finite_difference(expr):
         for derivative in derivatives:
             # a) get first 'wrt' variable
             xi = derivative.args[1][0]
-            dxi = symbols('d' + str(xi))
+            dxi = Symbol('d' + str(xi))
             # b) substitute
             expr = expr.subs(derivative, derivative.as_finite_difference(dxi, wrt=xi)).expand()
 
diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index 839a8ea..4bdfa6b 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -1299,9 +1299,7 @@ class Closure(object):
         self.spatial_coordinates = mfield.spatial_coordinates
 
         self._x = self.spatial_coordinates
-        self._dx = symbols(' '.join([f"d{xi}" for xi in self.spatial_coordinates]))
-        if not isinstance(self._dx, tuple):
-            self._dx = (self._dx,)
+        self._dx = tuple(sympy.Symbol(f"d{xi}") for xi in self.spatial_coordinates)
 
         self.epsilon = mfield.epsilon
         self.metric = mfield.metric
diff --git a/src/sympkf/symbolic/util.py b/src/sympkf/symbolic/util.py
index 9ac5a9e..c622fd7 100644
--- a/src/sympkf/symbolic/util.py
+++ b/src/sympkf/symbolic/util.py
@@ -400,7 +400,7 @@ def get_coordinates(function):
                 xi, dxi = dxi, xi
         elif len(coordinate) == 1:
             xi = coordinate.pop()
-            dxi = symbols('d' + str(xi))
+            dxi = Symbol('d' + str(xi))
         else:
             raise ValueError(f"Too many symbols {arg} for function {function}")
 
@@ -442,7 +442,7 @@ def get_function_coordinates(function):
                 xi, dxi = dxi, xi
         elif len(coordinate) == 1:
             xi = coordinate.pop()
-            dxi = symbols('d' + str(xi))
+            dxi = Symbol('d' + str(xi))
         else:
             raise ValueError(f"Too many symbols {arg} for function {function}")
 
-- 
2.43.0


From d2ca5377206b095a35a13b5c856a3ff35c5e1ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:04 +0000
Subject: [PATCH 30/34] fix: closures of correlations heterogeneous in several
 dimensions did not end

---
 src/sympkf/symbolic/pkfcas.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/sympkf/symbolic/pkfcas.py b/src/sympkf/symbolic/pkfcas.py
index 4bdfa6b..2ad8a0b 100644
--- a/src/sympkf/symbolic/pkfcas.py
+++ b/src/sympkf/symbolic/pkfcas.py
@@ -1365,8 +1365,12 @@ class Closure(object):
             py = tuple([xi + dxi for xi, dxi in zip(self._x, self._dx)])
             taylor = self.correlation(px, py)
             for dxi in self._dx:
-                taylor = taylor.series(dxi, 0, order).removeO()
-                taylor = remove_eval_derivative(taylor)
+                # (from the successive derivatives: sympy's `series` fails, or does not end, in several dimensions)
+                terms, derivative = [], taylor
+                for k in range(order):
+                    terms.append(remove_eval_derivative(derivative.subs(dxi, 0)) * dxi ** k / sympy.factorial(k))
+                    derivative = derivative.diff(dxi)
+                taylor = sympy.Add(*terms)
 
             self._taylor = taylor
             self._order = order
-- 
2.43.0


From f66741c8f0a60f1ecd0cbe36d1f1b2e109136d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:03 +0000
Subject: [PATCH 31/34] fix: gradient and div rejected elementary functions of
 compatible fields

---
 src/sympkf/symbolic/util.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/sympkf/symbolic/util.py b/src/sympkf/symbolic/util.py
index c622fd7..bc06223 100644
--- a/src/sympkf/symbolic/util.py
+++ b/src/sympkf/symbolic/util.py
@@ -587,7 +587,10 @@ class CoordinateSystem(object):
             return False
 
     def _check_compatible(self, expr):
-        for function in expr.atoms(Function):
+        from sympy.core.function import AppliedUndef
+
+        # (the fields only: elementary functions, e.g. sin(u), have no coordinates)
+        for function in expr.atoms(AppliedUndef):
             if not self.is_compatible(function):
                 raise ValueError(f'field args {function.args} not compatible with coordinates {self._coords}')
 
-- 
2.43.0


From e068b317bee8f7d56831db512010b3b5bd590a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:09 +0000
Subject: [PATCH 32/34] fix: integrals with a random bound were taken for
 deterministic, or commuted with the expectation

---
 src/sympkf/symbolic/random.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/sympkf/symbolic/random.py b/src/sympkf/symbolic/random.py
index b4324b2..6cb27f4 100644
--- a/src/sympkf/symbolic/random.py
+++ b/src/sympkf/symbolic/random.py
@@ -104,7 +104,8 @@ class Expectation(Function):
         elif isinstance(arg, Derivative):
             return Derivative(cls(arg.args[0]), *arg.args[1:])
         # Commutativité par rapport aux opérateurs de intégraux time/space
-        elif isinstance(arg, Integral):
+        # (an integral over a random domain is left as it is)
+        elif isinstance(arg, Integral) and not any(israndom(bound) for limit in arg.limits for bound in limit[1:]):
             return Integral(cls(arg.args[0]), *arg.args[1:])
         #
         # Apply to particular structure
@@ -205,9 +206,13 @@ def israndom(arg, verbose=False):
     elif isinstance(arg, Symbol):
         lprint('israndom: Symbol')
         return arg == omega
-    elif isinstance(arg, (Derivative, Integral)):
+    elif isinstance(arg, Derivative):
         lprint(f'israndom: {type(arg)}')
         return israndom(arg.args[0], verbose=verbose)
+    elif isinstance(arg, Integral):
+        lprint(f'israndom: {type(arg)}')
+        bounds = [bound for limit in arg.limits for bound in limit[1:]]
+        return any(israndom(elm, verbose=verbose) for elm in (arg.args[0], *bounds))
     elif isinstance(arg, sympy.Subs):
         # e.g. a derivative evaluated at a given point
         lprint('israndom: Subs')
-- 
2.43.0


From 38f8fbc8ec3f36b3aaa7c0405ad311b2cd1e9825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:15 +0000
Subject: [PATCH 33/34] fix: Expectation left the equations of sympy (Eq) as
 the argument of an expectation

---
 src/sympkf/symbolic/random.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sympkf/symbolic/random.py b/src/sympkf/symbolic/random.py
index 6cb27f4..0639239 100644
--- a/src/sympkf/symbolic/random.py
+++ b/src/sympkf/symbolic/random.py
@@ -111,7 +111,7 @@ class Expectation(Function):
         # Apply to particular structure
         #
         # -- Eq
-        elif isinstance(arg, Eq):
+        elif isinstance(arg, sympy.Eq):
             lhs, rhs = arg.args
             #return Eq(cls(lhs), cls(rhs))
             return arg.__class__(cls(lhs), cls(rhs))
-- 
2.43.0


From e443f277693596d548357d470b5cb9e4532e2a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:42:46 +0000
Subject: [PATCH 34/34] fix: a mixed derivative in time and space is not a
 trend

---
 src/sympkf/symbolic/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sympkf/symbolic/util.py b/src/sympkf/symbolic/util.py
index bc06223..13c6248 100644
--- a/src/sympkf/symbolic/util.py
+++ b/src/sympkf/symbolic/util.py
@@ -500,7 +500,7 @@ def get_trend(equation):
     """
     trends = set()
     for derivative in equation.atoms(Derivative):
-        if derivative.args[1] == (time_coordinate, 1):
+        if derivative.args[1:] == ((time_coordinate, 1),):
             trends.add(derivative)
     if len(trends) == 1:
         trends = trends.pop()
-- 
2.43.0

