From b5cc7603ca7bf6e81ccac00905553764ef539ec2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:09 +0000
Subject: [PATCH 01/76] fix: arithmetic between Quantity objects always raised
 TypeError (missing name, no true division)

---
 src/sloth/core/quantity.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/sloth/core/quantity.py b/src/sloth/core/quantity.py
index 8152cc8..062150c 100644
--- a/src/sloth/core/quantity.py
+++ b/src/sloth/core/quantity.py
@@ -157,7 +157,7 @@ class Quantity:  # New-style class syntax
 
             # Dimensional coherence confirmed. Insert here commands
 
-            new_obj = self.__class__(units = self.units, value = self.value+other_obj.value)
+            new_obj = self.__class__(name="", units = self.units, value = self.value+other_obj.value)
 
             return new_obj
 
@@ -184,7 +184,7 @@ class Quantity:  # New-style class syntax
 
             # Dimensional coherence confirmed. Insert here commands
 
-            new_obj = self.__class__(units = self.units, value = self.value-other_obj.value)
+            new_obj = self.__class__(name="", units = self.units, value = self.value-other_obj.value)
 
             return new_obj
 
@@ -206,7 +206,7 @@ class Quantity:  # New-style class syntax
         :rtype Variable new_obj:
         """
 
-        new_obj = self.__class__(units = self.units*other_obj.units, value = self.value*other_obj.value)
+        new_obj = self.__class__(name="", units = self.units*other_obj.units, value = self.value*other_obj.value)
 
         return new_obj
 
@@ -224,10 +224,17 @@ class Quantity:  # New-style class syntax
         :rtype Variable new_obj:
         """
 
-        new_obj = self.__class__(units = self.units/other_obj.units, value = self.value/other_obj.value)
+        new_obj = self.__class__(name="", units = self.units/other_obj.units, value = self.value/other_obj.value)
 
         return(new_obj)
 
+    def __truediv__(self, other_obj):
+        """
+        Overloaded function for true division (Python 3) of two unit-containing-objects. See __div__.
+        """
+
+        return self.__div__(other_obj)
+
     def __pow__(self, power):
 
         """
@@ -243,6 +250,6 @@ class Quantity:  # New-style class syntax
 
         """
 
-        new_obj = self.__class__( units = self.units**power.value, value = self.value**power.value )
+        new_obj = self.__class__(name="", units = self.units**power.value, value = self.value**power.value)
 
         return(new_obj)
-- 
2.43.0


From f4f2d134e6e4e415574f385f50f0d2b8d5eb0f4d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:31 +0000
Subject: [PATCH 02/76] fix: setValue accepted a float given in an incoherent
 unit (operator precedence)

---
 src/sloth/core/constant.py  | 4 ++--
 src/sloth/core/parameter.py | 4 ++--
 src/sloth/core/quantity.py  | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/sloth/core/constant.py b/src/sloth/core/constant.py
index a9bcc31..132fa53 100644
--- a/src/sloth/core/constant.py
+++ b/src/sloth/core/constant.py
@@ -84,14 +84,14 @@ class Constant(Quantity):
 
                 raise DimensionalCoherenceError(self.units,quantity_value.units)
 
-        elif isinstance(quantity_value, float) or isinstance(quantity_value, int) and quantity_unit==None:
+        elif (isinstance(quantity_value, float) or isinstance(quantity_value, int)) and quantity_unit==None:
 
             self.value = quantity_value
 
             self.is_specified = True
 
 
-        elif isinstance(quantity_value, float) or isinstance(quantity_value, int) and quantity_unit!=None and quantity_unit._check_dimensional_coherence(self.units):
+        elif (isinstance(quantity_value, float) or isinstance(quantity_value, int)) and quantity_unit!=None and quantity_unit._check_dimensional_coherence(self.units):
 
             self.value = quantity_value
 
diff --git a/src/sloth/core/parameter.py b/src/sloth/core/parameter.py
index 7a1e53c..39d0274 100644
--- a/src/sloth/core/parameter.py
+++ b/src/sloth/core/parameter.py
@@ -70,14 +70,14 @@ class Parameter(Quantity):
 
                 raise DimensionalCoherenceError(self.units,quantity_value.units)
 
-        elif isinstance(quantity_value, float) or isinstance(quantity_value, int) and quantity_unit==None:
+        elif (isinstance(quantity_value, float) or isinstance(quantity_value, int)) and quantity_unit==None:
 
             self.value = quantity_value
 
             self.is_specified = True
 
 
-        elif isinstance(quantity_value, float) or isinstance(quantity_value, int) and quantity_unit!=None and quantity_unit._check_dimensional_coherence(self.units):
+        elif (isinstance(quantity_value, float) or isinstance(quantity_value, int)) and quantity_unit!=None and quantity_unit._check_dimensional_coherence(self.units):
 
             self.value = quantity_value
 
diff --git a/src/sloth/core/quantity.py b/src/sloth/core/quantity.py
index 062150c..e5de18f 100644
--- a/src/sloth/core/quantity.py
+++ b/src/sloth/core/quantity.py
@@ -88,13 +88,13 @@ class Quantity:  # New-style class syntax
 
                 raise DimensionalCoherenceError(self.units,quantity_value.units)
 
-        elif isinstance(quantity_value, float) or isinstance(quantity_value, int) and quantity_unit==None:
+        elif (isinstance(quantity_value, float) or isinstance(quantity_value, int)) and quantity_unit==None:
 
             self.value = quantity_value
 
             self.is_specified = True
 
-        elif isinstance(quantity_value, float) or isinstance(quantity_value, int) and quantity_unit!=None and quantity_unit._check_dimensional_coherence(self.units):
+        elif (isinstance(quantity_value, float) or isinstance(quantity_value, int)) and quantity_unit!=None and quantity_unit._check_dimensional_coherence(self.units):
 
             self.value = quantity_value
 
-- 
2.43.0


From 8e45b020178663cc73a24d92e0257fe5ce6e26b8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:31 +0000
Subject: [PATCH 03/76] fix: constant/variable was classified as linear, and
 products dropped the differential classification

---
 src/sloth/core/expression_evaluation.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/sloth/core/expression_evaluation.py b/src/sloth/core/expression_evaluation.py
index 9ff9bed..711cc94 100644
--- a/src/sloth/core/expression_evaluation.py
+++ b/src/sloth/core/expression_evaluation.py
@@ -330,7 +330,7 @@ class EquationNode:
 
             else:
 
-                enode_.equation_type = {'is_linear':False, 'is_nonlinear':True, 'is_differential':False} # self._checkEquationTypePrecedence(self.equation_type, other_obj.equation_type)
+                enode_.equation_type = self._checkEquationTypePrecedence(self._checkEquationTypePrecedence(self.equation_type, other_obj.equation_type), {'is_linear':False, 'is_nonlinear':True, 'is_differential':False})
 
             return(enode_)
 
@@ -425,13 +425,13 @@ class EquationNode:
 
             elif self.variable_map == {} and other_obj.variable_map != {}:
 
-                # current object is a specified Quantity
+                # current object is a specified Quantity, divided by an expression of unspecified ones (never linear)
 
-                enode_.equation_type = {**other_obj.equation_type}
+                enode_.equation_type = self._checkEquationTypePrecedence(other_obj.equation_type, {'is_linear':False, 'is_nonlinear':True, 'is_differential':False})
 
             else:
 
-                enode_.equation_type = {'is_linear':False, 'is_nonlinear':True, 'is_differential':False} # self._checkEquationTypePrecedence(self.equation_type, other_obj.equation_type)
+                enode_.equation_type = self._checkEquationTypePrecedence(self._checkEquationTypePrecedence(self.equation_type, other_obj.equation_type), {'is_linear':False, 'is_nonlinear':True, 'is_differential':False})
 
             return(enode_)
 
-- 
2.43.0


From d6b4e0a43baf6bb197dac8f802f6643d7194bfbf Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:54 +0000
Subject: [PATCH 04/76] fix: Min/Max raised for any set of EquationNode objects
 and were classified as linear

---
 src/sloth/core/equation_operators.py | 61 ++++++++++++++++++----------
 1 file changed, 39 insertions(+), 22 deletions(-)

diff --git a/src/sloth/core/equation_operators.py b/src/sloth/core/equation_operators.py
index 582e8c3..e858bdc 100644
--- a/src/sloth/core/equation_operators.py
+++ b/src/sloth/core/equation_operators.py
@@ -6,6 +6,7 @@ import sympy as sp
 import numpy as np
 from .expression_evaluation import EquationNode
 from .template_units import dimless
+from .error_definitions import UnexpectedValueError
 # import error_definitions as errors
 
 
@@ -182,23 +183,19 @@ def Min(*obj):
 
         obj_dims = dimless
 
-    elif all(isinstance(obj_i, EquationNode) for obj_i in obj):
+    else:
 
-        if all(the_unit == obj[0].unit_object for the_unit in obj):
+        # As in the summation, the numbers take the dimensions of the EquationNode objects
 
-            obj_dims = obj[0].unit_object
+        obj_units = [obj_i.unit_object for obj_i in obj if isinstance(obj_i, EquationNode)]
 
-        else:
+        if obj_units != [] and all(obj_units[0]._check_dimensional_coherence(unit_i) for unit_i in obj_units):
 
-            raise UnexpectedValueError("A set of objects with equivalent dimensions")
+            obj_dims = obj_units[0]
 
-    else:
-
-        obj_dims = [obj_i.unit_object for obj_i in obj if hasattr(obj_i,'unit_object')][0]
-
-        if obj_dims is []:
+        else:
 
-            obj_dims = dimless
+            raise UnexpectedValueError("A set of objects with equivalent dimensions")
 
     enode_ = EquationNode(name=f_name,
                           symbolic_object=sp.Min(*obj_symb_objcts, evaluate=False),
@@ -209,6 +206,18 @@ def Min(*obj):
                           repr_symbolic=sp.Min(*obj_symb_objcts, evaluate=False)
                         )
 
+    if obj_var_map != {}:
+
+        # Never linear in the unspecified objects
+
+        enode_.equation_type = {'is_linear':False, 'is_nonlinear':True, 'is_differential':False}
+
+        for obj_i in obj:
+
+            if isinstance(obj_i, EquationNode):
+
+                enode_.equation_type = enode_._checkEquationTypePrecedence(enode_.equation_type, obj_i.equation_type)
+
     return enode_
 
 def Max(*obj):
@@ -280,23 +289,19 @@ def Max(*obj):
 
         obj_dims = dimless
 
-    elif all(isinstance(obj_i, EquationNode) for obj_i in obj):
+    else:
 
-        if all(the_unit == obj[0].unit_object for the_unit in obj):
+        # As in the summation, the numbers take the dimensions of the EquationNode objects
 
-            obj_dims = obj[0].unit_object
+        obj_units = [obj_i.unit_object for obj_i in obj if isinstance(obj_i, EquationNode)]
 
-        else:
+        if obj_units != [] and all(obj_units[0]._check_dimensional_coherence(unit_i) for unit_i in obj_units):
 
-            raise UnexpectedValueError("A set of objects with equivalent dimensions")
+            obj_dims = obj_units[0]
 
-    else:
-
-        obj_dims = [obj_i.unit_object for obj_i in obj if hasattr(obj_i,'unit_object')][0]
-
-        if obj_dims is []:
+        else:
 
-            obj_dims = dimless
+            raise UnexpectedValueError("A set of objects with equivalent dimensions")
 
     enode_ = EquationNode(name=f_name,
                           symbolic_object=sp.Max(*obj_symb_objcts, evaluate=False),
@@ -307,6 +312,18 @@ def Max(*obj):
                           repr_symbolic=sp.Max(*obj_symb_objcts, evaluate=False)
                         )
 
+    if obj_var_map != {}:
+
+        # Never linear in the unspecified objects
+
+        enode_.equation_type = {'is_linear':False, 'is_nonlinear':True, 'is_differential':False}
+
+        for obj_i in obj:
+
+            if isinstance(obj_i, EquationNode):
+
+                enode_.equation_type = enode_._checkEquationTypePrecedence(enode_.equation_type, obj_i.equation_type)
+
     return enode_
 
 def _Diff(obj, ind_var_):
-- 
2.43.0


From 5b5b5709cef8312031104eb6529d58b2b1972cda Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:54 +0000
Subject: [PATCH 05/76] fix: transcendental functions of a plain number raised
 NameError

---
 src/sloth/core/equation_operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/core/equation_operators.py b/src/sloth/core/equation_operators.py
index e858bdc..8ac3bca 100644
--- a/src/sloth/core/equation_operators.py
+++ b/src/sloth/core/equation_operators.py
@@ -47,7 +47,7 @@ def wrapper(own_func, obj, base_func, latex_func_name=None, equation_type=None,
                                   variable_map={},
                                   unit_object=dimless,
                                   latex_text=f_name(latex_func_name, str(obj)),
-                                  repr_symbolic=base_func(obj, *args,evaluate=False)
+                                  repr_symbolic=base_func(obj, evaluate=False)
                                 )
 
             return enode_
-- 
2.43.0


From 16c7ac5dcfb573b2a6f421525c9ad8b2752bd186 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:54 +0000
Subject: [PATCH 06/76] fix: Log10 could not be compiled to a numerical
 function

---
 src/sloth/core/equation_operators.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sloth/core/equation_operators.py b/src/sloth/core/equation_operators.py
index 8ac3bca..2a7bee8 100644
--- a/src/sloth/core/equation_operators.py
+++ b/src/sloth/core/equation_operators.py
@@ -16,7 +16,9 @@ Transcedental functions for utilization in the equation definition
 
 def _Log10(sp_obj, evaluate=True):
 
-    return(sp.log(sp_obj,10,evaluate=evaluate))
+    # Unevaluated log(x, 10) has no counterpart in the numerical libraries, for which the second argument is not the base
+
+    return(sp.log(sp_obj,evaluate=evaluate)/sp.log(10))
 
 def wrapper(own_func, obj, base_func, latex_func_name=None, equation_type=None, dim_check=True, ind_var=None):
 
-- 
2.43.0


From 5aa32df55de89110ba338dc02d9579739aec92c1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:54 +0000
Subject: [PATCH 07/76] fix: transcendental functions dropped the differential
 classification of their argument

---
 src/sloth/core/equation_operators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/core/equation_operators.py b/src/sloth/core/equation_operators.py
index 2a7bee8..7d22260 100644
--- a/src/sloth/core/equation_operators.py
+++ b/src/sloth/core/equation_operators.py
@@ -69,7 +69,7 @@ def wrapper(own_func, obj, base_func, latex_func_name=None, equation_type=None,
                                 repr_symbolic=base_func(obj.repr_symbolic, evaluate=False)
                                 )
 
-                enode_.equation_type = equation_type_
+                enode_.equation_type = enode_._checkEquationTypePrecedence(equation_type_, obj.equation_type)
 
                 return enode_
 
-- 
2.43.0


From 64826fc96a828e182a35710c4a800f52e655419f Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:13 +0000
Subject: [PATCH 08/76] fix: representation of Min/Max lost the names of the
 specified objects

---
 src/sloth/core/equation_operators.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sloth/core/equation_operators.py b/src/sloth/core/equation_operators.py
index 7d22260..5c598f7 100644
--- a/src/sloth/core/equation_operators.py
+++ b/src/sloth/core/equation_operators.py
@@ -205,7 +205,7 @@ def Min(*obj):
                           variable_map=obj_var_map,
                           unit_object=obj_dims,
                           latex_text=latex_func_name,
-                          repr_symbolic=sp.Min(*obj_symb_objcts, evaluate=False)
+                          repr_symbolic=sp.Min(*[obj_i.repr_symbolic if isinstance(obj_i, EquationNode) else obj_i for obj_i in obj], evaluate=False)
                         )
 
     if obj_var_map != {}:
@@ -311,7 +311,7 @@ def Max(*obj):
                           variable_map=obj_var_map,
                           unit_object=obj_dims,
                           latex_text=latex_func_name,
-                          repr_symbolic=sp.Max(*obj_symb_objcts, evaluate=False)
+                          repr_symbolic=sp.Max(*[obj_i.repr_symbolic if isinstance(obj_i, EquationNode) else obj_i for obj_i in obj], evaluate=False)
                         )
 
     if obj_var_map != {}:
-- 
2.43.0


From 6e0e57a420072fc6fa1573d1063638f5fccd0ec8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:13 +0000
Subject: [PATCH 09/76] fix: power by a specified object kept the dimension of
 the base

---
 src/sloth/core/expression_evaluation.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/sloth/core/expression_evaluation.py b/src/sloth/core/expression_evaluation.py
index 711cc94..da80867 100644
--- a/src/sloth/core/expression_evaluation.py
+++ b/src/sloth/core/expression_evaluation.py
@@ -541,12 +541,22 @@ class EquationNode:
 
                 #other_obj is dimensionless
 
+                if other_obj.variable_map == {}:
+
+                    #The exponent is specified. Its value determines the resultant dimension
+
+                    unit_object_ = self.unit_object**float(other_obj.symbolic_object)
+
+                else:
+
+                    unit_object_ = self.unit_object**other_obj.unit_object
+
                 enode_ = self.__class__(
                                     name="**".join([self.name, other_obj.name]),
                                     symbolic_object=self.symbolic_object**other_obj.symbolic_object,
                                     symbolic_map={**self.symbolic_map, **other_obj.symbolic_map},
                                     variable_map={**self.variable_map, **other_obj.variable_map},
-                                    unit_object=self.unit_object**other_obj.unit_object,
+                                    unit_object=unit_object_,
                                     latex_text=self.latex_text+"^"+other_obj.latex_text,             
                                     repr_symbolic=self.repr_symbolic**other_obj.repr_symbolic   
                                     )
-- 
2.43.0


From b463a12552a8b9da3e9b399320394a5efd21be7a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:13 +0000
Subject: [PATCH 10/76] fix: Equation.eval with the current values of the
 objects raised SympifyError

---
 src/sloth/core/equation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/core/equation.py b/src/sloth/core/equation.py
index 698ed93..8c60590 100644
--- a/src/sloth/core/equation.py
+++ b/src/sloth/core/equation.py
@@ -427,7 +427,7 @@ class Equation:
 
         if symbolic_map == None:
 
-            symbolic_map_ = self.equation_expression.symbolic_map
+            symbolic_map_ = {name_i: obj_i.value for name_i, obj_i in self.equation_expression.symbolic_map.items()}
 
         else:
 
-- 
2.43.0


From 48c06f8c915565828ce6bd515c8592096cf87c1e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:13 +0000
Subject: [PATCH 11/76] fix: default compilation mechanism of equations does
 not exist (documented default is numpy)

---
 src/sloth/core/equation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/core/equation.py b/src/sloth/core/equation.py
index 8c60590..7cde377 100644
--- a/src/sloth/core/equation.py
+++ b/src/sloth/core/equation.py
@@ -226,7 +226,7 @@ class Equation:
 
             self.equation_form = "residual"
 
-    def _convertToFunction(self, symbolic_map=None, side=None, compilation_mechanism='llvm'):
+    def _convertToFunction(self, symbolic_map=None, side=None, compilation_mechanism='numpy'):
 
         """
         Convert the current equation expression into a function.
-- 
2.43.0


From 89618bba8f45060e2479cc2d9f0cfd153f8ebede Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:40 +0000
Subject: [PATCH 12/76] fix: equations with a numerical side could not be
 incorporated from another model

---
 src/sloth/core/equation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sloth/core/equation.py b/src/sloth/core/equation.py
index 7cde377..7f161d5 100644
--- a/src/sloth/core/equation.py
+++ b/src/sloth/core/equation.py
@@ -294,15 +294,15 @@ class Equation:
 
         self.equation_expression.repr_symbolic = self.equation_expression.repr_symbolic.subs(names_map)
 
-        self.equation_expression.symbolic_object = self.equation_expression.symbolic_object.subs(names_map)
+        self.equation_expression.symbolic_object = sp.sympify(self.equation_expression.symbolic_object).subs(names_map)
 
         if self.elementary_equation_expression is not None:
 
             elem_expr = list(self.elementary_equation_expression)
 
-            elem_expr[0].repr_symbolic = elem_expr[0].repr_symbolic.subs(names_map)
+            elem_expr[0].repr_symbolic = sp.sympify(elem_expr[0].repr_symbolic).subs(names_map)
 
-            elem_expr[1].repr_symbolic = elem_expr[1].repr_symbolic.subs(names_map)
+            elem_expr[1].repr_symbolic = sp.sympify(elem_expr[1].repr_symbolic).subs(names_map)
 
             try:
 
-- 
2.43.0


From 499e8ee35585a16361e8b46e7e194daefec0dd49 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:40 +0000
Subject: [PATCH 13/76] fix: incorporation of a model with exposed variables
 raised KeyError

---
 src/sloth/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/model.py b/src/sloth/model.py
index 5f8b047..c5ee15e 100644
--- a/src/sloth/model.py
+++ b/src/sloth/model.py
@@ -424,7 +424,7 @@ class Model:
 
         if var_.is_exposed == True:
 
-            self.exposed_vars[type].append(var_)
+            self.exposed_vars[var_.type].append(var_)
 
         #Adding the object to current Model as an atribute (pythonic beauty)
 
-- 
2.43.0


From be05793e35ef425177e3611cfe632449a6f174fc Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:40 +0000
Subject: [PATCH 14/76] fix: the ports of all models shared one default
 dictionary

---
 src/sloth/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sloth/model.py b/src/sloth/model.py
index c5ee15e..9193e70 100644
--- a/src/sloth/model.py
+++ b/src/sloth/model.py
@@ -132,7 +132,7 @@ class Model:
 
     """
 
-    def __init__(self, name, description = "", property_package=None, ports={'inlets':{},'outlets':{}}, function_for_inlets_totalization = None, function_for_outlets_totalization = None):
+    def __init__(self, name, description = "", property_package=None, ports=None, function_for_inlets_totalization = None, function_for_outlets_totalization = None):
 
         """
         Instantiate Model.
@@ -194,7 +194,7 @@ class Model:
 
         self._outputs = []
 
-        self.ports = ports
+        self.ports = ports if ports is not None else {'inlets':{},'outlets':{}}
 
         self.objects_info = {}
 
-- 
2.43.0


From 0c39027280a8fd5acbf27bb67069a194248c2963 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:40 +0000
Subject: [PATCH 15/76] fix: connection of non-exposed lists of variables
 raised AttributeError instead of ExposedVariableError

---
 src/sloth/core/error_definitions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sloth/core/error_definitions.py b/src/sloth/core/error_definitions.py
index e11dc20..5ac0163 100644
--- a/src/sloth/core/error_definitions.py
+++ b/src/sloth/core/error_definitions.py
@@ -14,9 +14,9 @@ class ExposedVariableError(Exception):
 
         self.m2_exposed_names = [var_i.name for var_i in model_2_exposed_vars]
 
-        self.input_var_name = input_var.name
+        self.input_var_name = [var_i.name for var_i in input_var] if isinstance(input_var, list) else input_var.name
 
-        self.output_var_name = output_var.name
+        self.output_var_name = [var_i.name for var_i in output_var] if isinstance(output_var, list) else output_var.name
 
     def __str__(self):
 
-- 
2.43.0


From b4fc65ac7429ad2ed80ab42e0e8c73f15b077f9a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:40 +0000
Subject: [PATCH 16/76] fix: message of DimensionalCoherenceError could not be
 built for a missing unit

---
 src/sloth/core/error_definitions.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sloth/core/error_definitions.py b/src/sloth/core/error_definitions.py
index 5ac0163..34f965a 100644
--- a/src/sloth/core/error_definitions.py
+++ b/src/sloth/core/error_definitions.py
@@ -159,9 +159,9 @@ class DimensionalCoherenceError(Exception):
     def __str__(self):
 
         msg = "Dimensions are incoherent \n(" + \
-               str(self.unit_1.dimension)   + \
+               str(getattr(self.unit_1, 'dimension', self.unit_1))   + \
                "\n != \n"                       + \
-               str(self.unit_2.dimension)   + \
+               str(getattr(self.unit_2, 'dimension', self.unit_2))   + \
                ")."
 
         return(msg)
-- 
2.43.0


From 7820ffa01fd022ff5fdcc319cda3e9a19a79f844 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:40 +0000
Subject: [PATCH 17/76] fix: registering values in a non-empty domain raised an
 error

---
 src/sloth/core/domain.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/core/domain.py b/src/sloth/core/domain.py
index a686c57..6cb0c57 100644
--- a/src/sloth/core/domain.py
+++ b/src/sloth/core/domain.py
@@ -177,7 +177,7 @@ class Domain:
 
         elif self.values[var.name].values.size > 0 and values.shape[1] == len(self.independent_vars.keys())+len(self.dependent_objs.keys()):
 
-            self.values[var.name] = pd.DataFrame(np.vstack((self.values[var.name].values, values)),columns=self.values[var.name].index)
+            self.values[var.name] = pd.DataFrame(np.vstack((self.values[var.name].values, values)),columns=self.values[var.name].columns)
 
         else:
 
-- 
2.43.0


From 69b42f4676ef4c8d6be4bca52ea0327eec5019e5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:19 +0000
Subject: [PATCH 18/76] fix: a second connection between the same models
 replaced the first one

---
 src/sloth/problem.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/src/sloth/problem.py b/src/sloth/problem.py
index e5b231f..2b81803 100644
--- a/src/sloth/problem.py
+++ b/src/sloth/problem.py
@@ -275,17 +275,35 @@ class Problem:
                 if model_1 is "":
                     model_1 = gen_rnd_str()
 
-                model_2.createEquation("conn_"+model_1+"-->"+model_2.name, "Connection from "+model_1+" to "+model_2.name, input_vars - output_vars, check_equation=False)
+                model_2.createEquation(self._getUniqueConnectionName(model_1, model_2, input_vars - output_vars), "Connection from "+model_1+" to "+model_2.name, input_vars - output_vars, check_equation=False)
 
             elif isinstance(model_1, Model) is True:
 
-                model_2.createEquation("conn_"+model_1.name+"-->"+model_2.name, "Connection from "+model_1.name+" to "+model_2.name, input_vars - output_vars, check_equation=False)
+                model_2.createEquation(self._getUniqueConnectionName(model_1.name, model_2, input_vars - output_vars), "Connection from "+model_1.name+" to "+model_2.name, input_vars - output_vars, check_equation=False)
 
             else:
 
                 raise AbsentRequiredObjectError("[Model, str]")
 
 
+    def _getUniqueConnectionName(self, source_name, model, expr):
+
+        """
+        Return the name for a connection equation in a model, which does not replace a different connection from the same source.
+        """
+
+        name = base_name = "conn_"+source_name+"-->"+model.name
+
+        n = 1
+
+        while name+"_"+model.name in model.equations and repr(model.equations[name+"_"+model.name].equation_expression) != repr(expr):
+
+            n += 1
+
+            name = base_name+"_"+str(n)
+
+        return name
+
     def _createDirectConnection(self, out_model, out_vars, in_model, in_vars, expr, description):
 
         """
-- 
2.43.0


From 6f1eccbed94f148f66d932c401cf5f9b7943a8b8 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:30 +0000
Subject: [PATCH 19/76] fix: detection of the time variable matched substrings
 of names and missed bare symbols

---
 src/sloth/core/equation_block.py | 22 ++++------------------
 1 file changed, 4 insertions(+), 18 deletions(-)

diff --git a/src/sloth/core/equation_block.py b/src/sloth/core/equation_block.py
index a613930..a9dc7c0 100644
--- a/src/sloth/core/equation_block.py
+++ b/src/sloth/core/equation_block.py
@@ -272,27 +272,13 @@ class EquationBlock:
 
             #print("\n======>Equation: ", eq._getSymbolicObject())
 
-            try:
+            equation_ = sp.sympify(eq._getSymbolicObject())
 
-                equation_members_ = eq._getSymbolicObject().args
+            #Will not trigger for 'Derivative' terms
 
-            except:
+            equation_ = equation_.xreplace({diff_i: sp.Dummy() for diff_i in equation_.atoms(sp.Derivative)})
 
-                equation_members_ = []
-
-            for eq_i in equation_members_:
-
-                #print("\n\t======>Member: ",eq_i)
-
-                #print("\n\t\t======>Has time_var_declared? : ", [ t_i in sp.srepr(eq_i) for t_i in var_name])
-
-                #Will not trigger for 'Derivative' terms
-
-                if any(var_i in sp.srepr(eq_i) and 'Derivative' not in sp.srepr(eq_i) for var_i in var_name):
-
-                    has_been_declared = True
-
-                    break
+            has_been_declared = any(str(symbol_i) in var_name for symbol_i in equation_.free_symbols)
 
             if has_been_declared is True:
 
-- 
2.43.0


From d952c8aa3312036ab3a2aac78898187d8f656c6c Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:03 +0000
Subject: [PATCH 20/76] fix: systems of equations could not be compiled with
 current sympy (list instead of object array)

---
 src/sloth/core/equation_block.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sloth/core/equation_block.py b/src/sloth/core/equation_block.py
index a9dc7c0..3c0139b 100644
--- a/src/sloth/core/equation_block.py
+++ b/src/sloth/core/equation_block.py
@@ -175,7 +175,7 @@ class EquationBlock:
             if differential_form == 'elementary':
 
                 fun_ = sp.lambdify(self._var_list,
-                                   np_array(self._getEquationList(differential_form,side)),
+                                   self._getEquationList(differential_form,side),
                                    [{'Min':min, 'Max':max, 'Sin':np.sin, 'Cos':np.cos}, compilation_mechanism]
                             )
 
@@ -195,7 +195,7 @@ class EquationBlock:
                 rewritten_eqs = [eq_i.subs(yd_map) for eq_i in original_eqs]
 
                 _fun_ = sp.lambdify(["t","y","yd"],
-                                   np_array(rewritten_eqs),
+                                   rewritten_eqs,
                                    [{'Min':min, 'Max':max, 'Sin':math.sin, 'Cos':math.cos}, compilation_mechanism]
                             )
 
@@ -208,7 +208,7 @@ class EquationBlock:
         else:
 
             fun_ = sp.lambdify(self._var_list,
-                               np_array(self._equations_list),
+                               self._equations_list,
                                [{'Min': min, 'Max': max, 'Sin': np.sin, 'Cos': np.cos}, compilation_mechanism]
                                )
 
-- 
2.43.0


From 4aa754d1f2fa028b8222401f730f1f02a356ec2e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:03 +0000
Subject: [PATCH 21/76] fix: compiled differential equations with Min or Max
 raised an error at the first evaluation

---
 src/sloth/core/equation_block.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sloth/core/equation_block.py b/src/sloth/core/equation_block.py
index 3c0139b..a6f71f9 100644
--- a/src/sloth/core/equation_block.py
+++ b/src/sloth/core/equation_block.py
@@ -179,6 +179,12 @@ class EquationBlock:
                                    [{'Min':min, 'Max':max, 'Sin':np.sin, 'Cos':np.cos}, compilation_mechanism]
                             )
 
+                if any(sp.sympify(eq_i).has(sp.Min, sp.Max) for eq_i in self._getEquationList(differential_form,side)):
+
+                    # The code generated for Min and Max is not supported by numba
+
+                    return fun_
+
                 return jit(fun_)
 
 
-- 
2.43.0


From 9c9a5d6413cb54a32bcccba9bd651528f311b8ac Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:03 +0000
Subject: [PATCH 22/76] fix: dynamic solvers raised AttributeError when no
 number of time steps was given

---
 src/sloth/solvers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index f06de13..b302844 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -715,7 +715,7 @@ class DSolver(Solver):
 
         Y_0 = [initial_conditions[var_i] for var_i in Y_names]
 
-        if number_of_time_steps == None and self.end_time!= None:
+        if number_of_time_steps == None and end_time!= None:
 
             number_of_time_steps = 100#int(1000*(end_time - initial_time))
 
@@ -908,7 +908,7 @@ class DaeSolver(Solver):
 
         initial_conditions = self.problem.initial_conditions
 
-        if number_of_time_steps == None and self.end_time!= None:
+        if number_of_time_steps == None and end_time!= None:
 
             number_of_time_steps = int(2*(end_time - initial_time))
 
-- 
2.43.0


From 07638a01678782f5d24c4fef01f91c3802aad98e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:03 +0000
Subject: [PATCH 23/76] fix: setting up a DAE solver inserted a list among the
 linear equations of the problem

---
 src/sloth/solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index b302844..a1e9986 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -892,7 +892,7 @@ class DaeSolver(Solver):
 
         nlin_eqs = self.problem.equation_block._equation_groups['nonlinear']
 
-        return diff_eqs, lin_eqs.append(nlin_eqs)
+        return diff_eqs, lin_eqs + nlin_eqs
 
     def solve(self, conf_args={}):
 
-- 
2.43.0


From 69b5ab2e7bd84e1074fd1e2f794dfa9c206b8d79 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:41 +0000
Subject: [PATCH 24/76] fix: results of dynamic simulations were registered
 under the wrong variables when the order of equations and domain differ

---
 src/sloth/solvers.py | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index a1e9986..6ada406 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -114,6 +114,30 @@ class Solver:
 
         pass
 
+    def _orderResultsAsDomain(self, results, names):
+
+        """
+        Order the columns of the results (time, followed by the variables in the order of the equation system) as those of the domain.
+
+        :param numpy.array results:
+            Results of the dynamic simulation
+
+        :param list(str) names:
+            Names of the variables in the order of the equation system
+
+        :return:
+            Results in the order of the domain
+        :rtype numpy.array:
+        """
+
+        names_in_domain = list(self.domain.dependent_objs.keys())
+
+        if sorted(names) != sorted(names_in_domain):
+
+            return results
+
+        return results[:, [0]+[1+names.index(name_i) for name_i in names_in_domain]]
+
     def _polishRoot(self, initial_guess, polisher='hybr'):
 
         fun = self.problem.equation_block._getEquationBlockAsFunction()
@@ -789,7 +813,7 @@ class DSolver(Solver):
 
         #print("\n\n\n--->TO_REGISTER_ = ",to_register_, "\n\n ---> SOLVER = ",self.solver)
 
-        self.domain._register(to_register_)
+        self.domain._register(self._orderResultsAsDomain(to_register_, Y_names))
 
         # ============ Rename domain columns =============
 
@@ -975,7 +999,7 @@ class DaeSolver(Solver):
 
             print(tab)
 
-        self.domain._register(to_register_)
+        self.domain._register(self._orderResultsAsDomain(to_register_, list(ymap.keys())))
 
         # ============ Rename domain columns =============
 
-- 
2.43.0


From ae2c5e5e2a493757ee77d122911d7859c55bc04d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:07 +0000
Subject: [PATCH 25/76] fix: residual form of differential-algebraic systems
 took derivatives for the wrong variables

---
 src/sloth/core/equation_block.py | 10 ++++++----
 src/sloth/solvers.py             |  8 ++++----
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/src/sloth/core/equation_block.py b/src/sloth/core/equation_block.py
index a6f71f9..04b9a51 100644
--- a/src/sloth/core/equation_block.py
+++ b/src/sloth/core/equation_block.py
@@ -96,11 +96,13 @@ class EquationBlock:
 
         diff_list = self._getDiffList()
 
-        yd_list = ["yd[{}]".format(i) for (i,_) in enumerate(diff_list)]
-
         var_list = self._var_list
 
-        y_list = ["y[{}]".format(i) for (i,_) in enumerate(var_list)]
+        # Each derivative takes the index of its variable
+
+        yd_list = [sp.Symbol("yd[{}]".format(var_list.index(str(diff_i.args[0])))) for diff_i in diff_list]
+
+        y_list = [sp.Symbol("y[{}]".format(i)) for (i,_) in enumerate(var_list)]
 
         yd_map = {k:v for (k,v) in zip(diff_list,yd_list)}
 
@@ -124,7 +126,7 @@ class EquationBlock:
 
             eq = eqi._getSymbolicObject('residual','rhs')
 
-            _ = [diff_list.append(abs(i).args[0]) for i in eq.args if 'Derivative' in sp.srepr(i)]
+            _ = [diff_list.append(i) for i in sorted(eq.atoms(sp.Derivative), key=str) if i not in diff_list]
 
         return diff_list
 
diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index 6ada406..928083b 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -944,11 +944,11 @@ class DaeSolver(Solver):
 
         #Adopted nomenclature for search for initial conditions defined in the Problem object for differential expressions is original_name+'_d' (eg: u_d)
 
-        yd_0 = [initial_conditions[str(diff_i.args[0])+'_d'] for diff_i in ydmap.keys()]
+        differential_names = [str(diff_i.args[0]) for diff_i in ydmap.keys()]
 
-        if self.solver == None or self.solver == 'IDA':
+        yd_0 = [initial_conditions[var_i+'_d'] if var_i in differential_names else 0. for var_i in ymap.keys()]
 
-            yd_0.append(0.)
+        if self.solver == None or self.solver == 'IDA':
 
             # ========= SET SOLVER INSTANCES ==============
 
@@ -959,7 +959,7 @@ class DaeSolver(Solver):
                                                 name='IDA'
                                         )
 
-            problem_instance.algvar = self.problem.equation_block._getBooleanDiffFlagsForEquations()
+            problem_instance.algvar = [float(var_i in differential_names) for var_i in ymap.keys()]
 
             solver_instance = IDA(problem_instance)
 
-- 
2.43.0


From 1b279742bed9863629037cc905b816e13abf6da5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:58 +0000
Subject: [PATCH 26/76] fix: OptimizationProblem ignored the bounds and
 is_maximization arguments

---
 src/sloth/optimization.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sloth/optimization.py b/src/sloth/optimization.py
index e5dd0d0..380f45e 100644
--- a/src/sloth/optimization.py
+++ b/src/sloth/optimization.py
@@ -49,9 +49,9 @@ class OptimizationProblem:
 
         self.description = description
 
-        self.is_maximization = False
+        self.is_maximization = is_maximization
 
-        self.bounds = None
+        self.bounds = bounds
 
         self.simulation_instance = simulation_instance
 
-- 
2.43.0


From ca9a904685c345d76799dec76ef237a70a352ac2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:58 +0000
Subject: [PATCH 27/76] fix: merging property packages changed the list of
 phases of unrelated packages

---
 src/sloth/core/property_package.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/core/property_package.py b/src/sloth/core/property_package.py
index 6445d64..aca5740 100644
--- a/src/sloth/core/property_package.py
+++ b/src/sloth/core/property_package.py
@@ -21,7 +21,7 @@ class PropertyPackage:
 
         self.number_of_phases = phases
 
-        self.phase_names = phase_names
+        self.phase_names = list(phase_names)
 
         self.T = 298.15
 
-- 
2.43.0


From 32c6e3dc31592a33b42d8bd54573b33438794e68 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:58 +0000
Subject: [PATCH 28/76] fix: UnitOperationError had no message

---
 src/sloth/core/error_definitions.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sloth/core/error_definitions.py b/src/sloth/core/error_definitions.py
index 34f965a..79fbd8a 100644
--- a/src/sloth/core/error_definitions.py
+++ b/src/sloth/core/error_definitions.py
@@ -184,6 +184,8 @@ class UnitOperationError(Exception):
 
         msg = "UnitOp object was defined for port {} with lenght {}, but a element of size {} was supplied.".format(self.port, self.n, len(self.elem))
 
+        return(msg)
+
 def _addUnitContainingOperations(a,b):
 
     return(a._checkDimensionalCoherence(b))
-- 
2.43.0


From 28db7f78eaa6f63ad7f78e7444adf62514bc6725 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:58 +0000
Subject: [PATCH 29/76] fix: dynamic solvers appended their time variable to
 the argument names shared by all simulations

---
 src/sloth/solvers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index 928083b..e73de0c 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -402,7 +402,7 @@ class DSolver(Solver):
 
         time_variable_name = additional_configurations['time_variable_name']
 
-        arg_names = additional_configurations['arg_names']
+        arg_names = list(additional_configurations['arg_names'])
 
         if isinstance(time_variable_name, list):
 
@@ -842,7 +842,7 @@ class DaeSolver(Solver):
 
         time_variable_name = additional_configurations['time_variable_name']
 
-        arg_names = additional_configurations['arg_names']
+        arg_names = list(additional_configurations['arg_names'])
 
         if time_variable_name not in problem.initial_conditions:
 
-- 
2.43.0


From befa6d8fed34cd384411da4b608afb21eabf81f7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:21 +0000
Subject: [PATCH 30/76] fix: inlets set in more than one call were listed
 repeatedly

---
 src/sloth/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sloth/model.py b/src/sloth/model.py
index 9193e70..8a96ad2 100644
--- a/src/sloth/model.py
+++ b/src/sloth/model.py
@@ -585,6 +585,8 @@ class Model:
 
         self.ports['inlets'].update({inlet_name: _inlets})
 
+        self._inlets = []
+
         _ = [self._inlets.extend(self.ports['inlets'][in_]) for in_ in list(self.ports['inlets'].keys())]
 
     def _setOutlets(self, outlets):
-- 
2.43.0


From 2ffa44106b0ce8dc23079087d18f0eea639dd85a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:34 +0000
Subject: [PATCH 31/76] fix: unnamed equations were repeated each time the
 model was resolved

---
 src/sloth/model.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/sloth/model.py b/src/sloth/model.py
index 8a96ad2..3a7e2e6 100644
--- a/src/sloth/model.py
+++ b/src/sloth/model.py
@@ -202,6 +202,10 @@ class Model:
 
         self.ignore_variable_warning = False
 
+        self._unnamed_equations = []
+
+        self._is_declaring_equations = False
+
         if function_for_inlets_totalization is None:
 
             function_for_inlets_totalization = _totalizeInletsFunction_genericMaterialStreams
@@ -559,8 +563,18 @@ class Model:
 
             self.totalizeInletsFunction(main_model=self)
 
+        # The unnamed equations receive a new name in each declaration, thus would be repeated
+
+        _ = [self.equations.pop(eq_name_i, None) for eq_name_i in self._unnamed_equations]
+
+        self._unnamed_equations = []
+
+        self._is_declaring_equations = True
+
         self.DeclareEquations()
 
+        self._is_declaring_equations = False
+
         if len(self.variables) == 0 and self.ignore_variable_warning is False:
 
             print("Warning: No variables were declared.")
@@ -847,6 +861,10 @@ class Model:
 
         eq._sweepObjects()
 
+        if name == "" and self._is_declaring_equations is True:
+
+            self._unnamed_equations.append(eq.name)
+
         #Check if all objects used in the current equation were declared
 
         if check_equation is True:
-- 
2.43.0


From 043113a20f75bdb1f13de335894270f7caaaaff2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:17 +0000
Subject: [PATCH 32/76] fix: power dropped the differential classification of
 its exponent

---
 src/sloth/core/expression_evaluation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/core/expression_evaluation.py b/src/sloth/core/expression_evaluation.py
index da80867..47f96a7 100644
--- a/src/sloth/core/expression_evaluation.py
+++ b/src/sloth/core/expression_evaluation.py
@@ -561,7 +561,7 @@ class EquationNode:
                                     repr_symbolic=self.repr_symbolic**other_obj.repr_symbolic   
                                     )
 
-                enode_.equation_type = self._checkEquationTypePrecedence(self.equation_type, {'is_linear':False, 'is_nonlinear':True, 'is_differential':False})
+                enode_.equation_type = self._checkEquationTypePrecedence(self._checkEquationTypePrecedence(self.equation_type, other_obj.equation_type), {'is_linear':False, 'is_nonlinear':True, 'is_differential':False})
 
                 return(enode_)
 
-- 
2.43.0


From 44c480bf262bfa44c0fa86f1409be7fa621f0261 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:08 +0000
Subject: [PATCH 33/76] fix: objects declared in an equation were discarded
 when its expression was set

---
 src/sloth/core/equation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sloth/core/equation.py b/src/sloth/core/equation.py
index 7f161d5..8d949e2 100644
--- a/src/sloth/core/equation.py
+++ b/src/sloth/core/equation.py
@@ -375,7 +375,7 @@ class Equation:
 
             self.equation_form = 'elementary'
 
-            self.objects_declared = self._sweepObjects()
+            self._sweepObjects()
 
             self._getTypeFromExpression()
 
@@ -385,7 +385,7 @@ class Equation:
 
             self.equation_expression = equation_expression
 
-            self.objects_declared = self._sweepObjects()
+            self._sweepObjects()
 
             self._getTypeFromExpression()
 
-- 
2.43.0


From 9167ba32a9e923fac2a097814836a6250d699abc Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:08 +0000
Subject: [PATCH 34/76] fix: equation redefined in the residual form kept the
 sides of its previous definition

---
 src/sloth/core/equation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sloth/core/equation.py b/src/sloth/core/equation.py
index 8d949e2..9675e9d 100644
--- a/src/sloth/core/equation.py
+++ b/src/sloth/core/equation.py
@@ -385,6 +385,10 @@ class Equation:
 
             self.equation_expression = equation_expression
 
+            self.elementary_equation_expression = None
+
+            self.equation_form = 'residual'
+
             self._sweepObjects()
 
             self._getTypeFromExpression()
-- 
2.43.0


From 00f44175eebbe80b9641582c6230400ff38282bc Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:54 +0000
Subject: [PATCH 35/76] fix: incorporated equations kept the unknown objects of
 the original model

---
 src/sloth/core/equation.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/src/sloth/core/equation.py b/src/sloth/core/equation.py
index 9675e9d..329b6de 100644
--- a/src/sloth/core/equation.py
+++ b/src/sloth/core/equation.py
@@ -292,6 +292,12 @@ class Equation:
                 equation_expression object.
         """
 
+        def _renewMap(old_map):
+
+            # The same objects (a derivative does not declare its independent variable), under their new names
+
+            return {names_map.get(k, k):whole_obj_map[names_map.get(k, k)] for k in old_map}
+
         self.equation_expression.repr_symbolic = self.equation_expression.repr_symbolic.subs(names_map)
 
         self.equation_expression.symbolic_object = sp.sympify(self.equation_expression.symbolic_object).subs(names_map)
@@ -320,21 +326,17 @@ class Equation:
 
                 pass #Element does not support symbolic substitution. It is a float.
 
-            symbols_used_0 = [str(i) for i in list(elem_expr[0].repr_symbolic.free_symbols)]
+            for expr_i in elem_expr:
 
-            symbols_used_1 = [str(i) for i in list(elem_expr[1].repr_symbolic.free_symbols)]
+                expr_i.symbolic_map = _renewMap(expr_i.symbolic_map)
 
-            elem_expr[0].symbolic_map = {k:whole_obj_map[k] for k in symbols_used_0}
-
-            elem_expr[1].symbolic_map = {k:whole_obj_map[k] for k in symbols_used_1}
+                expr_i.variable_map = _renewMap(expr_i.variable_map)
 
             self.elementary_equation_expression = tuple(elem_expr)
 
-        symbols_used_ = [str(i) for i in list(self.equation_expression.repr_symbolic.free_symbols)]
-
-        new_symbolic_map = {k:whole_obj_map[k] for k in symbols_used_}
+        self.equation_expression.symbolic_map = _renewMap(self.equation_expression.symbolic_map)
 
-        self.equation_expression.symbolic_map = new_symbolic_map
+        self.equation_expression.variable_map = _renewMap(self.equation_expression.variable_map)
 
         self._sweepObjects()
 
-- 
2.43.0


From 93c259deeb6e534c3bcd4a2edbbdaf91eec3f24a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:12 +0000
Subject: [PATCH 36/76] fix: objects declared after their model was added to a
 problem were left out of its system

---
 src/sloth/problem.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/sloth/problem.py b/src/sloth/problem.py
index 2b81803..33f057d 100644
--- a/src/sloth/problem.py
+++ b/src/sloth/problem.py
@@ -403,6 +403,14 @@ class Problem:
 
         self._reloadModels()
 
+        # Include the objects declared since the models were added
+
+        for model_i in self.models.values():
+
+            self.variable_dict.update(model_i.variables)
+
+            self.parameter_dict.update(model_i.parameters)
+
         self._buildEquationBlock()
 
         self.equation_block()
-- 
2.43.0


From 76488682e5021f3692e2464cdeaa72a55cea604e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:57 +0000
Subject: [PATCH 37/76] fix: connections recorded their input variables as
 output and vice versa

---
 src/sloth/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/model.py b/src/sloth/model.py
index 3a7e2e6..06b1db3 100644
--- a/src/sloth/model.py
+++ b/src/sloth/model.py
@@ -646,7 +646,7 @@ class Model:
 
             description = "["+out_vars_names+"--->"+in_vars_names+"]"
 
-            conn = connection.Connection(name, description, in_vars_names, out_vars_names, expr)
+            conn = connection.Connection(name, description, out_vars_names, in_vars_names, expr)
 
             conn.setResidual(expr) # I DON'T UNDERSTAND WHY THIS NEED TO BE HERE! x)
 
-- 
2.43.0


From 408bfd29836e8f32e642cf89e6898a2e2ea88cf7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:00 +0000
Subject: [PATCH 38/76] fix: several time variables counted as a single one in
 the degrees of freedom

---
 src/sloth/analysis.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/sloth/analysis.py b/src/sloth/analysis.py
index dbdd29b..35a840c 100644
--- a/src/sloth/analysis.py
+++ b/src/sloth/analysis.py
@@ -78,11 +78,19 @@ class DOF_Analysis:
 
         """
 
-        has_time_var_declared_in_diff_eq = self.problem.equation_block._hasVarBeenDeclared(self.problem.time_variable_name, "differential")
+        # Each of the time variables declared in the differential equations is determined by the integration
 
-        if has_time_var_declared_in_diff_eq is True:
+        time_variable_names = self.problem.time_variable_name
 
-            n_eqs += 1
+        if isinstance(time_variable_names, list) is not True:
+
+            time_variable_names = [time_variable_names]
+
+        for t_i in time_variable_names:
+
+            if self.problem.equation_block._hasVarBeenDeclared(t_i, "differential") is True:
+
+                n_eqs += 1
 
         n_dof = n_vars + n_unspec_params - n_eqs
 
-- 
2.43.0


From 89b9ea27a25c93dc51ee333bc37e825ae1e65614 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:08 +0000
Subject: [PATCH 39/76] fix: algebraic equations given by their two sides were
 solved for a null right-hand side

---
 src/sloth/core/equation_block.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/core/equation_block.py b/src/sloth/core/equation_block.py
index 04b9a51..71a972b 100644
--- a/src/sloth/core/equation_block.py
+++ b/src/sloth/core/equation_block.py
@@ -306,6 +306,6 @@ class EquationBlock:
 
         self._var_list = self._getVarList()
 
-        self._equations_list = self._getEquationList()
+        self._equations_list = self._getEquationList('residual')
 
         self._assignEquationGroups()
\ No newline at end of file
-- 
2.43.0


From 4878aa6dccd454468f7a4f0384959a38c5ff5e0a Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:08 +0000
Subject: [PATCH 40/76] fix: the scipy solver of linear problems raised
 TypeError for any problem

---
 src/sloth/solvers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index e73de0c..3ca61cd 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -217,7 +217,7 @@ class LASolver(Solver):
 
         A, b = self._getABfromEquations()
 
-        x_out = scp_solve(A,b)
+        x_out = scp_solve(A,b).ravel()
 
         x_dict = {str(var_i): val_i for var_i, val_i in zip(var_names, x_out)}
 
@@ -261,7 +261,7 @@ class LASolver(Solver):
 
     def _getABfromEquations(self):
 
-        A, b = sp.linear_eq_to_matrix(self.problem.equation_block._equations_list, self.problem.equation_block._var_list)
+        A, b = sp.linear_eq_to_matrix(self.problem.equation_block._equations_list, [sp.Symbol(var_i) for var_i in self.problem.equation_block._var_list])
 
         A, b = np.array(A, dtype=np.float64), np.array(b, dtype=np.float64)
 
-- 
2.43.0


From 3b3e64da1a60e260a733b8e79d46b11c1053b471 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:41 +0000
Subject: [PATCH 41/76] fix: symbolic solvers returned undetermined variables
 as results of singular systems

---
 src/sloth/solvers.py | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index 3ca61cd..e310021 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -138,6 +138,31 @@ class Solver:
 
         return results[:, [0]+[1+names.index(name_i) for name_i in names_in_domain]]
 
+    def _getDeterminedSolution(self, solutions):
+
+        """
+        Return the last of the solutions obtained symbolically, provided that it determines the value of each one of the variables.
+
+        :param list(dict) solutions:
+            Solutions obtained for the equation system
+
+        :return:
+            Values for the variables of the equation system
+        :rtype dict:
+        """
+
+        if solutions == []:
+
+            raise NumericalError()
+
+        solution = solutions[-1]
+
+        if len(solution) != len(self.problem.equation_block._var_list) or any(sp.sympify(x_i).free_symbols for x_i in solution.values()):
+
+            raise NumericalError()
+
+        return solution
+
     def _polishRoot(self, initial_guess, polisher='hybr'):
 
         fun = self.problem.equation_block._getEquationBlockAsFunction()
@@ -209,7 +234,7 @@ class LASolver(Solver):
 
         x_out = sp_solve(self.problem.equation_block._equations_list, var_names, dict=True)
 
-        return x_out[-1]
+        return self._getDeterminedSolution(x_out)
 
     def _scipySolveMechanism(self):
 
@@ -317,7 +342,7 @@ class NLASolver(Solver):
 
         x_out = sp.solve(equations_list, var_names, dict=True)
 
-        return x_out[-1]
+        return self._getDeterminedSolution(x_out)
 
     def _symbolicSysSolveMechanism(self):
 
-- 
2.43.0


From e5af3f7cfa81cf1d5aa9588f003eac6ac593df83 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:06 +0000
Subject: [PATCH 42/76] fix: points where the residuals are minimal but not
 null were returned as roots of nonlinear systems

---
 src/sloth/solvers.py | 32 +++++++++++++++++++++++++++++++-
 1 file changed, 31 insertions(+), 1 deletion(-)

diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index e310021..34ef69c 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -384,7 +384,7 @@ class NLASolver(Solver):
 
         #print(sol_state)
 
-        if sol_state['success'] is True:
+        if sol_state['success'] is True and self._isRoot(var_names, x_out):
 
             x_out_dict = {var_i: val_i for var_i, val_i in zip(var_names,x_out)}
 
@@ -396,6 +396,36 @@ class NLASolver(Solver):
 
             raise NumericalError()
 
+    def _isRoot(self, var_names, values):
+
+        """
+        Check if the values satisfy each one of the equations, as the least-squares method also succeeds in points where the residuals are minimal, but not null.
+
+        :param list(str) var_names:
+            Names of the variables
+
+        :param array-like values:
+            Values of the variables
+
+        :return:
+            Boolean indicating if the residuals of all the equations are negligible in relation to its terms
+        :rtype bool:
+        """
+
+        values_map = dict(zip(var_names, values))
+
+        for eq_i in self.problem.equation_block._equations_list:
+
+            terms = [abs(complex(term_i.subs(values_map))) for term_i in sp.Add.make_args(sp.sympify(eq_i))]
+
+            residual = abs(complex(sp.sympify(eq_i).subs(values_map)))
+
+            if not residual <= 1e-6*max([1.]+terms):
+
+                return False
+
+        return True
+
     def solve(self, verbose=True):
 
         if verbose is True:
-- 
2.43.0


From 01e8550714da3960eee3be861c0508470b0b1024 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:57 +0000
Subject: [PATCH 43/76] fix: singular linear systems were answered by the scipy
 solver with meaningless values

---
 src/sloth/solvers.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index 34ef69c..6356043 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -4,6 +4,7 @@
 Define solver mechanisms
 """
 
+import warnings
 from collections import OrderedDict
 
 import prettytable
@@ -18,7 +19,7 @@ from assimulo.problem import Implicit_Problem
 from assimulo.solvers import CVode
 from assimulo.solvers import IDA
 from pyneqsys.symbolic import SymbolicSys
-from scipy.linalg import solve as scp_solve
+from scipy.linalg import solve as scp_solve, LinAlgWarning
 
 from .core.equation_operators import *
 from .core.error_definitions import AbsentRequiredObjectError, UnexpectedValueError, NumericalError
@@ -242,7 +243,13 @@ class LASolver(Solver):
 
         A, b = self._getABfromEquations()
 
-        x_out = scp_solve(A,b).ravel()
+        with warnings.catch_warnings():
+
+            # Results for a (numerically) singular matrix are meaningless
+
+            warnings.simplefilter('error', LinAlgWarning)
+
+            x_out = scp_solve(A,b).ravel()
 
         x_dict = {str(var_i): val_i for var_i, val_i in zip(var_names, x_out)}
 
-- 
2.43.0


From dd1605009e281e8b8ed959339999414fff17acda Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:39:10 +0000
Subject: [PATCH 44/76] fix: the default solver of linear problems rejected the
 solutions it found

---
 src/sloth/solvers.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index 6356043..7b2d608 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -279,7 +279,17 @@ class LASolver(Solver):
 
         #print(sol_state)
 
-        if sol_state['success'] is True:
+        # The method often reports lack of progress in the solution of linear systems, although it is in the solution already
+
+        has_null_residuals = False
+
+        if sol_state['success'] is not True:
+
+            _, b = self._getABfromEquations()
+
+            has_null_residuals = np.max(np.abs(sol_state['fun'])) <= 1e-8*max(1., np.max(np.abs(b)))
+
+        if sol_state['success'] is True or has_null_residuals:
 
             x_out_dict = {str(var_i): val_i for var_i, val_i in zip(var_names,x_out)}
 
-- 
2.43.0


From a4c6df2c76d59318abfdc5dca326c263783d80f1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:59 +0000
Subject: [PATCH 45/76] fix: CVODE simulations always started at the time zero,
 whatever the initial time

---
 src/sloth/solvers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index 7b2d608..8bdf9bd 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -837,6 +837,7 @@ class DSolver(Solver):
 
             exp_mod = Explicit_Problem(diffYinterfaceForAssimuloSolvers,
                                         Y_0,
+                                        t0=initial_time,
                                         name='CVODE')
             exp_sim = CVode(exp_mod)
             exp_sim.discr='BDF'
-- 
2.43.0


From 0418e13cdfbc2e72c769497609b20570b7d1ec8d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:59 +0000
Subject: [PATCH 46/76] fix: ODEINT simulations with a list of times for the
 solution raised AttributeError

---
 src/sloth/solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index 8bdf9bd..f2055e1 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -821,7 +821,7 @@ class DSolver(Solver):
 
         else:
 
-            time_points = times_for_solution
+            time_points = np.array(times_for_solution)
 
         #print("\n\n\n\t\t---------->", self.solver)
 
-- 
2.43.0


From fc31314cd4c7e030d55f57833dc2eeb6021f63d3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:59 +0000
Subject: [PATCH 47/76] fix: times for the solution were ignored in
 differential-algebraic simulations

---
 src/sloth/solvers.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index f2055e1..12b2acc 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -1009,7 +1009,13 @@ class DaeSolver(Solver):
 
             number_of_time_steps = int(2*(end_time - initial_time))
 
-        time_points = np.linspace(initial_time, end_time, number_of_time_steps+1).tolist()
+        if conf_args['times_for_solution'] is None:
+
+            time_points = np.linspace(initial_time, end_time, number_of_time_steps+1).tolist()
+
+        else:
+
+            time_points = list(conf_args['times_for_solution'])
 
         ydmap,ymap = self.problem.equation_block._getMapForRewriteSystemAsResidual()
 
-- 
2.43.0


From f89c1b50c131238a8d0f07bd9612bee9970cf53d Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:31 +0000
Subject: [PATCH 48/76] fix: short differential-algebraic simulations without a
 number of steps were not integrated

---
 src/sloth/solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index 12b2acc..062f3f3 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -1007,7 +1007,7 @@ class DaeSolver(Solver):
 
         if number_of_time_steps == None and end_time!= None:
 
-            number_of_time_steps = int(2*(end_time - initial_time))
+            number_of_time_steps = max(1, int(2*(end_time - initial_time)))
 
         if conf_args['times_for_solution'] is None:
 
-- 
2.43.0


From 012593c8bd0e7a8226c0706ace40efe7f0f067f6 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:56 +0000
Subject: [PATCH 49/76] fix: configuration files with part of the settings
 raised KeyError when running the simulation

---
 src/sloth/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/simulation.py b/src/sloth/simulation.py
index 7cfbd89..ca40d16 100644
--- a/src/sloth/simulation.py
+++ b/src/sloth/simulation.py
@@ -158,7 +158,7 @@ class Simulation:
 
             with open(configurations_file, "r") as read_file:
 
-                additional_conf = json.load(read_file)
+                additional_conf = {**default_simulation_configurations, **json.load(read_file)}
 
         elif definition_dict is not None and isinstance(definition_dict, dict):
 
-- 
2.43.0


From 96d14a25dda2bbb844b02fdf24449031601a4b15 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:56 +0000
Subject: [PATCH 50/76] fix: the time variable of the problem was not taken by
 simulations configured by a dictionary or file

---
 src/sloth/simulation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sloth/simulation.py b/src/sloth/simulation.py
index ca40d16..966c867 100644
--- a/src/sloth/simulation.py
+++ b/src/sloth/simulation.py
@@ -197,6 +197,10 @@ class Simulation:
 
         # print("additional_conf is: %s"%additional_conf)
 
+        if additional_conf['time_variable_name'] is None and additional_conf['is_dynamic'] is True and self.problem is not None:
+
+            additional_conf['time_variable_name'] = self.problem.time_variable_name
+
         if number_parameters_to_optimize != 0 and additional_conf[
             'number_parameters_to_optimize'] != number_parameters_to_optimize:
             additional_conf['number_parameters_to_optimize'] = number_parameters_to_optimize
-- 
2.43.0


From a7a799bb08f33f65e5de360a63d30376604380f0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:54:13 +0000
Subject: [PATCH 51/76] fix: differential-algebraic simulations raised
 TypeError for the time variables of the problem

---
 src/sloth/solvers.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index 062f3f3..93bcd83 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -917,7 +917,15 @@ class DaeSolver(Solver):
 
         arg_names = list(additional_configurations['arg_names'])
 
-        if time_variable_name not in problem.initial_conditions:
+        if isinstance(time_variable_name, list):
+
+            has_initial_time_condition_declared = all(t_i in problem.initial_conditions for t_i in time_variable_name)
+
+        else:
+
+            has_initial_time_condition_declared = time_variable_name in problem.initial_conditions
+
+        if has_initial_time_condition_declared is not True:
 
             raise AbsentRequiredObjectError("initial condition for time variable (%s)"%time_variable_name)
 
-- 
2.43.0


From d7f1c32401a58025fcbcbea63220ab40eacbb372 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:08 +0000
Subject: [PATCH 52/76] fix: bounds of the optimization problem were discarded
 when no constraints were given

---
 src/sloth/optimization.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sloth/optimization.py b/src/sloth/optimization.py
index 380f45e..04806c7 100644
--- a/src/sloth/optimization.py
+++ b/src/sloth/optimization.py
@@ -534,7 +534,9 @@ class Optimization:
 
             self.optimization_problem._setSimulationConfiguration(self.simulation_configuration)
 
-            self.optimization_problem.setBounds(self.constraints)
+            if self.constraints is not None:
+
+                self.optimization_problem.setBounds(self._getFixedConstraints())
 
             self.optimization_mechanism.set_verbosity(report_frequency)
 
-- 
2.43.0


From c2ea9e5cee80afb5b33ec111de20adc21392b4fb Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:08 +0000
Subject: [PATCH 53/76] fix: constraints of an optimization given by parameter
 raised TypeError

---
 src/sloth/optimization.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/sloth/optimization.py b/src/sloth/optimization.py
index 04806c7..d68ecb5 100644
--- a/src/sloth/optimization.py
+++ b/src/sloth/optimization.py
@@ -297,6 +297,12 @@ class Optimization:
 
     def _getFixedConstraints(self):
 
+        if isinstance(self.constraints, dict):
+
+            names = [i if isinstance(i, str) else i.name for i in self.optimization_parameters]
+
+            return [[self.constraints[name_i][bound_i] for name_i in names] for bound_i in (0, 1)]
+
         return self.constraints
 
     def setOptimizationProblem(self, optimization_problem):
-- 
2.43.0


From e9e263a7b231088133e61a824121f0820b5e9905 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:08 +0000
Subject: [PATCH 54/76] fix: optimization configuration files with part of the
 settings raised KeyError

---
 src/sloth/optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/optimization.py b/src/sloth/optimization.py
index d68ecb5..7a5a67c 100644
--- a/src/sloth/optimization.py
+++ b/src/sloth/optimization.py
@@ -267,7 +267,7 @@ class Optimization:
 
             with open(optimization_configuration, "r") as read_file:
 
-                self.optimization_configuration = json.load(read_file)
+                self.optimization_configuration = {**default_optimization_configuration, **json.load(read_file)}
 
         elif isinstance(optimization_configuration, dict):
 
-- 
2.43.0


From 4f17a1bcb6ea050f857e4df14ba170c0116e37d7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:08 +0000
Subject: [PATCH 55/76] fix: unknown optimizers were accepted and failed with
 AttributeError when run

---
 src/sloth/optimization.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sloth/optimization.py b/src/sloth/optimization.py
index 7a5a67c..800c6e7 100644
--- a/src/sloth/optimization.py
+++ b/src/sloth/optimization.py
@@ -454,6 +454,8 @@ class Optimization:
 
                 return('pso')
 
+            raise UnexpectedValueError("('ga', 'sade', 'de', 'pso')")
+
         else:
 
             raise UnexpectedValueError("(decorated function, str)")
-- 
2.43.0


From 05520fa5b65e357898b7e31dda403da6cb1eefe9 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:08 +0000
Subject: [PATCH 56/76] fix: the neighborhood configured for particle swarm
 optimizations was not used

---
 src/sloth/optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/optimization.py b/src/sloth/optimization.py
index 800c6e7..baf6fdc 100644
--- a/src/sloth/optimization.py
+++ b/src/sloth/optimization.py
@@ -446,7 +446,7 @@ class Optimization:
 
                 self._pagmo_selected_algorithm_log_columns = ['Gen', 'Fevals', 'gbest', 'Mean Vel.', 'Mean lbest', 'Avg. Dist.']
 
-                algo = pg.algorithm(pg.pso(gen=gen, omega=omega, eta1=eta1, eta2=eta2, max_vel=vcoeff,  variant=pso_variant))
+                algo = pg.algorithm(pg.pso(gen=gen, omega=omega, eta1=eta1, eta2=eta2, max_vel=vcoeff,  variant=pso_variant, neighb_type=neighb_type, neighb_param=neighb_param))
 
                 #isl = pg.island(algo, self.optimization_problem, ind)
 
-- 
2.43.0


From 96a935bafe293bff53b979bca96148a1c36fc0b3 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:08 +0000
Subject: [PATCH 57/76] fix: maximization was ignored by optimizations, which
 always minimized

---
 src/sloth/optimization.py | 26 ++++++++++++++++++++++++--
 1 file changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/sloth/optimization.py b/src/sloth/optimization.py
index baf6fdc..1bd23fc 100644
--- a/src/sloth/optimization.py
+++ b/src/sloth/optimization.py
@@ -124,6 +124,12 @@ class OptimizationProblem:
 
         pass
 
+    def _getFitnessForMaximization(self, x):
+
+        #The optimizers always minimize the fitness
+
+        return [-f_i for f_i in self.DeclareObjectiveFunction(x)]
+
     def __call__(self):
 
         #Reimplement virtual methods
@@ -556,6 +562,16 @@ class Optimization:
 
             # Run optimization
 
+            is_maximization = self.is_maximization or self.optimization_problem.is_maximization
+
+            if is_maximization:
+
+                self.optimization_problem.fitness = self.optimization_problem._getFitnessForMaximization
+
+            else:
+
+                self.optimization_problem.fitness = self.optimization_problem.DeclareObjectiveFunction
+
             prob = pg.problem(self.optimization_problem)
 
             pop = pg.population(prob, size=self.optimization_configuration['number_of_individuals'])
@@ -564,7 +580,7 @@ class Optimization:
 
             self.best_parameters = pop.champion_x
 
-            self.best_fitness = pop.champion_f
+            self.best_fitness = -pop.champion_f if is_maximization else pop.champion_f
 
             end_time = time()
 
@@ -576,6 +592,12 @@ class Optimization:
 
                 self.optimization_log = pd.DataFrame(self.optimization_log, columns=self._pagmo_selected_algorithm_log_columns)
 
+                if is_maximization:
+
+                    for column_i in self.optimization_log.columns.intersection(['Best', 'gbest', 'Mean lbest']):
+
+                        self.optimization_log[column_i] = -self.optimization_log[column_i]
+
             if save_optimization_graph is True:
 
                 generations = np.array(self.getOptimizationLog().loc[:, "Gen"].values.tolist(), dtype=int)
@@ -618,7 +640,7 @@ class Optimization:
             print("\n\tOptimization ended. \n\t Elapsed time:{}".format(strftime("%H:%M:%S", gmtime(elapsed_time))))
 
             if print_output is True:
-                print("Best individual: \n%s -> finess: %s"%(pop.champion_x, pop.champion_f))
+                print("Best individual: \n%s -> finess: %s"%(self.best_parameters, self.best_fitness))
 
             self.run_sucessful=True
 
-- 
2.43.0


From 67d364314f79df48cad0edddcf9122cb24576f5e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:02 +0000
Subject: [PATCH 58/76] fix: the log of differential evolution optimizations
 raised ValueError

---
 src/sloth/optimization.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/optimization.py b/src/sloth/optimization.py
index 1bd23fc..cc65ba5 100644
--- a/src/sloth/optimization.py
+++ b/src/sloth/optimization.py
@@ -415,7 +415,7 @@ class Optimization:
 
                 self._pagmo_selected_algorithm = pg.de
 
-                self._pagmo_selected_algorithm_log_columns = ['Gen', 'Fevals', 'Best', 'F', 'CR', 'dx', 'df']
+                self._pagmo_selected_algorithm_log_columns = ['Gen', 'Fevals', 'Best', 'dx', 'df']
 
                 algo = pg.algorithm(pg.de(gen=gen, F=f_w, CR = cr, variant=de_variant, ftol=de_ftol, xtol=de_xtol))
 
-- 
2.43.0


From 2bedee936e4d96572963de04efa6c63541691f75 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:37 +0000
Subject: [PATCH 59/76] fix: mixers and pumps without property package
 (homogeneous) raised AttributeError

---
 src/sloth/unit_op_library.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/sloth/unit_op_library.py b/src/sloth/unit_op_library.py
index 4722f13..b011c40 100644
--- a/src/sloth/unit_op_library.py
+++ b/src/sloth/unit_op_library.py
@@ -226,7 +226,7 @@ class Mixer(model.Model):
 
         self.createEquation("mass_conservation", "Mass consevation", _mass_conservation)
 
-        if self.property_package.number_of_phases >=2:
+        if self.property_package is not None and self.property_package.number_of_phases >=2:
 
             _sum_molar_frac_in = -1.
             _sum_mass_frac_in = -1.
@@ -543,7 +543,7 @@ class SimplePump(model.Model):
 
         self.Delta_P = self.createParameter("Delta_P", Pa, "pressure drop", latex_text="{\\Delta P}")
 
-        if self.property_package.number_of_phases>=2:
+        if self.property_package is not None and self.property_package.number_of_phases>=2:
 
             for phase_i in self.property_package.phase_names:
 
@@ -575,7 +575,7 @@ class SimplePump(model.Model):
 
         self.createEquation("energy_balance", "Energy balance", _energy_balance)
 
-        if self.property_package.number_of_phases>=2:
+        if self.property_package is not None and self.property_package.number_of_phases>=2:
 
             for phase_i in self.property_package.phase_names:
 
-- 
2.43.0


From c38ba49272eb75581a1d16ec2d0a86999a854ca7 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:37 +0000
Subject: [PATCH 60/76] fix: tanks could not be resolved, as their balances
 named absent objects in incoherent units

---
 src/sloth/unit_op_library.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/sloth/unit_op_library.py b/src/sloth/unit_op_library.py
index b011c40..deb6593 100644
--- a/src/sloth/unit_op_library.py
+++ b/src/sloth/unit_op_library.py
@@ -347,7 +347,7 @@ class Tank(model.Model):
         self.H_out = self.createVariable("H_out", J/mol, "molar enthalpy output", latex_text="H_{out}", is_exposed=True, type='output')
         self.E = self.createVariable("E", J, "Internal energy", latex_text="E")
 
-        self.Q = self.createParameter("Q", J, "Heat rate", latex_text="Q", value=0.)
+        self.Q = self.createParameter("Q", J/s, "Heat rate", latex_text="Q", value=0.)
 
         self.E.distributeOnDomain(self.time_domain)
 
@@ -362,19 +362,23 @@ class Tank(model.Model):
 
     def DeclareEquations(self):
 
-        _molar_conservation = self.N.Diff(self.t) == self. self.ndot_in() - self.ndot_out()
+        _molar_conservation = self.N.Diff(self.t) == self.ndot_in() - self.ndot_out()
 
         self.createEquation("molar_conservation", "Molar consevation", _molar_conservation)
 
-        _mass_conservation = self.M.Diff(self.t) ==  self. self.mdot_in() - self.mdot_out()
+        _mass_conservation = self.M.Diff(self.t) == self.mdot_in() - self.mdot_out()
 
         self.createEquation("mass_conservation", "Mass conservation", _mass_conservation)
 
-        _energy_balance = self.E.Diff(self.t) == self.n_dot_in()*self.H_in() - self.n_dot_out()*self.H_out() + self.Q()
+        _energy_balance = self.E.Diff(self.t) == self.ndot_in()*self.H_in() - self.ndot_out()*self.H_out() + self.Q()
 
         self.createEquation("energy_balance", "Energy balance", _energy_balance)
 
-        _level_balance = self.level.Diff(self.t) == (1./(self.property_package["*"].rho*self.area_sec()))*(self.mdot_in()-self.mdot_out())
+        rho = self.createParameter("rho", kg/(m**3), "Density of the content")
+
+        rho.setValue(self.property_package["*"].rho)
+
+        _level_balance = self.level.Diff(self.t) == (1./(rho()*self.area_sec()))*(self.mdot_in()-self.mdot_out())
 
         self.createEquation("_level_balance", "Liquid level balance", _level_balance)
 
-- 
2.43.0


From 7249757f66f921bcd7124e58868e6718d467fba4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:37 +0000
Subject: [PATCH 61/76] fix: the mixture of a property package could not be
 resolved

---
 src/sloth/core/property_package.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/core/property_package.py b/src/sloth/core/property_package.py
index aca5740..0820d43 100644
--- a/src/sloth/core/property_package.py
+++ b/src/sloth/core/property_package.py
@@ -39,7 +39,7 @@ class PropertyPackage:
 
     def resolve_mixture(self):
 
-        self.mixture = thermo.mixture.Mixture(phase_names, ws, zs)
+        self.mixture = thermo.mixture.Mixture(self.phase_names, ws=self.ws, zs=self.zs)
 
         self.zs = self.mixture.zs
 
-- 
2.43.0


From 4d43cc7d10954cb3d59e1c0a382b2765df8c7fd5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:37 +0000
Subject: [PATCH 62/76] fix: merged property packages counted only the phases
 of the first

---
 src/sloth/core/property_package.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/sloth/core/property_package.py b/src/sloth/core/property_package.py
index 0820d43..8cb1f0c 100644
--- a/src/sloth/core/property_package.py
+++ b/src/sloth/core/property_package.py
@@ -61,6 +61,8 @@ class PropertyPackage:
 
                     self.phases.update({phase_i: pp.phases[phase_i]})
 
+                    self.number_of_phases += 1
+
             return self
 
         else:
-- 
2.43.0


From 87605ed5f1685e299881b071670358ac1a004dd4 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:37 +0000
Subject: [PATCH 63/76] fix: material streams with temperature or pressure but
 without property package raised AttributeError

---
 src/sloth/unit_op_library.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/sloth/unit_op_library.py b/src/sloth/unit_op_library.py
index deb6593..8cd20aa 100644
--- a/src/sloth/unit_op_library.py
+++ b/src/sloth/unit_op_library.py
@@ -49,6 +49,10 @@ class HomogeneousMaterialStream(model.Model):
 
                 self.mdot.setValue( self.ndot.value*self.property_package["*"].MW*1e-3 )
 
+        if self.property_package is None:
+
+            return
+
         #Recalculate property_package if T and P where provided
 
         if self.T.is_specified is True and self.P.is_specified is False:
@@ -103,6 +107,10 @@ class MaterialStream(model.Model):
 
                 self.mdot.setValue( self.ndot.value*self.property_package["*"].MW*1e-3 )
 
+        if self.property_package is None:
+
+            return
+
         #Recalculate property_package if T and P where provided
 
         if self.T.is_specified is True and self.P.is_specified is False:
@@ -162,6 +170,10 @@ class MultiphasicMaterialStream(model.Model):
 
                 self.mdot.setValue( self.ndot.value*self.property_package["*"].MW*1e-3 )
 
+        if self.property_package is None:
+
+            return
+
         #Recalculate property_package if T and P where provided
 
         if self.T.is_specified is True and self.P.is_specified is False:
-- 
2.43.0


From 84c751c4abb44a24d1689f51b6fcd5886dd176a5 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:37 +0000
Subject: [PATCH 64/76] fix: inlet streams made every problem over-specified
 with equations of specified values only

---
 src/sloth/model.py | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/sloth/model.py b/src/sloth/model.py
index 06b1db3..3924959 100644
--- a/src/sloth/model.py
+++ b/src/sloth/model.py
@@ -70,14 +70,10 @@ def _totalizeInletsFunction_genericMaterialStreams(main_model, set_P_by_min=True
 
         P_from_inputs = [stream.P() for stream in main_model._inlets]
 
-        _ = [main_model.createEquation("eq_P_"+stream.P.name, "", stream.P() - stream.P.value) for stream in main_model._inlets]
-
         try:
 
             T_from_inputs = [stream.T() for stream in main_model._inlets]
 
-            _ = [main_model.createEquation("eq_T_"+stream.T.name, "", stream.T() - stream.T.value) for stream in main_model._inlets]
-
         except:
 
             raise AbsentRequiredObjectError("(list of inlet streams with 'T' object defined)")
-- 
2.43.0


From 1c23467d869df9a313ba8308cc1b8f35579d809e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:11 +0000
Subject: [PATCH 65/76] fix: heaters and coolers of several phases raised
 NameError

---
 src/sloth/unit_op_library.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/sloth/unit_op_library.py b/src/sloth/unit_op_library.py
index 8cd20aa..861c42a 100644
--- a/src/sloth/unit_op_library.py
+++ b/src/sloth/unit_op_library.py
@@ -657,20 +657,14 @@ class Heater(model.Model):
         self.T_in  = self.createVariable("T_in", K, "temperature from input", latex_text="T_{in}", is_exposed=True, type='input')
         self.T_out = self.createVariable("T_out", K, "temperature from output", latex_text="T_{out}", is_exposed=True, type='output')
 
-        self.cp_mix = self.createParameter("cp_mix",J/(kg*K),"Mass specific capacity for the mixture of components")
-
         if self.property_package.number_of_phases>=2:
 
-            cp_mix_ = 0.
-
-            for phase_i in self.property_package.phase_names:
-
-                cp_mix_ += eval("self.w_{}_out()*self.property_package['{}'].Cp".format(phase_i, phase_i))
-
-            self.cp_mix.setValue(mix_rho_)
+            self.cp_mix = self.createVariable("cp_mix",J/(kg*K),"Mass specific capacity for the mixture of components")
 
         else:
 
+            self.cp_mix = self.createParameter("cp_mix",J/(kg*K),"Mass specific capacity for the mixture of components")
+
             self.cp_mix.setValue(self.property_package["*"].Cp)
 
         #Assume heat rate (Q) for heating is positive
@@ -679,6 +673,18 @@ class Heater(model.Model):
 
         if self.property_package.number_of_phases>=2:
 
+            cp_mix_ = 0.
+
+            for phase_i in self.property_package.phase_names:
+
+                cp_i = self.createParameter("cp_{}".format(phase_i), J/(kg*K), "Mass specific capacity for {} phase".format(phase_i))
+
+                cp_i.setValue(self.property_package[phase_i].Cp)
+
+                cp_mix_ += eval("self.w_{}_out()".format(phase_i))*cp_i()
+
+            self.createEquation("mixture_cp", "Mass specific capacity for the mixture of components", self.cp_mix() - cp_mix_)
+
             for phase_i in self.property_package.phase_names:
 
                 exec("_molar_conservation_i = self.z_{}_out() - self.z_{}_in()".format(phase_i, phase_i))
-- 
2.43.0


From ff7d9b3e72589e8faec0ea9a6181e41be963eea1 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:11 +0000
Subject: [PATCH 66/76] fix: valves of several phases refused the density of
 their mixture

---
 src/sloth/unit_op_library.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/sloth/unit_op_library.py b/src/sloth/unit_op_library.py
index 861c42a..4b0ae63 100644
--- a/src/sloth/unit_op_library.py
+++ b/src/sloth/unit_op_library.py
@@ -482,20 +482,26 @@ class Valve(model.Model):
 
         self.createEquation("energy_balance", "Energy balance", _energy_balance)
 
-        mix_rho = self.createParameter("mix_rho",kg/(m**3),"Density for the mixture of components")
-
         if self.property_package.number_of_phases>=2:
 
+            mix_rho = self.createVariable("mix_rho",kg/(m**3),"Density for the mixture of components")
+
             mix_rho_ = 0.
 
             for phase_i in self.property_package.phase_names:
 
-                mix_rho_ += eval("self.w_{}_out()*self.property_package['{}'].rho".format(phase_i, phase_i))
+                rho_i = self.createParameter("rho_{}".format(phase_i), kg/(m**3), "Density for {} phase".format(phase_i))
+
+                rho_i.setValue(self.property_package[phase_i].rho)
 
-            mix_rho.setValue(mix_rho_)
+                mix_rho_ += eval("self.w_{}_out()".format(phase_i))*rho_i()
+
+            self.createEquation("mixture_density", "Density for the mixture of components", mix_rho() - mix_rho_)
 
         else:
 
+            mix_rho = self.createParameter("mix_rho",kg/(m**3),"Density for the mixture of components")
+
             mix_rho.setValue(self.property_package["*"].rho)
 
         _volumetric_flux = self.Qdot_out() - self.perc_open()*(self.mdot_out()/mix_rho())
-- 
2.43.0


From 8f65d94684f1dee676311678a31239bbab737d05 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:52 +0000
Subject: [PATCH 67/76] fix: dynamic simulations with variables not distributed
 on the domain raised ValueError

---
 src/sloth/solvers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index 93bcd83..1595e1b 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -133,7 +133,7 @@ class Solver:
 
         names_in_domain = list(self.domain.dependent_objs.keys())
 
-        if sorted(names) != sorted(names_in_domain):
+        if not set(names_in_domain).issubset(names):
 
             return results
 
-- 
2.43.0


From f00abee6529c37fc7b86a4d08bb255350e75200e Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:01 +0000
Subject: [PATCH 68/76] fix: time series could not be plotted without labels

---
 src/sloth/plotter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/sloth/plotter.py b/src/sloth/plotter.py
index 59e92a8..6635cc2 100644
--- a/src/sloth/plotter.py
+++ b/src/sloth/plotter.py
@@ -69,7 +69,7 @@ class Plotter:
                     plt.plot(x_data[i].reshape(-1),
                              y_data[j].reshape(-1),
                              marker=markers[j],
-                             label=labels[j],
+                             label=labels[j] if labels is not None else None,
                              linewidth=linewidth
                         )
 
@@ -83,7 +83,7 @@ class Plotter:
 
                     plt.plot(x_data[i].reshape(-1),
                              y_data[j].reshape(-1),
-                             label=labels[j],
+                             label=labels[j] if labels is not None else None,
                              linewidth=linewidth
                         )
 
-- 
2.43.0


From 70eb62bfa840574fa8d130e4c42b796a37602148 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:51 +0000
Subject: [PATCH 69/76] fix: the graph of an optimization could not be saved
 with the default report frequency or without keeping the log

---
 src/sloth/optimization.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/sloth/optimization.py b/src/sloth/optimization.py
index cc65ba5..f944ce4 100644
--- a/src/sloth/optimization.py
+++ b/src/sloth/optimization.py
@@ -552,6 +552,10 @@ class Optimization:
 
                 self.optimization_problem.setBounds(self._getFixedConstraints())
 
+            if save_optimization_graph is True and report_frequency == 0:
+
+                report_frequency = 1 # The graph is drawn from the log
+
             self.optimization_mechanism.set_verbosity(report_frequency)
 
             # Print information
@@ -586,7 +590,7 @@ class Optimization:
 
             elapsed_time = end_time - start_time
 
-            if optimization_log is True:
+            if optimization_log is True or save_optimization_graph is True:
 
                 self.optimization_log = self.optimization_mechanism.extract(self._pagmo_selected_algorithm).get_log()
 
@@ -615,7 +619,7 @@ class Optimization:
 
                 function_evaluations = np.array(self.getOptimizationLog().loc[:, "Fevals"].values.tolist(), dtype=int)
 
-                plt.xlim(0, max(function_evaluations))
+                plt.xlim(0, max(function_evaluations, default=1))
 
                 curr_time = datetime.now()
 
-- 
2.43.0


From 7671ecc63e743d45da7684d6dbd09b2a9d8b2da0 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:57 +0000
Subject: [PATCH 70/76] fix: constraints of an optimization stayed as bounds of
 the problem in other studies

---
 src/sloth/optimization.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/sloth/optimization.py b/src/sloth/optimization.py
index f944ce4..7e2683f 100644
--- a/src/sloth/optimization.py
+++ b/src/sloth/optimization.py
@@ -548,6 +548,8 @@ class Optimization:
 
             self.optimization_problem._setSimulationConfiguration(self.simulation_configuration)
 
+            bounds_of_problem = self.optimization_problem.bounds
+
             if self.constraints is not None:
 
                 self.optimization_problem.setBounds(self._getFixedConstraints())
@@ -576,7 +578,15 @@ class Optimization:
 
                 self.optimization_problem.fitness = self.optimization_problem.DeclareObjectiveFunction
 
-            prob = pg.problem(self.optimization_problem)
+            try:
+
+                prob = pg.problem(self.optimization_problem)
+
+            finally:
+
+                # The constraints hold for the current study only
+
+                self.optimization_problem.setBounds(bounds_of_problem)
 
             pop = pg.population(prob, size=self.optimization_configuration['number_of_individuals'])
 
-- 
2.43.0


From 666dbc21990623c4d9642c6b0747bbe9625ec579 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:23 +0000
Subject: [PATCH 71/76] fix: merged property packages shared the conditions of
 their species

---
 src/sloth/core/property_package.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/sloth/core/property_package.py b/src/sloth/core/property_package.py
index 8cb1f0c..0a7def3 100644
--- a/src/sloth/core/property_package.py
+++ b/src/sloth/core/property_package.py
@@ -4,6 +4,8 @@
 Define ProperyPackage class, which holds the information about the species involved in the simulation, and act as a container for their properties
 """
 
+import copy
+
 import thermo
 from .error_definitions import *
 
@@ -59,7 +61,7 @@ class PropertyPackage:
 
                     self.phase_names.append(phase_i)
 
-                    self.phases.update({phase_i: pp.phases[phase_i]})
+                    self.phases.update({phase_i: copy.deepcopy(pp.phases[phase_i])}) # Each package has its own conditions
 
                     self.number_of_phases += 1
 
-- 
2.43.0


From afc6d759e4809980ac8366c0db43785fe0d89a56 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:14 +0000
Subject: [PATCH 72/76] fix: ODEINT took the first output time of a simulation
 as its initial time

---
 src/sloth/solvers.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index 1595e1b..307fa70 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -827,12 +827,22 @@ class DSolver(Solver):
 
         if self.solver == None or self.solver == 'ODEINT':
 
+            # The integrator takes its first time as the one of the initial conditions
+
+            starts_after_initial_time = time_points[0] != initial_time
+
+            integration_points = np.append(initial_time, time_points) if starts_after_initial_time else time_points
+
             Y = solver( diffYinterfaceForScipySolvers,
                         Y_0,
-                        time_points,
+                        integration_points,
                         **conf_args_
                        )
 
+            if starts_after_initial_time:
+
+                Y = Y[1:]
+
         if self.solver == 'CVODE':
 
             exp_mod = Explicit_Problem(diffYinterfaceForAssimuloSolvers,
-- 
2.43.0


From f6e3a212aa2cf2dcee4bfe1990068fe6479d7cb2 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:42 +0000
Subject: [PATCH 73/76] fix: equations and connections without name declared in
 different threads replaced one another

---
 src/sloth/core/equation.py | 12 +++++-------
 src/sloth/problem.py       | 12 +++++-------
 2 files changed, 10 insertions(+), 14 deletions(-)

diff --git a/src/sloth/core/equation.py b/src/sloth/core/equation.py
index 329b6de..ef2ba30 100644
--- a/src/sloth/core/equation.py
+++ b/src/sloth/core/equation.py
@@ -10,17 +10,15 @@ from .expression_evaluation import EquationNode
 from .error_definitions import UnexpectedValueError, AbsentRequiredObjectError, UnresolvedPanicError
 import sympy as sp
 #import symengine as sp
-import threading
+from itertools import count
 
-_uid = threading.local()
+_uid = count(1)
 
 def gen_rnd_str():
 
-    if getattr(_uid, "uid", None) is None:
-        _uid.tid = threading.current_thread().ident
-        _uid.uid = 0
-    _uid.uid += 1
-    return str((_uid.tid, _uid.uid)[1])
+    # A single count for all the threads, as the names of each one of them meet in the same models
+
+    return str(next(_uid))
 
 class Equation:
 
diff --git a/src/sloth/problem.py b/src/sloth/problem.py
index 33f057d..c68a6c9 100644
--- a/src/sloth/problem.py
+++ b/src/sloth/problem.py
@@ -15,17 +15,15 @@ from .analysis import Analysis
 #import numpy as np
 #from .graph_creator import ConnectionGraph
 
-import threading
+from itertools import count
 
-_uid = threading.local()
+_uid = count(1)
 
 def gen_rnd_str():
 
-    if getattr(_uid, "uid", None) is None:
-        _uid.tid = threading.current_thread().ident
-        _uid.uid = 0
-    _uid.uid += 1
-    return str((_uid.tid, _uid.uid)[1])
+    # A single count for all the threads, as the names of each one of them meet in the same models
+
+    return str(next(_uid))
 
 class Problem:
 
-- 
2.43.0


From f839eb2a6cccc31e921ec09ef9ad4aa8dfce0767 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:45 +0000
Subject: [PATCH 74/76] fix: equations without name replaced those named by the
 same number

---
 src/sloth/core/equation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sloth/core/equation.py b/src/sloth/core/equation.py
index ef2ba30..c453550 100644
--- a/src/sloth/core/equation.py
+++ b/src/sloth/core/equation.py
@@ -47,7 +47,7 @@ class Equation:
 
         if name is "":
 
-            name = gen_rnd_str()
+            name = "unnamed_"+gen_rnd_str() # Not mistakable for those named by a number
 
         #print("===> fast_expr = ", fast_expr,", owner_model_name = ", owner_model_name)
 
-- 
2.43.0


From 23e1bf4e6c40c9e658524d19207e38fcd5c0da37 Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:24 +0000
Subject: [PATCH 75/76] fix: exposed variables were listed again in each
 resolution of their model

---
 src/sloth/model.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/sloth/model.py b/src/sloth/model.py
index 3924959..4b8a051 100644
--- a/src/sloth/model.py
+++ b/src/sloth/model.py
@@ -422,6 +422,8 @@ class Model:
 
         self.variables[var_.name] = var_
 
+        self._removeFromExposed(var_.name)
+
         if var_.is_exposed == True:
 
             self.exposed_vars[var_.type].append(var_)
@@ -722,12 +724,26 @@ class Model:
 
         self.variables[var.name] = var
 
+        self._removeFromExposed(var.name)
+
         if is_exposed == True:
 
             self.exposed_vars[type].append(var)
 
         return var
 
+    def _removeFromExposed(self, name):
+
+        """
+        Remove the variable of the given name from the exposed ones, as it was declared again (eg: in another resolution of the model)
+        """
+
+        for exposed_vars in self.exposed_vars.values():
+
+            for var_i in [var_i for var_i in exposed_vars if var_i.name == name]:
+
+                exposed_vars.remove(var_i)
+
     def createParameterArray(self, name, size, units, description = "", value = 0, latex_text=""):
 
         """
-- 
2.43.0


From 5c7b87722d5785cbfc8f705ff45eb9f26770e6db Mon Sep 17 00:00:00 2001
From: v <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:01 +0000
Subject: [PATCH 76/76] fix: singular linear systems solved in several threads
 could be answered with meaningless values

---
 src/sloth/solvers.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/sloth/solvers.py b/src/sloth/solvers.py
index 307fa70..8055d8e 100644
--- a/src/sloth/solvers.py
+++ b/src/sloth/solvers.py
@@ -4,7 +4,6 @@
 Define solver mechanisms
 """
 
-import warnings
 from collections import OrderedDict
 
 import prettytable
@@ -19,7 +18,7 @@ from assimulo.problem import Implicit_Problem
 from assimulo.solvers import CVode
 from assimulo.solvers import IDA
 from pyneqsys.symbolic import SymbolicSys
-from scipy.linalg import solve as scp_solve, LinAlgWarning
+from scipy.linalg import solve as scp_solve
 
 from .core.equation_operators import *
 from .core.error_definitions import AbsentRequiredObjectError, UnexpectedValueError, NumericalError
@@ -243,13 +242,13 @@ class LASolver(Solver):
 
         A, b = self._getABfromEquations()
 
-        with warnings.catch_warnings():
+        if np.linalg.cond(A,1)*np.finfo(float).eps >= 1.:
 
             # Results for a (numerically) singular matrix are meaningless
 
-            warnings.simplefilter('error', LinAlgWarning)
+            raise NumericalError("The matrix of the linear system is singular.")
 
-            x_out = scp_solve(A,b).ravel()
+        x_out = scp_solve(A,b).ravel()
 
         x_dict = {str(var_i): val_i for var_i, val_i in zip(var_names, x_out)}
 
-- 
2.43.0

