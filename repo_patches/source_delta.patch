From 5910e1f7d418aa7dfb892fb9e05868022ca9f33a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:37:43 +0000
Subject: [PATCH 01/47] fix: keep expression coefficients as floats so that
 edits are not truncated

---
 qiskit_optimization/problems/linear_expression.py    | 4 ++--
 qiskit_optimization/problems/quadratic_expression.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/qiskit_optimization/problems/linear_expression.py b/qiskit_optimization/problems/linear_expression.py
index 5ff5468..cbd8f72 100644
--- a/qiskit_optimization/problems/linear_expression.py
+++ b/qiskit_optimization/problems/linear_expression.py
@@ -80,9 +80,9 @@ class LinearExpression(QuadraticProgramElement):
             or isinstance(coefficients, ndarray)
             and len(coefficients.shape) == 1
         ):
-            coefficients = dok_matrix([coefficients])
+            coefficients = dok_matrix([coefficients], dtype=float)
         elif isinstance(coefficients, spmatrix):
-            coefficients = dok_matrix(coefficients)
+            coefficients = dok_matrix(coefficients, dtype=float)
         elif isinstance(coefficients, dict):
             coeffs = dok_matrix((1, self.quadratic_program.get_num_vars()))
             for index, value in coefficients.items():
diff --git a/qiskit_optimization/problems/quadratic_expression.py b/qiskit_optimization/problems/quadratic_expression.py
index e968264..a060227 100644
--- a/qiskit_optimization/problems/quadratic_expression.py
+++ b/qiskit_optimization/problems/quadratic_expression.py
@@ -101,7 +101,7 @@ class QuadraticExpression(QuadraticProgramElement):
             QiskitOptimizationError: if coefficients are given in unsupported format.
         """
         if isinstance(coefficients, (list, ndarray, spmatrix)):
-            coefficients = dok_matrix(coefficients)
+            coefficients = dok_matrix(coefficients, dtype=float)
         elif isinstance(coefficients, dict):
             n = self.quadratic_program.get_num_vars()
             coeffs = dok_matrix((n, n))
-- 
2.43.0


From 5c2d46731ae07ac4db2cb1a40090362ffb038d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:54 +0000
Subject: [PATCH 02/47] fix: a rejected variable or constraint no longer leaves
 a partial entry behind

---
 .../problems/quadratic_program.py               | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/qiskit_optimization/problems/quadratic_program.py b/qiskit_optimization/problems/quadratic_program.py
index 6c88b2f..f09c0e9 100644
--- a/qiskit_optimization/problems/quadratic_program.py
+++ b/qiskit_optimization/problems/quadratic_program.py
@@ -203,7 +203,7 @@ class QuadraticProgram:
                     raise QiskitOptimizationError(
                         "Variable name already exists: {}".format(new_name)
                     )
-                if new_name in self._variables_index:
+                if new_name in self._variables_index or new_name in new_names:
                     k += 1
                     prev = new_name
                 else:
@@ -211,6 +211,7 @@ class QuadraticProgram:
             return new_name, k + 1
 
         names = []
+        new_names = set()
         variables = []
         k = self.get_num_vars()
         lst = keys if isinstance(keys, Sequence) else range(keys)
@@ -219,15 +220,17 @@ class QuadraticProgram:
                 indexed_name = name + key_format.format(key)
             else:
                 indexed_name, k = _find_name(name, key_format, k)
-            if indexed_name in self._variables_index:
+            if indexed_name in self._variables_index or indexed_name in new_names:
                 raise QiskitOptimizationError(
                     "Variable name already exists: {}".format(indexed_name)
                 )
             names.append(indexed_name)
-            self._variables_index[indexed_name] = self.get_num_vars()
-            variable = Variable(self, indexed_name, lowerbound, upperbound, vartype)
+            new_names.add(indexed_name)
+            variables.append(Variable(self, indexed_name, lowerbound, upperbound, vartype))
+        # register the variables only after all of them turned out to be valid
+        for variable in variables:
+            self._variables_index[variable.name] = self.get_num_vars()
             self._variables.append(variable)
-            variables.append(variable)
         return names, variables
 
     def _var_dict(
@@ -646,10 +649,10 @@ class QuadraticProgram:
             while "c{}".format(k) in self.linear_constraints_index:
                 k += 1
             name = "c{}".format(k)
-        self.linear_constraints_index[name] = len(self.linear_constraints)
         if linear is None:
             linear = {}
         constraint = LinearConstraint(self, name, linear, Constraint.Sense.convert(sense), rhs)
+        self.linear_constraints_index[name] = len(self.linear_constraints)
         self.linear_constraints.append(constraint)
         return constraint
 
@@ -739,7 +742,6 @@ class QuadraticProgram:
             while "q{}".format(k) in self.quadratic_constraints_index:
                 k += 1
             name = "q{}".format(k)
-        self.quadratic_constraints_index[name] = len(self.quadratic_constraints)
         if linear is None:
             linear = {}
         if quadratic is None:
@@ -747,6 +749,7 @@ class QuadraticProgram:
         constraint = QuadraticConstraint(
             self, name, linear, quadratic, Constraint.Sense.convert(sense), rhs
         )
+        self.quadratic_constraints_index[name] = len(self.quadratic_constraints)
         self.quadratic_constraints.append(constraint)
         return constraint
 
-- 
2.43.0


From f07642c612d466cf14a395c2660c1e8e55bd0f3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:55 +0000
Subject: [PATCH 03/47] fix: reject chained variable substitutions in every
 order

---
 qiskit_optimization/problems/quadratic_program.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/qiskit_optimization/problems/quadratic_program.py b/qiskit_optimization/problems/quadratic_program.py
index f09c0e9..1899ad5 100644
--- a/qiskit_optimization/problems/quadratic_program.py
+++ b/qiskit_optimization/problems/quadratic_program.py
@@ -1628,6 +1628,11 @@ class SubstituteVariables:
                         "Cannot substitute by variable that gets substituted itself: "
                         "{} <- {} {}".format(i, j, v)
                     )
+                if any(i_2 == name for name, _ in subs.values()):
+                    raise QiskitOptimizationError(
+                        "Cannot substitute a variable that substitutes another variable: "
+                        "{} <- {} {}".format(i, j, v)
+                    )
                 subs[i_2] = (j_2, v)
 
         self._subs = subs
-- 
2.43.0


From c091d09da5543f3fe885b70a9c15a0f3f9765cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:55 +0000
Subject: [PATCH 04/47] fix: substitutions that empty a variable's range report
 INFEASIBLE instead of raising

---
 qiskit_optimization/problems/quadratic_program.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/qiskit_optimization/problems/quadratic_program.py b/qiskit_optimization/problems/quadratic_program.py
index 1899ad5..250fbca 100644
--- a/qiskit_optimization/problems/quadratic_program.py
+++ b/qiskit_optimization/problems/quadratic_program.py
@@ -1676,11 +1676,17 @@ class SubstituteVariables:
                 lb_j = var_j.lowerbound
                 ub_j = var_j.upperbound
                 if v > 0:
-                    var_j.lowerbound = max(lb_j, new_lb_i)
-                    var_j.upperbound = min(ub_j, new_ub_i)
+                    new_lb_j = max(lb_j, new_lb_i)
+                    new_ub_j = min(ub_j, new_ub_i)
                 else:
-                    var_j.lowerbound = max(lb_j, new_ub_i)
-                    var_j.upperbound = min(ub_j, new_lb_i)
+                    new_lb_j = max(lb_j, new_ub_i)
+                    new_ub_j = min(ub_j, new_lb_i)
+                if new_lb_j > new_ub_j:
+                    logger.warning("Infeasible substitution for variable: %s", i)
+                    feasible = False
+                else:
+                    var_j.lowerbound = new_lb_j
+                    var_j.upperbound = new_ub_j
 
         for var in self._dst.variables:
             if var.lowerbound > var.upperbound:
-- 
2.43.0


From 8b83681189850a776a4b407508736768f89f306b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:16 +0000
Subject: [PATCH 05/47] fix: keep the bounds of binary variables when
 exchanging docplex models

---
 qiskit_optimization/problems/quadratic_program.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qiskit_optimization/problems/quadratic_program.py b/qiskit_optimization/problems/quadratic_program.py
index 250fbca..fc87d30 100644
--- a/qiskit_optimization/problems/quadratic_program.py
+++ b/qiskit_optimization/problems/quadratic_program.py
@@ -901,6 +901,7 @@ class QuadraticProgram:
                 x_new = self.continuous_var(x.lb, x.ub, x.name)
             elif isinstance(x.vartype, BinaryVarType):
                 x_new = self.binary_var(x.name)
+                x_new.lowerbound, x_new.upperbound = x.lb, x.ub
             elif isinstance(x.vartype, IntegerVarType):
                 x_new = self.integer_var(x.lb, x.ub, x.name)
             else:
@@ -1048,6 +1049,7 @@ class QuadraticProgram:
                 var[idx] = mdl.continuous_var(lb=x.lowerbound, ub=x.upperbound, name=x.name)
             elif x.vartype == Variable.Type.BINARY:
                 var[idx] = mdl.binary_var(name=x.name)
+                var[idx].lb, var[idx].ub = x.lowerbound, x.upperbound
             elif x.vartype == Variable.Type.INTEGER:
                 var[idx] = mdl.integer_var(lb=x.lowerbound, ub=x.upperbound, name=x.name)
             else:
-- 
2.43.0


From fe9f32568ad75fbf7dcf7f1a7c93cf245d339cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:50 +0000
Subject: [PATCH 06/47] fix: reject docplex models with SOS sets, lazy
 constraints or several objectives

---
 qiskit_optimization/problems/quadratic_program.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/qiskit_optimization/problems/quadratic_program.py b/qiskit_optimization/problems/quadratic_program.py
index fc87d30..0faefb2 100644
--- a/qiskit_optimization/problems/quadratic_program.py
+++ b/qiskit_optimization/problems/quadratic_program.py
@@ -887,6 +887,14 @@ class QuadraticProgram:
             QiskitOptimizationError: if the model contains unsupported elements.
         """
 
+        # these elements are not visited below, so they must not be dropped silently
+        if model.has_multi_objective():
+            raise QiskitOptimizationError("Unsupported multiple objectives")
+        if model.number_of_sos > 0:
+            raise QiskitOptimizationError("Unsupported SOS constraints")
+        if model.number_of_lazy_constraints > 0:
+            raise QiskitOptimizationError("Unsupported lazy constraints")
+
         # clear current problem
         self.clear()
 
-- 
2.43.0


From 359698bc92b81441b50d2e9443e871703fc32806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:52:38 +0000
Subject: [PATCH 07/47] fix: the Ising operator of a constant objective has
 zero energy

---
 qiskit_optimization/problems/quadratic_program.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qiskit_optimization/problems/quadratic_program.py b/qiskit_optimization/problems/quadratic_program.py
index 0faefb2..fac2f2a 100644
--- a/qiskit_optimization/problems/quadratic_program.py
+++ b/qiskit_optimization/problems/quadratic_program.py
@@ -1336,11 +1336,11 @@ class QuadraticProgram:
         qubit_op = sum(PauliOp(pauli, coeff=coeff) for coeff, pauli in pauli_list)
 
         # qubit_op could be the integer 0, in this case return an identity operator of
-        # appropriate size
+        # appropriate size whose coefficient is zero
         if isinstance(qubit_op, OperatorBase):
             qubit_op = qubit_op.reduce()
         else:
-            qubit_op = I ^ num_nodes
+            qubit_op = 0 * (I ^ num_nodes)
 
         return qubit_op, offset
 
-- 
2.43.0


From 084f84f30201a803c44cd133ef1bdb232ad6709d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:46 +0000
Subject: [PATCH 08/47] fix: from_ising sums repeated Pauli terms and accepts
 identity terms

---
 .../problems/quadratic_program.py             | 28 ++++++++++---------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/qiskit_optimization/problems/quadratic_program.py b/qiskit_optimization/problems/quadratic_program.py
index fac2f2a..b96ea28 100644
--- a/qiskit_optimization/problems/quadratic_program.py
+++ b/qiskit_optimization/problems/quadratic_program.py
@@ -1386,10 +1386,9 @@ class QuadraticProgram:
         # The other elements in the QUBO matrix are for quadratic terms of the qubit operator.
         qubo_matrix = zeros((qubit_op.num_qubits, qubit_op.num_qubits))
 
-        if not isinstance(qubit_op, SummedOp):
-            pauli_list = [qubit_op.to_pauli_op()]
-        else:
-            pauli_list = qubit_op.to_pauli_op()
+        pauli_list = qubit_op.to_pauli_op()
+        if not isinstance(pauli_list, SummedOp):
+            pauli_list = [pauli_list]
 
         for pauli_op in pauli_list:
             pauli_op = pauli_op.to_pauli_op()
@@ -1400,22 +1399,25 @@ class QuadraticProgram:
             z_index = [i for i, z in enumerate(lst_z) if z is True]
             num_z = len(z_index)
 
+            # If there are Pauli Xs in the Pauli term, raise an error
+            lst_x = pauli.x.tolist()
+            x_index = [i for i, x in enumerate(lst_x) if x is True]
+            if len(x_index) > 0:
+                raise QiskitOptimizationError("Pauli Xs exist in the Pauli {}".format(pauli.x))
+
             # Add its weight of the Pauli term to the corresponding element of QUBO matrix
-            if num_z == 1:
-                qubo_matrix[z_index[0], z_index[0]] = coeff.real
+            if num_z == 0:
+                # an identity term only shifts the objective function
+                offset += coeff.real
+            elif num_z == 1:
+                qubo_matrix[z_index[0], z_index[0]] += coeff.real
             elif num_z == 2:
-                qubo_matrix[z_index[0], z_index[1]] = coeff.real
+                qubo_matrix[z_index[0], z_index[1]] += coeff.real
             else:
                 raise QiskitOptimizationError(
                     "There are more than 2 Pauli Zs in the Pauli term {}".format(pauli.z)
                 )
 
-            # If there are Pauli Xs in the Pauli term, raise an error
-            lst_x = pauli.x.tolist()
-            x_index = [i for i, x in enumerate(lst_x) if x is True]
-            if len(x_index) > 0:
-                raise QiskitOptimizationError("Pauli Xs exist in the Pauli {}".format(pauli.x))
-
         # Initialize dicts for linear terms and quadratic terms
         linear_terms = {}
         quadratic_terms = {}
-- 
2.43.0


From e7d17d7233d6b39b399c87d43c6d810b3168c67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:56:43 +0000
Subject: [PATCH 09/47] fix: scale the linear terms of integer products by the
 encoding coefficients

---
 qiskit_optimization/converters/integer_to_binary.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qiskit_optimization/converters/integer_to_binary.py b/qiskit_optimization/converters/integer_to_binary.py
index b4e19db..b9027ba 100644
--- a/qiskit_optimization/converters/integer_to_binary.py
+++ b/qiskit_optimization/converters/integer_to_binary.py
@@ -152,9 +152,9 @@ class IntegerToBinary(QuadraticProgramConverter):
                         quadratic[z_x, z_y] = v * coeff_x * coeff_y
 
                 for z_x, coeff_x in self._conv[x]:
-                    linear[z_x] = linear.get(z_x, 0.0) + v * y.lowerbound
+                    linear[z_x] = linear.get(z_x, 0.0) + v * coeff_x * y.lowerbound
                 for z_y, coeff_y in self._conv[y]:
-                    linear[z_y] = linear.get(z_y, 0.0) + v * x.lowerbound
+                    linear[z_y] = linear.get(z_y, 0.0) + v * coeff_y * x.lowerbound
 
                 constant += v * x.lowerbound * y.lowerbound
 
-- 
2.43.0


From f6666a0e200049a525637cd367a92fe7e7cb6349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:57:10 +0000
Subject: [PATCH 10/47] fix: IntegerToBinary accepts integer variables with a
 single value

---
 qiskit_optimization/converters/integer_to_binary.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit_optimization/converters/integer_to_binary.py b/qiskit_optimization/converters/integer_to_binary.py
index b9027ba..a1e47c1 100644
--- a/qiskit_optimization/converters/integer_to_binary.py
+++ b/qiskit_optimization/converters/integer_to_binary.py
@@ -104,7 +104,7 @@ class IntegerToBinary(QuadraticProgramConverter):
         self, name: str, lowerbound: float, upperbound: float
     ) -> List[Tuple[str, int]]:
         var_range = upperbound - lowerbound
-        power = int(np.log2(var_range))
+        power = int(np.log2(var_range)) if var_range > 0 else 0
         bounded_coef = var_range - (2 ** power - 1)
 
         coeffs = [2 ** i for i in range(power)] + [bounded_coef]
-- 
2.43.0


From c3ed804035924e8b07c8b3c7a1b0d1ec6198da60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:58:29 +0000
Subject: [PATCH 11/47] fix: the automatic penalty takes the ranges of integer
 variables into account

---
 .../converters/linear_equality_to_penalty.py  | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/qiskit_optimization/converters/linear_equality_to_penalty.py b/qiskit_optimization/converters/linear_equality_to_penalty.py
index 17cce7a..424e989 100644
--- a/qiskit_optimization/converters/linear_equality_to_penalty.py
+++ b/qiskit_optimization/converters/linear_equality_to_penalty.py
@@ -21,6 +21,7 @@ import numpy as np
 
 from .quadratic_program_converter import QuadraticProgramConverter
 from ..exceptions import QiskitOptimizationError
+from ..infinity import INFINITY
 from ..problems.constraint import Constraint
 from ..problems.quadratic_objective import QuadraticObjective
 from ..problems.quadratic_program import QuadraticProgram
@@ -153,13 +154,25 @@ class LinearEqualityToPenalty(QuadraticProgramConverter):
             )
             return default_penalty
 
-        # (upper bound - lower bound) can be calculate as the sum of absolute value of coefficients
+        # (upper bound - lower bound) of the objective function is at most the sum of
+        # the ranges of its terms, i.e., the absolute values of coefficients for binary variables.
+        # Unbounded variables are treated like binary ones because no valid penalty exists.
+        def _bounds(i):
+            x = self._src.variables[i]
+            if max(abs(x.lowerbound), abs(x.upperbound)) < INFINITY:
+                return [x.lowerbound, x.upperbound]
+            return [0, 1]
+
         # Firstly, add 1 to guarantee that infeasible answers will be greater than upper bound.
         penalties = [1.0]
         # add linear terms of the object function.
-        penalties.extend(abs(coef) for coef in self._src.objective.linear.to_dict().values())
+        for i, coef in self._src.objective.linear.to_dict().items():
+            values = _bounds(i)
+            penalties.append(abs(coef) * (max(values) - min(values)))
         # add quadratic terms of the object function.
-        penalties.extend(abs(coef) for coef in self._src.objective.quadratic.to_dict().values())
+        for (i, j), coef in self._src.objective.quadratic.to_dict().items():
+            values = [x * y for x in _bounds(i) for y in _bounds(j)]
+            penalties.append(abs(coef) * (max(values) - min(values)))
 
         return fsum(penalties)
 
-- 
2.43.0


From 2a6743eefdd7cf0b6f9d6214923b70357658cf07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:09 +0000
Subject: [PATCH 12/47] fix: use continuous slack variables for constraints
 over continuous variables

---
 .../converters/inequality_to_equality.py      | 25 ++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/qiskit_optimization/converters/inequality_to_equality.py b/qiskit_optimization/converters/inequality_to_equality.py
index a59cafb..8fd90ac 100644
--- a/qiskit_optimization/converters/inequality_to_equality.py
+++ b/qiskit_optimization/converters/inequality_to_equality.py
@@ -184,6 +184,7 @@ class InequalityToEquality(QuadraticProgramConverter):
                 '"{0}" contains float coefficients. '
                 'We can not use an integer slack variable for "{0}"'.format(name)
             )
+        self._check_no_continuous_var(linear, {}, name)
 
         # If rhs is float number, round up/down to the nearest integer.
         new_rhs = rhs
@@ -249,7 +250,9 @@ class InequalityToEquality(QuadraticProgramConverter):
 
     def _add_auto_slack_var_linear_constraint(self, linear, sense, rhs, name):
         # If a coefficient that is not integer exist, use a continuous slack variable
-        if self._contains_any_float_value(list(linear.values())):
+        if self._contains_any_float_value(
+            list(linear.values())
+        ) or self._contains_continuous_var(linear, {}):
             self._add_continuous_slack_var_linear_constraint(linear, sense, rhs, name)
         # Else use an integer slack variable
         else:
@@ -264,6 +267,7 @@ class InequalityToEquality(QuadraticProgramConverter):
                 '"{0}" contains float coefficients. '
                 'We can not use an integer slack variable for "{0}"'.format(name)
             )
+        self._check_no_continuous_var(linear, quadratic, name)
 
         # If rhs is float number, round up/down to the nearest integer.
         new_rhs = rhs
@@ -331,14 +335,29 @@ class InequalityToEquality(QuadraticProgramConverter):
 
     def _add_auto_slack_var_quadratic_constraint(self, linear, quadratic, sense, rhs, name):
         # If a coefficient that is not integer exist, use a continuous slack variable
-        if self._contains_any_float_value(list(linear.values())) or self._contains_any_float_value(
-            list(quadratic.values())
+        if (
+            self._contains_any_float_value(list(linear.values()))
+            or self._contains_any_float_value(list(quadratic.values()))
+            or self._contains_continuous_var(linear, quadratic)
         ):
             self._add_continuous_slack_var_quadratic_constraint(linear, quadratic, sense, rhs, name)
         # Else use an integer slack variable
         else:
             self._add_integer_slack_var_quadratic_constraint(linear, quadratic, sense, rhs, name)
 
+    def _contains_continuous_var(self, linear, quadratic):
+        names = set(linear).union(*quadratic)
+        return any(
+            self._src.get_variable(name).vartype == Variable.Type.CONTINUOUS for name in names
+        )
+
+    def _check_no_continuous_var(self, linear, quadratic, name):
+        if self._contains_continuous_var(linear, quadratic):
+            raise QiskitOptimizationError(
+                '"{0}" contains continuous variables. '
+                'We can not use an integer slack variable for "{0}"'.format(name)
+            )
+
     def _calc_linear_bounds(self, linear):
         lhs_lb, lhs_ub = 0, 0
         for var_name, v in linear.items():
-- 
2.43.0


From a68635d59224d8d1579451ba17ec1dbb363d8b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:59:38 +0000
Subject: [PATCH 13/47] fix: convert inequalities when a linear and a quadratic
 constraint share a name

---
 .../converters/inequality_to_equality.py              | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/qiskit_optimization/converters/inequality_to_equality.py b/qiskit_optimization/converters/inequality_to_equality.py
index 8fd90ac..f5428b8 100644
--- a/qiskit_optimization/converters/inequality_to_equality.py
+++ b/qiskit_optimization/converters/inequality_to_equality.py
@@ -277,7 +277,7 @@ class InequalityToEquality(QuadraticProgramConverter):
             new_rhs = math.ceil(rhs)
 
         # Add a new integer variable.
-        slack_name = name + self._delimiter + "int_slack"
+        slack_name = self._new_slack_name(name, "int_slack")
 
         lhs_lb, lhs_ub = self._calc_quadratic_bounds(linear, quadratic)
 
@@ -306,7 +306,7 @@ class InequalityToEquality(QuadraticProgramConverter):
 
     def _add_continuous_slack_var_quadratic_constraint(self, linear, quadratic, sense, rhs, name):
         # Add a new continuous variable.
-        slack_name = name + self._delimiter + "continuous_slack"
+        slack_name = self._new_slack_name(name, "continuous_slack")
 
         lhs_lb, lhs_ub = self._calc_quadratic_bounds(linear, quadratic)
 
@@ -345,6 +345,13 @@ class InequalityToEquality(QuadraticProgramConverter):
         else:
             self._add_integer_slack_var_quadratic_constraint(linear, quadratic, sense, rhs, name)
 
+    def _new_slack_name(self, name, suffix):
+        # a linear constraint may have the same name as a quadratic constraint
+        slack_name = name + self._delimiter + suffix
+        while slack_name in self._dst.variables_index:
+            slack_name += "_"
+        return slack_name
+
     def _contains_continuous_var(self, linear, quadratic):
         names = set(linear).union(*quadratic)
         return any(
-- 
2.43.0


From 13077b35f3637f2ef6d679fe66738943ac0ca44b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:55 +0000
Subject: [PATCH 14/47] fix: LinearEqualityToPenalty no longer drops quadratic
 constraints silently

---
 .../converters/linear_equality_to_penalty.py              | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/qiskit_optimization/converters/linear_equality_to_penalty.py b/qiskit_optimization/converters/linear_equality_to_penalty.py
index 424e989..e804fd8 100644
--- a/qiskit_optimization/converters/linear_equality_to_penalty.py
+++ b/qiskit_optimization/converters/linear_equality_to_penalty.py
@@ -55,8 +55,16 @@ class LinearEqualityToPenalty(QuadraticProgramConverter):
 
         Raises:
             QiskitOptimizationError: If an inequality constraint exists.
+            QiskitOptimizationError: If a quadratic constraint exists.
         """
 
+        # quadratic constraints cannot be turned into a quadratic penalty and must not be lost
+        if problem.get_num_quadratic_constraints() > 0:
+            raise QiskitOptimizationError(
+                "A quadratic constraint exists. "
+                "The method supports only linear equality constraints."
+            )
+
         # create empty QuadraticProgram model
         self._src = copy.deepcopy(problem)
         self._dst = QuadraticProgram(name=problem.name)
-- 
2.43.0


From 038d37f96247900947ef3c8ac7f04c6ad1a6c316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:04:36 +0000
Subject: [PATCH 15/47] fix: expressions stay usable when variables are added
 after they were set

---
 qiskit_optimization/problems/linear_expression.py    | 8 ++++++--
 qiskit_optimization/problems/quadratic_expression.py | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/qiskit_optimization/problems/linear_expression.py b/qiskit_optimization/problems/linear_expression.py
index cbd8f72..941e7b6 100644
--- a/qiskit_optimization/problems/linear_expression.py
+++ b/qiskit_optimization/problems/linear_expression.py
@@ -59,7 +59,7 @@ class LinearExpression(QuadraticProgramElement):
     def __setitem__(self, i: Union[int, str], value: float) -> None:
         if isinstance(i, str):
             i = self.quadratic_program.variables_index[i]
-        self._coefficients[0, i] = value
+        self.coefficients[0, i] = value
 
     def _coeffs_to_dok_matrix(
         self, coefficients: Union[ndarray, spmatrix, List, Dict[Union[int, str], float]]
@@ -101,6 +101,10 @@ class LinearExpression(QuadraticProgramElement):
         Returns:
             The coefficients of the linear expression.
         """
+        # variables may have been added since the coefficients were set
+        n = self.quadratic_program.get_num_vars()
+        if self._coefficients.shape[1] < n:
+            self._coefficients.resize((1, n))
         return self._coefficients
 
     @coefficients.setter
@@ -121,7 +125,7 @@ class LinearExpression(QuadraticProgramElement):
         Returns:
             An array with the coefficients corresponding to the linear expression.
         """
-        return self._coefficients.toarray()[0]
+        return self.coefficients.toarray()[0]
 
     def to_dict(self, use_name: bool = False) -> Dict[Union[int, str], float]:
         """Returns the coefficients of the linear expression as dictionary, either using variable
diff --git a/qiskit_optimization/problems/quadratic_expression.py b/qiskit_optimization/problems/quadratic_expression.py
index a060227..484db65 100644
--- a/qiskit_optimization/problems/quadratic_expression.py
+++ b/qiskit_optimization/problems/quadratic_expression.py
@@ -137,6 +137,10 @@ class QuadraticExpression(QuadraticProgramElement):
         Returns:
             The coefficients of the quadratic expression.
         """
+        # variables may have been added since the coefficients were set
+        n = self.quadratic_program.get_num_vars()
+        if self._coefficients.shape[0] < n:
+            self._coefficients.resize((n, n))
         return self._coefficients
 
     @coefficients.setter
@@ -165,7 +169,7 @@ class QuadraticExpression(QuadraticProgramElement):
         Returns:
             An array with the coefficients corresponding to the quadratic expression.
         """
-        coeffs = self._symmetric_matrix(self._coefficients) if symmetric else self._coefficients
+        coeffs = self._symmetric_matrix(self.coefficients) if symmetric else self.coefficients
         return coeffs.toarray()
 
     def to_dict(
@@ -181,7 +185,7 @@ class QuadraticExpression(QuadraticProgramElement):
         Returns:
             An dictionary with the coefficients corresponding to the quadratic expression.
         """
-        coeffs = self._symmetric_matrix(self._coefficients) if symmetric else self._coefficients
+        coeffs = self._symmetric_matrix(self.coefficients) if symmetric else self.coefficients
         if use_name:
             return {
                 (
-- 
2.43.0


From 2ccf73770507a86d3546460f4f00125bc999c39f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:29:32 +0000
Subject: [PATCH 16/47] fix: read measured eigenstates with the right qubit
 order and probabilities

---
 qiskit_optimization/algorithms/grover_optimizer.py     |  8 +++++---
 .../algorithms/optimization_algorithm.py               | 10 ++++++++--
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/qiskit_optimization/algorithms/grover_optimizer.py b/qiskit_optimization/algorithms/grover_optimizer.py
index 749f540..ccabe0f 100644
--- a/qiskit_optimization/algorithms/grover_optimizer.py
+++ b/qiskit_optimization/algorithms/grover_optimizer.py
@@ -261,9 +261,11 @@ class GroverOptimizer(OptimizationAlgorithm):
                         rho = partial_trace(self._circuit_results, indices)
                         self._circuit_results = np.diag(rho.data) ** 0.5
                     else:
-                        self._circuit_results = {
-                            i[0:n_key]: v for i, v in self._circuit_results.items()
-                        }
+                        key_probs = {}  # type: Dict[str, float]
+                        for i, amp in self._circuit_results.items():
+                            key = i[0:n_key][::-1]
+                            key_probs[key] = key_probs.get(key, 0.0) + amp ** 2
+                        self._circuit_results = {i: np.sqrt(p) for i, p in key_probs.items()}
 
                     raw_samples = self._eigenvector_to_solutions(
                         self._circuit_results, problem_init
diff --git a/qiskit_optimization/algorithms/optimization_algorithm.py b/qiskit_optimization/algorithms/optimization_algorithm.py
index 41174e4..9baae19 100644
--- a/qiskit_optimization/algorithms/optimization_algorithm.py
+++ b/qiskit_optimization/algorithms/optimization_algorithm.py
@@ -535,7 +535,9 @@ class OptimizationAlgorithm(ABC):
             TypeError: If the type of eigenvector is not supported.
         """
         if isinstance(eigenvector, DictStateFn):
-            eigenvector = {bitstr: val ** 2 for (bitstr, val) in eigenvector.primitive.items()}
+            eigenvector = {
+                bitstr: abs(val) ** 2 for (bitstr, val) in eigenvector.primitive.items()
+            }
         elif isinstance(eigenvector, StateFn):
             eigenvector = eigenvector.to_matrix()
 
@@ -551,13 +553,17 @@ class OptimizationAlgorithm(ABC):
 
         solutions = []
         if isinstance(eigenvector, dict):
+            # minimum eigensolvers return normalized amplitudes, otherwise values are counts
+            if np.isclose(sum(abs(val) ** 2 for val in eigenvector.values()), 1.0):
+                eigenvector = {bitstr: abs(val) ** 2 for (bitstr, val) in eigenvector.items()}
             all_counts = sum(eigenvector.values())
             # iterate over all samples
             for bitstr, count in eigenvector.items():
                 sampling_probability = count / all_counts
                 # add the bitstring, if the sampling probability exceeds the threshold
                 if sampling_probability >= min_probability:
-                    solutions.append(generate_solution(bitstr, qubo, sampling_probability))
+                    # the rightmost bit corresponds to the first qubit
+                    solutions.append(generate_solution(bitstr[::-1], qubo, sampling_probability))
 
         elif isinstance(eigenvector, np.ndarray):
             num_qubits = int(np.log2(eigenvector.size))
-- 
2.43.0


From c4174720c2cb2e79e73143e3bfb72f17f0c0d4e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:30:11 +0000
Subject: [PATCH 17/47] fix: GroverOptimizer sorts the raw samples of
 maximization problems best first

---
 qiskit_optimization/algorithms/grover_optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit_optimization/algorithms/grover_optimizer.py b/qiskit_optimization/algorithms/grover_optimizer.py
index ccabe0f..2d7193a 100644
--- a/qiskit_optimization/algorithms/grover_optimizer.py
+++ b/qiskit_optimization/algorithms/grover_optimizer.py
@@ -270,7 +270,7 @@ class GroverOptimizer(OptimizationAlgorithm):
                     raw_samples = self._eigenvector_to_solutions(
                         self._circuit_results, problem_init
                     )
-                    raw_samples.sort(key=lambda x: problem_.objective.sense.value * x.fval)
+                    raw_samples.sort(key=lambda x: problem_init.objective.sense.value * x.fval)
                     samples = self._interpret_samples(problem, raw_samples, self._converters)
                 else:
                     # Using Durr and Hoyer method, increase m.
-- 
2.43.0


From b35b59f55f9181db48841159ccade3dfdf4d0c7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:04 +0000
Subject: [PATCH 18/47] fix: optimizers without converters no longer change the
 given problem

---
 qiskit_optimization/algorithms/grover_optimizer.py           | 5 +++--
 .../algorithms/recursive_minimum_eigen_optimizer.py          | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/qiskit_optimization/algorithms/grover_optimizer.py b/qiskit_optimization/algorithms/grover_optimizer.py
index 2d7193a..cf36036 100644
--- a/qiskit_optimization/algorithms/grover_optimizer.py
+++ b/qiskit_optimization/algorithms/grover_optimizer.py
@@ -173,8 +173,9 @@ class GroverOptimizer(OptimizationAlgorithm):
         self._verify_compatibility(problem)
 
         # convert problem to QUBO
-        problem_ = self._convert(problem, self._converters)
-        problem_init = deepcopy(problem_)
+        problem_init = self._convert(problem, self._converters)
+        # the problem may be the one of the user, which must not be changed
+        problem_ = deepcopy(problem_init)
 
         # convert to minimization problem
         if problem_.objective.sense == problem_.objective.Sense.MAXIMIZE:
diff --git a/qiskit_optimization/algorithms/recursive_minimum_eigen_optimizer.py b/qiskit_optimization/algorithms/recursive_minimum_eigen_optimizer.py
index f9487eb..ea22a32 100644
--- a/qiskit_optimization/algorithms/recursive_minimum_eigen_optimizer.py
+++ b/qiskit_optimization/algorithms/recursive_minimum_eigen_optimizer.py
@@ -224,8 +224,9 @@ class RecursiveMinimumEigenOptimizer(OptimizationAlgorithm):
         self._verify_compatibility(problem)
 
         # convert problem to QUBO, this implicitly checks if the problem is compatible
-        problem_ = self._convert(problem, self._converters)
-        problem_ref = deepcopy(problem_)
+        problem_ref = self._convert(problem, self._converters)
+        # the problem may be the one of the user, which must not be changed
+        problem_ = deepcopy(problem_ref)
 
         # run recursive optimization until the resulting problem is small enough
         replacements = {}  # type: Dict[str, Tuple[str, int]]
-- 
2.43.0


From 3dad123d947227cefff71207861e524cbf5ac48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:37:46 +0000
Subject: [PATCH 19/47] fix: recursive substitutions no longer pin the kept
 variable to zero

---
 .../algorithms/recursive_minimum_eigen_optimizer.py            | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/qiskit_optimization/algorithms/recursive_minimum_eigen_optimizer.py b/qiskit_optimization/algorithms/recursive_minimum_eigen_optimizer.py
index ea22a32..7a79971 100644
--- a/qiskit_optimization/algorithms/recursive_minimum_eigen_optimizer.py
+++ b/qiskit_optimization/algorithms/recursive_minimum_eigen_optimizer.py
@@ -279,6 +279,9 @@ class RecursiveMinimumEigenOptimizer(OptimizationAlgorithm):
                 problem_ = problem_.substitute_variables(variables={i: (j, -1)})
                 if problem_.status == QuadraticProgram.Status.INFEASIBLE:
                     raise QiskitOptimizationError("Infeasible due to variable substitution")
+                # x_i = 1 - x_j does not restrict x_j, unlike the auxiliary x_i = -x_j
+                var_j = problem_.get_variable(x_j)
+                var_j.lowerbound, var_j.upperbound = 0, 1
                 replacements[x_i] = (x_j, -1)
 
         # solve remaining problem
-- 
2.43.0


From 8d8e720ead2b2346f0ecfbc98d249668c86e8370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:55 +0000
Subject: [PATCH 20/47] fix: multi-start optimizers compare trials in one sense

---
 qiskit_optimization/algorithms/multistart_optimizer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qiskit_optimization/algorithms/multistart_optimizer.py b/qiskit_optimization/algorithms/multistart_optimizer.py
index 57ed263..624d624 100644
--- a/qiskit_optimization/algorithms/multistart_optimizer.py
+++ b/qiskit_optimization/algorithms/multistart_optimizer.py
@@ -90,14 +90,14 @@ class MultiStartOptimizer(OptimizationAlgorithm, ABC):
             fval = problem.objective.evaluate(x) * problem.objective.sense.value
             # we minimize the objective
             if fval < fval_sol:
-                # here we get back to the original sense of the problem
-                fval_sol = fval * problem.objective.sense.value
+                fval_sol = fval
                 x_sol = x
                 rest_sol = rest
 
         return OptimizationResult(
             x=x_sol,
-            fval=fval_sol,
+            # here we get back to the original sense of the problem
+            fval=fval_sol * problem.objective.sense.value,
             variables=problem.variables,
             status=self._get_feasibility_status(problem, x_sol),
             raw_results=rest_sol,
-- 
2.43.0


From 8ae60ceecf601d9a5d08684e32652a6f69c916de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:48:55 +0000
Subject: [PATCH 21/47] fix: CplexOptimizer reports FAILURE when no solution
 exists

---
 .../algorithms/cplex_optimizer.py             | 23 ++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/qiskit_optimization/algorithms/cplex_optimizer.py b/qiskit_optimization/algorithms/cplex_optimizer.py
index 393a3a6..00925ac 100644
--- a/qiskit_optimization/algorithms/cplex_optimizer.py
+++ b/qiskit_optimization/algorithms/cplex_optimizer.py
@@ -15,7 +15,11 @@
 import logging
 
 from qiskit.exceptions import MissingOptionalLibraryError
-from .optimization_algorithm import OptimizationAlgorithm, OptimizationResult
+from .optimization_algorithm import (
+    OptimizationAlgorithm,
+    OptimizationResult,
+    OptimizationResultStatus,
+)
 from ..exceptions import QiskitOptimizationError
 from ..problems.quadratic_program import QuadraticProgram
 
@@ -135,12 +139,25 @@ class CplexOptimizer(OptimizationAlgorithm):
         # process results
         sol = cplex.solution
 
+        try:
+            x = sol.get_values()
+        except CplexSolverError as ex:
+            # no solution exists, i.e., the problem is infeasible or unbounded
+            logger.warning("CPLEX found no solution: %s", ex)
+            return OptimizationResult(
+                x=None,
+                fval=None,
+                variables=problem.variables,
+                status=OptimizationResultStatus.FAILURE,
+                raw_results=sol,
+            )
+
         # create results
         result = OptimizationResult(
-            x=sol.get_values(),
+            x=x,
             fval=sol.get_objective_value(),
             variables=problem.variables,
-            status=self._get_feasibility_status(problem, sol.get_values()),
+            status=self._get_feasibility_status(problem, x),
             raw_results=sol,
         )
 
-- 
2.43.0


From b782e6e3d2ab0956e5b28a64aa98357007cd8219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:52:31 +0000
Subject: [PATCH 22/47] fix: multi-start guesses for variables bounded beyond
 the clipping value

---
 qiskit_optimization/algorithms/multistart_optimizer.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/qiskit_optimization/algorithms/multistart_optimizer.py b/qiskit_optimization/algorithms/multistart_optimizer.py
index 624d624..bf9805e 100644
--- a/qiskit_optimization/algorithms/multistart_optimizer.py
+++ b/qiskit_optimization/algorithms/multistart_optimizer.py
@@ -80,6 +80,12 @@ class MultiStartOptimizer(OptimizationAlgorithm, ABC):
                 for i, var in enumerate(problem.variables):
                     lowerbound = var.lowerbound if var.lowerbound > -INFINITY else -self._clip
                     upperbound = var.upperbound if var.upperbound < INFINITY else self._clip
+                    # a finite bound may lie beyond the clipping value of the infinite one
+                    if lowerbound > upperbound:
+                        if var.upperbound < INFINITY:
+                            lowerbound = upperbound
+                        else:
+                            upperbound = lowerbound
                     x_0[i] = uniform.rvs(lowerbound, (upperbound - lowerbound))
             # run optimization
             t_0 = time.time()
-- 
2.43.0


From 972ddb9fb45a1224d455a8d67fba7bde5e8fbe81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:14 +0000
Subject: [PATCH 23/47] fix: parse_gset_format reads the edge weights

---
 qiskit_optimization/applications/max_cut.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qiskit_optimization/applications/max_cut.py b/qiskit_optimization/applications/max_cut.py
index 3510773..d1d5bf5 100644
--- a/qiskit_optimization/applications/max_cut.py
+++ b/qiskit_optimization/applications/max_cut.py
@@ -116,10 +116,10 @@ class Maxcut(GraphOptimizationApplication):
                     w = np.zeros((n, n))
                     header = False
                 else:
-                    s__, t__, _ = v
+                    s__, t__, weight = v
                     s__ -= 1  # adjust 1-index
                     t__ -= 1  # ditto
-                    w[s__, t__] = t__
+                    w[s__, t__] = weight
                     count += 1
             assert m == count
         w += w.T
-- 
2.43.0


From cc5bf744bb7b3bd070f3da5baeb6a10a0c5052f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:14 +0000
Subject: [PATCH 24/47] fix: parse_tsplib_format accepts TSPLIB files and uses
 the coordinates of each node

---
 qiskit_optimization/applications/tsp.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/qiskit_optimization/applications/tsp.py b/qiskit_optimization/applications/tsp.py
index 822f8a6..640c63e 100644
--- a/qiskit_optimization/applications/tsp.py
+++ b/qiskit_optimization/applications/tsp.py
@@ -154,17 +154,12 @@ class Tsp(GraphOptimizationApplication):
         Returns:
             A Tsp instance data.
         """
-        name = ""
         coord = []  # type: ignore
         with open(filename) as infile:
             coord_section = False
             for line in infile:
-                if line.startswith("NAME"):
-                    name = line.split(":")[1]
-                    name.strip()
-                elif line.startswith("TYPE"):
-                    typ = line.split(":")[1]
-                    typ.strip()
+                if line.startswith("TYPE"):
+                    typ = line.split(":")[1].strip()
                     if typ != "TSP":
                         raise QiskitOptimizationError(
                             'This supports only "TSP" type. Actual: {}'.format(typ)
@@ -173,16 +168,19 @@ class Tsp(GraphOptimizationApplication):
                     dim = int(line.split(":")[1])
                     coord = np.zeros((dim, 2))  # type: ignore
                 elif line.startswith("EDGE_WEIGHT_TYPE"):
-                    typ = line.split(":")[1]
-                    typ.strip()
+                    typ = line.split(":")[1].strip()
                     if typ != "EUC_2D":
                         raise QiskitOptimizationError(
                             'This supports only "EUC_2D" edge weight. Actual: {}'.format(typ)
                         )
                 elif line.startswith("NODE_COORD_SECTION"):
                     coord_section = True
+                elif line.startswith("EOF"):
+                    break
                 elif coord_section:
                     v = line.split()
+                    if not v:
+                        continue
                     index = int(v[0]) - 1
                     coord[index][0] = float(v[1])
                     coord[index][1] = float(v[2])
@@ -192,8 +190,9 @@ class Tsp(GraphOptimizationApplication):
         y_max = max(coord_[1] for coord_ in coord)
         y_min = min(coord_[1] for coord_ in coord)
 
+        pos = {i: (coord_[0], coord_[1]) for i, coord_ in enumerate(coord)}
         graph = nx.random_geometric_graph(
-            len(coord), np.hypot(x_max - x_min, y_max - y_min) + 1, pos=coord
+            len(coord), np.hypot(x_max - x_min, y_max - y_min) + 1, pos=pos
         )
         for w, v in graph.edges:
             delta = [graph.nodes[w]["pos"][i] - graph.nodes[v]["pos"][i] for i in range(2)]
-- 
2.43.0


From 7de2a14907c8f1581c20e836b53a1b630b7e021c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:11:14 +0000
Subject: [PATCH 25/47] fix: Tsp.create_random_instance uses the seed 0

---
 qiskit_optimization/applications/tsp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit_optimization/applications/tsp.py b/qiskit_optimization/applications/tsp.py
index 640c63e..b5816a2 100644
--- a/qiskit_optimization/applications/tsp.py
+++ b/qiskit_optimization/applications/tsp.py
@@ -130,7 +130,7 @@ class Tsp(GraphOptimizationApplication):
         Returns:
              A Tsp instance created from the input information
         """
-        if seed:
+        if seed is not None:
             algorithm_globals.random_seed = seed
         coord = algorithm_globals.random.uniform(low, high, (n, 2))
         pos = {i: (coord_[0], coord_[1]) for i, coord_ in enumerate(coord)}
-- 
2.43.0


From 3eb05ebbc3514ef81f771fed910020c383784a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:21:46 +0000
Subject: [PATCH 26/47] fix: ADMM keeps the y iterates apart from the z
 iterates

---
 qiskit_optimization/algorithms/admm_optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit_optimization/algorithms/admm_optimizer.py b/qiskit_optimization/algorithms/admm_optimizer.py
index 2b4694d..4ac543b 100644
--- a/qiskit_optimization/algorithms/admm_optimizer.py
+++ b/qiskit_optimization/algorithms/admm_optimizer.py
@@ -384,7 +384,7 @@ class ADMMOptimizer(OptimizationAlgorithm):
             self._state.x0_saved.append(self._state.x0)
             self._state.u_saved.append(self._state.u)
             self._state.z_saved.append(self._state.z)
-            self._state.z_saved.append(self._state.y)
+            self._state.y_saved.append(self._state.y)
 
             self._update_rho(residual, dual_residual)
 
-- 
2.43.0


From a75c646a18b8210040b0310fcfe27f77b6352c9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:29:48 +0000
Subject: [PATCH 27/47] fix: ADMM decreases rho by tau_decr when the dual
 residual dominates

---
 qiskit_optimization/algorithms/admm_optimizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit_optimization/algorithms/admm_optimizer.py b/qiskit_optimization/algorithms/admm_optimizer.py
index 4ac543b..0e1ae4d 100644
--- a/qiskit_optimization/algorithms/admm_optimizer.py
+++ b/qiskit_optimization/algorithms/admm_optimizer.py
@@ -822,7 +822,7 @@ class ADMMOptimizer(OptimizationAlgorithm):
             if primal_residual > self._params.mu_res * dual_residual:
                 self._state.rho = self._params.tau_incr * self._state.rho
             elif dual_residual > self._params.mu_res * primal_residual:
-                self._state.rho = self._params.tau_decr * self._state.rho
+                self._state.rho = self._state.rho / self._params.tau_decr
 
     def _get_constraint_residual(self) -> float:
         """Compute violation of the constraints of the original problem, as:
-- 
2.43.0


From 88a2d407f9eddf817d2dec7cfaac9714c0d0dcf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:30:25 +0000
Subject: [PATCH 28/47] fix: ADMM no longer leaves out binary variables of
 products and negative coefficients

---
 qiskit_optimization/algorithms/admm_optimizer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qiskit_optimization/algorithms/admm_optimizer.py b/qiskit_optimization/algorithms/admm_optimizer.py
index 0e1ae4d..0d36a4a 100644
--- a/qiskit_optimization/algorithms/admm_optimizer.py
+++ b/qiskit_optimization/algorithms/admm_optimizer.py
@@ -545,6 +545,8 @@ class ADMMOptimizer(OptimizationAlgorithm):
                 self._state.op.objective.linear[binary_index] != 0
                 or np.abs(self._state.op.objective.quadratic.coefficients[binary_index, :]).sum()
                 != 0
+                or np.abs(self._state.op.objective.quadratic.coefficients[:, binary_index]).sum()
+                != 0
             ):
                 # add the variable if it was not added before
                 if binary_index not in step1_absolute_indices:
@@ -559,7 +561,7 @@ class ADMMOptimizer(OptimizationAlgorithm):
         for constraint in self._state.binary_equality_constraints:
             for binary_index in list(rest_binary):
                 if (
-                    constraint.linear[binary_index] > 0
+                    constraint.linear[binary_index] != 0
                     and binary_index not in step1_absolute_indices
                 ):
                     # a binary variable with the binary_index is present in this constraint
-- 
2.43.0


From 56156da8c129f1b41dec88d6eecbe2be47024ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:02 +0000
Subject: [PATCH 29/47] fix: the continuous ADMM block no longer repeats the
 products of binary variables

---
 qiskit_optimization/algorithms/admm_optimizer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/qiskit_optimization/algorithms/admm_optimizer.py b/qiskit_optimization/algorithms/admm_optimizer.py
index 0d36a4a..7524ad5 100644
--- a/qiskit_optimization/algorithms/admm_optimizer.py
+++ b/qiskit_optimization/algorithms/admm_optimizer.py
@@ -698,6 +698,8 @@ class ADMMOptimizer(OptimizationAlgorithm):
             variable.upperbound = 1.0
             variable.lowerbound = 0.0
             # replacing Q0 objective and take of min/max sense, initially we consider minimization
+            for other_index in self._state.binary_indices[:i]:
+                op2.objective.quadratic[other_index, var_index] = 0
             op2.objective.quadratic[var_index, var_index] = self._state.rho / 2
             # replacing linear objective
             op2.objective.linear[var_index] = -1 * self._state.lambda_mult[i] - self._state.rho * (
-- 
2.43.0


From d26bd1bb0600815815aefe9c493a8bcc7167d4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:31:33 +0000
Subject: [PATCH 30/47] fix: ADMM rejects objectives that mix integer and
 continuous variables

---
 qiskit_optimization/algorithms/admm_optimizer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/qiskit_optimization/algorithms/admm_optimizer.py b/qiskit_optimization/algorithms/admm_optimizer.py
index 7524ad5..d900109 100644
--- a/qiskit_optimization/algorithms/admm_optimizer.py
+++ b/qiskit_optimization/algorithms/admm_optimizer.py
@@ -267,6 +267,7 @@ class ADMMOptimizer(OptimizationAlgorithm):
 
         # 1. get bin/int and continuous variable indices
         bin_int_indices = self._get_variable_indices(problem, Variable.Type.BINARY)
+        bin_int_indices += self._get_variable_indices(problem, Variable.Type.INTEGER)
         continuous_indices = self._get_variable_indices(problem, Variable.Type.CONTINUOUS)
 
         # 2. binary and continuous variables are separable in objective
-- 
2.43.0


From 73a78395a53eb401010236e0f7a4daf4b578bf98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:41 +0000
Subject: [PATCH 31/47] fix: WarmStartQAOA aggregates the solutions of several
 warm starts in the original variables

---
 .../algorithms/warm_start_qaoa_optimizer.py   | 33 +++++++++----------
 1 file changed, 16 insertions(+), 17 deletions(-)

diff --git a/qiskit_optimization/algorithms/warm_start_qaoa_optimizer.py b/qiskit_optimization/algorithms/warm_start_qaoa_optimizer.py
index 53148fe..6865fe9 100644
--- a/qiskit_optimization/algorithms/warm_start_qaoa_optimizer.py
+++ b/qiskit_optimization/algorithms/warm_start_qaoa_optimizer.py
@@ -66,28 +66,23 @@ class MeanAggregator(BaseAggregator):
         """
 
         # Use a dict for fast solution look-up
-        # Key: sample code, value: tuple of fval, probability
-        dict_samples: Dict[str, Tuple[float, float]] = {}
-
-        def _to_string(x: np.ndarray) -> str:
-            return "".join(str(int(v)) for v in x)
-
-        def _from_string(string) -> np.ndarray:
-            return np.array([float(c) for c in string])
+        # Key: values of the variables, value: tuple of fval, probability, status
+        dict_samples: Dict[
+            Tuple[float, ...], Tuple[float, float, OptimizationResultStatus]
+        ] = {}
 
         # Sum up all the probabilities in the results
         for result in results:
             for sample in result.samples:
                 # state, fval, prob = sample[0], sample[1], sample[2]
                 state, fval, prob = (
-                    _to_string(sample.x),
+                    tuple(float(v) for v in sample.x),
                     sample.fval,
                     sample.probability,
                 )
                 if state in dict_samples:
-                    dict_samples[state] = (fval, dict_samples[state][1] + prob)
-                else:
-                    dict_samples[state] = (fval, prob)
+                    prob += dict_samples[state][1]
+                dict_samples[state] = (fval, prob, sample.status)
 
         # Divide by the number of results to normalize
         aggregated_samples = []
@@ -95,10 +90,10 @@ class MeanAggregator(BaseAggregator):
         for state in dict_samples:
             # sample = (state, dict_samples[state][0], dict_samples[state][1] / num_results)
             sample = SolutionSample(
-                x=_from_string(state),
+                x=np.array(state),
                 fval=dict_samples[state][0],
                 probability=dict_samples[state][1] / num_results,
-                status=OptimizationResultStatus.SUCCESS,
+                status=dict_samples[state][2],
             )
             aggregated_samples.append(sample)
 
@@ -336,15 +331,19 @@ class WarmStartQAOAOptimizer(MinimumEigenOptimizer):
             return results[0]
         else:
             samples = self._aggregator.aggregate(results)
-            samples.sort(key=lambda sample: converted_problem.objective.sense.value * sample.fval)
+            samples.sort(
+                key=lambda sample: (
+                    sample.status.value,
+                    problem.objective.sense.value * sample.fval,
+                )
+            )
 
-            # translate result back to the original variables
+            # the samples are already translated back to the original variables
             return cast(
                 MinimumEigenOptimizationResult,
                 self._interpret(
                     x=samples[0].x,
                     problem=problem,
-                    converters=self._converters,
                     result_class=MinimumEigenOptimizationResult,
                     samples=samples,
                 ),
-- 
2.43.0


From b121f1b24b1772b4f2ff433f948ac071ba3b9c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:38 +0000
Subject: [PATCH 32/47] fix: GoemansWilliamsonOptimizer reports FAILURE when
 the SDP cannot be solved

---
 .../algorithms/goemans_williamson_optimizer.py              | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/qiskit_optimization/algorithms/goemans_williamson_optimizer.py b/qiskit_optimization/algorithms/goemans_williamson_optimizer.py
index 1cf06bd..cbf96ee 100644
--- a/qiskit_optimization/algorithms/goemans_williamson_optimizer.py
+++ b/qiskit_optimization/algorithms/goemans_williamson_optimizer.py
@@ -156,11 +156,11 @@ class GoemansWilliamsonOptimizer(OptimizationAlgorithm):
         except (DCPError, DGPError, SolverError):
             logger.error("Can't solve SDP problem")
             return GoemansWilliamsonOptimizationResult(
-                x=[],
-                fval=0,
+                x=None,
+                fval=None,
                 variables=problem.variables,
                 status=OptimizationResultStatus.FAILURE,
-                samples=[],
+                samples=None,
             )
 
         cuts = self._generate_random_cuts(chi, len(adj_matrix))
-- 
2.43.0


From e509b17a7322612303b35cfe50439f7dbe45ce57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:48:43 +0000
Subject: [PATCH 33/47] fix: Goemans-Williamson cuts of SDP solutions that are
 singular up to rounding

---
 .../algorithms/goemans_williamson_optimizer.py         | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/qiskit_optimization/algorithms/goemans_williamson_optimizer.py b/qiskit_optimization/algorithms/goemans_williamson_optimizer.py
index cbf96ee..0ce25d3 100644
--- a/qiskit_optimization/algorithms/goemans_williamson_optimizer.py
+++ b/qiskit_optimization/algorithms/goemans_williamson_optimizer.py
@@ -282,11 +282,11 @@ class GoemansWilliamsonOptimizer(OptimizationAlgorithm):
         Returns:
             An array of random cuts.
         """
-        eigenvalues = np.linalg.eigh(chi)[0]
-        if min(eigenvalues) < 0:
-            chi = chi + (1.001 * abs(min(eigenvalues)) * np.identity(num_vertices))
-        elif min(eigenvalues) == 0:
-            chi = chi + 0.00001 * np.identity(num_vertices)
+        # make the matrix positive definite beyond rounding errors, otherwise it has no Cholesky factor
+        min_eigenvalue = min(np.linalg.eigh(chi)[0])
+        if min_eigenvalue < 0.00001:
+            shift = 0.00001 + 1.001 * max(0.0, -min_eigenvalue)
+            chi = chi + shift * np.identity(num_vertices)
         x = np.linalg.cholesky(chi).T
 
         r = np.random.normal(size=(self._num_cuts, num_vertices))
-- 
2.43.0


From aa12dbfff0c506d6c1dea91af9c9127002befa39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:03:04 +0000
Subject: [PATCH 34/47] fix: Tsp and VehicleRouting draw results without given
 positions

---
 qiskit_optimization/applications/tsp.py             | 2 ++
 qiskit_optimization/applications/vehicle_routing.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/qiskit_optimization/applications/tsp.py b/qiskit_optimization/applications/tsp.py
index b5816a2..79a1592 100644
--- a/qiskit_optimization/applications/tsp.py
+++ b/qiskit_optimization/applications/tsp.py
@@ -101,6 +101,8 @@ class Tsp(GraphOptimizationApplication):
             pos: The positions of nodes
         """
         x = self._result_to_x(result)
+        if pos is None:
+            pos = nx.spring_layout(self._graph)
         nx.draw(self._graph, with_labels=True, pos=pos)
         nx.draw_networkx_edges(
             self._graph,
diff --git a/qiskit_optimization/applications/vehicle_routing.py b/qiskit_optimization/applications/vehicle_routing.py
index 5be280d..44c9b69 100644
--- a/qiskit_optimization/applications/vehicle_routing.py
+++ b/qiskit_optimization/applications/vehicle_routing.py
@@ -158,6 +158,8 @@ class VehicleRouting(GraphOptimizationApplication):
         import matplotlib.pyplot as plt
 
         route_list = self.interpret(result)
+        if pos is None:
+            pos = nx.spring_layout(self._graph)
         nx.draw(self._graph, with_labels=True, pos=pos)
         nx.draw_networkx_edges(
             self._graph,
-- 
2.43.0


From 7d34070f0a2c6d68f178339f2c76efcb2265762d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:04:05 +0000
Subject: [PATCH 35/47] fix: Maxcut.draw colours the nodes by their own
 variable

---
 qiskit_optimization/applications/max_cut.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit_optimization/applications/max_cut.py b/qiskit_optimization/applications/max_cut.py
index d1d5bf5..3ba27ec 100644
--- a/qiskit_optimization/applications/max_cut.py
+++ b/qiskit_optimization/applications/max_cut.py
@@ -91,7 +91,7 @@ class Maxcut(GraphOptimizationApplication):
         # Return a list of strings for draw.
         # Color a node with red when the corresponding variable is 1.
         # Otherwise color it with blue.
-        return ["r" if value == 0 else "b" for value in x]
+        return ["r" if x[node] == 0 else "b" for node in self._graph.nodes]
 
     @staticmethod
     def parse_gset_format(filename: str) -> np.ndarray:
-- 
2.43.0


From 7ab5f535127fe55429e0b871dce178a8f26920ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:11:44 +0000
Subject: [PATCH 36/47] fix: an equality with right-hand side zero holds up to
 rounding

math.isclose without abs_tol compares exactly when the right-hand side is 0, so
0.1 x + 0.2 y - 0.3 z == 0 was reported as violated at x = y = z = 1.
---
 qiskit_optimization/problems/quadratic_program.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/qiskit_optimization/problems/quadratic_program.py b/qiskit_optimization/problems/quadratic_program.py
index b96ea28..1e98f83 100644
--- a/qiskit_optimization/problems/quadratic_program.py
+++ b/qiskit_optimization/problems/quadratic_program.py
@@ -1502,7 +1502,9 @@ class QuadraticProgram:
                 violated_constraints.append(constraint)
             elif constraint.sense == ConstraintSense.GE and lhs < constraint.rhs:
                 violated_constraints.append(constraint)
-            elif constraint.sense == ConstraintSense.EQ and not isclose(lhs, constraint.rhs):
+            elif constraint.sense == ConstraintSense.EQ and not isclose(
+                lhs, constraint.rhs, abs_tol=1e-9
+            ):
                 violated_constraints.append(constraint)
 
         feasible = not violated_variables and not violated_constraints
-- 
2.43.0


From 553d556d301b42a7e31a1eeb9c9bd4092606525a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:12:22 +0000
Subject: [PATCH 37/47] fix: substituting all variables of an equality allows
 for rounding

0.1 x + 0.2 y == 0.3 with x = y = 1 is feasible, but the substitution was marked
infeasible since 0.3 - 0.1 - 0.2 is not exactly 0.
---
 qiskit_optimization/problems/quadratic_program.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qiskit_optimization/problems/quadratic_program.py b/qiskit_optimization/problems/quadratic_program.py
index 1e98f83..d3ac5c1 100644
--- a/qiskit_optimization/problems/quadratic_program.py
+++ b/qiskit_optimization/problems/quadratic_program.py
@@ -1588,7 +1588,8 @@ class SubstituteVariables:
         # I use the following pylint option because `rhs` should come to right
         # pylint: disable=misplaced-comparison-constant
         if sense == Constraint.Sense.EQ:
-            if 0 == rhs:
+            # up to rounding, as `QuadraticProgram.get_feasibility_info` does
+            if isclose(0, rhs, abs_tol=1e-9):
                 return True
         elif sense == Constraint.Sense.LE:
             if 0 <= rhs:
-- 
2.43.0


From 1722b716a4cba85088c75b4c37cf27ffc92a3ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:59 +0000
Subject: [PATCH 38/47] fix: substitution detects quadratic constraints whose
 linear terms cancel

The sum of two dok matrices keeps explicit zeros, so a constraint that became constant
(e.g. x - x <= -1) was kept as a linear constraint and the program marked VALID.
---
 qiskit_optimization/problems/quadratic_program.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/qiskit_optimization/problems/quadratic_program.py b/qiskit_optimization/problems/quadratic_program.py
index d3ac5c1..ee18a38 100644
--- a/qiskit_optimization/problems/quadratic_program.py
+++ b/qiskit_optimization/problems/quadratic_program.py
@@ -1805,7 +1805,7 @@ class SubstituteVariables:
                     sense=quad_cst.sense,
                     rhs=rhs,
                 )
-            elif linear.nnz > 0:
+            elif linear.count_nonzero() > 0:
                 name = quad_cst.name
                 lin_names = set(lin.name for lin in self._dst.linear_constraints)
                 while name in lin_names:
-- 
2.43.0


From 7b1f27948643af0bf6183f8bfd839b656db8fecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:01:42 +0000
Subject: [PATCH 39/47] fix: IntegerToBinary encodes only integers when the
 bounds are fractional

---
 qiskit_optimization/converters/integer_to_binary.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/qiskit_optimization/converters/integer_to_binary.py b/qiskit_optimization/converters/integer_to_binary.py
index a1e47c1..ead42ca 100644
--- a/qiskit_optimization/converters/integer_to_binary.py
+++ b/qiskit_optimization/converters/integer_to_binary.py
@@ -14,6 +14,7 @@
 
 import copy
 import logging
+import math
 from typing import Dict, List, Optional, Tuple, Union
 
 import numpy as np
@@ -78,6 +79,9 @@ class IntegerToBinary(QuadraticProgramConverter):
             # Declare variables
             for x in self._src.variables:
                 if x.vartype == Variable.Type.INTEGER:
+                    # the integer values within fractional bounds
+                    x.lowerbound = math.ceil(x.lowerbound)
+                    x.upperbound = math.floor(x.upperbound)
                     new_vars = self._convert_var(x.name, x.lowerbound, x.upperbound)
                     self._conv[x] = new_vars
                     for (var_name, _) in new_vars:
-- 
2.43.0


From 3ca877c41d86dbbf2dd7d9412cac0efb51c74a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:27:22 +0000
Subject: [PATCH 40/47] fix: from_ising takes the sign of a Pauli term into
 account

---
 qiskit_optimization/problems/quadratic_program.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qiskit_optimization/problems/quadratic_program.py b/qiskit_optimization/problems/quadratic_program.py
index ee18a38..2ac1c75 100644
--- a/qiskit_optimization/problems/quadratic_program.py
+++ b/qiskit_optimization/problems/quadratic_program.py
@@ -1393,7 +1393,8 @@ class QuadraticProgram:
         for pauli_op in pauli_list:
             pauli_op = pauli_op.to_pauli_op()
             pauli = pauli_op.primitive
-            coeff = pauli_op.coeff
+            # a Pauli may carry a phase, e.g., Pauli("-Z")
+            coeff = pauli_op.coeff * (-1j) ** pauli.phase
             # Count the number of Pauli Zs in a Pauli term
             lst_z = pauli.z.tolist()
             z_index = [i for i, z in enumerate(lst_z) if z is True]
-- 
2.43.0


From 1ce4679b22abfcbbbf57338f22ae0df9c1d12e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:09 +0000
Subject: [PATCH 41/47] fix: InequalityToEquality keeps the bounds of binary
 variables

---
 qiskit_optimization/converters/inequality_to_equality.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qiskit_optimization/converters/inequality_to_equality.py b/qiskit_optimization/converters/inequality_to_equality.py
index f5428b8..098a6bd 100644
--- a/qiskit_optimization/converters/inequality_to_equality.py
+++ b/qiskit_optimization/converters/inequality_to_equality.py
@@ -79,7 +79,8 @@ class InequalityToEquality(QuadraticProgramConverter):
         # Copy variables
         for x in self._src.variables:
             if x.vartype == Variable.Type.BINARY:
-                self._dst.binary_var(name=x.name)
+                x_new = self._dst.binary_var(name=x.name)
+                x_new.lowerbound, x_new.upperbound = x.lowerbound, x.upperbound
             elif x.vartype == Variable.Type.INTEGER:
                 self._dst.integer_var(name=x.name, lowerbound=x.lowerbound, upperbound=x.upperbound)
             elif x.vartype == Variable.Type.CONTINUOUS:
-- 
2.43.0


From e96cdd916b2a5dad83f8ec53d37a7ccfc5a71e1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:10 +0000
Subject: [PATCH 42/47] fix: IntegerToBinary keeps the bounds of binary
 variables

---
 qiskit_optimization/converters/integer_to_binary.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qiskit_optimization/converters/integer_to_binary.py b/qiskit_optimization/converters/integer_to_binary.py
index ead42ca..8aeb760 100644
--- a/qiskit_optimization/converters/integer_to_binary.py
+++ b/qiskit_optimization/converters/integer_to_binary.py
@@ -90,7 +90,8 @@ class IntegerToBinary(QuadraticProgramConverter):
                     if x.vartype == Variable.Type.CONTINUOUS:
                         self._dst.continuous_var(x.lowerbound, x.upperbound, x.name)
                     elif x.vartype == Variable.Type.BINARY:
-                        self._dst.binary_var(x.name)
+                        x_new = self._dst.binary_var(x.name)
+                        x_new.lowerbound, x_new.upperbound = x.lowerbound, x.upperbound
                     else:
                         raise QiskitOptimizationError(
                             "Unsupported variable type {}".format(x.vartype)
-- 
2.43.0


From 3653771174a0b13c559031963e5e0e858dbbb635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:33:10 +0000
Subject: [PATCH 43/47] fix: LinearEqualityToPenalty keeps the bounds of binary
 variables

---
 qiskit_optimization/converters/linear_equality_to_penalty.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/qiskit_optimization/converters/linear_equality_to_penalty.py b/qiskit_optimization/converters/linear_equality_to_penalty.py
index e804fd8..edfa08d 100644
--- a/qiskit_optimization/converters/linear_equality_to_penalty.py
+++ b/qiskit_optimization/converters/linear_equality_to_penalty.py
@@ -80,7 +80,8 @@ class LinearEqualityToPenalty(QuadraticProgramConverter):
             if x.vartype == Variable.Type.CONTINUOUS:
                 self._dst.continuous_var(x.lowerbound, x.upperbound, x.name)
             elif x.vartype == Variable.Type.BINARY:
-                self._dst.binary_var(x.name)
+                x_new = self._dst.binary_var(x.name)
+                x_new.lowerbound, x_new.upperbound = x.lowerbound, x.upperbound
             elif x.vartype == Variable.Type.INTEGER:
                 self._dst.integer_var(x.lowerbound, x.upperbound, x.name)
             else:
-- 
2.43.0


From 3387193213b895177bf6c727c84c41f9d4053e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:03 +0000
Subject: [PATCH 44/47] fix: QUBO conversion respects the bounds of binary
 variables

---
 qiskit_optimization/converters/quadratic_program_to_qubo.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/qiskit_optimization/converters/quadratic_program_to_qubo.py b/qiskit_optimization/converters/quadratic_program_to_qubo.py
index 55fd993..ea3d6c1 100644
--- a/qiskit_optimization/converters/quadratic_program_to_qubo.py
+++ b/qiskit_optimization/converters/quadratic_program_to_qubo.py
@@ -19,6 +19,7 @@ import numpy as np
 from .quadratic_program_converter import QuadraticProgramConverter
 from ..exceptions import QiskitOptimizationError
 from ..problems.quadratic_program import QuadraticProgram
+from ..problems.variable import Variable
 
 
 class QuadraticProgramToQubo(QuadraticProgramConverter):
@@ -69,6 +70,11 @@ class QuadraticProgramToQubo(QuadraticProgramConverter):
         # Convert inequality constraints into equality constraints by adding slack variables
         problem_ = self._ineq_to_eq.convert(problem)
 
+        # a QUBO has no bounds, so binary variables with other bounds are encoded like integers
+        for x in problem_.variables:
+            if x.vartype == Variable.Type.BINARY and (x.lowerbound, x.upperbound) != (0, 1):
+                x.vartype = Variable.Type.INTEGER
+
         # Map integer variables to binary variables
         problem_ = self._int_to_bin.convert(problem_)
 
-- 
2.43.0


From adf39a7329e7aff034ff8a8bfbeefe84aaee85af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:27 +0000
Subject: [PATCH 45/47] fix: export constraints without terms to docplex

---
 qiskit_optimization/problems/quadratic_program.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/qiskit_optimization/problems/quadratic_program.py b/qiskit_optimization/problems/quadratic_program.py
index 2ac1c75..73e21ee 100644
--- a/qiskit_optimization/problems/quadratic_program.py
+++ b/qiskit_optimization/problems/quadratic_program.py
@@ -1081,7 +1081,7 @@ class QuadraticProgram:
             rhs = l_constraint.rhs
             if rhs == 0 and l_constraint.linear.coefficients.nnz == 0:
                 continue
-            linear_expr = 0
+            linear_expr = mdl.linear_expr()
             for j, v in l_constraint.linear.to_dict().items():
                 linear_expr += v * var[cast(int, j)]
             sense = l_constraint.sense
@@ -1105,7 +1105,7 @@ class QuadraticProgram:
                 and q_constraint.quadratic.coefficients.nnz == 0
             ):
                 continue
-            quadratic_expr = 0
+            quadratic_expr = mdl.linear_expr()
             for j, v in q_constraint.linear.to_dict().items():
                 quadratic_expr += v * var[cast(int, j)]
             for (j, k), v in q_constraint.quadratic.to_dict().items():
-- 
2.43.0


From af96895f6b0461c123f728cb38a7856685103a17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:03 +0000
Subject: [PATCH 46/47] fix: from_ising replaces the contents of the program

---
 qiskit_optimization/problems/quadratic_program.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/qiskit_optimization/problems/quadratic_program.py b/qiskit_optimization/problems/quadratic_program.py
index 73e21ee..32befc9 100644
--- a/qiskit_optimization/problems/quadratic_program.py
+++ b/qiskit_optimization/problems/quadratic_program.py
@@ -1376,10 +1376,6 @@ class QuadraticProgram:
                 "operator in the ListOp separately."
             )
 
-        # add binary variables
-        for i in range(qubit_op.num_qubits):
-            self.binary_var(name="x_{0}".format(i))
-
         # Create a QUBO matrix
         # The Qubo matrix is an upper triangular matrix.
         # Diagonal elements in the QUBO matrix are for linear terms of the qubit operator.
@@ -1461,6 +1457,11 @@ class QuadraticProgram:
             qubo_matrix[i, i] -= weight
             offset += weight
 
+        # replace what the program contained before and add binary variables
+        self.clear()
+        for i in range(qubit_op.num_qubits):
+            self.binary_var(name="x_{0}".format(i))
+
         # Set the objective function
         self.minimize(constant=offset, linear=linear_terms, quadratic=quadratic_terms)
         offset -= offset
-- 
2.43.0


From e3cee1049a222a33b0450b38c5c9ae5b86d9c143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:20:35 +0000
Subject: [PATCH 47/47] fix: results do not change when the program, point or
 samples they were made from are edited

---
 .../algorithms/optimization_algorithm.py              | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/qiskit_optimization/algorithms/optimization_algorithm.py b/qiskit_optimization/algorithms/optimization_algorithm.py
index 9baae19..87ba7a5 100644
--- a/qiskit_optimization/algorithms/optimization_algorithm.py
+++ b/qiskit_optimization/algorithms/optimization_algorithm.py
@@ -120,7 +120,8 @@ class OptimizationResult:
         Raises:
             QiskitOptimizationError: if sizes of ``x`` and ``variables`` do not match.
         """
-        self._variables = variables
+        # copies because the program and the arrays may be edited later
+        self._variables = list(variables)
         self._variable_names = [var.name for var in self._variables]
         if x is None:
             # if no state is given, it is set to None
@@ -134,7 +135,7 @@ class OptimizationResult:
                         len(x), x, len(variables), [v.name for v in variables]
                     )
                 )
-            self._x = np.asarray(x)
+            self._x = np.array(x)
             self._variables_dict = dict(zip(self._variable_names, self._x))
 
         self._fval = fval
@@ -144,10 +145,12 @@ class OptimizationResult:
             sum_prob = np.sum([e.probability for e in samples])
             if not np.isclose(sum_prob, 1.0):
                 warn("The sum of probability of samples is not close to 1: {}".format(sum_prob))
-            self._samples = samples
+            self._samples = list(samples)
         else:
             self._samples = [
-                SolutionSample(x=cast(np.ndarray, x), fval=fval, status=status, probability=1.0)
+                SolutionSample(
+                    x=cast(np.ndarray, self._x), fval=fval, status=status, probability=1.0
+                )
             ]
 
     def __repr__(self) -> str:
-- 
2.43.0

