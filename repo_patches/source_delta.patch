From 64b17aa78d46e07196a30db3492289d308a93cb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:34 +0000
Subject: [PATCH 01/59] fix: functional e_full divides by mu as documented (was
 multiplying)

---
 spins/fdfd_tools/functional.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spins/fdfd_tools/functional.py b/spins/fdfd_tools/functional.py
index c0fd2d9..38ea02a 100644
--- a/spins/fdfd_tools/functional.py
+++ b/spins/fdfd_tools/functional.py
@@ -84,7 +84,7 @@ def e_full(omega: complex,
         return [c - omega**2 * e * x for c, e, x in zip(curls, epsilon, e)]
 
     def op_mu(e):
-        curls = ch([m * y for m, y in zip(mu, ce(e))])
+        curls = ch([y / m for m, y in zip(mu, ce(e))])
         return [c - omega**2 * p * x for c, p, x in zip(curls, epsilon, e)]
 
     if np.any(np.equal(mu, None)):
-- 
2.43.0


From 30dbd433c0557ae473f03d4dd82f80447cd99ca9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:38:34 +0000
Subject: [PATCH 02/59] fix: eh_full works without mu (scalar operand of sparse
 matmul)

---
 spins/fdfd_tools/operators.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/spins/fdfd_tools/operators.py b/spins/fdfd_tools/operators.py
index ffedcb6..398656d 100644
--- a/spins/fdfd_tools/operators.py
+++ b/spins/fdfd_tools/operators.py
@@ -226,9 +226,10 @@ def eh_full(omega: complex,
         pm = sparse.diags(np.where(pmc, 0, 1))  # set pm to (not PMC)
 
     iwe = pe @ (1j * omega * sparse.diags(epsilon)) @ pe
-    iwm = 1j * omega
-    if not np.any(np.equal(mu, None)):
-        iwm *= sparse.diags(mu)
+    if np.any(np.equal(mu, None)):
+        iwm = 1j * omega * sparse.eye(epsilon.size)
+    else:
+        iwm = 1j * omega * sparse.diags(mu)
     iwm = pm @ iwm @ pm
 
     A1 = pe @ curl_h(dxes, bloch_vec, shift_orthogonal) @ pm
-- 
2.43.0


From f512e73a64f7bc23517bfdbf32aeaad7e233ba3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:54 +0000
Subject: [PATCH 03/59] fix: goos Sum.grad gives every input its own gradient
 array

The inputs shared one array, which the graph executor accumulates into in
place, so that a node used several times corrupted the gradients of its
siblings.
---
 spins/goos/math.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spins/goos/math.py b/spins/goos/math.py
index 45c2c27..f0ae722 100644
--- a/spins/goos/math.py
+++ b/spins/goos/math.py
@@ -263,7 +263,8 @@ class Sum(Function):
             if ind == i:
                 grads.append(copy.deepcopy(grad_val))
             else:
-                grads.append(goos.NumericFlow.Grad(grad_val.array_grad))
+                grads.append(
+                    goos.NumericFlow.Grad(np.array(grad_val.array_grad)))
         return grads
 
     def __add__(self, obj):
-- 
2.43.0


From c58cfe6fcd5bab3c0e6c5f4cd633e756cc8be780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:44:57 +0000
Subject: [PATCH 04/59] fix: goos Sum and Product broadcast scalars against
 arrays

Building one array from inputs of different shape fails on current numpy, and
the gradient of a broadcast scalar was not summed over the array.
---
 spins/goos/math.py | 27 +++++++++++++++++++++------
 1 file changed, 21 insertions(+), 6 deletions(-)

diff --git a/spins/goos/math.py b/spins/goos/math.py
index f0ae722..7c86cf4 100644
--- a/spins/goos/math.py
+++ b/spins/goos/math.py
@@ -1,6 +1,7 @@
 from typing import List, Iterable, Union
 
 import copy
+import functools
 import numbers
 
 import numpy as np
@@ -241,6 +242,13 @@ def find_dominant_numeric_flow(flow_list: List[goos.NumericFlow],
         return dom_flow
 
 
+def _reduce_grad(grad: np.ndarray, value: np.ndarray) -> np.ndarray:
+    """Sums the gradient over a scalar that was broadcast against an array."""
+    if np.size(value) == 1 and np.size(grad) > 1:
+        return np.reshape(np.sum(grad), np.shape(value))
+    return grad
+
+
 class Sum(Function):
     node_type = "goos.function.sum"
 
@@ -251,7 +259,8 @@ class Sum(Function):
     def eval(self, inputs: List[flows.NumericFlow],
              context: goos.EvalContext) -> flows.NumericFlow:
         flow = copy.deepcopy(find_dominant_numeric_flow(inputs))
-        flow.array = np.sum([x.array for x in inputs], axis=0)
+        flow.array = np.array(
+            functools.reduce(np.add, [x.array for x in inputs]))
         return flow
 
     def grad(self, inputs: List[flows.NumericFlow],
@@ -264,7 +273,10 @@ class Sum(Function):
                 grads.append(copy.deepcopy(grad_val))
             else:
                 grads.append(
-                    goos.NumericFlow.Grad(np.array(grad_val.array_grad)))
+                    goos.NumericFlow.Grad(
+                        np.array(
+                            _reduce_grad(grad_val.array_grad,
+                                         inputs[i].array))))
         return grads
 
     def __add__(self, obj):
@@ -290,7 +302,8 @@ class Product(Function):
 
     def eval(self, inputs: List[flows.NumericFlow]) -> flows.NumericFlow:
         flow = copy.deepcopy(find_dominant_numeric_flow(inputs))
-        flow.array = np.prod([x.array for x in inputs], axis=0)
+        flow.array = np.array(
+            functools.reduce(np.multiply, [x.array for x in inputs]))
         return flow
 
     def grad(self, input_vals: List[flows.NumericFlow],
@@ -299,9 +312,11 @@ class Product(Function):
         grads = []
         for i in range(len(input_val_arr)):
             # Calculate product of everything except ith objective value.
-            prod_before = np.prod(input_val_arr[:i], axis=0)
-            prod_after = np.prod(input_val_arr[i + 1:], axis=0)
-            grads.append(prod_before * prod_after * grad_val.array_grad)
+            prod_others = functools.reduce(
+                np.multiply, input_val_arr[:i] + input_val_arr[i + 1:], 1.0)
+            grads.append(
+                _reduce_grad(prod_others * grad_val.array_grad,
+                             input_val_arr[i]))
 
         grad_flows = []
         _, ind = find_dominant_numeric_flow(input_vals, return_ind=True)
-- 
2.43.0


From b049e397b416ebf63b1e3864c7041b6320091292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:48:29 +0000
Subject: [PATCH 05/59] fix: a renamed goos variable forwards its variable
 instead of freezing a copy

---
 spins/goos/optplan/optplan.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spins/goos/optplan/optplan.py b/spins/goos/optplan/optplan.py
index 649e844..5a7c219 100644
--- a/spins/goos/optplan/optplan.py
+++ b/spins/goos/optplan/optplan.py
@@ -485,7 +485,9 @@ class OptimizationPlan:
         self._node_map[node._goos_name] = node
 
         from spins.goos import math
-        if isinstance(node, math.Variable):
+        # A variable that was cast (e.g. renamed) merely forwards the value of
+        # the underlying variable and has no state of its own.
+        if isinstance(node, math.Variable) and not node._goos_inputs:
             self._var_value[node._goos_name] = node._value
             self._var_frozen[node._goos_name] = node._is_param
 
-- 
2.43.0


From 7ddaa3b5c6040bc932603e324b77df5bb2a79651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:22 +0000
Subject: [PATCH 06/59] fix: goos gradient accumulation does not modify shared
 arrays in place

---
 spins/goos/flows.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/spins/goos/flows.py b/spins/goos/flows.py
index 748f412..f303cd7 100644
--- a/spins/goos/flows.py
+++ b/spins/goos/flows.py
@@ -49,7 +49,7 @@ class FlowMeta(type):
     ```
     The default implementation makes a field called "XXX_grad" for every
     non-constant field in the flow named "XXX". The default `__iadd__`
-    implementation performs `__iadd__` on each of the fields in `Grad`.
+    implementation adds up each of the fields in `Grad`.
     """
 
     def __new__(meta, name, bases, class_dict):
@@ -99,10 +99,9 @@ class FlowMeta(type):
                 for field in grad_fields:
                     field_val = getattr(self, field[0])
                     value_val = getattr(value, field[0])
-                    try:
-                        field_val.__iadd__(value_val)
-                    except AttributeError:
-                        setattr(self, field[0], value_val + field_val)
+                    # Do not add in-place: the arrays may be shared with other
+                    # gradients and the sum may have a different shape or type.
+                    setattr(self, field[0], field_val + value_val)
                 return super(cls.Grad, self).__iadd__(value)
 
             cls.Grad.__iadd__ = __iadd__
@@ -199,7 +198,9 @@ class NumericFlow(Flow):
         array_grad: np.ndarray = np_zero_field(1)
 
         def __iadd__(self, value):
-            self.array_grad += value.array_grad
+            # Do not add in-place: the array may be shared with other
+            # gradients and the sum may have a different shape or type.
+            self.array_grad = self.array_grad + value.array_grad
             return super().__iadd__(value)
 
         def __eq__(self, value) -> bool:
-- 
2.43.0


From d0bca58fe2a5ce5becdeb64c9374a09a40d7446a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:22 +0000
Subject: [PATCH 07/59] fix: goos executor handles chained heavy nodes and None
 gradients of heavy nodes

---
 spins/goos/graph_executor.py | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/spins/goos/graph_executor.py b/spins/goos/graph_executor.py
index d688101..0030df2 100644
--- a/spins/goos/graph_executor.py
+++ b/spins/goos/graph_executor.py
@@ -185,7 +185,8 @@ def _eval_fun_vals(
 
                 node = next(node_iter)
 
-            # Figure out block of heavy compute nodes.
+            # Figure out block of heavy compute nodes. The block ends at a node
+            # that needs the value of another node in the block.
             heavy_node_block = []
             # Keep track of whether we reached the last node in the graph.
             # This is necessary because if the last node happens to be a heavy
@@ -193,7 +194,9 @@ def _eval_fun_vals(
             # would be silently ignored.
             last_node_reached = False
             try:
-                while _is_heavy_fun(fun_map[node]):
+                while (_is_heavy_fun(fun_map[node]) and
+                       node not in fun_vals and
+                       not set(graph[node]).intersection(heavy_node_block)):
                     heavy_node_block.append(node)
                     node = next(node_iter)
             except StopIteration:
@@ -297,15 +300,19 @@ def eval_grad(
         else:
             return fun_map[node].grad(input_vals, grad_val, context)
 
-    def _update_grad_vals(node, node_grad_vals):
-        # If the gradient is `None`, we automatically create an
+    def _get_grad_val(node):
+        # If the gradient was always `None`, we automatically create an
         # empty gradient structure.
-        for i in range(len(node_grad_vals)):
-            if node_grad_vals[i] is None:
-                node_grad_vals[i] = type(input_vals[i]).Grad()
+        if node not in grad_vals:
+            return type(fun_vals[node]).Grad()
+        return grad_vals[node]
 
+    def _update_grad_vals(node, node_grad_vals):
         # Update the gradient values.
         for next_node, next_fun_grad in zip(graph[node], node_grad_vals):
+            # If the gradient is `None`, then there is nothing to add.
+            if next_fun_grad is None:
+                continue
             if next_node in grad_vals:
                 grad_vals[next_node] += next_fun_grad
             else:
@@ -325,18 +332,22 @@ def eval_grad(
                 # the inputs of function `node`.
                 input_vals = [fun_vals[next_node] for next_node in graph[node]]
                 input_flags = [fun_flags[in_node] for in_node in graph[node]]
-                node_grad_vals = _eval_grad(node, input_vals, grad_vals[node],
-                                            input_flags)
+                node_grad_vals = _eval_grad(node, input_vals,
+                                            _get_grad_val(node), input_flags)
                 _update_grad_vals(node, node_grad_vals)
 
                 node = next(node_iter)
 
             # At this point, we have processed all the possible nodes.
             # We now parallelize the computation of the `heavy_compute_nodes`.
+            # The block ends at a node whose gradient depends on another node
+            # in the block.
             heavy_node_block = []
             last_node_reached = False
             try:
-                while _is_heavy_fun(fun_map[node]):
+                while (_is_heavy_fun(fun_map[node]) and not any(
+                        node in graph[block_node]
+                        for block_node in heavy_node_block)):
                     heavy_node_block.append(node)
                     node = next(node_iter)
             except StopIteration:
@@ -348,7 +359,7 @@ def eval_grad(
                 arg_list.append((
                     node_,
                     [fun_vals[in_node] for in_node in graph[node_]],
-                    grad_vals[node_],
+                    _get_grad_val(node_),
                     [fun_flags[in_node] for in_node in graph[node_]],
                 ))
             with concurrent.futures.ThreadPoolExecutor() as executor:
-- 
2.43.0


From 94245e773f2b3a922693d153b0374dc64d174343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:52:22 +0000
Subject: [PATCH 08/59] fix: invdes executor handles chained heavy nodes

---
 spins/invdes/problem/graph_executor.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/spins/invdes/problem/graph_executor.py b/spins/invdes/problem/graph_executor.py
index f214d71..78f43c1 100644
--- a/spins/invdes/problem/graph_executor.py
+++ b/spins/invdes/problem/graph_executor.py
@@ -150,7 +150,8 @@ def _eval_fun_vals(fun_vals: Dict[NodeId, np.ndarray], fun_map: FunctionMap,
 
                 node = next(node_iter)
 
-            # Figure out block of heavy compute nodes.
+            # Figure out block of heavy compute nodes. The block ends at a node
+            # that needs the value of another node in the block.
             heavy_node_block = []
             # Keep track of whether we reached the last node in the graph.
             # This is necessary because if the last node happens to be a heavy
@@ -158,7 +159,8 @@ def _eval_fun_vals(fun_vals: Dict[NodeId, np.ndarray], fun_map: FunctionMap,
             # would be silently ignored.
             last_node_reached = False
             try:
-                while _is_heavy_fun(fun_map[node]):
+                while (_is_heavy_fun(fun_map[node]) and
+                       not set(graph[node]).intersection(heavy_node_block)):
                     heavy_node_block.append(node)
                     node = next(node_iter)
             except StopIteration:
@@ -284,10 +286,14 @@ def eval_grad(fun: "OptimizationFunction",
 
             # At this point, we have processed all the possible nodes.
             # We now parallelize the computation of the `heavy_compute_nodes`.
+            # The block ends at a node whose gradient depends on another node
+            # in the block.
             heavy_node_block = []
             last_node_reached = False
             try:
-                while _is_heavy_fun(fun_map[node]):
+                while (_is_heavy_fun(fun_map[node]) and not any(
+                        node in graph[block_node]
+                        for block_node in heavy_node_block)):
                     heavy_node_block.append(node)
                     node = next(node_iter)
             except StopIteration:
-- 
2.43.0


From 02a54fa1f8a96df738e502bf09c24d6cce72da8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:54:59 +0000
Subject: [PATCH 09/59] fix: goos gradients of intermediate nodes are not
 changed by later accumulation

---
 spins/goos/graph_executor.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spins/goos/graph_executor.py b/spins/goos/graph_executor.py
index 0030df2..0d9ca5a 100644
--- a/spins/goos/graph_executor.py
+++ b/spins/goos/graph_executor.py
@@ -24,6 +24,7 @@ from typing import Dict, List, Set, Tuple, Union
 
 import collections
 import concurrent.futures
+import copy
 import inspect
 
 import numpy as np
@@ -316,7 +317,8 @@ def eval_grad(
             if next_node in grad_vals:
                 grad_vals[next_node] += next_fun_grad
             else:
-                grad_vals[next_node] = next_fun_grad
+                # Copy because the node may have passed on its own gradient.
+                grad_vals[next_node] = copy.deepcopy(next_fun_grad)
 
     try:
         node_iter = iter(top_sorted_nodes)
-- 
2.43.0


From c27554c6e7881c4cab72ae2922c17da670943dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:08 +0000
Subject: [PATCH 10/59] fix: goos gradient of a node that only received None
 has the shape of the node

---
 spins/goos/graph_executor.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/spins/goos/graph_executor.py b/spins/goos/graph_executor.py
index 0d9ca5a..e312eda 100644
--- a/spins/goos/graph_executor.py
+++ b/spins/goos/graph_executor.py
@@ -384,9 +384,11 @@ def eval_grad(
         if id(variable) in grad_vals:
             grad_ret.append(grad_vals[id(variable)])
         else:
-            flow = override_map[variable][0]
-            grad_ret.append(
-                type(flow).Grad(array_grad=np.zeros_like(flow.array)))
+            flow = fun_vals[id(variable)]
+            grad = type(flow).Grad()
+            if isinstance(flow, flows.NumericFlow):
+                grad.array_grad = np.zeros_like(flow.array)
+            grad_ret.append(grad)
     return grad_ret
 
 
-- 
2.43.0


From 75269b4766b8c062e32934403152905337e4b091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:20 +0000
Subject: [PATCH 11/59] fix: every goos scipy constraint evaluates its own
 function

---
 spins/goos/optimize.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/spins/goos/optimize.py b/spins/goos/optimize.py
index 1f59b6e..cc853c9 100644
--- a/spins/goos/optimize.py
+++ b/spins/goos/optimize.py
@@ -150,13 +150,13 @@ class ScipyOptimizer(goos.Action):
             constraints = []
             for eq in self._cons_eq:
 
-                def cons_fun(x):
+                def cons_fun(x, eq=eq):
                     unpack_and_set(x)
                     val = plan.eval_node(eq).array
                     plan.logger.debug("Eq. cons. function evaluated: %f", val)
                     return val
 
-                def cons_jac(x):
+                def cons_jac(x, eq=eq):
                     unpack_and_set(x)
                     grad_flows = plan.eval_grad(eq, variables)
                     val = []
@@ -182,13 +182,13 @@ class ScipyOptimizer(goos.Action):
             for ineq in self._cons_ineq:
                 # Note the negative sign because of opposite convention
                 # for inequalities (f >= 0 vs f <= 0).
-                def cons_fun(x):
+                def cons_fun(x, ineq=ineq):
                     unpack_and_set(x)
                     val = plan.eval_node(ineq).array
                     plan.logger.debug("Ineq. cons. function evaluated: %f", val)
                     return -val
 
-                def cons_jac(x):
+                def cons_jac(x, ineq=ineq):
                     unpack_and_set(x)
                     grad_flows = plan.eval_grad(ineq, variables)
                     val = []
-- 
2.43.0


From 68e026c42535861601e67a6de600c5439cf16eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:20 +0000
Subject: [PATCH 12/59] fix: a resumed goos optimization only runs the
 remaining iterations

---
 spins/goos/optimize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spins/goos/optimize.py b/spins/goos/optimize.py
index cc853c9..8969dfe 100644
--- a/spins/goos/optimize.py
+++ b/spins/goos/optimize.py
@@ -238,8 +238,8 @@ class ScipyOptimizer(goos.Action):
 
         # Adjust total number of iterations if we are resuming.
         options = copy.deepcopy(self._options)
-        if "maxiter" in options:
-            options["maxiter"] -= start_iter
+        if "maxiter" in options["options"]:
+            options["options"]["maxiter"] -= start_iter
 
         initial_val = np.hstack(initial_val)
         self._results = scipy.optimize.minimize(func,
-- 
2.43.0


From 113ae6e68bdbe6315cb332a56dfbfb8a1f6c01b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:20 +0000
Subject: [PATCH 13/59] fix: goos optimizer can set the iteration of a
 parameter variable

---
 spins/goos/optimize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spins/goos/optimize.py b/spins/goos/optimize.py
index 8969dfe..6eec141 100644
--- a/spins/goos/optimize.py
+++ b/spins/goos/optimize.py
@@ -229,7 +229,8 @@ class ScipyOptimizer(goos.Action):
             nonlocal iter_num
             iter_num += 1
             if self._iter:
-                plan.set_var_value(self._iter, iter_num)
+                # The iteration is usually a parameter, which is always frozen.
+                plan.set_var_value(self._iter, iter_num, check_frozen=False)
 
             plan.write_event({
                 "state": "optimizing",
-- 
2.43.0


From 0e277f4ff3a07c93317957afed59d5c59c121c7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:23 +0000
Subject: [PATCH 14/59] fix: goos action checkpoints do not re-run the finished
 action on resume

---
 spins/goos/optplan/optplan.py | 41 ++++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 17 deletions(-)

diff --git a/spins/goos/optplan/optplan.py b/spins/goos/optplan/optplan.py
index 5a7c219..5f23147 100644
--- a/spins/goos/optplan/optplan.py
+++ b/spins/goos/optplan/optplan.py
@@ -351,10 +351,15 @@ class OptimizationPlan:
                 "bounds": self._var_bounds[var_name],
             }
 
+        # There is no current action if all the actions have finished.
+        action = None
+        if self._action_ptr < len(self._actions):
+            action = self._actions[self._action_ptr]._goos_name
+
         data = {
             "version": "0.2.0",
             "action_ptr": self._action_ptr,
-            "action": self._actions[self._action_ptr]._goos_name,
+            "action": action,
             "time": str(datetime.datetime.now()),
             "variable_data": var_data,
         }
@@ -563,16 +568,20 @@ class OptimizationPlan:
             self.logger.info("Running action {} ({}).".format(
                 self._action_ptr, self._actions[self._action_ptr]._goos_name))
             self._actions[self._action_ptr].run(self)
-
-            if auto_checkpoint and self._save_path:
-                self.write_checkpoint(
-                    os.path.join(self._save_path,
-                                 "action{}.chkpt".format(self._action_ptr)))
-
-            self._action_ptr += 1
-            self._action_data = None
+            self._finish_action(auto_checkpoint)
         self._modifiable = False
 
+    def _finish_action(self, auto_checkpoint: bool) -> None:
+        """Advances to the next action and writes the checkpoint."""
+        # Advance first, so that resuming from the checkpoint does not run the
+        # finished action again.
+        self._action_ptr += 1
+        self._action_data = None
+        if auto_checkpoint and self._save_path:
+            self.write_checkpoint(
+                os.path.join(self._save_path,
+                             "action{}.chkpt".format(self._action_ptr - 1)))
+
     def resume(self,
                checkpoint: str = None,
                auto_checkpoint: bool = True) -> None:
@@ -598,6 +607,10 @@ class OptimizationPlan:
         if checkpoint:
             self.read_checkpoint(checkpoint)
 
+        # There is nothing to do if all the actions have finished.
+        if self._action_ptr >= len(self._actions):
+            return
+
         self._modifiable = True
 
         # Attempt to resume if there is event data to resume from.
@@ -617,16 +630,10 @@ class OptimizationPlan:
                 self._action_ptr, self._actions[self._action_ptr]._goos_name))
             self._actions[self._action_ptr].run(self)
 
-        if auto_checkpoint and self._save_path:
-            self.write_checkpoint(
-                os.path.join(self._save_path,
-                             "action{}.chkpt".format(self._action_ptr)))
-
-        self._action_ptr += 1
-        self._action_data = None
+        self._finish_action(auto_checkpoint)
         self._modifiable = False
 
-        self.run()
+        self.run(auto_checkpoint)
 
     def eval_nodes(self, nodes: List[ProblemGraphNode]) -> List[flows.Flow]:
         """Evaluates nodes.
-- 
2.43.0


From 06914f1080c8b3287a6cafd6593edf4f48d7ec7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:11 +0000
Subject: [PATCH 15/59] fix: a resumed goos plan continues its log instead of
 overwriting it

---
 spins/goos/optplan/optplan.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spins/goos/optplan/optplan.py b/spins/goos/optplan/optplan.py
index 5f23147..bac2c9f 100644
--- a/spins/goos/optplan/optplan.py
+++ b/spins/goos/optplan/optplan.py
@@ -361,6 +361,7 @@ class OptimizationPlan:
             "action_ptr": self._action_ptr,
             "action": action,
             "time": str(datetime.datetime.now()),
+            "log_counter": self._log_counter,
             "variable_data": var_data,
         }
         # TODO(logansu): Remove "transformation" and "parametrization".
@@ -407,7 +408,6 @@ class OptimizationPlan:
         data.update({
             "event": event,
             "monitor_data": monitor_data,
-            "log_counter": self._log_counter,
         })
         self._action_data = event
 
@@ -467,6 +467,8 @@ class OptimizationPlan:
 
         self._action_ptr = data["action_ptr"]
         self._action_data = data.get("event", None)
+        # Continue the log instead of overwriting it.
+        self._log_counter = data.get("log_counter", self._log_counter)
 
         # Unpack variables.
         for var_name, var_data in data["variable_data"].items():
-- 
2.43.0


From e09aeb4c2410fce38d08b212661fc44e3d80ae0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:59 +0000
Subject: [PATCH 16/59] fix: gradient of goos.Slice is not truncated to the
 type of the value

---
 spins/goos/math.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/spins/goos/math.py b/spins/goos/math.py
index 7c86cf4..7b35d40 100644
--- a/spins/goos/math.py
+++ b/spins/goos/math.py
@@ -558,7 +558,9 @@ class Slice(Function):
         slices = self._make_slices(shape)
 
         grad = type(inputs[0]).Grad()
-        grad.array_grad = np.zeros_like(inputs[0].array)
+        # The gradient need not have the same type as the (e.g. integer) value.
+        grad.array_grad = np.zeros_like(inputs[0].array,
+                                        dtype=grad_val.array_grad.dtype)
         grad.array_grad[slices] = grad_val.array_grad
         return [grad]
 
-- 
2.43.0


From 795d9bfcff216938ce6a760ae62d7a8f4de6c475 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:10:54 +0000
Subject: [PATCH 17/59] fix: gradient of goos.Norm of a zero vector is zero as
 documented

---
 spins/goos/math.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/spins/goos/math.py b/spins/goos/math.py
index 7b35d40..43ea031 100644
--- a/spins/goos/math.py
+++ b/spins/goos/math.py
@@ -458,8 +458,13 @@ class Norm(Function):
     def grad(self, input_vals: List[goos.NumericFlow],
              grad_val: goos.NumericFlow.Grad) -> List[goos.NumericFlow.Grad]:
         arr = input_vals[0].array.flatten()
-        norm_grad = np.conj(arr) * (
-            np.abs(arr) / np.linalg.norm(arr, ord=self._ord))**(self._ord - 1)
+        norm = np.linalg.norm(arr, ord=self._ord)
+        if norm == 0:
+            grad = type(input_vals[0]).Grad()
+            grad.array_grad = np.zeros(input_vals[0].array.shape)
+            return [grad]
+
+        norm_grad = np.conj(arr) * (np.abs(arr) / norm)**(self._ord - 1)
         # Avoid division by zero.
         norm_grad[np.abs(arr) > 0] /= np.abs(arr[np.abs(arr) > 0])
         norm_grad = np.reshape(norm_grad, input_vals[0].array.shape)
-- 
2.43.0


From cc7705f5bbeff2803aa889f3296971187f84e59b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:12:21 +0000
Subject: [PATCH 18/59] fix: goos powers of integer-valued variables

---
 spins/goos/math.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spins/goos/math.py b/spins/goos/math.py
index 43ea031..183f5a8 100644
--- a/spins/goos/math.py
+++ b/spins/goos/math.py
@@ -348,7 +348,8 @@ class Power(Function):
 
     def __init__(self, fun: Function, power: float) -> None:
         super().__init__(fun)
-        self._pow = power
+        # Integer arrays cannot be raised to negative integer powers.
+        self._pow = float(power)
 
     def eval(self, inputs: List[flows.NumericFlow],
              context: goos.EvalContext) -> flows.NumericFlow:
-- 
2.43.0


From 887a2ad3e971f2ff185976ee618928637624b174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:50:24 +0000
Subject: [PATCH 19/59] fix: adding goos gradients does not count inherited
 fields twice

---
 spins/goos/flows.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/spins/goos/flows.py b/spins/goos/flows.py
index f303cd7..6e3df87 100644
--- a/spins/goos/flows.py
+++ b/spins/goos/flows.py
@@ -95,8 +95,16 @@ class FlowMeta(type):
                                                   grad_fields,
                                                   bases=grad_bases)
 
+            # The inherited fields are added up by the base classes.
+            inherited = {
+                field.name for base in grad_bases
+                if dataclasses.is_dataclass(base)
+                for field in dataclasses.fields(base)
+            }
+            own_fields = [f for f in grad_fields if f[0] not in inherited]
+
             def __iadd__(self, value):
-                for field in grad_fields:
+                for field in own_fields:
                     field_val = getattr(self, field[0])
                     value_val = getattr(value, field[0])
                     # Do not add in-place: the arrays may be shared with other
-- 
2.43.0


From 8b770f2f1dfd194a5917df5d866b9307ecf91306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:52:12 +0000
Subject: [PATCH 20/59] fix: goos.Shape.translate works for groups and integer
 positions

---
 spins/goos/shapes.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/spins/goos/shapes.py b/spins/goos/shapes.py
index c1bac0c..b67cda1 100644
--- a/spins/goos/shapes.py
+++ b/spins/goos/shapes.py
@@ -508,8 +508,14 @@ class TranslateShape(Shape):
         return inputs[0]
 
     def eval(self, inputs: List[ShapeFlow]) -> ShapeFlow:
-        flow = copy.deepcopy(inputs[0])
-        flow.pos += self._offset
+        return self._translate(copy.deepcopy(inputs[0]))
+
+    def _translate(self, flow: ShapeFlow) -> ShapeFlow:
+        if isinstance(flow, goos.ArrayFlow):
+            # A group of shapes.
+            return goos.ArrayFlow([self._translate(shape) for shape in flow])
+        # Not in-place because the position could be an integer array.
+        flow.pos = flow.pos + np.array(self._offset)
         return flow
 
     def grad(self, inputs: List[ShapeFlow],
-- 
2.43.0


From c4c2ce012bc8e8a9da61ddcc35794737addfcae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:34 +0000
Subject: [PATCH 21/59] fix: goos.cast and goos.rename work for shapes

---
 spins/goos/generic.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/spins/goos/generic.py b/spins/goos/generic.py
index 9021dad..5b8495e 100644
--- a/spins/goos/generic.py
+++ b/spins/goos/generic.py
@@ -47,6 +47,10 @@ def cast(node: goos.ProblemGraphNode,
             goos.ProblemGraphNode.__init__(self, node)
             self._node = node
 
+        def eval_const_flags(self, inputs):
+            # Do not inherit this from `cls_type`, which has other inputs.
+            return inputs[0]
+
         def eval(self, inputs):
             return inputs[0]
 
-- 
2.43.0


From de092741ee8e5fa6ea744de208e7ed2e54822501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:56:27 +0000
Subject: [PATCH 22/59] fix: goos.cuboid accepts the rotation as an array

---
 spins/goos/shapes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spins/goos/shapes.py b/spins/goos/shapes.py
index b67cda1..43a2c7f 100644
--- a/spins/goos/shapes.py
+++ b/spins/goos/shapes.py
@@ -78,7 +78,7 @@ def cuboid(extents, pos, rot=None, **kwargs):
         extents = goos.Constant(extents)
     if not isinstance(pos, goos.Function):
         pos = goos.Constant(pos)
-    if rot and not isinstance(rot, goos.Function):
+    if rot is not None and not isinstance(rot, goos.Function):
         rot = goos.Constant(rot)
 
     return Cuboid(extents, pos, rot, **kwargs)
-- 
2.43.0


From 47f4bb0217f34918477e048fe7822230fb7f5dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:25 +0000
Subject: [PATCH 23/59] fix: gridlock.Grid does not ignore a list of periodic
 flags

---
 spins/gridlock/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spins/gridlock/grid.py b/spins/gridlock/grid.py
index eb4d3c2..516bbb9 100644
--- a/spins/gridlock/grid.py
+++ b/spins/gridlock/grid.py
@@ -358,7 +358,7 @@ class Grid:
         if is_scalar(periodic):
             self.periodic = [periodic] * 3
         else:
-            self.periodic = [False] * 3
+            self.periodic = list(periodic)
 
         self.shifts = np.array(shifts, dtype=float)
         self.comp_shifts = np.array(comp_shifts, dtype=float)
-- 
2.43.0


From 226cf50bd8e7f6493896998a2ba799f6808bf2ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:25 +0000
Subject: [PATCH 24/59] fix: gridlock.Grid.ind2pos rounds the indices and
 checks the bounds

---
 spins/gridlock/grid.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spins/gridlock/grid.py b/spins/gridlock/grid.py
index 516bbb9..965d911 100644
--- a/spins/gridlock/grid.py
+++ b/spins/gridlock/grid.py
@@ -250,13 +250,13 @@ class Grid:
             else:
                 low_bound = -0.5
                 high_bound = -0.5
-            if (ind < low_bound).any() or (ind > self.shape - high_bound).any():
+            if (ind < low_bound).any() or (ind > self.shape + high_bound).any():
                 raise GridError('Position outside of grid: {}'.format(ind))
 
         if round_ind:
-            rind = np.clip(np.round(ind), 0, self.shape - 1)
+            rind = np.clip(np.round(ind), 0, self.shape - 1).astype(int)
             sxyz = self.shifted_xyz(which_shifts, which_grid)
-            position = [sxyz[a][rind[a]].astype(int) for a in range(3)]
+            position = [sxyz[a][rind[a]] for a in range(3)]
         else:
             sexyz = self.shifted_exyz(which_shifts, which_grid)
             position = [
-- 
2.43.0


From 4a09e0d2fa8020e54895839b8129baeee88d7e22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:25 +0000
Subject: [PATCH 25/59] fix: gridlock.Grid.fill_cuboid and fill_slab accept
 integer directions

---
 spins/gridlock/grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spins/gridlock/grid.py b/spins/gridlock/grid.py
index 965d911..151e98b 100644
--- a/spins/gridlock/grid.py
+++ b/spins/gridlock/grid.py
@@ -627,7 +627,7 @@ class Grid:
             fill_dir = fill_dir.value
         elif not is_scalar(fill_dir):
             raise GridError('Invalid slab direction')
-        elif not dir_slab in range(3):
+        elif not fill_dir in range(3):
             raise GridError('Invalid slab direction')
 
         if not is_scalar(fill_pol):
@@ -660,7 +660,7 @@ class Grid:
             fill_dir = fill_dir.value
         elif not is_scalar(fill_dir):
             raise GridError('Invalid slab direction')
-        elif not dir_slab in range(3):
+        elif not fill_dir in range(3):
             raise GridError('Invalid slab direction')
 
         if not is_scalar(fill_pol):
-- 
2.43.0


From 6a5006ab5b13b059d2dbdc44abec0ca4381801cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:21:25 +0000
Subject: [PATCH 26/59] fix: gridlock.Grid.draw_polygon rejects permittivities
 of the wrong size

---
 spins/gridlock/grid.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spins/gridlock/grid.py b/spins/gridlock/grid.py
index 151e98b..e07ebb8 100644
--- a/spins/gridlock/grid.py
+++ b/spins/gridlock/grid.py
@@ -494,8 +494,8 @@ class Grid:
 
         if is_scalar(eps):
             eps = np.ones(self.shifts.shape[0]) * eps
-        elif eps.ndim != 1 and eps.size != self.shifts.shape[0]:
-            raise GridErro(
+        elif eps.ndim != 1 or eps.size != self.shifts.shape[0]:
+            raise GridError(
                 'Invalid permittivity - must be scalar or vector of length equalling number of grids'
             )
         # Translating polygon by its center
-- 
2.43.0


From a5b78d52d3f0c6ace47d580fdc87d402a3e6299c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:40:56 +0000
Subject: [PATCH 27/59] fix: goos render gradient weights all field components
 equally

---
 spins/goos_sim/maxwell/render.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/spins/goos_sim/maxwell/render.py b/spins/goos_sim/maxwell/render.py
index ecd2c4e..a1ecf51 100644
--- a/spins/goos_sim/maxwell/render.py
+++ b/spins/goos_sim/maxwell/render.py
@@ -151,10 +151,11 @@ class PixelatedContShapeFlowImpl(GeometryImpl):
             ]
             mat = get_rendering_matrix(shape_coords, grid_coords)
             grid_vals = contrast * mat.T @ grid.grids[axis].flatten()
-            grad += np.real(np.reshape(grid_vals, self.shape.array.shape))
+            axis_grad = np.real(np.reshape(grid_vals, self.shape.array.shape))
             # TODO(logansu): Fix complex gradient.
             if np.iscomplexobj(grid_vals):
-                grad *= 2
+                axis_grad = 2 * axis_grad
+            grad = grad + axis_grad
 
         return goos.PixelatedContShapeFlow.Grad(array_grad=grad)
 
-- 
2.43.0


From d84da069d835f50b967b240f7cc4e9d46ab1c557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:35 +0000
Subject: [PATCH 28/59] fix: gridlock.Grid.render does not truncate the extents
 of polygons to integers

---
 spins/gridlock/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spins/gridlock/grid.py b/spins/gridlock/grid.py
index e07ebb8..60efbbb 100644
--- a/spins/gridlock/grid.py
+++ b/spins/gridlock/grid.py
@@ -800,7 +800,7 @@ class Grid:
 
         def to_3D(vector: List or np.ndarray,
                   z: float = 0.5 * (z_extent[0] + z_extent[1])):
-            return np.insert(vector, self.ext_dir, z)
+            return np.insert(np.array(vector, dtype=float), self.ext_dir, z)
 
         def get_zi(z: float, which_shifts: float):
             pos_3D = to_3D([0, 0], z)
-- 
2.43.0


From 0c2fc3e2fbfda57a74fb31161eee7c95218134ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:48:50 +0000
Subject: [PATCH 29/59] fix: gridlock.Grid.fill_cuboid accepts integer surface
 extents

---
 spins/gridlock/grid.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spins/gridlock/grid.py b/spins/gridlock/grid.py
index 60efbbb..3d3abf7 100644
--- a/spins/gridlock/grid.py
+++ b/spins/gridlock/grid.py
@@ -620,7 +620,7 @@ class Grid:
         is x, then the two elements correspond to y,z, if it is y then x,z and if it is z then x,y
         '''
         surf_center = np.array(surf_center)
-        surf_extent = np.array(surf_extent)
+        surf_extent = np.array(surf_extent, dtype=float)
 
         # Validating input arguments
         if isinstance(fill_dir, Direction):
-- 
2.43.0


From 52b51d7aa9a19592f2694286d5d756b98aacb6c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:56:32 +0000
Subject: [PATCH 30/59] fix: goos pixelated shapes have one pixel count despite
 rounding

---
 spins/goos/shapes.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/spins/goos/shapes.py b/spins/goos/shapes.py
index 43a2c7f..98fc647 100644
--- a/spins/goos/shapes.py
+++ b/spins/goos/shapes.py
@@ -252,11 +252,8 @@ class PixelatedContShapeFlow(ShapeFlow, goos.NumericFlow):
         # Compute edge coordinates assuming that each pixel is `pixel_size`
         # large.
         edge_coords = []
-        for i in range(len(extents)):
-            num_pixels = np.ceil(extents[i] / pixel_size[i])
-            if num_pixels * pixel_size[i] < extents[i]:
-                num_pixels += 1
-            coord = pixel_size[i] * np.arange(0, num_pixels + 1)
+        for i, num_pixels in enumerate(cls.get_shape(extents, pixel_size)):
+            coord = pixel_size[i] * np.arange(0.0, num_pixels + 1)
             edge_coords.append(coord - (coord[0] + coord[-1]) / 2)
 
         # The edges could have smaller pixel sizes because they are cut off.
-- 
2.43.0


From c5e848c049e8860527ae74f0b722f6b6f04abaed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:05 +0000
Subject: [PATCH 31/59] fix: stretch_with_scpml with no layers at the back
 leaves the grid as it is

---
 spins/fdfd_tools/grid.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/spins/fdfd_tools/grid.py b/spins/fdfd_tools/grid.py
index f769a1f..5fa2811 100644
--- a/spins/fdfd_tools/grid.py
+++ b/spins/fdfd_tools/grid.py
@@ -140,10 +140,7 @@ def stretch_with_scpml(
         def l_d(x):
             return (x - bound) / (pos[-1] - bound)
 
-        if thickness == 0:
-            slc = slice(None)
-        else:
-            slc = slice(-thickness, None)
+        slc = slice(len(dx_ai) - thickness, None)
 
     dx_ai[slc] *= 1 + 1j * s_function(l_d(pos_a[slc])) / d / s_correction
     dx_bi[slc] *= 1 + 1j * s_function(l_d(pos_b[slc])) / d / s_correction
-- 
2.43.0


From 5d122557fe20c831d6b783ac6727cbf87959a29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:05 +0000
Subject: [PATCH 32/59] fix: simulation caches keep copies of the structure and
 source they belong to

---
 spins/invdes/problem/simulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spins/invdes/problem/simulation.py b/spins/invdes/problem/simulation.py
index b384270..891f893 100644
--- a/spins/invdes/problem/simulation.py
+++ b/spins/invdes/problem/simulation.py
@@ -107,7 +107,7 @@ class FdfdSimulation:
                 # Remove the last used element.
                 del self.cache[0]
             # Insert data into cache.
-            self.cache.append((z, electric_fields))
+            self.cache.append((np.copy(z), electric_fields))
         return electric_fields
 
     def _run_solver(self, z: np.ndarray) -> np.ndarray:
@@ -182,7 +182,7 @@ class AdjointFdfdSimulation:
                 # Remove the last used element.
                 del self.cache[0]
             # Insert data into cache.
-            self.cache.append((z, J, electric_fields))
+            self.cache.append((np.copy(z), np.copy(J), electric_fields))
         return electric_fields
 
     def _run_solver(self, z: np.ndarray, J: np.ndarray) -> np.ndarray:
-- 
2.43.0


From d2587ba68c5ce8f428dfa06a13be3468e3c91d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:03 +0000
Subject: [PATCH 33/59] fix: adjoint simulation on complex (absorbing) grids
 solves the adjoint equation

---
 spins/invdes/problem/simulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spins/invdes/problem/simulation.py b/spins/invdes/problem/simulation.py
index 891f893..e7d660a 100644
--- a/spins/invdes/problem/simulation.py
+++ b/spins/invdes/problem/simulation.py
@@ -235,7 +235,7 @@ class AdjointFdfdSimulation:
         new_J = np.copy(fdfd_tools.unvec(J, self.sim.dims))
 
         for k in range(3):
-            new_J[k] /= np.conj(s[k])
+            new_J[k] /= s[k]
         new_J = fdfd_tools.vec(new_J)
         mu = None
         if self.sim.mu is not None:
@@ -254,6 +254,6 @@ class AdjointFdfdSimulation:
         # Unvec to undo right pre-conditioner.
         efields = fdfd_tools.unvec(efields, self.sim.dims)
         for i in range(3):
-            efields[i] = np.multiply(efields[i], np.conj(s[i]))
+            efields[i] = np.multiply(efields[i], s[i])
         efields = fdfd_tools.vec(efields)
         return efields
-- 
2.43.0


From aa84dcf488f52d65bd8399da7fdca469bce0bb62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:03 +0000
Subject: [PATCH 34/59] fix: optimization function times array is a product

---
 spins/invdes/problem/objective.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spins/invdes/problem/objective.py b/spins/invdes/problem/objective.py
index 028924a..17513bd 100644
--- a/spins/invdes/problem/objective.py
+++ b/spins/invdes/problem/objective.py
@@ -147,7 +147,7 @@ class OptimizationFunction(metaclass=abc.ABCMeta):
         if isinstance(obj, numbers.Number):
             return Product([self, Constant(obj)], parallelize=False)
         if isinstance(obj, np.ndarray):
-            return Sum([self, Constant(obj)], parallelize=False)
+            return Product([self, Constant(obj)], parallelize=False)
         if isinstance(obj, OptimizationFunction):
             return Product([self, obj])
         raise TypeError("Attempting to add unknown object to objective")
-- 
2.43.0


From 9b741bd91e15182b2838ae365d463c5cc95de2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:22 +0000
Subject: [PATCH 35/59] fix: invdes Sum and Product combine scalars with
 vectors

Products of factors of unequal shape or type failed, and the gradient of a
scalar that was broadcast against a vector was not summed.
---
 spins/invdes/problem/objective.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/spins/invdes/problem/objective.py b/spins/invdes/problem/objective.py
index 17513bd..d9b9c32 100644
--- a/spins/invdes/problem/objective.py
+++ b/spins/invdes/problem/objective.py
@@ -8,6 +8,7 @@ objectives.
 
 import abc
 import concurrent.futures
+import functools
 import numbers
 from typing import List, Union
 
@@ -502,6 +503,13 @@ class ValueSlice(OptimizationFunction):
         return "p[" + str(self._index) + "]"
 
 
+def _reduce_grad(grad: np.ndarray, value: np.ndarray) -> np.ndarray:
+    """Sums the gradient over a scalar that was broadcast against an array."""
+    if np.size(value) == 1 and np.size(grad) > 1:
+        return np.reshape(np.sum(grad), np.shape(value))
+    return grad
+
+
 class Sum(OptimizationFunction):
     """Represents a sum of objective functions. """
 
@@ -533,7 +541,7 @@ class Sum(OptimizationFunction):
 
     def grad(self, input_vals: List[np.ndarray],
              grad_val: np.ndarray) -> List[np.ndarray]:
-        return [grad_val] * len(input_vals)
+        return [_reduce_grad(grad_val, val) for val in input_vals]
 
     def __add__(self, obj):
         if isinstance(obj, Sum):
@@ -580,7 +588,7 @@ class Product(OptimizationFunction):
     def eval(self, input_vals: List[np.ndarray]) -> np.ndarray:
         total = 1.0
         for obj in input_vals:
-            total *= obj
+            total = total * obj
         return total
 
     def grad(self, input_vals: List[np.ndarray],
@@ -588,9 +596,9 @@ class Product(OptimizationFunction):
         grads = []
         for i in range(len(input_vals)):
             # Calculate product of everything except ith objective value.
-            prod_before = np.prod(input_vals[:i], axis=0)
-            prod_after = np.prod(input_vals[i + 1:], axis=0)
-            grads.append(prod_before * prod_after * grad_val)
+            prod_others = functools.reduce(
+                np.multiply, input_vals[:i] + input_vals[i + 1:], 1.0)
+            grads.append(_reduce_grad(prod_others * grad_val, input_vals[i]))
         return grads
 
     def __mul__(self, obj):
-- 
2.43.0


From 7fe2058a86afe25b2112530c4c0907d99d27e937 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:52:11 +0000
Subject: [PATCH 36/59] fix: gradients of a node add up whatever their types

---
 spins/invdes/problem/graph_executor.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/spins/invdes/problem/graph_executor.py b/spins/invdes/problem/graph_executor.py
index 78f43c1..1cdd94b 100644
--- a/spins/invdes/problem/graph_executor.py
+++ b/spins/invdes/problem/graph_executor.py
@@ -280,7 +280,8 @@ def eval_grad(fun: "OptimizationFunction",
                     # Update the gradient values.
                     for next_node, next_fun_grad in zip(graph[node],
                                                         node_grad_vals):
-                        grad_vals[next_node] += next_fun_grad
+                        grad_vals[next_node] = (
+                            grad_vals[next_node] + next_fun_grad)
 
                 node = next(node_iter)
 
@@ -314,7 +315,8 @@ def eval_grad(fun: "OptimizationFunction",
             for node_, node_grad_vals in zip(heavy_node_block, heavy_node_vals):
                 for next_node, next_fun_grad in zip(graph[node_],
                                                     node_grad_vals):
-                    grad_vals[next_node] += next_fun_grad
+                    grad_vals[next_node] = (
+                        grad_vals[next_node] + next_fun_grad)
 
             if last_node_reached:
                 break
-- 
2.43.0


From 8e6bebfbfeac6aae5d75f88d9e1197974884373d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:47 +0000
Subject: [PATCH 37/59] fix: simulation node caches keep copies of what they
 belong to

---
 spins/invdes/problem_graph/creator_em.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/spins/invdes/problem_graph/creator_em.py b/spins/invdes/problem_graph/creator_em.py
index cfbd252..c8341e1 100644
--- a/spins/invdes/problem_graph/creator_em.py
+++ b/spins/invdes/problem_graph/creator_em.py
@@ -375,7 +375,7 @@ class FdfdSimulation(problem.OptimizationFunction):
             del self._cache[0]
 
         # Insert data into cache.
-        self._cache.append((eps, electric_fields))
+        self._cache.append((np.copy(eps), electric_fields))
         return electric_fields
 
     def _simulate_adjoint(self, eps: np.ndarray,
@@ -423,7 +423,8 @@ class FdfdSimulation(problem.OptimizationFunction):
             del self._cache_adjoint[0]
 
         # Insert data into cache.
-        self._cache_adjoint.append((eps, source, electric_fields))
+        self._cache_adjoint.append(
+            (np.copy(eps), np.copy(source), electric_fields))
 
         return electric_fields
 
-- 
2.43.0


From e75a55cedc3df3fd7e9406b21c9a90f056a2319f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:47 +0000
Subject: [PATCH 38/59] fix: permittivity gradient of a structure with one
 element is a vector

---
 spins/invdes/problem_graph/creator_em.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spins/invdes/problem_graph/creator_em.py b/spins/invdes/problem_graph/creator_em.py
index c8341e1..3ee0cb3 100644
--- a/spins/invdes/problem_graph/creator_em.py
+++ b/spins/invdes/problem_graph/creator_em.py
@@ -536,7 +536,7 @@ class Epsilon(problem.OptimizationFunction):
         # so the factor of 2 is cancelled out.
         return [
             np.real(
-                np.squeeze(np.asarray(grad_val @ self._space.selection_matrix)))
+                np.ravel(np.asarray(grad_val @ self._space.selection_matrix)))
         ]
 
     def __str__(self):
-- 
2.43.0


From 878bd182479748628b16c128818fac5cf4e09196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:47 +0000
Subject: [PATCH 39/59] fix: Fit2Eps gradient is that of the squared difference

---
 spins/invdes/problem/structure_objectives.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spins/invdes/problem/structure_objectives.py b/spins/invdes/problem/structure_objectives.py
index 9ce0e86..703ab26 100644
--- a/spins/invdes/problem/structure_objectives.py
+++ b/spins/invdes/problem/structure_objectives.py
@@ -29,7 +29,7 @@ class Fit2Eps(OptimizationFunction):
         z = param.get_structure()
         err = self.eps_bg + self.S @ z - self.eps
         return np.asfortranarray(
-            np.real(np.conj(err) @ self.S @ param.calculate_gradient()))
+            2 * np.real(np.conj(err) @ self.S @ param.calculate_gradient()))
 
     def __str__(self) -> str:
         return 'fit2eps()'
-- 
2.43.0


From 2df97caa5f2ce3e3e8b10448be8eeeb5edfe999d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:45 +0000
Subject: [PATCH 40/59] fix: allow complex sources in simulations of a real
 permittivity

The source of a simulation was allocated with the data type of the
permittivity, so that adding any (complex) source to the simulation of a
real permittivity raised an exception.
---
 spins/goos_sim/maxwell/simulate.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/spins/goos_sim/maxwell/simulate.py b/spins/goos_sim/maxwell/simulate.py
index c818a92..69aeaf4 100644
--- a/spins/goos_sim/maxwell/simulate.py
+++ b/spins/goos_sim/maxwell/simulate.py
@@ -503,7 +503,7 @@ class SimulateNode(goos.ArrayFlowOpMixin, goos.ProblemGraphNode):
         if self._last_eps is None or self._last_eps != input_vals[0]:
             eps = input_vals[0].array
             sim = FdfdSimProp(eps=eps,
-                              source=np.zeros_like(eps),
+                              source=np.zeros_like(eps, dtype=complex),
                               wlen=self._wlen,
                               dxes=self._dxes,
                               pml_layers=self._pml_layers,
@@ -541,7 +541,7 @@ class SimulateNode(goos.ArrayFlowOpMixin, goos.ProblemGraphNode):
              grad_val: goos.ArrayFlow.Grad) -> List[goos.Flow.Grad]:
         eps = input_vals[0].array
         sim = FdfdSimProp(eps=eps,
-                          source=np.zeros_like(eps),
+                          source=np.zeros_like(eps, dtype=complex),
                           wlen=self._wlen,
                           dxes=self._dxes,
                           pml_layers=self._pml_layers,
@@ -738,7 +738,7 @@ class SimulateEigNode(goos.ArrayFlowOpMixin, goos.ProblemGraphNode):
         if self._last_eps is None or self._last_eps != input_vals[0]:
             eps = input_vals[0].array
             sim = EigSimProp(eps=eps,
-                             source=np.zeros_like(eps),
+                             source=np.zeros_like(eps, dtype=complex),
                              wlen=self._wlen,
                              dxes=self._dxes,
                              pml_layers=self._pml_layers,
@@ -786,7 +786,7 @@ class SimulateEigNode(goos.ArrayFlowOpMixin, goos.ProblemGraphNode):
         if self._last_eps is None or self._last_eps != input_vals[0]:
             eps = input_vals[0].array
             sim = EigSimProp(eps=eps,
-                             source=np.zeros_like(eps),
+                             source=np.zeros_like(eps, dtype=complex),
                              wlen=self._wlen,
                              dxes=self._dxes,
                              pml_layers=self._pml_layers,
-- 
2.43.0


From 26c3e2ec55ff61d00186c385b69b724b35855120 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:45 +0000
Subject: [PATCH 41/59] fix: differentiate simulations with unused overlap
 outputs

An overlap output that does not contribute to the differentiated function
receives  as its gradient, on which the adjoint source crashed.
---
 spins/goos_sim/maxwell/simulate.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/spins/goos_sim/maxwell/simulate.py b/spins/goos_sim/maxwell/simulate.py
index 69aeaf4..dd1bc09 100644
--- a/spins/goos_sim/maxwell/simulate.py
+++ b/spins/goos_sim/maxwell/simulate.py
@@ -338,6 +338,9 @@ class WaveguideModeOverlapImpl(SimOutputImpl):
 
     def before_adjoint_sim(self, adjoint_sim: FdfdSimProp,
                            grad_val: goos.NumericFlow.Grad) -> None:
+        # The gradient is `None` if the overlap is not needed.
+        if grad_val is None:
+            return
         adjoint_sim.source += np.conj(grad_val.array_grad * self._wg_overlap)
 
 
-- 
2.43.0


From 99f4cab991cebb26b90ec9f37a3c36c7ce407133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:45 +0000
Subject: [PATCH 42/59] fix: raise a proper exception for unsupported
 simulation outputs

`NotImplemented` is not callable, so that a TypeError was raised instead.
---
 spins/goos_sim/maxwell/simulate.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/spins/goos_sim/maxwell/simulate.py b/spins/goos_sim/maxwell/simulate.py
index dd1bc09..66db7c6 100644
--- a/spins/goos_sim/maxwell/simulate.py
+++ b/spins/goos_sim/maxwell/simulate.py
@@ -224,14 +224,14 @@ class SimOutputImpl:
         pass
 
     def eval(self, sim: FdfdSimProp) -> goos.Flow:
-        raise NotImplemented("{} cannot be evaluated.".format(type(self)))
+        raise NotImplementedError("{} cannot be evaluated.".format(type(self)))
 
     def before_adjoint_sim(self, adjoint_sim: FdfdSimProp,
                            grad_val: goos.Flow.Grad) -> None:
         # If an implementation is not provided, then the gradient must be
         # `None` to indicate that the gradient is not needed.
-        if grad_val:
-            raise NotImplemented(
+        if grad_val is not None:
+            raise NotImplementedError(
                 "Cannot differentiate with respect to {}".format(type(self)))
 
 
-- 
2.43.0


From ccc716fb7e479fa2317ddeb733a842b0c5aad1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:33:45 +0000
Subject: [PATCH 43/59] fix: keep the phase of dipole sources in a real
 permittivity

The current was allocated with the data type of the permittivity, which
cannot hold a complex phase.
---
 spins/fdfd_solvers/dipole.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spins/fdfd_solvers/dipole.py b/spins/fdfd_solvers/dipole.py
index 655dfe6..d8d42d6 100644
--- a/spins/fdfd_solvers/dipole.py
+++ b/spins/fdfd_solvers/dipole.py
@@ -29,7 +29,7 @@ def build_dipole_source(omega: complex, dxes: List[np.ndarray],
     # The 0.0266 constant is an empirically determined constant.
     j_norm = np.sqrt(power) / np.sqrt(0.02661928208866846 * (omega**2 * dx**3))
 
-    J = np.zeros_like(eps)
+    J = np.zeros_like(eps, dtype=complex)
     J[int(axis)][tuple(position)] = 1 / eps_source * j_norm * phase / abs(phase)
 
     return J
-- 
2.43.0


From 63664629990438af9caac3df5a8c8d17f581f0d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:09 +0000
Subject: [PATCH 44/59] fix: ScipyOptimizer passes every constraint to scipy

The constraint callbacks referred to the loop variable, so that with
several equality (or inequality) constraints all of them evaluated the
last one.
---
 spins/invdes/optimization/scipy_optimizer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/spins/invdes/optimization/scipy_optimizer.py b/spins/invdes/optimization/scipy_optimizer.py
index 94dd2a7..3689b80 100644
--- a/spins/invdes/optimization/scipy_optimizer.py
+++ b/spins/invdes/optimization/scipy_optimizer.py
@@ -87,11 +87,11 @@ class ScipyOptimizer:
             constraints = []
             for eq in opt.get_equality_constraints():
 
-                def cons_fun(x):
+                def cons_fun(x, eq=eq):
                     param.from_vector(x)
                     return eq.calculate_objective_function(param)
 
-                def cons_jac(x):
+                def cons_jac(x, eq=eq):
                     param.from_vector(x)
                     return eq.calculate_gradient(param)
 
@@ -103,11 +103,11 @@ class ScipyOptimizer:
             for ineq in opt.get_inequality_constraints():
                 # Note the negative sign because of opposite convention
                 # for inequalities (f >= 0 vs f <= 0).
-                def cons_fun(x):
+                def cons_fun(x, ineq=ineq):
                     param.from_vector(x)
                     return -ineq.calculate_objective_function(param)
 
-                def cons_jac(x):
+                def cons_jac(x, ineq=ineq):
                     param.from_vector(x)
                     return -ineq.calculate_gradient(param)
 
-- 
2.43.0


From 39fbea8d241f32d441203943398b615a8465c230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:57:09 +0000
Subject: [PATCH 45/59] fix: bounds of slack parametrizations over array bounds

Parametrizations may return their bounds as arrays (e.g. CompositeParam),
to which the slack bounds were added numerically instead of appended.
---
 spins/invdes/problem/slack_optimization_problem.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spins/invdes/problem/slack_optimization_problem.py b/spins/invdes/problem/slack_optimization_problem.py
index 101fdb2..d6f64c1 100644
--- a/spins/invdes/problem/slack_optimization_problem.py
+++ b/spins/invdes/problem/slack_optimization_problem.py
@@ -78,8 +78,8 @@ class SlackParam(Parametrization):
         if param_bounds is None:
             param_size = len(self.param.to_vector())
             param_bounds = [(None,) * param_size, (None,) * param_size]
-        minBounds = param_bounds[0] + self.num_slack * (0,)
-        maxBounds = param_bounds[1] + self.num_slack * (None,)
+        minBounds = tuple(param_bounds[0]) + self.num_slack * (0,)
+        maxBounds = tuple(param_bounds[1]) + self.num_slack * (None,)
         return minBounds, maxBounds
 
     def get_param(self):
-- 
2.43.0


From 6738ea9bbacc4cc9982725ac234521b1f15801be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:09 +0000
Subject: [PATCH 46/59] fix: gradients of functions of a composite
 parametrization

The Jacobian of CompositeParam could not be applied to a gradient from the
left, so that no objective could be differentiated with respect to it.
---
 .../composite_parametrization.py              | 20 ++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/spins/invdes/parametrization/composite_parametrization.py b/spins/invdes/parametrization/composite_parametrization.py
index 3f6c8c4..f5539b0 100644
--- a/spins/invdes/parametrization/composite_parametrization.py
+++ b/spins/invdes/parametrization/composite_parametrization.py
@@ -143,8 +143,26 @@ class CompositeParam(parametrization.Parametrization):
             return np.hstack([param.calculate_gradient() @ sub_vec for
                               param, sub_vec in zip(self._params, split_vec)])
 
+        def _vec_jacobian_prod(vec: np.ndarray) -> np.ndarray:
+            """Calculate the product of the transposed jacobian with a vector.
+
+            This is the product that is needed to propagate the gradient of a
+            function of the structure to the parameters.
+
+            Args:
+                vec: The numpy array to multiply the transposed jacobian to.
+
+            Returns:
+                The product of the transposed jacobian with the vector `vec`.
+            """
+            split_vec = _split_vector(
+                vec, [param.get_structure().size for param in self._params])
+            return np.hstack([param.calculate_gradient().T @ sub_vec for
+                              param, sub_vec in zip(self._params, split_vec)])
+
         return linalg.LinearOperator((self._z_size, np.sum(self._param_sizes)),
-                                     matvec=_jacobian_vec_prod)
+                                     matvec=_jacobian_vec_prod,
+                                     rmatvec=_vec_jacobian_prod)
 
     def encode(self) -> np.ndarray:
         """Encode the parametrization into a vector form.
-- 
2.43.0


From 2c05816b99165ddf027cf9332b05cf57fbfb9a56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:50 +0000
Subject: [PATCH 47/59] fix: gradient optimizers stop at the requested number
 of iterations

optimize(iters=0) and max_iters = 0 were taken as no limit, and an iteration
was run even when max_iters had already been reached.
---
 spins/invdes/optimization/gradient_descent.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/spins/invdes/optimization/gradient_descent.py b/spins/invdes/optimization/gradient_descent.py
index acd63b0..cd6d308 100644
--- a/spins/invdes/optimization/gradient_descent.py
+++ b/spins/invdes/optimization/gradient_descent.py
@@ -72,9 +72,9 @@ class GradientOptimizer:
         # Keep a list of possible stop iterations.
         # Then take the minimum of the possibilities.
         stop_iter_list = []
-        if iters:
+        if iters is not None:
             stop_iter_list.append(self._iters + iters)
-        if self._max_iters:
+        if self._max_iters is not None:
             stop_iter_list.append(self._max_iters)
 
         # Compute stopping iteration.
@@ -82,15 +82,12 @@ class GradientOptimizer:
         if stop_iter_list:
             stop_iter = np.min(stop_iter_list)
 
-        while True:
+        while stop_iter is None or self._iters < stop_iter:
             stop_opt = self.iterate()
             # Increase iteration count and break if done.
             self._iters += 1
             if callback:
                 callback(self.param)
-            # Check if we should break from iteration count.
-            if stop_iter and self._iters >= stop_iter:
-                break
             # Check if we should break from other factors.
             if stop_opt:
                 break
-- 
2.43.0


From 2ef11030f6ad9c7b08f26cd5c5b0cd584149e4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:50 +0000
Subject: [PATCH 48/59] fix: normalized gradient descent leaves the objective's
 gradient alone

Dividing in place changed an array that belongs to the objective and failed
for integer gradients.
---
 spins/invdes/optimization/gradient_descent.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spins/invdes/optimization/gradient_descent.py b/spins/invdes/optimization/gradient_descent.py
index cd6d308..18be885 100644
--- a/spins/invdes/optimization/gradient_descent.py
+++ b/spins/invdes/optimization/gradient_descent.py
@@ -127,7 +127,7 @@ class GradientDescent(GradientOptimizer):
         gradient_norm = np.linalg.norm(gradient)
 
         if self.normalize_gradient:
-            gradient /= gradient_norm
+            gradient = gradient / gradient_norm
 
         self.param.decode(self.param.encode() - self.alpha * gradient)
         self.param.project()
-- 
2.43.0


From 2bd5b0b6224a9c2bd95471a8104401b32a40b41f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:41:34 +0000
Subject: [PATCH 49/59] fix: multi-etch gratings with several etch levels
 within one pixel

Rendering failed with an IndexError, or gave wrong values, when two etch
levels lay in the same pixel along the etch direction, as they do with the
default of one pixel.
---
 spins/goos/grating.py | 33 +++++++++------------------------
 1 file changed, 9 insertions(+), 24 deletions(-)

diff --git a/spins/goos/grating.py b/spins/goos/grating.py
index 97a954b..0a3b3e6 100644
--- a/spins/goos/grating.py
+++ b/spins/goos/grating.py
@@ -435,31 +435,16 @@ class MultiEtchEdgeParametrization(Parametrization):
         level_vecs = self.get_level_vecs()
         raster_vecs = [self.build_rasterized_1D(vec) for vec in level_vecs]
 
-        layer_pixels = np.diff(np.r_[0, self.etch_depths])
-        # Generate the structure.
+        # Each layer fills the part of every pixel along the etch direction that
+        # lies between its two etch depths. What is below the last layer is
+        # never etched.
+        depths = np.r_[0, self.etch_depths, self.dims[1]]
+        z = np.arange(self.dims[1])
         total_z = np.zeros(self.dims)
-        z_ind = 0
-        partial_pixels = 0
-        for i, raster_vec in enumerate(raster_vecs):
-            pixels_left = layer_pixels[i]
-            if i != 0:
-                if np.abs(partial_pixels) > 0.001:
-                    total_z[:, z_ind] += raster_vec * (1 - partial_pixels)
-                    z_ind += 1
-                    pixels_left -= (1 - partial_pixels)
-            full_pixels = int(pixels_left)
-            partial_pixels = pixels_left - full_pixels
-            if full_pixels > 0:
-                total_z[:, z_ind:z_ind + full_pixels] = np.hstack(
-                    (raster_vec[:, np.newaxis],) * full_pixels)
-                z_ind += full_pixels
-            if np.abs(partial_pixels) > 0.001:
-                total_z[:, z_ind] += raster_vec * partial_pixels
-        # Add final layers of ones.
-        if np.abs(partial_pixels) > 0.001:
-            total_z[:, z_ind] += 1 - partial_pixels
-            z_ind += 1
-        total_z[:, z_ind:self.dims[1]] = 1
+        for i, raster_vec in enumerate(raster_vecs + [np.ones(self.dims[0])]):
+            fill = np.clip(depths[i + 1] - z, 0, 1) - np.clip(
+                depths[i] - z, 0, 1)
+            total_z += raster_vec[:, np.newaxis] * fill
         return total_z.flatten(order='F')
 
     def get_bounds(self):
-- 
2.43.0


From 507242cdb8f48ef34e15f5900caace8bc6fd854a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:42:37 +0000
Subject: [PATCH 50/59] fix: gradient of EdgeLocConstraint

It multiplied elementwise, which failed, and had the wrong sign for the
constraint on the first edge.
---
 spins/goos/grating.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spins/goos/grating.py b/spins/goos/grating.py
index 0a3b3e6..4526807 100644
--- a/spins/goos/grating.py
+++ b/spins/goos/grating.py
@@ -714,13 +714,13 @@ class EdgeLocConstraint(goos.Function):
 
             # Append constraints for first and last edge.
             first = np.zeros(len(vector))
-            first[0] = 1
+            first[0] = -1
             last = np.zeros(len(vector))
             last[-1] = 1
             self._diff_mat = np.vstack([self._diff_mat, first, last])
 
         return [
-            goos.NumericFlow.Grad(grad_val.array_grad * self._diff_mat), None
+            goos.NumericFlow.Grad(grad_val.array_grad @ self._diff_mat), None
         ]
 
 
-- 
2.43.0


From 9edc946d1a9bc70aa9ca11d552a54d6992075395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:00 +0000
Subject: [PATCH 51/59] fix: width bounds of discretized gratings belong to the
 right level

With feature sizes that depend on the level, the bounds of each width were
those of the following segment, so that they could exclude the discretized
grating itself.
---
 spins/goos/grating.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/spins/goos/grating.py b/spins/goos/grating.py
index 4526807..f0c0b0d 100644
--- a/spins/goos/grating.py
+++ b/spins/goos/grating.py
@@ -302,17 +302,23 @@ class GratingL2D(goos.Action):
             widths = np.r_[edges[0], edges[1:] - edges[:-1]]
             plan.set_var_value(self._disc_widths, widths)
 
+            # `levels` holds the level to the right of each edge whereas
+            # `widths` holds the width of the segment to its left.
+            width_levels = [self._start_depth_ind] + list(levels[:-1])
+
             if np.isscalar(self._min_features):
                 min_feats = self._min_features
             else:
-                min_feats = np.array([self._min_features[i] for i in levels])
+                min_feats = np.array(
+                    [self._min_features[i] for i in width_levels])
 
             if self._max_features is None:
                 max_feats = np.inf
             elif np.isscalar(self._max_features):
                 max_feats = self._max_features
             else:
-                max_feats = np.array([self._max_features[i] for i in levels])
+                max_feats = np.array(
+                    [self._max_features[i] for i in width_levels])
 
             ones = np.ones_like(widths)
             plan.set_var_bounds(self._disc_widths,
-- 
2.43.0


From f7b62cbecb770a4b7df9f51ccfc325763cb43db8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:46:00 +0000
Subject: [PATCH 52/59] fix: grating discretization keeps to minimum feature
 sizes

The minimum feature was rounded down to a multiple of a fifth of a pixel, so
that narrower features were produced.
---
 spins/invdes/problem_graph/grating.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/spins/invdes/problem_graph/grating.py b/spins/invdes/problem_graph/grating.py
index 144056e..7f727af 100644
--- a/spins/invdes/problem_graph/grating.py
+++ b/spins/invdes/problem_graph/grating.py
@@ -1,5 +1,6 @@
 """This module contains transformations related to grating parametrization."""
 import copy
+import math
 from typing import List
 
 import numpy as np
@@ -123,7 +124,7 @@ def _get_edge_loc_dp(x: List[float], min_feature: float = 0) -> np.ndarray:
     dp = [max_val] * max_k
 
     # min_feature size in terms of grid units.
-    d = int(min_feature * divisions)
+    d = math.ceil(round(min_feature * divisions, 6))
     struct_dp = [[] for i in range(d)]
 
     # k = this right edge
-- 
2.43.0


From b18fea8d389eb2704fb927ab4ec2fa71ce9462fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:16:53 +0000
Subject: [PATCH 53/59] fix: create workspaces on current Python versions

collections.Iterable was removed in Python 3.10, so neither a Workspace nor
run_plan could be used at all.
---
 spins/invdes/problem_graph/workspace.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spins/invdes/problem_graph/workspace.py b/spins/invdes/problem_graph/workspace.py
index 989b91b..ad1fe2c 100644
--- a/spins/invdes/problem_graph/workspace.py
+++ b/spins/invdes/problem_graph/workspace.py
@@ -4,7 +4,7 @@ The workspace has the following responsibilities:
     1) Creating and caching problem graph node objects.
     2) Handling execution of transformations.
 """
-import collections
+import collections.abc
 from datetime import datetime
 import glob
 import logging
@@ -56,7 +56,7 @@ class Workspace:
         # TODO(logansu): Accept argument-less variable.
         self._objects[VARIABLE_NODE] = problem.Variable(1)
 
-        if isinstance(nodes, collections.Iterable):
+        if isinstance(nodes, collections.abc.Iterable):
             for node in nodes:
                 self._add_node(node)
         elif nodes:
-- 
2.43.0


From 3f6aa6a25d15a7bb247185276ea00e838e18e274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:21 +0000
Subject: [PATCH 54/59] fix: an interrupted write no longer leaves a truncated
 log or checkpoint

When the process ended while a log or checkpoint was being saved, the file
was left truncated and every later attempt to resume failed to read it.
---
 spins/invdes/problem_graph/workspace.py | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/spins/invdes/problem_graph/workspace.py b/spins/invdes/problem_graph/workspace.py
index ad1fe2c..1189f97 100644
--- a/spins/invdes/problem_graph/workspace.py
+++ b/spins/invdes/problem_graph/workspace.py
@@ -250,6 +250,19 @@ def _set_parameters(work: workspace.Workspace,
             parameter.set_parameter_value(function_value)
 
 
+def _write_pickle(file_path: str, data: Dict) -> None:
+    """Writes a Pickle file such that it either is complete or does not exist.
+
+    Args:
+        file_path: Path of the file.
+        data: Data to save.
+    """
+    temp_path = file_path + ".tmp"
+    with open(temp_path, "wb") as handle:
+        pickle.dump(data, handle)
+    os.replace(temp_path, file_path)
+
+
 class Logger:
     """Handles logging for transformations.
 
@@ -321,8 +334,7 @@ class Logger:
 
         # Save the data.
         file_path = os.path.join(self._path, checkpoint_file)
-        with open(file_path, "wb") as handle:
-            pickle.dump(data, handle)
+        _write_pickle(file_path, data)
 
     def write(self,
               event: Dict,
@@ -371,8 +383,7 @@ class Logger:
         # Save the data.
         file_path = os.path.join(
             self._path, os.path.join("step{}.pkl".format(self._log_counter)))
-        with open(file_path, "wb") as handle:
-            pickle.dump(data, handle)
+        _write_pickle(file_path, data)
 
 
 def get_latest_log_step(folder: str) -> int:
-- 
2.43.0


From 5e78404f08fe8510a0c02677735d49122de0a1b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:49 +0000
Subject: [PATCH 55/59] fix: optimizer transformations respect their options

Options set to zero were dropped, leaving out optimization_options raised an
AttributeError, and unset options of the penalty optimizer reached it as None
instead of taking their default.
---
 spins/invdes/problem_graph/creator_opt.py | 33 ++++++++++++-----------
 1 file changed, 18 insertions(+), 15 deletions(-)

diff --git a/spins/invdes/problem_graph/creator_opt.py b/spins/invdes/problem_graph/creator_opt.py
index bafe7ac..3caf2c3 100644
--- a/spins/invdes/problem_graph/creator_opt.py
+++ b/spins/invdes/problem_graph/creator_opt.py
@@ -7,6 +7,21 @@ from spins.invdes.problem_graph import optplan
 from spins.invdes.problem_graph import workspace
 
 
+def _get_set_options(options: Union[None, Dict, optplan.ScipyOptimizerOptions,
+                                    optplan.PenaltyOptimizerOptions]) -> Dict:
+    """Returns a dictionary with all the options that have been set.
+
+    Args:
+        options: Options as a dictionary or as an optplan model.
+
+    Returns:
+        Dictionary of options without options that are unset (`None`).
+    """
+    if options is None:
+        return {}
+    return {key: val for key, val in options.items() if val is not None}
+
+
 class ScipyOptimizer:
     """Minimize a function with `ScipyOptimizer`."""
 
@@ -43,13 +58,7 @@ class ScipyOptimizer:
         """
         self._opt_prob = opt_prob
         self.optimizer = optimizer
-        if optimization_options is None:
-            optimization_options = {}
-        else:
-            for key, value in optimization_options.items():
-                if not value:
-                    del optimization_options[key]
-        self.optimization_options = optimization_options
+        self.optimization_options = _get_set_options(optimization_options)
         self.monitor_lists = monitor_lists
         if not self.monitor_lists:
             self.monitor_lists = optplan.ScipyOptimizerMonitorList()
@@ -139,7 +148,7 @@ class ScipyOptimizer:
                 monitor_list=self.monitor_lists.callback_monitors)
 
         # Run optimization.
-        opt_options = self.optimization_options.to_native()
+        opt_options = dict(self.optimization_options)
         # If restoring, decrease maximum number of iterations based on
         # number of iterations already performed.
         if "maxiter" in opt_options:
@@ -244,13 +253,7 @@ class PenaltyOptimizer:
         """
         self._opt_prob = opt_prob
         self.optimizer = optimizer
-        if optimization_options is None:
-            optimization_options = {}
-        else:
-            for key, value in optimization_options.items():
-                if not value:
-                    del optimization_options[key]
-        self.optimization_options = optimization_options
+        self.optimization_options = _get_set_options(optimization_options)
         self.monitor_lists = monitor_lists
         if not self.monitor_lists:
             self.monitor_lists = optplan.ScipyOptimizerMonitorList()
-- 
2.43.0


From d5dcc7acbadd7b7f878cbe3d1cb7771485ffa3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:20:19 +0000
Subject: [PATCH 56/59] fix: log the current point of the optimization

The optimizer may have evaluated other points (e.g. Nelder-Mead trial points)
after the current one; the logs, and with them resumed optimizations, used
whichever point was evaluated last.
---
 spins/invdes/problem_graph/creator_opt.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/spins/invdes/problem_graph/creator_opt.py b/spins/invdes/problem_graph/creator_opt.py
index 3caf2c3..a936229 100644
--- a/spins/invdes/problem_graph/creator_opt.py
+++ b/spins/invdes/problem_graph/creator_opt.py
@@ -130,9 +130,12 @@ class ScipyOptimizer:
 
         # Make a callback function for the optimization that logs the data.
 
-        def _callback(_) -> None:
+        def _callback(x) -> None:
             nonlocal iter_num
 
+            # The last point that was evaluated need not be the current point.
+            param.from_vector(x)
+
             # Increase iteration count.
             iter_num += 1
 
-- 
2.43.0


From 75933cd22b0aa13c6752352ff9775738453df18d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:21:13 +0000
Subject: [PATCH 57/59] fix: resuming a plan restores every parameter

Resuming raised a KeyError when the objective uses a parameter which no
parameter_list sets, and resuming in the middle of a transformation went on
with the parameter values from before that transformation.
---
 spins/invdes/problem_graph/solver.py | 37 +++++++++++++++++++---------
 1 file changed, 25 insertions(+), 12 deletions(-)

diff --git a/spins/invdes/problem_graph/solver.py b/spins/invdes/problem_graph/solver.py
index e4ed8cc..35e3825 100644
--- a/spins/invdes/problem_graph/solver.py
+++ b/spins/invdes/problem_graph/solver.py
@@ -133,19 +133,13 @@ def restore_workspace(plan: optplan.OptimizationPlan, work: workspace.Workspace,
         with open(chkpt_file, "rb") as fp:
             chkpt_data = pickle.load(fp)
 
-        # Iterate through all the previous transformations, restoring any
-        # parametrizations and parameters along the way. It is not strictly
-        # necessary to restore parametrizations/parameters along the way,
-        # but it was done out of implementation convenience.
+        # Add all the nodes used by the previous transformations.
         for transform in plan.transformations[:transform_index]:
-            # Restore any parametrizations.
-            work.get_object(transform.parametrization).deserialize(
-                chkpt_data["parametrizations"][transform.parametrization.name])
+            _add_transformation_nodes(work, transform)
 
-            # Add any parameter descriptions. Actual values restored below.
-            if transform.parameter_list:
-                for set_param in transform.parameter_list:
-                    work._add_node(set_param.parameter)
+        # Restore any parametrizations.
+        for param, param_data in chkpt_data["parametrizations"].items():
+            work.get_object(param).deserialize(param_data)
 
         # Now restore all parameter values.
         for param, param_value in chkpt_data["parameters"].items():
@@ -171,7 +165,11 @@ def restore_workspace(plan: optplan.OptimizationPlan, work: workspace.Workspace,
 
     if log_data["transformation"] == plan.transformations[transform_index].name:
         # The log file is in the next transformation so restore the
-        # current parametrization value.
+        # current parametrization value and the parameters, which have been
+        # set at the start of the transformation.
+        _add_transformation_nodes(work, plan.transformations[transform_index])
+        for param, param_value in log_data["parameters"].items():
+            work.get_object(param).set_parameter_value(param_value)
         work.get_object(
             plan.transformations[transform_index].parametrization).deserialize(
                 log_data["parametrization"])
@@ -183,6 +181,21 @@ def restore_workspace(plan: optplan.OptimizationPlan, work: workspace.Workspace,
     return transform_index, event_data
 
 
+def _add_transformation_nodes(work: workspace.Workspace,
+                              transform: optplan.Transformation) -> None:
+    """Adds every node that a transformation refers to.
+
+    Args:
+        work: Workspace to add the nodes to.
+        transform: Transformation.
+    """
+
+    def process_field(unused_parent, child: optplan.ProblemGraphNode) -> None:
+        work._add_node(child)
+
+    optplan.io._iter_optplan_fields(transform, set(), process_field)
+
+
 def setup_logging(save_folder: str) -> None:
     """Setup logging.
 
-- 
2.43.0


From 0ff00322b8328f2a14d05f00e024c044a97433fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:25 +0000
Subject: [PATCH 58/59] fix: numbers can be divided by optplan functions

The reflected operator had the name of its Python 2 counterpart, so that for
instance 1 / function raised a TypeError.
---
 spins/invdes/problem_graph/optplan/optplan.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/spins/invdes/problem_graph/optplan/optplan.py b/spins/invdes/problem_graph/optplan/optplan.py
index ebc1f3d..f6536d6 100644
--- a/spins/invdes/problem_graph/optplan/optplan.py
+++ b/spins/invdes/problem_graph/optplan/optplan.py
@@ -219,7 +219,7 @@ class Function(ProblemGraphNode):
     def __rsub__(self, obj) -> "optplan.Sum":
         return -self + obj
 
-    def __rdiv__(self, obj) -> "optplan.Product":
+    def __rtruediv__(self, obj) -> "optplan.Product":
         return self**(-1) * obj
 
 
-- 
2.43.0


From 8e8d9b4a6cb4d90e3c072468e21f511b2b38d63f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:25:25 +0000
Subject: [PATCH 59/59] fix: accept plans of newer versions

The parts of the version were compared one by one, which rejected for
instance version 0.3.0.
---
 spins/invdes/problem_graph/optplan/io.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/spins/invdes/problem_graph/optplan/io.py b/spins/invdes/problem_graph/optplan/io.py
index 261dff3..9ee7b2a 100644
--- a/spins/invdes/problem_graph/optplan/io.py
+++ b/spins/invdes/problem_graph/optplan/io.py
@@ -286,9 +286,9 @@ def _validate_optplan_version(version: str) -> None:
         ValueError: On incompatible version.
     """
     version_parts = [int(part) for part in version.split(".")]
-    if version_parts[0] < 0 or version_parts[1] < 2 or version_parts[2] < 3:
+    if version_parts < [0, 2, 3]:
         raise ValueError(
-            "Optplan must be at least version 0.2.1, got {}".format(version))
+            "Optplan must be at least version 0.2.3, got {}".format(version))
 
 
 def loads(serialized_plan: str) -> optplan.OptimizationPlan:
-- 
2.43.0

