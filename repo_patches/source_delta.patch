From 64284432be6c039a0cd6549d45dd4ce841c552b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:11 +0000
Subject: [PATCH 01/36] fix: do not trace as_strided through views that
 reinterpret the storage

A view with another dtype (view_as_real, view.dtype) or another conjugate or
negative bit shares its operand's storage, but indexing the operand reads other
values and counts in other element sizes. Stop the base walk there.
---
 python/torch_mlir/extras/fx_as_strided.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/python/torch_mlir/extras/fx_as_strided.py b/python/torch_mlir/extras/fx_as_strided.py
index 063509c..02f2c98 100644
--- a/python/torch_mlir/extras/fx_as_strided.py
+++ b/python/torch_mlir/extras/fx_as_strided.py
@@ -167,7 +167,8 @@ def _base(value: Any) -> Any:
 def _storage_operand(node: fx.Node) -> fx.Node | None:
     # Return the tensor operand that shares storage with node. View-like nodes
     # have one such operand. Copy and layout-changing nodes have none and stop
-    # the walk.
+    # the walk, and so do views that reinterpret the storage: indexing their
+    # operand would read other values (and count in other element sizes).
     value = _tensor(node, "result")
     for arg in list(node.args) + list(node.kwargs.values()):
         match = _same_storage_arg(value, arg)
@@ -183,7 +184,11 @@ def _same_storage_arg(value: torch.Tensor, arg: Any) -> fx.Node | None:
     if isinstance(arg, fx.Node):
         arg_value = arg.meta.get("val")
         if isinstance(arg_value, torch.Tensor):
-            if value.untyped_storage() is arg_value.untyped_storage():
+            if value.untyped_storage() is arg_value.untyped_storage() and (
+                value.dtype,
+                value.is_conj(),
+                value.is_neg(),
+            ) == (arg_value.dtype, arg_value.is_conj(), arg_value.is_neg()):
                 return arg
     if isinstance(arg, _LIST):
         for item in arg:
-- 
2.43.0


From a42dde11d4a362bd5ce886789a9dd0acdcab610e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:17 +0000
Subject: [PATCH 02/36] fix: rewrite as_strided of a zero-dimensional base

aten.index without an index is rejected; the only accepted requests read the
one element everywhere, which aten.expand does.
---
 python/torch_mlir/extras/fx_as_strided.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/python/torch_mlir/extras/fx_as_strided.py b/python/torch_mlir/extras/fx_as_strided.py
index 02f2c98..c608206 100644
--- a/python/torch_mlir/extras/fx_as_strided.py
+++ b/python/torch_mlir/extras/fx_as_strided.py
@@ -9,6 +9,7 @@ import torch
 import torch.fx as fx
 
 _AS_STRIDED = torch.ops.aten.as_strided.default
+_EXPAND = torch.ops.aten.expand.default
 _INDEX = torch.ops.aten.index.Tensor
 _LIST = (list, tuple, fx.immutable_collections.immutable_list)
 _MISSING = object()
@@ -85,7 +86,12 @@ def _rewrite(g: fx.Graph, node: fx.Node) -> fx.Node:
     )
     index_nodes = [_constant(g, node, i, v) for i, v in enumerate(indices)]
     with g.inserting_before(node):
-        replacement = g.call_function(_INDEX, args=(base, index_nodes))
+        # A zero-dimensional base has no index: every element reads its value.
+        replacement = (
+            g.call_function(_INDEX, args=(base, index_nodes))
+            if index_nodes
+            else g.call_function(_EXPAND, args=(base, list(size)))
+        )
     replacement.meta.update(node.meta)
     replacement.meta["val"] = torch.empty(
         tuple(size), dtype=_tensor(node, "result").dtype
-- 
2.43.0


From ca47cac563b750ea65454f5644af46417b9df13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:23 +0000
Subject: [PATCH 03/36] fix: ignore the strides of size-one base dimensions
 when decoding as_strided

A one-channel channels-last base has stride one in both its channel and its
innermost dimension; decoding the size-one dimension first rejected in-bounds
requests.
---
 python/torch_mlir/extras/fx_as_strided.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/python/torch_mlir/extras/fx_as_strided.py b/python/torch_mlir/extras/fx_as_strided.py
index c608206..6c117bb 100644
--- a/python/torch_mlir/extras/fx_as_strided.py
+++ b/python/torch_mlir/extras/fx_as_strided.py
@@ -230,13 +230,14 @@ def _indices(
             shape[dim] = size[dim]
             offsets += torch.arange(size[dim], dtype=torch.int64).reshape(shape) * step
 
-    # Decode high-stride dimensions first. Zero-stride base dimensions keep
-    # coordinate zero because they do not contribute to storage offsets.
+    # Decode high-stride dimensions first. Zero-stride and size-one base
+    # dimensions keep coordinate zero because they do not contribute to storage
+    # offsets (the stride of a size-one dimension is arbitrary).
     coords: list[torch.Tensor] = [torch.zeros_like(offsets)] * len(base_shape)
     remaining = offsets
     dims = sorted(range(len(base_shape)), key=lambda i: base_stride[i], reverse=True)
     for dim in dims:
-        if base_stride[dim]:
+        if base_stride[dim] and base_shape[dim] != 1:
             coord = torch.div(remaining, base_stride[dim], rounding_mode="floor")
             coords[dim] = coord
             remaining -= coord * base_stride[dim]
-- 
2.43.0


From aa0fdcc47fcfa7a3ce29b8e2e92304c64c8dfa2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:02 +0000
Subject: [PATCH 04/36] fix: store every mutation whose producer is a
 placeholder or is shared

---
 python/torch_mlir/extras/fx_importer.py | 32 ++++++++++++++++++-------
 1 file changed, 23 insertions(+), 9 deletions(-)

diff --git a/python/torch_mlir/extras/fx_importer.py b/python/torch_mlir/extras/fx_importer.py
index e760500..3b8756f 100644
--- a/python/torch_mlir/extras/fx_importer.py
+++ b/python/torch_mlir/extras/fx_importer.py
@@ -678,8 +678,9 @@ class FxImporter:
         # Invert the (producer, node_name) maps for mutated user inputs and mutated
         # buffers. This is because we hit-detect based on the input node name.
         mutated_user_inputs = {
-            node_name: producer
-            for producer, node_name in sig.user_inputs_to_mutate.items()
+            output_spec.target: output_spec.arg.name
+            for output_spec in sig.output_specs
+            if output_spec.kind == OutputKind.USER_INPUT_MUTATION
         }
 
         # Additional bindings that we need to set up after the function is created.
@@ -1425,8 +1426,8 @@ class GraphNodeImporter:
         self._v: Dict[Union[Callable[[], Value], Tuple[torch_fx.Node, int]], Value] = {}
         # Map of Shape Symbol to MLIR Value
         self._symbol_to_value: Dict[str, Value] = {}
-        # Map of node name to hook that should be called when it is produced.
-        self._on_node_produced: Dict[str, Callable[[Value], None]] = {}
+        # Map of node name to hooks that should be called when it is produced.
+        self._on_node_produced: Dict[str, List[Callable[[Value], None]]] = {}
         # Statically multi-result nodes which we have de-tupled are noted here.
         # They will have their getitem calls short-circuited.
         self._multi_result_nodes: Set[torch_fx.Node] = set()
@@ -1450,9 +1451,22 @@ class GraphNodeImporter:
         assert key not in self._v, f"Node already has a value: {node}"
         self._v[key] = value
 
-        producer_callback = self._on_node_produced.get(node.name)
-        if producer_callback is not None:
-            producer_callback(value)
+        for producer_callback in self._on_node_produced.get(node.name, ()):
+            producer_callback(self.resolve_node_value(node, result_index))
+
+    def _add_node_produced_callback(
+        self, producer_node_name: str, callback: Callable[[Value], None]
+    ):
+        """Calls back with each value of a node, including those already bound.
+
+        A mutation can be produced by a placeholder (i.e. `self.buf.copy_(x)`),
+        which may be bound before the mutated input is, and one node can produce
+        the value of several mutated inputs.
+        """
+        self._on_node_produced.setdefault(producer_node_name, []).append(callback)
+        for node, result_index in list(self._v):
+            if node.name == producer_node_name:
+                callback(self.resolve_node_value(node, result_index))
 
     def resolve_node_value(self, node: Node, result_index: int = 0) -> Value:
         """Resolves a node to a value."""
@@ -1521,7 +1535,7 @@ class GraphNodeImporter:
                     operands=[value, mutable_value],
                 )
 
-        self._on_node_produced[producer_node_name] = on_produced
+        self._add_node_produced_callback(producer_node_name, on_produced)
         return copy_result
 
     def import_constant(self, loc: Location, node: Node, constant: Any) -> Value:
@@ -1565,7 +1579,7 @@ class GraphNodeImporter:
                         self, buffer_value, value, info
                     )
 
-            self._on_node_produced[info.store_producer_node] = on_produced
+            self._add_node_produced_callback(info.store_producer_node, on_produced)
 
     def return_node_values(self, loc, nodes: List[Node], constants: Dict[int, Any]):
         # This function returns both node values and constant values
-- 
2.43.0


From 6f1059591166bdd017a3f9ebf17d127296843bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:02 +0000
Subject: [PATCH 05/36] fix: return constant outputs of programs that also
 mutate their inputs

---
 python/torch_mlir/extras/fx_importer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/torch_mlir/extras/fx_importer.py b/python/torch_mlir/extras/fx_importer.py
index 3b8756f..c7dc8a8 100644
--- a/python/torch_mlir/extras/fx_importer.py
+++ b/python/torch_mlir/extras/fx_importer.py
@@ -695,7 +695,7 @@ class FxImporter:
         # producer for the output.
         user_outputs: List[Optional[Node]] = []
         user_output_types: List[IrType] = []
-        for i, output_spec in enumerate(sig.output_specs):
+        for output_spec in sig.output_specs:
             kind = output_spec.kind
             arg = output_spec.arg
             if kind == OutputKind.USER_OUTPUT:
@@ -713,7 +713,7 @@ class FxImporter:
                     )
                 elif isinstance(arg, ConstantArgument):
                     # Constant Outputs don't have a node so we will only store their values
-                    constant_output_values[i] = arg.value
+                    constant_output_values[len(user_outputs)] = arg.value
                     # Placeholder for constant outputs in the node list
                     user_outputs.append(None)
                     user_output_types.append(self._cc.value_info_to_type(arg.value))
-- 
2.43.0


From 51e2f0e5f2c63ba4d140b57dc6cff4ffac41a77f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:02 +0000
Subject: [PATCH 06/36] fix: import a get_attr node that is used more than once

---
 python/torch_mlir/extras/fx_importer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/torch_mlir/extras/fx_importer.py b/python/torch_mlir/extras/fx_importer.py
index c7dc8a8..82f3bf5 100644
--- a/python/torch_mlir/extras/fx_importer.py
+++ b/python/torch_mlir/extras/fx_importer.py
@@ -2235,7 +2235,7 @@ class GraphNodeImporter:
                 raise RuntimeError(f"Attempt to de-reference a multi-result node")
 
             # catch references to dynamically created constant attributes and make sure they have an origin in our module
-            if arg.op == "get_attr" and (arg.target, 0) not in self._v:
+            if arg.op == "get_attr" and (arg, 0) not in self._v:
                 gm = arg.graph.owning_module
                 assert hasattr(
                     gm, arg.target
-- 
2.43.0


From ac3f0cb912e72a33715b83751ed6b05d3de32b6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:02 +0000
Subject: [PATCH 07/36] fix: do not reuse the literal of a dead tensor with the
 same id

---
 python/torch_mlir/extras/fx_importer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/torch_mlir/extras/fx_importer.py b/python/torch_mlir/extras/fx_importer.py
index 82f3bf5..da63563 100644
--- a/python/torch_mlir/extras/fx_importer.py
+++ b/python/torch_mlir/extras/fx_importer.py
@@ -2729,7 +2729,9 @@ class RefTracker:
     def track(self, referrent: Any) -> RefMapping:
         ref_id = id(referrent)
         existing = self._refs.get(ref_id)
-        if existing:
+        # The id of a dead object can be taken over by a new one, which must not
+        # be associated with the value of its predecessor.
+        if existing and (referrent is Empty or existing._referrent() is referrent):
             return existing
         info = RefMapping(referrent)
         # Finalizer is removed due to a memory leak
-- 
2.43.0


From ff1b982e8699c27140894135c5952ce4fe95549b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:58 +0000
Subject: [PATCH 08/36] fix: keep the operand order of int-to-float symbolic
 comparisons

---
 python/torch_mlir/extras/fx_importer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/torch_mlir/extras/fx_importer.py b/python/torch_mlir/extras/fx_importer.py
index da63563..5a31fa0 100644
--- a/python/torch_mlir/extras/fx_importer.py
+++ b/python/torch_mlir/extras/fx_importer.py
@@ -1690,7 +1690,11 @@ class GraphNodeImporter:
             if all(is_int):
                 op_overload = "int"
             elif any(is_int):
-                if target.__name__ in ("add", "lt", "ge", "ne", "gt"):
+                if target.__name__ in ("add", "ne") or (
+                    # a swap of the arguments would turn these around
+                    target.__name__ in ("lt", "ge", "gt")
+                    and arg_types[0] == float
+                ):
                     op_overload = "float_int"
                     # put float arg first, as expected in signature
                     if arg_types[1] == float:
-- 
2.43.0


From ecbbf9cb672257bf741ac4d5b790932c5cfd1d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:58 +0000
Subject: [PATCH 09/36] fix: import the Python modulo of symbolic scalars as
 remainder

---
 python/torch_mlir/extras/fx_importer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/torch_mlir/extras/fx_importer.py b/python/torch_mlir/extras/fx_importer.py
index 5a31fa0..de706e8 100644
--- a/python/torch_mlir/extras/fx_importer.py
+++ b/python/torch_mlir/extras/fx_importer.py
@@ -292,7 +292,7 @@ PY_BUILTIN_TO_TORCH_OP = {
     "ge": torch.ops.aten.ge,
     "ne": torch.ops.aten.ne,
     "gt": torch.ops.aten.gt,
-    "mod": torch.ops.aten.fmod,
+    "mod": torch.ops.aten.remainder,
     "eq": torch.ops.aten.eq,
     "floordiv": torch.ops.aten.floordiv,
     "neg": torch.ops.aten.neg,
-- 
2.43.0


From e5927d14d53f1c55ee1a8155bc7e00b8789d0802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:58 +0000
Subject: [PATCH 10/36] fix: leave the arguments of symbolic scalar nodes as
 they were

---
 python/torch_mlir/extras/fx_importer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/torch_mlir/extras/fx_importer.py b/python/torch_mlir/extras/fx_importer.py
index de706e8..d3e90ed 100644
--- a/python/torch_mlir/extras/fx_importer.py
+++ b/python/torch_mlir/extras/fx_importer.py
@@ -1681,6 +1681,7 @@ class GraphNodeImporter:
     ):
         # parse builtin operations like add, sub, mul, etc. because dynamo captures these
         # operations on symbolic arguments as regular python expressions rather than as torch ops
+        original_args = node.args
         if is_builtin_function_or_method(target):
             arg_types = [
                 (arg.meta["val"].node.pytype if isinstance(arg, Node) else type(arg))
@@ -1741,6 +1742,9 @@ class GraphNodeImporter:
             concrete_target is not None
         ), f"Unable to parse symbolic operation: {target} with args {node.args}"
         self._import_torch_op_overload(loc, node, concrete_target)
+        # The promoted arguments are only known to this importer: leave the graph
+        # as it was, so that it can be imported again.
+        node.args = original_args
 
     def _import_hop(self, loc: Location, node: torch_fx.Node, hop: HigherOrderOperator):
         # Imports a higher-order operator.
-- 
2.43.0


From 4335e0d32b86f22b700bd6717e3ad7a832a192a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:58 +0000
Subject: [PATCH 11/36] fix: encode the blocks of BSC tensors the way they are
 stored

---
 python/torch_mlir/extras/fx_importer.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/python/torch_mlir/extras/fx_importer.py b/python/torch_mlir/extras/fx_importer.py
index d3e90ed..f975767 100644
--- a/python/torch_mlir/extras/fx_importer.py
+++ b/python/torch_mlir/extras/fx_importer.py
@@ -439,10 +439,11 @@ def sparsity_encoding(t: torch.Tensor) -> str:
             assert t.layout is torch.sparse_bsc
             j, i = batch_dim, batch_dim + 1
             idx_dtype = t.row_indices().dtype
-        m, n = blocksize
+        # The blocks themselves are row-major in both layouts.
+        block = {batch_dim: blocksize[0], batch_dim + 1: blocksize[1]}
         lvls = (
-            f"d{i} floordiv {m}:dense,d{j} floordiv {n}:compressed,"
-            f"d{i} mod {m}:dense,d{j} mod {n}:dense"
+            f"d{i} floordiv {block[i]}:dense,d{j} floordiv {block[j]}:compressed,"
+            + ",".join(f"d{d} mod {size}:dense" for d, size in block.items())
         )
 
     if batch_dim > 0:
-- 
2.43.0


From 4983920814b2640b14553bc4b4f21304a47b04e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:58 +0000
Subject: [PATCH 12/36] fix: import a while_loop with a single carried value

---
 python/torch_mlir/extras/fx_importer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/torch_mlir/extras/fx_importer.py b/python/torch_mlir/extras/fx_importer.py
index f975767..8d8b4be 100644
--- a/python/torch_mlir/extras/fx_importer.py
+++ b/python/torch_mlir/extras/fx_importer.py
@@ -1804,7 +1804,7 @@ class GraphNodeImporter:
 
         # Determine result types from node metadata
         node_val = node.meta.get("val")
-        if isinstance(node_val, (list, tuple)) and len(node_val) > 1:
+        if isinstance(node_val, (list, tuple)):
             result_types = [self._cc.value_info_to_type(v) for v in node_val]
             self._multi_result_nodes.add(node)
         else:
-- 
2.43.0


From fac7e47fa0c2210486c66d914dad0836ac4b1f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:58 +0000
Subject: [PATCH 13/36] fix: pass the additional inputs of a while_loop to its
 functions

---
 python/torch_mlir/extras/fx_importer.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/python/torch_mlir/extras/fx_importer.py b/python/torch_mlir/extras/fx_importer.py
index 8d8b4be..e81398e 100644
--- a/python/torch_mlir/extras/fx_importer.py
+++ b/python/torch_mlir/extras/fx_importer.py
@@ -1810,6 +1810,10 @@ class GraphNodeImporter:
         else:
             result_types = [self._cc.node_val_to_type(node)]
 
+        # Values past the carried ones are passed to both functions unchanged.
+        additional_values = carry_values[len(result_types) :]
+        carry_values = carry_values[: len(result_types)]
+
         # Call the condition function with initial carries to get initial condition
         cond_result_type = self._cc.get_vtensor_type(torch.Size([]), torch.bool)
 
@@ -1817,7 +1821,7 @@ class GraphNodeImporter:
             "func.call",
             attributes={"callee": FlatSymbolRefAttr.get(cond_fn_name)},
             results=[cond_result_type],
-            operands=carry_values,
+            operands=carry_values + additional_values,
             loc=loc,
         )
 
@@ -1860,7 +1864,8 @@ class GraphNodeImporter:
                 name="func.call",
                 attributes={"callee": FlatSymbolRefAttr.get(body_fn_name)},
                 results=result_types,
-                operands=list(loop_block.arguments[1:]),  # Skip iteration counter
+                operands=list(loop_block.arguments[1:])  # Skip iteration counter
+                + additional_values,
                 loc=loc,
             )
             body_results = list(body_results_op.results)
@@ -1870,7 +1875,7 @@ class GraphNodeImporter:
                 name="func.call",
                 attributes={"callee": FlatSymbolRefAttr.get(cond_fn_name)},
                 results=[IrType.parse("!torch.vtensor<[],i1>", context=self._c)],
-                operands=body_results,
+                operands=body_results + additional_values,
                 loc=loc,
             ).result
 
-- 
2.43.0


From d6b805654c0c514df26df98438e883499179fdd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:58 +0000
Subject: [PATCH 14/36] fix: report types and values the importer does not know

---
 python/torch_mlir/extras/fx_importer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/torch_mlir/extras/fx_importer.py b/python/torch_mlir/extras/fx_importer.py
index e81398e..805ec62 100644
--- a/python/torch_mlir/extras/fx_importer.py
+++ b/python/torch_mlir/extras/fx_importer.py
@@ -1274,7 +1274,7 @@ class ContextCache:
 
         raise NotImplementedError(
             f"Could not deduce type from value info: "
-            f"tensor_meta={tensor_meta}, val={val} {type(val)}, sparsity={sparsity}"
+            f"tensor_meta={tensor_meta}, val={val} {type(val)}"
         )
 
     def tensor_metadata_to_type(
@@ -1300,7 +1300,7 @@ class ContextCache:
         if t is None:
             try:
                 asm = TORCH_DTYPE_TO_MLIR_TYPE_ASM[dtype]
-            except IndexError:
+            except KeyError:
                 raise ValueError(f"Unknown conversion from {dtype} to IREE type")
             t = IrType.parse(asm, self._c)
             self._dtype_to_type[dtype] = t
-- 
2.43.0


From 824dbd857db83f4df65e0798fd062abef70765a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:58 +0000
Subject: [PATCH 15/36] fix: do not give two graph modules the same function
 name

---
 python/torch_mlir/extras/fx_importer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/torch_mlir/extras/fx_importer.py b/python/torch_mlir/extras/fx_importer.py
index 805ec62..100c7e4 100644
--- a/python/torch_mlir/extras/fx_importer.py
+++ b/python/torch_mlir/extras/fx_importer.py
@@ -1028,7 +1028,7 @@ class FxImporter:
         if module_id not in self._graph_module_to_func_name:
             # Ensure the func_name is unique
             final_func_name = func_name
-            if func_name in self._graph_module_to_func_name.values():
+            while final_func_name in self._graph_module_to_func_name.values():
                 final_func_name = f"{func_name}_{self._func_name_counter}"
                 self._func_name_counter += 1
             self._graph_module_to_func_name[module_id] = final_func_name
-- 
2.43.0


From cfec5b0ec33c3fc422287ac1f031c9595ae88482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:58 +0000
Subject: [PATCH 16/36] fix: keep named graph modules alive while their id is
 in use

---
 python/torch_mlir/extras/fx_importer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/torch_mlir/extras/fx_importer.py b/python/torch_mlir/extras/fx_importer.py
index 100c7e4..e08e2e8 100644
--- a/python/torch_mlir/extras/fx_importer.py
+++ b/python/torch_mlir/extras/fx_importer.py
@@ -561,6 +561,7 @@ class FxImporter:
         "_hooks",
         "symbol_table",
         "_graph_module_to_func_name",
+        "_named_graph_modules",
         "_func_name_counter",
     ]
 
@@ -591,6 +592,8 @@ class FxImporter:
         self._hooks.prepare_module(self._m.operation)
         # Used specifically in HOPs to map module IDs to function names
         self._graph_module_to_func_name: Dict[int, str] = {}
+        # Keeps the modules alive, since another one could take over a freed ID
+        self._named_graph_modules: List[GraphModule] = []
         # Handles collision of function names in the same module
         self._func_name_counter: int = 0
 
@@ -1032,6 +1035,7 @@ class FxImporter:
                 final_func_name = f"{func_name}_{self._func_name_counter}"
                 self._func_name_counter += 1
             self._graph_module_to_func_name[module_id] = final_func_name
+            self._named_graph_modules.append(gm)
         else:
             # Module already imported, use existing name
             final_func_name = self._graph_module_to_func_name[module_id]
-- 
2.43.0


From db6b6a3d9bcfe324c6303b24bf9542ad596da787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:59 +0000
Subject: [PATCH 17/36] fix: reject program outputs the importer would drop

---
 python/torch_mlir/extras/fx_importer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/torch_mlir/extras/fx_importer.py b/python/torch_mlir/extras/fx_importer.py
index e08e2e8..a83719e 100644
--- a/python/torch_mlir/extras/fx_importer.py
+++ b/python/torch_mlir/extras/fx_importer.py
@@ -723,6 +723,10 @@ class FxImporter:
                     user_output_types.append(self._cc.value_info_to_type(arg.value))
             elif kind == OutputKind.BUFFER_MUTATION and isinstance(arg, TensorArgument):
                 mutable_buffer_target_producers[output_spec.target] = arg.name
+            elif kind != OutputKind.USER_INPUT_MUTATION:
+                raise NotImplementedError(
+                    f"OutputSpec not of a known kind: {output_spec}"
+                )
 
         # Derive user inputs. These will be op=='placeholder' nodes.
         user_inputs: List[Node] = []
-- 
2.43.0


From f99945a0e5016902917827c29fa69ad80cacb920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:59 +0000
Subject: [PATCH 18/36] fix: canonicalize lift_fresh_copy.out, whose out is
 keyword-only

---
 python/torch_mlir/extras/fx_importer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/torch_mlir/extras/fx_importer.py b/python/torch_mlir/extras/fx_importer.py
index a83719e..ed50530 100644
--- a/python/torch_mlir/extras/fx_importer.py
+++ b/python/torch_mlir/extras/fx_importer.py
@@ -2914,7 +2914,7 @@ def lift_fresh_copy_out(node: torch_fx.Node):
     # functionalization in all cases.
     node.target = target = torch.ops.aten.clone.out
     node.args = (node.args[0],)
-    node.kwargs = {"memory_format": None, "out": node.args[1]}
+    node.kwargs = {"memory_format": None, "out": node.kwargs["out"]}
     return node
 
 
-- 
2.43.0


From fe2f5f2bb6e720b2e36c6fbb3e267afdae585128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:59 +0000
Subject: [PATCH 19/36] fix: import list arguments without an expected type

---
 python/torch_mlir/extras/fx_importer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/torch_mlir/extras/fx_importer.py b/python/torch_mlir/extras/fx_importer.py
index ed50530..cf1f757 100644
--- a/python/torch_mlir/extras/fx_importer.py
+++ b/python/torch_mlir/extras/fx_importer.py
@@ -2401,6 +2401,8 @@ class GraphNodeImporter:
         # parse list type
         if expected_jit_type is None:
             element_type = type(arg[0])
+            element_jit_type = None
+            is_optional_type = False
         else:
             element_jit_type = expected_jit_type.getElementType()
 
-- 
2.43.0


From 35bb20308868caf15295b5e3fdd6f23cea84d74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:59 +0000
Subject: [PATCH 20/36] fix: import frozen programs with non-persistent buffers

---
 python/torch_mlir/extras/fx_importer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/torch_mlir/extras/fx_importer.py b/python/torch_mlir/extras/fx_importer.py
index cf1f757..bf7e79d 100644
--- a/python/torch_mlir/extras/fx_importer.py
+++ b/python/torch_mlir/extras/fx_importer.py
@@ -972,7 +972,11 @@ class FxImporter:
         # Always lift buffers.
         for input_name, state_name in sig.inputs_to_buffers.items():
             try:
-                state_value = state_dict[state_name]
+                state_value = (
+                    prog.constants[state_name]
+                    if state_name in sig.non_persistent_buffers
+                    else state_dict[state_name]
+                )
             except KeyError as e:
                 raise AssertionError("Could not find state mapping for buffer") from e
             arg_replacements[input_name] = state_value
-- 
2.43.0


From aadb7c6c03301549c35aa1b561bb58d5bbdc8f78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:11 +0000
Subject: [PATCH 21/36] fix: give complex dtype arguments their ScalarType
 codes

complex32, complex64 and complex128 are 8, 9 and 10 (TorchUpstream.h). The
table was off by one, so `x.to(torch.complex64)` was imported as a cast to
complex128, and a complex128 argument was a KeyError.
---
 python/torch_mlir/extras/fx_importer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/torch_mlir/extras/fx_importer.py b/python/torch_mlir/extras/fx_importer.py
index bf7e79d..b9c45ec 100644
--- a/python/torch_mlir/extras/fx_importer.py
+++ b/python/torch_mlir/extras/fx_importer.py
@@ -244,9 +244,9 @@ TORCH_DTYPE_TO_INT = {
     torch.float16: 5,
     torch.float32: 6,
     torch.float64: 7,
-    # torch.complex_half 8
-    torch.complex32: 9,
-    torch.complex64: 10,
+    torch.complex32: 8,
+    torch.complex64: 9,
+    torch.complex128: 10,
     torch.bool: 11,
     # torch.qint8: 12, # quantized dtypes are not supported in all backends, currently we do not support them
     # torch.quint8: 13,
-- 
2.43.0


From 67cd08c7daa74969250e567d9eaebaedc443dae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:11 +0000
Subject: [PATCH 22/36] fix: give sparse layout arguments their c10::Layout
 codes

Mkldnn is 3, so csc, bsr and bsc are 4, 5 and 6; they were imported as mkldnn,
csc and bsr.
---
 projects/pt1/python/torch_mlir/_dynamo_fx_importer.py | 7 ++++---
 python/torch_mlir/extras/fx_importer.py               | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/projects/pt1/python/torch_mlir/_dynamo_fx_importer.py b/projects/pt1/python/torch_mlir/_dynamo_fx_importer.py
index 81908d8..ffaa3f8 100644
--- a/projects/pt1/python/torch_mlir/_dynamo_fx_importer.py
+++ b/projects/pt1/python/torch_mlir/_dynamo_fx_importer.py
@@ -228,9 +228,10 @@ LAYOUT_TO_INT = {
     torch.strided: 0,
     torch.sparse_coo: 1,
     torch.sparse_csr: 2,
-    torch.sparse_csc: 3,
-    torch.sparse_bsr: 4,
-    torch.sparse_bsc: 5,
+    # 3 is mkldnn
+    torch.sparse_csc: 4,
+    torch.sparse_bsr: 5,
+    torch.sparse_bsc: 6,
 }
 
 
diff --git a/python/torch_mlir/extras/fx_importer.py b/python/torch_mlir/extras/fx_importer.py
index b9c45ec..f6ae6c9 100644
--- a/python/torch_mlir/extras/fx_importer.py
+++ b/python/torch_mlir/extras/fx_importer.py
@@ -277,9 +277,10 @@ TORCH_LAYOUT_TO_INT = {
     torch.strided: 0,
     torch.sparse_coo: 1,
     torch.sparse_csr: 2,
-    torch.sparse_csc: 3,
-    torch.sparse_bsr: 4,
-    torch.sparse_bsc: 5,
+    # 3 is mkldnn
+    torch.sparse_csc: 4,
+    torch.sparse_bsr: 5,
+    torch.sparse_bsc: 6,
 }
 
 PY_BUILTIN_TO_TORCH_OP = {
-- 
2.43.0


From f192272cf58a37b1fa11d4e147f61234ca26954c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:11 +0000
Subject: [PATCH 23/36] fix: import an explicit negative padding_idx of
 embedding_bag as none

_embedding_bag_forward_only takes a negative padding_idx to mean that there is
none; embedding_bag.padding_idx, which replaces it, counts it from the end, so
the last row of the table was left out of every bag.
---
 python/torch_mlir/extras/fx_importer.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/python/torch_mlir/extras/fx_importer.py b/python/torch_mlir/extras/fx_importer.py
index f6ae6c9..1bfd6ac 100644
--- a/python/torch_mlir/extras/fx_importer.py
+++ b/python/torch_mlir/extras/fx_importer.py
@@ -2977,6 +2977,13 @@ def aten__embedding_bag_forward_only_default(node: torch_fx.Node):
     for k, v in embedding_bag_args[len(node.args) - 3 :]:
         if k not in node_kwargs:
             node_kwargs[k] = v
+    # Here a negative padding_idx (-1 is the default) means none, but
+    # embedding_bag.padding_idx counts it from the end.
+    if len(node.args) > 8:
+        if node.args[8] < 0:
+            node.args = (*node.args[:8], None)
+    elif node_kwargs["padding_idx"] is not None and node_kwargs["padding_idx"] < 0:
+        node_kwargs["padding_idx"] = None
     node.kwargs = node_kwargs
     return node
 
-- 
2.43.0


From ce1208c959783058901c53457768df5d6e69111d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:11 +0000
Subject: [PATCH 24/36] fix: read the element of a boolean tensor as a bool

_local_scalar_dense of a bool tensor was imported as Int.Tensor, an !torch.int,
where every user of the value expects an !torch.bool.
---
 python/torch_mlir/extras/fx_importer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/torch_mlir/extras/fx_importer.py b/python/torch_mlir/extras/fx_importer.py
index 1bfd6ac..bf07fe0 100644
--- a/python/torch_mlir/extras/fx_importer.py
+++ b/python/torch_mlir/extras/fx_importer.py
@@ -2944,6 +2944,8 @@ def aten__local_scalar_dense_default(node: torch_fx.Node):
     input_type = node.args[0].meta["tensor_meta"].dtype
     if input_type.is_floating_point:
         node.target = torch.ops.aten.Float.Tensor
+    elif input_type == torch.bool:
+        node.target = torch.ops.aten.Bool.Tensor
     else:
         node.target = torch.ops.aten.Int.Tensor
     node.args = (node.args[0],)
-- 
2.43.0


From d66ec55ba92b07120ef5268f454e3486fb42df63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:14 +0000
Subject: [PATCH 25/36] fix: load a mutated buffer before its update is stored

Buffers are loaded at their first use, but an update is stored as soon as its
value is produced. A graph that reads the old value after computing the new one
(t = x + 1; y = self.b * 2; self.b.copy_(t)) loaded what was just stored.
---
 python/torch_mlir/extras/fx_importer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/torch_mlir/extras/fx_importer.py b/python/torch_mlir/extras/fx_importer.py
index bf07fe0..106babd 100644
--- a/python/torch_mlir/extras/fx_importer.py
+++ b/python/torch_mlir/extras/fx_importer.py
@@ -1588,6 +1588,10 @@ class GraphNodeImporter:
         if info.store_producer_node is not None:
 
             def on_produced(value: Value):
+                # The graph's uses of the buffer are of its value before the
+                # update, so it must be loaded before the store.
+                if node.users:
+                    self.resolve_node_value(node)
                 with loc, InsertionPoint(self._b):
                     self.fx_importer._hooks.store_produced_value(
                         self, buffer_value, value, info
-- 
2.43.0


From 8f73c5897ea1d549ae2dd5dce281869fa9c46f1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:57 +0000
Subject: [PATCH 26/36] fix: forget the symbolic guards of a program imported
 before

---
 python/torch_mlir/extras/fx_importer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/torch_mlir/extras/fx_importer.py b/python/torch_mlir/extras/fx_importer.py
index 106babd..08f6e7b 100644
--- a/python/torch_mlir/extras/fx_importer.py
+++ b/python/torch_mlir/extras/fx_importer.py
@@ -1369,6 +1369,8 @@ class ContextCache:
             # TODO: Remove this adjustment when fractional ranges are removed
             return adjust_func(val)
 
+        # None of a program imported before.
+        self._symbolic_guards = {}
         contains_symbolic_ints = False
         sym_int_types = (
             (sympy.Integer, IntInfinity, NegativeIntInfinity)
-- 
2.43.0


From 10a7095be6444ba65fbba14ea0f216f4d8e262a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:06 +0000
Subject: [PATCH 27/36] fix: bind the attributes of nodes in subgraphs of an
 ONNX function

---
 python/torch_mlir/extras/onnx_importer.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/python/torch_mlir/extras/onnx_importer.py b/python/torch_mlir/extras/onnx_importer.py
index 1597a8f..fb6a6d6 100644
--- a/python/torch_mlir/extras/onnx_importer.py
+++ b/python/torch_mlir/extras/onnx_importer.py
@@ -806,6 +806,7 @@ def _bind_attributes_on_node(
         """
         Recurse to bind attributes in a subgraph.
         """
+        new_subgraph = onnx.GraphProto()
         new_subgraph.CopyFrom(old_subgraph)
         old_nodes = _shallow_copy_and_clear_protobuf_list(new_subgraph.node)
         for old_node in old_nodes:
@@ -830,7 +831,7 @@ def _bind_attributes_on_node(
 
         ref_name = old_attribute.ref_attr_name
         if not ref_name:
-            if not old_attribute.g or len(old_attribute.graphs) == 0:
+            if not old_attribute.HasField("g") and len(old_attribute.graphs) == 0:
                 return old_attribute
 
             # Recurse to bind attributes on subgraphs. ONNX's implementation of
@@ -838,9 +839,11 @@ def _bind_attributes_on_node(
             # from a referenced attribute value, so this code doesn't either.
             new_attribute = onnx.AttributeProto()
             new_attribute.CopyFrom(old_attribute)
-            if new_attribute.g:
-                new_attribute.g = _bind_attributes_in_subgraph(
-                    new_attribute.g, caller_node, op_schema
+            if new_attribute.HasField("g"):
+                new_attribute.g.CopyFrom(
+                    _bind_attributes_in_subgraph(
+                        new_attribute.g, caller_node, op_schema
+                    )
                 )
             if new_attribute.graphs:
                 old_subgraphs = _shallow_copy_and_clear_protobuf_list(
-- 
2.43.0


From b2140094c828e89291e74a834825ebb0f8035a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:05:55 +0000
Subject: [PATCH 28/36] fix: omitted inputs and outputs of an expanded ONNX
 function

Trailing optional inputs can be left out of a node instead of being given
as the empty name. The specialized function then lacked these inputs, and
its body failed to import. They are now passed as none, like an input with
the empty name.

An omitted output in the middle of a node's outputs has no type, and a
context dependent function does not produce it. Copying its type failed.
The specialized function now has no result for it.
---
 python/torch_mlir/extras/onnx_importer.py | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/python/torch_mlir/extras/onnx_importer.py b/python/torch_mlir/extras/onnx_importer.py
index fb6a6d6..c4ba408 100644
--- a/python/torch_mlir/extras/onnx_importer.py
+++ b/python/torch_mlir/extras/onnx_importer.py
@@ -33,6 +33,7 @@ except ModuleNotFoundError as e:
         "The onnx package (`pip install onnx`) is required to use the onnx importer"
     ) from e
 
+import itertools
 from typing import Optional, List, Dict, Tuple
 import warnings
 
@@ -439,7 +440,14 @@ class NodeImporter:
             )
 
             if operator_func_op is not None:
+                # Trailing optional inputs can also be omitted by leaving them out.
+                for _ in operator_func_op.type.inputs[len(input_values) :]:
+                    input_values.append(self.get_none())
                 custom_op = func_dialect.CallOp(operator_func_op, input_values)
+                # The function has no results for omitted outputs.
+                output_names = [
+                    name for name, tp in zip(output_names, output_type_protos) if tp
+                ]
             else:
                 attrs = self.import_attributes(node.attribute)
                 attrs["name"] = StringAttr.get(f"onnx.{op_type}")
@@ -911,16 +919,22 @@ def _specialize_function_and_create_model(
 
     graph_proto = onnx.GraphProto()
 
-    for input_name, input_type_proto in zip(function_proto.input, input_type_protos):
+    # Trailing optional arguments that are left out have empty types, too.
+    for input_name, input_type_proto in itertools.zip_longest(
+        function_proto.input, input_type_protos, fillvalue=onnx.TypeProto()
+    ):
         input_proto = onnx.ValueInfoProto()
         input_proto.name = input_name
         input_proto.type.CopyFrom(input_type_proto)
         graph_proto.input.append(input_proto)
-        output_proto = onnx.ValueInfoProto()
 
     for output_name, output_type_proto in zip(
         function_proto.output, output_type_protos
     ):
+        # Omitted outputs have no type, and the function may not produce them.
+        if not output_type_proto:
+            continue
+        output_proto = onnx.ValueInfoProto()
         output_proto.name = output_name
         output_proto.type.CopyFrom(output_type_proto)
         graph_proto.output.append(output_proto)
-- 
2.43.0


From 6c7f18bab89397c3faddc35f8b146ddf51b5713c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:01 +0000
Subject: [PATCH 29/36] fix: fold __range_length of an empty range to zero

`range(5, 0)` folded to -5: the length is ceildiv(hi - lo, step) only when
lo < hi. A constant step of zero divided by zero inside the compiler.
---
 lib/Dialect/Torch/IR/TorchOps.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/Dialect/Torch/IR/TorchOps.cpp b/lib/Dialect/Torch/IR/TorchOps.cpp
index bda1d0f..2ef8a8a 100644
--- a/lib/Dialect/Torch/IR/TorchOps.cpp
+++ b/lib/Dialect/Torch/IR/TorchOps.cpp
@@ -773,8 +773,12 @@ OpFoldResult Aten__RangeLengthOp::fold(FoldAdaptor adaptor) {
   auto hiInt = dyn_cast_or_null<IntegerAttr>(hi).getValue();
   auto stepInt = dyn_cast_or_null<IntegerAttr>(step).getValue();
   // TODO: Implement folding for negative steps.
-  if (stepInt.isNegative())
+  // A step of zero is an error at run time, not a division by zero here.
+  if (stepInt.isNegative() || stepInt.isZero())
     return nullptr;
+  // An empty range has no elements, however far `lo` lies beyond `hi`.
+  if (loInt.sge(hiInt))
+    return IntegerAttr::get(cast<TypedAttr>(lo).getType(), 0);
   // From Python language spec:
   // r[i] = lo + step*i such that i >= 0 and r[i] < hi
   // So maximize `i` such that lo + step * i < hi
-- 
2.43.0


From 6cf970e8982df5c69779328ec4f8051c5ae81d5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:01 +0000
Subject: [PATCH 30/36] fix: fold remainder.int as Python's modulo

aten.remainder.int(-7, 5) is 3; it folded to -2, C++'s truncating `%`, and a
constant divisor of zero divided by zero inside the compiler.
---
 lib/Dialect/Torch/IR/TorchOps.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/Dialect/Torch/IR/TorchOps.cpp b/lib/Dialect/Torch/IR/TorchOps.cpp
index 2ef8a8a..72c9084 100644
--- a/lib/Dialect/Torch/IR/TorchOps.cpp
+++ b/lib/Dialect/Torch/IR/TorchOps.cpp
@@ -4080,8 +4080,15 @@ void AtenFloordivIntOp::getCanonicalizationPatterns(RewritePatternSet &patterns,
 //===----------------------------------------------------------------------===//
 
 OpFoldResult AtenRemainderIntOp::fold(FoldAdaptor adaptor) {
+  auto divisor = dyn_cast_or_null<IntegerAttr>(adaptor.getB());
+  if (!divisor || divisor.getValue().isZero())
+    return nullptr;
+  // As in Python, the remainder has the sign of the divisor.
   return atenBinaryIntOperatorFoldHelper(
-      adaptor.getOperands(), [](int64_t a, int64_t b) { return a % b; });
+      adaptor.getOperands(), [](int64_t a, int64_t b) {
+        int64_t r = a % b;
+        return r != 0 && (r < 0) != (b < 0) ? r + b : r;
+      });
 }
 
 // ===----------------------------------------------------------------------===//
-- 
2.43.0


From 5ceea05e6a85c69b3700207971519064021c5252 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:01 +0000
Subject: [PATCH 31/36] fix: do not canonicalize c // (x * c) to x

Floor division does not commute: only (x * c) // c is x.
---
 lib/Dialect/Torch/IR/TorchOps.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/Dialect/Torch/IR/TorchOps.cpp b/lib/Dialect/Torch/IR/TorchOps.cpp
index 72c9084..cbc0b85 100644
--- a/lib/Dialect/Torch/IR/TorchOps.cpp
+++ b/lib/Dialect/Torch/IR/TorchOps.cpp
@@ -4045,9 +4045,10 @@ void AtenFloordivIntOp::getCanonicalizationPatterns(RewritePatternSet &patterns,
     bool rConstant = matchPattern(op.getB(), m_TorchConstantInt(&rhs));
     if (lConstant && rConstant)
       return failure();
-    if (lConstant || rConstant) {
-      int64_t firstConstant = lConstant ? lhs : rhs;
-      Value firstOperand = lConstant ? op.getB() : op.getA();
+    // (x * c) // c is x; c // (x * c) is not.
+    if (rConstant) {
+      int64_t firstConstant = rhs;
+      Value firstOperand = op.getA();
       if (firstOperand.getDefiningOp() &&
           firstOperand.getDefiningOp<AtenMulIntOp>()) {
         auto prevMulIntOp = firstOperand.getDefiningOp<AtenMulIntOp>();
-- 
2.43.0


From 3c47dd853c2c0b10e4c85972393ef0e9f7c00de5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:01 +0000
Subject: [PATCH 32/36] fix: do not fold eq.int_list of lists that may be
 mutated

The elements a list was constructed with say nothing about it once it has been
appended to.
---
 lib/Dialect/Torch/IR/TorchOps.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/Dialect/Torch/IR/TorchOps.cpp b/lib/Dialect/Torch/IR/TorchOps.cpp
index cbc0b85..74846bb 100644
--- a/lib/Dialect/Torch/IR/TorchOps.cpp
+++ b/lib/Dialect/Torch/IR/TorchOps.cpp
@@ -3741,6 +3741,11 @@ OpFoldResult AtenEqIntListOp::fold(FoldAdaptor adaptor) {
   if (!rhsLiteral)
     return nullptr;
 
+  // Elements may have been added to or taken from a list since it was built.
+  if (isListPotentiallyMutated(lhsLiteral) ||
+      isListPotentiallyMutated(rhsLiteral))
+    return nullptr;
+
   // If the sizes don't match, then we know the lists aren't equal.
   if (lhsLiteral.getNumOperands() != rhsLiteral.getNumOperands())
     return getI1IntegerAttr(getContext(), false);
-- 
2.43.0


From 0540e4605a5d8a5c30d857624d16f95de2530b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:01 +0000
Subject: [PATCH 33/36] fix: canonicalize prim.TupleIndex with a negative index

A negative constant index read before the first element of the tuple.
---
 lib/Dialect/Torch/IR/TorchOps.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/Dialect/Torch/IR/TorchOps.cpp b/lib/Dialect/Torch/IR/TorchOps.cpp
index 74846bb..0d7a762 100644
--- a/lib/Dialect/Torch/IR/TorchOps.cpp
+++ b/lib/Dialect/Torch/IR/TorchOps.cpp
@@ -3793,7 +3793,9 @@ void PrimTupleIndexOp::getCanonicalizationPatterns(RewritePatternSet &patterns,
     if (!matchPattern(op.getI(), m_TorchConstantInt(&i)))
       return failure();
 
-    if (i >= (int64_t)tupleConstruct.getElements().size())
+    // A negative index counts from the end.
+    i = toPositiveDim(i, tupleConstruct.getElements().size());
+    if (!isValidDim(i, tupleConstruct.getElements().size()))
       return failure();
 
     // TODO: We should have a clear picture of whether we want to consistently
-- 
2.43.0


From d1104d43e5443fb98f5522b08d406498be5d7ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:54 +0000
Subject: [PATCH 34/36] fix: fold floordiv.int in integers

Through a double, 9007199254740993 // 1 folded to 9007199254740992, and the
infinity of a division by zero was converted to an integer.
---
 lib/Dialect/Torch/IR/TorchOps.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/Dialect/Torch/IR/TorchOps.cpp b/lib/Dialect/Torch/IR/TorchOps.cpp
index 0d7a762..a28a67f 100644
--- a/lib/Dialect/Torch/IR/TorchOps.cpp
+++ b/lib/Dialect/Torch/IR/TorchOps.cpp
@@ -4039,9 +4039,15 @@ OpFoldResult AtenAliasOp::fold(FoldAdaptor adaptor) {
 //===----------------------------------------------------------------------===//
 
 OpFoldResult AtenFloordivIntOp::fold(FoldAdaptor adaptor) {
+  auto divisor = dyn_cast_or_null<IntegerAttr>(adaptor.getB());
+  if (!divisor || divisor.getValue().isZero())
+    return nullptr;
+  // Not in floating point, which is exact only up to 2^53.
   return atenBinaryIntOperatorFoldHelper(
-      adaptor.getOperands(),
-      [](int64_t a, int64_t b) { return std::floor(a / (double)b); });
+      adaptor.getOperands(), [](int64_t a, int64_t b) {
+        int64_t q = a / b;
+        return a % b != 0 && (a < 0) != (b < 0) ? q - 1 : q;
+      });
 }
 
 void AtenFloordivIntOp::getCanonicalizationPatterns(RewritePatternSet &patterns,
-- 
2.43.0


From 68364eadbb1e4bce2a47d7b9563ea0b0b205f0df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:21 +0000
Subject: [PATCH 35/36] fix: canonicalize aten.slice.t of an empty list or with
 a step that is not positive

---
 lib/Dialect/Torch/IR/TorchOps.cpp | 36 ++++++++++++++++++-------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/lib/Dialect/Torch/IR/TorchOps.cpp b/lib/Dialect/Torch/IR/TorchOps.cpp
index a28a67f..d11869d 100644
--- a/lib/Dialect/Torch/IR/TorchOps.cpp
+++ b/lib/Dialect/Torch/IR/TorchOps.cpp
@@ -3699,32 +3699,38 @@ void AtenSliceTOp::getCanonicalizationPatterns(RewritePatternSet &patterns,
     int64_t start;
     int64_t end;
     int64_t step;
-    if (isa<Torch::NoneType>(op.getStart().getType())) {
-      start = 0;
-    } else if (!matchPattern(op.getStart(), m_TorchConstantInt(&start))) {
+    // A step of zero is an error at run time.
+    if (!matchPattern(op.getStep(), m_TorchConstantInt(&step)) || step == 0) {
       return failure();
     }
-    if (isa<Torch::NoneType>(op.getEnd().getType())) {
-      end = listElements.size();
-    } else if (!matchPattern(op.getEnd(), m_TorchConstantInt(&end))) {
+    // A negative step walks the list backwards, down to the position before
+    // its first element.
+    int64_t lowest = step > 0 ? 0 : -1;
+    int64_t highest = step > 0 ? size : size - 1;
+    if (isa<Torch::NoneType>(op.getStart().getType())) {
+      start = step > 0 ? lowest : highest;
+    } else if (matchPattern(op.getStart(), m_TorchConstantInt(&start))) {
+      start = start >= 0 ? start : start + size;
+      start = std::min(std::max(start, lowest), highest);
+    } else {
       return failure();
     }
-    if (!matchPattern(op.getStep(), m_TorchConstantInt(&step))) {
+    if (isa<Torch::NoneType>(op.getEnd().getType())) {
+      end = step > 0 ? highest : lowest;
+    } else if (matchPattern(op.getEnd(), m_TorchConstantInt(&end))) {
+      end = end >= 0 ? end : end + size;
+      end = std::min(std::max(end, lowest), highest);
+    } else {
       return failure();
     }
 
-    start = start >= 0 ? start : start + size;
-    start = start >= 0 ? start : 0;
-    end = end >= 0 ? end : end + size;
-    end = end < size ? end : size;
     SmallVector<Value> newListElements;
-
-    for (int64_t i = start; i < end; i += step) {
+    for (int64_t i = start; step > 0 ? i < end : i > end; i += step) {
       newListElements.push_back(listElements[i]);
     }
 
-    rewriter.replaceOpWithNewOp<PrimListConstructOp>(
-        op, Torch::ListType::get(listElements[0].getType()), newListElements);
+    rewriter.replaceOpWithNewOp<PrimListConstructOp>(op, op.getType(),
+                                                     newListElements);
     return success();
   });
 }
-- 
2.43.0


From f32c27108df7a9a2d5c3bbf13f5160e201118180 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:22 +0000
Subject: [PATCH 36/36] fix: do not fold 0.0 divided by an arbitrary float to
 0.0

---
 lib/Dialect/Torch/IR/TorchOps.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/lib/Dialect/Torch/IR/TorchOps.cpp b/lib/Dialect/Torch/IR/TorchOps.cpp
index d11869d..60165f0 100644
--- a/lib/Dialect/Torch/IR/TorchOps.cpp
+++ b/lib/Dialect/Torch/IR/TorchOps.cpp
@@ -4968,8 +4968,6 @@ OpFoldResult AtenDivFloatOp::fold(FoldAdaptor adaptor) {
   double lhs, rhs;
   bool lConstant = matchPattern(getOperand(0), m_TorchConstantFloat(&lhs));
   bool rConstant = matchPattern(getOperand(1), m_TorchConstantFloat(&rhs));
-  if (lConstant && lhs == 0.0)
-    return getF64FloatAttr(getContext(), 0.0);
   if (lConstant && rConstant && rhs == 1.0)
     return getF64FloatAttr(getContext(), lhs);
   if (lConstant && rConstant)
-- 
2.43.0

