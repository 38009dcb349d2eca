From 3beec3e9d5b6fa450b0548d4fed9e64079f667d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:28 +0000
Subject: [PATCH 001/121] fix: only fuse sqrt+div into mul+rsqrt when sqrt is
 the divisor

---
 tinynn/converter/operators/optimize.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tinynn/converter/operators/optimize.py b/tinynn/converter/operators/optimize.py
index f6f7e06..cf1f685 100644
--- a/tinynn/converter/operators/optimize.py
+++ b/tinynn/converter/operators/optimize.py
@@ -4292,6 +4292,7 @@ def is_reciprocal_sqrt_edge(edge: ig.Edge, graph_converter: ig.Graph):
         source_vertex['node_type'] == ExtendedOperator.SQRT
         and target_vertex['node_type'] == ExtendedOperator.DIV
         and source_vertex.outdegree() == 1
+        and source_vertex['outputs'][0] == target_vertex['op'].inputs[1].name
     )
 
 
-- 
2.43.0


From 414b29621380d8a8593b82ab5ebfb703bb096540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:28 +0000
Subject: [PATCH 002/121] fix: don't fold an add into a fully connected op with
 a fused activation

---
 tinynn/converter/operators/optimize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tinynn/converter/operators/optimize.py b/tinynn/converter/operators/optimize.py
index cf1f685..254f956 100644
--- a/tinynn/converter/operators/optimize.py
+++ b/tinynn/converter/operators/optimize.py
@@ -4084,6 +4084,8 @@ def is_bmm_add_edge(edge: ig.Edge, graph_converter: ig.Graph):
         and source_vertex.outdegree() == 1
         and target_vertex.outdegree() >= 1
         and source_vertex['outputs'][0] == target_vertex['op'].inputs[0].name
+        and getattr(source_vertex['op'], 'fusedActivationFunction', ActivationFunctionType.NONE)
+        == ActivationFunctionType.NONE
     )
 
 
-- 
2.43.0


From 9a7f134c3fb603f85c022ab4bda0092de38fe569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:28 +0000
Subject: [PATCH 003/121] fix: don't fold a batch-norm into a following padded
 or grouped conv

---
 tinynn/converter/operators/optimize.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tinynn/converter/operators/optimize.py b/tinynn/converter/operators/optimize.py
index 254f956..d16c84b 100644
--- a/tinynn/converter/operators/optimize.py
+++ b/tinynn/converter/operators/optimize.py
@@ -215,8 +215,10 @@ class GraphOptimizer(object):
             bn = seq[0]['op']
             conv = seq[1]['op']
 
-            skip = bn.inputs[0].quantization is not None or (
-                conv.inputs[1].shape[1] == 1 and conv.inputs[1].shape[0] == conv.groups and conv.groups > 1
+            skip = (
+                bn.inputs[0].quantization is not None
+                or conv.groups > 1
+                or any(pad != 0 for pad in conv.padding)
             )
             return skip
 
-- 
2.43.0


From 77bab1583e980e6d9761233f921dd1014a684528 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:28 +0000
Subject: [PATCH 004/121] fix: only drop chained gathers that select every
 index in order

---
 tinynn/converter/operators/optimize.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tinynn/converter/operators/optimize.py b/tinynn/converter/operators/optimize.py
index d16c84b..686f3be 100644
--- a/tinynn/converter/operators/optimize.py
+++ b/tinynn/converter/operators/optimize.py
@@ -807,7 +807,9 @@ class GraphOptimizer(object):
             else:
                 hint = None
 
-            remove_first = np.array_equal(new_perm, np.sort(new_perm))
+            first_op = seq[0]['op']
+            input_dim = first_op.inputs[0].shape[first_op.axis]
+            remove_first = np.array_equal(new_perm, np.arange(input_dim))
             return remove_first, (new_perm, hint)
 
         def _remove_first_action(first_node, last_node, custom_data):
-- 
2.43.0


From 7f8dafe0f17c60908e19d361102dcbb4194d6125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:28 +0000
Subject: [PATCH 005/121] fix: don't fuse zero padding into max pooling

---
 tinynn/converter/operators/optimize.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tinynn/converter/operators/optimize.py b/tinynn/converter/operators/optimize.py
index 686f3be..4a60de1 100644
--- a/tinynn/converter/operators/optimize.py
+++ b/tinynn/converter/operators/optimize.py
@@ -3676,7 +3676,10 @@ def is_padding_fusable_edge(edge: ig.Edge, graph_converter: ig.Graph):
     return (
         source_vertex['node_type'] in (ExtendedOperator.PAD, ExtendedOperator.PADV2)
         and (
-            len(source_vertex['op'].inputs) == 2
+            (
+                len(source_vertex['op'].inputs) == 2
+                and target_vertex['node_type'] != ExtendedOperator.MAX_POOL_2D
+            )
             or (
                 len(source_vertex['op'].inputs) == 3
                 and source_vertex['op'].inputs[2].dtype == np.dtype('float32')
-- 
2.43.0


From 6f7fee7a0eb7c3528da7acb5fb7a0f46c3de6370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:28 +0000
Subject: [PATCH 006/121] fix: only fold a gather into a conv when its indices
 are a permutation

---
 tinynn/converter/operators/optimize.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tinynn/converter/operators/optimize.py b/tinynn/converter/operators/optimize.py
index 4a60de1..782f88a 100644
--- a/tinynn/converter/operators/optimize.py
+++ b/tinynn/converter/operators/optimize.py
@@ -4290,6 +4290,9 @@ def is_gather_conv2d_edge(edge: ig.Edge, graph_converter: ig.Graph):
         and source_vertex['op'].inputs[1].buffer is not None
         and source_vertex['op'].axis == 3
         and source_vertex['op'].inputs[1].tensor.shape[0] == target_vertex['op'].inputs[1].tensor.shape[3]
+        and np.array_equal(
+            np.sort(source_vertex['op'].inputs[1].tensor), np.arange(source_vertex['op'].inputs[0].shape[3])
+        )
     )
 
 
-- 
2.43.0


From 6032287a77735de715cec75e651cba5cb97ca484 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:11 +0000
Subject: [PATCH 007/121] fix: select the version of TILE, SPACE_TO_BATCH_ND,
 BATCH_TO_SPACE_ND and SUB by op code

---
 tinynn/converter/operators/op_version.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tinynn/converter/operators/op_version.py b/tinynn/converter/operators/op_version.py
index fed6d20..b608d6c 100644
--- a/tinynn/converter/operators/op_version.py
+++ b/tinynn/converter/operators/op_version.py
@@ -255,19 +255,19 @@ class OPVersioner(object):
                 op.op.version = 2
             else:
                 op.op.version = 1
-        elif op.op.version == ExtendedOperator.TILE:
+        elif op.op.code == ExtendedOperator.TILE:
             if str(op.inputs[0].dtype).startswith('<U'):
                 op.op.version = 2
             else:
                 op.op.version = 1
-        elif op.op.version in (ExtendedOperator.SPACE_TO_BATCH_ND, ExtendedOperator.BATCH_TO_SPACE_ND):
+        elif op.op.code in (ExtendedOperator.SPACE_TO_BATCH_ND, ExtendedOperator.BATCH_TO_SPACE_ND):
             if len(op.inputs[0].shape) != 4:
                 op.op.version = 3
             elif str(op.inputs[0].dtype) == 'int8':
                 op.op.version = 2
             else:
                 op.op.version = 1
-        elif op.op.version == ExtendedOperator.SUB:
+        elif op.op.code == ExtendedOperator.SUB:
             if (
                 len(op.inputs[0].shape) != len(op.inputs[1].shape)
                 and max(len(op.inputs[0].shape), len(op.inputs[1].shape)) > 4
-- 
2.43.0


From 584d6c75bcea12da9d22da44af43ae03def57664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:11 +0000
Subject: [PATCH 008/121] fix: report matmul with an unsupported second operand
 rank instead of dropping it

---
 tinynn/converter/operators/torch/aten.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tinynn/converter/operators/torch/aten.py b/tinynn/converter/operators/torch/aten.py
index f3e75c3..dd5cfc0 100644
--- a/tinynn/converter/operators/torch/aten.py
+++ b/tinynn/converter/operators/torch/aten.py
@@ -1530,6 +1530,8 @@ class ATenMatmulOperator(ATenMatmulSchema):
                 graph_converter.add_operator(tfl.FullyConnectedOperator(inputs, outputs, keepNumDims=keep_dims))
             elif weight_tensor.tensor.ndim >= 2 and weight_tensor.tensor.ndim <= 5:
                 self.elementwise_binary(tfl.BatchMatmulOperator, graph_converter, False)
+            else:
+                self.unimplemented(node, attrs, args)
         else:
             self.unimplemented(node, attrs, args)
 
-- 
2.43.0


From d307ff101e44735d452d7a6dd5a571f1b3f14869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:11 +0000
Subject: [PATCH 009/121] fix: keep the quantization parameters of stacked
 tensors

---
 tinynn/converter/operators/torch/aten.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tinynn/converter/operators/torch/aten.py b/tinynn/converter/operators/torch/aten.py
index dd5cfc0..f800a77 100644
--- a/tinynn/converter/operators/torch/aten.py
+++ b/tinynn/converter/operators/torch/aten.py
@@ -1709,7 +1709,9 @@ class ATenStackOperator(ATenStackSchema):
             ops.append(tfl.PackOperator(orig_inputs, outputs, len(orig_inputs), dim))
         else:
             inputs = [
-                self.create_transform_tensor(np.expand_dims(orig_inputs[i].tensor, dim))
+                self.create_transform_tensor(
+                    np.expand_dims(orig_inputs[i].tensor, dim), quantization=orig_inputs[i].quantization
+                )
                 for i in range(len(orig_inputs))
             ]
             attrs = [self.create_attr_tensor(np.array(t.shape, dtype='int32')) for t in inputs]
-- 
2.43.0


From 5c5a2d9e2e1a7493f38ddccb8a99ecdd515df754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:26 +0000
Subject: [PATCH 010/121] fix: undo tracing patches, locks and hooks when
 tracing raises

---
 tinynn/graph/tracer.py | 241 ++++++++++++++++++++++-------------------
 1 file changed, 127 insertions(+), 114 deletions(-)

diff --git a/tinynn/graph/tracer.py b/tinynn/graph/tracer.py
index 730c07b..cbc3591 100644
--- a/tinynn/graph/tracer.py
+++ b/tinynn/graph/tracer.py
@@ -736,8 +736,10 @@ def no_catch():
         yield False
     else:
         lock(True)
-        yield True
-        lock(False)
+        try:
+            yield True
+        finally:
+            lock(False)
 
 
 @contextlib.contextmanager
@@ -747,8 +749,10 @@ def no_catch_handle_func():
         yield False
     else:
         handle_func_lock(True)
-        yield True
-        handle_func_lock(False)
+        try:
+            yield True
+        finally:
+            handle_func_lock(False)
 
 
 def args_as_string(args, kwargs):
@@ -1300,8 +1304,10 @@ def patch(object, name, gen, *args, **kwargs):
 
     pre_patched_value = getattr(object, name)
     setattr(object, name, gen(pre_patched_value, *args, **kwargs))
-    yield object
-    setattr(object, name, pre_patched_value)
+    try:
+        yield object
+    finally:
+        setattr(object, name, pre_patched_value)
 
 
 @contextlib.contextmanager
@@ -1321,15 +1327,17 @@ def patch_modules(objects, names, gens):
             else:
                 setattr(obj, name, generated_wrapper_modules[key])
 
-    yield objects
-    for obj in objects:
-        for name in names:
-            key = qualified_name(obj, name, short=True)
-            pre_patched_value = pre_patched_values[key]
-            if key == 'torch.Size.__new__':
-                revert_new(obj, pre_patched_value)
-            else:
-                setattr(obj, name, pre_patched_value)
+    try:
+        yield objects
+    finally:
+        for obj in objects:
+            for name in names:
+                key = qualified_name(obj, name, short=True)
+                pre_patched_value = pre_patched_values[key]
+                if key == 'torch.Size.__new__':
+                    revert_new(obj, pre_patched_value)
+                else:
+                    setattr(obj, name, pre_patched_value)
 
 
 @contextlib.contextmanager
@@ -1360,16 +1368,18 @@ def patch_funcs(object_dicts, gens):
                             key, gen(pre_patched_value_dict[key], key, hasattr(obj, '__module__'))
                         )
                         setattr(obj, name, generated_wrapper_funcs[key])
-    yield object_dict
-    for object_dict, gen in zip(object_dicts, gens):
-        for obj, names in object_dict.items():
-            for name in names:
-                key = qualified_name(obj, name)
-                if key == 'torch.Tensor.__getitem__':
+    try:
+        yield object_dict
+    finally:
+        for object_dict, gen in zip(object_dicts, gens):
+            for obj, names in object_dict.items():
+                for name in names:
                     key = qualified_name(obj, name)
-                    revert_getitem(obj, pre_patched_value_dict[key])
-                else:
-                    setattr(obj, name, pre_patched_value_dict[key])
+                    if key == 'torch.Tensor.__getitem__':
+                        key = qualified_name(obj, name)
+                        revert_getitem(obj, pre_patched_value_dict[key])
+                    else:
+                        setattr(obj, name, pre_patched_value_dict[key])
 
 
 def get_constructor_args(actual_class_type):
@@ -1737,29 +1747,32 @@ def hook_modules(module):
                     node = TraceNode(TraceFunction("output"))
                     add_output_node(node, v)
 
-    log.debug('trace: apply register_submodule_tracer')
-    module.apply(register_submodule_tracer)
-
-    log.debug('trace: add hooks')
-    hooks.append(module.register_forward_pre_hook(_model_pre_tracer))
-    hooks.append(module.register_forward_hook(_model_tracer))
+    try:
+        log.debug('trace: apply register_submodule_tracer')
+        module.apply(register_submodule_tracer)
 
-    yield module
+        log.debug('trace: add hooks')
+        hooks.append(module.register_forward_pre_hook(_model_pre_tracer))
+        hooks.append(module.register_forward_hook(_model_tracer))
 
-    for hook in hooks:
-        hook.remove()
+        yield module
+    finally:
+        for hook in hooks:
+            hook.remove()
 
 
 @contextlib.contextmanager
 def tracer_context():
     """Basic context manager for tracing"""
-    yield True
-    lock(False)
-    module_constructor_traced.clear()
-    module_constructor_lines.clear()
-    module_constructor_weakrefs.clear()
-    original_values_for_tracked_objects.clear()
-    skip_modules.clear()
+    try:
+        yield True
+    finally:
+        lock(False)
+        module_constructor_traced.clear()
+        module_constructor_lines.clear()
+        module_constructor_weakrefs.clear()
+        original_values_for_tracked_objects.clear()
+        skip_modules.clear()
 
 
 @contextlib.contextmanager
@@ -1773,8 +1786,10 @@ def model_constructor_tracer():
 def ignore_mod_param_update_warning():
     if not mod_param_update_warning_ignore():
         mod_param_update_warning_ignore(True)
-        yield True
-        mod_param_update_warning_ignore(False)
+        try:
+            yield True
+        finally:
+            mod_param_update_warning_ignore(False)
     else:
         yield False
 
@@ -1793,8 +1808,10 @@ def construct_trace_graph(
 ) -> 'TraceGraph':
     """Simple context manager for creating a new TraceGraph"""
     current_graph(TraceGraph(module, dummy_input, eliminate_dead_graph, patch_torch_size))
-    yield current_graph.get_value()
-    current_graph(None)
+    try:
+        yield current_graph.get_value()
+    finally:
+        current_graph(None)
 
 
 @contextlib.contextmanager
@@ -1802,8 +1819,10 @@ def override_current_trace_graph(new_graph: 'TraceGraph') -> 'TraceGraph':
     """Simple context manager for creating a new TraceGraph"""
     old_graph = current_graph.get_value()
     current_graph(new_graph)
-    yield current_graph.get_value()
-    current_graph(old_graph)
+    try:
+        yield current_graph.get_value()
+    finally:
+        current_graph(old_graph)
 
 
 @contextlib.contextmanager
@@ -2042,11 +2061,12 @@ class TraceGraph(object):
 
             original_state_dict = copy.deepcopy(self.module.state_dict())
 
-            with patch_helper(wrap_tracking_modules=self.patch_torch_size):
-                with hook_modules(self.module):
-                    self.module(*actual_input)
-
-            self.module.load_state_dict(original_state_dict)
+            try:
+                with patch_helper(wrap_tracking_modules=self.patch_torch_size):
+                    with hook_modules(self.module):
+                        self.module(*actual_input)
+            finally:
+                self.module.load_state_dict(original_state_dict)
 
             if self.eliminate_dead_graph:
                 self.eliminate_dead_graph_pass()
@@ -2246,10 +2266,11 @@ class TraceGraph(object):
     @contextlib.contextmanager
     def __numbering_context(self):
         """A simple context manager for numbering nodes"""
-        yield True
-
-        self.global_functions.clear()
-        self.global_nodes.clear()
+        try:
+            yield True
+        finally:
+            self.global_functions.clear()
+            self.global_nodes.clear()
 
     def __gen_init_code(self) -> str:
         """Generates the code for the init function for a `nn.Module`"""
@@ -3266,60 +3287,51 @@ def patch_helper(
     wrap_tracking_modules: bool = False,
 ):
     """Temporarily monkeypatches the functions and the modules in PyTorch."""
-    if wrap_modules:
-        if not modules_overrided():
-            modules = load_overridable_modules()
-            modules_overrided(True)
-        else:
-            wrap_modules = False
-    if wrap_funcs:
-        if not funcs_overrided():
-            funcs = load_overridable_funcs()
-            o_funcs, o_wrappers = load_torch_overrides_funcs(funcs)
-            funcs_overrided(True)
-        else:
-            wrap_funcs = False
-    if wrap_creation_funcs:
-        if not creation_funcs_overrided():
-            creation_funcs = load_creation_funcs()
-            creation_funcs_overrided(True)
-        else:
-            wrap_creation_funcs = False
-    if wrap_tracking_modules:
-        if not tracking_modules_overrided():
-            tracking_modules = load_tracking_modules()
-            tracking_modules_overrided(True)
-        else:
-            wrap_tracking_modules = False
-    if wrap_modules:
-        module_manager = patch_modules(modules, ('__init__', '__setattr__'), (new_init_gen, new_setattr_gen))
-        module_manager.__enter__()
-    if wrap_funcs:
-        tracked_funcs = [funcs, {torch.Tensor: ['__getattribute__']}]
-        wrappers = [new_func_gen, new_getattr_gen]
-        tracked_funcs.extend(o_funcs)
-        wrappers.extend(o_wrappers)
-        func_manager = patch_funcs(tracked_funcs, wrappers)
-        func_manager.__enter__()
-    if wrap_creation_funcs:
-        creation_func_manager = patch_funcs(creation_funcs, new_creation_func_gen)
-        creation_func_manager.__enter__()
-    if wrap_tracking_modules:
-        tracking_module_manager = patch_modules(tracking_modules, '__new__', new_init_tracking_gen)
-        tracking_module_manager.__enter__()
-    yield True
-    if wrap_modules:
-        module_manager.__exit__(None, None, None)
-        modules_overrided(False)
-    if wrap_funcs:
-        func_manager.__exit__(None, None, None)
-        funcs_overrided(False)
-    if wrap_creation_funcs:
-        creation_func_manager.__exit__(None, None, None)
-        creation_funcs_overrided(False)
-    if wrap_tracking_modules:
-        tracking_module_manager.__exit__(None, None, None)
-        tracking_modules_overrided(False)
+    with contextlib.ExitStack() as stack:
+        if wrap_modules:
+            if not modules_overrided():
+                modules = load_overridable_modules()
+                modules_overrided(True)
+                stack.callback(modules_overrided, False)
+            else:
+                wrap_modules = False
+        if wrap_funcs:
+            if not funcs_overrided():
+                funcs = load_overridable_funcs()
+                o_funcs, o_wrappers = load_torch_overrides_funcs(funcs)
+                funcs_overrided(True)
+                stack.callback(funcs_overrided, False)
+            else:
+                wrap_funcs = False
+        if wrap_creation_funcs:
+            if not creation_funcs_overrided():
+                creation_funcs = load_creation_funcs()
+                creation_funcs_overrided(True)
+                stack.callback(creation_funcs_overrided, False)
+            else:
+                wrap_creation_funcs = False
+        if wrap_tracking_modules:
+            if not tracking_modules_overrided():
+                tracking_modules = load_tracking_modules()
+                tracking_modules_overrided(True)
+                stack.callback(tracking_modules_overrided, False)
+            else:
+                wrap_tracking_modules = False
+        if wrap_modules:
+            stack.enter_context(
+                patch_modules(modules, ('__init__', '__setattr__'), (new_init_gen, new_setattr_gen))
+            )
+        if wrap_funcs:
+            tracked_funcs = [funcs, {torch.Tensor: ['__getattribute__']}]
+            wrappers = [new_func_gen, new_getattr_gen]
+            tracked_funcs.extend(o_funcs)
+            wrappers.extend(o_wrappers)
+            stack.enter_context(patch_funcs(tracked_funcs, wrappers))
+        if wrap_creation_funcs:
+            stack.enter_context(patch_funcs(creation_funcs, new_creation_func_gen))
+        if wrap_tracking_modules:
+            stack.enter_context(patch_modules(tracking_modules, '__new__', new_init_tracking_gen))
+        yield True
 
 
 def check_types(values: typing.Iterable) -> bool:
@@ -3381,15 +3393,16 @@ def trace(
     patch_torch_size: bool = False,
 ) -> TraceGraph:
     """main function for tracing"""
+    new_graph = None
     try:
         with construct_trace_graph(module, dummy_input, eliminate_dead_graph, patch_torch_size) as new_graph:
             new_graph.init()
             return new_graph
     except Exception:
         traceback.print_exc()
-        if current_graph() is not None:
-            log.error(f'inputs: {[n.unique_name for n in current_graph().input_nodes]}')
-            log.error(f'forwards: {[n.unique_name for n in current_graph().forward_nodes]}')
-            log.error(f'outputs: {[n.unique_name for n in current_graph().output_nodes]}')
-            log.error(f'constants: {[n.unique_name for n in current_graph().constant_nodes]}')
+        if new_graph is not None:
+            log.error(f'inputs: {[n.unique_name for n in new_graph.input_nodes]}')
+            log.error(f'forwards: {[n.unique_name for n in new_graph.forward_nodes]}')
+            log.error(f'outputs: {[n.unique_name for n in new_graph.output_nodes]}')
+            log.error(f'constants: {[n.unique_name for n in new_graph.constant_nodes]}')
         quit()
-- 
2.43.0


From 27ad9daf8d13f3f2ea3ad1d96e2a318065e23fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:01 +0000
Subject: [PATCH 011/121] fix: link the inserted node as a successor when only
 some tensors are rerouted

---
 tinynn/graph/tracer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tinynn/graph/tracer.py b/tinynn/graph/tracer.py
index cbc3591..9e28cd6 100644
--- a/tinynn/graph/tracer.py
+++ b/tinynn/graph/tracer.py
@@ -2832,7 +2832,7 @@ class TraceGraph(object):
         for prev_node in new_node.prev_nodes:
             if remaining_count > 0:
                 if new_node not in prev_node.next_nodes:
-                    prev_node.next_tensors.append(new_node)
+                    prev_node.next_nodes.append(new_node)
             else:
                 for i, n in enumerate(prev_node.next_nodes):
                     if n == next_node:
-- 
2.43.0


From 26a61144b4cf1971d2401ffacd42189e97e5961b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:01 +0000
Subject: [PATCH 012/121] fix: link every node inserted before a multi-input
 node to its own predecessor

---
 tinynn/graph/tracer.py | 19 +++++--------------
 1 file changed, 5 insertions(+), 14 deletions(-)

diff --git a/tinynn/graph/tracer.py b/tinynn/graph/tracer.py
index 9e28cd6..31b9f36 100644
--- a/tinynn/graph/tracer.py
+++ b/tinynn/graph/tracer.py
@@ -2934,24 +2934,15 @@ class TraceGraph(object):
             node.prev_tensors.extend(new_node.next_tensors)
 
         # Connect the previous nodes to the new node
-        if rev_mode:
+        for new_node in new_nodes:
             for prev_node in new_node.prev_nodes:
-                idx = None
                 for i, n in enumerate(prev_node.next_nodes):
                     if n == node:
-                        idx = i
+                        prev_node.next_nodes[i] = new_node
                         break
-                if idx is not None:
-                    for i, new_node in enumerate(new_nodes):
-                        prev_node.next_nodes.insert(idx + 1 + i, new_node)
-                    prev_node.next_nodes.pop(idx)
-        else:
-            for new_node in new_nodes:
-                for prev_node in new_node.prev_nodes:
-                    for i, n in enumerate(prev_node.next_nodes):
-                        if n == node:
-                            prev_node.next_nodes[i] = new_node
-                            break
+                else:
+                    if new_node not in prev_node.next_nodes:
+                        prev_node.next_nodes.append(new_node)
 
         # Update previous node name for next nodes (TraceFunction)
         if type(node.module) is TraceFunction and node not in self.output_nodes:
-- 
2.43.0


From b40a445a8008265f1e4460eab2ce70b8790b338e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:45 +0000
Subject: [PATCH 013/121] fix: don't add the split requantize ops of earlier
 nodes again

---
 tinynn/converter/operators/optimize.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tinynn/converter/operators/optimize.py b/tinynn/converter/operators/optimize.py
index 782f88a..fc123e4 100644
--- a/tinynn/converter/operators/optimize.py
+++ b/tinynn/converter/operators/optimize.py
@@ -697,6 +697,7 @@ class GraphOptimizer(object):
 
             intermediate = self.create_transform_tensor(input_tensor.tensor.astype('float32'))
 
+            ops = []
             ops.append(tfl.DequantizeOperator([input_tensor], [intermediate]))
             ops.append(tfl.QuantizeOperator([intermediate], [output_tensor]))
 
-- 
2.43.0


From 219b9191d5c421505538b860c7e8ef31f2123d02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:45 +0000
Subject: [PATCH 014/121] fix: only fuse boundary quantize/dequantize nodes
 without other consumers

---
 tinynn/converter/operators/optimize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tinynn/converter/operators/optimize.py b/tinynn/converter/operators/optimize.py
index fc123e4..8c71aec 100644
--- a/tinynn/converter/operators/optimize.py
+++ b/tinynn/converter/operators/optimize.py
@@ -4244,9 +4244,11 @@ def is_quant_dequant_edge(edge: ig.Edge, graph_converter: ig.Graph):
         source_vertex['node_type'] == ExtendedOperator.INPUT_NODE
         and target_vertex['node_type'] == ExtendedOperator.QUANTIZE
         and source_vertex['outputs'][0] == target_vertex['op'].inputs[0].name
+        and all(v['node_type'] == ExtendedOperator.QUANTIZE for v in source_vertex.successors())
     ) or (
         source_vertex['node_type'] == ExtendedOperator.DEQUANTIZE
         and target_vertex['node_type'] == ExtendedOperator.OUTPUT_NODE
+        and all(v['node_type'] == ExtendedOperator.OUTPUT_NODE for v in source_vertex.successors())
     )
 
 
-- 
2.43.0


From 57f196c4cd4e939fc8cc46c9e8ae3d90b04daa88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:45 +0000
Subject: [PATCH 015/121] fix: describe every output in the converter config

---
 tinynn/util/converter_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tinynn/util/converter_util.py b/tinynn/util/converter_util.py
index c084bc0..5caed30 100644
--- a/tinynn/util/converter_util.py
+++ b/tinynn/util/converter_util.py
@@ -82,7 +82,7 @@ def generate_converter_config(
         if len(output_transpose) != len(outputs) or not all((type(x) is bool for x in output_transpose)):
             raise AssertionError('output transpose should either be boolean or list of booleans')
     elif type(output_transpose) is bool or output_transpose is None:
-        output_transpose = [output_transpose] * len(inputs)
+        output_transpose = [output_transpose] * len(outputs)
     else:
         raise AssertionError('output transpose should either be boolean or list of booleans')
 
-- 
2.43.0


From f7322999a540920460f0932a243403ffbc15abeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:45 +0000
Subject: [PATCH 016/121] fix: resolve lazy keyword options of a lazy object

---
 tinynn/util/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tinynn/util/util.py b/tinynn/util/util.py
index 6db37cd..d99f4a9 100644
--- a/tinynn/util/util.py
+++ b/tinynn/util/util.py
@@ -110,7 +110,7 @@ class LazyObject(object):
 
         for opt_k, opt_v in self.kw_options.items():
             if isinstance(opt_v, LazyObject):
-                kw_options[opt_k] = opt.get_current()
+                kw_options[opt_k] = opt_v.get_current()
             elif isinstance(opt_v, LazyExpression):
                 kw_options[opt_k] = opt_v.eval()
             else:
-- 
2.43.0


From f606b3b262c87b4ecf05dfcd9a4ff6ddf0dd152e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:45 +0000
Subject: [PATCH 017/121] fix: read each attribute by its own name when
 flattening outputs

---
 tinynn/util/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tinynn/util/util.py b/tinynn/util/util.py
index d99f4a9..2c70dc9 100644
--- a/tinynn/util/util.py
+++ b/tinynn/util/util.py
@@ -208,7 +208,7 @@ def tensors2ndarray(tensors) -> list:
     elif not isinstance(tensors, (bool, str, int, float, types.FunctionType)):
         for k in tensors.__dir__():
             if not k.startswith('__'):
-                v = getattr(tensors, v)
+                v = getattr(tensors, k)
                 new_tensors.extend(tensors2ndarray(v))
     return new_tensors
 
-- 
2.43.0


From 137d48ef6bf88930b68ec39307e2cba72a99fb4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:45 +0000
Subject: [PATCH 018/121] fix: keep preserved channels in ascending order

---
 tinynn/graph/modifier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tinynn/graph/modifier.py b/tinynn/graph/modifier.py
index 91c8a82..c121614 100644
--- a/tinynn/graph/modifier.py
+++ b/tinynn/graph/modifier.py
@@ -12,7 +12,7 @@ log = get_logger(__name__)
 
 
 def complementary_list(a, b):
-    return list(set(a).difference(set(b)))
+    return sorted(set(a).difference(set(b)))
 
 
 def get_smallest_k(lst, k, offset=0):
-- 
2.43.0


From fccb8ac2b38be3c4569aca255cef3d392704ed6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:19 +0000
Subject: [PATCH 019/121] fix: collect the same prunable layers when the pruner
 is reset

---
 tinynn/prune/oneshot_pruner.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/tinynn/prune/oneshot_pruner.py b/tinynn/prune/oneshot_pruner.py
index ecea2f2..cf67781 100644
--- a/tinynn/prune/oneshot_pruner.py
+++ b/tinynn/prune/oneshot_pruner.py
@@ -184,7 +184,14 @@ class OneShotChannelPruner(BasePruner):
         self.graph = self.trace()
         self.center_nodes.clear()
         for n in self.graph.forward_nodes:
-            if (n.type() in [nn.Conv2d, nn.ConvTranspose2d] and not is_dw_conv(n.module)) or (n.type() in [nn.Linear]):
+            if (
+                (
+                    n.type() in [nn.Conv2d, nn.ConvTranspose2d, nn.Conv1d, nn.ConvTranspose1d]
+                    and not is_dw_conv(n.module)
+                )
+                or (n.type() in [nn.Linear])
+                or (n.type() in [nn.RNN, nn.GRU, nn.LSTM] and len(n.prev_tensors) == 1)
+            ):
                 self.center_nodes.append(n)
                 if n.unique_name not in self.sparsity:
                     self.sparsity[n.unique_name] = self.default_sparsity
-- 
2.43.0


From 1d4413fabbe0c79fcfd1441b523f0c8649b438e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:19 +0000
Subject: [PATCH 020/121] fix: don't modify the pruner configuration of the
 user

---
 tinynn/prune/base_pruner.py     | 4 ++++
 tinynn/prune/identity_pruner.py | 4 ++++
 tinynn/prune/oneshot_pruner.py  | 5 ++---
 3 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/tinynn/prune/base_pruner.py b/tinynn/prune/base_pruner.py
index caf02d2..1f97925 100644
--- a/tinynn/prune/base_pruner.py
+++ b/tinynn/prune/base_pruner.py
@@ -1,4 +1,5 @@
 import collections
+import copy
 import typing
 from abc import ABC, abstractmethod
 from inspect import getsource
@@ -69,6 +70,9 @@ class BasePruner(ABC):
         if not isinstance(self.config, dict):
             raise Exception('The `config` argument requires a parsed json object (e.g. dict or OrderedDict)')
 
+        # The default values are filled in below, don't touch the object given by the user
+        self.config = copy.copy(self.config)
+
         missing_params = set(self.required_params) - set(self.config)
         if len(missing_params) != 0:
             missing_params_str = ', '.join(missing_params)
diff --git a/tinynn/prune/identity_pruner.py b/tinynn/prune/identity_pruner.py
index a20069f..3c4029f 100644
--- a/tinynn/prune/identity_pruner.py
+++ b/tinynn/prune/identity_pruner.py
@@ -1,3 +1,5 @@
+import copy
+
 from tinynn.prune import OneShotChannelPruner
 
 from tinynn.util.util import get_logger
@@ -25,6 +27,8 @@ class IdentityChannelPruner(OneShotChannelPruner):
         self.bn_compensation = True
         if config is None:
             config = {"metrics": "l2_norm", "sparsity": 0.5}
+        else:
+            config = copy.copy(config)
         if "metrics" not in config:
             config["metrics"] = "l2_norm"
 
diff --git a/tinynn/prune/oneshot_pruner.py b/tinynn/prune/oneshot_pruner.py
index cf67781..52d93c6 100644
--- a/tinynn/prune/oneshot_pruner.py
+++ b/tinynn/prune/oneshot_pruner.py
@@ -102,15 +102,14 @@ class OneShotChannelPruner(BasePruner):
         self.skip_last_fc = self.config.get('skip_last_fc', True)
         self.multiple = self.config.get('multiple', None)
         self.bn_compensation = self.config.get('bn_compensation', self.bn_compensation)
-        self.exclude_ops = self.config.get('exclude_ops', [])
+        self.exclude_ops = list(self.config.get('exclude_ops', []))
 
         if isinstance(sparsity, float):
             self.default_sparsity = sparsity
         elif isinstance(sparsity, dict):
             if 'default' in sparsity:
                 self.default_sparsity = sparsity['default']
-                del sparsity['default']
-            self.sparsity.update(sparsity)
+            self.sparsity.update({k: v for k, v in sparsity.items() if k != 'default'})
         else:
             raise Exception(f'The type of `sparsity` should either be float or dict for {type(self).__name__}')
 
-- 
2.43.0


From 94d6c7b487ad572fb4dcefbbeb04731b1b4b5cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:35 +0000
Subject: [PATCH 021/121] fix: only fuse modules whose intermediate outputs
 have no other consumers

---
 tinynn/graph/quantization/quantizer.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/tinynn/graph/quantization/quantizer.py b/tinynn/graph/quantization/quantizer.py
index f9b0662..9dc032a 100644
--- a/tinynn/graph/quantization/quantizer.py
+++ b/tinynn/graph/quantization/quantizer.py
@@ -3038,6 +3038,15 @@ class QATQuantizer(object):
                         final_names.extend(names)
                 if len(cur_node.prev_nodes) != 1:
                     break
+                # The fused modules only produce the output of the last one, so the outputs of the
+                # other ones shouldn't be used elsewhere
+                consumers = {
+                    n.unique_name
+                    for n in cur_node.prev_nodes[0].next_nodes
+                    if n.kind() not in ('shape', 'size', 'dtype', 'device')
+                }
+                if len(consumers) > 1:
+                    break
                 cur_node = cur_node.prev_nodes[0]
             else:
                 if cur_class == nn.ConvTranspose2d:
-- 
2.43.0


From da6c04ca91b911e7657c8b536be2a4fd81524634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:35 +0000
Subject: [PATCH 022/121] fix: keep the negative slope when rewriting
 functional leaky_relu

---
 tinynn/graph/quantization/quantizer.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/tinynn/graph/quantization/quantizer.py b/tinynn/graph/quantization/quantizer.py
index 9dc032a..c98f4e2 100644
--- a/tinynn/graph/quantization/quantizer.py
+++ b/tinynn/graph/quantization/quantizer.py
@@ -2192,14 +2192,18 @@ class QATQuantizer(object):
             elif node.module.kind in ('elu', 'leaky_relu'):
                 if hasattr(node.module, 'args_string_no_self'):
 
-                    def _parse_args(alpha=1.0, *args, **kwargs):  # noqa: F811
-                        return alpha
-
-                    alpha = eval(f'_parse_args({node.module.args_string_no_self})')
                     if node.module.kind == 'leaky_relu':
-                        new_func = klass(alpha, inplace=inplace)
+
+                        def _parse_args(negative_slope=0.01, *args, **kwargs):  # noqa: F811
+                            return negative_slope
+
                     else:
-                        new_func = klass(alpha, inplace=inplace)
+
+                        def _parse_args(alpha=1.0, *args, **kwargs):  # noqa: F811
+                            return alpha
+
+                    alpha = eval(f'_parse_args({node.module.args_string_no_self})')
+                    new_func = klass(alpha, inplace=inplace)
                 else:
                     alpha = None
                     if node.module.kind == 'leaky_relu':
-- 
2.43.0


From f7f1bc757b4a9e25c83d9f914055d4e511be2d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:35 +0000
Subject: [PATCH 023/121] fix: restore the kind of unfused clamps

---
 tinynn/graph/quantization/quantizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tinynn/graph/quantization/quantizer.py b/tinynn/graph/quantization/quantizer.py
index c98f4e2..e3de693 100644
--- a/tinynn/graph/quantization/quantizer.py
+++ b/tinynn/graph/quantization/quantizer.py
@@ -2896,7 +2896,7 @@ class QATQuantizer(object):
         unfused_clamp_nodes = graph.filter_forward_nodes(_is_unfused_clamp_node)
         log.info(f'rewriting unfused_clamp for {[node.unique_name for node in unfused_clamp_nodes]}')
         for node in unfused_clamp_nodes:
-            node.module.kind = kind
+            node.module.kind = 'clamp'
             node.module.func_type = node.module.func_type.replace('clamp_with_fusion', 'clamp')
             node.module.full_name = f'torch.{node.module.func_type}'
 
-- 
2.43.0


From 5129baf1128d8c59876fe3812f3ed40212cdb2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:35 +0000
Subject: [PATCH 024/121] fix: skip the inputs without quantized input stats

---
 tinynn/graph/quantization/quantizer.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/tinynn/graph/quantization/quantizer.py b/tinynn/graph/quantization/quantizer.py
index e3de693..e1e7ed8 100644
--- a/tinynn/graph/quantization/quantizer.py
+++ b/tinynn/graph/quantization/quantizer.py
@@ -1350,12 +1350,14 @@ class QATQuantizer(object):
             )
 
             for qstats, node in zip(self.quantized_input_stats, graph.input_nodes):
-                if qstats is not None:
-                    assert (
-                        isinstance(qstats, (list, tuple))
-                        and len(qstats) == 2
-                        and all((isinstance(q, (int, float)) for q in qstats))
-                    ), "quantized_input_stats format: [(mean_1, std_1), (mean_2, std_2), ..., (mean_n, std_n)]"
+                if qstats is None:
+                    continue
+
+                assert (
+                    isinstance(qstats, (list, tuple))
+                    and len(qstats) == 2
+                    and all((isinstance(q, (int, float)) for q in qstats))
+                ), "quantized_input_stats format: [(mean_1, std_1), (mean_2, std_2), ..., (mean_n, std_n)]"
 
                 for next_node in node.next_nodes:
                     if isinstance(next_node.module, torch_q.QuantStub):
-- 
2.43.0


From 69d7b87fa9724201da7e31c6401392a4b30de203 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:35 +0000
Subject: [PATCH 025/121] fix: restore the patched torch functions when
 inserting the observers fails

---
 tinynn/graph/quantization/quantizer.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/tinynn/graph/quantization/quantizer.py b/tinynn/graph/quantization/quantizer.py
index e1e7ed8..af250df 100644
--- a/tinynn/graph/quantization/quantizer.py
+++ b/tinynn/graph/quantization/quantizer.py
@@ -1003,15 +1003,16 @@ class QATQuantizer(object):
                 else:
                     add_observer_func = sys.modules['torch.ao.quantization.quantize']._add_observer_
 
-                add_observer_func(
-                    model,
-                    qconfig_propagation_list,
-                    set(mapping.values()),
-                    custom_module_class_mapping=custom_module_class_mapping,
-                )
-
-                torch.ao.nn.quantizable.LSTM.from_float = orig_from_float
-                sys.modules['torch.ao.quantization.quantize'].no_observer_set = orig_no_observer_set
+                try:
+                    add_observer_func(
+                        model,
+                        qconfig_propagation_list,
+                        set(mapping.values()),
+                        custom_module_class_mapping=custom_module_class_mapping,
+                    )
+                finally:
+                    torch.ao.nn.quantizable.LSTM.from_float = orig_from_float
+                    sys.modules['torch.ao.quantization.quantize'].no_observer_set = orig_no_observer_set
 
             else:
                 torch_q.prepare(model, observer_non_leaf_module_list=set(mapping.values()), inplace=True)
-- 
2.43.0


From 50ecd056f7ca817d7ea59a84e974bdea8ea1cf7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:35 +0000
Subject: [PATCH 026/121] fix: restore the patched observer set after preparing
 for post quantization

---
 tinynn/graph/quantization/quantizer.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/tinynn/graph/quantization/quantizer.py b/tinynn/graph/quantization/quantizer.py
index af250df..38b35fc 100644
--- a/tinynn/graph/quantization/quantizer.py
+++ b/tinynn/graph/quantization/quantizer.py
@@ -3871,11 +3871,17 @@ class PostQuantizer(QATQuantizer):
                     orig_no_observer_set = torch.quantization.quantization_mappings.no_observer_set
                     torch.quantization.quantization_mappings.no_observer_set = patch_observer_set(orig_no_observer_set)
 
-                add_observer_func(
-                    graph.module,
-                    qconfig_propagation_list=whitelist,
-                    custom_module_class_mapping=custom_module_class_mapping,
-                )
+                try:
+                    add_observer_func(
+                        graph.module,
+                        qconfig_propagation_list=whitelist,
+                        custom_module_class_mapping=custom_module_class_mapping,
+                    )
+                finally:
+                    if LooseVersion(torch.__version__) >= LooseVersion("1.10.0"):
+                        sys.modules['torch.ao.quantization.quantize'].no_observer_set = orig_no_observer_set
+                    elif LooseVersion(torch.__version__) >= LooseVersion("1.9.0"):
+                        torch.quantization.quantization_mappings.no_observer_set = orig_no_observer_set
             else:
                 add_observer_func(
                     graph.module,
-- 
2.43.0


From 4e2c351c356d26c4b650a384f1b5e5c9083f8f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:45 +0000
Subject: [PATCH 027/121] fix: don't fuse a batch-norm with a succeeding padded
 or grouped conv

---
 tinynn/graph/quantization/quantizer.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/tinynn/graph/quantization/quantizer.py b/tinynn/graph/quantization/quantizer.py
index 38b35fc..bcf7267 100644
--- a/tinynn/graph/quantization/quantizer.py
+++ b/tinynn/graph/quantization/quantizer.py
@@ -3012,6 +3012,7 @@ class QATQuantizer(object):
         names = []
         final_names = []
         current_state = False
+        last_conv = None
         while True:
             if check_node_quantized:
                 if not cur_node.quantized:
@@ -3025,6 +3026,11 @@ class QATQuantizer(object):
                 cur_class = cur_module.kind
             prev_nodes = cur_node.prev_nodes
             log.debug(f'cur: {cur_class}')
+            if cur_class == nn.BatchNorm2d and last_conv is not None:
+                # The padding of the conv is not affected by the batch-norm, and the input channels of a grouped
+                # conv are not the ones of its weight, so that the batch-norm cannot be folded into it
+                if last_conv.groups != 1 or last_conv.padding not in (0, (0, 0), 'valid'):
+                    break
             if cur_class in current_rules or cur_class == nn.Identity:
                 if use_original_name and isinstance(cur_module, nn.Module):
                     cur_name = graph.module_original_name_dict[id(cur_module)]
@@ -3038,6 +3044,8 @@ class QATQuantizer(object):
                 if cur_class in current_rules:
                     current_state, current_rules = current_rules[cur_class]
                     log.debug(f'dict: {current_rules}, {current_state}')
+                    if cur_class == nn.Conv2d:
+                        last_conv = cur_module
                     names.append(cur_name)
                     if current_state is True:
                         log.debug(f'update best: {names}')
-- 
2.43.0


From 377c875ba307ebe2a687a46d563cc4f67a4a6b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:45 +0000
Subject: [PATCH 028/121] fix: don't modify the quantizer configuration of the
 user

---
 tinynn/graph/quantization/quantizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tinynn/graph/quantization/quantizer.py b/tinynn/graph/quantization/quantizer.py
index bcf7267..43a0099 100644
--- a/tinynn/graph/quantization/quantizer.py
+++ b/tinynn/graph/quantization/quantizer.py
@@ -3662,7 +3662,7 @@ class PostQuantizer(QATQuantizer):
 
     def parse_config(self, config: typing.Optional[dict]):
         if config and 'algorithm' not in config.keys():
-            config['algorithm'] = 'l2'
+            config = {**config, 'algorithm': 'l2'}
 
         super().parse_config(config)
 
-- 
2.43.0


From 2ea4dc1650013258238c1b0d26266a61b956f4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:50 +0000
Subject: [PATCH 029/121] fix: write the boundaries of bucketize as floats

---
 tinynn/converter/operators/tflite/generated_ops.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tinynn/converter/operators/tflite/generated_ops.py b/tinynn/converter/operators/tflite/generated_ops.py
index 60fa6da..5dfcf2b 100644
--- a/tinynn/converter/operators/tflite/generated_ops.py
+++ b/tinynn/converter/operators/tflite/generated_ops.py
@@ -3858,7 +3858,7 @@ class BucketizeOperator(BaseOperator):
         self.boundaries = boundaries
 
     def build(self, builder: flatbuffers.Builder) -> Offset:
-        boundaries = create_numpy_array(builder, tflite.BucketizeOptions.Boundaries, self.boundaries)
+        boundaries = create_numpy_array(builder, tflite.BucketizeOptions.Boundaries, self.boundaries, 'float32')
         tflite.BucketizeOptionsStart(builder)
         tflite.BucketizeOptionsAddBoundaries(builder, boundaries)
         options = tflite.BucketizeOptionsEnd(builder)
-- 
2.43.0


From e2f9940fc59fb07c0401f308d0fbe91a2bea6445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:23 +0000
Subject: [PATCH 030/121] fix: report unsupported operators of nested blocks

---
 tinynn/converter/base.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/tinynn/converter/base.py b/tinynn/converter/base.py
index 1955649..b7c5fc7 100644
--- a/tinynn/converter/base.py
+++ b/tinynn/converter/base.py
@@ -124,6 +124,7 @@ class TFLiteConverter(object):
         self.tensor_map = {}
         self.tensor_map_copies = {}
         self.common_graph = CommonGraph()
+        self.nested_op_kinds = []
 
         if type(dummy_input) in (tuple, list):
             self.dummy_input = dummy_input
@@ -381,10 +382,10 @@ class TFLiteConverter(object):
         if self.graph is None:
             self.init_lowered_module()
 
-        all_nodes = list(self.graph.nodes())
+        # Nodes in the nested blocks are only known when they are expanded in `init_operations`
+        all_kinds = [node.kind() for node in self.graph.nodes()] + self.nested_op_kinds
         ops = []
-        for node in all_nodes:
-            k = node.kind()
+        for k in all_kinds:
             converter_type = OPERATOR_CONVERTER_DICT.get(k, None)
             if converter_type is None:
                 ops.append(k)
@@ -476,6 +477,7 @@ class TFLiteConverter(object):
                 output_tensors.extend(converter.get_output_tensors())
             if len(new_nodes) > 0:
                 node_queue.extendleft(reversed(new_nodes))
+                self.nested_op_kinds.extend(n.kind() for n in new_nodes)
 
             if k == 'prim::PythonOp':
                 s = node.scopeName()
-- 
2.43.0


From 0adaae4e95f8daffa730e01b94a7e0ae27b2befa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:23 +0000
Subject: [PATCH 031/121] fix: reject unknown weight types of hybrid
 quantization

---
 tinynn/converter/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tinynn/converter/base.py b/tinynn/converter/base.py
index b7c5fc7..9fb2c09 100644
--- a/tinynn/converter/base.py
+++ b/tinynn/converter/base.py
@@ -218,6 +218,10 @@ class TFLiteConverter(object):
             self.hybrid_q_type = np.int16
             if self.hybrid:
                 raise AttributeError('Hybrid kernels supports int8 and uint8 only')
+        else:
+            raise AttributeError(
+                f'unknown hybrid_quantize_weight_type: {hybrid_quantize_weight_type}, expected: uint8, int8, int16'
+            )
 
         if dump_config_path and not dump_jit_model_path:
             raise AssertionError("when dump_config_path is set, dump_jit_model_path is required to be set")
-- 
2.43.0


From f25f95a9e8d82f00ef1e25c6ce5734b321b94637 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:23 +0000
Subject: [PATCH 032/121] fix: don't modify the input_transpose list of the
 user

---
 tinynn/converter/base.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tinynn/converter/base.py b/tinynn/converter/base.py
index 9fb2c09..902fef9 100644
--- a/tinynn/converter/base.py
+++ b/tinynn/converter/base.py
@@ -342,7 +342,9 @@ class TFLiteConverter(object):
 
     def init_input_transpose(self):
         input_transpose = self.input_transpose
-        if type(input_transpose) not in (tuple, list):
+        if type(input_transpose) in (tuple, list):
+            input_transpose = list(input_transpose)
+        else:
             input_transpose = [input_transpose] * len(self.flatten_inputs)
         for i, t in enumerate(self.flatten_inputs):
             if input_transpose[i] is None:
-- 
2.43.0


From 6c83d31deba359609abf7b7a4ad0d3eb12ef6ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:14 +0000
Subject: [PATCH 033/121] fix: don't fold batch-norms with non-constant
 parameters or a different channel axis

---
 tinynn/converter/operators/optimize.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/tinynn/converter/operators/optimize.py b/tinynn/converter/operators/optimize.py
index 8c71aec..1b3bef3 100644
--- a/tinynn/converter/operators/optimize.py
+++ b/tinynn/converter/operators/optimize.py
@@ -3646,13 +3646,13 @@ def is_bn_fusable_edge(edge: ig.Edge, graph_converter: ig.Graph):
         in (ExtendedOperator.GENERIC_CONV, ExtendedOperator.GENERIC_DECONV, ExtendedOperator.FULLY_CONNECTED)
         and target_vertex['node_type'] == ExtendedOperator.BATCH_NORM
         and source_vertex.outdegree() == 1
-        and target_vertex['op'].inputs[1].buffer is not None
-        and target_vertex['op'].inputs[2].buffer is not None
-        and source_vertex['op'].inputs[1].buffer is not None
+        and all(t.buffer is not None for t in target_vertex['op'].inputs[1:])
+        and all(t.buffer is not None for t in source_vertex['op'].inputs[1:])
+        and getattr(source_vertex['op'], 'fusedActivationFunction', ActivationFunctionType.NONE)
+        == ActivationFunctionType.NONE
         and (
-            target_vertex['op'].fusedActivationFunction == ActivationFunctionType.NONE
-            or source_vertex['op'].fusedActivationFunction
-            in (ActivationFunctionType.NONE, target_vertex['op'].fusedActivationFunction)
+            source_vertex['node_type'] != ExtendedOperator.FULLY_CONNECTED
+            or len(target_vertex['op'].inputs[0].shape) == 2
         )
     )
 
-- 
2.43.0


From 0c8f82d911070c421d64edd8497601f41c3580b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:14 +0000
Subject: [PATCH 034/121] fix: don't fold batch-norms into convolutions with a
 non-constant bias

---
 tinynn/converter/operators/optimize.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/tinynn/converter/operators/optimize.py b/tinynn/converter/operators/optimize.py
index 1b3bef3..2497064 100644
--- a/tinynn/converter/operators/optimize.py
+++ b/tinynn/converter/operators/optimize.py
@@ -3664,9 +3664,8 @@ def is_rev_bn_fusable_edge(edge: ig.Edge, graph_converter: ig.Graph):
         target_vertex['node_type'] == ExtendedOperator.GENERIC_CONV
         and source_vertex['node_type'] == ExtendedOperator.BATCH_NORM
         and source_vertex.outdegree() == 1
-        and source_vertex['op'].inputs[1].buffer is not None
-        and source_vertex['op'].inputs[2].buffer is not None
-        and target_vertex['op'].inputs[1].buffer is not None
+        and all(t.buffer is not None for t in source_vertex['op'].inputs[1:])
+        and all(t.buffer is not None for t in target_vertex['op'].inputs[1:])
         and source_vertex['op'].fusedActivationFunction == ActivationFunctionType.NONE
     )
 
-- 
2.43.0


From 1a0457d2a8b837af71d33f319713e0156884132a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:14 +0000
Subject: [PATCH 035/121] fix: only merge channel gathers into ungrouped
 convolutions with constant weights

---
 tinynn/converter/operators/optimize.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tinynn/converter/operators/optimize.py b/tinynn/converter/operators/optimize.py
index 2497064..fa8c5e4 100644
--- a/tinynn/converter/operators/optimize.py
+++ b/tinynn/converter/operators/optimize.py
@@ -4277,6 +4277,8 @@ def is_conv2d_gather_edge(edge: ig.Edge, graph_converter: ig.Graph):
         and source_vertex.outdegree() == 1
         and target_vertex['op'].inputs[1].buffer is not None
         and target_vertex['op'].axis == 3
+        and all(t.buffer is not None for t in source_vertex['op'].inputs[1:])
+        and source_vertex['op'].inputs[0].shape[3] == source_vertex['op'].inputs[1].shape[3]
         and source_vertex['op'].inputs[1].tensor.shape[0] == target_vertex['op'].inputs[1].tensor.shape[0]
     )
 
@@ -4291,6 +4293,7 @@ def is_gather_conv2d_edge(edge: ig.Edge, graph_converter: ig.Graph):
         and source_vertex.outdegree() == 1
         and source_vertex['op'].inputs[1].buffer is not None
         and source_vertex['op'].axis == 3
+        and target_vertex['op'].inputs[1].buffer is not None
         and source_vertex['op'].inputs[1].tensor.shape[0] == target_vertex['op'].inputs[1].tensor.shape[3]
         and np.array_equal(
             np.sort(source_vertex['op'].inputs[1].tensor), np.arange(source_vertex['op'].inputs[0].shape[3])
-- 
2.43.0


From 8bf3b81f67f40bd14053d38490920b5ba35f9067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:14 +0000
Subject: [PATCH 036/121] fix: don't turn the padding of weights into SAME
 padding

---
 tinynn/converter/operators/optimize.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tinynn/converter/operators/optimize.py b/tinynn/converter/operators/optimize.py
index fa8c5e4..ce0e2b9 100644
--- a/tinynn/converter/operators/optimize.py
+++ b/tinynn/converter/operators/optimize.py
@@ -3703,6 +3703,7 @@ def is_padding_fusable_edge(edge: ig.Edge, graph_converter: ig.Graph):
             ExtendedOperator.MAX_POOL_2D,
         )
         and source_vertex.outdegree() == 1
+        and target_vertex['op'].inputs[0].name in source_vertex['outputs']
         and target_vertex['op'].padding == Padding.VALID
     )
 
-- 
2.43.0


From 04821f037d54bb1ca8dd26a2e1d3910d2c9498ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:14 +0000
Subject: [PATCH 037/121] fix: don't drop a non-constant bias that was zero
 while tracing

---
 tinynn/converter/operators/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tinynn/converter/operators/optimize.py b/tinynn/converter/operators/optimize.py
index ce0e2b9..a5758a6 100644
--- a/tinynn/converter/operators/optimize.py
+++ b/tinynn/converter/operators/optimize.py
@@ -2579,7 +2579,7 @@ class GraphOptimizer(object):
             for p in filtered_pairs
             if p[0]['node_type'] != ExtendedOperator.FULLY_CONNECTED
             or len(p[0]['op'].inputs) == 2
-            or not np.any(p[0]['op'].inputs[2].tensor)
+            or (p[0]['op'].inputs[2].buffer is not None and not np.any(p[0]['op'].inputs[2].tensor))
         ]
 
         remove_ids = []
-- 
2.43.0


From 847bc098509baa1854e64c655b8fdcf68b1ce50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:14 +0000
Subject: [PATCH 038/121] fix: keep the fused activation of rewritten group
 deconvolutions

---
 tinynn/converter/operators/optimize.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tinynn/converter/operators/optimize.py b/tinynn/converter/operators/optimize.py
index a5758a6..d571c74 100644
--- a/tinynn/converter/operators/optimize.py
+++ b/tinynn/converter/operators/optimize.py
@@ -2928,6 +2928,7 @@ class GraphOptimizer(object):
                         padding=conv.padding,
                         strideH=conv.strideH,
                         strideW=conv.strideW,
+                        fusedActivationFunction=conv.fusedActivationFunction,
                     )
                 )
 
-- 
2.43.0


From 6a6132afbd0779cf456434885aafe1573007ee0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:14 +0000
Subject: [PATCH 039/121] fix: don't freeze non-constant weights while
 rewriting group convolutions

---
 tinynn/converter/operators/optimize.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tinynn/converter/operators/optimize.py b/tinynn/converter/operators/optimize.py
index d571c74..158555c 100644
--- a/tinynn/converter/operators/optimize.py
+++ b/tinynn/converter/operators/optimize.py
@@ -3791,6 +3791,7 @@ def is_group_conv_node(vertex: ig.Vertex, graph_converter: ig.Graph):
     return (
         vertex['node_type'] == ExtendedOperator.CONV_2D
         and vertex['op'].inputs[0].shape[3] != vertex['op'].inputs[1].shape[3]
+        and all(t.buffer is not None for t in vertex['op'].inputs[1:])
     )
 
 
@@ -3798,6 +3799,8 @@ def is_group_deconv_node(vertex: ig.Vertex, graph_converter: ig.Graph):
     return (
         vertex['node_type'] == ExtendedOperator.TRANSPOSE_CONV
         and vertex['op'].outputs[0].shape[3] != vertex['op'].inputs[1].shape[0]
+        and vertex['op'].inputs[1].buffer is not None
+        and all(t.buffer is not None for t in vertex['op'].inputs[3:])
     )
 
 
-- 
2.43.0


From 71334f9629ad139d25318fee7929d0f1656b079a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:31 +0000
Subject: [PATCH 040/121] fix: versions of transposed convolutions with bias,
 nearest resizing and int8 operators

---
 tinynn/converter/operators/op_version.py | 29 ++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/tinynn/converter/operators/op_version.py b/tinynn/converter/operators/op_version.py
index b608d6c..02ef51f 100644
--- a/tinynn/converter/operators/op_version.py
+++ b/tinynn/converter/operators/op_version.py
@@ -133,7 +133,9 @@ class OPVersioner(object):
             else:
                 op.op.version = 1
         elif op.op.code == ExtendedOperator.TRANSPOSE_CONV:
-            if str(op.inputs[0].dtype) == 'int8':
+            if len(op.inputs) == 4:
+                op.op.version = 3
+            elif str(op.inputs[0].dtype) == 'int8':
                 op.op.version = 2
             else:
                 op.op.version = 1
@@ -225,7 +227,16 @@ class OPVersioner(object):
             else:
                 op.op.version = 1
         elif op.op.code == ExtendedOperator.REVERSE_V2:
-            if str(op.outputs[0].dtype) == 'bool':
+            if str(op.outputs[0].dtype) == 'int8':
+                op.op.version = 3
+            elif str(op.outputs[0].dtype) == 'bool':
+                op.op.version = 2
+            else:
+                op.op.version = 1
+        elif op.op.code == ExtendedOperator.RESIZE_NEAREST_NEIGHBOR:
+            if op.halfPixelCenters or op.alignCorners:
+                op.op.version = 3
+            elif str(op.inputs[0].dtype) == 'int8':
                 op.op.version = 2
             else:
                 op.op.version = 1
@@ -256,7 +267,9 @@ class OPVersioner(object):
             else:
                 op.op.version = 1
         elif op.op.code == ExtendedOperator.TILE:
-            if str(op.inputs[0].dtype).startswith('<U'):
+            if str(op.inputs[0].dtype) == 'int8':
+                op.op.version = 3
+            elif str(op.inputs[0].dtype).startswith('<U'):
                 op.op.version = 2
             else:
                 op.op.version = 1
@@ -292,7 +305,6 @@ class OPVersioner(object):
             ExtendedOperator.REDUCE_MAX,
             ExtendedOperator.REDUCE_MIN,
             ExtendedOperator.RELU6,
-            ExtendedOperator.RESIZE_NEAREST_NEIGHBOR,
             ExtendedOperator.TANH,
             ExtendedOperator.LOGISTIC,
             ExtendedOperator.LOG_SOFTMAX,
@@ -306,6 +318,15 @@ class OPVersioner(object):
             ExtendedOperator.LESS,
             ExtendedOperator.LESS_EQUAL,
             ExtendedOperator.SELECT,
+            ExtendedOperator.BATCH_MATMUL,
+            ExtendedOperator.ABS,
+            ExtendedOperator.EXP,
+            ExtendedOperator.LOG,
+            ExtendedOperator.RSQRT,
+            ExtendedOperator.SQUARED_DIFFERENCE,
+            ExtendedOperator.REDUCE_PROD,
+            ExtendedOperator.DEPTH_TO_SPACE,
+            ExtendedOperator.MIRROR_PAD,
         ):
             if str(op.inputs[0].dtype) == 'int8':
                 op.op.version = 2
-- 
2.43.0


From 68911b7eac720fc7693827140707da75a2027827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:13 +0000
Subject: [PATCH 041/121] fix: don't remove paddings that shift the data

---
 tinynn/converter/operators/optimize.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tinynn/converter/operators/optimize.py b/tinynn/converter/operators/optimize.py
index 158555c..06c2832 100644
--- a/tinynn/converter/operators/optimize.py
+++ b/tinynn/converter/operators/optimize.py
@@ -4048,6 +4048,7 @@ def is_ending_with_noop_edge(edge: ig.Edge, graph_converter: ig.Graph, branch: b
                 target_vertex['node_type']
                 in (ExtendedOperator.PAD, ExtendedOperator.PADV2, ExtendedOperator.MIRROR_PAD)
                 and target_vertex['op'].inputs[0].shape == target_vertex['op'].outputs[0].shape
+                and (target_vertex['op'].inputs[1].tensor == 0).all()
             )
             or (
                 target_vertex['node_type'] == ExtendedOperator.TILE
-- 
2.43.0


From 592a0e63878932e9e6dbc6c1ac651f00b9df51b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:37 +0000
Subject: [PATCH 042/121] fix: don't move transposes and reshapes across
 gathers with multi-dim indices

---
 tinynn/converter/operators/optimize.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tinynn/converter/operators/optimize.py b/tinynn/converter/operators/optimize.py
index 06c2832..654a073 100644
--- a/tinynn/converter/operators/optimize.py
+++ b/tinynn/converter/operators/optimize.py
@@ -3975,8 +3975,11 @@ def is_elementwise_unary_op(op_code: ExtendedOperator, op: tfl.BaseOperator):
         ExtendedOperator.SLICE,
         ExtendedOperator.STRIDED_SLICE,
         ExtendedOperator.TILE,
-        ExtendedOperator.GATHER,
         ExtendedOperator.ABS,
+    ) or (
+        # With multi-dimensional indices, the dims of the input don't correspond to those of the output
+        op_code == ExtendedOperator.GATHER
+        and len(op.inputs[1].shape) == 1
     ) or is_elementwise_reduce_op(op_code, op)
 
 
-- 
2.43.0


From 5f00bc7f4104105fc87ec647aa8f8b9b9ac860ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:37 +0000
Subject: [PATCH 043/121] fix: don't move transposes and reshapes across PRELU
 when its channels become the first dim

---
 tinynn/converter/operators/optimize.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/tinynn/converter/operators/optimize.py b/tinynn/converter/operators/optimize.py
index 654a073..b00287a 100644
--- a/tinynn/converter/operators/optimize.py
+++ b/tinynn/converter/operators/optimize.py
@@ -1955,6 +1955,12 @@ class GraphOptimizer(object):
                     if skip:
                         continue
 
+            perm = max(cand_perms.items(), key=lambda x: x[1])[0]
+
+            # The slope of PRELU doesn't have the first dim, so that dim has to stay there
+            if node['node_type'] == ExtendedOperator.PRELU and op.inputs[1].tensor.size > 1 and perm[0] != 0:
+                continue
+
             num_actions += 1
 
             remove_edges.extend([x.index for x in next_edges])
@@ -1964,7 +1970,6 @@ class GraphOptimizer(object):
                 del self.graph.tensor_map[n['outputs'][0]]
                 del self.graph.tensor_node_map[n['outputs'][0]]
 
-            perm = max(cand_perms.items(), key=lambda x: x[1])[0]
             perm_arr = np.array(perm, dtype='int32')
             inv_perm_arr = np.argsort(perm_arr).astype('int32')
 
@@ -2315,6 +2320,13 @@ class GraphOptimizer(object):
                 if skip:
                     continue
 
+            prev_shape = max(cand_shapes.items(), key=lambda x: x[1])[0]
+            next_shape = max(cand_next_shapes.items(), key=lambda x: x[1])[0]
+
+            # The slope of PRELU doesn't have the first dim, so the channel dim should be one of the others
+            if node['node_type'] == ExtendedOperator.PRELU and -1 not in prev_shape[1:]:
+                continue
+
             num_actions += 1
 
             remove_edges.extend([x.index for x in next_edges])
@@ -2324,9 +2336,6 @@ class GraphOptimizer(object):
                 del self.graph.tensor_map[n['outputs'][0]]
                 del self.graph.tensor_node_map[n['outputs'][0]]
 
-            prev_shape = max(cand_shapes.items(), key=lambda x: x[1])[0]
-            next_shape = max(cand_next_shapes.items(), key=lambda x: x[1])[0]
-
             tensor_node_dict = {}
             for prev_node, prev_idx, next_idx in zip(prev_nodes, input_indices, prev_output_indices):
                 if prev_node['op'] is None:
-- 
2.43.0


From c0bbb4b2c4b09b82ad209f61863317191a8f9fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:37 +0000
Subject: [PATCH 044/121] fix: don't ignore dims with paddings that sum up to
 zero

---
 tinynn/converter/operators/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tinynn/converter/operators/optimize.py b/tinynn/converter/operators/optimize.py
index b00287a..e8fb3b3 100644
--- a/tinynn/converter/operators/optimize.py
+++ b/tinynn/converter/operators/optimize.py
@@ -4358,7 +4358,7 @@ def op_input_dims(op: tfl.BaseOperator):
     elif isinstance(op, tfl.SplitVOperator):
         dim_indices = op.inputs[2].tensor.item()
     elif isinstance(op, (tfl.PadOperator, tfl.Padv2Operator, tfl.MirrorPadOperator)):
-        pads = np.sum(op.inputs[1].tensor, axis=-1)
+        pads = np.any(op.inputs[1].tensor, axis=-1)
         nonzero_idx = np.nonzero(pads)[0]
         # TODO: support multi indices
         if nonzero_idx.size == 1:
-- 
2.43.0


From 2c2007039f69f73f631e98e038a4e621f1bd9223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:44 +0000
Subject: [PATCH 045/121] fix: scale the weight of grouped transposed convs per
 group when fusing batch-norms

---
 tinynn/converter/operators/optimize.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/tinynn/converter/operators/optimize.py b/tinynn/converter/operators/optimize.py
index e8fb3b3..4728cd8 100644
--- a/tinynn/converter/operators/optimize.py
+++ b/tinynn/converter/operators/optimize.py
@@ -4417,14 +4417,18 @@ def op_input_indices(op: tfl.BaseOperator):
 
 
 def fuse_bn_weight(eps, scale, var, weight, transpose):
+    inv = 1 / np.sqrt(var + eps)
+    factor = scale * inv
+
     if transpose:
-        shape = [1, -1] + [1] * (len(weight.shape) - 2)
+        # The layout of the weight is (in_channels, out_channels // groups, ...)
+        groups = factor.size // weight.shape[1]
+        factor = factor.reshape(groups, 1, -1).repeat(weight.shape[0] // groups, axis=1)
+        shape = list(weight.shape[:2]) + [1] * (len(weight.shape) - 2)
     else:
         shape = [-1, 1] + [1] * (len(weight.shape) - 2)
 
-    inv = 1 / np.sqrt(var + eps)
-
-    return weight * (scale * inv).reshape(shape)
+    return weight * factor.reshape(shape)
 
 
 def fuse_bn_bias(eps, scale, var, mean, bn_b, activ_b):
-- 
2.43.0


From 6935e3bd38e60e05534b0a7a94b6e64fa2b63847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:19 +0000
Subject: [PATCH 046/121] fix: merge the dims of high-dimensional transposes
 according to the permutation

---
 tinynn/converter/operators/optimize.py | 31 +++++++++-----------------
 1 file changed, 10 insertions(+), 21 deletions(-)

diff --git a/tinynn/converter/operators/optimize.py b/tinynn/converter/operators/optimize.py
index 4728cd8..bb909a5 100644
--- a/tinynn/converter/operators/optimize.py
+++ b/tinynn/converter/operators/optimize.py
@@ -2706,29 +2706,18 @@ class GraphOptimizer(object):
             perm = perm_tensor.tensor
             output_shape = output_tensor.shape
 
-            last_perm = None
-            last_dim = None
-            cum_dim = None
-            new_shape = []
-            new_perm = []
-            for d, p in zip(input_shape, perm):
-                if last_dim is None and last_perm is None:
-                    cum_dim = d
+            # Drop the dims of size 1 and merge the dims that stay next to each other
+            kept_dims = [i for i, d in enumerate(input_shape) if d != 1]
+            groups = []
+            for p in [kept_dims.index(p) for p in perm.tolist() if input_shape[p] != 1]:
+                if len(groups) > 0 and p - groups[-1][-1] == 1:
+                    groups[-1].append(p)
                 else:
-                    if p - last_perm == 1 or d == 1 or cum_dim == 1:
-                        cum_dim *= d
-                    else:
-                        new_shape.append(cum_dim)
-                        new_perm.append(last_perm)
-                        cum_dim = d
-
-                last_dim = d
-                last_perm = p
-
-            new_shape.append(cum_dim)
-            new_perm.append(last_perm)
+                    groups.append([p])
 
-            new_perm_arr = np.argsort(new_perm).astype('int32')
+            input_groups = sorted(groups) or [[]]
+            new_shape = [int(np.prod([input_shape[kept_dims[p]] for p in group])) for group in input_groups]
+            new_perm_arr = np.array([input_groups.index(group) for group in groups or [[]]], dtype='int32')
 
             assert (
                 len(new_shape) <= self.max_transpose_dims
-- 
2.43.0


From 2d993c975f72a922622bcb74926f7d191411fcfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:37 +0000
Subject: [PATCH 047/121] fix: permute the computed bounds of slices with
 gather instead of transpose

---
 tinynn/converter/operators/optimize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tinynn/converter/operators/optimize.py b/tinynn/converter/operators/optimize.py
index bb909a5..7e621dd 100644
--- a/tinynn/converter/operators/optimize.py
+++ b/tinynn/converter/operators/optimize.py
@@ -2092,7 +2092,7 @@ class GraphOptimizer(object):
                     if t.buffer is None:
                         new_perm_t = self.create_attr_tensor(np.array(inv_perm_arr, dtype='int32'))
                         new_t = self.create_transform_tensor(t.tensor[inv_perm_arr])
-                        self.graph.add_operator(tfl.TransposeOperator([t, new_perm_t], [new_t]))
+                        self.graph.add_operator(tfl.GatherOperator([t, new_perm_t], [new_t], axis=0))
                     else:
                         new_t = self.create_attr_tensor(t.tensor[inv_perm_arr])
                     actions.append((self.graph.replace_operator_input, (node, i + 1, new_t, True)))
-- 
2.43.0


From 056bf682b1f649ad55274199cd5d1cf22a0e38c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:37 +0000
Subject: [PATCH 048/121] fix: don't treat slices and gathers with computed
 operands as no-ops

---
 tinynn/converter/operators/optimize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tinynn/converter/operators/optimize.py b/tinynn/converter/operators/optimize.py
index 7e621dd..9670728 100644
--- a/tinynn/converter/operators/optimize.py
+++ b/tinynn/converter/operators/optimize.py
@@ -4058,6 +4058,7 @@ def is_ending_with_noop_edge(edge: ig.Edge, graph_converter: ig.Graph, branch: b
             or (
                 target_vertex['node_type'] in (ExtendedOperator.SLICE, ExtendedOperator.STRIDED_SLICE)
                 and target_vertex['op'].inputs[0].shape == target_vertex['op'].outputs[0].shape
+                and all(t.buffer is not None for t in target_vertex['op'].inputs[1:])
             )
             or (
                 target_vertex['node_type'] == ExtendedOperator.CONCATENATION
@@ -4068,6 +4069,7 @@ def is_ending_with_noop_edge(edge: ig.Edge, graph_converter: ig.Graph, branch: b
             or (
                 target_vertex['node_type'] == ExtendedOperator.GATHER
                 and target_vertex['op'].inputs[0].shape == target_vertex['op'].outputs[0].shape
+                and target_vertex['op'].inputs[1].buffer is not None
                 and (np.diff(target_vertex['op'].inputs[1].tensor) == 1).all()
             )
             or (
-- 
2.43.0


From 1f44fc9ad7a445b80a68b8a9c5103213edbc19aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:37 +0000
Subject: [PATCH 049/121] fix: don't fuse slices whose bounds are computed at
 runtime

---
 tinynn/converter/operators/optimize.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tinynn/converter/operators/optimize.py b/tinynn/converter/operators/optimize.py
index 9670728..6da259b 100644
--- a/tinynn/converter/operators/optimize.py
+++ b/tinynn/converter/operators/optimize.py
@@ -3712,6 +3712,7 @@ def is_slicing_fusable_edge(edge: ig.Edge, graph_converter: ig.Graph):
     target_vertex = graph_converter.vs[edge.target]
     return (
         target_vertex['node_type'] in (ExtendedOperator.SLICE, ExtendedOperator.STRIDED_SLICE)
+        and all(t.buffer is not None for t in target_vertex['op'].inputs[1:])
         and (
             len(target_vertex['op'].inputs) == 3
             or (len(target_vertex['op'].inputs) == 4 and np.all(target_vertex['op'].inputs[3].tensor == 1))
@@ -4134,8 +4135,8 @@ def is_slice_fusable_edge(edge: ig.Edge, graph_converter: ig.Graph):
         and target_vertex['node_type'] in (ExtendedOperator.SLICE, ExtendedOperator.STRIDED_SLICE)
         and target_vertex.outdegree() >= 1
         and source_vertex['outputs'][0] == target_vertex['op'].inputs[0].name
-        and source_vertex['op'].inputs[1].buffer is not None
-        and source_vertex['op'].inputs[2].buffer is not None
+        and all(t.buffer is not None for t in source_vertex['op'].inputs[1:])
+        and all(t.buffer is not None for t in target_vertex['op'].inputs[1:])
     )
 
 
-- 
2.43.0


From c9643c6436cef7098c97994e544757e328b454a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:37 +0000
Subject: [PATCH 050/121] fix: keep the division if its constant operand
 broadcasts the result of sqrt

---
 tinynn/converter/operators/optimize.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tinynn/converter/operators/optimize.py b/tinynn/converter/operators/optimize.py
index 6da259b..416b8c6 100644
--- a/tinynn/converter/operators/optimize.py
+++ b/tinynn/converter/operators/optimize.py
@@ -479,6 +479,7 @@ class GraphOptimizer(object):
             if (
                 div_op.inputs[0].buffer is not None
                 and np.all(div_op.inputs[0].tensor == 1.0)
+                and div_op.outputs[0].shape == div_op.inputs[1].shape
                 and div['op'].fusedActivationFunction == ActivationFunctionType.NONE
             ):
                 new_output = div['outputs'][0]
-- 
2.43.0


From f20e1646b95f872e8b66603ceb818f31ec7a91e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:37 +0000
Subject: [PATCH 051/121] fix: eliminate consecutive no-ops in branches one by
 one

---
 tinynn/converter/operators/optimize.py | 28 ++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/tinynn/converter/operators/optimize.py b/tinynn/converter/operators/optimize.py
index 416b8c6..79afacc 100644
--- a/tinynn/converter/operators/optimize.py
+++ b/tinynn/converter/operators/optimize.py
@@ -1179,16 +1179,28 @@ class GraphOptimizer(object):
 
     @class_conditional(lambda self: self.level >= GraphOptimizer.COMMON_OPTIMIZE)
     def remove_noop_pass(self, branch: bool = False):
-        edges = self.graph.graph.es.select(
-            functools.partial(is_ending_with_noop_edge, graph_converter=self.graph.graph, branch=branch)
-        )
-        filtered_pairs = [[self.graph.graph.vs[x.source], self.graph.graph.vs[x.target]] for x in edges]
+        visited = set()
+        while True:
+            edges = self.graph.graph.es.select(
+                functools.partial(is_ending_with_noop_edge, graph_converter=self.graph.graph, branch=branch)
+            )
+            filtered_pairs = [[self.graph.graph.vs[x.source], self.graph.graph.vs[x.target]] for x in edges]
 
-        # Try to fuse the edges
-        if not branch:
-            filtered_pairs = fuse_connected_edges(filtered_pairs)
+            if not branch:
+                # Try to fuse the edges
+                elinimate_sequences(self.graph, fuse_connected_edges(filtered_pairs))
+                break
+
+            # A no-op node may be followed by another one, so only the first ones are eliminated at a time
+            filtered_pairs = [p for p in filtered_pairs if p[1]['name'] not in visited]
+            if len(filtered_pairs) == 0:
+                break
+
+            targets = set(p[1]['name'] for p in filtered_pairs)
+            filtered_pairs = [p for p in filtered_pairs if p[0]['name'] not in targets]
+            visited.update(p[1]['name'] for p in filtered_pairs)
 
-        elinimate_sequences(self.graph, filtered_pairs)
+            elinimate_sequences(self.graph, filtered_pairs)
 
     @class_conditional(lambda self: self.level >= GraphOptimizer.COMMON_OPTIMIZE)
     def fuse_wrapped_reshape_within_transpose_pass(self):
-- 
2.43.0


From 15d8fd1a28db629f9ee38363f7fc451bc4283ace Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:12:02 +0000
Subject: [PATCH 052/121] fix: keep the state variables of LSTMs out of
 half-precision quantization

---
 tinynn/converter/operators/half_quantizer.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tinynn/converter/operators/half_quantizer.py b/tinynn/converter/operators/half_quantizer.py
index 13cdc88..30ef1d6 100644
--- a/tinynn/converter/operators/half_quantizer.py
+++ b/tinynn/converter/operators/half_quantizer.py
@@ -81,4 +81,5 @@ def is_quantizable_node(vertex: ig.Vertex, graph_converter: CommonGraph):
     return (
         vertex['node_type'] == ExtendedOperator.CONSTANT_NODE
         and str(graph_converter.tensor_map[vertex['name']].dtype) == 'float32'
+        and not graph_converter.tensor_map[vertex['name']].is_variable
     )
-- 
2.43.0


From 2737b437a01a324d93db6ba863cecf6965bab50c Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:37:36 +0000
Subject: [PATCH 053/121] fix: keep the shared slope of PReLU when its channels
 are pruned

---
 tinynn/graph/modifier.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tinynn/graph/modifier.py b/tinynn/graph/modifier.py
index c121614..95651e4 100644
--- a/tinynn/graph/modifier.py
+++ b/tinynn/graph/modifier.py
@@ -1136,7 +1136,8 @@ class PReLUChannelModifier(Modifier):
         self.dim_changes_info.pruned_idx_i = pruned_idx
         self.dim_changes_info.pruned_idx_o = pruned_idx
 
-        if len(pruned_idx) > 0:
+        # A slope that is shared by all channels is not affected by channel pruning
+        if len(pruned_idx) > 0 and self.module().num_parameters > 1:
             remove_idx = self.dim_changes_info.pruned_idx_i
             self.masker().set_in_remove_idx(remove_idx)
             self.masker().set_ot_remove_idx(remove_idx)
-- 
2.43.0


From e1654f9519963119e2e2c589642892101171cd51 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:37:36 +0000
Subject: [PATCH 054/121] fix: slice depthwise transposed convolutions like
 depthwise ones when they are pruned

---
 tinynn/graph/modifier.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/tinynn/graph/modifier.py b/tinynn/graph/modifier.py
index 95651e4..de9d2d2 100644
--- a/tinynn/graph/modifier.py
+++ b/tinynn/graph/modifier.py
@@ -2438,6 +2438,9 @@ class ConvChannelModifier(Modifier):
 
 class TransConvChannelModifier(ConvChannelModifier):
     def register_mask(self, modifiers, importance, sparsity):
+        if is_dw_conv(self.module()):
+            return super().register_mask(modifiers, importance, sparsity)
+
         if self.dim_changes_info.pruned_idx_i:
             remove_idx = self.dim_changes_info.pruned_idx_i
             self.weight_mask["weight"][
@@ -2463,6 +2466,10 @@ class TransConvChannelModifier(ConvChannelModifier):
 
     def modify_input(self, remove_idx):
         conv = self.node.module
+
+        if is_dw_conv(conv):
+            return super().modify_input(remove_idx)
+
         preserve_idx = complementary_list([i for i in range(self.weight_mask["weight"].shape[0])], remove_idx)
 
         if conv.in_channels != len(preserve_idx):
@@ -2472,6 +2479,10 @@ class TransConvChannelModifier(ConvChannelModifier):
 
     def modify_output(self, remove_idx):
         conv = self.node.module
+
+        if is_dw_conv(conv):
+            return super().modify_output(remove_idx)
+
         preserve_idx = complementary_list([i for i in range(self.weight_mask["weight"].shape[1])], remove_idx)
 
         if conv.out_channels != len(preserve_idx):
-- 
2.43.0


From a696e9dd94eea4a3c5a19b6147b76dae1da21b11 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:37:36 +0000
Subject: [PATCH 055/121] fix: prune norm layers without bias or running
 statistics

---
 tinynn/graph/modifier.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/tinynn/graph/modifier.py b/tinynn/graph/modifier.py
index de9d2d2..f66a21f 100644
--- a/tinynn/graph/modifier.py
+++ b/tinynn/graph/modifier.py
@@ -1172,10 +1172,11 @@ class NormChannelModifier(Modifier):
             self.masker().set_ot_remove_idx(remove_idx)
 
             self.weight_mask["weight"][remove_idx] = 0
-            self.bias_mask["bias"] = self.weight_mask["weight"]
-
             self.masker().register_mask("weight", self.weight_mask["weight"])
-            self.masker().register_mask("bias", self.bias_mask["bias"])
+
+            if self.module().bias is not None:
+                self.bias_mask["bias"] = self.weight_mask["weight"]
+                self.masker().register_mask("bias", self.bias_mask["bias"])
 
     def modify_input(self, remove_idx):
         bn = self.node.module
@@ -1241,9 +1242,10 @@ class NormChannelModifier(Modifier):
 
             if isinstance(bn, nn.BatchNorm1d) or isinstance(bn, nn.BatchNorm2d):
                 log.info(f'[BN] {self.unique_name()}: channel {bn.num_features} -> {len(preserve_idx)}')
-                bn.register_buffer('running_mean', bn.running_mean[preserve_idx])
-                bn.register_buffer('running_var', bn.running_var[preserve_idx])
-                bn.num_batches_tracked = bn.num_batches_tracked.zero_()
+                if bn.running_mean is not None:
+                    bn.register_buffer('running_mean', bn.running_mean[preserve_idx])
+                    bn.register_buffer('running_var', bn.running_var[preserve_idx])
+                    bn.num_batches_tracked = bn.num_batches_tracked.zero_()
                 bn.num_features = len(preserve_idx)
             elif isinstance(bn, nn.LayerNorm):
                 if len(bn.normalized_shape) == 1:
@@ -1255,7 +1257,8 @@ class NormChannelModifier(Modifier):
                 log.error("Unsupported Norm Type")
 
             bn.weight = torch.nn.Parameter(bn.weight[preserve_idx])
-            bn.bias = torch.nn.Parameter(bn.bias[preserve_idx])
+            if bn.bias is not None:
+                bn.bias = torch.nn.Parameter(bn.bias[preserve_idx])
 
 
 class ReIndexModifier(Modifier):
-- 
2.43.0


From 1fb11d768f96699dd14e111843092df461c4a063 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:39:11 +0000
Subject: [PATCH 056/121] fix: only mask the weights of linear layers if their
 feature dimension is pruned

---
 tinynn/graph/modifier.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/tinynn/graph/modifier.py b/tinynn/graph/modifier.py
index f66a21f..68e4cf6 100644
--- a/tinynn/graph/modifier.py
+++ b/tinynn/graph/modifier.py
@@ -1660,20 +1660,24 @@ class LinearChannelModifier(Modifier):
         return True
 
     def register_mask(self, modifiers, importance, sparsity):
+        # The weights don't depend on the pruned indices unless it's the feature dimension that is pruned
         if self.dim_changes_info.pruned_idx_i:
             remove_idx = self.dim_changes_info.pruned_idx_i
-            self.weight_mask["weight"][:, remove_idx] = 0
+            if self.dim_changes_info.get_tensor_choices(self.input_tensor) == [self.dim_c]:
+                self.weight_mask["weight"][:, remove_idx] = 0
             self.masker().set_in_remove_idx(remove_idx)
 
         if self.dim_changes_info.pruned_idx_o:
             remove_idx = self.dim_changes_info.pruned_idx_o
-            self.weight_mask["weight"][remove_idx, :] = 0
             self.masker().set_ot_remove_idx(remove_idx)
 
-            bias_mask = self.bias_mask.get("bias", None)
-            if bias_mask is not None:
-                bias_mask[remove_idx] = 0
-                self.masker().register_mask("bias", bias_mask)
+            if self.dim_changes_info.get_tensor_choices(self.output_tensor) == [self.dim_c]:
+                self.weight_mask["weight"][remove_idx, :] = 0
+
+                bias_mask = self.bias_mask.get("bias", None)
+                if bias_mask is not None:
+                    bias_mask[remove_idx] = 0
+                    self.masker().register_mask("bias", bias_mask)
 
         self.masker().register_mask("weight", self.weight_mask["weight"])
 
-- 
2.43.0


From 5638550d6caf612d9ce109c558cc3afd4b1f0b84 Mon Sep 17 00:00:00 2001
From: v <v@v>
Date: Thu, 19 Nov 2026 20:43:55 +0000
Subject: [PATCH 057/121] fix: keep the channels that are not pruned in the
 arguments of reshape and view

---
 tinynn/graph/modifier.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/tinynn/graph/modifier.py b/tinynn/graph/modifier.py
index 68e4cf6..131b0c9 100644
--- a/tinynn/graph/modifier.py
+++ b/tinynn/graph/modifier.py
@@ -1432,7 +1432,7 @@ class ReshapeModifier(ReIndexModifier):
                 pruned_idx, sparsity = self.get_pruned_idx(modifiers)
 
                 output_shape = deepcopy(self.changed_shape)
-                output_shape[output_modify_dim] = int(output_shape[output_modify_dim] * sparsity)
+                output_shape[output_modify_dim] -= round(output_shape[output_modify_dim] * sparsity)
                 self.args_parsed()[1] = [str(i) for i in output_shape]
                 self.node.module.args_to_string(deepcopy(self.args_parsed()))
 
@@ -1447,9 +1447,7 @@ class ReshapeModifier(ReIndexModifier):
                 pruned_idx, sparsity = self.get_pruned_idx(modifiers)
 
                 output_shape = deepcopy(self.changed_shape)
-                output_shape[output_modify_dim] = output_shape[output_modify_dim] - int(
-                    output_shape[output_modify_dim] * sparsity
-                )
+                output_shape[output_modify_dim] -= round(output_shape[output_modify_dim] * sparsity)
                 if self.args_parsed()[1][output_modify_dim].isdigit():
                     self.args_parsed()[1][output_modify_dim] = str(output_shape[output_modify_dim])
                 self.node.module.args_to_string(deepcopy(self.args_parsed()))
-- 
2.43.0


From 84730120d9a67add35e0bbbf4283b8209d9039a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:58:00 +0000
Subject: [PATCH 058/121] fix: one random importance per hidden channel of
 recurrent layers

---
 tinynn/graph/modifier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tinynn/graph/modifier.py b/tinynn/graph/modifier.py
index 131b0c9..1e29a39 100644
--- a/tinynn/graph/modifier.py
+++ b/tinynn/graph/modifier.py
@@ -100,7 +100,7 @@ def random(tensor, module):
         return torch.randperm(tensor.shape[1])
     if type(module) in [nn.GRU, nn.LSTM, nn.RNN]:
         assert isinstance(tensor, (tuple, list))
-        return torch.randperm(tensor[0].shape[1])
+        return torch.randperm(tensor[0].shape[0])
 
 
 def l1_norm(tensor, module):
-- 
2.43.0


From cda866cc3791a67bce9dfad44357b774af06cc9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:59 +0000
Subject: [PATCH 059/121] fix: remove the dead channels if their number is a
 multiple of the required one

---
 tinynn/graph/modifier.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tinynn/graph/modifier.py b/tinynn/graph/modifier.py
index 1e29a39..fb19563 100644
--- a/tinynn/graph/modifier.py
+++ b/tinynn/graph/modifier.py
@@ -2717,7 +2717,7 @@ class SubGraph(object):
             if multiple is not None:
                 invalid_center_idx_lst = list(invalid_center_idx_set)
                 remainder = len(invalid_center_idx_lst) % multiple
-                invalid_center_idx_lst = invalid_center_idx_lst[:-remainder]
+                invalid_center_idx_lst = invalid_center_idx_lst[: len(invalid_center_idx_lst) - remainder]
                 invalid_center_idx_set = set(invalid_center_idx_lst)
 
             pruned_center_constraint_all[center_name] = invalid_center_idx_set
-- 
2.43.0


From 96c6a42d7380ea2c925b6e3db046ac4b972edc2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:31 +0000
Subject: [PATCH 060/121] fix: keep the fraction of a float scalar combined
 with an integer tensor

---
 tinynn/converter/operators/torch/aten.py | 14 +++++++-------
 tinynn/converter/operators/torch/base.py |  2 +-
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/tinynn/converter/operators/torch/aten.py b/tinynn/converter/operators/torch/aten.py
index f800a77..0885876 100644
--- a/tinynn/converter/operators/torch/aten.py
+++ b/tinynn/converter/operators/torch/aten.py
@@ -1293,7 +1293,7 @@ class ATenSubOperator(ATenSubSchema):
         assert alpha == 1, "Only alpha == 1 is supported"
 
         if type(other) in (int, float, bool):
-            self.input_tensors[1] = torch.tensor([other], dtype=self.input_tensors[0].dtype)
+            self.input_tensors[1] = self.torch_tensor_from_scalar(self.input_tensors[0], other)
         elif not isinstance(other, torch.Tensor):
             assert False, "other should have type int, float, tensor in aten::sub(input, other)"
 
@@ -1311,7 +1311,7 @@ class ATenRsubOperator(ATenRsubSchema):
         assert alpha == 1, "Only alpha == 1 is supported"
 
         if type(other) in (int, float, bool):
-            self.input_tensors[1] = torch.tensor([other], dtype=self.input_tensors[0].dtype)
+            self.input_tensors[1] = self.torch_tensor_from_scalar(self.input_tensors[0], other)
         elif not isinstance(other, torch.Tensor):
             assert False, "other should have type int, float, tensor in aten::rsub(input, other)"
 
@@ -1349,7 +1349,7 @@ class ATenMulOperator(ATenMulSchema):
         other = self.input_tensors[1]
 
         if type(other) in (int, float):
-            self.input_tensors[1] = torch.tensor([other], dtype=self.input_tensors[0].dtype)
+            self.input_tensors[1] = self.torch_tensor_from_scalar(self.input_tensors[0], other)
         elif not isinstance(other, torch.Tensor):
             assert False, "other should have type int, float, tensor in aten::mul(input, other)"
 
@@ -1419,7 +1419,7 @@ class ATenDivOperator(ATenDivSchema):
 
         other = self.input_tensors[1]
         if type(other) in (int, float):
-            self.input_tensors[1] = torch.tensor([other], dtype=self.input_tensors[0].dtype)
+            self.input_tensors[1] = self.torch_tensor_from_scalar(self.input_tensors[0], other)
         elif not isinstance(other, torch.Tensor):
             assert False, "other should have type int, float, tensor in aten::div(input, other)"
 
@@ -1445,7 +1445,7 @@ class ATenPowOperator(ATenPowSchema):
         ), "Input should be tensors of type torch.float32 or torch.int32"
 
         if not isinstance(self.input_tensors[1], torch.Tensor):
-            self.input_tensors[1] = torch.tensor([self.input_tensors[1]], dtype=self.input_tensors[0].dtype)
+            self.input_tensors[1] = self.torch_tensor_from_scalar(self.input_tensors[0], self.input_tensors[1])
 
         self.elementwise_binary(tfl.PowOperator, graph_converter, True)
 
@@ -2148,7 +2148,7 @@ class ATenAddOperator(ATenAddSchema):
         assert alpha == 1, "Only alpha == 1 is supported"
 
         if type(other) in (int, float, bool):
-            self.input_tensors[1] = torch.tensor([other], dtype=self.input_tensors[0].dtype)
+            self.input_tensors[1] = self.torch_tensor_from_scalar(self.input_tensors[0], other)
         elif not isinstance(other, torch.Tensor):
             assert False, "other should have type int, float, tensor in aten::add(input, other)"
 
@@ -4107,7 +4107,7 @@ class ATenRemainderOperator(ATenRemainderSchema):
 
         self.run(node)
         if not isinstance(self.input_tensors[1], torch.Tensor):
-            self.input_tensors[1] = torch.tensor([self.input_tensors[1]], dtype=self.input_tensors[0].dtype)
+            self.input_tensors[1] = self.torch_tensor_from_scalar(self.input_tensors[0], self.input_tensors[1])
 
         self.elementwise_binary(tfl.FloorModOperator, graph_converter, True)
 
diff --git a/tinynn/converter/operators/torch/base.py b/tinynn/converter/operators/torch/base.py
index d37a98a..ad259ca 100644
--- a/tinynn/converter/operators/torch/base.py
+++ b/tinynn/converter/operators/torch/base.py
@@ -706,7 +706,7 @@ class OperatorConverter(ABC):
                     ref_tensor.dtype,
                 )
             else:
-                tgt_tensor = torch.tensor([src_tensor], dtype=ref_tensor.dtype)
+                tgt_tensor = torch.tensor([src_tensor], dtype=torch.result_type(ref_tensor, src_tensor))
         return tgt_tensor
 
 
-- 
2.43.0


From 2143e2dd2fa04ea9cfc9841ff3de45894dcab7e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:31 +0000
Subject: [PATCH 061/121] fix: divide integer tensors as floating point numbers

---
 tinynn/converter/operators/torch/aten.py | 3 ++-
 tinynn/converter/operators/torch/base.py | 5 ++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/tinynn/converter/operators/torch/aten.py b/tinynn/converter/operators/torch/aten.py
index 0885876..e18f143 100644
--- a/tinynn/converter/operators/torch/aten.py
+++ b/tinynn/converter/operators/torch/aten.py
@@ -1423,7 +1423,8 @@ class ATenDivOperator(ATenDivSchema):
         elif not isinstance(other, torch.Tensor):
             assert False, "other should have type int, float, tensor in aten::div(input, other)"
 
-        self.elementwise_binary(tfl.DivOperator, graph_converter, True)
+        # true division of integers gives floating point numbers
+        self.elementwise_binary(tfl.DivOperator, graph_converter, self.output_tensors[0].dtype)
 
 
 class ATenMeanOperator(ATenMeanSchema):
diff --git a/tinynn/converter/operators/torch/base.py b/tinynn/converter/operators/torch/base.py
index ad259ca..b3aa4ea 100644
--- a/tinynn/converter/operators/torch/base.py
+++ b/tinynn/converter/operators/torch/base.py
@@ -335,7 +335,10 @@ class OperatorConverter(ABC):
 
     def elementwise_binary(self, converter_class, graph_converter, autocast, *args, **kwargs):
         if autocast:
-            result_dtype = torch.promote_types(self.input_tensors[0].dtype, self.input_tensors[1].dtype)
+            if isinstance(autocast, torch.dtype):
+                result_dtype = autocast
+            else:
+                result_dtype = torch.promote_types(self.input_tensors[0].dtype, self.input_tensors[1].dtype)
             for i in range(2):
                 t = self.input_tensors[i]
                 if result_dtype != t.dtype:
-- 
2.43.0


From 74fa5699be4d7e5e014afe13a99b8827fa149c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:31 +0000
Subject: [PATCH 062/121] fix: respect rounding_mode when translating aten::div

---
 tinynn/converter/operators/torch/aten.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/tinynn/converter/operators/torch/aten.py b/tinynn/converter/operators/torch/aten.py
index e18f143..a3d374e 100644
--- a/tinynn/converter/operators/torch/aten.py
+++ b/tinynn/converter/operators/torch/aten.py
@@ -1423,8 +1423,20 @@ class ATenDivOperator(ATenDivSchema):
         elif not isinstance(other, torch.Tensor):
             assert False, "other should have type int, float, tensor in aten::div(input, other)"
 
+        rounding_mode = None
+        if 'rounding_mode' in args:
+            rounding_mode = self.input_tensors[args['rounding_mode']]
+
+        output_dtype = self.output_tensors[0].dtype
+        converter_class = tfl.DivOperator
+        if rounding_mode == 'floor':
+            converter_class = tfl.FloorDivOperator
+        elif rounding_mode == 'trunc':
+            # DIV truncates the quotient of integers only
+            assert not output_dtype.is_floating_point, "aten::div with rounding_mode='trunc' for floats is not supported"
+
         # true division of integers gives floating point numbers
-        self.elementwise_binary(tfl.DivOperator, graph_converter, self.output_tensors[0].dtype)
+        self.elementwise_binary(converter_class, graph_converter, output_dtype)
 
 
 class ATenMeanOperator(ATenMeanSchema):
-- 
2.43.0


From 31195b722250417b2b0b71ddd5b1b0eb6152bff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:06 +0000
Subject: [PATCH 063/121] fix: record the right shapes of the parts when
 rolling a tensor

---
 tinynn/converter/operators/torch/aten.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tinynn/converter/operators/torch/aten.py b/tinynn/converter/operators/torch/aten.py
index a3d374e..ab5e095 100644
--- a/tinynn/converter/operators/torch/aten.py
+++ b/tinynn/converter/operators/torch/aten.py
@@ -4266,7 +4266,7 @@ class ATenRollOperator(ATenRollSchema):
 
                 splitted = [
                     self.create_transform_tensor(x, quantization=actual_input.quantization)
-                    for x in np.split(actual_input.tensor, [actual_shift], dim)
+                    for x in np.split(actual_input.tensor, [dim_size - actual_shift], dim)
                 ]
                 ops.append(tfl.SplitVOperator([actual_input, split_sizes, dim_tensor], splitted, chunks))
 
-- 
2.43.0


From bc0cc467b4f8db53d0803b950d7e5c281b16ac7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:06 +0000
Subject: [PATCH 064/121] fix: keep the dimensions of a norm over all of them
 with keepdim=True

---
 tinynn/converter/operators/torch/aten.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/tinynn/converter/operators/torch/aten.py b/tinynn/converter/operators/torch/aten.py
index ab5e095..7061b1c 100644
--- a/tinynn/converter/operators/torch/aten.py
+++ b/tinynn/converter/operators/torch/aten.py
@@ -4357,12 +4357,11 @@ class ATenNormOperator(ATenNormSchema):
                 dims = [dims]
             if len(dims) == 0:
                 dims = list(range(input_t.tensor.ndim))
-                self.output_tensors[0] = self.output_tensors[0].view(1)
-            elif len(dims) == input_t.tensor.ndim:
-                self.output_tensors[0] = self.output_tensors[0].view(1)
         else:
             dims = list(range(input_t.tensor.ndim))
             keep_dim = False
+
+        if self.output_tensors[0].ndim == 0:
             self.output_tensors[0] = self.output_tensors[0].view(1)
 
         for idx, dim in enumerate(dims):
-- 
2.43.0


From caf42dc25b557ca35ac110b251a8e12ad05fcf51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:06 +0000
Subject: [PATCH 065/121] fix: pad height and width by their own amounts in
 unfold

---
 tinynn/converter/operators/torch/aten.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tinynn/converter/operators/torch/aten.py b/tinynn/converter/operators/torch/aten.py
index 7061b1c..4555bc7 100644
--- a/tinynn/converter/operators/torch/aten.py
+++ b/tinynn/converter/operators/torch/aten.py
@@ -4443,7 +4443,7 @@ class ATenIm2colOperator(ATenIm2colSchema):
         padding_h, padding_w = self.input_tensors[3]
         stride_h, stride_w = self.input_tensors[4]
 
-        orig_pad = np.array([padding_h, padding_h, padding_w, padding_w], dtype='int32').reshape(-1, 2)
+        orig_pad = np.array([padding_w, padding_w, padding_h, padding_h], dtype='int32').reshape(-1, 2)
         pad_fill = np.zeros((input_tensor.tensor.ndim - orig_pad.shape[0], 2), dtype='int32')
         pad_arr = np.flip(np.concatenate((orig_pad, pad_fill)), 0)
         pad_tensor = self.create_attr_tensor(pad_arr)
-- 
2.43.0


From 5b9a0b38fc7e03aab26749b45244057c61e235c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:06 +0000
Subject: [PATCH 066/121] fix: clamp the start of a slice that lies before the
 first element

---
 tinynn/converter/operators/torch/aten.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tinynn/converter/operators/torch/aten.py b/tinynn/converter/operators/torch/aten.py
index 4555bc7..b8e0b04 100644
--- a/tinynn/converter/operators/torch/aten.py
+++ b/tinynn/converter/operators/torch/aten.py
@@ -1986,10 +1986,10 @@ class ATenSliceOperator(ATenSliceSchema):
             end = input_tensor.tensor.shape[dim]
 
         if start < 0:
-            start += input_tensor.tensor.shape[dim]
+            start = max(start + input_tensor.tensor.shape[dim], 0)
 
         if end < 0:
-            end += input_tensor.tensor.shape[dim]
+            end = max(end + input_tensor.tensor.shape[dim], 0)
 
         if dim < 0:
             dim += input_tensor.tensor.ndim
-- 
2.43.0


From 58e7045ee68370624a6c31a4fff8201f00a1ee8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:40 +0000
Subject: [PATCH 067/121] fix: do not count the padding of a pooling layer
 twice with ceil_mode=True

---
 tinynn/converter/operators/torch/base.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/tinynn/converter/operators/torch/base.py b/tinynn/converter/operators/torch/base.py
index b3aa4ea..b79747f 100644
--- a/tinynn/converter/operators/torch/base.py
+++ b/tinynn/converter/operators/torch/base.py
@@ -530,7 +530,6 @@ class OperatorConverter(ABC):
                 assert type(ops[1]) is tfl.MaxPool2dOperator, 'ceil_mode=True for AvgPool not supported'
                 fill_nan = True
                 ceil_pad = get_pool_ceil_padding(input_tensor, kernel_size, stride, padding)
-                ceil_pad = list(np.add(ceil_pad, padding))
 
         if pad_h + pad_w > 0:
             pad = [[0, 0], [pad_h, pad_h], [pad_w, pad_w], [0, 0]]
-- 
2.43.0


From 1598a2ab65ebea7d6f6c3115d6b3920532d851b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:40 +0000
Subject: [PATCH 068/121] fix: compare divisor_override with the number of
 elements of the pooling window

---
 tinynn/converter/operators/torch/aten.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tinynn/converter/operators/torch/aten.py b/tinynn/converter/operators/torch/aten.py
index b8e0b04..2961d87 100644
--- a/tinynn/converter/operators/torch/aten.py
+++ b/tinynn/converter/operators/torch/aten.py
@@ -1044,8 +1044,8 @@ class ATenAvgPool2dOperator(ATenAvgPool2dSchema):
         count_include_pad = self.input_tensors[5] in (True, 1)
 
         assert (
-            divisor_override is None or divisor_override == kernel_h == kernel_w
-        ), "Only divisor_override == kernel_h == kernel_w is supported"
+            divisor_override is None or divisor_override == kernel_h * kernel_w
+        ), "Only divisor_override == kernel_h * kernel_w is supported"
 
         padding = tfl_schema.Padding.VALID
 
-- 
2.43.0


From d8281c0d74c9310b9a34e0354678dca0c6c9da74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:40 +0000
Subject: [PATCH 069/121] fix: divisor_override takes precedence over
 count_include_pad

---
 tinynn/converter/operators/torch/aten.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tinynn/converter/operators/torch/aten.py b/tinynn/converter/operators/torch/aten.py
index 2961d87..a7179e2 100644
--- a/tinynn/converter/operators/torch/aten.py
+++ b/tinynn/converter/operators/torch/aten.py
@@ -1064,7 +1064,7 @@ class ATenAvgPool2dOperator(ATenAvgPool2dSchema):
         ops = pre_ops + ops + post_ops
         self.handle_padding(padding_h, padding_w, 1, ops, ceil_mode)
 
-        if not count_include_pad:
+        if not count_include_pad and divisor_override is None:
             mask = 1.0 / torch.nn.functional.avg_pool2d(
                 torch.ones_like(self.input_tensors[0]),
                 (kernel_h, kernel_w),
-- 
2.43.0


From d5f907f6aeb365feefb14621cc1a633e167f4be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:40 +0000
Subject: [PATCH 070/121] fix: pad the input of 1d pooling layers after it is
 transposed

---
 tinynn/converter/operators/torch/aten.py |  4 ++--
 tinynn/converter/operators/torch/base.py | 15 ++++++++-------
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/tinynn/converter/operators/torch/aten.py b/tinynn/converter/operators/torch/aten.py
index a7179e2..6f347b7 100644
--- a/tinynn/converter/operators/torch/aten.py
+++ b/tinynn/converter/operators/torch/aten.py
@@ -1062,7 +1062,7 @@ class ATenAvgPool2dOperator(ATenAvgPool2dSchema):
             offset = -1
         ops = self.wrap_ops_with_nhwc_nchw_transposes(ops)
         ops = pre_ops + ops + post_ops
-        self.handle_padding(padding_h, padding_w, 1, ops, ceil_mode)
+        self.handle_padding(padding_h, padding_w, 1 + len(pre_ops), ops, ceil_mode)
 
         if not count_include_pad and divisor_override is None:
             mask = 1.0 / torch.nn.functional.avg_pool2d(
@@ -1519,7 +1519,7 @@ class ATenMaxPool2dOperator(ATenMaxPool2dSchema):
         ops = self.wrap_ops_with_nhwc_nchw_transposes(ops)
         ops = pre_ops + ops + post_ops
         if add_pad_op:
-            self.handle_padding(pad_h, pad_w, 1, ops, ceil_mode)
+            self.handle_padding(pad_h, pad_w, 1 + len(pre_ops), ops, ceil_mode)
 
         for op in ops:
             graph_converter.add_operator(op)
diff --git a/tinynn/converter/operators/torch/base.py b/tinynn/converter/operators/torch/base.py
index b79747f..3312c77 100644
--- a/tinynn/converter/operators/torch/base.py
+++ b/tinynn/converter/operators/torch/base.py
@@ -518,16 +518,17 @@ class OperatorConverter(ABC):
 
     def handle_padding(self, pad_h, pad_w, pad_op_index, ops, ceil_mode=False):
         fill_nan = False
+        pool_op = ops[pad_op_index]
         if ceil_mode:
-            input_tensor = ops[0].inputs[0]
-            kernel_size = [ops[1].filterHeight, ops[1].filterWidth]
-            stride = [ops[1].strideH, ops[1].strideW]
+            input_tensor = ops[pad_op_index - 1].inputs[0]
+            kernel_size = [pool_op.filterHeight, pool_op.filterWidth]
+            stride = [pool_op.strideH, pool_op.strideW]
             padding = [pad_h, pad_w]
 
             input_size = [input_tensor.shape[2], input_tensor.shape[3]]
 
             if not all((i + 2 * p - k) % s == 0 for i, p, k, s in zip(input_size, padding, kernel_size, stride)):
-                assert type(ops[1]) is tfl.MaxPool2dOperator, 'ceil_mode=True for AvgPool not supported'
+                assert type(pool_op) is tfl.MaxPool2dOperator, 'ceil_mode=True for AvgPool not supported'
                 fill_nan = True
                 ceil_pad = get_pool_ceil_padding(input_tensor, kernel_size, stride, padding)
 
@@ -538,7 +539,7 @@ class OperatorConverter(ABC):
             pad_input = ops[pad_op_index - 1].outputs[0]
 
             inputs = [pad_input, pad_tensor]
-            if type(ops[1]) is tfl.MaxPool2dOperator:
+            if type(pool_op) is tfl.MaxPool2dOperator:
                 constant_tensor = self.get_minimum_constant(pad_input)
                 inputs.append(constant_tensor)
                 pad_array = np.pad(pad_input.tensor, pad, constant_values=constant_tensor.tensor[0])
@@ -546,7 +547,7 @@ class OperatorConverter(ABC):
                 pad_array = np.pad(pad_input.tensor, pad)
 
             pad_out = self.create_transform_tensor(pad_array, quantization=pad_input.quantization)
-            ops[pad_op_index].inputs[0] = pad_out
+            pool_op.inputs[0] = pad_out
 
             if len(inputs) > 2:
                 pad_op = tfl.Padv2Operator(inputs, [pad_out])
@@ -563,7 +564,7 @@ class OperatorConverter(ABC):
 
             pad_array = np.pad(pad_input.tensor, pad, constant_values=constant_tensor.tensor[0])
             pad_out = self.create_transform_tensor(pad_array, quantization=pad_input.quantization)
-            ops[fill_nan_index].inputs[0] = pad_out
+            pool_op.inputs[0] = pad_out
 
             pad_op = tfl.Padv2Operator([pad_input, pad_tensor, constant_tensor], [pad_out])
             ops.insert(fill_nan_index, pad_op)
-- 
2.43.0


From 837050f15589b7eb17e45ddf372103582c919ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:38 +0000
Subject: [PATCH 071/121] fix: support unbatched inputs of reflection_pad1d and
 reflection_pad2d

---
 tinynn/converter/operators/torch/aten.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tinynn/converter/operators/torch/aten.py b/tinynn/converter/operators/torch/aten.py
index 6f347b7..8dc23ab 100644
--- a/tinynn/converter/operators/torch/aten.py
+++ b/tinynn/converter/operators/torch/aten.py
@@ -3092,7 +3092,8 @@ class ATenReflectionPad2dOperator(ATenReflectionPad2dSchema):
         self.run(node)
         input_tensor = self.find_or_create_input(0, graph_converter)
         pads = self.input_tensors[1]
-        tfl_pads = np.array([[0, 0], [0, 0], [pads[2], pads[3]], [pads[0], pads[1]]], dtype='int32')
+        pad_fill = [[0, 0]] * (input_tensor.tensor.ndim - 2)
+        tfl_pads = np.array(pad_fill + [[pads[2], pads[3]], [pads[0], pads[1]]], dtype='int32')
         pad_tensor = self.create_attr_tensor(tfl_pads)
 
         outputs = self.to_tfl_tensors(self.output_names, self.output_tensors)
@@ -3108,7 +3109,8 @@ class ATenReflectionPad1dOperator(ATenReflectionPad1dSchema):
         self.run(node)
         input_tensor = self.find_or_create_input(0, graph_converter)
         pads = self.input_tensors[1]
-        tfl_pads = np.array([[0, 0], [0, 0], [pads[0], pads[1]]], dtype='int32')
+        pad_fill = [[0, 0]] * (input_tensor.tensor.ndim - 1)
+        tfl_pads = np.array(pad_fill + [[pads[0], pads[1]]], dtype='int32')
         pad_tensor = self.create_attr_tensor(tfl_pads)
 
         outputs = self.to_tfl_tensors(self.output_names, self.output_tensors)
-- 
2.43.0


From f644263b41b71e9980ca1d614bc44b6237e9fa20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:38 +0000
Subject: [PATCH 072/121] fix: match the rank of a variable prelu weight with
 the tiling

---
 tinynn/converter/operators/torch/aten.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tinynn/converter/operators/torch/aten.py b/tinynn/converter/operators/torch/aten.py
index 8dc23ab..e4d052a 100644
--- a/tinynn/converter/operators/torch/aten.py
+++ b/tinynn/converter/operators/torch/aten.py
@@ -1788,7 +1788,13 @@ class ATenPreluOperator(ATenPreluSchema):
         elif input_c != weight_c:
             new_alpha = self.create_transform_tensor(np.tile(alpha_tensor.tensor, new_shape))
             if alpha_tensor.buffer is None:
-                graph_converter.add_operator(tfl.TileOperator([alpha_tensor, shape_tensor], [new_alpha]))
+                one_shape = [1] * len(new_shape)
+                one_shape_tensor = self.create_attr_tensor(np.array(one_shape, dtype='int32'))
+                alpha_reshaped = self.create_transform_tensor(np.reshape(alpha_tensor.tensor, one_shape))
+                graph_converter.add_operator(
+                    tfl.ReshapeOperator([alpha_tensor, one_shape_tensor], [alpha_reshaped], one_shape)
+                )
+                graph_converter.add_operator(tfl.TileOperator([alpha_reshaped, shape_tensor], [new_alpha]))
             else:
                 store = graph_converter.get_transform_store(alpha_tensor.name, str(input_c))
                 if store is None:
-- 
2.43.0


From 7e982f425e209d15728ef2fa6e608a797711423f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:35 +0000
Subject: [PATCH 073/121] fix: pad tensors that are not floating point with
 values of their type

---
 tinynn/converter/operators/torch/aten.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tinynn/converter/operators/torch/aten.py b/tinynn/converter/operators/torch/aten.py
index e4d052a..4334842 100644
--- a/tinynn/converter/operators/torch/aten.py
+++ b/tinynn/converter/operators/torch/aten.py
@@ -944,7 +944,7 @@ class ATenConstantPadNdOperator(ATenConstantPadNdSchema):
         if constant_value not in (0, 0.0):
             output = outputs[0]
             if output.quantization is None:
-                constant_arr = np.array([constant_value], dtype='float32')
+                constant_arr = np.array([constant_value], dtype=output.dtype)
             else:
                 float_arr = torch.tensor([constant_value], dtype=torch.float32)
                 constant_arr = torch.quantize_per_tensor(
@@ -4330,7 +4330,7 @@ class ATenPadOperator(ATenPadSchema):
         if constant_value not in (0, 0.0, None):
             output = outputs[0]
             if output.quantization is None:
-                constant_arr = np.array([constant_value], dtype='float32')
+                constant_arr = np.array([constant_value], dtype=output.dtype)
             else:
                 float_arr = torch.tensor([constant_value], dtype=torch.float32)
                 constant_arr = torch.quantize_per_tensor(
-- 
2.43.0


From 87dbd74ba81653bed6d6223a346437d65f3338bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:35 +0000
Subject: [PATCH 074/121] fix: refuse negative padding, which the target
 operator does not know

---
 tinynn/converter/operators/torch/aten.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tinynn/converter/operators/torch/aten.py b/tinynn/converter/operators/torch/aten.py
index 4334842..d28758f 100644
--- a/tinynn/converter/operators/torch/aten.py
+++ b/tinynn/converter/operators/torch/aten.py
@@ -934,6 +934,8 @@ class ATenConstantPadNdOperator(ATenConstantPadNdSchema):
         pads = self.input_tensors[1]
         constant_value = self.input_tensors[2]
 
+        assert all((p >= 0 for p in pads)), "negative padding is not supported"
+
         orig_pad = np.array(pads, dtype='int32').reshape(-1, 2)
         pad_fill = np.zeros((input_tensor.tensor.ndim - orig_pad.shape[0], 2), dtype='int32')
         pad_arr = np.flip(np.concatenate((orig_pad, pad_fill)), 0)
@@ -4320,6 +4322,8 @@ class ATenPadOperator(ATenPadSchema):
         op_cls_dict = {'constant': (tfl.PadOperator, tfl.Padv2Operator), 'reflect': (tfl.MirrorPadOperator, None)}
         assert mode in op_cls_dict, f"Unknown mode for aten::pad : {mode}"
 
+        assert all((p >= 0 for p in pads)), "negative padding is not supported"
+
         orig_pad = np.array(pads, dtype='int32').reshape(-1, 2)
         pad_fill = np.zeros((input_tensor.tensor.ndim - orig_pad.shape[0], 2), dtype='int32')
         pad_arr = np.flip(np.concatenate((orig_pad, pad_fill)), 0)
-- 
2.43.0


From 2f79fde01e2187af108bf6c73a4651836c506aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:35 +0000
Subject: [PATCH 075/121] fix: do not use SAME padding for max pooling with
 even kernels

---
 tinynn/converter/operators/torch/aten.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tinynn/converter/operators/torch/aten.py b/tinynn/converter/operators/torch/aten.py
index d28758f..7a406ae 100644
--- a/tinynn/converter/operators/torch/aten.py
+++ b/tinynn/converter/operators/torch/aten.py
@@ -1503,7 +1503,11 @@ class ATenMaxPool2dOperator(ATenMaxPool2dSchema):
         assert dilation_h == dilation_w == 1, "Only dilation == 1 is supported"
 
         add_pad_op = not (
-            stride_h == stride_w == 1 and pad_h == kernel_h // 2 and pad_w == kernel_w // 2 and not ceil_mode
+            stride_h == stride_w == 1
+            and kernel_h % 2 == kernel_w % 2 == 1
+            and pad_h == kernel_h // 2
+            and pad_w == kernel_w // 2
+            and not ceil_mode
         )
         padding = tfl_schema.Padding.SAME
         if add_pad_op:
-- 
2.43.0


From df936d420c65c93b84223c3d6dc1851f0a1302b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:44 +0000
Subject: [PATCH 076/121] fix: refuse aten::addmm with beta or alpha

---
 tinynn/converter/operators/torch/aten.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tinynn/converter/operators/torch/aten.py b/tinynn/converter/operators/torch/aten.py
index 7a406ae..8d4caa8 100644
--- a/tinynn/converter/operators/torch/aten.py
+++ b/tinynn/converter/operators/torch/aten.py
@@ -1680,6 +1680,9 @@ class ATenAddmmOperator(ATenAddmmSchema):
         bias_tensor, input_tensor, weight_tensor = [self.find_or_create_input(i, graph_converter) for i in range(3)]
         assert len(weight_tensor.shape) == 2, "Weight of AddMM should be 2D"
 
+        beta, alpha = self.input_tensors[3:5]
+        assert beta == 1 and alpha == 1, "Only beta == alpha == 1 is supported"
+
         perm = [1, 0]
         perm_tensor = self.create_attr_tensor(np.array(perm, dtype='int32'))
         weight_transformed = self.create_transform_tensor(np.transpose(weight_tensor.tensor, perm))
-- 
2.43.0


From 3b21ac06460a5cb47717aa79f48328aef38f6056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:44 +0000
Subject: [PATCH 077/121] fix: add the tensors of aten::addmm that are not bias
 vectors separately

---
 tinynn/converter/operators/torch/aten.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/tinynn/converter/operators/torch/aten.py b/tinynn/converter/operators/torch/aten.py
index 8d4caa8..1b42a89 100644
--- a/tinynn/converter/operators/torch/aten.py
+++ b/tinynn/converter/operators/torch/aten.py
@@ -1688,10 +1688,16 @@ class ATenAddmmOperator(ATenAddmmSchema):
         weight_transformed = self.create_transform_tensor(np.transpose(weight_tensor.tensor, perm))
         graph_converter.add_operator(tfl.TransposeOperator([weight_tensor, perm_tensor], [weight_transformed]))
 
-        inputs = [input_tensor, weight_transformed, bias_tensor]
         outputs = self.to_tfl_tensors(self.output_names, self.output_tensors)
         keep_dims = len(outputs[0].shape) > 2
-        graph_converter.add_operator(tfl.FullyConnectedOperator(inputs, outputs, keepNumDims=keep_dims))
+        if tuple(bias_tensor.shape) == (outputs[0].shape[-1],):
+            inputs = [input_tensor, weight_transformed, bias_tensor]
+            graph_converter.add_operator(tfl.FullyConnectedOperator(inputs, outputs, keepNumDims=keep_dims))
+        else:
+            mm_out = self.create_transform_tensor(np.matmul(input_tensor.tensor, weight_tensor.tensor))
+            inputs = [input_tensor, weight_transformed]
+            graph_converter.add_operator(tfl.FullyConnectedOperator(inputs, [mm_out], keepNumDims=keep_dims))
+            graph_converter.add_operator(tfl.AddOperator([bias_tensor, mm_out], outputs))
 
 
 class ATenStackOperator(ATenStackSchema):
-- 
2.43.0


From 0d37e3581a6d366d4710adf619419f96255a1d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:44 +0000
Subject: [PATCH 078/121] fix: refuse aten::baddbmm and aten::addbmm with beta
 or alpha

---
 tinynn/converter/operators/torch/aten.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tinynn/converter/operators/torch/aten.py b/tinynn/converter/operators/torch/aten.py
index 1b42a89..697b09c 100644
--- a/tinynn/converter/operators/torch/aten.py
+++ b/tinynn/converter/operators/torch/aten.py
@@ -4550,6 +4550,9 @@ class ATenAddbmmOperator(ATenAddbmmSchema):
             batch1_tensor.tensor.ndim == batch2_tensor.tensor.ndim == 3
         ), "batch1 and batch2 must be 3-D tensors each containing the same number of matrices"
 
+        beta, alpha = self.input_tensors[3:5]
+        assert beta == 1 and alpha == 1, "Only beta == alpha == 1 is supported"
+
         bmm_out = torch.bmm(torch.from_numpy(batch1_tensor.tensor), torch.from_numpy(batch2_tensor.tensor))
         bmm_out_tensor = self.create_transform_tensor(bmm_out)
         graph_converter.add_operator(tfl.BatchMatmulOperator([batch1_tensor, batch2_tensor], [bmm_out_tensor]))
@@ -4572,6 +4575,9 @@ class ATenBaddbmmOperator(ATenBaddbmmSchema):
             batch1_tensor.tensor.ndim == batch2_tensor.tensor.ndim == 3
         ), "batch1 and batch2 must be 3-D tensors each containing the same number of matrices"
 
+        beta, alpha = self.input_tensors[3:5]
+        assert beta == 1 and alpha == 1, "Only beta == alpha == 1 is supported"
+
         bmm_out = torch.bmm(torch.from_numpy(batch1_tensor.tensor), torch.from_numpy(batch2_tensor.tensor))
         bmm_out_tensor = self.create_transform_tensor(bmm_out)
         graph_converter.add_operator(tfl.BatchMatmulOperator([batch1_tensor, batch2_tensor], [bmm_out_tensor]))
-- 
2.43.0


From f6aa2cc324c995d226bc5d36bd68535bfeae8f48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:44 +0000
Subject: [PATCH 079/121] fix: broadcast the indices of aten::index and
 aten::index_put

---
 tinynn/converter/operators/torch/aten.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/tinynn/converter/operators/torch/aten.py b/tinynn/converter/operators/torch/aten.py
index 697b09c..e1c0134 100644
--- a/tinynn/converter/operators/torch/aten.py
+++ b/tinynn/converter/operators/torch/aten.py
@@ -2707,12 +2707,10 @@ class ATenIndexOperator(ATenIndexSchema):
 
             dim = input_tensor.tensor.ndim
 
-            indices_shape = [x.tensor.size for x in indices_tensors]
-            max_len = max(indices_shape)
-            indices_shape_tensor = torch.tensor(indices_shape)
-            left_indices = (
-                torch.arange(max_len).view(-1, 1).expand(-1, len(indices_shape)) % indices_shape_tensor
-            ).int()
+            indices_shape = [x.tensor.shape for x in indices_tensors]
+            # positions of the elements of the broadcast indices in the original ones
+            positions = np.broadcast_arrays(*[np.arange(x.tensor.size).reshape(x.tensor.shape) for x in indices_tensors])
+            left_indices = torch.from_numpy(np.stack([x.ravel() for x in positions], 1)).int()
             all_indices_shape = list(outputs[0].shape) + [dim]
 
             if len(indices_tensors) < dim:
@@ -3539,10 +3537,10 @@ class ATenIndexPutOperator(ATenIndexPutSchema):
 
         dim = input_tensor.tensor.ndim
 
-        indices_shape = [x.tensor.size for x in indices_tensors]
-        max_len = max(indices_shape)
-        indices_shape_tensor = torch.tensor(indices_shape)
-        left_indices = (torch.arange(max_len).view(-1, 1).expand(-1, len(indices_shape)) % indices_shape_tensor).int()
+        indices_shape = [x.tensor.shape for x in indices_tensors]
+        # positions of the elements of the broadcast indices in the original ones
+        positions = np.broadcast_arrays(*[np.arange(x.tensor.size).reshape(x.tensor.shape) for x in indices_tensors])
+        left_indices = torch.from_numpy(np.stack([x.ravel() for x in positions], 1)).int()
 
         if len(indices_tensors) < dim:
             pad_shape = list(input_tensor.shape[len(indices_tensors) :])
-- 
2.43.0


From 9d0291f43b84924739661bc6b9d0df83c4993459 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:44 +0000
Subject: [PATCH 080/121] fix: count constant negative indices from the end in
 aten::index and aten::index_put

---
 tinynn/converter/operators/torch/aten.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tinynn/converter/operators/torch/aten.py b/tinynn/converter/operators/torch/aten.py
index e1c0134..b22a35f 100644
--- a/tinynn/converter/operators/torch/aten.py
+++ b/tinynn/converter/operators/torch/aten.py
@@ -2735,6 +2735,7 @@ class ATenIndexOperator(ATenIndexSchema):
                 if i < len(indices_tensors):
                     idx_tensor = indices_tensors[i]
                     actual_idx = np.take(idx_tensor.tensor, all_indices[i].numpy())
+                    actual_idx = np.where(actual_idx < 0, actual_idx + input_tensor.shape[i], actual_idx)
                 else:
                     actual_idx = all_indices[i].numpy()
                 if idx_tensor.buffer is None and i < len(indices_tensors):
@@ -3560,6 +3561,7 @@ class ATenIndexPutOperator(ATenIndexPutSchema):
             if i < len(indices_tensors):
                 idx_tensor = indices_tensors[i]
                 actual_idx = np.take(idx_tensor.tensor, all_indices[i].numpy())
+                actual_idx = np.where(actual_idx < 0, actual_idx + input_tensor.shape[i], actual_idx)
             else:
                 actual_idx = all_indices[i].numpy()
             if idx_tensor.buffer is None and i < len(indices_tensors):
-- 
2.43.0


From f7f2800a436c2a2a2cfc03fde9b4aea3e94ae23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:44 +0000
Subject: [PATCH 081/121] fix: subtract the old values at run time in
 aten::index_put

---
 tinynn/converter/operators/torch/aten.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tinynn/converter/operators/torch/aten.py b/tinynn/converter/operators/torch/aten.py
index b22a35f..4f763d8 100644
--- a/tinynn/converter/operators/torch/aten.py
+++ b/tinynn/converter/operators/torch/aten.py
@@ -3631,7 +3631,7 @@ class ATenIndexPutOperator(ATenIndexPutSchema):
             transformed_index = tuple(index_tensor.tensor[..., i] for i in range(index_tensor.shape[-1]))
             old_val_tensor = self.create_attr_tensor(input_tensor.tensor[transformed_index])
 
-        if actual_val.buffer is None:
+        if actual_val.buffer is None or old_val_tensor.buffer is None:
             update_tensor = self.create_transform_tensor(actual_val.tensor - old_val_tensor.tensor)
             graph_converter.add_operator(tfl.SubOperator([actual_val, old_val_tensor], [update_tensor]))
         else:
-- 
2.43.0


From c1948249341dbce4fac7d5cdc721c532e9440f4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:44 +0000
Subject: [PATCH 082/121] fix: assign values of more than one dimension in
 aten::index_put

---
 tinynn/converter/operators/torch/aten.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/tinynn/converter/operators/torch/aten.py b/tinynn/converter/operators/torch/aten.py
index 4f763d8..5933a52 100644
--- a/tinynn/converter/operators/torch/aten.py
+++ b/tinynn/converter/operators/torch/aten.py
@@ -3594,7 +3594,8 @@ class ATenIndexPutOperator(ATenIndexPutSchema):
         val_tensor = self.find_or_create_input(2, graph_converter)
         actual_val = val_tensor
         orig_val_shape = val_tensor.shape
-        target_val_shape = index_tensor.shape[:-1]
+        target_val_shape = positions[0].shape + tuple(input_tensor.shape[len(indices_tensors) :])
+        flat_val_shape = index_tensor.shape[:-1]
         if orig_val_shape != target_val_shape:
             if val_tensor.buffer is None:
                 new_shape = orig_val_shape
@@ -3622,6 +3623,18 @@ class ATenIndexPutOperator(ATenIndexPutSchema):
             else:
                 actual_val = self.create_attr_tensor(np.broadcast_to(val_tensor.tensor, target_val_shape))
 
+        if target_val_shape != flat_val_shape:
+            if actual_val.buffer is None:
+                flat_shape_arr = np.array(flat_val_shape, dtype='int32')
+                flat_val = self.create_transform_tensor(np.reshape(actual_val.tensor, flat_shape_arr))
+                flat_shape_tensor = self.create_attr_tensor(flat_shape_arr)
+                graph_converter.add_operator(
+                    tfl.ReshapeOperator([actual_val, flat_shape_tensor], [flat_val], flat_shape_arr)
+                )
+                actual_val = flat_val
+            else:
+                actual_val = self.create_attr_tensor(np.reshape(actual_val.tensor, flat_val_shape))
+
         shape_tensor = self.create_attr_tensor(np.array(input_tensor.shape, dtype='int32'))
 
         if input_tensor.buffer is None or index_tensor.buffer is None:
-- 
2.43.0


From 264b320dda0e8ca1887bb43849fd36cee56346c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:34 +0000
Subject: [PATCH 083/121] fix: return the final states of both directions in
 quantizable GRU

---
 tinynn/graph/quantization/quantizable/gru.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tinynn/graph/quantization/quantizable/gru.py b/tinynn/graph/quantization/quantizable/gru.py
index 135b4ff..0d308b3 100644
--- a/tinynn/graph/quantization/quantizable/gru.py
+++ b/tinynn/graph/quantization/quantizable/gru.py
@@ -218,7 +218,7 @@ if LooseVersion(torch.__version__) >= '1.13.0':
                 elif hidden_bw is None:
                     h = torch.jit._unwrap_optional(hidden_bw)
                 else:
-                    h = torch.stack([hidden_fw[0], hidden_bw[0]], 0)  # type: ignore[list-item]
+                    h = torch.stack([hidden_fw, hidden_bw], 0)  # type: ignore[list-item]
             else:
                 result = result_fw
                 h = torch.jit._unwrap_optional(hidden_fw)  # type: ignore[assignment]
-- 
2.43.0


From 0a385cc9a7e3ab914344332aea292b25f0db7a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:35 +0000
Subject: [PATCH 084/121] fix: set the common options in NetAdaptPruner

---
 tinynn/prune/netadapt_pruner.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tinynn/prune/netadapt_pruner.py b/tinynn/prune/netadapt_pruner.py
index c5abcc8..8ba17ff 100644
--- a/tinynn/prune/netadapt_pruner.py
+++ b/tinynn/prune/netadapt_pruner.py
@@ -89,6 +89,11 @@ class NetAdaptPruner(OneShotChannelPruner):
         else:
             raise Exception(f'{metrics} is not a known metrics for {type(self).__name__}')
 
+        self.skip_last_fc = self.config.get('skip_last_fc', True)
+        self.multiple = self.config.get('multiple', None)
+        self.bn_compensation = self.config.get('bn_compensation', self.bn_compensation)
+        self.exclude_ops = list(self.config.get('exclude_ops', []))
+
         budget = None
         budget_ratio = None
 
-- 
2.43.0


From 370e0c5050f1be8e26752613075c742d7024e0d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:35 +0000
Subject: [PATCH 085/121] fix: keep the sparsity given for the last fc layer
 when it equals the default one

---
 tinynn/prune/oneshot_pruner.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tinynn/prune/oneshot_pruner.py b/tinynn/prune/oneshot_pruner.py
index 52d93c6..5e8131b 100644
--- a/tinynn/prune/oneshot_pruner.py
+++ b/tinynn/prune/oneshot_pruner.py
@@ -45,6 +45,8 @@ class OneShotChannelPruner(BasePruner):
         self.bn_compensation = False
         self.parse_config()
 
+        specified_ops = set(self.sparsity)
+
         for n in self.graph.forward_nodes:
             # Only prune the specific operators
             if (
@@ -65,7 +67,7 @@ class OneShotChannelPruner(BasePruner):
 
         # 除非人工指定了剪枝率，否则当最后一个中心节点是linear时不对其进行剪枝（通常网络最后的全连接层与类别数量有关）
         if self.skip_last_fc and last_center_node.type() in [nn.Linear]:
-            if self.sparsity[last_center_node.unique_name] == self.default_sparsity:
+            if last_center_node.unique_name not in specified_ops:
                 self.sparsity[last_center_node.unique_name] = 0.0
 
         self.graph_modifier = modifier.GraphChannelModifier(self.graph, self.center_nodes, self.bn_compensation)
-- 
2.43.0


From 262403d3e522cdb625f855522e46ce9c9fde6010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:35 +0000
Subject: [PATCH 086/121] fix: reject sparsity that is not in [0, 1]

---
 tinynn/prune/oneshot_pruner.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tinynn/prune/oneshot_pruner.py b/tinynn/prune/oneshot_pruner.py
index 5e8131b..5d797c0 100644
--- a/tinynn/prune/oneshot_pruner.py
+++ b/tinynn/prune/oneshot_pruner.py
@@ -118,6 +118,10 @@ class OneShotChannelPruner(BasePruner):
         if not hasattr(self, 'default_sparsity'):
             raise Exception(f'Please specify a default sparsity using the key `default` for {type(self).__name__}')
 
+        for value in [self.default_sparsity, *self.sparsity.values()]:
+            if value < 0 or value > 1:
+                raise Exception('The value of `sparsity` doesn\'t meet the requirement: 0 <= x <= 1')
+
         if hasattr(modifier, metrics):
             self.metric_func = getattr(modifier, metrics)
         else:
-- 
2.43.0


From 3c6953b8511e8a8233d60bb3caeaa66a8bc215d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:35 +0000
Subject: [PATCH 087/121] fix: reject metrics that are other names of the
 modifier module

---
 tinynn/graph/modifier.py        | 4 ++++
 tinynn/prune/netadapt_pruner.py | 4 ++--
 tinynn/prune/oneshot_pruner.py  | 4 ++--
 3 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/tinynn/graph/modifier.py b/tinynn/graph/modifier.py
index fb19563..0e16d96 100644
--- a/tinynn/graph/modifier.py
+++ b/tinynn/graph/modifier.py
@@ -146,6 +146,10 @@ def fpgm(tensor, module):
     return torch.cdist(batched_weight, batched_weight, p=2).abs().sum(0)
 
 
+# The functions that can be specified through `metrics` in the configuration of the pruners
+METRICS = {'random': random, 'l1_norm': l1_norm, 'l2_norm': l2_norm, 'fpgm': fpgm}
+
+
 def is_dw_conv(module):
     """Check whether the model is depth-wise convolution"""
     if isinstance(module, (nn.Conv2d, nn.ConvTranspose2d, nn.Conv1d, nn.ConvTranspose1d)):
diff --git a/tinynn/prune/netadapt_pruner.py b/tinynn/prune/netadapt_pruner.py
index 8ba17ff..cae85ba 100644
--- a/tinynn/prune/netadapt_pruner.py
+++ b/tinynn/prune/netadapt_pruner.py
@@ -84,8 +84,8 @@ class NetAdaptPruner(OneShotChannelPruner):
                 setattr(self, param_key, self.config[param_key])
 
         metrics = self.config['metrics']
-        if hasattr(modifier, metrics):
-            self.metric_func = getattr(modifier, metrics)
+        if metrics in modifier.METRICS:
+            self.metric_func = modifier.METRICS[metrics]
         else:
             raise Exception(f'{metrics} is not a known metrics for {type(self).__name__}')
 
diff --git a/tinynn/prune/oneshot_pruner.py b/tinynn/prune/oneshot_pruner.py
index 5d797c0..6b0d403 100644
--- a/tinynn/prune/oneshot_pruner.py
+++ b/tinynn/prune/oneshot_pruner.py
@@ -122,8 +122,8 @@ class OneShotChannelPruner(BasePruner):
             if value < 0 or value > 1:
                 raise Exception('The value of `sparsity` doesn\'t meet the requirement: 0 <= x <= 1')
 
-        if hasattr(modifier, metrics):
-            self.metric_func = getattr(modifier, metrics)
+        if metrics in modifier.METRICS:
+            self.metric_func = modifier.METRICS[metrics]
         else:
             raise Exception(f'{metrics} is not a known metrics for {type(self).__name__}')
 
-- 
2.43.0


From b19e1c2e13e94eb672758f2b7d20c96d0ac4a981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:14 +0000
Subject: [PATCH 088/121] fix: install per-channel weight fake quantizers for
 fbgemm QAT on PyTorch 1.13+

---
 tinynn/graph/quantization/quantizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tinynn/graph/quantization/quantizer.py b/tinynn/graph/quantization/quantizer.py
index 43a0099..7d80a97 100644
--- a/tinynn/graph/quantization/quantizer.py
+++ b/tinynn/graph/quantization/quantizer.py
@@ -766,7 +766,7 @@ class QATQuantizer(object):
         if not self.legacy_fq:
             qconfig = torch_q.get_default_qat_qconfig(actual_backend)
         else:
-            if LooseVersion(torch.__version__) >= '1.13.0':
+            if LooseVersion(torch.__version__) >= '1.13.0' and actual_backend == 'qnnpack':
                 # See https://github.com/pytorch/pytorch/pull/88876
                 qconfig = torch_q.QConfig(
                     activation=torch_q.FakeQuantize.with_args(
-- 
2.43.0


From 7710f6c4be36b15f2df3fff8f3eb2b2614a422ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:14 +0000
Subject: [PATCH 089/121] fix: apply the per-channel qconfig for the onnx and
 tensorrt backends

---
 tinynn/graph/quantization/quantizer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tinynn/graph/quantization/quantizer.py b/tinynn/graph/quantization/quantizer.py
index 7d80a97..e5d09f3 100644
--- a/tinynn/graph/quantization/quantizer.py
+++ b/tinynn/graph/quantization/quantizer.py
@@ -845,7 +845,7 @@ class QATQuantizer(object):
 
         torch.backends.quantized.engine = actual_backend
         graph.module.qconfig = qconfig
-        if self.backend == 'qnnpack':
+        if self.backend in ('qnnpack', 'onnx', 'tensorrt'):
             if qconfig_c is not None:
                 q = queue.Queue()
                 q.put(graph.module)
@@ -3752,7 +3752,7 @@ class PostQuantizer(QATQuantizer):
 
         torch.backends.quantized.engine = backend
         graph.module.qconfig = qconfig
-        if self.backend == 'qnnpack':
+        if self.backend in ('qnnpack', 'onnx', 'tensorrt'):
             if qconfig_c is not None:
                 q = queue.Queue()
                 q.put(graph.module)
-- 
2.43.0


From cc98cd76a88d0f2e60c63edf28b139e2f74338cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:32 +0000
Subject: [PATCH 090/121] fix: use the KL observer for the layers with their
 own qconfig, too

---
 tinynn/graph/quantization/quantizer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tinynn/graph/quantization/quantizer.py b/tinynn/graph/quantization/quantizer.py
index e5d09f3..2fd7454 100644
--- a/tinynn/graph/quantization/quantizer.py
+++ b/tinynn/graph/quantization/quantizer.py
@@ -3749,6 +3749,8 @@ class PostQuantizer(QATQuantizer):
                     qconfig = torch_q.QConfig(alg_sym_fq, qconfig.weight)
                 else:
                     qconfig = torch_q.QConfig(alg_asym_fq, qconfig.weight)
+                if qconfig_c is not None:
+                    qconfig_c = torch_q.QConfig(qconfig.activation, qconfig_c.weight)
 
         torch.backends.quantized.engine = backend
         graph.module.qconfig = qconfig
-- 
2.43.0


From a1ae0d600cb126d133b25ee1cb9a81495373c99c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:07 +0000
Subject: [PATCH 091/121] fix: serialise the string options of
 VarHandleOperator as strings

---
 tinynn/converter/operators/tflite/generated_ops.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tinynn/converter/operators/tflite/generated_ops.py b/tinynn/converter/operators/tflite/generated_ops.py
index 5dfcf2b..0c08629 100644
--- a/tinynn/converter/operators/tflite/generated_ops.py
+++ b/tinynn/converter/operators/tflite/generated_ops.py
@@ -1,7 +1,7 @@
 import flatbuffers
 
 from ...schemas.tflite import schema_generated as tflite
-from . import BaseOperator, Offset, create_byte_array, create_numpy_array
+from . import BaseOperator, Offset, create_byte_array, create_numpy_array, create_string
 
 
 class AddOperator(BaseOperator):
@@ -3734,14 +3734,14 @@ class Conv3dTransposeOperator(BaseOperator):
 
 
 class VarHandleOperator(BaseOperator):
-    def __init__(self, inputs, outputs, container=(), sharedName=()) -> None:
+    def __init__(self, inputs, outputs, container='', sharedName='') -> None:
         super().__init__(tflite.BuiltinOperator.VAR_HANDLE, inputs, outputs)
         self.container = container
         self.sharedName = sharedName
 
     def build(self, builder: flatbuffers.Builder) -> Offset:
-        container = create_numpy_array(builder, tflite.VarHandleOptions.Container, self.container)
-        sharedName = create_numpy_array(builder, tflite.VarHandleOptions.SharedName, self.sharedName)
+        container = create_string(builder, tflite.VarHandleOptions.Container, self.container)
+        sharedName = create_string(builder, tflite.VarHandleOptions.SharedName, self.sharedName)
         tflite.VarHandleOptionsStart(builder)
         tflite.VarHandleOptionsAddContainer(builder, container)
         tflite.VarHandleOptionsAddSharedName(builder, sharedName)
-- 
2.43.0


From 2fe03b0d8deedf470d8154c7b3fafd27a7286ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:53 +0000
Subject: [PATCH 092/121] fix: restore the mode of every submodule after error
 analysis

---
 tinynn/util/quantization_analysis_util.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/tinynn/util/quantization_analysis_util.py b/tinynn/util/quantization_analysis_util.py
index c47b8a9..1a6e0fb 100644
--- a/tinynn/util/quantization_analysis_util.py
+++ b/tinynn/util/quantization_analysis_util.py
@@ -90,7 +90,7 @@ def layer_error_analysis(q_model: nn.Module, dummy_input, metric: str = 'cosine'
         model = q_model
     metric_fn = METRIC_DICT[metric]
 
-    train_flag = model.training
+    train_modes = {m: m.training for m in model.modules()}
     model.eval()
     with torch.no_grad():
         modules_list = {}
@@ -171,8 +171,8 @@ def layer_error_analysis(q_model: nn.Module, dummy_input, metric: str = 'cosine'
         for m, v in observer_enabled_dict.items():
             m.observer_enabled = v
 
-    if train_flag:
-        model.train()
+    for m, training in train_modes.items():
+        m.training = training
 
 
 def graph_error_analysis(q_model: nn.Module, dummy_input, metric: str = 'cosine'):
@@ -190,7 +190,7 @@ def graph_error_analysis(q_model: nn.Module, dummy_input, metric: str = 'cosine'
         model = q_model
     metric_fn = METRIC_DICT[metric]
 
-    train_flag = model.training
+    train_modes = {m: m.training for m in model.modules()}
     model.eval()
 
     with torch.no_grad():
@@ -264,8 +264,8 @@ def graph_error_analysis(q_model: nn.Module, dummy_input, metric: str = 'cosine'
         for m, v in observer_enabled_dict.items():
             m.observer_enabled = v
 
-    if train_flag:
-        model.train()
+    for m, training in train_modes.items():
+        m.training = training
 
 
 def get_weight_dis(
-- 
2.43.0


From 9c9c13109b251c3dfa4c2cd9ace4319a17182eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:53 +0000
Subject: [PATCH 093/121] fix: restore the mode of every submodule after
 QATQuantizer.error_analysis

---
 tinynn/graph/quantization/quantizer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tinynn/graph/quantization/quantizer.py b/tinynn/graph/quantization/quantizer.py
index 2fd7454..329911b 100644
--- a/tinynn/graph/quantization/quantizer.py
+++ b/tinynn/graph/quantization/quantizer.py
@@ -3144,6 +3144,7 @@ class QATQuantizer(object):
                 if dummy_input.device != device:
                     actual_input[i] = dummy_input.to(device)
 
+        train_modes = {m: m.training for m in model.modules()}
         model.eval()
 
         with torch.no_grad():
@@ -3206,7 +3207,8 @@ class QATQuantizer(object):
         for m, v in observer_enabled_dict.items():
             m.observer_enabled = v
 
-        model.train()
+        for m, training in train_modes.items():
+            m.training = training
 
     def restore_to_original(self, q_model: nn.Module):
         """Restores a QAT/PTQ-converted model to original state
-- 
2.43.0


From b5635ad989a1885fd4ea85ad8b62f5084ce48eda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:53 +0000
Subject: [PATCH 094/121] fix: restore the mode of submodules that are shared

---
 tinynn/graph/quantization/quantizer.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/tinynn/graph/quantization/quantizer.py b/tinynn/graph/quantization/quantizer.py
index 329911b..29fd00e 100644
--- a/tinynn/graph/quantization/quantizer.py
+++ b/tinynn/graph/quantization/quantizer.py
@@ -449,10 +449,7 @@ class QATQuantizer(object):
             model = self.model
 
         for m, training in self.train_mode_dict.items():
-            if training:
-                m.train()
-            else:
-                m.eval()
+            m.training = training
 
         self.train_mode_dict.clear()
 
-- 
2.43.0


From 8bf4da8839632c39ca632592b95fe4d1563e3075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:53 +0000
Subject: [PATCH 095/121] fix: keep the quantized_op_stats given by the user

---
 tinynn/graph/quantization/quantizer.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/tinynn/graph/quantization/quantizer.py b/tinynn/graph/quantization/quantizer.py
index 29fd00e..e811d64 100644
--- a/tinynn/graph/quantization/quantizer.py
+++ b/tinynn/graph/quantization/quantizer.py
@@ -1042,9 +1042,7 @@ class QATQuantizer(object):
             self.prepare_quantized_inputs_pass(graph)
 
         if self.set_quantizable_op_stats:
-            if self.quantized_op_stats is None:
-                self.quantized_op_stats = {}
-            self.quantized_op_stats.update(KNOWN_QSTATS)
+            self.quantized_op_stats = {**KNOWN_QSTATS, **(self.quantized_op_stats or {})}
 
         if self.quantized_op_stats is not None:
             self.prepare_quantized_ops_pass(graph)
@@ -3918,9 +3916,7 @@ class PostQuantizer(QATQuantizer):
             self.prepare_quantized_inputs_pass(graph)
 
         if self.set_quantizable_op_stats:
-            if self.quantized_op_stats is None:
-                self.quantized_op_stats = {}
-            self.quantized_op_stats.update(KNOWN_QSTATS)
+            self.quantized_op_stats = {**KNOWN_QSTATS, **(self.quantized_op_stats or {})}
 
         if self.quantized_op_stats is not None:
             self.prepare_quantized_ops_pass(graph)
-- 
2.43.0


From 0e4181eab35ab9e8f2e163a4fc4d0b8831e5b9c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:53 +0000
Subject: [PATCH 096/121] fix: restore the mode of every submodule after
 checking the generated code

---
 tinynn/graph/tracer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tinynn/graph/tracer.py b/tinynn/graph/tracer.py
index 31b9f36..f278694 100644
--- a/tinynn/graph/tracer.py
+++ b/tinynn/graph/tracer.py
@@ -2503,7 +2503,7 @@ class TraceGraph(object):
                 f.write(code)
 
             if check:
-                training_state = self.module.training
+                train_modes = {m: m.training for m in self.module.modules()}
                 valid = True
 
                 with torch.no_grad():
@@ -2525,8 +2525,8 @@ class TraceGraph(object):
                             log.warning(f"[WARNING] Output {i} is not equal.")
                             valid = False
 
-                if training_state:
-                    self.module.train()
+                for m, training in train_modes.items():
+                    m.training = training
 
                 return valid
         else:
-- 
2.43.0


From 057f5543b0c6a401d36ae97142e5df3d8712176c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:23 +0000
Subject: [PATCH 097/121] fix: remove the wrappers of inherited methods when
 the modules are unpatched

---
 tinynn/graph/tracer.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/tinynn/graph/tracer.py b/tinynn/graph/tracer.py
index f278694..b4facd8 100644
--- a/tinynn/graph/tracer.py
+++ b/tinynn/graph/tracer.py
@@ -1317,10 +1317,13 @@ def patch_modules(objects, names, gens):
         names = (names,)
         gens = (gens,)
     pre_patched_values = {}
+    inherited_keys = set()
     for obj in objects:
         for name, gen in zip(names, gens):
             key = qualified_name(obj, name, short=True)
             pre_patched_values[key] = getattr(obj, name)
+            if name not in vars(obj):
+                inherited_keys.add(key)
             generated_wrapper_modules.setdefault(key, gen(pre_patched_values[key], key))
             if key == 'torch.Size.__new__':
                 pre_patched_values[key] = patch_new(obj, generated_wrapper_modules[key])
@@ -1336,6 +1339,8 @@ def patch_modules(objects, names, gens):
                 pre_patched_value = pre_patched_values[key]
                 if key == 'torch.Size.__new__':
                     revert_new(obj, pre_patched_value)
+                elif key in inherited_keys:
+                    delattr(obj, name)
                 else:
                     setattr(obj, name, pre_patched_value)
 
-- 
2.43.0


From 8e9cc8beef4f37101f2a23a188db9028aa4c18fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:49 +0000
Subject: [PATCH 098/121] fix: release the tracing lock when the traced model
 raises

---
 tinynn/graph/tracer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tinynn/graph/tracer.py b/tinynn/graph/tracer.py
index b4facd8..f708c52 100644
--- a/tinynn/graph/tracer.py
+++ b/tinynn/graph/tracer.py
@@ -1655,6 +1655,8 @@ def add_forward_node(node: TraceNode, input_tensors, output_tensors):
 def hook_modules(module):
     """Temporarily adds the hooks to a `nn.Module` for tracing"""
     hooks = []
+    locked = lock()
+    skipped_modules = set(skip_modules)
 
     def register_submodule_tracer(module):
         def _submodule_pre_tracer(module, input):
@@ -1764,6 +1766,8 @@ def hook_modules(module):
     finally:
         for hook in hooks:
             hook.remove()
+        lock(locked)
+        skip_modules.intersection_update(skipped_modules)
 
 
 @contextlib.contextmanager
-- 
2.43.0


From 524b20f3aa5ab92d255892b0d3a246c1a65311f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:11 +0000
Subject: [PATCH 099/121] fix: keep the default custom module mapping of
 PyTorch unchanged

---
 tinynn/graph/quantization/quantizer.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tinynn/graph/quantization/quantizer.py b/tinynn/graph/quantization/quantizer.py
index e811d64..1b13010 100644
--- a/tinynn/graph/quantization/quantizer.py
+++ b/tinynn/graph/quantization/quantizer.py
@@ -973,8 +973,8 @@ class QATQuantizer(object):
                         delattr(m, "qconfig")
 
                 prepare_custom_config_dict = torch.ao.quantization.get_default_custom_config_dict()
-                custom_module_class_mapping = prepare_custom_config_dict.get(
-                    "float_to_observed_custom_module_class", {}
+                custom_module_class_mapping = dict(
+                    prepare_custom_config_dict.get("float_to_observed_custom_module_class", {})
                 )
                 custom_module_class_mapping.update(FUSE_QAT_MODULES_CUSTOM)
                 qconfig_propagation_list = torch_q.get_default_qconfig_propagation_list()
@@ -3857,8 +3857,8 @@ class PostQuantizer(QATQuantizer):
                 else:
                     prepare_custom_config_dict = {}
 
-                custom_module_class_mapping = prepare_custom_config_dict.get(
-                    "float_to_observed_custom_module_class", {}
+                custom_module_class_mapping = dict(
+                    prepare_custom_config_dict.get("float_to_observed_custom_module_class", {})
                 )
 
                 custom_module_class_mapping.update(FUSE_PTQ_MODULES_CUSTOM)
-- 
2.43.0


From 21bd16791b204f8998f75de0ad50ed4eb1f6c481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:11 +0000
Subject: [PATCH 100/121] fix: restore GRU.from_float after the QAT preparation

---
 tinynn/graph/quantization/quantizer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tinynn/graph/quantization/quantizer.py b/tinynn/graph/quantization/quantizer.py
index 1b13010..884c83f 100644
--- a/tinynn/graph/quantization/quantizer.py
+++ b/tinynn/graph/quantization/quantizer.py
@@ -982,6 +982,7 @@ class QATQuantizer(object):
                 from .quantizable import lstm, gru
 
                 orig_from_float = torch.ao.nn.quantizable.LSTM.from_float
+                orig_gru_from_float = GRU.__dict__['from_float']
 
                 torch.ao.nn.quantizable.LSTM.from_float = lstm.from_float
                 GRU.from_float = gru.from_float
@@ -1009,6 +1010,7 @@ class QATQuantizer(object):
                     )
                 finally:
                     torch.ao.nn.quantizable.LSTM.from_float = orig_from_float
+                    GRU.from_float = orig_gru_from_float
                     sys.modules['torch.ao.quantization.quantize'].no_observer_set = orig_no_observer_set
 
             else:
-- 
2.43.0


From 5f2ddd158595523be67ba110b5d02f7144a56bc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:11 +0000
Subject: [PATCH 101/121] fix: restore the float module types when the
 conversion fails

---
 tinynn/graph/quantization/quantizer.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/tinynn/graph/quantization/quantizer.py b/tinynn/graph/quantization/quantizer.py
index 884c83f..f8b8a21 100644
--- a/tinynn/graph/quantization/quantizer.py
+++ b/tinynn/graph/quantization/quantizer.py
@@ -3311,12 +3311,13 @@ class QATQuantizer(object):
                     float_mods[q_t] = float_mod
                     setattr(q_t, '_FLOAT_MODULE', qat_t)
 
-            q_model = torch.quantization.convert(q_model, mapping)
+            try:
+                q_model = torch.quantization.convert(q_model, mapping)
+            finally:
+                for q_t, orig_t in float_mods.items():
+                    setattr(q_t, '_FLOAT_MODULE', orig_t)
 
-            for q_t, orig_t in float_mods.items():
-                setattr(q_t, '_FLOAT_MODULE', orig_t)
-
-            float_mods.clear()
+                float_mods.clear()
         else:
             q_model = torch.quantization.convert(q_model)
 
-- 
2.43.0


From 32036a30306598d5ba598691321fbbc00c8bda8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:30 +0000
Subject: [PATCH 102/121] fix: restore LSTM.from_float as the class method it
 was

---
 tinynn/graph/quantization/quantizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tinynn/graph/quantization/quantizer.py b/tinynn/graph/quantization/quantizer.py
index f8b8a21..8109806 100644
--- a/tinynn/graph/quantization/quantizer.py
+++ b/tinynn/graph/quantization/quantizer.py
@@ -981,7 +981,7 @@ class QATQuantizer(object):
 
                 from .quantizable import lstm, gru
 
-                orig_from_float = torch.ao.nn.quantizable.LSTM.from_float
+                orig_from_float = torch.ao.nn.quantizable.LSTM.__dict__['from_float']
                 orig_gru_from_float = GRU.__dict__['from_float']
 
                 torch.ao.nn.quantizable.LSTM.from_float = lstm.from_float
-- 
2.43.0


From 375ae3241f6b256c6d535894d977d9ca2cadb175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:29 +0000
Subject: [PATCH 103/121] fix: do not index the result of the node inserted
 before a function when the index is moved to that node

---
 tinynn/graph/tracer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tinynn/graph/tracer.py b/tinynn/graph/tracer.py
index f708c52..98eb2b2 100644
--- a/tinynn/graph/tracer.py
+++ b/tinynn/graph/tracer.py
@@ -2933,7 +2933,7 @@ class TraceGraph(object):
                 new_node.prev_tensors.append(t)
                 new_node.next_tensors.append(new_t)
                 new_node.prev_indices.append(ind if move_idx else n_ind)
-                index_mapping.append((ind, new_node.prev_indices[-1]))
+                index_mapping.append((ind, None if move_idx else n_ind))
 
         # Make output nodes connects to the new node
         node.prev_nodes.clear()
-- 
2.43.0


From d498966c51fde25da0820dcb77981ef2f10d2072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:29 +0000
Subject: [PATCH 104/121] fix: redirect only the operands that were moved when
 inserting between nodes with several common tensors

---
 tinynn/graph/tracer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tinynn/graph/tracer.py b/tinynn/graph/tracer.py
index 98eb2b2..644ce21 100644
--- a/tinynn/graph/tracer.py
+++ b/tinynn/graph/tracer.py
@@ -2820,8 +2820,9 @@ class TraceGraph(object):
             new_node.prev_indices.append(pidx if move_idx else None)
 
         # Make output nodes connects to the new node
-        for idx in range(len(next_node.prev_nodes) - remaining_count):
-            if next_node.prev_nodes[idx] == prev_node:
+        moved_ptrs = set(id(t) for t in prev_tensors)
+        for idx, n in enumerate(next_node.prev_nodes):
+            if n == prev_node and (remaining_count == 0 or id(next_node.prev_tensors[idx]) in moved_ptrs):
                 next_node.prev_nodes[idx] = new_node
 
         # Update tensors in output nodes
-- 
2.43.0


From 37863fa00ded4aedef29a3a7154394582f72ac80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:29 +0000
Subject: [PATCH 105/121] fix: link an existing node that is inserted between
 further nodes only once

---
 tinynn/graph/tracer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tinynn/graph/tracer.py b/tinynn/graph/tracer.py
index 644ce21..9857b76 100644
--- a/tinynn/graph/tracer.py
+++ b/tinynn/graph/tracer.py
@@ -2846,7 +2846,10 @@ class TraceGraph(object):
             else:
                 for i, n in enumerate(prev_node.next_nodes):
                     if n == next_node:
-                        prev_node.next_nodes[i] = new_node
+                        if new_node in prev_node.next_nodes:
+                            del prev_node.next_nodes[i]
+                        else:
+                            prev_node.next_nodes[i] = new_node
                         break
 
         # Update previous node name for next nodes (TraceFunction)
-- 
2.43.0


From f671a7d34ca79db18851e494d5b7d8e579d8d231 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:29 +0000
Subject: [PATCH 106/121] fix: allow replacing the module of a node that is a
 graph output

---
 tinynn/graph/tracer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tinynn/graph/tracer.py b/tinynn/graph/tracer.py
index 9857b76..2106c43 100644
--- a/tinynn/graph/tracer.py
+++ b/tinynn/graph/tracer.py
@@ -3082,7 +3082,7 @@ class TraceGraph(object):
                 for nt in node.next_tensors:
                     if id(nt) == id(pt):
                         idx = n.prev_indices[i]
-                        if type(n.module) is TraceFunction:
+                        if type(n.module) is TraceFunction and n.module.args_string is not None:
                             prev_unique_name = tensor_name_from_parts(old_unique_name, idx, is_constant_node)
                             next_unique_name = tensor_name_from_parts(node.unique_name, idx, is_new_constant_node)
                             log.debug(f'node rename: {prev_unique_name} -> {next_unique_name}')
-- 
2.43.0


From 4ac82f4a546d9ed4a8bc95bd3bad966bbed2dc92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:29 +0000
Subject: [PATCH 107/121] fix: allow fusing nodes whose result is a graph
 output

---
 tinynn/graph/tracer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tinynn/graph/tracer.py b/tinynn/graph/tracer.py
index 2106c43..882736d 100644
--- a/tinynn/graph/tracer.py
+++ b/tinynn/graph/tracer.py
@@ -3145,7 +3145,7 @@ class TraceGraph(object):
                             if id(pt) == id(nt):
                                 idx = n.prev_indices[i]
                                 # Rewrite func calls in next nodes
-                                if type(n.module) is TraceFunction:
+                                if type(n.module) is TraceFunction and n.module.args_string is not None:
                                     old_unique_name = tensor_name_from_parts(last_node_unique_name, idx, False)
                                     new_unique_name = tensor_name_from_parts(first_node_unique_name, idx, False)
                                     n.module.replace_tensor_name(old_unique_name, new_unique_name)
-- 
2.43.0


From 7f88d38393246a16f12eb1b2b0c0af6d19b16530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:29 +0000
Subject: [PATCH 108/121] fix: feed the new inputs of an extracted subgraph to
 the functions it starts with

---
 tinynn/graph/tracer.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/tinynn/graph/tracer.py b/tinynn/graph/tracer.py
index 882736d..96ac002 100644
--- a/tinynn/graph/tracer.py
+++ b/tinynn/graph/tracer.py
@@ -2211,18 +2211,31 @@ class TraceGraph(object):
 
         for node in self.input_nodes + self.output_nodes:
             del self.nodes_map[node.unique_name]
+            node.active = False
 
         self.input_nodes.clear()
         self.output_nodes.clear()
 
         with self.__numbering_context():
+            new_input_nodes = {}
             for node in input_nodes:
                 node.prev_nodes.clear()
                 for i, t in enumerate(node.prev_tensors):
-                    with override_current_trace_graph(self):
-                        new_node = TraceNode(TraceFunction("input"))
-                        add_input_node(new_node, t)
+                    if id(t) not in new_input_nodes:
+                        with override_current_trace_graph(self):
+                            new_node = TraceNode(TraceFunction("input"))
+                            add_input_node(new_node, t)
+                        self.tensor_pre_index_dict.pop(id(t), None)
+                        new_input_nodes[id(t)] = new_node
+                    new_node = new_input_nodes[id(t)]
                     node.prev_nodes.append(new_node)
+                    node.prev_indices[i] = None
+                    # Since the function calls are rendered beforehand,
+                    # we need to change them as well.
+                    if type(node.module) is TraceFunction:
+                        node.module.update_tensor_name(i, new_node.unique_name)
+                if type(node.module) is TraceFunction:
+                    node.module.update_args_string()
 
             for node in output_nodes:
                 node.next_nodes.clear()
-- 
2.43.0


From cda46c07a79dcde9ec648cc7ae33c046129efbab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:29 +0000
Subject: [PATCH 109/121] fix: drop the links to eliminated nodes

---
 tinynn/graph/tracer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tinynn/graph/tracer.py b/tinynn/graph/tracer.py
index 96ac002..959e162 100644
--- a/tinynn/graph/tracer.py
+++ b/tinynn/graph/tracer.py
@@ -2104,6 +2104,10 @@ class TraceGraph(object):
         self.forward_nodes = active_forward_nodes
         self.constant_nodes = list(active_constant_nodes.values())
 
+        # Drop the links to the nodes that are no longer in the graph
+        for n in self.input_nodes + self.constant_nodes + self.forward_nodes:
+            n.next_nodes = [next_node for next_node in n.next_nodes if next_node.active]
+
     def add_inputs_for_tensors(self, input_tensors):
         """Add input nodes for specific tensors"""
         with self.__numbering_context():
-- 
2.43.0


From c8197761cdf62ff34c42ef4928159c9322fd9a70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:51 +0000
Subject: [PATCH 110/121] fix: record the indices of the results of a node
 inserted after a multi-output node

---
 tinynn/graph/tracer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tinynn/graph/tracer.py b/tinynn/graph/tracer.py
index 959e162..fedb6bf 100644
--- a/tinynn/graph/tracer.py
+++ b/tinynn/graph/tracer.py
@@ -2681,6 +2681,8 @@ class TraceGraph(object):
             if new_t is None:
                 new_t = t.clone()
             self.tensor_pre_node_dict[id(new_t)] = new_node.unique_name
+            if id(t) in self.tensor_pre_index_dict:
+                self.tensor_pre_index_dict[id(new_t)] = self.tensor_pre_index_dict[id(t)]
             new_node.prev_tensors.append(t)
             new_node.next_tensors.append(new_t)
             new_node.prev_indices.append(None)
-- 
2.43.0


From 96fbed44de694fd2ce78668c266e11d6fc359496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:26 +0000
Subject: [PATCH 111/121] fix: rewrite divisions by constants in any notation

---
 tinynn/graph/quantization/quantizer.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/tinynn/graph/quantization/quantizer.py b/tinynn/graph/quantization/quantizer.py
index 8109806..47112aa 100644
--- a/tinynn/graph/quantization/quantizer.py
+++ b/tinynn/graph/quantization/quantizer.py
@@ -1729,6 +1729,11 @@ class QATQuantizer(object):
         div_nodes = graph.filter_forward_nodes(_is_div_node)
         log.info(f'rewriting div for {[node.unique_name for node in div_nodes]}')
         for idx, node in enumerate(div_nodes):
+            bound_args = bind_traced_args(node.module, node.prev_tensors, ('input', 'other'))
+            if bound_args.get('rounding_mode', None) is not None:
+                log.warning(f'Rewrite for {node.unique_name} is skipped because of its rounding mode')
+                continue
+
             op_type = node.module.func_type
             inplace = op_type in ('__itruediv__', 'itruediv', 'div_')
 
@@ -1744,15 +1749,8 @@ class QATQuantizer(object):
 
             node.module.full_name = '.'.join(full_name_parts)
 
-            # Here we make a simple guess, if dot is in the string, then it's a floating number.
-            # Otherwise, it is an integral number.
-            if '.' in node.module.args_string_no_self:
-                other_arg = float(node.module.args_string_no_self)
-            else:
-                other_arg = int(node.module.args_string_no_self)
-
             with override_current_trace_graph(graph):
-                node.module.parse_args(node.prev_tensors[0], 1.0 / other_arg)
+                node.module.parse_args(node.prev_tensors[0], 1.0 / bound_args['other'])
 
         def _is_sub_node(node: TraceNode, custom_data):
             cur_module = node.module
@@ -4176,6 +4174,18 @@ class DeQuantizer(object):
         graph.recompute_forward_order()
 
 
+def bind_traced_args(module, tensors, names):
+    """Maps the names of the arguments of a traced function call to their values"""
+
+    def _bind(*args, **kwargs):
+        bound = dict(zip(names, args))
+        bound.update(kwargs)
+        return bound
+
+    placeholders = [f'tensors[{i}]' for i in range(len(tensors))]
+    return eval(f'_bind({module.args_template.format(*placeholders)})')
+
+
 def load_creation_func_names():
     if len(creation_func_names) == 0:
         funcs_d = load_creation_funcs()
-- 
2.43.0


From c9ff38deed5401fec07881ca8be19ad0a0c0eee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:26 +0000
Subject: [PATCH 112/121] fix: keep alpha, repeated operands and constants when
 subtractions and additions are rewritten

---
 tinynn/graph/quantization/quantizer.py | 41 +++++++++++++-------------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/tinynn/graph/quantization/quantizer.py b/tinynn/graph/quantization/quantizer.py
index 47112aa..69d63fd 100644
--- a/tinynn/graph/quantization/quantizer.py
+++ b/tinynn/graph/quantization/quantizer.py
@@ -1757,7 +1757,7 @@ class QATQuantizer(object):
             cur_class = type(cur_module)
             if cur_class == TraceFunction:
                 return (
-                    cur_module.kind == 'sub'
+                    (cur_module.kind == 'sub' or (cur_module.kind == 'add' and 'alpha=' in cur_module.args_template))
                     and torch.is_floating_point(cur_module.prev_tensors[0])
                     and torch.is_floating_point(node.next_tensors[0])
                     and self.layerwise_config.get(node.unique_name, True)
@@ -1771,32 +1771,38 @@ class QATQuantizer(object):
             full_name_parts = node.module.full_name.split('.')
             full_name_parts[-1] = node.module.func_type
 
+            bound_args = bind_traced_args(node.module, node.prev_tensors, ('input', 'other'))
+            other_arg = bound_args['other']
+            other_scale = bound_args.get('alpha', 1)
+            if node.module.kind == 'sub':
+                other_scale = -other_scale
+
             if len(node.module.prev_tensors) == 1 and node.module.func_type != '__rsub__':
                 node.module.func_type = '__add__'
                 node.module.kind = 'add'
                 node.module.full_name = '.'.join(full_name_parts)
 
-                # Here we make a simple guess, if dot is in the string, then it's a floating number.
-                # Otherwise, it is an integral number.
-                if '.' in node.module.args_string_no_self or 'e' in node.module.args_string_no_self:
-                    other_arg = float(node.module.args_string_no_self)
-                else:
-                    other_arg = int(node.module.args_string_no_self)
-
                 with override_current_trace_graph(graph):
-                    node.module.parse_args(node.prev_tensors[0], -other_arg)
+                    node.module.parse_args(node.prev_tensors[0], other_arg * other_scale)
             elif len(node.module.prev_tensors) == 2 and len(node.prev_nodes) == 2:
+                if bound_args['input'] is other_arg:
+                    log.warning(f'Rewrite for {node.unique_name} is skipped because its operands are the same')
+                    continue
+
                 new_fullname_parts = copy.deepcopy(full_name_parts)
                 new_fullname_parts[-1] = '__mul__'
                 new_fullname = '.'.join(new_fullname_parts)
-                current_tensor = node.prev_tensors[0]
-                input_node = node.prev_nodes[1]
-                input_tensor = node.prev_tensors[1]
-                output_tensor = input_tensor * -1
+                current_tensor = bound_args['input']
+                other_idx = 1 if other_arg is node.prev_tensors[1] else 0
+                input_node = node.prev_nodes[other_idx]
+                input_tensor = other_arg
+                output_tensor = input_tensor * other_scale
 
                 with override_current_trace_graph(graph):
-                    trace_func = TraceFunction(new_fullname, True, prefix='fuse_').parse_args(input_tensor, -1)
-                    graph.insert_between(input_node, node, trace_func, [output_tensor], True)
+                    trace_func = TraceFunction(new_fullname, True, prefix='fuse_').parse_args(input_tensor, other_scale)
+                    graph.insert_between(
+                        input_node, node, trace_func, [output_tensor], True, tensor_ptrs=[id(input_tensor)]
+                    )
 
                     node.module.func_type = '__add__'
                     node.module.kind = 'add'
@@ -1815,11 +1821,6 @@ class QATQuantizer(object):
                 input_tensor = node.prev_tensors[0]
                 output_tensor = input_tensor * -1
 
-                if '.' in node.module.args_string_no_self:
-                    other_arg = float(node.module.args_string_no_self)
-                else:
-                    other_arg = int(node.module.args_string_no_self)
-
                 with override_current_trace_graph(graph):
                     trace_func = TraceFunction(new_fullname, True, prefix='fuse_').parse_args(input_tensor, -1)
                     graph.insert_between(input_node, node, trace_func, [output_tensor], True)
-- 
2.43.0


From 1d1f1e08cb8fcd0db20a8da98c424e87b3f8de41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:26 +0000
Subject: [PATCH 113/121] fix: pass the arguments of add, mul and cat to
 FloatFunctional by position

---
 tinynn/graph/quantization/quantizer.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/tinynn/graph/quantization/quantizer.py b/tinynn/graph/quantization/quantizer.py
index 69d63fd..ac5642d 100644
--- a/tinynn/graph/quantization/quantizer.py
+++ b/tinynn/graph/quantization/quantizer.py
@@ -1918,6 +1918,15 @@ class QATQuantizer(object):
             graph.other_init_nodes.append(new_node)
 
             node.module.is_class = False
+            # The names of the arguments of FloatFunctional differ
+            if '=' in node.module.args_template:
+                arg_names = ('tensors', 'dim') if op_kind == 'cat' else ('input', 'other')
+                bound_args = bind_traced_args(node.module, node.prev_tensors, arg_names)
+                if 'axis' in bound_args:
+                    bound_args['dim'] = bound_args.pop('axis')
+                with override_current_trace_graph(graph):
+                    node.module.parse_args(*[bound_args[k] for k in arg_names if k in bound_args])
+
             prev_tensor_size = len(node.prev_tensors)
             if op_kind in ('add', 'mul'):
                 if prev_tensor_size == 2:
-- 
2.43.0


From e6657e8fdac0e26c61bf205f34f2ddaafe6044a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:26 +0000
Subject: [PATCH 114/121] fix: rewrite clamp with tensors and infinities as
 bounds

---
 tinynn/graph/quantization/quantizer.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/tinynn/graph/quantization/quantizer.py b/tinynn/graph/quantization/quantizer.py
index ac5642d..8e9b236 100644
--- a/tinynn/graph/quantization/quantizer.py
+++ b/tinynn/graph/quantization/quantizer.py
@@ -1989,6 +1989,7 @@ class QATQuantizer(object):
             if cur_class == TraceFunction:
                 return (
                     cur_module.kind in ('clamp_min', 'clamp_max')
+                    and len(node.prev_tensors) == 1
                     and torch.is_floating_point(node.next_tensors[0])
                     and self.layerwise_config.get(node.unique_name, True)
                 )
@@ -2025,10 +2026,14 @@ class QATQuantizer(object):
             if cur_class == TraceFunction:
                 return (
                     cur_module.kind == 'clamp'
+                    and len(node.prev_tensors) == 1
                     and torch.is_floating_point(node.next_tensors[0])
                     and self.layerwise_config.get(node.unique_name, True)
                 )
 
+        def _bound_str(val):
+            return f"float('{val}')" if val in (float('inf'), float('-inf')) else f'{val}'
+
         clamp_nodes = graph.filter_forward_nodes(_is_clamp_node)
         log.info(f'rewriting clamp for {[node.unique_name for node in convertible_nodes]}')
         for node in clamp_nodes:
@@ -2059,16 +2064,16 @@ class QATQuantizer(object):
                 node.module.full_name = '.'.join(node.module.full_name.split('.')[:-1] + [node.module.func_type])
 
                 if max is None:
-                    arg_str = f'{min}'
+                    arg_str = _bound_str(min)
                 else:
-                    arg_str = f'{max}'
+                    arg_str = _bound_str(max)
             elif kind == 'clamp_with_fusion':
                 node.module.is_class = False
                 node.module.kind = kind
                 node.module.func_type = node.module.func_type.replace('clamp', kind)
                 node.module.full_name = f'tinynn.graph.quantization.utils.{node.module.func_type}'
 
-                arg_str = f'{min}, {max}'
+                arg_str = f'{_bound_str(min)}, {_bound_str(max)}'
             else:
                 inplace = node.module.func_type == f'{node.module.kind}_'
                 node.module.kind = kind
-- 
2.43.0


From 7edcb38cc7547a012c4e83536ad41ea4348fdbdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:26 +0000
Subject: [PATCH 115/121] fix: build modules without an inplace argument for
 in-place functions

---
 tinynn/graph/quantization/quantizer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tinynn/graph/quantization/quantizer.py b/tinynn/graph/quantization/quantizer.py
index 8e9b236..618869b 100644
--- a/tinynn/graph/quantization/quantizer.py
+++ b/tinynn/graph/quantization/quantizer.py
@@ -2276,7 +2276,7 @@ class QATQuantizer(object):
             graph.module_original_name_dict[id(new_func)] = f'rewritten_{kind}_{idx}'
 
             relu_cls = type(new_func)
-            if inplace:
+            if inplace and arguments is not None and 'inplace' in arguments:
                 arg_str = 'inplace=True'
             else:
                 arg_str = ''
-- 
2.43.0


From fe6e970ea61dc82fc6c7a34d0078338cbb5840f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:26 +0000
Subject: [PATCH 116/121] fix: slice the pooled dimensions only, when poolings
 with kernels of size one are rewritten

---
 tinynn/graph/quantization/quantizer.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/tinynn/graph/quantization/quantizer.py b/tinynn/graph/quantization/quantizer.py
index 618869b..9e8fb8b 100644
--- a/tinynn/graph/quantization/quantizer.py
+++ b/tinynn/graph/quantization/quantizer.py
@@ -2387,12 +2387,15 @@ class QATQuantizer(object):
                 if cur_module.kind in ('avg_pool1d', 'avg_pool2d', 'max_pool1d', 'max_pool2d'):
 
                     def _avgpool_kernel_size_and_stride(kernel_size, stride=None, *args, **kwargs):
+                        if kwargs.get('divisor_override', None) is not None or len(args) > 3:
+                            return None, stride
                         return kernel_size, stride
 
                     kernel_size, stride = eval(f'_avgpool_kernel_size_and_stride({cur_module.args_string_no_self})')
             else:
                 if cur_class in (nn.AvgPool1d, nn.AvgPool2d, nn.MaxPool1d, nn.MaxPool2d):
-                    kernel_size = cur_module.kernel_size
+                    if getattr(cur_module, 'divisor_override', None) is None:
+                        kernel_size = cur_module.kernel_size
                     stride = cur_module.stride
 
             if kernel_size is not None:
@@ -2412,11 +2415,14 @@ class QATQuantizer(object):
         pool_one_kernel_size_nodes = []
         graph.filter_forward_nodes(_is_pool_nd_with_one_kernel_size, pool_one_kernel_size_nodes)
         for idx, (node, kernel_size, stride) in enumerate(pool_one_kernel_size_nodes):
-            slices = [slice(None)] * 2
+            kind = node.kind() if isinstance(node.kind(), str) else node.kind().__name__
+            pool_dim = 1 if kind.endswith('1d') else 2
             t = node.prev_tensors[0]
-            dim = len(t.shape)
+            slices = [slice(None)] * (len(t.shape) - pool_dim)
             if not isinstance(stride, (list, tuple)):
-                stride = [stride] * (dim - 2)
+                stride = [stride] * pool_dim
+            elif len(stride) == 1:
+                stride = list(stride) * pool_dim
             for s in stride:
                 if s == 1 or s is None:
                     slices.append(slice(None))
-- 
2.43.0


From f2cf2fe28c87fcd5c0b1bd51dd770ca0336b245f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:26 +0000
Subject: [PATCH 117/121] fix: expand only the smaller operand when both come
 from the same node

---
 tinynn/graph/quantization/quantizer.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/tinynn/graph/quantization/quantizer.py b/tinynn/graph/quantization/quantizer.py
index 9e8fb8b..6eaea17 100644
--- a/tinynn/graph/quantization/quantizer.py
+++ b/tinynn/graph/quantization/quantizer.py
@@ -2969,7 +2969,14 @@ class QATQuantizer(object):
                         node.prev_tensors[src_index], node.prev_tensors[ref_index]
                     )
                 next_tensors = [node.prev_tensors[src_index].expand_as(node.prev_tensors[ref_index])]
-                graph.insert_between(node.prev_nodes[src_index], node, trace_func, next_tensors, True)
+                graph.insert_between(
+                    node.prev_nodes[src_index],
+                    node,
+                    trace_func,
+                    next_tensors,
+                    True,
+                    tensor_ptrs=[id(node.prev_tensors[src_index])],
+                )
 
                 new_node = graph.nodes_map[trace_func.unique_name]
                 new_node.prev_nodes.append(node.prev_nodes[ref_index])
-- 
2.43.0


From e2d58ffd9c7cfe807e658cd565680e1aa4112111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:00 +0000
Subject: [PATCH 118/121] fix: bind the arguments of rewritten functions by
 name

---
 tinynn/graph/quantization/quantizer.py | 88 +++++++-------------------
 1 file changed, 23 insertions(+), 65 deletions(-)

diff --git a/tinynn/graph/quantization/quantizer.py b/tinynn/graph/quantization/quantizer.py
index 6eaea17..2dd756c 100644
--- a/tinynn/graph/quantization/quantizer.py
+++ b/tinynn/graph/quantization/quantizer.py
@@ -1846,23 +1846,12 @@ class QATQuantizer(object):
         stack_nodes = graph.filter_forward_nodes(_is_stack_node)
 
         for idx, node in enumerate(stack_nodes):
-            args = getattr(node.module, 'args_string_no_self', '')
-            if ',' in args:
-                log.error('rewrite doesn\'t support multiple args for torch.stack')
-                assert False
-            if len(args) > 0:
-                if '=' in args:
-                    k, v = args.split('=')
-                    assert k in ('axis', 'dim')
-                    dim = int(v)
-                    if k == 'axis':
-                        node.module.args_template_no_self = node.module.args_template_no_self.replace('axis', 'dim')
-                        node.module.args_template = node.module.args_template.replace('axis', 'dim')
-                        node.module.update_args_string()
-                else:
-                    dim = int(args)
-            else:
-                dim = 0
+            bound_args = bind_traced_args(node.module, node.prev_tensors, ('tensors', 'dim'))
+            dim = bound_args.get('dim', bound_args.get('axis', 0))
+            if 'axis' in bound_args:
+                node.module.args_template_no_self = node.module.args_template_no_self.replace('axis', 'dim')
+                node.module.args_template = node.module.args_template.replace('axis', 'dim')
+                node.module.update_args_string()
             unique_prev_nodes = {n.unique_name: n for n in node.prev_nodes}.values()
             for n in unique_prev_nodes:
                 shared_tensors = list(set(node.prev_tensors).intersection(set(n.next_tensors)))
@@ -1998,9 +1987,7 @@ class QATQuantizer(object):
         log.info(f'rewriting clamp_{{min,max}} for {[node.unique_name for node in convertible_nodes]}')
         for node in clamp_min_max_nodes:
             kw = node.module.kind[-3:]
-            _parse_args = eval(f'lambda {kw}, *args, **kwargs: {kw}')
-
-            val = eval(f'_parse_args({node.module.args_string_no_self})')
+            val = bind_traced_args(node.module, node.prev_tensors, ('input', kw))[kw]
 
             if kw != 'min' or val != 0.0:
                 continue
@@ -2037,11 +2024,8 @@ class QATQuantizer(object):
         clamp_nodes = graph.filter_forward_nodes(_is_clamp_node)
         log.info(f'rewriting clamp for {[node.unique_name for node in convertible_nodes]}')
         for node in clamp_nodes:
-
-            def _parse_args(min=None, max=None, *args, **kwargs):
-                return min, max
-
-            min, max = eval(f'_parse_args({node.module.args_string_no_self})')
+            bound_args = bind_traced_args(node.module, node.prev_tensors, ('input', 'min', 'max'))
+            min, max = bound_args.get('min', None), bound_args.get('max', None)
 
             kind = None
             if min == 0.0:
@@ -2203,26 +2187,12 @@ class QATQuantizer(object):
             elif node.module.kind in ('relu', 'relu6', 'silu', 'hardswish'):
                 new_func = klass(inplace=inplace)
             elif node.module.kind in ('elu', 'leaky_relu'):
-                if hasattr(node.module, 'args_string_no_self'):
-
-                    if node.module.kind == 'leaky_relu':
-
-                        def _parse_args(negative_slope=0.01, *args, **kwargs):  # noqa: F811
-                            return negative_slope
-
-                    else:
-
-                        def _parse_args(alpha=1.0, *args, **kwargs):  # noqa: F811
-                            return alpha
-
-                    alpha = eval(f'_parse_args({node.module.args_string_no_self})')
+                alpha_name = 'negative_slope' if node.module.kind == 'leaky_relu' else 'alpha'
+                alpha = bind_traced_args(node.module, node.prev_tensors, ('input', alpha_name)).get(alpha_name, None)
+                if alpha is not None:
                     new_func = klass(alpha, inplace=inplace)
                 else:
-                    alpha = None
-                    if node.module.kind == 'leaky_relu':
-                        new_func = klass(inplace=inplace)
-                    else:
-                        new_func = klass()
+                    new_func = klass(inplace=inplace)
             elif node.module.kind == 'prelu':
                 weight_t = node.prev_tensors[1]
                 weight_node = node.prev_nodes[1]
@@ -2259,16 +2229,8 @@ class QATQuantizer(object):
                     else:
                         new_last_node = None
             elif node.module.kind == 'glu':
-                if hasattr(node.module, 'args_string_no_self'):
-
-                    def _parse_args_dim(dim=-1, *args, **kwargs):  # noqa: F811
-                        return dim
-
-                    dim = eval(f'_parse_args_dim({node.module.args_string_no_self})')
-                    new_func = klass(dim)
-                else:
-                    dim = None
-                    new_func = klass()
+                dim = bind_traced_args(node.module, node.prev_tensors, ('input', 'dim')).get('dim', -1)
+                new_func = klass(dim)
             else:
                 raise NotImplementedError(f"Don't know how to parse {klass.__name__} with argument {arguments}")
 
@@ -2309,14 +2271,11 @@ class QATQuantizer(object):
             if cur_class == TraceFunction:
                 return cur_module.kind == 'dropout' and self.layerwise_config.get(node.unique_name, True)
 
-        def _dropout_args(p=0.5, training=True, inplace=False):
-            return p, training, inplace
-
         dropout_nodes_to_rewrite = graph.filter_forward_nodes(_is_dropout_functional_node)
         log.info(f'rewriting dropout for {[node.unique_name for node in dropout_nodes_to_rewrite]}')
         for idx, node in enumerate(dropout_nodes_to_rewrite):
-            args = getattr(node.module, 'args_string_no_self', '')
-            p, _, inplace = eval(f'_dropout_args({args})')
+            bound_args = bind_traced_args(node.module, node.prev_tensors, ('input', 'p', 'training', 'inplace'))
+            p, inplace = bound_args.get('p', 0.5), bound_args.get('inplace', False)
             kind = node.module.kind
             inplace = node.module.func_type == f'{kind}_' or inplace
             dropout_cls = nn.Dropout
@@ -2385,13 +2344,12 @@ class QATQuantizer(object):
             kernel_size, stride = None, None
             if cur_class == TraceFunction:
                 if cur_module.kind in ('avg_pool1d', 'avg_pool2d', 'max_pool1d', 'max_pool2d'):
-
-                    def _avgpool_kernel_size_and_stride(kernel_size, stride=None, *args, **kwargs):
-                        if kwargs.get('divisor_override', None) is not None or len(args) > 3:
-                            return None, stride
-                        return kernel_size, stride
-
-                    kernel_size, stride = eval(f'_avgpool_kernel_size_and_stride({cur_module.args_string_no_self})')
+                    arg_names = ('input', 'kernel_size', 'stride', 'padding')
+                    if cur_module.kind.startswith('avg'):
+                        arg_names += ('ceil_mode', 'count_include_pad', 'divisor_override')
+                    bound_args = bind_traced_args(cur_module, node.prev_tensors, arg_names)
+                    if bound_args.get('divisor_override', None) is None:
+                        kernel_size, stride = bound_args['kernel_size'], bound_args.get('stride', None)
             else:
                 if cur_class in (nn.AvgPool1d, nn.AvgPool2d, nn.MaxPool1d, nn.MaxPool2d):
                     if getattr(cur_module, 'divisor_override', None) is None:
-- 
2.43.0


From ee066cdfc6310bd179da7f05a02f4822cb235cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:46 +0000
Subject: [PATCH 119/121] fix: use the results of in-place operations where
 their operands are read later

---
 tinynn/graph/quantization/quantizer.py | 37 ++++++++++++++++++++++++++
 1 file changed, 37 insertions(+)

diff --git a/tinynn/graph/quantization/quantizer.py b/tinynn/graph/quantization/quantizer.py
index 2dd756c..16af149 100644
--- a/tinynn/graph/quantization/quantizer.py
+++ b/tinynn/graph/quantization/quantizer.py
@@ -1556,6 +1556,43 @@ class QATQuantizer(object):
             for n in graph.forward_nodes:
                 self.layerwise_config.setdefault(n.unique_name, False)
 
+        # The rewritten in-place operations and those with quantize and dequantize nodes around them don't write to
+        # their operands, so everything that reads the operand of an in-place operation later should use its result
+        def _is_inplace_node(node, custom_data):
+            cur_module = node.module
+            if type(cur_module) is not TraceFunction:
+                return getattr(cur_module, 'inplace', False) is True
+            func_type = cur_module.func_type
+            if func_type.endswith('__'):
+                return func_type in ('__iadd__', '__isub__', '__imul__', '__itruediv__')
+            return (
+                func_type.endswith('_')
+                or 'inplace=True' in cur_module.args_template
+                or (cur_module.kind in FUNCTIONAL_MODULE_MAPPING and 'True' in cur_module.args_template)
+            )
+
+        for node in graph.filter_forward_nodes(_is_inplace_node):
+            if len(node.prev_tensors) == 0 or len(node.next_tensors) != 1:
+                continue
+            prev_node, prev_tensor, next_tensor = node.prev_nodes[0], node.prev_tensors[0], node.next_tensors[0]
+            node_idx = graph.forward_nodes.index(node)
+            for later_node in graph.forward_nodes[node_idx + 1 :] + graph.output_nodes:
+                for i, t in enumerate(later_node.prev_tensors):
+                    if t is not prev_tensor or later_node.prev_nodes[i] is not prev_node:
+                        continue
+                    later_node.prev_tensors[i] = next_tensor
+                    later_node.prev_nodes[i] = node
+                    later_node.prev_indices[i] = None
+                    node.next_nodes.append(later_node)
+                    if later_node in prev_node.next_nodes:
+                        prev_node.next_nodes.remove(later_node)
+                    if later_node not in graph.output_nodes and type(later_node.module) is TraceFunction:
+                        later_node.module.prev_tensors[i] = next_tensor
+                        later_node.module.update_tensor_name(i, node.unique_name)
+                        later_node.module.update_args_string()
+                if prev_node in later_node.prev_nodes and later_node not in prev_node.next_nodes:
+                    prev_node.next_nodes.append(later_node)
+
         creation_func_names = load_creation_func_names()
 
         def _is_extra_constant_nodes(node, custom_data):
-- 
2.43.0


From 9bfa461aaa5246dc2b6a529f3fc2879eeb3fb0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:39 +0000
Subject: [PATCH 120/121] fix: leave integer tensors alone around the nodes
 excluded from quantisation

---
 tinynn/graph/quantization/quantizer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tinynn/graph/quantization/quantizer.py b/tinynn/graph/quantization/quantizer.py
index 16af149..3e14ce7 100644
--- a/tinynn/graph/quantization/quantizer.py
+++ b/tinynn/graph/quantization/quantizer.py
@@ -2727,6 +2727,8 @@ class QATQuantizer(object):
                     continue
 
                 for pt in next_node.prev_tensors:
+                    if isinstance(pt, torch.Tensor) and pt.dtype in (torch.int32, torch.int64):
+                        continue
                     for nt in node.next_tensors:
                         if isinstance(nt, (list, tuple)):
                             for k, ntt in enumerate(nt):
@@ -2771,6 +2773,8 @@ class QATQuantizer(object):
 
                 prev_tensor_ptrs = []
                 for pt in node.prev_tensors:
+                    if isinstance(pt, torch.Tensor) and pt.dtype in (torch.int32, torch.int64):
+                        continue
                     for nt in prev_node.next_tensors:
                         if isinstance(nt, (list, tuple)):
                             for k, ntt in enumerate(nt):
-- 
2.43.0


From a544186ad7aa58a84753acfd34c3be92958c728f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:17 +0000
Subject: [PATCH 121/121] fix: rewrite batch normalisations of two-dimensional
 tensors

---
 tinynn/graph/quantization/quantizer.py | 30 +++++++++++++++++---------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/tinynn/graph/quantization/quantizer.py b/tinynn/graph/quantization/quantizer.py
index 3e14ce7..3a03a07 100644
--- a/tinynn/graph/quantization/quantizer.py
+++ b/tinynn/graph/quantization/quantizer.py
@@ -2542,18 +2542,28 @@ class QATQuantizer(object):
                 with override_current_trace_graph(graph):
                     graph.replace_node_module(node, new_bn)
 
-                    prev_func = TraceFunction('torch.unsqueeze', prefix='rewritten_bn2d_').parse_args(
-                        node.prev_tensors[0], 2
-                    )
-                    next_func = TraceFunction('torch.squeeze', prefix='rewritten_bn2d_').parse_args(
-                        node.next_tensors[0], 2
-                    )
-
-                node.next_tensors[0].unsqueeze_(2)
+                    if node.prev_tensors[0].dim() == 2:
+                        prev_func = TraceFunction('torch.Tensor.__getitem__', prefix='rewritten_bn2d_').parse_args(
+                            node.prev_tensors[0], (Ellipsis, None, None)
+                        )
+                        next_func = TraceFunction('torch.flatten', prefix='rewritten_bn2d_').parse_args(
+                            node.next_tensors[0], 1
+                        )
+                        prev_out = node.prev_tensors[0][..., None, None]
+                        node.next_tensors[0].unsqueeze_(2).unsqueeze_(2)
+                        next_out = torch.flatten(node.next_tensors[0], 1)
+                    else:
+                        prev_func = TraceFunction('torch.unsqueeze', prefix='rewritten_bn2d_').parse_args(
+                            node.prev_tensors[0], 2
+                        )
+                        next_func = TraceFunction('torch.squeeze', prefix='rewritten_bn2d_').parse_args(
+                            node.next_tensors[0], 2
+                        )
+                        prev_out = torch.unsqueeze(node.prev_tensors[0], 2)
+                        node.next_tensors[0].unsqueeze_(2)
+                        next_out = torch.squeeze(node.next_tensors[0], 2)
 
-                prev_out = torch.unsqueeze(node.prev_tensors[0], 2)
                 graph.insert_between(node.prev_nodes[0], node, prev_func, [prev_out], True)
-                next_out = torch.squeeze(node.next_tensors[0], 2)
                 graph.insert_after(node, next_func, [next_out])
 
         type_dict = {}
-- 
2.43.0

