From b93d3d790bc800e4ca7a8d8eb5d670bb911bcbf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:34 +0000
Subject: [PATCH 01/55] fix: apply all remaining overrides on every call of an
 overridden quantizer

---
 src/fastforward/forward_override.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/fastforward/forward_override.py b/src/fastforward/forward_override.py
index 0d774ad..8da34e7 100644
--- a/src/fastforward/forward_override.py
+++ b/src/fastforward/forward_override.py
@@ -82,15 +82,18 @@ class _WrappedOverriddenFn(Generic[T]):
     ) -> None:
         self.context = context
         self.overridden_fn = overridden_fn
-        _, override_stack = zip(*sorted(override_map.items()))
-        self.override_stack: list[OverrideFn[T]] = list(override_stack)
+        self.override_map = override_map
 
     def __call__(self, *args: Any, **kwargs: Any) -> T:
-        if not self.override_stack:
+        # An override may call the overridden function more than once or (de)register
+        # overrides, each call must apply exactly the overrides that remain at this point.
+        remaining_overrides = dict(self.override_map)
+        if not remaining_overrides:
             return self.overridden_fn(*args, **kwargs)
-        else:
-            override_fn = self.override_stack.pop()
-            return override_fn(self.context, self, args, kwargs)
+
+        override_fn = remaining_overrides.pop(max(remaining_overrides))
+        remaining_fn = _WrappedOverriddenFn(self.context, self.overridden_fn, remaining_overrides)
+        return override_fn(self.context, remaining_fn, args, kwargs)
 
 
 def apply_overrides(
-- 
2.43.0


From 4fe44bf82d9863e389417a95472b0ef04849f509 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:03 +0000
Subject: [PATCH 02/55] fix: restore strict quantization when a module with its
 own setting fails, recurses or overlaps

The strict quantization mode that is in force before the forward pass of a module with
its own setting was lost if the forward pass raised, if the module called itself, if
several settings were attached to one module, or if the setting was removed while the
module was being executed.
---
 .../quantization/strict_quantization.py       | 45 +++++++++++++------
 1 file changed, 32 insertions(+), 13 deletions(-)

diff --git a/src/fastforward/quantization/strict_quantization.py b/src/fastforward/quantization/strict_quantization.py
index ace6068..ac9b0a9 100644
--- a/src/fastforward/quantization/strict_quantization.py
+++ b/src/fastforward/quantization/strict_quantization.py
@@ -28,8 +28,11 @@ class ModuleStrictQuantHandle:
             enable_strict_quantization: Flag to enable or disable strict quantization.
         """
         self._enable_strict_quantization = enable_strict_quantization
-        self._handles: list[RemovableHandle] = []
-        self._module_original_strict_mode: weakref.WeakKeyDictionary[torch.nn.Module, bool] = (
+        self._hook_handles: list[tuple[weakref.ref[torch.nn.Module], list[RemovableHandle]]] = []
+        # Modules from which this handle is removed while they were being executed.
+        self._removed: weakref.WeakSet[torch.nn.Module] = weakref.WeakSet()
+        # The same module may be executing more than once (recursion), hence a stack.
+        self._original_strict_modes: weakref.WeakKeyDictionary[torch.nn.Module, list[bool]] = (
             weakref.WeakKeyDictionary()
         )
 
@@ -41,8 +44,10 @@ class ModuleStrictQuantHandle:
             args: The arguments passed to the module.
         """
         del args
-        self._module_original_strict_mode[module] = ff.get_strict_quantization()
-        ff.set_strict_quantization(self._enable_strict_quantization)
+        original_strict_modes = self._original_strict_modes.setdefault(module, [])
+        original_strict_modes.append(ff.get_strict_quantization())
+        if module not in self._removed:
+            ff.set_strict_quantization(self._enable_strict_quantization)
 
     def _post_forward_hook(
         self, module: torch.nn.Module, args: tuple[Any, ...], output: Any
@@ -55,8 +60,8 @@ class ModuleStrictQuantHandle:
             output: The output of the module.
         """
         del args, output
-        if (strict_mode := self._module_original_strict_mode.get(module, None)) is not None:
-            ff.set_strict_quantization(strict_mode)
+        if original_strict_modes := self._original_strict_modes.get(module):
+            ff.set_strict_quantization(original_strict_modes.pop())
 
     def attach(self, module: torch.nn.Module) -> None:
         """Attach the pre-forward and post-forward hooks to a module.
@@ -64,16 +69,30 @@ class ModuleStrictQuantHandle:
         Args:
             module: The module to attach hooks to.
         """
+        self._removed.discard(module)
         pre_handle = module.register_forward_pre_hook(self._pre_forward_hook)
-        post_handle = module.register_forward_hook(self._post_forward_hook)
-        self._handles.append(pre_handle)
-        self._handles.append(post_handle)
+        # Restore in reverse order of the pre-forward hooks, also if the forward pass raises.
+        post_handle = module.register_forward_hook(
+            self._post_forward_hook, prepend=True, always_call=True
+        )
+        self._hook_handles.append((weakref.ref(module), [pre_handle, post_handle]))
 
     def remove(self) -> None:
-        """Remove all attached hooks."""
-        for handle in self._handles:
-            handle.remove()
-        self._handles = []
+        """Remove all attached hooks.
+
+        The hooks of a module that is being executed are kept, but without further effect
+        other than restoring the original strict quantization mode when that execution ends.
+        """
+        active_hook_handles: list[tuple[weakref.ref[torch.nn.Module], list[RemovableHandle]]] = []
+        for module_ref, hook_handles in self._hook_handles:
+            module = module_ref()
+            if module is not None and self._original_strict_modes.get(module):
+                self._removed.add(module)
+                active_hook_handles.append((module_ref, hook_handles))
+            else:
+                for hook_handle in hook_handles:
+                    hook_handle.remove()
+        self._hook_handles = active_hook_handles
 
     def __enter__(self) -> None:
         pass
-- 
2.43.0


From 3324799217048d325d42b2a7a90e35f84dbe5884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:31 +0000
Subject: [PATCH 03/55] fix: clean up already prepared quantizers when setting
 up range estimation fails

If the estimator could not prepare one of the quantizers, or if cleaning up one of them
failed, the overrides of the other quantizers stayed registered and kept changing
their ranges.
---
 src/fastforward/range_setting/common.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/fastforward/range_setting/common.py b/src/fastforward/range_setting/common.py
index 128f065..3bc10e5 100644
--- a/src/fastforward/range_setting/common.py
+++ b/src/fastforward/range_setting/common.py
@@ -277,13 +277,10 @@ def estimate_ranges(
             "`estimator` is already initialized so no `args` or `kwargs` can be given."
         )
 
-    prepared_modules: list[tuple[_Module, _T]] = []
-    for module in model_or_layers:
-        for module_part in estimator.split_module(module):
-            metadata = estimator.prepare(module_part)
-            prepared_modules.append((module_part, metadata))
-    try:
+    # If `prepare` fails part way, all modules that were already prepared must be cleaned up.
+    with contextlib.ExitStack() as cleanup_stack:
+        for module in model_or_layers:
+            for module_part in estimator.split_module(module):
+                metadata = estimator.prepare(module_part)
+                cleanup_stack.callback(estimator.cleanup, module_part, metadata)
         yield
-    finally:
-        for module, metadata in prepared_modules:
-            estimator.cleanup(module, metadata)
-- 
2.43.0


From c8c345bd37fdf5edf9f851c0fbf7e9cee32d2388 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:31 +0000
Subject: [PATCH 04/55] fix: evaluate every candidate of the min error search
 grid

The search grid for asymmetric quantizers can hold more candidates than requested. The
remaining ones were never evaluated, hence kept an error of zero and were selected.
---
 src/fastforward/range_setting/min_error.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fastforward/range_setting/min_error.py b/src/fastforward/range_setting/min_error.py
index cc123c6..dd8c09f 100644
--- a/src/fastforward/range_setting/min_error.py
+++ b/src/fastforward/range_setting/min_error.py
@@ -214,7 +214,8 @@ class _MinAvgErrorGridEstimator(SimpleEstimatorStep[SupportsRangeBasedOperator],
         quantizer.quantization_range = (min_threshold, max_threshold)
 
     def estimate_step(self, quantizer: SupportsRangeBasedOperator, data: torch.Tensor) -> None:
-        for i in range(self.num_candidates):
+        # The search grid may hold more candidates than requested, each must be evaluated.
+        for i in range(self.min_threshold.shape[0]):
             quant_op = quantizer.operator_for_range(
                 self.min_threshold[i], self.max_threshold[i], data.shape
             )
-- 
2.43.0


From 55abfbf7b1148467d1611b15af91199982ea39be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:00 +0000
Subject: [PATCH 05/55] fix: let initialization of quantization parameters
 resume after a failure

If materializing the parameters of a LinearQuantizer failed half way, every later attempt
to set its quantization range failed.
---
 src/fastforward/nn/linear_quantizer.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/fastforward/nn/linear_quantizer.py b/src/fastforward/nn/linear_quantizer.py
index 4c6b0f3..11ff27b 100644
--- a/src/fastforward/nn/linear_quantizer.py
+++ b/src/fastforward/nn/linear_quantizer.py
@@ -211,15 +211,18 @@ class LinearQuantizer(AbstractAffineQuantizer["affine_quant.StaticAffineQuantPar
     def _initialize_parameters(self, parameter_dimensionality: int) -> None:  # pylint: disable=arguments-differ
         """Internal method to materialize the uninitialized parameters of the quantizer."""
         if self.has_uninitialized_params:  # type: ignore[unused-ignore]
-            scale_shape = torch.Size([parameter_dimensionality])
-            offset_shape = scale_shape if self.offset is not None else None
+            param_shape = torch.Size([parameter_dimensionality])
 
+            # Initialization may be resumed after an earlier attempt failed half way. The scale
+            # is materialized last because it determines if the quantizer is initialized.
             with torch.no_grad():
-                self.scale.materialize(scale_shape)  # type: ignore[union-attr]
-                self.scale.fill_(1.0)
-                if offset_shape and self.offset is not None:
-                    self.offset.materialize(offset_shape)  # type: ignore[attr-defined]
+                if self.offset is not None:
+                    if torch.nn.parameter.is_lazy(self.offset):
+                        self.offset.materialize(param_shape)
                     self.offset.fill_(0.0)
+                if torch.nn.parameter.is_lazy(self.scale):
+                    self.scale.materialize(param_shape)
+                self.scale.fill_(1.0)
 
     @override
     def extra_repr(self) -> str:
-- 
2.43.0


From 4d46a6f4c9d226be22379ab63d86e2f134a8b26e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:43 +0000
Subject: [PATCH 06/55] fix: remove the freeze overrides at the end of
 freeze_parameters

The handles of the registered overrides were never collected. Every later forward pass
kept quantizing parameters in-place.
---
 src/fastforward/quantization/freeze.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/fastforward/quantization/freeze.py b/src/fastforward/quantization/freeze.py
index 0a66805..16ef007 100644
--- a/src/fastforward/quantization/freeze.py
+++ b/src/fastforward/quantization/freeze.py
@@ -110,13 +110,18 @@ def freeze_parameters(
     """
     hooks: list[ff.overrides.override.OverrideHandle] = []
     modules = [modules] if isinstance(modules, torch.nn.Module) else modules
-    for module in modules:
-        for submodule in module.modules():
-            for _, quantizer in ff.nn.quantized_module.named_quantizers(submodule, recurse=False):
-                override = _FreezeParametersOverride(submodule, remove_quantizer=remove_quantizers)
-                quantizer.register_override(override)
 
     try:
+        for module in modules:
+            for submodule in module.modules():
+                for _, quantizer in ff.nn.quantized_module.named_quantizers(
+                    submodule, recurse=False
+                ):
+                    override = _FreezeParametersOverride(
+                        submodule, remove_quantizer=remove_quantizers
+                    )
+                    hooks.append(quantizer.register_override(override))
+
         # Disable strict quantization because override returns 'normal' tensors.
         with ff.strict_quantization(False):
             yield
-- 
2.43.0


From 185d07e246ef870624e86704ad29d8c154df8b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:11 +0000
Subject: [PATCH 07/55] fix: let freeze_parameters only freeze parameters that
 are quantized

Disabled quantizers of parameters of any dtype other than float32 were removed and their
parameters rounded to float32. Quantizers of activations were replaced by stubs and
skipped, although nothing was frozen.
---
 src/fastforward/quantization/freeze.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/fastforward/quantization/freeze.py b/src/fastforward/quantization/freeze.py
index 16ef007..f44cbf7 100644
--- a/src/fastforward/quantization/freeze.py
+++ b/src/fastforward/quantization/freeze.py
@@ -34,23 +34,23 @@ class _FreezeParametersOverride:
             kwargs: Keyword arguments
 
         Returns:
-            Dequantized tensor result
+            Frozen parameter, or the quantized input if it is not a parameter.
         """
         # Extract and quantize input data
         input_data = _extract_input(*args, **kwargs)
-        quantized = callback(input_data).dequantize()
+        quantized = callback(*args, **kwargs)
 
-        if quantized is input_data:
+        if quantized is input_data or not isinstance(input_data, torch.nn.Parameter):
             # When the quantizer callback returns the input unchanged (e.g., when
             # the quantizer is disabled), freezing has no effect. In this case,
             # we skip both the quantizer removal and the in-place parameter update
-            # since they would be no-ops.
-            return cast(torch.Tensor, input_data)
+            # since they would be no-ops. Similarly, there is nothing to freeze if
+            # the input is not a parameter (e.g., an activation).
+            return cast(torch.Tensor, quantized)
 
-        # Update parameter in-place if input is a Parameter
-        if isinstance(input_data, torch.nn.Parameter):
-            with torch.no_grad():
-                input_data.copy_(quantized)
+        # Update parameter in-place
+        with torch.no_grad():
+            input_data.copy_(_dequantize(quantized))
 
         # Replace quantizer with stub to freeze quantization
         if self._remove_quantizer:
@@ -65,6 +65,11 @@ class _FreezeParametersOverride:
         return input_data
 
 
+def _dequantize(data: torch.Tensor) -> torch.Tensor:
+    # `torch.Tensor.dequantize` changes the dtype of tensors that are not quantized.
+    return data.dequantize() if isinstance(data, ff.QuantizedTensor) else data
+
+
 def _extract_input(data: torch.Tensor, *args: Any, **kwargs: Any) -> torch.Tensor:
     del args, kwargs
     return data
-- 
2.43.0


From a4422f1a96cc883ffd6af292b734f1a2c1209f47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:23 +0000
Subject: [PATCH 08/55] fix: let freeze_parameters support quantizers that are
 shared by several modules

A shared quantizer was removed from the module that owns it first, no matter which of the
modules was executed, leaving the parameters of that module unquantized.
---
 src/fastforward/quantization/freeze.py | 39 +++++++++++++++++---------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/src/fastforward/quantization/freeze.py b/src/fastforward/quantization/freeze.py
index f44cbf7..c34e58b 100644
--- a/src/fastforward/quantization/freeze.py
+++ b/src/fastforward/quantization/freeze.py
@@ -14,8 +14,9 @@ import fastforward as ff
 class _FreezeParametersOverride:
     """Override that quantizes parameters in-place and replaces quantizers with stubs."""
 
-    def __init__(self, module: torch.nn.Module, remove_quantizer: bool) -> None:
-        self._module = module
+    def __init__(self, modules: Sequence[torch.nn.Module], remove_quantizer: bool) -> None:
+        # All modules that own the overridden quantizer.
+        self._modules = modules
         self._remove_quantizer = remove_quantizer
 
     def __call__(
@@ -54,17 +55,25 @@ class _FreezeParametersOverride:
 
         # Replace quantizer with stub to freeze quantization
         if self._remove_quantizer:
-            for name, other_quantizer in ff.nn.quantized_module.named_quantizers(
-                self._module, recurse=False
-            ):
-                if other_quantizer is quantizer:
-                    stub = ff.nn.QuantizerStub(_metadata=quantizer.quant_metadata)
-                    setattr(self._module, name, stub)
-                    break
+            for module in self._modules:
+                # If the quantizer is shared, the parameters of other modules are not frozen yet.
+                if len(self._modules) > 1 and not _owns_parameter(module, input_data):
+                    continue
+                for name, other_quantizer in ff.nn.quantized_module.named_quantizers(
+                    module, recurse=False
+                ):
+                    if other_quantizer is quantizer:
+                        stub = ff.nn.QuantizerStub(_metadata=quantizer.quant_metadata)
+                        setattr(module, name, stub)
+                        break
 
         return input_data
 
 
+def _owns_parameter(module: torch.nn.Module, parameter: torch.nn.Parameter) -> bool:
+    return any(parameter is other_parameter for other_parameter in module.parameters(recurse=False))
+
+
 def _dequantize(data: torch.Tensor) -> torch.Tensor:
     # `torch.Tensor.dequantize` changes the dtype of tensors that are not quantized.
     return data.dequantize() if isinstance(data, ff.QuantizedTensor) else data
@@ -117,15 +126,19 @@ def freeze_parameters(
     modules = [modules] if isinstance(modules, torch.nn.Module) else modules
 
     try:
+        quantizer_owners: dict[ff.nn.Quantizer, list[torch.nn.Module]] = {}
         for module in modules:
             for submodule in module.modules():
                 for _, quantizer in ff.nn.quantized_module.named_quantizers(
                     submodule, recurse=False
                 ):
-                    override = _FreezeParametersOverride(
-                        submodule, remove_quantizer=remove_quantizers
-                    )
-                    hooks.append(quantizer.register_override(override))
+                    owners = quantizer_owners.setdefault(quantizer, [])
+                    if submodule not in owners:
+                        owners.append(submodule)
+
+        for quantizer, owners in quantizer_owners.items():
+            override = _FreezeParametersOverride(owners, remove_quantizer=remove_quantizers)
+            hooks.append(quantizer.register_override(override))
 
         # Disable strict quantization because override returns 'normal' tensors.
         with ff.strict_quantization(False):
-- 
2.43.0


From e96020997f6ffeafdce898bdaea8fb0933c10ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:57 +0000
Subject: [PATCH 09/55] fix: only remove the registration that a dispatcher
 hook was created for

---
 src/fastforward/dispatcher.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fastforward/dispatcher.py b/src/fastforward/dispatcher.py
index 9331bcd..4ee97c9 100644
--- a/src/fastforward/dispatcher.py
+++ b/src/fastforward/dispatcher.py
@@ -99,7 +99,8 @@ class DispatcherPriority(enum.IntEnum):
     NOT_IMPLEMENTED_FALLBACK = 2
 
 
-@dataclasses.dataclass
+# Items are compared by identity: equal registrations are still distinct registrations.
+@dataclasses.dataclass(eq=False)
 class DispatcherItem(Generic[P]):
     """Data class representing an item in the dispatcher.
 
-- 
2.43.0


From 87de92d36e5016a9d7062800122018737ac732de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:23 +0000
Subject: [PATCH 10/55] fix: reload quantizer classes that inherit their
 constructor

---
 src/fastforward/serialization.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fastforward/serialization.py b/src/fastforward/serialization.py
index 7709b8b..4b47707 100644
--- a/src/fastforward/serialization.py
+++ b/src/fastforward/serialization.py
@@ -129,13 +129,16 @@ def _ff_obj_yaml_constructor(
     values = loader.construct_mapping(cast(yaml.MappingNode, node), deep=True)
     class_name = values.pop("name")
     newargs, newkwargs = values.pop("newargs", ((), {}))
+    # The constructor arguments may be recorded by an inherited `__init__`.
+    has_initargs = "initargs" in values
     initargs, initkwargs = values.pop("initargs", ((), {}))
     cls = QualifiedNameReference(class_name).import_()
     if not isinstance(cls, type):
         return cls
+    obj = None
     if _has_custom_method(cls, "__new__"):
         obj = cls.__new__(cls, *newargs, **newkwargs)
-    if _has_custom_method(cls, "__init__"):
+    if has_initargs or _has_custom_method(cls, "__init__"):
         obj = cls(*initargs, **initkwargs)
     if obj is None:
         raise RuntimeError("cant deserialise an object")
-- 
2.43.0


From c8eccd85601fe426464aa5fa282048b8530400f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:51 +0000
Subject: [PATCH 11/55] fix: restore the dtype of quantization parameters when
 loading

---
 src/fastforward/quantization/save_load.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fastforward/quantization/save_load.py b/src/fastforward/quantization/save_load.py
index e11c55f..faf9b89 100644
--- a/src/fastforward/quantization/save_load.py
+++ b/src/fastforward/quantization/save_load.py
@@ -477,12 +477,14 @@ def _load_quantizer_state_from_files(
                     else:
                         state_tensor_keys[state_key] = tensor_key
 
+                # Assign instead of copy to restore the dtype of the parameters too.
                 missing_keys, unexpected_keys = quantizer.load_state_dict(
                     {
-                        state_key: f.get_tensor(tensor_key)
+                        state_key: f.get_tensor(tensor_key).clone()
                         for state_key, tensor_key in state_tensor_keys.items()
                     },
                     strict=False,
+                    assign=True,
                 )
 
                 if len(lazy_params) > 0:
-- 
2.43.0


From 9c68fd7367f564747c23b2b7059c57c62c9082b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:57 +0000
Subject: [PATCH 12/55] fix: let quantized models with uninitialized quantizers
 be saved and loaded if allowed

---
 src/fastforward/quantization/save_load.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/fastforward/quantization/save_load.py b/src/fastforward/quantization/save_load.py
index faf9b89..2e52c32 100644
--- a/src/fastforward/quantization/save_load.py
+++ b/src/fastforward/quantization/save_load.py
@@ -622,7 +622,7 @@ def save_quantized_model(
     )
     weight_state = {
         name: param.detach()
-        for name, param in save_model.state_dict().items()
+        for name, param in save_model.state_dict(keep_vars=True).items()
         if not name.startswith(quantizer_prefixes)
     }
     # SafeTensors rejects tensors sharing storage, so tied weights are stored
@@ -734,7 +734,11 @@ def load_quantized_model(
             model, remove_duplicate=False, skip_stubs=False
         )
     )
-    expected_keys = {name for name in model.state_dict() if not name.startswith(quantizer_prefixes)}
+    expected_keys = {
+        name
+        for name in model.state_dict(keep_vars=True)
+        if not name.startswith(quantizer_prefixes)
+    }
     missing_keys = sorted(expected_keys - weight_state.keys())
     unexpected_keys = sorted(weight_state.keys() - expected_keys)
     if missing_keys or unexpected_keys:
-- 
2.43.0


From a8769f20c7f20b4ead5370e004695531abce978f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:03 +0000
Subject: [PATCH 13/55] fix: leave the model untouched when loading a quantized
 model or state fails

---
 src/fastforward/quantization/save_load.py | 79 +++++++++++++++++++----
 1 file changed, 65 insertions(+), 14 deletions(-)

diff --git a/src/fastforward/quantization/save_load.py b/src/fastforward/quantization/save_load.py
index 2e52c32..e72e956 100644
--- a/src/fastforward/quantization/save_load.py
+++ b/src/fastforward/quantization/save_load.py
@@ -15,7 +15,7 @@ formats are provided:
   and a manifest. A superset of the quantization state, suitable for shipping.
 
 Both formats share a single writer (`_write_quantizer_state`) and reader
-(`_load_quantizer_state_from_files`), so the quantizer config/params layout is
+(`_read_quantizer_state_from_files`), so the quantizer config/params layout is
 identical between them and cannot drift.
 
 The functions here take the model as their first argument and are mirrored by
@@ -397,7 +397,7 @@ def load_quantization_state(
     )
 
 
-def _load_quantizer_state_from_files(
+def _read_quantizer_state_from_files(
     model: torch.nn.Module,
     config_path: Path,
     model_path: Path,
@@ -405,16 +405,17 @@ def _load_quantizer_state_from_files(
     expected_name: str | None = None,
     overwrite_policy: _OverwriteOptions = "error",
     allow_lazy_params: bool = False,
-) -> None:
-    """Reconstruct and reattach quantizers from a config/safetensors pair.
+) -> list[tuple[torch.nn.Module, str, Quantizer]]:
+    """Reconstruct quantizers from a config/safetensors pair.
 
     Shared by `load_quantization_state` and `load_quantized_model`. Loads the
     YAML config, validates its version, reconstructs each quantizer's
-    parameters from the SafeTensors file, and reattaches the quantizers to
-    `model` honoring `overwrite_policy`.
+    parameters from the SafeTensors file, and determines where the quantizers
+    must be reattached to `model` honoring `overwrite_policy`. The model itself
+    is not changed, see `_attach_quantizers`.
 
     Args:
-        model: The model to reattach the reconstructed quantizers to.
+        model: The model the reconstructed quantizers will be reattached to.
         config_path: Path to the `config.yaml` describing the quantizers.
         model_path: Path to the SafeTensors file holding quantizer params.
         expected_name: If provided, the `name_or_path` recorded in the config
@@ -424,6 +425,10 @@ def _load_quantizer_state_from_files(
         allow_lazy_params: If False, lazy parameters recorded in the state
             raise a ValueError; if True, they emit a warning instead.
 
+    Returns:
+        The quantizers that must be attached to the model, each with the module
+        and attribute name it must be attached to.
+
     Raises:
         ValueError: If the config version is unsupported or lazy params are
             disallowed.
@@ -507,6 +512,7 @@ def _load_quantizer_state_from_files(
                     logger.error(msg)
                     raise RuntimeError(msg)
 
+    attachments: list[tuple[torch.nn.Module, str, Quantizer]] = []
     for name, quantizer in quantizers.items():
         parts = name.rsplit(".", 1)
         parent = model if len(parts) == 1 else attrgetter(parts[0])(model)
@@ -537,7 +543,39 @@ def _load_quantizer_state_from_files(
             msg = f"'{name}' is not a quantizer or was overwritten by a non-quantizer object"
             raise ValueError(msg)
 
-        setattr(parent, parent_attribute, quantizer)
+        attachments.append((parent, parent_attribute, quantizer))
+
+    return attachments
+
+
+def _attach_quantizers(attachments: list[tuple[torch.nn.Module, str, Quantizer]]) -> None:
+    """Attach quantizers at the locations determined by `_read_quantizer_state_from_files`."""
+    for parent, attribute, quantizer in attachments:
+        setattr(parent, attribute, quantizer)
+
+
+def _load_quantizer_state_from_files(
+    model: torch.nn.Module,
+    config_path: Path,
+    model_path: Path,
+    *,
+    expected_name: str | None = None,
+    overwrite_policy: _OverwriteOptions = "error",
+    allow_lazy_params: bool = False,
+) -> None:
+    """Reconstruct and reattach quantizers from a config/safetensors pair.
+
+    See `_read_quantizer_state_from_files` for the arguments and the errors raised.
+    """
+    attachments = _read_quantizer_state_from_files(
+        model,
+        config_path,
+        model_path,
+        expected_name=expected_name,
+        overwrite_policy=overwrite_policy,
+        allow_lazy_params=allow_lazy_params,
+    )
+    _attach_quantizers(attachments)
 
 
 def save_quantized_model(
@@ -709,9 +747,9 @@ def load_quantized_model(
     if expected_name is None:
         expected_name = getattr(getattr(model, "config", None), "name_or_path", None)
 
-    # Reattach quantizers first (replacing stubs), then load weights so their
-    # values land on the reconstructed module.
-    _load_quantizer_state_from_files(
+    # Read and validate everything before the model is changed, such that a failed
+    # load leaves the model as it was.
+    attachments = _read_quantizer_state_from_files(
         model,
         config_path,
         model_path,
@@ -734,11 +772,12 @@ def load_quantized_model(
             model, remove_duplicate=False, skip_stubs=False
         )
     )
-    expected_keys = {
-        name
-        for name in model.state_dict(keep_vars=True)
+    expected = {
+        name: param
+        for name, param in model.state_dict(keep_vars=True).items()
         if not name.startswith(quantizer_prefixes)
     }
+    expected_keys = expected.keys()
     missing_keys = sorted(expected_keys - weight_state.keys())
     unexpected_keys = sorted(weight_state.keys() - expected_keys)
     if missing_keys or unexpected_keys:
@@ -748,5 +787,17 @@ def load_quantized_model(
         )
         logger.error(msg)
         raise RuntimeError(msg)
+    mismatched = [
+        f"{name} (saved {tuple(weight_state[name].shape)}, expected {tuple(param.shape)})"
+        for name, param in expected.items()
+        if not torch.nn.parameter.is_lazy(param) and weight_state[name].shape != param.shape
+    ]
+    if mismatched:
+        msg = f"Saved weights do not match the shapes of this model: {', '.join(mismatched)}."
+        logger.error(msg)
+        raise RuntimeError(msg)
 
+    # Reattach quantizers first (replacing stubs), then load weights so their
+    # values land on the reconstructed module.
+    _attach_quantizers(attachments)
     model.load_state_dict(weight_state, strict=False)
-- 
2.43.0


From 58a5cb289fc3ea124b3c94a845d90e287ac6c03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:49 +0000
Subject: [PATCH 14/55] fix: refuse to load files that stem from different or
 incomplete saves

---
 src/fastforward/quantization/save_load.py | 56 +++++++++++++++++++++--
 1 file changed, 51 insertions(+), 5 deletions(-)

diff --git a/src/fastforward/quantization/save_load.py b/src/fastforward/quantization/save_load.py
index e72e956..cf7c983 100644
--- a/src/fastforward/quantization/save_load.py
+++ b/src/fastforward/quantization/save_load.py
@@ -34,6 +34,7 @@ from __future__ import annotations
 
 import json
 import logging
+import uuid
 
 from collections import defaultdict
 from operator import attrgetter
@@ -59,6 +60,31 @@ logger = logging.getLogger(__name__)
 # marker entry is written instead to keep the file readable.
 _EMPTY_STATE_MARKER = "__ff_empty_quantizer_state__"
 
+# Key under which every file of a save records the identifier of that save. A save
+# that overwrites an existing one may be cut short, the identifier makes it possible
+# to detect files that do not belong together.
+_SAVE_ID_KEY = "__ff_save_id__"
+
+
+def _read_save_id(path: Path) -> str | None:
+    """Return the identifier of the save that a SafeTensors file belongs to, if it has one."""
+    with safe_open(path, framework="pt") as f:
+        return (f.metadata() or {}).get(_SAVE_ID_KEY)
+
+
+def _check_save_ids(save_ids: dict[Path, str | None]) -> None:
+    """Raise a `RuntimeError` if files do not stem from a single save.
+
+    Args:
+        save_ids: The save identifier per file. Files that were written before
+            save identifiers were introduced have no identifier.
+    """
+    if len(set(save_ids.values())) > 1:
+        files = ", ".join(str(path) for path in save_ids)
+        msg = f"Saved files are incomplete or do not belong together: {files}"
+        logger.error(msg)
+        raise RuntimeError(msg)
+
 
 def _deduplicate_shared_tensors(
     tensors: dict[str, torch.Tensor],
@@ -228,6 +254,7 @@ def _write_quantizer_state(
     name_or_path: str | Path,
     *,
     state_filename: str,
+    save_id: str,
     allow_lazy_params: bool = False,
 ) -> Path:
     """Write the quantizer state (params + config) into `target_dir`.
@@ -244,6 +271,7 @@ def _write_quantizer_state(
             can be validated at load time.
         state_filename: File name for the quantizer parameters (e.g.
             'model.safetensors' or 'quantizer_state.safetensors').
+        save_id: Identifier of this save, recorded in both files.
         allow_lazy_params: If False, uninitialized quantizer parameters raise
             a ValueError; if True, a warning is emitted instead.
 
@@ -261,6 +289,7 @@ def _write_quantizer_state(
         "transformers_version": str(transformers_version),
         "fastforward_version": str(ff.__version__),
         "quantizers": config_quantizers,
+        _SAVE_ID_KEY: save_id,
     }
     # safetensors mis-serializes an empty tensor dict paired with empty
     # metadata, producing a file whose header fails to parse on read. A model
@@ -269,6 +298,7 @@ def _write_quantizer_state(
     # explicit marker to keep the file readable by any consumer.
     if not state and not metadata:
         metadata = {_EMPTY_STATE_MARKER: "true"}
+    metadata[_SAVE_ID_KEY] = save_id
     save_file(state, target_dir / state_filename, metadata=metadata)
     config_path = target_dir / "config.yaml"
     with open(config_path, "w") as f:
@@ -330,6 +360,7 @@ def save_quantization_state(
         assets_path,
         name_or_path,
         state_filename="model.safetensors",
+        save_id=uuid.uuid4().hex,
         allow_lazy_params=allow_lazy_params,
     )
 
@@ -432,8 +463,8 @@ def _read_quantizer_state_from_files(
     Raises:
         ValueError: If the config version is unsupported or lazy params are
             disallowed.
-        RuntimeError: If the model identifier mismatches or state keys are
-            missing/unexpected.
+        RuntimeError: If the model identifier mismatches, state keys are
+            missing/unexpected, or the files do not stem from the same save.
     """
     # Load configuration
     with open(config_path, "r") as f:
@@ -453,6 +484,11 @@ def _read_quantizer_state_from_files(
         logger.error(msg)
         raise RuntimeError(msg)
 
+    _check_save_ids({
+        config_path: config.get(_SAVE_ID_KEY),
+        model_path: _read_save_id(model_path),
+    })
+
     quantizers: dict[str, Quantizer] = config.get("quantizers", {})
     # Reconstruct quantizer state_dict by parsing metadata to map parameter names to tensor keys.
     # The metadata format "param=tensor_key" allows to load the correct tensors for each
@@ -638,12 +674,14 @@ def save_quantized_model(
     # Snapshot the model as-is: any grid-snapping/stubbing is the caller's
     # responsibility (via fuse_qdq_weights) before reaching this point.
     save_model = model
+    save_id = uuid.uuid4().hex
 
     _write_quantizer_state(
         save_model,
         artifact_path,
         name_or_path,
         state_filename="quantizer_state.safetensors",
+        save_id=save_id,
         allow_lazy_params=allow_lazy_params,
     )
 
@@ -666,13 +704,14 @@ def save_quantized_model(
     # SafeTensors rejects tensors sharing storage, so tied weights are stored
     # once and re-expanded on load from the manifest's alias map.
     weight_state, tied_weights = _deduplicate_shared_tensors(weight_state)
-    save_file(weight_state, artifact_path / "weights.safetensors")
+    save_file(weight_state, artifact_path / "weights.safetensors", metadata={_SAVE_ID_KEY: save_id})
 
     manifest = {
         "version": "1.0",
         "name_or_path": str(name_or_path),
         "fastforward_version": str(ff.__version__),
         "tied_weights": tied_weights,
+        _SAVE_ID_KEY: save_id,
     }
     with open(artifact_path / "manifest.json", "w") as f:
         json.dump(manifest, f, indent=2)
@@ -717,8 +756,9 @@ def load_quantized_model(
     Raises:
         FileNotFoundError: If any of the artifact files are missing.
         ValueError: If the manifest/config version is unsupported.
-        RuntimeError: If the model identifier mismatches, or if the saved
-            weights do not match the model's expected weight keys.
+        RuntimeError: If the model identifier mismatches, if the saved
+            weights do not match the model's expected weight keys, or if the
+            files do not stem from the same save.
         QuantizationError: If a quantizer is already initialized and
             `overwrite_policy` is 'error'.
 
@@ -797,6 +837,12 @@ def load_quantized_model(
         logger.error(msg)
         raise RuntimeError(msg)
 
+    _check_save_ids({
+        manifest_path: manifest.get(_SAVE_ID_KEY),
+        model_path: _read_save_id(model_path),
+        weights_path: _read_save_id(weights_path),
+    })
+
     # Reattach quantizers first (replacing stubs), then load weights so their
     # values land on the reconstructed module.
     _attach_quantizers(attachments)
-- 
2.43.0


From 0ce4711b4e4ddb14851219b25c0a678edc53c950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:06 +0000
Subject: [PATCH 15/55] fix: keep an existing save intact when saving over it
 fails

---
 src/fastforward/quantization/save_load.py | 60 +++++++++++++++--------
 1 file changed, 39 insertions(+), 21 deletions(-)

diff --git a/src/fastforward/quantization/save_load.py b/src/fastforward/quantization/save_load.py
index cf7c983..e055cab 100644
--- a/src/fastforward/quantization/save_load.py
+++ b/src/fastforward/quantization/save_load.py
@@ -32,11 +32,14 @@ which owns that transform.
 
 from __future__ import annotations
 
+import contextlib
 import json
 import logging
+import tempfile
 import uuid
 
 from collections import defaultdict
+from collections.abc import Iterator
 from operator import attrgetter
 from pathlib import Path
 
@@ -66,6 +69,18 @@ _EMPTY_STATE_MARKER = "__ff_empty_quantizer_state__"
 _SAVE_ID_KEY = "__ff_save_id__"
 
 
+@contextlib.contextmanager
+def _staged_files(target_dir: Path) -> Iterator[Path]:
+    """Yield a directory whose files are moved to `target_dir` once all are written.
+
+    If writing any of the files fails, the files in `target_dir` are left as they were.
+    """
+    with tempfile.TemporaryDirectory(prefix=".save-", dir=target_dir) as staging_dir:
+        yield Path(staging_dir)
+        for path in sorted(Path(staging_dir).iterdir()):
+            path.replace(target_dir / path.name)
+
+
 def _read_save_id(path: Path) -> str | None:
     """Return the identifier of the save that a SafeTensors file belongs to, if it has one."""
     with safe_open(path, framework="pt") as f:
@@ -355,14 +370,16 @@ def save_quantization_state(
     except (FileExistsError, NotADirectoryError) as e:
         msg = f"Cannot create directory {assets_path} because of an existing file."
         raise ValueError(msg) from e
-    return _write_quantizer_state(
-        model,
-        assets_path,
-        name_or_path,
-        state_filename="model.safetensors",
-        save_id=uuid.uuid4().hex,
-        allow_lazy_params=allow_lazy_params,
-    )
+    with _staged_files(assets_path) as staging_path:
+        config_path = _write_quantizer_state(
+            model,
+            staging_path,
+            name_or_path,
+            state_filename="model.safetensors",
+            save_id=uuid.uuid4().hex,
+            allow_lazy_params=allow_lazy_params,
+        )
+    return assets_path / config_path.name
 
 
 def load_quantization_state(
@@ -676,15 +693,6 @@ def save_quantized_model(
     save_model = model
     save_id = uuid.uuid4().hex
 
-    _write_quantizer_state(
-        save_model,
-        artifact_path,
-        name_or_path,
-        state_filename="quantizer_state.safetensors",
-        save_id=save_id,
-        allow_lazy_params=allow_lazy_params,
-    )
-
     # Model weights only (bias, norms, embeddings, ...): exclude quantizer
     # parameters/buffers, which are persisted separately in
     # `quantizer_state.safetensors`. Saving them here too would duplicate
@@ -704,8 +712,6 @@ def save_quantized_model(
     # SafeTensors rejects tensors sharing storage, so tied weights are stored
     # once and re-expanded on load from the manifest's alias map.
     weight_state, tied_weights = _deduplicate_shared_tensors(weight_state)
-    save_file(weight_state, artifact_path / "weights.safetensors", metadata={_SAVE_ID_KEY: save_id})
-
     manifest = {
         "version": "1.0",
         "name_or_path": str(name_or_path),
@@ -713,8 +719,20 @@ def save_quantized_model(
         "tied_weights": tied_weights,
         _SAVE_ID_KEY: save_id,
     }
-    with open(artifact_path / "manifest.json", "w") as f:
-        json.dump(manifest, f, indent=2)
+    with _staged_files(artifact_path) as staging_path:
+        _write_quantizer_state(
+            save_model,
+            staging_path,
+            name_or_path,
+            state_filename="quantizer_state.safetensors",
+            save_id=save_id,
+            allow_lazy_params=allow_lazy_params,
+        )
+        save_file(
+            weight_state, staging_path / "weights.safetensors", metadata={_SAVE_ID_KEY: save_id}
+        )
+        with open(staging_path / "manifest.json", "w") as f:
+            json.dump(manifest, f, indent=2)
 
     return artifact_path
 
-- 
2.43.0


From 39831066cac5a45858b80fdf7e07abcfda081ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:45 +0000
Subject: [PATCH 16/55] fix: reschedule a graph after adding an input or output

---
 src/fastforward/_orchestration/graph_module.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/fastforward/_orchestration/graph_module.py b/src/fastforward/_orchestration/graph_module.py
index 7540431..bc84605 100644
--- a/src/fastforward/_orchestration/graph_module.py
+++ b/src/fastforward/_orchestration/graph_module.py
@@ -491,6 +491,7 @@ class GraphModule(torch.nn.Module):
         if name in self._inputs:
             msg = f"Duplicate input name: {name}"
             raise ValueError(msg)
+        self._invalidate_caches()
         ref = InputRef(uuid.uuid4(), name)
         self._inputs[name] = ref
         return ref
@@ -512,6 +513,7 @@ class GraphModule(torch.nn.Module):
                         raise ValueError(msg)
 
                     # Add the original node (not the resolved value) to the outputs.
+                    self._invalidate_caches()
                     self._outputs.append(node)
 
                 case _:
-- 
2.43.0


From 1f360c42c5e378dd37090be790a99fdf0df9e3b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:45 +0000
Subject: [PATCH 17/55] fix: return outputs that do not depend on the batches
 along with those that do

---
 src/fastforward/_orchestration/instruction_engine.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fastforward/_orchestration/instruction_engine.py b/src/fastforward/_orchestration/instruction_engine.py
index ad38f3d..8c666a9 100644
--- a/src/fastforward/_orchestration/instruction_engine.py
+++ b/src/fastforward/_orchestration/instruction_engine.py
@@ -478,7 +478,9 @@ class ReturnOutputs(Instruction):
                 context_outputs[context].append(dataset)
 
         context_datasets = {
-            context: tuple(ActivationDataset.merge(datasets).batches)
+            context: tuple(
+                ActivationDataset.merge(ActivationDataset.broadcast(datasets)).batches
+            )
             for context, datasets in context_outputs.items()
         }
 
-- 
2.43.0


From 15cea904e2966af7d588e0d6d2bf9448f7cfdcf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:45 +0000
Subject: [PATCH 18/55] fix: execute graphs in which an unused node reads a
 nested attribute

---
 src/fastforward/_orchestration/instruction_engine.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/fastforward/_orchestration/instruction_engine.py b/src/fastforward/_orchestration/instruction_engine.py
index 8c666a9..46d22a2 100644
--- a/src/fastforward/_orchestration/instruction_engine.py
+++ b/src/fastforward/_orchestration/instruction_engine.py
@@ -352,8 +352,13 @@ class LoadAttribute(Instruction):
     attribute: str | int
 
     def execute(self, register: ActivationRegister) -> None:  # noqa: D102
-        for context, dataset in register.items_for(self.source):
-            register.store(self.target, context, self._extract_attribute(dataset))
+        register.store_all(
+            self.target,
+            {
+                context: self._extract_attribute(dataset)
+                for context, dataset in register.items_for(self.source)
+            },
+        )
 
     def _extract_attribute(self, dataset: ActivationDataset) -> ActivationDataset:
         """Extract attribute/item from each batch in the dataset."""
-- 
2.43.0


From 3d81d7f7fd98e05a6b1a81937ab1631d35b04edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:00 +0000
Subject: [PATCH 19/55] fix: cut subgraphs that read nested attributes of
 outside values

---
 .../_orchestration/graph_module.py            | 42 ++++++++++++-------
 1 file changed, 26 insertions(+), 16 deletions(-)

diff --git a/src/fastforward/_orchestration/graph_module.py b/src/fastforward/_orchestration/graph_module.py
index bc84605..a52a7d9 100644
--- a/src/fastforward/_orchestration/graph_module.py
+++ b/src/fastforward/_orchestration/graph_module.py
@@ -113,6 +113,17 @@ class AttributeRef(_BaseRef):
         return self.reference
 
 
+def _lifted_name(reference: _BaseRef) -> str:
+    """Name under which `reference` is passed across a graph boundary, e.g. `node[0][attr]`."""
+    match reference:
+        case AttributeRef(reference=base, attribute=attribute):
+            return f"{_lifted_name(base)}[{attribute}]"
+        case NamedRef(name=name):
+            return name
+    msg = f"{reference} has no name"
+    raise TypeError(msg)
+
+
 def remap_subgraph_reference(
     old_reference: _BaseRef,
     new_context: Mapping[str, _BaseRef],
@@ -145,12 +156,12 @@ def remap_subgraph_reference(
         case NodeRef(id=ref_id, name=node_name):
             new_name = f"{scope_name}.{node_name}" if scope_name else node_name
             return NodeRef(ref_id, new_name)
-        case AttributeRef(reference=ref, attribute=attr):
+        case AttributeRef(reference=ref):
             if isinstance(base := ref.unwrap_ref(), (NodeRef, InputRef)):
                 # Node/Input outside of subgraph that only requires attribute access
                 # (e.g. we do not need to remap 'base' only 'base[attr]').
                 # Here it is expected that 'base' is not present in context but 'base[attr]' is.
-                lifted_key = f"{base.name}[{attr}]"
+                lifted_key = _lifted_name(old_reference)
                 is_external_node = isinstance(base, NodeRef) and base.name not in subgraph_nodes
                 is_external_input = isinstance(base, InputRef)
                 if (is_external_node or is_external_input) and lifted_key in new_context:
@@ -788,10 +799,7 @@ def create_subgraph(graph: GraphModule, path_nodes: set[NodeRef]) -> GraphModule
             if not is_external:
                 continue
 
-            if isinstance(arg, AttributeRef):
-                external_dependencies.append(f"{base.name}[{arg.attribute}]")
-            else:
-                external_dependencies.append(str(base.name))
+            external_dependencies.append(_lifted_name(arg))
 
         return external_dependencies
 
@@ -1142,16 +1150,18 @@ def _coarse_complement(graph: GraphModule, targets: set[NodeRef]) -> list[NodeRe
 
 def _resolve_subgraph_input(name: str, context: dict[str, _BaseRef]) -> _BaseRef:
     """Look up a subgraph input name (possibly ``'name[attr]'``) in the context."""
-    base, sep, rest = name.partition("[")
-    if not sep or not rest.endswith("]"):
-        return context[name]
-    inner = rest[:-1]
-    base_ref = context[base]
-    try:
-        return base_ref[int(inner)]
-    except ValueError:
-        attr_ref: _BaseRef = getattr(base_ref, inner)
-        return attr_ref
+    attributes: list[str] = []
+    while name not in context and name.endswith("]"):
+        name, _, attribute = name[:-1].rpartition("[")
+        attributes.append(attribute)
+
+    ref = context[name]
+    for attribute in reversed(attributes):
+        try:
+            ref = ref[int(attribute)]
+        except ValueError:
+            ref = ref[attribute]
+    return ref
 
 
 def reduce_resolution(
-- 
2.43.0


From 2d0c9a41905ae605a9092cd9ee959d9250bfad8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:53 +0000
Subject: [PATCH 20/55] fix: keep named tuples when moving activations between
 devices

---
 src/fastforward/_orchestration/instruction_engine.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fastforward/_orchestration/instruction_engine.py b/src/fastforward/_orchestration/instruction_engine.py
index 46d22a2..4e6373d 100644
--- a/src/fastforward/_orchestration/instruction_engine.py
+++ b/src/fastforward/_orchestration/instruction_engine.py
@@ -551,6 +551,9 @@ def _move_to_device(value: Any, device: torch.device) -> Any:
     match value:
         case torch.Tensor():
             return value.to(device=device)
+        case tuple() if hasattr(value, "_make"):
+            # Keep namedtuples, their fields may be accessed by name downstream.
+            return value._make(_move_to_device(v, device) for v in value)
         case tuple():
             return tuple(_move_to_device(v, device) for v in value)
         case list():
-- 
2.43.0


From ccda936bf703a8fc4c777e92b5db9214005159c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:07 +0000
Subject: [PATCH 21/55] fix: reduce a graph to coarser resolutions without
 mixing up its values

---
 .../_orchestration/graph_module.py            | 158 ++++++++++++++----
 1 file changed, 126 insertions(+), 32 deletions(-)

diff --git a/src/fastforward/_orchestration/graph_module.py b/src/fastforward/_orchestration/graph_module.py
index a52a7d9..d266eab 100644
--- a/src/fastforward/_orchestration/graph_module.py
+++ b/src/fastforward/_orchestration/graph_module.py
@@ -367,6 +367,9 @@ class GraphModule(torch.nn.Module):
         # Binding represents fold "args", in the order its forward() expects them.
         self._fold_bindings: dict[uuid.UUID, tuple[_BaseRef, ...]] = {}
 
+        # References that represent the fold's return values, in the order its forward() returns them.
+        self._fold_returns: dict[uuid.UUID, tuple[NodeRef | AttributeRef, ...]] = {}
+
         self._program: Any = None
         self._engine: InstructionEngine | None = None
         self._topo_order: list[NodeRef] | None = None
@@ -719,14 +722,25 @@ class GraphModule(torch.nn.Module):
                         remap_reference(old_reference=b) for b in inner_binding
                     )
 
+        def remap_outputs(
+            outputs: Sequence[NodeRef | AttributeRef],
+        ) -> tuple[NodeRef | AttributeRef, ...]:
+            remapped_outputs: list[NodeRef | AttributeRef] = []
+            for out_ref in outputs:
+                remapped = remap_reference(old_reference=out_ref)
+                assert isinstance(remapped, (NodeRef, AttributeRef))
+                remapped_outputs.append(remapped)
+            return tuple(remapped_outputs)
+
+        for fold_id, returns in subgraph._fold_returns.items():
+            self._fold_returns[fold_id] = remap_outputs(returns)
+
         # Return the in-lined subgraph outputs in stored order to preserve positional semantics.
-        new_output_refs = []
-        for out_ref in subgraph._outputs:
-            remapped = remap_reference(old_reference=out_ref)
-            assert isinstance(remapped, (NodeRef, AttributeRef))
-            new_output_refs.append(remapped)
+        new_output_refs = remap_outputs(subgraph._outputs)
+        if fold_ref is not None:
+            self._fold_returns[fold_ref.id] = new_output_refs
 
-        return tuple(new_output_refs)
+        return new_output_refs
 
     def forward(self, *args: Any, **kwargs: Any) -> Any:
         """Forward inputs through the GraphModule.
@@ -1095,28 +1109,93 @@ OutputNode = NodeRef | GraphModule
 
 
 def node_order(graph: GraphModule, nodes: list[OutputNode]) -> list[OutputNode]:
-    """Sort nodes into a topologically-valid sequence relative to `graph`."""
+    """Sort nodes into a topologically-valid sequence relative to `graph`.
+
+    Every leaf of `graph` that a node of the sequence depends on must be part of one of
+    the nodes. Folds and subgraphs represent all leaves they contain.
+
+    Raises:
+        ValueError: If the nodes depend on each other cyclically.
+    """
     topo = {ref: i for i, ref in enumerate(topological_sort(graph))}
 
-    def _sort_key(node: OutputNode) -> int:
+    leaves: list[set[NodeRef]] = []
+    for node in nodes:
         match node:
             case NodeRef() if node.id in graph._fold_ids:
-                leaves = graph.fold_outputs(node)
-                return max(topo[leaf] for leaf in leaves) if leaves else 0
+                leaves.append(graph.leaf_nodes(node))
             case NodeRef():
-                return topo[node]
+                leaves.append({node})
             case GraphModule() as subgraph:
-                bases = [ref.unwrap_ref() for ref in subgraph._outputs]
-                return max(
-                    topo[graph._node_refs[base.id]] for base in bases if isinstance(base, NodeRef)
-                )
-
-    return sorted(nodes, key=_sort_key)
-
+                leaves.append({graph._node_refs[node_id] for node_id in subgraph._nodes})
+
+    owner = {leaf: i for i, members in enumerate(leaves) for leaf in members}
+    dependencies: list[set[int]] = []
+    for i, (node, members) in enumerate(zip(nodes, leaves)):
+        # A fold is called with its own arguments, whether its leaves use them or not.
+        readers = {*members, node} if isinstance(node, NodeRef) else members
+        inputs = {dep for reader in readers for dep in graph.node_inputs(reader)}
+        dependencies.append({owner[dep] for dep in inputs if dep in owner} - {i})
+
+    # Take the nodes in the order in which their last leaf appears, dependencies first.
+    preference = sorted(
+        range(len(nodes)), key=lambda i: max((topo[leaf] for leaf in leaves[i]), default=0)
+    )
+    order: list[int] = []
+    done: set[int] = set()
+    while len(order) < len(nodes):
+        ready = next((i for i in preference if i not in done and dependencies[i] <= done), None)
+        if ready is None:
+            raise _CyclicNodesError([nodes[i] for i in preference if i not in done])
+        order.append(ready)
+        done.add(ready)
+
+    return [nodes[i] for i in order]
+
+
+class _CyclicNodesError(ValueError):
+    """Raised when nodes have no topologically-valid sequence."""
+
+    def __init__(self, nodes: list[OutputNode]) -> None:
+        names = [node.name if isinstance(node, NodeRef) else "subgraph" for node in nodes]
+        super().__init__(f"Circular dependency detected among nodes: {names}")
+        self.nodes = nodes
+
+
+def _reads_inside_fold(graph: GraphModule, fold_ref: NodeRef) -> bool:
+    """True if the values of the fold that are used outside of it are not all returned by it."""
+    leaves = graph.leaf_nodes(fold_ref)
+    returned = {_lifted_name(ref) for ref in graph._fold_returns.get(fold_ref.id, ())}
+
+    def is_returned(ref: _BaseRef) -> bool:
+        if isinstance(ref, NamedRef) and ref not in leaves:
+            return True
+        if _lifted_name(ref) in returned:
+            return True
+        return isinstance(ref, AttributeRef) and is_returned(ref.reference)
+
+    def is_inside(ref: NodeRef | None) -> bool:
+        while ref is not None and ref != fold_ref:
+            ref = graph._nodes[ref.id].parent
+        return ref is not None
+
+    outside: list[_BaseRef] = [*graph._outputs]
+    for node_ref in graph._node_refs.values():
+        if not is_inside(node_ref):
+            node = graph._nodes[node_ref.id]
+            outside.extend((*node.args, *node.kwargs.values()))
+    return not all(is_returned(ref) for ref in outside if isinstance(ref.unwrap_ref(), NodeRef))
+
+
+def _coarse_complement(
+    graph: GraphModule, targets: set[NodeRef], unfold: Collection[NodeRef] = ()
+) -> list[NodeRef]:
+    """Return the maximally-coarse set of nodes that fills in everything not in `targets`.
 
-def _coarse_complement(graph: GraphModule, targets: set[NodeRef]) -> list[NodeRef]:
-    """Return the maximally-coarse set of nodes that fills in everything not in `targets`."""
+    The folds in `unfold` are not used as a whole.
+    """
     target_ids = {ref.id for ref in targets}
+    unfold_ids = {ref.id for ref in unfold}
 
     def has_target_descendant(fold_id: uuid.UUID) -> bool:
         for nid, node in graph._nodes.items():
@@ -1139,7 +1218,11 @@ def _coarse_complement(graph: GraphModule, targets: set[NodeRef]) -> list[NodeRe
         for child_id in children:
             if child_id in target_ids:
                 continue
-            if child_id in graph._fold_ids and has_target_descendant(child_id):
+            if child_id in graph._fold_ids and (
+                child_id in unfold_ids
+                or has_target_descendant(child_id)
+                or _reads_inside_fold(graph, graph._node_refs[child_id])
+            ):
                 collect(child_id)
             else:
                 complement.append(graph._node_refs[child_id])
@@ -1196,19 +1279,31 @@ def reduce_resolution(
         if isinstance(resolved.target, GraphModule):
             subgraphs.append((resolved.nodes, resolved.target))
 
-    # Now create the coarse complement. whatever we dont see as targets, try and get the
-    # coarsest level (try not to unfold into leaves if not needed).
-    complement = _coarse_complement(graph, targets)
+    path_targets: set[NodeRef] = set().union(*(path_nodes for path_nodes, _ in subgraphs))
 
-    for path_nodes, _ in subgraphs:
-        targets -= path_nodes
+    # Now create the coarse complement. whatever we dont see as targets, try and get the
+    # coarsest level (try not to unfold into leaves if not needed). Then order the new graph's
+    # path, for which folds that other nodes both precede and succeed have to be unfolded.
+    unfold: set[NodeRef] = set()
+    while True:
+        complement = _coarse_complement(graph, targets, unfold)
+        try:
+            path = node_order(
+                graph, [*(targets - path_targets), *complement, *[gm for _, gm in subgraphs]]
+            )
+            break
+        except _CyclicNodesError as e:
+            folds = {ref for ref in complement if ref.id in graph._fold_ids and ref in e.nodes}
+            if not folds:
+                raise
+            unfold |= folds
 
     new_graph = GraphModule()
     context: dict[str, _BaseRef] = {name: new_graph.add_input(name) for name in graph.input_names}
     subgraph_idx = 0
 
     # Rewire the new graph's path in a dependency-based (topo) order.
-    for node in node_order(graph, [*targets, *complement, *[gm for _, gm in subgraphs]]):
+    for node in path:
         match node:
             case GraphModule() as subgraph:
                 args = [_resolve_subgraph_input(name, context) for name in subgraph.input_names]
@@ -1217,8 +1312,7 @@ def reduce_resolution(
                 subgraph_idx += 1
 
                 for i, out in enumerate(subgraph._outputs):
-                    if isinstance(base := out.unwrap_ref(), NodeRef):
-                        context[base.name] = ref if len(subgraph._outputs) == 1 else ref[i]
+                    context[_lifted_name(out)] = ref if len(subgraph._outputs) == 1 else ref[i]
 
             case NodeRef(id=node_id, name=node_name) if node_id in graph._fold_ids:
                 original_node = graph._nodes[node_id]
@@ -1232,9 +1326,9 @@ def reduce_resolution(
                 )
                 context[node_name] = ref
 
-                fold_outputs = graph.fold_outputs(node)
-                for i, leaf in enumerate(fold_outputs):
-                    context[leaf.name] = ref if len(fold_outputs) == 1 else ref[i]
+                returns = graph._fold_returns[node_id]
+                for i, out in enumerate(returns):
+                    context[_lifted_name(out)] = ref if len(returns) == 1 else ref[i]
 
             case NodeRef(id=node_id, name=node_name):
                 original_node = graph._nodes[node_id]
-- 
2.43.0


From 9d4ec3185c9b3b6b3d0c55006dc138afd16f5d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:07 +0000
Subject: [PATCH 22/55] fix: pass values to a subgraph node as they are instead
 of as batches

---
 .../_orchestration/graph_module.py            | 21 +++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/fastforward/_orchestration/graph_module.py b/src/fastforward/_orchestration/graph_module.py
index d266eab..106ac40 100644
--- a/src/fastforward/_orchestration/graph_module.py
+++ b/src/fastforward/_orchestration/graph_module.py
@@ -370,6 +370,9 @@ class GraphModule(torch.nn.Module):
         # References that represent the fold's return values, in the order its forward() returns them.
         self._fold_returns: dict[uuid.UUID, tuple[NodeRef | AttributeRef, ...]] = {}
 
+        # Inputs are values rather than batches if the graph is called as a node of another graph.
+        self._called_as_node = False
+
         self._program: Any = None
         self._engine: InstructionEngine | None = None
         self._topo_order: list[NodeRef] | None = None
@@ -757,14 +760,19 @@ class GraphModule(torch.nn.Module):
         Returns:
             Output tensor(s) from the graph's output nodes
         """
-        args, kwargs = _sanitize_inputs(self.input_names, args, kwargs)
+        from fastforward._orchestration.instruction_engine import (
+            ActivationDataset,
+            InstructionEngine,
+            InstructionScheduler,
+        )
 
-        if self._engine is None:
-            from fastforward._orchestration.instruction_engine import (
-                InstructionEngine,
-                InstructionScheduler,
-            )
+        if self._called_as_node:
+            args = tuple(ActivationDataset([arg]) for arg in args)
+            kwargs = {name: ActivationDataset([arg]) for name, arg in kwargs.items()}
+        else:
+            args, kwargs = _sanitize_inputs(self.input_names, args, kwargs)
 
+        if self._engine is None:
             scheduler = InstructionScheduler()
             self._program = scheduler.schedule(self)
             self._engine = InstructionEngine()
@@ -1308,6 +1316,7 @@ def reduce_resolution(
             case GraphModule() as subgraph:
                 args = [_resolve_subgraph_input(name, context) for name in subgraph.input_names]
                 # Path-specific subgraphs have _no_ kwargs, that wiring is done by input name only.
+                subgraph._called_as_node = True
                 ref = new_graph.add_node(f"subgraph_{subgraph_idx}", subgraph, args, kwargs={})
                 subgraph_idx += 1
 
-- 
2.43.0


From 5533ecb7a9c01d5336db29281983476726d46984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:07 +0000
Subject: [PATCH 23/55] fix: refuse to inline a subgraph twice without leaving
 a trace

---
 src/fastforward/_orchestration/graph_module.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fastforward/_orchestration/graph_module.py b/src/fastforward/_orchestration/graph_module.py
index 106ac40..19c4842 100644
--- a/src/fastforward/_orchestration/graph_module.py
+++ b/src/fastforward/_orchestration/graph_module.py
@@ -638,6 +638,10 @@ class GraphModule(torch.nn.Module):
             msg = "Subgraph has no output nodes defined"
             raise ValueError(msg)
 
+        if duplicates := [node.name for node in subgraph._nodes.values() if node.id in self._nodes]:
+            msg = f"Nodes of the subgraph are already part of this graph: {duplicates}"
+            raise ValueError(msg)
+
         # Reset cached derived state since the graph will be altered.
         self._invalidate_caches()
 
-- 
2.43.0


From 14e21ae21f6867646df84bd9448b084dd9520405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:03 +0000
Subject: [PATCH 24/55] fix: keep the position of stages that replace or follow
 another in a pipeline

---
 src/fastforward/export/pipeline/core.py | 31 +++++++++++++++----------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/fastforward/export/pipeline/core.py b/src/fastforward/export/pipeline/core.py
index 33ed274..c79f395 100644
--- a/src/fastforward/export/pipeline/core.py
+++ b/src/fastforward/export/pipeline/core.py
@@ -49,6 +49,10 @@ class StageReference:
             raise KeyError(msg)
         del self._dependencies[dep]
 
+    def _replace_dependency(self, dep: "StageReference", new_dep: "StageReference") -> None:
+        """Depend on `new_dep` in the position of `dep`, results are passed in that order."""
+        self._set_dependencies([new_dep if d is dep else d for d in self._dependencies])
+
     def __repr__(self) -> str:
         return f"StageReference(stage_fn={self.stage_fn}, name={self.name})"
 
@@ -236,8 +240,7 @@ class Pipeline:
         new_stage = self.register_stage(stage_fn, name, capture_stage_output)
         new_stage.depends_on(target_ref)
         for dependent in existing_dependents:
-            dependent._remove_dependency(target_ref)
-            dependent.depends_on(new_stage)
+            dependent._replace_dependency(target_ref, new_stage)
         return new_stage
 
     def replace_stage(
@@ -276,26 +279,30 @@ class Pipeline:
             msg = f"Stage name '{new_name}' is already registered"
             raise ValueError(msg)
 
-        was_eval = target_ref in self._evaluation_stages
         was_captured = target_ref in self._result_stages
         capture = capture_stage_output if capture_stage_output is not None else was_captured
 
         inherited = list(target_ref._dependencies)
         dependents = self._dependents_of(target_ref)
 
-        del self._stages[target_ref]
-        self._result_stages.pop(target_ref, None)
-        self._evaluation_stages.pop(target_ref, None)
+        new_stage = StageReference(stage_fn, new_name)
+        new_stage.depends_on(*inherited)
+
+        # The replacement takes the position of the target everywhere.
+        def substitute(stages: dict[StageReference, str]) -> dict[StageReference, str]:
+            refs = [new_stage if stage is target_ref else stage for stage in stages]
+            return {ref: ref.name for ref in refs}
 
-        if was_eval:
-            new_stage = self.register_eval_stage(stage_fn, new_name, capture)
+        self._stages = substitute(self._stages)
+        self._evaluation_stages = substitute(self._evaluation_stages)
+        self._result_stages = substitute(self._result_stages)
+        if capture:
+            self._result_stages[new_stage] = new_stage.name
         else:
-            new_stage = self.register_stage(stage_fn, new_name, capture)
-        new_stage.depends_on(*inherited)
+            self._result_stages.pop(new_stage, None)
 
         for dependent in dependents:
-            dependent._remove_dependency(target_ref)
-            dependent.depends_on(new_stage)
+            dependent._replace_dependency(target_ref, new_stage)
 
         return new_stage
 
-- 
2.43.0


From 95d8beb2dd93c1a6a6b76868362968eed9d822be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:14 +0000
Subject: [PATCH 25/55] fix: do not scale the calibration data of GPTQ in place

---
 src/fastforward/quantization/gptq.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/fastforward/quantization/gptq.py b/src/fastforward/quantization/gptq.py
index de3ea4f..cd17de4 100644
--- a/src/fastforward/quantization/gptq.py
+++ b/src/fastforward/quantization/gptq.py
@@ -306,7 +306,8 @@ def calculate_hessian(
         hessian.mul_(n_samples / (n_samples + x.shape[1]))
         n_samples += x.shape[1]
 
-        x.mul_(math.sqrt(2.0 / n_samples))
+        # `x` may share memory with the activations of the caller, do not scale it in-place.
+        x = x * math.sqrt(2.0 / n_samples)
         hessian.add_(x @ x.transpose(0, 1))
 
     # Handle dead neurons (zero diagonal in Hessian).
-- 
2.43.0


From a2105f852250c476a14bdb36fc6ca6b76f2d53ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:36 +0000
Subject: [PATCH 26/55] fix: update the weight as the last step of GPTQ

---
 src/fastforward/quantization/gptq.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/fastforward/quantization/gptq.py b/src/fastforward/quantization/gptq.py
index cd17de4..e4a9ef4 100644
--- a/src/fastforward/quantization/gptq.py
+++ b/src/fastforward/quantization/gptq.py
@@ -139,9 +139,11 @@ def gptq(
     quantized_weights = quantized_weights[:, restore_order]
     errors = errors[:, restore_order]
 
+    loss = torch.mean(torch.abs(errors)).item()
+
+    # Nothing may fail after the weight is updated.
     module.weight.copy_(quantized_weights.view(original_weight_shape).to(module.weight.dtype))
 
-    loss = torch.mean(torch.abs(errors)).item()
     num_bits = module.weight_quantizer.num_bits
     logger.info("[GPTQ][wbits=%d][%s] loss=%.6f", num_bits, layer_name, loss)
 
-- 
2.43.0


From 922b54b276808b73a35c7dff7565a3b9031028d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:38 +0000
Subject: [PATCH 27/55] fix: do not reduce the precision of weights whose
 quantizer is disabled when fusing

---
 src/fastforward/quantization/fuse.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/fastforward/quantization/fuse.py b/src/fastforward/quantization/fuse.py
index 83d6735..2ef0da6 100644
--- a/src/fastforward/quantization/fuse.py
+++ b/src/fastforward/quantization/fuse.py
@@ -88,6 +88,11 @@ class ConventionDiscovery:
             yield parent, self._weight_attr, quantizer
 
 
+def _dequantize(data: torch.Tensor) -> torch.Tensor:
+    # `torch.Tensor.dequantize` changes the dtype of tensors that are not quantized.
+    return data.dequantize() if isinstance(data, ff.QuantizedTensor) else data
+
+
 def _fuse_target(
     module: torch.nn.Module,
     weight_attr: str,
@@ -108,7 +113,7 @@ def _fuse_target(
     # Disable strict quantization: the quantizer returns a QuantizedTensor which
     # we immediately dequantize to a regular tensor.
     with ff.strict_quantization(False):
-        qdq_weight = quantizer(weight).dequantize()
+        qdq_weight = _dequantize(quantizer(weight))
 
     if qdq_weight is weight:
         # The quantizer was a no-op (e.g. disabled); nothing to fuse or stub.
@@ -178,7 +183,7 @@ def _check_tied_weight_targets(
         reference: torch.Tensor | None = None
         for module, weight_attr, quantizer in group:
             with ff.strict_quantization(False):
-                qdq_weight = quantizer(weight).dequantize()
+                qdq_weight = _dequantize(quantizer(weight))
             if reference is None:
                 reference = qdq_weight
             elif not torch.equal(reference, qdq_weight):
-- 
2.43.0


From 194322195f6c6f00ea5423e3cff6a94eaf59cae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:43 +0000
Subject: [PATCH 28/55] fix: fuse the weights of all modules that share a
 weight quantizer

---
 src/fastforward/quantization/fuse.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/fastforward/quantization/fuse.py b/src/fastforward/quantization/fuse.py
index 2ef0da6..91a3409 100644
--- a/src/fastforward/quantization/fuse.py
+++ b/src/fastforward/quantization/fuse.py
@@ -80,12 +80,16 @@ class ConventionDiscovery:
             if quantizer.is_stub():
                 continue
 
-            parent = result.parent
-            weight = getattr(parent, self._weight_attr, None)
-            if not isinstance(weight, torch.nn.Parameter):
-                continue
+            # A quantizer is found once, but it may be shared by several modules.
+            for parent in model.modules():
+                if parent._modules.get(result.parent_attribute) is not quantizer:
+                    continue
+
+                weight = getattr(parent, self._weight_attr, None)
+                if not isinstance(weight, torch.nn.Parameter):
+                    continue
 
-            yield parent, self._weight_attr, quantizer
+                yield parent, self._weight_attr, quantizer
 
 
 def _dequantize(data: torch.Tensor) -> torch.Tensor:
-- 
2.43.0


From a2397e14f16c587e4c663adf38db4c099b6f7a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:53 +0000
Subject: [PATCH 29/55] fix: keep quantizers shared when initializing them

---
 src/fastforward/quantization/quant_init.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/fastforward/quantization/quant_init.py b/src/fastforward/quantization/quant_init.py
index 9257a33..508f485 100644
--- a/src/fastforward/quantization/quant_init.py
+++ b/src/fastforward/quantization/quant_init.py
@@ -70,6 +70,7 @@ class QuantizerTagSelectorFragment(Fragment):
 
 
 def _initialize_quantizer(
+    root: torch.nn.Module,
     result: FilterResult,
     quantizer_factory: _QuanttizerFactory,
     overwrite_policy: _OverwriteOptions = "error",
@@ -98,7 +99,15 @@ def _initialize_quantizer(
             raise ValueError(msg)
 
     quantizer = quantizer_factory(result.full_name, cast(Quantizer, result.module))
-    return result.update_module(quantizer, safe=safe)
+    new_result = result.update_module(quantizer, safe=safe)
+
+    # A quantizer is found once, but may be shared. Keep it shared.
+    for parent in list(root.modules()):
+        for name, child in list(parent._modules.items()):
+            if child is module:
+                setattr(parent, name, quantizer)
+
+    return new_result
 
 
 def _ensure_factory_func(
@@ -158,6 +167,7 @@ class QuantizerCollection(mpath.MPathCollection):
         for result in self._results:
             _results.append(
                 _initialize_quantizer(
+                    root=self._root,
                     result=result,
                     quantizer_factory=quantizer_factory,
                     overwrite_policy=overwrite_policy,
@@ -380,6 +390,7 @@ class QuantizationConfig:
         for best_item in matches.values():
             factory = _ensure_factory_func(best_item.rule.factory, best_item.rule.kwargs)
             _initialize_quantizer(
+                root=model,
                 result=best_item.filter_result,
                 quantizer_factory=factory,
                 overwrite_policy=overwrite_policy,
-- 
2.43.0


From 95b1454bd565fd60f7b37d7fc7adee3b4a6a248c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:53 +0000
Subject: [PATCH 30/55] fix: find modules by every name their parent holds them
 under

---
 src/fastforward/mpath/_search.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fastforward/mpath/_search.py b/src/fastforward/mpath/_search.py
index 846ff77..396e897 100644
--- a/src/fastforward/mpath/_search.py
+++ b/src/fastforward/mpath/_search.py
@@ -328,7 +328,10 @@ def search(
         active_item = active_modules.pop()
         selector = active_item.selector
 
-        for child_name, child in active_item.result.module.named_children():
+        # `named_children` would skip all but the first name of a shared child.
+        for child_name, child in active_item.result.module._modules.items():
+            if child is None:
+                continue
             matches, continuations = selector.matches_and_continuations(child_name, child)
 
             for match in matches:
-- 
2.43.0


From 8034d0680008becc2cfd6b2c500cfd47fbe064fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:09 +0000
Subject: [PATCH 31/55] fix: do not change the strict quantization flag in
 scaled dot product attention

---
 src/fastforward/nn/functional/custom/sdpa.py | 32 ++++++++++++--------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/src/fastforward/nn/functional/custom/sdpa.py b/src/fastforward/nn/functional/custom/sdpa.py
index 5ce481f..c20b3c5 100644
--- a/src/fastforward/nn/functional/custom/sdpa.py
+++ b/src/fastforward/nn/functional/custom/sdpa.py
@@ -12,9 +12,9 @@ from fastforward._utils import classproperty
 from fastforward.dispatcher import dispatch, register
 from fastforward.exceptions import QuantizationError
 from fastforward.flags import get_sdpa_torch_fallback_allowed, get_strict_quantization
-from fastforward.flags import strict_quantization as strict_quantization_ctx
 from fastforward.nn import functional as functional
 from fastforward.nn.quantizer import Quantizer, QuantizerStub
+from fastforward.quantized_tensor import QuantizedTensor
 
 logger = logging.getLogger(__name__)
 
@@ -230,9 +230,8 @@ def scaled_dot_product_attention_math(
         if strict_quantization:
             msg = "Strict quantization currently not supported when enable_gqa=True"
             raise QuantizationError(msg)
-        with strict_quantization_ctx(False):
-            key = key.repeat_interleave(query.size(-3) // key.size(-3), -3)
-            value = value.repeat_interleave(query.size(-3) // value.size(-3), -3)
+        key = _dequantize(key).repeat_interleave(query.size(-3) // key.size(-3), -3)
+        value = _dequantize(value).repeat_interleave(query.size(-3) // value.size(-3), -3)
 
     # Scale q, k before matmul for stability see https://tinyurl.com/sudb9s96 for math
     scale_factor = 1.0 / math.sqrt(query.size(-1)) if scale is None else scale
@@ -346,20 +345,27 @@ def _quantized_safe_softmax(
     Reference:
         https://github.com/pytorch/pytorch/blob/a177d1852953f460cc0f0d412f311875f77dd4de/aten/src/ATen/native/transformers/attention.cpp#L672
     """
-    with strict_quantization_ctx(False):
-        out = functional.softmax(t, dim, dtype)
-        if neg_inf == float("-inf"):
-            masked = t.isneginf()
-        else:
-            masked = t <= neg_inf
-        masked_rows = torch.all(masked, dim=dim, keepdim=True)
+    # Dequantize explicitly instead of through the (process wide) strict quantization
+    # flag, other threads may be executing at the same time.
+    out = functional.softmax(t, dim, dtype, strict_quantization=False)
+    t = _dequantize(t)
+    if neg_inf == float("-inf"):
+        masked = t.isneginf()
+    else:
+        masked = t <= neg_inf
+    masked_rows = torch.all(masked, dim=dim, keepdim=True)
+    if not isinstance(out, QuantizedTensor):
         zero = out.new_tensor(0.0)
         torch.where(condition=masked_rows, input=zero, other=out, out=out)
-        if output_quantizer:
-            out = output_quantizer(out)
+    if output_quantizer:
+        out = output_quantizer(out)
     return out
 
 
+def _dequantize(t: torch.Tensor) -> torch.Tensor:
+    return t.dequantize() if isinstance(t, QuantizedTensor) else t
+
+
 def _is_quantizer_active(quantizer: Quantizer | None) -> bool:
     """Return true only if the quantizer is not None and is not a Stub."""
     return quantizer is not None and not isinstance(quantizer, QuantizerStub)
-- 
2.43.0


From c1f572a49a1d432e6bd4f422024f1f169029910b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:56 +0000
Subject: [PATCH 32/55] fix: put modules back on their device however a program
 ends

Modules were left on the storage device when an offloaded program failed or returned a value.
---
 .../_orchestration/instruction_engine.py           | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/fastforward/_orchestration/instruction_engine.py b/src/fastforward/_orchestration/instruction_engine.py
index 4e6373d..1065db4 100644
--- a/src/fastforward/_orchestration/instruction_engine.py
+++ b/src/fastforward/_orchestration/instruction_engine.py
@@ -746,9 +746,17 @@ class InstructionEngine:
         Returns:
             Result from RETURN instruction, or None if no RETURN is executed.
         """
-        for instruction in instructions:
-            if (result := instruction.execute(register)) is not None:
-                return result
+        remaining = iter(instructions)
+        try:
+            for instruction in remaining:
+                if (result := instruction.execute(register)) is not None:
+                    return result
+        finally:
+            # A program that ends early, i.e., through a return or an error, must not leave
+            # modules on the device they were offloaded to.
+            for instruction in remaining:
+                if isinstance(instruction, MoveModule) and isinstance(instruction.device, dict):
+                    instruction.execute(register)
 
     def run(self, program: InstructionProgram, *args: Any, **kwargs: Any) -> Any:
         """Run instructions with provided inputs.
-- 
2.43.0


From a91b9e4cb0c570f35bd9576ba6ff06c68a8fc39b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:56 +0000
Subject: [PATCH 33/55] fix: load a module before its first call when
 offloading

The initial offload of a module and the load for its first call were cancelled against each other, also for modules that are not on the compute device.
---
 .../_orchestration/instruction_engine.py      | 25 +++++++++++++++----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/fastforward/_orchestration/instruction_engine.py b/src/fastforward/_orchestration/instruction_engine.py
index 1065db4..090f174 100644
--- a/src/fastforward/_orchestration/instruction_engine.py
+++ b/src/fastforward/_orchestration/instruction_engine.py
@@ -1019,8 +1019,13 @@ def _offloading_pass(
 def _cancel_module_round_trips(
     instructions: Instructions, compute_device: torch.device, storage_device: torch.device
 ) -> Instructions:
-    """Cancel adjacent MoveModule round-trips."""
+    """Cancel adjacent MoveModule round-trips.
+
+    A round-trip is only cancelled if it starts from the device the module is known to
+    be on, i.e., a module that is offloaded before its first call is still loaded for it.
+    """
     device_pair = {compute_device, storage_device}
+    module_device: dict[torch.nn.Module, torch.device] = {}
 
     def _is_round_trip(left: Instruction, right: Instruction) -> bool:
         return (
@@ -1030,16 +1035,26 @@ def _cancel_module_round_trips(
             and isinstance(left.device, torch.device)
             and isinstance(right.device, torch.device)
             and {left.device, right.device} == device_pair
+            and module_device.get(left.module) == right.device
         )
 
     result: list[Instruction] = []
     i = 0
     while i < len(instructions):
-        if i + 1 < len(instructions) and _is_round_trip(instructions[i], instructions[i + 1]):
+        instruction = instructions[i]
+        if i + 1 < len(instructions) and _is_round_trip(instruction, instructions[i + 1]):
             i += 2
-        else:
-            result.append(instructions[i])
-            i += 1
+            continue
+        match instruction:
+            case MoveModule(module=module, device=torch.device() as device):
+                module_device[module] = device
+            case CallModule(module=torch.nn.Module() as module) | OptimizeModule(module=module):
+                # Modules are always loaded before they are executed or optimized.
+                module_device[module] = compute_device
+            case _:
+                pass
+        result.append(instruction)
+        i += 1
 
     return tuple(result)
 
-- 
2.43.0


From 4ea46a9494d2dc7a2e9adc3ffaa83b176cac80b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:56 +0000
Subject: [PATCH 34/55] fix: track the device of each activation slot when
 offloading

Attributes are loaded into a slot of their own. Their moves were matched with the slot of the value they are loaded from, so that a second attribute of the same value stayed on the storage device.
---
 .../_orchestration/instruction_engine.py      | 23 +++++++++++--------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/fastforward/_orchestration/instruction_engine.py b/src/fastforward/_orchestration/instruction_engine.py
index 090f174..c9817a7 100644
--- a/src/fastforward/_orchestration/instruction_engine.py
+++ b/src/fastforward/_orchestration/instruction_engine.py
@@ -1070,39 +1070,44 @@ def _cancel_redundant_activation_moves(
     (via ``uses()``), the pending move for that ref is flushed: emitted only if
     the ref's tracked device differs from the move's target.
 
-    Device state is tracked for CallModule outputs:
+    Device state is tracked per register slot for CallModule and LoadAttribute outputs:
     - ``nn.Module`` calls produce on ``compute_device`` (MoveModule guarantees this).
     - Non-Module callables (aten ops) inherit the device of their inputs when
       all inputs agree; otherwise the output device is left unknown.
+    - Attributes are loaded into a slot of their own, from the device of their source.
     """
     ref_device: dict[_BaseRef, torch.device] = {}
     pending: dict[_BaseRef, MoveActivations] = {}
     result: list[Instruction] = []
 
     def _infer_output_device(instr: Instruction) -> None:
+        if isinstance(instr, LoadAttribute):
+            ref_device.pop(instr.target, None)
+            if (source_device := ref_device.get(instr.source)) is not None:
+                ref_device[instr.target] = source_device
+            return
         if not isinstance(instr, CallModule):
             return
-        key = instr.target.unwrap_ref()
+        key = instr.target
         if isinstance(instr.module, torch.nn.Module):
             ref_device[key] = compute_device
             return
-        devs = {ref_device[a.unwrap_ref()] for a in instr.args if a.unwrap_ref() in ref_device}
+        devs = {ref_device[a] for a in instr.args if a in ref_device}
         if len(devs) == 1:
             ref_device[key] = devs.pop()
 
     def _flush(ref: _BaseRef) -> None:
-        key = ref.unwrap_ref()
-        if (move := pending.pop(key, None)) is not None:
-            if ref_device.get(key) != move.device:
+        if (move := pending.pop(ref, None)) is not None:
+            if ref_device.get(ref) != move.device:
                 result.append(move)
-                ref_device[key] = move.device
+                ref_device[ref] = move.device
 
     def _is_redundant(move: MoveActivations) -> bool:
-        return ref_device.get(move.register_ref.unwrap_ref()) == move.device
+        return ref_device.get(move.register_ref) == move.device
 
     for instr in instructions:
         if isinstance(instr, MoveActivations):
-            pending[instr.register_ref.unwrap_ref()] = instr
+            pending[instr.register_ref] = instr
         else:
             for ref in instr.uses():
                 _flush(ref)
-- 
2.43.0


From 2aaa74a0ed719a0a828c7e27090ff4564e21acdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:05 +0000
Subject: [PATCH 35/55] fix: keep inputs and constants among the outputs of
 traced models

---
 src/fastforward/_orchestration/trace.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/fastforward/_orchestration/trace.py b/src/fastforward/_orchestration/trace.py
index b21f813..0a6876d 100644
--- a/src/fastforward/_orchestration/trace.py
+++ b/src/fastforward/_orchestration/trace.py
@@ -378,11 +378,13 @@ class _GraphBuilder:
         raw: tuple[Any, ...] | list[Any] = fx_node.args
         if len(raw) == 1 and isinstance(raw[0], (list, tuple)):
             raw = raw[0]
-        flat_refs = tuple(self._fx_to_ff[a] for a in raw if isinstance(a, fx.Node))
 
         if self._is_root:
             assert self._out_spec is not None
-            assert all(isinstance(r, NodeRef) for r in flat_refs)
+            # Outputs may also be inputs or constants, `_prepare_output` accepts any reference.
+            flat_refs = tuple(
+                self._fx_to_ff[a] if isinstance(a, fx.Node) else Const(a) for a in raw
+            )
             unflatten_ref = self._graph.add_node(
                 "_prepare_output",
                 _prepare_output(self._out_spec),
@@ -391,7 +393,7 @@ class _GraphBuilder:
             )
             self._graph.add_output(unflatten_ref)
         else:
-            for ref in flat_refs:
+            for ref in (self._fx_to_ff[a] for a in raw if isinstance(a, fx.Node)):
                 assert isinstance(ref, NodeRef)
                 self._graph.add_output(ref)
 
-- 
2.43.0


From d381cf637ece671f6582853ccdccacc70289b215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:05 +0000
Subject: [PATCH 36/55] fix: replay the calls of traced modules like they were
 called

---
 src/fastforward/_orchestration/trace.py | 92 +++++++++++++++++--------
 1 file changed, 64 insertions(+), 28 deletions(-)

diff --git a/src/fastforward/_orchestration/trace.py b/src/fastforward/_orchestration/trace.py
index 0a6876d..c3bcc3b 100644
--- a/src/fastforward/_orchestration/trace.py
+++ b/src/fastforward/_orchestration/trace.py
@@ -3,13 +3,14 @@
 
 from __future__ import annotations
 
+import collections
 import contextlib
 import inspect
 import re
 import warnings
 import weakref
 
-from typing import Any, Callable, Iterator, cast
+from typing import Any, Callable, Collection, Iterator, cast
 
 import torch
 import torch.nn as nn
@@ -184,6 +185,14 @@ def _unmangle_placeholder(name: str, positional_names: list[str]) -> str:
     return name
 
 
+def _strip_call_indices(path: str) -> str:
+    """Path of the original module for a path in the unflattened module.
+
+    Unflatten creates `name@1`, `name@2`, ... if calls of the same module differ.
+    """
+    return re.sub(r"@\d+(?=\.|$)", "", path)
+
+
 def _is_non_leaf_graph_module(mod: nn.Module) -> bool:
     """True if mod has an fx graph containing call_module nodes (a user-defined wrapper).
 
@@ -199,22 +208,6 @@ def _is_non_leaf_graph_module(mod: nn.Module) -> bool:
     return any(node.op == "call_module" for node in graph.nodes)
 
 
-def _fold_needs_preservation(mod: nn.Module) -> bool:
-    """True if the fold's call site has multiple positional inputs that need signature recovery.
-
-    Without `preserve_module_call_signature`, torch.export.unflatten collapses all
-    module call kwargs into positional args. Folds with a single positional input
-    don't need this (order is unambiguous). Folds with multiple inputs (e.g. a
-    decoder layer receiving hidden_states + attention_mask + position_embeddings)
-    need preservation to recover the correct args/kwargs split.
-    """
-    graph = getattr(mod, "graph", None)
-    if not isinstance(graph, fx.Graph):
-        return False
-    n_placeholders = sum(1 for n in graph.nodes if n.op == "placeholder")
-    return n_placeholders > 1
-
-
 def _can_call_original(original: nn.Module, submod: nn.Module, fx_node: fx.Node) -> bool:
     """Check if calling original.forward matches the captured FX call.
 
@@ -252,6 +245,36 @@ def _can_call_original(original: nn.Module, submod: nn.Module, fx_node: fx.Node)
     return True
 
 
+def _fold_names(unflattened: nn.Module) -> tuple[str, ...]:
+    """Names of the non-leaf modules whose calls can be replayed on the original module.
+
+    Without `preserve_module_call_signature`, torch.export.unflatten collapses all
+    module call kwargs into positional args, drops constant args and flattens the
+    outputs. Hence, the signature of each fold must be preserved to call the original
+    module like it was called during tracing. This is not possible for modules with
+    calls that differ in more than their input values, these can only be inlined.
+    """
+    names = [name for name, mod in unflattened.named_modules() if _is_non_leaf_graph_module(mod)]
+    varying = {_strip_call_indices(name) for name in names if "@" in name}
+    return tuple(name for name in names if name and _strip_call_indices(name) not in varying)
+
+
+def _shared_names(unflattened: nn.Module) -> set[str]:
+    """Names of the modules that are (part of a module that is) called more than once."""
+    counts: collections.Counter[str] = collections.Counter()
+    for name, mod in unflattened.named_modules():
+        graph = getattr(mod, "graph", None)
+        if isinstance(graph, fx.Graph):
+            prefix = f"{name}." if name else ""
+            counts.update(f"{prefix}{n.target}" for n in graph.nodes if n.op == "call_module")
+    shared = tuple(name for name, count in counts.items() if count > 1)
+    return {
+        name
+        for name, _ in unflattened.named_modules()
+        if any(name == other or name.startswith(f"{other}.") for other in shared)
+    }
+
+
 class _GraphBuilder:
     """Converts an unflattened fx.GraphModule tree into a FastForward GraphModule.
 
@@ -267,6 +290,7 @@ class _GraphBuilder:
         is_root: bool = False,
         positional_names: list[str] | None = None,
         out_spec: pytree.TreeSpec | None = None,
+        fold_names: Collection[str] = (),
     ) -> None:
         self._graph = GraphModule()
         self._fx_to_ff: dict[fx.Node, _BaseRef] = {}
@@ -275,8 +299,10 @@ class _GraphBuilder:
         self._is_root = is_root
         self._positional_names = positional_names or []
         self._out_spec = out_spec
+        self._fold_names = fold_names
 
     def _absolute_path(self, target: str) -> str:
+        target = _strip_call_indices(target)
         return f"{self._path_prefix}.{target}" if self._path_prefix else target
 
     def _has_attr_on_original(self, absolute_path: str) -> bool:
@@ -352,12 +378,16 @@ class _GraphBuilder:
         absolute_path = self._absolute_path(target)
 
         if _is_non_leaf_graph_module(submod):
-            sub_builder = _GraphBuilder(self._original_root, absolute_path)
+            sub_builder = _GraphBuilder(
+                self._original_root, absolute_path, fold_names=self._fold_names
+            )
             sub_ff = sub_builder.build(submod)
             args, kwargs = self._convert_args(fx_node)
-            original = self._original_root.get_submodule(absolute_path)
+            fold: nn.Module | None = None
+            if absolute_path in self._fold_names:
+                fold = self._original_root.get_submodule(absolute_path)
             output_refs = self._graph.add_subgraph(
-                target, sub_ff, args, kwargs, original_module=original
+                target, sub_ff, args, kwargs, original_module=fold
             )
             if len(output_refs) == 1:
                 self._fx_to_ff[fx_node] = output_refs[0]
@@ -514,15 +544,20 @@ def trace(module: nn.Module, *args: Any, **kwargs: Any) -> GraphModule:
         exported_program = torch.export.export(module, args=args, kwargs=kwargs)
         unflattened = torch.export.unflatten(exported_program)
 
-        fold_fqns = tuple(
-            name
-            for name, mod in unflattened.named_modules()
-            if _is_non_leaf_graph_module(mod) and name and _fold_needs_preservation(mod)
-        )
+        fold_fqns = _fold_names(unflattened)
         if fold_fqns:
-            exported_program = torch.export.export(
-                module, args=args, kwargs=kwargs, preserve_module_call_signature=fold_fqns
-            )
+            try:
+                exported_program = torch.export.export(
+                    module, args=args, kwargs=kwargs, preserve_module_call_signature=fold_fqns
+                )
+            except AssertionError:
+                # A module has a single signature: it cannot be preserved for modules that are
+                # called with, for example, both positional and keyword arguments.
+                shared = _shared_names(unflattened)
+                fold_fqns = tuple(name for name in fold_fqns if name not in shared)
+                exported_program = torch.export.export(
+                    module, args=args, kwargs=kwargs, preserve_module_call_signature=fold_fqns
+                )
             with warnings.catch_warnings():
                 warnings.filterwarnings(
                     "ignore",
@@ -540,6 +575,7 @@ def trace(module: nn.Module, *args: Any, **kwargs: Any) -> GraphModule:
         is_root=True,
         positional_names=positional_names,
         out_spec=out_spec,
+        fold_names=fold_fqns,
     )
 
     _graph_cache[module] = builder.build(unflattened)
-- 
2.43.0


From 238ab037f8fac3905d99318a3fbdb53ea6358b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:05 +0000
Subject: [PATCH 37/55] fix: restore uninitialized parameters and buffers in
 place after tracing

---
 src/fastforward/_orchestration/trace.py | 35 ++++++++++---------------
 1 file changed, 14 insertions(+), 21 deletions(-)

diff --git a/src/fastforward/_orchestration/trace.py b/src/fastforward/_orchestration/trace.py
index c3bcc3b..51faa9c 100644
--- a/src/fastforward/_orchestration/trace.py
+++ b/src/fastforward/_orchestration/trace.py
@@ -40,30 +40,23 @@ def _placeholder_uninitialized_params(module: nn.Module) -> Iterator[None]:
         torch.nn.parameter.UninitializedParameter,
         torch.nn.parameter.UninitializedBuffer,
     )
-    saved: list[tuple[nn.Module, str, Any, bool]] = []
-    for submodule in module.modules():
-        for name, param in list(submodule.named_parameters(recurse=False)):
-            if isinstance(param, uninitialized):
-                saved.append((submodule, name, param, True))
-                delattr(submodule, name)
-                submodule.register_parameter(
-                    name, nn.Parameter(torch.empty(0), requires_grad=False)
-                )
-        for name, buf in list(submodule.named_buffers(recurse=False)):
-            if isinstance(buf, uninitialized):
-                saved.append((submodule, name, buf, False))
-                delattr(submodule, name)
-                submodule.register_buffer(name, torch.empty(0))
-
+    # Replace the entries in place. (Re)registering them changes their order, which is observable
+    # through `parameters()`, and loses which buffers are not persistent.
+    saved: list[tuple[dict[str, Any], str, Any]] = []
     try:
+        for submodule in module.modules():
+            for name, param in submodule._parameters.items():
+                if isinstance(param, uninitialized):
+                    saved.append((submodule._parameters, name, param))
+                    submodule._parameters[name] = nn.Parameter(torch.empty(0), requires_grad=False)
+            for name, buf in submodule._buffers.items():
+                if isinstance(buf, uninitialized):
+                    saved.append((submodule._buffers, name, buf))
+                    submodule._buffers[name] = torch.empty(0)
         yield
     finally:
-        for submodule, name, original, is_param in saved:
-            delattr(submodule, name)
-            if is_param:
-                submodule.register_parameter(name, original)
-            else:
-                submodule.register_buffer(name, original)
+        for container, name, original in saved:
+            container[name] = original
 
 
 def _make_tuple(*items: Any) -> tuple[Any, ...]:
-- 
2.43.0


From e6f940154f2268f56f49d155d7da81d3149af7b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:38 +0000
Subject: [PATCH 38/55] fix: trace a model again if its modules, modes or kind
 of inputs changed

---
 src/fastforward/_orchestration/trace.py | 35 ++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 6 deletions(-)

diff --git a/src/fastforward/_orchestration/trace.py b/src/fastforward/_orchestration/trace.py
index 51faa9c..5c5d1ce 100644
--- a/src/fastforward/_orchestration/trace.py
+++ b/src/fastforward/_orchestration/trace.py
@@ -489,8 +489,28 @@ class _GraphBuilder:
 
 
 # We keep track of a GraphModule cache to ensure we don't re-trace the same model twice
-# under different orchestration needs (e.g. PTQ vs inference).
-_graph_cache: weakref.WeakKeyDictionary[torch.nn.Module, GraphModule] = weakref.WeakKeyDictionary()
+# under different orchestration needs (e.g. PTQ vs inference). A graph is only reused as long as
+# the model has the modules and modes and is traced with the kind of inputs it was traced with.
+_graph_cache: weakref.WeakKeyDictionary[torch.nn.Module, tuple[Any, GraphModule]] = (
+    weakref.WeakKeyDictionary()
+)
+
+
+def _trace_signature(module: nn.Module, args: tuple[Any, ...], kwargs: dict[str, Any]) -> Any:
+    """Everything that a traced graph is specialized for."""
+    modules = tuple(
+        (name, submodule, submodule.training)
+        for name, submodule in module.named_modules(remove_duplicate=False)
+        if submodule is not module
+    )
+    leaves, spec = pytree.tree_flatten((args, kwargs))
+    inputs = tuple(
+        (type(leaf), leaf.shape, leaf.dtype)
+        if isinstance(leaf, torch.Tensor)
+        else (type(leaf), leaf)
+        for leaf in leaves
+    )
+    return module.training, modules, inputs, spec
 
 
 @ff.flags.context(ff.strict_quantization, False)
@@ -524,8 +544,10 @@ def trace(module: nn.Module, *args: Any, **kwargs: Any) -> GraphModule:
         msg = f"fastforward._orchestration.trace requires PyTorch >= {_MIN_TORCH_VERSION}; got {torch.__version__}."
         raise RuntimeError(msg)
 
-    if module in _graph_cache:
-        return _graph_cache[module]
+    signature = _trace_signature(module, args, kwargs)
+    cached_signature, cached_graph = _graph_cache.get(module, (None, None))
+    if cached_graph is not None and cached_signature == signature:
+        return cached_graph
 
     positional_names = [
         p.name
@@ -571,5 +593,6 @@ def trace(module: nn.Module, *args: Any, **kwargs: Any) -> GraphModule:
         fold_names=fold_fqns,
     )
 
-    _graph_cache[module] = builder.build(unflattened)
-    return _graph_cache[module]
+    graph = builder.build(unflattened)
+    _graph_cache[module] = (signature, graph)
+    return graph
-- 
2.43.0


From a489dc488d848ed1f84727da936de3c26d5c3248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:36 +0000
Subject: [PATCH 39/55] fix: call the leaf modules of traced models like they
 were called

---
 src/fastforward/_orchestration/trace.py | 83 +++++++++++++++++--------
 1 file changed, 56 insertions(+), 27 deletions(-)

diff --git a/src/fastforward/_orchestration/trace.py b/src/fastforward/_orchestration/trace.py
index 5c5d1ce..bcbfce4 100644
--- a/src/fastforward/_orchestration/trace.py
+++ b/src/fastforward/_orchestration/trace.py
@@ -18,6 +18,8 @@ import torch.utils._pytree as pytree
 
 from packaging.version import Version
 from torch import fx
+from torch.export.exported_program import ModuleCallSignature
+from torch.export.graph_signature import TensorArgument
 
 import fastforward as ff
 
@@ -208,7 +210,8 @@ def _can_call_original(original: nn.Module, submod: nn.Module, fx_node: fx.Node)
     the original nn.Module may differ when torch.export:
 
     1. Stripped args that were only used for metadata (e.g. dtype/device extracted
-       from a tensor) — the call site has fewer args than the original requires.
+       from a tensor) or constants, and passes the others in another order — only the
+       args of modules that accept a single argument are known to be the original ones.
     2. Fused adjacent ops into the call (e.g. residual capture in a layernorm),
        making the captured call return a tuple where the original returns a tensor.
 
@@ -218,14 +221,7 @@ def _can_call_original(original: nn.Module, submod: nn.Module, fx_node: fx.Node)
         sig = inspect.signature(original.forward)
     except (ValueError, TypeError):
         return False
-    n_provided = len(fx_node.args) + len(fx_node.kwargs)
-    n_required = sum(
-        1
-        for p in sig.parameters.values()
-        if p.kind in (p.POSITIONAL_ONLY, p.POSITIONAL_OR_KEYWORD)
-        and p.default is inspect.Parameter.empty
-    )
-    if n_provided < n_required:
+    if len(sig.parameters) != 1 or len(fx_node.args) + len(fx_node.kwargs) != 1:
         return False
 
     sub_graph = getattr(submod, "graph", None)
@@ -238,18 +234,45 @@ def _can_call_original(original: nn.Module, submod: nn.Module, fx_node: fx.Node)
     return True
 
 
-def _fold_names(unflattened: nn.Module) -> tuple[str, ...]:
-    """Names of the non-leaf modules whose calls can be replayed on the original module.
+def _replayable_names(unflattened: nn.Module) -> tuple[str, ...]:
+    """Names of the modules whose calls can be replayed on the original module.
 
     Without `preserve_module_call_signature`, torch.export.unflatten collapses all
     module call kwargs into positional args, drops constant args and flattens the
-    outputs. Hence, the signature of each fold must be preserved to call the original
-    module like it was called during tracing. This is not possible for modules with
-    calls that differ in more than their input values, these can only be inlined.
+    outputs. Hence, the signature must be preserved to call the original module like
+    it was called during tracing. This is not possible for modules with calls that
+    differ in more than their input values, these can only be inlined.
     """
-    names = [name for name, mod in unflattened.named_modules() if _is_non_leaf_graph_module(mod)]
+    names = [name for name, mod in unflattened.named_modules() if name and hasattr(mod, "graph")]
     varying = {_strip_call_indices(name) for name in names if "@" in name}
-    return tuple(name for name in names if name and _strip_call_indices(name) not in varying)
+    return tuple(name for name in names if _strip_call_indices(name) not in varying)
+
+
+def _drop_plain_signatures(program: torch.export.ExportedProgram, folds: Collection[str]) -> None:
+    """Forget the preserved signatures of leaf modules for which they make no difference.
+
+    Unflatten wraps each call with a preserved signature in nodes that (un)flatten its
+    inputs and outputs. These serve no purpose for calls that map a tensor to a tensor.
+    """
+    signatures: dict[str, list[ModuleCallSignature]] = collections.defaultdict(list)
+    for entry in program.module_call_graph:
+        if entry.signature is not None:
+            signatures[_strip_call_indices(entry.fqn)].append(entry.signature)
+
+    plain_in, plain_out = pytree.tree_structure(((0,), {})), pytree.tree_structure(0)
+    for entry in program.module_call_graph:
+        name = _strip_call_indices(entry.fqn)
+        if (
+            name
+            and name not in folds
+            and all(
+                signature.in_spec == plain_in
+                and signature.out_spec == plain_out
+                and all(isinstance(a, TensorArgument) for a in signature.inputs + signature.outputs)
+                for signature in signatures[name]
+            )
+        ):
+            entry.signature = None
 
 
 def _shared_names(unflattened: nn.Module) -> set[str]:
@@ -283,7 +306,7 @@ class _GraphBuilder:
         is_root: bool = False,
         positional_names: list[str] | None = None,
         out_spec: pytree.TreeSpec | None = None,
-        fold_names: Collection[str] = (),
+        replayable_names: Collection[str] = (),
     ) -> None:
         self._graph = GraphModule()
         self._fx_to_ff: dict[fx.Node, _BaseRef] = {}
@@ -292,7 +315,7 @@ class _GraphBuilder:
         self._is_root = is_root
         self._positional_names = positional_names or []
         self._out_spec = out_spec
-        self._fold_names = fold_names
+        self._replayable_names = replayable_names
 
     def _absolute_path(self, target: str) -> str:
         target = _strip_call_indices(target)
@@ -372,12 +395,12 @@ class _GraphBuilder:
 
         if _is_non_leaf_graph_module(submod):
             sub_builder = _GraphBuilder(
-                self._original_root, absolute_path, fold_names=self._fold_names
+                self._original_root, absolute_path, replayable_names=self._replayable_names
             )
             sub_ff = sub_builder.build(submod)
             args, kwargs = self._convert_args(fx_node)
             fold: nn.Module | None = None
-            if absolute_path in self._fold_names:
+            if absolute_path in self._replayable_names:
                 fold = self._original_root.get_submodule(absolute_path)
             output_refs = self._graph.add_subgraph(
                 target, sub_ff, args, kwargs, original_module=fold
@@ -393,7 +416,9 @@ class _GraphBuilder:
                 )
         else:
             original = self._original_root.get_submodule(absolute_path)
-            if not _can_call_original(original, submod, fx_node):
+            if absolute_path not in self._replayable_names and not _can_call_original(
+                original, submod, fx_node
+            ):
                 original = submod
             self._fx_to_ff[fx_node] = self._add_op_node(fx_node, target, original, Op.torch_module)
 
@@ -559,20 +584,24 @@ def trace(module: nn.Module, *args: Any, **kwargs: Any) -> GraphModule:
         exported_program = torch.export.export(module, args=args, kwargs=kwargs)
         unflattened = torch.export.unflatten(exported_program)
 
-        fold_fqns = _fold_names(unflattened)
-        if fold_fqns:
+        names = _replayable_names(unflattened)
+        folds = [
+            name for name in names if _is_non_leaf_graph_module(unflattened.get_submodule(name))
+        ]
+        if names:
             try:
                 exported_program = torch.export.export(
-                    module, args=args, kwargs=kwargs, preserve_module_call_signature=fold_fqns
+                    module, args=args, kwargs=kwargs, preserve_module_call_signature=names
                 )
             except AssertionError:
                 # A module has a single signature: it cannot be preserved for modules that are
                 # called with, for example, both positional and keyword arguments.
                 shared = _shared_names(unflattened)
-                fold_fqns = tuple(name for name in fold_fqns if name not in shared)
+                names = tuple(name for name in names if name not in shared)
                 exported_program = torch.export.export(
-                    module, args=args, kwargs=kwargs, preserve_module_call_signature=fold_fqns
+                    module, args=args, kwargs=kwargs, preserve_module_call_signature=names
                 )
+            _drop_plain_signatures(exported_program, folds)
             with warnings.catch_warnings():
                 warnings.filterwarnings(
                     "ignore",
@@ -590,7 +619,7 @@ def trace(module: nn.Module, *args: Any, **kwargs: Any) -> GraphModule:
         is_root=True,
         positional_names=positional_names,
         out_spec=out_spec,
-        fold_names=fold_fqns,
+        replayable_names=names,
     )
 
     graph = builder.build(unflattened)
-- 
2.43.0


From c64f148a7e4e8049e8b2a799f5c6b8a9a1e3cdf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:59 +0000
Subject: [PATCH 40/55] fix: do not add modules to the model when building a
 graph of it

---
 src/fastforward/_orchestration/graph_module.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/fastforward/_orchestration/graph_module.py b/src/fastforward/_orchestration/graph_module.py
index 19c4842..3797b41 100644
--- a/src/fastforward/_orchestration/graph_module.py
+++ b/src/fastforward/_orchestration/graph_module.py
@@ -582,19 +582,19 @@ class GraphModule(torch.nn.Module):
         self._node_refs[node_id] = ref
 
         if isinstance(node.target, torch.nn.Module):
+            # Don't add or overwrite anything inside of original modules registered as
+            # folds — those belong to the user's model and must not be mutated.
+            fold_originals = {id(self._nodes[fold_id].target) for fold_id in self._fold_ids}
             *module_path, leaf_name = name.split(".")
             parent_module: torch.nn.Module = self
             for attr in module_path:
+                if id(parent_module) in fold_originals:
+                    break
                 if not hasattr(parent_module, attr):
                     parent_module.add_module(attr, torch.nn.Module())
                 parent_module = getattr(parent_module, attr)
 
-            # Don't overwrite children of original modules registered as folds —
-            # those belong to the user's model and must not be mutated.
-            is_fold_original = any(
-                parent_module is self._nodes[fid].target for fid in self._fold_ids
-            )
-            if not is_fold_original:
+            if id(parent_module) not in fold_originals:
                 parent_module.add_module(leaf_name, node.target)
 
         return ref
-- 
2.43.0


From 37364a0b212cf725ffca1a22e4a9cbddd4c751fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:43 +0000
Subject: [PATCH 41/55] fix: do not run the model to find its output structure
 when tracing

Running it changes, e.g., the running statistics of normalization layers.
---
 src/fastforward/_orchestration/trace.py | 28 ++++++++-----------------
 1 file changed, 9 insertions(+), 19 deletions(-)

diff --git a/src/fastforward/_orchestration/trace.py b/src/fastforward/_orchestration/trace.py
index bcbfce4..dce2723 100644
--- a/src/fastforward/_orchestration/trace.py
+++ b/src/fastforward/_orchestration/trace.py
@@ -145,25 +145,15 @@ def _contains_fx_node(x: Any) -> bool:
             return False
 
 
-def _capture_out_spec(
-    module: nn.Module, exported: nn.Module, args: tuple[Any, ...], kwargs: dict[str, Any]
-) -> pytree.TreeSpec:
-    """Recover whatever structure the module's return statement has after export."""
-    if (spec := getattr(exported, "_out_spec", None)) is not None:
-        assert isinstance(spec, pytree.TreeSpec)
-        if not spec.is_leaf():
-            return spec
+def _capture_out_spec(exported: nn.Module) -> pytree.TreeSpec:
+    """Recover whatever structure the module's return statement has after export.
 
-    codegen = getattr(exported.graph, "_codegen", None)
-    if (info := getattr(codegen, "pytree_info", None)) is not None:
-        if (spec := getattr(info, "out_spec", None)) is not None:
-            assert isinstance(spec, pytree.TreeSpec)
-            return spec
-
-    with torch.no_grad():
-        sample = module(*args, **kwargs)
-
-    return pytree.tree_structure(sample)
+    This is recorded on export. In particular, the module is not run (again) as that may
+    have side effects, e.g., on the running statistics of normalization layers.
+    """
+    root_call = cast(Any, exported).module_call_graph[0]
+    assert isinstance(root_call.signature, ModuleCallSignature)
+    return root_call.signature.out_spec
 
 
 def _unmangle_placeholder(name: str, positional_names: list[str]) -> str:
@@ -611,7 +601,7 @@ def trace(module: nn.Module, *args: Any, **kwargs: Any) -> GraphModule:
                 unflattened = torch.export.unflatten(exported_program)
 
         _strip_hardcoded_device_placements(unflattened)
-        out_spec = _capture_out_spec(module, unflattened, args, kwargs)
+        out_spec = _capture_out_spec(unflattened)
 
     builder = _GraphBuilder(
         module,
-- 
2.43.0


From 4e8e6e23500a8d011d1e53d5dc1bab7edf8c603d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:43 +0000
Subject: [PATCH 42/55] fix: give each call of a module its own name in traced
 graphs

Nodes and activations are looked up by name: calls with the same name got the
activations of each other.
---
 src/fastforward/_orchestration/trace.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/fastforward/_orchestration/trace.py b/src/fastforward/_orchestration/trace.py
index dce2723..3951980 100644
--- a/src/fastforward/_orchestration/trace.py
+++ b/src/fastforward/_orchestration/trace.py
@@ -299,6 +299,7 @@ class _GraphBuilder:
         replayable_names: Collection[str] = (),
     ) -> None:
         self._graph = GraphModule()
+        self._module_calls: collections.Counter[str] = collections.Counter()
         self._fx_to_ff: dict[fx.Node, _BaseRef] = {}
         self._original_root = original_root
         self._path_prefix = path_prefix
@@ -383,6 +384,13 @@ class _GraphBuilder:
         submod = fx_gm.get_submodule(target)
         absolute_path = self._absolute_path(target)
 
+        # Nodes and folds need a unique name, also if they call the same module.
+        name = target
+        while self._module_calls[name]:
+            self._module_calls[target] += 1
+            name = f"{target}#{self._module_calls[target]}"
+        self._module_calls[name] += 1
+
         if _is_non_leaf_graph_module(submod):
             sub_builder = _GraphBuilder(
                 self._original_root, absolute_path, replayable_names=self._replayable_names
@@ -392,14 +400,12 @@ class _GraphBuilder:
             fold: nn.Module | None = None
             if absolute_path in self._replayable_names:
                 fold = self._original_root.get_submodule(absolute_path)
-            output_refs = self._graph.add_subgraph(
-                target, sub_ff, args, kwargs, original_module=fold
-            )
+            output_refs = self._graph.add_subgraph(name, sub_ff, args, kwargs, original_module=fold)
             if len(output_refs) == 1:
                 self._fx_to_ff[fx_node] = output_refs[0]
             else:
                 self._fx_to_ff[fx_node] = self._graph.add_node(
-                    f"{target}_pack_outputs",
+                    f"{name}_pack_outputs",
                     _make_tuple,
                     args=output_refs,
                     op=Op.call_function,
@@ -410,7 +416,7 @@ class _GraphBuilder:
                 original, submod, fx_node
             ):
                 original = submod
-            self._fx_to_ff[fx_node] = self._add_op_node(fx_node, target, original, Op.torch_module)
+            self._fx_to_ff[fx_node] = self._add_op_node(fx_node, name, original, Op.torch_module)
 
     def _handle_output(self, fx_node: fx.Node) -> None:
         raw: tuple[Any, ...] | list[Any] = fx_node.args
-- 
2.43.0


From 55474938f667530ab614211a654350cf3ea2dbe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:43 +0000
Subject: [PATCH 43/55] fix: skip calls in traced graphs whose outputs are not
 used

---
 src/fastforward/_orchestration/trace.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/fastforward/_orchestration/trace.py b/src/fastforward/_orchestration/trace.py
index 3951980..74acb20 100644
--- a/src/fastforward/_orchestration/trace.py
+++ b/src/fastforward/_orchestration/trace.py
@@ -384,6 +384,9 @@ class _GraphBuilder:
         submod = fx_gm.get_submodule(target)
         absolute_path = self._absolute_path(target)
 
+        if not fx_node.users:
+            return  # None of the outputs of this call are used.
+
         # Nodes and folds need a unique name, also if they call the same module.
         name = target
         while self._module_calls[name]:
-- 
2.43.0


From f6a71c81ef58acce11a79e2e36bb1d00c2e7a835 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:43 +0000
Subject: [PATCH 44/55] fix: trace models in which signatures of modules cannot
 be preserved

Also use the parameters of the model, not copies that become stale, for modules
that cannot be called like they were called during tracing.
---
 src/fastforward/_orchestration/trace.py | 99 ++++++++++++++++---------
 1 file changed, 66 insertions(+), 33 deletions(-)

diff --git a/src/fastforward/_orchestration/trace.py b/src/fastforward/_orchestration/trace.py
index 74acb20..2823cc4 100644
--- a/src/fastforward/_orchestration/trace.py
+++ b/src/fastforward/_orchestration/trace.py
@@ -265,22 +265,62 @@ def _drop_plain_signatures(program: torch.export.ExportedProgram, folds: Collect
             entry.signature = None
 
 
-def _shared_names(unflattened: nn.Module) -> set[str]:
-    """Names of the modules that are (part of a module that is) called more than once."""
-    counts: collections.Counter[str] = collections.Counter()
-    for name, mod in unflattened.named_modules():
-        graph = getattr(mod, "graph", None)
+def _shared_names(module: nn.Module, unflattened: nn.Module) -> set[str]:
+    """Names of the modules that are (part of) a module with several calls or several names."""
+    paths: dict[nn.Module, list[str]] = collections.defaultdict(list)
+    for name, submodule in module.named_modules(remove_duplicate=False):
+        paths[submodule].append(name)
+    shared = {name for names in paths.values() if len(names) > 1 for name in names}
+
+    calls: collections.Counter[str] = collections.Counter()
+    for name, submodule in unflattened.named_modules(remove_duplicate=False):
+        graph = getattr(submodule, "graph", None)
         if isinstance(graph, fx.Graph):
             prefix = f"{name}." if name else ""
-            counts.update(f"{prefix}{n.target}" for n in graph.nodes if n.op == "call_module")
-    shared = tuple(name for name, count in counts.items() if count > 1)
+            calls.update(f"{prefix}{n.target}" for n in graph.nodes if n.op == "call_module")
+    shared.update(name for name, count in calls.items() if count > 1)
+
     return {
         name
-        for name, _ in unflattened.named_modules()
+        for names in paths.values()
+        for name in names
         if any(name == other or name.startswith(f"{other}.") for other in shared)
     }
 
 
+def _unflatten_with_signatures(
+    module: nn.Module,
+    args: tuple[Any, ...],
+    kwargs: dict[str, Any],
+    names: tuple[str, ...],
+    folds: Collection[str],
+) -> nn.Module:
+    program = torch.export.export(
+        module, args=args, kwargs=kwargs, preserve_module_call_signature=names
+    )
+    _drop_plain_signatures(program, folds)
+    with warnings.catch_warnings():
+        warnings.filterwarnings(
+            "ignore",
+            message="Attempted to insert a get_attr Node with no underlying reference",
+            category=UserWarning,
+        )
+        return torch.export.unflatten(program)
+
+
+def _share_parameters_and_buffers(module: nn.Module, unflattened: nn.Module) -> None:
+    """Let the modules of `unflattened` use the parameters and buffers of `module`, not copies."""
+    originals = dict(module.named_modules(remove_duplicate=False))
+    for name, submodule in unflattened.named_modules(remove_duplicate=False):
+        original = originals.get(_strip_call_indices(name))
+        if original is None:
+            continue
+        for key in submodule._parameters.keys() & original._parameters.keys():
+            submodule._parameters[key] = original._parameters[key]
+        for key in submodule._buffers.keys() & original._buffers.keys():
+            submodule._buffers[key] = original._buffers[key]
+
+
 class _GraphBuilder:
     """Converts an unflattened fx.GraphModule tree into a FastForward GraphModule.
 
@@ -583,35 +623,28 @@ def trace(module: nn.Module, *args: Any, **kwargs: Any) -> GraphModule:
         exported_program = torch.export.export(module, args=args, kwargs=kwargs)
         unflattened = torch.export.unflatten(exported_program)
 
-        names = _replayable_names(unflattened)
-        folds = [
-            name for name in names if _is_non_leaf_graph_module(unflattened.get_submodule(name))
-        ]
-        if names:
-            try:
-                exported_program = torch.export.export(
-                    module, args=args, kwargs=kwargs, preserve_module_call_signature=names
-                )
-            except AssertionError:
-                # A module has a single signature: it cannot be preserved for modules that are
-                # called with, for example, both positional and keyword arguments.
-                shared = _shared_names(unflattened)
-                names = tuple(name for name in names if name not in shared)
-                exported_program = torch.export.export(
-                    module, args=args, kwargs=kwargs, preserve_module_call_signature=names
-                )
-            _drop_plain_signatures(exported_program, folds)
-            with warnings.catch_warnings():
-                warnings.filterwarnings(
-                    "ignore",
-                    message="Attempted to insert a get_attr Node with no underlying reference",
-                    category=UserWarning,
-                )
-                unflattened = torch.export.unflatten(exported_program)
+        # A module has a single signature: it cannot always be preserved for modules that are
+        # called several times, e.g., with both positional and keyword arguments.
+        candidates = _replayable_names(unflattened)
+        shared = _shared_names(module, unflattened)
+        folds = {
+            name
+            for name in candidates
+            if _is_non_leaf_graph_module(unflattened.get_submodule(name))
+        }
+        unshared = tuple(name for name in candidates if name not in shared)
+        names: tuple[str, ...] = ()
+        for names in (candidates, unshared, ()):
+            if not names:
+                break
+            with contextlib.suppress(AssertionError, AttributeError, KeyError, RuntimeError):
+                unflattened = _unflatten_with_signatures(module, args, kwargs, names, folds)
+                break
 
         _strip_hardcoded_device_placements(unflattened)
         out_spec = _capture_out_spec(unflattened)
 
+    _share_parameters_and_buffers(module, unflattened)
     builder = _GraphBuilder(
         module,
         "",
-- 
2.43.0


From f1f836d5055a7096900b1eb8a3aace85739ae0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:33 +0000
Subject: [PATCH 45/55] fix: do not call traced modules with None for inputs
 that export removed

The original module may do something else if it is called with None.
---
 src/fastforward/_orchestration/trace.py | 35 ++++++++++++++++++++++---
 1 file changed, 32 insertions(+), 3 deletions(-)

diff --git a/src/fastforward/_orchestration/trace.py b/src/fastforward/_orchestration/trace.py
index 2823cc4..9dccf61 100644
--- a/src/fastforward/_orchestration/trace.py
+++ b/src/fastforward/_orchestration/trace.py
@@ -238,6 +238,29 @@ def _replayable_names(unflattened: nn.Module) -> tuple[str, ...]:
     return tuple(name for name in names if _strip_call_indices(name) not in varying)
 
 
+def _drop_incomplete_signatures(program: torch.export.ExportedProgram) -> set[str]:
+    """Forget the preserved signatures of modules with inputs that the program does not compute.
+
+    Inputs that do not affect the output of the program are removed on export. Unflatten passes
+    None instead, but the original module may do something else if it is called with None.
+
+    Returns: The names of the modules whose signature was dropped.
+    """
+    program.graph.eliminate_dead_code()
+    computed = {node.name for node in program.graph.nodes}
+    incomplete = {
+        _strip_call_indices(entry.fqn)
+        for entry in program.module_call_graph
+        if entry.fqn and entry.signature is not None
+        for arg in entry.signature.inputs
+        if isinstance(arg, TensorArgument) and arg.name not in computed
+    }
+    for entry in program.module_call_graph:
+        if _strip_call_indices(entry.fqn) in incomplete:
+            entry.signature = None
+    return incomplete
+
+
 def _drop_plain_signatures(program: torch.export.ExportedProgram, folds: Collection[str]) -> None:
     """Forget the preserved signatures of leaf modules for which they make no difference.
 
@@ -294,10 +317,15 @@ def _unflatten_with_signatures(
     kwargs: dict[str, Any],
     names: tuple[str, ...],
     folds: Collection[str],
-) -> nn.Module:
+) -> tuple[nn.Module, tuple[str, ...]]:
+    """Unflatten with the signatures of the modules in `names`.
+
+    Returns: The unflattened module and the names of the modules with a complete signature.
+    """
     program = torch.export.export(
         module, args=args, kwargs=kwargs, preserve_module_call_signature=names
     )
+    incomplete = _drop_incomplete_signatures(program)
     _drop_plain_signatures(program, folds)
     with warnings.catch_warnings():
         warnings.filterwarnings(
@@ -305,7 +333,8 @@ def _unflatten_with_signatures(
             message="Attempted to insert a get_attr Node with no underlying reference",
             category=UserWarning,
         )
-        return torch.export.unflatten(program)
+        unflattened = torch.export.unflatten(program)
+    return unflattened, tuple(name for name in names if name not in incomplete)
 
 
 def _share_parameters_and_buffers(module: nn.Module, unflattened: nn.Module) -> None:
@@ -638,7 +667,7 @@ def trace(module: nn.Module, *args: Any, **kwargs: Any) -> GraphModule:
             if not names:
                 break
             with contextlib.suppress(AssertionError, AttributeError, KeyError, RuntimeError):
-                unflattened = _unflatten_with_signatures(module, args, kwargs, names, folds)
+                unflattened, names = _unflatten_with_signatures(module, args, kwargs, names, folds)
                 break
 
         _strip_hardcoded_device_placements(unflattened)
-- 
2.43.0


From 2b9efb3c15cf2a41f2b335ad886139223736eb1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:56 +0000
Subject: [PATCH 46/55] fix: remove recorders from modules if export_modules
 fails in the forward pass

---
 src/fastforward/export/module_export.py | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/src/fastforward/export/module_export.py b/src/fastforward/export/module_export.py
index 18ed40c..6f9cf5b 100644
--- a/src/fastforward/export/module_export.py
+++ b/src/fastforward/export/module_export.py
@@ -135,16 +135,12 @@ def export_modules(
                 module_output_path / f"{rec.module_name}_nonquantized_input_output.pickle"
             )
 
-    module_io_recorders: list[ModuleIORecorder] = []
-    for module_name, module in modules.items():
-        module_io_recorder = ModuleIORecorder(module, module_name)
-        module_io_recorders.append(module_io_recorder)
-        module_io_recorder.attach()
-
-    model(*args, **kwargs)
-
-    for module_io_recorder in module_io_recorders:
-        module_io_recorder.detach()
+    with ExitStack() as stack:
+        module_io_recorders = [
+            stack.enter_context(ModuleIORecorder(module, module_name))
+            for module_name, module in modules.items()
+        ]
+        model(*args, **kwargs)
 
     paths: dict[str, pathlib.Path] = {}
 
-- 
2.43.0


From 84a096f4ade5f448df6b16bed30376c94d279aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:16 +0000
Subject: [PATCH 47/55] fix: export models in which modules share a quantizer

---
 src/fastforward/export/stages/passes.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/fastforward/export/stages/passes.py b/src/fastforward/export/stages/passes.py
index d5f2416..6c8437f 100644
--- a/src/fastforward/export/stages/passes.py
+++ b/src/fastforward/export/stages/passes.py
@@ -119,7 +119,12 @@ def _ff_quantization_parameters(
     module: torch.fx.GraphModule,
 ) -> dict[str, torch.Tensor]:
     """Helper to obtain all quantization parameter tensors from module."""
-    all_params = dict(itertools.chain(module.named_parameters(), module.named_buffers()))
+    all_params = dict(
+        itertools.chain(
+            module.named_parameters(remove_duplicate=False),
+            module.named_buffers(remove_duplicate=False),
+        )
+    )
     quant_params: dict[str, torch.Tensor] = {}
     scale: Any = None
     offset: Any = None
-- 
2.43.0


From a8fed40bdfc6874154247301b388508d5b799ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:31 +0000
Subject: [PATCH 48/55] fix: export quantizers without an offset

---
 src/fastforward/export/stages/annotations.py | 26 +++++++++++++++++---
 src/fastforward/export/stages/passes.py      | 17 +++----------
 2 files changed, 26 insertions(+), 17 deletions(-)

diff --git a/src/fastforward/export/stages/annotations.py b/src/fastforward/export/stages/annotations.py
index 664f409..366472f 100644
--- a/src/fastforward/export/stages/annotations.py
+++ b/src/fastforward/export/stages/annotations.py
@@ -21,6 +21,18 @@ class FFQuantizerSpec:
     data_shape: tuple[int, ...] | None = None
 
 
+def _operator_arguments(node: torch.fx.Node) -> dict[str, Any]:
+    """Get all arguments of the operator call `node` by name, including those left at their default."""
+    assert isinstance(node.target, torch._ops.OpOverload)
+    arguments: dict[str, Any] = {}
+    for idx, argument in enumerate(node.target._schema.arguments):
+        if idx < len(node.args):
+            arguments[argument.name] = node.args[idx]
+        else:
+            arguments[argument.name] = node.kwargs.get(argument.name, argument.default_value)
+    return arguments
+
+
 def _ff_quantizer_spec(
     node: torch.fx.Node, quant_params: dict[str, torch.Tensor]
 ) -> FFQuantizerSpec:
@@ -29,12 +41,18 @@ def _ff_quantizer_spec(
         msg = f"Unsupported target: {node.target}"
         raise NotImplementedError(msg)
 
-    data, scale, tile_size, num_bits, _output_dtype, offset = node.args
+    arguments = _operator_arguments(node)
+    data, scale, offset = arguments["data"], arguments["scale"], arguments["offset"]
+    tile_size, num_bits = arguments["tile_size"], arguments["num_bits"]
 
     assert isinstance(scale, torch.fx.Node) and isinstance(scale.target, str)
-    assert isinstance(offset, torch.fx.Node) and isinstance(offset.target, str)
     scale_value = quant_params[scale.target]
-    offset_value = quant_params[offset.target]
+    if offset is None:
+        # Quantizers without an offset are symmetric.
+        offset_value = torch.zeros_like(scale_value)
+    else:
+        assert isinstance(offset, torch.fx.Node) and isinstance(offset.target, str)
+        offset_value = quant_params[offset.target]
     symmetric = _is_symmetric_offset(offset_value)
 
     if not isinstance(num_bits, (int, float)):
@@ -46,7 +64,7 @@ def _ff_quantizer_spec(
         raise ValueError(msg)
 
     if not symmetric:
-        offset_value = 2 ** (num_bits - 1) - quant_params[offset.target]
+        offset_value = 2 ** (num_bits - 1) - offset_value
 
     tile_size_tuple: tuple[int, ...] | None = None
     if isinstance(tile_size, torch.Size):
diff --git a/src/fastforward/export/stages/passes.py b/src/fastforward/export/stages/passes.py
index 6c8437f..5e9bcf9 100644
--- a/src/fastforward/export/stages/passes.py
+++ b/src/fastforward/export/stages/passes.py
@@ -5,13 +5,13 @@ import itertools
 import logging
 
 from collections import deque
-from typing import Any, Iterator
+from typing import Iterator
 
 import torch
 
 from torch.fx.passes.infra.pass_base import PassResult
 
-from fastforward.export.stages.annotations import _ff_quantizer_spec
+from fastforward.export.stages.annotations import _ff_quantizer_spec, _operator_arguments
 
 FF_QUANTIZATION_SPEC = "__FF_QUANTIZATION_SPEC"
 QUANTIZE_OPERATIONS = (torch.ops.fastforward.quantize_by_tile.default,)
@@ -126,18 +126,9 @@ def _ff_quantization_parameters(
         )
     )
     quant_params: dict[str, torch.Tensor] = {}
-    scale: Any = None
-    offset: Any = None
     for node in _ff_quantization_nodes(module.graph):
-        match node.target:
-            case torch.ops.fastforward.quantize_by_tile.default:
-                _data, scale, _tile_size, _num_bits, _output_dtype, offset = node.args
-            case torch.ops.fastforward.dequantize_by_tile.default:
-                _data, scale, _tile_size, offset, _output_dtype = node.args
-            case _:
-                assert False, "unreachable"
-
-        for param_node in (scale, offset):
+        arguments = _operator_arguments(node)
+        for param_node in (arguments["scale"], arguments["offset"]):
             if param_node is None:
                 continue
             assert isinstance(param_node, torch.fx.Node)
-- 
2.43.0


From b35d11228078b18da41a3af42c259326440622b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:55 +0000
Subject: [PATCH 49/55] fix: keep input encodings of exported modules whose
 argument is named as a builtin

The input quantizer encoding of a placeholder was looked up by the FX node name.
FX renames placeholders with the name of a builtin (`input` becomes `input_1`),
so that the encoding of the input of, e.g., ff.nn.Linear was silently dropped.
---
 src/fastforward/export/stages/onnx/onnx_export_stages.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/fastforward/export/stages/onnx/onnx_export_stages.py b/src/fastforward/export/stages/onnx/onnx_export_stages.py
index 6c3b3bc..969050d 100644
--- a/src/fastforward/export/stages/onnx/onnx_export_stages.py
+++ b/src/fastforward/export/stages/onnx/onnx_export_stages.py
@@ -232,7 +232,10 @@ class OnnxQuantMetadataAnnotator:
 
         for fx_node in fx_module.graph.nodes:
             if FF_QUANTIZATION_SPEC in fx_node.meta:
-                self._fx_quant_specs[fx_node.name] = fx_node.meta[FF_QUANTIZATION_SPEC]
+                # FX renames placeholders that have the name of a builtin, e.g., `input`. The
+                # ONNX graph keeps the name of the argument.
+                name = str(fx_node.target) if fx_node.op == "placeholder" else fx_node.name
+                self._fx_quant_specs[name] = fx_node.meta[FF_QUANTIZATION_SPEC]
             if fx_node.op == "get_attr":
                 self._fx_node_by_target[str(fx_node.target)] = fx_node
 
-- 
2.43.0


From 346e7ed66e183d344b330a224edde4fb34818abd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:55 +0000
Subject: [PATCH 50/55] fix: refuse one-sided quantizers for symmetric GGUF
 formats

The offset of a one-sided symmetric quantizer was silently dropped, so that the
exported weights did not represent the weights of the model.
---
 src/fastforward/export/stages/gguf/_extract.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/fastforward/export/stages/gguf/_extract.py b/src/fastforward/export/stages/gguf/_extract.py
index 22da710..dface02 100644
--- a/src/fastforward/export/stages/gguf/_extract.py
+++ b/src/fastforward/export/stages/gguf/_extract.py
@@ -90,6 +90,13 @@ def _validate_quantizer(
         )
         raise ExportError(msg)
 
+    if quant_format.symmetric and quantizer.offset is not None and quantizer.offset.any():
+        msg = (
+            f"Parameter '{hf_name}': quantizer is one-sided but GGUF format "
+            f"'{quant_format.name}' has no offset"
+        )
+        raise ExportError(msg)
+
     if not quant_format.symmetric and quantizer.symmetric:
         msg = (
             f"Parameter '{hf_name}': quantizer is symmetric but GGUF format "
-- 
2.43.0


From 52dc99d77b62095363b170708b64e0468fcbe89a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:55 +0000
Subject: [PATCH 51/55] fix: keep zero points when only some offsets are zero

An encoding was considered symmetric if any of its offsets was zero, in which
case all of the zero points were left out of the encoding.
---
 src/fastforward/export/_export_schemas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/fastforward/export/_export_schemas.py b/src/fastforward/export/_export_schemas.py
index 513de00..0296699 100644
--- a/src/fastforward/export/_export_schemas.py
+++ b/src/fastforward/export/_export_schemas.py
@@ -48,7 +48,7 @@ def _preprocess_quantization_params(
     offset = ensure_tensor(offset)
     offset = torch.round(offset)
 
-    is_symmetric = (torch.all(offset).item()) == 0
+    is_symmetric = not torch.any(offset).item()
     bitwidth = _strict_cast_to_int(bitwidth, "bitwidth")
 
     qnn_offset = offset - 2 ** (bitwidth - 1)
-- 
2.43.0


From c38babaa456f6a6d7527824b4e9803eaa5b9abd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:56:55 +0000
Subject: [PATCH 52/55] fix: remove dead code before quantization metadata is
 named

Nodes without users were removed from the ONNX graph but did count in the names
that associate quantization metadata with ONNX values, so that encodings were
dropped or attached to other values.
---
 src/fastforward/export/stages/base_pipeline_stages.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/fastforward/export/stages/base_pipeline_stages.py b/src/fastforward/export/stages/base_pipeline_stages.py
index cd13131..e8a0039 100644
--- a/src/fastforward/export/stages/base_pipeline_stages.py
+++ b/src/fastforward/export/stages/base_pipeline_stages.py
@@ -128,7 +128,12 @@ def stage_capture_impl_ff(
     sample_args, sample_kwargs = sample_inputs[0]
 
     with ff.export_mode(True), torch.no_grad(), ff.strict_quantization(False):
-        return torch.export.export(module, sample_args, sample_kwargs)
+        exported = torch.export.export(module, sample_args, sample_kwargs)
+
+    # Quantization metadata is matched to ONNX values by name. Nodes that are removed after they
+    # were named would leave gaps in the names that the ONNX export does not have.
+    exported.graph_module.graph.eliminate_dead_code()
+    return exported
 
 
 def stage_convert_captured_impl_ff(
-- 
2.43.0


From a82e6ae0c03e09cb033045fa0881127a60849cf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:46 +0000
Subject: [PATCH 53/55] fix: convert modules that are shared by several parents
 once

quantize_model converted a shared module for every parent, which failed at the
second one and left the model partly converted.
---
 src/fastforward/nn/quantized_module.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/fastforward/nn/quantized_module.py b/src/fastforward/nn/quantized_module.py
index 697bd51..2ca10aa 100644
--- a/src/fastforward/nn/quantized_module.py
+++ b/src/fastforward/nn/quantized_module.py
@@ -196,6 +196,7 @@ class QuantizedModule(torch.nn.Module, metaclass=_QuantizedModuleMeta):  # pylin
         skip_quantized_modules: bool = False,
         *,
         ignore_global_module_map: bool = False,
+        _visited: set[torch.nn.Module] | None = None,
     ) -> None:
         """Quantize children.
 
@@ -227,6 +228,7 @@ class QuantizedModule(torch.nn.Module, metaclass=_QuantizedModuleMeta):  # pylin
                     extra_conversion=extra_conversion,
                     skip_quantized_modules=skip_quantized_modules,
                     ignore_global_module_map=ignore_global_module_map,
+                    _visited=_visited,
                 )
 
     def register_quantizer(
@@ -495,6 +497,7 @@ def quantize_model(
     skip_quantized_modules: bool = False,
     *,
     ignore_global_module_map: bool = False,
+    _visited: set[torch.nn.Module] | None = None,
 ) -> torch.nn.Module:
     """Convert modules and submodules to quantized counterparts.
 
@@ -520,7 +523,14 @@ def quantize_model(
     module_map = extra_conversion or {}
     if not ignore_global_module_map:
         module_map = {**quantized_module_map(), **module_map}
-    _check_quantizable(model, module_map, skip_quantized_modules=skip_quantized_modules)
+    if _visited is None:
+        _visited = set()
+        _check_quantizable(model, module_map, skip_quantized_modules=skip_quantized_modules)
+
+    # Modules may be shared by several parents, but are converted once.
+    if model in _visited:
+        return model
+    _visited.add(model)
 
     if skip_quantized_modules and isinstance(model, QuantizedModule):
         logger.info(
@@ -534,6 +544,7 @@ def quantize_model(
             extra_conversion=extra_conversion,
             skip_quantized_modules=skip_quantized_modules,
             ignore_global_module_map=ignore_global_module_map,
+            _visited=_visited,
         )
 
     return model
-- 
2.43.0


From b75df23646a0c03951b056a15256f10709743cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:01 +0000
Subject: [PATCH 54/55] fix: leave modules as they were if their conversion
 fails

A quantization initializer that failed left a module with the quantized class but
without (all of) its quantizers, which later conversions took for converted.
---
 src/fastforward/nn/quantized_module.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/fastforward/nn/quantized_module.py b/src/fastforward/nn/quantized_module.py
index 2ca10aa..7095960 100644
--- a/src/fastforward/nn/quantized_module.py
+++ b/src/fastforward/nn/quantized_module.py
@@ -569,9 +569,22 @@ def _quantize_module(module: torch.nn.Module, module_map: ModuleConversionDict)
         return
 
     original_class = module.__class__
-    module.__class__ = quantized_class
-    module = cast(QuantizedModule, module)
-    module.__init_quantization__()
+    original_attrs = dict(vars(module))
+    original_members = {
+        name: dict(vars(module)[name]) for name in ("_modules", "_parameters", "_buffers")
+    }
+    try:
+        module.__class__ = quantized_class
+        cast(QuantizedModule, module).__init_quantization__()
+    except BaseException:
+        # Do not leave behind a module that is converted in part.
+        module.__class__ = original_class
+        vars(module).clear()
+        vars(module).update(original_attrs)
+        for name, members in original_members.items():
+            vars(module)[name].clear()
+            vars(module)[name].update(members)
+        raise
     logger.debug("Converting '%s' to '%s'", original_class.__name__, quantized_class.__name__)
 
 
-- 
2.43.0


From bc9949340b1b4afe32310a4944a09f58fffec6e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:45 +0000
Subject: [PATCH 55/55] fix: keep a collection of quantizers current if its
 initialization fails

---
 src/fastforward/quantization/quant_init.py | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/fastforward/quantization/quant_init.py b/src/fastforward/quantization/quant_init.py
index 508f485..ccdfcc4 100644
--- a/src/fastforward/quantization/quant_init.py
+++ b/src/fastforward/quantization/quant_init.py
@@ -163,18 +163,15 @@ class QuantizerCollection(mpath.MPathCollection):
         overwrite_policy: _OverwriteOptions = "error",
         safe: bool = True,
     ) -> None:
-        _results: list[FilterResult] = []
-        for result in self._results:
-            _results.append(
-                _initialize_quantizer(
-                    root=self._root,
-                    result=result,
-                    quantizer_factory=quantizer_factory,
-                    overwrite_policy=overwrite_policy,
-                    safe=safe,
-                )
+        # Replace results one by one, so that they remain valid if initialization fails midway.
+        for idx, result in enumerate(self._results):
+            self._results[idx] = _initialize_quantizer(
+                root=self._root,
+                result=result,
+                quantizer_factory=quantizer_factory,
+                overwrite_policy=overwrite_policy,
+                safe=safe,
             )
-        self._results = _results
 
     def initialize(
         self,
-- 
2.43.0

