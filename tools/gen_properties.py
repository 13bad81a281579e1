"""Writes /verif/properties.jsonl (kept as a script so that the list is easy to edit)."""
import json, pathlib

P = []
def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    anchors = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: anchors["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: anchors["observe_at"] = observe
    anchors["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": anchors})

S = "src/fastforward/"

prop("C01", "Global mode switches are scoped and restored however a scope ends",
 "Strict quantization, export mode and the other global modes hold exactly the value requested by the innermost open scope (or the last plain assignment), and closing a scope - normally, by an exception, by a keyboard interrupt or from a decorated function - puts back exactly the value that was in force when that scope was opened. Library operations called inside a scope observe that value: with strict quantization on, a quantized operation on unquantized input is refused, with it off it is computed, and nothing else about other modes changes.",
 ["histories", "fault_sequences"], "every sequence of opening/closing/assigning the modes, decorated and recursive calls, and a failure at any point of the work inside a scope",
 "The unit tests enter one or two scopes and leave them normally; they never combine nesting, plain assignments, decorators, re-entrancy and failures at arbitrary points.",
 [S+"flags.py", S+"_quantops/operator.py", S+"_gen/fallback.py"],
 [("context managers and context() decorator", S+"flags.py:_context_flag, context"), ("strict check in fallback operators", S+"_gen/fallback.py")],
 state=[("mode table", "current value of each global mode", S+"flags.py:_FLAGS")],
 observe=["ff.get_strict_quantization()", "ff.get_export_mode()", "result or QuantizationError of ff.nn.functional.* calls"])

prop("C02", "Per-module strictness applies only while that module runs",
 "While a module carries a per-module strictness setting, everything executed inside its forward pass sees that setting and everything outside sees the surrounding setting, for any nesting, sharing or recursion of modules. Of several settings attached to one module the most recently attached wins. The surrounding setting is back in force after each forward pass whether it returned or raised an exception, and also when the setting is removed at any time, including while the module is running.",
 ["histories", "fault_sequences"], "any module tree, shared/recursive invocation, overlapping settings attached and removed at any time, failures at any operation inside any forward pass",
 "Tests run one non-nested module that never fails; a leaked setting silently changes the semantics of every later call in the process.",
 [S+"quantization/strict_quantization.py", S+"flags.py"],
 [("pre/post forward hooks", S+"quantization/strict_quantization.py:ModuleStrictQuantHandle")],
 observe=["ff.get_strict_quantization() inside probe modules and after every call"])

prop("C03", "Quantizer overrides nest, compose and are removable in any order",
 "A call to a quantizer runs the overrides registered at that moment from most recently to least recently registered around the real quantization, each invocation of the continuation handed to an override running exactly the remaining overrides plus the quantizer, even if it is invoked several times, not at all, or after an earlier invocation failed. Removing a registration (in any order, repeatedly, by handle, as a scope, or while a call is in flight) removes that registration only, and a failing call leaves the registered set unchanged.",
 ["histories", "fault_sequences", "schedules"], "all histories of register/remove/call on several quantizers sharing override functions, retrying and short-circuiting overrides, failures at any point, and calls overlapping in several caller threads",
 "Tests use one or two overrides that each call the continuation exactly once and never fail or overlap.",
 [S+"forward_override.py", S+"nn/quantizer.py", S+"overrides.py"],
 [("override stack application", S+"forward_override.py:apply_overrides"), ("registration", S+"nn/quantizer.py:Quantizer.register_override/remove_override")],
 observe=["trace recorded by override functions", "Quantizer.overrides", "returned tensor"])

prop("C04", "Disabling and re-enabling quantization is exact and reversible",
 "Inside a disable scope every quantizer that was part of the model passes its input through untouched and strictness is off; inside an enable scope the quantizers behave as if the disabling were absent; a reusable disabling switch affects exactly the quantizers it is attached to and is on or off as last set. After the outermost scope ends - normally, by an exception or an interrupt - the model produces bit-identical results and carries the same overrides and strictness as before.",
 ["histories", "fault_sequences"], "any nesting of disable/enable scopes, switch toggling, attach/detach and forward passes on models with shared and stub quantizers, failures at any operation",
 "Tests check a single disable or enable scope with a normal exit.",
 [S+"overrides.py", S+"forward_override.py"],
 [("disable/enable scopes", S+"overrides.py:disable_quantization, enable_quantization"), ("switch", S+"overrides.py:DisableQuantizationOverride")],
 observe=["model outputs", "Quantizer.overrides", "ff.get_strict_quantization()"])

prop("C05", "Calibration leaves no instrumentation behind however it starts or ends",
 "When a range-calibration scope ends, or fails to start, every quantizer carries exactly the overrides it carried before, global modes are unchanged, and a further forward pass changes no quantization range. This holds for every bundled estimator, for any failure of the data source, the model, the estimator's setup or the allocator, and for interrupts; overlapping and nested calibrations do not remove each other's instrumentation.",
 ["fault_sequences", "histories"], "every bundled range estimator, models mixing supported/unsupported/stub/shared quantizers, a failure at any point of setup, of any batch, of teardown, and any nesting",
 "Tests finish every calibration normally; the failure points (unsupported quantizer found half way, out of memory in a batch, data loader error) are never exercised.",
 [S+"range_setting/common.py", S+"range_setting/minmax.py", S+"range_setting/min_error.py"],
 [("estimate_ranges scope", S+"range_setting/common.py:estimate_ranges"), ("prepare/cleanup", S+"range_setting/minmax.py")],
 observe=["Quantizer.overrides", "quantization_range before/after", "model outputs"])

prop("C06", "Calibrated ranges are the stated statistic of the batches actually seen",
 "After any sequence of calibration sessions and batches, each quantizer's range equals the bundled estimator's documented statistic - running minimum/maximum over everything seen, exponential moving average, or least accumulated error over a fixed candidate grid - of exactly the batches that quantizer processed while being calibrated, starting from its range at the start of the session. Batches processed outside a session, by other quantizers, or lost to failures before reaching the quantizer do not influence it.",
 ["histories", "fault_sequences"], "all sequences of sessions, batches, interleaved ordinary forward passes, per-quantizer reach (data-dependent branches), interruptions and resumptions",
 "Tests calibrate on one or two batches in a single uninterrupted session.",
 [S+"range_setting/minmax.py", S+"range_setting/min_error.py", S+"range_setting/common.py", S+"nn/linear_quantizer.py"],
 [("running min-max", S+"range_setting/minmax.py:RunningMinMaxEstimator"), ("smoothed", S+"range_setting/minmax.py:SmoothedMinMaxEstimator"), ("grid search", S+"range_setting/min_error.py:_MinAvgErrorGridEstimator")],
 observe=["quantization_range of every quantizer after every batch"])

prop("C07", "Freezing parameters rewrites only what ran and leaves nothing behind",
 "During a freeze scope, each parameter that reaches an enabled quantizer is replaced in place by its own quantized value and (if requested) that quantizer is replaced by a stub carrying the same metadata, so a later forward pass yields the same result as quantizing on the fly did (for quantizers that are shared, in every module of the scope that owns a frozen parameter); parameters and quantizers that were not reached, or whose quantizer was disabled, are untouched. After the scope - however it ends - no freezing override remains on any quantizer and later passes never modify parameters.",
 ["histories", "fault_sequences"], "models with shared quantizers and parameters, several passes, partial passes interrupted at any operation, with or without stubbing",
 "Tests do one complete forward pass and do not look at overrides afterwards when quantizers are kept.",
 [S+"quantization/freeze.py", S+"nn/quantized_module.py"],
 [("freeze scope", S+"quantization/freeze.py:freeze_parameters"), ("override", S+"quantization/freeze.py:_FreezeParametersOverride")],
 observe=["parameters", "module tree", "Quantizer.overrides", "outputs"])

prop("C08", "Operator dispatch follows the history of registrations",
 "Looking up an operator always yields the kernel of the best-priority, most recently registered, still-active registration whose predicate accepts the arguments, and nothing when there is none. Ending a registration scope in any order, more than once, or through a failure removes that registration only, and quantized operations in a model actually use the kernel so selected.",
 ["histories", "fault_sequences"], "all histories of scoped/permanent registrations with equal and different predicates, kernels and priorities across operators, scopes closed in any order or by failure, predicates that raise",
 "Tests register one or two kernels and close scopes in LIFO order.",
 [S+"dispatcher.py", S+"_quantops/operator.py", S+"_gen/operators.py"],
 [("register/dispatch", S+"dispatcher.py:_register_functional, dispatch, DispatcherRegistrationHook")],
 state=[("registrations", "ordered registrations per operator", S+"dispatcher.py:_DISPATCHER")],
 observe=["kernel returned by dispatch", "kernel executed by ff.nn.functional calls"])

prop("C09", "A saved quantized model reloads exactly, or loading says it cannot",
 "Loading a completely saved artifact or quantization state into a freshly quantized model reproduces every quantizer, weight, tie and output bit for bit. If saving was cut short at any write, hit a full disk or I/O error, or stored bytes were lost, truncated or mixed up between saves, then loading either raises or yields exactly one complete previously saved model - never a mixture of two saves or a silently altered one.",
 ["crash_points", "fault_sequences", "inputs"], "all models/quantizer configurations in the supported family, repeated saves to the same and different places, a crash or I/O error at any file operation of a save, torn writes and missing/truncated files",
 "Tests save once to an empty directory and load it straight back.",
 [S+"quantization/save_load.py", S+"serialization.py", S+"cache.py", S+"nn/quantizer.py"],
 [("writer", S+"quantization/save_load.py:_write_quantizer_state, save_quantized_model"), ("reader", S+"quantization/save_load.py:_load_quantizer_state_from_files, load_quantized_model")],
 observe=["model state and outputs after load", "raised exception"])

prop("C10", "A load that fails leaves the receiving model untouched",
 "When loading a quantized model or a quantization state raises - missing or damaged files, wrong model identity or version, mismatched structure or shapes, quantizers already present, an I/O error at any read - the receiving model has the same quantizers, parameters, overrides and outputs as before the call.",
 ["fault_sequences", "crash_points"], "any artifact damage or mismatch, any conflict policy, a failure at any read or allocation",
 "Tests only assert that an exception is raised.",
 [S+"quantization/save_load.py"],
 [("validate-then-attach", S+"quantization/save_load.py:_load_quantizer_state_from_files, load_quantized_model")],
 observe=["module tree identity, parameter values, outputs"])

prop("C11", "Saving never disturbs the live model or other saved models",
 "Saving - successful, refused, interrupted or failed at any file operation - changes nothing about the live model (parameters, quantizers, overrides, modes, outputs) and nothing in artifacts saved under other paths or tags. A save that is refused because the model cannot be saved leaves a previous artifact at the same place loadable as it was.",
 ["fault_sequences", "histories"], "all sequences of saves/loads of several models to several places, failures at any file operation or refusal for any reason",
 "Tests never save over an existing artifact and never fail a save.",
 [S+"quantization/save_load.py", S+"cache.py"],
 [("state collection", S+"quantization/save_load.py:_collect_quantizer_state")],
 observe=["live model", "bytes and loadability of other artifacts"])

prop("C12", "Executing a module graph equals the reference order of calls",
 "For every module graph - any DAG of modules and functions, nested subgraphs, attribute/index references, multiple outputs, with default or custom scheduling passes - executing it yields what calling each node once in dependency order yields, for any inputs. This stays true after any earlier execution failed part way and after the graph was edited or cut into subgraphs.",
 ["programs", "histories", "fault_sequences"], "random graphs, random edits (adding/removing nodes, outputs, extracting subgraphs), random inputs and failures at any node",
 "Tests use a handful of fixed graphs and never re-use a graph after a failure.",
 [S+"_orchestration/graph_module.py", S+"_orchestration/instruction_engine.py"],
 [("graph", S+"_orchestration/graph_module.py:GraphModule"), ("scheduler/engine", S+"_orchestration/instruction_engine.py")],
 observe=["outputs", "order and count of node calls"])

prop("C13", "Layer-wise optimization visits every target once with the right data",
 "Running layer-wise optimization over a graph calls the algorithm of each targeted module exactly once, in dependency order, with - for every calibration batch - the inputs that module receives when all earlier targets are in their already-optimized state, and with the inputs of each additional context when the algorithm asks for it. If an algorithm, a module, a context or the data source fails, the failure reaches the caller, every context is closed, targets not yet visited are untouched, and the same graph can be executed or optimized again with correct results.",
 ["programs", "histories", "fault_sequences"], "random graphs, target sets, contexts and batches; a failure in any algorithm call, node, context entry/exit or batch",
 "Tests optimize two or three layers in a fixed chain with no failure.",
 [S+"orchestration.py", S+"_orchestration/instruction_engine.py", S+"_orchestration/graph_module.py", S+"_orchestration/registry.py", S+"_orchestration/data_flow.py"],
 [("layerwise driver", S+"orchestration.py:layerwise_optimize"), ("instructions and passes", S+"_orchestration/instruction_engine.py"), ("target splitting", S+"_orchestration/graph_module.py")],
 observe=["calls received by registered algorithms", "module parameters and outputs afterwards"])

prop("C15", "Algorithm and conversion overrides hold exactly for their scope",
 "Looking up the optimization algorithm for a module always uses the registration in force: the last one registered or, inside override scopes, the innermost override; leaving an override scope, normally or by failure, restores exactly the registration in force when it was opened. Likewise a filter on the set of convertible modules applies only inside its scope, however that scope ends.",
 ["histories", "fault_sequences"], "any history of registration, lookup, conversion and nested or failing scopes",
 "Tests use a single override scope that exits normally.",
 [S+"_orchestration/registry.py", S+"nn/quantized_module.py"],
 [("algorithm registry", S+"_orchestration/registry.py"), ("conversion filter", S+"nn/quantized_module.py:filter_quantized_module_map")],
 observe=["resolved algorithm", "type of modules after quantize_model"])

prop("C16", "Tracing leaves the model as it was and yields an equivalent graph",
 "Tracing a model, whether it succeeds, is rejected or is interrupted at any point, leaves its parameters, buffers, quantizers, overrides, training mode and strictness exactly as they were. The resulting graph, executed on inputs like those traced, returns what the model itself returns, including after the values of the model's parameters or quantization ranges have changed since; a layer-wise pass over it hands algorithms exactly the activations that reach their module in the model. Tracing again after the model's structure, modes or kind of inputs changed reflects the change.",
 ["programs", "histories", "fault_sequences"], "random module trees (nested, shared, multi-input/-output blocks, uninitialised and active quantizers), a failure at any point of tracing, repeated traces, parameter and range updates between executions",
 "Tests trace a few fixed models and never fail a trace.",
 [S+"_orchestration/trace.py", S+"_orchestration/graph_module.py"],
 [("trace", S+"_orchestration/trace.py:trace"), ("placeholders for lazy parameters", S+"_orchestration/trace.py:_placeholder_uninitialized_params")],
 observe=["state of the model before/after", "outputs of graph and model"])

prop("C17", "Weight fusing snaps each weight once, all or nothing per weight",
 "Fusing sets every weight that has an active weight quantizer to exactly its quantized value and leaves every other parameter and quantizer alone, so that a model in which every use of a fused weight quantizes it with that quantizer computes bit for bit what it computed before, with or without stubbing. A fuse that is refused changes nothing; one that is interrupted leaves each weight either wholly old or wholly fused, never stubs a quantizer whose weight was not fused, and can be repeated to reach the same result as an uninterrupted one.",
 ["fault_sequences", "histories"], "models with tied weights, shared quantizers, stubs, overrides; a failure at any operation; repeated and resumed fuses",
 "Tests fuse once, to the end.",
 [S+"quantization/fuse.py"],
 [("fuse", S+"quantization/fuse.py:fuse_qdq_weights, _fuse_target"), ("tied weight check", S+"quantization/fuse.py:_check_tied_weight_targets")],
 observe=["parameters, module tree, outputs"])

prop("C18", "GPTQ changes only its layer's weight, and only when it completes",
 "Running GPTQ on a layer changes nothing but that layer's weight and the range of its weight quantizer: the calibration data it is given, every other parameter, quantizer and mode are untouched, and the new weight lies on the grid of the weight quantizer. If the run fails or is interrupted at any operation the weight is untouched, and repeating it with the same data gives the same result as a run that never failed.",
 ["fault_sequences", "histories", "inputs"], "layer shapes, bit widths, block sizes, calibration batches (repeatable, lazily produced, failing), and a failure at any operation or batch",
 "Tests run GPTQ once on one layer with fresh data and look at the loss only.",
 [S+"quantization/gptq.py"],
 [("GPTQ", S+"quantization/gptq.py:gptq, calculate_hessian")],
 observe=["weight, quantizer range, calibration tensors"])

prop("C19", "Quantizer initialization follows the rules and can be resumed",
 "Initialising quantizers from a configuration gives every matched location the quantizer built by the last matching rule, built exactly once per quantizer (and shared wherever the original was shared), respects the overwrite policy, and touches nothing else. When a factory fails or initialization is interrupted, every location holds either its old quantizer or its complete new one, and resuming with the skip policy reaches the same configuration as a run that was never interrupted.",
 ["programs", "histories", "fault_sequences"], "random module trees with shared quantizers and tags, rule lists, policies, and a failure in any factory call",
 "Tests apply a couple of rules to one model and never fail a factory.",
 [S+"quantization/quant_init.py", S+"mpath/__init__.py", S+"nn/quantized_module.py"],
 [("rules", S+"quantization/quant_init.py:QuantizationConfig.initialize"), ("placement", S+"mpath/_search.py")],
 observe=["module tree, factory calls"])

prop("C20", "Export pipelines run every stage once, after what it depends on",
 "Running a pipeline executes every registered stage exactly once, after all stages it depends on, handing each stage exactly the results its dependencies produced in this same run, and returns the results of this run. This holds after any sequence of inserting, replacing and re-wiring stages, for repeated and nested runs, and after an earlier run failed in any stage; a failing stage stops everything that depends on it and its error reaches the caller, and invalid edits (unknown or duplicate stage, cycle) are refused without changing the pipeline.",
 ["programs", "histories", "fault_sequences"], "random stage graphs, edits, repeated runs, a failure in any stage",
 "Tests execute a few fixed pipelines that do not fail and are not edited between runs.",
 [S+"export/pipeline/core.py", S+"export/pipeline/orchestrator.py"],
 [("pipeline", S+"export/pipeline/core.py:Pipeline"), ("executor", S+"export/pipeline/orchestrator.py")],
 observe=["stage calls and their arguments", "result or exception"])

prop("C21", "Exporting leaves the model and the process as it found them",
 "Exporting a model or a selection of its modules - to completion, or stopped by an error, interrupt or I/O failure at any point - leaves the model with the same quantizers, hooks, overrides, training mode and outputs, the same parameters (weights may be snapped in place to the grid of their own quantizers, as storing weights as QDQ says), and strict-quantization and export mode as before.",
 ["fault_sequences", "crash_points"], "models, module selections, a failure in any forward pass, pipeline stage, file operation or allocation",
 "Tests only look at the artifacts of a successful export.",
 [S+"export/export.py", S+"export/module_export.py", S+"export/_io_capture.py", S+"export/stages/base_pipeline_stages.py"],
 [("module export", S+"export/module_export.py:export_modules"), ("capture hooks", S+"export/_io_capture.py:ModuleIORecorder"), ("export entry", S+"export/export.py:export")],
 observe=["model state and hooks", "outputs", "global modes"])

prop("C22", "Export artifacts do not depend on what was exported before",
 "What an export writes (graph, encodings, recorded inputs and outputs) is the same whether it is the first export of the process or follows any other exports, successful or failed, of the same or other models and modules.",
 ["histories", "fault_sequences"], "sequences of exports of several models and modules with a failure at any point of earlier ones",
 "Tests export once per process state, or compare against a golden file.",
 [S+"export/module_export.py", S+"export/_export_schemas.py", S+"export/pipeline/orchestrator.py", S+"export/stages"],
 [("encodings handler", S+"export/_export_schemas.py:V1SchemaHandler"), ("module export", S+"export/module_export.py:export_modules")],
 observe=["artifact content"])

prop("C33", "What an export wrote describes the model",
 "After an export completes - the first, or one that follows failed or crashed exports into the same directory - its artifacts describe the model as it is: the QNN graph together with its encodings, and the QDQ graph, compute what the quantized model computes on the sample inputs and on others, the recorded inputs and outputs are those of the model, and GGUF tensors decode to the model's quantized weights. This holds for every combination of supported bit widths, symmetric and asymmetric, per-tensor and per-channel (first dimension) quantizers, shared quantizers and absent quantizers in which every tensor is quantized in at most one way wherever it is used.",
 ["histories", "fault_sequences", "crash_points"], "models, quantizer settings, encoding formats, module selections, and failures or a crash at any point of earlier exports into the same directory",
 "Tests compare a few encodings of a few fixed models; no test runs graph and encodings together.",
 [S+"export/stages", S+"export/_export_schemas.py", S+"export/module_export.py", S+"export/pipeline", S+"export/_onnx_helpers.py"],
 [("encodings", S+"export/_export_schemas.py"), ("metadata", S+"export/stages/onnx/onnx_export_stages.py:OnnxQuantMetadataAnnotator"), ("QDQ lowering", S+"export/stages/onnx/onnx_qdq_export_stages.py"), ("GGUF packing", S+"export/stages/gguf/_packing.py")],
 observe=["graph with encodings run by onnxruntime", "QDQ graph run by onnxruntime", "recorded inputs and outputs", "GGUF tensors"])

prop("C29", "A quantized model can be run from several threads at once",
 "Forward passes of quantized models that overlap in several threads each return exactly what they return when run alone, for any interleaving, with overrides, per-module stubs and reusable disabling switches attached beforehand, and leave models and modes as they were even if some of the calls fail. Only calls are concurrent: modes, registrations and calibration are not changed meanwhile.",
 ["schedules", "fault_sequences"], "every interleaving of the lines and bytecode instructions of 2-3 threads making forward and gradient passes over shared modules, with failures in some of them",
 "Tests are single-threaded.",
 [S+"forward_override.py", S+"nn/quantizer.py", S+"dispatcher.py", S+"_quantops/operator.py", S+"quantized_tensor.py", S+"nn/functional/custom/sdpa.py"],
 [("override application", S+"forward_override.py"), ("operator dispatch", S+"dispatcher.py")],
 observe=["outputs per thread", "overrides and modes afterwards"])

prop("C30", "Converting a model to quantized modules is exact and can be resumed",
 "Converting a model gives every module that is not skipped, and not quantized already, exactly the class the conversion map names for it - the map of all defined quantized classes (the latest definition for a module class wins), amended or replaced by the caller's - once each, however many parents share it; its parameters, buffers, hooks, training mode, identity and place in the model, and the quantizers attached to parts converted before, are kept, and the converted model computes what it computed before. A conversion that is refused (unknown or already quantized modules) changes nothing. If a quantization initializer fails or is interrupted, every module is afterwards either wholly converted or wholly as it was, and converting again, skipping what is quantized, completes the conversion.",
 ["histories", "fault_sequences"], "module trees with shared modules, histories of class definitions, conversions of parts and of the whole, a failure or interrupt in any quantization initializer",
 "Tests convert a few fixed trees once, and never fail a conversion.",
 [S+"nn/quantized_module.py", S+"nn/quantizer.py"], [("conversion", S+"nn/quantized_module.py:quantize_model"), ("module map", S+"nn/quantized_module.py:quantized_module_map"), ("surrogates", S+"nn/quantized_module.py:surrogate_quantized_modules")],
 observe=["class, contents and identity of every module", "model output", "initializer calls"])

# --- properties this family does not decide (see DESIGN.md)
prop("C23", "Autoquant turns a module's source into an equivalent quantized module",
 "For every supported module, the code autoquant generates computes, with its quantizers left as stubs, exactly what the original module computes, and with quantizers active quantizes every operation the operator table names.",
 ["programs", "inputs"], "every supported Python module source", "Tests convert a fixed set of source snippets.",
 [S+"autoquant.py", S+"_autoquant/autoquant.py", S+"_autoquant/cst/passes.py"], [("code generation", S+"_autoquant/autoquant.py")])
prop("C24", "Quantize-dequantize stays on the grid and within half a step",
 "For every tensor and every affine quantizer configuration, quantized values are integers of the stated width, dequantized values lie on the grid, differ from clipped inputs by at most half a step, and gradients follow the straight-through rule.",
 ["inputs"], "all tensors, bit widths, granularities", "Tests use a handful of tensors.",
 [S+"quantization/affine/static.py", S+"quantization/_quantizer_impl.py"], [("kernels", S+"quantization/_quantizer_impl.py")])
prop("C25", "Granularity tilings cover every element exactly once",
 "For every shape and granularity, tiling and untiling a tensor are inverse and every element belongs to exactly one tile with the parameters of that tile.",
 ["inputs"], "all shapes and granularities", "Tests use a handful of shapes.",
 [S+"quantization/granularity.py", S+"quantization/tiled_tensor.py"], [("tiling", S+"quantization/tiled_tensor.py")])
prop("C26", "Module path queries select exactly the modules they describe",
 "A module path query returns exactly the modules whose path, type and tags match the query, and set operations on collections behave as set operations.",
 ["inputs", "programs"], "all queries and module trees", "Tests use a handful of queries.",
 [S+"mpath/selector.py", S+"mpath/_search.py", S+"mpath/_parser.py"], [("search", S+"mpath/_search.py")])
prop("C14", "Offloading never changes results or loses parameters",
 "Running a graph with activation or parameter offloading between devices yields the same results as without and leaves every parameter on the device and with the value it had before, however the run ends.",
 ["histories", "fault_sequences"], "graphs, device placements, ways of offloading, a failure of any node call or transfer", "Tests have no second device and never fail a run.",
 [S+"_orchestration/instruction_engine.py"], [("offloading passes", S+"_orchestration/instruction_engine.py")])

json_path = pathlib.Path(__file__).resolve().parent.parent / "properties.jsonl"
if __name__ == "__main__":
    json_path.write_text("".join(json.dumps(p) + "\n" for p in P))
    print(len(P))
