"""Writes /verif/known_findings.json: defects found in the code under test and what became of them."""
import json, pathlib, subprocess

ROOT = pathlib.Path(__file__).resolve().parent.parent
FIXED = [  # (property, subject of the fix commit, what failed)
    ("C03", "fix: apply all remaining overrides on every call of an overridden quantizer", "an override that called its continuation twice (or again after a failure) skipped the remaining overrides the second time"),
    ("C02", "fix: restore strict quantization when a module with its own setting fails, recurses or overlaps", "a forward pass that raised left the module's strictness in force globally; recursion and several settings on one module restored the wrong value"),
    ("C05", "fix: clean up already prepared quantizers when setting up range estimation fails", "an unsupported quantizer or a failure while preparing left calibration overrides on the quantizers prepared before it"),
    ("C06", "fix: evaluate every candidate of the min error search grid", "the accumulated error of the last grid candidate was never updated, so it could never or wrongly be selected"),
    ("C06", "fix: let initialization of quantization parameters resume after a failure", "a failure between initializing scale and offset left the quantizer half initialized and no later range could be set"),
    ("C07", "fix: remove the freeze overrides at the end of freeze_parameters", "freeze overrides stayed registered after the scope and later forward passes froze parameters"),
    ("C07", "fix: let freeze_parameters only freeze parameters that are quantized", "parameters of disabled quantizers with another dtype were rounded through float32 and their quantizers removed; activation quantizers were replaced by stubs"),
    ("C07", "fix: let freeze_parameters support quantizers that are shared by several modules", "a quantizer shared by several modules was replaced in one of them only, or before the other module's parameter was frozen"),
    ("C08", "fix: only remove the registration that a dispatcher hook was created for", "closing a registration twice removed another, equal registration that was still active"),
    ("C09", "fix: reload quantizer classes that inherit their constructor", "a saved model holding a quantizer whose class inherits its constructor could not be loaded"),
    ("C09", "fix: restore the dtype of quantization parameters when loading", "quantization parameters of float64 and bfloat16 models were rounded through float32 when loading"),
    ("C09", "fix: let quantized models with uninitialized quantizers be saved and loaded if allowed", "allow_lazy_params=True did not allow saving or loading a quantized model with an uninitialized quantizer"),
    ("C09", "fix: refuse to load files that stem from different or incomplete saves", "after a save over an existing artifact was cut short, or its files were mixed up or truncated at a line, loading yielded a mixture of two models"),
    ("C10", "fix: leave the model untouched when loading a quantized model or state fails", "a load that raised had already attached quantizers and overwritten weights"),
    ("C11", "fix: keep an existing save intact when saving over it fails", "a refused save (for instance because of an active override) destroyed the artifact that was already there"),
    ("C12", "fix: reschedule a graph after adding an input or output", "inputs and outputs added after the first execution were ignored by later executions"),
    ("C12", "fix: return outputs that do not depend on the batches along with those that do", "a batched execution failed or dropped batches if one output did not depend on the batched inputs"),
    ("C12", "fix: execute graphs in which an unused node reads a nested attribute", "a graph with an unused node that reads a nested attribute could not be executed"),
    ("C12", "fix: cut subgraphs that read nested attributes of outside values", "extracting a subgraph that reads a nested attribute of an outside value failed or bound the wrong value"),
    ("C12", "fix: keep named tuples when moving activations between devices", "named tuples became plain tuples when activations were moved, so nodes that read their fields failed"),
    ("C12", "fix: reduce a graph to coarser resolutions without mixing up its values", "reduced graphs read wrong values: order of coarse nodes, values used inside a fold only, fold returns that are attributes or repeated"),
    ("C12", "fix: pass values to a subgraph node as they are instead of as batches", "a subgraph used as a node of a reduced graph took lists and tuples among its inputs for lists of batches"),
    ("C12", "fix: refuse to inline a subgraph twice without leaving a trace", "inlining a subgraph a second time raised halfway and left the graph with nodes that broke its execution"),
    ("C14", "fix: put modules back on their device however a program ends", "a run with parameter offloading that failed left modules on the execution device"),
    ("C14", "fix: load a module before its first call when offloading", "a module was never moved to the execution device before its first call if two calls of it followed each other, so the run failed or its parameters were used on the wrong device"),
    ("C14", "fix: track the device of each activation slot when offloading", "activations were moved to or loaded from the wrong device when a value was used by several nodes"),
    ("C16", "fix: keep inputs and constants among the outputs of traced models", "models that return one of their inputs, a constant or None could not be traced, or the traced graph failed on execution"),
    ("C16", "fix: replay the calls of traced modules like they were called", "layer-wise optimization on a traced model whose blocks take keyword or constant arguments or return structures fed its algorithms wrong activations or failed; blocks called in different ways could not be traced"),
    ("C16", "fix: restore uninitialized parameters and buffers in place after tracing", "a trace that failed while preparing left empty placeholders in the model; a trace changed the order of parameters and made non-persistent buffers persistent"),
    ("C16", "fix: trace a model again if its modules, modes or kind of inputs changed", "tracing again after replacing modules (for instance by quantizing the model), changing modes or with other inputs returned the stale graph"),
    ("C16", "fix: call the leaf modules of traced models like they were called", "a leaf module that takes constants between its tensors, keyword arguments or reorders its arguments was called with other arguments in the traced graph"),
    ("C16", "fix: do not add modules to the model when building a graph of it", "building a graph registered its modules as children of the traced model's own blocks"),
    ("C16", "fix: do not run the model to find its output structure when tracing", "tracing a model in training mode changed running statistics of its normalization layers"),
    ("C16", "fix: give each call of a module its own name in traced graphs", "layer-wise optimization on a traced model that calls a module several times fed algorithms the activations of another call"),
    ("C16", "fix: skip calls in traced graphs whose outputs are not used", "models that call a module without using its outputs could not be traced"),
    ("C16", "fix: trace models in which signatures of modules cannot be preserved", "models with several names for a block, or that call a block in several ways, could not be traced; updates of parameters were not seen by their traced graph"),
    ("C16", "fix: do not call traced modules with None for inputs that export removed", "a block that branches on whether an argument is None computed something else in the traced graph if that argument does not affect the output"),
    ("C17", "fix: do not reduce the precision of weights whose quantizer is disabled when fusing", "fusing rounded float64 weights whose quantizer was disabled to float32"),
    ("C17", "fix: fuse the weights of all modules that share a weight quantizer", "with stubbing, a quantizer shared by several modules was stubbed after the first weight was fused, the other weights were left unfused (and then used unquantized)"),
    ("C18", "fix: do not scale the calibration data of GPTQ in place", "GPTQ scaled the caller's calibration tensors in place, so a repeated run gave another result"),
    ("C18", "fix: update the weight as the last step of GPTQ", "a run that failed after the last column left the new weight in place"),
    ("C19", "fix: keep quantizers shared when initializing them", "a quantizer shared by several locations was replaced in one of them only"),
    ("C19", "fix: find modules by every name their parent holds them under", "a rule that names a module by its second name in the same parent was ignored"),
    ("C20", "fix: keep the position of stages that replace or follow another in a pipeline", "replacing a stage, or inserting one after it, reordered the results that stages depending on several others receive, and swapped the arguments of the evaluation metric"),
    ("C29", "fix: do not change the strict quantization flag in scaled dot product attention", "attention switched the process wide strict flag off while it ran, so two overlapping calls could leave strict quantization off, and let invalid calls of other threads pass"),
    ("C21", "fix: remove recorders from modules if export_modules fails in the forward pass", "a failing forward pass in export_modules left its recording hooks on the selected modules"),
    ("C33", "fix: export models in which modules share a quantizer", "a model in which modules share a quantizer could not be exported to QNN ONNX (KeyError)"),
    ("C33", "fix: export quantizers without an offset", "quantizers without an offset (symmetric, not one-sided) could not be exported to QNN ONNX"),
    ("C33", "fix: keep input encodings of exported modules whose argument is named as a builtin", "the encoding of the quantized input of an exported module that names its argument `input` (as all ff.nn modules do) was missing from the artifacts"),
    ("C33", "fix: refuse one-sided quantizers for symmetric GGUF formats", "weights with a one-sided quantizer were written to GGUF without their offset, and decoded to other values"),
    ("C33", "fix: keep zero points when only some offsets are zero", "per-channel encodings in which some, but not all, offsets are zero were taken for symmetric and lost their zero points"),
    ("C33", "fix: remove dead code before quantization metadata is named", "encodings were dropped or attached to other values if the captured model contains nodes without users"),
    ("C30", "fix: convert modules that are shared by several parents once", "a module shared by several parents was converted (and its quantization initialized) once per parent, or refused as already quantized"),
    ("C30", "fix: leave modules as they were if their conversion fails", "a failing or interrupted quantization initializer left its module half converted: of the quantized class but not initialized, and impossible to convert again"),
    ("C19", "fix: keep a collection of quantizers current if its initialization fails", "a collection whose initialization failed midway kept referring to the quantizers it had replaced, so that it could not be resumed, or (unsafe) initialized them again"),
]
KNOWN = []  # {"property", "status": "known", "what", "sequence": [scenarios]}
Q = {"t": "lin", "b": 4, "sym": True, "one": True, "g": "pt", "lo": -1.0, "hi": 1.0, "cls": "lin", "gain": 1.0, "lz": False, "tile": "pt"}
KNOWN.append({
    "property": "C11", "status": "known",
    "what": "saving a quantization state under tag 'v 1' overwrites the state saved under tag 'v/1' (get_assets_path replaces every separator by '--', so do names such as 'net/a' and 'net--a')",
    "where": "src/fastforward/cache.py:get_assets_path",
    "sequence": [{"arch": {"layers": ["linb"], "tie": False, "cfg": None}, "versions": [{"w": 1, "q": [Q], "dtype": "float32"}, {"w": 2, "q": [dict(Q, hi=2.0)], "dtype": "float32"}],
                  "places": [["state", "v/1", "net/a"], ["state", "v 1", "net/a"]],
                  "ops": [{"op": "save", "m": 0, "p": 0, "fault": None}, {"op": "save", "m": 1, "p": 1, "fault": None}]}],
})
BLK = {"t": "blk", "ret": "t", "u": 0, "par": False, "buf": None, "lazy": None, "seed": 1}
ST = {"a": 0, "b": 0, "c": 0, "y": False, "k": None, "xkw": False, "ykw": False, "p": 0}
KNOWN.append({
    "property": "C16", "status": "known",
    "what": "quantizers that a model calls directly (not through a module of which the graph keeps the calls) are missing from the traced graph, which then computes without them",
    "where": "src/fastforward/_orchestration/trace.py:trace (exports with quantization disabled)",
    "sequence": [{"model": {**BLK, "kids": [{"t": "lin", "seed": 3}], "body": [{**ST, "o": "call"}, {**ST, "o": "quant"}], "q": Q}, "ins": [{"y": False, "ykw": False, "k": None, "xkw": False, "n": 2}],
                  "ops": [{"op": "trace", "i": 0, "x": 1, "fault": None}]}],
})
PC = {"b": 8, "k": 4, "n": 4, "kind": "asym", "sym": False, "lo": [-2.89, -2.87, -0.64, -0.71], "hi": [2.59, 2.34, 2.17, 1.27]}
KNOWN.append({
    "property": "C33", "status": "known",
    "what": "the V2 schema declares axis 0 for the per-channel weight quantizer of a linear layer, although the weight is stored transposed, with its channels along axis 1",
    "where": "src/fastforward/export/_export_schemas.py (axis of per-channel encodings)",
    "sequence": [{"declared": True, "spec": {"t": "seq", "train": False, "a": [{"t": "lin", "bias": True, "seed": 143, "q": {"weight": PC, "bias": None, "output": None, "input": None}}]},
                  "ops": [{"op": "export", "format": "onnx", "name": "net", "kw": False, "data": 2, "sel": "mods/0", "handler": 2, "alter": False, "save": None, "via": "orch", "fault": None}]}],
})
extra = ROOT / "tools" / "findings_extra.py"
if extra.exists():
    exec(extra.read_text())
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h\t%s"], capture_output=True, text=True, check=True).stdout
by = {l.split("\t")[1]: l.split("\t")[0] for l in log.splitlines()}
out = []
for prop, subj, what in FIXED:
    out.append({"property": prop, "status": "fixed", "commit": by[subj], "what": what, "note": f"fixed: property={prop} {by[subj]} {what}"})
(ROOT / "known_findings.json").write_text(json.dumps({"findings": out + KNOWN}, indent=1) + "\n")
print(len(out), "fixed", len(KNOWN), "known")
