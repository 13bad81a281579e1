"""Exports of small networks: builders, fault seams and readers of what was written."""

from __future__ import annotations

import contextlib
import functools
import gc
import hashlib
import io
import json
import os
import pathlib
import pickle
import random
import sys

from typing import Any

import torch

import fastforward as ff

from sim import models
from sim.core import Sim, maybe_op_fault, raise_fault, tdigest


def warm() -> None:
    """Pays the lazy imports of the exporters once; nothing of the code under test runs."""
    import onnx  # noqa: F401
    import onnxruntime
    import onnxscript  # noqa: F401

    import fastforward.export.module_export  # noqa: F401
    import fastforward.export.stages.gguf  # noqa: F401

    with contextlib.redirect_stdout(io.StringIO()), contextlib.redirect_stderr(io.StringIO()):
        p = torch.onnx.export(torch.nn.Sequential(torch.nn.Linear(4, 4), torch.nn.ReLU()), (torch.ones(2, 4),), dynamo=True, verbose=False)
        torch.export.export(torch.nn.Linear(4, 4), (torch.ones(2, 4),)).run_decompositions(torch.export.default_decompositions())
    b = io.BytesIO()
    p.save(b)
    onnxruntime.InferenceSession(b.getvalue(), providers=["CPUExecutionProvider"])


# ------------------------------------------------------------------ models


class Two(torch.nn.Module):
    """Network whose root has two inputs (one by keyword) and several outputs."""

    def __init__(self, left: torch.nn.Module, right: torch.nn.Module) -> None:
        super().__init__()
        self.left, self.right = left, right

    def forward(self, x, other=None):
        a = models.deq(self.left(x))
        b = self.right(x if other is None else other)
        return a + models.deq(b), b


class Flat(torch.nn.Module):
    """Weights in blocks of 32, for GGUF."""

    def __init__(self, n: int, seed: int) -> None:
        super().__init__()
        g = torch.Generator().manual_seed(seed)
        self.layers = torch.nn.ModuleList()
        for i in range(n):
            m = ff.nn.QuantizedLinear(32 * (1 + (seed + i) % 2), 2 + i)
            with torch.no_grad():
                m.weight.copy_(torch.randn(m.weight.shape, generator=g))
                m.bias.copy_(torch.randn(m.bias.shape, generator=g))
            self.layers.append(m)
        self.embed = torch.nn.Embedding(4, 3)
        with torch.no_grad():
            self.embed.weight.copy_(torch.randn(4, 3, generator=g))

    def forward(self, x):
        return [models.deq(m(x.sum() * torch.ones(1, m.in_features))) for m in self.layers]


def gen_export_model(rng: random.Random) -> dict:
    r = rng.random()
    if r < 0.15:
        return {"t": "flat", "n": rng.randint(1, 3), "seed": rng.randint(0, 99), "bits": rng.choice([8, 8, 4]), "q": [rng.random() < 0.8 for _ in range(3)],
                "train": rng.random() < 0.3}
    kw = dict(n=(0, 2), depth=1, pq=0.5, probe=True, share=rng.random() < 0.3, tie=rng.random() < 0.25, shareq=rng.random() < 0.3,
              uninit=rng.choice([0, 0, 0, 0, 0.2]), plain=rng.choice([0, 0, 0.1]))
    m = {"t": "two" if r < 0.35 else "seq", "a": models.gen_model(rng, **kw), "train": rng.random() < 0.3, "nograd": rng.random() < 0.2}
    if m["t"] == "two":
        m["b"] = models.gen_model(rng, **kw)
    for k in "ab":
        if k in m and rng.random() < 0.7:
            m[k]["items"].insert(rng.randint(0, len(m[k]["items"])), {"t": "probe"})
    m["wide"] = rng.random() < 0.75  # only widths that QDQ graphs know
    return m


def widen(spec: Any) -> None:
    if isinstance(spec, dict):
        if spec.get("t") == "lin" and "b" in spec and isinstance(spec["b"], int):
            spec["b"] = {2: 4, 3: 8}.get(spec["b"], spec["b"])
        for v in spec.values():
            widen(v)
    elif isinstance(spec, list):
        for v in spec:
            widen(v)


def build(spec: dict) -> torch.nn.Module:
    if spec["t"] == "flat":
        m = Flat(spec["n"], spec["seed"])
        for x, on in zip(m.layers, spec["q"]):
            if on:
                x.weight_quantizer = ff.nn.LinearQuantizer(spec["bits"], symmetric=True, allow_one_sided=False, granularity=ff.PerBlock((1,), (32,), (0,)))
                hi = x.weight.detach().reshape(x.weight.shape[0], -1, 32).abs().amax(-1).reshape(-1)
                x.weight_quantizer.quantization_range = (-hi, hi)
    else:
        parts = []
        for k in "ab":
            if k in spec:
                s = json.loads(json.dumps(spec[k]))
                if spec["wide"]:
                    widen(s)
                parts.append(models.build_model(s))
        m = parts[0] if spec["t"] == "seq" else Two(*parts)
    for i, p in enumerate(models.probes(m)):
        p.tag = f"p{i}"
    m.train(spec["train"])
    if spec.get("nograd"):
        for p in m.parameters():
            if not torch.nn.parameter.is_lazy(p):
                p.requires_grad_(False)
    return m


def inputs(spec: dict, kw: bool, seed: int) -> tuple[tuple, dict]:
    x = models.batch(seed)
    if spec["t"] == "two" and kw:
        return (x,), {"other": models.batch(seed + 1)}
    return (x,), {}


# ------------------------------------------------------------------ exporting


PATTERNS = ["**/[cls:torch.nn.Linear]", "**/[cls:ff.nn.QuantizedRelu]", "mods/0", "mods/*", "left", "right", "left/mods/*", "*/mods/0", "**/[cls:torch.nn.Linear]", "mods/0/mods/*"]
HANDLERS = ("V1SchemaHandler", "LegacySchemaHandler", "V2SchemaHandler")


def handler(name: str):
    from fastforward.export import _export_schemas

    return getattr(_export_schemas, name)()


def gguf_options(bits: int):
    from types import SimpleNamespace

    from fastforward.export.pipeline.orchestrator import GgufLlamaCppOptions
    from fastforward.export.stages.gguf._packing import GGUF_Q4_0, GGUF_Q8_0
    from fastforward.export.stages.gguf.adapter import ArchAdapter

    def name_map(n: str):
        return None if "quantizer" in n else "t." + n

    def write_metadata(writer, config) -> None:
        writer.add_block_count(config.num_hidden_layers)

    a = ArchAdapter(gguf_arch="toy", name_map=name_map, transforms=[], write_metadata=write_metadata, tokenizer_model="gpt2", tokenizer_pre="default")
    return GgufLlamaCppOptions(arch_adapter=a, quant_format=GGUF_Q4_0 if bits == 4 else GGUF_Q8_0, model_config=SimpleNamespace(num_hidden_layers=1))


def do_export(model: torch.nn.Module, spec: dict, op: dict, out: pathlib.Path, hand: Any = None, args: tuple | None = None, kwargs: dict | None = None,
              orch: Any = None) -> Any:
    """One export as described by op (target, name, selection, options)."""
    from fastforward.export.export import export
    from fastforward.export.module_export import export_modules
    from fastforward.export.pipeline import ExportRequest
    from fastforward.export.pipeline.orchestrator import ExportOrchestrator, QnnOnnxOptions

    if args is None:
        args, kwargs = inputs(spec, op.get("kw", False), op.get("data", 0))
    if spec["t"] == "flat":
        req = ExportRequest(model=model, sample_inputs=[(args, kwargs)], output_dir=out, model_name=op["name"], target="gguf", format="llama_cpp",
                            options=gguf_options(spec["bits"]).to_context())
        return (orch or ExportOrchestrator()).export(req)
    opts: dict[str, Any] = {"verbose": False}
    if hand is not None:
        opts["encoding_schema_handler"] = hand
    if op.get("alter"):
        opts["alter_node_names"] = True
    if op.get("via") == "orch":
        opts["orchestrator"] = orch or ExportOrchestrator()
    if op.get("via") == "direct" and op["op"] == "export":
        o = QnnOnnxOptions(verbose=False, store_weights_as_qdq=op["data"] % 2 == 0, alter_node_names=bool(op.get("alter")))
        if hand is not None:
            o.encoding_schema_handler = hand
        req = ExportRequest(model=model, sample_inputs=[(args, kwargs)], output_dir=str(out), model_name=op["name"], target="QNN", format=op["format"], options=o.to_context())
        return (orch or ExportOrchestrator()).export(req)
    if op["op"] == "modules":
        sel = select(model, op["sel"])
        return export_modules(model, args, sel, op["name"], out, kwargs=kwargs or None, **opts)
    if op.get("save") == "embedded":
        opts["onnx_save_kwargs"] = {"save_as_external_data": False}
    elif op.get("save") == "external":
        opts["onnx_save_kwargs"] = {"size_threshold": 0}
    return export(model, args, out, op["name"], format=op["format"], model_kwargs=kwargs, **opts)


def gen_selection(rng: random.Random) -> Any:
    return rng.randint(0, 9) if rng.random() < 0.45 else rng.choice(PATTERNS)


def select(model: torch.nn.Module, sel: Any):
    """A module, or a collection of modules found by pattern."""
    if isinstance(sel, int):
        mods = [m for m in model.modules() if not isinstance(m, (ff.nn.Quantizer, torch.nn.ModuleList))] or [model]
        return mods[sel % len(mods)]
    return ff.mpath.search(sel, model)


# ------------------------------------------------------------------ seams


def gen_fault(rng: random.Random, spec: dict, op: dict, crash: bool) -> dict:
    """A fault that hits an export of this kind most of the time."""
    flat, mods = spec["t"] == "flat", op["op"] == "modules"
    w = rng.choice(["stage", "stageop", "fs"] if flat else ["probe", "stage", "stage", "stageop", "texport", "oexport", "fs", "fs", "fs"] + ["ort"] * 2 * mods)
    kinds = ["error", "interrupt", "oom", "io"] + ["crash"] * crash
    if w == "probe" and '"probe"' not in json.dumps(spec):
        w = "fs"
    if w == "fs":
        n = 4 if flat else 18 if mods else 8 if op["format"] == "onnx" else 6
        return {"where": "fs", "at": rng.randrange(n), "kind": rng.choice(["eio", "enospc", "interrupt"] + ["crash"] * 2 * crash), "frac": rng.choice([0.0, 0.5, 1.0])}
    if w == "stageop":
        return {"where": "stage", "at": rng.randint(0, 2), "op": rng.randint(0, 25), "kind": rng.choice(["oom", "interrupt"])}
    n = {"probe": 5, "stage": 5 if flat else 15 if mods or op["format"] == "onnx" else 7}.get(w, 1)
    return {"where": w, "at": rng.randrange(n + (n > 5 and mods)), "kind": rng.choice(kinds), "after": rng.random() < 0.35}


class Seams:
    """Points inside an export at which it can be stopped: user modules, stages, exporters of torch and onnxruntime."""

    def __init__(self, sim: Sim, fault: dict | None, model: torch.nn.Module | None) -> None:
        self.sim, self.fault, self.model = sim, fault, model
        self.n: dict[str, int] = {}
        self.saved: list[tuple[Any, str, Any]] = []
        self.fired = False

    def hit(self, where: str) -> bool:
        k = self.n.get(where, 0)
        self.n[where] = k + 1
        self.sim.tick()
        f = self.fault
        if f and f["where"] == where and f["at"] == k and not self.fired:
            self.fired = True
            return True
        return False

    def point(self, where: str) -> None:
        if self.hit(where):
            raise_fault(self.sim, self.fault["kind"])

    def around(self, where: str, fn):
        @functools.wraps(fn)
        def wrapped(*a, **k):
            if not self.hit(where):
                return fn(*a, **k)
            if self.fault.get("after"):
                fn(*a, **k)
                raise_fault(self.sim, self.fault["kind"])
            if self.fault.get("op") is not None and self.fault["kind"] in ("oom", "interrupt"):
                with maybe_op_fault(self.sim, {"at": self.fault["op"], "kind": self.fault["kind"]}):
                    return fn(*a, **k)
            raise_fault(self.sim, self.fault["kind"])

        return wrapped

    def patch(self, obj: Any, name: str, new: Any) -> None:
        self.saved.append((obj, name, getattr(obj, name)))
        setattr(obj, name, new)

    def __enter__(self) -> "Seams":
        from fastforward.export.pipeline.core import Pipeline

        real = Pipeline.register_stage

        def register_stage(pipe, stage_fn, name, *a, **k):
            safe = name in ("fuse_qdq_weights", "capture_model_io", "extract_quantized_weights", "pack_gguf_blocks")
            if self.fault and self.fault["where"] == "stage" and self.fault.get("op") is not None and not safe:
                return real(pipe, stage_fn, name, *a, **k)
            return real(pipe, self.around("stage", stage_fn), name, *a, **k)

        self.patch(Pipeline, "register_stage", register_stage)
        self.patch(torch.export, "export", self.around("texport", torch.export.export))
        self.patch(torch.onnx, "export", self.around("oexport", torch.onnx.export))
        import onnxruntime

        ort = onnxruntime.InferenceSession
        seam = self

        class Session(ort):
            def __init__(self, *a, **k):
                seam.point("ort")
                super().__init__(*a, **k)

        self.patch(onnxruntime, "InferenceSession", Session)
        if self.model is not None:
            for p in models.probes(self.model):
                p.cb = lambda tag, x: self.point("probe")
        return self

    def __exit__(self, *exc) -> None:
        for obj, name, old in reversed(self.saved):
            setattr(obj, name, old)
        if self.model is not None:
            for p in models.probes(self.model):
                p.cb = None


# ------------------------------------------------------------------ reading what was written


def _plain(x: Any) -> Any:
    if isinstance(x, torch.Tensor):
        return tdigest(x)
    if isinstance(x, (list, tuple)):
        return [_plain(v) for v in x]
    if isinstance(x, dict):
        return {str(k): _plain(v) for k, v in x.items()}
    return repr(x)


def read_onnx(path: str) -> dict:
    import onnx

    from onnx import numpy_helper

    m = onnx.load(path)
    g = m.graph

    def meta(i):
        return {p.key: p.value for p in i.metadata_props if "fastforward" in p.key}

    def arr(t):
        a = numpy_helper.to_array(t)
        return f"{a.dtype}{a.shape}:{hashlib.sha256(a.tobytes()).hexdigest()[:12]}"

    def attr(a):
        if a.type == onnx.AttributeProto.TENSOR:
            return arr(a.t)
        v = onnx.helper.get_attribute_value(a)
        return repr(list(v)) if hasattr(v, "__iter__") and not isinstance(v, (bytes, str)) else repr(v)

    def io_(v):
        t = v.type.tensor_type
        return [v.name, t.elem_type, [d.dim_param or d.dim_value for d in t.shape.dim], meta(v)]

    return {
        "opset": sorted((o.domain, o.version) for o in m.opset_import),
        "inputs": [io_(v) for v in g.input], "outputs": [io_(v) for v in g.output],
        "nodes": [[n.op_type, n.name, list(n.input), list(n.output), sorted((a.name, attr(a)) for a in n.attribute), meta(n)] for n in g.node],
        "init": sorted([t.name, arr(t), meta(t)] for t in g.initializer),
    }


def read_gguf(path: str) -> dict:
    from gguf import GGUFReader

    r = GGUFReader(path)
    out = {
        "kv": {k: [bytes(p).hex() for p in f.parts] for k, f in r.fields.items()},
        "tensors": [[t.name, str(t.tensor_type), [int(d) for d in t.shape], hashlib.sha256(t.data.tobytes()).hexdigest()[:12]] for t in r.tensors],
    }
    return out


def read_artifacts(root: str | os.PathLike) -> dict[str, Any]:
    """Everything below root that an export writes, by relative path, in comparable form."""
    out: dict[str, Any] = {}
    for d, _, files in os.walk(root):
        for f in sorted(files):
            p = os.path.join(d, f)
            rel = os.path.relpath(p, root)
            try:
                if f.endswith(".onnx"):
                    out[rel] = read_onnx(p)
                elif f.endswith(".encodings"):
                    with open(p) as h:
                        out[rel] = json.load(h)
                elif f.endswith(".pickle"):
                    with open(p, "rb") as h:
                        out[rel] = _plain(pickle.load(h))
                elif f.endswith(".gguf"):
                    out[rel] = read_gguf(p)
                # anything else holds tensors that the graph refers to
            except Exception as e:  # noqa: BLE001
                out[rel] = f"unreadable: {type(e).__name__}: {str(e)[:200]}"
    return json.loads(json.dumps(out))


def first_diff(a: Any, b: Any, path: str = "") -> str | None:
    if type(a) is not type(b):
        return f"{path}: {a!r:.200} != {b!r:.200}"
    if isinstance(a, dict):
        for k in sorted(set(a) | set(b)):
            if k not in a or k not in b:
                return f"{path}/{k}: only in the {'second' if k not in a else 'first'}"
            r = first_diff(a[k], b[k], f"{path}/{k}")
            if r:
                return r
        return None
    if isinstance(a, list):
        for i, (x, y) in enumerate(zip(a, b)):
            r = first_diff(x, y, f"{path}[{i}]")
            if r:
                return r
        return None if len(a) == len(b) else f"{path}: {len(a)} != {len(b)} entries"
    return None if a == b else f"{path}: {a!r:.200} != {b!r:.200}"


# ------------------------------------------------------------------ other processes


def in_fork(fn) -> Any:
    """Runs fn in a forked process; its picklable result, or raises RuntimeError with the traceback."""
    import traceback

    r, w = os.pipe()
    sys.stdout.flush()
    sys.stderr.flush()
    gc.collect()
    pid = os.fork()
    if pid == 0:
        gc.disable()  # what the parent left behind (sessions with threads) is not finalized here
        code = 1
        try:
            os.close(r)
            try:
                out = pickle.dumps(("ok", fn()))
            except BaseException:  # noqa: BLE001
                out = pickle.dumps(("error", traceback.format_exc()[-3000:]))
            with os.fdopen(w, "wb") as h:
                h.write(out)
            code = 0
        finally:
            os._exit(code)
    os.close(w)
    try:
        with os.fdopen(r, "rb") as h:
            data = h.read()
    finally:
        status = os.waitpid(pid, 0)[1]
    if not data:
        raise RuntimeError(f"the forked process died: {status}")
    kind, val = pickle.loads(data)
    if kind == "error":
        raise RuntimeError(val)
    return val
