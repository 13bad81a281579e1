"""C21: exporting leaves the model and the process as it found them."""

from __future__ import annotations

import os
import warnings

import torch

from sim import exporting as E
from sim import models
from sim.core import Sim, catch, is_injected, public_flags, tdigest
from sim.fs import FS

PROPERTY = "C21"
CONFIGS = {"plain": {"faults": False}, "faults": {"faults": True}, "early": {"faults": True, "early": True}}
PLAN = {"quick": 60, "quick_s": 120, "thorough": 1200, "thorough_s": 780, "det": 2}
SESSION = 6
RULE = ("Histories of exports (whole networks as ONNX and QDQ ONNX, selections of their modules, GGUF) of generated networks with hooks, overrides, probes, stubs, shared and tied "
        "parts, stopped in user modules, pipeline stages, single operations of stages, torch's and onnxruntime's exporters and file operations; model, inputs, options and process "
        "modes are compared before and after every export, and its outputs with those of an untouched copy.")
REAL = ["fastforward.export", "fastforward.quantization.fuse", "fastforward.mpath", "fastforward.overrides", "fastforward.nn", "torch.export", "torch.onnx", "onnx", "onnxruntime", "gguf"]
STUB = ["disk below the scratch directory (fails on demand)"]
STATE_MEASURE = "hash of (export kind, outcome, place of the fault, what changed in the model)"


def setup() -> None:
    E.warm()


def generate(rng, cfg):
    spec = E.gen_export_model(rng)
    early = cfg.get("early", False)  # selections of modules, stopped while their inputs and outputs are recorded
    while early and spec["t"] == "flat":
        spec = E.gen_export_model(rng)
    ops = []
    for _ in range(rng.randint(1, 4 if early else 3)):
        r = rng.random()
        if r < 0.15 and ops:
            ops.append({"op": rng.choice(["train", "weights", "disable", "hook"]), "i": rng.randint(0, 9)})
            continue
        op = {"op": "modules" if rng.random() < 0.5 else "export", "format": rng.choice(["onnx", "onnx", "onnx_qdq"]), "name": rng.choice(["a", "b"]), "kw": rng.random() < 0.5,
              "data": rng.randint(0, 99), "sel": E.gen_selection(rng), "handler": rng.choice([None, None, *E.HANDLERS]), "alter": rng.random() < 0.2, "save": rng.choice([None, "embedded", "external"]), "via": rng.choice([None, None, "orch", "direct"]),
              "strict": rng.random() < 0.2, "expmode": rng.random() < 0.1, "nograd": rng.random() < 0.3, "fault": None}
        if cfg["faults"] and rng.random() < 0.85:
            op["fault"] = E.gen_fault(rng, spec, op, False)
        if early:
            if rng.random() < 0.6:
                op["fault"] = {"where": "probe", "at": rng.randint(0, 3), "kind": rng.choice(["error", "interrupt", "oom", "io"]), "after": False}
            else:
                op["fault"] = {"where": "fs", "at": rng.randint(0, 7), "kind": rng.choice(["eio", "enospc", "interrupt"]), "frac": rng.choice([0.0, 0.5, 1.0])}
            op["op"] = "modules"
        ops.append(op)
    return {"model": spec, "ops": ops, "hooks": rng.randint(0, 2), "off": rng.choice([0, 0, 1, 2]), "grads": rng.random() < 0.3}


def attributes(model):
    out = {}
    for n, m in model.named_modules():
        d = vars(m)
        out[f"attributes {n}"] = sorted(k for k in d if k not in ("_forward_hooks",))
        for k in ("_forward_hooks_with_kwargs", "_forward_hooks_always_called", "_forward_pre_hooks_with_kwargs", "_backward_hooks", "_backward_pre_hooks", "_state_dict_hooks"):
            if k in d:
                out[f"{k} {n}"] = sorted(d[k]) if hasattr(d[k], "__iter__") else repr(d[k])
        fw = d.get("forward")
        out[f"forward {n}"] = id(fw) if fw is not None else None
    for n, p in model.named_parameters():
        if not torch.nn.parameter.is_lazy(p):
            out[f"grad {n}"] = None if p.grad is None else tdigest(p.grad)
    return out


def process_state():
    import torch.nn.modules.module as tm

    return {
        "flags": public_flags(), "grad mode": torch.is_grad_enabled(), "inference": torch.is_inference_mode_enabled(), "warnings": [repr(f) for f in warnings.filters],
        "default dtype": str(torch.get_default_dtype()), "cwd": os.getcwd(), "global hooks": (len(tm._global_forward_hooks), len(tm._global_forward_pre_hooks)),
        "deterministic": torch.are_deterministic_algorithms_enabled(), "threads": torch.get_num_threads(), "functions": torch._C._len_torch_function_stack(),
        "dispatch": torch._C._len_torch_dispatch_stack(), "autocast": torch.is_autocast_enabled(),
    }


def weight_values(model):
    """Values a weight may have after the export: its own, or snapped by the quantizers of its owners."""
    import fastforward as ff

    owners: dict[int, list] = {}
    names: dict[int, str] = {}
    for n, m in model.named_modules(remove_duplicate=False):
        w = getattr(m, "weight", None)
        q = getattr(m, "weight_quantizer", None)
        if isinstance(w, torch.nn.Parameter) and isinstance(q, ff.nn.Quantizer) and not q.is_stub():
            owners.setdefault(id(w), []).append((q, w))
            names[id(w)] = n
    out = {}
    for i, l in owners.items():
        w = l[0][1]
        if torch.nn.parameter.is_lazy(w):
            continue
        allowed, todo = {tdigest(w.detach() + 0.0)}, [(w.detach().clone(), 0)]
        while todo:
            v, d = todo.pop()
            for q, _ in l:
                with torch.no_grad(), ff.strict_quantization(False):
                    r, exc = catch(lambda: models.deq(q.quantize(v.clone())).to(w.dtype))
                if exc is None and tdigest(r + 0.0) not in allowed:
                    allowed.add(tdigest(r + 0.0))
                    if d < 3:
                        todo.append((r, d + 1))
        out[i] = allowed
    return out


def execute(sim: Sim, sc):
    import fastforward as ff

    spec = sc["model"]
    model = E.build(spec)
    for p in models.probes(model):
        p.cb = None
    hits = []
    mods = [m for m in model.modules() if not isinstance(m, torch.nn.ModuleList)]
    keep = []
    for i in range(sc["hooks"]):
        m = mods[(7 * i + 3) % len(mods)]
        keep.append(m.register_forward_hook(lambda m, a, o: hits.append(1)))
        keep.append(m.register_forward_pre_hook(lambda m, a: hits.append(2)))
    qs = [m for m in model.modules() if isinstance(m, ff.nn.Quantizer) and not m.is_stub()]

    def disable(i):
        if qs:
            o = ff.overrides.DisableQuantizationOverride()
            qs[i % len(qs)].register_override(o)
            keep.append(o)

    for i in range(sc["off"] if sc["off"] > 1 else 0):
        disable(3 * i)
    if sc["grads"]:
        for p in model.parameters():
            if not torch.nn.parameter.is_lazy(p) and p.requires_grad:
                p.grad = torch.full_like(p, 0.25)

    def outputs(m):
        def f():
            with torch.no_grad(), ff.strict_quantization(False), ff.export_mode(False):
                return [E._plain(torch.utils._pytree.tree_map(lambda t: t.detach() if isinstance(t, torch.Tensor) else t, m(*E.inputs(spec, kw, 5 + kw)[0], **E.inputs(spec, kw, 5 + kw)[1]))) for kw in (False, True)]
        r, exc = catch(f)
        return r if exc is None else f"{type(exc).__name__}"

    fs = FS(sim).install()
    try:
        for k, op in enumerate(sc["ops"]):
            if op["op"] == "train":
                mods[op["i"] % len(mods)].train(op["i"] % 2 == 0)
                continue
            if op["op"] == "weights":
                with torch.no_grad():
                    for p in model.parameters():
                        if not torch.nn.parameter.is_lazy(p) and p.dim() == 2:
                            p.add_(0.01 * op["i"])
                continue
            if op["op"] == "disable":
                disable(op["i"])
                continue
            if op["op"] == "hook":
                keep.append(mods[op["i"] % len(mods)].register_forward_hook(lambda m, a, o: hits.append(3)))
                continue
            ff.set_strict_quantization(op["strict"])
            ff.set_export_mode(op["expmode"])
            torch.set_grad_enabled(not op["nograd"])
            s0, a0, p0, allowed = models.snapshot(model), attributes(model), process_state(), weight_values(model)
            outs0 = outputs(model)
            args, kwargs = E.inputs(spec, op["kw"], op["data"])
            in0 = tdigest((args, kwargs))
            hand = E.handler(op["handler"]) if op["handler"] and op["op"] != "flat" else None
            f = op["fault"]
            fsf = f if f and f["where"] == "fs" else None

            def go():
                with E.Seams(sim, f if f and f["where"] != "fs" else None, model):
                    return E.do_export(model, spec, op, fs.path(f"{op['op']}{k % 2}"), hand, args, kwargs)

            res, exc, crashed = fs.run(fsf, go)
            assert not crashed
            p1 = process_state()
            torch.set_grad_enabled(True)
            kind = "gguf" if spec["t"] == "flat" else op["op"] + ("" if op["op"] == "modules" else op["format"])
            outcome = "ok" if exc is None else "fault" if is_injected(exc) else f"refused {type(exc).__name__}"
            sim.event(k, kind, outcome)
            sim.probe(f"{kind} {outcome}")
            sim.ops_done += 1
            where = f"op {k}: {kind} -> {outcome}"
            for key in p0:
                sim.check(p0[key] == p1[key], "process-changed", f"{where}: {key}: {str(p0[key])[:300]} -> {str(p1[key])[:300]}")
            sim.check(tdigest((args, kwargs)) == in0, "inputs-changed", where)
            s1, a1 = models.snapshot(model), attributes(model)
            moved = []
            for n, p in model.named_parameters(remove_duplicate=False):
                key = f"param {n}"
                if id(p) in allowed and key in s0 and s0[key] != s1[key] and s0[key][1:] == s1[key][1:]:
                    ok = tdigest(p.detach() + 0.0) in allowed[id(p)] and spec["t"] != "flat"
                    sim.check(ok, "weights-changed", f"{where}: {n} is neither unchanged nor on its quantization grid")
                    moved.append(n)
                    s1[key] = s0[key]
            d = models.diff(s0, s1) + models.diff(a0, a1)
            sim.check(not d, "model-changed", lambda: f"{where}: {d[:4]}")
            sim.state(kind, outcome, (f or {}).get("where"), sorted(moved)[:3])
            n0 = len(hits)
            outs1 = outputs(model)
            del hits[n0:]
            if not moved:
                sim.check(outs1 == outs0, "outputs-changed", lambda: f"{where}: {E.first_diff(outs0, outs1)}")
            else:
                sim.probe("snapped")
                # an untouched model with the weights snapped computes the same
                twin = E.build(spec)
                tq = [m for m in twin.modules() if isinstance(m, ff.nn.Quantizer) and not m.is_stub()]
                for a, b in zip(qs, tq):
                    for o in a.overrides:
                        b.register_override(o)
                with torch.no_grad():
                    for a, b in zip(model.parameters(), twin.parameters()):
                        if not torch.nn.parameter.is_lazy(a):
                            b.data = a.detach().clone()
                for a, b in zip(model.modules(), twin.modules()):
                    b.training = a.training
                sim.check(outs1 == outputs(twin), "outputs-changed", lambda: f"{where}: differ from a model with the same parameters: {E.first_diff(outputs(twin), outs1)}")
            ff.set_strict_quantization(True)
            ff.set_export_mode(False)
    finally:
        torch.set_grad_enabled(True)
        fs.uninstall()


def shrink(sc):
    import copy as c

    from sim.core import generic_shrink

    yield from generic_shrink(sc)
    for k in ("hooks", "off"):
        if sc[k]:
            yield {**c.deepcopy(sc), k: 0}
    if sc["grads"]:
        yield {**c.deepcopy(sc), "grads": False}
    for part in "ab":
        if part in sc["model"]:
            for i in range(len(sc["model"][part]["items"])):
                s = c.deepcopy(sc)
                del s["model"][part]["items"][i]
                if s["model"][part]["items"]:
                    yield s
