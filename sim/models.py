"""Toy quantized networks built from JSON specs, and exact snapshots of their state."""

from __future__ import annotations

import random

from typing import Any, Callable

import torch

import fastforward as ff

from sim.core import tdigest

WIDTH = 4


# ------------------------------------------------------------------ quantizers


class PlainQuantizer(ff.nn.Quantizer):
    """A user quantizer that supports neither range setting nor stubs."""

    def __init__(self, step: float = 0.25) -> None:
        super().__init__()
        self.step = step

    def quantize(self, data: torch.Tensor) -> torch.Tensor:
        if isinstance(data, ff.QuantizedTensor):
            data = data.dequantize()
        return torch.round(data / self.step) * self.step


def gen_quantizer(rng: random.Random, *, weight: bool = False, uninit: float = 0.0, plain: float = 0.0) -> dict:
    if plain and rng.random() < plain:
        if rng.random() < 0.5:
            return {"t": "dyn", "b": rng.choice([3, 4, 8]), "sym": rng.random() < 0.5, "one": rng.random() < 0.5, "g": "pc" if weight and rng.random() < 0.5 else "pt"}
        return {"t": "plain", "step": rng.choice([0.25, 0.5])}
    q = {
        "t": "lin", "b": rng.choice([2, 3, 4, 8]), "sym": rng.random() < 0.6, "one": rng.random() < 0.5,
        "g": "pc" if weight and rng.random() < 0.4 else "pt",
        "lo": rng.choice([-1.0, -0.5, -2.0, 0.0]), "hi": rng.choice([0.5, 1.0, 1.5, 3.0]),
    }
    if uninit and rng.random() < uninit:
        q["lo"] = None
    return q


def make_quantizer(q: dict) -> ff.nn.Quantizer:
    if q["t"] == "plain":
        return PlainQuantizer(q["step"])
    gran = ff.PerChannel(0) if q["g"] == "pc" else ff.PerTensor()
    if q["t"] == "dyn":
        return ff.nn.DynamicLinearQuantizer(q["b"], granularity=gran, symmetric=q["sym"], allow_one_sided=q["one"])
    m = ff.nn.LinearQuantizer(q["b"], symmetric=q["sym"], allow_one_sided=q["one"], granularity=gran)
    if q["lo"] is not None:
        n = WIDTH if q["g"] == "pc" else 1
        scale = torch.linspace(1.0, 1.5, n) if n > 1 else torch.ones(1)
        m.quantization_range = (q["lo"] * scale, q["hi"] * scale)
    return m


# ------------------------------------------------------------------ layers


class Probe(torch.nn.Module):
    """Simulator-owned point inside a network: observes and may fail."""

    def __init__(self, tag: str) -> None:
        super().__init__()
        self.tag = tag
        self.cb: Callable[[str, torch.Tensor], None] | None = None

    def forward(self, x: torch.Tensor) -> torch.Tensor:
        if self.cb is not None:
            self.cb(self.tag, x)
        return x


class Residual(torch.nn.Module):
    def __init__(self, inner: torch.nn.Module) -> None:
        super().__init__()
        self.inner = inner

    def forward(self, x: torch.Tensor) -> torch.Tensor:
        return deq(x) + deq(self.inner(x))


class Seq(torch.nn.Module):
    def __init__(self, mods: list[torch.nn.Module]) -> None:
        super().__init__()
        self.mods = torch.nn.ModuleList(mods)

    def forward(self, x: torch.Tensor) -> torch.Tensor:
        for m in self.mods:
            x = m(x)
        return x


class Gate(torch.nn.Module):
    """Data dependent branch: inner only runs when the sum of the input is positive."""

    def __init__(self, inner: torch.nn.Module) -> None:
        super().__init__()
        self.inner = inner

    def forward(self, x: torch.Tensor) -> torch.Tensor:
        if float(deq(x).sum()) > 0:
            return self.inner(x)
        return x


def deq(x: torch.Tensor) -> torch.Tensor:
    return x.dequantize() if isinstance(x, ff.QuantizedTensor) else x


def gen_layer(rng: random.Random, o: dict, depth: int) -> dict:
    r = rng.random()
    if depth > 0 and r < 0.15:
        return {"t": "res", "in": gen_layer(rng, o, depth - 1)}
    if depth > 0 and r < 0.28:
        return {"t": "seq", "items": [gen_layer(rng, o, depth - 1) for _ in range(rng.randint(1, 2))]}
    if depth > 0 and r < 0.36 and o.get("gate"):
        return {"t": "gate", "in": gen_layer(rng, o, depth - 1)}
    if r < 0.5:
        return {"t": "relu", "q": {"output": gen_quantizer(rng, **o["qk"]) if rng.random() < o["pq"] else None}}
    if o.get("probe") and r < 0.62:
        return {"t": "probe"}
    if o.get("share") and r < 0.70:
        return {"t": "share", "k": rng.randint(0, 3)}
    q: dict[str, Any] = {}
    for k in ("input", "weight", "bias", "output"):
        q[k] = gen_quantizer(rng, weight=k == "weight", **o["qk"]) if rng.random() < o["pq"] else None
    layer = {"t": "lin", "bias": rng.random() < 0.6, "seed": rng.randint(0, 999), "q": q}
    if o.get("tie") and rng.random() < 0.25:
        layer["tie"] = rng.randint(0, 3)
    if o.get("shareq") and rng.random() < 0.25:
        layer["shareq"] = rng.randint(0, 3)
    return layer


def gen_model(rng: random.Random, *, n: tuple[int, int] = (2, 4), depth: int = 2, pq: float = 0.6, probe: bool = True,
              share: bool = True, tie: bool = False, shareq: bool = True, gate: bool = False,
              uninit: float = 0.0, plain: float = 0.0) -> dict:
    o = {"pq": pq, "probe": probe, "share": share, "tie": tie, "shareq": shareq, "gate": gate,
         "qk": {"uninit": uninit, "plain": plain}}
    items = [gen_layer(rng, o, depth) for _ in range(rng.randint(*n))]
    # always at least one quantized linear
    q = {k: gen_quantizer(rng, weight=k == "weight", **o["qk"]) for k in ("weight", "output")}
    items.insert(rng.randint(0, len(items)), {"t": "lin", "bias": True, "seed": rng.randint(0, 999), "q": q})
    return {"items": items}


class _B:
    def __init__(self) -> None:
        self.lins: list[ff.nn.QuantizedLinear] = []
        self.leaves: list[torch.nn.Module] = []
        self.probes = 0

    def build(self, s: dict) -> torch.nn.Module:
        t = s["t"]
        if t == "lin":
            m = ff.nn.QuantizedLinear(WIDTH, WIDTH, bias=s["bias"])
            g = torch.Generator().manual_seed(s["seed"])
            with torch.no_grad():
                m.weight.copy_(torch.randn(WIDTH, WIDTH, generator=g) * 0.7)
                if s["bias"]:
                    m.bias.copy_(torch.randn(WIDTH, generator=g) * 0.3)
            for k, q in (s.get("q") or {}).items():
                if q is None or (k == "bias" and not s["bias"]):
                    continue
                setattr(m, f"{k}_quantizer", make_quantizer(q))
            if "tie" in s and self.lins:
                m.weight = self.lins[s["tie"] % len(self.lins)].weight
            if "shareq" in s and self.lins:
                o = self.lins[s["shareq"] % len(self.lins)]
                m.output_quantizer = o.output_quantizer
            self.lins.append(m)
            self.leaves.append(m)
            return m
        if t == "relu":
            m = ff.nn.QuantizedRelu()
            if (s.get("q") or {}).get("output"):
                m.output_quantizer = make_quantizer(s["q"]["output"])
            self.leaves.append(m)
            return m
        if t == "probe":
            self.probes += 1
            return Probe(f"p{self.probes}")
        if t == "res":
            return Residual(self.build(s["in"]))
        if t == "gate":
            return Gate(self.build(s["in"]))
        if t == "seq":
            return Seq([self.build(x) for x in s["items"]])
        if t == "share":
            if not self.leaves:
                self.probes += 1
                return Probe(f"p{self.probes}")
            return self.leaves[s["k"] % len(self.leaves)]
        raise ValueError(t)


def build_model(spec: dict) -> torch.nn.Module:
    b = _B()
    m = Seq([b.build(s) for s in spec["items"]])
    m.eval()
    return m


def batch(seed: int, n: int = 2, scale: float = 1.0) -> torch.Tensor:
    g = torch.Generator().manual_seed(seed)
    return torch.randn(n, WIDTH, generator=g) * scale


def probes(model: torch.nn.Module) -> list[Probe]:
    return [m for m in model.modules() if isinstance(m, Probe)]


def quantizers(model: torch.nn.Module) -> dict[str, ff.nn.Quantizer]:
    """Every quantizer, stubs included, by first name."""
    return {n: m for n, m in model.named_modules() if isinstance(m, ff.nn.Quantizer)}


def active_quantizers(model: torch.nn.Module) -> dict[str, ff.nn.Quantizer]:
    return {n: m for n, m in quantizers(model).items() if not m.is_stub()}


# ------------------------------------------------------------------ snapshots


def _val(t: Any) -> str:
    if t is None:
        return "None"
    if isinstance(t, (torch.nn.parameter.UninitializedParameter, torch.nn.parameter.UninitializedBuffer)):
        return "lazy"
    return tdigest(t)


def snapshot(model: torch.nn.Module, *, values: bool = True, ids: bool = True) -> dict[str, Any]:
    """Observable state of a model: module tree, values, ties, overrides, hooks, modes."""
    s: dict[str, Any] = {}
    for n, m in model.named_modules(remove_duplicate=False):
        s[f"module {n}"] = (type(m).__qualname__, id(m) if ids else None)
        s[f"training {n}"] = m.training
        if isinstance(m, ff.nn.Quantizer):
            s[f"overrides {n}"] = tuple(id(o) for o in m.overrides)
        s[f"hooks {n}"] = (
            tuple(id(h) for h in m._forward_hooks.values()),
            tuple(id(h) for h in m._forward_pre_hooks.values()),
        )
    for n, p in model.named_parameters(remove_duplicate=False):
        s[f"param {n}"] = (_val(p) if values else None, id(p) if ids else None, p.requires_grad)
    for n, b in model.named_buffers(remove_duplicate=False):
        s[f"buffer {n}"] = (_val(b) if values else None)
    return s


def diff(a: dict[str, Any], b: dict[str, Any]) -> list[str]:
    out = []
    for k in a:
        if k not in b:
            out.append(f"{k} disappeared")
        elif a[k] != b[k]:
            out.append(f"{k}: {a[k]} -> {b[k]}")
    for k in b:
        if k not in a:
            out.append(f"{k} appeared: {b[k]}")
    return out


def run(model: torch.nn.Module, x: torch.Tensor) -> str:
    with torch.no_grad():
        return tdigest(model(x))
