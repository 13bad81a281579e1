"""Network family, state comparison and damage used by the save/load worlds."""

from __future__ import annotations

import os

from typing import Any

import torch

import fastforward as ff

from sim import models
from sim.core import tdigest


class NormQ(ff.nn.LinearQuantizer):
    """A user's quantizer: subclass without a constructor of its own."""

    def quantize(self, data: torch.Tensor) -> torch.Tensor:
        return super().quantize(data)


class ScaledQ(ff.nn.LinearQuantizer):
    """A user's quantizer with its own constructor and attribute."""

    def __init__(self, bits: int, gain: float = 1.0, **kw: Any) -> None:
        super().__init__(bits, **kw)
        self.gain = gain

    def quantize(self, data: torch.Tensor) -> torch.Tensor:
        return super().quantize(data * self.gain)


class Cfg:
    def __init__(self, name: str) -> None:
        self.name_or_path = name


class Net(torch.nn.Module):
    def __init__(self, arch: dict) -> None:
        super().__init__()
        mods: list[torch.nn.Module] = []
        for i, t in enumerate(arch["layers"]):
            mods.append(ff.nn.QuantizedLinear(4, 4, bias=t == "linb") if t.startswith("lin") else ff.nn.QuantizedRelu())
        self.layers = torch.nn.ModuleList(mods)
        self.register_buffer("shift", torch.zeros(4))
        self.register_buffer("tmp", torch.zeros(2), persistent=False)
        self.scale_p = torch.nn.Parameter(torch.ones(()))
        lins = self.lins()
        if arch.get("tie") and len(lins) > 1:
            lins[-1].weight = lins[0].weight
        for m in self.layers:  # names that begin like those of quantizers
            for n in arch.get("odd", ()):
                if n.endswith("2"):
                    m.register_buffer(n, torch.zeros(2))
                else:
                    m.register_parameter(n, torch.nn.Parameter(torch.zeros(3)))
        match arch.get("extra"):
            case "int":
                self.register_buffer("count", torch.zeros((), dtype=torch.int64))
            case "bool":
                self.register_buffer("flags", torch.zeros(3, dtype=torch.bool))
            case "empty":
                self.nothing, self.nothing2 = torch.nn.Parameter(torch.zeros(0)), torch.nn.Parameter(torch.zeros(0))
            case "frozen":
                self.layers[-1].weight.requires_grad_(False)
        if arch.get("cfg"):
            self.config = Cfg(arch["cfg"])

    def lins(self):
        return [m for m in self.layers if isinstance(m, ff.nn.QuantizedLinear)]

    def forward(self, x):
        for m in self.layers:
            x = models.deq(m(x))
        return x * self.scale_p + self.shift


SLOTS = ["input_quantizer", "weight_quantizer", "bias_quantizer", "output_quantizer"]


def slots(model) -> list[tuple[torch.nn.Module, str]]:
    out = []
    for m in model.layers:
        for s in SLOTS:
            if isinstance(getattr(m, s, None), ff.nn.Quantizer):
                out.append((m, s))
    return out


def gen_arch(rng) -> dict:
    return {"layers": [rng.choice(["lin", "linb", "linb", "relu"]) for _ in range(rng.randint(0, 2))] + ["linb"], "tie": rng.random() < 0.3,
            "cfg": rng.choice([None, "net/a", "net/a"]), "tie_data": rng.random() < 0.15,
            "odd": rng.choice([[], [], ["weight_quantizer_gain"], ["output_quantizer2", "input_quantizers"], ["weight_quantizer_gain", "quantizer"]]),
            "extra": rng.choice([None, None, "int", "bool", "empty", "frozen"])}


def gen_version(rng, *, lazy=0.06, p=0.55) -> dict:
    qs = []
    for _ in range(12):
        if rng.random() > p:
            qs.append(None)
        elif qs and rng.random() < 0.15:
            qs.append({"same": rng.randint(0, len(qs) - 1)})
        else:
            q = models.gen_quantizer(rng)
            q["cls"] = rng.choice(["lin", "lin", "lin", "norm", "scaled"])
            q["gain"] = rng.choice([0.5, 2.0])
            q["lz"] = rng.random() < lazy
            q["tile"] = rng.choice(["pt", "pt", "pc", "tile", "block"])
            q["b2"] = rng.choice([None] * 6 + [3, 5])
            q["qdt"] = rng.choice([None] * 5 + ["int8", "float16"])
            qs.append(q)
    return {"w": rng.randint(0, 9999), "q": qs, "dtype": rng.choice(["float32"] * 4 + ["bfloat16", "float64"])}


def mk_q(q: dict, slot: str):
    kw = {"symmetric": q["sym"], "allow_one_sided": q["one"]}
    n = 1
    if slot == "weight_quantizer":
        if q["tile"] == "pc":
            kw["granularity"], n = ff.PerChannel(0), 4
        elif q["tile"] == "tile":
            kw["granularity"], n = ff.granularity.PerTile((2, 4)), 2
        elif q["tile"] == "block":
            kw["granularity"], n = ff.PerBlock(1, 2, 0), 8
    if q.get("qdt"):
        kw["quantized_dtype"] = getattr(torch, q["qdt"])
    m = {"lin": ff.nn.LinearQuantizer, "norm": NormQ}.get(q["cls"], ff.nn.LinearQuantizer)(q["b"], **kw) if q["cls"] != "scaled" else ScaledQ(q["b"], gain=q["gain"], **kw)
    if not q["lz"]:
        s = torch.linspace(1.0, 1.5, n) if n > 1 else torch.ones(1)
        m.quantization_range = (q["lo"] * s, q["hi"] * s)
    if q.get("b2"):  # reconfigured after construction
        m.num_bits = q["b2"]
    return m


def fresh(arch: dict, dtype="float32") -> Net:
    torch.manual_seed(77)
    return tie_data(arch, Net(arch).to(getattr(torch, dtype)).eval())


def tie_data(arch: dict, m: Net) -> Net:
    """Two parameters with one memory."""
    if arch.get("tie_data"):
        lins = m.lins()
        lins[-1].bias = torch.nn.Parameter(m.shift) if len(lins) < 2 or lins[0].bias is None else torch.nn.Parameter(lins[0].bias.data)
    return m


def version(arch: dict, v: dict) -> Net:
    m = fresh(arch)
    g = torch.Generator().manual_seed(v["w"])
    with torch.no_grad():
        for p in m.parameters():
            p.copy_(torch.randn(p.shape, generator=g))
        for n, b in m.named_buffers():
            if n != "tmp" and "quantizer." not in n:
                b.copy_((torch.randn(b.shape, generator=g) * 3).round() if not b.is_floating_point() else torch.randn(b.shape, generator=g))
    made: dict[int, Any] = {}
    for i, (mod, s) in enumerate(slots(m)):
        q = v["q"][i % len(v["q"])]
        if q is None:
            continue
        j = i
        while q is not None and "same" in q and q["same"] < j:
            j = q["same"]
            q = v["q"][j]
        if q is None or "same" in q:
            continue
        if j in made and j != i:
            made[i] = made[j]  # shared quantizer
        else:
            made[i] = mk_q(q, s)
        setattr(mod, s, made[i])
    return tie_data(arch, m.to(getattr(torch, v["dtype"])))


def state_of(m: Net, *, weights: bool = True, run: bool = True, lazy_ok: bool = True) -> dict[str, Any]:
    """Everything a saved model is expected to bring back."""
    out: dict[str, Any] = {}
    groups: dict[int, int] = {}
    for n, q in m.named_modules(remove_duplicate=False):
        if isinstance(q, ff.nn.Quantizer):
            if q.is_stub():
                out[n] = "stub"
                continue
            g = groups.setdefault(id(q), len(groups))
            out[n] = (type(q).__name__, q.num_bits, repr(q.granularity), q.symmetric, q.allow_one_sided, str(q.quantized_dtype), getattr(q, "gain", None), g,
                      tdigest(q.scale), None if q.offset is None else (tdigest(q.offset), isinstance(q.offset, torch.nn.Parameter)))
    if weights:
        names: dict[int, list[str]] = {}
        qn = tuple(n + "." for n, q in m.named_modules(remove_duplicate=False) if isinstance(q, ff.nn.Quantizer))
        for n, t in m.state_dict(keep_vars=True).items():
            if qn and n.startswith(qn):
                continue
            out[n] = tdigest(t)
            names.setdefault((t.data_ptr() or id(t)) if not torch.nn.parameter.is_lazy(t) else id(t), []).append(n)
        out["ties"] = sorted(names.values())
        if run:
            with torch.no_grad(), ff.strict_quantization(False):
                dt = m.scale_p.dtype
                for s in (1, 2):
                    try:
                        out[f"out{s}"] = tdigest(m(models.batch(s).to(dt)))
                    except Exception as e:  # noqa: BLE001
                        out[f"out{s}"] = "uninitialized" if "uninitialized" in str(e) else repr(e)
    return out


# ------------------------------------------------------------------ damage to stored bytes


def damage(fs, d: str, spec: dict, history: list[dict[str, bytes]]) -> str | None:
    """Damages one file below directory d of the scratch area.  Returns what was done, None if nothing could be."""
    base = fs.path(d)
    if not base.is_dir():
        return None
    files = sorted(f for f in os.listdir(base) if (base / f).is_file())
    if not files:
        return None
    f = base / files[spec["file"] % len(files)]
    data = f.read_bytes()
    k = spec["kind"]
    if k == "delete":
        f.unlink()
    elif k == "truncate":
        f.write_bytes(data[: int(len(data) * spec["frac"])])
    elif k == "line":  # cut at the end of some line: what is left is well-formed text
        lines = data.splitlines(keepends=True)
        f.write_bytes(b"".join(lines[: int(len(lines) * spec["frac"])]))
    elif k == "old":  # the file of another, earlier save of the same kind
        old = [h[files[spec["file"] % len(files)]] for h in history if files[spec["file"] % len(files)] in h]
        old = [o for o in old if o != data]
        if not old:
            return None
        f.write_bytes(old[int(spec["frac"] * len(old)) % len(old)])
    elif k == "flip":
        if not data:
            return None
        b = bytearray(data)
        i = int(spec["frac"] * len(b)) % len(b)
        b[i] ^= 1 << (spec["bit"] % 8)
        f.write_bytes(bytes(b))
    elif k == "swap":
        g = base / files[(spec["file"] + 1) % len(files)]
        gd = g.read_bytes()
        f.write_bytes(gd)
        g.write_bytes(data)
    return f"{k} {f.name}"
