"""C33: what an export wrote describes the model."""

from __future__ import annotations

import copy
import json
import pathlib
import pickle
import random

from typing import Any

import numpy as np
import torch

import fastforward as ff

from sim import exporting as E
from sim import models
from sim.core import Sim, generic_shrink, is_injected
from sim.fs import FS

PROPERTY = "C33"
CONFIGS = {"plain": {"faults": False}, "faults": {"faults": True}}
PLAN = {"quick": 55, "quick_s": 140, "thorough": 1500, "thorough_s": 780, "det": 2}
RULE = ("Random quantized networks (linear, convolution, normalisation, activations, embeddings, residual branches, views, shared modules and quantizers, modules with optional arguments) "
        "exported whole or by module, to ONNX with encodings in three schemas, QDQ ONNX and GGUF, after failed or crashed exports and changes of parameters; the written graph, "
        "with fake-quantization inserted as its encodings say, is run by onnxruntime and compared with the model on recorded and other inputs (inputs near rounding ties are skipped).")
REAL = ["fastforward.export", "fastforward.nn", "fastforward.quantization", "torch.export", "torch.onnx", "onnx", "onnxruntime", "gguf"]
STUB = ["disk below the scratch directory (fails on demand)"]
STATE_MEASURE = "hash of (layer kinds with quantizers, export kind, schema, outcomes so far)"
N = 2  # rows of a batch


def setup() -> None:
    E.warm()


# ------------------------------------------------------------------ models


class View(torch.nn.Module):
    def __init__(self, k: int) -> None:
        super().__init__()
        self.k = k

    def forward(self, x):
        if self.k == 0:
            return x.reshape(x.shape[0], 2, 2).permute(0, 2, 1).reshape(x.shape[0], 4)
        if self.k == 1:
            return x.unsqueeze(0).squeeze(0)
        return x.transpose(0, 1).transpose(1, 0)


class Conv(torch.nn.Module):
    def __init__(self, two: bool) -> None:
        super().__init__()
        self.two = two
        self.conv = ff.nn.QuantizedConv2d(1, 2, (1, 2)) if two else ff.nn.QuantizedConv1d(2, 2, 1)

    def forward(self, x):
        n = x.shape[0]
        y = self.conv(x.reshape(n, 1, 2, 2) if self.two else x.reshape(n, 2, 2))
        return y.reshape(n, 4)


class Mix(torch.nn.Module):
    """Optional arguments."""

    def __init__(self, a: torch.nn.Module, b: torch.nn.Module) -> None:
        super().__init__()
        self.left, self.right = a, b

    def forward(self, a, mask=None, b=None):
        y = models.deq(self.left(a))
        if mask is not None:
            y = y * mask
        return y if b is None else y + models.deq(self.right(b))


class Caller(torch.nn.Module):
    """Calls a Mix in one of several ways."""

    def __init__(self, qa: torch.nn.Module, qb: torch.nn.Module, mix: Mix, how: int) -> None:
        super().__init__()
        self.qa, self.qb, self.mix, self.how = qa, qb, mix, how

    def forward(self, x):
        a, b = self.qa(x * 1.5), self.qb(x * 0.5)
        h = self.how
        if h == 0:
            return self.mix(a, None, b)
        if h == 1:
            return self.mix(a, b=b)
        if h == 2:
            return self.mix(b=b, a=a)
        if h == 3:
            return self.mix(a, models.deq(b) + 1.0)
        if h == 4:
            return self.mix(a, b=b, mask=models.deq(b) + 1.0)
        return self.mix(a)


class Heads(torch.nn.Module):
    """Several outputs and a keyword input."""

    def __init__(self, left: torch.nn.Module, right: torch.nn.Module, how: int) -> None:
        super().__init__()
        self.left, self.right, self.how = left, right, how

    def forward(self, x, other=None):
        a = self.left(x * 1.25 if other is None else x)
        b = self.right(x * 0.75 if other is None else other)
        s = models.deq(a) + models.deq(b)
        return [(s, b), {"a": a, "s": s}, (b, a), [s, (a, b)]][self.how]


class Table(torch.nn.Module):
    def __init__(self, emb: torch.nn.Module, rest: torch.nn.Module) -> None:
        super().__init__()
        self.emb, self.rest = emb, rest

    def forward(self, x):
        return self.rest(self.emb(x))


def gen_q(rng: random.Random, o: dict, n: int = 0) -> dict:
    """n: number of channels, 0 for per tensor only."""
    bits = rng.choice(o["bits"])
    k = n if n and rng.random() < 0.5 else 1
    kind = rng.choice(["sym", "sym", "asym", "asym", "one", "near", "away"])
    lo, hi = [], []
    for i in range(k):
        c = rng.choice([0.5, 1.0, 1.7, 2.9])
        if kind == "sym":
            lo.append(-c), hi.append(c)
        elif kind == "one":
            lo.append(0.0), hi.append(c)
        elif kind == "away":  # zero is not in the range
            lo.append(0.25 * c), hi.append(c)
        elif kind == "near" and rng.random() < 0.5:
            s = c / 2 ** (bits - 1)
            lo.append(-c), hi.append(c - s)
        else:
            lo.append(-c), hi.append(rng.choice([0.5, 1.0, 2.0, 3.1]) * c)
    if kind == "away" and o["qdq"]:
        kind, lo = "one", [0.0] * k
    return {"b": bits, "k": k, "n": n, "kind": kind, "sym": kind == "sym" or (kind == "one" and rng.random() < 0.6), "lo": lo, "hi": hi}


def make_q(q: dict) -> ff.nn.LinearQuantizer:
    m = ff.nn.LinearQuantizer(q["b"], symmetric=q["sym"], allow_one_sided=True, granularity=ff.PerChannel(0) if q["k"] > 1 else ff.PerTensor())
    m.quantization_range = (torch.tensor(q["lo"]), torch.tensor(q["hi"]))
    return m


def pick(rng, o, n=0, p=None):
    return gen_q(rng, o, n) if rng.random() < (o["pq"] if p is None else p) else None


def after(it: dict) -> dict:
    """What is known of the tensor that an item returns: q, it may be quantized; s, it may be used elsewhere;
    relu, it is the result of a relu (the ONNX optimizer merges successive ones, a quantizer between them included)."""
    t = it["t"]
    if t == "q":
        return {"q": True}
    if t in ("view", "probe"):
        return {}
    if t == "res":
        return {"q": False, "s": False, "relu": False}
    if t == "share":  # not known before it is built
        return {"q": True, "s": True, "relu": False}
    return {"q": it["q"]["output"] is not None, "s": False, "relu": t == "relu"}


def starts(s: dict) -> dict[str, dict]:
    t = s["t"]
    if t == "mix":
        # the right tensor is also the mask
        return {"a": {"q": s["qa"] is not None, "s": False}, "b": {"q": s["qb"] is not None, "s": s["how"] in (3, 4)}}
    if t == "table":
        return {"a": {"q": True, "s": True}}
    return {"a": {"q": False, "s": False}, "b": {"q": False, "s": False}}


def valid(items: list[dict], st: dict) -> bool:
    for it in items:
        if it["t"] == "q" and (st["q"] or st["s"]):
            return False
        if it.get("q", {}).get("input") is not None and (st["q"] or st["s"]):
            return False
        if it["t"] == "relu" and st.get("relu"):
            return False
        if it["t"] == "res" and not valid(it["in"], {**st, "s": True}):
            return False
        st = {**st, **after(it)}
    return True


def gen_items(rng: random.Random, o: dict, n: int, st: dict, depth: int = 1) -> list[dict]:
    """st: whether the incoming tensor is quantized (q) or also used elsewhere (s); updated."""
    out: list[dict] = []
    for _ in range(n):
        r = rng.random()
        free = not st["q"] and not st["s"]
        seed = rng.randint(0, 999)
        if r < 0.34:
            q = {"weight": pick(rng, o, 4, 0.8), "bias": pick(rng, o, 4), "output": pick(rng, o), "input": pick(rng, o) if free else None}
            out.append({"t": "lin", "bias": rng.random() < 0.7, "seed": seed, "q": q})
        elif r < 0.46:
            q = {"output": pick(rng, o), "input": pick(rng, o) if free else None}
            t = rng.choice(["relu", "silu"])
            out.append({"t": "silu" if st.get("relu") else t, "q": q})
        elif r < 0.54:
            q = {"weight": pick(rng, o, 4), "bias": pick(rng, o, 4), "output": pick(rng, o), "input": pick(rng, o) if free else None}
            out.append({"t": "ln", "seed": seed, "q": q})
        elif r < 0.64:
            q = {"weight": pick(rng, o, 2, 0.8), "bias": pick(rng, o, 2), "output": pick(rng, o), "input": pick(rng, o) if free else None}
            out.append({"t": "conv", "two": rng.random() < 0.5, "seed": seed, "q": q})
        elif r < 0.72:
            out.append({"t": "view", "k": rng.randint(0, 2)})
            continue  # the same tensor in another shape
        elif r < 0.77 and free:
            out.append({"t": "q", "q": {"": gen_q(rng, o)}})
            st["q"] = True
            continue
        elif r < 0.82:
            out.append({"t": "probe"})
            continue
        elif r < 0.90 and depth:
            inner = gen_items(rng, o, rng.randint(1, 2), {**st, "s": True}, depth - 1)
            out.append({"t": "res", "in": inner})
            st.update(after(out[-1]))
            continue
        else:
            out.append({"t": "share", "k": rng.randint(0, 3), "free": free, "q": {"output": None}})
            st.update(after(out[-1]))
            continue
        st.update(after(out[-1]))
        if rng.random() < 0.15:
            out[-1]["shareq"] = rng.randint(0, 3)
        if rng.random() < 0.1:
            out[-1]["tie"] = rng.randint(0, 3)
    return out


def gen_spec(rng: random.Random, qdq: bool) -> dict:
    if rng.random() < 0.1:
        return {"t": "flat", "n": rng.randint(1, 3), "seed": rng.randint(0, 99), "bits": rng.choice([8, 4]), "q": [rng.random() < 0.8 for _ in range(3)], "train": False,
                "one": rng.random() < 0.3}
    pool = [4, 8, 16] if qdq else [2, 3, 4, 8, 16]
    o = {"bits": rng.choice([[8], [4], [4, 8], pool, pool]), "qdq": qdq, "pq": rng.choice([0.3, 0.6, 0.9])}
    t = rng.choice(["seq", "seq", "seq", "heads", "mix", "table"])
    s: dict[str, Any] = {"t": t, "train": rng.random() < 0.2}
    n = lambda: rng.randint(1, 3)  # noqa: E731
    if t == "seq":
        s["a"] = gen_items(rng, o, rng.randint(1, 5), starts(s)["a"])
    elif t == "heads":
        s["a"] = gen_items(rng, o, n(), starts(s)["a"])
        s["b"] = gen_items(rng, o, n(), starts(s)["b"])
        s["how"] = rng.randint(0, 3)
    elif t == "mix":
        s["qa"], s["qb"] = pick(rng, o, 0, 0.7), pick(rng, o, 0, 0.7)
        s["how"] = rng.randint(0, 5)
        s["a"] = gen_items(rng, o, n(), starts(s)["a"])
        s["b"] = gen_items(rng, o, n(), starts(s)["b"])
    else:
        s["emb"] = {"weight": pick(rng, o, 6), "output": pick(rng, o)}
        s["seed"] = rng.randint(0, 999)
        s["a"] = gen_items(rng, o, n(), starts(s)["a"])
    return s


class Build:
    def __init__(self) -> None:
        self.leaves: list[tuple[torch.nn.Module, dict]] = []
        self.outq: list[torch.nn.Module] = []
        self.lins: list[torch.nn.Module] = []
        self.n = 0

    def attach(self, m, qs) -> None:
        for k, q in qs.items():
            if q is not None and getattr(m, k, None) is not None:
                setattr(m, f"{k}_quantizer", make_q(q))

    def seq(self, items):
        return models.Seq([self.item(s) for s in items])

    def item(self, s):
        t = s["t"]
        if t in ("probe", "share"):
            ok = [m for m, x in self.leaves if (x["q"].get("input") is None) and (x["q"].get("output") is None or "shareq" not in x) and x["t"] != "relu"]
            if t == "share" and ok:
                return ok[s["k"] % len(ok)]
            self.n += 1
            return models.Probe(f"p{self.n}")
        if t == "view":
            return View(s["k"])
        if t == "q":
            return make_q(s["q"][""])
        if t == "res":
            return models.Residual(self.seq(s["in"]))
        core = None
        if t == "lin":
            m = core = ff.nn.QuantizedLinear(4, 4, bias=s["bias"])
        elif t == "ln":
            m = core = ff.nn.QuantizedLayerNorm(4)
        elif t == "conv":
            m = Conv(s["two"])
            core = m.conv
        elif t == "relu":
            m = ff.nn.QuantizedRelu()
        else:
            m = ff.nn.QuantizedSilu()
        c = core if core is not None else m
        if core is not None:
            g = torch.Generator().manual_seed(s["seed"])
            with torch.no_grad():
                core.weight.copy_(torch.randn(core.weight.shape, generator=g) * 0.7)
                if core.bias is not None:
                    core.bias.copy_(torch.randn(core.bias.shape, generator=g) * 0.3)
            for k in ("weight", "bias"):
                if s["q"].get(k) is not None and getattr(core, k) is not None:
                    setattr(c, f"{k}_quantizer", make_q(s["q"][k]))
        for k in ("input", "output"):
            if s["q"].get(k) is not None:
                setattr(c, f"{k}_quantizer", make_q(s["q"][k]))
        if s["q"].get("output") is not None:
            if "shareq" in s and self.outq:
                c.output_quantizer = self.outq[s["shareq"] % len(self.outq)]
            self.outq.append(c.output_quantizer)
        if t == "lin":
            if "tie" in s and self.lins:
                o = self.lins[s["tie"] % len(self.lins)]
                c.weight, c.weight_quantizer = o.weight, o.weight_quantizer
            self.lins.append(c)
        self.leaves.append((m, s))
        return m


def build(s: dict) -> torch.nn.Module:
    if s["t"] == "flat":
        m = E.build(s)
        if s.get("one"):  # non-negative weights and one-sided quantizers
            for x in m.layers:
                with torch.no_grad():
                    x.weight.abs_()
                if not x.weight_quantizer.is_stub():
                    x.weight_quantizer = ff.nn.LinearQuantizer(s["bits"], symmetric=True, allow_one_sided=True, granularity=ff.PerBlock((1,), (32,), (0,)))
                    hi = x.weight.detach().reshape(x.weight.shape[0], -1, 32).amax(-1).reshape(-1)
                    x.weight_quantizer.quantization_range = (torch.zeros_like(hi), hi)
        return m
    b = Build()
    if s["t"] == "seq":
        m = b.seq(s["a"])
    elif s["t"] == "heads":
        m = Heads(b.seq(s["a"]), b.seq(s["b"]), s["how"])
    elif s["t"] == "mix":
        qa, qb = (make_q(s[k]) if s[k] is not None else torch.nn.Identity() for k in ("qa", "qb"))
        m = Caller(qa, qb, Mix(b.seq(s["a"]), b.seq(s["b"])), s["how"])
    else:
        e = ff.nn.QuantizedEmbedding(6, 4)
        g = torch.Generator().manual_seed(s["seed"])
        with torch.no_grad():
            e.weight.copy_(torch.randn(6, 4, generator=g))
        for k in ("weight", "output"):
            if s["emb"][k] is not None:
                setattr(e, f"{k}_quantizer", make_q(s["emb"][k]))
        m = Table(e, b.seq(s["a"]))
    m.train(s["train"])
    return m


def inputs(s: dict, kw: bool, seed: int) -> tuple[tuple, dict]:
    if s["t"] == "table":
        return (torch.randint(0, 6, (N,), generator=torch.Generator().manual_seed(seed)),), {}
    x = models.batch(seed, N)
    if s["t"] == "heads" and kw:
        return (x,), {"other": models.batch(seed + 50, N)}
    return (x,), {}


# ------------------------------------------------------------------ what was written


def decode(path: pathlib.Path) -> dict[str, dict]:
    """name -> {scale, off, lo, hi, axis}: value = clip(round(x / scale), lo + ..)."""
    with open(path) as f:
        d = json.load(f)
    out: dict[str, dict] = {}

    def put(name, scale, off, bits, axis, unsigned=True):
        if not unsigned:
            lo, hi = [-(2 ** (bits - 1))] * len(off), [2 ** (bits - 1) - 1] * len(off)
        else:  # stored integers are 0 .. 2^b - 1 and stand for (u + off) * scale
            lo, hi = list(off), [o + 2**bits - 1 for o in off]
        assert name not in out, name
        out[name] = {"scale": scale, "lo": lo, "hi": hi, "axis": axis, "bits": bits}

    v = d.get("version")
    if v == "0.6.1":
        for part in ("param_encodings", "activation_encodings"):
            for name, es in d[part].items():
                put(name, [e["scale"] for e in es], [e["offset"] for e in es], es[0]["bitwidth"], 0)
    elif v == "1.0.0":
        for part in ("param_encodings", "activation_encodings"):
            for e in d[part]:
                assert e["enc_type"] in ("PER_TENSOR", "PER_CHANNEL"), e
                put(e["name"], e["scale"], e["offset"], e["bw"], 0)
    else:
        for e in d["encodings"]:
            t = e["output_dtype"]
            sc = e["y_scale"] if isinstance(e["y_scale"], list) else [e["y_scale"]]
            zp = e.get("y_zero_point")
            u = t.startswith("u")
            off = [0] * len(sc) if zp is None else zp if isinstance(zp, list) else [zp]
            put(e["name"], sc, off, int(t.removeprefix("u").removeprefix("int")), e.get("axis", 0), u)
    return out


def fake_quant(model, enc: dict[str, dict], declared: bool = False):
    """Inserts quantize-dequantize after every encoded tensor; the names of x / scale.

    Weights of linear layers are stored transposed; their channels are the columns (whatever axis is declared,
    which is a known finding).
    """
    from onnx import TensorProto, helper, numpy_helper

    g = model.graph
    turned = set() if declared else {n.input[1] for n in g.node if n.op_type == "MatMul" or (n.op_type == "Gemm" and not any(a.name == "transB" and a.i for a in n.attribute))}
    turned &= {t.name for t in g.initializer if len(t.dims) == 2}
    made = {i.name for i in g.input} | {i.name for i in g.initializer}
    outs = {o for n in g.node for o in n.output}
    shapes = {t.name: list(t.dims) for t in g.initializer}
    unknown = [n for n in enc if n not in made and n not in outs]
    ratios = []
    front, k = [], 0
    new_nodes: list[Any] = []

    def nodes(src, dst, e, name):
        nonlocal k
        k += 1
        c = len(e["scale"])

        def const(suffix, vals):
            a = np.array(vals, dtype=np.float32)
            if c == 1:
                a = a.reshape(())
            elif name in shapes:
                a = a.reshape([-1] + [1] * (len(shapes[name]) - 1 - (1 if name in turned else e["axis"])))
            g.initializer.append(numpy_helper.from_array(a, f"__{suffix}{k}"))
            return f"__{suffix}{k}"

        s, lo, hi = const("s", e["scale"]), const("lo", e["lo"]), const("hi", e["hi"])
        r = f"__ratio{k}"
        ratios.append(r)
        return [helper.make_node("Div", [src, s], [r]), helper.make_node("Round", [r], [f"__r{k}"]), helper.make_node("Max", [f"__r{k}", lo], [f"__m{k}"]),
                helper.make_node("Min", [f"__m{k}", hi], [f"__c{k}"]), helper.make_node("Mul", [f"__c{k}", s], [dst])]

    for name, e in enc.items():
        if name in made:
            q = name + "__q"
            for n in g.node:
                for i, x in enumerate(n.input):
                    if x == name:
                        n.input[i] = q
            for o in g.output:
                if o.name == name:
                    front.append(helper.make_node("Identity", [name], [name + "__passed"]))
            front += nodes(name, q, e, name)
    for n in g.node:
        after = []
        for i, o in enumerate(n.output):
            if o in enc:
                n.output[i] = o + "__raw"
                after += nodes(o + "__raw", o, enc[o], o)
        new_nodes += [n] + after
    new_nodes = front + new_nodes
    new_nodes = [copy.deepcopy(n) for n in new_nodes]
    del g.node[:]
    g.node.extend(new_nodes)
    for r in ratios:
        g.output.append(helper.make_tensor_value_info(r, TensorProto.FLOAT, None))
    return ratios, unknown


def near_tie(r: np.ndarray) -> bool:
    if r.size == 0:
        return False
    frac = np.abs(np.abs(r - np.floor(r)) - 0.5)
    return bool((frac < np.maximum(1e-3, np.abs(r) * 4e-7)).any())


def session(model):
    import onnxruntime as ort

    o = ort.SessionOptions()
    o.graph_optimization_level = ort.GraphOptimizationLevel.ORT_DISABLE_ALL
    o.log_severity_level = 4
    o.intra_op_num_threads = 1
    return ort.InferenceSession(model.SerializeToString(), o, providers=["CPUExecutionProvider"])


def plain_leaves(x: Any) -> list[torch.Tensor]:
    import torch.utils._pytree as pytree

    return [models.deq(t).detach() if isinstance(t, torch.Tensor) else t for t in pytree.tree_leaves(x)]


def run_graph(path: pathlib.Path, enc: dict | None, declared: bool = False):
    """A function from input tensors by name to (outputs, near a rounding tie)."""
    import onnx

    m = onnx.load(str(path))
    names = [i.name for i in m.graph.input]
    outs = [o.name for o in m.graph.output]
    unknown: list[str] = []
    if enc is not None:
        ratios, unknown = fake_quant(m, enc, declared)
        sess = session(m)

        def run(feed):
            res = sess.run(outs + ratios, feed)
            return res[: len(outs)], any(near_tie(r) for r in res[len(outs):])
    else:
        # the values of x and scale of every QuantizeLinear
        qs = [(n.input[0], n.input[1], next((a.i for a in n.attribute if a.name == "axis"), 1)) for n in m.graph.node if n.op_type == "QuantizeLinear"]
        init = {t.name: onnx.numpy_helper.to_array(t) for t in m.graph.initializer}
        produced = {o for n in m.graph.node for o in n.output}
        every = list(outs)
        for x, s, _ in qs:
            for v in (x, s):
                if v in produced and v not in every:
                    m.graph.output.append(onnx.helper.make_tensor_value_info(v, onnx.TensorProto.FLOAT, None))
                    every.append(v)
        sess = session(m)

        def run(feed):
            res = dict(zip(every, sess.run(every, feed)))
            val = {**init, **feed, **res}
            tie = False
            for x, s, axis in qs:
                a, b = val[x], val[s]
                if b.size > 1:
                    shape = [1] * a.ndim
                    shape[axis] = -1
                    b = b.reshape(shape)
                else:
                    b = b.reshape(())
                tie = tie or near_tie(a / b)
            return [res[o] for o in outs], tie
    return names, outs, run, unknown


# ------------------------------------------------------------------ the run


def generate(rng, cfg):
    qdq = rng.random() < 0.35
    spec = gen_spec(rng, qdq)
    ops = []
    name = rng.choice(["a", "net"])
    for i in range(rng.choice([1, 1, 2, 2, 3])):
        if i and rng.random() < 0.4:
            ops.append({"op": "change", "i": rng.randint(0, 9), "what": rng.choice(["weights", "ranges", "off", "on"])})
        op = {"op": "modules" if rng.random() < 0.45 else "export", "format": "onnx_qdq" if qdq and rng.random() < 0.8 else "onnx", "name": name if rng.random() < 0.8 else "b",
              "kw": rng.random() < 0.5, "data": rng.randint(0, 9), "sel": E.gen_selection(rng), "handler": rng.choice([0, 1, 2]), "alter": rng.random() < 0.2,
              "save": rng.choice([None, "embedded", "external"]), "via": rng.choice([None, None, "orch", "direct"]), "fault": None}
        if op["op"] == "modules":
            op["format"] = "onnx"
        if cfg["faults"] and rng.random() < (0.7 if i == 0 else 0.3):
            op["fault"] = E.gen_fault(rng, spec, op, True)
        ops.append(op)
    if ops[-1].get("fault"):
        ops.append({**copy.deepcopy(ops[-1]), "fault": None})
    return {"spec": spec, "ops": ops}


def change(model, op) -> None:
    i = op["i"]
    qs = [m for m in model.modules() if isinstance(m, ff.nn.LinearQuantizer)]
    with torch.no_grad():
        if op["what"] == "weights":
            for p in model.parameters():
                if p.dim() >= 2 and p.is_floating_point():
                    p.add_(0.0137 * (i + 1))
        elif op["what"] == "ranges" and qs:
            qs[i % len(qs)].scale.mul_(1.25)
        elif op["what"] in ("off", "on") and qs:
            q = qs[i % len(qs)]
            if op["what"] == "off":
                q.register_override(ff.overrides.DisableQuantizationOverride())


class Taps:
    """Records the last call of every selected module."""

    def __init__(self, mods: dict[str, torch.nn.Module]) -> None:
        self.calls: dict[str, tuple] = {}
        self.handles = [m.register_forward_hook(self.hook(n), with_kwargs=True) for n, m in mods.items()]

    def hook(self, name):
        def f(m, args, kwargs, out):
            self.calls[name] = (args, kwargs, out)

        return f

    def __enter__(self):
        return self

    def __exit__(self, *a):
        for h in self.handles:
            h.remove()


def forward(model, args, kwargs):
    with torch.no_grad(), ff.strict_quantization(False):
        return model(*args, **kwargs)


def same(a: torch.Tensor, b: Any) -> bool:
    b = torch.as_tensor(b)
    return tuple(a.shape) == tuple(b.shape) and torch.allclose(a.float(), b.float(), rtol=2e-4, atol=2e-4)


def feed_of(names: list[str], args: tuple, kwargs: dict) -> dict[str, np.ndarray] | None:
    """Inputs of a graph: tensors given by position, then those given by keyword, which keep their names."""
    pos = [a for a in args if isinstance(a, torch.Tensor)]
    kws = {k: v for k, v in kwargs.items() if isinstance(v, torch.Tensor)}
    rest = [n for n in names if n not in kws]
    if len(rest) != len(pos) or len(names) != len(pos) + len(kws):
        return None
    out = {n: models.deq(t).detach().numpy() for n, t in zip(rest, pos)}
    out.update({n: models.deq(kws[n]).detach().numpy() for n in names if n in kws})
    return out


def encoding_of(t: ff.QuantizedTensor) -> dict:
    p = t.quant_args()
    s = p.scale.detach().reshape(-1)
    o = torch.zeros_like(s) if p.offset is None else torch.round(p.offset.detach().reshape(-1))
    lo = -(2 ** (p.num_bits - 1))
    return {"scale": s.tolist(), "lo": [int(lo + x) for x in o], "hi": [int(-lo - 1 + x) for x in o]}


class World:
    def __init__(self, sim: Sim, sc: dict, model, fs: FS) -> None:
        self.sim, self.sc, self.spec, self.model, self.fs = sim, sc, sc["spec"], model, fs

    def pickles(self, where, path, args, kwargs, out) -> None:
        with open(path, "rb") as f:
            d = pickle.load(f)
        for key, val in (("input", args), ("kwargs", kwargs), ("output", out)):
            a, b = plain_leaves(d[key]), plain_leaves(val)
            self.sim.check(len(a) == len(b) and all(x.equal(y) if isinstance(x, torch.Tensor) else x == y for x, y in zip(a, b)), "recorded-io",
                           lambda: f"{where}: {path.name}: {key}: {a} recorded, {b} in the model")

    def refused(self, k, op, exc) -> None:
        self.sim.probe(f"refused {type(exc).__name__}: {str(exc)[:90]}")

    def graph(self, where, stem: pathlib.Path, fmt: str, samples) -> Any:
        """samples: (args, kwargs, output of the model)."""
        enc = decode(stem.with_name(stem.name + ".encodings")) if fmt == "onnx" else None
        names, outs, run, unknown = run_graph(stem.with_name(stem.name + ".onnx"), enc, self.sc.get("declared", False))
        self.sim.check(not unknown, "unknown-name", lambda: f"{where}: encodings of {unknown}, which are not in the graph")
        for i, (args, kwargs, out) in enumerate(samples):
            feed = feed_of(names, args, kwargs)
            if feed is None:
                self.sim.probe("inputs of the graph unclear")
                continue
            res, tie = run(feed)
            if tie:
                self.sim.probe("tie")
                continue
            want = plain_leaves(out)
            self.sim.probe(f"ran graph {fmt}")
            self.sim.check(len(want) == len(res), "outputs", lambda: f"{where}: {len(res)} outputs, the model has {len(want)}")
            for j, (w, r) in enumerate(zip(want, res)):
                self.sim.check(same(w, r), "graph-differs", lambda: f"{where}: sample {i} output {j}: graph {np.array(r).tolist()}, model {w.tolist()}; encodings {enc}")
        return names, outs, enc

    def selected(self, op) -> dict[str, torch.nn.Module]:
        sel = E.select(self.model, op["sel"])
        return {op["name"]: sel} if isinstance(sel, torch.nn.Module) else {m.full_name: m.module for m in sel}

    def before(self, op, args, kwargs) -> None:
        """What a module export records without quantization (it may snap weights to their grids later)."""
        if op["op"] == "modules" and self.spec["t"] != "flat":
            with Taps(self.selected(op)) as t, ff.disable_quantization(self.model):
                forward(self.model, args, kwargs)
            self.plain = t.calls

    def verify(self, k: int, op: dict, d: pathlib.Path, args, kwargs) -> None:
        where = f"op {k} ({op['op']} {op['format']} {E.HANDLERS[op['handler']]})"
        if self.spec["t"] == "flat":
            return self.gguf(where, d / f"{op['name']}.gguf")
        others = [(args, kwargs)] + [inputs(self.spec, bool(kwargs), 200 + i) for i in range(4)]
        if op["op"] == "export":
            samples = [(a, kw, forward(self.model, a, kw)) for a, kw in others]
            self.graph(where, d / op["name"], op["format"], samples)
            self.pickles(where, d / f"{op['name']}_input_output.pickle", *samples[0])
            return
        mods = self.selected(op)
        calls = []
        for a, kw in others:
            with Taps(mods) as t:
                forward(self.model, a, kw)
            calls.append(t.calls)
        for name in mods:
            p = d / op["name"] / name
            w = f"{where} {name}"
            names, outs, enc = self.graph(w, p / name, op["format"], [c[name] for c in calls if name in c])
            a, kw, out = calls[0][name]
            self.pickles(w, p / f"{name}_input_output.pickle", a, kw, out)
            self.pickles(w, p / f"{name}_nonquantized_input_output.pickle", *self.plain[name])
            if enc is None:
                continue
            # tensors that arrive or leave quantized
            pos = [x for x in a if isinstance(x, torch.Tensor)]
            kws = {n: x for n, x in kw.items() if isinstance(x, torch.Tensor)}
            rest = [n for n in names if n not in kws]
            import torch.utils._pytree as pytree

            pairs = [(n, kws[n]) for n in names if n in kws] + list(zip(outs, pytree.tree_leaves(out)))
            if len(rest) == len(pos):
                pairs += list(zip(rest, pos))
            for n, x in pairs:
                if isinstance(x, ff.QuantizedTensor):
                    self.sim.probe("quantized at the border")
                    e, want = enc.get(n), encoding_of(x)
                    self.sim.check(e is not None, "border-encoding-missing", lambda: f"{w}: {n} is quantized, but has no encoding: {sorted(enc)}")
                    self.sim.check(all(np.allclose(e[f], want[f], rtol=1e-6) for f in want), "border-encoding", lambda: f"{w}: {n}: {e}, the tensor has {want}")

    def gguf(self, where, path) -> None:
        from gguf import GGUFReader
        from gguf.quants import dequantize

        r = {t.name: t for t in GGUFReader(str(path)).tensors}
        params = {n: p for n, p in self.model.named_parameters() if "quantizer" not in n}
        self.sim.check(set(r) == {"t." + n for n in params}, "gguf-tensors", lambda: f"{where}: {sorted(r)} for {sorted(params)}")
        for n, p in params.items():
            t = r["t." + n]
            mod = self.model.get_submodule(n.rpartition(".")[0])
            got = torch.from_numpy(np.array(dequantize(t.data, t.tensor_type))).reshape(p.shape)
            q = getattr(mod, "weight_quantizer", None) if n.endswith("weight") else None
            if q is None or q.is_stub():
                tol = torch.full_like(p, 1e-6) if t.tensor_type.name == "F32" else p.detach().abs() * 2e-3 + 1e-6
                want = p.detach()
            else:
                want = q(p.detach()).dequantize()
                codes = q(p.detach()).int_repr().float()
                s = q.scale.detach().reshape(p.shape[0], -1, 1).expand(-1, -1, 32).reshape(p.shape)
                tol = codes.abs() * (s.half().float() - s).abs() + 1e-6 * (s + want.abs()) + s * (codes == -128)
            self.sim.probe("gguf tensor")
            self.sim.check(bool(((got - want).abs() <= tol).all()), "gguf-differs", lambda: f"{where}: {n}: off by {(got - want).abs().max()}")


def execute(sim: Sim, sc):
    fs = FS(sim)
    spec = sc["spec"]
    if spec["t"] != "flat" and not all(valid(spec[p], st) for p, st in starts(spec).items() if p in spec):
        sim.probe("spec not valid")
        return
    try:
        ff.set_strict_quantization(False)
        model = build(spec)
        w = World(sim, sc, model, fs)
        fs.install()
        hist = []
        now = [sim]
        for k, op in enumerate(sc["ops"]):
            if op["op"] == "change":
                change(model, op)
                continue
            args, kwargs = inputs(spec, op["kw"], op["data"])
            d = fs.path("m" if op["op"] == "modules" else "d")
            f = op["fault"]
            w.before(op, args, kwargs)

            def go():
                with E.Seams(now[0], f if f and f["where"] != "fs" else None, model):
                    return E.do_export(model, spec, op, d, E.handler(E.HANDLERS[op["handler"]]), args=args, kwargs=kwargs)

            if f and f["kind"] == "crash":
                # the process that exports dies; this one never exported
                def dying():
                    s2 = fs.sim = now[0] = Sim()
                    _, e, c = fs.run(f if f["where"] == "fs" else None, go)
                    return c, None if e is None else type(e).__name__, dict(s2.fault_counts)

                crashed, err, counts = E.in_fork(dying)
                for n, c in counts.items():
                    for _ in range(c):
                        sim.fault(n)
                outcome = "crash" if crashed else "ok" if err is None else "refused"
                exc = None
            else:
                _, exc, crashed = fs.run(f if f and f["where"] == "fs" else None, go)
                outcome = "ok" if exc is None else "fault" if is_injected(exc) else "refused"
            kind = "gguf" if spec["t"] == "flat" else f"{op['op']} {op['format']}"
            sim.event(k, kind, outcome, type(exc).__name__ if exc is not None else "")
            sim.probe(f"{kind} {outcome}")
            sim.ops_done += 1
            hist.append((kind, op["handler"], outcome))
            sim.state(tuple(hist), json.dumps(spec, sort_keys=True)[:400])
            if outcome == "refused":
                w.refused(k, op, exc) if exc is not None else None
            if outcome == "ok" and not (f and f["kind"] == "crash"):
                w.verify(k, op, d, args, kwargs)
    finally:
        fs.uninstall()


def shrink(sc):
    yield from generic_shrink(sc)
    for part in "ab":
        if part in sc["spec"] and isinstance(sc["spec"][part], list):
            for i in range(len(sc["spec"][part])):
                s = copy.deepcopy(sc)
                del s["spec"][part][i]
                yield s
            for i, it in enumerate(sc["spec"][part]):
                for q in [x for x in it.get("q", {}) if it["q"][x] is not None and x]:
                    s = copy.deepcopy(sc)
                    s["spec"][part][i]["q"][q] = None
                    yield s

