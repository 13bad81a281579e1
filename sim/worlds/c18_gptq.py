"""C18: GPTQ changes only its layer's weight, and only when it completes."""

from __future__ import annotations

import copy

import torch

from sim import models
from sim.core import Sim, SimError, Violation, catch, is_injected, maybe_op_fault, public_flags, raise_fault, tdigest

PROPERTY = "C18"
CONFIGS = {"plain": {"faults": False}, "faults": {"faults": True}}
PLAN = {"quick": 420, "quick_s": 90, "thorough": 9000, "thorough_s": 780, "det": 6}
RULE = ("History of GPTQ runs over the layers of a network - linear and convolution layers, every granularity, bit width, block size, ordering - with lazily produced or "
        "repeatable calibration batches, failing at any operation, batch or batch shape and then repeated; weights, ranges, data and the rest of the network are compared "
        "bit for bit with a twin whose runs never failed.")
REAL = ["fastforward.quantization.gptq", "fastforward.range_setting", "fastforward.quantization.affine", "fastforward.nn"]
STUB = ["data loader (generator that the simulator may fail)"]
STATE_MEASURE = "hash of (layer kind, granularity, outcome, weight)"

LINEAR_G = ["pt", "pc0", "pc1", "pc01", "bc", "bb", "bb2", "tile"]


def gen_layer(rng):
    if rng.random() < 0.65:
        o, i = rng.choice([2, 4, 6]), rng.choice([2, 4, 8, 12])
        return {"t": "lin", "o": o, "i": i, "bias": rng.random() < 0.5, "g": rng.choice(LINEAR_G), **gen_q(rng)}
    grp = rng.choice([1, 1, 1, 1, 1, 2])
    k = rng.choice([1, 2, 3])
    return {"t": "conv", "o": 2 * rng.randint(1, 2), "i": grp * rng.randint(1, 2), "k": k, "groups": grp, "bias": rng.random() < 0.5,
            "stride": rng.choice([1, 1, 2]), "pad": rng.choice([0, 1]), "g": rng.choice(["pt", "pc0", "pc0", "pt", "pc0", "pt", "pc0", "bc"]), **gen_q(rng)}


def gen_q(rng):
    return {"b": rng.choice([2, 3, 4, 8]), "sym": rng.random() < 0.6, "one": rng.random() < 0.5, "init": rng.choice([None, None, 0.3, 2.0]),
            "seed": rng.randint(0, 999), "pos": rng.random() < 0.15, "stub": rng.random() < 0.04}


def generate(rng, cfg):
    layers = [gen_layer(rng) for _ in range(rng.randint(1, 3))]
    ops = []
    for _ in range(rng.randint(1, 4)):
        f = None
        if cfg["faults"] and rng.random() < 0.75:
            f = rng.choice([
                {"kind": rng.choice(["oom", "interrupt"]), "frac": round(rng.random(), 4)},
                {"kind": rng.choice(["oom", "interrupt"]), "back": rng.randint(0, 12)},
                {"kind": rng.choice(["error", "interrupt"]), "batch": rng.randint(0, 3)},
                {"kind": "shape", "batch": rng.randint(0, 2), "how": rng.choice(["ndim", "width", "args", "kwonly"])},
            ])
        ops.append({"layer": rng.randint(0, 5), "data": [rng.randint(0, 99) for _ in range(rng.randint(0, 3))], "n": rng.randint(1, 3),
                    "s": rng.randint(1, 4), "ddt": rng.choice(["float32", "float32", "float64", "float16"]), "lazy": rng.random() < 0.5,
                    "block": rng.choice([1, 2, 3, 5, 8, 128]), "damp": rng.choice([0.01, 0.1, 1.0]), "act": rng.random() < 0.4,
                    "dead": rng.random() < 0.15, "noncontig": rng.random() < 0.3, "grad": rng.random() < 0.2, "fault": f,
                    "retry": rng.random() < 0.8})
    return {"layers": layers, "dtype": rng.choice(["float32", "float32", "float64", "float16"]), "tie": rng.random() < 0.2, "ops": ops,
            "strict": rng.random() < 0.5, "train": rng.random() < 0.3}


def granularity(g, o, i):
    import fastforward as ff

    return {"pt": lambda: ff.PerTensor(), "pc0": lambda: ff.PerChannel(0), "pc1": lambda: ff.PerChannel(1), "pc01": lambda: ff.PerChannel((0, 1)),
            "bc": lambda: ff.PerBlock(block_dims=1, block_sizes=2, per_channel_dims=0), "bb": lambda: ff.PerBlock((0, 1), (2, 2)),
            "bb2": lambda: ff.PerBlock((0, 1), (o, 2)), "tile": lambda: ff.granularity.PerTile((2, 2))}[g]()


def build(sc):
    import fastforward as ff

    dt = getattr(torch, sc["dtype"])
    mods = []
    for s in sc["layers"]:
        g = torch.Generator().manual_seed(s["seed"])
        if s["t"] == "lin":
            m = ff.nn.QuantizedLinear(s["i"], s["o"], bias=s["bias"])
        else:
            m = ff.nn.QuantizedConv2d(s["i"], s["o"], s["k"], stride=s["stride"], padding=s["pad"], groups=s["groups"], bias=s["bias"])
        with torch.no_grad():
            for p in m.parameters():
                p.copy_(torch.randn(p.shape, generator=g) * 0.7)
            if s["pos"]:
                m.weight.abs_()
        m = m.to(dt)
        if not s["stub"]:
            m.weight_quantizer = ff.nn.LinearQuantizer(s["b"], symmetric=s["sym"], allow_one_sided=s["one"], granularity=granularity(s["g"], s["o"], s.get("i")))
            if s["init"] is not None:
                n = m.weight_quantizer.granularity.parameter_dimensionality(m.weight.shape) if s["t"] == "lin" or s["g"] != "bc" else 1
                m.weight_quantizer.quantization_range = (-s["init"] * torch.ones(n), s["init"] * torch.ones(n))
        m.output_quantizer = ff.nn.LinearQuantizer(4)
        m.output_quantizer.quantization_range = (-1.0, 1.0)
        mods.append(m)
    seq = models.Seq(mods)
    seq.train(sc["train"])
    return seq


def make_data(o, s):
    """Calibration batches; conv layers take images, linear layers (batch, sequence, features)."""
    out = []
    for k in o["data"]:
        g = torch.Generator().manual_seed(k)
        if s["t"] == "lin":
            x = torch.randn(o["n"], o["s"], s["i"], generator=g)
            if o["dead"]:
                x[..., 0] = 0.0
            if o["noncontig"]:
                x = x.transpose(0, 1).contiguous().transpose(0, 1)
        else:
            x = torch.randn(o["n"], s["i"], 3 + o["s"], 3 + o["s"], generator=g)
        x = x.to(getattr(torch, o["ddt"]))
        if o["grad"]:
            x.requires_grad_(True)
        out.append(x)
    return out


def dataset(sim, tensors, o, fault):
    def entry(i, x):
        if fault and fault.get("kind") == "shape" and fault["batch"] == i:
            sim.fault("bad-batch")
            if fault["how"] == "ndim":
                return (x.detach().reshape(-1),), {}
            if fault["how"] == "width":
                return (torch.ones(x.shape[0], *[d + 1 for d in x.shape[1:]], 1)[..., 0] if x.ndim == 4 else torch.ones(*x.shape[:-1], x.shape[-1] + 1),), {}
            if fault["how"] == "args":
                return (x, x), {}
            return (), {"x": x}
        return (x,), {}

    def gen():
        for i, x in enumerate(tensors):
            if fault and "batch" in fault and fault["batch"] == i and fault["kind"] != "shape":
                raise_fault(sim, fault["kind"])
            yield entry(i, x)

    breaks = fault and "batch" in fault
    return gen() if o["lazy"] or (breaks and fault["kind"] != "shape") else list(gen())


def wq_state(m):
    q = m.weight_quantizer
    return {n: models._val(p) for n, p in list(q.named_parameters()) + list(q.named_buffers())}


def call(sim, model, li, o, tensors, fault):
    from fastforward.quantization.gptq import gptq

    m = model.mods[li]
    with torch.no_grad(), maybe_op_fault(sim, fault if fault and "at" in fault else None) as mode:
        gptq(m, dataset(sim, tensors, o, fault), block_size=o["block"], perc_damp=o["damp"], actorder=o["act"], layer_name="sim")
    return mode.count if mode else None


def others(snap, li):
    pre = (f"param mods.{li}.weight_quantizer.", f"buffer mods.{li}.weight_quantizer.")
    return {k: v for k, v in snap.items() if not k.startswith(pre) and k != f"param mods.{li}.weight"}


def execute(sim: Sim, sc):
    import fastforward as ff

    model = build(sc)
    twin = build(sc)
    flags0 = None
    with ff.strict_quantization(sc["strict"]):
        flags0 = public_flags()
        for o in sc["ops"]:
            li = o["layer"] % len(sc["layers"])
            one(sim, sc, model, twin, li, o, flags0)
            sim.ops_done += 1


def one(sim, sc, model, twin, li, o, flags0):
    import fastforward as ff

    s = sc["layers"][li]
    m = model.mods[li]
    where = f"gptq on layer {li} {s['t']} {s['g']}"
    tensors = make_data(o, s)
    want_data = [tdigest(x.detach()) for x in tensors]
    rng0 = torch.get_rng_state()

    def attempt(fault, tag):
        snap, w0 = models.snapshot(model), m.weight.detach().clone()
        _, exc = catch(lambda: call(sim, model, li, o, tensors, fault))
        if public_flags() != flags0:
            raise Violation("modes", f"{where} ({tag}): {public_flags()} != {flags0}")
        if [tdigest(x.detach()) for x in tensors] != want_data:
            raise Violation("data", f"{where} ({tag}): the calibration data was changed (outcome {type(exc).__name__})")
        after = models.snapshot(model)
        d = models.diff(others(snap, li), others(after, li))
        if d:
            raise Violation("others", f"{where} ({tag}): {d[0]}")
        a, b = snap[f"param mods.{li}.weight"], after[f"param mods.{li}.weight"]
        if a[1:] != b[1:] or m.weight.dtype != w0.dtype or m.weight.shape != w0.shape:
            raise Violation("weight-identity", f"{where} ({tag}): the weight is another parameter than before")
        if exc is not None:
            if tdigest(w0) != tdigest(m.weight.detach()):
                raise Violation("weight-after-failure", f"{where} ({tag}): failed with {type(exc).__name__} but the weight was changed")
        if not torch.equal(rng0, torch.get_rng_state()):
            raise Violation("rng", f"{where}: the global random state was changed")
        return exc

    # the reference: a twin whose run is not disturbed
    t_data = [x.detach().clone() for x in make_data({**o, "grad": False}, s)]
    count, t_exc = catch(lambda: call(sim, twin, li, {**o, "lazy": False}, t_data, {"at": None, "kind": "oom"}))
    if t_exc is not None and is_injected(t_exc):
        raise AssertionError("fault in the twin")

    done, fault = False, o["fault"]
    if fault and ("frac" in fault or "back" in fault):
        # placed relative to the number of tensor operations of the undisturbed run
        count = count or 40
        at = int(fault["frac"] * count) if "frac" in fault else max(0, count - 1 - fault["back"])
        fault = {"kind": fault["kind"], "at": at}
    if fault:
        exc = attempt(fault, "with fault")
        done = exc is None
        sim.probe("failed" if exc is not None else "fault_not_reached")
        if exc is not None and not is_injected(exc) and t_exc is None and fault["kind"] != "shape":
            raise Violation("masked", f"{where}: an injected {fault['kind']} surfaced as {type(exc).__name__}: {exc}"[:300])
    # A run that fails is repeated with the same data.
    if not done:
        exc = attempt(None, "repeated" if fault else "first")
        if (exc is None) != (t_exc is None) or type(exc) is not type(t_exc):
            raise Violation("repeat", f"{where}: ended with {exc!r}, an undisturbed run ends with {t_exc!r}"[:400])
    if t_exc is not None:
        sim.probe("refused")
        sim.event("refused", type(t_exc).__name__)
        return
    if tdigest(m.weight.detach()) != tdigest(twin.mods[li].weight.detach()):
        raise Violation("result", f"{where}: the weight differs from the one an undisturbed run computes")
    if wq_state(m) != wq_state(twin.mods[li]):
        raise Violation("range", f"{where}: the range differs from the one an undisturbed run sets")
    if not torch.isfinite(m.weight).all():
        sim.probe("not_finite")
        return
    sim.probe("completed")
    # On the grid of the quantizer: quantizing again changes nothing.
    with torch.no_grad(), ff.strict_quantization(False):
        w = m.weight.detach()
        qdq = m.weight_quantizer(w.double()).dequantize()
    if not qdq.isfinite().all():
        sim.probe("not_finite")
        return
    tol = {"float16": 2.0 ** -10}.get(sc["dtype"], 2.0 ** -20)
    bad = (qdq.double() - w.double()).abs() > tol * w.double().abs() + (1e-3 if sc["dtype"] == "float16" else 1e-6) * m.weight_quantizer.scale.detach().abs().min().double()
    if bad.any():
        raise Violation("grid", f"{where}: {int(bad.sum())} of {w.numel()} weights are off the quantization grid by up to {float((qdq.double() - w.double()).abs().max()):.4g}")
    sim.state(s["t"], s["g"], o["act"], tdigest(w))
    sim.event("done", tdigest(w))
