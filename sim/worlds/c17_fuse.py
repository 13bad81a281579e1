"""C17: weight fusing snaps each weight once, all or nothing per weight."""

from __future__ import annotations

import torch

from sim import models
from sim.core import Sim, Violation, catch, is_injected, maybe_op_fault, public_flags, raise_fault, tdigest

PROPERTY = "C17"
CONFIGS = {"plain": {"faults": False}, "faults": {"faults": True}}
PLAN = {"quick": 700, "quick_s": 90, "thorough": 12000, "thorough_s": 780, "det": 6}
RULE = ("History of fuses (whole networks and parts, keeping or stubbing quantizers) of networks with tied weights, shared weight quantizers, shared modules, stubs, disabled, "
        "uninitialized and user-written quantizers, weight and range updates between them, failing at any operation or inside any weight quantizer and then repeated; weights, "
        "module tree and outputs are compared bit for bit with values computed beforehand.")
REAL = ["fastforward.quantization.fuse", "fastforward.quantization.quant_init.find_quantizers", "fastforward.mpath", "fastforward.overrides", "fastforward.nn"]
STUB = []
STATE_MEASURE = "hash of (dtype, fused weights, stubbed and disabled quantizers, outcome)"


def generate(rng, cfg):
    spec = models.gen_model(rng, tie=True, n=(1, 4), plain=0.08, gate=True, uninit=rng.choice([0, 0, 0.1]))
    ops = []
    for _ in range(rng.randint(2, 6)):
        r = rng.random()
        if r < 0.55:
            f = None
            if cfg["faults"] and rng.random() < 0.7:
                f = rng.choice([{"kind": rng.choice(["oom", "interrupt"]), "frac": round(rng.random(), 4)},
                                {"kind": rng.choice(["oom", "interrupt"]), "back": rng.randint(0, 4)},
                                {"kind": rng.choice(["error", "interrupt", "oom"]), "call": rng.randint(0, 5)}])
            ops.append({"op": "fuse", "part": rng.randint(0, 12), "stub": rng.random() < 0.5, "fault": f, "listed": rng.random() < 0.2,
                        "disc": rng.choice([None, None, None, None, "half", "bias", "named"])})
        elif r < 0.6:
            ops.append({"op": "stub", "part": rng.randint(0, 12), "disc": rng.choice([None, "half", "bias"])})
        elif r < 0.7:
            ops.append({"op": "switch", "i": rng.randint(0, 20), "on": rng.random() < 0.6})
        elif r < 0.85:
            ops.append({"op": "update", "i": rng.randint(0, 20), "seed": rng.randint(0, 999)})
        else:
            ops.append({"op": "range", "i": rng.randint(0, 20), "hi": rng.choice([0.7, 1.2, 2.5])})
    return {"model": spec, "tied": [[rng.randint(0, 5), rng.randint(0, 5)] for _ in range(rng.choice([0, 0, 0, 1, 2]))], "sharew": [[rng.randint(0, 5), rng.randint(0, 5)] for _ in range(rng.choice([0, 0, 1, 2]))],
            "samerange": rng.choice([None, None, {"b": 4, "sym": True, "lo": -1.5, "hi": 1.5}, {"b": 8, "sym": False, "lo": -0.7, "hi": 1.9}, {"b": 8, "sym": True, "lo": -2.0, "hi": 2.0}]), "dtype": rng.choice(["float32", "float32", "float64", "bfloat16"]), "ops": ops, "strict": rng.random() < 0.5,
            "embed": rng.choice([None, None, {"g": "pt", "b": 4}, {"g": "pc", "b": 3}]), "train": rng.random() < 0.3}


class Embed(torch.nn.Module):
    """Network with an embedding in front (fed with indices derived from its input)."""

    def __init__(self, emb, body) -> None:
        super().__init__()
        self.emb, self.body = emb, body

    def forward(self, x):
        idx = (x[:, 0] > 0).long() + 2 * (x[:, 1] > 0).long()
        return self.body(models.deq(self.emb(idx)))


def wk(p):
    """Parameters with one key share their memory."""
    return id(p) if torch.nn.parameter.is_lazy(p) else (p.data_ptr() or id(p))


def build(sc):
    import fastforward as ff

    m = models.build_model(sc["model"])
    lins = [x for x in m.modules() if isinstance(x, ff.nn.QuantizedLinear)]
    dt = getattr(torch, sc["dtype"])
    m = m.to(dt)
    for a, b in sc.get("tied", ()):  # different parameters, one memory
        x, y = lins[a % len(lins)], lins[b % len(lins)]
        if x.weight is not y.weight:
            y.weight = torch.nn.Parameter(x.weight.data)
    for a, b in sc["sharew"]:
        x, y = lins[a % len(lins)], lins[b % len(lins)]
        if x is not y and not x.weight_quantizer.is_stub() and not y.weight_quantizer.is_stub():
            y.weight_quantizer = x.weight_quantizer
    if sc["samerange"]:  # tied weights whose quantizers agree
        for x in lins:
            if isinstance(x.weight_quantizer, ff.nn.LinearQuantizer) and any(wk(x.weight) == wk(y.weight) for y in lins if y is not x):
                x.weight_quantizer = models.make_quantizer({"t": "lin", "one": True, "g": "pt", **sc["samerange"]}).to(dt)
    if sc["embed"]:
        e = ff.nn.QuantizedEmbedding(4, 4)
        with torch.no_grad():
            e.weight.copy_(torch.randn(4, 4, generator=torch.Generator().manual_seed(5)))
        e.weight_quantizer = models.make_quantizer({"t": "lin", "sym": True, "one": True, "lo": -1.0, "hi": 1.0, **sc["embed"]})
        m = Embed(e.to(dt), m)
    m.train(sc["train"])
    return m


def vdig(t):
    if isinstance(t, torch.nn.parameter.UninitializedParameter):
        return "lazy"
    return ("Q" if t.__class__.__name__ == "QuantizedTensor" else "") + tdigest(models.deq(t).detach() + 0.0)


def same_meta(a, b):
    return a is b or (a is not None and b is not None and a.is_extension(b) and b.is_extension(a))


def execute(sim: Sim, sc):
    import fastforward as ff

    from fastforward.quantization.fuse import ConventionDiscovery, find_weight_quantizers, fuse_qdq_weights

    model = build(sc)
    dt = getattr(torch, sc["dtype"])
    lowp = sc["dtype"] == "bfloat16"
    ff.set_strict_quantization(sc["strict"])
    flags0 = public_flags()
    parts = [model] + [m for m in model.modules() if m is not model and not isinstance(m, ff.nn.Quantizer)]
    owners_of = {a: [m for m in model.modules() if isinstance(getattr(m, a, None), torch.nn.Parameter) and hasattr(m, f"{a}_quantizer")] for a in ("weight", "bias")}
    owners = owners_of["weight"]
    switches = {}

    def forward(x):
        with torch.no_grad(), ff.strict_quantization(False):
            return vdig(model(x))

    def outputs():
        return [catch(lambda: forward(models.batch(s).to(dt)))[0] for s in (3, 4, 5)]

    def is_off(q):
        return any(isinstance(o, ff.overrides.DisableQuantizationOverride) and not o.quantization_enabled for o in q.overrides)

    def qdq(q, w):
        """The quantized value of a weight according to the quantizer itself, None when it cannot be computed."""
        def f():
            with torch.no_grad(), ff.strict_quantization(False):
                return models.deq(q.quantize(w.detach().clone())).to(w.dtype)
        r, exc = catch(f)
        return r

    for st in sc["ops"]:
        sim.tick()
        op = st["op"]
        if op == "switch":
            qs = list({id(m.weight_quantizer): m.weight_quantizer for m in owners if not m.weight_quantizer.is_stub()}.values())
            if qs:
                q = qs[st["i"] % len(qs)]
                if id(q) not in switches:
                    switches[id(q)] = (ff.overrides.DisableQuantizationOverride(), q)
                    switches[id(q)][0].attach_to(q)
                switches[id(q)][0].enable_quantization(not st["on"])
        elif op == "update":
            m = owners[st["i"] % len(owners)]
            with torch.no_grad():
                m.weight.copy_((torch.randn(m.weight.shape, generator=torch.Generator().manual_seed(st["seed"])) * 0.6).to(dt))
        elif op == "range":
            qs = [m.weight_quantizer for m in owners if isinstance(m.weight_quantizer, ff.nn.LinearQuantizer)]
            if qs:
                q = qs[st["i"] % len(qs)]
                n = 1 if q.granularity.__class__.__name__ == "PerTensor" else 4
                q.quantization_range = (-st["hi"] * torch.ones(n), st["hi"] * torch.ones(n))
        else:
            part = parts[st["part"] % len(parts)] if st["part"] > 6 else model
            attr = "bias" if st.get("disc") == "bias" else "weight"
            disc = discovery(ConventionDiscovery, st.get("disc"))
            sites = sites_of(part, owners_of[attr], attr, st.get("disc"))
            if op == "stub":
                stub(sim, ff, model, part, attr, sites, disc, flags0)
            else:
                fuse(sim, ff, model, part, owners_of[attr], attr, sites, disc, st, qdq, is_off, outputs, flags0, lowp, (fuse_qdq_weights, find_weight_quantizers))
        sim.ops_done += 1
        sim.event(op, outputs())
        sim.state(sc["dtype"], [(m.weight_quantizer.is_stub(), is_off(m.weight_quantizer), tdigest(m.weight)) for m in owners])


def discovery(convention, kind):
    """What the caller passes to say which quantizers are meant (None: the default)."""
    if kind == "half":  # every second target, whatever their order
        return lambda model: (t for t in convention()(model) if half(t[0]))
    if kind == "bias":
        return convention("bias", tag="parameter/bias")
    if kind == "named":
        return convention("weight")
    return None


def half(m):
    return getattr(m, "out_features", 0) and bool(m.__dict__["half"])


def sites_of(part, owners, attr, kind):
    for i, m in enumerate(owners):
        m.__dict__["half"] = i % 2 == 0
    inside = {id(m) for m in part.modules()}
    return [{"m": m, "q": getattr(m, f"{attr}_quantizer"), "w": getattr(m, attr), "old": getattr(m, attr).detach().clone(), "meta": getattr(m, f"{attr}_quantizer").quant_metadata}
            for m in owners if id(m) in inside and not getattr(m, f"{attr}_quantizer").is_stub() and (kind != "half" or half(m))]


def stub(sim, ff, model, part, attr, sites, disc, flags0):
    """Only the quantizers are replaced; no parameter changes."""
    snap0 = models.snapshot(model)
    kw = {} if disc is None else {"discovery": disc}
    _, exc = catch(lambda: ff.quantization.fuse.stub_weight_quantizers(part, **kw))
    if exc is not None:
        raise Violation("unexpected-error", f"stub_weight_quantizers: {type(exc).__name__}: {exc}") from exc
    sim.check(public_flags() == flags0, "modes", f"stub_weight_quantizers: {public_flags()} != {flags0}")
    for s in sites:
        q = getattr(s["m"], f"{attr}_quantizer")
        sim.check(isinstance(q, ff.nn.QuantizerStub), "not-stubbed", "stub_weight_quantizers left a discovered quantizer in place")
        sim.check(same_meta(q.quant_metadata, s["meta"]), "metadata", f"{q.quant_metadata} != {s['meta']}")
        sim.probe("stub_only")
    skip = {id(s["m"]) for s in sites}
    names = [f"{n}.{attr}_quantizer" if n else f"{attr}_quantizer" for n, m in model.named_modules(remove_duplicate=False) if id(m) in skip]
    d = [x for x in models.diff(snap0, models.snapshot(model)) if not any(n in x for n in names)]
    sim.check(not d, "model-state", lambda: "stub_weight_quantizers: " + "; ".join(d[:3]))


def fuse(sim, ff, model, part, owners, attr, sites, disc, st, qdq, is_off, outputs, flags0, lowp, api):
    fuse_qdq_weights, find_weight_quantizers = api
    aq = f"{attr}_quantizer"
    kw = {} if disc is None else {"discovery": disc}
    for s in sites:
        s["off"] = is_off(s["q"])
        s["new"] = s["old"] if s["off"] else qdq(s["q"], s["w"])
    by_w = {}
    for s in sites:
        by_w.setdefault(wk(s["w"]), []).append(s)
    broken = any(s["new"] is None for s in sites)  # a quantizer that cannot quantize (no range yet)
    refused = any(len({vdig(s["new"]) for s in g}) > 1 for g in by_w.values() if all(s["new"] is not None for s in g))
    # A weight that some module uses without (the same) quantization changes that module's output when fused.
    visible = all(wk(getattr(m, attr)) not in by_w or any(s["m"] is m and s["new"] is not None for s in by_w[wk(getattr(m, attr))]) for m in owners)
    expect = {}
    for wid, g in by_w.items():
        if all(s["new"] is not None for s in g):
            expect[wid] = g[0]["new"]
    out0, snap0 = outputs(), models.snapshot(model)

    if st["listed"]:
        got = find_weight_quantizers(part, **kw)
        want = [(id(s["m"]), attr, id(s["q"])) for s in sites]
        sim.check(sorted((id(m), n, id(q)) for m, n, q in got) == sorted(want), "targets",
                  f"the fuse targets are {len(got)} of the expected {len(want)} weight quantizers")

    def attempt(fault, tag):
        calls = [0]
        handles = []
        if fault and "call" in fault:
            def fail(ctx, fn, args, kw):
                calls[0] += 1
                if calls[0] > fault["call"]:
                    raise_fault(sim, fault["kind"])
                return fn(*args, **kw)
            for q in {id(s["q"]): s["q"] for s in sites}.values():
                handles.append(q.register_override(fail))

        def go():
            with maybe_op_fault(sim, fault if fault and "call" not in fault else None) as mode:
                try:
                    fuse_qdq_weights(part, stub_quantizers=st["stub"], **kw)
                finally:
                    count[0] = mode.count if mode else 0
        before = {id(p): vdig(p) for p in model.parameters()}
        sites0 = [getattr(m, aq) for m in owners]
        _, exc = catch(go)
        for h in handles:
            h.remove()
        sim.check(public_flags() == flags0, "modes", f"fuse ({tag}): {public_flags()} != {flags0}")
        for p in model.parameters():
            now = vdig(p)
            k = wk(p)
            if k in by_w:
                ok = now == before[id(p)] or (k in expect and not refused and now == vdig(expect[k]))
                sim.check(ok, "value", lambda: f"fuse ({tag}, {exc!r:.80}): a weight is {p.data}, expected {expect.get(k)} or {by_w[k][0]['old']}")
            else:
                sim.check(now == before[id(p)], "untouched", lambda: f"fuse ({tag}): a parameter of shape {tuple(p.shape)} without weight quantizer was changed")
        for m, q0 in zip(owners, sites0):
            q = getattr(m, aq)
            if q is q0:
                continue
            s = next((s for s in sites if s["m"] is m), None)
            sim.check(st["stub"] and s is not None and not s["off"] and isinstance(q, ff.nn.QuantizerStub), "quantizer-untouched",
                      f"fuse ({tag}): a weight quantizer was replaced by {type(q).__name__}")
            sim.check(same_meta(q.quant_metadata, s["meta"]), "metadata", f"{q.quant_metadata} != {s['meta']}")
            sim.check(s["new"] is not None and vdig(getattr(m, attr)) == vdig(s["new"]), "stub-unfused", f"fuse ({tag}, {exc!r:.80}): a quantizer was replaced by a stub but its weight is not fused")
        snap1 = models.snapshot(model)
        d = [x for x in models.diff(snap0, snap1) if aq not in x and not (x.startswith("param") and f".{attr}:" in x) and f"param {attr}:" not in x]
        sim.check(not d, "model-state", lambda: f"fuse ({tag}): " + "; ".join(d[:3]))
        ids = [x for x in models.diff({k: v[1:] for k, v in snap0.items() if k.startswith("param")}, {k: v[1:] for k, v in snap1.items() if k.startswith("param")})
               if aq not in x]
        sim.check(not ids, "model-state", lambda: f"fuse ({tag}): " + "; ".join(ids[:3]))
        if exc is not None and not is_injected(exc):
            sim.check(broken or refused, "unexpected-error", lambda: f"fuse ({tag}): {type(exc).__name__}: {exc}")
        if refused and not broken:
            sim.check(exc is not None, "accepted", f"fuse ({tag}): tied weights with quantizers that disagree were fused")
        if refused and exc is not None and not broken:
            d = models.diff(snap0, snap1)
            sim.check(not d, "refused-changed", lambda: f"fuse ({tag}): refused, but {d[:2]}")
            sim.probe("refused")
        return exc

    count = [0]
    fault = st["fault"]
    if fault and "call" not in fault:
        n = max(1, len(sites)) * 4
        fault = {"kind": fault["kind"], "at": int(fault["frac"] * n) if "frac" in fault else max(0, n - fault["back"])}
    exc = attempt(fault, "first")
    if exc is not None and is_injected(exc):
        sim.probe("interrupted")
        if visible and not broken and not lowp:
            o = outputs()
            sim.check(o == out0, "output-partial", f"after an interrupted fuse the model returns {o}, before it returned {out0}")
        if lowp and not st["stub"]:
            return  # quantizing twice is not idempotent at this precision
        exc = attempt(None, "repeated")
    if exc is not None:
        sim.probe("failed" if broken else "refused_run")
        return
    for s in sites:
        sim.check(vdig(s["w"]) == vdig(expect[wk(s["w"])]), "not-fused", lambda: f"after the fuse a weight with an active quantizer is {s['w'].data}, expected {expect[wk(s['w'])]}")
        if st["stub"] and not s["off"] and vdig(s["new"]) is not None:
            q = getattr(s["m"], aq)
            sim.check(q.is_stub(), "not-stubbed", "a weight was fused, but its quantizer was not replaced by a stub")
        sim.probe("disabled_site" if s["off"] else "fused")
    if visible and (st["stub"] or not lowp):
        o = outputs()
        sim.check(o == out0, "output", f"the fused model returns {o}, before it returned {out0}")
        sim.probe("compared")
