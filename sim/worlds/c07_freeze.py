"""C07: freezing parameters rewrites only what ran and leaves nothing behind."""

from __future__ import annotations

import contextlib

import torch

from sim import models
from sim.core import Sim, Violation, catch, is_injected, maybe_op_fault, public_flags, raise_fault, SimError, tdigest

PROPERTY = "C07"
CONFIGS = {"plain": {"faults": False}, "faults": {"faults": True}}
PLAN = {"quick": 700, "quick_s": 90, "thorough": 11000, "thorough_s": 780, "det": 6}
RULE = ("History of freeze scopes over parts of networks with data dependent branches, shared modules and quantizers and disabled quantizers, with (failing) forward "
        "passes inside; parameters, quantizers and outputs are compared bit for bit with a twin that quantizes on the fly.")
REAL = ["fastforward.quantization.freeze", "fastforward.forward_override", "fastforward.overrides", "fastforward.nn"]
STUB = []
STATE_MEASURE = "hash of (frozen parameters, stubbed quantizers, disabled quantizers)"


def generate(rng, cfg):
    spec = models.gen_model(rng, gate=True, n=(1, 4), plain=0.08)
    ops = []
    for _ in range(rng.randint(2, 6)):
        r = rng.random()
        if r < 0.5:
            body = []
            for _ in range(rng.randint(1, 3)):
                f = None
                if cfg["faults"] and rng.random() < 0.5:
                    f = {"kind": rng.choice(["oom", "interrupt", "error"]), "at": rng.randint(0, 50)}
                    if f["kind"] == "error":
                        f["where"] = "probe"
                body.append({"x": rng.randint(0, 99), "part": rng.randint(0, 12), "fault": f,
                             "disable": rng.random() < 0.12})
            ops.append({"op": "freeze", "parts": [rng.randint(0, 9) for _ in range(rng.randint(1, 2))], "remove": rng.random() < 0.7, "default": rng.random() < 0.3,
                        "body": body, "fault": {"kind": rng.choice(["error", "interrupt"])} if cfg["faults"] and rng.random() < 0.3 else None,
                        "bad": cfg["faults"] and rng.random() < 0.08})
        elif r < 0.65:
            ops.append({"op": "switch", "i": rng.randint(0, 20), "on": rng.random() < 0.6})
        elif r < 0.75:
            ops.append({"op": "update", "i": rng.randint(0, 20), "seed": rng.randint(0, 999)})
        else:
            ops.append({"op": "run", "x": rng.randint(0, 99)})
    dtype = rng.choice(["float32", "float32", "float64", "bfloat16"])
    if dtype == "bfloat16" or "'dyn'" in str(spec):  # requantizing is not idempotent at this precision, or with ranges taken from the data
        for o in ops:
            o["remove"] = True
    return {"model": spec, "sharew": [[rng.randint(0, 5), rng.randint(0, 5)] for _ in range(rng.randint(0, 2))],
            "dtype": dtype, "ops": ops, "strict": rng.random() < 0.5, "borrow": rng.choice([None, None, None, [rng.choice(["pt", "pc"]), rng.random() < 0.5]])}


class Plain(torch.nn.Module):
    """Holds a parameter, but no quantizer."""

    def __init__(self, w) -> None:
        super().__init__()
        self.weight = torch.nn.Parameter(w)


def make_borrow(inner, how):
    """Network followed by a module whose quantizer is applied to a parameter that its child owns, passed by keyword."""
    import fastforward as ff

    class Borrow(ff.nn.QuantizedModule):
        def __init__(self) -> None:
            super().__init__()
            self.inner, self.lin = inner, Plain(torch.randn(4, 4, generator=torch.Generator().manual_seed(7)))
            self.__init_quantization__()

        def __init_quantization__(self) -> None:
            super().__init_quantization__()
            self.weight_quantizer = ff.nn.QuantizerStub(weight_quantizer=True)

        def forward(self, x):
            x = models.deq(self.inner(x))
            w = self.weight_quantizer(data=self.lin.weight) if how[1] else self.weight_quantizer(self.lin.weight)
            return x @ models.deq(w)

    m = Borrow()
    m.weight_quantizer = models.make_quantizer({"t": "lin", "b": 4, "sym": True, "one": True, "g": how[0], "lo": -1.0, "hi": 1.0})
    return m


def build(sc):
    import fastforward as ff

    m = models.build_model(sc["model"])
    lins = [x for x in m.modules() if isinstance(x, ff.nn.QuantizedLinear)]
    for a, b in sc["sharew"]:
        x, y = lins[a % len(lins)], lins[b % len(lins)]
        if x is not y and not x.weight_quantizer.is_stub() and not y.weight_quantizer.is_stub():
            y.weight_quantizer = x.weight_quantizer
    if sc.get("borrow"):
        m = make_borrow(m, sc["borrow"])
    return m.to(getattr(torch, sc["dtype"]))


def vdig(t):
    """Exact digest of the value; the sign of a zero is not part of it (requantizing may change it)."""
    return ("Q" if t.__class__.__name__ == "QuantizedTensor" else "") + tdigest(models.deq(t).detach() + 0.0)


def same_meta(a, b):
    return a is b or (a is not None and b is not None and a.is_extension(b) and b.is_extension(a))


def execute(sim: Sim, sc):
    import fastforward as ff

    model, twin = build(sc), build(sc)
    dt = getattr(torch, sc["dtype"])
    parts = [model] + [m for m in model.modules() if m is not model and models.active_quantizers(m)]
    runnable = [m for m in parts if not isinstance(m, torch.nn.ModuleList) and not isinstance(m, ff.nn.Quantizer)]
    tmods = dict(twin.named_modules(remove_duplicate=False))
    names = {}
    for n, m in model.named_modules(remove_duplicate=False):
        names.setdefault(id(m), n)
    sites = []  # (module, twin module, slot) of every quantizer that was present
    for n, m in model.named_modules():
        if isinstance(m, ff.nn.Quantizer):
            continue
        for slot, c in list(m._modules.items()):
            if isinstance(c, ff.nn.Quantizer) and not c.is_stub():
                sites.append({"m": m, "t": tmods[n], "slot": slot, "q": c, "tq": tmods[n]._modules[slot], "meta": c.quant_metadata})
    tq_of = {id(s["q"]): s["tq"] for s in sites}
    tparam = {id(p): t for (n, p), (_, t) in zip(model.named_parameters(), twin.named_parameters())}
    switches = {}
    ff.set_strict_quantization(sc["strict"])
    flags0 = public_flags()

    def batch(seed):
        return models.batch(seed).to(dt)

    def forward(m, x):
        with torch.no_grad(), ff.strict_quantization(False):
            return vdig(m(x))

    def stubbed(s):
        return s["m"]._modules[s["slot"]] is not s["q"]

    def is_off(q):
        return switches.get(id(q), (None, False))[1]

    frozen = {}  # id(param) -> param

    def check_outputs(what):
        for seed in (3, 4, 5):
            a, b = forward(model, batch(seed)), forward(twin, batch(seed))
            sim.check(a == b, "output", f"{what}: the frozen model returns {a}, quantizing on the fly returned {b}")

    def overrides():
        return {i: [id(o) for o in s["q"].overrides] for i, s in enumerate(sites)}

    for st in sc["ops"]:
        sim.tick()
        op = st["op"]
        if op == "switch":
            s = sites[st["i"] % len(sites)]
            if stubbed(s) or any(z["q"] is s["q"] and stubbed(z) for z in sites):
                continue  # switching a removed quantizer off would make the twin differ by definition
            q, t = s["q"], s["tq"]
            # a frozen parameter stays frozen: only switch quantizers whose parameters were not rewritten
            if any(id(p) in frozen for z in sites if z["q"] is q for p in [*z["m"].parameters(recurse=False), *(z["m"].lin.parameters() if hasattr(z["m"], "lin") else ())]):
                continue
            if id(q) not in switches:
                sw, tw = ff.overrides.DisableQuantizationOverride(), ff.overrides.DisableQuantizationOverride()
                sw.attach_to(q)
                tw.attach_to(t)
                switches[id(q)] = ([sw, tw], False)
            pair, _ = switches[id(q)]
            for w in pair:
                w.enable_quantization(not st["on"])
            switches[id(q)] = (pair, st["on"])
            check_outputs("switch")
        elif op == "update":
            # the user trains on: parameters that are still quantized on the fly change
            lins = [(a, tmods[n]) for n, a in model.named_modules() if isinstance(a, ff.nn.QuantizedLinear)]
            a, b = lins[st["i"] % len(lins)]
            if id(a.weight) in frozen:
                continue
            with torch.no_grad():
                d = (torch.randn(4, 4, generator=torch.Generator().manual_seed(st["seed"])) * 0.5).to(dt)
                a.weight.copy_(d)
                b.weight.copy_(d)
            check_outputs("update")
        elif op == "run":
            a, b = forward(model, batch(st["x"])), forward(twin, batch(st["x"]))
            sim.check(a == b, "output", f"run: {a} != {b}")
        else:
            targets = [parts[i % len(parts)] if i > 3 else model for i in st["parts"]]
            targets = list({id(t): t for t in targets}.values())
            inside = set()
            for t in targets:
                for m in t.modules():
                    inside.add(id(m))
            if any(s["q"] is z["q"] and id(s["m"]) in inside and id(z["m"]) not in inside for s in sites for z in sites):
                sim.probe("skipped_shared_across_boundary")
                continue
            p0 = {id(p): (p, vdig(p), p.detach().clone()) for p in model.parameters()}
            snap0 = models.snapshot(model)
            ov0 = overrides()
            stub0 = {i: stubbed(s) for i, s in enumerate(sites)}
            reached = []  # (site quantizer, parameter, completed)
            scope_disabled = [False]
            handles = []

            def rec(ctx, fn, args, kw):
                data = kw["data"] if "data" in kw else args[0]
                e = {"q": ctx, "p": data, "done": False, "param": isinstance(data, torch.nn.Parameter),
                     "on": not scope_disabled[0] and not is_off(ctx)}
                reached.append(e)
                out = fn(*args, **kw)
                e["done"] = True
                return out

            arg = targets if len(targets) > 1 or st["parts"][0] % 2 else targets[0]
            if st.get("bad"):
                arg = [*targets, "not a module"]

            def body():
                for b in st["body"]:
                    m = runnable[b["part"] % len(runnable)] if b["part"] > 6 else model
                    f = b.get("fault")
                    if f and f.get("where") == "probe":
                        cnt = [0]

                        def cb(tag, d):
                            cnt[0] += 1
                            if cnt[0] > f["at"] % 4:
                                raise_fault(sim, "error")

                        for p in models.probes(model):
                            p.cb = cb

                    def go():
                        with contextlib.ExitStack() as es:
                            if b["disable"]:
                                scope_disabled[0] = True
                                es.enter_context(ff.disable_quantization(model))
                                es.callback(lambda: scope_disabled.__setitem__(0, False))
                            with torch.no_grad(), maybe_op_fault(sim, f):
                                m(batch(b["x"]))

                    _, exc = catch(go)
                    for p in models.probes(model):
                        p.cb = None
                    if exc is not None and not is_injected(exc):
                        raise Violation("unexpected-error", f"forward while freezing: {type(exc).__name__}: {exc}") from exc
                    sim.probe("forward_failed" if exc else "forward_ok")
                if st.get("fault"):
                    raise_fault(sim, st["fault"]["kind"])

            kw = {} if st["remove"] and st.get("default") else {"remove_quantizers": st["remove"]}

            def scope():
                with ff.quantization.freeze_parameters(arg, **kw):
                    seen = set()
                    for s in sites:
                        if id(s["q"]) not in seen:
                            seen.add(id(s["q"]))
                            handles.append(s["q"].register_override(rec))
                    sim.check(ff.get_strict_quantization() is False, "mode-inside", "strict quantization is on inside the freeze scope")
                    body()

            _, exc = catch(scope)
            for h in handles:
                h.remove()
            if st.get("bad"):
                sim.check(exc is not None, "bad-accepted", "freezing something that is not a module was accepted")
                sim.fault("bad_argument")
            elif exc is not None and not is_injected(exc):
                raise Violation("unexpected-error", f"freeze: {type(exc).__name__}: {exc}") from exc
            sim.check(public_flags() == flags0, "modes", f"{public_flags()} != {flags0}")
            sim.check(overrides() == ov0, "overrides", f"overrides after the freeze scope: {overrides()}, before {ov0}")

            # which parameters had to be frozen
            must, may = {}, {}
            for e in reached:
                owner = [s for s in sites if s["q"] is e["q"] and id(s["m"]) in inside]
                if not e["param"] or not owner or not e["on"]:
                    continue
                (must if e["done"] else may)[id(e["p"])] = e
            for pid, (p, dg, old) in p0.items():
                now = vdig(p)
                if pid in must or pid in may:
                    e = must.get(pid) or may.get(pid)
                    tq = tq_of[id(e["q"])]
                    with torch.no_grad(), ff.strict_quantization(False):
                        want = models.deq(tq.quantize(old)).to(old.dtype)
                    ok = now == vdig(want) or (pid not in must and now == dg)
                    sim.check(ok, "value", lambda: f"a parameter that reached an enabled quantizer is {p.data}, expected {want}")
                    if now == vdig(want):
                        frozen[pid] = p
                        sim.probe("frozen")
                else:
                    sim.check(now == dg, "untouched", f"parameter of shape {tuple(p.shape)} was changed although it did not reach an enabled quantizer in the scope")
            for i, s in enumerate(sites):
                cur = s["m"]._modules[s["slot"]]
                if stub0[i]:
                    continue
                pids = [id(p) for p in s["m"].parameters(recurse=False)]
                hit = [e for e in reached if e["q"] is s["q"] and e["param"] and e["on"] and id(s["m"]) in inside
                       and (id(e["p"]) in pids or not any(z is not s and z["q"] is s["q"] for z in sites))]
                if cur is not s["q"]:
                    sim.check(bool(hit) and st["remove"], "quantizer-untouched", f"quantizer {s['slot']} was replaced although it froze nothing")
                    sim.check(isinstance(cur, ff.nn.QuantizerStub), "stub", f"replaced by {type(cur).__name__}")
                    sim.check(same_meta(cur.quant_metadata, s["meta"]), "metadata", f"{cur.quant_metadata} != {s['meta']}")
                    sim.probe("stubbed")
                elif st["remove"] and any(e["done"] for e in hit):
                    raise Violation("not-removed", f"quantizer {s['slot']} froze a parameter but was not replaced by a stub")
            snap1 = models.snapshot(model)
            skip = {n for n in snap0 if n.startswith(("param", "buffer"))} | {n for n in snap1 if n.startswith(("param", "buffer"))}
            gone = {id(s["q"]) for i, s in enumerate(sites) if stubbed(s)}
            d = [x for x in models.diff({k: v for k, v in snap0.items() if k not in skip}, {k: v for k, v in snap1.items() if k not in skip})
                 if "_quantizer" not in x]
            sim.check(not d, "model-state", "; ".join(d[:3]))
            check_outputs("after a freeze scope")
            p1 = {n: tdigest(p) for n, p in model.named_parameters()}
            catch(lambda: forward(model, batch(9)))
            sim.check(p1 == {n: tdigest(p) for n, p in model.named_parameters()}, "later-pass", "a forward pass after the freeze scope modified a parameter")
            sim.state(len(frozen), [stubbed(s) for s in sites], [is_off(s["q"]) for s in sites])
        sim.ops_done += 1
        sim.event(op, forward(model, batch(3)), len(frozen))
