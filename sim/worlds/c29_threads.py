"""C29: a quantized model can be run from several threads at once."""

from __future__ import annotations

import torch

from sim import models
from sim.baton import Baton
from sim.core import Sim, catch, is_injected, op_faults, public_flags, raise_fault, tdigest

PROPERTY = "C29"
CONFIGS = {"plain": {"faults": False}, "faults": {"faults": True}}
PLAN = {"quick": 900, "quick_s": 90, "thorough": 6000, "thorough_s": 780, "det": 8}
RULE = ("Two or three threads that run forward (and gradient) passes of models that share modules and quantizers; a seeded schedule switches threads at any line or bytecode instruction (at random times, and at lines drawn from those that run) "
        "of the library, and some calls fail; every call is compared bit for bit with the same call made alone.")
REAL = ["fastforward (forward passes of quantized modules, overrides, dispatcher, operators, quantized tensors)", "threads of the interpreter"]
STUB = ["the choice which thread runs (simulated scheduler)", "user overrides and kernels (simulator-owned)"]
STATE_MEASURE = "hash of the switch points (thread, line) of the interleaving"

FUNCS = ["linear", "relu", "add", "softmax", "matmul", "cat", "layer_norm", "reshape", "sdpa", "sdpa"]


def generate(rng, cfg):
    n = rng.randint(1, 2)
    specs = [models.gen_model(rng, n=(1, 3), depth=1, gate=rng.random() < 0.3, plain=0.1, tie=True) for _ in range(n)]
    threads = []
    pfunc = rng.choice([0.2, 0.2, 0.9])
    funcs = rng.sample(FUNCS, rng.choice([1, 2]))
    for _ in range(rng.choice([2, 2, 3])):
        calls = []
        for _ in range(rng.randint(1, 3)):
            r = rng.random()
            f = None
            if cfg["faults"] and rng.random() < 0.4:
                f = {"kind": rng.choice(["oom", "interrupt"]), "frac": rng.random()}
            if r > pfunc:
                calls.append({"t": "model", "m": rng.randrange(n), "x": rng.randint(0, 5), "grad": rng.random() < 0.3, "fault": f})
            else:
                calls.append({"t": "func", "f": rng.choice(funcs), "x": rng.randint(0, 5), "q": rng.randint(0, 9), "s": rng.choice([None, False, False, True]), "fault": f})
        threads.append(calls)
    # where the running thread is switched, as a part of all points of the run; some switches come in quick succession
    sched = []
    for _ in range(rng.choice([1, 2, 4, 10, 30, 100])):
        sched.append([round(rng.random(), 5), [rng.choice([1, 3, 10, 30, 100]) for _ in range(rng.choice([0, 0, 1, 2, 5]))], rng.randint(0, 1)])
    return {"models": specs, "share": [[rng.randint(0, 9), rng.randint(0, 9)] for _ in range(rng.randint(0, 2))], "threads": threads, "sched": sched if rng.random() < 0.5 else [],
            "lines": [[round(rng.random(), 4), round(rng.random() ** 2, 4), rng.randint(0, 1)] for _ in range(rng.choice([1, 3, 10, 20]))] if rng.random() < 0.6 else [], "opcodes": rng.random() < 0.4,
            "overrides": [{"q": rng.randint(0, 9), "k": rng.choice(["double", "pass", "skip", "fail"] if cfg["faults"] else ["double", "pass", "skip"])} for _ in range(rng.choice([0, 0, 1, 2, 3]))],
            "off": [{"q": rng.randint(0, 9), "n": rng.randint(1, 3), "on": rng.random() < 0.4} for _ in range(rng.choice([0, 0, 1, 2]))],
            "kernel": rng.choice([None, None, "relu", "add", "linear"]), "strict": rng.random() < (0.6 if pfunc > 0.5 else 0.25)}


def execute(sim: Sim, sc):
    import fastforward as ff

    from fastforward.overrides import DisableQuantizationOverride

    mods = [models.build_model(s) for s in sc["models"]]
    if len(mods) > 1:
        lins = [[m for m in x.modules() if isinstance(m, ff.nn.QuantizedLinear)] for x in mods]
        for a, b in sc["share"]:
            x, y = lins[0][a % len(lins[0])], lins[1][b % len(lins[1])]
            y.weight_quantizer, y.output_quantizer = x.weight_quantizer, x.output_quantizer
    quants = []
    for m in mods:
        for q in models.quantizers(m).values():
            if not q.is_stub() and q not in quants:
                quants.append(q)
    for p in [p for m in mods for p in m.parameters()]:
        p.requires_grad_(False)

    def override(kind):
        def fn(ctx, f, args, kw):
            if kind == "fail" and float(models.deq(args[0]).sum()) > 0.5:
                raise_fault(sim, "error")
            if kind == "skip":
                return models.deq(args[0]) * 0.5
            y = f(*args, **kw)
            return f(models.deq(y) * 2) if kind == "double" else y

        return fn

    for o in sc["overrides"]:
        quants[o["q"] % len(quants)].register_override(override(o["k"]))
    for o in sc["off"]:
        d = DisableQuantizationOverride()
        i = o["q"] % len(quants)
        for q in quants[i:i + o["n"]]:
            q.register_override(d)
        d.enable_quantization(o["on"])
    if sc["kernel"]:
        base = {"relu": lambda input, **kw: torch.relu(models.deq(input)) + 1, "add": lambda input, other, **kw: models.deq(input) + models.deq(other) + 1,
                "linear": lambda input, weight, bias=None, **kw: torch.nn.functional.linear(models.deq(input), models.deq(weight)) * 2}[sc["kernel"]]
        from fastforward import dispatcher

        scope = dispatcher.register(sc["kernel"], dispatcher.Predicate(lambda *a, **k: k.get("strict_quantization") is not True and float(models.deq(a[0] if a else k["input"]).sum()) > 0), base)
    else:
        scope = None
    flags0 = public_flags()
    tensorwise = [q for q in quants if isinstance(getattr(q, "granularity", None), ff.PerTensor)]

    def call(c):
        if c["t"] == "model":
            x = models.batch(c["x"])
            if not c["grad"]:
                with torch.no_grad():
                    return tdigest(mods[c["m"]](x))
            x.requires_grad_(True)
            y = models.deq(mods[c["m"]](x))
            if not y.requires_grad:
                return tdigest(y)
            (g,) = torch.autograd.grad(y.sum(), x, allow_unused=True)
            return tdigest(y) + "|" + tdigest(g)
        F = ff.nn.functional
        q = quants[c["q"] % len(quants)]
        with torch.no_grad():
            x = models.batch(c["x"], n=4)
            if hasattr(q, "granularity") and isinstance(q.granularity, ff.PerTensor):
                x = q(x)
            f = c["f"]
            if f == "linear":
                y = F.linear(x, models.batch(7, n=4), output_quantizer=None)
            elif f == "add":
                y = F.add(x, x, strict_quantization=c["s"])
            elif f == "matmul":
                y = F.matmul(x, models.batch(3, n=4), strict_quantization=False)
            elif f == "softmax":
                y = F.softmax(x, dim=-1)
            elif f == "cat":
                y = torch.cat([x, x])
            elif f == "layer_norm":
                y = F.layer_norm(x, (4,), strict_quantization=False)
            elif f == "sdpa":
                k = models.batch(c["x"] + 1, n=4)
                if c["q"] % 2:
                    x, k = models.deq(x), models.deq(k)
                outs = {n: qs for n, qs in zip(["attn_scores_quantizer", "attn_weights_quantizer", "output_quantizer"], tensorwise)} if c["q"] % 4 else {}
                y = F.scaled_dot_product_attention(x, x, k, is_causal=c["q"] % 5 == 0, strict_quantization=c["s"], **outs)
            elif f == "reshape":
                y = x.reshape(2, 8)
            else:
                y = F.relu(x)
        return tdigest(y)

    def guarded(c, fault, sim=sim):
        if fault is None:
            return catch(lambda: call(c))
        with op_faults(sim, fault["at"], fault["kind"]) as m:
            r = catch(lambda: call(c))
        if fault["at"] is None:
            fault["count"] = m.count
        return r

    try:
        with ff.strict_quantization(sc["strict"]):
            # what each call gives when made alone, with the same fault
            expect, faults = [], []
            quiet = Sim()
            total = 0
            counts = {}
            for calls in sc["threads"]:
                row = []
                frow = []
                for c in calls:
                    f = c["fault"]
                    if f is not None:
                        probe = {"at": None, "kind": f["kind"]}
                        guarded(c, probe, quiet)
                        f = {"at": int(f["frac"] * max(probe["count"], 1)), "kind": f["kind"]}
                    solo = Baton(quiet, [], sc["opcodes"])
                    box = []
                    solo.run([lambda: box.append(guarded(c, f, quiet))])
                    (r,) = box
                    total += solo.points
                    for line, n in solo.seen.items():
                        counts[line] = counts.get(line, 0) + n
                    row.append(r)
                    frow.append(f)
                expect.append(row)
                faults.append(frow)
            snaps = [models.snapshot(m) for m in mods]
            got = [[None] * len(c) for c in sc["threads"]]
            gaps, pos = [], 0
            for frac, burst, pick in sorted(sc["sched"]):
                at = int(frac * total)
                gaps.append([max(at - pos, 1), pick])
                pos = max(at, pos + 1)
                for g in burst:
                    gaps.append([g, pick])
                    pos += g
            known = sorted(counts)
            lines = []
            for a, b, pick in sc.get("lines", ()) if known else ():
                line = known[min(int(a * len(known)), len(known) - 1)]
                lines.append([line, 1 + min(int(b * counts[line]), counts[line] - 1), pick])
            baton = Baton(sim, gaps, sc["opcodes"], lines)

            def body(i):
                def run():
                    for j, c in enumerate(sc["threads"][i]):
                        got[i][j] = guarded(c, faults[i][j])
                        sim.event("t", i, j, got[i][j][0], type(got[i][j][1]).__name__)

                return run

            inner = public_flags()
            baton.run([body(i) for i in range(len(sc["threads"]))])
            sim.probe("switches", len(baton.switches))
            sim.probe("points", baton.points)
            if baton.forced:
                sim.probe("lock_waits", baton.forced)
            for i, calls in enumerate(sc["threads"]):
                for j, c in enumerate(calls):
                    (r, e), (r0, e0) = got[i][j], expect[i][j]
                    what = f"thread {i} call {j} {c['t']} {c.get('f', c.get('m'))}"
                    if e0 is None:
                        sim.check(e is None, "concurrent-error", lambda: f"{what}: {type(e).__name__}: {e}, alone it succeeds; switches {baton.switches[:6]}")
                        sim.check(r == r0, "concurrent-result", lambda: f"{what}: {r} instead of {r0}; switches {baton.switches[:6]}")
                        sim.probe("agreed")
                    else:
                        sim.check(type(e) is type(e0), "concurrent-error", lambda: f"{what}: {type(e).__name__}: {e} instead of {type(e0).__name__}: {e0}; switches {baton.switches[:6]}")
                        sim.probe("failed_alike" if is_injected(e0) else "refused_alike")
            sim.check(public_flags() == inner, "modes", f"{public_flags()} != {inner}; switches {baton.switches[:6]}")
            for m, s in zip(mods, snaps):
                d = models.diff(s, models.snapshot(m))
                sim.check(not d, "model-state", lambda: f"{d[:3]}")
            # and nothing lingers: every call still gives the same alone
            for i, calls in enumerate(sc["threads"]):
                for j, c in enumerate(calls):
                    if c["fault"] is None and expect[i][j][1] is None:
                        r, e = catch(lambda: call(c))
                        sim.check(e is None and r == expect[i][j][0], "afterwards", lambda: f"call {c}: {r} {e!r} instead of {expect[i][j][0]}")
            sim.state([(a, b, w) for a, b, w in baton.switches])
            sim.ops_done += sum(len(c) for c in sc["threads"])
    finally:
        if scope is not None:
            scope.remove() if hasattr(scope, "remove") else scope.__exit__(None, None, None)
    sim.check(public_flags() == flags0, "modes", f"{public_flags()} != {flags0}")
