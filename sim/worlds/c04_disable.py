"""C04: disabling and re-enabling quantization is exact and reversible."""

from __future__ import annotations

import torch

from sim import models
from sim.core import Sim, SimError, Violation, catch, is_injected, maybe_op_fault, public_flags, raise_fault, tdigest

PROPERTY = "C04"
CONFIGS = {"plain": {"faults": False}, "faults": {"faults": True}}
PLAN = {"quick": 450, "quick_s": 90, "thorough": 8000, "thorough_s": 780, "det": 6}
RULE = ("Random program of nested disable/enable scopes over the model or its parts, reusable switches, user overrides, quantizer replacement and (failing) forward "
        "passes; results are compared bit for bit with a twin model in which exactly the quantizers that should be disabled are replaced by an identity.")
REAL = ["fastforward.overrides", "fastforward.forward_override", "fastforward.nn (quantized modules, quantizers)", "fastforward.flags"]
STUB = []
STATE_MEASURE = "hash of (set of effectively disabled quantizers, open scopes, strictness)"


def _body(rng, cfg, depth):
    out = []
    for _ in range(rng.randint(1, 4)):
        r = rng.random()
        fault = {"kind": rng.choice(["error", "interrupt", "oom"])} if cfg["faults"] and rng.random() < 0.3 else None
        if depth > 0 and r < 0.22:
            out.append({"op": "disable", "part": rng.randint(0, 9), "style": rng.choice(["with", "with", "deco"]), "body": _body(rng, cfg, depth - 1), "fault": fault})
        elif depth > 0 and r < 0.38:
            out.append({"op": "enable", "part": rng.randint(0, 9), "body": _body(rng, cfg, depth - 1), "fault": fault})
        elif depth > 0 and r < 0.44:
            out.append({"op": "try", "body": _body(rng, cfg, depth - 1)})
        elif depth > 0 and r < 0.49:
            out.append({"op": "strict", "v": rng.random() < 0.4, "body": _body(rng, cfg, depth - 1), "fault": fault})
        elif depth > 0 and r < 0.56:
            out.append({"op": "swctx", "k": rng.randint(0, 2), "v": rng.random() < 0.5, "body": _body(rng, cfg, depth - 1), "fault": fault})
        elif r < 0.63:
            out.append({"op": "swset", "k": rng.randint(0, 2), "v": rng.random() < 0.5})
        elif r < 0.71:
            out.append({"op": "attach", "k": rng.randint(0, 2), "how": rng.choice(["one", "list", "coll"]), "i": rng.randint(0, 20)})
        elif r < 0.75:
            out.append({"op": "detach", "k": rng.randint(0, 2)})
        elif r < 0.79:
            out.append({"op": "user", "i": rng.randint(0, 20), "rm": rng.random() < 0.3})
        elif r < 0.83:
            out.append({"op": "swap", "i": rng.randint(0, 20), "slot": rng.choice(["input", "weight", "output"]), "q": models.gen_quantizer(rng, plain=0.2)})
        else:
            if fault:
                fault = {"kind": rng.choice(["oom", "interrupt", "error"]), "at": rng.randint(0, 25)}
                if fault["kind"] == "error":
                    fault["where"] = "probe"
            out.append({"op": "run", "x": rng.randint(0, 99), "fault": fault})
    return out


def generate(rng, cfg):
    return {"model": models.gen_model(rng, gate=True, n=(1, 4), uninit=0.05, plain=0.1), "ops": _body(rng, cfg, 4) + _body(rng, cfg, 4), "start": rng.random() < 0.3}


def execute(sim: Sim, sc):
    import fastforward as ff

    model, twin = models.build_model(sc["model"]), models.build_model(sc["model"])
    pair = {}  # id(real quantizer) -> (real, twin)
    sources = {}  # id(real) -> list of disabling sources present, each {"on": bool (disabling)}
    off = {}  # id(twin quantizer) -> disabled?
    keep = []

    def adopt(q, t):
        pair[id(q)] = (q, t)
        sources.setdefault(id(q), [])

        def ident(ctx, fn, args, kw, tid=id(t)):
            if off.get(tid):
                return kw["data"] if "data" in kw else args[0]
            return fn(*args, **kw)

        t.register_override(ident)
        keep.append((q, t))

    qs, ts = models.active_quantizers(model), models.active_quantizers(twin)
    for n in qs:
        adopt(qs[n], ts[n])
    parts = [model] + [m for m in model.modules() if m is not model and models.active_quantizers(m)]
    lins = [(a, b) for a, b in zip(model.modules(), twin.modules()) if isinstance(a, ff.nn.QuantizedLinear)]
    switches = [ff.overrides.DisableQuantizationOverride() for _ in range(3)]
    swstate = [{"on": True, "att": []} for _ in range(3)]  # on: disabling
    user_handles = []
    strict = [sc["start"]]
    ff.set_strict_quantization(sc["start"])
    x0 = torch.tensor([[0.3, -0.7, 1.2, 0.1]] * 4)

    registered = {k: [] for k in pair}  # id(real) -> list of override keys in order

    def live():
        return [q for q in models.active_quantizers(model).values()]

    def sync():
        for k, (q, t) in pair.items():
            off[id(t)] = any(s["on"] for s in sources[k])

    def check(what):
        sync()
        got = ff.get_strict_quantization()
        sim.check(got == strict[-1], "strictness", f"{what}: strict quantization {got}, expected {strict[-1]}")
        for k, (q, t) in pair.items():
            n = len(list(q.overrides))
            want = len(registered[k])
            sim.check(n == want, "overrides", f"{what}: {n} overrides on a quantizer, expected {want}")
            if not off[id(t)] and getattr(q, "has_uninitialized_params", False):
                continue
            with torch.no_grad():
                y = q(x0) if len(registered[k]) % 2 else q(data=x0)
            if off[id(t)]:
                sim.check(y is x0, "passes-untouched", f"{what}: a disabled quantizer altered its input")
                sim.probe("disabled_call")
            else:
                sim.check(isinstance(y, ff.QuantizedTensor) or (isinstance(q, models.PlainQuantizer) and y is not x0), "quantizes", f"{what}: an enabled quantizer returned {type(y).__name__}")
                sim.probe("enabled_call")
        for i, s in enumerate(switches):
            sim.check(s.quantization_enabled == (not swstate[i]["on"]), "switch", f"{what}: switch {i} enabled={s.quantization_enabled}")
        sim.state(sorted(off.values()), len(strict), strict[-1])

    def forward(m, x):
        try:
            with torch.no_grad():
                return tdigest(m(x))
        except Exception as e:  # noqa: BLE001
            if is_injected(e):
                raise
            return f"{type(e).__name__}"

    def end(st):
        if st.get("fault"):
            raise_fault(sim, st["fault"]["kind"])

    def part(i):
        return parts[i % len(parts)] if i > 3 else model

    def run(body):
        for st in body:
            sim.tick()
            op = st["op"]
            if op == "disable":
                p = part(st["part"])
                targets = list({id(q): q for q in models.active_quantizers(p).values()}.values())
                srcs = [(id(q), {"on": True}) for q in targets]

                def inner():
                    for k, s in srcs:
                        sources[k].append(s)
                        registered[k].append(s)
                    strict.append(False)
                    check("disable scope opened")
                    run(st["body"])
                    end(st)

                depth = len(strict)
                try:
                    if st["style"] == "with":
                        with ff.disable_quantization(p):
                            inner()
                    else:
                        ff.disable_quantization(p)(inner)()
                finally:
                    for k, s in srcs:
                        sources[k] = [z for z in sources[k] if z is not s]
                        registered[k] = [z for z in registered[k] if z is not s]
                    del strict[depth:]
                    check("disable scope ended")
            elif op == "enable":
                p = part(st["part"])
                ids = {id(q) for q in models.active_quantizers(p).values()}
                # a switch shared with quantizers outside this part is ambiguous: not exercised
                span = any(any(s is w for s in sources[k]) for w in swstate for k in ids) and any(
                    any(s is w for s in sources[k]) and any(any(s is w for s in sources[j]) for j in sources if j not in ids)
                    for w in swstate for k in ids)
                if span:
                    sim.probe("skipped_span")
                    continue
                srcs = []
                for k in ids:
                    for s in sources[k]:
                        if not any(s is z for z, _ in srcs):
                            srcs.append((s, s["on"]))
                try:
                    with ff.enable_quantization(p):
                        for s, _ in srcs:
                            s["on"] = False
                        if any(o for _, o in srcs):
                            sim.probe("enable_effective")
                        check("enable scope opened")
                        run(st["body"])
                        end(st)
                finally:
                    for s, o in srcs:
                        s["on"] = o
                    check("enable scope ended")
            elif op == "strict":
                depth = len(strict)
                try:
                    with ff.strict_quantization(st["v"]):
                        strict.append(st["v"])
                        run(st["body"])
                        end(st)
                finally:
                    del strict[depth:]
                    check("strict scope ended")
            elif op == "try":
                try:
                    run(st["body"])
                except BaseException as e:  # noqa: BLE001
                    if not is_injected(e):
                        raise
                    sim.probe("caught")
                    check("caught")
            elif op == "swctx":
                w = swstate[st["k"]]
                old = w["on"]
                sw = switches[st["k"]]
                try:
                    with (sw.enable_quantization() if st["v"] else sw.disable_quantization()):
                        w["on"] = not st["v"]
                        check("switch scope")
                        run(st["body"])
                        end(st)
                finally:
                    w["on"] = old
                    check("switch scope ended")
            elif op == "swset":
                swstate[st["k"]]["on"] = not st["v"]
                switches[st["k"]].enable_quantization(st["v"])
                check("switch set")
            elif op == "attach":
                w = swstate[st["k"]]
                lv = live()
                if not lv:
                    continue
                if st["how"] == "one":
                    tg = [lv[st["i"] % len(lv)]]
                    switches[st["k"]].attach_to(tg[0])
                elif st["how"] == "list":
                    tg = lv[st["i"] % len(lv):][:2]
                    switches[st["k"]].attach_to(tg)
                else:
                    coll = ff.find_quantizers(model, "**")
                    tg = [m for m in coll.modules() if not m.is_stub()]
                    switches[st["k"]].attach_to(coll)
                for q in tg:
                    sources[id(q)].append(w)
                    registered[id(q)].append(w)
                    w["att"].append(id(q))
                check("switch attached")
            elif op == "detach":
                w = swstate[st["k"]]
                switches[st["k"]].detach()
                w["att"] = []
                for k in sources:
                    sources[k] = [s for s in sources[k] if s is not w]
                    registered[k] = [s for s in registered[k] if s is not w]
                check("switch detached")
            elif op == "user":
                if st["rm"] and user_handles:
                    h, k, tok = user_handles.pop(st["i"] % len(user_handles))
                    h.remove()
                    registered[k] = [s for s in registered[k] if s is not tok]
                else:
                    lv = live()
                    if not lv:
                        continue
                    q = lv[st["i"] % len(lv)]
                    tok = {"user": True}
                    h = q.register_override((lambda c, f, a, kw: f(data=a[0] if a else kw["data"])) if st["i"] % 2 else (lambda c, f, a, kw: f(*a, **kw)))
                    registered[id(q)].append(tok)
                    user_handles.append((h, id(q), tok))
                check("user override")
            elif op == "swap":
                if not lins:
                    continue
                a, b = lins[st["i"] % len(lins)]
                q, t = models.make_quantizer(st["q"]), models.make_quantizer(st["q"])
                setattr(a, f"{st['slot']}_quantizer", q)
                setattr(b, f"{st['slot']}_quantizer", t)
                registered[id(q)] = []
                adopt(q, t)
                check("swap")
                sim.probe("swap")
            else:  # run
                x = models.batch(st["x"])
                fault = st.get("fault")
                sync()
                want = forward(twin, x)
                if fault and fault.get("where") == "probe":
                    cnt = [0]

                    def cb(tag, d):
                        if cnt[0] == fault["at"] % 3:
                            raise_fault(sim, "error")
                        cnt[0] += 1

                    for p in models.probes(model):
                        p.cb = cb
                try:
                    with maybe_op_fault(sim, fault):
                        got = forward(model, x)
                except BaseException as e:  # noqa: BLE001
                    if not is_injected(e):
                        raise
                    check("failed forward")
                    raise
                finally:
                    for p in models.probes(model):
                        p.cb = None
                sim.check(got == want, "result", f"model returned {got}, reference {want}, disabled {sorted(off.values())}")
                sim.probe("run_ok" if ":" in got else "run_refused")
                check("run")
                sim.event("run", got)
            sim.ops_done += 1
            sim.event(op, strict[-1], sorted(off.values()))

    before = models.snapshot(model, values=True)
    base = {s: forward_at(ff, model, forward, s) for s in (True, False)}
    flags0 = public_flags()
    try:
        run(sc["ops"])
    except BaseException as e:  # noqa: BLE001
        if not is_injected(e):
            raise
        sim.probe("escaped")
        check("after everything")
    sim.check(public_flags() == flags0, "modes", f"{public_flags()} != {flags0}")
    for i, s in enumerate(switches):
        s.detach()
        for k in sources:
            sources[k] = [z for z in sources[k] if z is not swstate[i]]
            registered[k] = [z for z in registered[k] if z is not swstate[i]]
    for h, k, tok in user_handles:
        h.remove()
        registered[k] = [s for s in registered[k] if s is not tok]
    check("everything detached")
    if not sim.probes.get("swap"):
        d = models.diff(before, models.snapshot(model, values=True))
        sim.check(not d, "model-state", "; ".join(d[:4]))
        for s in (True, False):
            got = forward_at(ff, model, forward, s)
            sim.check(got == base[s], "result-after", f"strict={s}: {got}, before {base[s]}")


def forward_at(ff, model, forward, strict):
    with ff.strict_quantization(strict):
        return [forward(model, models.batch(s)) for s in (5, 6)]
