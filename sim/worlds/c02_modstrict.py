"""C02: per-module strictness applies only while that module runs."""

from __future__ import annotations

import torch

from sim.core import Sim, SimError, Violation, is_injected, maybe_op_fault, raise_fault

PROPERTY = "C02"
CONFIGS = {"plain": {"faults": False}, "faults": {"faults": True}}
PLAN = {"quick": 1500, "quick_s": 90, "thorough": 26000, "thorough_s": 780, "det": 10}
RULE = ("Random program of attaching/removing per-module strictness settings and of (nested, recursive, shared, failing) module calls; the mode in force "
        "is compared with a stack model inside and after every call and through the operators' own decision to refuse.")
REAL = ["fastforward.quantization.strict_quantization", "fastforward.flags", "torch module hooks", "fastforward.nn.functional.relu"]
STUB = ["bodies of the modules (scripted by the scenario)"]
STATE_MEASURE = "hash of (attached settings per module, open calls, mode in force)"

NM = 4  # scripted modules; modules NM.. are quantized relu leaves
NL = 2


def _body(rng, cfg, depth, top=False):
    out = []
    for _ in range(rng.randint(2, 5) if top else rng.randint(1, 3)):
        r = rng.random()
        fault = None
        if cfg["faults"] and rng.random() < 0.35:
            fault = {"kind": rng.choice(["error", "oom"])}
        if depth > 0 and r < 0.36:
            out.append({"op": "call", "m": rng.randrange(NM), "body": _body(rng, cfg, depth - 1), "fault": fault})
        elif depth > 0 and r < 0.44:
            out.append({"op": "strict", "v": rng.random() < 0.5, "body": _body(rng, cfg, depth - 1), "fault": fault})
        elif depth > 0 and r < 0.54:
            out.append({"op": "with", "v": rng.random() < 0.5, "ms": _ms(rng), "body": _body(rng, cfg, depth - 1), "fault": fault})
        elif depth > 0 and r < 0.62:
            out.append({"op": "try", "body": _body(rng, cfg, depth - 1)})
        elif r < 0.74:
            out.append({"op": "attach", "v": rng.random() < 0.5, "ms": _ms(rng)})
        elif r < 0.8:
            out.append({"op": "remove", "h": rng.randrange(6)})
        elif r < 0.83:
            out.append({"op": "reattach", "h": rng.randrange(6), "ms": _ms(rng)})
        else:
            f = {"kind": "oom", "at": rng.randint(0, 1)} if fault else None
            out.append({"op": "leaf", "m": NM + rng.randrange(NL), "fault": f} if rng.random() < 0.5 else {"op": "use"})
    return out


def _ms(rng):
    return [rng.randrange(NM + NL) for _ in range(rng.randint(1, 3))]


def generate(rng, cfg):
    return {"start": rng.random() < 0.7, "ops": _body(rng, cfg, 5, top=True) + _body(rng, cfg, 5, top=True)}


class Node(torch.nn.Module):
    def forward(self, x, run):
        run()
        return x


def execute(sim: Sim, sc):
    import fastforward as ff
    from fastforward.exceptions import QuantizationError
    from fastforward.quantization.strict_quantization import strict_quantization_for_module

    x = torch.tensor([0.5, -1.0])
    mods = [Node() for _ in range(NM)] + [ff.nn.QuantizedRelu() for _ in range(NL)]
    running: list[int] = []
    handles = []  # (handle, value, [module...], active)
    attached = {i: [] for i in range(NM + NL)}  # module -> [handle index] in attach order
    ff.set_strict_quantization(sc["start"])
    # stack of modes: {"v": bool or None (unknown), "hs": handles deciding}
    stack = [{"v": sc["start"], "hs": []}]

    def cur():
        return stack[-1]["v"]

    def enter(m):
        hs = list(attached[m])
        if hs:
            stack.append({"v": handles[hs[-1]]["v"], "hs": hs})
        else:
            stack.append({"v": cur(), "hs": stack[-1]["hs"]})

    def check(what):
        want = cur()
        if want is None:
            return
        got = ff.get_strict_quantization()
        sim.check(got == want, "mode", f"{what}: strict quantization is {got}, expected {want}")
        sim.state(sorted((k, tuple(handles[h]["v"] for h in v)) for k, v in attached.items() if v), len(stack), want)

    def attach(v, ms):
        h = strict_quantization_for_module(v, *[mods[m] for m in ms])
        handles.append({"h": h, "v": v, "active": True})
        for m in ms:
            attached[m].append(len(handles) - 1)
        return len(handles) - 1

    def remove(k, done=False):
        if not done:
            handles[k]["h"].remove()
        if handles[k]["active"]:
            handles[k]["active"] = False
            for m in attached:
                attached[m] = [h for h in attached[m] if h != k]
            # what the rest of an already running call sees is not specified, what is in force afterwards is
            for e in stack:
                if k in e["hs"]:
                    e["v"] = None
                    sim.probe("removed_while_running")

    def end(st):
        if st.get("fault"):
            raise_fault(sim, st["fault"]["kind"])

    def use(fn, what):
        want = cur()
        try:
            fn()
        except QuantizationError:
            sim.check(want in (True, None), "strict-observed", f"{what} refused although strictness should be {want}")
            sim.probe("refused")
        else:
            sim.check(want in (False, None), "strict-observed", f"{what} computed although strictness should be {want}")
            sim.probe("computed")

    def run(body):
        for st in body:
            sim.tick()
            op = st["op"]
            if op == "call":
                depth = len(stack)
                running.append(st["m"])

                def inner(st=st):
                    enter(st["m"])
                    check(f"inside module {st['m']}")
                    if attached[st["m"]] and len(stack) > 2:
                        sim.probe("nested_setting")
                    run(st["body"])
                    check(f"end of module {st['m']}")
                    end(st)

                try:
                    mods[st["m"]](x, inner)
                finally:
                    del stack[depth:]
                    running.pop()
                    check(f"after calling module {st['m']}")
            elif op == "leaf":
                depth = len(stack)
                m = st["m"]
                enter(m)

                def leaf(m=m, st=st):
                    with maybe_op_fault(sim, st.get("fault")):
                        mods[m](x)

                try:
                    use(leaf, f"module {m}")
                finally:
                    del stack[depth:]
                    check(f"after leaf {m}")
            elif op == "use":
                use(lambda: ff.nn.functional.relu(x), "relu")
            elif op == "strict":
                depth = len(stack)
                try:
                    with ff.strict_quantization(st["v"]):
                        stack.append({"v": st["v"], "hs": []})
                        check("open scope")
                        run(st["body"])
                        end(st)
                finally:
                    del stack[depth:]
                    check("close scope")
            elif op == "with":
                k = attach(st["v"], st["ms"])
                try:
                    with handles[k]["h"]:
                        check("attached")
                        run(st["body"])
                        end(st)
                finally:
                    remove(k, done=True)
                    check("detached")
            elif op == "try":
                depth = len(stack)
                try:
                    run(st["body"])
                except Exception as e:  # noqa: BLE001
                    if not is_injected(e):
                        raise
                    sim.probe("caught")
                    check("caught")
                sim.check(len(stack) == depth, "harness", "stack")
            elif op == "attach":
                attach(st["v"], st["ms"])
                check("attach")
            elif op == "reattach":
                if handles:
                    k = st["h"] % len(handles)
                    for m in st["ms"]:
                        if m in running:  # the same setting a second time while it is being applied
                            continue
                        handles[k]["h"].attach(mods[m])
                        attached[m].append(k)
                    handles[k]["active"] = True
                    sim.probe("reattached")
                check("reattach")
            elif op == "remove":
                if handles:
                    remove(st["h"] % len(handles))
                check("remove")
            sim.ops_done += 1
            sim.event(op, cur(), ff.get_strict_quantization())

    try:
        run(sc["ops"])
    except Exception as e:  # noqa: BLE001
        if not is_injected(e):
            raise
        sim.probe("escaped")
    del stack[1:]
    check("the whole program")
    # once everything is removed nothing is left behind
    for k in range(len(handles)):
        remove(k)
    for v in (True, False):
        ff.set_strict_quantization(v)
        stack[0]["v"] = v
        for m in range(NM):
            mods[m](x, lambda: check("removed setting still in effect"))
            check("after a call without settings")
