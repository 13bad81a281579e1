"""C03: quantizer overrides nest, compose and are removable in any order."""

from __future__ import annotations

import contextlib

import torch

from sim.core import Sim, SimError, SimInterrupt, Violation, catch, expect_ok, is_injected, make_oom
from sim.threads import Threads

PROPERTY = "C03"
CONFIGS = {
    "plain": {"faults": False},
    "faults": {"faults": True},
    "threads": {"faults": False, "threads": True, "weight": 0.7},
    "threads_faults": {"faults": True, "threads": True, "weight": 0.4},
}
PLAN = {"quick": 900, "quick_s": 100, "thorough": 14000, "thorough_s": 780, "det": 10}
RULE = "History of register/remove/call operations on several quantizers, compared call by call with a reference model."
REAL = ["fastforward.nn.quantizer.Quantizer", "fastforward.forward_override"]
STUB = ["override functions and the quantizer's own quantize method (scripted by the scenario)"]
STATE_MEASURE = "hash of (registered overrides per quantizer, length of the call trace) after each operation"

BEHAVIOURS = ["pass", "pass", "pass", "twice", "skip", "retry", "late", "remove", "register", "nested", "mutate", "keep"]


def generate(rng, cfg):
    nq = rng.randint(1, 3)
    nf = rng.randint(2, 5)
    fns = []
    for _ in range(nf):
        b = rng.choice(BEHAVIOURS)
        f = {"b": b, "a": rng.randint(1, 5), "kw": rng.random() < 0.35, "q": rng.randrange(nq), "h": rng.randrange(6), "f": rng.randrange(nf)}
        fns.append(f)
    ops = []
    for _ in range(rng.randint(6, 18)):
        r = rng.random()
        q = rng.randrange(nq)
        if r < 0.40:
            ops.append({"op": "reg", "q": q, "f": rng.randrange(nf)})
        elif r < 0.50:
            ops.append({"op": "remove", "h": rng.randrange(8)})
        elif r < 0.56:
            ops.append({"op": "scope", "q": q, "f": rng.randrange(nf), "call": rng.randrange(nq),
                        "fault": {"kind": rng.choice(["error", "interrupt"])} if cfg["faults"] and rng.random() < 0.5 else None})
        elif r < 0.60:
            ops.append({"op": "remove_id", "q": q, "h": rng.randrange(8)})
        elif cfg.get("threads") and r < 0.75:
            ops.append({"op": "threads", "calls": [
                {"q": rng.randrange(nq), "x": rng.randint(1, 5),
                 "fault": ({"at": rng.randint(0, 5), "kind": rng.choice(["error", "oom"])}
                           if cfg["faults"] and rng.random() < 0.5 else None)}
                for _ in range(rng.randint(2, 3))],
                "sched": [rng.randint(0, 5) for _ in range(rng.randint(3, 30))]})
        else:
            o = {"op": "call", "q": q, "x": rng.randint(1, 9), "kw": rng.random() < 0.3, "fault": None}
            if cfg["faults"] and rng.random() < 0.5:
                o["fault"] = {"at": rng.randint(0, 6), "kind": rng.choice(["error", "interrupt", "oom"])}
            ops.append(o)
    return {"nq": nq, "fns": fns, "ops": ops}


class Inflight:
    """One top-level call: fault countdown shared by everything it triggers."""

    def __init__(self, fault):
        self.fault = fault
        self.n = 0
        self.trace: list[str] = []
        self.depth = 0

    def point(self, sim, what, fire=True):
        self.trace.append(what)
        n = self.n
        self.n += 1
        if self.fault and n == self.fault["at"]:
            k = self.fault["kind"]
            if fire:
                sim.fault(f"override_{k}")
            if k == "interrupt":
                raise SimInterrupt()
            if k == "oom":
                raise make_oom()
            raise SimError("simulated override failure")
        if n > 400:
            raise SimError("call too long")


def execute(sim: Sim, sc):
    import fastforward as ff

    nq, fns, ops = sc["nq"], sc["fns"], sc["ops"]
    threads: list = [None]
    cur_local = __import__("threading").local()

    class Q(ff.nn.Quantizer):
        def __init__(self, i):
            super().__init__()
            self.i = i

        def quantize(self, data):
            fl = cur_local.fl
            fl.point(sim, f"Q{self.i}")
            return data * 2 + self.i + 1

    qs = [Q(i) for i in range(nq)]

    # ---- the real override functions, and the model that mirrors them
    handles: list[dict] = []  # {"h": handle, "q": i, "f": j, "id": n, "live": bool}
    reg: list[list[int]] = [[] for _ in range(nq)]  # model: handle numbers per quantizer, oldest first
    kept: list = []

    def do_register(q, f):
        h = qs[q].register_override(real[f])
        handles.append({"h": h, "q": q, "f": f})
        reg[q].append(len(handles) - 1)

    def do_remove(n):
        if not handles:
            return
        n = n % len(handles)
        e = handles[n]
        was = n in reg[e["q"]]
        got = expect_ok(lambda: e["h"].remove(), "handle.remove()")
        if was:
            reg[e["q"]].remove(n)
            sim.check(got is real[e["f"]], "remove-returned", f"remove() returned {got}, not the override registered with this handle")
        else:
            sim.check(got is None, "remove-returned", f"removing an already removed override returned {got}")
            sim.probe("double_remove")

    class Fn:
        def __init__(self, j):
            self.j = j

        def __repr__(self):
            return f"fn{self.j}"

        def __call__(self, context, cont, args, kwargs):
            spec = fns[self.j]
            fl = cur_local.fl
            if threads[0] is not None:
                threads[0].yield_point()
            fl.point(sim, f"f{self.j}@{context.i}")
            a, b = spec["a"], spec["b"]
            x = args[0] if args else kwargs["data"]
            in_thread = threads[0] is not None

            def go(y):
                if threads[0] is not None:
                    threads[0].yield_point()
                return cont(y, *args[1:]) if args and not spec.get("kw") else cont(**{**kwargs, "data": y})

            if b == "pass":
                return go(x + a) + a
            if b == "twice":
                sim.probe("continuation_twice")
                return go(x + a) + go(x) * 2
            if b == "skip":
                sim.probe("short_circuit")
                return x + a
            if b == "retry":
                try:
                    return go(x + a)
                except BaseException as e:  # noqa: BLE001
                    if not is_injected(e):
                        raise
                    sim.probe("retry_after_failure")
                    fl.trace.append("retry")
                    return go(x) + 1
            if b == "late":
                r = go(x)
                return r + go(x + 1) + go(x + 2)
            if b == "remove" and not in_thread:
                do_remove(spec["h"])
                sim.probe("remove_in_flight")
                return go(x) + a
            if b == "register" and not in_thread and len(handles) < 12:
                do_register(spec["q"], spec["f"])
                sim.probe("register_in_flight")
                return go(x) + a
            if b == "nested" and fl.depth < 2:
                fl.depth += 1
                try:
                    sim.probe("nested_call")
                    y = qs[spec["q"]](x + a)
                finally:
                    fl.depth -= 1
                return go(x) + y
            if b == "keep":
                kept.append((cont, x))
                return go(x)
            return go(x) + a

    real = [Fn(j) for j in range(len(fns))]

    # ---- reference model: same semantics written over plain numbers
    def ref_call(q, x, fl, regs):
        stack = [handles[n]["f"] for n in regs[q]]
        return ref_apply(stack, q, x, fl, regs)

    def ref_apply(stack, q, x, fl, regs):
        if not stack:
            fl.point(sim, f"Q{q}", fire=False)
            return x * 2 + q + 1
        j, rest = stack[-1], stack[:-1]
        spec = fns[j]
        fl.point(sim, f"f{j}@{q}", fire=False)
        a, b = spec["a"], spec["b"]
        go = lambda y: ref_apply(rest, q, y, fl, regs)  # noqa: E731
        if b == "pass":
            return go(x + a) + a
        if b == "twice":
            return go(x + a) + go(x) * 2
        if b == "skip":
            return x + a
        if b == "retry":
            try:
                return go(x + a)
            except BaseException as e:  # noqa: BLE001
                if not is_injected(e):
                    raise
                fl.trace.append("retry")
                return go(x) + 1
        if b == "late":
            r = go(x)
            return r + go(x + 1) + go(x + 2)
        if b == "remove" and not fl.in_thread:
            if fl.handles_n:
                n = spec["h"] % fl.handles_n
                hq = fl.hq[n][0]
                if n in regs[hq]:
                    regs[hq].remove(n)
            return go(x) + a
        if b == "register" and not fl.in_thread and fl.handles_n < 12:
            n = fl.handles_n
            fl.hq.append((spec["q"], spec["f"]))
            fl.handles_n += 1
            regs[spec["q"]].append(n)
            return go(x) + a
        if b == "nested" and fl.depth < 2:
            fl.depth += 1
            try:
                st = [fl.hq[n][1] for n in regs[spec["q"]]]
                y = ref_apply(st, spec["q"], x + a, fl, regs)
            finally:
                fl.depth -= 1
            return go(x) + y
        if b == "keep":
            return go(x)
        return go(x) + a

    def reference(q, x, fault, in_thread):
        fl = Inflight(fault)
        fl.in_thread = in_thread
        fl.handles_n = len(handles)
        fl.hq = [(e["q"], e["f"]) for e in handles]
        regs = [list(r) for r in reg]
        stack = [handles[n]["f"] for n in regs[q]]
        try:
            v = ref_apply(stack, q, x, fl, regs)
            return fl, v, None, regs
        except BaseException as e:  # noqa: BLE001
            if not is_injected(e):
                raise
            return fl, None, type(e).__name__, regs

    def real_call(q, x, fault, kw=False):
        fl = Inflight(fault)
        cur_local.fl = fl
        t = torch.tensor(float(x), dtype=torch.float64)
        res, exc = catch(lambda: float(qs[q](data=t) if kw else qs[q](t)))
        return fl, res, exc

    def compare(what, fl, res, exc, ref):
        rfl, rv, rexc, _ = ref
        if exc is not None and not is_injected(exc):
            raise Violation("unexpected-error", f"{what}: {type(exc).__name__}: {exc}") from exc
        sim.check(fl.trace == rfl.trace, "call-order", lambda: f"{what}: ran {fl.trace}, expected {rfl.trace}")
        sim.check((type(exc).__name__ if exc else None) == rexc, "failure-lost", f"{what}: raised {exc!r}, expected {rexc}")
        if exc is None:
            sim.check(res == rv, "result", f"{what}: returned {res}, expected {rv}")

    def check_regs(what):
        for i, q in enumerate(qs):
            got = [f.j for f in q.overrides]
            want = [handles[n]["f"] for n in reg[i]]
            sim.check(got == want, "registrations", f"after {what}: quantizer {i} carries {got}, expected {want}")
        sim.state([[handles[n]["f"] for n in r] for r in reg])

    for op in ops:
        sim.tick()
        k = op["op"]
        what = f"{k} {op}"
        if k == "reg":
            if len(reg[op["q"]]) < 4 and len(handles) < 12:
                do_register(op["q"], op["f"])
        elif k == "remove":
            do_remove(op["h"])
        elif k == "remove_id":
            if handles:
                n = op["h"] % len(handles)
                e = handles[n]
                qs[op["q"]].remove_override(e["h"].handle_id)
                if e["q"] == op["q"] and n in reg[op["q"]]:
                    reg[op["q"]].remove(n)
        elif k == "scope":
            if len(reg[op["q"]]) >= 4 or len(handles) >= 12:
                continue
            h = qs[op["q"]].register_override(real[op["f"]])
            handles.append({"h": h, "q": op["q"], "f": op["f"]})
            n = len(handles) - 1
            reg[op["q"]].append(n)
            try:
                with h:
                    ref = reference(op["call"], 2, None, False)
                    fl, res, exc = real_call(op["call"], 2, None)
                    compare(what, fl, res, exc, ref)
                    if op.get("fault"):
                        sim.fault("scope_" + op["fault"]["kind"])
                        raise SimInterrupt() if op["fault"]["kind"] == "interrupt" else SimError("in scope")
            except (SimInterrupt, SimError):
                pass
            if n in reg[op["q"]]:
                reg[op["q"]].remove(n)
        elif k == "call":
            ref = reference(op["q"], op["x"], op.get("fault"), False)
            if ref[0].n > 380:
                continue
            fl, res, exc = real_call(op["q"], op["x"], op.get("fault"), op.get("kw", False))
            compare(what, fl, res, exc, ref)
            sim.event("trace", *fl.trace)
            kept.clear()
        elif k == "threads":
            refs = [reference(c["q"], c["x"], c.get("fault"), True) for c in op["calls"]]
            if not refs or any(r[0].n > 200 for r in refs):
                continue
            threads[0] = Threads(sim, op["sched"])

            def mk(c):
                return lambda: real_call(c["q"], c["x"], c.get("fault"))

            try:
                out = threads[0].run([mk(c) for c in op["calls"]])
                sim.event("interleaving", *threads[0].trace)
                sim.probe("thread_switches", len(threads[0].trace))
            finally:
                threads[0] = None
            for i, c in enumerate(op["calls"]):
                r, e = out[i]
                if e is not None:
                    raise e
                compare(f"thread {i} of {what}", *r, refs[i])
        sim.ops_done += 1
        sim.event(k, [[handles[n]["f"] for n in r] for r in reg])
        check_regs(what)
