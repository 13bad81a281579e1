"""C05: calibration leaves no instrumentation behind however it starts or ends."""

from __future__ import annotations

import torch

from sim import models
from sim.core import Sim, Violation, catch, is_injected, make_oom, maybe_op_fault, public_flags, raise_fault, SimError, SimInterrupt

PROPERTY = "C05"
CONFIGS = {"plain": {"faults": False}, "faults": {"faults": True}}
PLAN = {"quick": 600, "quick_s": 90, "thorough": 10000, "thorough_s": 780, "det": 6}
RULE = ("History of overlapping calibration sessions (opened and closed in any order, over parts of a model with shared and unsupported quantizers), forward passes and "
        "user overrides; after each step the overrides of every quantizer, the modes and the ranges of quantizers outside all sessions are compared with a model.")
REAL = ["fastforward.range_setting (all bundled estimators)", "fastforward.forward_override", "fastforward.nn"]
STUB = ["failure points inside prepare/cleanup/split_module (subclasses that raise before or after calling the bundled method)"]
STATE_MEASURE = "hash of (instrumentation count per quantizer, open sessions)"

KINDS = ["running", "smoothed", "mse"]


def generate(rng, cfg):
    ops = []
    for _ in range(rng.randint(4, 14)):
        r = rng.random()
        f = cfg["faults"] and rng.random() < 0.45
        if r < 0.34:
            fault = None
            if f:
                fault = {"where": rng.choice(["prepare", "prepare_after", "cleanup", "split"]), "at": rng.randint(0, 4),
                         "kind": rng.choice(["error", "interrupt", "oom"])}
            ops.append({"op": "open", "est": rng.choice(KINDS), "parts": [rng.randint(0, 9) for _ in range(rng.randint(1, 2))],
                        "inst": rng.random() < 0.4, "dq": rng.random() < 0.3, "skip": rng.random() < 0.7, "fault": fault})
        elif r < 0.60:
            ops.append({"op": "close", "k": rng.randint(0, 5), "exc": rng.choice([None, None, "error", "interrupt", "oom"])})
        elif r < 0.68:
            ops.append({"op": "user", "i": rng.randint(0, 9), "rm": rng.random() < 0.4})
        else:
            fault = None
            if f:
                fault = {"kind": rng.choice(["oom", "interrupt", "error"]), "at": rng.randint(0, 60)}
                if fault["kind"] == "error":
                    fault["where"] = "probe"
            ops.append({"op": "run", "x": rng.randint(0, 99), "scale": rng.choice([0.5, 1.0, 3.0]), "fault": fault})
    return {"model": models.gen_model(rng, gate=True, n=(1, 4), uninit=0.12, plain=0.06), "ops": ops, "strict": rng.random() < 0.3}


def make_estimator(st, sim):
    import fastforward as ff

    base = {"running": ff.range_setting.running_minmax, "smoothed": ff.range_setting.smoothed_minmax,
            "mse": ff.range_setting.min_error.mse_grid}[st["est"]]
    kw = {"skip_unsupported_quantizers": st["skip"]}
    if st["est"] == "mse":
        kw["num_candidates"] = 6
    else:
        kw["disable_quantization"] = st["dq"]
    if st["est"] == "smoothed":
        kw["gamma"] = 0.5
    f = st.get("fault")
    if not f:
        return base, kw

    cnt = {"prepare": 0, "cleanup": 0, "split": 0}

    def maybe(where, key):
        hit = f["where"] == where and cnt[key] == f["at"]
        if hit:
            raise_fault(sim, f["kind"])

    class Failing(base):
        def prepare(self, module):
            maybe("prepare", "prepare")
            meta = super().prepare(module)
            if f["where"] == "prepare_after" and cnt["prepare"] == f["at"]:
                super().cleanup(module, meta)
                raise_fault(sim, f["kind"])
            cnt["prepare"] += 1
            return meta

        def cleanup(self, module, metadata):
            super().cleanup(module, metadata)
            cnt["cleanup"] += 1
            if f["where"] == "cleanup" and cnt["cleanup"] == f["at"] + 1:
                raise_fault(sim, f["kind"])

        def split_module(self, module):
            for m in super().split_module(module):
                maybe("split", "split")
                cnt["split"] += 1
                yield m

    return Failing, kw


def execute(sim: Sim, sc):
    import fastforward as ff

    model = models.build_model(sc["model"])
    parts = [model] + [m for m in model.modules() if m is not model and models.active_quantizers(m)]
    qs = list({id(q): q for q in models.active_quantizers(model).values()}.values())
    user = {id(q): [] for q in qs}
    cover = {id(q): 0 for q in qs}
    sessions = []
    ff.set_strict_quantization(sc["strict"])
    flags0 = public_flags()
    user_handles = []

    def supported(q):
        return not isinstance(q, (models.PlainQuantizer, ff.nn.DynamicLinearQuantizer))

    def check(what):
        sim.check(public_flags() == flags0, "modes", f"{what}: {public_flags()}, expected {flags0}")
        for i, q in enumerate(qs):
            ov = list(q.overrides)
            n = len(ov) - len(user[id(q)])
            sim.check(n == cover[id(q)], "instrumentation", f"{what}: quantizer {i} carries {n} calibration overrides, {cover[id(q)]} sessions cover it")
            mine = [o for o in ov if any(o is u for u in user[id(q)])]
            sim.check(len(mine) == len(user[id(q)]) and all(a is b for a, b in zip(mine, user[id(q)])), "user-overrides", f"{what}: quantizer {i}")
        sim.state(sorted(cover.values()), len(sessions))

    def ranges():
        out = {}
        for i, q in enumerate(qs):
            out[i] = {n: models._val(p) for n, p in list(q.named_parameters()) + list(q.named_buffers())}
        return out

    def state_no_ranges():
        s = models.snapshot(model, values=False)
        return {k: v for k, v in s.items() if not k.startswith(("param", "buffer", "overrides"))} | {
            f"value {n}": models._val(p) for n, p in model.named_parameters() if "quantizer" not in n}

    base = state_no_ranges()
    check("start")
    for st in sc["ops"]:
        sim.tick()
        op = st["op"]
        if op == "open":
            targets = [parts[i % len(parts)] if i > 2 else model for i in st["parts"]]
            cov = []
            for t in targets:
                cov += [q for q in {id(q): q for q in models.active_quantizers(t).values()}.values() if supported(q) or not st["skip"]]
            must_fail = any(not supported(q) for q in cov)
            cls, kw = make_estimator(st, sim)
            before = {id(q): list(q.overrides) for q in qs}
            r0 = ranges()

            def opening():
                if st["inst"]:
                    cm = ff.estimate_ranges(targets if len(targets) > 1 else targets[0], cls(**kw))
                else:
                    cm = ff.estimate_ranges(targets if len(targets) > 1 else targets[0], cls, **kw)
                cm.__enter__()
                return cm

            cm, exc = catch(opening)
            if exc is None:
                sim.check(not must_fail, "unsupported-accepted", "a quantizer that does not support range setting was accepted")
                for q in cov:
                    cover[id(q)] += 1
                sessions.append({"cm": cm, "cov": cov, "fault": st.get("fault")})
                sim.probe("opened")
            else:
                if not (is_injected(exc) or (must_fail and isinstance(exc, TypeError))):
                    raise Violation("unexpected-error", f"opening a calibration: {type(exc).__name__}: {exc}") from exc
                sim.probe("open_failed")
                for i, q in enumerate(qs):
                    same = len(before[id(q)]) == len(list(q.overrides)) and all(a is b for a, b in zip(before[id(q)], q.overrides))
                    sim.check(same, "failed-start", f"a calibration that failed to start ({type(exc).__name__}) left quantizer {i} with other overrides")
            sim.check(ranges() == r0, "ranges", "opening a calibration changed ranges")
            check("open")
        elif op == "close":
            if not sessions:
                continue
            s = sessions.pop(st["k"] % len(sessions))
            r0 = ranges()
            if sessions:
                sim.probe("closed_while_others_open")

            def closing():
                if st["exc"] is None:
                    return s["cm"].__exit__(None, None, None)
                e = {"error": SimError("body"), "interrupt": SimInterrupt(), "oom": make_oom()}[st["exc"]]
                sim.fault("body_" + st["exc"])
                swallowed = s["cm"].__exit__(type(e), e, None)
                sim.check(not swallowed, "swallowed", f"the calibration scope swallowed {type(e).__name__}")

            _, exc = catch(closing)
            if exc is not None and not is_injected(exc):
                raise Violation("unexpected-error", f"closing a calibration: {type(exc).__name__}: {exc}") from exc
            for q in s["cov"]:
                cover[id(q)] -= 1
            sim.check(ranges() == r0, "ranges", "closing a calibration changed ranges")
            check(f"close ({st['exc']})")
        elif op == "user":
            if st["rm"] and user_handles:
                h, q, fn = user_handles.pop(st["i"] % len(user_handles))
                h.remove()
                user[id(q)] = [u for u in user[id(q)] if u is not fn]
            else:
                q = qs[st["i"] % len(qs)]
                fn = lambda c, f, a, kw: f(*a, **kw)  # noqa: E731
                user_handles.append((q.register_override(fn), q, fn))
                user[id(q)].append(fn)
            check("user override")
        else:
            r0 = ranges()
            x = models.batch(st["x"], scale=st["scale"])
            fault = st.get("fault")
            if fault and fault.get("where") == "probe":
                cnt = [0]

                def cb(tag, d):
                    cnt[0] += 1
                    if cnt[0] == fault["at"] % 3 + 1:
                        raise_fault(sim, "error")

                for p in models.probes(model):
                    p.cb = cb

            def fwd():
                with torch.no_grad(), maybe_op_fault(sim, fault):
                    return models.tdigest(model(x))

            res, exc = catch(fwd)
            for p in models.probes(model):
                p.cb = None
            if exc is not None:
                sim.probe("forward_injected" if is_injected(exc) else "forward_refused")
            else:
                sim.probe("forward_ok")
            r1 = ranges()
            for i, q in enumerate(qs):
                if not cover[id(q)]:
                    sim.check(r0[i] == r1[i], "range-outside", f"a forward pass changed the range of quantizer {i} that is not being calibrated")
                elif r0[i] != r1[i]:
                    sim.probe("range_updated")
            check("run")
            sim.event("run", res, type(exc).__name__, r1)
        sim.ops_done += 1
        sim.event(op, sorted(cover.values()))

    while sessions:
        s = sessions.pop()
        _, exc = catch(lambda: s["cm"].__exit__(None, None, None))
        if exc is not None and not is_injected(exc):
            raise Violation("unexpected-error", f"closing: {exc}") from exc
        for q in s["cov"]:
            cover[id(q)] -= 1
        check("final close")
    d = models.diff(base, state_no_ranges())
    sim.check(not d, "model-state", "; ".join(d[:4]))
    for h, q, fn in user_handles:
        h.remove()
        user[id(q)] = []
    r0 = ranges()
    for x in (models.batch(1, scale=50.0), models.batch(2, scale=50.0)):
        with ff.strict_quantization(False):
            catch(lambda: model(x))
    sim.check(ranges() == r0, "range-after", "a forward pass after all sessions ended changed a range")
    check("the end")
