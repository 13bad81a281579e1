"""C06: calibrated ranges are the stated statistic of the batches actually seen."""

from __future__ import annotations

import itertools

import torch

from sim import models
from sim.core import Sim, Violation, catch, is_injected, maybe_op_fault, raise_fault, SimError

PROPERTY = "C06"
CONFIGS = {"plain": {"faults": False}, "faults": {"faults": True}}
PLAN = {"quick": 450, "quick_s": 100, "thorough": 7000, "thorough_s": 780, "det": 6}
RULE = ("History of overlapping calibration sessions, batches fed to single quantizers of many granularities or to a network, and failures; each range is compared with the "
        "statistic recomputed by an independent reference from the data a simulator-owned override saw enter the estimator.")
REAL = ["fastforward.range_setting (running/smoothed min-max, min-error grid)", "LinearQuantizer range setter", "granularities and tiling", "fastforward.forward_override"]
STUB = ["data source (scripted batches)"]
STATE_MEASURE = "hash of (open sessions, steps seen per session and quantizer)"

GRANS = ["pt", "pt", "pc0", "pc1", "pcn1", "pc01", "blk", "blk2", "tile", "tile1"]


def gen_q(rng):
    q = {"b": rng.choice([2, 3, 4, 8]), "sym": rng.random() < 0.6, "one": rng.random() < 0.5, "g": rng.choice(GRANS)}
    q["init"] = [rng.choice([-1.0, -0.25, 0.0]), rng.choice([0.25, 1.0, 2.0])] if rng.random() < 0.4 else None
    return q


def generate(rng, cfg):
    nq = rng.randint(1, 4)
    ops = []
    for _ in range(rng.randint(5, 14)):
        r = rng.random()
        f = cfg["faults"] and rng.random() < 0.35
        fault = {"kind": rng.choice(["oom", "interrupt"]), "at": rng.randint(0, 45)} if f else None
        if r < 0.24 or not ops:
            est = rng.choice(["running", "running", "smoothed", "mse"])
            ops.append({"op": "open", "est": est, "gamma": rng.choice([0.25, 0.5, 0.9, 1.0]), "dq": rng.random() < 0.3,
                        "n": rng.choice([3, 4, 5, 8]), "grid": rng.choice(["own", "bundled"]), "err": rng.choice(["mse", "l1"]),
                        "policy": rng.choice([0, 0, 2]), "inst": rng.random() < 0.3,
                        "targets": rng.choice([["all"], ["all"], ["bank"], ["net"], [rng.randrange(nq), rng.randrange(nq)]])})
        elif r < 0.36:
            ops.append({"op": "close", "k": rng.randint(0, 5), "exc": rng.random() < 0.2})
        elif r < 0.90:
            ops.append({"op": "feed", "items": [{"q": rng.randrange(nq), "x": rng.randint(0, 999), "scale": rng.choice([0.3, 1.0, 4.0]),
                                                  "shift": rng.choice([0.0, 0.0, 2.0, -2.0]), "kw": rng.random() < 0.2}
                                                 for _ in range(rng.randint(1, 4))], "fault": fault})
        else:
            ops.append({"op": "net", "x": rng.randint(0, 999), "scale": rng.choice([0.5, 1.0, 3.0]),
                        "fault": fault if not fault or rng.random() < 0.6 else {"kind": "error", "where": "probe", "at": rng.randint(0, 2)}})
    return {"bank": [gen_q(rng) for _ in range(nq)], "net": models.gen_model(rng, n=(1, 2), depth=1, gate=True, uninit=0.2), "ops": ops}


def make_gran(g):
    import fastforward as ff
    from fastforward.quantization.granularity import PerBlock, PerTile

    return {"pt": lambda: ff.PerTensor(), "pc0": lambda: ff.PerChannel(0), "pc1": lambda: ff.PerChannel(1), "pcn1": lambda: ff.PerChannel(-1),
            "pc01": lambda: ff.PerChannel((0, 1)), "blk": lambda: PerBlock(1, 2, 0), "blk2": lambda: PerBlock((0, 1), (2, 2)),
            "tile": lambda: PerTile((2, 4)), "tile1": lambda: PerTile((2, 1)), "pc": lambda: ff.PerChannel(0)}[g]()


def tile_of(g, shape):
    s = list(shape)
    if g == "pt":
        return s
    if g in ("pc", "pc0"):
        return [1] + s[1:]
    if g in ("pc1", "pcn1"):
        return [s[0], 1]
    return {"pc01": [1, 1], "blk": [1, 2], "blk2": [2, 2], "tile": [2, 4], "tile1": [2, 1]}[g]


def rows(data, g):
    """Elements per tile, tiles in row-major order: an independent implementation."""
    t = tile_of(g, data.shape)
    out = []
    for idx in itertools.product(*[range(0, n, k) for n, k in zip(data.shape, t)]):
        out.append(data[tuple(slice(i, i + k) for i, k in zip(idx, t))].reshape(-1))
    return torch.stack(out)


def expected_range(spec, lo, hi):
    """The range a linear quantizer represents when asked for (lo, hi)."""
    b = spec["b"]
    imin, imax = -(2 ** (b - 1)), 2 ** (b - 1) - 1
    if spec["sym"]:
        if spec["one"] and float(lo.min()) >= 0:
            lo = torch.zeros_like(hi)
            return lo, lo + ((hi - lo) / (imax - imin)).clamp(torch.finfo(torch.float32).eps) * (imax - imin)
        s = torch.maximum(lo.abs() / -imin, hi.abs() / imax)
        return imin * s, imax * s
    # an empty or reversed interval is widened to the smallest positive scale
    return lo, lo + ((hi - lo) / (imax - imin)).clamp(torch.finfo(torch.float32).eps) * (imax - imin)


def close(a, b):
    tol = 2e-4 * (1.0 + float((b[1] - b[0]).abs().max()) + float(b[0].abs().max()) + float(b[1].abs().max()))
    return all(x.shape == y.shape and bool(torch.isfinite(x).all()) and float((x - y).abs().max()) <= tol for x, y in zip(a, b))


class Root(torch.nn.Module):
    def __init__(self, bank, net):
        super().__init__()
        self.bank = torch.nn.ModuleList(bank)
        self.net = net


def execute(sim: Sim, sc):
    import fastforward as ff

    specs = {}
    bank = []
    for s in sc["bank"]:
        q = ff.nn.LinearQuantizer(s["b"], symmetric=s["sym"], allow_one_sided=s["one"], granularity=make_gran(s["g"]))
        if s["init"]:
            n = rows(torch.zeros(4, 4), s["g"]).shape[0]
            q.quantization_range = (torch.full((n,), s["init"][0]), torch.full((n,), s["init"][1]))
        bank.append(q)
        specs[id(q)] = s
    net = models.build_model(sc["net"])

    def collect(node):
        if isinstance(node, dict):
            if node.get("t") == "lin" and "b" in node:
                yield node
            for v in node.values():
                yield from collect(v)
        elif isinstance(node, list):
            for v in node:
                yield from collect(v)

    root = Root(bank, net)
    for q in {id(q): q for q in models.active_quantizers(net).values()}.values():
        specs[id(q)] = {"b": q.num_bits, "sym": q.symmetric, "one": q.allow_one_sided, "g": "pc" if q.per_channel else "pt"}
    qs = list({id(q): q for q in models.active_quantizers(root).values()}.values())
    name = {id(q): i for i, q in enumerate(qs)}
    log = []
    stack = []
    sessions = []

    def recorder(tag):
        def rec(ctx, fn, args, kw):
            data = kw["data"] if "data" in kw else args[0]
            d = models.deq(data).detach().clone()
            e = {"s": tag, "q": ctx, "d": d, "full": False, "grids": []}
            if stack:
                stack[-1]["full"] = True
            log.append(e)
            stack.append(e)
            try:
                out = fn(*args, **kw)
                e["full"] = True
                return out
            finally:
                stack.pop()

        return rec

    for q in qs:
        q.register_override(recorder(None))

    def cur_range(q):
        lo, hi = q.quantization_range
        return None if lo is None else (lo.detach().clone(), hi.detach().clone())

    known = {id(q): [cur_range(q)] for q in qs}  # acceptable ranges of each quantizer, None: unknown

    def err_l1(a, b):
        return (a - b).abs().mean(dim=1)

    def open_session(st):
        s = {"st": st, "state": {}, "handles": []}
        tg = []
        for t in st["targets"]:
            tg += {"all": [root], "bank": [root.bank], "net": [net]}.get(t) or [bank[t % len(bank)]]
        tg = list({id(t): t for t in tg}.values())
        kw = {}
        if st["est"] == "running":
            cls, kw = ff.range_setting.running_minmax, {"disable_quantization": st["dq"]}
        elif st["est"] == "smoothed":
            cls, kw = ff.range_setting.smoothed_minmax, {"gamma": st["gamma"], "disable_quantization": st["dq"]}
        else:
            cls = ff.range_setting.min_error.mse_grid

            def grid(sample, symmetric, p, n):
                e = stack[-1]
                spec = specs[id(e["q"])]
                sim.check(torch.equal(models.deq(sample), rows(e["d"], spec["g"])), "grid-data", "the candidate grid was built from other data than the first batch")
                sim.check(symmetric == spec["sym"] and n == st["n"], "grid-args", f"{symmetric} {n}")
                if st["grid"] == "bundled":
                    lo, hi = ff.range_setting.min_error.uniform_search_grid(0.1, 1.0)(sample, symmetric, p, n)
                else:
                    m = rows(e["d"], spec["g"]).abs().max(dim=1).values + 0.1
                    f = torch.linspace(1.0, 0.3, n)[:, None]
                    hi = f * m[None]
                    lo = -hi * 0.5 if not symmetric else -hi
                e["grids"].append((lo.detach().clone(), hi.detach().clone()))
                return lo, hi

            kw = {"num_candidates": st["n"], "search_grid_generator": grid}
            if st["err"] == "l1":
                kw["error_fn"] = err_l1
            if st["policy"]:
                kw["update_range_policy"] = lambda est, step: step % st["policy"] == 0
        arg = tg if len(tg) > 1 else tg[0]
        cm = ff.estimate_ranges(arg, cls(**kw)) if st["inst"] else ff.estimate_ranges(arg, cls, **kw)
        cm.__enter__()
        s["cm"] = cm
        cov = []
        for t in tg:
            mods = [t] if isinstance(t, ff.nn.Quantizer) else models.active_quantizers(t).values()
            for q in mods:
                if not any(q is z for z in cov):
                    cov.append(q)
        # quantizers of a bare quantizer target are only found if the library looks at the module itself
        for q in cov:
            r = cur_range(q)
            spec = specs[id(q)]
            if st["est"] == "mse":
                s["state"][id(q)] = {"steps": 0, "grid": None, "err": None, "torn": False}
            elif r is not None and not (r[0].isfinite().all() and r[1].isfinite().all()):
                # an interrupt hit between allocating and filling the parameters: garbage, statistic undefined
                s["state"][id(q)] = {"poss": None}
            else:
                s["state"][id(q)] = {"poss": [r if r is not None else (None, None)]}
            s["handles"].append(q.register_override(recorder(s)))
        s["cov"] = cov
        return s

    def minmax_step(s, spec, d, poss, torn):
        r = rows(d, spec["g"])
        dmin, dmax = r.min(dim=1).values, r.max(dim=1).values
        out = []
        for lo, hi in poss:
            l0 = lo if lo is not None else torch.full_like(dmin, float("inf"))
            h0 = hi if hi is not None else torch.full_like(dmax, float("-inf"))
            if s["st"]["est"] == "running":
                l1, h1 = torch.minimum(l0, dmin), torch.maximum(h0, dmax)
            elif bool(l0.isinf().any()) or bool(h0.isinf().any()):
                l1, h1 = dmin, dmax
            else:
                g = s["st"]["gamma"]
                l1, h1 = g * dmin + (1 - g) * l0, g * dmax + (1 - g) * h0
            out += [(l1, h1)] if not torn else [(l1, h1), (l0, h1), (l1, h0), (l0, h0)]
        uniq = []
        for p in out:
            if not any(torch.equal(p[0], z[0]) and torch.equal(p[1], z[1]) for z in uniq):
                uniq.append(p)
        return uniq[:64]

    def mse_step(s, q, spec, e):
        stt = s["state"][id(q)]
        if stt["steps"] and e["grids"]:
            raise Violation("grid-fixed", "the candidate grid was rebuilt after the first batch")
        if e["grids"]:
            stt["grid"] = e["grids"][-1]
        if not e["full"]:
            stt["torn"] = True
            known[id(q)] = None
            return
        if stt["torn"]:
            known[id(q)] = None
            return
        sim.check(stt["grid"] is not None, "grid-missing", "no candidate grid was requested on the first batch")
        lo, hi = stt["grid"]
        ref = ff.nn.LinearQuantizer(spec["b"], symmetric=spec["sym"], allow_one_sided=spec["one"], granularity=make_gran(spec["g"]))
        r0 = rows(e["d"], spec["g"])
        if stt["err"] is None:
            stt["err"] = torch.zeros(lo.shape)
        for c in range(lo.shape[0]):
            ref.quantization_range = (lo[c], hi[c])
            with ff.strict_quantization(False), torch.no_grad():
                r1 = rows(ref(e["d"]).dequantize(), spec["g"])
            stt["err"][c] += ((r1 - r0).abs() if s["st"]["err"] == "l1" else (r1 - r0) ** 2).mean(dim=1)
        stt["steps"] += 1
        if s["st"]["policy"] and stt["steps"] % s["st"]["policy"]:
            sim.probe("mse_policy_wait")
            return
        E = stt["err"]
        tol = 1e-5 * (1 + E.min(dim=0).values)
        acc = [[c for c in range(E.shape[0]) if float(E[c, p]) <= float(E[:, p].min() + tol[p])] for p in range(E.shape[1])]
        combos = 1
        for a in acc:
            combos *= len(a)
        if combos > 128:
            known[id(q)] = None
            return
        k = []
        idx = torch.arange(E.shape[1])
        for c in itertools.product(*acc):
            c = torch.tensor(c)
            k.append(expected_range(spec, lo[c, idx], hi[c, idx]))
        known[id(q)] = k
        sim.probe("mse_step")

    def settle(what):
        for e in log:
            s, q = e["s"], e["q"]
            if s is None:
                continue
            spec = specs[id(q)]
            if s["st"]["est"] == "mse":
                mse_step(s, q, spec, e)
            else:
                stt = s["state"][id(q)]
                if stt["poss"] is None:
                    known[id(q)] = None
                    continue
                stt["poss"] = minmax_step(s, spec, e["d"], stt["poss"], not e["full"])
                if e["full"]:
                    known[id(q)] = [expected_range(spec, lo, hi) for lo, hi in stt["poss"]]
                    sim.probe(s["st"]["est"] + "_step")
                else:
                    known[id(q)] = None
                    sim.probe("torn")
        log.clear()
        for q in qs:
            r = cur_range(q)
            k = known[id(q)]
            if k is None:
                continue
            if k == [None]:
                sim.check(r is None, "range", f"{what}: quantizer {name[id(q)]} has a range but was never calibrated")
                continue
            ok = r is not None and any(close(r, z) for z in k)
            sim.check(ok, "range", lambda: f"{what}: quantizer {name[id(q)]} ({specs[id(q)]}) has range {r}, the statistic of its batches is {k[0]}")
            sim.probe("range_checked")
        sim.state(len(sessions), [sorted((name[id(q)]) for q in s["cov"]) for s in sessions], sorted((k, v) for k, v in sim.probes.items() if k.endswith("step")))

    ff.set_strict_quantization(False)
    settle("start")
    for st in sc["ops"]:
        sim.tick()
        op = st["op"]
        if op == "open":
            sessions.append(open_session(st))
            if len(sessions) > 1:
                sim.probe("overlap")
        elif op == "close":
            if sessions:
                s = sessions.pop(st["k"] % len(sessions))
                for h in s["handles"]:
                    h.remove()
                e = SimError("body") if st["exc"] else None
                catch(lambda: s["cm"].__exit__(type(e) if e else None, e, None))
        else:
            fault = st.get("fault")

            def go():
                with torch.no_grad(), maybe_op_fault(sim, fault):
                    if op == "net":
                        root.net(models.batch(st["x"], scale=st["scale"]))
                    else:
                        for it in st["items"]:
                            q = bank[it["q"] % len(bank)]
                            g = torch.Generator().manual_seed(it["x"])
                            x = torch.randn(4, 4, generator=g) * it["scale"] + it["shift"]
                            q(data=x) if it["kw"] else q(x)

            if fault and fault.get("where") == "probe":
                cnt = [0]

                def cb(tag, d):
                    cnt[0] += 1
                    if cnt[0] > fault["at"]:
                        raise_fault(sim, "error")

                for p in models.probes(net):
                    p.cb = cb
            _, exc = catch(go)
            stack.clear()
            for p in models.probes(net):
                p.cb = None
            lazy = any(k is None or k == [None] for k in known.values())
            if exc is not None and not is_injected(exc) and not (lazy and isinstance(exc, (ValueError, RuntimeError))):
                raise Violation("unexpected-error", f"{op}: {type(exc).__name__}: {exc}") from exc
            sim.event(op, type(exc).__name__)
        settle(op)
        sim.ops_done += 1
        sim.event(op, [models.tdigest(cur_range(q)) if cur_range(q) else None for q in qs])
    while sessions:
        s = sessions.pop()
        s["cm"].__exit__(None, None, None)
        for h in s["handles"]:
            h.remove()
        settle("final close")
    # batches outside every session
    for q in bank:
        catch(lambda: q(torch.full((4, 4), 77.0)))
    settle("batches after the last session")
