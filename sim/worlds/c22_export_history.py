"""C22: export artifacts do not depend on what was exported before."""

from __future__ import annotations

import pathlib
import tempfile

import torch

from sim import exporting as E
from sim import models
from sim.core import Sim, catch, is_injected
from sim.fs import FS

PROPERTY = "C22"
CONFIGS = {"plain": {"faults": False}, "faults": {"faults": True}}
PLAN = {"quick": 22, "quick_s": 150, "thorough": 600, "thorough_s": 780, "det": 2}
SESSION = 4
RULE = ("Histories of exports of one or two networks (whole or selected modules, ONNX, QDQ ONNX, GGUF) with shared and default encoding handlers, reused directories and names, "
        "parameter updates, quantizers switched off, failures at any point and crashes with restarts in the same directory; every completed export is repeated alone in a fresh process "
        "with a model with the same parameters, and what was written is compared entry by entry; artifacts of other exports stay as they were.")
REAL = ["fastforward.export", "fastforward.quantization.fuse", "fastforward.mpath", "torch.export", "torch.onnx", "onnx", "onnxruntime", "gguf"]
STUB = ["disk below the scratch directory (fails on demand)"]
STATE_MEASURE = "hash of (history so far, export kind, outcome)"


def setup() -> None:
    E.warm()


def generate(rng, cfg):
    specs = [E.gen_export_model(rng) for _ in range(rng.choice([1, 2, 2]))]
    for s in specs:
        if rng.random() < 0.9:
            s["wide"] = True
    ops = []
    for _ in range(rng.randint(2, 4)):
        if ops and rng.random() < 0.25:
            ops.append({"op": "change", "what": rng.choice(["weights", "ranges", "off", "train"]), "m": rng.randint(0, 1), "i": rng.randint(0, 9)})
        op = {"op": "modules" if rng.random() < 0.5 else "export", "format": rng.choice(["onnx", "onnx", "onnx_qdq"]), "name": rng.choice(["a", "a", "b"]), "dir": rng.choice([0, 0, 1]),
              "m": rng.randint(0, 1), "kw": rng.random() < 0.4, "data": rng.randint(0, 3), "sel": E.gen_selection(rng), "handler": rng.choice([None, None, 0, 0, 1, 2]), "alter": rng.random() < 0.15,
              "save": rng.choice([None, "embedded", "external"]), "via": rng.choice([None, None, "orch", "direct"]), "fault": None}
        if cfg["faults"] and rng.random() < 0.5:
            op["fault"] = E.gen_fault(rng, specs[op["m"] % len(specs)], op, True)
        ops.append(op)
    return {"models": specs, "ops": ops, "handlers": [rng.choice(E.HANDLERS) for _ in range(3)]}


def change(model, op) -> None:
    import fastforward as ff

    i = op["i"]
    qs = [m for m in model.modules() if isinstance(m, ff.nn.LinearQuantizer)]
    if op["what"] == "weights":
        with torch.no_grad():
            for p in model.parameters():
                if not torch.nn.parameter.is_lazy(p) and p.dim() == 2 and p.shape[0] > 1:
                    p.add_(0.013 * (i + 1))
    elif op["what"] == "ranges" and qs:
        q = qs[i % len(qs)]
        if not q.has_uninitialized_params:
            with torch.no_grad():
                q.scale.mul_(1.25)
    elif op["what"] == "off" and qs:
        qs[i % len(qs)].register_override(ff.overrides.DisableQuantizationOverride())
    elif op["what"] == "train":
        model.train(i % 2 == 0)


def folder(op) -> str:
    # the data file of a graph may not have the name of a directory of another export
    return f"{'m' if op['op'] == 'modules' else 'd'}{op['dir']}"


def values(model):
    return [None if torch.nn.parameter.is_lazy(t) else t.detach().clone() for t in [*model.parameters(), *model.buffers()]]


def epoch(sc, first: int, fs: FS, start):
    """Runs ops from `first` in this process until the end or a crash.  Returns everything there is to know."""
    import fastforward as ff

    from fastforward.export.pipeline.orchestrator import ExportOrchestrator

    sim = fs.sim = Sim()
    ff.set_strict_quantization(False)
    ms = [E.build(s) for s in sc["models"]]
    for m in ms:
        for p in models.probes(m):
            p.cb = None
    apply_changes(sc, ms, first, start)
    handlers = [E.handler(h) for h in sc["handlers"]]
    orch = ExportOrchestrator()
    out = []
    fs.install()
    k = first
    while k < len(sc["ops"]):
        op = sc["ops"][k]
        i = op["m"] % len(ms)
        model, spec = ms[i], sc["models"][i]
        if op["op"] == "change":
            change(model, op)
            k += 1
            continue
        vals = [values(m) for m in ms]
        d = fs.path(folder(op))
        before = E.read_artifacts(fs.root)
        f = op["fault"]
        hand = None if op["handler"] is None else handlers[op["handler"]]

        def go():
            with E.Seams(sim, f if f and f["where"] != "fs" else None, model):
                return E.do_export(model, spec, op, d, hand, orch=orch)

        _, exc, crashed = fs.run(f if f and f["where"] == "fs" else None, go)
        rec = {"op": k, "m": i, "vals": vals, "before": before, "after": E.read_artifacts(fs.root), "outcome": "ok", "error": ""}
        if crashed:
            rec["outcome"] = "crash"
        elif exc is not None:
            rec["outcome"] = "fault" if is_injected(exc) else "refused"
            rec["error"] = f"{type(exc).__name__}"
        out.append(rec)
        k += 1
        if crashed:
            break
    return {"recs": out, "next": k, "vals": [values(m) for m in ms], "faults": sim.fault_counts, "n": sim.step}


def apply_changes(sc, ms, upto: int, vals) -> None:
    """Brings fresh models into the state given by the changes of the first ops and recorded values."""
    for op in sc["ops"][:upto]:
        if op["op"] == "change":
            change(ms[op["m"] % len(ms)], op)
    if vals is not None:
        for m, vs in zip(ms, vals):
            with torch.no_grad():
                for t, v in zip([*m.parameters(), *m.buffers()], vs):
                    if v is not None:
                        t.data = v.clone()


def alone(sc, rec):
    """The same export as the first one of this process."""
    import fastforward as ff

    op = sc["ops"][rec["op"]]
    ff.set_strict_quantization(False)
    ms = [E.build(s) for s in sc["models"]]
    for m in ms:
        for p in models.probes(m):
            p.cb = None
    apply_changes(sc, ms, rec["op"], rec["vals"])
    base = "/dev/shm" if pathlib.Path("/dev/shm").is_dir() else None
    with tempfile.TemporaryDirectory(prefix="ffref_", dir=base) as d:
        hand = None if op["handler"] is None else E.handler(sc["handlers"][op["handler"]])
        _, exc = catch(lambda: E.do_export(ms[rec["m"]], sc["models"][rec["m"]], op, pathlib.Path(d, folder(op)), hand))
        return {"outcome": "ok" if exc is None else "refused", "error": "" if exc is None else type(exc).__name__, "after": E.read_artifacts(d)}


def execute(sim: Sim, sc):
    fs = FS(sim)
    try:
        k, vals, recs = 0, None, []
        for _ in range(len(sc["ops"]) + 1):
            if k >= len(sc["ops"]):
                break
            r = E.in_fork(lambda: epoch(sc, k, fs, vals))
            k, vals = r["next"], r["vals"]
            recs += r["recs"]
            for name, n in r["faults"].items():
                for _ in range(n):
                    sim.fault(name)
            sim.step += r["n"]
        hist = []
        for rec in recs:
            op = sc["ops"][rec["op"]]
            flat = sc["models"][rec["m"]]["t"] == "flat"
            kind = "gguf" if flat else op["op"] + ("" if op["op"] == "modules" else " " + op["format"])
            sim.event(rec["op"], kind, rec["outcome"], rec["error"])
            sim.probe(f"{kind} {rec['outcome']}")
            sim.ops_done += 1
            hist.append((kind, rec["outcome"]))
            sim.state(tuple(hist), op["handler"])
            where = f"op {rec['op']}: {kind} as {op['name']} -> {rec['outcome']}"
            own = f"{folder(op)}/{op['name']}"
            mine = (own + "/",) if op["op"] == "modules" and not flat else tuple(own + x for x in (".onnx", ".encodings", "_input_output.pickle", ".gguf"))
            for p, v in rec["before"].items():
                if not p.startswith(mine):
                    sim.check(rec["after"].get(p) == v, "other-artifact-changed", lambda: f"{where}: {p}: {E.first_diff(v, rec['after'].get(p))}")
            if rec["outcome"] not in ("ok", "refused"):
                continue
            ref = E.in_fork(lambda: alone(sc, rec))
            sim.check(rec["outcome"] == ref["outcome"] and rec["error"] == ref["error"], "outcome-differs", f"{where} {rec['error']}; alone in a fresh process: {ref['outcome']} {ref['error']}")
            if rec["outcome"] == "ok":
                sim.check(bool(ref["after"]) or (op["op"] == "modules" and isinstance(op["sel"], str)), "nothing-written", where)
                for p, v in ref["after"].items():
                    sim.check(not (isinstance(v, str) and v.startswith("unreadable")), "unreadable", lambda: f"{where}: {p}: {v}")
                    sim.check(rec["after"].get(p) == v, "artifact-differs", lambda: f"{where}: {p}: {E.first_diff(rec['after'].get(p), v)} (in this history, alone)")
                sim.probe("compared")
    finally:
        fs.uninstall()


def shrink(sc):
    import copy as c

    from sim.core import generic_shrink

    yield from generic_shrink(sc)
    for j, m in enumerate(sc["models"]):
        for part in "ab":
            if part in m:
                for i in range(len(m[part]["items"])):
                    s = c.deepcopy(sc)
                    del s["models"][j][part]["items"][i]
                    if s["models"][j][part]["items"]:
                        yield s
