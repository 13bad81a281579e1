"""C10: a load that fails leaves the receiving model untouched."""

from __future__ import annotations

import torch

import fastforward as ff

from sim import artifacts as A
from sim import models
from sim.core import Sim, Violation, is_injected
from sim.fs import FS

PROPERTY = "C10"
CONFIGS = {"plain": {"faults": False, "damage": False}, "io": {"faults": True, "damage": False}, "damage": {"faults": False, "damage": True},
           "both": {"faults": True, "damage": True}}
PLAN = {"quick": 500, "quick_s": 90, "thorough": 8000, "thorough_s": 780, "det": 5}
RULE = ("Saved models and states, damaged or not (files deleted, truncated, exchanged, bits flipped, versions changed), are loaded into receivers that fit or do not fit "
        "(other structure, other shapes, other identity, quantizers with overrides already present, a slot that is no quantizer) under every conflict policy, with I/O errors and interrupts at any "
        "read; after a load that raised the receiver is compared with what it was and must still accept the intact artifact.")
REAL = ["fastforward.quantization.save_load", "fastforward.serialization", "fastforward.cache", "safetensors", "PyYAML", "json"]
STUB = ["the file system below a scratch directory fails on command", "safetensors' reader is wrapped so that each tensor read is a step that can fail"]
STATE_MEASURE = "hash of (receiver, artifact, policy, error type)"


class Identity(torch.nn.Module):
    def forward(self, x, **kw):
        return x


def generate(rng, cfg):
    arch = A.gen_arch(rng)
    versions = [A.gen_version(rng, p=0.6) for _ in range(2)]
    ops = []
    for _ in range(rng.randint(1, 6)):
        r = rng.random()
        if r < 0.2 and cfg["damage"]:
            ops.append({"op": "damage", "p": rng.randint(0, 1), "spec": {
                "file": rng.randint(0, 5), "kind": rng.choice(["delete", "truncate", "line", "old", "flip", "flip", "flip", "swap", "version"]),
                "frac": rng.choice([0.0, 0.9, 0.98, rng.random(), rng.random()]), "bit": rng.randint(0, 7)}})
        elif r < 0.3:
            ops.append({"op": "save", "p": rng.randint(0, 1), "v": rng.randint(0, 1)})
        else:
            ops.append({"op": "load", "p": rng.randint(0, 1), "r": rng.randint(0, 2), "policy": rng.choice(["error", "error", "skip", "overwrite", "overwrite", "merge"]),
                        "lazy": rng.random() < 0.8, "name": rng.choice(["ok", "ok", "ok", "ok", "wrong", "none"]),
                        "fault": {"at": rng.randint(0, rng.choice([6, 20])), "kind": rng.choice(["eio", "eio", "interrupt"]), "frac": 0.0} if cfg["faults"] and rng.random() < 0.6 else None})
    recv = []
    for _ in range(3):
        v = A.gen_version(rng, p=rng.choice([0.0, 0.15, 0.6]))
        recv.append({"mis": rng.choice([None, None, None, "shape", "shape", "extra", "missing", "slot", "arch"]), "k": rng.randint(0, 9), "v": v,
                     "arch": A.gen_arch(rng), "over": [[rng.randint(0, 9), rng.random() < 0.5] for _ in range(rng.randint(0, 2))], "train": rng.random() < 0.3,
                     "nograd": rng.random() < 0.3})
    return {"arch": arch, "versions": versions, "recv": recv, "ops": ops}


def receiver(sc, spec):
    arch = dict(spec["arch"], cfg=sc["arch"]["cfg"]) if spec["mis"] == "arch" else sc["arch"]
    m = A.version(arch, spec["v"])
    if spec["mis"] == "shape":
        if spec["k"] % 3 == 0:
            m.shift = torch.zeros(5, dtype=m.shift.dtype)
        elif spec["k"] % 3 == 1:
            m.scale_p = torch.nn.Parameter(torch.ones(1, dtype=m.scale_p.dtype))
        else:
            m.layers[-1].bias = torch.nn.Parameter(torch.zeros(1, dtype=m.scale_p.dtype))
    elif spec["mis"] == "extra":
        m.more = torch.nn.Parameter(torch.ones(2))
    elif spec["mis"] == "missing":
        m.layers[spec["k"] % len(m.layers)].weight = None
    elif spec["mis"] == "slot":
        s = A.slots(m)
        mod, name = s[spec["k"] % len(s)]
        setattr(mod, name, Identity())
    qs = [q for q in m.modules() if isinstance(q, ff.nn.Quantizer) and not q.is_stub()]
    for i, off in spec["over"]:
        if qs:
            o = ff.overrides.DisableQuantizationOverride()
            o.attach_to(qs[i % len(qs)])
            o.enable_quantization(not off)
    m.train(spec["train"])
    if spec["nograd"]:
        for p in m.parameters():
            if not torch.nn.parameter.is_lazy(p):
                p.requires_grad_(False)
    return m


def snap(m):
    s = models.snapshot(m)
    for n, b in m.named_buffers(remove_duplicate=False):
        s[f"bufferid {n}"] = id(b)
    for n, q in m.named_modules():
        if isinstance(q, ff.nn.LinearQuantizer):
            s[f"config {n}"] = (q.num_bits, repr(q.granularity), q.symmetric, q.allow_one_sided)
    was = m.training
    s.update(A.state_of(m))
    assert m.training == was
    return s


def execute(sim: Sim, sc):
    fs = FS(sim).install()
    try:
        _execute(sim, sc, fs)
    finally:
        fs.uninstall()


def _execute(sim, sc, fs):
    arch = sc["arch"]
    name = arch["cfg"] or "net/a"
    live = [A.version(arch, v) for v in sc["versions"]]
    history = {0: [], 1: []}
    kw_name = {} if arch["cfg"] else {"name_or_path": name}
    sl = ff.quantization.save_load

    def where(p):
        if p == 0:
            return "art"
        return str(ff.cache.get_assets_path(f"quantization-state/{name}", "main", cache_dir=fs.path("cache")).relative_to(fs.root))

    def save(p, v):
        m = live[v]
        if p == 0:
            ff.quantization.save_quantized_model(m, fs.path("art"), allow_lazy_params=True, **kw_name)
        else:
            sl.save_quantization_state(m, cache_dir=fs.path("cache"), allow_lazy_params=True, **kw_name)
        history[p].append({f.name: f.read_bytes() for f in fs.path(where(p)).iterdir() if f.is_file()})

    def load(m, p, policy, lazy, nm):
        if p == 0:
            kw = {"ok": {"expected_name": name}, "wrong": {"expected_name": "net/b"}, "none": {}}[nm]
            ff.quantization.load_quantized_model(m, fs.path("art"), overwrite_policy=policy, allow_lazy_params=lazy, **kw)
        elif nm == "wrong":  # a path to the config of one model, given to a model that calls itself something else
            sl.load_quantization_state(m, name_or_path=str(fs.path(where(p), "config.yaml")), overwrite_policy=policy, allow_lazy_params=lazy)
        else:
            sl.load_quantization_state(m, cache_dir=fs.path("cache"), overwrite_policy=policy, allow_lazy_params=lazy,
                                       **({} if nm == "none" else {"name_or_path": name}))

    for p in (0, 1):
        save(p, p)
    recv = [receiver(sc, r) for r in sc["recv"]]
    tainted = [False] * len(recv)
    for st in sc["ops"]:
        sim.tick()
        p = st["p"]
        if st["op"] == "save":
            save(p, st["v"])
            sim.event("save", p, st["v"])
        elif st["op"] == "damage":
            if st["spec"]["kind"] == "version":
                f = fs.path(where(p), "manifest.json" if p == 0 and st["spec"]["file"] % 2 else "config.yaml")
                if f.exists():
                    f.write_bytes(f.read_bytes().replace(b"1.0", b"2.0", 1))
                what = "version"
            else:
                what = A.damage(fs, where(p), st["spec"], history[p])
            if what:
                sim.fault("damage_" + st["spec"]["kind"])
            sim.event("damage", p, what)
        else:
            i = st["r"]
            m = recv[i]
            s0 = snap(m)
            _, exc, _ = fs.run(st["fault"], lambda: load(m, p, st["policy"], st["lazy"], st["name"]))
            if exc is None:
                sim.probe("load_ok")
                if sc["recv"][i]["mis"] == "shape" and p == 0:
                    sim.probe("mismatch_accepted")
                sim.event("load", i, p, "ok")
            else:
                d = models.diff(s0, snap(m))
                sim.check(not d, "changed", lambda: f"loading into receiver {i} raised {type(exc).__name__}: {str(exc)[:120]}, but changed the receiver: {d[:4]}")
                sim.probe("load_raised_injected" if is_injected(exc) else "load_raised_" + type(exc).__name__)
                sim.event("load", i, p, type(exc).__name__)
            sim.state(sc["recv"][i]["mis"], p, st["policy"], type(exc).__name__)
        sim.ops_done += 1
    # every receiver that fits must still accept an intact artifact
    for i, m in enumerate(recv):
        r = sc["recv"][i]
        if r["mis"] is not None or r["v"]["dtype"] != sc["versions"][0]["dtype"]:
            continue
        save(0, 0)
        _, exc, _ = fs.run(None, lambda: load(m, 0, "overwrite", True, "ok"))
        if exc is not None:
            raise Violation("unusable", f"after failed loads an intact artifact cannot be loaded any more: {type(exc).__name__}: {exc}") from exc
        sim.probe("reloaded")
