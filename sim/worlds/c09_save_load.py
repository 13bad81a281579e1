"""C09: a saved quantized model reloads exactly, or loading says it cannot."""

from __future__ import annotations

import contextlib

import fastforward as ff

from sim import artifacts as A
from sim.core import Sim, SimCrash, Violation, is_injected
from sim.fs import FS

PROPERTY = "C09"
CONFIGS = {"plain": {"faults": False, "damage": False}, "crash": {"faults": True, "damage": False}, "damage": {"faults": False, "damage": True},
           "both": {"faults": True, "damage": True}}
PLAN = {"quick": 500, "quick_s": 100, "thorough": 8000, "thorough_s": 780, "det": 5}
RULE = ("History of saves of several versions of a quantized model to several places, each possibly cut short by a crash (torn writes), a full disk, an I/O error or an interrupt, "
        "of damage to the stored files (deleted, truncated, replaced by the file of another save), and of loads into fresh models, which are compared bit for bit with the versions saved.")
REAL = ["fastforward.quantization.save_load", "fastforward.serialization", "fastforward.cache", "safetensors", "PyYAML", "json"]
STUB = ["the file system below a scratch directory fails on command (open, write, mkdir, rename, unlink, safetensors' file writer and reader)"]
STATE_MEASURE = "hash of (version last saved per place, damage per place)"
PLACES = [("model", "a0"), ("model", "a1"), ("state", "main"), ("state", "t1")]


def generate(rng, cfg):
    arch = A.gen_arch(rng)
    arch["dtype"] = rng.choice(["float32"] * 3 + ["bfloat16", "float64"])
    versions = [A.gen_version(rng) for _ in range(rng.randint(1, 3))]
    places = rng.sample(range(len(PLACES)), rng.randint(1, 2))
    ops = [{"op": "save", "v": 0, "p": places[0], "fault": None}]
    for _ in range(rng.randint(2, 8)):
        r = rng.random()
        p = rng.choice(places)
        if r < 0.45:
            f = None
            if cfg["faults"] and rng.random() < 0.7:
                f = {"at": rng.randint(0, rng.choice([6, 12, 24])), "kind": rng.choice(["crash", "crash", "crash", "enospc", "eio", "interrupt"]),
                     "frac": rng.choice([0.0, 0.3, 0.5, 0.9, 0.99, 1.0, rng.random()])}
            ops.append({"op": "save", "v": rng.randrange(len(versions)), "p": p, "fault": f})
        elif r < 0.62 and cfg["damage"]:
            ops.append({"op": "damage", "p": p, "spec": {"file": rng.randint(0, 5), "kind": rng.choice(["delete", "truncate", "line", "line", "old", "old"]),
                                                         "frac": rng.choice([0.0, 0.5, 0.9, 0.98, rng.random()]), "bit": rng.randint(0, 7)}})
        else:
            ops.append({"op": "load", "p": p, "slow": rng.random() < 0.3,
                        "fault": {"at": rng.randint(0, 12), "kind": rng.choice(["eio", "interrupt"]), "frac": 0.0} if cfg["faults"] and rng.random() < 0.25 else None})
    ops.append({"op": "load", "p": rng.choice(places), "fault": None})
    return {"arch": arch, "versions": versions, "ops": ops}


def lazy(m):
    return any(getattr(q, "has_uninitialized_params", False) for q in m.modules() if isinstance(q, ff.nn.Quantizer))


def execute(sim: Sim, sc):
    fs = FS(sim).install()
    try:
        _execute(sim, sc, fs)
    finally:
        fs.uninstall()


def _execute(sim, sc, fs):
    arch = sc["arch"]
    name = arch["cfg"] or "net/a"
    dtype = arch["dtype"]
    versions = [dict(v, dtype=dtype) for v in sc["versions"]]
    live = [A.version(arch, v) for v in versions]
    lz = any(lazy(m) for m in live)
    want = {"model": [A.state_of(m) for m in live], "state": [A.state_of(m, weights=False) for m in live]}
    clean = {}  # place -> version it certainly holds
    attempted = {"model": set(), "state": set()}
    history = {"model": [], "state": []}  # files of every complete save
    damaged = set()

    def place_dir(p):
        kind, tag = PLACES[p]
        if kind == "model":
            return tag
        return str(ff.cache.get_assets_path(f"quantization-state/{name}", tag, cache_dir=fs.path("cache")).relative_to(fs.root))

    def save(m, p):
        kind, tag = PLACES[p]
        kw = {} if arch["cfg"] else {"name_or_path": name}
        if kind == "model":
            return ff.quantization.save_quantized_model(m, fs.path(tag), allow_lazy_params=lz, **kw)
        return ff.quantization.save_load.save_quantization_state(m, tag=tag, cache_dir=fs.path("cache"), allow_lazy_params=lz, **kw)

    def load(m, p):
        kind, tag = PLACES[p]
        if kind == "model":
            return ff.quantization.load_quantized_model(m, fs.path(tag), allow_lazy_params=lz, **({} if arch["cfg"] else {"expected_name": name}))
        kw = {} if arch["cfg"] else {"name_or_path": name}
        return ff.quantization.save_load.load_quantization_state(m, tag=tag, cache_dir=fs.path("cache"), allow_lazy_params=lz, **kw)

    for st in sc["ops"]:
        sim.tick()
        p = st["p"]
        kind = PLACES[p][0]
        if st["op"] == "save":
            v = st["v"]
            attempted[kind].add(v)
            _, exc, crashed = fs.run(st["fault"], lambda: save(live[v], p))
            if exc is not None and not is_injected(exc):
                raise Violation("unexpected-error", f"saving failed: {type(exc).__name__}: {exc}") from exc
            if crashed or exc is not None:
                clean.pop(p, None)
                sim.probe("save_crashed" if crashed else "save_failed")
            else:
                clean[p] = v
                damaged.discard(p)
                d = fs.path(place_dir(p))
                history[kind].append({f.name: f.read_bytes() for f in d.iterdir() if f.is_file()})
                sim.probe("saved")
            sim.event("save", p, v, "crashed" if crashed else exc is not None, fs.n)
        elif st["op"] == "damage":
            if p not in clean and p not in damaged:
                pass
            what = A.damage(fs, place_dir(p), st["spec"], history[kind])
            if what:
                sim.fault("damage_" + st["spec"]["kind"])
                clean.pop(p, None)
                damaged.add(p)
            sim.event("damage", p, what)
        else:
            m = A.fresh(arch, dtype)
            _, exc, _ = fs.run(st["fault"], lambda: load(m, p))
            if exc is not None:
                if p in clean and not is_injected(exc):
                    raise Violation("cannot-load", f"loading what was completely saved failed: {type(exc).__name__}: {exc}") from exc
                sim.probe("load_raised")
                sim.event("load", p, "raised")
                continue
            got = A.state_of(m, weights=kind == "model")
            if p in clean:
                d = diff(want[kind][clean[p]], got)
                sim.check(not d, "not-exact", lambda: f"version {clean[p]} was saved to {PLACES[p]} and reloaded with differences: {d[:3]}")
                sim.probe("load_exact")
            else:
                ok = [v for v in sorted(attempted[kind]) if want[kind][v] == got]
                sim.check(bool(ok), "mixture", lambda: f"loading {PLACES[p]} succeeded but the result is none of the saved versions: "
                          f"{[diff(want[kind][v], got)[:2] for v in sorted(attempted[kind])]}")
                sim.probe("load_survived")
            sim.event("load", p, sorted(got.items()))
        sim.ops_done += 1
        sim.state(sorted(clean.items()), sorted(damaged))


def diff(a, b):
    return [f"{k}: {a.get(k)} -> {b.get(k)}" for k in {**a, **b} if a.get(k) != b.get(k)]
