"""C11: saving never disturbs the live model or other saved models."""

from __future__ import annotations

import pathlib

import torch

import fastforward as ff

from sim import artifacts as A
from sim import models
from sim.core import Sim, Violation, is_injected, maybe_op_fault
from sim.fs import FS

PROPERTY = "C11"
CONFIGS = {"plain": {"faults": False, "refuse": False}, "refuse": {"faults": False, "refuse": True}, "faults": {"faults": True, "refuse": False},
           "both": {"faults": True, "refuse": True}}
PLAN = {"quick": 450, "quick_s": 90, "thorough": 7500, "thorough_s": 780, "det": 5}
RULE = ("Several live models are changed, made unsavable (active overrides, uninitialized parameters, non-contiguous weights, attributes that cannot be stored, a file in the way) and saved to several "
        "paths, names and tags, with I/O errors, interrupts and crashes at any file operation; after every save the live models and the bytes at all other places are compared with what they were, "
        "and what an earlier save left is loaded again.")
REAL = ["fastforward.quantization.save_load", "fastforward.serialization", "fastforward.cache", "safetensors", "PyYAML", "json"]
STUB = ["the file system below a scratch directory fails on command"]
STATE_MEASURE = "hash of (what each place holds, refusal reasons in force)"
# no two of these fall together under the documented replacement of separators
TAGS = ["main", "t1", "v/2", "a b", "x:y", "r.1", "Main", "r.2", "r", "r1", "v2", "main-", "x" * 70 + "1", "x" * 70 + "2"]
NAMES = ["net/a", "net/b", "A", "a", "net", "net/a.1", "net/a.2"]


class Closed:
    """Something a configuration file cannot hold."""

    def __reduce__(self):
        raise RuntimeError("cannot be stored")

    def __deepcopy__(self, memo):
        return self


def generate(rng, cfg):
    arch = A.gen_arch(rng)
    arch["cfg"] = None
    nm = rng.randint(1, 3)
    versions = [A.gen_version(rng, lazy=0.03 if cfg["refuse"] else 0.0) for _ in range(nm)]
    places = []
    for _ in range(rng.randint(2, 4)):
        k = rng.random()
        p = ["model", rng.choice(["a0", "a1", "a0/deep", "b/c"]), ""] if k < 0.5 else ["state", rng.choice(rng.choice([TAGS, TAGS, ["main", "Main"], ["r", "r.1", "r.2", "r1"], TAGS[-2:]])), rng.choice(rng.choice([NAMES[:3], NAMES]))]
        if p not in places:
            places.append(p)
    ops = [{"op": "save", "m": rng.randrange(nm), "p": i, "fault": None} for i in range(len(places)) if rng.random() < 0.8]
    for _ in range(rng.randint(3, 9)):
        r = rng.random()
        if r < 0.3 and cfg["refuse"]:
            ops.append({"op": "spoil", "m": rng.randrange(nm), "how": rng.choice(["override", "override", "noncontig", "closed", "lazy", "share"]), "i": rng.randint(0, 9), "on": rng.random() < 0.6})
        elif r < 0.42:
            ops.append({"op": "train", "m": rng.randrange(nm), "seed": rng.randint(0, 999)})
        elif r < 0.55:
            ops.append({"op": "load", "p": rng.randrange(len(places))})
        elif r < 0.6 and cfg["refuse"]:
            ops.append({"op": "block", "p": rng.randrange(len(places))})
        else:
            f = None
            if cfg["faults"] and rng.random() < 0.6:
                f = {"at": rng.randint(0, rng.choice([6, 12, 24])), "kind": rng.choice(["crash", "crash", "enospc", "eio", "interrupt"]), "frac": rng.random()}
                if rng.random() < 0.15:
                    f = {"at": rng.randint(0, 25), "kind": "oom"}
            ops.append({"op": "save", "m": rng.randrange(nm), "p": rng.randrange(len(places)), "fault": f, "noname": cfg["refuse"] and rng.random() < 0.08,
                        "via": rng.choice(["function", "method"])})
    ops += [{"op": "load", "p": i} for i in range(len(places))]
    return {"arch": arch, "versions": versions, "places": places, "ops": ops}


def execute(sim: Sim, sc):
    fs = FS(sim).install()
    try:
        _execute(sim, sc, fs)
    finally:
        fs.uninstall()


def snap(m):
    s = models.snapshot(m)
    for n, b in m.named_buffers(remove_duplicate=False):
        s[f"bufferid {n}"] = id(b)
    for n, q in m.named_modules():
        if isinstance(q, ff.nn.LinearQuantizer):
            s[f"config {n}"] = (q.num_bits, repr(q.granularity), q.symmetric, q.allow_one_sided)
    for n, p in m.named_parameters():
        s[f"layout {n}"] = None if torch.nn.parameter.is_lazy(p) else (p.stride(), p.data_ptr(), p.grad is None)
    with ff.strict_quantization(False), torch.no_grad():
        for seed in (1, 2):
            try:
                s[f"out{seed}"] = models.tdigest(m(models.batch(seed).to(m.scale_p.dtype)))
            except Exception as e:  # noqa: BLE001
                s[f"out{seed}"] = "uninitialized" if "uninitialized" in str(e) else repr(e)
    return s


def _execute(sim, sc, fs):
    arch, places = sc["arch"], sc["places"]
    sl = ff.quantization.save_load
    live = [A.version(arch, v) for v in sc["versions"]]
    dtypes = [v["dtype"] for v in sc["versions"]]
    spoiled = [set() for _ in live]
    overs: list[dict] = [{} for _ in live]
    holds: dict[int, tuple] = {}  # place -> (state, dtype, spoilt?) certainly stored there
    unsure: set[int] = set()

    dirs = [fs.path(tag) if kind == "model" else pathlib.Path(ff.cache.get_assets_path(f"quantization-state/{name}", tag, cache_dir=fs.path("cache")))
            for kind, tag, name in places]

    def pdir(p):
        return dirs[p]

    def save(m, p, noname):
        kind, tag, name = places[p]
        if kind == "model":
            return ff.quantization.save_quantized_model(m, fs.path(tag), **({} if noname else {"name_or_path": "net/a"}))
        return sl.save_quantization_state(m, tag=tag, cache_dir=fs.path("cache"), **({} if noname else {"name_or_path": name}))

    def load(m, p):
        kind, tag, name = places[p]
        if kind == "model":
            return ff.quantization.load_quantized_model(m, fs.path(tag), expected_name="net/a")
        return sl.load_quantization_state(m, tag=tag, cache_dir=fs.path("cache"), name_or_path=name)

    def state(m, p, weights=None):
        return A.state_of(m, weights=places[p][0] == "model")

    def verify(p, what):
        if p not in holds:
            return
        want, dt = holds[p]
        m = A.fresh(arch, dt)
        _, exc, _ = fs.run(None, lambda: load(m, p))
        if exc is not None:
            raise Violation("lost", f"{what}: what was saved to {places[p]} before cannot be loaded any more: {type(exc).__name__}: {exc}") from exc
        got = state(m, p)
        d = [f"{k}: {want.get(k)} -> {got.get(k)}" for k in {**want, **got} if want.get(k) != got.get(k)]
        sim.check(not d, "altered", lambda: f"{what}: what was saved to {places[p]} before now loads differently: {d[:3]}")
        sim.probe("verified")

    def bytes_of(q):
        d = pdir(q)
        return {f.name: f.read_bytes() for f in d.iterdir() if f.is_file()} if d.is_dir() else d.read_bytes() if d.is_file() else {}

    for st in sc["ops"]:
        sim.tick()
        op = st["op"]
        if op == "spoil":
            i = st["m"]
            m = live[i]
            qs = [q for q in m.modules() if isinstance(q, ff.nn.Quantizer) and not q.is_stub()]
            how = st["how"]
            if how == "override" and qs:
                q = qs[st["i"] % len(qs)]
                if id(q) in overs[i]:
                    overs[i].pop(id(q)).detach()
                else:
                    o = ff.overrides.DisableQuantizationOverride()
                    o.attach_to(q)
                    o.enable_quantization(st["on"])
                    overs[i][id(q)] = o
            elif how == "noncontig":
                lin = m.lins()[st["i"] % len(m.lins())]
                with torch.no_grad():
                    lin.weight = torch.nn.Parameter(lin.weight.detach().clone().t())
                spoiled[i].add(how)
            elif how == "closed" and qs:
                qs[st["i"] % len(qs)].note = Closed()
                spoiled[i].add(how)
            elif how == "lazy":
                s = A.slots(m)
                mod, name = s[st["i"] % len(s)]
                setattr(mod, name, ff.nn.LinearQuantizer(4))
                spoiled[i].add(how)
            elif how == "share":
                big = torch.zeros(8, dtype=m.shift.dtype)
                m.shift = big[:4]
                m.shift2 = big[2:6]
                spoiled[i].add(how)
            sim.event("spoil", i, how)
        elif op == "train":
            m = live[st["m"]]
            g = torch.Generator().manual_seed(st["seed"])
            with torch.no_grad():
                for p in m.parameters():
                    if not torch.nn.parameter.is_lazy(p):
                        p.mul_(1 + 0.1 * torch.rand(p.shape, generator=g).to(p.dtype))
            m.train(bool(st["seed"] % 2))
            sim.event("train", st["m"])
        elif op == "block":
            d = pdir(st["p"])
            if not d.exists() and st["p"] not in holds and not any(a.is_file() for a in d.parents):
                d.parent.mkdir(parents=True, exist_ok=True)
                d.write_bytes(b"in the way")
                sim.event("block", st["p"])
        elif op == "load":
            verify(st["p"], "later")
            sim.event("load", st["p"], st["p"] in holds)
        else:
            i, p = st["m"], st["p"]
            before = [snap(m) for m in live]
            others = {q: bytes_of(q) for q in range(len(places)) if q != p}
            flt = st["fault"]
            if flt and flt["kind"] == "oom":
                def go():
                    with maybe_op_fault(sim, flt):
                        return save(live[i], p, st.get("noname", False))
                _, exc, crashed = fs.run(None, go)
            else:
                _, exc, crashed = fs.run(flt, lambda: save(live[i], p, st.get("noname", False)))
            what = f"saving model {i} to {places[p]} " + ("crashed" if crashed else "succeeded" if exc is None else f"raised {type(exc).__name__}: {str(exc)[:100]}")
            if not crashed:  # the process lives on
                for j, m in enumerate(live):
                    d = models.diff(before[j], snap(m))
                    sim.check(not d, "live", lambda: f"{what}, and changed live model {j}: {d[:4]}")
            for q, b in others.items():
                sim.check(bytes_of(q) == b, "other", lambda: f"{what}, and changed the files of {places[q]}")
            if crashed or (exc is not None and is_injected(exc)):
                holds.pop(p, None)
                sim.probe("save_cut")
            elif exc is not None:
                if not spoiled[i] and not overs[i] and not st.get("noname", False) and pdir(p).is_dir() and not any(
                        getattr(x, "has_uninitialized_params", False) for x in live[i].modules() if isinstance(x, ff.nn.Quantizer)):
                    raise Violation("unexpected-error", what) from exc
                sim.probe("save_refused")
                verify(p, what)
            else:
                sim.probe("saved")
                holds.pop(p, None)
                if not overs[i] and "lazy" not in spoiled[i] and "share" not in spoiled[i]:
                    holds[p] = (state(live[i], p), dtypes[i])
            sim.event("save", i, p, "crashed" if crashed else type(exc).__name__)
        sim.ops_done += 1
        sim.state(sorted(holds), [sorted(s) for s in spoiled])
