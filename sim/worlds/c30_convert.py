"""C30: converting a model to quantized modules is exact and can be resumed."""

from __future__ import annotations

import copy

from typing import Any

import torch

import fastforward as ff

from sim import models
from sim.core import Sim, catch, is_injected, public_flags, raise_fault, tdigest

PROPERTY = "C30"
CONFIGS = {"plain": {"faults": False}, "faults": {"faults": True}}
PLAN = {"quick": 2400, "quick_s": 80, "thorough": 20000, "thorough_s": 780, "det": 6}
RULE = ("History of definitions of quantized classes (several per module class, subclasses, not to be discovered), conversions of random module trees with shared modules (whole or "
        "in part, with additional or skipped conversions, surrogates, over converted parts) whose quantization initializers fail or are interrupted at any point, attached "
        "quantizers and hooks; class, contents, identity and results of every module are compared with a model of the conversion map.")
REAL = ["fastforward.nn.quantized_module", "fastforward.nn.quantizer", "fastforward.nn.container, linear, activations, ..."]
STUB = ["quantization initializers of toy modules (may fail)"]
STATE_MEASURE = "hash of (class of every module, kind of conversion, outcome)"

TORCH = {"lin": torch.nn.Linear, "relu": torch.nn.ReLU, "ln": torch.nn.LayerNorm, "seq": torch.nn.Sequential, "list": torch.nn.ModuleList}
TORCH_STUBS = {"lin": {"input_quantizer", "weight_quantizer", "bias_quantizer", "output_quantizer"}, "relu": {"input_quantizer", "output_quantizer"},
               "ln": {"input_quantizer", "weight_quantizer", "bias_quantizer", "output_quantizer"}, "seq": set(), "list": set()}
KNOWN_MAP = {"lin": ff.nn.QuantizedLinear, "relu": ff.nn.QuantizedRelu, "ln": ff.nn.QuantizedLayerNorm, "seq": ff.nn.QuantizedSequential, "list": ff.nn.QuantizedModuleList}


# ------------------------------------------------------------------ generation


def gen_tree(rng, depth, st):
    r = rng.random()
    if depth and r < 0.45:
        c = rng.choice(["box", "box", "seq", "list"])
        return {"c": c, "kids": [gen_tree(rng, depth - 1, st) for _ in range(rng.randint(0 if c != "box" else 1, 3))]}
    if r < 0.6 and st["n"]:
        return {"c": "share", "k": rng.randint(0, 5)}
    st["n"] += 1
    return {"c": rng.choice(["leaf", "leaf", "leaf2", "odd", "lin", "relu", "ln"]), "seed": rng.randint(0, 99)}


def gen_extra(rng):
    out = []
    for c in ("leaf", "leaf2", "box", "odd", "lin", "seq"):
        if rng.random() < (0.5 if c == "odd" else 0.12):
            out.append([c, rng.choice(["skip", "def", "def"]), rng.randint(0, 5)])
    return out


def generate(rng, cfg):
    st = {"n": 0}
    tree = {"c": "box", "kids": [gen_tree(rng, 2, st) for _ in range(rng.randint(1, 3))]}
    ops: list[dict] = []
    for b in ("leaf", "leaf2", "box", "odd"):
        if rng.random() < (0.4 if b == "odd" else 0.92):
            ops.append({"op": "define", "b": b, "parent": None, "auto": True, "n": rng.randint(0, 2)})
    for _ in range(rng.randint(2, 8)):
        r = rng.random()
        if r < 0.14:
            ops.append({"op": "define", "b": rng.choice(["leaf", "leaf", "leaf2", "box", "odd"]), "parent": rng.randint(0, 5) if rng.random() < 0.4 else None,
                        "auto": rng.random() < 0.7, "n": rng.randint(0, 2)})
        elif r < 0.7:
            f = None
            if cfg["faults"] and rng.random() < 0.6:
                f = {"at": rng.randint(1, 14), "kind": rng.choice(["error", "interrupt", "oom"])}
            ops.append({"op": "convert", "root": 0 if rng.random() < 0.6 else rng.randint(0, 9), "rec": rng.random() < 0.9, "skip": rng.random() < 0.55,
                        "extra": gen_extra(rng), "sur": rng.random() < 0.25, "ign": rng.random() < 0.08, "fault": f, "retry": rng.random() < 0.7})
        elif r < 0.8:
            ops.append({"op": "attach", "m": rng.randint(0, 9), "q": models.gen_quantizer(rng, plain=0.2), "k": rng.randint(0, 3)})
        elif r < 0.88:
            ops.append({"op": "hook", "m": rng.randint(0, 9)})
        elif r < 0.94:
            ops.append({"op": "train", "m": rng.randint(0, 9), "on": rng.random() < 0.5})
        else:
            ops.append({"op": "new", "d": rng.randint(0, 5)})
    return {"tree": tree, "ops": ops}


# ------------------------------------------------------------------ world


class Toy(torch.nn.Module):
    pass


class World:
    def __init__(self, sim: Sim, sc: dict) -> None:
        self.sim = sim
        self.inits: dict[int, int] = {}
        self.calls, self.fault = 0, None

        class Leaf(torch.nn.Module):
            def __init__(self, seed):
                super().__init__()
                self.w = torch.nn.Parameter(torch.tensor([1.0, 0.5, -2.0, 1.5]) + seed * 0.125)
                self.register_buffer("b", torch.full((4,), 0.25 * seed))

            def forward(self, x):
                return models.deq(x) * self.w + self.b

        class Leaf2(Leaf):
            pass

        class Box(torch.nn.Module):
            def __init__(self, kids):
                super().__init__()
                for i, k in enumerate(kids):
                    setattr(self, f"k{i}", k)

            def forward(self, x):
                for n, k in list(self._modules.items()):
                    if n[0] == "k":
                        x = run(k, x)
                return x

        class Odd(torch.nn.Module):
            def forward(self, x):
                return models.deq(x) * 0.5

        def run(k, x):
            if isinstance(k, torch.nn.ModuleList):
                for y in k:
                    x = run(y, x)
                return x
            return k(x)

        self.run = run
        self.base = {"leaf": Leaf, "leaf2": Leaf2, "box": Box, "odd": Odd, **TORCH}
        self.defs: list[dict] = []  # {"cls", "b", "stubs"}
        self.auto: dict[str, list[int]] = {}
        self.mods: list[torch.nn.Module] = []
        self.root = self.build(sc["tree"])
        # the model
        self.kind: dict[int, str] = {}
        for m in self.mods:
            self.kind[id(m)] = next(b for b, t in self.base.items() if type(m) is t)
        self.cls: dict[int, Any] = {id(m): None for m in self.mods}  # None, index of a definition, "t" (torch class), ("sur", b)
        self.quants: dict[tuple[int, str], torch.nn.Module] = {}
        self.hooked: dict[int, int] = {}
        self.hits: list[int] = []

    def build(self, t):
        c = t["c"]
        if c == "share":
            ok = [m for m in self.mods if not list(m.children())]
            if ok:
                return ok[t["k"] % len(ok)]
            c = "leaf"
        kids = [self.build(k) for k in t.get("kids", ())]
        if c in ("leaf", "leaf2"):
            m = self.base[c](t.get("seed", 0))
        elif c == "box":
            m = self.base["box"](kids)
        elif c == "seq":
            m = torch.nn.Sequential(*[k for k in kids if not isinstance(k, torch.nn.ModuleList)])
        elif c == "list":
            m = torch.nn.ModuleList(kids)
        elif c == "odd":
            m = self.base["odd"]()
        else:
            torch.manual_seed(t["seed"])
            m = {"lin": lambda: torch.nn.Linear(4, 4), "relu": torch.nn.ReLU, "ln": lambda: torch.nn.LayerNorm(4)}[c]()
        self.mods.append(m)
        return m

    # -- definitions

    def hook_init(self, m, where):
        self.calls += 1
        f = self.fault
        if f and self.calls == f["at"]:
            self.fault = None
            raise_fault(self.sim, f["kind"])

    def define(self, op):
        w = self
        parent = None
        ok = [d for d in self.defs if d["b"] == op["b"]]
        if op["parent"] is not None and ok:
            parent = ok[op["parent"] % len(ok)]
        n = len(self.defs)
        names = [f"q{n}_{i}" for i in range(op["n"])]

        def init(self):
            w.inits[id(self)] = w.inits.get(id(self), 0) + (cls is type(self))
            w.hook_init(self, "before")
            super(cls, self).__init_quantization__()
            w.hook_init(self, "between")
            for x in names:
                setattr(self, x, ff.nn.QuantizerStub())
                w.hook_init(self, x)
            self.note = n

        bases = (parent["cls"],) if parent else (ff.nn.QuantizedModule, self.base[op["b"]])
        cls = type(ff.nn.QuantizedModule)(f"Q{op['b']}{n}", bases, {"__init_quantization__": init}, include_in_module_map=op["auto"])
        self.defs.append({"cls": cls, "b": op["b"], "stubs": set(names) | (parent["stubs"] if parent else set())})
        # a class without a module base of its own belongs to the only plain module class it descends from
        if op["auto"] and (parent is None or op["b"] != "leaf2"):
            self.auto.setdefault(op["b"], []).append(n)

    # -- model

    def map(self, extra, ign, sur):
        m: dict[str, Any] = {}
        if not ign:
            m = {b: v[-1] for b, v in self.auto.items()}
            m.update({b: "t" for b in TORCH})
        for b, v in sur.items():
            m[b] = v
        m.update(extra)
        return m

    def real_class(self, b, v):
        return KNOWN_MAP[b] if v == "t" else self.defs[v]["cls"]

    def stubs(self, m):
        v = self.cls[id(m)]
        if v is None or isinstance(v, tuple):
            return set()
        return TORCH_STUBS[self.kind[id(m)]] if v == "t" else self.defs[v]["stubs"]

    def below(self, root):
        return [m for m in root.modules() if id(m) in self.cls]

    def missing(self, root, mp, skip):
        out = set()
        for m in self.below(root):
            if self.cls[id(m)] is None:
                if self.kind[id(m)] not in mp:
                    out.add(self.kind[id(m)])
            elif not skip:
                out.add("quantized")
        return out

    def target(self, root, mp, rec):
        """Modules that are converted, and to what."""
        out: dict[int, Any] = {}
        seen = set()

        def go(m):
            if id(m) in seen:
                return
            seen.add(id(m))
            quantized = self.cls[id(m)] is not None
            if not quantized:
                v = mp[self.kind[id(m)]]
                if v == "skip":
                    return
                out[id(m)] = v
            if rec:
                for c in m.children():
                    if id(c) in self.cls:
                        go(c)

        go(root)
        return out

    # -- observation

    def snap(self, m):
        d = vars(m)
        return {
            "class": type(m),
            "keys": sorted(d),
            "mods": {k: id(v) for k, v in m._modules.items()},
            "params": {k: (id(v), tdigest(v)) for k, v in m._parameters.items()},
            "buffers": {k: (id(v), tdigest(v)) for k, v in m._buffers.items()},
            "hooks": len(m._forward_hooks), "train": m.training,
        }

    def output(self):
        self.hits.clear()
        with ff.strict_quantization(False), torch.no_grad():
            y = self.run(self.root, torch.tensor([[0.5, -1.0, 2.0, 0.25]]))
        return tdigest(models.deq(y)), list(self.hits)

    def converted_ok(self, where, m, before, v):
        """m went from `before` to its conversion v."""
        sim, now = self.sim, self.snap(m)
        name = f"{self.kind[id(m)]} #{self.mods.index(m)}"
        want = self.real_class(self.kind[id(m)], v) if not isinstance(v, tuple) else None
        if want is not None:
            sim.check(now["class"] is want, "class", f"{where}: {name} became {now['class'].__name__}, the conversion map says {want.__name__}")
        else:
            sim.check(issubclass(now["class"], (ff.nn.QuantizedModule,)) and issubclass(now["class"], before["class"]) and now["class"].__name__ == f"Quantized{before['class'].__name__}Surrogate",
                      "class", f"{where}: {name} became {now['class'].__name__} instead of a surrogate")
        for k in ("params", "buffers", "hooks", "train"):
            sim.check(now[k] == before[k], "contents", f"{where}: {k} of {name} changed")
        new = set(now["mods"]) - set(before["mods"])
        stubs = set() if isinstance(v, tuple) else (TORCH_STUBS[self.kind[id(m)]] if v == "t" else self.defs[v]["stubs"])
        sim.check({k: now["mods"][k] for k in before["mods"] if k in now["mods"]} == before["mods"], "children", f"{where}: the children of {name} changed")
        new = {k for k in new if getattr(m, k) is not None}
        sim.check(new == stubs, "stubs", f"{where}: {name} has the new children {sorted(new)}, expected {sorted(stubs)}")
        sim.check(all(isinstance(getattr(m, k), ff.nn.QuantizerStub) for k in new), "stubs", f"{where}: {name} has children that are no stubs")
        if isinstance(v, int):
            sim.check(self.inits.get(id(m), 0) == 1, "initialized", f"{where}: {name} was initialized {self.inits.get(id(m), 0)} times")
        meta = vars(m).get("_quantizer_metadata")
        sim.check(meta is not None and set(meta) == stubs, "metadata", f"{where}: {name} has metadata for {sorted(meta or ())}, expected {sorted(stubs)}")

    # -- operations

    def convert(self, k, op, retry=False):
        sim = self.sim
        root = self.mods[op["root"] % len(self.mods)] if op["root"] else self.root
        where = f"op {k}{' (again)' if retry else ''}"
        extra, real = {}, {}
        for b, how, i in op["extra"]:
            if how == "skip":
                extra[b], real[self.base[b]] = "skip", ff.nn.quantized_module.SKIP_QUANTIZATION
            else:
                ok = [n for n, d in enumerate(self.defs) if d["b"] == b]
                if ok:
                    extra[b] = ok[i % len(ok)]
                    real[self.base[b]] = self.defs[extra[b]]["cls"]
        sur = {}
        if op["sur"]:
            mp = self.map(extra, op["ign"], {})
            sur = {b: ("sur", b) for b in self.missing(root, mp, True)}
            before_map = dict(ff.nn.quantized_module.quantized_module_map())
            given = dict(real)
            made = ff.nn.surrogate_quantized_modules(root, extra_conversion=given, ignore_global_module_map=op["ign"]) if hasattr(ff.nn, "surrogate_quantized_modules") else \
                ff.nn.quantized_module.surrogate_quantized_modules(root, extra_conversion=given, ignore_global_module_map=op["ign"])
            sim.check(set(made) == {self.base[b] for b in sur}, "surrogates", f"{where}: surrogates for {[t.__name__ for t in made]}, missing are {sorted(sur)}")
            sim.check(given == real and ff.nn.quantized_module.quantized_module_map() == before_map, "surrogates", f"{where}: making surrogates changed a conversion map")
            real = {**made, **real}
        mp = self.map(extra, op["ign"], sur)
        missing = self.missing(root, mp, op["skip"])
        deep_only = bool(missing) and not op["rec"]
        before = {id(m): self.snap(m) for m in self.mods}
        out0, flags0 = self.output(), public_flags()
        self.inits.clear()
        self.calls, self.fault = 0, None if retry else copy.copy(op["fault"])
        given = dict(real)
        res, exc = catch(lambda: ff.quantize_model(root, op["rec"], given or None, op["skip"], ignore_global_module_map=op["ign"]))
        fired = exc is not None and is_injected(exc)
        self.fault = None
        outcome = "ok" if exc is None else "fault" if fired else "refused"
        sim.event(k, "convert", outcome, op["skip"], op["rec"])
        sim.probe(f"convert {outcome}")
        sim.check(given == real, "map", f"{where}: the conversion map of the caller changed")
        sim.check(public_flags() == flags0, "modes", f"{where}: modes changed")
        if missing:
            if not deep_only:
                sim.check(outcome == "refused" and isinstance(exc, ff.exceptions.QuantizationError), "refusal", f"{where}: no conversion for {sorted(missing)}, but the outcome is {outcome}: {exc!r}")
            if outcome == "refused":
                for m in self.mods:
                    sim.check(self.snap(m) == before[id(m)], "refused-change", f"{where}: the conversion was refused, but {self.kind[id(m)]} #{self.mods.index(m)} changed")
                return outcome
            if deep_only and self.kind[id(root)] not in mp:
                return outcome
        sim.check(outcome != "refused", "refusal", f"{where}: {type(exc).__name__}: {str(exc)[:200]}")
        target = self.target(root, mp, op["rec"])
        for m in self.mods:
            i = id(m)
            if i not in target:
                sim.check(self.snap(m) == before[i], "untouched", f"{where}: {self.kind[i]} #{self.mods.index(m)} is not to be converted, but changed")
            elif outcome == "ok" or type(m) is not before[i]["class"]:
                self.converted_ok(where, m, before[i], target[i])
                self.cls[i] = target[i]
            else:
                sim.check(self.snap(m) == before[i], "half-converted", f"{where}: {self.kind[i]} #{self.mods.index(m)} was not converted, but changed: {before[i]['keys']} -> {sorted(vars(m))}, children {sorted(m._modules)}")
        if outcome == "ok":
            sim.check(res is root, "returned", f"{where}: another object was returned")
        sim.check(self.output() == out0, "output", f"{where}: the model computes something else after the conversion")
        for (i, n), q in self.quants.items():
            m = next(m for m in self.mods if id(m) == i)
            sim.check(getattr(m, n) is q, "quantizer-lost", f"{where}: {n} was replaced")
        return outcome

    def do(self, k, op):
        sim = self.sim
        if op["op"] == "define":
            self.define(op)
        elif op["op"] == "convert":
            out = self.convert(k, op)
            if out == "fault" and op["retry"]:
                sim.probe("resumed")
                again = {**op, "skip": True, "fault": None}
                sim.check(self.convert(k, again, retry=True) == "ok", "resume", f"op {k}: the conversion could not be resumed")
        elif op["op"] == "attach":
            m = self.mods[op["m"] % len(self.mods)]
            names = sorted(self.stubs(m))
            if names:
                n = names[op["k"] % len(names)]
                q = models.make_quantizer(op["q"] if n not in ("weight_quantizer", "bias_quantizer") else {**op["q"], "g": "pt"})
                if getattr(q, "granularity", None) is not None and op["q"]["g"] == "pc":
                    q = models.make_quantizer({**op["q"], "g": "pt"})
                setattr(m, n, q)
                self.quants[(id(m), n)] = q
        elif op["op"] == "hook":
            m = self.mods[op["m"] % len(self.mods)]
            i = self.mods.index(m)
            m.register_forward_hook(lambda *a, i=i: self.hits.append(i))
        elif op["op"] == "train":
            self.mods[op["m"] % len(self.mods)].train(op["on"])
        elif op["op"] == "new" and self.defs:
            d = self.defs[op["d"] % len(self.defs)]
            self.inits.clear()
            m = d["cls"]([]) if d["b"] == "box" else d["cls"]() if d["b"] == "odd" else d["cls"](1)
            names = {n for n, _ in m.named_quantizers(skip_stubs=False)}
            sim.check(self.inits.get(id(m), 0) == 1 and names == d["stubs"], "constructed", lambda: f"op {k}: {d['cls'].__name__}: initialized {self.inits.get(id(m), 0)} times, quantizers {names}")
        # what the map says for the toy classes
        got = ff.nn.quantized_module.quantized_module_map()
        for b in ("leaf", "leaf2", "box", "odd"):
            want = self.defs[self.auto[b][-1]]["cls"] if self.auto.get(b) else None
            sim.check(got.get(self.base[b]) is want, "conversion-map", lambda: f"op {k}: {b} maps to {got.get(self.base[b])}, expected {want}")
        sim.ops_done += 1
        sim.state([str(v) for v in self.cls.values()], op["op"])


def execute(sim: Sim, sc):
    ff.set_strict_quantization(True)
    w = World(sim, sc)
    for k, op in enumerate(sc["ops"]):
        w.do(k, op)
