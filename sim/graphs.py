"""Random module graphs and an independent reference evaluation of them."""

from __future__ import annotations

import collections
import dataclasses

from typing import Any, Callable

import torch

from sim.core import tdigest

Pair = collections.namedtuple("Pair", ["left", "right"])


@dataclasses.dataclass
class Obj:
    u: Any
    v: Any


# ------------------------------------------------------------------ values

PATHS: dict[str, list[tuple]] = {
    "t": [()],
    "tup": [(0,), (1,), (2, 0), (2, 1), (2,)],
    "dict": [("a",), ("values",), ("c", 0), ("c",)],
    "obj": [("u",), ("v", 0), ("v", 1), ("v",)],
    "nt": [("left",), ("right",), (0,), (1,)],
    "list": [(0,), (1,)],
    "p2": [(0,), (1,)],
    "p1": [(0,)],
}
SUBKIND = {("tup", (2,)): "p2", ("dict", ("c",)): "p1", ("obj", ("v",)): "p2"}


def follow(value: Any, path: tuple) -> Any:
    for a in path:
        if isinstance(a, int):
            value = value[a]
        elif isinstance(value, dict):
            value = value[a]
        else:
            value = getattr(value, a)
    return value


def leaves(v: Any) -> list[torch.Tensor]:
    if isinstance(v, torch.Tensor):
        return [v]
    if isinstance(v, dict):
        return [t for k in sorted(v) for t in leaves(v[k])]
    if isinstance(v, Obj):
        return leaves((v.u, v.v))
    if isinstance(v, (tuple, list)):
        return [t for x in v for t in leaves(x)]
    return []


def digest(v: Any) -> Any:
    if isinstance(v, torch.Tensor):
        return tdigest(v)
    if isinstance(v, dict):
        return ("dict", tuple((k, digest(v[k])) for k in sorted(v)))
    if isinstance(v, Obj):
        return ("obj", digest(v.u), digest(v.v))
    if isinstance(v, (tuple, list)):
        return (type(v).__name__, tuple(digest(x) for x in v))
    return repr(v)


# ------------------------------------------------------------------ nodes


def combine(c: int, args: list[Any], kwargs: dict[str, Any]) -> torch.Tensor:
    """Exact integer arithmetic, sensitive to which argument arrives where."""
    acc = torch.full((2, 4), float(c % 7 + 1), dtype=torch.float64)
    for i, a in enumerate(args):
        for j, t in enumerate(leaves(a)) if not isinstance(a, (int, float)) else [(0, torch.tensor(float(a), dtype=torch.float64))]:
            acc = acc + t * float(1 + (i * 5 + j * 3 + c) % 11)
    for k in sorted(kwargs):
        a = kwargs[k]
        for j, t in enumerate(leaves(a)) if not isinstance(a, (int, float)) else [(0, torch.tensor(float(a), dtype=torch.float64))]:
            acc = acc + t * float(13 + (ord(k[-1]) * 5 + j) % 17)
    return torch.remainder(acc, 8191.0)


def produce(kind: str, c: int, args: list[Any], kwargs: dict[str, Any]) -> Any:
    t = combine(c, args, kwargs)
    if kind == "t":
        return t
    if kind == "tup":
        return (t + 1, t + 2, (t + 3, t + 4))
    if kind == "dict":
        return {"a": t + 1, "values": t + 2, "c": (t + 3,)}
    if kind == "obj":
        return Obj(t + 1, (t + 2, t + 3))
    if kind == "nt":
        return Pair(t + 1, t + 2)
    if kind == "list":
        return [t + 1, t + 2]
    raise ValueError(kind)


OBSERVE: list[Callable[..., Any] | None] = [None]  # told about every node call: (module or None, args, kwargs, value)
CTX = [0]  # set by simulated execution contexts, changes what every module computes


class Mod(torch.nn.Module):
    """A leaf: computes one node's value and reports that it was called."""

    def __init__(self, kind: str, c: int) -> None:
        super().__init__()
        self.kind, self.c = kind, c
        self.shift = torch.nn.Parameter(torch.zeros((), dtype=torch.float64))
        self.cb: Callable[..., None] | None = None

    def forward(self, *args, **kwargs):
        if self.cb is not None:
            self.cb(self, args, kwargs)
        v = produce(self.kind, self.c, list(args), kwargs)
        s = float(self.shift) + CTX[0]
        if s:
            v = shifted(v, s)
        return v if OBSERVE[0] is None else OBSERVE[0](self, args, kwargs, v)


def shifted(v: Any, s: float) -> Any:
    if isinstance(v, torch.Tensor):
        return v + s
    if isinstance(v, Pair):
        return Pair(*(shifted(x, s) for x in v))
    if isinstance(v, dict):
        return {k: shifted(x, s) for k, x in v.items()}
    if isinstance(v, Obj):
        return Obj(shifted(v.u, s), shifted(v.v, s))
    return type(v)(shifted(x, s) for x in v)


class Fold(torch.nn.Module):
    """The original module behind an inlined subgraph: evaluates the same spec directly."""

    def __init__(self, inputs: list[str]) -> None:
        super().__init__()
        self.inputs = inputs
        self.ev: Callable[[list[Any]], list[Any]] | None = None

    def forward(self, *args, **kwargs):
        it = iter(args)
        vals = [kwargs[n] if n in kwargs else next(it) for n in self.inputs]
        outs = self.ev(vals)
        return outs[0] if len(outs) == 1 else tuple(outs)


# ------------------------------------------------------------------ specs


def gen_ref(rng, const=0.1, whole=0.12):
    if rng.random() < const:
        return {"c": rng.randint(1, 9)}
    return {"v": rng.randint(0, 40), "p": rng.randint(0, 11), "w": rng.random() < whole, "near": rng.random() < 0.5}


def gen_node(rng, depth, sub=0.2, share=0.12):
    if depth > 0 and rng.random() < sub:
        ni = rng.randint(1, 3)
        return {"t": "sub", "ni": ni, "nodes": [gen_node(rng, depth - 1) for _ in range(rng.randint(1, 4))],
                "outs": [gen_ref(rng, const=0.0, whole=0.2) for _ in range(rng.randint(1, 3))],
                "args": [gen_ref(rng, const=0.0, whole=0.15) for _ in range(ni)], "kw": rng.randint(0, ni) if rng.random() < 0.4 else 0,
                "orig": rng.random() < 0.75}
    return {"t": "node", "kind": rng.choice(["t"] * 6 + ["tup", "tup", "dict", "obj", "nt", "list"]), "c": rng.randint(0, 99),
            "args": [gen_ref(rng) for _ in range(rng.choice([0, 1, 1, 1, 2, 2, 3]))],
            "kwargs": {k: gen_ref(rng) for k in rng.sample(["ka", "kb"], rng.choice([0, 0, 0, 1, 2]))},
            "fn": rng.random() < 0.25, "share": rng.randint(0, 9) if rng.random() < share else None}


def gen_graph(rng, *, n=(2, 8), depth=2, structured=True):
    ni = rng.randint(1, 3)
    return {"ins": [rng.choice(["t"] * 5 + ["tup", "dict", "obj", "nt"]) if structured else "t" for _ in range(ni)], "nodes": [gen_node(rng, depth) for _ in range(rng.randint(*n))],
            "outs": [gen_ref(rng, const=0.0, whole=0.2) for _ in range(rng.choice([1, 1, 2, 3]))]}


# ------------------------------------------------------------------ building (real GraphModule + reference program)


class Prog:
    """Reference program: a list of steps over a list of slots; slots[0..ni) are the inputs."""

    def __init__(self) -> None:
        self.inputs: list[int] = []  # slots of the inputs
        self.kinds: list[str] = []
        self.steps: list[tuple] = []
        self.outs: list[tuple[int, tuple]] = []

    def slot(self, kind: str) -> int:
        self.kinds.append(kind)
        return len(self.kinds) - 1

    def frame(self, inputs: list[Any]) -> list[Any]:
        slots: list[Any] = [None] * len(self.kinds)
        for s, v in zip(self.inputs, inputs, strict=True):
            slots[s] = v
        return slots

    def produced(self) -> list[int]:
        return [i for i in range(len(self.kinds)) if i not in self.inputs]

    def value(self, slots, ref):
        return ref[1] if ref[0] == "c" else follow(slots[ref[1]], ref[2])

    def evaluate(self, inputs: list[Any], log=None) -> list[Any]:
        """Values of all slots; log(step) is told each leaf call."""
        slots = self.frame(inputs)
        for st in self.steps:
            if st[0] == "node":
                _, s, mod, kind, c, args, kwargs, _ = st
                a = [self.value(slots, r) for r in args]
                k = {n: self.value(slots, r) for n, r in kwargs.items()}
                v = produce(kind, c, a, k)
                sh = float(mod.shift) if mod is not None else 0.0
                slots[s] = shifted(v, sh) if sh else v
                if log is not None:
                    log(st, a, k)
            else:
                _, outs, sub, args = st
                inner = sub.evaluate([self.value(slots, r) for r in args], log)
                for s, (i, path) in zip(outs, sub.outs):
                    slots[s] = follow(inner[i], path)
        return slots

    def results(self, inputs):
        slots = self.evaluate(inputs)
        return [follow(slots[i], p) for i, p in self.outs]


class Builder:
    """Builds a GraphModule and the reference program side by side."""

    def __init__(self, G, *, tag: str = "", mods: list | None = None) -> None:
        self.G = G
        self.graph = G.GraphModule()
        self.prog = Prog()
        self.refs: list[Any] = []  # per slot
        self.names = 0
        self.tag = tag
        self.mods: list[Mod] = mods if mods is not None else []
        self.leaf: list[tuple[Any, Mod | None, int]] = []  # (NodeRef, module, slot) of direct leaves
        self.folds: list[tuple[Fold, str]] = []
        self.deps: dict[int, set[int]] = {}

    def add_input(self, kind: str = "t") -> str:
        name = f"x{len(self.prog.inputs)}"
        self.refs.append(self.graph.add_input(name))
        self.prog.inputs.append(self.prog.slot(kind))
        return name

    def pick(self, r: dict, *, whole_ok: bool = True):
        """(real ref, reference ref)"""
        if "c" in r:
            return self.G.Const(r["c"]), ("c", r["c"])
        n = len(self.refs)
        i = r["v"] % n
        if r.get("near") and self.prog.produced():
            i = n - 1 - r["v"] % min(n, 3)
        kind = self.prog.kinds[i]
        path = () if (r["w"] and whole_ok) else PATHS[kind][r["p"] % len(PATHS[kind])]
        real = self.refs[i]
        for a in path:
            real = real[a] if isinstance(a, int) or r["p"] % 2 else getattr(real, a)
        return real, ("v", i, path)

    def kind_at(self, kind: str, path: tuple) -> str:
        return kind if path == () else SUBKIND.get((kind, path), "t")

    def add(self, spec: dict) -> None:
        G, g = self.G, self.graph
        self.names += 1
        if spec["t"] == "node":
            name = f"{self.tag}n{self.names}"
            a = [self.pick(r) for r in spec["args"]]
            k = {n: self.pick(r) for n, r in spec["kwargs"].items()}
            kind, c = spec["kind"], spec["c"]
            mod = None
            if spec["fn"]:
                def target(*args, **kwargs):
                    v = produce(kind, c, list(args), kwargs)
                    return v if OBSERVE[0] is None else OBSERVE[0](None, args, kwargs, v)

                op = {"op": G.Op.call_function}
            else:
                if spec["share"] is not None and self.mods:
                    mod = self.mods[spec["share"] % len(self.mods)]
                    kind, c = mod.kind, mod.c
                    mod.shared = True
                else:
                    mod = Mod(kind, c)
                    self.mods.append(mod)
                target, op = mod, {}
            ref = g.add_node(name, target, [x[0] for x in a], {n: x[0] for n, x in k.items()}, **op)
            s = self.prog.slot(kind)
            self.refs.append(ref)
            self.leaf.append((ref, mod, s))
            self.prog.steps.append(("node", s, mod, kind, c, [x[1] for x in a], {n: x[1] for n, x in k.items()}, ref))
        else:
            name = f"{self.tag}s{self.names}"
            sub = Builder(G, mods=self.mods)
            sub.tag = f"{self.tag}i{self.names}_"
            a = [self.pick(r) for r in spec["args"]]
            for _, (_, i, path) in a:
                sub.add_input(self.kind_at(self.prog.kinds[i], path))
            for n in spec["nodes"]:
                sub.add(n)
            sub.outputs(spec["outs"])
            names = sub.graph.input_names
            npos = len(names) - min(spec["kw"], len(names))
            args, kwargs = [x[0] for x in a[:npos]], {n: x[0] for n, x in zip(names[npos:], a[npos:])}
            orig = None
            if spec["orig"]:
                orig = Fold(list(names))
                prog = sub.prog

                def ev(vals, prog=prog):
                    return run_modules(prog, prog.frame(vals))

                orig.ev = ev
                orig.inner = torch.nn.ModuleList(modules_of(prog))
                self.folds.append((orig, name))
            outs = g.add_subgraph(name, sub.graph, args, kwargs, original_module=orig)
            slots = []
            for r, (i, path) in zip(outs, sub.prog.outs):
                slots.append(self.prog.slot(self.kind_at(sub.prog.kinds[i], path)))
                self.refs.append(r)
            self.prog.steps.append(("sub", slots, sub.prog, [x[1] for x in a]))
            for ref, mod, _ in sub.leaf:
                self.leaf.append((None, mod, -1))
            self.folds += sub.folds

    def outputs(self, specs: list[dict]) -> None:
        for r in specs:
            if not self.prog.produced():
                self.add({"t": "node", "kind": "t", "c": 3, "args": [{"v": 0, "p": 0, "w": False}], "kwargs": {}, "fn": False, "share": None})
            own = self.prog.produced()
            i = own[-1] if r.get("near") else own[r["v"] % len(own)]
            kind = self.prog.kinds[i]
            path = () if r["w"] else PATHS[kind][r["p"] % len(PATHS[kind])]
            real = self.refs[i]
            for a in path:
                real = real[a]
            self.graph.add_output(real)
            self.prog.outs.append((i, path))


def modules_of(prog: Prog) -> list[Mod]:
    out: dict[Mod, None] = {}
    for st in prog.steps:
        if st[0] == "node":
            if st[2] is not None:
                out[st[2]] = None
        else:
            out.update(dict.fromkeys(modules_of(st[2])))
    return list(out)


def run_modules(prog: Prog, slots: list[Any]) -> list[Any]:
    """Evaluates through the module objects (so that calls are seen and failures happen), returns the outputs."""
    for st in prog.steps:
        if st[0] == "node":
            _, s, mod, kind, c, args, kwargs, _ = st
            a = [prog.value(slots, r) for r in args]
            k = {n: prog.value(slots, r) for n, r in kwargs.items()}
            slots[s] = mod(*a, **k) if mod is not None else produce(kind, c, a, k)
            if mod is None and OBSERVE[0] is not None:
                OBSERVE[0]("fold", a, k, slots[s])
        else:
            _, outs, sub, args = st
            vals = run_modules(sub, sub.frame([prog.value(slots, r) for r in args]))
            for s, v in zip(outs, vals):
                slots[s] = v
    return [follow(slots[i], p) for i, p in prog.outs]


@dataclasses.dataclass
class Leaf:
    """One executable node of the flattened program; refs are ("c", v), ("in", i, path), ("n", leaf, path)."""

    ref: Any
    mod: Mod | None
    kind: str
    c: int
    args: list[tuple]
    kwargs: dict[str, tuple]
    folds: tuple[int, ...]

    def deps(self):
        return {r[1] for r in [*self.args, *self.kwargs.values()] if r[0] == "n"}

    def ins(self):
        return {r[1] for r in [*self.args, *self.kwargs.values()] if r[0] == "in"}


class Flat:
    """All subgraphs inlined."""

    def __init__(self, b: "Builder") -> None:
        self.leaves: list[Leaf] = []
        self.nfolds = 0
        env = [None] * len(b.prog.kinds)
        for i, s in enumerate(b.prog.inputs):
            env[s] = ("in", i, ())
        self.ni = len(b.prog.inputs)
        self.env = env
        self._walk(b.prog, env, ())
        self.outs = [self._ref(env, ("v", i, p)) for i, p in b.prog.outs]

    @staticmethod
    def _ref(env, r):
        if r[0] == "c":
            return r
        base = env[r[1]]
        return base if base[0] == "c" else (base[0], base[1], base[2] + tuple(r[2]))

    def _walk(self, prog, env, folds):
        for st in prog.steps:
            if st[0] == "node":
                _, s, mod, kind, c, args, kwargs, ref = st
                self.leaves.append(Leaf(ref, mod, kind, c, [self._ref(env, r) for r in args],
                                        {n: self._ref(env, r) for n, r in kwargs.items()}, folds))
                env[s] = ("n", len(self.leaves) - 1, ())
            else:
                _, outs, sub, args = st
                self.nfolds += 1
                inner = [None] * len(sub.kinds)
                for s, r in zip(sub.inputs, args):
                    inner[s] = self._ref(env, r)
                self._walk(sub, inner, (*folds, self.nfolds))
                for s, (i, p) in zip(outs, sub.outs):
                    env[s] = self._ref(inner, ("v", i, p))

    def value(self, vals, ins, r):
        return r[1] if r[0] == "c" else follow(ins[r[1]] if r[0] == "in" else vals[r[1]], r[2])

    def evaluate(self, ins: list[Any], ctx: int = 0) -> list[Any]:
        vals: list[Any] = []
        for lf in self.leaves:
            v = produce(lf.kind, lf.c, [self.value(vals, ins, r) for r in lf.args], {k: self.value(vals, ins, r) for k, r in lf.kwargs.items()})
            sh = float(lf.mod.shift) + ctx if lf.mod is not None else 0.0
            vals.append(shifted(v, sh) if sh else v)
        return vals

    def call_key(self, i, vals, ins):
        lf = self.leaves[i]
        return (lf.ref.id.int if lf.mod is None else id(lf.mod), digest([self.value(vals, ins, r) for r in lf.args]),
                digest({k: self.value(vals, ins, r) for k, r in lf.kwargs.items()}))

    def closure(self, roots: set[int]) -> set[int]:
        seen, todo = set(), list(roots)
        while todo:
            i = todo.pop()
            if i not in seen:
                seen.add(i)
                todo += self.leaves[i].deps()
        return seen

    def live(self) -> set[int]:
        return self.closure({r[1] for r in self.outs if r[0] == "n"})

    def input_deps(self, i: int) -> set[int]:
        return {k for j in self.closure({i}) for k in self.leaves[j].ins()}


def build(G, spec: dict) -> Builder:
    b = Builder(G)
    for kind in spec["ins"]:
        b.add_input(kind)
    for n in spec["nodes"]:
        b.add(n)
    b.outputs(spec["outs"])
    return b


def inputs_for(seed: int, k: int, kinds: list[str]) -> list[Any]:
    g = torch.Generator().manual_seed(seed * 31 + k)

    def t():
        return torch.randint(0, 50, (2, 4), generator=g).to(torch.float64)

    def make(kind):
        if kind == "t":
            return t()
        if kind == "tup":
            return (t(), t(), (t(), t()))
        if kind == "dict":
            return {"a": t(), "values": t(), "c": (t(),)}
        if kind == "obj":
            return Obj(t(), (t(), t()))
        if kind == "nt":
            return Pair(t(), t())
        raise ValueError(kind)

    return [make(k) for k in kinds]
