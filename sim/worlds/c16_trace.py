"""C16: tracing leaves the model as it was and yields an equivalent graph."""

from __future__ import annotations

import contextlib
import inspect
import sys

from unittest import mock

import torch
import torch.utils._pytree as pytree

import fastforward as ff

from sim.core import Sim, Violation, catch, is_injected, public_flags, raise_fault, tdigest
from sim.models import diff, gen_quantizer, make_quantizer, snapshot

PROPERTY = "C16"
CONFIGS = {"plain": {"faults": False}, "faults": {"faults": True}}
PLAN = {"quick": 420, "quick_s": 120, "thorough": 8000, "thorough_s": 780, "det": 4}
RULE = ("Histories of traces (many kinds of inputs, retraced after failures), executions on fresh inputs, layer-wise passes over the traced graph, updates of parameters, buffers and ranges, replaced "
        "modules and changed modes on random nested models (shared blocks, constant and keyword arguments, structured returns, lazy quantizers); the forward pass, torch.export, unflatten, placeholder "
        "allocation and graph construction fail. The model is compared before/after every step, the graph with the model itself.")
REAL = ["fastforward._orchestration.trace", "fastforward._orchestration.graph_module (execution)", "fastforward.orchestration.layerwise_optimize", "torch.export"]
STUB = ["leaf modules and blocks of the models (simulator-owned, may fail)"]
STATE_MEASURE = "hash of (graph topology, input kinds, fault position, outcome)"

W = 4
HOOK: list = [None]  # called by every simulator-owned module


def tensors(v) -> list[torch.Tensor]:
    return [t for t in pytree.tree_flatten(v)[0] if isinstance(t, torch.Tensor)]


def shape_return(kind, v, u, x):
    return {"t": lambda: v, "tup": lambda: (v, u), "list": lambda: [u, v], "dict": lambda: {"z": v, "a": u}, "nest": lambda: (v, {"a": [u]}), "none": lambda: (None, v),
            "pass": lambda: (v, x), "const": lambda: (v, 3), "one": lambda: (v,), "d1": lambda: {"o": v}, "same": lambda: (v, v)}[kind]()


RETS = ["t"] * 8 + ["tup", "list", "dict", "nest", "none", "pass", "const", "one", "d1", "same"]


class Leaf(torch.nn.Module):
    """A module without submodules that takes several arguments."""

    def __init__(self, ret, seed) -> None:
        super().__init__()
        g = torch.Generator().manual_seed(seed)
        self.w = torch.nn.Parameter(torch.randn(W, generator=g))
        self.ret = ret

    def forward(self, x, y=None, *, k=1.0):
        if HOOK[0]:
            HOOK[0](self)
        v = x * self.w * k
        if y is not None:
            v = v - 2 * y
        return shape_return(self.ret, v, v + 1, x)


class Mixed(torch.nn.Module):
    """A leaf whose constant argument stands between its tensors."""

    def forward(self, x, k, y):
        if HOOK[0]:
            HOOK[0](self)
        return x * k - y


class Block(torch.nn.Module):
    def __init__(self, spec, kids) -> None:
        super().__init__()
        self.spec = spec
        self.names = [f"m{i}" for i in range(len(kids))]
        for n, m in zip(self.names, kids):
            setattr(self, n, m)
        g = torch.Generator().manual_seed(spec["seed"])
        if spec["par"]:
            self.p = torch.nn.Parameter(torch.randn(W, generator=g))
        if spec["buf"]:
            self.register_buffer("bf", torch.randn(W, generator=g), persistent=spec["buf"] == "p")
        if spec["lazy"]:
            if spec["lazy"] == "par":
                self.zz = torch.nn.parameter.UninitializedParameter(requires_grad=False)
            else:
                self.register_buffer("zz", torch.nn.parameter.UninitializedBuffer(), persistent=spec["lazy"] == "buf")
            self.yy = torch.nn.Parameter(torch.ones(1))

    def forward(self, x, y=None, *, k=1.0):
        if HOOK[0]:
            HOOK[0](self)
        vals = [x] if y is None else [x, y]
        for st in self.spec["body"]:
            vals.append(self.step(st, vals, k))
        if self.spec["ret"] in ("t", "one", "d1", "same", "const", "pass", "none"):
            u = None  # not used
        else:
            u = vals[self.spec["u"] % len(vals)]
            u = u if u is not x else u + 0
        return shape_return(self.spec["ret"], vals[-1], u, x)

    def step(self, st, vals, k):
        v = lambda i: vals[-1 - i % len(vals)]  # noqa: E731
        a = v(st["a"])
        o = st["o"]
        if o == "call":
            m = getattr(self, self.names[st["c"] % len(self.names)])
            return call(m, st, a, v(st["b"]))
        if o == "add":
            return a + v(st["b"])
        if o == "mul":
            return a * 1.5
        if o == "k":
            return a * k
        if o == "cat":
            return torch.cat([a[:, :2], v(st["b"])[:, 2:]], 1)
        if o == "flip":
            return torch.cat(a.chunk(2, -1)[::-1], -1)
        if o == "par":
            return a * self.p if self.spec["par"] else a.neg()
        if o == "buf":
            return a + self.bf if self.spec["buf"] else a - 1
        if o == "inpl":
            return (a + 0).mul_(2).relu_()
        if o == "drop":
            return torch.nn.functional.dropout(a, 1.0, self.training) + a
        if o == "view":
            return a.reshape(-1).view(a.shape[0], W)
        if o == "new":
            return a + torch.arange(float(W), dtype=a.dtype)
        if o == "quant":  # not generated: see the known findings
            return self.q(a)
        raise ValueError(o)


def call(m, st, x, y):
    """Calls a submodule in the way the step says; returns one of the tensors it returns."""
    if isinstance(m, Mixed):
        return m(x, 2.5 if st["k"] is None else st["k"], y) if not st["ykw"] else m(x, k=2.0, y=y)
    if isinstance(m, (Leaf, Block)):
        kw = {}
        if st["k"] is not None:
            kw["k"] = st["k"]
        if st["y"] and not st["ykw"]:
            out = m(x, y, **kw)
        elif st["y"]:
            out = m(y=y, x=x, **kw) if st["xkw"] else m(x, y=y, **kw)
        else:
            out = m(x=x, **kw) if st["xkw"] else m(x, **kw)
        ts = tensors(out)
        return ts[st["p"] % len(ts)]
    if st["xkw"] and isinstance(m, (torch.nn.Linear, torch.nn.LayerNorm)):
        return deq(m(input=x))
    return deq(m(x))


def deq(x):
    return x.dequantize() if isinstance(x, ff.QuantizedTensor) else x


# ------------------------------------------------------------------ scenarios


def gen_leaf(rng):
    r = rng.random()
    s = rng.randint(0, 999)
    if r < 0.22:
        return {"t": "lin", "seed": s}
    if r < 0.45:
        return {"t": "qlin", "seed": s, "q": {k: gen_quantizer(rng, weight=k == "weight", uninit=0.12, plain=0.1) for k in ("input", "weight", "output") if rng.random() < 0.5}}
    if r < 0.52:
        return {"t": "ln"}
    if r < 0.58:
        return {"t": "bn", "seed": s}
    if r < 0.63:
        return {"t": "drop"}
    if r < 0.68:
        return {"t": "relu"}
    if r < 0.74:
        return {"t": "seq", "items": [gen_leaf_simple(rng) for _ in range(rng.randint(1, 3))]}
    if r < 0.80:
        return {"t": "mixed"}
    return {"t": "leaf", "ret": rng.choice(RETS), "seed": s}


def gen_leaf_simple(rng):
    return rng.choice([{"t": "lin", "seed": rng.randint(0, 99)}, {"t": "relu"}, {"t": "id"}, {"t": "ln"}])


def gen_step(rng, kids):
    o = rng.choice(["call"] * 9 + ["add", "add", "mul", "k", "cat", "flip", "par", "buf", "buf", "inpl", "drop", "drop", "drop", "view", "new"]) if kids else "mul"
    return {"o": o, "a": rng.choice([0, 0, 0, 1, 2, 5]), "b": rng.randint(0, 5), "c": rng.randint(0, 5), "y": rng.random() < 0.35, "k": rng.choice([None, None, None, 2.0, 0.5]), "xkw": rng.random() < 0.2,
            "ykw": rng.random() < 0.4, "p": rng.randint(0, 3)}


def gen_block(rng, depth):
    kids = []
    for _ in range(rng.choice([1, 2, 2, 3])):
        r = rng.random()
        if depth > 0 and r < 0.4:
            kids.append(gen_block(rng, depth - 1))
        elif r < 0.52:
            kids.append({"t": "share", "k": rng.randint(0, 9)})
        else:
            kids.append(gen_leaf(rng))
    # every child is called once, some again
    steps = [dict(gen_step(rng, kids), o="call", c=i, a=rng.choice([0, 0, 1])) for i in range(len(kids)) if rng.random() < 0.93]
    for _ in range(rng.choice([0, 1, 2, 3])):
        steps.insert(rng.randint(0, len(steps)), gen_step(rng, kids))
    return {"t": "blk", "kids": kids, "body": steps, "ret": rng.choice(RETS), "u": rng.randint(0, 9), "par": rng.random() < 0.3, "buf": rng.choice([None, None, "p", "n"]),
            "lazy": rng.choice([None] * 6 + ["par", "buf", "nbuf"]), "seed": rng.randint(0, 999)}


def gen_inputs(rng):
    return {"y": rng.random() < 0.4, "ykw": rng.random() < 0.7, "k": rng.choice([None, None, 2.0, 0.5]), "xkw": rng.random() < 0.1, "n": rng.choice([2, 2, 3])}


def generate(rng, cfg):
    ops = []
    ins = [gen_inputs(rng) for _ in range(2)]
    for i in range(rng.randint(2, 6)):
        r = rng.random()
        if i == 0 or r < 0.3:
            f = None
            if cfg["faults"] and rng.random() < 0.7:
                w = rng.choice(["fwd", "fwd", "export", "unflatten", "empty", "node", "node"])
                f = {"where": w, "kind": rng.choice(["error", "interrupt", "oom"]), "at": rng.randint(0, {"fwd": 9, "export": 1, "unflatten": 1, "empty": 3, "node": 12}[w]), "post": rng.random() < 0.4}
            ops.append({"op": "trace", "i": rng.randint(0, 1), "x": rng.randint(0, 99), "fault": f})
        elif r < 0.55:
            ops.append({"op": "run", "x": rng.randint(0, 999)})
        elif r < 0.72:
            ops.append({"op": "lw", "x": rng.randint(0, 999), "v": rng.randint(0, 99), "nb": rng.choice([1, 2])})
        elif r < 0.84:
            ops.append({"op": "update", "v": rng.randint(0, 99), "x": rng.randint(0, 99), "how": rng.choice(["par", "par", "buf", "newbuf", "newbuf", "range", "newpar"])})
        elif r < 0.94:
            ops.append({"op": "mode", "v": rng.choice([0, rng.randint(0, 99)]), "all": rng.random() < 0.4})
        else:
            ops.append({"op": "replace", "v": rng.randint(0, 99), "seed": rng.randint(0, 99), "q": gen_quantizer(rng) if rng.random() < 0.6 else None})
        if ops[-1]["op"] in ("mode", "replace") or (ops[-1].get("fault") and i < 4):  # trace again
            ops.append({"op": "trace", "i": next((o["i"] for o in reversed(ops) if o["op"] == "trace"), 0), "x": rng.randint(0, 99), "fault": None})
    if not any(o["op"] in ("run", "lw") for o in ops):
        ops.append({"op": "run", "x": rng.randint(0, 999)})
    model = gen_block(rng, rng.choice([0, 1, 1, 2]))
    if any(o["op"] == "mode" for o in ops) and rng.random() < 0.5:  # a model that depends on its own mode
        model["body"].append(dict(gen_step(rng, []), o="drop", a=0))
    return {"model": model, "ops": ops, "ins": ins}


def shrink(sc):
    import copy

    def paths(node, path=()):
        if isinstance(node, dict):
            for k, v in node.items():
                if k in ("kids", "body", "items") and isinstance(v, list) and len(v) > (1 if k != "body" else 0):
                    yield (*path, k)
                if isinstance(v, (dict, list)):
                    yield from paths(v, (*path, k))
        elif isinstance(node, list):
            for i, v in enumerate(node):
                yield from paths(v, (*path, i))

    def at(s, path):
        for p in path:
            s = s[p]
        return s

    for path in list(paths(sc["model"])):
        for i in range(len(at(sc["model"], path))):
            new = copy.deepcopy(sc)
            del at(new["model"], path)[i]
            yield new

    def leaves(node, path=()):
        items = node.items() if isinstance(node, dict) else enumerate(node) if isinstance(node, list) else []
        for k, v in items:
            simple = {"ret": "t", "lazy": None, "par": False, "buf": None, "k": None, "xkw": False, "ykw": False, "y": False, "q": {}, "a": 0, "b": 0, "p": 0}
            if k in simple and not (k == "k" and isinstance(node, dict) and node.get("t") == "share") and v != simple[k]:
                yield (*path, k), simple[k]
            if isinstance(v, (dict, list)):
                yield from leaves(v, (*path, k))

    for path, val in list(leaves(sc["model"])):
        new = copy.deepcopy(sc)
        at(new["model"], path[:-1])[path[-1]] = val
        yield new
    for i, n in enumerate(sc["ins"]):
        for k, v in (("y", False), ("k", None), ("xkw", False)):
            if n[k] != v:
                new = copy.deepcopy(sc)
                new["ins"][i][k] = v
                yield new


class Build:
    def __init__(self) -> None:
        self.done: list[torch.nn.Module] = []

    def make(self, s):
        t = s["t"]
        if t == "share":
            if not self.done:
                return torch.nn.Identity()
            return self.done[s["k"] % len(self.done)]
        m = self._make(s, t)
        self.done.append(m)
        return m

    def _make(self, s, t):
        g = torch.Generator().manual_seed(s.get("seed", 0))
        if t in ("lin", "qlin"):
            m = torch.nn.Linear(W, W) if t == "lin" else ff.nn.QuantizedLinear(W, W)
            with torch.no_grad():
                m.weight.copy_(torch.randn(W, W, generator=g) * 0.7)
                m.bias.copy_(torch.randn(W, generator=g) * 0.3)
            for k, q in (s.get("q") or {}).items():
                setattr(m, f"{k}_quantizer", make_quantizer(q))
            return m
        if t == "ln":
            return torch.nn.LayerNorm(W)
        if t == "bn":
            m = torch.nn.BatchNorm1d(W)
            m.running_mean.copy_(torch.randn(W, generator=g))
            return m
        if t == "drop":
            return torch.nn.Dropout(1.0)
        if t == "relu":
            return torch.nn.ReLU()
        if t == "id":
            return torch.nn.Identity()
        if t == "seq":
            return torch.nn.Sequential(*[self._make(x, x["t"]) for x in s["items"]])
        if t == "mixed":
            return Mixed()
        if t == "leaf":
            return Leaf(s["ret"], s["seed"])
        b = Block(s, [self.make(x) for x in s["kids"]])
        if s.get("q"):  # only in known findings: a quantizer that the block itself calls
            b.q = make_quantizer(s["q"])
        return b


def inputs_of(spec, seed):
    g = torch.Generator().manual_seed(seed * 7 + 1)
    x, y = torch.randn(spec["n"], W, generator=g), torch.randn(spec["n"], W, generator=g)
    args, kwargs = (x,), {}
    if spec["y"] and spec["ykw"]:
        kwargs["y"] = y
    elif spec["y"]:
        args = (x, y)
    elif spec["xkw"]:
        args, kwargs = (), {"x": x}
    if spec["k"] is not None:
        kwargs["k"] = spec["k"]
    return args, kwargs


def state_of(m):
    s = snapshot(m)
    s["order of parameters"] = tuple(n for n, _ in m.named_parameters(remove_duplicate=False))
    s["order of buffers"] = tuple(n for n, _ in m.named_buffers(remove_duplicate=False))
    s["state dict"] = tuple(n for n, v in sorted(m.state_dict(keep_vars=True).items()))
    for n, sub in m.named_modules(remove_duplicate=False):
        s[f"attributes {n}"] = tuple(sorted(k for k in vars(sub) if not k.startswith("_")))
        s[f"own {n}"] = (tuple(sub._parameters), tuple(sub._buffers), tuple(sub._modules))
    return s


def same(a, b) -> bool:
    fa, sa = pytree.tree_flatten(a)
    fb, sb = pytree.tree_flatten(b)
    if sa != sb:
        return False
    for u, v in zip(fa, fb):
        if isinstance(u, torch.Tensor) != isinstance(v, torch.Tensor):
            return False
        if isinstance(u, torch.Tensor):
            if u.shape != v.shape or u.dtype != v.dtype or not torch.allclose(deq(u), deq(v), rtol=1e-4, atol=1e-5, equal_nan=True):
                return False
        elif u != v or type(u) is not type(v):
            return False
    return True


def short(v):
    return pytree.tree_map(lambda t: [round(z, 4) for z in t.flatten().tolist()][:4] if isinstance(t, torch.Tensor) else t, v)


@contextlib.contextmanager
def faults(sim, f, T):
    """The seams of a trace: the user's forward, torch.export, allocation and graph construction."""
    n = [0]

    def seam(real):
        def wrapped(*a, **k):
            sim.tick()
            i, n[0] = n[0], n[0] + 1
            hit = i == f["at"]
            if hit and not f["post"]:
                raise_fault(sim, f["kind"])
            out = real(*a, **k)
            if hit:
                raise_fault(sim, f["kind"])
            return out

        return wrapped

    with contextlib.ExitStack() as st:
        if f:
            if f["where"] == "fwd":
                HOOK[0] = seam(lambda m: None)
            elif f["where"] == "export":
                st.enter_context(mock.patch.object(torch.export, "export", seam(torch.export.export)))
            elif f["where"] == "unflatten":
                st.enter_context(mock.patch.object(torch.export, "unflatten", seam(torch.export.unflatten)))
            elif f["where"] == "empty":
                st.enter_context(mock.patch.object(torch, "empty", seam(torch.empty)))
            elif f["where"] == "node":
                for meth in ("add_node", "add_input", "add_output", "add_subgraph"):
                    def patched(self, *a, real=getattr(T.GraphModule, meth), **k):
                        return wrapped_node(real, self, *a, **k)

                    st.enter_context(mock.patch.object(T.GraphModule, meth, patched))
                wrapped_node = seam(lambda real, *a, **k: real(*a, **k))
        try:
            yield
        finally:
            HOOK[0] = None


def modules_in(graph, GM) -> set[int]:
    """ids of all modules a traced graph knows, folds included"""
    out: set[int] = set()
    for m in graph.modules():
        out.add(id(m))
    return out


def execute(sim: Sim, sc):
    import fastforward.orchestration as orch

    from fastforward._orchestration import graph_module as GM
    from fastforward._orchestration import registry as reg
    from fastforward._orchestration import trace as T
    from fastforward._orchestration.data_flow import InputActivations

    HOOK[0] = None
    T = sys.modules["fastforward._orchestration.trace"]
    model = Build().make(sc["model"])
    model.eval()
    graph, spec, cur = None, None, None

    def run_model(args, kwargs):
        with ff.strict_quantization(False), torch.no_grad():
            return model(*args, **kwargs)

    def run_graph(args, kwargs):
        with ff.strict_quantization(False), torch.no_grad():
            return graph(*args, **kwargs)

    def bn_state():
        return {n: b.clone() for n, b in model.named_buffers() if not isinstance(b, torch.nn.parameter.UninitializedBuffer)}

    def restore(st):
        with torch.no_grad():
            for n, b in model.named_buffers():
                if n in st:
                    b.copy_(st[n])

    def compare(args, kwargs, what):
        st = bn_state()
        calls: list[str] = []
        hooks = [m.register_forward_pre_hook(lambda _m, _a, n=n: calls.append(n)) for n, m in model.named_modules() if isinstance(m, torch.nn.BatchNorm1d) and m.training]
        want, exc = catch(lambda: run_model(args, kwargs))
        for h in hooks:
            h.remove()
        after = bn_state()
        restore(st)
        if len(calls) != len(set(calls)):  # torch.export threads its in-place updates through the calls
            sim.probe("skipped_repeated_batchnorm")
            return
        for n in calls:
            h = model.get_submodule(n).register_forward_hook(lambda _m, _a, out: out + 1.0)
            other, _ = catch(lambda: run_model(args, kwargs))
            h.remove()
            restore(st)
            if exc is None and same(want, other):  # a graph does not run what it does not need
                sim.probe("skipped_unused_batchnorm")
                return
        if exc is not None:  # for instance a quantizer that is not initialized
            sim.probe("model_refuses")
            return
        got, exc = catch(lambda: run_graph(args, kwargs))
        sim.check(exc is None, "graph-fails", f"{what}: {type(exc).__name__}: {exc}")
        sim.check(same(want, got), "wrong-result", lambda: f"{what}: the graph returns {short(got)}, the model {short(want)}")
        sim.check(all(torch.equal(after[n], b) for n, b in bn_state().items()), "wrong-buffers", f"{what}: buffers differ after running the graph")
        restore(st)
        sim.probe("compared")
        sim.event("run", [tdigest(deq(t)) for t in tensors(want)])

    for op in sc["ops"]:
        kind = op["op"]
        before, flags = state_of(model), public_flags()
        if kind == "trace":
            s = sc["ins"][op["i"]]
            args, kwargs = inputs_of(s, op["x"])
            kept = [tdigest(t) for t in tensors((args, kwargs))]
            with faults(sim, op["fault"], T):
                g, exc = catch(lambda: T.trace(model, *args, **kwargs))
            d = diff(before, state_of(model))
            sim.check(not d, "trace-changed-model", lambda: f"after a trace that {'failed' if exc else 'succeeded'}: {d[:3]}")
            sim.check(public_flags() == flags, "trace-changed-modes", lambda: f"{flags} -> {public_flags()}")
            sim.check(kept == [tdigest(t) for t in tensors((args, kwargs))], "trace-changed-inputs")
            if exc is not None:
                if not is_injected(exc):
                    raise Violation("trace-fails", f"{type(exc).__name__}: {exc}") from exc
                sim.probe("trace_failed_" + op["fault"]["where"])
                graph = None
                sim.state("failed", op["fault"]["where"], op["fault"]["at"])
                sim.event("trace failed", type(exc).__name__)
                continue
            graph, spec = g, s
            sim.probe("traced")
            sim.state(str([n.name for n in graph.topo_order]), str(s))
            sim.event("traced", [n.name for n in graph.topo_order])
            compare(args, kwargs, "right after tracing")
        elif kind == "run":
            if graph is None:
                sim.probe("skipped")
                continue
            args, kwargs = inputs_of(spec, op["x"])
            compare(args, kwargs, "on other inputs")
        elif kind == "lw":
            if graph is not None:
                layerwise(sim, op, model, graph, spec, run_model, orch, reg, InputActivations, bn_state, restore)
        elif kind == "update":
            update(sim, op, model)
        elif kind == "mode":
            ms = list(model.modules())
            m = model if op["all"] else ms[op["v"] % len(ms)]
            m.training = not m.training  # this module only
            if op["all"]:
                m.train(m.training)
            graph = None
        elif kind == "replace":
            if replace(model, op):
                graph = None
        sim.ops_done += 1
    T._graph_cache.clear() if hasattr(T, "_graph_cache") else None


def update(sim, op, model):
    with torch.no_grad():
        if op["how"] in ("par", "newpar"):
            ps = [(m, n, p) for m in model.modules() for n, p in m._parameters.items()
                  if p is not None and not isinstance(p, torch.nn.parameter.UninitializedParameter) and not isinstance(m, ff.nn.Quantizer)]
            if not ps:
                return
            m, n, p = ps[op["v"] % len(ps)]
            new = p * 0.5 + 0.1
            if op["how"] == "par":
                p.copy_(new)
            else:
                p.data = new
        elif op["how"] in ("buf", "newbuf"):
            bs = [m for m in model.modules() if isinstance(m, Block) and "bf" in m._buffers]
            bs = [m for m in bs if any(st["o"] == "buf" for st in m.spec["body"])] or bs
            if bs:
                m = bs[op["v"] % len(bs)]
                if op["how"] == "buf":
                    m.bf.add_(1.0)
                else:
                    m.bf = m.bf + 1.0
        else:
            qs = [q for q in model.modules() if isinstance(q, ff.nn.LinearQuantizer)]
            if qs:
                lo = -0.5 - op["x"] % 3
                q = qs[op["v"] % len(qs)]
                n = W if isinstance(q.granularity, ff.PerChannel) else 1
                q.quantization_range = (torch.full((n,), lo), torch.full((n,), -lo * 0.8))
    sim.probe("updated")


def replace(model, op) -> bool:
    spots = [(m, n) for m in model.modules() for n, c in m._modules.items() if isinstance(c, torch.nn.Linear)]
    if not spots:
        return False
    m, n = spots[op["v"] % len(spots)]
    s = {"t": "qlin" if op["q"] else "lin", "seed": op["seed"], "q": {"output": op["q"]} if op["q"] else {}}
    m._modules[n] = Build().make(s).train(m._modules[n].training)
    return True


def bound(m, a, k):
    """The arguments by name: it does not matter if they are passed by position or keyword."""
    b, exc = catch(lambda: inspect.signature(m.forward).bind(*a, **k))
    return (a, k) if exc is not None else ((), dict(b.arguments))


def layerwise(sim, op, model, graph, spec, run_model, orch, reg, InputActivations, bn_state, restore):
    if spec["xkw"] or (spec["y"] and not spec["ykw"]):
        sim.probe("skipped_layout")
        return
    counts: dict[str, int] = {}
    names = {n: m for n, m in model.named_modules() if n and not isinstance(m, (ff.nn.Quantizer, torch.nn.Identity))}
    st = bn_state()
    batches = [inputs_of(spec, op["x"] + i) for i in range(op["nb"])]

    def observe(path, perturb=False):
        got, calls = [], []
        m = names[path]
        h = [m.register_forward_pre_hook(lambda mod, a, k: got.append((a, k)), with_kwargs=True)]
        if perturb:
            # Outputs that are inputs do not depend on the target.
            h.append(m.register_forward_hook(lambda mod, a, k, out: pytree.tree_map(
                lambda t: deq(t) + 1.0 if isinstance(t, torch.Tensor) and all(t is not i for i in tensors((a, k))) else t, out), with_kwargs=True))
        try:
            outs = []
            for a, k in batches:
                restore(st)
                n = len(got)
                outs.append(run_model(a, k))
                calls.append(len(got) - n)
            return got, calls, outs
        finally:
            for x in h:
                x.remove()
            restore(st)

    paths = sorted(names)
    if not paths:
        return
    layouts: list = []
    hooks = [m.register_forward_pre_hook(lambda m, a, k, n=n: layouts.append((n, len(a), *sorted(k))), with_kwargs=True) for n, m in names.items()]
    _, exc = catch(lambda: run_model(*batches[0]))
    restore(st)
    for h in hooks:
        h.remove()
    if exc is not None:
        sim.probe("model_refuses")
        return
    calls = [n for n, *_ in layouts]
    once = [n for n in paths if calls.count(n) == 1]
    path = (once or paths)[op["v"] % len(once or paths)]
    r, exc = catch(lambda: observe(path))
    if exc is not None:
        sim.probe("model_refuses")
        return
    want, calls, outs = r
    if any(c != 1 for c in calls):
        sim.probe("skipped_calls")
        return
    pert = observe(path, True)[2]
    used = not same(outs, pert)

    def ignored(j):
        def change(mod, a, k):
            leaves, spec_ = pytree.tree_flatten((a, k))
            i = [i for i, t in enumerate(leaves) if isinstance(t, torch.Tensor)][j]
            leaves[i] = deq(leaves[i]) + 1.0
            return pytree.tree_unflatten(leaves, spec_)

        h = target.register_forward_pre_hook(change, with_kwargs=True)
        try:
            restore(st)
            return same(run_model(*batches[0]), outs[0])
        finally:
            h.remove()
            restore(st)

    got: list = []
    kwargs = {k: v for k, v in batches[0][1].items()}
    if "y" in kwargs and op["nb"] > 1:
        sim.probe("skipped_layout")
        return
    before, flags = state_of(model), public_flags()
    target = names[path]

    def go():
        restore(st)
        with ff.strict_quantization(False):
            orch.layerwise_optimize(model, [a[0] for a, _ in batches], orch.AlgorithmSpec(lambda mod, b: got.extend((mod, x) for x in b), reg.normalize(target), [InputActivations("original")]), graph=graph, **kwargs)

    _, exc = catch(go)
    restore(st)
    d = diff(before, state_of(model))
    sim.check(not d, "layerwise-changed-model", lambda: str(d[:3]))
    sim.check(public_flags() == flags, "layerwise-changed-modes")
    if exc is not None:
        # torch.export keeps a single signature for each module
        varying = len(set(layouts)) != len({n for n, *_ in layouts})
        if used and not varying and any(ignored(j) for j in range(len(tensors(want[0])))):
            sim.probe("target_ignores_argument")  # torch.export does not compute it
            return
        if (used and not varying) or not isinstance(exc, ValueError):
            raise Violation("layerwise-fails", f"target {path} ({type(target).__name__}): {type(exc).__name__}: {exc}") from exc
        sim.probe("target_unused")
        return
    sim.check(len(got) == len(want), "layerwise-batches", f"{path}: {len(got)} batches, expected {len(want)}")
    for (mod, (a, k)), (wa, wk) in zip(got, want):
        sim.check(mod is target, "layerwise-other-module", path)
        (a, k), (wa, wk) = bound(target, a, k), bound(target, wa, wk)
        if len(a) == len(wa) and set(k) == set(wk) and not (same(list(a), list(wa)) and same(dict(k), dict(wk))):
            # an argument the target does not use is not kept by torch.export
            with ff.strict_quantization(False), torch.no_grad():
                r1, r2 = catch(lambda: target(*a, **k)), catch(lambda: target(*wa, **wk))
            restore(st)
            if r1[1] is None and r2[1] is None and same(r1[0], r2[0]):
                sim.probe("unused_argument")
                continue
        sim.check(same(list(a), list(wa)) and same(dict(k), dict(wk)), "wrong-activation", lambda: f"{path}: the algorithm got {short((a, k))}, the model passes {short((wa, wk))}")
    sim.probe("layerwise_ok")
    sim.event("layerwise", path, len(got))
