"""C13: layer-wise optimization visits every target once with the right data."""

from __future__ import annotations

import collections
import functools

import torch

from sim import graphs
from sim.core import Sim, Violation, catch, is_injected, raise_fault
from sim.graphs import Flat, digest, follow
from sim.worlds.c12_graph import Calls, fold_leaf, parse_name, seeded_uuids, short
from sim.worlds.c12_graph import shrink as shrink  # noqa: PLC0414

PROPERTY = "C13"
CONFIGS = {"plain": {"faults": False}, "faults": {"faults": True}}
PLAN = {"quick": 900, "quick_s": 90, "thorough": 16000, "thorough_s": 780, "det": 6}
RULE = ("Random module graphs (nested subgraphs, structured values, shared modules) on which layer-wise optimization runs again and again with random targets (modules, blocks, spans, "
        "groups), algorithms that change their target, execution contexts, batch layouts and data sources; algorithms, nodes, contexts and data sources fail. Every activation an "
        "algorithm receives is compared with a direct evaluation of the model as it is at that moment.")
REAL = ["fastforward.orchestration.layerwise_optimize", "fastforward._orchestration (reduction, scheduling, passes, engine, registry)", "torch.utils.data.DataLoader"]
STUB = ["algorithms, modules, contexts and data source (simulator-owned, may fail)", "uuid.uuid4 (seeded)"]
STATE_MEASURE = "hash of (targets visited in order, way of calling, outcome)"


def gen_region(rng):
    r = rng.random()
    return {"t": "leaf" if r < 0.55 else "span" if r < 0.72 else "group" if r < 0.82 else "fold", "v": [rng.randint(0, 60) for _ in range(3)],
            "ctx": rng.sample(range(3), rng.choice([0, 0, 1, 1, 2, 3]))}


def generate(rng, cfg):
    spec = graphs.gen_graph(rng, n=(1, 8), depth=rng.choice([0, 0, 1, 2, 2]), structured=rng.random() < 0.5)
    ops = []
    for _ in range(rng.randint(1, 4)):
        f = None
        if cfg["faults"] and rng.random() < 0.75:
            f = {"where": rng.choice(["alg", "alg", "node", "node", "data", "ctx"]), "kind": rng.choice(["error", "interrupt", "oom"]), "at": rng.randint(0, rng.choice([2, 5, 15])),
                 "phase": rng.choice(["pre", "mid", "post"])}
        ops.append({"op": rng.choice(["opt", "opt", "opt", "run"]), "regions": [gen_region(rng) for _ in range(rng.choice([1, 1, 2, 3, 4]))], "how": rng.choice(["spec", "specs", "callable", "targets", "partial", "manual", "manual"]),
                    "nb": rng.choice([1, 2, 2, 3]), "style": rng.choice(["plain", "plain", "dicts", "tuples", "kw", "bcast", "gen", "loader"]), "x": rng.randint(0, 999),
                    "alg": rng.choice(["shift", "shift", "call", "twice", "part", "none", "graph", "nested"]), "off": rng.random() < 0.25, "fault": f, "mode": rng.random() < 0.3})
    return {"graph": spec, "ops": ops, "uuid": rng.randint(0, 10**6)}


class Ctx:
    """An execution context that changes what modules compute while it is entered."""

    def __init__(self, sim, value, state) -> None:
        self.sim, self.value, self.state = sim, value, state
        self.entered = self.exited = 0

    def _fault(self, when):
        f = self.state["fault"]
        if f and f["where"] == "ctx":
            n = self.state["ctx"]
            self.state["ctx"] += 1
            if n == f["at"]:
                raise_fault(self.sim, f["kind"])

    def __enter__(self):
        self._fault("enter")
        self.entered += 1
        self.old = graphs.CTX[0]
        graphs.CTX[0] = self.value

    def __exit__(self, *exc):
        self.exited += 1
        graphs.CTX[0] = self.old
        if exc[0] is None:
            self._fault("exit")


class Source(torch.utils.data.Dataset):
    def __init__(self, sim, batches, state) -> None:
        self.sim, self.batches, self.state = sim, batches, state

    def __len__(self):
        return len(self.batches)

    def __getitem__(self, i):
        f = self.state["fault"]
        if f and f["where"] == "data" and i == f["at"] % max(len(self.batches), 1):
            raise_fault(self.sim, f["kind"])
        return self.batches[i]


def region_tools(GM, b, flat, ctxs):
    """Functions that pick target regions of a graph and tell whether they can be ordered."""
    n = len(flat.leaves)
    up = [flat.closure({i}) for i in range(n)]
    users = [{j for j in range(n) if i in flat.leaves[j].deps()} for i in range(n)]
    count = collections.Counter(id(lf.mod) for lf in flat.leaves if lf.mod is not None)
    unique = [i for i, lf in enumerate(flat.leaves) if lf.mod is not None and count[id(lf.mod)] == 1]

    def regions_of(st):
        """[(region, its leaves, contexts)], which do not overlap and can be ordered"""
        out, taken = [], set()
        for r in st["regions"]:
            if r["t"] == "fold":
                if not b.folds:
                    continue
                region = b.folds[r["v"][0] % len(b.folds)][0]
                nodes = {i for i in range(n) if fold_leaf(b, flat, region, i)}
            else:
                free = [i for i in unique if i not in taken]
                if not free:
                    continue
                i = free[r["v"][0] % len(free)]
                if r["t"] == "leaf":
                    nodes, region = {i}, flat.leaves[i].mod
                elif r["t"] == "span":
                    ends = [j for j in unique if i in up[j]]
                    j = ends[r["v"][1] % len(ends)]
                    nodes = {m for m in up[j] if i in up[m]}
                    region = GM.Span(flat.leaves[i].mod, flat.leaves[j].mod)
                else:
                    sib = [j for j in unique if flat.leaves[j].deps() == flat.leaves[i].deps() and users[j] == users[i] and j not in taken]
                    sib = [i, *[j for j in sib if j != i][: 1 + r["v"][1] % 3]]
                    nodes, region = set(sib), GM.Group(tuple(flat.leaves[j].mod for j in sib))
            # a module that also runs outside of its region would change under the feet of the others
            if not nodes or nodes & taken or any(flat.leaves[i].mod is not None and count[id(flat.leaves[i].mod)] > 1 for i in nodes):
                continue
            taken |= nodes
            out.append((region, nodes, [ctxs[k] for k in r["ctx"]]))
        return out

    def cyclic(blocks):
        owner = {i: k for k, s in enumerate(blocks) for i in s}
        key = lambda i: ("b", owner[i]) if i in owner else ("l", i)  # noqa: E731
        edges = collections.defaultdict(set)
        for i, lf in enumerate(flat.leaves):
            for d in lf.deps():
                if key(d) != key(i):
                    edges[key(i)].add(key(d))
        seen: dict = {}

        def go(k):
            if k in seen:
                return seen[k] == 1
            seen[k] = 1
            r = any(go(x) for x in edges[k])
            seen[k] = 2
            return r

        return any(go(k) for k in list(edges))

    return regions_of, cyclic


def execute(sim: Sim, sc):
    graphs.CTX[0] = 0
    with seeded_uuids(sc["uuid"]):
        _execute(sim, sc)


def _execute(sim: Sim, sc):
    import fastforward.orchestration as orch

    from fastforward._orchestration import graph_module as GM
    from fastforward._orchestration import instruction_engine as IE
    from fastforward._orchestration import registry as reg
    from fastforward._orchestration.data_flow import InputActivations

    class G:
        GraphModule, Const, Op = GM.GraphModule, GM.Const, GM.Op

    b = graphs.build(G, sc["graph"])
    flat = Flat(b)
    names = [f"x{i}" for i in range(len(b.prog.inputs))]
    kinds = [b.prog.kinds[s] for s in b.prog.inputs]
    model = torch.nn.ModuleList([*b.mods, *[f for f, _ in b.folds]])
    training = {m: m.training for m in model.modules()}
    flows = [InputActivations("original")]
    state = {"fault": None, "ctx": 0}
    ctxs = [Ctx(sim, v, state) for v in (100, 200, 300)]
    n = len(flat.leaves)
    up = [flat.closure({i}) for i in range(n)]
    fresh = [0]

    class Regions(orch.Selector):
        def __init__(self, regions) -> None:
            self.regions = regions

        def resolve(self, model):
            return list(self.regions)

    regions_of, cyclic = region_tools(GM, b, flat, ctxs)

    def feed(st, batches):
        style = st["style"]
        col = [[x[i] for x in batches] for i in range(len(names))]
        nb = len(batches)
        plain = all(k == "t" for k in kinds)
        if len(names) == 1 and plain:
            if style == "loader":
                return torch.utils.data.DataLoader(Source(sim, col[0], state), batch_size=None, shuffle=False, collate_fn=lambda x: x), {}
            if style == "gen":
                def gen(src=Source(sim, col[0], state)):
                    for i in range(len(src)):
                        yield src[i]

                return gen(), {}
            return (col[0][0] if nb == 1 and st["mode"] else col[0]), {}
        if style == "tuples" and len(names) > 1 and plain:
            return [tuple(x) for x in batches], {}
        if style in ("dicts", "loader", "gen") and nb > 1:
            src = [dict(zip(names, x)) for x in batches]
            if style == "loader":
                return torch.utils.data.DataLoader(Source(sim, src, state), batch_size=None, shuffle=False, collate_fn=lambda x: x), {}
            return src, {}
        if kinds[0] != "t" and len(names) == 1:
            return col[0], {}
        if style == "bcast" and nb > 1:
            return col[0], {m: c[0] for m, c in zip(names[1:], col[1:])}
        return col[0], dict(zip(names[1:], col[1:]))

    def expected_bundles(region, nodes, batches, contexts, module):
        """per context: list of (args, kwargs) per batch"""
        out = []
        for c in contexts:
            rows = []
            for x in batches:
                vals = flat.evaluate(x, c)
                if isinstance(region, (GM.Span, GM.Group)):
                    by = {f"x{i}": v for i, v in enumerate(x)}
                    for i, lf in enumerate(flat.leaves):
                        by[b.graph.node(ids[lf.ref.id]).name] = vals[i]
                    args = []
                    for nm in module.input_names:
                        base, path = parse_name(nm)
                        args.append(follow(by[base], path))
                    rows.append((tuple(args), {}))
                elif isinstance(region, graphs.Fold):
                    rows.append(fold_call(region, x, vals))
                else:
                    (i,) = nodes
                    lf = flat.leaves[i]
                    rows.append((tuple(flat.value(vals, x, r) for r in lf.args), {k: flat.value(vals, x, r) for k, r in lf.kwargs.items()}))
            out.append(rows)
        return out

    ids = {r.id: r for r in b.graph.topo_order}
    leaf_at = {lf.ref.id: i for i, lf in enumerate(flat.leaves)}

    def fold_call(fold, x, vals):
        """the arguments of the fold's own node, read from the values of leaves and inputs"""
        node = b.graph.node(b.graph.node_ref(fold))

        def val(ref):
            if isinstance(ref, GM.Const):
                return ref.value
            if isinstance(ref, GM.InputRef):
                return x[names.index(ref.name)]
            if isinstance(ref, GM.AttributeRef):
                return follow(val(ref.reference), (ref.attribute,))
            if ref.id in leaf_at:
                return vals[leaf_at[ref.id]]
            rets = b.graph._fold_returns[ref.id]
            vs = [val(r) for r in rets]
            return vs[0] if len(vs) == 1 else tuple(vs)

        return tuple(val(r) for r in node.args), {k: val(r) for k, r in node.kwargs.items()}

    def varying(nodes, st, nbatches):
        vary = set(range(len(names))) if not (st["style"] == "bcast") else {0}
        return any(flat.input_deps(i) & vary for i in nodes)

    def run_plain(what):
        ins = graphs.inputs_for(5, 0, kinds)
        vals = flat.evaluate(ins)
        want = [flat.value(vals, ins, r) for r in flat.outs]
        args, kwargs = ((), dict(zip(names, ins)))
        if any(isinstance(v, list) for v in ins):
            return
        got, exc = catch(lambda: b.graph(*args, **kwargs))
        if exc is not None and is_injected(exc):
            raise exc
        if exc is not None:
            raise Violation("graph-broken", f"{what}: executing the graph gave {type(exc).__name__}: {exc}") from exc
        w = want[0] if len(want) == 1 else tuple(want)
        sim.check(digest(got) == digest(w), "graph-broken", lambda: f"{what}: the graph gives {short(got)}, reference {short(w)}")

    for st in sc["ops"]:
        sim.tick()
        if st["op"] == "run":
            run_plain("plain run")
            continue
        picked = regions_of(st)
        if not picked or cyclic([s for _, s, _ in picked]):
            sim.probe("skipped")
            continue
        manual = st["how"] == "manual"
        nb = st["nb"]
        batches = [graphs.inputs_for(st["x"], i, kinds) for i in range(nb)]
        data, kwargs = feed(st, batches)
        if st["style"] == "bcast" and nb > 1 and len(names) > 1:
            batches = [[x[0], *batches[0][1:]] for x in batches]
        if nb == 1 and not isinstance(data, torch.Tensor) and any(k != "t" for k in kinds):
            sim.probe("skipped_single_structured")
            continue
        shifts0 = {m: float(m.shift) for m in b.mods}
        visited: list[int] = []
        touched: set = set()
        bad: list = []

        def region_index(module):
            for k, (r, nodes, _) in enumerate(picked):
                if r is module:
                    return k
                if isinstance(r, (GM.Span, GM.Group)) and isinstance(module, GM.GraphModule):
                    inner = {nid for nid in module._nodes if nid in leaf_at}
                    if {leaf_at[i] for i in inner} == nodes:
                        return k
            return None

        def check_bundle(k, module, bundles):
            region, nodes, cs = picked[k]
            values = [c.value for c in cs] if manual and cs else [0]
            if len(bundles) != len(values):
                bad.append(("bundles", f"target {k} was given {len(bundles)} bundles instead of {len(values)}"))
                return
            want = expected_bundles(region, nodes, batches, values, module)
            for got, rows, v in zip(bundles, want, values):
                got = list(got)
                if rows and not rows[0][0] and not rows[0][1]:
                    continue  # a module without inputs
                if len(got) == 1 and nb > 1 and len({repr(digest([list(a), kw])) for a, kw in rows}) == 1:
                    rows = rows[:1]
                g, w = [digest([list(a), kw]) for a, kw in got], [digest([list(a), kw]) for a, kw in rows]
                if g != w:
                    i = next((i for i, (p, q) in enumerate(zip(g, w)) if p != q), min(len(g), len(w)))
                    bad.append(("activations", f"target {k} ({type(module).__name__}), context {v}: batch {i} of {len(w)} ({len(g)} given): got {short(got[i]) if i < len(got) else None}, "
                                               f"expected {short(rows[i]) if i < len(rows) else None}"))

        def algorithm(module, *bundles, tag=None):
            sim.tick()
            k = region_index(module)
            if k is None:
                bad.append(("visited", f"algorithm called for {type(module).__name__}, which is not a target"))
                return
            me = len(visited)
            visited.append(k)
            f = state["fault"]
            fire = f and f["where"] == "alg" and me == f["at"] % len(picked)
            if fire and f["phase"] == "pre":
                raise_fault(sim, f["kind"])
            if graphs.CTX[0] != 0:
                bad.append(("context", f"the algorithm of target {k} was called inside an execution context"))
            check_bundle(k, module, bundles)
            members = [flat.leaves[i].mod for i in picked[k][1] if flat.leaves[i].mod is not None]
            a = st["alg"]
            if a in ("call", "twice"):
                for _ in range(2 if a == "twice" else 1):
                    for bundle in bundles:
                        for args, kw in bundle:
                            if not isinstance(module, GM.GraphModule):
                                module(*args, **kw)
            elif a == "part":
                for bundle in bundles:
                    next(iter(bundle), None)
            elif a == "graph" and me == 0:
                run_plain("run inside an algorithm")
            elif a == "nested" and me == 0:
                nested(module)
            if fire and f["phase"] == "mid":
                raise_fault(sim, f["kind"])
            with torch.no_grad():
                for m in members:
                    fresh[0] += 1
                    m.shift.add_(float(fresh[0] % 50))
                    touched.add(m)
            if fire:
                raise_fault(sim, f["kind"])

        def nested(module):
            """an algorithm that optimizes another model"""
            other = graphs.build(G, {"ins": ["t"], "nodes": [{"t": "node", "kind": "t", "c": 5, "args": [{"v": 0, "p": 0, "w": True}], "kwargs": {}, "fn": False, "share": None}],
                                     "outs": [{"v": 1, "p": 0, "w": True}]})
            seen = []
            spec = orch.AlgorithmSpec(lambda m, bundle: seen.append([digest(list(a)) for a, _ in bundle]), reg.normalize(other.mods[0]), flows)
            x = graphs.inputs_for(3, 0, ["t"])[0]
            orch.layerwise_optimize(torch.nn.ModuleList(other.mods), [x], spec, graph=other.graph)
            if seen != [[digest([x])]]:
                bad.append(("nested", f"nested optimization saw {seen}"))

        regions = [r for r, _, _ in picked]
        off = IE.OffloadEverything(torch.device("cpu"), torch.device("cpu")) if st["off"] else None

        def start():
            how = st["how"]
            if manual:
                specs = [GM.SubgraphSpec(r, algorithm, flows=flows, contexts=list(cs) or None) for r, _, cs in picked]
                reduced, _ = GM.reduce_resolution(b.graph, specs)
                program = IE.InstructionScheduler().schedule(reduced)
                with orch._ExecutionContext(reduced, program, passes=[orch.optimization_only_pass, orch.lifetime_management_pass], offloading=off):
                    return reduced(data, **kwargs)
            if how == "spec":
                return orch.layerwise_optimize(model, data, orch.AlgorithmSpec(algorithm, Regions(regions), flows), graph=b.graph, offloading=off, **kwargs)
            if how == "specs":
                specs = [orch.AlgorithmSpec(algorithm, Regions([r]), flows) for r in regions]
                return orch.layerwise_optimize(model, data, specs, graph=b.graph, offloading=off, **kwargs)
            orch.register(algorithm, Regions(regions if how != "targets" else []), flows)
            try:
                alg = functools.partial(algorithm, tag=1) if how == "partial" else algorithm
                return orch.layerwise_optimize(model, data, alg, graph=b.graph, offloading=off, targets=Regions(regions) if how == "targets" else None, **kwargs)
            finally:
                reg._registry._specs.pop(algorithm, None)

        state.update(fault=st["fault"], ctx=0)
        before = len(reg._registry)
        with Calls(sim, b.mods, st["fault"] if st["fault"] and st["fault"]["where"] == "node" else None):
            res, exc = catch(start)
        state["fault"] = None
        if bad:
            raise Violation(bad[0][0], f"{st['how']}: {bad[0][1]}")
        if exc is not None and not is_injected(exc):
            if isinstance(exc, ValueError) and "siblings" in str(exc):
                sim.probe("not_siblings")
                continue
            raise Violation("unexpected-error", f"{st['how']} {[type(r).__name__ for r in regions]}: {type(exc).__name__}: {exc}") from exc
        sim.check(graphs.CTX[0] == 0 and all(c.entered == c.exited for c in ctxs), "context-open", lambda: f"contexts {[(c.entered, c.exited) for c in ctxs]} after {exc!r}")
        order = [k for k in visited]
        for i, k in enumerate(order):
            for later in order[i + 1:]:
                sim.check(not any(picked[later][1] & (up[j] - picked[k][1]) for j in picked[k][1]), "order", lambda: f"target {k} was optimized before target {later}, which it depends on")
        if exc is None:
            sim.check(sorted(visited) == list(range(len(picked))), "visited", lambda: f"{st['how']}: targets visited {visited} of {len(picked)}")
            sim.probe("optimized")
        else:
            sim.check(len(set(visited)) == len(visited), "visited", lambda: f"targets visited {visited}")
            sim.probe("failed_" + st["fault"]["where"])
        for m in b.mods:
            if m not in touched:
                sim.check(float(m.shift) == shifts0[m], "touched", "a module that was not visited changed")
        sim.check(all(m.training == t for m, t in training.items()) and len(reg._registry) == before, "left-over", "training mode or registry changed")
        run_plain(f"after {st['how']} ({'failed' if exc else 'done'})")
        sim.ops_done += 1
        sim.event(st["how"], visited, type(exc).__name__)
        sim.state(st["how"], visited, [len(s) for _, s, _ in picked], type(exc).__name__)
