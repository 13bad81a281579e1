"""C12: executing a module graph equals the reference order of calls."""

from __future__ import annotations

import collections
import contextlib
import random
import uuid

import torch

from sim import graphs
from sim.core import Sim, Violation, catch, is_injected, raise_fault
from sim.graphs import Flat, digest

PROPERTY = "C12"
CONFIGS = {"plain": {"faults": False}, "faults": {"faults": True}}
PLAN = {"quick": 1500, "quick_s": 90, "thorough": 30000, "thorough_s": 780, "det": 6}
RULE = ("Random module graph (functions, shared modules, nested subgraphs, structured values, attribute references, constants, several outputs) with a history of "
        "executions (batched or not, random legal orders, extra passes, a failure in any node), edits, refused edits, extracted subgraphs and reductions to coarser "
        "resolutions; every result is compared bit for bit with a direct evaluation of the same specification.")
REAL = ["fastforward._orchestration.graph_module", "fastforward._orchestration.instruction_engine", "fastforward.orchestration"]
STUB = ["uuid.uuid4 (seeded)"]
STATE_MEASURE = "hash of (number of leaves, outputs, kinds of operations done so far)"


@contextlib.contextmanager
def seeded_uuids(seed: int):
    rng = random.Random(seed)
    old = uuid.uuid4
    uuid.uuid4 = lambda: uuid.UUID(int=rng.getrandbits(128), version=4)
    try:
        yield
    finally:
        uuid.uuid4 = old


def gen_run(rng, cfg):
    f = None
    if cfg["faults"] and rng.random() < 0.45:
        f = {"kind": rng.choice(["error", "interrupt", "oom"]), "at": rng.randint(0, 12)}
    return {"nb": rng.choice([1, 1, 1, 2, 3]), "style": rng.choice(["pos", "kw", "mixed_kw", "dicts", "tuples", "bcast"]), "x": rng.randint(0, 999), "fault": f}


def gen_region(rng):
    r = rng.random()
    v = [rng.randint(0, 60) for _ in range(3)]
    return {"t": "leaf" if r < 0.35 else "span" if r < 0.65 else "group" if r < 0.8 else "fold", "v": v}


def generate(rng, cfg):
    spec = graphs.gen_graph(rng, n=(1, 9), depth=rng.choice([0, 1, 2, 2, 3]))
    ops = []
    for _ in range(rng.randint(2, 7)):
        r = rng.random()
        if r < 0.3:
            ops.append({"op": "run", **gen_run(rng, cfg)})
        elif r < 0.48:
            ops.append({"op": "passes", "order": rng.randint(0, 999) if rng.random() < 0.6 else None,
                        "passes": rng.sample(["life", "offload"], rng.randint(0, 2)), "ctx": rng.random() < 0.5, **gen_run(rng, cfg)})
        elif r < 0.65:
            ops.append({"op": "edit", "kind": rng.choice(["node", "node", "sub", "output", "output", "input"]), "node": graphs.gen_node(rng, 1, sub=0.0),
                        "sub": graphs.gen_node(rng, 1, sub=1.0), "out": graphs.gen_ref(rng, const=0.0)})
        elif r < 0.72:
            ops.append({"op": "bad", "kind": rng.choice(["dup_id", "foreign_out", "input_out", "dup_input", "sub_arity", "sub_kw", "sub_twice", "sub_no_out"]), "v": rng.randint(0, 60)})
        elif r < 0.85:
            ops.append({"op": "cut", "pick": [rng.randint(0, 60) for _ in range(rng.randint(1, 4))], "convex": rng.random() < 0.7, **gen_run(rng, cfg)})
        else:
            ops.append({"op": "reduce", "regions": [gen_region(rng) for _ in range(rng.choice([1, 1, 2, 2, 3]))], "delegate_fault": cfg["faults"] and rng.random() < 0.2, **gen_run(rng, cfg)})
    return {"graph": spec, "ops": ops, "uuid": rng.randint(0, 10**6)}


def shrink(sc):
    import copy

    def lists(node, path):
        if isinstance(node, dict):
            for k, v in node.items():
                if k in ("nodes", "outs", "regions", "args", "ins") and isinstance(v, list) and len(v) > 1:
                    yield (*path, k)
                if isinstance(v, (dict, list)):
                    yield from lists(v, (*path, k))
        elif isinstance(node, list):
            for i, v in enumerate(node):
                yield from lists(v, (*path, i))

    for path in list(lists(sc, ())):
        cur = sc
        for p in path:
            cur = cur[p]
        for i in range(len(cur)):
            new = copy.deepcopy(sc)
            tgt = new
            for p in path:
                tgt = tgt[p]
            del tgt[i]
            yield new


def parse_name(name: str) -> tuple[str, tuple]:
    base, _, rest = name.partition("[")
    path = []
    if rest:
        for part in rest[:-1].split("]["):
            path.append(int(part) if part.lstrip("-").isdigit() else part)
    return base, tuple(path)


class Calls:
    """Counts the module calls of a run and fails one of them."""

    def __init__(self, sim: Sim, mods, fault) -> None:
        self.sim, self.mods, self.fault, self.n = sim, mods, fault, 0
        self.log: collections.Counter = collections.Counter()

    def __call__(self, mod, args, kwargs):
        self.sim.tick()
        n, self.n = self.n, self.n + 1
        if self.fault and n == self.fault["at"]:
            raise_fault(self.sim, self.fault["kind"])
        self.log[(id(mod), digest(list(args)), digest(dict(kwargs)))] += 1

    def __enter__(self):
        for m in self.mods:
            m.cb = self
        return self

    def __exit__(self, *a):
        for m in self.mods:
            m.cb = None


def execute(sim: Sim, sc):
    with seeded_uuids(sc["uuid"]):
        _execute(sim, sc)


def _execute(sim: Sim, sc):
    import fastforward as ff
    import fastforward.orchestration as orch

    from fastforward._orchestration import graph_module as GM
    from fastforward._orchestration import instruction_engine as IE
    from fastforward._orchestration.data_flow import InputActivations

    class G:
        GraphModule, Const, Op = GM.GraphModule, GM.Const, GM.Op

    b = graphs.build(G, sc["graph"])
    done: list[str] = []

    def kinds():
        return [b.prog.kinds[s] for s in b.prog.inputs]

    def feed(names, ks, batches, style):
        """args, kwargs of a call with these batches (list of input lists)"""
        n = len(batches)
        col = [[x[i] for x in batches] for i in range(len(names))]
        one = n == 1
        if style in ("dicts", "tuples") and not one and all(k == "t" for k in ks) and names:
            if style == "dicts":
                return ([dict(zip(names, x)) for x in batches],), {}
            if len(names) > 1:
                return ([tuple(x) for x in batches],), {}
        vals = [c[0] if one else c for c in col]
        if style == "bcast" and not one:
            vals = [c if i == 0 else c[0] for i, c in enumerate(col)]
        structured = any(k != "t" for k in ks)
        if style == "pos" and not structured:
            return tuple(vals), {}
        k = len(names) // 2 if style == "mixed_kw" and not structured else 0
        return tuple(vals[:k]), dict(zip(names[k:], vals[k:]))

    def compare(what, got, want, nb):
        """want: list per batch of list of outputs"""
        vals = [w[0] if len(w) == 1 else tuple(w) for w in want]
        if nb == 1:
            sim.check(digest(got) == digest(vals[0]), "result", lambda: f"{what}: got {short(got)}, reference {short(vals[0])}")
            return
        sim.check(isinstance(got, dict) and len(got) == 1, "result-shape", lambda: f"{what}: {nb} batches gave {type(got).__name__} {short(got)}")
        (res,) = got.values()
        sim.check(len(res) == nb, "result-shape", f"{what}: {nb} batches gave {len(res)} results")
        for i, (g, w) in enumerate(zip(res, vals)):
            sim.check(digest(g) == digest(w), "result", lambda: f"{what}, batch {i}: got {short(g)}, reference {short(w)}")

    def one_run(what, call, st, *, exact=True):
        """call(*args, **kwargs); returns whether it completed"""
        flat = Flat(b)
        names = [f"x{i}" for i in range(len(b.prog.inputs))]
        nb, style = st["nb"], st["style"]
        batches = [graphs.inputs_for(st["x"], i, kinds()) for i in range(nb)]
        varying = set(range(len(names)))
        if style == "bcast" and nb > 1:
            batches = [[x[0], *batches[0][1:]] for x in batches]
            varying = {0} & varying
        dep = [flat.input_deps(r[1]) & varying for r in flat.outs]
        if nb > 1 and not any(dep):
            sim.probe("skipped_constant_outputs")
            return None
        args, kwargs = feed(names, kinds(), batches, style)
        before = digest([args, kwargs])
        f = st.get("fault")
        with Calls(sim, b.mods, f) as calls:
            got, exc = catch(lambda: call(*args, **kwargs))
        sim.check(digest([args, kwargs]) == before, "inputs-changed", f"{what}: the inputs were modified")
        if exc is not None:
            if not is_injected(exc):
                raise Violation("unexpected-error", f"{what}: {type(exc).__name__}: {exc}") from exc
            sim.probe("run_failed")
            return False
        vals = [flat.evaluate(x) for x in batches]
        want = [[flat.value(v, x, r) for r in flat.outs] for v, x in zip(vals, batches)]
        compare(what, got, want, nb)
        live = flat.live()
        lo, hi = collections.Counter(), collections.Counter()
        for i, lf in enumerate(flat.leaves):
            if lf.mod is None:
                continue
            n_once = nb == 1 or not (flat.input_deps(i) & varying)
            for j, (v, x) in enumerate(zip(vals, batches)):
                key = flat.call_key(i, v, x)
                hi[key] += 1
                if i in live and (j == 0 or not n_once):
                    lo[key] += 1
        if exact:
            bad = [k for k in set(lo) | set(calls.log) if not lo[k] <= calls.log[k] <= hi[k]]
            sim.check(not bad, "calls", lambda: f"{what}: a module was called {calls.log[bad[0]]} times with the same arguments, reference between {lo[bad[0]]} and {hi[bad[0]]}")
        sim.probe("run_ok")
        return True

    def refetch(st):
        """the plain graph executes correctly whatever happened before"""
        one_run("plain run after " + st["op"], b.graph, {"nb": 1, "style": "pos", "x": st.get("x", 1), "fault": None})

    def topo(flat, seed):
        rng = random.Random(seed)
        left, order, placed = set(range(len(flat.leaves))), [], set()
        while left:
            ready = sorted(i for i in left if flat.leaves[i].deps() <= placed)
            i = rng.choice(ready)
            left.discard(i)
            placed.add(i)
            order.append(i)
        return order

    for st in sc["ops"]:
        sim.tick()
        op = st["op"]
        if op == "run":
            if one_run("run", b.graph, st) is False:
                refetch(st)
        elif op == "passes":
            flat = Flat(b)
            strategy = None
            if st["order"] is not None:
                order = topo(flat, st["order"])
                ids = {r.id: r for r in b.graph.topo_order}
                strategy = lambda g: [ids[flat.leaves[i].ref.id] for i in order]  # noqa: E731
            program = IE.InstructionScheduler(ordering_strategy=strategy).schedule(b.graph)
            passes = []
            if "life" in st["passes"]:
                passes.append(orch.lifetime_management_pass)
            off = IE.OffloadEverything(torch.device("cpu"), torch.device("cpu")) if "offload" in st["passes"] else None
            if st["ctx"]:
                def call(*a, **k):
                    with orch._ExecutionContext(b.graph, program, passes=passes, offloading=off) as g:
                        return g(*a, **k)
            else:
                if off:
                    passes.append(off.create_instruction_pass(b.graph))
                prog2 = IE.InstructionPasses.apply(program, passes)

                def call(*a, **k):
                    old = b.graph._program, b.graph._engine
                    b.graph._program, b.graph._engine = prog2, IE.InstructionEngine()
                    try:
                        return b.graph(*a, **k)
                    finally:
                        b.graph._program, b.graph._engine = old

            one_run("run with passes", call, st)
            refetch(st)
        elif op == "edit":
            if st["kind"] == "node":
                b.add(st["node"])
            elif st["kind"] == "sub":
                b.add(st["sub"])
            elif st["kind"] == "input":
                b.add_input("t")
            else:
                b.outputs([st["out"]])
            refetch(st)
            done.append(st["kind"])
        elif op == "bad":
            bad_edit(sim, G, b, st)
            refetch(st)
        elif op == "cut":
            cut(sim, GM, b, st, one_run)
            refetch(st)
        elif op == "reduce":
            reduce(sim, GM, InputActivations, b, st, one_run)
            refetch(st)
        sim.ops_done += 1
        flat = Flat(b)
        sim.state(len(flat.leaves), len(flat.outs), tuple(done), op)
        ins = graphs.inputs_for(7, 0, kinds())
        v = flat.evaluate(ins)
        sim.event(op, digest([flat.value(v, ins, r) for r in flat.outs]))


def bad_edit(sim, G, b, st):
    g = b.graph
    kind = st["kind"]
    flat = Flat(b)
    other = G.GraphModule()
    ox = other.add_input("x0")
    on = other.add_node("only", torch.nn.Identity(), [ox])
    if kind != "sub_no_out":
        other.add_output(on)
    some = b.refs[st["v"] % len(b.refs)]
    if kind == "dup_id":
        tgt = flat.leaves[st["v"] % len(flat.leaves)].ref.id
        _, exc = catch(lambda: g.add_node("bad", torch.nn.Identity(), [some], node_id=tgt))
    elif kind == "foreign_out":
        _, exc = catch(lambda: g.add_output(on))
    elif kind == "input_out":
        _, exc = catch(lambda: g.add_output(b.refs[b.prog.inputs[0]]))
    elif kind == "dup_input":
        _, exc = catch(lambda: g.add_input("x0"))
    elif kind == "sub_arity":
        _, exc = catch(lambda: g.add_subgraph("bad", other, [some, some], original_module=torch.nn.Identity()))
    elif kind == "sub_kw":
        _, exc = catch(lambda: g.add_subgraph("bad", other, [], {"nope": some}, original_module=torch.nn.Identity()))
    elif kind == "sub_no_out":
        _, exc = catch(lambda: g.add_subgraph("bad", other, [some]))
    else:
        # inlining a graph a second time: its nodes are already there
        src = graphs.Builder(G, mods=[], tag="tw")
        src.add_input("t")
        src.outputs([{"v": 0, "p": 0, "w": True}])
        t = [i for i, k in enumerate(b.prog.kinds) if k == "t"]
        if not t:
            return
        i = t[st["v"] % len(t)]
        b.names += 1
        name = f"{b.tag}s{b.names}"
        (out,) = g.add_subgraph(name, src.graph, [b.refs[i]])
        b.mods += src.mods
        b.refs.append(out)
        b.prog.steps.append(("sub", [b.prog.slot("t")], src.prog, [("v", i, ())]))
        _, exc = catch(lambda: g.add_subgraph(name + "again", src.graph, [b.refs[i]], original_module=torch.nn.Identity()))
    sim.fault("refused_edit")
    sim.check(isinstance(exc, ValueError), "accepted", f"invalid edit {kind} gave {type(exc).__name__ if exc else 'no error'}")


def cut(sim, GM, b, st, one_run):
    flat = Flat(b)
    n = len(flat.leaves)
    pick = {i % n for i in st["pick"]}
    if st["convex"]:
        up = {i: flat.closure({i}) for i in range(n)}
        pick |= {j for j in range(n) if any(j in up[i] for i in pick) and any(i in up[j] for i in pick)}
    ids = {r.id: r for r in b.graph.topo_order}
    refs = {ids[flat.leaves[i].ref.id] for i in pick}
    if not st["convex"]:
        # a cut that is re-entered is only meaningful as a set of calls; its inputs must not depend on it
        up = {i: flat.closure({i}) for i in range(n)}
        if any(j not in pick and any(i in up[j] for i in pick) and any(j in up[i] for i in pick) for j in range(n)):
            sim.probe("skipped_reentrant")
            return
    sub = GM.create_subgraph(b.graph, refs)
    kinds = [b.prog.kinds[s] for s in b.prog.inputs]
    ins = graphs.inputs_for(st["x"], 0, kinds)
    vals = flat.evaluate(ins)
    by_name = {f"x{i}": v for i, v in enumerate(ins)}
    for i, lf in enumerate(flat.leaves):
        by_name[b.graph.node(ids[lf.ref.id]).name] = vals[i]
    kwargs = {}
    for name in sub.input_names:
        base, path = parse_name(name)
        sim.check(base in by_name, "cut-input", f"input {name!r} of the subgraph names no value of the graph")
        kwargs[name] = graphs.follow(by_name[base], path)
    if any(isinstance(v, list) for v in kwargs.values()):
        sim.probe("skipped_list_input")  # a list given to a graph is a list of batches
        return
    required = {digest(flat.value(vals, ins, r)) for r in flat.outs if r[0] == "n" and r[1] in pick}
    for j, lf in enumerate(flat.leaves):
        if j not in pick:
            required |= {digest(vals[d]) for d in lf.deps() if d in pick}
    allowed = set(required)
    for i in pick:
        allowed |= {digest(graphs.follow(vals[i], p)) for p in [(), *graphs.PATHS[flat.leaves[i].kind]]}
    f = st.get("fault")
    with Calls(sim, b.mods, f) as calls:
        got, exc = catch(lambda: sub(**kwargs))
    if exc is not None and is_injected(exc):
        with Calls(sim, b.mods, None) as calls:
            got, exc = catch(lambda: sub(**kwargs))
    if exc is not None:
        raise Violation("unexpected-error", f"extracted subgraph: {type(exc).__name__}: {exc}") from exc
    if not required:
        sim.probe("cut_without_outputs")
        return
    if digest(got) in allowed and (len(required) == 1 or not isinstance(got, tuple)):
        outs = [got]
    else:
        sim.check(isinstance(got, tuple), "cut-result", lambda: f"extracted subgraph returned {short(got)}")
        outs = list(got)
    have = {digest(o) for o in outs}
    sim.check(required <= have, "cut-result", lambda: f"extracted subgraph returned {short(outs)}; {len(required - have)} of {len(required)} values needed outside are missing or wrong")
    sim.check(have <= allowed, "cut-result", lambda: f"extracted subgraph returned a value that no node produces: {short(outs)}")
    sim.probe("cut_ok")


def reduce(sim, GM, InputActivations, b, st, one_run):
    flat = Flat(b)
    n = len(flat.leaves)
    count = collections.Counter(id(lf.mod) for lf in flat.leaves if lf.mod is not None)
    unique = [i for i, lf in enumerate(flat.leaves) if lf.mod is not None and count[id(lf.mod)] == 1]
    up = [flat.closure({i}) for i in range(n)]
    users = [{j for j in range(n) if i in flat.leaves[j].deps()} for i in range(n)]
    taken: set[int] = set()
    specs = []
    fail = [st.get("delegate_fault")]
    visited = collections.Counter()
    blocks: list[set[int]] = []

    for k, reg in enumerate(st["regions"]):
        def fn(module, *bundles, k=k):
            visited[k] += 1
            for bundle in bundles:
                for _ in bundle:
                    pass
            if fail[0]:
                raise_fault(sim, "error")

        if reg["t"] == "fold":
            if not b.folds:
                continue
            # folds live in the graph under their original module
            fold, path = b.folds[reg["v"][0] % len(b.folds)]
            nodes = {i for i, lf in enumerate(flat.leaves) if fold_leaf(b, flat, fold, i)}
            region = fold
        else:
            free = [i for i in unique if i not in taken]
            if not free:
                continue
            i = free[reg["v"][0] % len(free)]
            if reg["t"] == "leaf":
                nodes, region = {i}, flat.leaves[i].mod
            elif reg["t"] == "span":
                ends = [j for j in unique if i in up[j]]
                j = ends[reg["v"][1] % len(ends)]
                nodes = {m for m in up[j] if i in up[m]}
                region = GM.Span(flat.leaves[i].mod, flat.leaves[j].mod)
            else:
                sib = [j for j in unique if flat.leaves[j].deps() == flat.leaves[i].deps() and users[j] == users[i]]
                sib = [i, *[j for j in sib if j != i][: 1 + reg["v"][1] % 3]]
                nodes, region = set(sib), GM.Group(tuple(flat.leaves[j].mod for j in sib))
        if not nodes or nodes & taken:
            continue
        taken |= nodes
        blocks.append(nodes)
        specs.append(GM.SubgraphSpec(region, fn, flows=[InputActivations("original")]))
    if not specs:
        sim.probe("reduce_skipped")
        return
    # contracting the blocks must leave an acyclic graph, otherwise no order of whole blocks exists
    owner = {i: k for k, s in enumerate(blocks) for i in s}
    key = lambda i: ("b", owner[i]) if i in owner else ("l", i)  # noqa: E731
    edges = collections.defaultdict(set)
    for i, lf in enumerate(flat.leaves):
        for d in lf.deps():
            if key(d) != key(i):
                edges[key(i)].add(key(d))
    state: dict = {}

    def cyclic(k):
        if state.get(k) == 1:
            return True
        if state.get(k) == 2:
            return False
        state[k] = 1
        r = any(cyclic(x) for x in edges[k])
        state[k] = 2
        return r

    if any(cyclic(k) for k in list(edges)):
        sim.probe("reduce_cyclic")
        return
    res, exc = catch(lambda: GM.reduce_resolution(b.graph, specs))
    if exc is not None:
        if isinstance(exc, ValueError) and any(isinstance(s.region, GM.Group) for s in specs) and "siblings" in str(exc):
            sim.probe("reduce_not_siblings")
            return
        raise Violation("unexpected-error", f"reduce_resolution: {type(exc).__name__}: {exc}") from exc
    reduced, _ = res
    r = one_run("reduced graph", reduced, st, exact=False)
    if r is False:
        fail[0] = False
        r = one_run("reduced graph, again", reduced, {**st, "fault": None}, exact=False)
        sim.probe("reduced_rerun")
    elif r:
        sim.check(all(visited[k] == 1 for k in visited), "delegates", f"delegates were called {dict(visited)}")
    if r:
        sim.probe("reduced_ok")


def fold_leaf(b, flat, fold, i):
    ref = flat.leaves[i].ref
    node = b.graph.node(ref)
    p = node.parent
    while p is not None:
        node = b.graph.node(p)
        if node.target is fold:
            return True
        p = node.parent
    return False


def short(v):
    import re

    return re.sub(r"\s+", " ", str(v))[:300]
