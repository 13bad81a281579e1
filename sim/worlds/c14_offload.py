"""C14: offloading never changes results or loses parameters."""

from __future__ import annotations

import torch

from sim import graphs
from sim.core import Sim, Violation, catch, is_injected, raise_fault, tdigest
from sim.devices import CPU, GPU0, GPU1, Devices, tensors
from sim.graphs import Flat, digest
from sim.worlds.c12_graph import seeded_uuids, short
from sim.worlds.c12_graph import shrink as shrink  # noqa: PLC0414
from sim.worlds.c13_layerwise import Ctx, gen_region, region_tools

PROPERTY = "C14"
CONFIGS = {"plain": {"faults": False}, "faults": {"faults": True}}
PLAN = {"quick": 900, "quick_s": 60, "thorough": 16000, "thorough_s": 780, "det": 6}
RULE = ("Random module graphs (nested subgraphs, structured values, shared modules, tied parameters, buffers) placed on simulated devices are executed and optimized again and again "
        "with offloading between random device pairs; transfers run out of memory, nodes and algorithms fail. At every call everything must be on the compute device; after every run, "
        "however it ended, values, ties and placement of all parameters must be what they were.")
REAL = ["fastforward._orchestration.instruction_engine (offloading passes, engine)", "fastforward._orchestration.graph_module", "fastforward.orchestration"]
STUB = ["devices (labels on host memory; transfers copy and may fail)", "algorithms and modules (simulator-owned)", "uuid.uuid4 (seeded)"]
STATE_MEASURE = "hash of (devices, kind of run, number of leaves, outcome)"
DEV = [CPU, GPU0, GPU1]


def no_obj(x):
    """Dataclass values are not moved between devices (documented), so they are left out."""
    if isinstance(x, dict):
        return {k: no_obj(v) for k, v in x.items()}
    if isinstance(x, list):
        return [no_obj(v) for v in x]
    return "tup" if x == "obj" else x


def generate(rng, cfg):
    spec = no_obj(graphs.gen_graph(rng, n=(1, 8), depth=rng.choice([0, 0, 1, 2]), structured=rng.random() < 0.4))
    ops = []
    for _ in range(rng.randint(1, 4)):
        f = None
        if cfg["faults"] and rng.random() < 0.75:
            f = {"where": rng.choice(["move", "move", "node", "alg"]), "kind": rng.choice(["error", "interrupt", "oom", "oom"]), "at": rng.randint(0, rng.choice([2, 6, 20]))}
        ops.append({"op": rng.choice(["opt", "opt", "forward"]), "regions": [gen_region(rng) for _ in range(rng.choice([1, 1, 2, 3]))], "nb": rng.choice([1, 2, 3]),
                    "compute": rng.choice([1, 1, 1, 2, 0]), "storage": rng.choice([0, 0, 0, 1, 2]), "place": [rng.randint(0, 2) for _ in range(6)], "all": rng.choice([None, "c", "s", "s"]),
                    "ins": [rng.randint(0, 2) for _ in range(3)], "alg": rng.choice(["shift", "call", "replace", "none"]), "manual": rng.random() < 0.4, "x": rng.randint(0, 999), "fault": f})
    return {"graph": spec, "ops": ops, "uuid": rng.randint(0, 10**6), "tie": [rng.randint(0, 9) for _ in range(2)] if rng.random() < 0.3 else None, "buf": rng.random() < 0.5}


def execute(sim: Sim, sc):
    graphs.CTX[0] = 0
    with seeded_uuids(sc["uuid"]):
        try:
            with Devices(sim) as dev:
                _execute(sim, sc, dev)
        finally:
            graphs.OBSERVE[0] = None


def _execute(sim: Sim, sc, dev: Devices):
    import fastforward.orchestration as orch

    from fastforward._orchestration import graph_module as GM
    from fastforward._orchestration import instruction_engine as IE
    from fastforward._orchestration.data_flow import InputActivations

    class G:
        GraphModule, Const, Op = GM.GraphModule, GM.Const, GM.Op

    b = graphs.build(G, sc["graph"])
    flat = Flat(b)
    names = [f"x{i}" for i in range(len(b.prog.inputs))]
    kinds = [b.prog.kinds[s] for s in b.prog.inputs]
    mods = b.mods
    model = torch.nn.ModuleList([*mods, *[f for f, _ in b.folds]])
    if sc["tie"] and len(mods) > 1:
        i, j = (k % len(mods) for k in sc["tie"])
        mods[i].other = mods[j].shift if i != j else torch.nn.Parameter(torch.ones(2))
    if sc["buf"]:
        for i, m in enumerate(mods):
            m.register_buffer("buf", torch.arange(3.0) + i)
    regions_of, cyclic = region_tools(GM, b, flat, [Ctx(sim, v, {"fault": None, "ctx": 0}) for v in (100, 200, 300)])
    active = {"compute": None, "idle": None, "n": 0, "fault": None, "depth": 0}
    fresh = [0]

    class Regions(orch.Selector):
        def __init__(self, regions) -> None:
            self.regions = regions

        def resolve(self, model):
            return list(self.regions)

    def state_of(m):
        return [*m.named_parameters(), *m.named_buffers()]

    def pre(mod, args, kwargs):
        sim.tick()
        n, active["n"] = active["n"], active["n"] + 1
        f = active["fault"]
        if f and f["where"] == "node" and n == f["at"]:
            raise_fault(sim, f["kind"])
        if active["compute"] is not None:
            for name, t in state_of(mod):
                sim.check(dev.of(t) == active["compute"], "wrong-device", lambda: f"{name} of a module is on {dev.of(t)} while it runs, compute device is {active['compute']}")

            if active["storage"] != active["compute"] and not sc["tie"]:
                mine = {id(mod)} | active["near"].get(id(mod), set())
                for m in mods:
                    if id(m) not in mine:
                        for name, t in state_of(m):
                            sim.check(dev.of(t) == active["storage"], "idle", lambda: f"{name} of an idle module is on {dev.of(t)} while another runs, storage device is {active['storage']}")

    def observe(mod, args, kwargs, v):
        ts = tensors([args, kwargs])
        on = {str(dev.of(t)) for t in ts}
        sim.check(len(on) <= 1, "wrong-device", lambda: f"a node was called with tensors on {sorted(on)}")
        if mod == "fold":  # a function inside of a module, which makes its tensors where the module is
            return dev.put(v, dev.of(ts[0]) if ts else active["compute"] or CPU)
        if mod is not None and active["compute"] is not None:
            sim.check(on <= {str(active["compute"])}, "wrong-device", lambda: f"a module was called with tensors on {sorted(on)}, compute device is {active['compute']}")
            return dev.put(v, active["compute"])
        return dev.put(v, dev.of(ts[0]) if ts else CPU)

    graphs.OBSERVE[0] = observe
    for m in mods:
        m.cb = pre

    for st in sc["ops"]:
        sim.tick()
        compute, storage = DEV[st["compute"]], DEV[st["storage"]]
        done: set = set()
        for i, m in enumerate(mods):
            want = {"c": compute, "s": storage, None: DEV[st["place"][i % 6]]}[st["all"]]
            for _, t in state_of(m):
                if id(t) not in done:
                    done.add(id(t))
                    dev.put(t, want)
        nb = st["nb"]
        batches = [graphs.inputs_for(st["x"], i, kinds) for i in range(nb)]
        for x in batches:
            for k, v in enumerate(x):
                dev.put(v, DEV[st["ins"][k % 3]])
        given = [(t, dev.of(t), tdigest(t)) for t in tensors(batches)]
        picked = regions_of(st)
        if st["op"] == "opt" and (not picked or cyclic([s for _, s, _ in picked])):
            sim.probe("skipped")
            continue
        if nb == 1 and any(k != "t" for k in kinds):
            sim.probe("skipped_single_structured")
            continue
        col = [[x[i] for x in batches] for i in range(len(names))]
        data, kwargs = col[0], dict(zip(names[1:], col[1:]))
        place = {id(m): [(name, dev.of(t)) for name, t in state_of(m)] for m in mods}
        values = {id(m): [(name, tdigest(t)) for name, t in state_of(m)] for m in mods}
        owners = {id(m): [id(p) for p in m.parameters()] for m in mods}
        shifts = {m: float(m.shift) for m in mods}
        changed: set = set()
        seen: list = []

        def algorithm(module, *bundles):
            sim.tick()
            k = len(seen)
            f = active["fault"]
            if f and f["where"] == "alg" and k == f["at"] % len(picked):
                raise_fault(sim, f["kind"])
            seen.append(module)
            for m in module.modules():
                for name, t in state_of(m):
                    sim.check(dev.of(t) == compute, "wrong-device", lambda: f"{name} of the target is on {dev.of(t)} while it is optimized on {compute}")
            for bundle in bundles:
                for args, kw in bundle:
                    on = {str(dev.of(t)) for t in tensors([args, kw])}
                    sim.check(on <= {str(compute)}, "wrong-device", lambda: f"an algorithm was given activations on {sorted(on)}, compute device is {compute}")
                    if st["alg"] == "call" and not isinstance(module, GM.GraphModule):
                        module(*args, **kw)
            if st["alg"] in ("shift", "replace"):
                targets = [m for m in module.modules() if isinstance(m, graphs.Mod)]
                with torch.no_grad():
                    for m in targets:
                        if len(owners[id(m)]) > 1 or any(id(m.shift) in owners[id(o)] for o in mods if o is not m):
                            continue  # tied
                        fresh[0] += 1
                        shifts[m] += fresh[0] % 50
                        changed.add(m)
                        if st["alg"] == "shift":
                            m.shift.add_(float(fresh[0] % 50))
                        else:
                            m.shift = torch.nn.Parameter(dev.put(m.shift + float(fresh[0] % 50), compute))

        near: dict[int, set] = {}  # modules that are on the compute device together
        units = [s for _, s, _ in picked] if st["op"] == "opt" else []
        units += [{i for i, lf in enumerate(flat.leaves) if f in lf.folds} for f in range(1, flat.nfolds + 1)]
        for u in units:
            for i in u:
                near.setdefault(id(flat.leaves[i].mod), set()).update(id(flat.leaves[j].mod) for j in u)
        off = IE.OffloadEverything(compute, storage)
        flows = [InputActivations("original")]

        def start():
            if st["op"] == "forward":
                program = IE.InstructionScheduler().schedule(b.graph)
                passes = [orch.lifetime_management_pass] if st["manual"] else []
                with orch._ExecutionContext(b.graph, program, passes=passes, offloading=off):
                    return b.graph(data, **kwargs)
            if st["manual"] and st["op"] == "opt":
                specs = [GM.SubgraphSpec(r, algorithm, flows=flows, contexts=list(cs) or None) for r, _, cs in picked]
                reduced, _ = GM.reduce_resolution(b.graph, specs)
                program = IE.InstructionScheduler().schedule(reduced)
                with orch._ExecutionContext(reduced, program, passes=[orch.optimization_only_pass, orch.lifetime_management_pass], offloading=off):
                    return reduced(data, **kwargs)
            regions = [r for r, _, _ in picked] if st["op"] == "opt" else []
            return orch.layerwise_optimize(model, data, orch.AlgorithmSpec(algorithm, Regions(regions), flows), graph=b.graph, offloading=off, **kwargs)

        dev.moves, dev.failed = 0, None
        dev.fault = st["fault"] if st["fault"] and st["fault"]["where"] == "move" else None
        active.update(compute=compute, storage=storage, near=near, n=0, fault=st["fault"])
        res, exc = catch(start)
        dev.fault = None
        active.update(compute=None, fault=None)
        what = f"{st['op']} {storage}<->{compute}"
        if exc is not None and not is_injected(exc):
            if isinstance(exc, ValueError) and "siblings" in str(exc):
                sim.probe("not_siblings")
                continue
            raise Violation("unexpected-error", f"{what}: {type(exc).__name__}: {exc}") from exc
        how = "done" if exc is None else f"failed ({st['fault']['where']})"
        for t, d, v in given:
            sim.check(dev.of(t) == d and tdigest(t) == v, "inputs", lambda: f"{what} {how}: a tensor given by the caller changed")
        # a transfer back to where a tensor came from may be the very thing that failed
        lost = dev.failed is not None and any(d == dev.failed[1] for ps in place.values() for _, d in ps)
        for i, m in enumerate(mods):
            now = state_of(m)
            if not lost:
                sim.check([(name, dev.of(t)) for name, t in now] == place[id(m)], "placement",
                          lambda: f"{what} {how}: module {i} is on {[(n, str(dev.of(t))) for n, t in now]}, was on {[(n, str(d)) for n, d in place[id(m)]]}")
            if m in changed:
                sim.check(float(m.shift) == shifts[m], "value", lambda: f"{what} {how}: shift of module {i} is {float(m.shift)}, the algorithm left {shifts[m]}")
            else:
                sim.check([(name, tdigest(t)) for name, t in now] == values[id(m)], "value", lambda: f"{what} {how}: values of module {i} changed")
            if m not in changed or st["alg"] != "replace":
                sim.check([id(p) for p in m.parameters()] == owners[id(m)], "identity", lambda: f"{what} {how}: parameters of module {i} were exchanged")
        if exc is None and st["op"] == "forward":
            want = []
            for x in batches:
                vals = flat.evaluate(x)
                outs = [flat.value(vals, x, r) for r in flat.outs]
                want.append(outs[0] if len(outs) == 1 else tuple(outs))
            constant = nb > 1 and not any(r[0] == "in" or flat.input_deps(r[1]) for r in flat.outs)
            if st["op"] == "forward" and not constant:
                got = [res] if nb == 1 else list(next(iter(res.values())))
                sim.check([digest(g) for g in got] == [digest(w) for w in want], "result", lambda: f"{what}: result {short(got)} instead of {short(want)}")
                sim.probe("forward_ok")
        if exc is None:
            sim.probe("done_" + st["op"])
        else:
            sim.probe("failed_" + st["fault"]["where"])
        sim.ops_done += 1
        sim.event(st["op"], dev.moves, how)
        sim.state(st["op"], str(compute), str(storage), st["all"], len(flat.leaves), how)
