"""C20: an export pipeline runs every stage once, after and with what it depends on."""

from __future__ import annotations

import pathlib
import shutil
import tempfile

import torch

import fastforward as ff

from fastforward.export.pipeline.core import Pipeline
from fastforward.export.pipeline.orchestrator import ExportOrchestrator, ExportRequest, export_with_pipeline
from fastforward.export.pipeline.registry import PipelineRegistry

from sim.core import Sim, Violation, catch, is_injected, public_flags, raise_fault

PROPERTY = "C20"
CONFIGS = {"plain": {"faults": False}, "faults": {"faults": True}}
PLAN = {"quick": 2000, "quick_s": 80, "thorough": 60000, "thorough_s": 780, "det": 6}
RULE = ("History of edits (register, insert before/after, replace, add/remove dependency, refused edits) and runs (direct, nested in a stage, through the orchestrator; failing "
        "in any stage or metric) of several stage pipelines; every stage call, its arguments and the results are compared with a model of the stage graph.")
REAL = ["fastforward.export.pipeline (Pipeline, StageReference, PipelineRegistry, ExportOrchestrator)", "fastforward.testing.metrics.sqnr"]
STUB = ["stage functions (return tagged values, fail, or run another pipeline)", "evaluation metric that fails"]
STATE_MEASURE = "hash of the dependency graph and capture/evaluation sets"


def gen_op(rng, cfg, depth=1):
    r = rng.random()
    p = rng.randint(0, 1)
    n = lambda: rng.randint(0, 11)  # noqa: E731
    if r < 0.14:
        return {"op": "register", "p": p, "deps": [n() for _ in range(rng.choice([0, 1, 1, 2, 3]))], "eval": rng.random() < 0.25, "cap": rng.random() < 0.5,
                "dup": n() if rng.random() < 0.1 else None}
    if r < 0.24:
        return {"op": "before", "p": p, "t": n(), "deps": [n() for _ in range(rng.randint(0, 2))] if rng.random() < 0.3 else None, "cap": rng.random() < 0.5,
                "bad": rng.choice([None] * 8 + ["target", "name", "dep"])}
    if r < 0.34:
        return {"op": "after", "p": p, "t": n(), "cap": rng.random() < 0.5, "bad": rng.choice([None] * 8 + ["target", "name"])}
    if r < 0.45:
        return {"op": "replace", "p": p, "t": n(), "name": rng.choice(["same", "none", "new"]), "cap": rng.choice([None, None, True, False]),
                "bad": rng.choice([None] * 8 + ["target", "name"])}
    if r < 0.55:
        return {"op": "add", "p": p, "a": n(), "b": n(), "bad": rng.choice([None] * 8 + ["a", "b"])}
    if r < 0.62:
        return {"op": "remove", "p": p, "a": n(), "b": n(), "edge": rng.random() < 0.8}
    if r < 0.66:
        return {"op": "ref", "p": p, "a": n(), "b": [n() for _ in range(rng.randint(1, 2))]}
    f = None
    if cfg["faults"] and rng.random() < 0.45:
        f = {"at": rng.randint(0, 9), "kind": rng.choice(["error", "interrupt", "oom", "io"])}
    met = rng.choice(["asym", "asym", "sqnr", "fail"] if cfg["faults"] else ["asym", "asym", "sqnr"])
    return {"op": "run", "p": p, "how": rng.choice(["call", "call", "call", "last", "orch"]), "fault": f, "metric": met, "samples": rng.randint(0, 2),
            "nested": {"at": rng.randint(0, 4), "run": gen_op_run(rng, cfg)} if depth and rng.random() < 0.2 else None, "taint": rng.random() < 0.3}


def gen_op_run(rng, cfg):
    while True:
        o = gen_op(rng, cfg, 0)
        if o["op"] == "run":
            return o


def generate(rng, cfg):
    return {"kw": [rng.random() < 0.5 for _ in range(2)], "ops": [gen_op(rng, cfg) for _ in range(rng.randint(5, 22))]}


class Res(list):
    """Result of a stage: a list of tensors that knows where it came from."""

    __hash__ = object.__hash__

    def __eq__(self, other):
        return self is other


class Model:
    """Reference: ordered dict of stages."""

    def __init__(self):
        self.order = []  # names in registration position
        self.deps = {}
        self.fn = {}
        self.cap = []
        self.ev = []

    def reaches(self, src, dst):
        seen, st = set(), [src]
        while st:
            c = st.pop()
            if c == dst:
                return True
            if c not in seen:
                seen.add(c)
                st += self.deps[c]
        return False

    def cyclic(self):
        return any(any(self.reaches(d, n) for d in self.deps[n]) for n in self.order)

    def add(self, name, fn, deps, cap, ev=False):
        self.order.append(name)
        self.fn[name] = fn
        self.deps[name] = []
        for d in deps:
            if d not in self.deps[name]:
                self.deps[name].append(d)
        if cap:
            self.cap.append(name)
        if ev:
            self.ev.append(name)


def swap(lst, a, b):
    return [b if x == a else x for x in lst]


def execute(sim: Sim, sc):
    tmp = tempfile.mkdtemp(prefix="simc20_")
    try:
        World(sim, sc, pathlib.Path(tmp)).go()
    finally:
        shutil.rmtree(tmp, ignore_errors=True)


class World:
    def __init__(self, sim, sc, tmp):
        self.sim, self.sc, self.tmp = sim, sc, tmp
        self.kws = [{"k": i, "nested": {"v": i}} if kw else None for i, kw in enumerate(sc["kw"])]
        self.pipes = [Pipeline(kw) if kw is not None else Pipeline() for kw in self.kws]
        self.models = [Model(), Model()]
        self.n = 0
        self.fresh = 0
        self.stack = []  # running runs
        self.runs = 0

    # ------------------------------------------------------------ stages
    def new_stage(self):
        self.fresh += 1
        fid = self.fresh

        def stage(modules, sample_inputs, context):
            return self.stage_called(fid, modules, sample_inputs, context)

        return fid, stage

    def stage_called(self, fid, modules, sample_inputs, context):
        sim = self.sim
        sim.tick()
        run = self.stack[-1]
        m = run["model"]
        name = next((n for n in m.order if m.fn[n] == fid), None)
        sim.check(name is not None, "stage-call", f"stage function {fid} of a stage that is not part of the pipeline was called")
        sim.check(name not in run["called"], "stage-call", f"stage {name} was called twice")
        k = len(run["called"])
        run["called"].append(name)
        sim.check(run["failed"] is None, "stage-call", f"stage {name} was called after {run['failed']} failed" if run["failed"] else "")
        deps = m.deps[name]
        for d in deps:
            sim.check(d in run["results"], "order", f"stage {name} was called before {d}, which it depends on")
        want = [run["results"][d] for d in deps] if deps else [run["input"]]
        sim.check(isinstance(modules, tuple) and len(modules) == len(want), "arguments", lambda: f"stage {name} got {len(modules)} arguments, depends on {deps}")
        for i, (g, w) in enumerate(zip(modules, want)):
            sim.check(g is w, "arguments", lambda: f"stage {name}: argument {i} is {getattr(g, 'tag', g)!r}, expected {getattr(w, 'tag', w)!r} (depends on {deps})")
        sim.check(list(sample_inputs) == run["samples"], "arguments", f"stage {name}: sample inputs")
        if k == 0:
            sim.check(context == run["kw"], "arguments", f"stage {name}: context {context} at the start of the run, expected {run['kw']}")
        else:
            sim.check({a: b for a, b in context.items() if a != "taint"} == run["kw"], "arguments", f"stage {name}: context {context}")
        if run["taint"]:
            context["taint"] = run["id"]
        if run["nested"] and run["nested"]["at"] == k:
            sim.probe("nested_run")
            self.run(run["nested"]["run"], nested=True)
        f = run["fault"]
        if f and f["at"] == k:
            run["failed"] = name
            raise_fault(sim, f["kind"])
        out = Res([torch.tensor([float(fid), float(run["id"] % 7) + j]) for j in range(2)])
        out.tag = f"{name}@run{run['id']}"
        run["results"][name] = out
        return out

    # ------------------------------------------------------------ helpers
    def pick(self, m, i):
        return m.order[i % len(m.order)] if m.order else None

    def refused(self, fn, kinds, what):
        _, exc = catch(fn)
        self.sim.check(isinstance(exc, kinds), "edit", f"{what}: expected to be refused with {kinds}, got {exc!r}")
        self.sim.fault("refused_edit")

    def ok(self, fn, what):
        res, exc = catch(fn)
        if exc is not None:
            raise Violation("unexpected-error", f"{what}: {type(exc).__name__}: {exc}") from exc
        return res

    def verify(self, what):
        for p, m in zip(self.pipes, self.models):
            for n in m.order:
                ref, exc = catch(lambda: p.get_stage(n))
                self.sim.check(exc is None, "structure", f"{what}: stage {n} is missing")
                self.sim.check(ref.name == n, "structure", f"{what}: stage {n} is called {ref.name}")
                got = [d.name for d in ref.dependencies]
                self.sim.check(got == m.deps[n], "structure", f"{what}: stage {n} depends on {got}, expected {m.deps[n]}")
            self.sim.state([(m.order.index(n), [m.order.index(d) for d in m.deps[n]]) for n in m.order], [m.order.index(c) for c in m.cap])

    def go(self):
        for st in self.sc["ops"]:
            self.sim.tick()
            self.sim.event(st["op"], st["p"])
            getattr(self, "do_" + st["op"])(st)
            self.sim.ops_done += 1
            self.verify(f"after {st['op']}")
        for i in range(2):
            self.run({"op": "run", "p": i, "how": "call", "fault": None, "metric": "asym", "samples": 1, "nested": None, "taint": False})

    def name(self):
        self.n += 1
        return f"s{self.n}"

    # ------------------------------------------------------------ edits
    def do_register(self, st):
        p, m = self.pipes[st["p"]], self.models[st["p"]]
        fid, fn = self.new_stage()
        reg = p.register_eval_stage if st["eval"] else p.register_stage
        if st["dup"] is not None and m.order:
            dup = self.pick(m, st["dup"])
            return self.refused(lambda: reg(fn, dup, st["cap"]), ValueError, f"second stage called {dup}")
        name = self.name()
        deps = [self.pick(m, i) for i in st["deps"]] if m.order else []
        ref = self.ok(lambda: reg(fn, name, st["cap"]), "register")
        ref.depends_on(*[p.get_stage(d) for d in deps])
        m.add(name, fid, deps, st["cap"], st["eval"])

    def do_before(self, st):
        p, m = self.pipes[st["p"]], self.models[st["p"]]
        if not m.order:
            return
        t = self.pick(m, st["t"])
        fid, fn = self.new_stage()
        deps = None if st["deps"] is None else [self.pick(m, i) for i in st["deps"]]
        if st["bad"] == "target":
            return self.refused(lambda: p.insert_stage_before("nosuch", fn, self.name(), depends_on=deps), KeyError, "insert before an unknown stage")
        if st["bad"] == "name":
            return self.refused(lambda: p.insert_stage_before(t, fn, t, depends_on=deps), ValueError, "insert a stage whose name is taken")
        if st["bad"] == "dep":
            return self.refused(lambda: p.insert_stage_before(t, fn, self.name(), depends_on=[*(deps or []), "nosuch"]), KeyError, "insert with an unknown dependency")
        name = self.name()
        arg = None if deps is None else iter(deps)
        self.ok(lambda: p.insert_stage_before(t, fn, name, depends_on=arg, **({"capture_stage_output": True} if st["cap"] else {})), "insert before")
        if deps is None:
            m.add(name, fid, m.deps[t], st["cap"])
            m.deps[t] = [name]
        else:
            m.add(name, fid, deps, st["cap"])

    def do_after(self, st):
        p, m = self.pipes[st["p"]], self.models[st["p"]]
        if not m.order:
            return
        t = self.pick(m, st["t"])
        fid, fn = self.new_stage()
        if st["bad"] == "target":
            return self.refused(lambda: p.insert_stage_after("nosuch", fn, self.name()), KeyError, "insert after an unknown stage")
        if st["bad"] == "name":
            return self.refused(lambda: p.insert_stage_after(t, fn, t), ValueError, "insert a stage whose name is taken")
        name = self.name()
        self.ok(lambda: p.insert_stage_after(t, fn, name, **({"capture_stage_output": True} if st["cap"] else {})), "insert after")
        for n in m.order:
            m.deps[n] = swap(m.deps[n], t, name)
        m.add(name, fid, [t], st["cap"])

    def do_replace(self, st):
        p, m = self.pipes[st["p"]], self.models[st["p"]]
        if not m.order:
            return
        t = self.pick(m, st["t"])
        fid, fn = self.new_stage()
        if st["bad"] == "target":
            return self.refused(lambda: p.replace_stage("nosuch", fn), KeyError, "replace an unknown stage")
        other = [n for n in m.order if n != t]
        if st["bad"] == "name" and other:
            return self.refused(lambda: p.replace_stage(t, fn, other[0]), ValueError, "replace by a stage whose name is taken")
        name = {"same": t, "none": None, "new": self.name()}[st["name"]]
        self.ok(lambda: p.replace_stage(t, fn, name, capture_stage_output=st["cap"]), "replace")
        new = name or t
        cap = st["cap"] if st["cap"] is not None else t in m.cap
        deps = m.deps.pop(t)
        m.fn.pop(t)
        m.deps[new], m.fn[new] = deps, fid
        m.order = swap(m.order, t, new)
        for n in m.order:
            m.deps[n] = swap(m.deps[n], t, new)
        if cap and t not in m.cap:
            m.cap.append(new)
        m.cap = swap(m.cap, t, new) if cap else [c for c in m.cap if c != t]
        m.ev = swap(m.ev, t, new)

    def do_add(self, st):
        p, m = self.pipes[st["p"]], self.models[st["p"]]
        if not m.order:
            return
        a, b = self.pick(m, st["a"]), self.pick(m, st["b"])
        if st["bad"]:
            args = ("nosuch", b) if st["bad"] == "a" else (a, "nosuch")
            return self.refused(lambda: p.add_dependency(*args), KeyError, "dependency of or on an unknown stage")
        if m.reaches(b, a):
            return self.refused(lambda: p.add_dependency(a, b), ValueError, "cyclic dependency")
        self.ok(lambda: p.add_dependency(a, b), "add dependency")
        if b not in m.deps[a]:
            m.deps[a].append(b)

    def do_remove(self, st):
        p, m = self.pipes[st["p"]], self.models[st["p"]]
        if not m.order:
            return
        a, b = self.pick(m, st["a"]), self.pick(m, st["b"])
        if st["edge"] and m.deps[a]:
            b = m.deps[a][st["b"] % len(m.deps[a])]
        if b not in m.deps[a]:
            return self.refused(lambda: p.remove_dependency(a, b), KeyError, "removing a dependency that does not exist")
        self.ok(lambda: p.remove_dependency(a, b), "remove dependency")
        m.deps[a].remove(b)

    def do_ref(self, st):
        """Dependencies declared on the stage reference; may close a cycle, which a run must refuse."""
        p, m = self.pipes[st["p"]], self.models[st["p"]]
        if not m.order:
            return
        a = self.pick(m, st["a"])
        bs = [b for b in (self.pick(m, i) for i in st["b"]) if b != a]
        self.ok(lambda: p.get_stage(a).depends_on(*[p.get_stage(b) for b in bs]), "depends_on")
        for b in bs:
            if b not in m.deps[a]:
                m.deps[a].append(b)

    # ------------------------------------------------------------ runs
    def do_run(self, st):
        self.run(st)

    def run(self, st, nested=False):
        sim = self.sim
        p, m = self.pipes[st["p"]], self.models[st["p"]]
        self.runs += 1
        kw = dict(self.kws[st["p"]] or {})
        run = {"id": self.runs, "model": m, "called": [], "results": {}, "failed": None, "input": torch.nn.Identity(), "fault": st["fault"],
               "samples": [((i,), {"k": i}) for i in range(st["samples"])], "kw": kw, "nested": st["nested"], "taint": st["taint"]}
        flags = public_flags()
        metric_calls = []

        def metric(a, b):
            metric_calls.append(1)
            if st["metric"] == "fail" and len(metric_calls) == 2:
                raise_fault(sim, "error")
            return (3 * a - b).sum()

        mk = {} if st["metric"] == "sqnr" else {"eval_metric": metric}
        self.stack.append(run)
        try:
            if st["how"] == "orch":
                out, exc = catch(lambda: self.orchestrated(st, p, run))
                if exc is None:
                    out = (out.stage_outputs, out.eval_results)
            elif st["how"] == "last":
                out, exc = catch(lambda: p(run["input"], list(run["samples"]), _return_last=True, **mk))
            else:
                out, exc = catch(lambda: p(run["input"], list(run["samples"]), **mk))
        finally:
            self.stack.pop()
        sim.check(public_flags() == flags, "modes", f"after a run: {public_flags()}")
        if m.cyclic():
            sim.check(isinstance(exc, ValueError) and not is_injected(exc), "cycle", f"running a cyclic pipeline: {exc!r}")
            sim.check(not run["called"], "cycle", f"stages {run['called']} of a cyclic pipeline were called")
            sim.probe("cyclic_run")
            return
        if run["failed"]:
            sim.check(exc is not None and is_injected(exc), "failure", f"stage {run['failed']} failed but the run ended with {exc!r}")
            sim.probe("failed_run")
            if nested:
                raise exc
            return
        if exc is not None and is_injected(exc):
            sim.check(st["nested"] is not None or st["metric"] == "fail", "failure", f"{exc!r} came from nowhere")
            sim.probe("failed_run")
            if nested:
                raise exc
            return
        if st["how"] == "last" and not m.order:
            sim.check(isinstance(exc, ValueError), "result", f"last result of an empty pipeline: {exc!r}")
            return
        if exc is not None:
            raise Violation("unexpected-error", f"run: {type(exc).__name__}: {exc}") from exc
        sim.check(sorted(run["called"]) == sorted(m.order), "stage-call", f"called {run['called']}, stages are {m.order}")
        results, evals = out
        if st["how"] == "last":
            sim.check(len(results) == 1, "result", f"{list(results)}")
            (n,) = results
            sim.check(n == run["called"][-1], "result", f"returned the result of {n} as the last of {run['called']}")
        else:
            sim.check(sorted(results) == sorted(m.cap), "result", f"results of {list(results)}, captured are {m.cap}")
        for n, r in results.items():
            sim.check(r is run["results"][n], "result", f"result of {n} is {getattr(r, 'tag', r)!r} in run {run['id']}")
        pairs = [(a, b) for i, a in enumerate(m.ev) for b in m.ev[i + 1:]]
        got = {(a.name, b.name): v for (a, b), v in evals.items()}
        sim.check(sorted(got) == sorted(pairs), "evaluation", f"compared {sorted(got)}, evaluation stages {m.ev}")
        if st["metric"] != "sqnr" and st["how"] != "orch":
            for a, b in pairs:
                want = torch.stack([(3 * x - y).sum() for x, y in zip(run["results"][a], run["results"][b])]).mean()
                sim.check(bool(got[a, b] == want), "evaluation", f"{a} vs {b}: {got[a, b]}, expected {want}")
        sim.probe("run_ok")

    def orchestrated(self, st, p, run):
        reg = PipelineRegistry()
        wrong = Pipeline()
        seen = []

        def factory(context):
            seen.append(dict(context))
            return p

        reg.register(" Tgt", "FMT ", lambda c: wrong)
        reg.register("tgt", "fmt", factory, replace=True)
        _, exc = catch(lambda: reg.register("TGT", "fmt", lambda c: wrong))
        self.sim.check(isinstance(exc, ValueError), "registry", f"second registration: {exc!r}")
        out = self.tmp / f"o{run['id']}"
        req = ExportRequest(model=run["input"], sample_inputs=list(run["samples"]), output_dir=str(out), model_name="m", target="TGT ", format=" fmt", options={"opt": 1})
        art = export_with_pipeline(req, ExportOrchestrator(reg))
        self.sim.check(seen == [{"output_dir": out, "model_name": "m", "opt": 1}], "registry", f"pipeline factory called with {seen}")
        return art
