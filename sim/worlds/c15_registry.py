"""C15: algorithm registrations and conversion filters hold exactly for their scope."""

from __future__ import annotations

import functools
import sys
import types

import torch

import fastforward as ff

from sim.core import Sim, Violation, catch, is_injected, raise_fault

PROPERTY = "C15"
CONFIGS = {"plain": {"faults": False}, "faults": {"faults": True}}
PLAN = {"quick": 1200, "quick_s": 80, "thorough": 30000, "thorough_s": 780, "det": 6}
RULE = ("History of registrations, nested override scopes and conversion filters (opened by with, by decorator or in a suspended generator; left normally, by an error, an "
        "interrupt or by closing the generator), lookups, layer-wise runs and conversions; after every step the algorithm resolved for every module and the class every "
        "module converts to are compared with a stack model.")
REAL = ["fastforward._orchestration.registry", "fastforward.orchestration.layerwise_optimize", "fastforward.nn.quantized_module (map, filter, quantize_model)"]
STUB = ["algorithms (functions that record or fail)", "user selectors and target iterables that fail", "quantized classes of toy modules"]
STATE_MEASURE = "hash of (registration per algorithm, open scopes, filter)"


# ------------------------------------------------------------------ toy modules and their quantized classes


class TA(torch.nn.Linear):
    pass


class TB(torch.nn.Linear):
    pass


class TC(torch.nn.Module):
    def forward(self, x):
        return torch.relu(x)


class TD(TA):
    pass


BASES = {"A": TA, "B": TB, "C": TC, "D": TD}
PYMODS = ["simq_a", "simq_a.sub", "simq_b", "simq_ab"]
# definition order matters: the one defined last wins among those allowed
DEFS = [("A", "simq_a"), ("B", "simq_b"), ("A", "simq_ab"), ("C", "simq_a.sub"), ("A", "simq_b"), ("D", "simq_a"), ("B", "simq_a.sub"),
        ("C", "simq_ab"), ("A", "simq_a.sub"), ("D", "simq_b"), ("B", "simq_ab")]
CLASSES: list[tuple[str, str, type]] = []


def _init_fault(self):
    ff.nn.QuantizedModule.__init_quantization__(self)
    if INIT.get("cb"):
        INIT["cb"]()


INIT: dict = {}


def setup_classes():
    if CLASSES:
        return
    for n in PYMODS:
        sys.modules[n] = types.ModuleType(n)
    for i, (b, m) in enumerate(DEFS):
        cls = type(ff.nn.QuantizedModule)(f"Q{b}{i}", (BASES[b], ff.nn.QuantizedModule), {"__module__": m, "__init_quantization__": _init_fault})
        CLASSES.append((b, m, cls))


def allowed(pymod: str, filt) -> bool:
    return filt is None or any(pymod == f or pymod.startswith(f + ".") for f in filt)


def expected_class(b: str, filt):
    out = None
    for base, m, cls in CLASSES:
        if base == b and allowed(m, filt):
            out = cls
    return out


# ------------------------------------------------------------------ generation


def gen_target(rng, faults):
    r = rng.random()
    if r < 0.35:
        return {"t": "type", "c": rng.choice(["A", "B", "C", "D"])}
    if r < 0.5:
        return {"t": "types", "c": rng.sample(["A", "B", "C", "D"], rng.randint(1, 3))}
    if r < 0.6:
        return {"t": "inst", "i": [rng.randint(0, 9) for _ in range(rng.randint(1, 3))]}
    if r < 0.7:
        return {"t": "mpath", "q": rng.choice(["**/[cls:TA]", "*", "0", "1", "{0,2}"]), "c": "A"}
    if r < 0.8:
        return {"t": "sel", "i": [rng.randint(0, 9) for _ in range(rng.randint(1, 2))],
                "fault": rng.choice(["error", "interrupt"]) if faults and rng.random() < 0.3 else None}
    if r < 0.9:
        return {"t": "mix", "items": [{"t": "type", "c": rng.choice("ABC")}, {"t": "inst", "i": [rng.randint(0, 9)]}]}
    return {"t": "bad", "k": rng.choice(["empty", "int", "str", "gen"] if faults else ["empty", "int", "str"])}


def gen_body(rng, cfg, depth, n):
    ops = []
    for _ in range(n):
        r = rng.random()
        if r < 0.16:
            ops.append({"op": "register", "a": rng.randint(0, 2), "tgt": gen_target(rng, cfg["faults"]), "partial": rng.random() < 0.3})
        elif r < 0.30:
            ops.append({"op": "lookup", "a": rng.randint(0, 3), "partial": rng.random() < 0.3})
        elif r < 0.42:
            ops.append({"op": "layerwise", "a": rng.randint(0, 2), "tgt": gen_target(rng, cfg["faults"]) if rng.random() < 0.6 else None,
                        "inner": gen_body(rng, cfg, 0, 1) if rng.random() < 0.3 else [],
                        "fault": {"at": rng.randint(0, 2), "kind": rng.choice(["error", "interrupt", "oom"])} if cfg["faults"] and rng.random() < 0.5 else None})
        elif r < 0.56:
            f = None
            if cfg["faults"] and rng.random() < 0.3:
                f = {"at": rng.randint(0, 4), "kind": rng.choice(["error", "interrupt", "oom"])}
            ops.append({"op": "convert", "m": [rng.choice("ABCD") for _ in range(rng.randint(1, 4))], "how": rng.choice(["model", "surrogate", "extra", "ignore"]), "fault": f})
        elif depth > 0:
            s = {"op": "scope", "how": rng.choice(["with", "with", "gen", "deco"]),
                 "exit": rng.choice([None, None, "error", "interrupt", "oom"]) if cfg["faults"] else rng.choice([None, None, None, "error"]),
                 "body": gen_body(rng, cfg, depth - 1, rng.randint(1, 4))}
            if rng.random() < 0.55:
                s |= {"k": "override", "a": rng.randint(0, 3), "partial": rng.random() < 0.25, "tgt": gen_target(rng, cfg["faults"]) if rng.random() < 0.9 else None}
            else:
                s |= {"k": "filter", "mods": rng.sample(PYMODS + ["nosuch"], rng.randint(0, 3)), "as_str": rng.random() < 0.2}
            if s["how"] == "gen":
                s["close"] = rng.choice(["next", "close", "throw"])
            if s["how"] == "deco":
                s["again"] = rng.random() < 0.4
            ops.append(s)
    return ops


def generate(rng, cfg):
    return {"layers": [rng.choice("ABCD") for _ in range(rng.randint(3, 6))], "pre": [rng.random() < 0.6 for _ in range(3)],
            "ops": gen_body(rng, cfg, 3, rng.randint(3, 9))}


# ------------------------------------------------------------------ execution


class Abort(Exception):
    """Leaves a scope by an error the world raised itself."""


def build(layers):
    return torch.nn.Sequential(*[BASES[c](4, 4) if c != "C" else TC() for c in layers]).eval()


def execute(sim: Sim, sc):
    from fastforward.nn import quantized_module as qm

    setup_classes()
    INIT.clear()
    qm._QUANTIZED_MODULE_MAP_FILTER = None  # a run starts in a fresh process state
    try:
        W(sim, sc).go()
    finally:
        INIT.clear()
        qm._QUANTIZED_MODULE_MAP_FILTER = None


class W:
    def __init__(self, sim, sc):
        from fastforward import orchestration as orch
        from fastforward._orchestration import registry

        self.sim, self.sc, self.orch, self.reg = sim, sc, orch, registry
        self.model = build(sc["layers"])
        self.mods = list(self.model)
        self.calls = None
        self.on_call = None
        self.algs = [self.make_alg(i) for i in range(4)]
        self.flows = [[object()] for _ in range(4)]
        self.current = [None, None, None, None]  # (fn, ids, flows) | None per algorithm; 3 is never registered
        self.filter = None
        self.depth = 0

    def make_alg(self, i):
        def alg(module, *bundles, tag=None):
            if self.calls is not None:
                self.calls.append((i, tag, module))
                if self.on_call is not None:
                    self.on_call(len(self.calls) - 1)

        alg.__name__ = f"alg{i}"
        return alg

    # targets: returns (value to pass, list of ids matched or exception kind)
    def target(self, t):
        k = t["t"]
        mods = self.mods
        if k == "type":
            return BASES[t["c"]], [m for m in mods if isinstance(m, BASES[t["c"]])]
        if k == "types":
            ts = tuple(BASES[c] for c in t["c"])
            return ts, [m for m in mods if isinstance(m, ts)]
        if k == "inst":
            ms = [mods[i % len(mods)] for i in t["i"]]
            return list(ms), ms
        if k == "mpath":
            from fastforward import mpath

            q = t["q"]
            if "cls" in q:
                q = "*"
            ix = {"*": range(len(mods)), "0": [0], "1": [1], "{0,2}": [0, 2]}[q] if q in ("*", "0", "1") else None
            if ix is None:
                q, ix = "2", [2]
            return mpath.query(q), [mods[i] for i in ix]
        if k == "sel":
            ms = [mods[i % len(mods)] for i in t["i"]]
            ms = [m for j, m in enumerate(ms) if not any(m is o for o in ms[:j])]
            sim = self.sim

            class Sel(self.reg.Selector):
                def resolve(self, model):
                    if t.get("fault"):
                        raise_fault(sim, t["fault"])
                    return list(ms)

            return Sel(), ("fault", ms) if t.get("fault") else ms
        if k == "mix":
            vals, ms = [], []
            for it in t["items"]:
                v, m = self.target(it)
                vals.append(v)
                ms += m
            return vals, ms
        if t["k"] == "gen":
            def gen():
                yield TA
                raise_fault(self.sim, "error")

            return gen(), "bad"
        return {"empty": [], "int": 3, "str": "TA"}[t["k"]], "bad"

    def fn(self, a, partial):
        return functools.partial(self.algs[a], tag=partial) if partial else self.algs[a]

    # ---------------------------------------------------------------- checks
    def same_fn(self, got, want):
        if isinstance(want, functools.partial):
            return isinstance(got, functools.partial) and got.func is want.func and got.keywords == want.keywords
        return got is want

    def lookup(self, a, partial=False, what=""):
        cur = self.current[a]
        res, exc = catch(lambda: self.orch.resolve(self.model, algorithm=self.fn(a, "look") if partial else self.algs[a]))
        if cur is None:
            self.sim.check(isinstance(exc, self.reg.NoTargetsFound), "lookup", f"{what}: algorithm {a} is not registered but resolved to {res} / {exc!r}")
            return
        fn, ms, flows = cur
        if isinstance(ms, tuple):
            self.sim.check(exc is not None and is_injected(exc), "lookup", f"{what}: expected the selector in force to be asked, got {res} / {exc!r}")
            return
        if not ms:
            self.sim.check(isinstance(exc, self.reg.NoTargetsFound), "lookup", f"{what}: no module matches but got {res} / {exc!r}")
            return
        if exc is not None:
            raise Violation("lookup", f"{what}: algorithm {a}: {type(exc).__name__}: {exc}") from exc
        got = sorted({self.index(s.region) for s in res})
        want = sorted({self.index(m) for m in ms})
        self.sim.check(got == want and len(res) == len(want), "lookup", f"{what}: algorithm {a} targets {got} ({len(res)} regions), registration in force targets {want}")
        self.sim.check(all(self.same_fn(s.fn, fn) for s in res), "lookup", f"{what}: algorithm {a} resolves to another function than registered")
        self.sim.check(all(s.flows is flows for s in res), "lookup", f"{what}: algorithm {a} resolves to other data flows than registered")

    def index(self, m):
        for i, o in enumerate(self.mods):
            if o is m:
                return i
        return -1 if m is self.model else -2

    def map_check(self, what):
        mp = ff.nn.quantized_module.quantized_module_map()
        for b in "ABCD":
            want = expected_class(b, self.filter)
            self.sim.check(mp.get(BASES[b]) is want, "filter", f"{what}: {b} converts to {mp.get(BASES[b])}, expected {want} under filter {self.filter}")
        std = torch.nn.Linear in mp
        self.sim.check(std == (self.filter is None), "filter", f"{what}: torch.nn.Linear convertible: {std} under filter {self.filter}")

    def check(self, what):
        for a in range(4):
            self.lookup(a, what=what)
        self.map_check(what)
        self.sim.state([None if c is None else (isinstance(c[0], functools.partial), str(len(c[1]))) for c in self.current], self.depth, self.filter)

    # ---------------------------------------------------------------- operations
    def go(self):
        for a, pre in enumerate(self.sc["pre"]):
            if pre:
                self.orch.register(self.algs[a], TA, flows=self.flows[a])
                self.current[a] = (self.algs[a], [m for m in self.mods if isinstance(m, TA)], self.flows[a])
        self.check("start")
        for st in self.sc["ops"]:
            _, exc = catch(lambda: self.step(st))
            if exc is not None and not (isinstance(exc, Abort) or is_injected(exc)):
                raise exc
            self.check(f"after {st['op']}")

    def steps(self, body):
        for st in body:
            self.step(st)

    def step(self, st):
        self.sim.tick()
        op = st["op"]
        self.sim.event(op, self.depth)
        if op == "register":
            v, ms = self.target(st["tgt"])
            fn = self.fn(st["a"], "reg") if st["partial"] else self.algs[st["a"]]
            flows = [object()]
            _, exc = catch(lambda: self.orch.register(fn, v, flows=flows))
            if ms == "bad":
                self.sim.check(exc is not None, "accepted", f"registering {st['tgt']} was accepted")
            else:
                if exc is not None:
                    raise Violation("unexpected-error", f"register: {exc!r}") from exc
                self.current[st["a"]] = (fn, ms, flows)
            self.sim.ops_done += 1
            self.check("after register")
        elif op == "lookup":
            self.lookup(st["a"], st["partial"], "lookup")
        elif op == "layerwise":
            self.layerwise(st)
        elif op == "convert":
            self.convert(st)
        elif op == "scope":
            self.scope(st)

    def layerwise(self, st):
        a = st["a"]
        eff = self.current[a]
        v, ms = None, None
        if st["tgt"] is not None:
            v, ms = self.target(st["tgt"])
        if ms is not None and eff is not None:
            eff = (self.algs[a], ms, eff[2])
        if ms == "bad" and eff is not None:
            eff = "bad"
        self.calls = []
        saved = list(self.current)
        failed = []

        def on_call(n):
            # the algorithm runs after its registration was looked up: the scope is over
            for s in st["inner"]:
                if s["op"] in ("lookup", "convert"):
                    calls, self.calls = self.calls, None
                    try:
                        self.step(s)
                    finally:
                        self.calls = calls
            if st["fault"] and st["fault"]["at"] == n:
                failed.append(n)
                raise_fault(self.sim, st["fault"]["kind"])

        self.on_call = on_call
        try:
            _, exc = catch(lambda: self.orch.layerwise_optimize(self.model, torch.ones(2, 4), self.algs[a], targets=v, graph=self.graph()))
        finally:
            calls, self.calls, self.on_call = self.calls, None, None
        self.current = saved
        if eff is None:
            kind = ValueError if ms is not None else self.reg.NoTargetsFound
            self.sim.check(isinstance(exc, kind), "layerwise", f"unregistered algorithm: {exc!r}")
            return self.check("after layerwise of an unregistered algorithm")
        if eff == "bad" or isinstance(eff[1], tuple):
            self.sim.check(exc is not None and not calls, "layerwise", f"bad targets {st['tgt']}: {exc!r}, calls {len(calls)}")
            return self.check("after layerwise with bad targets")
        if not eff[1]:
            self.sim.check(isinstance(exc, self.reg.NoTargetsFound), "layerwise", f"no target: {exc!r}")
            return self.check("after layerwise without targets")
        want = sorted({self.index(m) for m in eff[1]})
        tag = eff[0].keywords["tag"] if isinstance(eff[0], functools.partial) else None
        if failed:
            self.sim.check(exc is not None and is_injected(exc), "layerwise", f"failure of the algorithm did not arrive: {exc!r}")
            want = want[: failed[0] + 1]
        elif exc is not None:
            raise Violation("unexpected-error", f"layerwise: {type(exc).__name__}: {exc}") from exc
        got = [self.index(m) for _, _, m in calls]
        self.sim.check(got == want, "layerwise", f"algorithm called on {got}, expected {want}")
        self.sim.check(all(i == a and t == tag for i, t, _ in calls), "layerwise", f"called {[(i, t) for i, t, _ in calls]}, expected {(a, tag)}")
        self.sim.ops_done += 1
        self.sim.probe("layerwise_failed" if failed else "layerwise_ok")
        self.check("after layerwise")

    def graph(self):
        from fastforward._orchestration.graph_module import GraphModule

        g = GraphModule()
        r = g.add_input("x")
        for i, m in enumerate(self.mods):
            r = g.add_node(f"m{i}", m, [r])
        g.add_output(r)
        return g

    def convert(self, st):
        qm = ff.nn.quantized_module
        model = build(st["m"])
        mods = list(model)
        extra = {torch.nn.Sequential: ff.nn.QuantizedSequential} if hasattr(ff.nn, "QuantizedSequential") else {}
        if not extra:
            extra = {torch.nn.Sequential: SEQ()}
        want = [expected_class(b, self.filter) for b in st["m"]]
        n = [0]

        def cb():
            f = st["fault"]
            n[0] += 1
            if f and n[0] - 1 == f["at"]:
                raise_fault(self.sim, f["kind"])

        how = st["how"]
        INIT["cb"] = cb
        try:
            if how == "surrogate":
                sur, exc = catch(lambda: qm.surrogate_quantized_modules(model, extra_conversion=extra))
                if exc is not None:
                    raise Violation("unexpected-error", f"surrogates: {exc!r}") from exc
                missing = {BASES[b] for b, w in zip(st["m"], want) if w is None}
                self.sim.check(set(sur) == missing, "filter", f"surrogates for {sur}, expected for {missing} under filter {self.filter}")
                extra = {**extra, **sur}
                want = [w if w is not None else sur[BASES[b]] for b, w in zip(st["m"], want)]
            elif how == "extra":
                extra = {**extra, TA: CLASSES[0][2]}
                want = [CLASSES[0][2] if b == "A" else w for b, w in zip(st["m"], want)]
            elif how == "ignore":
                extra = {**extra, TA: CLASSES[0][2], TC: qm.SKIP_QUANTIZATION}
                want = [CLASSES[0][2] if b == "A" else TC if b == "C" else None for b in st["m"]]
            _, exc = catch(lambda: ff.quantize_model(model, extra_conversion=extra, **({"ignore_global_module_map": True} if how == "ignore" else {})))
        finally:
            INIT.pop("cb", None)
        if st["fault"] and exc is not None and is_injected(exc):
            pass
        elif any(w is None for w in want):
            self.sim.check(isinstance(exc, ff.exceptions.QuantizationError), "filter", f"converting {st['m']} under filter {self.filter}: expected a refusal, got {exc!r}")
            self.sim.check([type(m) for m in mods] == [BASES[b] for b in st["m"]], "filter", "a refused conversion changed modules")
        else:
            if exc is not None:
                raise Violation("unexpected-error", f"quantize_model: {type(exc).__name__}: {exc}") from exc
            self.sim.check([type(m) for m in mods] == want, "filter", f"converted to {[type(m) for m in mods]}, expected {want} under filter {self.filter}")
        self.sim.ops_done += 1
        self.sim.probe("converted" if exc is None else "convert_refused")
        self.check("after convert")

    # ---------------------------------------------------------------- scopes
    def open_cm(self, st):
        if st["k"] == "filter":
            mods = [m if st["as_str"] or m not in sys.modules else sys.modules[m] for m in st["mods"]]
            return ff.nn.quantized_module.filter_quantized_module_map(*mods)
        fn = self.fn(st["a"], "ovr") if st["partial"] else self.algs[st["a"]]
        v, ms = (None, None) if st["tgt"] is None else self.target(st["tgt"])
        self._opening = (fn, ms)
        return self.reg.override(fn, v)

    def entered(self, st, opening):
        """Update the model after the scope was entered."""
        if st["k"] == "filter":
            self.filter = tuple(st["mods"])
            return
        fn, ms = opening
        if ms is None:
            return
        cur = self.current[st["a"]]
        self.sim.check(cur is not None and ms != "bad", "accepted", f"overriding {'an unregistered algorithm' if cur is None else st['tgt']} was accepted")
        self.current[st["a"]] = (fn, ms, cur[2])

    def may_refuse(self, st):
        return st["k"] == "override" and st["tgt"] is not None and (self.current[st["a"]] is None or st["tgt"]["t"] == "bad")

    def body(self, st, before, opening):
        self.entered(st, opening)
        self.depth += 1
        try:
            self.check(f"in {st['k']} scope")
            self.steps(st["body"])
        finally:
            self.depth -= 1

    def leave(self, st, exit_):
        if exit_ == "error":
            raise Abort()
        if exit_:
            raise_fault(self.sim, exit_)

    def scope(self, st):
        before = (list(self.current), self.filter)
        refuse = self.may_refuse(st)
        entered = [False]

        def inside(opening):
            entered[0] = True
            self.body(st, before, opening)

        def run_with():
            cm = self.open_cm(st)
            opening = getattr(self, "_opening", None)
            with cm:
                inside(opening)
                self.leave(st, st["exit"])

        def run_deco():
            cm = self.open_cm(st)
            opening = getattr(self, "_opening", None)

            @cm
            def f():
                inside(opening)
                self.leave(st, st["exit"])

            f()

        def run_gen():
            cm_box = []

            def g():
                cm = self.open_cm(st)
                cm_box.append(getattr(self, "_opening", None))
                with cm:
                    yield

            it = g()
            next(it)
            _, exc = catch(lambda: inside(cm_box[0]))
            if st["exit"] or exc is not None:
                if exc is None:
                    _, exc = catch(lambda: self.leave(st, st["exit"]))
                if st["close"] == "close":
                    it.close()
                    raise exc
                it.throw(exc)
            elif st["close"] == "close":
                it.close()
            else:
                try:
                    next(it)
                except StopIteration:
                    pass

        times = 2 if st["how"] == "deco" and st.get("again") else 1
        for _ in range(times):
            entered[0] = False
            _, exc = catch({"with": run_with, "deco": run_deco, "gen": run_gen}[st["how"]])
            if st["k"] == "filter":
                self.filter = before[1]
            elif entered[0] and st["tgt"] is not None:
                self.current[st["a"]] = before[0][st["a"]]
            if not entered[0]:
                self.sim.check(refuse, "unexpected-error", lambda: f"scope could not be entered: {exc!r}")
                self.sim.probe("scope_refused")
            elif exc is not None and not (isinstance(exc, Abort) or is_injected(exc)):
                raise exc
            elif exc is not None:
                self.sim.fault("scope_left_by_error")
            else:
                self.sim.probe("scope_left")
            self.sim.ops_done += 1
            self.check(f"after leaving a {st['k']} scope ({st['exit']})")


_SEQ = []


def SEQ():
    if not _SEQ:
        _SEQ.append(type(ff.nn.QuantizedModule)("QSeq", (torch.nn.Sequential, ff.nn.QuantizedModule), {}, include_in_module_map=False))
    return _SEQ[0]
