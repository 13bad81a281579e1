"""C19: quantizer initialization follows the rules and can be resumed."""

from __future__ import annotations

import torch

from sim import models
from sim.core import Sim, Violation, catch, is_injected, maybe_op_fault, public_flags, raise_fault

PROPERTY = "C19"
CONFIGS = {"plain": {"faults": False}, "faults": {"faults": True}}
PLAN = {"quick": 700, "quick_s": 90, "thorough": 12000, "thorough_s": 780, "det": 6}
RULE = ("History of initializations (configurations with random rule lists and precedence scores, and collections) of random module trees with shared modules and shared "
        "quantizers, under every overwrite policy, with factories that fail or are interrupted at any call; the quantizer at every location is compared with an "
        "independent evaluation of the path queries and rules, and failed initializations are resumed.")
REAL = ["fastforward.quantization.quant_init", "fastforward.mpath", "fastforward.nn (module tree, quantizer metadata)"]
STUB = ["quantizer factories (simulator-owned, may fail)"]
STATE_MEASURE = "hash of (which rule produced the quantizer at every location, policy)"


TAGS = ["parameter", "parameter/weight", "parameter/bias", "activation", "activation/input", "activation/output"]


def gen_rule(rng):
    return {"path": rng.randint(0, 40), "frag": [rng.choice(["keep", "keep", "keep", "*", "**", "alt", "re", "inv"]) for _ in range(8)],
            "last": rng.choice(["keep", "keep", "*", "tag", "tag", "tags", "re", "badtag"]), "star": rng.choice([None, None, 0, 1, 2]),
            "f": rng.choice(["class", "class", "func", "func", "plain", "same"]), "b": rng.randint(2, 8), "score": rng.randint(0, 2)}


def generate(rng, cfg):
    spec = models.gen_model(rng, n=(1, 4), pq=rng.choice([0.0, 0.2, 0.5]), uninit=rng.choice([0, 0.3]), plain=rng.choice([0, 0.2]))
    if rng.random() < 0.6:
        for it in spec["items"]:
            if it["t"] == "lin":
                it["q"] = {}
    ops = []
    for _ in range(rng.randint(1, 4)):
        f = None
        if cfg["faults"] and rng.random() < 0.8:
            f = {"kind": rng.choice(["error", "interrupt", "oom"]), "call": rng.randint(0, rng.choice([2, 8])), "late": rng.random() < 0.3}
        ops.append({"op": "config" if rng.random() < 0.75 else "collection", "rules": [gen_rule(rng) for _ in range(rng.randint(1, 4))],
                    "policy": rng.choice(["error", "skip", "skip", "overwrite", "overwrite"]), "scored": rng.random() < 0.25, "fault": f,
                    "safe": rng.random() < 0.8, "resume": rng.random() < 0.8, "keep": rng.random() < 0.5})
    return {"model": spec, "sharestub": [[rng.randint(0, 9), rng.randint(0, 9), rng.randint(0, 3)] for _ in range(rng.choice([0, 0, 1, 2]))], "ops": ops,
            "plainparent": rng.random() < 0.3}


class Holder(torch.nn.Module):
    """A module that is not a quantized module but holds quantizers."""

    def __init__(self, ff, inner) -> None:
        super().__init__()
        self.inner = inner
        self.extra_quantizer = ff.nn.QuantizerStub(output_quantizer=True)


def build(sc):
    import fastforward as ff

    m = models.build_model(sc["model"])
    owners = [x for x in m.modules() if isinstance(x, ff.nn.QuantizedModule)]
    for a, b, s in sc["sharestub"]:
        x, y = owners[a % len(owners)], owners[b % len(owners)]
        slots = [n for n in ("output_quantizer", "weight_quantizer", "input_quantizer", "bias_quantizer") if n in x._modules and n in y._modules
                 and x._modules[n] is not None and y._modules[n] is not None]
        if slots and x is not y:
            n = slots[s % len(slots)]
            setattr(y, n, getattr(x, n))
    return Holder(ff, m) if sc["plainparent"] else m


def paths_of(ff, root):
    """All (names, modules) paths from the root to a quantizer."""
    out = []

    def walk(m, names, mods):
        for n, c in m._modules.items():
            if c is None:
                continue
            if isinstance(c, ff.nn.Quantizer):
                out.append((names + [n], mods + [c]))
            walk(c, names + [n], mods + [c])

    walk(root, [], [])
    return out


def query_of(rule, paths):
    """A path query as a list of (kind, argument), derived from a path of the tree."""
    names, mods = paths[rule["path"] % len(paths)]
    q = []
    for i, n in enumerate(names[:-1]):
        k = rule["frag"][i % len(rule["frag"])]
        if rule["star"] is not None and i == rule["star"]:
            q.append(("**", None))
        if k == "**":
            if not q or q[-1][0] != "**":
                q.append(("**", None))
        elif k == "alt":
            q.append(("alt", (n, "nothing_here" if i % 2 else "mods")))
        elif k == "inv":
            q.append(("inv", "mods" if n != "mods" else "0"))
        elif k == "re":
            q.append(("re", n[:1] + ".*"))
        else:
            q.append(("*", None) if k == "*" else ("name", n))
    tags = [t for t in TAGS if mods[-1].quant_metadata is not None and t in mods[-1].quant_metadata]
    last = rule["last"]
    if last in ("tag", "tags") and not tags:
        last = "*"
    if last == "tag":
        q.append(("tag", (tags[rule["path"] % len(tags)],)))
    elif last == "tags":
        q.append(("tag", tuple(tags)))
    elif last == "badtag":
        q.append(("tag", ("no/such/tag",)))
    elif last == "re":
        q.append(("re", ".*_quantizer"))
    else:
        q.append(("*", None) if last == "*" else ("name", names[-1]))
    return q


def query_string(q):
    s = []
    for k, a in q:
        s.append({"name": lambda: a, "*": lambda: "*", "**": lambda: "**", "alt": lambda: "{" + ",".join(a) + "}", "re": lambda: "[re:" + a + "]", "inv": lambda: "~" + a,
                  "tag": lambda: "[quantizer:" + ",".join(a) + "]"}[k]())
    return "/".join(s)


def frag_match(f, name, mod):
    import re

    k, a = f
    if k == "name":
        return name == a
    if k == "*":
        return True
    if k == "alt":
        return name in a
    if k == "re":
        return re.fullmatch(a, name) is not None
    if k == "tag":
        md = getattr(mod, "quant_metadata", None)
        return md is not None and all(x in md for x in a)
    if k == "inv":
        return name != a
    raise ValueError(k)


def glob(q, names, mods):
    if not q:
        return not names
    if q[0][0] == "**":
        return glob(q[1:], names, mods) or (bool(names) and glob(q, names[1:], mods[1:]))
    return bool(names) and frag_match(q[0], names[0], mods[0]) and glob(q[1:], names[1:], mods[1:])


def execute(sim: Sim, sc):
    import fastforward as ff

    from fastforward.quantization.quant_init import QuantizationConfig

    model = build(sc)
    flags0 = public_flags()
    state = {"calls": [], "fault": None, "n": 0, "rule": {}}

    class CountedQuantizer(ff.nn.LinearQuantizer):
        def __init__(self, num_bits, rule) -> None:
            trip(early=True)
            super().__init__(num_bits)
            state["calls"].append((rule, None, None))
            state["rule"][id(self)] = rule
            keep.append(self)
            trip(early=False)

    keep = []

    def trip(early):
        f = state["fault"]
        if f is None:
            return
        if early:
            state["n"] += 1
        if state["n"] > f["call"] and f["late"] is not early:
            raise_fault(sim, f["kind"])

    def factory(rule, i):
        common = []

        def make(name, current):
            trip(early=True)
            if rule["f"] == "same" and common:
                q = common[0]
            else:
                q = models.PlainQuantizer(0.25) if rule["f"] == "plain" else ff.nn.LinearQuantizer(rule["b"])
                common.append(q)
            state["calls"].append((i, name, current))
            state["rule"][id(q)] = i
            keep.append(q)
            trip(early=False)
            return q

        return make

    class Scored(QuantizationConfig):
        scores: dict = {}

        def precedence_score(self, rule, result):
            return self.scores[id(rule.query)]

    for st in sc["ops"]:
        sim.tick()
        paths = paths_of(ff, model)
        rules = st["rules"] if st["op"] == "config" else st["rules"][:1]
        queries = [query_of(r, paths) for r in rules]
        strings = [query_string(q) for q in queries]
        facs = [(CountedQuantizer, {"num_bits": r["b"], "rule": i}) if r["f"] == "class" else (factory(r, i), {}) for i, r in enumerate(rules)]

        kept: dict = {}

        def start(policy):
            if st["op"] == "config":
                cfg = Scored() if st["scored"] else QuantizationConfig()
                for i, (s, (f, kw)) in enumerate(zip(strings, facs)):
                    sel = ff.mpath.query(s)
                    if st["scored"]:
                        Scored.scores[id(sel)] = rules[i]["score"]
                        keep.append(sel)
                    cfg.add_rule(sel if st["scored"] or i % 2 else s, f, **kw)
                cfg.initialize(model, overwrite_policy=policy, safe=st["safe"])
            else:
                f, kw = facs[0]
                coll = kept.get("coll") if st.get("keep") else None
                kept["coll"] = coll = coll if coll is not None else ff.find_quantizers(model, strings[0])
                coll.initialize(f, overwrite_policy=policy, safe=st["safe"], **kw)

        def locations():
            return [(m, n) for m in model.modules() for n, c in m._modules.items() if isinstance(c, ff.nn.Quantizer)]

        def expected():
            """quantizer object -> index of the rule that decides it, and the names under which that rule matches it."""
            best = {}
            for i, q in enumerate(queries):
                hit = {}
                for names, mods in paths_of(ff, model):
                    if glob(q, names, mods):
                        hit.setdefault(id(mods[-1]), []).append(".".join(names))
                for qid, nm in hit.items():
                    score = rules[i]["score"] if st["scored"] and st["op"] == "config" else 1
                    if qid not in best or score >= best[qid][2]:
                        best[qid] = (i, nm, score)
            return best

        def attempt(policy, fault, tag):
            best = expected()
            locs = locations()
            old = [m._modules[n] for m, n in locs]
            meta = [q.quant_metadata for q in old]
            snap = models.snapshot(model)
            state.update(calls=[], fault=fault, n=0)
            _, exc = catch(lambda: start(policy))
            state["fault"] = None
            calls = state["calls"]
            active = [q for q in {id(q): q for q in old}.values() if id(q) in best and not q.is_stub()]
            if exc is not None and not is_injected(exc):
                ok = isinstance(exc, ff.exceptions.QuantizationError) and policy == "error" and bool(active)
                sim.check(ok, "unexpected-error", f"{tag} {strings} policy {policy}: {type(exc).__name__}: {exc}")
                sim.probe("refused")
            elif exc is None and policy == "error" and active:
                raise Violation("overwrote", f"{tag} {strings}: {len(active)} initialized quantizers matched, policy 'error' did not raise")
            sim.check(public_flags() == flags0, "modes", f"{public_flags()} != {flags0}")
            to_do = {id(q) for q in old if id(q) in best and (q.is_stub() or policy == "overwrite")}
            news = {}  # id(old quantizer) -> new one, over all its locations
            for (m, n), q, md in zip(locs, old, meta):
                now = m._modules.get(n)
                if now is q:
                    sim.check(exc is not None or id(q) not in to_do, "location-missed",
                              lambda: f"{tag} {strings} policy {policy}: {n} of {type(m).__name__} still holds its {type(q).__name__}, rule {best[id(q)][0]} matches it as {best[id(q)][1]}")
                    news.setdefault(id(q), set()).add(None)
                    continue
                sim.check(isinstance(now, ff.nn.Quantizer), "no-quantizer", f"{tag}: {n} holds {type(now).__name__}")
                sim.check(id(q) in to_do, "touched", lambda: f"{tag} {strings} policy {policy}: {n} was replaced although no rule (or the policy) covers it")
                r = state["rule"].get(id(now))
                sim.check(r == best[id(q)][0], "wrong-rule", lambda: f"{tag} {strings}: {n} holds a quantizer of rule {r}, expected rule {best[id(q)][0]}")
                if isinstance(m, ff.nn.QuantizedModule) and not any(x["f"] == "same" for x in rules) and sum(x is q for x in old) == 1:
                    a = now.quant_metadata
                    sim.check(a is not None and (md is None or a.is_extension(md)), "metadata", lambda: f"{tag}: {n}: metadata {a} instead of {md}")
                news.setdefault(id(q), set()).add(id(now))
            for qid, s in news.items():
                sim.check(len(s) == 1, "sharing", f"{tag} {strings}: a quantizer shared by several locations was replaced by {len(s)} different ones")
            # built once per quantizer, called with the location it is for
            per = {}
            for r, name, cur in calls:
                if cur is None:
                    continue
                per[id(cur)] = per.get(id(cur), 0) + 1
                sim.check(id(cur) in to_do and best[id(cur)][0] == r, "factory-call", lambda: f"{tag} {strings}: the factory of rule {r} was called for {name}")
                sim.check(name in best[id(cur)][1], "factory-name", lambda: f"{tag} {strings}: the factory was called with the name {name}, rule {r} matches it as {best[id(cur)][1]}")
            sim.check(all(v == 1 for v in per.values()), "built-twice", f"{tag} {strings}: factory calls per quantizer {sorted(per.values())}")
            if exc is None:
                sim.check(len(calls) == len(to_do), "built-twice", f"{tag} {strings}: {len(calls)} quantizers were built for {len(to_do)}")
            else:
                sim.check(len(calls) <= len(to_do), "built-twice", f"{tag} {strings}: {len(calls)} quantizers were built for {len(to_do)}")
            if "coll" in kept:
                stale = [r.full_name for r in kept["coll"] if getattr(r.parent, r.parent_attribute) is not r.module]
                sim.check(not stale, "stale-collection", lambda: f"{tag} {strings}: the collection no longer holds the quantizers of {stale}")
            drop = {f"{k}" for k in models.snapshot(model)} | set(snap)
            inq = {id(x) for q in old + [m._modules[n] for m, n in locs] for x in q.modules()}
            names = {nm for nm, m in model.named_modules(remove_duplicate=False) if id(m) in inq}
            after = models.snapshot(model)

            def other(s):
                return {k: v for k, v in s.items() if not any(k.split(" ", 1)[1] == nm or k.split(" ", 1)[1].startswith(nm + ".") for nm in names)}

            d = models.diff(other(snap), other(after))
            sim.check(not d, "model-state", lambda: f"{tag}: {d[:3]}")
            sim.check({(id(m), n) for m, n in locs} == {(id(m), n) for m, n in locations()}, "model-state", f"{tag}: quantizers appeared or disappeared")
            return exc

        fault = st["fault"]
        best0 = expected()
        exc = attempt(st["policy"], fault, "initialize")
        if exc is not None and is_injected(exc):
            sim.probe("interrupted")
            if st["resume"]:
                # stubs that are left get what an undisturbed run gives them
                exc = attempt("skip", None, "resume")
                sim.check(exc is None, "resume", f"resuming failed with {exc!r}")
                if st["policy"] != "overwrite":
                    for m, n in locations():
                        q = m._modules[n]
                        sim.check(not (q.is_stub() and id(q) in best0), "resume", f"{n} is still a stub after resuming")
                sim.probe("resumed")
        elif exc is None:
            sim.probe("initialized")
        sim.ops_done += 1
        cfgd = [state["rule"].get(id(m._modules[n]), "-" if m._modules[n].is_stub() else "+") for m, n in locations()]
        sim.event(st["op"], strings, st["policy"], cfgd)
        sim.state(cfgd, st["policy"])
        state["rule"].clear()
