"""C08: operator dispatch follows the history of registrations."""

from __future__ import annotations

import torch

from sim import models
from sim.core import Sim, Violation, catch, is_injected, maybe_op_fault, public_flags, raise_fault, tdigest

PROPERTY = "C08"
CONFIGS = {"plain": {"faults": False}, "faults": {"faults": True}}
PLAN = {"quick": 1500, "quick_s": 90, "thorough": 26000, "thorough_s": 780, "det": 8}
RULE = ("History of kernel registrations (three priorities, equal and shared predicates and kernels, composed predicates, functional/scope/decorator form), scope ends in any order "
        "and repeatedly or through failures, look-ups, operator calls and forward passes; each look-up is compared with a list model.")
REAL = ["fastforward.dispatcher", "fastforward.nn.functional", "fastforward.nn quantized modules"]
STUB = []
STATE_MEASURE = "hash of the active registrations per operator"

TOY = ["t0", "t1"]
REALOPS = ["linear", "relu", "add", "matmul", "softmax", "cat", "scaled_dot_product_attention"]
METHODS = {"reshape": (4, 2), "view": (4, 2), "transpose": (0, 1), "expand": (2, 4)}  # methods of quantized tensors
BASED = {"cat", "scaled_dot_product_attention", *METHODS}  # the library registers a kernel of its own


def gen_pred(rng, cfg, depth=2):
    r = rng.random()
    if depth and r < 0.35:
        k = rng.choice(["not", "and", "or"])
        return [k] + [gen_pred(rng, {"faults": False}, depth - 1) for _ in range(1 if k == "not" else 2)]
    if r < 0.5:
        return ["strict"]
    if r < 0.85:
        return ["sum", rng.choice([-1.0, 0.0, 1.0])]
    if cfg["faults"] and depth == 2 and r < 0.93:
        return ["raise", rng.choice(["error", "interrupt"])]
    return ["false"]


def generate(rng, cfg):
    preds = [gen_pred(rng, cfg) for _ in range(rng.randint(1, 4))]
    kernels = [{"mul": i + 2, "fail": rng.choice(["error", "interrupt", "oom"]) if cfg["faults"] and rng.random() < 0.2 else None}
               for i in range(rng.randint(1, 4))]
    ops = []
    names = rng.sample(REALOPS, 2) + [rng.choice(list(METHODS))] + TOY[: rng.randint(1, 2)]
    if rng.random() < 0.5 and "linear" not in names:
        names.append("linear")
    for _ in range(rng.randint(6, 22)):
        r = rng.random()
        if r < 0.34:
            ops.append({"op": "reg", "n": rng.choice(names), "p": rng.choice([None] + list(range(len(preds)))), "k": rng.randrange(len(kernels)),
                        "prio": rng.choice([0, 0, 0, 1, 2]), "dec": rng.random() < 0.15, "str_prio": rng.random() < 0.5})
        elif r < 0.55:
            ops.append({"op": "end", "i": rng.randint(0, 30), "how": rng.choice(["exit", "with", "with", "error", "interrupt"] if cfg["faults"] else ["exit", "with"])})
        elif r < 0.62:
            ops.append({"op": "again", "i": rng.randint(0, 30)})
        elif r < 0.80:
            ops.append({"op": "lookup", "n": rng.choice(names), "x": rng.randint(0, 9), "strict": rng.random() < 0.4})
        elif r < 0.92:
            ops.append({"op": "call", "n": rng.choice([n for n in names if n not in TOY]), "x": rng.randint(0, 9), "strict": rng.choice([None, False, True]),
                        "fault": {"kind": rng.choice(["oom", "interrupt"]), "at": rng.randint(0, 6)} if cfg["faults"] and rng.random() < 0.2 else None})
        else:
            ops.append({"op": "model", "x": rng.randint(0, 9)})
    layers = [{"t": rng.choice(["lin", "lin", "relu"]), "seed": rng.randint(0, 99), "bias": rng.random() < 0.5,
               "q": [models.gen_quantizer(rng, plain=0.2) if rng.random() < 0.5 else None for _ in range(3)]} for _ in range(rng.randint(1, 3))]
    return {"preds": preds, "kernels": kernels, "ops": ops, "layers": layers, "uid": rng.randint(0, 10**9), "strict": rng.random() < 0.5}


def arg_of(args, kwargs):
    """The tensor predicates look at."""
    x = args[0] if args else kwargs.get("input")
    if x is None:
        x = kwargs["tensors"][0] if "tensors" in kwargs else kwargs["query"]
    return float(models.deq(x).sum())


def execute(sim: Sim, sc):
    import fastforward as ff

    D = ff.dispatcher
    Fq, F = ff.nn.functional, torch.nn.functional
    ff.set_strict_quantization(sc["strict"])
    calls = []

    def mk_pred(s):
        k = s[0]
        if k == "not":
            return ~mk_pred(s[1])
        if k == "and":
            return mk_pred(s[1]) & mk_pred(s[2])
        if k == "or":
            return mk_pred(s[1]) | mk_pred(s[2])
        if k == "strict":
            return D.Predicate(lambda *a, **kw: bool(kw.get("strict_quantization")))
        if k == "sum":
            return D.Predicate(lambda *a, **kw: arg_of(a, kw) > s[1])
        if k == "false":
            return D.Predicate(lambda *a, **kw: False)

        def boom(*a, **kw):
            raise_fault(sim, s[1])

        return D.Predicate(boom)

    def ev(s, kw, a=()):
        k = s[0]
        if k == "not":
            return not ev(s[1], kw, a)
        if k == "and":
            return ev(s[1], kw, a) and ev(s[2], kw, a)
        if k == "or":
            return ev(s[1], kw, a) or ev(s[2], kw, a)
        if k == "strict":
            return bool(kw.get("strict_quantization"))
        if k == "sum":
            return arg_of(a, kw) > s[1]
        if k == "false":
            return False
        return "raise"

    def mk_kernel(i, spec):
        def kernel(*a, **kw):
            calls.append((i, kw))
            if spec["fail"]:
                raise_fault(sim, spec["fail"])
            x = a[0] if a else kw.get("input")
            if x is None:
                x = kw["tensors"][0] if "tensors" in kw else kw["query"]
            out = models.deq(x) * spec["mul"]
            q = kw.get("output_quantizer")
            return out if q is None else q(out)

        return kernel

    preds = [mk_pred(s) for s in sc["preds"]]
    kernels = [mk_kernel(i, s) for i, s in enumerate(sc["kernels"])]
    active = {}  # op -> list of registrations, newest last
    regs = []
    qual = lambda n: n if n not in TOY else f"sim_{sc['uid']}_{n}"  # noqa: E731

    def pick(n, kw, a=(), base=None):
        """"raise" | kernel index | None (no registration of ours: the library's kernel or the fallback)"""
        for prio in (0, 1, 2):
            for r in reversed(active.get(n, [])):
                if r["prio"] != prio:
                    continue
                v = True if r["p"] is None else ev(sc["preds"][r["p"]], kw, a)
                if v == "raise":
                    return "raise"
                if v:
                    return r["k"]
            if prio == 0 and base is not None:
                return None  # the library's own kernel was registered first, with the best priority
        return None

    x0 = torch.tensor([[0.5, -1.0, 0.25, 0.75], [0.1, 0.9, -0.6, 0.3]])
    oq = ff.nn.LinearQuantizer(3)
    oq.quantization_range = (-1.0, 1.0)

    def inp(seed):
        return x0 * [1, -1, 3, -3, 0][seed % 5] + (0.1 if seed > 4 else 0)

    w = torch.tensor([[0.2, 0.1, -0.3, 0.4]] * 4)
    q4 = lambda t: ff.quantization.affine.quantize_per_tensor(t, 0.1, None, 8)  # noqa: E731
    TABLE = {
        "linear": (lambda x, f: {"input": f(x), "weight": f(w), "bias": None}, lambda x: F.linear(x, w)),
        "relu": (lambda x, f: {"input": f(x)}, F.relu),
        "add": (lambda x, f: {"input": f(x), "other": f(x), "alpha": 1}, lambda x: x + x),
        "matmul": (lambda x, f: {"input": f(x), "other": f(w)}, lambda x: torch.matmul(x, w)),
        "softmax": (lambda x, f: {"input": f(x), "dim": 1, "dtype": None}, lambda x: torch.softmax(x, 1)),
        "cat": (lambda x, f: {"tensors": [f(x), f(x)], "dim": 0}, lambda x: torch.cat([x, x])),
        "scaled_dot_product_attention": (lambda x, f: {"query": x.reshape(1, 1, 2, 4), "key": x.reshape(1, 1, 2, 4), "value": x.reshape(1, 1, 2, 4)}, None),
    }

    def look_kw(n, seed, strict):
        x = inp(seed)
        if n in METHODS:
            return {"input": q4(x), "strict_quantization": strict}
        if n == "cat":
            return {"tensors": [x, x] if seed % 2 else [q4(x), q4(x)], "strict_quantization": strict}
        if n == "scaled_dot_product_attention":
            return {"query": x, "strict_quantization": strict}
        return {"input": x, "strict_quantization": strict}

    # kernels the library itself registered, for every argument used below
    base = {}
    for n in {o["n"] for o in sc["ops"] if "n" in o} & BASED:
        for seed in range(10):
            for strict in (False, True):
                kw = look_kw(n, seed, strict)
                base[n, seed, strict] = D.dispatch(n, kw["input"]) if n in METHODS else D.dispatch(n, **kw)
            if n in TABLE:
                base[n, seed, "call"] = D.dispatch(n, **TABLE[n][0](inp(seed), q4), **({"output_quantizer": oq} if n == "cat" else {}), strict_quantization=False)
            if n in METHODS:
                base[n, seed, "method"] = D.dispatch(n, q4(inp(seed)), *METHODS[n])

    layers = []
    for s in sc["layers"]:
        qs = [None if q is None else models.make_quantizer(q) for q in s["q"]]
        if s["t"] == "lin":
            m = ff.nn.QuantizedLinear(4, 4, bias=s["bias"])
            g = torch.Generator().manual_seed(s["seed"])
            with torch.no_grad():
                m.weight.copy_(torch.randn(4, 4, generator=g))
                if s["bias"]:
                    m.bias.copy_(torch.randn(4, generator=g))
            if qs[0] is not None:
                m.weight_quantizer = qs[0]
            if qs[1] is not None:
                m.input_quantizer = qs[1]
        else:
            m = ff.nn.QuantizedRelu()
        if qs[2] is not None:
            m.output_quantizer = qs[2]
        layers.append(m)

    def ref_layer(m, x):
        """What one layer returns when the registrations in force are used."""
        if isinstance(m, ff.nn.QuantizedLinear):
            kw = {"input": m.input_quantizer(x), "weight": m.weight_quantizer(m.weight),
                  "bias": m.bias_quantizer(m.bias) if m.bias is not None else None,
                  "output_quantizer": m.output_quantizer, "strict_quantization": ff.get_strict_quantization()}
            n = "linear"
            fb = lambda: F.linear(models.deq(kw["input"]), models.deq(kw["weight"]), None if kw["bias"] is None else models.deq(kw["bias"]))  # noqa: E731
        else:
            kw = {"input": x, "output_quantizer": m.output_quantizer, "strict_quantization": ff.get_strict_quantization()}
            n, fb = "relu", lambda: F.relu(models.deq(x))  # noqa: E731
        k = pick(n, kw)
        if k == "raise":
            raise_fault(sim, "error")
        if k is None:
            return m.output_quantizer(fb())
        return kernels[k](**kw)

    try:
        for st in sc["ops"]:
            sim.tick()
            op = st["op"]
            if op == "reg":
                n = st["n"]
                prio = D.DispatcherPriority(st["prio"])
                r = {"n": n, "p": st["p"], "k": st["k"], "prio": st["prio"], "hook": None}
                p = None if st["p"] is None else preds[st["p"]]
                if st["dec"] and n in TOY:
                    if p is None and st["prio"] == 0:
                        got = D.register(qual(n))(kernels[st["k"]])
                    else:
                        got = D.register(qual(n), p, priority=prio)(kernels[st["k"]])
                    sim.check(got is kernels[st["k"]], "decorator", "the decorator did not return the kernel")
                else:
                    r["hook"] = D.register(qual(n), p, kernels[st["k"]], prio)
                active.setdefault(n, []).append(r)
                regs.append(r)
                sim.event("reg", n, st["p"], st["k"], st["prio"])
            elif op in ("end", "again"):
                cand = [r for r in regs if r["hook"] is not None]
                if op == "again":
                    cand = [r for r in cand if not any(r is a for a in active[r["n"]])]
                if not cand:
                    continue
                r = cand[st["i"] % len(cand)]
                how = st.get("how", "exit")
                if how == "exit":
                    r["hook"].__exit__(None, None, None)
                else:
                    def scope():
                        with r["hook"]:
                            if how in ("error", "interrupt"):
                                raise_fault(sim, how)

                    _, exc = catch(scope)
                    sim.check((exc is not None) == (how != "with") and (exc is None or is_injected(exc)), "swallowed", f"scope ended with {exc!r}")
                was = any(r is a for a in active[r["n"]])
                active[r["n"]] = [a for a in active[r["n"]] if a is not r]
                sim.probe("ended" if was else "ended_again")
                sim.event("end", regs.index(r), how)
            elif op == "lookup":
                kw = look_kw(st["n"], st["x"], st["strict"])
                pos = ()
                if st["n"] in METHODS:
                    pos, kw = (kw["input"],), {}
                b = base.get((st["n"], st["x"], st["strict"]))
                want = pick(st["n"], kw, pos, b)
                got, exc = catch(lambda: D.dispatch(qual(st["n"]), *pos, **kw))
                if want == "raise":
                    sim.check(exc is not None and is_injected(exc), "lookup", f"predicate failed but the look-up returned {got}")
                else:
                    if exc is not None:
                        raise Violation("unexpected-error", f"{type(exc).__name__}: {exc}") from exc
                    exp = kernels[want] if want is not None else b
                    sim.check(got is exp, "lookup", lambda: f"{st['n']}: got {'kernel %d' % kernels.index(got) if got in kernels else got}, expected "
                              f"{'kernel %s' % want if want is not None else exp}; active (oldest first): {[(a['p'], a['k'], a['prio']) for a in active.get(st['n'], [])]}")
                sim.event("lookup", st["n"], want)
                sim.probe("lookup_none" if want is None else "lookup_hit")
            elif op == "call":
                n = st["n"]
                if n in METHODS:
                    t = q4(inp(st["x"]))
                    want = pick(n, {}, (t, *METHODS[n]), base[n, st["x"], "method"])
                    calls.clear()
                    got, exc = catch(lambda: getattr(t, n)(*METHODS[n]))
                    chosen = [c[0] for c in calls]
                    if want == "raise" or (isinstance(want, int) and sc["kernels"][want]["fail"]):
                        sim.check(exc is not None and is_injected(exc), "call", "failure was swallowed")
                    else:
                        sim.check(exc is None, "unexpected-error", repr(exc))
                    sim.check(chosen == ([want] if isinstance(want, int) else []), "call", f"method {n} used kernel {chosen}, expected {want}")
                    if want is None:
                        ref = getattr(t.dequantize(), n)(*METHODS[n])
                        sim.check(tdigest(models.deq(got)) == tdigest(ref), "call", lambda: f"method {n} returned {tdigest(got)}, expected {tdigest(ref)}")
                    sim.event("method", n, want)
                    sim.probe("method_kernel" if isinstance(want, int) else "method_base")
                    continue
                mk, fb = TABLE[n]
                strict = ff.get_strict_quantization() if st["strict"] is None else st["strict"]
                kw = mk(inp(st["x"]), q4)
                kw["output_quantizer"] = oq
                want = pick(n, {**kw, "strict_quantization": strict}, (), base.get((n, st["x"], "call")))
                calls.clear()

                def go():
                    with torch.no_grad(), maybe_op_fault(sim, st.get("fault")):
                        return getattr(Fq, n)(**kw, strict_quantization=st["strict"])

                got, exc = catch(go)
                # the library's attention kernel calls other operators, which may well use our kernels
                chosen = [c[0] for c in calls if n != "scaled_dot_product_attention" or "query" in c[1]]
                if want == "raise" or (exc is not None and is_injected(exc)):
                    sim.check(exc is not None and is_injected(exc), "call", "failure was swallowed")
                    sim.check(not chosen or chosen == [want], "call", f"{n} used kernel {chosen}, expected {want}")
                elif want is None:
                    sim.check(not chosen, "call", f"{n} used kernel {chosen}, none applies")
                    if fb is not None:
                        sim.check(exc is None, "unexpected-error", repr(exc))
                        ref = oq(fb(models.deq(q4(inp(st["x"])))) if n not in ("linear", "matmul") else fb_q(n, inp(st["x"]), w, q4))
                        sim.check(tdigest(got) == tdigest(ref), "call", f"{n} returned {tdigest(got)}, expected {tdigest(ref)}")
                else:
                    if exc is not None:
                        raise Violation("unexpected-error", f"{type(exc).__name__}: {exc}") from exc
                    sim.check(chosen == [want], "call", f"{n} used kernel {chosen}, expected {want}")
                    rk = calls[0][1]
                    sim.check(rk["strict_quantization"] == strict, "arguments", f"strict_quantization={rk['strict_quantization']}")
                    for a, v in kw.items():
                        same = rk.get(a) is v or (isinstance(v, torch.Tensor) and isinstance(rk.get(a), torch.Tensor) and tdigest(rk[a]) == tdigest(v)) or (
                            not isinstance(v, torch.Tensor) and tdigest(rk.get(a)) == tdigest(v))
                        sim.check(same, "arguments", f"kernel received {a}={tdigest(rk.get(a))}, the caller passed {tdigest(v)}")
                sim.event("call", n, want)
                sim.probe("call_kernel" if isinstance(want, int) else "call_fallback")
            else:
                def ref():
                    x = inp(st["x"])
                    for m in layers:
                        x = ref_layer(m, x)
                    return x

                def real():
                    x = inp(st["x"])
                    for m in layers:
                        x = m(x)
                    return x

                with torch.no_grad(), ff.strict_quantization(False):
                    calls.clear()
                    want, e1 = catch(ref)
                    c1 = [c[0] for c in calls]
                    calls.clear()
                    got, e2 = catch(real)
                    c2 = [c[0] for c in calls]
                if (e2 is not None and not is_injected(e2)) or (e1 is None) != (e2 is None):
                    raise Violation("model", f"forward pass: {e2!r}, expected {e1!r}")
                sim.check(c1 == c2, "model", f"forward pass used kernels {c2}, expected {c1}")
                if e1 is None:
                    sim.check(tdigest(got) == tdigest(want), "model", f"forward pass returned {tdigest(got)}, expected {tdigest(want)}")
                sim.event("model", c1)
                sim.probe("model_with_kernel" if c1 else "model_fallback")
            sim.ops_done += 1
            sim.state({n: [(a["p"], a["k"], a["prio"]) for a in v] for n, v in active.items()})
    finally:
        for r in regs:
            if r["hook"] is not None:
                r["hook"].__exit__(None, None, None)
    # nothing registered in scopes is left once every scope has ended
    for n in {r["n"] for r in regs if r["n"] not in TOY}:
        kw = look_kw(n, 0, False)
        got = D.dispatch(n, kw["input"]) if n in METHODS else D.dispatch(n, **kw)
        sim.check(got is base.get((n, 0, False)), "leftover", f"{n} still dispatches to {got} after every scope ended")


def fb_q(n, x, w, q4):
    a, b = models.deq(q4(x)), models.deq(q4(w))
    return torch.nn.functional.linear(a, b) if n == "linear" else torch.matmul(a, b)
