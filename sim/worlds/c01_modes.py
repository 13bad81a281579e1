"""C01: global mode switches are scoped and restored however a scope ends."""

from __future__ import annotations

import contextlib

import torch

from sim.core import (Sim, SimError, SimInterrupt, Violation, is_injected, maybe_op_fault, public_flags, raise_fault, tdigest)

PROPERTY = "C01"
CONFIGS = {"plain": {"faults": False}, "faults": {"faults": True}}
PLAN = {"quick": 1500, "quick_s": 100, "thorough": 26000, "thorough_s": 780, "det": 10}
RULE = "Random program of nested scopes, assignments, decorated/recursive calls, try blocks and library operations; every mode is compared with a stack model after every statement."
REAL = ["fastforward.flags", "fastforward.nn.functional (51 operators, fallback kernels)", "QuantizedTensor implicit dequantization", "sdpa", "LinearQuantizer in export mode"]
STUB = ["torch.compile (compiled kernels are executed eagerly)"]
STATE_MEASURE = "hash of (all modes, nesting depth)"

FLAGS = ["strict", "export", "compiled", "sdpa"]


def setup():
    # the compiled variants of the kernels run uncompiled: the compiler is not under test and costs seconds per kernel
    torch.compiler.set_stance("force_eager")


def _tables():
    import fastforward as ff

    Fq, F = ff.nn.functional, torch.nn.functional
    x = torch.tensor([[0.5, -1.0, 0.25, 0.75], [0.1, 0.9, -0.6, 0.3]])
    w = torch.tensor([[0.2, 0.1, -0.3, 0.4]] * 4)
    x3 = x.reshape(1, 2, 4)
    x4 = x.reshape(1, 1, 2, 4)
    x5 = x.reshape(1, 1, 1, 2, 4)
    w3 = torch.ones(2, 2, 1)
    w4, w5 = torch.ones(1, 1, 1, 2), torch.ones(1, 1, 1, 1, 2)
    pos = x.abs() + 0.1
    sq = w
    T = {
        "linear": ((x, w), F.linear), "conv1d": ((x3, w3), F.conv1d), "conv2d": ((x4, w4), F.conv2d), "conv3d": ((x5, w5), F.conv3d),
        "softmax": ((x, -1), F.softmax), "relu": ((x,), F.relu), "sigmoid": ((x,), torch.sigmoid),
        "conv_transpose1d": ((x3, w3), F.conv_transpose1d), "conv_transpose2d": ((x4, w4), F.conv_transpose2d),
        "conv_transpose3d": ((x5, w5), F.conv_transpose3d),
        "avg_pool1d": ((x3, 2, 2), F.avg_pool1d), "avg_pool2d": ((x4, (1, 2), (1, 2)), F.avg_pool2d),
        "avg_pool3d": ((x5, (1, 1, 2), (1, 1, 2)), F.avg_pool3d),
        "layer_norm": ((x, (4,)), F.layer_norm), "matmul": ((x, sq), torch.matmul), "mm": ((x, sq), torch.mm),
        "bmm": ((x3, sq.reshape(1, 4, 4)), torch.bmm), "add": ((x, x), torch.add), "sub": ((x, w[:2]), torch.sub),
        "mul": ((x, x), torch.mul), "div": ((x, pos), torch.div), "pow": ((pos, 2.0), torch.pow), "sum": ((x, 0), torch.sum),
        "negative": ((x,), torch.negative), "positive": ((x,), torch.positive), "floor_divide": ((x, pos), torch.floor_divide),
        "remainder": ((x, pos), torch.remainder), "silu": ((x,), F.silu), "gelu": ((x,), F.gelu),
        "dropout": ((x, 0.5, False), F.dropout), "permute": ((x, (1, 0)), torch.permute), "cat": (([x, x], 0), torch.cat),
        "index_add": ((x, 0, torch.tensor([0, 1]), x), torch.index_add), "cumsum": ((x, 0), torch.cumsum),
        "pad": ((x, [1, 1], "constant", 0.0), F.pad), "max_pool2d": ((x4, (1, 2)), F.max_pool2d),
        "interpolate": ((x4, None, 2.0), F.interpolate), "unfold": ((x4, (1, 2)), F.unfold),
        "ones_like": ((x,), torch.ones_like), "zeros_like": ((x,), torch.zeros_like), "full_like": ((x, 0.5), torch.full_like),
        "exp": ((x,), torch.exp), "sin": ((x,), torch.sin), "cos": ((x,), torch.cos), "rms_norm": ((x, (4,)), F.rms_norm),
    }
    return Fq, T, x


OPS = sorted(["linear", "conv1d", "conv2d", "conv3d", "softmax", "relu", "sigmoid", "conv_transpose1d", "conv_transpose2d",
              "conv_transpose3d", "avg_pool1d", "avg_pool2d", "avg_pool3d", "layer_norm", "matmul", "mm", "bmm", "add", "sub", "mul",
              "div", "pow", "sum", "negative", "positive", "floor_divide", "remainder", "silu", "gelu", "dropout", "permute", "cat",
              "index_add", "cumsum", "pad", "max_pool2d", "interpolate", "unfold", "ones_like", "zeros_like", "full_like", "exp",
              "sin", "cos", "rms_norm"])


def _body(rng, cfg, depth, ndeco):
    out = []
    for _ in range(rng.randint(1, 4)):
        r = rng.random()
        fault = None
        if cfg["faults"] and rng.random() < 0.35:
            fault = {"kind": rng.choice(["error", "interrupt", "oom"])}
        if depth > 0 and r < 0.32:
            out.append({"op": "scope", "flag": rng.choice(FLAGS + ["strict", "upcast"]), "v": rng.random() < 0.5,
                        "style": rng.choice(["with", "setter"]), "fault": fault, "body": _body(rng, cfg, depth - 1, ndeco)})
        elif depth > 0 and r < 0.42 and ndeco:
            out.append({"op": "deco", "k": rng.randrange(ndeco), "body": _body(rng, cfg, depth - 1, ndeco), "fault": fault})
        elif depth > 0 and r < 0.52:
            out.append({"op": "try", "body": _body(rng, cfg, depth - 1, ndeco)})
        elif depth > 0 and r < 0.57:
            out.append({"op": "stack", "scopes": [[rng.choice(FLAGS), rng.random() < 0.5] for _ in range(rng.randint(2, 4))],
                        "body": _body(rng, cfg, depth - 1, ndeco), "fault": fault})
        elif r < 0.68:
            out.append({"op": "set", "flag": rng.choice(FLAGS), "v": rng.random() < 0.5})
        else:
            if fault and fault["kind"] == "error":
                fault = None
            if fault:
                fault["at"] = rng.randint(0, 6)
            out.append({"op": "use", "what": rng.choice(["fn", "fn", "fn", "fnq", "implicit", "export", "sdpa", "kw", "module"]),
                        "name": rng.choice(OPS), "fault": fault})
    return out


def generate(rng, cfg):
    decos = [[[rng.choice(FLAGS), rng.random() < 0.5] for _ in range(rng.randint(1, 2))] for _ in range(rng.randint(0, 3))]
    return {"decos": decos, "body": _body(rng, cfg, 4, len(decos))}


def execute(sim: Sim, sc):
    import fastforward as ff
    from fastforward import flags
    from fastforward.exceptions import QuantizationError

    CTX = {"strict": flags.strict_quantization, "export": flags.export_mode, "compiled": flags.compiled_quant_funcs,
           "sdpa": flags.sdpa_torch_fallback_allowed}
    SET = {"strict": flags.set_strict_quantization, "export": flags.set_export_mode, "compiled": flags.set_compiled_quant_funcs,
           "sdpa": flags.set_sdpa_torch_fallback_allowed}
    up = ff.nn.functional.sdpa_upcast
    up0 = up.dtype
    cur = dict(public_flags())
    cur["upcast"] = up.dtype
    Fq, T, x0 = _tables()
    q = ff.nn.LinearQuantizer(4)
    q.quantization_range = (-1.0, 1.0)
    depth = [0]

    def observe():
        d = dict(public_flags())
        d["upcast"] = up.dtype
        return d

    def check(what):
        got = observe()
        sim.check(got == cur, "mode", lambda: f"after {what}: modes {got}, expected {cur}")
        sim.state(sorted(map(str, cur.items())), depth[0])

    def use(st):
        what, name, fault = st["what"], st["name"], st.get("fault")
        args, ref = T[name]
        strict = cur["strict"]
        sim.event("use", what, name, strict)
        want_err = None
        exp = None
        if what == "fn":  # unquantized input, output quantizer given
            fn = lambda: getattr(Fq, name)(*args, output_quantizer=q)  # noqa: E731
            want_err = strict
            exp = lambda: q(ref(*args))  # noqa: E731
        elif what == "fnq":  # unquantized, no output quantizer
            fn = lambda: getattr(Fq, name)(*args)  # noqa: E731
            want_err = strict
            exp = lambda: ref(*args)  # noqa: E731
        elif what == "kw":  # explicit argument beats the mode
            fn = lambda: getattr(Fq, name)(*args, strict_quantization=not strict)  # noqa: E731
            want_err = not strict
            exp = lambda: ref(*args)  # noqa: E731
        elif what == "module":
            m = ff.nn.QuantizedRelu()
            fn = lambda: m(x0)  # noqa: E731
            want_err = strict
            exp = lambda: torch.relu(x0)  # noqa: E731
        elif what == "implicit":  # an operation without a quantized kernel on a quantized tensor
            qt = None

            def fn():
                with_export_off = q(x0)
                if not isinstance(with_export_off, ff.QuantizedTensor):
                    return torch.tanh(with_export_off)
                return torch.tanh(with_export_off)

            want_err = strict and not cur["export"]
            exp = lambda: torch.tanh(q(x0).dequantize())  # noqa: E731
        elif what == "export":
            fn = lambda: q(x0)  # noqa: E731
            want_err = False
            exp = None
        else:
            a = x0.reshape(1, 1, 2, 4)
            fn = lambda: Fq.scaled_dot_product_attention(a, a, a)  # noqa: E731
            want_err = strict
            exp = lambda: torch.nn.functional.scaled_dot_product_attention(a, a, a)  # noqa: E731
        before = observe()
        try:
            with maybe_op_fault(sim, fault):
                res = fn()
        except QuantizationError as e:
            sim.check(bool(want_err), "strict-observed", f"{what} {name} refused with {e} although strict quantization is {strict}")
            sim.probe("refused")
            check(f"refused {name}")
            return
        except BaseException as e:
            if is_injected(e):
                check(f"failed {name}")
                raise
            raise Violation("unexpected-error", f"{what} {name} with modes {cur}: {type(e).__name__}: {e}") from e
        sim.check(not want_err, "strict-observed", f"{what} {name} was computed although strict quantization is on")
        if what == "export":
            isq = isinstance(res, ff.QuantizedTensor)
            sim.check(isq != cur["export"], "export-observed", f"quantizer returned {type(res).__name__} with export mode {cur['export']}")
        elif exp is not None:
            with torch.no_grad():
                want = exp()
                r = res.dequantize() if isinstance(res, ff.QuantizedTensor) else res
                w = want.dequantize() if isinstance(want, ff.QuantizedTensor) else want
            if what != "sdpa" or cur["upcast"] is not None:
                sim.check(torch.allclose(r, w, atol=1e-5), "value", lambda: f"{what} {name}: {r} != {w}")
        sim.probe("computed")
        check(f"use {name}")

    def finish(st):
        f = st.get("fault")
        if f:
            raise_fault(sim, f["kind"])

    def run(body):
        for st in body:
            sim.tick()
            op = st["op"]
            if op == "set":
                SET[st["flag"]](st["v"])
                cur[st["flag"]] = st["v"]
                check(f"set {st}")
            elif op == "scope":
                flag, v = st["flag"], st["v"]
                saved = cur[flag]
                if flag == "upcast":
                    cm = up(torch.float64 if v else False)
                    new = torch.float64 if v else None
                else:
                    cm = CTX[flag](v) if st["style"] == "with" else SET[flag](v)
                    new = v
                depth[0] += 1
                try:
                    with cm:
                        cur[flag] = new
                        check(f"open {flag}={v}")
                        run(st["body"])
                        finish(st)
                finally:
                    cur[flag] = saved
                    depth[0] -= 1
                    check(f"close {flag}={v}")
            elif op == "stack":
                saved = dict(cur)
                depth[0] += 1
                try:
                    with contextlib.ExitStack() as es:
                        for f, v in st["scopes"]:
                            es.enter_context(CTX[f](v))
                            cur[f] = v
                        check("open stack")
                        run(st["body"])
                        finish(st)
                finally:
                    for f, _ in st["scopes"]:
                        cur[f] = saved[f]
                    depth[0] -= 1
                    check("close stack")
            elif op == "deco":
                spec = sc["decos"][st["k"]]
                saved = dict(cur)
                depth[0] += 1
                try:
                    got = decorated[st["k"]](st) if st["k"] % 2 else decorated[st["k"]](st=st)
                    sim.check(got is st, "decorated", f"a decorated function returned {got!r}")
                    sim.probe("decorated")
                finally:
                    for f, _ in spec:
                        cur[f] = saved[f]
                    depth[0] -= 1
                    check("decorated call")
            elif op == "try":
                try:
                    run(st["body"])
                except BaseException as e:  # noqa: BLE001
                    if not is_injected(e):
                        raise
                    sim.probe("caught_inside")
                    check("caught")
            else:
                use(st)
            sim.ops_done += 1
            sim.event(op, sorted((k, str(v)) for k, v in cur.items()))

    def mk(spec):
        def f(st):
            for fl, v in reversed(spec):  # outermost decorator first
                cur[fl] = v
            check("enter decorated")
            run(st["body"])
            finish(st)
            return st

        for fl, v in spec:  # first = innermost
            f = flags.context(CTX[fl], v)(f)
        return f

    decorated = [mk(s) for s in sc["decos"]]
    try:
        try:
            run(sc["body"])
        except BaseException as e:  # noqa: BLE001
            if not is_injected(e):
                raise
            sim.probe("escaped_everything")
        check("the whole program")
    finally:
        up(up0).__enter__()
