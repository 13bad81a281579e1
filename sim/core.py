"""Deterministic simulation core.

One integer (VERIF_SEED) decides everything.  For run number i the scenario is
generated from sha256(seed, property, config, i); a scenario is a JSON value that
contains *every* choice of the run (operations, faults, schedules), so executing a
scenario is a pure function of the scenario and the code under test.  That is what
makes shrinking and replay exact.

A world (one module in sim/worlds) supplies

    PROPERTY            property id
    CONFIGS             {config name: {"faults": bool, ...}}
    generate(rng, cfg)  -> scenario (JSON)
    execute(sim, sc)    runs the scenario; raises Violation
    shrink(sc)          optional: yields smaller scenarios (the generic one drops ops
                        and faults of sc["ops"])
"""

from __future__ import annotations

import contextlib
import copy
import gc
import hashlib
import json
import os
import random
import signal
import sys
import threading
import time
import traceback
import warnings

from typing import Any, Callable, Iterator

REPO = os.environ.get("VERIF_REPO", "/repo")
SRC = os.path.join(REPO, "src")
SUT_DIR = os.path.join(SRC, "fastforward") + os.sep


# --------------------------------------------------------------------------- errors


class Violation(Exception):
    """The property does not hold in this run."""

    def __init__(self, kind: str, detail: str = "") -> None:
        super().__init__(f"{kind}: {detail}")
        self.kind = kind
        self.detail = detail


class SimFault(Exception):
    """Base of the injected errors that are ordinary exceptions."""


class SimError(SimFault):
    """Failure of user code (module, loader, callback, predicate, stage, delegate)."""


class SimIOError(OSError):
    """Injected I/O error."""


class SimInterrupt(KeyboardInterrupt):
    """Injected keyboard interrupt."""


class SimCrash(BaseException):
    """The simulated process dies here: nothing after this point happens."""


class StepLimit(BaseException):
    """A run used more steps than any correct execution can."""


def make_oom() -> BaseException:
    import torch

    return torch.OutOfMemoryError("simulated allocation failure")


INJECTED = (SimFault, SimIOError, SimInterrupt, SimCrash)


def is_injected(exc: BaseException | None) -> bool:
    """True if `exc` is, or was caused by, an injected fault."""
    import torch

    seen = set()
    while exc is not None and id(exc) not in seen:
        seen.add(id(exc))
        if isinstance(exc, INJECTED):
            return True
        if isinstance(exc, torch.OutOfMemoryError) and "simulated" in str(exc):
            return True
        if isinstance(exc, BaseExceptionGroup):
            return any(is_injected(e) for e in exc.exceptions)
        exc = exc.__cause__ or exc.__context__
    return False


# --------------------------------------------------------------------------- the run


class Sim:
    """State of one simulated run: event log, step counter, fault counters, probes."""

    def __init__(self, max_steps: int = 200_000) -> None:
        self.step = 0
        self.max_steps = max_steps
        self.events: list[str] = []
        self.fault_counts: dict[str, int] = {}
        self.probes: dict[str, int] = {}
        self.states: set[str] = set()
        self.ops_done = 0

    def tick(self) -> int:
        self.step += 1
        if self.step > self.max_steps:
            raise StepLimit(f"more than {self.max_steps} steps")
        return self.step

    def event(self, *parts: Any) -> None:
        self.events.append(" ".join(str(p) for p in parts))

    def fault(self, kind: str) -> None:
        self.fault_counts[kind] = self.fault_counts.get(kind, 0) + 1
        self.event("FAULT", kind)

    def probe(self, name: str, n: int = 1) -> None:
        self.probes[name] = self.probes.get(name, 0) + n

    def state(self, *parts: Any) -> None:
        self.states.add(hashlib.sha256(repr(parts).encode()).hexdigest()[:12])

    def digest(self) -> str:
        return hashlib.sha256("\n".join(self.events).encode()).hexdigest()

    # -- checking
    def check(self, cond: bool, kind: str, detail: Any = "") -> None:
        if not cond:
            if callable(detail):
                detail = detail()
            raise Violation(kind, str(detail))


def tdigest(t: Any) -> str:
    """Short, exact digest of a tensor (or nested value) for logs and comparisons."""
    import torch

    if isinstance(t, torch.Tensor):
        if torch.nn.parameter.is_lazy(t):
            return "lazy"
        from fastforward.quantized_tensor import QuantizedTensor

        tag = ""
        if isinstance(t, QuantizedTensor):
            tag = "Q"
            with torch.no_grad():
                t = t.dequantize()
        with torch.no_grad():
            t = t.detach().cpu().contiguous()
            if t.dtype == torch.bfloat16:
                b = t.view(torch.int16).numpy().tobytes()
            else:
                b = t.numpy().tobytes()
        return f"{tag}{tuple(t.shape)}{str(t.dtype)[6:]}:{hashlib.sha256(b).hexdigest()[:10]}"
    if isinstance(t, (tuple, list)):
        return "[" + ",".join(tdigest(x) for x in t) + "]"
    if isinstance(t, dict):
        return "{" + ",".join(f"{k}={tdigest(v)}" for k, v in t.items()) + "}"
    return repr(t)


# --------------------------------------------------------------------------- op faults


_tls = threading.local()


def _dispatch_mode_class():
    from torch.utils._python_dispatch import TorchDispatchMode

    class OpFaults(TorchDispatchMode):
        """Fails the n-th tensor operation executed while active (allocator failure or interrupt)."""

        def __init__(self, sim: Sim, at: int | None, kind: str = "oom") -> None:
            super().__init__()
            self.sim = sim
            self.at = at
            self.kind = kind
            self.count = 0
            self.fired = False

        def __torch_dispatch__(self, func, types, args=(), kwargs=None):
            if self.at is not None and self.count == self.at and not self.fired:
                self.fired = True
                self.count += 1
                self.sim.fault(self.kind)
                if self.kind == "interrupt":
                    raise SimInterrupt()
                if self.kind == "crash":
                    raise SimCrash()
                raise make_oom()
            self.count += 1
            return func(*args, **(kwargs or {}))

    return OpFaults


_OPF = None


def op_faults(sim: Sim, at: int | None, kind: str = "oom"):
    global _OPF
    if _OPF is None:
        _OPF = _dispatch_mode_class()
    return _OPF(sim, at, kind)


@contextlib.contextmanager
def maybe_op_fault(sim: Sim, fault: dict | None) -> Iterator[Any]:
    """fault: {"at": n, "kind": "oom"|"interrupt"} or None."""
    if not fault or fault.get("where", "op") != "op":
        yield None
        return
    mode = op_faults(sim, fault["at"], fault["kind"])
    with mode:
        yield mode


def raise_fault(sim: Sim, kind: str) -> None:
    sim.fault(kind)
    if kind == "interrupt":
        raise SimInterrupt()
    if kind == "oom":
        raise make_oom()
    if kind == "io":
        raise SimIOError(5, "simulated I/O error")
    if kind == "crash":
        raise SimCrash()
    raise SimError(f"simulated {kind}")


def catch(fn: Callable[[], Any]) -> tuple[Any, BaseException | None]:
    """Run fn; return (result, None) or (None, exception).  Crash and step limit pass through."""
    try:
        return fn(), None
    except (SimCrash, StepLimit, Violation, _Alarm):
        raise
    except BaseException as e:  # noqa: BLE001
        if isinstance(e, (SystemExit, GeneratorExit)):
            raise
        return None, e


def expect_ok(fn: Callable[[], Any], what: str) -> Any:
    """Run fn, which the property says must succeed."""
    res, exc = catch(fn)
    if exc is not None:
        raise Violation("unexpected-error", f"{what}: {type(exc).__name__}: {exc}") from exc
    return res


def expect_ok_or_injected(fn: Callable[[], Any], what: str) -> tuple[Any, BaseException | None]:
    res, exc = catch(fn)
    if exc is not None and not is_injected(exc):
        raise Violation("unexpected-error", f"{what}: {type(exc).__name__}: {exc}") from exc
    return res, exc


# --------------------------------------------------------------------------- environment


def setup_process() -> None:
    os.environ.setdefault("OMP_NUM_THREADS", "1")
    os.environ.setdefault("MKL_NUM_THREADS", "1")
    os.environ["CUDA_VISIBLE_DEVICES"] = ""
    os.environ["HF_HUB_OFFLINE"] = "1"
    sys.dont_write_bytecode = True
    if SRC not in sys.path:
        sys.path.insert(0, SRC)
    warnings.filterwarnings("ignore")
    import logging

    logging.disable(logging.CRITICAL)
    import torch

    torch.set_num_threads(1)
    # memory of torch.empty is filled with NaN instead of whatever was there: no hidden nondeterminism
    torch.use_deterministic_algorithms(True, warn_only=True)
    with contextlib.suppress(Exception):
        torch.set_num_interop_threads(1)
    import fastforward  # noqa: F401

    f = os.path.realpath(fastforward.__file__)
    if not f.startswith(os.path.realpath(SUT_DIR)):
        raise RuntimeError(f"fastforward imported from {f}, expected {SUT_DIR}")
    _warm_up()


def _warm_up() -> None:
    """Pay lazy imports of torch once, before worker processes fork."""
    import torch

    import fastforward as ff

    sim = Sim()
    q = ff.nn.LinearQuantizer(4)
    q.quantization_range = (-1.0, 1.0)
    lin = ff.nn.QuantizedLinear(4, 4)
    lin.weight_quantizer = q
    for at in (None, 0):
        try:
            with op_faults(sim, at), ff.strict_quantization(False):
                lin(torch.ones(2, 4))
        except torch.OutOfMemoryError:
            pass


_DEFAULT_FLAGS: dict[str, bool] | None = None


def public_flags() -> dict[str, bool]:
    from fastforward import flags

    return {
        "strict": flags.get_strict_quantization(),
        "export": flags.get_export_mode(),
        "compiled": flags.get_compiled_quant_funcs(),
        "sdpa": flags.get_sdpa_torch_fallback_allowed(),
    }


def reset_globals() -> None:
    """Put the process-wide state of the library back to its initial value between runs."""
    from fastforward import flags

    flags.set_strict_quantization(True)
    flags.set_export_mode(False)
    flags.set_compiled_quant_funcs(False)
    flags.set_sdpa_torch_fallback_allowed(False)


class RunResult:
    def __init__(self) -> None:
        self.violation: dict | None = None
        self.error: str | None = None
        self.digest = ""
        self.faults: dict[str, int] = {}
        self.probes: dict[str, int] = {}
        self.states: set[str] = set()
        self.steps = 0
        self.ops = 0
        self.n_events = 0
        self.events: list[str] = []


class _Alarm(BaseException):
    pass


def _on_alarm(signum, frame):
    raise _Alarm()


def sut_frames(exc: BaseException) -> bool:
    """True if the traceback (or that of a cause) passes through the code under test."""
    seen = set()
    while exc is not None and id(exc) not in seen:
        seen.add(id(exc))
        for fr in traceback.extract_tb(exc.__traceback__):
            if os.path.realpath(fr.filename).startswith(os.path.realpath(SUT_DIR)):
                return True
        exc = exc.__cause__ or exc.__context__
    return False


def run_scenario(world, scenario: dict, wall_limit: int = 90) -> RunResult:
    """Execute one scenario. Never raises."""
    import torch

    res = RunResult()
    sim = Sim(max_steps=getattr(world, "MAX_STEPS", 200_000))
    reset_globals()
    torch.manual_seed(0)
    random.seed(0)
    use_alarm = threading.current_thread() is threading.main_thread()
    if use_alarm:
        old = signal.signal(signal.SIGALRM, _on_alarm)
        signal.alarm(wall_limit)
    cpu0 = time.process_time()
    try:
        world.execute(sim, copy.deepcopy(scenario))
    except Violation as v:
        res.violation = {"kind": v.kind, "detail": v.detail[:2000]}
    except StepLimit as e:
        res.violation = {"kind": "no-progress", "detail": str(e)}
    except _Alarm:
        if time.process_time() - cpu0 > 0.5 * wall_limit:  # it ran all the time: an endless computation, not a busy machine
            res.violation = {"kind": "no-progress", "detail": f"one run was still computing after {wall_limit}s (runs take milliseconds)"}
        else:
            res.error = f"wall limit of {wall_limit}s for one run"
    except BaseException as e:  # noqa: BLE001
        if sut_frames(e):
            res.violation = {
                "kind": "escaped-exception",
                "detail": f"{type(e).__name__}: {e}"[:1500],
            }
            res.error_trace = "".join(traceback.format_exception(e))[-3000:]
        else:
            res.error = "".join(traceback.format_exception(e))[-4000:]
    finally:
        if use_alarm:
            signal.alarm(0)
            signal.signal(signal.SIGALRM, old)
        reset_globals()
    if res.violation:
        sim.event("VIOLATION", res.violation["kind"])
    res.digest = sim.digest()
    res.faults = sim.fault_counts
    res.probes = sim.probes
    res.states = sim.states
    res.steps = sim.step
    res.ops = sim.ops_done
    res.n_events = len(sim.events)
    res.events = sim.events
    return res


def scenario_rng(seed: int, prop: str, config: str, index: int) -> random.Random:
    h = hashlib.sha256(f"{seed}|{prop}|{config}|{index}".encode()).digest()
    return random.Random(int.from_bytes(h[:16], "big"))


def generate(world, seed: int, config: str, index: int) -> dict:
    rng = scenario_rng(seed, world.PROPERTY, config, index)
    sc = world.generate(rng, world.CONFIGS[config])
    sc["_origin"] = {"seed": seed, "config": config, "index": index}
    return json.loads(json.dumps(sc))


# --------------------------------------------------------------------------- shrinking


def generic_shrink(sc: dict) -> Iterator[dict]:
    """Drop chunks of ops, then faults, from every list reachable under 'ops'-like keys."""

    def lists(node: Any, path: tuple) -> Iterator[tuple]:
        if isinstance(node, dict):
            for k, v in node.items():
                if k.startswith("_"):
                    continue
                if isinstance(v, list) and k in ("ops", "body", "batches", "calls", "saves", "sched", "items"):
                    yield path + (k,)
                if isinstance(v, (dict, list)):
                    yield from lists(v, path + (k,))
        elif isinstance(node, list):
            for i, v in enumerate(node):
                if isinstance(v, (dict, list)):
                    yield from lists(v, path + (i,))

    def get(node, path):
        for p in path:
            node = node[p]
        return node

    for path in sorted(lists(sc, ()), key=len):
        lst = get(sc, path)
        n = len(lst)
        size = max(1, n // 2)
        while n and size >= 1:
            for start in range(0, n, size):
                new = copy.deepcopy(sc)
                tgt = get(new, path)
                del tgt[start : start + size]
                yield new
            if size == 1:
                break
            size //= 2

    def faults(node: Any, path: tuple) -> Iterator[tuple]:
        if isinstance(node, dict):
            for k, v in node.items():
                if k.startswith("_"):
                    continue
                if k == "fault" and v is not None:
                    yield path + (k,)
                elif isinstance(v, (dict, list)):
                    yield from faults(v, path + (k,))
        elif isinstance(node, list):
            for i, v in enumerate(node):
                yield from faults(v, path + (i,))

    for path in list(faults(sc, ())):
        new = copy.deepcopy(sc)
        get(new, path[:-1])["fault"] = None
        yield new
    # smaller fault positions
    for path in list(faults(sc, ())):
        f = get(sc, path)
        if isinstance(f, dict) and isinstance(f.get("at"), int) and f["at"] > 0:
            for at in {0, f["at"] // 2, f["at"] - 1}:
                new = copy.deepcopy(sc)
                get(new, path)["at"] = at
                yield new


def minimise(world, sc: dict, kind: str, budget_s: float = 60.0, max_runs: int = 400) -> tuple[dict, int]:
    import time

    t0 = time.monotonic()
    runs = 0
    best = sc
    shrink = getattr(world, "shrink", None)

    def candidates(s):
        if shrink is not None:
            yield from shrink(s)
        yield from generic_shrink(s)

    improved = True
    while improved:
        improved = False
        for cand in candidates(best):
            if runs >= max_runs or time.monotonic() - t0 > budget_s:
                return best, runs
            if len(json.dumps(cand)) >= len(json.dumps(best)) + 1 and cand == best:
                continue
            runs += 1
            try:
                r = run_scenario(world, cand, wall_limit=30)
            except Exception:  # noqa: BLE001
                continue
            if r.violation and r.violation["kind"] == kind:
                best = cand
                improved = True
                break
    return best, runs
