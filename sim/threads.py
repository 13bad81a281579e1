"""Real threads, one running at a time, interleaved by the scenario.

Every managed thread parks at its yield points; the simulator releases exactly one of
them at a time, chosen by the scenario's schedule, so an interleaving is data.
"""

from __future__ import annotations

import threading

from typing import Any, Callable

from sim.core import Sim, StepLimit


class _Kill(BaseException):
    pass


class Threads:
    def __init__(self, sim: Sim, sched: list[int]) -> None:
        self.sim = sim
        self.sched = list(sched)
        self.pos = 0
        self.cv = threading.Condition()
        self.current: int | None = None
        self.parked: set[int] = set()
        self.done: set[int] = set()
        self.results: dict[int, tuple[Any, BaseException | None]] = {}
        self.local = threading.local()
        self.kill = False
        self.switches = 0
        self.trace: list[int] = []

    def yield_point(self) -> None:
        """Called by managed threads: give up control until chosen again."""
        tid = getattr(self.local, "tid", None)
        if tid is None:
            return
        with self.cv:
            self.parked.add(tid)
            self.current = None
            self.cv.notify_all()
            while self.current != tid and not self.kill:
                self.cv.wait()
            if self.kill:
                raise _Kill()

    def _body(self, tid: int, fn: Callable[[], Any]) -> None:
        self.local.tid = tid
        res: tuple[Any, BaseException | None]
        try:
            self.yield_point()
            res = (fn(), None)
        except BaseException as e:  # noqa: BLE001
            res = (None, e)
        with self.cv:
            self.results[tid] = res
            self.done.add(tid)
            self.parked.discard(tid)
            self.current = None
            self.cv.notify_all()

    def run(self, fns: list[Callable[[], Any]], max_switches: int = 20000) -> dict[int, tuple[Any, BaseException | None]]:
        ths = [threading.Thread(target=self._body, args=(i, f), daemon=True) for i, f in enumerate(fns)]
        for t in ths:
            t.start()
        last = None
        try:
            while True:
                with self.cv:
                    while self.current is not None or len(self.parked | self.done) < len(fns):
                        if not self.cv.wait(timeout=60):
                            raise RuntimeError("managed thread did not reach a yield point")
                    ready = sorted(self.parked)
                    if not ready:
                        break
                    if self.pos < len(self.sched):
                        c = self.sched[self.pos]
                        self.pos += 1
                    else:
                        c = self.switches  # round robin once the scripted schedule is used up
                    tid = ready[c % len(ready)]
                    self.switches += 1
                    if tid != last:
                        self.trace.append(tid)
                        last = tid
                    if self.switches > max_switches:
                        raise StepLimit("threads do not finish")
                    self.sim.tick()
                    self.parked.discard(tid)
                    self.current = tid
                    self.cv.notify_all()
        finally:
            with self.cv:
                self.kill = True
                self.cv.notify_all()
            for t in ths:
                t.join(timeout=10)
        return self.results
