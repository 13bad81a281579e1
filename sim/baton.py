"""A cooperative scheduler for real threads: one runs at a time, the simulator decides who and for how long.

Every line (or, on request, every bytecode instruction) of the code under test that a thread executes is a
scheduling point.  The schedule is a list of (run length in points, next thread); when it is used up, the current
thread runs to its end.  Besides, the schedule may name lines: when a thread is about to execute the line for the
n-th time, another thread runs until it has passed that line as well (or ends).  The same schedule over the same
calls gives the same interleaving.
"""

from __future__ import annotations

import os
import sys
import threading
import time

from typing import Any, Callable

from sim.core import SRC, Sim


class Baton:
    def __init__(self, sim: Sim, schedule: list, opcodes: bool = False, lines: list | None = None) -> None:
        self.sim = sim
        self.schedule = list(schedule)
        self.opcodes = opcodes
        self.points = 0
        self.switches: list[tuple] = []
        self.current: int | None = None
        self.alive: list[int] = []
        self.cv = threading.Condition()
        self.left = 0
        self.forced = 0
        self.src = os.path.realpath(SRC) + os.sep
        self.errors: list[BaseException] = []
        self._known: dict[Any, bool] = {}
        self.seen: dict[str, int] = {}  # how often each line was about to run
        self.lines: dict[str, dict[int, int]] = {}  # line -> occurrence -> which other thread
        for line, nth, pick in lines or ():
            self.lines.setdefault(line, {})[nth] = pick
        self.until: list | None = None  # [line, points left once it was reached, thread to return to]

    # -- called by the running thread
    def point(self, me: int, where: str) -> None:
        if self.current != me:  # the baton was taken from us while we were blocked
            self._wait(me)
        self.points += 1
        n = self.seen[where] = self.seen.get(where, 0) + 1
        if self.until is not None:
            line, left, back = self.until
            if left is None and where == line:
                self.until[1] = 4
            elif left is not None:
                self.until[1] = left - 1
                if left <= 1:
                    self.until = None
                    if back in self.alive and back != me:
                        self._switch(me, back, where)
            return
        if where in self.lines and n in self.lines[where]:
            others = [t for t in self.alive if t != me]
            if others:
                self.until = [where, None, me]
                self._switch(me, others[self.lines[where][n] % len(others)], where)
                return
        if self.left is None:
            return
        self.left -= 1
        if self.left > 0:
            return
        nxt = self._next_step()
        others = [t for t in self.alive if t != me]
        if nxt is None or not others:
            if nxt is None:
                self.left = None
            return
        self._switch(me, others[nxt % len(others)], where)

    def _next_step(self) -> int | None:
        if not self.schedule:
            return None
        gap, pick = self.schedule.pop(0)
        self.left = gap
        return pick

    def _switch(self, me: int, to: int, where: str) -> None:
        self.switches.append((me, to, where))
        self._give(to)
        self._wait(me)

    def _give(self, to: int | None) -> None:
        with self.cv:
            self.current = to
            self.cv.notify_all()

    def _wait(self, me: int) -> None:
        with self.cv:
            if not self.cv.wait_for(lambda: self.current == me, timeout=120):
                raise RuntimeError("scheduler: thread was never resumed")

    # -- tracing
    def _mine(self, code: Any) -> bool:
        k = self._known.get(code)
        if k is None:
            k = self._known[code] = os.path.realpath(code.co_filename).startswith(self.src) and code.co_name != "<module>"
        return k

    def tracer(self, me: int) -> Callable:
        def local(frame, event, arg):
            if event == "opcode" or (event == "line" and not self.opcodes):
                self.point(me, f"{os.path.basename(frame.f_code.co_filename)}:{frame.f_lineno}")
            return local

        def glob(frame, event, arg):
            if not self._mine(frame.f_code):
                return None
            if self.opcodes:
                frame.f_trace_opcodes = True
            return local

        return glob

    # -- running
    def run(self, bodies: list[Callable[[], None]]) -> None:
        n = len(bodies)
        self.alive = list(range(n))
        first = self._next_step()
        if first is None:
            self.left = None

        def main(i: int) -> None:
            self._wait(i)
            sys.settrace(self.tracer(i))
            try:
                bodies[i]()
            except BaseException as e:  # noqa: BLE001
                self.errors.append(e)
            finally:
                sys.settrace(None)
                if self.current != i:
                    self._wait(i)
                self.alive.remove(i)
                self.until = None
                self._give(self.alive[0] if self.alive else None)

        ts = [threading.Thread(target=main, args=(i,), daemon=True) for i in range(n)]
        for t in ts:
            t.start()
        self._give((first or 0) % n)
        # the code under test may hold a lock across scheduling points: a thread that waits for such a lock
        # makes no progress, so the baton moves on (threads then overlap until it reaches its next point)
        last, since = -1, time.monotonic()
        while any(t.is_alive() for t in ts):
            with self.cv:
                self.cv.wait_for(lambda: not self.alive, timeout=0.2)
            if not self.alive:
                for t in ts:
                    t.join(10)
                break
            if self.points != last:
                last, since = self.points, time.monotonic()
            elif time.monotonic() - since > 3 and len(self.alive) > 1 and self.current is not None:
                me = self.current
                others = [t for t in self.alive if t != me]
                self.forced += 1
                if self.forced > 20:
                    raise RuntimeError("scheduler: deadlock")
                self._give(others[self.forced % len(others)])
                since = time.monotonic()
        if self.errors:
            raise self.errors[0]
