"""Simulated accelerators: tensors carry a device label, transfers are counted, copied and can fail."""

from __future__ import annotations

from typing import Any

import torch

from sim.core import raise_fault

CPU, GPU0, GPU1 = torch.device("cpu"), torch.device("cuda", 0), torch.device("cuda", 1)


def tensors(v: Any) -> list[torch.Tensor]:
    if isinstance(v, torch.Tensor):
        return [v]
    if isinstance(v, dict):
        return [t for x in v.values() for t in tensors(x)]
    if isinstance(v, (tuple, list)):
        return [t for x in v for t in tensors(x)]
    return []


class Devices:
    """While entered, `Tensor.to/.cpu/.cuda/.device` act on device labels (all memory really is host memory)."""

    def __init__(self, sim) -> None:
        self.sim = sim
        self.label: dict[int, torch.device] = {}
        self.keep: list[torch.Tensor] = []
        self.moves = 0
        self.fault: dict | None = None
        self.failed: tuple | None = None  # (tensor, destination) of the transfer that failed

    def of(self, t: torch.Tensor) -> torch.device:
        return self.label.get(self._key(t), CPU)

    @staticmethod
    def _key(t):
        return t.untyped_storage()._cdata

    def put(self, v: Any, device: torch.device) -> Any:
        """Label freshly made tensors."""
        for t in tensors(v):
            self.label[self._key(t)] = device
            self.keep.append(t.detach())
        return v

    def move(self, t: torch.Tensor, device, dtype=None, copy=False) -> torch.Tensor:
        device = torch.device(device) if device is not None else self.of(t)
        if device.type == "cuda" and device.index is None:
            device = GPU0
        if device == self.of(t):
            out = self._to(t, dtype) if dtype is not None else t
            if copy and out is t:
                out = t.clone()
            return out if out is t else self.put(out, device)
        n, self.moves = self.moves, self.moves + 1
        if self.fault is not None and n == self.fault["at"]:
            self.failed = (t, device)
            raise_fault(self.sim, self.fault["kind"])
        self.sim.probe("transfers")
        out = t.clone() if dtype is None else self._to(t, dtype).clone()
        return self.put(out, device)

    def __enter__(self):
        T, me = torch.Tensor, self
        self._to, self._saved = T.to, {k: T.__dict__.get(k) for k in ("to", "cpu", "cuda", "device", "is_cuda")}
        self._real_device = T.device

        def to(t, *args, **kwargs):
            device = kwargs.pop("device", None)
            dtype = kwargs.pop("dtype", None)
            kwargs.pop("non_blocking", None), kwargs.pop("memory_format", None)
            copy = kwargs.pop("copy", False)
            for a in args:
                if isinstance(a, (torch.device, str)):
                    device = a
                elif isinstance(a, torch.dtype):
                    dtype = a
                elif isinstance(a, torch.Tensor):
                    device, dtype = me.of(a), a.dtype
            return me.move(t, device, dtype, copy)

        T.to = to
        T.cpu = lambda t, *a, **k: me.move(t, CPU)
        T.cuda = lambda t, device=None, *a, **k: me.move(t, GPU0 if device is None else device)
        T.device = property(me.of)
        T.is_cuda = property(lambda t: me.of(t).type == "cuda")
        return self

    def __exit__(self, *exc):
        for k, v in self._saved.items():
            if v is None:
                delattr(torch.Tensor, k)
            else:
                setattr(torch.Tensor, k, v)
