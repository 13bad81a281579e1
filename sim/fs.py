"""Seam for file operations below a scratch directory.

While armed, every file operation on a path below the root is one step: creating or truncating
a file, handing its content to the kernel, renaming, removing, making a directory, opening
for reading, reading a tensor.  A fault {"at": n, "kind": k, "frac": f} hits the n-th step:

    crash      the process dies; a write in flight leaves a prefix of its content
    enospc     a write stores a prefix and fails with ENOSPC
    eio        the operation fails with EIO (a write may leave a prefix)
    interrupt  KeyboardInterrupt before the operation

After a crash nothing done by the dead process reaches the disk any more.  Content that was
written but not yet flushed to the kernel dies with the process.
"""

from __future__ import annotations

import builtins
import errno
import io
import os
import pathlib
import shutil
import tempfile

from typing import Any

from sim.core import Sim, SimCrash, SimInterrupt, SimIOError


class FS:
    def __init__(self, sim: Sim) -> None:
        self.sim = sim
        base = "/dev/shm" if os.access("/dev/shm", os.W_OK) else None
        self.root = os.path.realpath(tempfile.mkdtemp(prefix="ffsim_", dir=base))
        self.side = os.path.join(self.root, ".side")
        os.mkdir(self.side)
        self.armed = False
        self.dead = False
        self.fault: dict | None = None
        self.n = 0
        self.trace: list[str] = []
        self._saved: list[tuple[Any, str, Any]] = []

    # -- paths
    def mine(self, p: Any) -> bool:
        try:
            s = os.fspath(p)
        except TypeError:
            return False
        if isinstance(s, bytes):
            s = s.decode()
        s = os.path.abspath(s)
        return s.startswith(self.root + os.sep) and not s.startswith(self.side)

    def path(self, *parts: str) -> pathlib.Path:
        return pathlib.Path(self.root, *parts)

    # -- faults
    def step(self, kind: str) -> tuple[str, float] | None:
        """Counts a step.  Returns (fault kind, fraction) for a write that must be torn, raises otherwise."""
        if not self.armed:
            return None
        if self.dead:
            raise SimCrash()
        k = self.n
        self.n += 1
        self.sim.tick()
        self.trace.append(kind)
        f = self.fault
        if f is None or f["at"] != k:
            return None
        self.sim.fault(f"{f['kind']}@{kind}")
        if f["kind"] == "interrupt":
            raise SimInterrupt()
        if kind == "write" and f["kind"] in ("crash", "enospc", "eio"):
            return f["kind"], f.get("frac", 0.0)
        if f["kind"] == "crash":
            self.dead = True
            raise SimCrash()
        if f["kind"] == "enospc" and kind in ("read", "unlink", "replace"):
            raise SimIOError(errno.EIO, "simulated I/O error")
        raise SimIOError(errno.ENOSPC if f["kind"] == "enospc" else errno.EIO, "simulated I/O error")

    def write_all(self, fd: int, data: bytes, real=os.write) -> None:
        torn = self.step("write")
        if torn is not None:
            data = data[: int(len(data) * torn[1])]
        view = memoryview(data)
        while len(view):
            view = view[real(fd, view):]
        if torn is not None:
            if torn[0] == "crash":
                self.dead = True
                raise SimCrash()
            raise SimIOError(errno.ENOSPC if torn[0] == "enospc" else errno.EIO, "simulated I/O error")

    # -- patching
    def _patch(self, obj: Any, name: str, new: Any) -> None:
        if hasattr(obj, name):
            self._saved.append((obj, name, getattr(obj, name)))
            setattr(obj, name, new)

    def install(self) -> "FS":
        fs = self
        real_open = io.open

        class Raw(io.RawIOBase):
            def __init__(self, path, flags):
                super().__init__()
                self._name = path
                fs.step("create")
                self.fd = os.open(path, flags, 0o664)

            def writable(self):
                return True

            def fileno(self):
                return self.fd

            def seekable(self):
                return True

            def seek(self, pos, whence=0):
                return os.lseek(self.fd, pos, whence)

            def write(self, b):
                data = bytes(b)
                if fs.dead:
                    return len(data)
                fs.write_all(self.fd, data)
                return len(data)

            def close(self):
                if not self.closed:
                    try:
                        super().close()
                    finally:
                        os.close(self.fd)

        def sim_open(file, mode="r", buffering=-1, encoding=None, errors=None, newline=None, closefd=True, opener=None):
            if not fs.armed or isinstance(file, int) or not fs.mine(file) or opener is not None:
                return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
            if "+" in mode or not any(c in mode for c in "wxa"):
                fs.step("read")
                return real_open(file, mode, buffering, encoding, errors, newline, closefd, opener)
            flags = os.O_WRONLY | os.O_CREAT | (os.O_APPEND if "a" in mode else os.O_EXCL if "x" in mode else os.O_TRUNC)
            raw = Raw(os.fspath(file), flags)
            buf = io.BufferedWriter(raw, buffer_size=1 << 22)
            if "b" in mode:
                return buf
            return io.TextIOWrapper(buf, encoding=encoding or "utf-8", errors=errors, newline=newline)

        self._patch(builtins, "open", sim_open)
        self._patch(io, "open", sim_open)

        def two(name, kind):
            real = getattr(os, name)

            def f(src, dst=None, *a, **k):
                if fs.mine(src) or (dst is not None and fs.mine(dst)):
                    fs.step(kind)
                return real(src, dst, *a, **k)

            self._patch(os, name, f)

        def one(name, kind):
            real = getattr(os, name)

            def f(p, *a, **k):
                if fs.mine(p):
                    fs.step(kind)
                elif fs.armed and fs.dead and k.get("dir_fd") is not None:
                    raise SimCrash()  # a dead process removes nothing
                return real(p, *a, **k)

            self._patch(os, name, f)

        for n in ("replace", "rename", "link"):
            two(n, "replace")
        for n in ("unlink", "remove", "rmdir"):
            one(n, "unlink")
        one("mkdir", "mkdir")

        import uuid

        count = [0]

        def uuid4():
            count[0] += 1
            return uuid.UUID(int=(0xF00D << 112 | count[0] << 32) | 4 << 76, version=4)

        self._patch(uuid, "uuid4", uuid4)

        import safetensors
        import safetensors.torch as st

        real_ser = st.serialize_file

        def ser(tensors, filename, metadata=None):
            if not fs.armed or not fs.mine(filename):
                return real_ser(tensors, filename, metadata=metadata)
            tmp = os.path.join(fs.side, "ser")
            real_ser(tensors, tmp, metadata=metadata)
            with real_open(tmp, "rb") as f:
                data = f.read()
            fs.step("create")
            fd = os.open(filename, os.O_WRONLY | os.O_CREAT | os.O_TRUNC, 0o664)
            try:
                fs.write_all(fd, data)
            finally:
                os.close(fd)

        self._patch(st, "serialize_file", ser)

        real_so = safetensors.safe_open

        class SafeOpen:
            def __init__(self, filename, *a, **k):
                self._mine = fs.mine(filename)
                if self._mine:
                    fs.step("read")
                self._o = real_so(filename, *a, **k)

            def __enter__(self):
                self._h = self._o.__enter__()
                return self

            def __exit__(self, *a):
                return self._o.__exit__(*a)

            def __getattr__(self, n):
                if n.startswith("__") or n in ("_o", "_h"):
                    raise AttributeError(n)
                return getattr(self.__dict__.get("_h", self._o), n)

            def get_tensor(self, k):
                if self._mine:
                    fs.step("read")
                return self.__dict__.get("_h", self._o).get_tensor(k)

        import fastforward.quantization.save_load as sl

        for mod in (safetensors, st, sl):
            if getattr(mod, "safe_open", None) is real_so:
                self._patch(mod, "safe_open", SafeOpen)
        return self

    def uninstall(self) -> None:
        self.armed = False
        for obj, name, old in reversed(self._saved):
            setattr(obj, name, old)
        self._saved.clear()
        shutil.rmtree(self.root, ignore_errors=True)

    # -- use
    def run(self, fault: dict | None, fn):
        """Runs fn with the seam armed.  Returns (result, exception, crashed)."""
        self.fault, self.n, self.dead, self.trace = fault, 0, False, []
        self.armed = True
        try:
            return fn(), None, False
        except SimCrash:
            return None, None, True
        except (SystemExit, GeneratorExit):
            raise
        except BaseException as e:  # noqa: BLE001
            from sim.core import StepLimit, Violation

            if isinstance(e, (StepLimit, Violation)):
                raise
            if self.dead:
                return None, None, True
            return None, e, False
        finally:
            self.armed = False
            self.fault = None

    def tree(self) -> dict[str, bytes]:
        """Every file below the root with its content."""
        out = {}
        for d, _, files in os.walk(self.root):
            if d.startswith(self.side):
                continue
            for f in files:
                p = os.path.join(d, f)
                with open(p, "rb") as h:
                    out[os.path.relpath(p, self.root)] = h.read()
        return out
