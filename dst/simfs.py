"""Simulated storage: named files whose bytes, latency and failures the simulator owns."""

from __future__ import annotations

import builtins
import errno
import io
import os
import random

from . import sim as _sim

_real_open = io.open


class VFile:
    """The bytes of one file (an inode): open handles keep reading it after the name is replaced."""

    def __init__(self, name: str, data: bytes) -> None:
        self.name = name
        self.data = bytearray(data)


class Storage:
    """All files of one run, the fault plan, and the accounting of handles."""

    def __init__(self, sim, faults=(), io_params=None, mirror: str | None = None) -> None:
        self.sim = sim
        self.names: dict[str, VFile] = {}
        self.handles: list[SimFile] = []
        self.ops = 0  # reads so far, over all files
        self.bytes_read = 0
        self.reads: list = []
        self.trace_reads = False
        p = io_params or {}
        self.rng = random.Random(f"io/{p.get('seed', 0)}")
        self.lat_p = float(p.get("p", 0.0))
        self.lat_mean = float(p.get("mean", 0.01))
        self.short = bool(p.get("short", False))
        self.chunky = int(p.get("chunky", 0))  # split a full read in several device operations
        self.at: dict = {}
        self.base: dict = {None: 0}
        self.fops: dict[str, int] = {}
        self.sticky: list[dict] = []
        self.bad: list[dict] = []
        self.versions: dict[str, bytes] = {}
        self.mirror = mirror
        self.fired: dict[str, int] = {}
        self.errors: list[BaseException] = []
        self.arm(faults)

    def arm(self, faults) -> None:
        """Arm these faults and no other; operations count from here. A fault may be tied to one file."""
        self.at.clear()
        self.sticky.clear()
        self.bad.clear()
        self.base = {None: self.ops, **self.fops}
        for f in faults:
            if f["k"] == "badblock":
                self.bad.append(f)
            else:
                self.at.setdefault((f.get("file"), -1 if f["k"] == "open_fail" else int(f.get("op", 0))), []).append(f)

    # -- contents
    def put(self, name: str, data: bytes) -> None:
        """Create or atomically replace `name`."""
        self.names[name] = VFile(name, data)
        if self.mirror:
            p = os.path.join(self.mirror, name)
            with _real_open(p + ".tmp", "wb") as f:
                f.write(data)
            os.utime(p + ".tmp", (1.7e9 + int(self.sim.now), 1.7e9 + int(self.sim.now)))
            os.replace(p + ".tmp", p)

    def remove(self, name: str) -> None:
        del self.names[name]
        if self.mirror:
            os.unlink(os.path.join(self.mirror, name))

    def overwrite(self, name: str, data: bytes, start: int, stop: int, trunc: bool) -> None:
        """In-place write of data[start:stop]; a torn write leaves the rest as it was."""
        vf = self.names[name]
        stop = min(stop, len(data))
        if len(vf.data) < stop:
            vf.data.extend(b"\0" * (stop - len(vf.data)))
        vf.data[start:stop] = data[start:stop]
        if trunc:
            del vf.data[len(data):]
        if self.mirror:
            p = os.path.join(self.mirror, name)
            with _real_open(p, "wb") as f:
                f.write(vf.data)
            os.utime(p, (1.7e9 + int(self.sim.now), 1.7e9 + int(self.sim.now)))

    def fire(self, f: dict) -> None:
        k = f["k"]
        f["fired"] = f.get("fired", 0) + 1
        self.fired[k] = self.fired.get(k, 0) + 1
        self.sim.count(f"fault:{k}")
        self.sim.record("fault", k)

    make_exc = None  # name of an exception -> instance

    def err(self, f: dict, e: BaseException) -> BaseException:
        self.errors.append(e)
        return e

    def damage(self, vf: VFile, f: dict) -> bool:
        """Apply a stored-bytes fault. True when the bytes changed."""
        d = vf.data
        k = f["k"]
        if k == "flip":
            o = f["off"]
            if o < len(d):
                d[o] ^= 1 << f["bit"]
                return True
        elif k == "byte":
            o = f["off"]
            if o < len(d) and d[o] != f["val"]:
                d[o] = f["val"]
                return True
        elif k == "zero":
            o, n = f["off"], f["len"]
            if any(d[o : o + n]):
                d[o : o + n] = bytes(len(d[o : o + n]))
                return True
        elif k == "trunc":
            if f["at"] < len(d):
                del d[f["at"]:]
                return True
        return False

    def open(self, name: str, owner: str = "code") -> "SimFile":
        vf = self.names.get(name)
        if vf is None:
            raise FileNotFoundError(errno.ENOENT, os.strerror(errno.ENOENT), name)
        s = self.sim
        s.point("open")
        for f in [*self.at.get((None, -1), ()), *self.at.get((name, -1), ())]:
            if not f.get("done"):
                f["left"] = f.get("left", f.get("n", 0)) - 1
                if f["left"] < 0:
                    f["done"] = True
                    self.fire(f)
                    raise self.err(f, OSError(getattr(errno, f.get("errno", "EMFILE")), "injected"))
        h = SimFile(self, vf, owner)
        self.handles.append(h)
        s.count("open")
        return h

    def open_handles(self, owner: str = "code") -> list["SimFile"]:
        return [h for h in self.handles if not h.closed and h.owner == owner]

    # -- one read operation
    def before_read(self, h: "SimFile", n: int) -> int:
        """Latency and faults of one read of `n` bytes; returns how many bytes to deliver."""
        s = self.sim
        name = h.vf.name
        op = self.ops - self.base[None]
        fop = self.fops.get(name, 0)
        self.ops += 1
        self.fops[name] = fop + 1
        fop -= self.base.get(name, 0)
        s.point("read")
        if self.lat_p and self.rng.random() < self.lat_p:
            s.count("latency")
            s.sleep(self.rng.expovariate(1.0 / self.lat_mean), "disk")
        for f in self.bad:
            if f.get("file", name) == name and h.pos < f["off"] + f["len"] and h.pos + n > f["off"]:
                self.fire(f)
                raise self.err(f, OSError(errno.EIO, "injected bad block"))
        for f in [*self.at.get((None, op), ()), *self.at.get((name, fop), ())]:
            k = f["k"]
            if k in ("flip", "zero", "trunc", "byte"):
                if self.damage(h.vf, f):
                    self.fire(f)
            elif k == "replace":
                self.fire(f)
                self.put(f["name"], self.versions[f["with"]])
            elif k == "overwrite":
                self.fire(f)
                self.overwrite(f["name"], self.versions[f["with"]], f.get("start", 0), f["stop"], f.get("trunc", False))
            elif k == "stall":
                self.fire(f)
                s.sleep(f["d"], "stall")
            elif k == "eio":
                self.fire(f)
                if f.get("sticky"):
                    self.sticky.append(f)
                raise self.err(f, OSError(errno.EIO, "injected I/O error"))
            elif k == "eintr":
                self.fire(f)
                raise self.err(f, InterruptedError(errno.EINTR, "injected EINTR"))
            elif k == "sraise":  # the caller's stream fails in a way of its own, or the thread is interrupted while it waits
                self.fire(f)
                raise self.err(f, self.make_exc(f["exc"]))
            elif k == "enomem":
                self.fire(f)
                raise self.err(f, MemoryError("injected"))
            elif k == "eof":
                self.fire(f)
                if f.get("sticky"):
                    self.sticky.append(f)
                return 0
            elif k == "short":
                if n > f["n"]:
                    self.fire(f)
                    n = f["n"]
        for f in self.sticky:
            if f.get("file", name) != name:
                continue
            if f["k"] == "eio":
                raise self.err(f, OSError(errno.EIO, "injected I/O error (sticky)"))
            if f["k"] == "eof":
                return 0
        return n


STORAGE_KINDS = ("flip", "byte", "zero", "trunc", "replace", "overwrite", "stall", "eio", "eintr", "sraise", "enomem", "eof", "short", "open_fail", "badblock")


class SimFile(io.RawIOBase):
    """A handle. read(n) returns n bytes unless the data end or a fault says otherwise."""

    def __init__(self, st: Storage, vf: VFile, owner: str) -> None:
        self.st = st
        self.vf = vf
        self.owner = owner
        self.pos = 0
        self.name = vf.name
        self.mode = "rb"
        self.nclosed = 0

    def _chk(self) -> None:
        if self.closed:
            raise ValueError("I/O operation on closed file.")

    def readable(self) -> bool:
        return True

    def seekable(self) -> bool:
        return True

    def writable(self) -> bool:
        return False

    def seek(self, off: int, whence: int = 0) -> int:
        self._chk()
        self.st.sim.point("seek")
        if whence == 0:
            p = off
        elif whence == 1:
            p = self.pos + off
        else:
            p = len(self.vf.data) + off
        if p < 0:
            raise OSError(errno.EINVAL, "Invalid argument")
        self.pos = p
        return p

    def tell(self) -> int:
        self._chk()
        return self.pos

    def read(self, n: int = -1) -> bytes:
        self._chk()
        size = len(self.vf.data)
        if n is None or n < 0:
            n = max(0, size - self.pos)
        elif n > size - self.pos:
            n = max(0, size - self.pos)
        ask = n
        got = b""
        st = self.st
        with_chunks = st.chunky and ask > st.chunky
        while True:
            part = min(ask - len(got), st.chunky) if with_chunks else ask - len(got)
            k = st.before_read(self, part)
            self._chk()
            data = bytes(self.vf.data[self.pos : self.pos + k])
            self.pos += len(data)
            got += data
            if k < part or len(got) >= ask or not data:
                break
            if st.short:  # a raw device: one operation per call
                break
        st.bytes_read += len(got)
        if st.trace_reads:
            st.reads.append((self.pos - len(got), len(got)))
        st.sim.point("readret")
        return got

    read1 = read

    def readall(self) -> bytes:
        return self.read(-1)

    def readinto(self, b) -> int:
        d = self.read(len(b))
        b[: len(d)] = d
        return len(d)

    def fileno(self):
        raise io.UnsupportedOperation("fileno")

    def isatty(self) -> bool:
        return False

    def close(self) -> None:
        if not self.closed:
            self.nclosed += 1
            self.st.sim.point("close")
        super().close()

    def __del__(self) -> None:  # a dropped handle is still a leak: nothing is closed here
        pass


def _lookup(file):
    s = _sim.CUR
    if s is None or s.vfs is None or isinstance(file, int):
        return None
    try:
        p = os.fspath(file)
    except TypeError:
        return None
    if isinstance(p, bytes):
        p = os.fsdecode(p)
    if os.path.isabs(p):
        if s.vfs.mirror and os.path.dirname(os.path.realpath(p)) == os.path.realpath(s.vfs.mirror):
            p = os.path.basename(p)
        else:
            return None
    p = os.path.normpath(p)
    return p if p in s.vfs.names else None


def _open(file, mode="r", *a, **k):
    n = _lookup(file)
    if n is not None and "b" in mode and not set(mode) & set("wax+"):
        return _sim.CUR.vfs.open(n)
    return _real_open(file, mode, *a, **k)


def install() -> None:
    io.open = _open
    builtins.open = _open
