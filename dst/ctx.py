"""One run: building the world of a scenario, executing it, and what every property shares."""

from __future__ import annotations

import copy
import gc
import json
import os
import random
import re
import resource
import struct
import sys
import time as _time

from . import alloc, book, damage, sim, simfs

REPO = os.environ.get("DST_REPO", "/repo")
_mono = _time.monotonic  # the real clock; only for limits


# bytes of a part that matter to the table: one of them is damaged
AIM = {
    "sheet": {"xlsx": rb"[0-9a-w](?=[0-9a-w]*</[vt]>)", "xlsb": rb"[0-9a-w](?=\x00)"},
    "sst": {"xlsx": rb"[0-9a-w](?=[0-9a-w]*</[vt]>)", "xlsb": rb"[0-9a-w](?=\x00)"},
    "styles": {"xlsx": rb'(?<=numFmtId=")\d|(?<=numFmtId="1)\d|(?<=numFmtId="16)\d', "xlsb": rb"(?<=\x2f\x10\x00\x00)."},
    "dir": dict.fromkeys(("xlsx", "xlsb"), rb"[A-Za-z0-9](?=[A-Za-z0-9/]*\.(?:xml|bin))"),  # (the names of the parts)
    "workbook": {"xlsx": rb'(?<=r:id="rId)\d', "xlsb": rb"(?<=r\x00I\x00d\x00)\d(?=\x00)"},
}


class Injected(Exception):
    """An exception of the caller's own (callbacks, predicates)."""


class InjectedBase(BaseException):
    """Ditto, not an Exception."""


def load():
    """Import rxls from the repository, under the seams."""
    sys.dont_write_bytecode = True
    sim.install()
    import numpy  # noqa: F401
    import pyarrow as pa

    alloc.install()
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    import rxls
    import rxls.biff
    import rxls.biff_recs
    import rxls.cell
    import rxls.constants
    import rxls.reader
    import rxls.reader.xlsb
    import rxls.reader.xlsx
    import rxls.series

    got = os.path.dirname(os.path.dirname(os.path.realpath(rxls.__file__)))
    if got != os.path.realpath(REPO):
        raise RuntimeError(f"rxls imported from {got}")
    pa.set_cpu_count(1)
    gc.collect()
    gc.freeze()  # a collection in a child then leaves the pages of the imported modules shared


class Ctx:
    def __init__(self, scn: dict, workdir: str | None) -> None:
        self.scn = copy.deepcopy(scn)
        self.violations: list[dict] = []
        self.sim = sim.Sim(self.scn.get("sched", {}), max_steps=int(self.scn.get("max_steps", 3_000_000)))
        self.specs: dict[str, dict] = self.scn.get("books", {})
        self.bytes: dict[str, bytes] = {}
        self.parts: dict[str, dict[str, bytes]] = {}
        self.flags: dict[str, int] = {}
        self.answers: dict = {}
        self.refs: dict = {}
        self.harness_errors: list[str] = []
        faults = [self.resolve(f) for f in self.scn.get("faults", [])]
        self.faults = faults
        self.st = simfs.Storage(self.sim, [f for f in faults if f["k"] in simfs.STORAGE_KINDS], self.scn.get("io"), mirror=workdir)
        self.st.make_exc = lambda name: EXC[name]()
        self.sim.vfs = self.st
        for name in self.specs:
            self.st.versions[name] = self.book(name)
        for f in self.scn.get("faults", []):
            if f["k"] in PART_KINDS and f.get("applied"):
                self.fired(f)
        for fname, bk in self.scn.get("files", {}).items():
            self.st.put(fname, self.book(bk))
        self.arm_hooks(faults)

    # -- world
    def book(self, name: str) -> bytes:
        b = self.bytes.get(name)
        if b is None:
            spec = self.specs[name]
            parts = book.make_parts(spec)
            for f in sorted(self.scn.get("faults", []), key=lambda f: f["k"] not in ("badref", "badrec")):
                if f["k"] in PART_KINDS and f.get("book", name) == name:
                    try:
                        damage.apply(spec, parts, f, self)
                    except (IndexError, KeyError, ValueError, struct.error):
                        self.sim.count("damage:skipped")  # what another fault left cannot be damaged this way
            self.parts[name] = parts
            b = self.bytes[name] = book.pack(parts, stored=bool(spec.get("stored")), level=int(spec.get("level", 6)), order_salt=int(spec.get("order", 0)))
        return b

    def resolve(self, f: dict) -> dict:
        """Faults placed by meaning (part, fraction) become absolute byte offsets."""
        f = dict(f)
        if "frac" in f and f["k"] not in PART_KINDS:
            bk = f.get("book") or next(iter(self.specs))
            data = self.book(bk)
            lo, hi = 0, len(data)
            part = f.get("part")
            if part:
                part = self.part_name(bk, part, int(f.get("sheet", 0)))
                for n, a, b in book.layout(data):
                    if n == part:
                        lo, hi = a, b
            off = min(hi - 1, lo + int(f["frac"] * (hi - lo)))
            if f.get("aim"):  # a byte of a value
                at = [m.start() for m in re.finditer(AIM[f["part"]][self.specs[bk]["fmt"]], data[lo:hi], re.S)]
                if f["part"] == "sheet" and self.specs[bk]["fmt"] == "xlsb":  # before the end of the sheet data
                    end = data[lo:hi].find(b"\x92\x03\x00") % (hi - lo + 1)
                    at = [x for x in at if x < end]
                if at:
                    off = lo + at[int(f["frac"] * len(at))]
            f["at" if f["k"] == "trunc" else "off"] = off
            if "len" in f:
                f["len"] = max(1, min(f["len"], hi - off))
        return f

    def arm(self, faults, files=()) -> list[dict]:
        """Replace every armed fault by these; storage operations count from now on."""
        fs = [self.resolve(f) for f in faults]
        self.faults = fs
        s = self.sim
        s.hooks.clear()
        s.on_line_fault = None
        self.st.arm([f for f in fs if f["k"] in simfs.STORAGE_KINDS])
        self.arm_hooks(fs)
        return fs

    def part_name(self, bk: str, part: str, si: int = 0) -> str:
        return self.part_name_of(self.specs[bk], part, si)

    @staticmethod
    def part_name_of(spec, part: str, si: int = 0) -> str:
        if part == "sheet":
            return book.sheet_part(spec, si)
        if part == "sst":
            return book.sst_part(spec)
        if part == "styles":
            return "xl/styles." + ("xml" if spec["fmt"] == "xlsx" else "bin")
        if part == "workbook":
            return "xl/workbook." + ("xml" if spec["fmt"] == "xlsx" else "bin")
        if part == "rels":
            return "xl/_rels/workbook." + ("xml" if spec["fmt"] == "xlsx" else "bin") + ".rels"
        if part == "dir":
            return "<directory>"
        return part

    # -- faults outside storage
    def arm_hooks(self, faults) -> None:
        s = self.sim
        for f in faults:
            k = f["k"]
            if k == "put_fail":
                self.nth_hook("put", f, lambda f=f: self.exc(f, "MemoryError"))
            elif k == "get_interrupt":
                self.nth_hook("get", f, lambda f=f: self.exc(f, "KeyboardInterrupt"), main_only=True)
            elif k == "spawn_fail":
                self.nth_hook("spawn", f, lambda f=f: self.exc(f, "RuntimeError", "can't start new thread"))
            elif k == "alloc_fail":
                self.nth_hook("alloc", f, lambda f=f: self.exc(f, "MemoryError"))
            elif k == "line_fail":
                self.arm_line(f)

    def arm_line(self, f) -> None:
        s = self.sim
        state = {"n": int(f["n"])}
        suffix = f.get("file", "/chunk/casts.py")
        if not s.line_targets:
            s.line_targets = ("/rxls/",)

        def on_line(code, line):
            if not code.co_filename.endswith(suffix):
                return None
            state["n"] -= 1
            if state["n"] == -1:
                self.fired(f)
                return self.exc(f, "MemoryError")
            return None

        s.on_line_fault = on_line

    def nth_hook(self, site, f, make, main_only=False) -> None:
        s = self.sim
        prev = s.hooks.get(site)
        state = {"n": int(f.get("n", 0))}

        def hook(*a):
            if prev is not None:
                prev(*a)
            if main_only and s.cur.id != 0:
                return
            if f.get("site") and f["site"] != a[0]:
                return  # (only allocations of this kind count)
            if site == "put" and a and not is_payload(a[0]):
                return  # an end marker: not worth an allocation failure of its own
            state["n"] -= 1
            if state["n"] == -1:
                self.fired(f)
                raise make()

        s.hooks[site] = hook

    def fired(self, f) -> None:
        f["fired"] = f.get("fired", 0) + 1
        self.sim.count(f"fault:{f['k']}")
        self.sim.record("fault", f["k"])

    def exc(self, f, default="Injected", msg="injected") -> BaseException:
        name = f.get("exc", default)
        e = EXC[name]()
        if name == "RuntimeError":
            e = RuntimeError(msg)
        f["_exc"] = e
        self.injected.append(e)
        return e

    injected: list

    # -- arguments
    def kwargs(self, opts: dict, cb=None, pred=None) -> dict:
        import pyarrow as pa

        kw = {k: copy.deepcopy(v) for k, v in opts.items() if k != "cb"}
        nv = kw.get("null_values")
        if nv == "callable":
            kw["null_values"] = pred or (lambda t: t == book.NULL_TEXT)
        dt = kw.get("dtypes")
        if dt is not None:
            kw["dtypes"] = pa.large_string() if dt == "str" else getattr(pa, dt)() if isinstance(dt, str) else [pa.large_string()] * dt if isinstance(dt, int) else {k: pa.large_string() for k in dt}
        if cb is not None:
            kw["row_callback"] = cb
        return kw

    def callback(self, faults=None, on_call=None):
        """A row callback that counts, detects overlap, yields to the scheduler and may raise."""
        st = {"n": 0, "in": 0, "overlap": 0}
        fs = [f for f in (self.faults if faults is None else faults) if f["k"] == "cb_raise"]
        stall = [f for f in (self.faults if faults is None else faults) if f["k"] == "cb_stall"]

        def cb():
            n = st["n"]
            st["n"] += 1
            st["in"] += 1
            if st["in"] > 1:
                st["overlap"] += 1
            try:
                self.sim.record("cb", n)
                self.sim.point("cb")
                if on_call is not None:
                    on_call(n)
                for f in stall:
                    if n == f["n"]:
                        self.fired(f)
                        self.sim.sleep(f["d"], "callback")
                for f in fs:
                    if n == f["n"]:
                        self.fired(f)
                        raise self.exc(f)
                self.sim.point("cbret")
            finally:
                st["in"] -= 1

        cb.st = st
        return cb

    def live_predicate(self):
        """Like predicate(), for whatever faults are armed at the time of a call."""

        def pred(t):
            self.sim.point("pred")
            for f in self.faults:
                if f["k"] == "pred_raise" and not f.get("fired"):
                    f["n"] -= 1
                    if f["n"] == -1:
                        self.fired(f)
                        raise self.exc(f)
            return t == book.NULL_TEXT

        return pred

    def predicate(self, faults=None, on_call=None):
        fs = [f for f in (self.faults if faults is None else faults) if f["k"] == "pred_raise"]
        st = {"n": 0}

        def pred(t):
            n = st["n"]
            st["n"] += 1
            self.sim.point("pred")
            if on_call is not None:
                on_call(n)
            for f in fs:
                if n == f["n"]:
                    self.fired(f)
                    raise self.exc(f)
            return t == book.NULL_TEXT

        return pred

    def source(self, fname: str, how: str):
        if how == "path":
            return fname
        if how == "pathlib":
            from pathlib import Path

            return Path(fname)
        return self.st.open(fname, "user")

    def workbook(self, fmt: str):
        from rxls.reader.xlsb import XlsbWorkbook
        from rxls.reader.xlsx import XlsxWorkbook

        return XlsxWorkbook if fmt == "xlsx" else XlsbWorkbook

    # -- verdicts
    def fail(self, oracle: str, detail: str) -> None:
        self.sim.record("VIOLATION", oracle)
        self.violations.append({"oracle": oracle, "detail": str(detail)[:600]})

    def flag(self, name: str, n: int = 1) -> None:
        self.flags[name] = self.flags.get(name, 0) + n

    def do_read(self, src, sheet, kw):
        from rxls.reader import read

        try:
            t = read(src, sheet, **kw)
        except BaseException as e:  # noqa: BLE001
            if isinstance(e, sim.SimStop):
                raise
            return "exc", e
        return "ok", t

    def expect(self, spec, sheet, opts):
        if spec.get("wild"):
            return self.reference("read", spec, sheet, opts)
        try:
            return "ok", book.model_read(spec, sheet, opts)
        except book.Expected as e:
            return "exc", str(e)

    # -- the code itself as reference: the same call as the first one of a fresh process, alone, over calm storage
    def refkey(self, mode, bk, sheet, opts) -> str:
        return json.dumps([mode, bk, sheet, {k: v for k, v in opts.items() if v is not None}], sort_keys=True)

    def reference(self, mode, spec, sheet, opts):
        bk = next(k for k, v in self.specs.items() if v is spec)
        key = self.refkey(mode, bk, sheet, opts)
        if key not in self.refs:
            raise LookupError(f"dst: no reference for {key}")
        return self.refs[key]

    def make_refs(self, wanted) -> None:
        for mode, bk, sheet, opts in wanted:
            if bk not in self.specs or not self.specs[bk].get("wild"):
                continue
            key = self.refkey(mode, bk, sheet, opts)
            if key in self.refs:
                continue
            book.build(self.specs[bk])  # kept for the child
            ref = self.refs[key] = in_child(lambda: self.calm_call(mode, bk, sheet, opts))
            if ref[0] == "bad":
                self.fail("reference", f"{mode} alone, over calm storage: {ref[1]}")
            self.flag("references")

    def calm_call(self, mode, bk, sheet, opts):
        from io import BytesIO

        from .props import decode_cell, iter_kwargs, wb_kwargs

        spec = self.specs[bk]
        data = book.build(spec)  # without any damage
        s = sim.Sim({"policy": "none", "lines": []}, max_steps=4_000_000)
        s.vfs = self.st

        s.abort_cb = lambda kind, detail, stacks: emit(("bad", f"{kind}: {detail}; {stacks}"))

        def go():
            if mode == "read":
                got = self.do_read(BytesIO(data), sheet, self.kwargs(opts))
                if got[0] == "exc":
                    return "exc", type(got[1]).__name__, "ref"
                return "ok", (list(got[1].column_names), [c.combine_chunks() for c in got[1].columns])
            sst = book.shared_table(spec)[0]
            try:
                with self.workbook(spec["fmt"])(BytesIO(data), **wb_kwargs(self, opts)) as wb:
                    return "ok", [decode_cell(spec["fmt"], c, sst) for c in wb.iter_worksheet(sheet, **iter_kwargs(opts))]
            except Exception as e:  # noqa: BLE001
                return "exc", type(e).__name__, "ref"

        return s.run(go)

    def drain(self, d: float = 1e9) -> list:
        """Let all background work run on; returns the tasks still there."""
        s = self.sim
        if s.live_background():
            s.sleep(d, "drain")
        return s.live_background()

    def clean(self, tag: str = "") -> None:
        for who, e in self.sim.uncaught:
            self.fail("uncaught" + tag, f"uncaught in {'background thread' if who != 'unraisable' else who}: {type(e).__name__}: {e}")


_emit_to = None


def emit(x) -> None:
    """Send the result of a reference run and end its process."""
    import pickle

    with os.fdopen(_emit_to, "wb") as f:
        pickle.dump(x, f)
    os._exit(0)


def _tree(pid: int) -> list:
    """The process and its descendants (all started by the check itself)."""
    out, todo = [], [pid]
    while todo:
        p = todo.pop()
        out.append(p)
        try:
            for t in os.listdir(f"/proc/{p}/task"):
                with open(f"/proc/{p}/task/{t}/children") as f:
                    todo += [int(x) for x in f.read().split()]
        except OSError:
            pass
    return out


def _activity(pid: int):
    """(processor time used so far, whether anything wants the processor) of a process and its descendants."""
    used, busy = 0, False
    for p in _tree(pid):
        try:
            for t in os.listdir(f"/proc/{p}/task"):
                with open(f"/proc/{p}/task/{t}/stat") as f:
                    x = f.read().rpartition(")")[2].split()
                used += int(x[11]) + int(x[12])
                busy = busy or x[0] in "RD"
        except (OSError, ValueError, IndexError):
            busy = True
    return used, busy


def watch(pid: int, fd: int, idle: float, hard: float):
    """Read what a child writes until it ends. Returns (bytes, why): why is None, "idle" (nothing in it wanted the
    processor for `idle` seconds: it waits for something that never comes), or "hard" (still at it after `hard` seconds,
    which on a machine with too much to do proves nothing). A machine that is slow never makes a child "idle"."""
    import select

    buf = b""
    start = since = _mono()
    last = None
    while True:
        if select.select([fd], [], [], 1.0)[0]:
            d = os.read(fd, 1 << 20)
            if not d:
                return buf, None
            buf += d
            continue
        now = _mono()
        used, busy = _activity(pid)
        if busy or used != last:
            since, last = now, used
        if now - since >= idle:
            return buf, "idle"
        if now - start >= hard:
            return buf, "hard"


def in_child(fn, idle=20.0, hard=300.0):
    """Result of fn() in a forked process."""
    global _emit_to
    import pickle

    r, w = os.pipe()
    pid = os.fork()
    if not pid:
        try:
            os.close(r)
            _emit_to = w
            soft, most = resource.getrlimit(resource.RLIMIT_CPU)
            if soft > 0:
                resource.setrlimit(resource.RLIMIT_CPU, (min(3 * soft, most) if most > 0 else 3 * soft, most))
            try:
                x = fn()
            except BaseException as e:  # noqa: BLE001
                x = ("bad", f"{type(e).__name__}: {e}")
            emit(x)
        finally:
            os._exit(1)
    os.close(w)
    buf, why = watch(pid, r, idle, hard)
    if why:
        os.kill(pid, 9)
    os.close(r)
    _, st = os.waitpid(pid, 0)
    if why == "hard" or (not why and os.WIFSIGNALED(st) and os.WTERMSIG(st) == 9):
        os._exit(97)  # no verdict: ended from outside, or the machine has too much to do
    try:
        return pickle.loads(buf)
    except Exception:  # noqa: BLE001
        return "bad", f"no answer (status {st})"


def is_payload(x) -> bool:
    """A cell, or a batch of them, on its way to the consumer."""
    if isinstance(x, (list, tuple)) and type(x).__name__ != "cell":
        return any(is_payload(y) for y in x)
    return hasattr(x, "row") and hasattr(x, "col")


EXC = {
    "Injected": lambda: Injected("injected"),
    "InjectedBase": lambda: InjectedBase("injected"),
    "ValueError": lambda: ValueError("injected"),
    "ValueErrorClosed": lambda: ValueError("read from closed file."),
    "AttributeErrorTell": lambda: AttributeError("'NoneType' object has no attribute 'tell'"),
    "KeyError": lambda: KeyError("injected"),
    "IndexError": lambda: IndexError("injected"),
    "TypeError": lambda: TypeError("injected"),
    "ArrowInvalid": lambda: __import__("pyarrow").ArrowInvalid("injected"),
    "EOFError": lambda: EOFError("injected"),
    "OSError": lambda: OSError(5, "injected"),
    "MemoryError": lambda: MemoryError("injected"),
    "KeyboardInterrupt": lambda: KeyboardInterrupt(),
    "SystemExit": lambda: SystemExit(3),
    "AttributeErrorSeek": lambda: AttributeError("'NoneType' object has no attribute 'seek'"),
    "BadZipFile": lambda: __import__("zipfile").BadZipFile("injected"),
    "ExpatError": lambda: __import__("pyexpat").ExpatError("injected"),
    "QueueEmpty": lambda: __import__("queue").Empty("injected"),
    "RuntimeError": lambda: RuntimeError("injected"),
    "InterruptedError": lambda: InterruptedError("injected"),
    "BlockingIOError": lambda: BlockingIOError("injected"),
    "TimeoutError": lambda: TimeoutError("injected"),
    "PermissionError": lambda: PermissionError("injected"),
    "FileNotFoundError": lambda: FileNotFoundError("injected"),
    "BrokenPipeError": lambda: BrokenPipeError("injected"),
    "QueueFull": lambda: __import__("queue").Full("injected"),
    "AssertionError": lambda: AssertionError("injected"),
    "UnicodeDecodeError": lambda: UnicodeDecodeError("utf-8", b"x", 0, 1, "injected"),
    "RecursionError": lambda: RecursionError("injected"),
    "ZeroDivisionError": lambda: ZeroDivisionError("injected"),
    "NotImplementedError": lambda: NotImplementedError("injected"),
    "StopAsyncIteration": lambda: StopAsyncIteration("injected"),
    "CancelledError": lambda: __import__("concurrent.futures").futures.CancelledError("injected"),
    "ZlibError": lambda: __import__("zlib").error("injected"),
    "StructError": lambda: __import__("struct").error("injected"),
    "NameError": lambda: NameError("injected"),
    "BufferError": lambda: BufferError("injected"),
    "UserWarning": lambda: UserWarning("injected"),
    "ArrowKeyError": lambda: __import__("pyarrow").ArrowKeyError("injected"),
    "ArrowTypeError": lambda: __import__("pyarrow").ArrowTypeError("injected"),
}

PART_KINDS = ("cutpart", "partflip", "partdel", "badref", "badrec", "badxml", "partbyte", "nopart")



def from_repo(e) -> bool:
    """Did the code under test raise this (and not the machinery itself)?"""
    here = os.path.dirname(os.path.abspath(__file__))
    files = []
    tb = e.__traceback__
    while tb is not None:
        files.append(os.path.abspath(tb.tb_frame.f_code.co_filename))
        tb = tb.tb_next
    return bool(files) and not files[-1].startswith(here + os.sep) and any("/rxls/" in f for f in files)


def run_body(prop, scn: dict, workdir: str | None, out) -> dict:
    """Execute one scenario in this (forked) process. `out(dict)` must be called with the result."""
    ctx = Ctx.__new__(Ctx)
    ctx.injected = []
    ctx.__init__(scn, workdir)
    s = ctx.sim

    def result(extra=None):
        r = {
            "violations": ctx.violations,
            "counts": s.counts,
            "flags": ctx.flags,
            "steps": s.steps,
            "switches": s.switches,
            "preemptions": s.preemptions,
            "ihash": s.ihash,
            "digest": s.digest,
            "devs": s.devs[:200_000],
            "now": s.now,
            "log": [list(map(str, x)) for x in list(s.log)[-60:]] if ctx.violations else [],
            "lines": s.lineno_hits,
            "tasks": len(s.tasks),
        }
        r.update(extra or {})
        return r

    def on_abort(kind, detail, stacks):
        ctx.fail("hang:" + kind, f"{detail}; {stacks}")
        out(result())
        os._exit(0)

    s.abort_cb = on_abort
    gc.collect()
    gc.disable()
    random.seed(0)
    try:
        import numpy as np

        np.random.seed(0)
    except Exception:  # noqa: BLE001
        pass
    ctx.make_refs(prop.refs(ctx.scn))
    s.run(lambda: prop.body(ctx))
    r = result()
    if getattr(prop, "calm", False) and not ctx.violations:
        # the same scenario without faults, latency or preemption
        calm = copy.deepcopy(scn)
        calm.update(faults=[], io={}, sched={"policy": "none", "lines": []}, pause=[])
        c2 = Ctx.__new__(Ctx)
        c2.injected = []
        c2.__init__(calm, workdir)
        c2.sim.abort_cb = on_abort
        c2.refs = ctx.refs
        c2.sim.run(lambda: prop.body(c2))
        prop.compare(ctx, c2.answers)
        for v in c2.violations:
            ctx.fail("calm:" + v["oracle"], v["detail"])
        r["violations"] = ctx.violations
    if ctx.harness_errors:
        r["harness_error"] = ctx.harness_errors[0]
    return r
