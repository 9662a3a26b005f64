"""The properties: scenario generator, execution, oracle. One class each."""

from __future__ import annotations

import gc
import io as _io
import re
import struct
from unittest import mock

from . import book, damage, gen, sim
from .ctx import Injected, InjectedBase  # noqa: F401


# --------------------------------------------------------------------------- shared helpers
def decode_cell(fmt, c, sst):
    """(row, column, class, value) of a delivered cell, by our own reading of the formats."""
    from rxls import constants as K

    t, v = c.xdt, c.val
    if t & K.TYPE_STRING:
        if t & K.REPR_SHARED:
            i = int(v) if fmt == "xlsx" else struct.unpack("<I", v)[0]
            return c.row, c.col, "s", sst[i]
        return c.row, c.col, "s", v.decode() if isinstance(v, (bytes, bytearray)) else v
    kind = "d" if t & K.REPR_TEMPORAL else "n"
    if fmt == "xlsx":
        return c.row, c.col, kind, float(v)
    if t & K.REPR_RKNUMBER:
        (i,) = struct.unpack("<I", v)
        x = float(struct.unpack("<i", struct.pack("<I", i))[0] >> 2) if i & 2 else struct.unpack("<d", b"\0\0\0\0" + struct.pack("<I", i & ~3))[0]
        return c.row, c.col, kind, x / 100 if i & 1 else x
    if t & K.REPR_BOOLEAN:
        return c.row, c.col, kind, float(v[0])
    return c.row, c.col, kind, struct.unpack("<d", v)[0]


def model_iter(spec, si, opts):
    out = []
    for r, c, k, x in book.model_cells(spec, si, opts):
        if k == "g":
            x = book.num_text(x)
        out.append((r, c, book.cls(k), x))
    return out


def exp_iter(ctx, spec, si, opts):
    """Cells that an iteration delivers: by the model, or as the code itself gives them alone and undisturbed."""
    if spec.get("wild"):
        ref = ctx.reference("iter", spec, si, opts)
        return ref[1] if ref[0] == "ok" else [ref]
    return model_iter(spec, si, opts)


def sheet_no(spec, sheet):
    if isinstance(sheet, int):
        return sheet
    return [s["name"] for s in spec["sheets"]].index(sheet)


ITER_OPTS = ("skip_rows", "take_rows", "take_rows_non_empty", "skip_cols")


def iter_kwargs(opts, cb=None):
    kw = {k: v for k, v in opts.items() if k in ITER_OPTS}
    if cb is not None:
        kw["row_callback"] = cb
    return kw


def wb_kwargs(ctx, opts, pred=None):
    kw = ctx.kwargs({k: v for k, v in opts.items() if k == "null_values"}, pred=pred)
    return kw


def first_diff(got, exp):
    for i, (a, b) in enumerate(zip(got, exp)):
        if a != b:
            return f"cell {i}: {str(a)[:90]} instead of {str(b)[:90]}"
    return f"{len(got)} cells instead of {len(exp)}"


def short(e) -> str:
    return f"{type(e).__name__}: {str(e)[:160]}"


def chain(e):
    seen = []
    todo = [e]
    while todo:
        x = todo.pop()
        if x is None or any(x is y for y in seen):
            continue
        seen.append(x)
        todo += [x.__cause__, x.__context__]
        if isinstance(x, BaseExceptionGroup):
            todo += x.exceptions
    return seen


def check_table(ctx, got, exp, oracle, what=""):
    """`got`/`exp` as from do_read/expect; exact equality."""
    if exp[0] == "exc":
        ctx.flag("model_raises")
        if got[0] == "ok":
            ctx.fail(oracle, f"{what}table where {'the undisturbed read raises' if len(exp) > 2 else 'the model says'} {exp[1]}")
        elif len(exp) > 2 and type(got[1]).__name__ != exp[1]:
            ctx.fail(oracle, f"{what}raised {short(got[1])}; the undisturbed read raises {exp[1]}")
        return
    if got[0] == "exc":
        ctx.fail(oracle, f"{what}raised {short(got[1])}")
        return
    try:
        d = book.same_table(got[1], exp[1])
    except Exception as e:  # noqa: BLE001  a malformed result
        d = f"result cannot be examined: {short(e)}"
    if d:
        ctx.fail(oracle, what + d)


class Kept:
    """Results handed out earlier, to be looked at again: nothing that happens later may change them."""

    def __init__(self):
        self.items = []

    def add(self, tag, x):
        self.items.append((tag, x, self.image(x)))

    @staticmethod
    def image(x):
        import pyarrow as pa

        try:
            bs = x.to_batches() if hasattr(x, "to_batches") else [pa.RecordBatch.from_arrays([x], ["a"])]
            return [b.serialize().to_pybytes() for b in bs]
        except Exception as e:  # noqa: BLE001
            return short(e)

    def check(self, ctx, oracle):
        for tag, x, im in self.items:
            if self.image(x) != im:
                ctx.fail(oracle, f"{tag}the result has changed since it was returned")
                break


def base_scn(rng, spec, **kw):
    s = {"books": {"a": spec}, "files": {"f.x": "a"}, "faults": [], "sched": gen.gen_sched(rng, steps=gen.est_steps(spec)), "io": gen.gen_io(rng)}
    s.update(kw)
    if rng.random() < 0.02:  # far more shared strings than the sheets use
        spec["sstpad"] = rng.choice((250, 33000, 66000))
        if spec["sstpad"] > 1000:
            s["sched"]["lines"] = []
    s["max_steps"] = gen.steps_budget(s)
    return s


def pick_how(rng):
    return rng.choice(("path", "path", "pathlib", "stream"))


def pick_sheet(rng, spec):
    si = rng.randrange(len(spec["sheets"]))
    return si, (si if rng.random() < 0.6 else spec["sheets"][si]["name"])


class Prop:
    id = ""
    title = ""
    rule = ""
    quick = 1000
    thorough = 20000

    @staticmethod
    def refs(scn) -> list:
        """(mode, book, sheet, options) of the reference runs this scenario needs."""
        if "sheet" not in scn:
            return []
        out = []
        for bk in scn["books"]:
            if scn["books"][bk].get("wild"):
                out.append(("read", bk, scn["sheet"], scn["opts"]))
                if bk == "a" and "iter" in scn or "si" in scn and bk == "a":
                    out.append(("iter", bk, scn["si"], scn["opts"]))
        return out

    @staticmethod
    def nontrivial(scn, res) -> bool:
        return bool(res["switches"] or any(k.startswith("fault:") for k in res["counts"]))


def wild(rng, scn, p=0.22, *, take=True):
    """Now and then the workbook gets mixed columns and blank rows, and the call any options."""
    if rng.random() < p:
        spec = scn["books"]["a"]
        gen.gen_wild(rng, spec)
        scn["opts"] = gen.gen_wild_opts(rng, spec, scn["si"], take=take)
        scn["max_steps"] = gen.steps_budget(scn) * 2
    return scn


def finish(ctx, *, clean=True):
    """Let background work run out (inside the simulation), then the common checks."""
    left = ctx.drain()
    if left:
        ctx.fail("leftover", f"{len(left)} background task(s) never end: {[t.waiting_on for t in left]}")
    if clean:
        ctx.clean()


# --------------------------------------------------------------------------- C01
class C01(Prop):
    id = "C01"
    quick, thorough = 4000, 150000
    rule = (
        "A workbook is generated, one read of a whole sheet is executed with 1-3 storage faults placed inside its reads (error, early end, short read, "
        "flipped/zeroed bytes, truncation, a part cut short under a valid checksum). Non-trivial: a fault fired. Distinct: different event digest."
    )

    @staticmethod
    def gen(rng):
        spec = gen.gen_spec(rng, big=0.06)
        si, sheet = pick_sheet(rng, spec)
        s = base_scn(rng, spec, sheet=sheet, si=si, how=pick_how(rng), opts=gen.gen_opts(rng, spec, si, simple=rng.random() < 0.5))
        wild(rng, s, take=False)
        s["iter"] = int(rng.random() < 0.2)
        s["faults"] = [C01.fault(rng, spec, si) for _ in range(1 if rng.random() < 0.75 else 2)] + gen.gen_stall(rng, spec, 1)
        if len(spec["sheets"]) > 1 and rng.random() < 0.15:  # a sheet list that ends early
            s["iter"] = 1
            s["faults"] = [{"k": "cutpart", "part": rng.choice(("workbook", "workbook", "rels")), "sheet": si, "frac": rng.uniform(0.3, 1), "boundary": int(rng.random() < 0.7)}]
            return s
        if rng.random() < 0.05:  # a part that is there under another name
            s["faults"] = [{"k": "flip", "op": 0, "part": "dir", "frac": rng.random(), "bit": rng.choice((0, 0, 1, 2, 3)), "aim": 1}]
            return s
        if rng.random() < 0.15:  # damage that only a checksum can reveal
            spec["stored"] = 1
            spec["tail"] = rng.choice((0, 20, 400, 2500) if spec["fmt"] == "xlsx" else (0, 400, 7000))
            part = rng.choice(("sheet", "sheet", "sheet", "sst", "sst", "styles", "styles", "workbook"))
            if part != "sheet":
                spec["ptail"] = {part: rng.choice((0, 3, 300, 1500))}
            s["max_steps"] = gen.steps_budget(s)
            s["faults"] = [{"k": "flip", "op": 0, "part": part, "sheet": si, "frac": rng.random(), "bit": rng.randrange(3), "aim": 1}]
        return s

    @staticmethod
    def fault(rng, spec, si):
        x = rng.random()
        part = rng.choice(("sheet", "sheet", "sheet", "sst", "sst", "styles", "workbook", "rels", "dir", None))
        if x < 0.2:
            f = {"k": rng.choice(("eio", "eio", "enomem", "eintr", "sraise")), "op": gen.pick_op(rng, spec), "exc": rng.choice(CB_EXC)}
            if rng.random() < 0.3 and f["k"] == "eio":
                f["sticky"] = 1
            return f
        if x < 0.35:
            return {"k": "eof", "op": gen.pick_op(rng, spec), "sticky": int(rng.random() < 0.7)}
        if x < 0.42:
            return {"k": "short", "op": gen.pick_op(rng, spec), "n": rng.choice((1, 3, 40, 1000))}
        op = rng.choice((0, 0, 3, 6, 10, 14))
        if x < 0.62:
            return {"k": "flip", "op": op, "part": part, "sheet": si, "frac": rng.random(), "bit": rng.randrange(8)}
        if x < 0.7:
            return {"k": "zero", "op": op, "part": part, "sheet": si, "frac": rng.random(), "len": rng.choice((1, 8, 64, 512, 4096))}
        if x < 0.76:
            return {"k": "trunc", "op": op, "part": part, "sheet": si, "frac": rng.random()}
        if x < 0.79:
            o = gen.pick_op(rng, spec)
            return {"k": "badblock", "part": part, "sheet": si, "frac": rng.random(), "len": rng.choice((1, 512)), "op": o}
        return {"k": "cutpart", "part": rng.choice(("sheet", "sheet", "sheet", "sst", "sst", "styles", "workbook", "rels")), "sheet": si, "frac": rng.random(), "boundary": int(rng.random() < 0.6)}

    @staticmethod
    def body(ctx):
        scn = ctx.scn
        spec = ctx.specs["a"]
        src = ctx.source("f.x", scn["how"])
        if scn.get("iter"):
            exp = exp_iter(ctx, spec, scn["si"], scn["opts"])
            cells = []
            try:
                with ctx.workbook(spec["fmt"])(src, **wb_kwargs(ctx, scn["opts"])) as wb:
                    ctx.flag("opened")
                    for c in wb.iter_worksheet(scn["sheet"], **iter_kwargs(scn["opts"])):
                        cells.append(c)
                    names = list(wb.sheets)
                    texts = wb.shared.to_pylist()
                    # the reader's user looks the texts up; a reference to none fails here, and loudly
                    got = [decode_cell(spec["fmt"], c, texts) for c in cells]
                    ok = True
            except BaseException as e:  # noqa: BLE001
                ctx.flag("raised")
                ok = False
                del e
            if ok:
                ctx.flag("returned")
                if got != exp:
                    ctx.fail("wrong-cells", first_diff(got, exp))
                if names != (want := [sh["name"] for sh in spec["sheets"]]):
                    ctx.fail("wrong-sheets", f"{names} instead of {want}")
        else:
            got = ctx.do_read(src, scn["sheet"], ctx.kwargs(scn["opts"]))
            exp = ctx.expect(spec, scn["sheet"], scn["opts"])
            if got[0] == "ok":
                ctx.flag("returned")
                check_table(ctx, got, exp, "wrong-table")
            else:
                ctx.flag("raised")
                if not isinstance(got[1], Exception) and not any(got[1] is e for e in ctx.st.errors):
                    ctx.fail("odd-exception", short(got[1]))
                if not ctx_fired(ctx) and exp[0] == "ok":
                    ctx.fail("spurious", f"no fault fired, yet {short(got[1])}")
            del got
        finish(ctx, clean=False)

    @staticmethod
    def nontrivial(scn, res):
        return any(k.startswith("fault:") and k != "fault:stall" for k in res["counts"])


def ctx_fired(ctx, ignore=("stall", "cb_stall")) -> bool:
    return any(k.startswith("fault:") and k[6:] not in ignore for k in ctx.sim.counts)


# --------------------------------------------------------------------------- C02
class C02(Prop):
    id = "C02"
    quick, thorough = 3200, 120000
    rule = (
        "One read (or cell iteration) of a generated workbook under a random schedule, random latencies and stalls of storage, callback and consumer; no failures. "
        "Non-trivial: at least one task switch or simulated wait. Distinct: different event digest."
    )

    @staticmethod
    def gen(rng):
        spec = gen.gen_spec(rng, big=0.07, huge=0.06)
        si, sheet = pick_sheet(rng, spec)
        s = base_scn(rng, spec, sheet=sheet, si=si, how=pick_how(rng), opts=gen.gen_opts(rng, spec, si, take=rng.random() < 0.2))
        wild(rng, s)
        s["iter"] = int(rng.random() < 0.35)
        s["cb"] = int(rng.random() < 0.5)
        s["faults"] = gen.gen_stall(rng, spec, 2)
        if s["cb"] and rng.random() < 0.5:
            s["faults"].append({"k": "cb_stall", "n": rng.randrange(max(1, book.rows_total(spec["sheets"][si]))), "d": rng.choice((0.01, 100.0))})
        if s["iter"] and rng.random() < 0.5:
            s["pause"] = [[rng.randrange(60), rng.choice((0.001, 1.0, 600.0))] for _ in range(rng.randint(1, 3))]
        return s

    @staticmethod
    def body(ctx):
        scn = ctx.scn
        spec = ctx.specs["a"]
        src = ctx.source("f.x", scn["how"])
        cb = ctx.callback() if scn.get("cb") else None
        if scn.get("iter"):
            exp = exp_iter(ctx, spec, scn["si"], scn["opts"])
            sst = book.shared_table(spec)[0]
            pause = {a: b for a, b in scn.get("pause", ())}
            cells = []
            try:
                with ctx.workbook(spec["fmt"])(src, **wb_kwargs(ctx, scn["opts"])) as wb:
                    for c in wb.iter_worksheet(scn["sheet"], **iter_kwargs(scn["opts"], cb)):
                        if len(cells) in pause:
                            ctx.sim.sleep(pause[len(cells)], "consumer")
                        cells.append(c)
                got = [decode_cell(spec["fmt"], c, sst) for c in cells]
                if got != exp:
                    ctx.fail("wrong-cells", first_diff(got, exp))
            except BaseException as e:  # noqa: BLE001
                ctx.fail("wrong-cells", f"raised {short(e)}")
        else:
            got = ctx.do_read(src, scn["sheet"], ctx.kwargs(scn["opts"], cb))
            check_table(ctx, got, ctx.expect(spec, scn["sheet"], scn["opts"]), "wrong-table")
            del got
        finish(ctx)

    @staticmethod
    def nontrivial(scn, res):
        return bool(res["switches"] or res["counts"].get("latency") or res["counts"].get("fault:stall"))


# --------------------------------------------------------------------------- C03
def gen_failure(rng, spec, si, *, storage=True, xml=True):
    rows = book.rows_total(spec["sheets"][si])
    cells = rows * len(spec["sheets"][si]["cols"])
    x = rng.random()
    if x < 0.28:
        return {"k": "cb_raise", "n": rng.choice((0, rows - 1, rows, rows, rows)) if rng.random() < 0.2 else rng.randrange(rows + 1), "exc": rng.choice(CB_EXC)}
    if x < 0.46:
        return {"k": "pred_raise", "n": rng.randrange(max(1, cells)), "exc": rng.choice(CB_EXC)}
    if x < 0.56:
        return {"k": "put_fail", "n": rng.randrange(max(1, cells + 1))}
    if x < 0.62:
        return {"k": "spawn_fail", "n": 0}
    if x < 0.68:
        return {"k": "alloc_fail", "n": rng.randrange(rng.choice((12, 12, 60)))}
    if x < 0.8 and xml and spec["fmt"] == "xlsx":
        return {"k": "badxml", "part": "sheet", "sheet": si, "row": rng.randrange(rows), "how": rng.choice(("lt", "nul", "mismatch", "amp", "utf8", "dup"))}
    if not storage:
        return {"k": "cb_raise", "n": rng.randrange(rows + 1), "exc": rng.choice(CB_EXC)}
    if x > 0.96:
        return {"k": "open_fail", "n": rng.randrange(2), "errno": rng.choice(("EMFILE", "EACCES"))}
    if rng.random() < 0.4:
        return {"k": "sraise", "op": gen.pick_op(rng, spec), "exc": rng.choice(CB_EXC)}
    return {"k": rng.choice(("eio", "eio", "enomem", "eintr")), "op": gen.pick_op(rng, spec)}


CB_EXC = ("Injected", "Injected", "InjectedBase", "ValueError", "ValueErrorClosed", "AttributeErrorTell", "AttributeErrorSeek", "KeyError", "IndexError", "TypeError", "ArrowInvalid", "EOFError", "OSError", "MemoryError", "KeyboardInterrupt", "SystemExit", "RuntimeError", "BadZipFile", "ExpatError", "QueueEmpty", "RuntimeError", "RuntimeError", "ValueError", "OSError", "KeyError") * 2 + (
    "InterruptedError", "InterruptedError", "BlockingIOError", "TimeoutError", "TimeoutError", "PermissionError", "FileNotFoundError", "BrokenPipeError", "QueueFull", "AssertionError", "AssertionError", "UnicodeDecodeError",
    "RecursionError", "ZeroDivisionError", "NotImplementedError", "StopAsyncIteration", "CancelledError", "ZlibError", "StructError", "NameError", "BufferError", "UserWarning", "ArrowKeyError", "ArrowTypeError",
)
STORAGE_ERR = ("eio", "sraise", "enomem", "eintr", "open_fail", "badblock")


class C03(Prop):
    id = "C03"
    quick, thorough = 4800, 150000
    rule = (
        "One read or iteration with one failing activity: the n-th row callback or predicate call, queue operation, thread creation, allocation or storage read raises, or the sheet XML is "
        "malformed at some row. Non-trivial: the failure fired. Distinct: different event digest."
    )

    @staticmethod
    def gen(rng):
        spec = gen.gen_spec(rng, fmt="xlsx" if rng.random() < 0.7 else "xlsb", big=0.04)
        si, sheet = pick_sheet(rng, spec)
        s = base_scn(rng, spec, sheet=sheet, si=si, how=pick_how(rng), opts=gen.gen_opts(rng, spec, si, simple=rng.random() < 0.5))
        wild(rng, s, take=False)
        s["iter"] = int(rng.random() < 0.4)
        f = gen_failure(rng, spec, si)
        if spec.get("wild") and not s["iter"] and rng.random() < 0.5:
            f = {"k": "alloc_fail", "n": rng.randrange(rng.choice((12, 60)))}
        if f["k"] == "pred_raise":
            s["opts"]["null_values"] = "callable"
        elif f["k"] != "badxml" and not spec.get("wild") and rng.random() < 0.25:
            s["opts"] = gen.gen_opts(rng, spec, si, take=True)
            if f["k"] == "cb_raise" and "take_rows" in s["opts"]:
                f["n"] = rng.randrange(s["opts"]["take_rows"] + s["opts"].get("skip_rows", 0) + 2)
        if f["k"] == "alloc_fail" and rng.random() < 0.5:
            cols = spec["sheets"][si]["cols"]
            head = s["opts"].get("header")
            names = head if isinstance(head, list) else [f"Unnamed. {i}" for i in range(len(cols))] if not head else [f"H{h}.{c.get('hn', i)}" for i, c in enumerate(cols) for h in (0, 1)]
            s["opts"]["dtypes"] = rng.choice(("str", len(cols), names))
            if rng.random() < 0.5:  # the casts come last
                f.update(site="compute.cast", n=rng.randrange(2 * len(cols)))
            s["iter"] = 0
        s["cb"] = int(f["k"] == "cb_raise" or rng.random() < 0.3)
        s["faults"] = [f, *gen.gen_stall(rng, spec, 1)]
        return s

    @staticmethod
    def body(ctx):
        scn = ctx.scn
        spec = ctx.specs["a"]
        cb = ctx.callback() if scn.get("cb") else None
        pred = ctx.predicate()
        sst = book.shared_table(spec)[0]
        cells = []
        exc = None
        table = None
        try:
            src = ctx.source("f.x", scn["how"])
            if scn.get("iter"):
                with ctx.workbook(spec["fmt"])(src, **wb_kwargs(ctx, scn["opts"], pred)) as wb:
                    for c in wb.iter_worksheet(scn["sheet"], **iter_kwargs(scn["opts"], cb)):
                        cells.append(c)
            else:
                from rxls.reader import read

                table = read(src, scn["sheet"], **ctx.kwargs(scn["opts"], cb, pred))
        except BaseException as e:  # noqa: BLE001
            exc = e
        ctx.drain()
        fs = [f for f in ctx.faults if f["k"] not in ("stall", "cb_stall")]
        fired = [f for f in fs if f.get("fired")]
        if any(f["k"] == "badxml" for f in fs):
            want = expat_error(ctx.parts["a"][book.sheet_part(spec, scn["si"])])
            if want is not None:
                ctx.flag("malformed")
                if exc is None:
                    ctx.fail("lost", f"malformed sheet data ({want[0]}) went unreported")
                elif not is_expat(exc) or (exc.code, exc.lineno, exc.offset) != want[1]:
                    ctx.fail("replaced", f"{short(exc)} instead of {want[0]}")
        elif fired:
            f = fired[0]
            ctx.flag("fired:" + f["k"])
            inj = ctx.injected + ctx.st.errors
            if exc is None:
                ctx.fail("lost", f"{f['k']}: {short(inj[0])} never reached the caller; got " + (f"a table of {table.num_rows} rows" if table is not None else f"{len(cells)} cells and a normal end"))
            elif f["k"] in STORAGE_ERR:
                if not any(x is y for x in chain(exc) for y in inj):
                    ctx.fail("replaced", f"{f['k']}: {short(exc)} instead of {short(inj[0])}")
            elif exc is not inj[0]:
                ctx.fail("replaced", f"{f['k']}: {short(exc)} instead of {short(inj[0])}")
        else:
            ctx.flag("not_fired")
            if scn.get("iter"):
                exp = exp_iter(ctx, spec, scn["si"], scn["opts"])
                got = [decode_cell(spec["fmt"], c, sst) for c in cells] if exc is None else short(exc)
                if got != exp:
                    ctx.fail("spurious", first_diff(got, exp) if exc is None else f"raised {got}")
            else:
                check_table(ctx, ("ok", table) if exc is None else ("exc", exc), ctx.expect(spec, scn["sheet"], scn["opts"]), "spurious")
        if exc is not None and cells:
            exp = exp_iter(ctx, spec, scn["si"], scn["opts"])
            got = [decode_cell(spec["fmt"], c, sst) for c in cells]
            if got != exp[: len(got)]:
                ctx.fail("wrong-cells", first_diff(got, exp[: len(got)]))
        del exc
        finish(ctx)

    @staticmethod
    def nontrivial(scn, res):
        return any(k.startswith("fired:") or k == "malformed" for k in res["flags"])


def is_expat(e) -> bool:
    import pyexpat

    return isinstance(e, pyexpat.ExpatError)


def expat_error(data: bytes):
    import pyexpat

    p = pyexpat.ParserCreate()
    try:
        p.ParseFile(_io.BytesIO(data))
    except pyexpat.ExpatError as e:
        return str(e), (e.code, e.lineno, e.offset)
    return None


# --------------------------------------------------------------------------- C04
def gen_chaos(rng, spec, si, n=3):
    out = []
    for _ in range(rng.randint(1, n)):
        x = rng.random()
        if x < 0.45:
            out.append(C01.fault(rng, spec, si))
        elif x < 0.85:
            out.append(gen_failure(rng, spec, si))
        elif x < 0.92:
            out.append({"k": "get_interrupt", "n": rng.randrange(30), "exc": "KeyboardInterrupt"})
        else:
            out.append({"k": rng.choice(("partflip", "partdel", "partbyte", "nopart")), "part": rng.choice(("sheet", "sheet", "sst", "styles", "workbook")), "sheet": si, "frac": rng.random(), "bit": rng.randrange(8), "val": rng.choice((0, 255, 128, 60)), "n": rng.choice((1, 7, 100))})
    return out + gen.gen_stall(rng, spec, 1)


class C04(Prop):
    id = "C04"
    quick, thorough = 4800, 150000
    rule = (
        "A read, or an iteration that the consumer leaves at a random cell, with 1-3 faults of any kind. The step budget is proportional to the size of the workbook; deadlocks (no runnable task, no timer) are "
        "detected exactly. Non-trivial: a fault fired or the consumer left early. Distinct: different event digest."
    )

    @staticmethod
    def gen(rng):
        spec = gen.gen_spec(rng, fmt="xlsx" if rng.random() < 0.65 else "xlsb", big=0.05)
        si, sheet = pick_sheet(rng, spec)
        s = base_scn(rng, spec, sheet=sheet, si=si, how=pick_how(rng), opts=gen.gen_opts(rng, spec, si, take=rng.random() < 0.2))
        if rng.random() < 0.7 and not s["sched"]["lines"]:
            s["sched"]["lines"] = ["/rxls/"]
        s["iter"] = int(rng.random() < 0.5)
        if s["iter"] and rng.random() < 0.7:
            s["leave"] = [rng.choice(("close", "del", "throw", "raise")), rng.randrange(40)]
        s["cb"] = int(rng.random() < 0.5)
        s["faults"] = gen_chaos(rng, spec, si) if rng.random() < 0.85 or not s.get("leave") else []
        if any(f["k"] == "pred_raise" for f in s["faults"]):
            s["opts"]["null_values"] = "callable"
        if any(f["k"] == "cb_raise" for f in s["faults"]):
            s["cb"] = 1
        s["max_steps"] = gen.steps_budget(s)
        if s["iter"] and rng.random() < 0.25:  # several iterations over one open workbook, by one consumer
            s["multi"] = [[rng.choice(("start", "start", "pull", "pull", "pull", "close", "rest")), rng.randrange(3), rng.choice((1, 3, 30)), pick_sheet(rng, spec)[1]] for _ in range(rng.randint(3, 9))]
            s["multi"][0][0] = "start"
            s["max_steps"] *= 1 + sum(x[0] == "start" for x in s["multi"])
            if rng.random() < 0.4:
                s["faults"] = []
        if rng.random() < 0.03:
            gen.flood(rng, s)
            s.pop("multi", None)
        return s

    @staticmethod
    def multi(ctx, src, spec, cb, pred):
        scn = ctx.scn
        with ctx.workbook(spec["fmt"])(src, **wb_kwargs(ctx, scn["opts"], pred)) as wb:
            its = []
            for op, j, n, sheet in scn["multi"]:
                try:
                    if op == "start":
                        its.append(wb.iter_worksheet(sheet, **iter_kwargs(scn["opts"], cb)))
                        j = -1
                    elif its:
                        j %= len(its)
                    if not its:
                        continue
                    if op == "close":
                        its.pop(j).close()
                    elif op == "rest":
                        for _ in its.pop(j):
                            pass
                    else:
                        for _ in range(n):
                            next(its[j], None)
                except BaseException as e:  # noqa: BLE001
                    ctx.flag("part_raised")
                    e.with_traceback(None)
                    del e
            ctx.flag("multi")
            while its:
                its.pop().close()

    @staticmethod
    def body(ctx):
        scn = ctx.scn
        spec = ctx.specs["a"]
        cb = ctx.callback() if scn.get("cb") else None
        try:
            src = ctx.source("f.x", scn["how"])
            if scn.get("multi"):
                C04.multi(ctx, src, spec, cb, ctx.predicate())
            elif scn.get("iter"):
                run_iter(ctx, src, spec, scn["sheet"], scn["opts"], scn.get("leave"), cb, ctx.predicate())
            else:
                from rxls.reader import read

                read(src, scn["sheet"], **ctx.kwargs(scn["opts"], cb, ctx.predicate()))
            ctx.flag("returned")
        except BaseException as e:  # noqa: BLE001
            ctx.flag("raised")
            e.with_traceback(None)
            del e
        forget(ctx)
        left = ctx.drain()
        if left:
            ctx.fail("leftover", f"{len(left)} background task(s) never end: {[t.waiting_on for t in left]}")

    @staticmethod
    def nontrivial(scn, res):
        return any(k.startswith("fault:") for k in res["counts"]) or bool(scn.get("leave") or scn.get("multi"))


class Leave(Exception):
    """The consumer's own exception."""


def run_iter(ctx, src, spec, sheet, opts, leave, cb=None, pred=None, sink=None):
    """Iterate, leaving as told: ["close"|"del"|"throw"|"raise"|"exit", after n cells]."""
    with ctx.workbook(spec["fmt"])(src, **wb_kwargs(ctx, opts, pred)) as wb:
        it = wb.iter_worksheet(sheet, **iter_kwargs(opts, cb))
        n = 0
        if leave and leave[1] == 0 and leave[0] in ("close", "del"):
            if leave[0] == "close":
                it.close()
            del it
            ctx.flag("left")
            return n
        for c in it:
            n += 1
            if sink is not None:
                sink.append(c)
            if leave and n >= leave[1]:
                ctx.flag("left")
                ctx.sim.record("leave", leave[0])
                ctx.sim.point("leave")
                how = leave[0]
                if how == "close":
                    it.close()
                    break
                if how == "throw":
                    try:
                        it.throw(Leave("thrown in"))
                    except Leave:
                        pass
                    break
                if how == "raise":
                    raise Leave("consumer")
                if how == "exit":  # the workbook is closed while the iteration is suspended
                    break
                if how == "interrupt":
                    raise KeyboardInterrupt
                del it
                break
        if leave and leave[0] == "exit":
            keep = [it]
        else:
            keep = []
            it = None
    if keep:
        ctx.sim.point("after-exit")
        if leave[1] % 2:
            keep[0].close()
        keep.clear()
        it = None
    return n


def forget(ctx):
    """Nothing in the harness may keep frames of the call alive."""
    for e in ctx.injected + ctx.st.errors:
        for x in chain(e):
            x.__traceback__ = None
    gc.collect()


# --------------------------------------------------------------------------- C05
class C05(Prop):
    id = "C05"
    quick, thorough = 4400, 150000
    rule = (
        "A read that ends by an injected failure or interrupt, or an iteration that is exhausted, closed, dropped, thrown into, or left by the consumer's exception after n cells, under random schedules. "
        "Checked at once afterwards. Non-trivial: left early or a fault fired. Distinct: different event digest."
    )

    @staticmethod
    def gen(rng):
        spec = gen.gen_spec(rng, fmt="xlsx" if rng.random() < 0.75 else "xlsb", big=0.06)
        si, sheet = pick_sheet(rng, spec)
        s = base_scn(rng, spec, sheet=sheet, si=si, how=pick_how(rng), opts=gen.gen_opts(rng, spec, si, take=rng.random() < 0.15))
        s["cb"] = int(rng.random() < 0.6)
        cells = book.rows_total(spec["sheets"][si]) * len(spec["sheets"][si]["cols"])
        s["faults"] = gen.gen_stall(rng, spec, 2)
        if rng.random() < 0.65:
            s["iter"] = 1
            s["leave"] = [rng.choice(("close", "close", "del", "throw", "raise", "exit", "interrupt")), rng.choice((0, 1, 2, rng.randrange(cells + 2), rng.randrange(cells + 2)))]
            if rng.random() < 0.15:
                s["leave"] = None
            if rng.random() < 0.2:
                s["faults"].append({"k": "get_interrupt", "n": rng.randrange(cells + 1), "exc": "KeyboardInterrupt"})
        else:
            s["iter"] = 0
            x = rng.random()
            if x < 0.3:
                s["faults"].append({"k": "get_interrupt", "n": rng.randrange(cells + 1), "exc": "KeyboardInterrupt"})
            elif x < 0.9:
                s["faults"].append(gen_failure(rng, spec, si))
        if rng.random() < 0.06:  # the file becomes one of the other kind
            s["books"]["b"] = gen.gen_spec(rng, fmt="xlsb" if spec["fmt"] == "xlsx" else "xlsx", rows=rng.randint(1, 9), big=0)
            s["faults"].append({"k": "replace", "name": "f.x", "with": "b", "op": rng.randrange(gen.est_ops(spec) // 2)})
            if s["how"] == "stream" and not s["iter"]:
                s["how"] = "path"
        if rng.random() < 0.06:  # no workbook at all, or one that cannot be read
            s["faults"].append({"k": rng.choice(("nopart", "nopart", "partdel")), "part": rng.choice(("workbook", "workbook", "rels", "styles", "sheet", "sst")), "sheet": si, "frac": 0.3, "n": 20})
        if any(f["k"] == "pred_raise" for f in s["faults"]):
            s["opts"]["null_values"] = "callable"
        if any(f["k"] == "cb_raise" for f in s["faults"]):
            s["cb"] = 1
        if rng.random() < 0.3 and s["cb"]:
            s["faults"].append({"k": "cb_stall", "n": rng.randrange(10), "d": 50.0})
        return s

    @staticmethod
    def body(ctx):
        scn = ctx.scn
        spec = ctx.specs["a"]
        cb = ctx.callback() if scn.get("cb") else None
        pred = ctx.predicate()
        src = None
        held = None
        try:
            src = ctx.source("f.x", scn["how"])
            if scn.get("iter"):
                run_iter(ctx, src, spec, scn["sheet"], scn["opts"], scn.get("leave"), cb, pred)
            else:
                from rxls.reader import read

                read(src, scn["sheet"], **ctx.kwargs(scn["opts"], cb, pred))
            ctx.flag("returned")
        except BaseException as e:  # noqa: BLE001
            ctx.flag("raised")
            held = e
        ctx.sim.hooks.clear()
        if held is not None and not scn.get("iter"):
            # the caller may keep the exception, and with it every frame of the read, for as long as it likes
            h = ctx.st.open_handles()
            if h:
                ctx.fail("handle-left", f"{len(h)} file handle(s) opened by the code are still open while the caller has its {short(held)}")
            if ctx.sim.live_background():
                ctx.fail("thread-left", "background task alive while the caller has the exception")
        if held is not None:
            for x in chain(held):
                x.__traceback__ = None
            held = x = None
        forget(ctx)
        live = ctx.sim.live_background()
        if live:
            ctx.fail("thread-left", f"{len(live)} background task(s) alive after the call ended")
        check_quiet(ctx, cb, src)

    @staticmethod
    def nontrivial(scn, res):
        return bool(res["flags"].get("left") or ctx_faults(res))


def ctx_faults(res):
    return any(k.startswith("fault:") and k not in ("fault:stall", "fault:cb_stall") for k in res["counts"])


def check_quiet(ctx, cb, src=None):
    n = cb.st["n"] if cb else 0
    inside = cb.st["in"] if cb else 0
    if inside:
        ctx.fail("late-callback", "a callback is still executing after the call ended")
    h = ctx.st.open_handles()
    if h:
        ctx.fail("handle-left", f"{len(h)} file handle(s) opened by the code are still open")
    left = ctx.drain()
    if left:
        ctx.fail("leftover", f"{len(left)} background task(s) never end: {[t.waiting_on for t in left]}")
    if cb and cb.st["n"] != n:
        ctx.fail("late-callback", f"{cb.st['n'] - n} callback(s) after the call ended")
    if src is not None and hasattr(src, "closed") and src.closed:
        ctx.fail("stream-closed", "the caller's stream was closed")
    ctx.clean()


# --------------------------------------------------------------------------- C06
class C06(Prop):
    id = "C06"
    quick, thorough = 2400, 80000
    rule = (
        "A history of 3-9 operations in one process (reads, iterations, abandoned iterations, replacements of files) over shared paths and streams; some operations meet transient faults. Every operation is "
        "compared with the model of the file's current version. Non-trivial: at least two reads and (a fault fired, or an abandonment, or a replacement). Distinct: different event digest."
    )

    @staticmethod
    def gen(rng):
        nb = rng.randint(2, 4)
        books = {}
        for i in range(nb):
            b = gen.gen_spec(rng, rows=rng.randint(1, 30) if rng.random() < 0.9 else None, ver=i, big=0, long=rng.random() < 0.3)
            books["abcd"[i]] = b
        if rng.random() < 0.3:
            for b in books.values():
                if rng.random() < 0.7:
                    gen.gen_wild(rng, b)
        temporal = rng.random() < 0.12  # reads that differ in how they take texts for dates
        if temporal:
            for b in books.values():
                gen.gen_dates(rng, b)
        if rng.random() < 0.5:  # a later version of the same file: same shape, other values
            v = dict(books["a"], ver=5)
            books["z"] = v
        files = {"f.x": "a", "g.x": rng.choice(list(books))}
        ops = []
        for _ in range(rng.randint(3, 9)):
            x = rng.random()
            fn = rng.choice(list(files))
            if x < 0.2:
                ops.append({"op": "replace", "file": fn, "book": rng.choice(list(books)), "inplace": int(rng.random() < 0.3)})
                continue
            o = {"op": "read" if x < 0.75 else "iter", "file": fn, "how": rng.choice(("path", "path", "pathlib", "stream", "same")), "seed": rng.randrange(1 << 30)}
            if o["op"] == "iter":
                o["leave"] = [rng.choice(("close", "del", "raise", "throw", "exit")), rng.randrange(30)] if rng.random() < 0.7 else None
            ops.append(o)
        s = {"books": books, "files": files, "ops": ops, "faults": [], "sched": gen.gen_sched(rng), "io": gen.gen_io(rng), "pool": int(rng.random() < 0.4)}
        # options and faults depend on which version the file has at that time
        cur = dict(files)
        for o in ops:
            if o["op"] == "replace":
                cur[o["file"]] = o["book"]
                continue
            spec = books[cur[o["file"]]]
            si, o["sheet"] = pick_sheet(rng, spec)
            o["si"] = si
            o["opts"] = gen.gen_opts(rng, spec, si, take=rng.random() < 0.2, simple=rng.random() < 0.3)
            if spec.get("wild"):
                o["opts"] = gen.gen_wild_opts(rng, spec, si)
            if temporal:
                o["opts"] = gen.gen_date_opts(rng)
            o["cb"] = int(rng.random() < 0.3)
            o["faults"] = []
            if rng.random() < 0.4:
                f = gen_failure(rng, spec, si, xml=False) if rng.random() < 0.7 else {"k": rng.choice(("eof", "short")), "op": gen.pick_op(rng, spec), "n": 3}
                if f["k"] == "pred_raise":
                    o["opts"]["null_values"] = "callable"
                if f["k"] == "cb_raise":
                    o["cb"] = 1
                o["faults"] = [f]
        s["max_steps"] = gen.steps_budget(s) * len(ops)
        return s

    @staticmethod
    def refs(scn):
        cur = dict(scn["files"])
        out = []
        for o in scn["ops"]:
            if o["op"] == "replace":
                if cur.get(o["file"]) is not None and o["book"] in scn["books"]:
                    cur[o["file"]] = o["book"]
                continue
            bk = cur.get(o["file"])
            if bk in scn["books"] and o["si"] < len(scn["books"][bk]["sheets"]):
                out.append(("read", bk, o["sheet"], o["opts"]) if o["op"] == "read" else ("iter", bk, o["si"], o["opts"]))
        return out

    @staticmethod
    def body(ctx):
        scn = ctx.scn
        cur = dict(scn["files"])
        streams = {}
        kept = Kept()
        pool = {} if scn.get("pool") else None
        live = ctx.live_predicate()
        for i, o in enumerate(scn["ops"]):
            bk = cur.get(o["file"])
            if o["op"] == "replace":
                if bk is None or o["book"] not in ctx.specs:
                    continue
                cur[o["file"]] = o["book"]
                if o.get("inplace"):
                    data = ctx.st.versions[o["book"]]
                    ctx.st.overwrite(o["file"], data, 0, len(data), True)
                else:
                    ctx.st.put(o["file"], ctx.st.versions[o["book"]])
                    streams.pop(o["file"], None)
                ctx.flag("replaced")
                continue
            spec = ctx.specs[bk]
            if o["si"] >= len(spec["sheets"]):
                continue
            ctx.arm(o["faults"])
            how = o["how"]
            cb = ctx.callback() if o.get("cb") else None
            pred = live if pool is not None else ctx.predicate()
            kw = ctx.kwargs(o["opts"], cb, pred)
            if pool is not None:  # the caller uses its argument objects again, with other contents
                for k, v in kw.items():
                    if isinstance(v, list):
                        kw[k] = pool.setdefault(k, [])
                        kw[k][:] = v
                    elif isinstance(v, dict):
                        kw[k] = pool.setdefault(k + "{}", {})
                        kw[k].clear()
                        kw[k].update(v)
            keep = {k: repr(v) for k, v in kw.items()}
            tag = f"op {i} ({o['op']} of {o['file']} = {bk}): "
            src = None
            exc = None
            table = None
            cells = []
            try:
                if how == "same":
                    if o["file"] not in streams:
                        streams[o["file"]] = ctx.st.open(o["file"], "user")
                    src = streams[o["file"]]
                else:
                    src = ctx.source(o["file"], how)
                if o["op"] == "read":
                    from rxls.reader import read

                    table = read(src, o["sheet"], **kw)
                else:
                    run_iter(ctx, src, spec, o["sheet"], o["opts"], o.get("leave"), cb, pred, cells)
            except Leave:
                pass
            except BaseException as e:  # noqa: BLE001
                exc = short(e)
                for x in chain(e):
                    x.__traceback__ = None
                x = None
                del e
            faulted = any(f.get("fired") for f in ctx.faults)
            ctx.flag("op_" + ("faulted" if faulted else "clean"))
            if exc is not None and not faulted and not (o["op"] == "read" and ctx.expect(spec, o["sheet"], o["opts"])[0] == "exc"):
                ctx.fail("trace", f"{tag}raised {exc}")
            if exc is None and o["op"] == "read" and not any(f["k"] == "eof" for f in ctx.faults if f.get("fired")):
                check_table(ctx, ("ok", table), ctx.expect(spec, o["sheet"], o["opts"]), "trace", tag)
            if exc is None and o["op"] == "iter" and not faulted:
                exp = exp_iter(ctx, spec, o["si"], o["opts"])
                sst = book.shared_table(spec)[0]
                try:
                    got = [decode_cell(spec["fmt"], c, sst) for c in cells]
                except Exception as e:  # noqa: BLE001
                    got = [short(e)]
                want = exp if not o.get("leave") else exp[: len(got)]
                if o.get("leave") and len(got) < min(o["leave"][1], len(exp)) :
                    ctx.fail("trace", f"{tag}ended after {len(got)} cells")
                if got != want:
                    ctx.fail("trace", tag + first_diff(got, want))
            if {k: repr(v) for k, v in kw.items()} != keep:
                ctx.fail("argument-modified", f"{tag}{keep} became {kw}")
            if hasattr(src, "closed") and src.closed:
                ctx.fail("stream-closed", f"{tag}the caller's stream was closed")
                streams.pop(o["file"], None)
            if table is not None:
                kept.add(tag, table)
            table = None
            if ctx.violations:
                break
        if not ctx.violations:
            kept.check(ctx, "trace")
        del kept
        ctx.arm([])
        forget(ctx)
        left = ctx.drain()
        if left:
            ctx.fail("leftover", f"{len(left)} background task(s) never end")
        del streams

    @staticmethod
    def nontrivial(scn, res):
        f = res["flags"]
        return f.get("op_clean", 0) + f.get("op_faulted", 0) >= 2 and bool(f.get("op_faulted") or f.get("left") or f.get("replaced"))


# --------------------------------------------------------------------------- C07
class C07(Prop):
    id = "C07"
    quick, thorough = 2400, 80000
    rule = (
        "2-4 caller threads read concurrently (same path or different files), or iterate over one shared open workbook in one or several threads; one of them may fail (its own callback, predicate or file) or leave; "
        "in a third of the callers a row callback or predicate itself performs a whole read or iteration. "
        "Every undisturbed one is compared with the model. Non-trivial: at least two switches between callers. Distinct: different event digest."
    )

    @staticmethod
    def gen(rng):
        nb = rng.randint(1, 3)
        books = {"abc"[i]: gen.gen_spec(rng, rows=rng.randint(2, 30), ver=i, big=0, long=rng.random() < 0.2) for i in range(nb)}
        files = {f"{b}.x": b for b in books}
        shared = rng.random() < 0.4
        s = {"books": books, "files": files, "faults": [], "sched": gen.gen_sched(rng), "io": gen.gen_io(rng)}
        if s["sched"]["policy"] in ("none", "first"):
            s["sched"].update(policy="random", p=rng.choice((0.3, 0.05, 0.01)))
        if rng.random() < 0.25:
            for b in books.values():
                gen.gen_wild(rng, b)
        actors = []
        s["mode"] = ("rr" if rng.random() < 0.5 else "threads") if shared else "callers"
        for i in range(rng.randint(2, 4)):
            bk = "a" if shared else rng.choice(list(books))
            spec = books[bk]
            si, sheet = pick_sheet(rng, spec)
            a = {"file": f"{bk}.x", "book": bk, "sheet": sheet, "si": si, "how": rng.choice(("path", "path", "stream")), "opts": gen.gen_opts(rng, spec, si, take=rng.random() < 0.2), "n": 1 if shared or rng.random() < 0.7 else 2, "faults": []}
            if spec.get("wild"):
                a["opts"] = gen.gen_wild_opts(rng, spec, si)
            if shared:
                a["opts"].pop("null_values", None)
            a["cb"] = int(rng.random() < 0.4)
            if rng.random() < 0.25:
                rows = book.rows_total(spec["sheets"][si])
                if rng.random() < 0.7:
                    a["faults"] = [{"k": "cb_raise", "n": rng.randrange(rows + 1), "exc": rng.choice(CB_EXC)}]
                    a["cb"] = 1
                elif not shared:
                    a["opts"]["null_values"] = "callable"
                    a["faults"] = [{"k": "pred_raise", "n": rng.randrange(rows + 1), "exc": rng.choice(CB_EXC)}]
            if shared and rng.random() < 0.3:
                a["leave"] = rng.randrange(20)
            if rng.random() < 0.3:
                # a whole read (or iteration) from inside a callback or predicate of this one
                nb2 = bk if shared or rng.random() < 0.4 else rng.choice(list(books))
                sp2 = books[nb2]
                si2, sheet2 = pick_sheet(rng, sp2)
                o2 = gen.gen_wild_opts(rng, sp2, si2) if sp2.get("wild") else gen.gen_opts(rng, sp2, si2, take=rng.random() < 0.2)
                if shared:
                    o2.pop("null_values", None)
                rows = book.rows_total(spec["sheets"][si])
                a["nest"] = {"file": f"{nb2}.x", "book": nb2, "sheet": sheet2, "si": si2, "how": rng.choice(("path", "stream")), "opts": o2, "cb": int(rng.random() < 0.4), "faults": [], "n": rng.randrange(min(rows, 12) + 1), "via": "cb"}
                if not shared and rng.random() < 0.35:
                    a["nest"]["via"] = "pred"
                    a["opts"]["null_values"] = "callable"
                else:
                    a["cb"] = 1
                if rng.random() < 0.25:
                    a["nest"].update(cb=1, faults=[{"k": "cb_raise", "n": rng.randrange(12), "exc": rng.choice(CB_EXC)}])
            actors.append(a)
        s["actors"] = actors
        if not shared and nb > 1 and rng.random() < 0.35:
            f = "a.x"
            s["faults"] = [{"k": rng.choice(("eio", "eof", "enomem", "sraise")), "op": rng.randrange(40), "file": f, "sticky": rng.randrange(2), "exc": rng.choice(CB_EXC)}]
        s["wbopts"] = {"null_values": gen.gen_null(rng, spec)} if rng.random() < 0.4 else {}
        s["rrseed"] = rng.randrange(1 << 30)
        s["max_steps"] = gen.steps_budget(s) * (len(actors) + 1 + sum("nest" in a for a in actors))
        return s

    @staticmethod
    def refs(scn):
        acts = scn["actors"] + [a["nest"] for a in scn["actors"] if a.get("nest")]
        if scn["mode"] == "callers":
            return [("read", a["book"], a["sheet"], a["opts"]) for a in acts]
        return [("iter", "a", a["si"], dict(a["opts"], **scn.get("wbopts", {}))) for a in acts]

    @staticmethod
    def nested(ctx, a, go):
        """What a callback does on its n-th call: go(nest), once."""
        x = a.get("nest")
        if not x:
            return None
        done = []

        def on_call(n):
            if n == x["n"] and not done:
                done.append(1)
                ctx.flag("nested")
                ctx.sim.count("nested")
                go(x)

        return on_call

    @staticmethod
    def body(ctx):
        scn = ctx.scn
        ctx.kept = Kept()
        if scn["mode"] == "callers":
            bodies = [lambda a=a, i=i: C07.caller(ctx, a, i) for i, a in enumerate(scn["actors"])]
            run_tasks(ctx, bodies)
        else:
            spec = ctx.specs["a"]
            try:
                with ctx.workbook(spec["fmt"])("a.x", **wb_kwargs(ctx, scn.get("wbopts", {}))) as wb:
                    if scn["mode"] == "threads":
                        run_tasks(ctx, [lambda a=a, i=i: C07.iterate(ctx, wb, spec, a, i) for i, a in enumerate(scn["actors"])])
                    else:
                        C07.round_robin(ctx, wb, spec)
            except Exception as e:  # noqa: BLE001
                ctx.fail("disturbed", f"workbook: {short(e)}")
        ctx.kept.check(ctx, "disturbed")
        forget(ctx)
        finish(ctx)

    @staticmethod
    def caller(ctx, a, i):
        spec = ctx.specs[a["book"]]
        for j in range(a["n"]):
            fs = [dict(f) for f in a["faults"]] if not j else []
            inside = C07.nested(ctx, a, lambda x: C07.caller(ctx, dict(x, n=1), f"{i} (nested)"))
            via = (a.get("nest") or {}).get("via")
            cb = ctx.callback(fs, on_call=inside if via == "cb" else None) if a["cb"] else None
            pred = ctx.predicate(fs, on_call=inside if via == "pred" else None)
            ninj = len(ctx.st.errors)
            try:
                src = ctx.source(a["file"], a["how"])
            except OSError:
                continue
            got = ctx.do_read(src, a["sheet"], ctx.kwargs(a["opts"], cb, pred))
            own = any(f.get("fired") for f in fs)
            filef = any(f.get("fired") and f.get("file") == a["file"] for f in ctx.faults)
            tag = f"caller {i}: "
            if own:
                ctx.flag("own_fault")
                inj = [f["_exc"] for f in fs if f.get("_exc") is not None]
                if got[0] == "ok":
                    ctx.fail("disturbed", tag + "its own failure went unreported")
                elif not any(got[1] is e for e in inj):
                    ctx.fail("disturbed", f"{tag}{short(got[1])} instead of its own failure")
            elif filef:
                ctx.flag("file_fault")
                if got[0] == "ok":
                    check_table(ctx, got, ctx.expect(spec, a["sheet"], a["opts"]), "disturbed", tag)
            else:
                check_table(ctx, got, ctx.expect(spec, a["sheet"], a["opts"]), "disturbed", tag)
            if cb and cb.st["overlap"]:
                ctx.fail("overlap", tag + "callbacks overlap")
            if got[0] == "ok":
                ctx.kept.add(tag, got[1])
            del got, ninj

    @staticmethod
    def merged(ctx, a):
        o = dict(a["opts"])
        o.update(ctx.scn.get("wbopts", {}))
        return o

    @staticmethod
    def iterate(ctx, wb, spec, a, i):
        fs = [dict(f) for f in a["faults"]]
        cb = ctx.callback(fs, on_call=C07.nested(ctx, a, lambda x: C07.iterate(ctx, wb, spec, x, f"{i} (nested)"))) if a["cb"] else None
        cells = []
        exc = None
        try:
            it = wb.iter_worksheet(a["sheet"], **iter_kwargs(a["opts"], cb))
            for c in it:
                cells.append(c)
                ctx.sim.point("consumer")
                if a.get("leave") is not None and len(cells) > a["leave"]:
                    it.close()
                    break
        except BaseException as e:  # noqa: BLE001
            exc = e
        it = None
        C07.judge(ctx, spec, a, i, fs, cells, exc)

    @staticmethod
    def judge(ctx, spec, a, i, fs, cells, exc):
        exp = exp_iter(ctx, spec, a["si"], C07.merged(ctx, a))
        sst = book.shared_table(spec)[0]
        try:
            got = [decode_cell(spec["fmt"], c, sst) for c in cells]
        except Exception as e:  # noqa: BLE001
            got = [short(e)]
        own = any(f.get("fired") for f in fs)
        tag = f"iterator {i}: "
        if own and a.get("leave") is None:
            ctx.flag("own_fault")
            if exc is None or not any(exc is f.get("_exc") for f in fs):
                ctx.fail("disturbed", f"{tag}{short(exc) if exc else 'a normal end'} instead of its own failure")
        elif exc is not None and not own:
            ctx.fail("disturbed", f"{tag}raised {short(exc)}")
        partial = own or a.get("leave") is not None
        want = exp[: len(got)] if partial else exp
        if got != want:
            ctx.fail("disturbed", tag + first_diff(got, want))

    @staticmethod
    def round_robin(ctx, wb, spec):
        import random

        rng = random.Random(ctx.scn["rrseed"])
        its = []
        for i, a in enumerate(ctx.scn["actors"]):
            fs = [dict(f) for f in a["faults"]]
            cb = ctx.callback(fs, on_call=C07.nested(ctx, a, lambda x, i=i: C07.iterate(ctx, wb, spec, x, f"{i} (nested)"))) if a["cb"] else None
            its.append([i, a, fs, wb.iter_worksheet(a["sheet"], **iter_kwargs(a["opts"], cb)), []])
        live = list(its)
        while live:
            x = live[rng.randrange(len(live))]
            i, a, fs, it, cells = x
            exc = None
            end = False
            try:
                for _ in range(rng.choice((1, 1, 3, 20))):
                    cells.append(next(it))
                    if a.get("leave") is not None and len(cells) > a["leave"]:
                        it.close()
                        end = True
                        break
            except StopIteration:
                end = True
            except BaseException as e:  # noqa: BLE001
                exc = e
                end = True
            if end:
                live.remove(x)
                x[3] = None
                C07.judge(ctx, spec, a, i, fs, cells, exc)
                exc = None
        del its, it, x

    @staticmethod
    def nontrivial(scn, res):
        return res["switches"] >= 2 or scn["mode"] == "rr"


def run_tasks(ctx, bodies):
    """Run harness bodies as simulated threads and wait for all of them."""
    s = ctx.sim
    ts = []
    for b in bodies:
        n = len(s.tasks)
        s.start_thread(lambda b=b: guarded(ctx, b), ())
        ts.append(next(t for t in s.tasks[n:] if t.pythread is None))
    for t in ts:
        s.join_task(t)


def guarded(ctx, b):
    try:
        b()
    except BaseException as e:  # noqa: BLE001
        import traceback

        from . import ctx as C

        if C.from_repo(e):
            ctx.fail("unexpected", f"raised {type(e).__name__}: {str(e)[:200]}")
        else:
            ctx.harness_errors.append(traceback.format_exc())
        del e


# --------------------------------------------------------------------------- C08
class C08(Prop):
    id = "C08"
    quick, thorough = 3000, 120000
    rule = (
        "A whole-sheet read during which the file is replaced (rename) or overwritten in place (possibly torn, in several pieces) by another version with different or identical layout. The outcome must be the table "
        "of one version or an exception. Non-trivial: the change happened during the read. Distinct: different event digest."
    )

    @staticmethod
    def gen(rng):
        a = gen.gen_spec(rng, ver=1, big=0.05, rows=rng.randint(5, 200), long=rng.random() < 0.3)
        if rng.random() < 0.75:
            a["stored"] = int(rng.random() < 0.7)
            b = dict(a, ver=2)  # same layout (same digit widths), other values
            if rng.random() < 0.5:  # the same formats at other places of the style table
                b["rot"] = rng.randint(0, 4)
            if rng.random() < 0.3:
                b = dict(b, sheets=[dict(s, nrows=max(1, s["nrows"] + rng.choice((-1, 1, 5)))) for s in b["sheets"]])
        else:
            b = gen.gen_spec(rng, fmt=a["fmt"] if rng.random() < 0.8 else None, ver=2, big=0.05)
        si, sheet = pick_sheet(rng, a)
        if si >= len(b["sheets"]):
            si, sheet = 0, 0
        s = base_scn(rng, a, sheet=sheet, si=si, how=rng.choice(("path", "path", "pathlib", "stream")), opts=gen.gen_opts(rng, a, si, simple=rng.random() < 0.6))
        s["books"]["b"] = b
        if rng.random() < 0.2:
            gen.gen_wild(rng, a)
            if b["fmt"] == a["fmt"]:
                b["sheets"] = [dict(x, nrows=y["nrows"]) for x, y in zip(a["sheets"], b["sheets"])] + b["sheets"][len(a["sheets"]) :]
            b["wild"] = 1
            s["opts"] = gen.gen_wild_opts(rng, a, si)
        s["opts"].pop("take_rows", None)
        n = gen.est_ops(a)
        x = rng.random()
        if x < 0.3:
            s["faults"] = [{"k": "replace", "name": "f.x", "with": "b", "op": rng.randrange(n)}]
        else:
            # pieces, in order, at increasing operations
            k = rng.choice((1, 1, 2, 3))
            ops = sorted(rng.randrange(n) for _ in range(k))
            cuts = sorted(rng.random() for _ in range(2 * k)) if rng.random() < 0.7 else [j / (2 * k) for j in range(2 * k)]
            fs = []
            for j, op in enumerate(ops):
                lo, hi = cuts[2 * j], cuts[2 * j + 1]
                if k == 1 and rng.random() < 0.6:
                    lo, hi = rng.choice(((0, hi), (lo, 1), (0, 1)))
                fs.append({"k": "overwrite", "name": "f.x", "with": "b", "op": op, "lo": lo, "hi": hi, "trunc": int(hi == 1), "part": rng.choice((None, None, "sheet", "sst", "styles")), "sheet": si})
            s["faults"] = fs
        s["max_steps"] = gen.steps_budget(s)
        return s

    @staticmethod
    def body(ctx):
        scn = ctx.scn
        data = ctx.st.versions["b"]
        for fs in ctx.st.at.values():
            for f in fs:
                if f["k"] == "overwrite":
                    lo, hi = 0, len(data)
                    if f.get("part"):
                        nm = ctx.part_name("b", f["part"], min(f["sheet"], len(ctx.specs["b"]["sheets"]) - 1))
                        for n, x, y in book.layout(data):
                            if n == nm:
                                lo, hi = x, y
                        f["trunc"] = False
                    f["start"], f["stop"] = lo + int(f["lo"] * (hi - lo)), lo + int(f["hi"] * (hi - lo))
        src = ctx.source("f.x", scn["how"])
        got = ctx.do_read(src, scn["sheet"], ctx.kwargs(scn["opts"]))
        fired = ctx_fired(ctx)
        if fired:
            ctx.flag("changed")
        if got[0] == "exc":
            ctx.flag("raised")
            if not fired and ctx.expect(ctx.specs["a"], scn["sheet"], scn["opts"])[0] == "ok":
                ctx.fail("spurious", short(got[1]))
        else:
            diffs = []
            for bk in ("a", "b") if fired else ("a",):
                exp = ctx.expect(ctx.specs[bk], scn["sheet"], scn["opts"])
                if exp[0] == "exc":
                    diffs.append(f"{bk}: model {exp[1]}")
                    continue
                try:
                    d = book.same_table(got[1], exp[1])
                except Exception as e:  # noqa: BLE001
                    d = short(e)
                if d is None:
                    ctx.flag("saw_" + bk)
                    diffs = []
                    break
                diffs.append(f"{bk}: {d}")
            if diffs:
                ctx.fail("mixed", "; ".join(diffs))
        del got
        forget(ctx)
        finish(ctx, clean=False)

    @staticmethod
    def nontrivial(scn, res):
        return bool(res["flags"].get("changed"))


# --------------------------------------------------------------------------- C09
SIZES = (0, 1, 2, 5, 9, 100, 126, 127, 128, 129, 255, 300, 5000, 16383, 16384, 16385, 70000)


class C09(Prop):
    id = "C09"
    quick, thorough = 12000, 250000
    rule = (
        "A sequence of 0-12 records (sizes around every length-encoding boundary) is dumped by the code, the stream is cut at a chosen byte, and scanned through a device that returns data in arbitrary small amounts, "
        "may be unable to seek, and may fail; ids selected at random. Refinement against a list. Non-trivial: at least one record. Distinct: different (lengths, cut, selection, device) tuple digest."
    )

    @staticmethod
    def gen(rng):
        n = rng.randint(0, 12)
        recs = []
        for _ in range(n):
            if rng.random() < 0.5:
                id = rng.choice((0, 1, 2, 7, 0x7F, rng.randrange(128)))
            else:
                id = (0x80 | rng.randrange(128)) | rng.choice((rng.randrange(128), rng.randrange(256), 0, 1, 0xFF)) << 8
            sz = rng.choice(SIZES) if rng.random() < 0.6 else rng.randrange(300)
            if sz > 2000 and rng.random() < 0.6:
                sz = rng.randrange(140)
            recs.append([id, sz, rng.randrange(1 << 20)])
        if rng.random() < 0.01:
            recs.append([5, rng.choice((0x1FFFFF, 0x200000, 0x200001)), 1])
        ids = sorted({r[0] for r in recs} | {3, 0x181})
        only = None
        if rng.random() < 0.6:
            only = rng.sample(ids, rng.randint(1, len(ids)))
            if rng.random() < 0.3:  # ids that look alike
                i = rng.choice(ids)
                only = sorted({i & 0x7F, i >> 8, i ^ 0x80, i & 0xFF, i & 0x7F | (i & 0x7F00) >> 1, i ^ 0x8000} - ({i} if rng.random() < 0.7 else set()))
        dev = rng.choice(("bytesio", "sim", "sim", "sim"))
        s = {"books": {}, "recs": recs, "only": only, "cut": rng.random() if rng.random() < 0.7 else 1.0, "cutrel": rng.choice((-3, -2, -1, 0, 1, 2, 3)) if rng.random() < 0.6 else None, "dev": dev, "faults": [], "sched": {"policy": "none", "lines": []}, "seek": int(rng.random() < 0.6), "amount": rng.choice((1, 2, 3, 7, 64, 4096, 0, 0)), "amseed": rng.randrange(1 << 20), "dumpto": rng.choice(("bytesio", "binary"))}
        total = sum(r[1] for r in recs)
        if total > 12000 and s["amount"]:
            s["amount"] = max(s["amount"], 64 if total < 300000 else 4096)
        if rng.random() < 0.25 and dev == "sim":
            s["err"] = [rng.choice(("eio", "eio", "eintr", "enomem", "IndexError", "BadZipFile")), rng.randrange(1, 40)]
        if rng.random() < 0.15:
            s["list_only"] = 1
        if rng.random() < 0.15:  # the scanner that numba would compile
            s["compiled"] = 1
            for r in recs:
                r[0] &= 0x7FFF
            if only is not None:
                s["only"] = [i & 0x7FFF for i in only]
        return s

    @staticmethod
    def payload(sz, seed):
        return bytes((seed + i * 7 + (i >> 8)) & 0xFF for i in range(sz)) if sz < 3000 else (bytes((seed + i) & 0xFF for i in range(1000)) * (sz // 1000 + 1))[:sz]

    @staticmethod
    def body(ctx):
        from rxls.biff import dump_sz, record, scan_biff

        scn = ctx.scn
        if scn.get("compiled"):
            m = compiled_biff()
            if m is not None:
                ctx.flag("compiled_branch")
                scan_biff = m.scan_biff
        recs = [(id, C09.payload(sz, seed)) for id, sz, seed in scn["recs"]]
        out = _io.BytesIO()
        ends = []
        try:
            for id, data in recs:
                r = record.from_data(id, data[: len(data) // 2], data[len(data) // 2 :])
                if scn["dumpto"] == "bytesio":
                    r.dump(out)
                else:
                    out.write(r.as_binary())
                ends.append(out.tell())
                if dump_sz(len(data)) != r.as_binary()[2 if id & 0x80 else 1 : -len(data) or None]:
                    ctx.fail("dump", f"size field of {len(data)} bytes")
        except Exception as e:  # noqa: BLE001
            ctx.fail("dump", f"dump raised {short(e)}")
            return
        blob = out.getvalue()
        cut = int(scn["cut"] * len(blob))
        if scn["cutrel"] is not None and ends:
            j = min(range(len(ends)), key=lambda i: abs(ends[i] - cut))
            cut = max(0, min(len(blob), ends[j] + scn["cutrel"]))
        blob = blob[:cut]
        n = sum(e <= cut for e in ends)
        if n < len(ends):
            ctx.sim.count("fault:torn")
        only = None if scn["only"] is None else (list(scn["only"]) if scn.get("list_only") else set(scn["only"]))
        exp = [(id, d) for id, d in recs[:n] if only is None or id in only]
        dev = _io.BytesIO(blob) if scn["dev"] == "bytesio" else Device(ctx, blob, scn)
        got = []
        exc = None
        try:
            for r in scan_biff(dev, only):
                got.append((int(r.rec_id), bytes(r.data)))
                if len(got) > len(recs) + 1:
                    break
        except Exception as e:  # noqa: BLE001
            exc = e
        inj = getattr(dev, "raised", None)
        if inj is not None:
            ctx.sim.count("fault:" + scn["err"][0])
            ctx.flag("read_error")
            if exc is None:
                ctx.fail("error-lost", f"{short(inj)} was taken for the end after {len(got)} of {len(exp)} records")
            elif exc is not inj:
                ctx.fail("error-lost", f"{short(exc)} instead of {short(inj)}")
            if got != exp[: len(got)]:
                ctx.fail("records", C09.diff(got, exp[: len(got)]))
        elif exc is not None:
            ctx.fail("records", f"raised {short(exc)} after {len(got)} of {len(exp)} records")
        elif got != exp:
            ctx.fail("records", C09.diff(got, exp))
        ctx.sim.record("scan", (len(got), cut, scn["amount"], scn["seek"]))

    @staticmethod
    def diff(got, exp):
        for i, (a, b) in enumerate(zip(got, exp)):
            if a != b:
                return f"record {i}: id {a[0]:#x} with {len(a[1])} bytes instead of id {b[0]:#x} with {len(b[1])} bytes"
        return f"{len(got)} records instead of {len(exp)}"

    @staticmethod
    def nontrivial(scn, res):
        return len(scn["recs"]) > 0


def compiled_biff():
    """rxls.biff as it is where numba is installed, with a stand-in for numba that compiles nothing."""
    import functools
    import importlib.util
    import inspect
    import sys
    import rxls.biff

    def as_is(f):
        if not inspect.isgeneratorfunction(f):
            return f

        @functools.wraps(f)
        def run(*a):
            try:
                yield from f(*a)
            except RuntimeError as e:  # a compiled generator may end by StopIteration
                if not isinstance(e.__cause__, StopIteration):
                    raise

        return run

    nb = mock.MagicMock(name="numba")
    nb.njit = lambda *a, **k: as_is(a[0]) if len(a) == 1 and not k and inspect.isfunction(a[0]) else as_is
    nb.jit = nb.njit
    core = sys.modules["rxls.core"]
    had = core.NUMBA_AVAILABLE
    try:
        with mock.patch.dict(sys.modules, {"numba": nb}):
            core.NUMBA_AVAILABLE = True
            spec = importlib.util.spec_from_file_location("rxls.biff_compiled", rxls.biff.__file__)
            m = importlib.util.module_from_spec(spec)
            spec.loader.exec_module(m)
        return m
    except Exception:  # noqa: BLE001
        return None  # it needs more of numba than a stand-in can give
    finally:
        core.NUMBA_AVAILABLE = had


class Device(_io.RawIOBase):
    """A byte stream that returns what it likes, may not seek, may fail."""

    def __init__(self, ctx, data, scn):
        import random

        self.ctx, self.data, self.pos = ctx, data, 0
        self.amount = scn["amount"]
        self.rng = random.Random(scn["amseed"])
        self.can = bool(scn["seek"])
        self.err = scn.get("err")
        self.nread = 0
        self.raised = None

    def readable(self):
        return True

    def seekable(self):
        return self.can

    def seek(self, off, whence=0):
        if not self.can:
            raise _io.UnsupportedOperation("seek")
        self.pos = off if whence == 0 else self.pos + off if whence == 1 else len(self.data) + off
        return self.pos

    def tell(self):
        return self.pos

    def read(self, n=-1):
        self.nread += 1
        if self.err and self.nread == self.err[1]:
            k = self.err[0]
            import errno
            import zipfile

            self.raised = {"eio": OSError(errno.EIO, "injected"), "eintr": InterruptedError(errno.EINTR, "injected"), "enomem": MemoryError("injected"), "IndexError": IndexError("injected"), "BadZipFile": zipfile.BadZipFile("injected")}[k]
            raise self.raised
        left = max(0, len(self.data) - self.pos)
        n = left if n is None or n < 0 else min(n, left)
        if self.amount and n > 1:
            m = max(1, min(n, self.rng.randint(1, self.amount)))
            if m < n:
                self.ctx.sim.count("fault:short")
            n = m
        d = self.data[self.pos : self.pos + n]
        self.pos += len(d)
        return d

    def readinto(self, b):
        d = self.read(len(b))
        b[: len(d)] = d
        return len(d)


# --------------------------------------------------------------------------- C10
class C10(Prop):
    id = "C10"
    quick, thorough = 3200, 100000
    rule = (
        "The same read or iteration is executed calmly and under a random schedule with stalls; the number of row callbacks must agree, and each delivered cell is preceded by the callbacks of its row. "
        "Non-trivial: at least one task switch or wait. Distinct: different event digest."
    )

    @staticmethod
    def gen(rng):
        spec = gen.gen_spec(rng, big=0.05, long=rng.random() < 0.2)
        si, sheet = pick_sheet(rng, spec)
        s = base_scn(rng, spec, sheet=sheet, si=si, how=pick_how(rng), opts=gen.gen_opts(rng, spec, si, take=rng.random() < 0.4))
        wild(rng, s, 0.15)
        s["iter"] = int(rng.random() < 0.6)
        rows = book.rows_total(spec["sheets"][si])
        s["faults"] = gen.gen_stall(rng, spec, 2) + [{"k": "cb_stall", "n": rng.randrange(rows + 1), "d": rng.choice((0.01, 10.0))} for _ in range(rng.randint(0, 2))]
        if s["iter"] and rng.random() < 0.4:
            s["pause"] = [[rng.randrange(60), rng.choice((0.001, 1.0, 600.0))] for _ in range(rng.randint(1, 3))]
        if s["iter"] and rng.random() < 0.15:
            s["leave"] = rng.randrange(1, 30)
        return s

    calm = True

    @staticmethod
    def body(ctx):
        scn = ctx.scn
        spec = ctx.specs["a"]
        src = ctx.source("f.x", scn["how"])
        cb = ctx.callback()
        rows = set()
        exp = exp_iter(ctx, spec, scn["si"], scn["opts"])
        nrows = len({c[0] for c in exp})
        if scn.get("iter"):
            pause = {a: b for a, b in scn.get("pause", ())}
            n = 0
            try:
                with ctx.workbook(spec["fmt"])(src, **wb_kwargs(ctx, scn["opts"])) as wb:
                    it = wb.iter_worksheet(scn["sheet"], **iter_kwargs(scn["opts"], cb))
                    for c in it:
                        rows.add(c.row)
                        if cb.st["n"] < len(rows):
                            ctx.fail("late", f"cell of delivered row {len(rows)} received after {cb.st['n']} callback(s)")
                            break
                        if n in pause:
                            ctx.sim.sleep(pause[n], "consumer")
                        n += 1
                        if n == scn.get("leave"):
                            it.close()
                            break
                    it = None
            except BaseException as e:  # noqa: BLE001
                ctx.fail("raised", short(e))
            ended = n != scn.get("leave")
        else:
            got = ctx.do_read(src, scn["sheet"], ctx.kwargs(scn["opts"], cb))
            if got[0] == "exc" and ctx.expect(spec, scn["sheet"], scn["opts"])[0] == "ok":
                ctx.fail("raised", short(got[1]))
            ended = got[0] == "ok"
            del got
        count = cb.st["n"]
        if cb.st["overlap"]:
            ctx.fail("overlap", f"{cb.st['overlap']} callback(s) started while another was running")
        ctx.drain()
        if ended and not ctx.violations:
            if cb.st["n"] < nrows:
                ctx.fail("too-few", f"{cb.st['n']} callbacks for {nrows} delivered rows")
            if cb.st["n"] != count:
                ctx.fail("late", f"{cb.st['n'] - count} callback(s) after the call ended")
            ctx.answers["count"] = count
        finish(ctx)

    @staticmethod
    def compare(ctx, calm):
        """`calm`: answers of the same scenario without faults, latency and preemption."""
        a, b = ctx.answers.get("count"), calm.get("count")
        if a is not None and b is not None and a != b:
            ctx.fail("count", f"{a} callbacks instead of {b}")

    @staticmethod
    def nontrivial(scn, res):
        return bool(res["switches"] or res["counts"].get("latency") or res["counts"].get("fault:stall"))


# --------------------------------------------------------------------------- C11
class C11(Prop):
    id = "C11"
    quick, thorough = 3800, 100000
    rule = (
        "On one open workbook 3-9 requests (sheet list, shared strings, styles, whole, partial, suspended, failed iterations of any sheet) in random order, some meeting transient storage errors. Every answer is compared with the "
        "answer the same request gets as the first one on a fresh workbook, and with the model. Non-trivial: at least three requests. Distinct: different event digest."
    )

    @staticmethod
    def gen(rng):
        many = rng.random() < 0.12  # shared strings longer than a buffer
        spec = gen.gen_spec(rng, rows=rng.choice((150, 400)) if many else rng.randint(1, 25), sheets=1 if many else rng.choice((1, 2, 3)), big=0, long=many or rng.random() < 0.2)
        if many:
            spec["sheets"][0]["cols"][0].update(k="s", len=rng.choice((0, 40)))
        for sh in spec["sheets"]:  # null texts among the shared strings matter here
            for ci, c in enumerate(sh["cols"]):
                if ci and rng.random() < 0.5:
                    c["k"] = "s"
                    c["nv"] = rng.choice((4, 5))
        s = base_scn(rng, spec)
        s["wbopts"] = {"null_values": gen.gen_null(rng, spec)} if rng.random() < 0.6 else {}
        if rng.random() < 0.2:
            gen.gen_wild(rng, spec)
        ops = []
        for _ in range(rng.randint(3, 9)):
            x = rng.random()
            if x < 0.5:
                o = {"op": rng.choice(("sheets", "shared", "styles"))}
            else:
                si, sheet = pick_sheet(rng, spec)
                io = {k: v for k, v in gen.gen_opts(rng, spec, si, take=rng.random() < 0.3).items() if k in ITER_OPTS}
                o = {"op": "iter", "sheet": sheet, "si": si, "opts": io}
                y = rng.random()
                if y < 0.25:
                    o["leave"] = rng.randrange(20)
                elif y < 0.5:
                    o["suspend"] = rng.randrange(20)
                elif y < 0.6:
                    o["sheet"] = rng.choice((99, "no such sheet"))
                    o["bad"] = 1
            if rng.random() < 0.3:
                x = rng.random()
                if x < 0.5:
                    f = {"k": rng.choice(("eio", "enomem", "eof", "sraise")), "op": rng.randrange(12 if many else 6), "exc": rng.choice(CB_EXC)}
                elif x < 0.8 and s["wbopts"].get("null_values") == "callable":
                    f = {"k": "pred_raise", "n": rng.randrange(rng.choice((3, 40))), "exc": "Injected"}
                elif x < 0.9:
                    f = {"k": "alloc_fail", "n": rng.randrange(3)}
                else:
                    f = {"k": rng.choice(("put_fail", "spawn_fail")), "n": rng.randrange(2)}
                o["faults"] = [f]
            ops.append(o)
        s["ops"] = ops
        s["max_steps"] = gen.steps_budget(s) * 3
        return s

    @staticmethod
    def refs(scn):
        return [("iter", "a", o["si"], dict(o["opts"], **scn["wbopts"])) for o in scn["ops"] if o["op"] == "iter"]

    @staticmethod
    def norm(kind, v):
        if kind == "shared":
            return v.to_pylist()
        if kind == "sheets":
            return dict(v)
        if kind == "styles":
            return dict(v) if isinstance(v, dict) else set(v)
        return v

    @staticmethod
    def body(ctx):
        scn = ctx.scn
        spec = ctx.specs["a"]
        cls = ctx.workbook(spec["fmt"])
        sst = book.shared_table(spec)[0]
        susp = []
        wb = cls("f.x", **wb_kwargs(ctx, scn["wbopts"], ctx.live_predicate()))
        wb.__enter__()
        try:
            for i, o in enumerate(scn["ops"]):
                ctx.arm([dict(f) for f in o.get("faults", ())])
                tag = f"request {i} ({o['op']}): "
                cells = []
                exc = None
                v = None
                try:
                    if o["op"] == "iter":
                        it = wb.iter_worksheet(o["sheet"], **iter_kwargs(o["opts"]))
                        stop = o.get("leave", o.get("suspend"))
                        for c in it:
                            cells.append(c)
                            if stop is not None and len(cells) > stop:
                                break
                        if "suspend" in o and stop is not None and len(cells) > stop:
                            susp.append((i, o, it, cells))
                        else:
                            it.close()
                        it = None
                    else:
                        v = C11.norm(o["op"], getattr(wb, o["op"]))
                except BaseException as e:  # noqa: BLE001
                    exc = e
                faulted = any(f.get("fired") for f in ctx.faults)
                ctx.arm([])
                ctx.flag("req")
                if faulted:
                    ctx.flag("req_faulted")
                    for x in susp:  # their background work may be the one that was hit
                        x[1]["tainted"] = 1
                    x = None
                if exc is not None:
                    if o.get("bad"):
                        if not isinstance(exc, (IndexError, KeyError)) and not faulted:
                            ctx.fail("history", f"{tag}{short(exc)}")
                    elif not faulted:
                        ctx.fail("history", f"{tag}raised {short(exc)}")
                    for x in chain(exc):
                        x.__traceback__ = None
                    exc = x = None
                elif o.get("bad"):
                    ctx.fail("history", f"{tag}no such sheet, yet it answers")
                elif o["op"] == "iter":
                    if not faulted or "leave" not in o and "suspend" not in o:
                        C11.judge(ctx, spec, o, cells, sst, tag, partial="leave" in o or "suspend" in o)
                else:
                    if o["op"] == "sheets" and list(v) != [s["name"] for s in spec["sheets"]]:
                        ctx.fail("history", f"{tag}{list(v)}")
                    if o["op"] == "shared":
                        if len(v) != len(sst) or any(g is not None and g != w for g, w in zip(v, sst)) or any(g is None and not book.is_null_text(scn["wbopts"], w) for g, w in zip(v, sst)):
                            ctx.fail("history", tag + first_diff(v, sst))
                    ref = C11.fresh(ctx, cls, o["op"])
                    if ref is not None and v != ref:
                        ctx.fail("history", f"{tag}answer differs from that of a fresh workbook")
                if ctx.violations:
                    break
            for i, o, it, cells in susp:
                if ctx.violations:
                    break
                try:
                    cells.extend(it)
                except BaseException as e:  # noqa: BLE001
                    if o.get("tainted"):
                        continue
                    ctx.fail("history", f"resumed request {i}: {short(e)}")
                    break
                C11.judge(ctx, spec, o, cells, sst, f"resumed request {i}: ", partial=False)
        finally:
            susp.clear()
            it = None
            wb.__exit__(None, None, None)
        forget(ctx)
        finish(ctx, clean=False)

    @staticmethod
    def fresh(ctx, cls, what):
        """The answer of the first request on a fresh workbook, over calm storage."""
        ref = ctx.answers.get("ref:" + what)
        if ref is None:
            with sim.harness():
                with cls("f.x", **wb_kwargs(ctx, ctx.scn["wbopts"])) as w:
                    ref = ctx.answers["ref:" + what] = C11.norm(what, getattr(w, what))
        return ref

    @staticmethod
    def judge(ctx, spec, o, cells, sst, tag, partial):
        opts = dict(o["opts"], **ctx.scn["wbopts"])
        exp = exp_iter(ctx, spec, o["si"], opts)
        try:
            got = [decode_cell(spec["fmt"], c, sst) for c in cells]
        except BaseException as e:  # noqa: BLE001
            got = [short(e)]
        want = exp[: len(got)] if partial else exp
        if partial and len(got) < min(len(exp), o.get("leave", o.get("suspend")) + 1):
            want = exp
        if got != want:
            ctx.fail("history", tag + first_diff(got, want))

    @staticmethod
    def nontrivial(scn, res):
        return res["flags"].get("req", 0) >= 3


# --------------------------------------------------------------------------- C12
class C12(Prop):
    id = "C12"
    quick, thorough = 9000, 250000
    rule = (
        "A column object receives cells (mixed types, gaps, repeated rows) interleaved with look-ups, window and mask extractions, some of which fail for lack of memory at a random allocation or line. Each extraction is compared "
        "with a list model and with a fresh column that was only ever extracted once. Non-trivial: at least two extractions. Distinct: different event digest."
    )

    @staticmethod
    def gen(rng):
        fmt = rng.choice(("xlsx", "xlsb"))
        mix = rng.choice((["s"], ["n"], ["d"], ["s", "n"], ["n", "d"], ["s", "n", "d"], ["t", "s"], ["nt", "n"], ["dt", "d"], ["nt", "n", "d"], ["kd"], ["k", "kd"], ["kd", "s"], ["s", "t", "n", "d", "k", "kd", "b"]))
        n = rng.randint(1, 25) if rng.random() < 0.96 else rng.randint(80, 300)
        row = rng.choice((0, 0, 0, 1, 3, 9))
        kind = rng.choice(mix)
        ops = []
        top = -1
        integral = rng.random() < 0.5
        # some columns are as long as those of real sheets, in runs of one kind or with wide gaps
        long = 2600 if rng.random() < 0.03 and n < 80 else 0
        if long:
            n = min(n, 12)
        for _ in range(n):
            x = rng.random()
            if x < (0.62 if n < 80 else 0.92) or top < 0:
                if rng.random() < 0.3:
                    kind = rng.choice(mix)
                ops.append(["add", row, kind, rng.randrange(1000) + (0 if integral or rng.random() < 0.5 else rng.choice((0.5, 0.25, 0.123456789) if kind in ("n", "nt") else (0.5, 0.25)))])
                top = max(top, row)
                if long and rng.random() < 0.3:
                    m = min(rng.choice((40, 300, 1100, 2100)), long)
                    long -= m
                    ops.append(["run", row + 1, kind, rng.randrange(1000), m])
                    row += m
                    top = max(top, row)
                y = rng.random()
                gap = rng.choice((2, 3, 7))
                if long and rng.random() < 0.1:
                    gap = rng.choice((70, 1030, 1500, 2500))
                row += 1 if y < 0.75 else 0 if y < 0.82 else gap if y < 0.97 else -1
                row = max(row, 0)
            elif x < 0.8 or n >= 80 and x < 0.95:
                ops.append(["utf8", *C12.window(rng, top)])
            elif x < 0.92:
                ops.append(["arrow", *C12.window(rng, top)])
            elif x < 0.96:
                ops.append(["len"])
            else:
                m = [rng.random() < 0.6 for _ in range(rng.randint(1, top + 3))]
                off = rng.randrange(top + 1)
                if not any(m[: top + 1 - off]):
                    m[0] = True
                ops.append(["mask", off, "".join("1" if v else "0" for v in m)])
        for _ in range(rng.randint(1, 3)):
            ops.append([rng.choice(("arrow", "utf8")), *C12.window(rng, top)])
        ops.append(["arrow", 0, 0])
        s = {"books": {}, "fmt": fmt, "ops": ops, "conf": rng.choice(("no", "no", "no", "temporal", "numeric", "all")), "sched": {"policy": "none", "lines": []}, "faults": [], "nsst": 40, "max_steps": 400_000 + 60 * n * n}
        nex = [i for i, o in enumerate(ops) if o[0] in ("arrow", "utf8", "mask")]
        for _ in range(rng.randint(0, 2)):
            i = rng.choice(nex)
            if rng.random() < 0.4:
                s["faults"].append({"k": "alloc_fail", "at": i, "n": rng.randrange(rng.choice((6, 6, 20)))})
            else:
                s["faults"].append({"k": "line_fail", "at": i, "n": rng.randrange(25), "file": "/chunk/casts.py"})
        return s

    @staticmethod
    def window(rng, top):
        off = rng.randrange(top + 1) if rng.random() < 0.6 else 0
        x = rng.random()
        ln = 0 if x < 0.3 else 1 if x < 0.45 else rng.randrange(1, top + 5)
        return [off, ln]

    @staticmethod
    def cell(fmt, row, kind, v):
        from rxls import constants as K
        from rxls.cell import cell

        if kind == "s":
            i = int(v) % 40
            return cell(row, 0, K.TYPE_STRING | K.REPR_SHARED, str(i).encode() if fmt == "xlsx" else struct.pack("<I", i))
        if kind in ("t", "nt", "dt"):
            t = C12.text(kind, v)
            return cell(row, 0, K.TYPE_STRING | K.REPR_PREPARED, t.encode() if fmt == "xlsx" else t)
        tmp = kind in ("d", "kd")
        x = C12.num(kind, v)
        if fmt == "xlsx":
            return cell(row, 0, K.TYPE_NUMERIC | (K.REPR_TEMPORAL if tmp else 0), book.num_text(x).encode())
        if kind in ("k", "kd"):
            return cell(row, 0, K.TYPE_NUMERIC | K.REPR_RKNUMBER | (K.REPR_TEMPORAL if tmp else 0), book.rk(x))
        if kind == "b":
            return cell(row, 0, K.TYPE_NUMERIC | K.REPR_BOOLEAN, bytes([int(x)]))
        return cell(row, 0, K.TYPE_NUMERIC | (K.REPR_TEMPORAL if tmp else K.REPR_PREPARED), struct.pack("<d", x))

    @staticmethod
    def text(kind, v):
        if kind == "nt":
            return book.num_text(float(v))
        if kind == "dt":
            return f"2021-0{int(v) % 9 + 1}-{int(v) % 27 + 1:02d}"
        return f"t{v}"

    @staticmethod
    def num(kind, v):
        if kind == "b":
            return float(int(v) % 2)
        if kind in ("d", "kd"):
            return 40000.0 + v
        return float(v)

    @staticmethod
    def value(kind, v, sst):
        if kind == "s":
            return ("s", sst[int(v) % 40])
        if kind in ("t", "nt", "dt"):
            return ("s", C12.text(kind, v))
        return ("d" if kind in ("d", "kd") else "n", C12.num(kind, v))

    @staticmethod
    def series(fmt, sst, conf):
        from rxls.series import xl_series

        return xl_series(sst, fmt == "xlsb", conflict_resolve=conf)

    @staticmethod
    def extract(s, o):
        import pyarrow as pa

        if o[0] == "utf8":
            return s.to_utf8(o[1], o[2])
        if o[0] == "arrow":
            return s.to_arrow(o[1], o[2])
        want = [c == "1" for c in o[2]]
        mask = pa.array(want)
        got = s.to_arrow(o[1], idx=mask)
        if mask.to_pylist() != want:
            raise RuntimeError("the mask was changed")
        return got

    @staticmethod
    def body(ctx):
        import pyarrow as pa

        scn = ctx.scn
        fmt, conf = scn["fmt"], scn["conf"]
        names = [f"sst{i}" for i in range(scn["nsst"])]
        sst = pa.array(names, pa.large_string())
        s = C12.series(fmt, sst, conf)
        added = []
        rows: dict[int, tuple] = {}
        top = -1
        kept = Kept()
        for i, o in enumerate(scn["ops"]):
            if o[0] in ("add", "run"):
                ctx.arm([])
                one = [o] if o[0] == "add" else [["add", o[1] + j, o[2], o[3]] for j in range(o[4])]
                try:
                    for a in one:
                        s.add(C12.cell(fmt, a[1], a[2], a[3]))
                        added.append(a)
                        if a[1] > top:
                            top = a[1]
                            rows[top] = C12.value(a[2], a[3], names)
                except Exception as e:  # noqa: BLE001
                    ctx.fail("column", f"op {i} {o}: raised {short(e)}")
                    break
                continue
            if top < 0:
                continue
            if o[0] == "len":
                if len(s) != top + 1:
                    ctx.fail("column", f"op {i}: length {len(s)} instead of {top + 1}")
                continue
            if o[1] > top or (o[0] == "mask" and not any(c == "1" for c in o[2])):
                continue  # outside the domain (after shrinking)
            ctx.arm([f for f in scn["faults"] if f["at"] == i])
            exc = None
            got = None
            try:
                got = C12.extract(s, o)
            except BaseException as e:  # noqa: BLE001
                exc = e
            faulted = any(f.get("fired") for f in ctx.faults)
            ctx.arm([])
            ctx.flag("extract_faulted" if faulted else "extract")
            ctx.sim.record("extract", (o[0], len(got) if got is not None else -1))
            if exc is not None:
                if not faulted or not any(exc is x for x in ctx.injected):
                    # the same failure of a fresh column is not this property's business
                    if faulted or not C12.fresh_fails(ctx, fmt, sst, conf, added, o):
                        ctx.fail("column", f"op {i} {o}: raised {short(exc)}")
                    else:
                        ctx.flag("fresh_fails")
                exc.__traceback__ = None
                exc = None
                forget(ctx)
                if ctx.violations:
                    break
                continue
            if faulted:
                ctx.fail("column", f"op {i} {o}: an allocation failure was swallowed")
            d = C12.check(ctx, fmt, sst, conf, added, rows, top, o, got)
            if d:
                ctx.fail("column", f"op {i} {o}: {d}")
                break
            if len(kept.items) < 40:
                kept.add(f"op {i} {o}: ", got)
        kept.check(ctx, "column")
        if sst.to_pylist() != names:
            ctx.fail("column", "the shared strings were changed")

    @staticmethod
    def fresh_fails(ctx, fmt, sst, conf, added, o):
        s = C12.series(fmt, sst, conf)
        try:
            for a in added:
                s.add(C12.cell(fmt, a[1], a[2], a[3]))
        except Exception:  # noqa: BLE001
            return False
        try:
            C12.extract(s, o)
        except Exception:  # noqa: BLE001
            return True
        return False

    @staticmethod
    def check(ctx, fmt, sst, conf, added, rows, top, o, got):
        # against a column that was only ever extracted this once
        s = C12.series(fmt, sst, conf)
        try:
            for a in added:
                s.add(C12.cell(fmt, a[1], a[2], a[3]))
            ref = C12.extract(s, o)
        except Exception as e:  # noqa: BLE001
            return f"a fresh column raises {short(e)}"
        if not got.equals(ref):
            return f"{str(got.to_pylist())[:120]} ({got.type}) instead of {str(ref.to_pylist())[:120]} ({ref.type})"
        # against the list model
        if o[0] == "mask":
            idx = [o[1] + j for j, c in enumerate(o[2]) if c == "1"]
        elif o[2]:
            idx = list(range(o[1], o[1] + o[2]))
        else:
            idx = list(range(o[1], top + 1))
        vals = [rows.get(r) for r in idx]
        if len(got) != len(vals):
            return f"{len(got)} values instead of {len(vals)}"
        nulls = [v is None for v in got.to_pylist()] if not str(got.type).startswith("timestamp") else got.is_null().to_pylist()
        if nulls != [v is None for v in vals]:
            return f"nulls at {[i for i, x in enumerate(nulls) if x]} instead of {[i for i, v in enumerate(vals) if v is None]}"
        kinds = {v[0] for v in vals if v is not None}
        if conf == "no" or len(kinds) == 1:
            exp = book.model_array(vals)
            if o[0] == "utf8":
                exp = exp.cast(pa_large())
            if got.type != exp.type:
                return f"type {got.type} instead of {exp.type}"
            if not got.equals(exp):
                return f"{str(got.to_pylist())[:120]} instead of {str(exp.to_pylist())[:120]}"
        return None

    @staticmethod
    def nontrivial(scn, res):
        return res["flags"].get("extract", 0) + res["flags"].get("extract_faulted", 0) >= 2


def pa_large():
    import pyarrow as pa

    return pa.large_string()


# --------------------------------------------------------------------------- C13
class C13(Prop):
    id = "C13"
    quick, thorough = 4000, 150000
    rule = (
        "A well-formed container whose sheet or shared-string part is structurally damaged (references out of range/negative/oversized/not numbers, cell records cut or lying about lengths, flipped or deleted bytes), read in an isolated "
        "process. Non-trivial: the damage changed the part. Distinct: different (event digest, damage)."
    )
    REFS_X = ("-1", "-7", "4294967295", "4294967296", "4294967297", "1e3", "0x1", "abc", " 1", "1.5", "99999999999999999999", "", "\u0661", "1_0", "+1")

    @staticmethod
    def gen(rng):
        fmt = "xlsx" if rng.random() < 0.5 else "xlsb"
        spec = gen.gen_spec(rng, fmt=fmt, big=0.02, long=rng.random() < 0.2)
        sis = [(i, ci) for i, s in enumerate(spec["sheets"]) for ci, c in enumerate(s["cols"]) if c["k"] == "s"]
        if not sis:
            spec["sheets"][0]["cols"][0]["k"] = "s"
            sis = [(0, 0)]
        si, ci = rng.choice(sis)
        sh = spec["sheets"][si]
        s = base_scn(rng, spec, sheet=si, si=si, how="path", opts={k: v for k, v in gen.gen_opts(rng, spec, si, simple=rng.random() < 0.7).items() if k not in ("skip_cols", "null_values", "row_filters", "dtypes")})
        n = len(book.shared_table(spec)[0])
        fs = []
        for _ in range(rng.choice((1, 1, 1, 2))):
            x = rng.random()
            r = rng.randrange(sh["pre"] + sh["hdr"], book.rows_total(sh))
            if x < 0.45:
                cand = [n, n + 1, n + 1000, n * 2, rng.randrange(n + 1), 0x7FFFFFFF, 0x80000000, 0xFFFFFFFF, 0xFFFFFFFE]
                ref = rng.choice(cand)
                if fmt == "xlsx" and rng.random() < 0.6:
                    ref = rng.choice(C13.REFS_X)
                fs.append({"k": "badref", "part": "sheet", "sheet": si, "row": r, "col": ci, "ref": ref})
            elif x < 0.65 and fmt == "xlsb":
                c = rng.randrange(len(sh["cols"]))
                how = rng.choice(("cut", "cut", "grow", "lie", "strlen"))
                if rng.random() < 0.4:  # references that lose bytes, whose total may still be a whole number of references
                    for n in rng.choice(((4,), (4,), (8,), (2, 2), (1, 3), (3, 1), (1, 1, 2), (4, 4))):
                        fs.append({"k": "badrec", "part": "sheet", "sheet": si, "row": r, "col": ci, "how": "cut", "n": n})
                        r = rng.randrange(sh["pre"] + sh["hdr"], book.rows_total(sh))
                    continue
                fs.append({"k": "badrec", "part": "sheet", "sheet": si, "row": r, "col": ci if rng.random() < 0.5 else c, "how": how, "n": rng.choice((1, 2, 3, 4, 5, 7, 9, 12)) if how != "strlen" else rng.choice((0, 1, 1000, 0x7FFFFFFF, 0xFFFFFFFF))})
            else:
                fs.append({"k": rng.choice(("partflip", "partflip", "partbyte", "partdel")), "part": "sheet" if rng.random() < 0.65 else "sst", "sheet": si, "frac": rng.random(), "bit": rng.randrange(8), "val": rng.randrange(256), "n": rng.choice((1, 2, 4, 30))})
        s["faults"] = fs
        return s

    @staticmethod
    def body(ctx):
        scn = ctx.scn
        spec = ctx.specs["a"]
        applied = any(f.get("applied") for f in ctx.scn["faults"])
        if applied:
            ctx.flag("damaged")
        got = ctx.do_read("f.x", scn["sheet"], ctx.kwargs(scn["opts"]))
        if got[0] == "exc":
            ctx.flag("raised")
            if not applied and ctx.expect(spec, scn["sheet"], scn["opts"])[0] == "ok":
                ctx.fail("spurious", short(got[1]))
        elif not applied:
            check_table(ctx, got, ctx.expect(spec, scn["sheet"], scn["opts"]), "wrong-table")
        else:
            ctx.flag("returned")
            C13.provenance(ctx, spec, got[1])
        del got
        forget(ctx)
        ctx.drain()

    @staticmethod
    def provenance(ctx, spec, table):
        """Every text in the table is a shared string some cell refers to, or inline text of the sheet."""
        parts = ctx.parts["a"]
        sst = own_sst(spec["fmt"], parts.get(book.sst_part(spec), b""))
        refs, texts = own_cells(spec["fmt"], parts[book.sheet_part(spec, ctx.scn["si"])])
        allowed = set()
        for col, i in refs:
            if i is not None and 0 <= i < len(sst):
                allowed.add(sst[i])
        blob = texts
        bysst = set(sst)
        for name in table.column_names:
            c = table.column(table.column_names.index(name)) if table.column_names.count(name) == 1 else None
            if c is None or str(c.type) not in ("large_string", "string"):
                continue
            try:
                c.validate(full=True)
                vals = c.to_pylist()
            except Exception as e:  # noqa: BLE001
                ctx.fail("foreign-text", f"column {name!r} is not valid: {short(e)}")
                return
            for r, v in enumerate(vals):
                if v is None or v in allowed:
                    continue
                inline = v in blob or (v == book.NULL_TEXT and any(v in b for b in blob))
                if v in bysst and not v.startswith("H") and not inline:
                    ctx.fail("wrong-text", f"column {name!r} row {r}: shared string {v[:40]!r} to which no cell of the sheet refers")
                    return
                if v in blob or numeric(v):
                    continue
                if any(v in b for b in blob):
                    continue
                ctx.fail("foreign-text", f"column {name!r} row {r}: {v[:60]!r} is no text of the file")
                return
        # columns of shared strings, cell by cell (only when nothing else is damaged)
        fs = [f for f in ctx.scn["faults"] if f.get("applied")]
        cut = any(f["k"] == "badrec" for f in fs)
        if all(f["k"] == "badref" and str(f["ref"]).strip() or f["k"] == "badrec" and f["how"] == "cut" and book.cls(spec["sheets"][ctx.scn["si"]]["cols"][f["col"]]["k"]) == "s" for f in fs):  # (a cell without text is no cell)
            exp = ctx.expect(spec, ctx.scn["sheet"], ctx.scn["opts"])
            if exp[0] != "ok":
                return
            sh = spec["sheets"][ctx.scn["si"]]
            bad = {(f["row"], f["col"]): str(f.get("ref", "")) for f in fs}
            order = sorted(book.model_columns(spec, ctx.scn["si"], ctx.scn["opts"]))
            if table.num_columns != len(order):
                return
            nrows = len(exp[1][1][0])
            if table.num_rows != nrows and cut:
                return  # (a row whose only cell is lost)
            if table.num_rows != nrows:
                ctx.fail("wrong-text", f"{table.num_rows} rows instead of {nrows}")
                return
            last = book.rows_total(sh)
            for ci, c in enumerate(sh["cols"]):
                if book.cls(c["k"]) != "s" or book.col_at(sh, ci) not in order:
                    continue
                j = order.index(book.col_at(sh, ci))
                vals = table.column(j).to_pylist()
                want = exp[1][1][j].to_pylist()
                for r, (v, w) in enumerate(zip(vals, want)):
                    row = last - nrows + r
                    if (row, ci) in bad:
                        t = bad[row, ci].strip()
                        n = int(t) if re.fullmatch(r"[0-9]{1,18}", t) else -1
                        w = sst[n] if 0 <= n < len(sst) and not book.is_null_text(ctx.scn["opts"], sst[n]) else None
                        if t == "+1" or t == "" or "_" in t or not t.isascii():
                            continue  # readings differ; provenance was checked above
                        if w is None and v is not None:
                            ctx.fail("wrong-text", f"row {row}: reference {t!r} became {v[:40]!r}")
                            return
                    if v != w:
                        ctx.fail("wrong-text", f"row {row}: {str(v)[:40]!r} instead of {str(w)[:40]!r}")
                        return

    @staticmethod
    def nontrivial(scn, res):
        return bool(res["flags"].get("damaged"))


def numeric(v: str) -> bool:
    try:
        float(v)
        return True
    except ValueError:
        return bool(re.match(r"^-?\d{4,}-\d\d-\d\d|^<value out of range", v)) or v in ("Unnamed",)


def own_sst(fmt, data: bytes) -> list:
    """Our reading of a (damaged) shared-string part."""
    out = []
    if fmt == "xlsb":
        for id, d in damage.parse_recs(data):
            if id == 19:
                try:
                    n = struct.unpack("<I", d[1:5])[0]
                    out.append(d[5 : 5 + 2 * n].decode("utf-16-le"))
                except Exception:  # noqa: BLE001
                    out.append(None)
        return out
    import pyexpat

    p = pyexpat.ParserCreate()
    p.buffer_text = True
    st = {"in": False, "t": ""}

    def s(tag, a):
        if tag == "si":
            st["in"], st["t"] = True, ""

    def e(tag):
        if tag == "si" and st["in"]:
            out.append(st["t"].strip() or None)
            st["in"] = False

    def c(t):
        if st["in"]:
            st["t"] += t

    p.StartElementHandler, p.EndElementHandler, p.CharacterDataHandler = s, e, c
    try:
        p.Parse(data, True)
    except pyexpat.ExpatError:
        pass
    return out


def own_cells(fmt, data: bytes):
    """([(column, referred index or None)], set of inline texts) of a (damaged) sheet part."""
    refs = []
    texts = set()
    if fmt == "xlsb":
        for id, d in damage.parse_recs(data):
            if id == 7:
                refs.append((d[:4], struct.unpack("<I", d[8:12])[0] if len(d) >= 12 else None))
            elif id in (6, 8):
                texts.add(d[12:].decode("utf-16-le", "ignore"))
                texts.add(d[12:].decode("utf-16", "ignore"))
        return refs, texts
    import pyexpat

    p = pyexpat.ParserCreate()
    p.buffer_text = True
    p.buffer_size = 1 << 20
    st = {"t": None, "r": "", "v": False, "x": ""}

    def s(tag, a):
        if tag == "c":
            st["t"], st["r"] = a.get("t"), a.get("r", "")
        st["x"] = ""

    def e(tag):
        t = st["x"].strip()
        if t:
            texts.add(t)
            if st["t"] == "s":
                refs.append((st["r"], int(t) if re.fullmatch(r"\+?[0-9_]{1,20}", t) and t.strip("_+") and "__" not in t and not t.endswith("_") else uint(t)))
        st["x"] = ""

    def c(t):
        st["x"] += t

    p.StartElementHandler, p.EndElementHandler, p.CharacterDataHandler = s, e, c
    try:
        p.Parse(data, True)
    except pyexpat.ExpatError:
        pass
    return refs, texts


def uint(t):
    try:
        return int(t)
    except ValueError:
        return None


# --------------------------------------------------------------------------- C14
FAR = 200_000  # bytes of the sheet part after the last row needed
FAR_ROWS = 400


class C14(Prop):
    id = "C14"
    quick, thorough = 3400, 80000
    rule = (
        "Reads and iterations with row limits and leading rows skipped, under random schedules; in one run of eight over a sheet large enough (about a megabyte) that work, reads and faults far beyond the limit can be "
        "told apart. Non-trivial: a limit or skip is set and at least one row is beyond it. Distinct: different event digest."
    )

    @staticmethod
    def gen(rng):
        large = rng.random() < 0.12
        if large:
            spec = gen.gen_spec(rng, rows=rng.choice((2500, 4000)), ncols=rng.randint(2, 3), sheets=1, kinds=("t", "n"), nulls=False, long=False, pre=False)
            for c in spec["sheets"][0]["cols"]:
                for k in ("er", "nv", "dup"):
                    c.pop(k, None)
                if c["k"] == "t":
                    c["len"] = 400
            spec["sheets"][0]["cols"][0].update(k="t", len=400)
            spec.pop("extra", None)
            spec["stored"] = 1 if rng.random() < 0.7 else 0
            si, sheet = 0, 0
        else:
            spec = gen.gen_spec(rng, rows=rng.randint(3, 60), big=0, long=rng.random() < 0.2)
            si, sheet = pick_sheet(rng, spec)
        n = book.rows_total(spec["sheets"][si])
        o = {}
        if rng.random() < 0.5:
            o["take_rows_non_empty"] = True
        sk = 0
        if rng.random() < 0.55:
            sk = o["skip_rows"] = rng.choice((1, 2, rng.randrange(1, min(n - 1, 40))))
        if large or rng.random() < 0.8:
            o["take_rows"] = rng.randint(1, max(1, min(n - sk - 1, 30)))
        s = base_scn(rng, spec, sheet=sheet, si=si, how=pick_how(rng), opts=o, iter=int(rng.random() < 0.4), cb=int(rng.random() < 0.5), large=int(large))
        if not large and rng.random() < 0.25:  # blank rows: compared with the unlimited iteration
            spec["wild"] = 1
            for sh in spec["sheets"]:
                sh["gap"] = rng.choice((2, 3, 7))
                if rng.random() < 0.6:
                    for c in sh["cols"]:
                        c.pop("er", None)
            s["iter"] = 1
            if rng.random() < 0.7:
                o["skip_rows"] = rng.randrange(1, max(2, min(n - 1, 20)))
            if rng.random() < 0.3:
                o["skip_cols"] = [book.col_at(spec["sheets"][si], rng.randrange(len(spec["sheets"][si]["cols"])))]
        s["faults"] = gen.gen_stall(rng, spec, 2) if not large else []
        if large and rng.random() < 0.7:
            x = rng.random()
            f = {"k": "badblock" if x < 0.5 else "flip" if x < 0.8 else "zero", "part": "sheet", "sheet": 0, "frac": rng.uniform(0.55, 0.99), "len": rng.choice((1, 4096)), "bit": rng.randrange(8), "op": rng.randrange(8)}
            s["faults"].append(f)
        return s

    @staticmethod
    def base(o, *drop):
        return dict({"take_rows_non_empty": False}, **{k: v for k, v in o.items() if k not in drop})

    @staticmethod
    def refs(scn):
        out = [("iter", "a", scn["si"], C14.base(scn["opts"], *x)) for x in (("take_rows",), ("take_rows", "skip_rows"))]
        o = C14.further(scn["books"]["a"], scn["si"], scn["opts"]) if scn["books"]["a"].get("wild") else None
        return out + ([("iter", "a", scn["si"], o)] if o else [])

    @staticmethod
    def further(spec, si, o):
        """The same call skipping also the blank rows that follow the skipped ones; None if there are none."""
        if o.get("take_rows_non_empty"):
            return None
        full = {r for r, *_ in book.model_cells(spec, si, {k: v for k, v in o.items() if k in ("skip_cols", "null_values")})}
        s = e = o.get("skip_rows", 0)
        while e not in full and e < book.rows_total(spec["sheets"][si]):
            e += 1
        return C14.base(o, "take_rows") | {"skip_rows": e} if e > s else None

    @staticmethod
    def blank_rows(ctx, spec, si, o, got):
        """Difference from the unlimited iteration, or None. How blank rows count is not ours to say."""
        sh = spec["sheets"][si]
        _, whole = ctx.reference("iter", spec, si, C14.base(o, "take_rows", "skip_rows"))[:2]
        _, rest = ctx.reference("iter", spec, si, C14.base(o, "take_rows"))[:2]
        left = len(model_iter(spec, si, {k: v for k, v in o.items() if k in ("skip_rows", "skip_cols")}))
        tail = whole[len(whole) - left :]
        if [c[1:] for c in rest] != [c[1:] for c in tail]:
            return "rows skipped: " + first_diff([c[1:] for c in rest], [c[1:] for c in tail])
        s = o.get("skip_rows", 0)
        if o.get("take_rows_non_empty"):
            want = [(r - s, *x) for r, *x in whole if r >= s]
            if rest != want:
                return f"{s} rows skipped: " + first_diff(rest, want)
        elif f := C14.further(spec, si, o):
            want = ctx.reference("iter", spec, si, f)[1]
            if rest != want:
                return f"{s} rows skipped, the next {f['skip_rows'] - s} are blank: " + first_diff(rest, want)
        if o.get("take_rows"):
            blank = book.rows_total(sh) - len({c[0] for c in model_iter(spec, si, {})})
            t = o["take_rows"]
            if "skip_cols" in o:
                blank = book.rows_total(sh)
            end = max([t, *(c[0] for c in got)])
            if end > t + blank:
                return f"row {end} delivered with a limit at row {t}"
            rest = [c for c in rest if c[0] <= end]
        return None if got == rest else first_diff(got, rest)

    @staticmethod
    def body(ctx):
        scn = ctx.scn
        spec = ctx.specs["a"]
        o = scn["opts"]
        src = ctx.source("f.x", scn["how"])
        cb = ctx.callback() if scn.get("cb") else None
        ctx.st.trace_reads = bool(scn.get("large"))
        if spec.get("wild"):
            sst = book.shared_table(spec)[0]
            try:
                with ctx.workbook(spec["fmt"])(src, **wb_kwargs(ctx, o)) as wb:
                    got = [decode_cell(spec["fmt"], c, sst) for c in wb.iter_worksheet(scn["sheet"], **iter_kwargs(C14.base(o), cb))]
                d = C14.blank_rows(ctx, spec, scn["si"], o, got)
                if d:
                    ctx.fail("window", d)
                ctx.flag("blank_rows")
            except Exception as e:  # noqa: BLE001
                ctx.fail("window", f"raised {short(e)}")
        elif scn.get("iter"):
            exp = model_iter(spec, scn["si"], o)
            sst = book.shared_table(spec)[0]
            try:
                with ctx.workbook(spec["fmt"])(src, **wb_kwargs(ctx, o)) as wb:
                    got = [decode_cell(spec["fmt"], c, sst) for c in wb.iter_worksheet(scn["sheet"], **dict({"take_rows_non_empty": False}, **iter_kwargs(o, cb)))]
                if got != exp:
                    ctx.fail("window", first_diff(got, exp))
            except Exception as e:  # noqa: BLE001
                ctx.fail("window", f"raised {short(e)}")
        else:
            got = ctx.do_read(src, scn["sheet"], ctx.kwargs(o, cb))
            check_table(ctx, got, ctx.expect(spec, scn["sheet"], o), "window")
            del got
        n = book.rows_total(spec["sheets"][scn["si"]])
        last = o.get("skip_rows", 0) + o["take_rows"] if o.get("take_rows") else n
        ctx.drain()
        if scn.get("large") and o.get("take_rows"):
            ctx.flag("large")
            if cb and cb.st["n"] > last + 2 + FAR_ROWS:
                ctx.fail("not-stopped", f"{cb.st['n']} callbacks with a limit at row {last}")
            data = ctx.st.versions["a"]
            nm = book.sheet_part(spec, scn["si"])
            lo, hi = next((a, b) for k, a, b in book.layout(data) if k == nm)
            need = lo + int((hi - lo) * min(1.0, (last + 2) / n))
            far = max((p + k for p, k in ctx.st.reads if lo <= p < hi and p + k <= hi), default=0)
            if far > need + FAR:
                ctx.fail("not-stopped", f"read up to byte {far - lo} of the sheet part, the limit row ends near byte {need - lo}")
        finish(ctx)

    @staticmethod
    def nontrivial(scn, res):
        o = scn["opts"]
        return bool(o.get("skip_rows") or o.get("take_rows"))


# --------------------------------------------------------------------------- C15
class C15(Prop):
    id = "C15"
    quick, thorough = 3400, 90000
    rule = (
        "One workbook object is opened 2-5 times in a row, over a path, a Path or a stream. Between openings the file is replaced or overwritten by another version, cut off, replaced by something that is no workbook, or removed; openings and "
        "requests meet storage errors, iterations are left midway. Every answer is compared with the model of the version that is there and with a fresh workbook object. Non-trivial: at least two openings that succeeded. Distinct: different event digest."
    )

    @staticmethod
    def gen(rng):
        fmt = rng.choice(("xlsx", "xlsb"))
        books = {}
        for i, name in enumerate(("a", "b", "c")[: rng.choice((2, 2, 3))]):
            if i and rng.random() < 0.5:
                b = dict(books["a"], ver=i + 1)
                if rng.random() < 0.5:
                    b["rot"] = rng.randint(0, 4)
            else:
                b = gen.gen_spec(rng, fmt=fmt, ver=i + 1, rows=rng.randint(1, 25), sheets=rng.choice((1, 2, 3)), big=0, long=rng.random() < 0.15)
                for sh in b["sheets"]:
                    for ci, c in enumerate(sh["cols"]):
                        if ci and rng.random() < 0.5:
                            c["k"] = "s"
                            c["nv"] = rng.choice((3, 4, 5))
            books[name] = b
        s = base_scn(rng, books["a"], how=rng.choice(("path", "path", "pathlib", "stream")))
        s["books"] = books
        s["wbopts"] = {"null_values": gen.gen_null(rng, *books.values())} if rng.random() < 0.6 else {}
        cur = "a"
        ses = []
        for _ in range(rng.randint(2, 5)):
            o = {}
            if ses and rng.random() < 0.75:
                x = rng.random()
                if x < 0.7:
                    cur = rng.choice([k for k in books if k != cur])
                    o["now"] = cur
                    o["over"] = int(s["how"] == "stream" or rng.random() < 0.4)
                elif x < 0.85:
                    o["spoil"] = rng.choice(("cut", "text", "zip")) if s["how"] == "stream" else rng.choice(("cut", "text", "zip", "gone"))
                    o["frac"] = rng.random()
            if rng.random() < 0.12 and "spoil" not in o:
                o["faults"] = [{"k": rng.choice(("eio", "enomem", "eof", "sraise")), "op": rng.randrange(4), "exc": rng.choice(CB_EXC)} if rng.random() < 0.8 or s["how"] == "stream" else {"k": "open_fail", "n": 0}]
            spec = books[cur]
            ops = []
            for _ in range(rng.randint(1, 4)):
                if rng.random() < 0.5:
                    q = {"op": rng.choice(("sheets", "shared", "styles"))}
                else:
                    si, sheet = pick_sheet(rng, spec)
                    q = {"op": "iter", "sheet": sheet, "si": si, "opts": {k: v for k, v in gen.gen_opts(rng, spec, si, take=rng.random() < 0.3).items() if k in ITER_OPTS}}
                    if rng.random() < 0.35:
                        q["leave"] = rng.randrange(20)
                        # (left suspended while the workbook is closed and opened again; its parser would share a stream with the next opening)
                        if (s["how"] != "stream" or fmt == "xlsb") and rng.random() < 0.5:
                            q["hold"] = 1
                if rng.random() < 0.2:
                    q["faults"] = [{"k": rng.choice(("eio", "enomem", "eof", "sraise")), "op": rng.randrange(6), "exc": rng.choice(CB_EXC)} if rng.random() < 0.7 or s["wbopts"].get("null_values") != "callable" else {"k": "pred_raise", "n": rng.randrange(20), "exc": "Injected"}]
                ops.append(q)
            o["ops"] = ops
            if rng.random() < 0.6:  # before the opening, or before one of its requests
                o["drop"] = rng.choice(("close", "del"))
                o["dropat"] = rng.choice((-1, 0, 0, 1, 1, 2))
            if rng.random() < 0.2:
                o["exit"] = rng.choice(("exc", "os", "gen", "int"))
            ses.append(o)
        s["ses"] = ses
        s["max_steps"] = gen.steps_budget(s) * 5
        return s

    @staticmethod
    def place(ctx, o, cur):
        """The file as the next opening finds it."""
        st = ctx.st
        if "now" in o:
            data = st.versions[o["now"]]
        elif "spoil" in o:
            good = st.versions[cur]
            data = {"cut": lambda: good[: int(o["frac"] * (len(good) - 1))], "text": lambda: b"no workbook at all", "zip": other_zip, "gone": lambda: None}[o["spoil"]]()
        else:
            data = st.versions[cur]
        ctx.sim.count("fault:" + ("spoil" if "spoil" in o else "version"))
        if data is None:
            if "f.x" in st.names:
                st.remove("f.x")
        elif "f.x" in st.names and (o.get("over") or ctx.scn["how"] == "stream"):
            st.overwrite("f.x", data, 0, len(data), True)
        else:
            st.put("f.x", data)

    @staticmethod
    def body(ctx):
        scn = ctx.scn
        cur = "a"
        src = ctx.source("f.x", scn["how"])
        cls = ctx.workbook(ctx.specs["a"]["fmt"])
        wb = cls(src, **wb_kwargs(ctx, scn["wbopts"], ctx.live_predicate()))
        spoiled = False
        ctx.held = []  # (iterations that were left midway and are still suspended)
        for n, o in enumerate(scn["ses"]):
            tag = f"opening {n}: "
            if o.get("drop") and o.get("dropat", -1) < 0:
                C15.drop(ctx, o["drop"], tag)
            if "now" in o or "spoil" in o or spoiled:
                C15.place(ctx, o, cur)
                spoiled = "spoil" in o
                cur = o.get("now", cur)
            spec = ctx.specs[cur]
            ctx.arm([dict(f) for f in o.get("faults", ())])
            exc = None
            try:
                wb.__enter__()
            except BaseException as e:  # noqa: BLE001
                exc = e
            faulted = any(f.get("fired") for f in ctx.faults)
            ctx.arm([])
            if exc is not None:
                ctx.flag("enter_failed")
                if not faulted and not spoiled:
                    ctx.fail("reopen", f"{tag}raised {short(exc)}")
                for x in chain(exc):
                    x.__traceback__ = None
                exc = x = None
                if ctx.violations:
                    break
                continue
            if spoiled:
                ctx.fail("reopen", f"{tag}a file that is no workbook was opened")
                break
            ctx.flag("opened")
            try:
                if not faulted:  # (data that ended early may have left it with part of the directory)
                    C15.session(ctx, cls, wb, cur, spec, o, tag)
            finally:
                if o.get("exit"):
                    e = {"exc": Injected, "os": OSError, "gen": GeneratorExit, "int": InjectedBase}[o["exit"]]("injected")
                    wb.__exit__(type(e), e, None)
                    del e
                else:
                    wb.__exit__(None, None, None)
            if not ctx.violations and not ctx.held and (left := ctx.st.open_handles()):
                ctx.fail("handles", f"{tag}{len(left)} file handles are open after the closing")
            if ctx.violations:
                break
        C15.drop(ctx, "close", "the end: ")
        forget(ctx)
        finish(ctx, clean=False)
        if not ctx.violations and (left := ctx.st.open_handles()):
            ctx.fail("handles", f"{len(left)} file handles are open after the workbook was closed")

    @staticmethod
    def drop(ctx, how, tag):
        while ctx.held:
            it = ctx.held.pop()
            try:
                if how == "close":
                    it.close()
                it = None
            except BaseException as e:  # noqa: BLE001
                ctx.fail("reopen", f"{tag}closing an iteration of an earlier opening raised {short(e)}")

    @staticmethod
    def session(ctx, cls, wb, cur, spec, o, tag0):
        scn = ctx.scn
        sst = book.shared_table(spec)[0]
        for i, q in enumerate(o["ops"]):
            if q["op"] == "iter" and not any(q["sheet"] in (j, x["name"]) and j == q["si"] for j, x in enumerate(spec["sheets"])):
                continue  # outside the domain (after shrinking)
            if o.get("drop") and o.get("dropat", -1) == i:
                C15.drop(ctx, o["drop"], tag0)
            ctx.arm([dict(f) for f in q.get("faults", ())])
            tag = f"{tag0}request {i} ({q['op']}): "
            cells = []
            exc = v = None
            try:
                if q["op"] == "iter":
                    it = wb.iter_worksheet(q["sheet"], **iter_kwargs(q["opts"]))
                    for c in it:
                        cells.append(c)
                        if "leave" in q and len(cells) > q["leave"]:
                            break
                    if q.get("hold"):
                        ctx.held.append(it)
                        ctx.flag("held")
                    else:
                        it.close()
                    it = None
                else:
                    v = C11.norm(q["op"], getattr(wb, q["op"]))
            except BaseException as e:  # noqa: BLE001
                exc = e
                it = None
            faulted = any(f.get("fired") for f in ctx.faults)
            ctx.arm([])
            ctx.flag("req")
            if exc is not None:
                if not faulted:
                    ctx.fail("reopen", f"{tag}raised {short(exc)}")
                for x in chain(exc):
                    x.__traceback__ = None
                exc = x = None
            elif q["op"] == "iter":
                if not faulted or "leave" not in q:
                    C11.judge(ctx, spec, q, cells, sst, tag, partial="leave" in q)
            else:
                if q["op"] == "sheets" and list(v) != [x["name"] for x in spec["sheets"]]:
                    ctx.fail("reopen", f"{tag}{list(v)}")
                if q["op"] == "shared" and (len(v) != len(sst) or any(g is not None and g != w for g, w in zip(v, sst)) or any(g is None and not book.is_null_text(scn["wbopts"], w) for g, w in zip(v, sst))):
                    ctx.fail("reopen", tag + first_diff(v, sst))
                key = f"ref:{q['op']}:{cur}"
                ref = ctx.answers.get(key)
                if ref is None:
                    with sim.harness(), cls("f.x", **wb_kwargs(ctx, scn["wbopts"])) as w:
                        ref = ctx.answers[key] = C11.norm(q["op"], getattr(w, q["op"]))
                if v != ref:
                    ctx.fail("reopen", f"{tag}answer differs from that of a fresh workbook")
            if ctx.violations:
                break

    @staticmethod
    def nontrivial(scn, res):
        return res["flags"].get("opened", 0) >= 2


def other_zip():
    import zipfile

    b = _io.BytesIO()
    with zipfile.ZipFile(b, "w") as z:
        z.writestr("readme.txt", "nothing here")
    return b.getvalue()


# --------------------------------------------------------------------------- C16
class C16(Prop):
    id = "C16"
    quick, thorough = 8000, 250000
    rule = (
        "0-10 records, strings or relationships are dumped by the code to a stream that accepts arbitrary small amounts at a time, may be full at any byte, fail at any write or refuse all data; what was dumped is then cut at any byte and read back "
        "through short reads. Refinement against an independent encoder. Non-trivial: at least one item dumped. Distinct: different event digest."
    )
    TEXTS = ("", "a", "Sheet 1", "\u00e4\u00f6\u00fc", "\u041b\u0438\u0441\u0442", "\U0001f600", "x\U0001f600y\U00010000", "\ufeffbom", "\ufffe", "\x00\x01", "<&>\"'", " \t\r\n ", "a" * 255, "\u20ac" * 32768)

    @staticmethod
    def gen(rng):
        kind = rng.choice(("rec", "str", "str", "rel"))
        items = []
        for _ in range(rng.randint(0, 10)):
            if kind == "rec":
                id = rng.choice((0, 1, 0x7F, rng.randrange(128))) if rng.random() < 0.5 else 0x80 | rng.randrange(128) | rng.randrange(256) << 8
                items.append([id, rng.choice(SIZES[:-4]) if rng.random() < 0.5 else rng.randrange(300), rng.randrange(1 << 20)])
            elif kind == "str":
                items.append(None if rng.random() < 0.12 else C16.text(rng))
            else:
                items.append([C16.clean(C16.text(rng)), rng.choice(("worksheet", "styles", C16.clean(C16.text(rng)).replace("/", ""))), C16.clean(C16.text(rng))])
        s = {"books": {}, "kind": kind, "items": items, "dev": rng.choice(("bytesio", "sim", "sim", "sim", "none")), "accept": rng.choice((1, 2, 3, 7, 64, 4096, 0)), "amseed": rng.randrange(1 << 20), "faults": [], "sched": {"policy": "none", "lines": []}}
        s.update(cut=1.0 if rng.random() < 0.3 else rng.random(), cutrel=rng.choice((-3, -2, -1, 0, 1, 2, 3, 4, 5)) if rng.random() < 0.6 else None, seek=int(rng.random() < 0.5), amount=rng.choice((1, 2, 3, 7, 64, 4096, 0, 0)))
        if s["dev"] == "sim" and rng.random() < 0.5:
            s["werr"] = [rng.choice(("enospc", "enospc", "eio", "eintr", "zero", "block")), rng.random() if rng.random() < 0.7 else rng.randrange(1, 12)]
        if rng.random() < 0.15:
            s["err"] = ["eio", rng.randrange(1, 20)]
        if kind != "rel" and rng.random() < 0.3:  # over older contents, from somewhere in them
            s["old"] = [rng.choice((0, 1, 5, rng.randrange(400))), rng.choice((1, 50, rng.randrange(8000)))]
        total = sum(len(x) if isinstance(x, str) else x[1] if kind == "rec" else 0 for x in items if x)
        for k in ("accept", "amount") if total > 500 else ():
            s[k] = s[k] and max(s[k], 7 if total < 20000 else 64)
        s["max_steps"] = 3_000_000
        return s

    @staticmethod
    def text(rng):
        x = rng.random()
        if x < 0.02:
            return C16.TEXTS[-1]
        if x < 0.6:
            return rng.choice(C16.TEXTS[:-1])
        return "".join(chr(rng.choice((rng.randrange(32, 127), rng.randrange(0xA0, 0xD7FF), rng.randrange(0x10000, 0x10FFFF)))) for _ in range(rng.randint(1, 20)))

    @staticmethod
    def clean(t):
        """What XML can hold."""
        return "".join(c for c in t if c in "\t\r\n" or ord(c) >= 32 and c not in "\ufffe\uffff")

    @staticmethod
    def encoded(kind, x):
        if kind == "rec":
            d = C09.payload(x[1], x[2])
            return (struct.pack("<H", x[0]) if x[0] & 0x80 else bytes([x[0]])) + book.rec(0, d)[1:]
        if x is None:
            return b"\xff\xff\xff\xff"
        d = x.encode("utf-16-le")
        return struct.pack("<I", len(d) // 2) + d

    @staticmethod
    def body(ctx):
        from rxls.biff import record, scan_biff
        from rxls.biff_recs import xstr
        from rxls.rels import Relationship

        scn = ctx.scn
        kind = scn["kind"]
        items = scn["items"]
        out = WDevice(ctx, scn, sum(len(C16.encoded(kind, x)) if kind != "rel" else 200 for x in items))
        if kind == "rel":
            out.data += b"<Relationships>"
        ends = []
        older = bytes(out.data)
        to = Plain(out) if scn["dev"] == "none" else out
        start = out.pos = scn["old"][0] if "old" in scn else len(out.data)
        for i, x in enumerate(items):
            before = bytes(out.data) if kind == "rel" else out.pos
            exc = pos = None
            try:
                if kind == "rec":
                    d = C09.payload(x[1], x[2])
                    pos = record.from_data(x[0], d[: len(d) // 3], d[len(d) // 3 :]).dump(to)
                elif kind == "str":
                    pos = (xstr(x) if i % 2 or x is None else xstr.from_string(x)).dump(to)
                else:
                    Relationship(*x).dump_xml(to)
            except Exception as e:  # noqa: BLE001
                exc = e
            tag = f"{kind} {i}: "
            now = bytes(out.data)
            if kind == "rel":
                if not now.startswith(before):
                    ctx.fail("dump", tag + "what was dumped before is damaged")
            else:
                enc = C16.encoded(kind, x)
                own = now[before : out.top]
                if out.top < before or now[out.top :] != older[out.top :] or (own != enc if exc is None else not enc.startswith(own)):
                    ctx.fail("dump", f"{tag}{len(own)} bytes written instead of {len(enc)}" + (" (failed dump)" if exc else ""))
                if exc is None and pos != before + len(enc):
                    ctx.fail("dump", f"{tag}returned {pos}, its end is at {before + len(enc)}")
                if exc is None and out.pos != before + len(enc):
                    ctx.fail("dump", f"{tag}leaves the stream at {out.pos}, its end is at {before + len(enc)}")
            if exc is not None:
                ctx.flag("dump_failed")
                if out.raised is None and not out.refused:
                    ctx.fail("dump", f"{tag}raised {short(exc)}")
                elif out.raised is not None and exc is not out.raised:
                    ctx.fail("error-lost", f"{tag}{short(exc)} instead of {short(out.raised)}")
                if kind == "rel":
                    del out.data[len(before) :]
                break
            if out.raised is not None or out.refused:
                ctx.fail("error-lost", f"{tag}the stream failed, the dump returned")
                break
            ctx.flag("dumped")
            ends.append(out.pos - start)
        if ctx.violations:
            return
        n = len(ends)
        if kind == "rel":
            blob = bytes(out.data) + b"</Relationships>"
            cut = len(blob) if scn["cut"] == 1.0 else int(scn["cut"] * len(blob))
        else:
            blob = bytes(out.data)[start : out.top]
            cut = len(blob) if scn["cut"] == 1.0 else int(scn["cut"] * len(blob))
            if scn["cutrel"] is not None and ends and scn["cut"] < 1:
                j = min(range(n), key=lambda i: abs(ends[i] - cut))
                cut = max(0, min(len(blob), ends[j] + scn["cutrel"]))
        torn = cut < len(blob)
        if torn:
            ctx.sim.count("fault:torn")
        dev = Device(ctx, blob[:cut], scn)
        got = []
        exc = None
        whole = sum(e <= cut for e in ends)
        try:
            if kind == "rec":
                got = [(int(r.rec_id), bytes(r.data)) for r in scan_biff(dev)]
            elif kind == "str":
                while dev.pos < cut and len(got) <= n:
                    got.append(xstr.load(dev).s)
            else:
                got = [[r.Id, r.Type, r.Target] for r in Relationship.scan_xml(dev)]
        except Exception as e:  # noqa: BLE001
            exc = e
        ctx.sim.record("back", (len(got), cut, len(blob)))
        if dev.raised is not None and exc is not dev.raised:
            ctx.fail("error-lost", f"{short(exc) if exc else 'nothing'} instead of {short(dev.raised)}")
            return
        if kind == "rel":
            if exc is None and (torn or got != [list(x) for x in items[:n]]):
                ctx.fail("back", f"{'torn data accepted' if torn else first_diff(got, [list(x) for x in items[:n]])}")
            elif exc is not None and not torn and dev.raised is None:
                ctx.fail("back", f"raised {short(exc)}")
            return
        exp = [(x[0], C09.payload(x[1], x[2])) if kind == "rec" else x for x in items[:whole]]
        if dev.raised is not None:
            exp = exp[: len(got)]
        if got != exp:
            ctx.fail("back", first_diff(got, exp))
        elif kind == "str" and dev.raised is None:
            inside = cut != (ends[whole - 1] if whole else 0)
            if (exc is not None) != inside:
                ctx.fail("back", f"raised {short(exc)}" if exc is not None else "a torn string was accepted")
        elif exc is not None and dev.raised is None:
            ctx.fail("back", f"raised {short(exc)}")
        if kind == "str":
            for x in items[:4]:
                enc = C16.encoded("str", x)
                if xstr.from_binary(enc).s != x:
                    ctx.fail("back", f"from_binary gives {xstr.from_binary(enc).s!r:.60} instead of {x!r:.60}")

    @staticmethod
    def nontrivial(scn, res):
        return bool(res["flags"].get("dumped"))


class WDevice(_io.RawIOBase):
    """A byte stream that accepts what it likes, may become full, may fail."""

    def __init__(self, ctx, scn, total):
        import random

        self.ctx = ctx
        self.data = bytearray(b"\x5a" * sum(scn.get("old", ())))
        self.pos = self.top = scn["old"][0] if "old" in scn else 0  # position, end of what was written
        self.how = scn["dev"]
        self.accept = scn["accept"] if self.how == "sim" else 0
        self.rng = random.Random(scn["amseed"] ^ 0x5A5A)
        self.werr = scn.get("werr")
        self.room = None
        if self.werr and self.werr[0] == "enospc":
            self.room = int(self.werr[1] * (total + 1)) if self.werr[1] < 1 else self.werr[1] * 7
        self.at = int(self.werr[1] * 20) + 1 if self.werr and self.werr[1] < 1 else self.werr[1] if self.werr else 0
        self.n = 0
        self.raised = None
        self.refused = False

    def writable(self):
        return True

    def seekable(self):
        return True

    def tell(self):
        return self.pos

    def seek(self, off, whence=0):
        self.pos = off if whence == 0 else self.pos + off if whence == 1 else len(self.data) + off
        return self.pos

    def write(self, b):
        import errno

        b = bytes(b)
        self.n += 1
        self.ctx.sim.point("write")
        k = len(b)
        if self.accept and k > 1:
            k = min(k, self.rng.randint(1, self.accept))
            if k < len(b):
                self.ctx.sim.count("fault:short_write")
        if self.room is not None:
            left = self.room - self.pos
            if left <= 0 and b:
                self.ctx.sim.count("fault:enospc")
                self.raised = self.raised or OSError(errno.ENOSPC, "injected")
                raise self.raised
            k = min(k, left)
        elif self.werr and self.n >= self.at and b:
            self.ctx.sim.count("fault:" + self.werr[0])
            if self.werr[0] in ("zero", "block"):
                self.refused = True
                return 0 if self.werr[0] == "zero" else None
            self.raised = self.raised or (OSError(errno.EIO, "injected") if self.werr[0] == "eio" else InterruptedError(errno.EINTR, "injected"))
            raise self.raised
        self.data[self.pos : self.pos + k] = b[:k]
        self.pos += k
        self.top = max(self.top, self.pos)
        return k


class Plain:
    """A writable object that takes everything and does not say so."""

    def __init__(self, dev):
        self.dev = dev
        self.tell, self.seek = dev.tell, dev.seek

    def write(self, b):
        self.dev.write(b)


PROPS = {c.id: c for c in (C01, C02, C03, C04, C05, C06, C07, C08, C09, C10, C11, C12, C13, C14, C15, C16)}
