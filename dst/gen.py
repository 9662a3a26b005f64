"""Scenario generation: everything from one random.Random."""

from __future__ import annotations

from . import book

LONG = (0, 0, 0, 40, 300)


def gen_cols(rng, fmt, n, *, kinds=None, nulls=True, long=True):
    pool = list(kinds or (book.XLSX_KINDS if fmt == "xlsx" else book.XLSB_KINDS))
    cols = []
    at = 0
    for ci in range(n):
        if rng.random() < 0.15:
            at += rng.choice((1, 2, 24)) if rng.random() < 0.85 else rng.choice((230, 250, 690, 4000))
        c = {"k": rng.choice(pool)}
        if nulls and ci and rng.random() < 0.4:
            c["nm"] = rng.choice((2, 3, 5))
        if ci and rng.random() < 0.12:
            c["er"] = 6
        if rng.random() < 0.35:
            c["fr"] = 1
        if c["k"] in ("s", "t", "f"):
            if ci and rng.random() < 0.3:
                c["nv"] = rng.choice((4, 5))
            if long:
                ln = rng.choice(LONG)
                if ln:
                    c["len"] = ln
        if c["k"] == "s" and rng.random() < 0.3:
            c["dup"] = rng.choice((1, 3))
        if c["k"] == "n" and rng.random() < 0.5:
            c["one"] = 1
        if at != ci:
            c["at"] = at
        at += 1
        cols.append(c)
    return cols


def gen_rows(rng, big=0.05):
    x = rng.random()
    if x < 0.2:
        return rng.randint(1, 6)
    if x < 0.7:
        return rng.randint(5, 40)
    if x < 1 - big:
        return rng.randint(40, 160)
    if x < 1 - big * 0.2:
        return rng.randint(160, 700)
    return rng.randint(1500, 4000)


def gen_spec(rng, *, fmt=None, rows=None, ncols=None, sheets=None, kinds=None, ver=0, big=0.05, long=True, nulls=True, pre=True, huge=0.0):
    fmt = fmt or ("xlsx" if rng.random() < 0.58 else "xlsb")
    ns = sheets or (1 if rng.random() < 0.6 else rng.randint(2, 3))
    if ns == 3 and rng.random() < 0.12:  # more sheets than digits
        ns = rng.randint(10, 12)
    sh = []
    for i in range(ns):
        s = {
            "name": ("Data", "Лист & <2>", "x y")[i % 3] + (f" {i}" if i > 2 else ""),
            "nrows": rows if rows is not None else gen_rows(rng, big) if ns < 4 else rng.randint(1, 12),
            "pre": rng.choice((0, 0, 0, 1, 2)) if pre else 0,
            "precol": rng.randint(0, 3),
            "hdr": rng.choice((0, 1, 1, 1, 2)),
            "cols": gen_cols(rng, fmt, ncols or rng.randint(1, 5), kinds=kinds, long=long, nulls=nulls),
        }
        if s["nrows"] > 1000:  # a long sheet, of about 5000 cells
            del s["cols"][2:]
        sh.append(s)
    spec = {"fmt": fmt, "stored": int(rng.random() < 0.35), "salt": rng.randrange(1 << 20), "ver": ver, "sheets": sh}
    if rng.random() < 0.4:
        spec["tail"] = rng.choice((1, 20, 400))
    if rng.random() < 0.15:
        spec["ptail"] = {rng.choice(("sst", "styles", "workbook")): rng.choice((3, 300, 1200))}
    if rng.random() < 0.3:
        spec["extra"] = rng.randint(1, 3)
    if rng.random() < 0.3:
        spec["nl"] = 1
    if fmt == "xlsb" and rng.random() < 0.3:
        spec["junk"] = rng.choice((4, 200, 20000))
    if rng.random() < 0.3:
        spec["order"] = rng.randint(1, 99)
    if rng.random() < 0.3:
        spec["level"] = rng.choice((1, 9))
    if rng.random() < 0.2:
        spec["nosst"] = 1
    if rng.random() < 0.3:
        spec["rot"] = rng.randint(1, 4)
    if len(sh) > 1 and rng.random() < 0.4:
        spec["perm"] = 1
    if rng.random() < 0.06:
        spec["xfpad"] = rng.choice((10, 124, 250, 300))
    if rng.random() < 0.12:  # equal column names
        for s in sh:
            for ci, c in enumerate(s["cols"]):
                if rng.random() < 0.8:
                    c["hn"] = 0
    if long and rng.random() < huge:
        # text longer than any buffer on the way
        cand = [c for s in sh for c in s["cols"] if c["k"] in ("s", "t", "f")]
        if cand:
            rng.choice(cand)["len"] = rng.choice((9000, 20000, 70000))
            for s in sh:
                s["nrows"] = min(s["nrows"], 30)
    return spec


def gen_wild(rng, spec):
    """Turn a workbook into one with mixed columns and blank rows; the reference is then the code itself, alone and calm."""
    spec["wild"] = 1
    texts = [f"{k}:{x}" for k in ("s", "t") for x in book.LOOKS]
    pool = texts + ["tiny", "n", "d"] * 4 + (["g"] * 3 if spec["fmt"] == "xlsx" else ["f:word", "f:iso", "m", "k", "kf", "kd", "b"])
    for sh in spec["sheets"]:
        if rng.random() < 0.4:
            sh["gap"] = rng.choice((2, 3, 7))
        for c in sh["cols"]:
            if rng.random() < 0.75:
                x = rng.random()
                if x < 0.3:  # dates and what may become one
                    mix = rng.sample([p for p in pool if p in ("d", "kd") or p.endswith(("iso", "isot", "rus", "int"))], 2)
                elif x < 0.55:
                    mix = rng.sample([p for p in pool if p in ("n", "tiny", "k", "kf", "m", "b", "g") or p.endswith(("int", "float"))], 2)
                else:
                    mix = rng.sample(pool, rng.randint(1, 4))
                for k in ("er", "nv", "len", "dup", "one"):
                    c.pop(k, None)
                c.update(k="w", mix=mix, run=rng.choice((1, 1, 2, 7, 100)))
    return spec


def gen_wild_opts(rng, spec, si, *, take=True):
    sh = spec["sheets"][si]
    n = book.rows_total(sh)
    nc = len(sh["cols"])
    at = lambda: book.col_at(sh, rng.randrange(nc))  # noqa: E731
    o = {}
    put = lambda p, k, *v: rng.random() < p and o.__setitem__(k, rng.choice(v))  # noqa: E731
    put(0.5, "header", 1, 1, 2, True, [f"c{i}" for i in range(nc)], [f" Col {i}" for i in range(nc)])
    put(0.2, "lookup_head", "^H0", "v", "1", at(), 0)
    if "lookup_head" in o:
        put(0.2, "lookup_size", 1, 3)
    put(0.2, "skip_rows", 1, 2, rng.randrange(n))
    put(0.15, "skip_rows_after_header", 1, 2)
    if take:
        put(0.2, "take_rows", rng.randint(1, n + 1))
    put(0.4, "take_rows_non_empty", True)
    put(0.15, "skip_cols", [at()], [at(), at()])
    put(0.15, "row_filters", "^H0", "c0", [0], [rng.randrange(nc), rng.randrange(nc)], ["^H", "c"])
    if "row_filters" in o:
        put(0.6, "row_filters_strategy", "or", "and", ["and"], ["or"])
    put(0.85, "conflict_resolve", "all", "all", "temporal", "numeric", "no")
    put(0.4, "datetime_formats", "%d.%m.%Y", "%Y-%m-%d", ["%d.%m.%Y", "%Y-%m-%d %H:%M:%S"], ["%Y-%m-%d"], ["%H:%M"])
    put(0.4, "float_precision", 0, 1, 2, 3, 5)
    put(0.4, "null_values", "callable", [book.NULL_TEXT], ["zzz"])
    put(0.15, "dtypes", "str", nc, "float64", "int64", ["H0.0", "c0", "Unnamed. 0"])
    return o


def gen_dates(rng, spec):
    spec["wild"] = 1
    for sh in spec["sheets"]:
        for c in sh["cols"]:
            for k in ("er", "nv", "len", "dup", "one"):
                c.pop(k, None)
            t = rng.sample(("rus", "rus", "iso", "isot"), rng.choice((1, 1, 2)))
            c.update(k="w", mix=[rng.choice(("d", "d", "n"))] + [f"{rng.choice('st')}:{x}" for x in t], run=rng.choice((1, 2, 100)))


def gen_date_opts(rng):
    o = {"header": 1, "conflict_resolve": rng.choice(("all", "all", "temporal", "numeric", "no"))}
    x = rng.choice((None, "%d.%m.%Y", "%Y-%m-%d", ["%Y-%m-%d", "%d.%m.%Y"], ["%d.%m.%Y"], "%Y-%m-%d %H:%M:%S", ["%Y-%m-%dT%H:%M:%S", "%Y-%m-%d %H:%M:%S"]))
    if x is not None:
        o["datetime_formats"] = x
    return o


def flood(rng, scn):
    """A sheet with far more cells than the consumer takes before it stops."""
    spec = scn["books"]["a"]
    if spec["fmt"] != "xlsx":
        return
    k = rng.choice(("t", "n"))
    for s in spec["sheets"]:
        s["nrows"] = 3
    s = spec["sheets"][scn["si"]]
    s.update(nrows=rng.choice((400, 900, 2500)), pre=0, cols=[{"k": k, "one": 1} for _ in range(5)])
    scn["sched"]["lines"] = []
    scn["opts"] = {}
    scn["iter"] = 1
    scn["leave"] = [rng.choice(("close", "del", "throw", "raise")), rng.choice((0, 1, 30))]
    scn["faults"] = []
    scn["max_steps"] = steps_budget(scn)


def gen_null(rng, *specs):
    """Which texts count as null: a predicate or a list, sometimes one with many of the book's own shared texts."""
    x = rng.choice(("callable", [book.NULL_TEXT], [book.NULL_TEXT, "zzz"]))
    if x != "callable" and rng.random() < 0.2:
        first = {v[1] for spec in specs for si, sh in enumerate(spec["sheets"]) for r in range(book.rows_total(sh)) if (v := book.cell_value(spec, si, r, 0)) and v[0] == "s"}
        own = [t for t in book.shared_table(specs[0])[0] if t.startswith("v") and t not in first]
        x = [book.NULL_TEXT, *rng.sample(own, min(len(own), rng.choice((1, 3, 30, 100))))]
    return x


def gen_opts(rng, spec, si, *, take=False, simple=False):
    sh = spec["sheets"][si]
    o = {}
    n = book.rows_total(sh)
    pre, hdr = sh["pre"], sh["hdr"]
    if rng.random() < 0.4:
        o["null_values"] = gen_null(rng, spec)
    if simple:
        return o
    if rng.random() < 0.5:
        o["take_rows_non_empty"] = True
    mode = rng.random()
    if pre and mode < 0.4:
        o["skip_rows"] = pre
    elif pre and hdr and mode < 0.7:
        o["lookup_head"] = "^H0"
    elif mode < 0.85 and hdr and not pre:
        pass
    elif n > 3 and mode > 0.92:
        o["skip_rows"] = rng.randint(1, n - 2)
    at_header = (o.get("skip_rows", 0) == pre) or "lookup_head" in o
    if hdr and at_header:
        x = rng.random()
        if x < 0.7:
            o["header"] = hdr if sh["nrows"] >= 1 else 1
        if rng.random() < 0.15 and sh["nrows"] > 2:
            o["skip_rows_after_header"] = 1
    elif rng.random() < 0.1:
        o["header"] = [rng.choice(("c{}", "Col {} ", "x")).format(i) for i in range(len(sh["cols"]))]
    if len(sh["cols"]) > 1 and rng.random() < 0.12 and not isinstance(o.get("header"), list):
        c = rng.randint(1, len(sh["cols"]) - 1)
        if not (pre and c == sh.get("precol", 0) % len(sh["cols"])):  # rows must not become empty
            o["skip_cols"] = [book.col_at(sh, c)]
    if o.get("header") and not isinstance(o["header"], list) and rng.random() < 0.15:
        c = rng.randrange(len(sh["cols"]))
        o["row_filters"] = f"^H0\\.{c}"
        if rng.random() < 0.4:
            o["row_filters"] = [o["row_filters"], f"^H0\\.{rng.randrange(len(sh['cols']))}"]
            o["row_filters_strategy"] = rng.choice(("and", "or"))
    if rng.random() < 0.15:
        o["dtypes"] = rng.choice(("str", sorted({f"H0.{c.get('hn', i)}" for i, c in enumerate(sh["cols"]) if rng.random() < 0.6}), len(sh["cols"])))
    if take and n > 2:
        lo = o.get("skip_rows", 0)
        head = (o.get("header", 0) if not isinstance(o.get("header"), list) else 0) + o.get("skip_rows_after_header", 0) + (pre if "lookup_head" in o else 0)
        o["take_rows"] = rng.randint(max(1, head), max(1, head, n - lo + 2))
    return o


def gen_sched(rng, *, steps=4000, lines=None):
    if lines is None:
        x = rng.random()
        lines = [] if x < 0.25 else ["/rxls/"] if x < 0.65 else ["/rxls/", "/zipfile/"]
    s = {"seed": rng.randrange(1 << 30), "lines": lines}
    x = rng.random()
    if x < 0.1:
        s["policy"] = "none"
    elif x < 0.5:
        s["policy"] = "random"
        s["p"] = rng.choice((0.3, 0.1, 0.03, 0.01, 0.003))
    elif x < 0.7:
        s["policy"] = "pct"
        s["depth"] = rng.randint(1, 6)
        s["horizon"] = max(50, int(steps * rng.choice((0.05, 0.3, 1.0)))) if lines else rng.choice((40, 200))
    elif x < 0.78:
        s["policy"] = "first"
    elif x < 0.86:
        s["policy"] = "last"
    else:
        s["policy"] = "rr"
        s["quantum"] = rng.choice((1, 2, 7, 50, 400))
    return s


def gen_io(rng):
    if rng.random() < 0.5:
        return {}
    io = {"seed": rng.randrange(1 << 30), "p": rng.choice((0.02, 0.2, 0.7, 1.0)), "mean": rng.choice((0.0001, 0.01, 1.0))}
    if rng.random() < 0.4:
        io["chunky"] = rng.choice((64, 512, 1000, 4096))
    return io


def est_ops(spec, opts=None):
    """Rough number of device reads of one read()."""
    cells = sum(book.rows_total(s) * len(s["cols"]) for s in spec["sheets"])
    return 16 + cells * (40 if spec.get("stored") else 8) // 4096 + (8 if spec["fmt"] == "xlsx" else 6)


def est_steps(spec):
    cells = sum(book.rows_total(s) * len(s["cols"]) for s in spec["sheets"])
    return 800 + cells * 30


def pick_op(rng, spec):
    n = est_ops(spec)
    return rng.randrange(n) if rng.random() < 0.8 else rng.randrange(n, n * 3)


def gen_stall(rng, spec, n=2):
    out = []
    for _ in range(rng.randint(0, n)):
        out.append({"k": "stall", "op": pick_op(rng, spec), "d": rng.choice((0.01, 5.0, 600.0))})
    return out


def steps_budget(scn) -> int:
    """Generous, but proportional to the input."""
    t = 0
    for s in scn["books"].values():
        for sh in s["sheets"]:
            cells = book.rows_total(sh) * (len(sh["cols"]) + 2)
            t += cells * 400 + sum(c.get("len", 0) for c in sh["cols"]) * book.rows_total(sh) // 4
        t += (int(s.get("tail", 0)) + sum(s.get("ptail", {}).values())) * 600 + int(s.get("junk", 0)) * 20 + int(s.get("xfpad", 0)) * 40 + int(s.get("sstpad", 0)) * 40
    return 60_000 + t * 2
