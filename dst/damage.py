"""Damage inside a part, applied before packing: the container stays well-formed (valid checksums)."""

from __future__ import annotations

import re
import struct

from . import book


def cellref(spec, si, r, ci) -> str:
    return f"{book.colname(book.col_at(spec['sheets'][si], ci))}{r + 1}"


def apply(spec, parts, f, ctx) -> None:
    k = f["k"]
    si = int(f.get("sheet", 0))
    name = ctx.part_name_of(spec, f.get("part", "sheet"), si)
    if name not in parts:
        return
    data = parts[name]
    if not data and k != "nopart":
        return  # an earlier fault has cut all of it
    if k == "cutpart":
        parts[name] = data[: cut_at(spec, si, data, f)]
    elif k == "partflip":
        o = min(len(data) - 1, int(f["frac"] * len(data)))
        b = bytearray(data)
        b[o] ^= 1 << f["bit"]
        parts[name] = bytes(b)
    elif k == "partbyte":
        o = min(len(data) - 1, int(f["frac"] * len(data)))
        b = bytearray(data)
        b[o] = f["val"]
        parts[name] = bytes(b)
    elif k == "partdel":
        o = min(len(data) - 1, int(f["frac"] * len(data)))
        parts[name] = data[:o] + data[o + f["n"] :]
    elif k == "nopart":
        del parts[name]
        f["applied"] = 1
        return
    elif k == "badref":
        parts[name] = bad_ref(spec, si, data, f, ctx)
    elif k == "badrec":
        parts[name] = bad_rec(spec, si, f, ctx)
    elif k == "badxml":
        parts[name] = bad_xml(data, f)
    else:
        raise AssertionError(k)
    if parts[name] != data:
        f["applied"] = 1


def cut_at(spec, si, data, f) -> int:
    if f.get("boundary") and spec["fmt"] == "xlsb" and f.get("part", "sheet") == "sheet":
        # between two records
        recs = book.sheet_xlsb(spec, si, book.shared_table(spec)[1])
        n = int(f["frac"] * len(recs))
        return sum(len(b) for _, b in recs[:n])
    if f.get("boundary") and spec["fmt"] == "xlsb" and f["part"] in ("sst", "styles", "workbook"):
        at, o = [], 0
        try:
            while o < len(data):
                at.append(o)
                _, n, o = read_head(data, o)
                o += n
        except IndexError:
            pass  # damaged before
        return at[int(f["frac"] * len(at))]
    if f.get("boundary") and spec["fmt"] == "xlsx":
        at = [m.start() for m in re.finditer(rb"<row |</row>|<c |<si>|</sheetData>", data)]
        if at:
            return at[min(len(at) - 1, int(f["frac"] * len(at)))]
    return int(f["frac"] * len(data))


def labelled(spec, si, ctx) -> list:
    """The labelled records of the sheet, with the damage done to them so far (applied before all other damage)."""
    memo = ctx.__dict__.setdefault("lab", {})
    key = id(spec), si
    if key not in memo:
        memo[key] = [list(x) for x in book.sheet_xlsb(spec, si, book.shared_table(spec)[1])]
    return memo[key]


def bad_ref(spec, si, data, f, ctx) -> bytes:
    """The shared-string reference of cell (row, col) becomes f['ref']."""
    r, ci = f["row"], f["col"]
    if spec["fmt"] == "xlsx":
        ref = cellref(spec, si, r, ci).encode()
        return re.sub(rb'(<c r="' + ref + rb'" t="s"><v>)\d+(</v>)', lambda m: m.group(1) + str(f["ref"]).encode() + m.group(2), data, count=1)
    recs = labelled(spec, si, ctx)
    for x in recs:
        if x[0] == f"cell{r}.{ci}.s":
            x[1] = x[1][:-4] + struct.pack("<I", int(f["ref"]) & 0xFFFFFFFF)
    return b"".join(b for _, b in recs)


def bad_rec(spec, si, f, ctx) -> bytes:
    """A cell record of an xlsb sheet loses its last bytes, or lies about its length."""
    r, ci = f["row"], f["col"]
    recs = labelled(spec, si, ctx)
    for x in recs:
        lab, b = x
        if lab.startswith(f"cell{r}.{ci}."):
            id, n, off = read_head(b, 0)
            pay = b[off:]
            how = f["how"]
            if how == "cut":
                pay = pay[: max(0, len(pay) - f["n"])]
                b = book.rec(id, pay)
            elif how == "grow":
                b = book.rec(id, pay + bytes(f["n"]))
            elif how == "lie":  # the length field, not the data
                b = b[: off - 1] + bytes([max(0, min(127, len(pay) + f["n"]))]) + pay if len(pay) < 128 else b
            elif how == "strlen" and id in (6, 8):
                b = book.rec(id, pay[:8] + struct.pack("<I", f["n"] & 0xFFFFFFFF) + pay[12:])
            x[1] = b
    return b"".join(b for _, b in recs)


def bad_xml(data, f) -> bytes:
    m = re.search(rb'<row r="%d"' % (f["row"] + 1), data)
    o = m.start() if m else int(0.5 * len(data))
    if f["how"] == "nul":
        return data[:o] + b"\x00" + data[o:]
    if f["how"] == "mismatch":
        return data[:o] + b"</sheetData>" + data[o:]
    if f["how"] == "amp":
        return data[:o] + b"&undefined;" + data[o:]
    if f["how"] == "utf8":
        return data[:o] + b"\xc3(" + data[o:]
    if f["how"] == "dup":
        return data[:o] + b'<row r="1" r="2"></row>' + data[o:]
    return data[:o] + b"<" + data[o:]


def read_head(b: bytes, o: int):
    """(id, size, payload offset) of the record at o; IndexError when cut."""
    id = b[o]
    o += 1
    if id & 0x80:
        id = (id & 0x7F) | (b[o] & 0x7F) << 7
        o += 1
    n = 0
    for i in range(4):
        x = b[o]
        o += 1
        n |= (x & 0x7F) << (7 * i)
        if not x & 0x80:
            break
    return id, n, o


def parse_recs(b: bytes):
    """Complete records of a part: [(id, payload)]."""
    out = []
    o = 0
    try:
        while o < len(b):
            id, n, o = read_head(b, o)
            if o + n > len(b):
                break
            out.append((id, b[o : o + n]))
            o += n
    except IndexError:
        pass
    return out
