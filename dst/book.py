"""Workbooks from small specifications, and the reference model of reading them. No rxls code in here.

A specification is JSON:
  {"fmt": "xlsx"|"xlsb", "stored": bool, "salt": int, "ver": int, "tail": int, "extra": int, "sheets": [
      {"name": str, "nrows": int, "pre": int, "precol": int, "hdr": int,
       "cols": [{"k": kind, "nm": null_mod, "fr": 0|1, "len": int, "er": err_mod, "nv": null_value_mod, "dup": int}]}]}

Every cell value is a function of (spec, sheet, row, column), so shrinking rows or columns leaves the other
cells as they were; every value is unique within and across versions, so it names the cell it came from.
"""

from __future__ import annotations

import io
import struct
import zipfile
import zlib
from xml.sax.saxutils import escape, quoteattr

XLSX_KINDS = ("s", "t", "g", "n", "d")
XLSB_KINDS = ("s", "t", "f", "n", "m", "k", "kf", "d", "kd", "b")
STR_KINDS = {"s", "t", "f", "g"}
TMP_KINDS = {"d", "kd"}
NULL_TEXT = "NIL"
ERR_TEXT = "#N/A"
TAILS = ("", "", "", " & <b>\"q\"'", " Жук", " 漢字", " \U0001f600", " a  b")


def h(*a) -> int:
    return zlib.crc32(repr(a).encode())


def uid(spec, si, r, ci) -> int:
    # unique up to 16 columns, 8192*2 rows, 4 sheets, 8 versions
    return r * 16 + ci + si * (1 << 18) + int(spec.get("ver", 0)) * (1 << 20)


def rows_total(sh) -> int:
    return sh["pre"] + sh["hdr"] + sh["nrows"]


def cell_value(spec, si, r, ci):
    """(kind, value) of the stored cell or None. kind 'e' is an error cell, value None."""
    sh = spec["sheets"][si]
    c = sh["cols"][ci]
    pre, hdr = sh["pre"], sh["hdr"]
    if r < pre:
        if ci == sh.get("precol", 0) % len(sh["cols"]):
            return ("t" if c["k"] not in ("s",) else "s"), f"note{spec.get('ver', 0)}.{si}.{r}"
        return None
    if r < pre + hdr:
        return ("s" if (r + ci) % 3 else "t"), f"H{r - pre}.{c.get('hn', ci)}"
    salt = spec["salt"]
    nm = c.get("nm", 0)
    if ci and nm and h(salt, "null", si, r, ci) % nm == 0:
        return None
    er = c.get("er", 0)
    if ci and er and h(salt, "err", si, r, ci) % er == 0:
        return "e", None
    gap = sh.get("gap", 0)
    if gap and h(salt, "gap", si, r) % gap == 0:
        return None
    u = uid(spec, si, r, ci)
    k = c["k"]
    if k == "w":
        return wild_value(spec, si, r, ci, c, u)
    if k in ("s", "t", "f"):
        nv = c.get("nv", 0)
        if ci and nv and h(salt, "nv", si, r, ci) % nv == 0:
            return k, (ERR_TEXT if nv % 2 else NULL_TEXT)
        d = c.get("dup", 0)
        if d and k == "s":
            u = uid(spec, si, r - r % (d + 1), ci)
        t = f"v{u}" + TAILS[h(salt, "tail", u) % len(TAILS)]
        ln = c.get("len", 0)
        if ln and h(salt, "len", u) % 7 == 0:
            t += "." + "abcdefghij" * (ln // 10) + "!"
        return k, t
    fr = (0.0, 0.5, 0.25, 0.75)[h(salt, "fr", u) % 4] if c.get("fr") else 0.0
    if k in ("g", "n", "m"):
        return k, u + fr
    if k == "k":
        return k, float(u % (1 << 28))
    if k == "kf":
        return k, (u % 5_000_000) + fr
    if k == "d":
        return k, 30000 + (u % 40000) + fr
    if k == "kd":
        return k, float(30000 + (u % 40000))
    if k == "b":
        return k, float(h(salt, "bool", u) % 2)
    raise AssertionError(k)


LOOKS = ("word", "int", "float", "iso", "isot", "rus", "time", "null")


def wild_value(spec, si, r, ci, c, u):
    """A cell of a column of mixed types: the kind changes in stretches, texts may look like numbers and dates."""
    salt = spec["salt"]
    mix = c["mix"]
    k = mix[h(salt, "mix", si, r // max(1, c.get("run", 1)), ci) % len(mix)]
    if ":" in k:
        k, look = k.split(":")
        y = h(salt, "look", u)
        t = {
            "word": f"v{u}",
            "int": str(u),
            "float": f"{u}.{y % 100:02d}",
            "iso": f"20{y % 30 + 10}-{y % 12 + 1:02d}-{y % 28 + 1:02d}",
            "isot": f"20{y % 30 + 10}-{y % 12 + 1:02d}-{y % 28 + 1:02d} {y % 24:02d}:{y % 60:02d}:{y // 7 % 60:02d}",
            "rus": f"{y % 28 + 1:02d}.{y % 12 + 1:02d}.20{y % 30 + 10}",
            "time": f"{y % 24:02d}:{y % 60:02d}",
            "null": NULL_TEXT,
        }[look]
        return k, t
    fr = (0.0, 0.5, 0.25, 0.75)[h(salt, "fr", u) % 4] if c.get("fr") else 0.0
    if k == "tiny":  # equal to an integer only if few digits count
        return ("n" if "n" in mix else "g" if spec["fmt"] == "xlsx" else "n"), u + 0.0001
    if k in ("g", "n", "m"):
        return k, u + fr
    if k in ("k", "kf"):
        return k, float(u % (1 << 22)) + (fr if k == "kf" else 0)
    if k in ("d", "kd"):
        return k, 30000 + (u % 40000) + (fr if k == "d" else 0)
    return k, float(u % 2)


# --------------------------------------------------------------------------- writing: common
def shared_table(spec):
    """Texts of the shared strings in order of first use, and their index (extra unused ones interleaved)."""
    idx: dict[str, int] = {}
    out: list[str] = [f"pad{i}" for i in range(int(spec.get("sstpad", 0)))]
    extra = int(spec.get("extra", 0))
    for si, sh in enumerate(spec["sheets"]):
        for r in range(rows_total(sh)):
            for ci in range(len(sh["cols"])):
                v = cell_value(spec, si, r, ci)
                if v and v[0] == "s" and v[1] not in idx:
                    if extra and len(out) % (extra + 1) == extra:
                        out.append(f"unused{len(out)}")
                    idx[v[1]] = len(out)
                    out.append(v[1])
    return out, idx


def num_text(v: float) -> str:
    return str(int(v)) if v == int(v) else repr(v)


def colname(i: int) -> str:
    s = ""
    i += 1
    while i:
        i, m = divmod(i - 1, 26)
        s = chr(65 + m) + s
    return s


def col_at(sh, ci) -> int:
    """Sheet column of a specified column."""
    return sh["cols"][ci].get("at", ci)


def ser_offset(sh) -> int:
    return 0


# --------------------------------------------------------------------------- writing: xlsx
STYLES_XLSX = (
    '<?xml version="1.0" encoding="UTF-8" standalone="yes"?>\n<styleSheet xmlns="http://schemas.openxmlformats.org/spreadsheetml/2006/main">'
    '<numFmts count="2"><numFmt numFmtId="164" formatCode="yyyy\\-mm\\-dd\\ hh:mm"/><numFmt numFmtId="165" formatCode="#,##0.00;[Red]\\-#,##0.00"/></numFmts>'
    '<fonts count="1"><font><sz val="11"/></font></fonts><fills count="1"><fill/></fills><borders count="1"><border/></borders>'
    '<cellStyleXfs count="1"><xf numFmtId="0" fontId="0" fillId="0" borderId="0"/></cellStyleXfs>'
    '<cellXfs count="6"><xf numFmtId="0" fontId="0" xfId="0"/><xf numFmtId="1" xfId="0"/><xf numFmtId="2" xfId="0"/>'
    '<xf numFmtId="14" xfId="0"/><xf numFmtId="164" xfId="0"/><xf numFmtId="165" xfId="0"/></cellXfs>'
    "</styleSheet>"
)


def style(spec, i: int) -> str | int:
    """Place of cell format i in the file's style table."""
    n = 5 if spec["fmt"] == "xlsx" else 4
    return i if not i else 1 + int(spec.get("xfpad", 0)) + (i - 1 + int(spec.get("rot", 0))) % n


def xf_pad(spec) -> list:
    """Built-in number formats of cell formats that no cell uses."""
    return [(0, 14, 2, 22)[h(spec["salt"], "xf", j) % 4] for j in range(int(spec.get("xfpad", 0)))]


def styles_xlsx(spec) -> str:
    a, b = STYLES_XLSX.index('<xf numFmtId="1" xfId="0"/>'), STYLES_XLSX.index("</cellXfs>")
    xfs = STYLES_XLSX[a:b].replace("><", ">\n<").split("\n")
    pad = [f'<xf numFmtId="{x}" xfId="0"/>' for x in xf_pad(spec)]
    out = pad + [""] * len(xfs)
    for i, x in enumerate(xfs):
        out[style(spec, i + 1) - 1] = x
    e = STYLES_XLSX.index("</styleSheet>")
    more = "".join(f'<dxf><font><color rgb="{x}"/></font></dxf>' for x in ptail(spec, "styles"))
    return STYLES_XLSX[:a].replace('<cellXfs count="6">', f'<cellXfs count="{len(out) + 1}">') + "".join(out) + STYLES_XLSX[b:e] + (f"<dxfs>{more}</dxfs>" if more else "") + STYLES_XLSX[e:]


def ptail(spec, part):
    """What follows the data of interest in a part other than a sheet."""
    for i in range(int(spec.get("ptail", {}).get(part, 0))):
        yield f'{h(spec["salt"], part, i):08X}{h(i, part, spec["salt"]):08X}'


def _rels(items, root=False) -> str:
    ns = "http://schemas.openxmlformats.org/officeDocument/2006/relationships"
    body = "".join(f'<Relationship Id="{i}" Type="{ns}/{t}" Target="{x}"/>' for i, t, x in items)
    return f'<?xml version="1.0" encoding="UTF-8" standalone="yes"?>\n<Relationships xmlns="http://schemas.openxmlformats.org/package/2006/relationships">{body}</Relationships>'


def extent(spec, si):
    """First and last row and column, or nothing: streaming writers do not know them."""
    sh = spec["sheets"][si]
    if h(spec["salt"], "dim", si) % 10 < 3 or not rows_total(sh) or not sh["cols"]:
        return None
    return 0, rows_total(sh) - 1, col_at(sh, 0), col_at(sh, len(sh["cols"]) - 1)


def dim_xlsx(spec, si) -> str:
    e = extent(spec, si)
    return f"{colname(e[2])}{e[0] + 1}:{colname(e[3])}{e[1] + 1}" if e else "A1"


def dim_xlsb(spec, si) -> bytes:
    return struct.pack("<IIII", *(extent(spec, si) or (0, 0, 0, 0)))


def parts_xlsx(spec) -> dict[str, bytes]:
    sst, sidx = shared_table(spec)
    parts: dict[str, str] = {}
    parts["[Content_Types].xml"] = '<?xml version="1.0" encoding="UTF-8"?><Types xmlns="http://schemas.openxmlformats.org/package/2006/content-types"><Default Extension="xml" ContentType="application/xml"/></Types>'
    parts["_rels/.rels"] = _rels([("rId1", "officeDocument", "xl/workbook.xml")])
    n = len(spec["sheets"])
    rel = [(f"rId{i + 1}", "worksheet", sheet_part(spec, i)[3:]) for i in range(n)]
    if spec.get("perm"):
        rel.reverse()
    rel += [(f"rId{n + 1}", "styles", "styles.xml"), (f"rId{n + 2}", "sharedStrings", "sharedStrings.xml")]
    parts["xl/_rels/workbook.xml.rels"] = _rels(rel)
    parts["xl/workbook.xml"] = (
        '<?xml version="1.0" encoding="UTF-8" standalone="yes"?>\n<workbook xmlns="http://schemas.openxmlformats.org/spreadsheetml/2006/main" xmlns:r="http://schemas.openxmlformats.org/officeDocument/2006/relationships"><sheets>'
        + "".join(f'<sheet name={quoteattr(s["name"])} sheetId="{i + 1}" r:id="rId{i + 1}"/>' for i, s in enumerate(spec["sheets"]))
        + "</sheets>"
        + (f"<definedNames>{names}</definedNames>" if (names := "".join(f'<definedName name="_{x}">{x}</definedName>' for x in ptail(spec, "workbook"))) else "")
        + "</workbook>"
    )
    parts["xl/styles.xml"] = styles_xlsx(spec)
    if not spec.get("nosst") or sst:
        parts["xl/sharedStrings.xml"] = (
            f'<?xml version="1.0" encoding="UTF-8" standalone="yes"?>\n<sst xmlns="http://schemas.openxmlformats.org/spreadsheetml/2006/main" count="{len(sst) + h(spec["salt"], "refs") % 50}" uniqueCount="{len(sst)}">'
            + "".join(f'<si><t xml:space="preserve">{escape(t)}</t></si>' for t in sst)
            + (f"<extLst>{exts}</extLst>" if (exts := "".join(f'<ext uri="{x}"/>' for x in ptail(spec, "sst"))) else "")
            + "</sst>"
        )
    nl = "\n" if spec.get("nl") else ""
    for si, sh in enumerate(spec["sheets"]):
        b = [
            '<?xml version="1.0" encoding="UTF-8" standalone="yes"?>\n<worksheet xmlns="http://schemas.openxmlformats.org/spreadsheetml/2006/main" xmlns:r="http://schemas.openxmlformats.org/officeDocument/2006/relationships">'
            f'<dimension ref="{dim_xlsx(spec, si)}"/><sheetViews><sheetView workbookViewId="0"/></sheetViews><sheetFormatPr defaultRowHeight="15"/><cols><col min="1" max="1" width="9.1"/></cols><sheetData>'
        ]
        for r in range(rows_total(sh)):
            b.append(f'{nl}<row r="{r + 1}" spans="{col_at(sh, 0) + 1}:{col_at(sh, len(sh["cols"]) - 1) + 1}">')
            for ci in range(len(sh["cols"])):
                v = cell_value(spec, si, r, ci)
                ref = f'{colname(col_at(sh, ci))}{r + 1}'
                if v is None:
                    if h(spec["salt"], "blank", r, ci) % 3 == 0:
                        b.append(f'<c r="{ref}" s="1"/>')
                    continue
                k, x = v
                if k == "s":
                    b.append(f'<c r="{ref}" t="s"><v>{sidx[x]}</v></c>')
                elif k in ("t", "f"):
                    b.append(f'<c r="{ref}" t="str"><f>A{r + 1}&amp;"z"</f><v>{escape(x)}</v></c>')
                elif k == "g":
                    b.append(f'<c r="{ref}"><v>{num_text(x)}</v></c>')
                elif k == "n":
                    b.append(f'<c r="{ref}" s="{style(spec, (1, 2, 5)[uid(spec, si, r, ci) // 16 % 3] if not sh["cols"][ci].get("one") else 1)}"><v>{num_text(x)}</v></c>')
                elif k == "d":
                    b.append(f'<c r="{ref}" s="{style(spec, 3 + uid(spec, si, r, ci) // 16 % 2)}"><v>{num_text(x)}</v></c>')
                elif k == "e":
                    b.append(f'<c r="{ref}" t="e"><v>{ERR_TEXT}</v></c>')
            b.append("</row>")
        b.append("</sheetData>")
        tail = int(spec.get("tail", 0))
        if tail:
            b.append(f'<hyperlinks>' + "".join(f'<hyperlink ref="A{i + 1}" r:id="rId{i}x{h(spec["salt"], i) % 99991}" display="d{h(i, 1) % 9973}"/>' for i in range(tail)) + "</hyperlinks>")
        b.append("</worksheet>")
        parts[sheet_part(spec, si)] = "".join(b)
    return {k: v.encode("utf-8") for k, v in parts.items()}


# --------------------------------------------------------------------------- writing: xlsb
def rec(id: int, data: bytes = b"") -> bytes:
    """One BIFF12 record, written from the format description (MS-XLSB 2.1.4)."""
    out = bytearray()
    if id < 0x80:
        out.append(id)
    else:
        out.append(id & 0x7F | 0x80)
        out.append(id >> 7)
    n = len(data)
    while True:
        b = n & 0x7F
        n >>= 7
        if n:
            out.append(b | 0x80)
        else:
            out.append(b)
            break
    return bytes(out) + data


def wstr(s: str) -> bytes:
    b = s.encode("utf-16-le")
    return struct.pack("<I", len(b) // 2) + b


def rk(v: float) -> bytes:
    if v == int(v) and -(1 << 29) <= v < (1 << 29):
        return struct.pack("<I", (int(v) << 2 & 0xFFFFFFFF) | 2)
    c = v * 100
    assert c == int(c) and abs(c) < (1 << 29), v
    return struct.pack("<I", (int(c) << 2 & 0xFFFFFFFF) | 3)


def xlsb_cell(k, x, col, style, sidx) -> bytes:
    head = struct.pack("<I", col) + struct.pack("<I", style)[:3] + b"\0"
    if k == "s":
        return rec(7, head + struct.pack("<I", sidx[x]))
    if k == "t":
        return rec(6, head + wstr(x))
    if k == "f":
        return rec(8, head + wstr(x) + b"\0\0" + struct.pack("<II", 3, 0) + b"\x17\x00\x00")
    if k in ("n", "d"):
        return rec(5, head + struct.pack("<d", x))
    if k == "m":
        return rec(9, head + struct.pack("<d", x) + b"\0\0" + struct.pack("<II", 3, 0) + b"\x1e\x01\x00")
    if k in ("k", "kf", "kd"):
        return rec(2, head + rk(x))
    if k == "b":
        return rec(4, head + bytes([int(x)]))
    if k == "e":
        return rec(3, head + b"\x2a")
    raise AssertionError(k)


def ramp(first: int, n: int) -> bytes:
    first &= 0xFF
    return (bytes(range(256)) * ((first + n) // 256 + 1))[first : first + n]


def sheet_xlsb(spec, si, sidx) -> list[tuple[str, bytes]]:
    """The records of a sheet, labelled, so that damage can be placed by meaning."""
    sh = spec["sheets"][si]
    out = [("begin", rec(129)), ("prop", rec(147, bytes(range(23)))), ("dim", rec(148, dim_xlsb(spec, si))), ("cols", rec(390) + rec(60, bytes(18)) + rec(391)), ("data", rec(145))]
    for r in range(rows_total(sh)):
        out.append((f"row{r}", rec(0, struct.pack("<II", r, 0) + bytes([0x2C, 1, 0, 0, 0]) + struct.pack("<III", 1, col_at(sh, 0), col_at(sh, len(sh["cols"]) - 1)))))
        if spec.get("junk") and h(spec["salt"], "junk", r) % 5 == 0:
            out.append((f"junk{r}", rec(49, bytes(4)) + rec(1025 + r % 3, ramp(h(r), h(spec["salt"], "jl", r) % int(spec["junk"])))))
        for ci in range(len(sh["cols"])):
            v = cell_value(spec, si, r, ci)
            if v is None:
                if h(spec["salt"], "blank", r, ci) % 3 == 0:
                    out.append((f"blank{r}", rec(1, struct.pack("<I", col_at(sh, ci)) + b"\x01\0\0\0")))
                continue
            k, x = v
            xf = style(spec, 3 + uid(spec, si, r, ci) // 16 % 2) if k in TMP_KINDS else 0
            out.append((f"cell{r}.{ci}.{k}", xlsb_cell(k, x, col_at(sh, ci), xf, sidx)))
    out.append(("enddata", rec(146)))
    for i in range(int(spec.get("tail", 0))):
        out.append(("tail", rec(176, struct.pack("<IIII", i, i + 1, 0, h(spec["salt"], i) % 9973))))
    out.append(("end", rec(130)))
    return out


def styles_xlsb(spec) -> bytes:
    xf = lambda parent, fmt: rec(47, struct.pack("<HH", parent, fmt) + bytes(12))  # noqa: E731
    b = rec(278) + rec(615, struct.pack("<I", 1)) + rec(44, struct.pack("<H", 164) + wstr("yyyy\\-mm\\-dd")) + rec(616)
    b += rec(626, struct.pack("<I", 1)) + xf(0xFFFF, 0) + rec(627)
    b += rec(617, struct.pack("<I", 5 + int(spec.get("xfpad", 0)))) + xf(0, 0) + b"".join(xf(0, f) for f in xf_pad(spec)) + b"".join(xf(0, f) for f in sorted((1, 2, 14, 164), key=lambda f: style(spec, 1 + (1, 2, 14, 164).index(f)))) + rec(618)
    b += b"".join(rec(507, x.encode()) for x in ptail(spec, "styles"))
    return b + rec(279)


def parts_xlsb(spec) -> dict[str, bytes]:
    sst, sidx = shared_table(spec)
    parts: dict[str, bytes] = {}
    parts["[Content_Types].xml"] = b'<?xml version="1.0" encoding="UTF-8"?><Types xmlns="http://schemas.openxmlformats.org/package/2006/content-types"><Default Extension="bin" ContentType="application/vnd.ms-excel.sheet.binary.macroEnabled.main"/></Types>'
    parts["_rels/.rels"] = _rels([("rId1", "officeDocument", "xl/workbook.bin")]).encode()
    n = len(spec["sheets"])
    rel = [(f"rId{i + 1}", "worksheet", sheet_part(spec, i)[3:]) for i in range(n)]
    if spec.get("perm"):
        rel.reverse()
    rel += [(f"rId{n + 1}", "styles", "styles.bin"), (f"rId{n + 2}", "sharedStrings", "sharedStrings.bin")]
    parts["xl/_rels/workbook.bin.rels"] = _rels(rel).encode()
    parts["xl/workbook.bin"] = (
        rec(131) + rec(128, b"\0" * 20 + wstr("xl") + wstr("7")) + rec(143)
        + b"".join(rec(156, struct.pack("<II", 0, i + 1) + wstr(f"rId{i + 1}") + wstr(s["name"])) for i, s in enumerate(spec["sheets"]))
        + rec(144) + b"".join(rec(39, x.encode()) for x in ptail(spec, "workbook")) + rec(132)
    )
    parts["xl/styles.bin"] = styles_xlsb(spec)
    if not spec.get("nosst") or sst:
        parts["xl/sharedStrings.bin"] = rec(159, struct.pack("<II", len(sst) + h(spec["salt"], "refs") % 50, len(sst))) + b"".join(rec(19, b"\0" + wstr(t)) for t in sst) + rec(160) + b"".join(rec(1025, x.encode()) for x in ptail(spec, "sst"))
    for si in range(n):
        parts[sheet_part(spec, si)] = b"".join(b for _, b in sheet_xlsb(spec, si, sidx))
    return parts


# --------------------------------------------------------------------------- container
def make_parts(spec) -> dict[str, bytes]:
    return parts_xlsx(spec) if spec["fmt"] == "xlsx" else parts_xlsb(spec)


def pack(parts: dict[str, bytes], *, stored=False, level=6, order_salt=0) -> bytes:
    f = io.BytesIO()
    with zipfile.ZipFile(f, "w", zipfile.ZIP_STORED if stored else zipfile.ZIP_DEFLATED) as z:
        names = list(parts)
        if order_salt:
            names = names[:1] + sorted(names[1:], key=lambda n: h(order_salt, n))
        for n in names:
            zi = zipfile.ZipInfo(n, (2024, 1, 1, 0, 0, 0))
            zi.compress_type = zipfile.ZIP_STORED if stored else zipfile.ZIP_DEFLATED
            z.writestr(zi, parts[n], compresslevel=level)
    return f.getvalue()


_last: list = [None, b""]


def build(spec) -> bytes:
    key = repr(spec)
    if _last[0] != key:
        _last[:] = [key, _build(spec)]
    return _last[1]


def _build(spec) -> bytes:
    return pack(make_parts(spec), stored=bool(spec.get("stored")), level=int(spec.get("level", 6)), order_salt=int(spec.get("order", 0)))


def layout(data: bytes) -> list[tuple[str, int, int]]:
    """(part, start, end) of the stored bytes of every part (local header included), then the directory."""
    with zipfile.ZipFile(io.BytesIO(data)) as z:
        infos = sorted(z.infolist(), key=lambda i: i.header_offset)
        start = z.start_dir
    out = []
    for i, zi in enumerate(infos):
        end = infos[i + 1].header_offset if i + 1 < len(infos) else start
        out.append((zi.filename, zi.header_offset, end))
    out.append(("<directory>", start, len(data)))
    return out


def sheet_part(spec, si) -> str:
    n = si if not spec.get("perm") else (si + 1) % len(spec["sheets"])
    return f"xl/worksheets/sheet{n + 1}." + ("xml" if spec["fmt"] == "xlsx" else "bin")


def sst_part(spec) -> str:
    return "xl/sharedStrings." + ("xml" if spec["fmt"] == "xlsx" else "bin")


# --------------------------------------------------------------------------- reference model
class Expected(Exception):
    """The model says: this call raises."""


def is_null_text(opts, text: str) -> bool:
    nv = opts.get("null_values")
    if text == ERR_TEXT:
        return True
    if nv is None:
        return False
    if nv == "callable":
        return text == NULL_TEXT
    return text in nv


def model_cells(spec, si, opts) -> list[tuple[int, int, str, object]]:
    """Cells an iteration delivers: (row, sheet column, kind, value), in file order."""
    sh = spec["sheets"][si]
    skip = opts.get("skip_rows", 0)
    take = opts.get("take_rows", 0)
    skipc = set(opts.get("skip_cols") or ())
    n = rows_total(sh)
    last = n - 1 if not take else min(n - 1, skip + take)
    out = []
    for r in range(skip, last + 1):
        for ci in range(len(sh["cols"])):
            v = cell_value(spec, si, r, ci)
            if v is None or v[0] == "e" or col_at(sh, ci) in skipc:
                continue
            k, x = v
            if k in ("s", "t", "f") and is_null_text(opts, x):
                continue
            if spec["fmt"] == "xlsx" and k == "f":
                k = "t"
            out.append((r - skip, col_at(sh, ci), k, x))
    return out


def model_columns(spec, si, opts) -> dict[int, dict[int, tuple[str, object]]]:
    cols: dict[int, dict[int, tuple[str, object]]] = {}
    for r, c, k, x in model_cells(spec, si, opts):
        cols.setdefault(c, {})[r] = (k, x)
    return cols


def cls(kind: str) -> str:
    return "s" if kind in STR_KINDS else "d" if kind in TMP_KINDS else "n"


def ms(v: float) -> int:
    return int((v - 25569.0) * 86_400_000.0)


def model_array(vals: list):
    """Expected (type name, values) of a column slice of (kind, value) or None entries."""
    import pyarrow as pa

    kinds = {cls(v[0]) for v in vals if v is not None}
    if kinds == {"n"}:
        xs = [None if v is None else float(v[1]) for v in vals]
        if all(x is None or x == int(x) for x in xs):
            return pa.array([None if x is None else int(x) for x in xs], pa.int64())
        return pa.array(xs, pa.float64())
    if kinds == {"d"}:
        return pa.array([None if v is None else ms(v[1]) for v in vals], pa.timestamp("ms"))
    out = []
    for v in vals:
        if v is None:
            out.append(None)
        elif cls(v[0]) == "s":
            out.append(v[1] if isinstance(v[1], str) else num_text(v[1]))
        elif cls(v[0]) == "d":
            out.append(pa.array([ms(v[1])], pa.timestamp("ms")).cast(pa.large_string())[0].as_py())
        else:
            out.append(pa.array([float(v[1])], pa.float64()).cast(pa.large_string())[0].as_py())
    return pa.array(out, pa.large_string())


def model_heads(cols, order, first, hh) -> list[str]:
    """Rows first..first+hh of every column, joined top-down; upper rows left empty are those of the left neighbour."""
    import pyarrow as pa

    heads = []
    prev: dict[int, str] = {}
    for c in order:
        texts = model_array([cols[c].get(r) for r in range(first, first + hh)]).cast(pa.large_string()).to_pylist()
        if hh == 1:
            heads.append(texts[0] or "Unnamed")
            continue
        own = {i: t for i, t in enumerate(texts) if t is not None}
        if not own:
            heads.append("Unnamed")
            continue
        parts = dict(enumerate(texts))
        parts.update({i: t for i, t in prev.items() if i < min(own)})
        prev = parts
        heads.append(", ".join(parts[i] for i in sorted(parts) if parts[i]) or "Unnamed")
    return heads


def model_read(spec, sheet, opts) -> tuple[list[str], list]:
    """Expected (names, arrays) of read(); raises Expected where a read of the intact file raises."""
    import re

    names = [s["name"] for s in spec["sheets"]]
    if isinstance(sheet, int):
        if not 0 <= sheet < len(names):
            raise Expected("IndexError")
        si = sheet
    else:
        if sheet not in names:
            raise Expected("KeyError")
        si = names.index(sheet)
    cols = model_columns(spec, si, opts)
    order = sorted(cols)
    if not cols:
        raise Expected("ValueError")
    n = max(max(c) for c in cols.values()) + 1
    first = 0
    lk = opts.get("lookup_head")
    if lk is not None:
        first = -1
        if isinstance(lk, int):
            first = min(cols[lk])
        else:
            size = opts.get("lookup_size", 30)
            for r in range(min(size, n)):
                if any(r in cols[c] and cls(cols[c][r][0]) == "s" and re.search(lk, str(cols[c][r][1])) for c in order):
                    first = r
                    break
        if first < 0:
            raise Expected("ValueError")
    hd = opts.get("header", 0)
    hh = 0
    if isinstance(hd, list):
        if len(hd) != len(order):
            raise Expected("ValueError")
        heads = list(hd)
    elif hd:
        hh = int(hd)
        heads = model_heads(cols, order, first, hh)
    else:
        heads = [f"Unnamed. {i}" for i in range(len(order))]
    start = first + hh + opts.get("skip_rows_after_header", 0)
    rows = list(range(start, n))
    rf = opts.get("row_filters")
    if rf:
        if isinstance(rf, str):
            sel = [c for nme, c in zip(heads, order) if re.match(rf, nme)]
        else:
            sel = [c for nme, c in zip(heads, order) if any(re.match(x, nme) for x in rf)]
        st = opts.get("row_filters_strategy", "or")
        f = any if st == "or" else all
        if sel:
            rows = [r for r in rows if f(r in cols[c] for c in sel)]
            if not rows:
                raise Expected("ValueError")
    arrays = [model_array([cols[c].get(r) for r in rows]) for c in order]
    dt = opts.get("dtypes")
    if dt is not None:
        import pyarrow as pa

        if isinstance(dt, int) and dt != len(arrays):
            raise Expected("ValueError")
        if dt == "str" or isinstance(dt, int):
            arrays = [a.cast(pa.large_string()) for a in arrays]
        else:
            arrays = [a.cast(pa.large_string()) if nme in dt else a for nme, a in zip(heads, arrays)]
    return heads, arrays


def same_table(table, exp) -> str | None:
    """None when equal, else a short description of the first difference."""
    heads, arrays = exp
    if list(table.column_names) != list(heads):
        return f"columns {table.column_names!r} instead of {heads!r}"
    for i, (nme, a) in enumerate(zip(heads, arrays)):
        c = table.column(i)
        if len(c) != len(a):
            return f"{len(c)} rows instead of {len(a)}"
        if c.type != a.type:
            return f"column {nme!r} has type {c.type} instead of {a.type}"
        x, y = (c.cast("int64").to_pylist(), a.cast("int64").to_pylist()) if str(a.type).startswith("timestamp") else (c.to_pylist(), a.to_pylist())
        if x != y:
            for r, (p, q) in enumerate(zip(x, y)):
                if p != q:
                    return f"column {nme!r} row {r}: {str(p)[:60]!r} instead of {str(q)[:60]!r}"
    return None
