"""Writes known-findings.json (commits are looked up by their subject)."""
import json, os, subprocess
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h\t%s"], capture_output=True, text=True, check=True).stdout
H = {s[5:] if s.startswith("fix: ") else s: h for h, s in (x.split("\t", 1) for x in log.splitlines())}
FIXED = [
    ("C09", "scan_biff survives", "records were lost or garbled when a read returned fewer bytes than asked for; a torn tail raised IndexError or yielded a short record; streams that cannot seek failed"),
    ("C01", "xlsb parts are read to their end", "an .xlsb sheet cut off by damage was returned as a shorter table, and its checksum was never verified"),
    ("C08", "xlsb parts are read to their end", "an .xlsb sheet overwritten while being read was returned as a mix of two versions"),
    ("C14", "skip_rows alone", "skip_rows without take_rows made an .xlsx read stop early or loop"),
    ("C02", "skip_rows alone", "skipped empty rows did not advance the row number of .xlsx sheets"),
    ("C03", "failures of the xlsx worker", "an exception in the parser thread (callback, predicate, storage, malformed XML) was lost and the read returned a shorter table or blocked"),
    ("C01", "failures of the xlsx worker", "a storage error in the parser thread gave a short table"),
    ("C04", "failures of the xlsx worker", "a failing parser thread left the caller waiting for ever"),
    ("C05", "failures of the xlsx worker", "the parser thread, the row callbacks and the open file outlived a stopped iteration"),
    ("C02", "xlsx texts longer", "texts longer than the parser's buffer lost all but their last piece"),
    ("C02", "workbooks without shared strings", "a workbook without a shared-string part could not be read"),
    ("C06", "workbooks without shared strings", "a failed read of a workbook without shared strings left a half-initialised object"),
    ("C11", "null shared strings", "null shared strings were cells or no cells depending on what had been loaded before"),
    ("C11", "xlsb error strings", ".xlsb error cells depended on the load order"),
    ("C02", "xlsb error strings", ".xlsb error texts were cells"),
    ("C13", "damaged cell data", "out-of-range and non-numeric shared-string references read memory outside of the shared strings (crash or foreign text)"),
    ("C12", "extraction of a column", "extracting a column consumed or changed it, so that a repeat or a retry after a failed allocation gave another result"),
    ("C06", "header-only tables", "tables with only a header, and columns with leading nulls, had a wrong length"),
    ("C02", "header-only tables", "columns with leading nulls had a wrong length"),
    ("C12", "shared strings of a temporal", "a column of dates and shared strings could not be converted to dates"),
    ("C05", "a file that is no workbook", "a file that turned out to be no workbook of the expected kind was left open"),
    ("C03", "lack of memory in a cast", "a failed allocation in the cast to the requested type was reported as a column that cannot be cast"),
    ("C01", "xlsb shared strings", ".xlsb shared strings cut off by damage were accepted and their cells silently became null"),
    ("C01", "styles or sheet list", ".xlsb styles cut off were accepted and dates were silently returned as plain numbers; a sheet list cut off was shorter"),
    ("C16", "dumped strings are read back", "a dumped string carried a byte order mark and a wrong size, so that its last characters were lost on loading; a string cut off was loaded as a shorter one"),
    ("C16", "dumps are written whole", "a dump to a stream that accepts a part of the data at once lost the rest of the record, string or relationship"),
    ("C16", "a dump to a raw stream", "a raw stream that would block accepts nothing and returns None: the dump returned as if it had written everything"),
    ("C16", "attributes of dumped", "a relationship holding &, <, a quote or a line break was dumped as malformed or different XML"),
    ("C09", "scanning by compiled code", "with numba, scanning a stream that ends inside a record never ended (shown on the same source run without compilation)"),
    ("C15", "parts of an earlier opening", "a workbook object opened again on a changed file answered from the parts of the earlier file, mixing two versions"),
]
out = {"known": [], "fixed": []}
for pid, sub, what in FIXED:
    h = [v for k, v in H.items() if k.startswith(sub)]
    assert len(h) == 1, sub
    out["fixed"].append(f"fixed: property={pid} {h[0]} {what}")
with open(os.path.join(ROOT, "known-findings.json"), "w") as f:
    json.dump(out, f, indent=1)
    f.write("\n")
