#!/usr/bin/env python3
"""Source of properties.jsonl (kept here so that the long lines stay editable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, title
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
                  why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech],
                               observe_at=list(observe), hook_needed=hook)))
NOT = "The six existing tests only round-trip three BIFF records in memory; "
prop("C01", "A read over misbehaving storage is complete or fails loudly",
     "Reading a whole sheet from an .xlsx or .xlsb file whose storage misbehaves at any point (a read error, data ending early, flipped, zeroed or torn stored bytes, any part of the workbook cut short) either raises an exception or returns exactly the table of the intact workbook. It never returns a table in which rows, cells or text are missing or altered.",
     ["fault_sequences", "inputs", "schedules"], "every fault kind at every storage operation or byte of every part, for both formats, stored or deflated, under every schedule",
     NOT + "no test opens a workbook or injects a storage fault.",
     ["rxls/reader/common.py", "rxls/reader/xlsx.py", "rxls/reader/xlsb.py", "rxls/biff.py", "rxls/rels.py"],
     [("background sheet parser and its end marker", "rxls/reader/xlsx.py iter_worksheet"), ("record scanner stopping at end of data", "rxls/biff.py scan_biff"), ("zip member checksum, verified only when a member is read to its end", "rxls/reader/xlsb.py iter_worksheet")],
     [("cell queue", "cells parsed so far; the end marker says the sheet is complete", "rxls/reader/xlsx.py")],
     ["rxls.reader.read"])
prop("C02", "The table does not depend on scheduling or timing",
     "For every interleaving of the calling thread with the reader's background work, and every delay or stall of either side or of the storage, a read returns the same table. Each cell of the selected sheet appears exactly once, in its own row and column, with its full value, whatever the amounts in which the data arrive.",
     ["schedules", "inputs"], "all interleavings, stalls and latencies, workbooks of all sizes (from one row to many parser and decompressor buffers), both formats",
     NOT + "the threaded reader is not executed by any test, and a test run would see one schedule.",
     ["rxls/reader/xlsx.py", "rxls/reader/common.py", "rxls/series.py"],
     [("producer thread, queue and end marker", "rxls/reader/xlsx.py iter_worksheet"), ("column accumulation in row order", "rxls/series.py add")],
     [("cell queue", "hand-over between parser thread and caller", "rxls/reader/xlsx.py")],
     ["rxls.reader.read"])
prop("C03", "Failures of background work reach the caller",
     "An exception raised while a sheet is being read, by the caller's row callback or null-value predicate, by malformed sheet data, or by a failing system call or allocation, reaches the caller of the read as that same exception, in both formats and under every schedule. No table is returned, and nothing is reported only on another thread.",
     ["schedules", "fault_sequences"], "every failing site, at its n-th activation for every n, exception types including MemoryError and KeyboardInterrupt, under every schedule",
     NOT + "no test passes a callback or makes anything fail.",
     ["rxls/reader/xlsx.py", "rxls/reader/xlsb.py", "rxls/reader/common.py"],
     [("exception path of the parser thread", "rxls/reader/xlsx.py worker"), ("callback invocation", "rxls/reader/xlsb.py iter_worksheet")],
     observe=["rxls.reader.read", "threading.excepthook"])
prop("C04", "Every read and every iteration finishes",
     "Every read and every cell iteration returns or raises after a number of steps bounded by the size of its input, whatever faults hit storage, stored bytes, callbacks, allocations or thread creation, and whichever side stops first. The caller is never left waiting for work that has ended, nor background work for a caller that has gone.",
     ["schedules", "fault_sequences", "inputs"], "all schedules, fault sequences and byte damages; bound: a fixed number of simulated steps per input byte and cell after the last fault",
     NOT + "liveness needs all schedules and all fault points.",
     ["rxls/reader/xlsx.py", "rxls/biff.py", "rxls/reader/xlsb.py"],
     [("end marker put on every exit path", "rxls/reader/xlsx.py worker"), ("scanner ending on exhausted data", "rxls/biff.py scan_biff")],
     observe=["rxls.reader.read", "XlsxWorkbook.iter_worksheet", "XlsbWorkbook.iter_worksheet"])
prop("C05", "Nothing of a call outlives it",
     "When a read has returned or raised, or a cell iteration has been exhausted, closed early, or interrupted, none of its background work is left: no thread of it is alive, no callback is made any more, and every file handle it opened is closed (for an iteration: once its workbook is closed). Abandoning an iteration at any instant is silent: it produces no uncaught exception anywhere.",
     ["schedules", "crash_points", "fault_sequences"], "abandonment (close, interrupt, failure in the consumer) at every cell and every instant of the background work",
     NOT + "no test abandons a read.",
     ["rxls/reader/xlsx.py", "rxls/reader/xlsb.py", "rxls/reader/common.py"],
     [("generator clean-up and thread life time", "rxls/reader/xlsx.py iter_worksheet"), ("workbook context managers", "rxls/reader/xlsx.py __exit__, rxls/reader/xlsb.py __exit__")],
     observe=["XlsxWorkbook.iter_worksheet", "XlsbWorkbook.iter_worksheet", "rxls.reader.read"])
prop("C06", "Earlier, failed or abandoned reads leave no trace",
     "In any history of reads in one process over the same paths and streams, including reads that failed, were abandoned midway, or saw the file before it changed, each read gives what it would give as the first read of a fresh process. A stream the caller passed in is left open, and the caller's argument objects are left unmodified.",
     ["histories", "fault_sequences"], "all histories of reads, iterations, faults and file changes on shared paths and streams",
     NOT + "no test performs two reads.",
     ["rxls/reader/common.py", "rxls/reader/xlsx.py", "rxls/reader/xlsb.py", "rxls/series.py", "rxls/biff_recs.py"],
     [("all reader state is per call", "rxls/reader/common.py read"), ("per-workbook lazily loaded parts", "rxls/reader/xlsx.py, rxls/reader/xlsb.py")],
     observe=["rxls.reader.read"])
prop("C07", "Concurrent reads are isolated from each other",
     "Reads running at the same time in several caller threads, on the same path or on different files, and several cell iterations interleaved over one open workbook, and reads made from inside a callback of another one, each give exactly what they give when run alone. A failure of one does not disturb the others.",
     ["schedules", "histories"], "all interleavings of 2-4 callers (and the reads nested in their callbacks) with each other and with their background threads",
     NOT + "single-threaded.",
     ["rxls/reader/xlsx.py", "rxls/reader/xlsb.py", "rxls/reader/common.py", "rxls/biff.py", "rxls/series.py"],
     [("no state shared between calls", "rxls/reader/*.py"), ("container handle shared by iterations under one lock", "rxls/reader/xlsx.py iter_worksheet")],
     observe=["rxls.reader.read", "XlsxWorkbook.iter_worksheet", "XlsbWorkbook.iter_worksheet"])
prop("C08", "A read sees a single version of a changing file",
     "If the file at a path is replaced, or overwritten in place, by another version while the whole of one of its sheets is being read, the read returns the table of the old version or that of the new version, or raises. It never returns a table that mixes the two.",
     ["schedules", "fault_sequences", "crash_points"], "a replacement or (partial, torn) overwrite at every instant of the read, under every schedule",
     NOT + "no test reads a path.",
     ["rxls/reader/common.py", "rxls/reader/xlsx.py", "rxls/reader/xlsb.py"],
     [("one container handle for all parts of a table", "rxls/reader/xlsx.py __enter__, rxls/reader/xlsb.py __enter__"), ("format detection opens the file separately", "rxls/reader/common.py read")],
     observe=["rxls.reader.read"])
prop("C09", "Binary record streams survive torn tails and short reads",
     "Binary records dumped one after another to a stream that is then cut at any byte are scanned back as exactly the records complete in the prefix, with identical ids and payloads, for all record sizes and selections of ids. This holds however few bytes each read returns and whether or not the stream can seek; a read error is raised, not taken for the end.",
     ["crash_points", "inputs", "fault_sequences"], "every cut position, record sizes across all length-prefix boundaries, every selection, every sequence of short reads and read errors",
     "The existing tests scan one record from an uncut in-memory buffer; no cut, short read, selection or multi-record stream.",
     ["rxls/biff.py", "rxls/biff_recs.py"],
     [("record scanner", "rxls/biff.py scan_biff"), ("record writer and length prefix", "rxls/biff.py record.as_binary, dump_sz")],
     observe=["rxls.biff.scan_biff", "rxls.biff.record.dump"])
prop("C10", "Row progress callbacks are exact and timely",
     "The row callback is called the same number of times under every schedule of the same read, and at least once per delivered row. Before a cell of the n-th delivered row reaches the consumer of the cells the callback has been called at least n times; calls never overlap each other.",
     ["schedules", "inputs"], "all interleavings and stalls of parser, consumer and callback, both formats",
     NOT + "no test passes a callback.",
     ["rxls/reader/xlsx.py", "rxls/reader/xlsb.py", "rxls/reader/common.py"],
     [("callback at row boundaries", "rxls/reader/xlsx.py worker, rxls/reader/xlsb.py iter_worksheet")],
     observe=["row_callback"])
prop("C11", "The order in which workbook parts are loaded does not matter",
     "On an open workbook the sheet list, the shared strings, the styles and the cells of any sheet may be requested in any order, repeatedly, interleaved, and after attempts that failed or were abandoned; each request gives the same answer in every history. In particular, which cells are dropped as null depends only on their text and the null-value rule.",
     ["histories", "fault_sequences", "schedules"], "all histories of part requests, partial iterations and transient faults on one workbook",
     NOT + "no test opens a workbook.",
     ["rxls/reader/xlsx.py", "rxls/reader/xlsb.py"],
     [("lazily loaded, cached parts", "rxls/reader/xlsx.py sheets/shared/styles, rxls/reader/xlsb.py sheets/shared/styles"), ("null shared strings collected while loading", "rxls/reader/xlsx.py shared, rxls/reader/xlsb.py shared")],
     [("set of null shared strings", "filled as a side effect of loading the shared strings", "rxls/reader/xlsx.py, rxls/reader/xlsb.py")],
     ["XlsxWorkbook", "XlsbWorkbook"])
prop("C12", "Column data survive look-ups, repeats and failed extractions",
     "A column built cell by cell gives the same values for every row window or row mask, however additions, header look-ups and extractions are interleaved and repeated, and also after an extraction that failed for lack of memory. Looking at a column never alters what it holds.",
     ["histories", "fault_sequences"], "all histories of additions (with gaps, repeated rows and changing cell types), windows, masks and allocation failures",
     NOT + "the column module is not executed by any test.",
     ["rxls/series.py", "rxls/chunk/chunk.py", "rxls/chunk/casts.py"],
     [("pending and finished chunks", "rxls/series.py add, to_utf8, to_arrow"), ("window selection and lazy in-place preparation", "rxls/chunk/chunk.py take_over, prepare, concatenate")],
     [("finished chunks", "cells already converted to typed runs", "rxls/series.py")],
     ["xl_series.add", "xl_series.to_utf8", "xl_series.to_arrow"])
prop("C13", "Damaged references never reach memory outside the file's data",
     "Structural damage inside a well-formed container (shared-string references out of range, negative, oversized or not numbers; cell records cut off; wrong lengths; arbitrary flipped bytes in a part) makes the read raise, or it returns a table. The process never crashes, and a text cell that refers to a shared string is never filled with anything but the string it refers to.",
     ["inputs", "fault_sequences"], "every damage of every reference, length and record, both formats",
     NOT + "no damaged input is ever read.",
     ["rxls/chunk/arrow.py", "rxls/chunk/casts.py", "rxls/chunk/chunk.py", "rxls/reader/xlsb.py", "rxls/reader/xlsx.py"],
     [("gather of shared strings by index", "rxls/chunk/arrow.py take"), ("typed views over concatenated raw bytes", "rxls/chunk/casts.py _unsafe_data_to_arrow, _unsafe_data_to_array")],
     observe=["rxls.reader.read"])
prop("C14", "A row limit yields an exact prefix and stops the work early",
     "With a row limit, a read yields exactly the rows of the unlimited read up to and including the limit row, under every schedule, and skipping leading rows removes exactly those rows. The reader stops fetching and parsing within a fixed distance after the limit, so that storage faults beyond that distance do not affect the result.",
     ["schedules", "fault_sequences", "inputs"], "all limits, offsets and schedules, both formats, faults placed beyond the limit",
     NOT + "row limits are never exercised.",
     ["rxls/reader/xlsx.py", "rxls/reader/xlsb.py", "rxls/reader/common.py"],
     [("stop signal raised inside the background parser", "rxls/reader/xlsx.py worker"), ("limit test at each row header", "rxls/reader/xlsb.py iter_worksheet")],
     observe=["rxls.reader.read", "row_callback"])
prop("C15", "A workbook object can be opened again and again",
     "A workbook object that is closed and opened again answers in each opening exactly as a new workbook object would for the file as it is then: sheet list, shared strings, styles and cells. This holds whether the file was replaced, spoiled or restored in between, and whether earlier openings, requests or iterations failed or were left midway. Every closing releases its file handle, and so does an opening that fails.",
     ["histories", "fault_sequences"], "all histories of openings, requests, file changes and storage errors on one workbook object, over paths and streams, both formats",
     NOT + "no test opens a workbook, let alone twice with a change between.",
     ["rxls/reader/xlsx.py", "rxls/reader/xlsb.py"],
     [("opening and closing", "rxls/reader/xlsx.py __enter__, rxls/reader/xlsb.py __enter__"), ("lazily loaded parts kept on the object", "rxls/reader/xlsx.py, rxls/reader/xlsb.py sheets, shared, styles")],
     [("cached parts", "what was loaded from the file of the current opening", "rxls/reader/xlsx.py"), ("null_shared", "references whose text counts as null", "rxls/reader/xlsb.py")],
     ["XlsxWorkbook", "XlsbWorkbook"])
prop("C16", "Dumped records, strings and relationships are written whole and read back",
     "Records, strings and relationships dumped to a stream are written whole: whatever part of the data each single write accepts, a dump that returns has added exactly its own bytes, and one that cannot (full disk, failing write, stream refusing data) raises that error and leaves what was dumped before intact. Read back through any short reads, each item is exactly what was dumped; from a stream cut inside a string or relationship list, reading raises.",
     ["fault_sequences", "inputs", "crash_points"], "all items, all splits of writes and reads, a fault at every write, a cut at every byte",
     "The existing tests dump single records to memory, which accepts every write whole; strings and relationships are not dumped at all.",
     ["rxls/biff.py", "rxls/biff_recs.py", "rxls/rels.py", "rxls/core.py"],
     [("record dump", "rxls/biff.py record.dump"), ("string dump and load", "rxls/biff_recs.py xstr"), ("relationship dump and scan", "rxls/rels.py Relationship")],
     observe=["rxls.biff.record", "rxls.biff_recs.xstr", "rxls.rels.Relationship"])
PURE = ["inputs"]
prop("V01", "Cell values are converted exactly",
     "Numbers, packed numbers, booleans, dates, times and strings of a cell are converted to the value Excel shows, for all bit patterns and serial dates.",
     PURE, "all cell values", "The conversions are not executed by any test.",
     ["rxls/chunk/casts.py"], [("vectorised conversions", "rxls/chunk/casts.py")])
prop("V02", "Number formats are classified correctly",
     "A cell is treated as temporal exactly if the first section of its number format, built-in or custom, shows a date or time.",
     PURE, "all number formats and style tables", "No test loads styles.",
     ["rxls/reader/xlsx.py", "rxls/reader/xlsb.py"], [("style scan", "rxls/reader/xlsx.py styles, rxls/reader/xlsb.py styles")])
prop("V03", "Headers are found and composed as documented",
     "The header row is the first row matching the given pattern or column; multi-row headers inherit from their left neighbour and join top-down; names are unique.",
     PURE, "all sheets and header options", "No test reads a header.",
     ["rxls/reader/common.py"], [("header search and composition", "rxls/reader/common.py")])
prop("V04", "Row filters keep exactly the documented rows",
     "With row filters a row is kept exactly if the given combination of and/or over the non-nullness of the selected columns holds.",
     PURE, "all filter lists and strategies", "No test filters rows.",
     ["rxls/reader/common.py"], [("boolean masks", "rxls/reader/common.py read")])
prop("V05", "Type conflicts are resolved as requested",
     "A column mixing types becomes temporal, numeric or text exactly as the conflict option says, losing no value.",
     PURE, "all mixes of types and options", "No test builds a mixed column.",
     ["rxls/chunk/chunk.py"], [("concatenate", "rxls/chunk/chunk.py concatenate")])
prop("V06", "Type overrides are applied to the named columns",
     "A type override casts exactly the columns it names and raises if a value cannot be cast.",
     PURE, "all override forms", "No test passes overrides.",
     ["rxls/reader/common.py"], [("final casts", "rxls/reader/common.py read")])
prop("V07", "Both file formats give the same table",
     "The same workbook saved as .xlsx and as .xlsb reads as equal tables.",
     PURE, "all workbooks", "No test reads either format.",
     ["rxls/reader/xlsx.py", "rxls/reader/xlsb.py"], [("the two readers", "rxls/reader")])
prop("V08", "Packed-number and serial-date encoders invert their decoders",
     "Encoding then decoding a representable number as packed number, or a timestamp as serial date, gives it back.",
     PURE, "all representable values", "The encoders are not executed by any test.",
     ["rxls/chunk/casts.py"], [("f8_to_rk/rk_to_f8, ms_to_f8_win/f8_to_ms_win", "rxls/chunk/casts.py")])
prop("V09", "Empty rows are kept or dropped as requested",
     "Rows without any value are left out of the table unless the caller asks to keep them, in which case they appear in their place.",
     PURE, "all placements of empty rows", "No test reads empty rows.",
     ["rxls/reader/xlsx.py", "rxls/reader/xlsb.py"], [("row counting", "rxls/reader/xlsx.py worker, rxls/reader/xlsb.py iter_worksheet")])
out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
