From 7a51294207b1886a3d5ada38be5e0cd7b3e1eeba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:28 +0000
Subject: [PATCH 01/22] fix: scan_biff survives short reads and unseekable
 streams

Records are no longer lost when a read returns less than asked for, the
stream needs no seek() (which also disabled the CRC check of stored zip
members), and an IndexError of the stream is not taken for its end.
---
 rxls/biff.py | 41 ++++++++++++++++++++++++++---------------
 1 file changed, 26 insertions(+), 15 deletions(-)

diff --git a/rxls/biff.py b/rxls/biff.py
index 9394c38..c6e9dea 100644
--- a/rxls/biff.py
+++ b/rxls/biff.py
@@ -4,7 +4,6 @@ from __future__ import annotations
 
 __all__ = ["dump_sz", "record", "scan_biff"]
 
-import os
 from io import BytesIO
 from struct import Struct as st
 from typing import TYPE_CHECKING
@@ -211,35 +210,47 @@ if NUMBA_AVAILABLE:  # noqa: PLR1702
 
 else:
 
+    class EndOfStream(Exception):  # noqa: N818
+        """Stream ended before the requested amount of data"""
+
+    def read_exact(io: IO[bytes], size: int) -> bytes:
+        """Read exactly `size` bytes, however few of them each single read returns"""
+        data = io.read(size)
+        if len(data) < size:
+            data = bytearray(data)
+            while len(data) < size and (more := io.read(size - len(data))):
+                data += more
+            if len(data) < size:
+                raise EndOfStream
+        return bytes(data)
+
     def scan_biff(io: IO[bytes], only: set[int] | None = None) -> Iterator[record]:  # noqa: C901
         try:
             while True:
                 # read record id
-                id = io.read(1)[0]
+                id = read_exact(io, 1)[0]
                 if id & 0x80:
-                    id |= io.read(1)[0] << 8
+                    id |= read_exact(io, 1)[0] << 8
 
                 # read record size
-                sz = io.read(1)[0]
+                sz = read_exact(io, 1)[0]
                 if sz & 0x80:
-                    sz = sz ^ 0x80 | (io.read(1)[0] << 7)
+                    sz = sz ^ 0x80 | (read_exact(io, 1)[0] << 7)
                     if sz & 0x4000:
-                        sz = sz ^ 0x4000 | (io.read(1)[0] << 14)
+                        sz = sz ^ 0x4000 | (read_exact(io, 1)[0] << 14)
                         if sz & 0x200000:
-                            sz = sz ^ 0x200000 | (io.read(1)[0] << 21)
+                            sz = sz ^ 0x200000 | (read_exact(io, 1)[0] << 21)
 
                 # read record data if exists and id in x_only set, skip data otherwise
                 if not only or id in only:
                     if sz:
-                        data = io.read(sz)
-                        if len(data) != sz:
-                            break
-
-                        yield record(id, data)
+                        yield record(id, read_exact(io, sz))
                     else:
                         yield record(id, b"")
 
-                elif sz:
-                    io.seek(sz, os.SEEK_CUR)
-        except IndexError:  # , GeneratorExit, StopIteration
+                else:
+                    # ? Not every stream can seek, and seek disables CRC check of zip members
+                    for skip in range(sz, 0, -(2**16)):
+                        read_exact(io, min(skip, 2**16))
+        except EndOfStream:  # , GeneratorExit, StopIteration
             pass
-- 
2.43.0


From f5b838e6645693ddf6418769ea417125b94ea65b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:46 +0000
Subject: [PATCH 02/22] fix: xlsb parts are read to their end, cut off sheets
 are not accepted

The CRC of a zip member is checked when its end is reached, so the sheet
is read on after BrtEndSheetData, and styles are scanned once instead of
seeking back (which disables the check of stored members). A sheet that
ends without BrtEndSheetData raises.
---
 rxls/reader/xlsb.py | 40 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/rxls/reader/xlsb.py b/rxls/reader/xlsb.py
index 0a51fe1..f882114 100644
--- a/rxls/reader/xlsb.py
+++ b/rxls/reader/xlsb.py
@@ -147,20 +147,14 @@ class XlsbWorkbook:  # noqa: D101
         with self.zf.open("xl/styles.bin") as io:
             ret: set[bytes] = set()
             # ! [0]: Get full styles list from styles.bin (3-bytes little-endian XF ID and 2-bytes little-endian FMT ID)
-            xfs: dict[bytes, bytes] = {
-                u2_p(i) + b"\x00": fmt
-                for i, fmt in enumerate(
-                    r.data[2:4]
-                    for r in scan_biff(io, {47})
-                    if r.data[:2] != b"\xff\xff"
-                )
-            }
-            io.seek(0)
+            xfs: dict[bytes, bytes] = {}
             # ! [1]: Get full formats list from custom BrtFmt records (only 1-st format from every record)
-            fms = {
-                r.data[:2]: r.data[2:].decode("utf-16").split(";", 1)[0]
-                for r in scan_biff(io, {44})
-            }
+            fms: dict[bytes, str] = {}
+            for r in scan_biff(io, {44, 47}):
+                if r.rec_id == 44:
+                    fms[r.data[:2]] = r.data[2:].decode("utf-16").split(";", 1)[0]
+                elif r.data[:2] != b"\xff\xff":
+                    xfs[u2_p(len(xfs)) + b"\x00"] = r.data[2:4]
 
             # ! [2]: Check, for each format, that it is temporal. Add XF IDs of BrtXFs using it to result.
             for f_id, fmt in fms.items():
@@ -231,7 +225,7 @@ class XlsbWorkbook:  # noqa: D101
                         row += 1
                     # ? If upcoming row number is greater than take_rows, stop iteration
                     if 0 < take_rows < row:
-                        break
+                        return
 
                     if skip_rows <= row and row_callback:
                         row_callback()
@@ -239,16 +233,15 @@ class XlsbWorkbook:  # noqa: D101
                     is_empty_row = True
                     continue
 
-                # ? If upcoming row number is less than skip_rows, no data processing.
-                if skip_rows > row:
-                    continue
-
                 if r.rec_id == 402:
-                    row += 1
-                    if row_callback:
+                    if skip_rows <= row and row_callback:
                         row_callback()
                     break
 
+                # ? If upcoming row number is less than skip_rows, no data processing.
+                if skip_rows > row:
+                    continue
+
                 (col,) = u4_u(r.data[:4])
 
                 if skip_cols and col in skip_cols:
@@ -301,3 +294,10 @@ class XlsbWorkbook:  # noqa: D101
                     )
 
                 is_empty_row = False
+            else:
+                msg = f"Sheet data is cut off: {sheet_path}"
+                raise ValueError(msg)
+
+            # ? Rest of the part must be read: its CRC is checked at the end only
+            while io.read(2**16):
+                pass
-- 
2.43.0


From ffd6bee7a9b5c803a346c2f4d3e5cfac7d2eb387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:13 +0000
Subject: [PATCH 03/22] fix: skip_rows alone is no row limit, and skipped rows
 always advance the row number

skip_rows made a limit of one row when no take_rows was given; with
take_rows_non_empty=False rows without delivered cells (that is, all the
skipped ones) never advanced the row number, so nothing was read. In
xlsx, skipped and leading empty rows moved the limit.
---
 rxls/reader/xlsb.py |  6 ++++--
 rxls/reader/xlsx.py | 12 ++++++------
 2 files changed, 10 insertions(+), 8 deletions(-)

diff --git a/rxls/reader/xlsb.py b/rxls/reader/xlsb.py
index f882114..8fc9d2c 100644
--- a/rxls/reader/xlsb.py
+++ b/rxls/reader/xlsb.py
@@ -203,7 +203,8 @@ class XlsbWorkbook:  # noqa: D101
         if not isinstance(take_rows, int) or take_rows < 0:
             raise ValueError("Argument `take_rows` must be a positive integer")
 
-        take_rows += skip_rows
+        if take_rows:
+            take_rows += skip_rows
         row = -1
         is_empty_row = False
 
@@ -221,7 +222,8 @@ class XlsbWorkbook:  # noqa: D101
             # * 402: BrtEndSheetData
             for r in scan_biff(io, {0, 2, 4, 5, 6, 7, 8, 9, 10, 402}):
                 if not r.rec_id:
-                    if not is_empty_row or take_rows_non_empty:
+                    # ? Skipped rows are always counted: nothing is known about their cells
+                    if row < skip_rows or not is_empty_row or take_rows_non_empty:
                         row += 1
                     # ? If upcoming row number is greater than take_rows, stop iteration
                     if 0 < take_rows < row:
diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index 39d1a8f..ae496c0 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -284,7 +284,8 @@ class XlsxWorkbook:  # noqa: D101
         if not isinstance(take_rows, int) or take_rows < 0:
             raise ValueError("Argument `take_rows` must be a positive integer")
 
-        take_rows += skip_rows
+        if take_rows:
+            take_rows += skip_rows
 
         def worker(
             io: IO[bytes],
@@ -397,17 +398,16 @@ class XlsxWorkbook:  # noqa: D101
                 if tag == "row":
                     # ? Row number for cells increases here only.
                     # * If row was empty and take_non_empty, do not increase row number
-                    if not is_empty_row or take_non_empty:
+                    # * Skipped rows are always counted: nothing is known about their cells
+                    is_skipped = row < skip_rows
+                    if is_skipped or not is_empty_row or take_non_empty:
                         row += 1
 
                     if callback is not None:
                         callback()
 
-                    if is_empty_row:
-                        take_rows += take_non_empty
-
                     # ? If entire row is empty, just increase max row count
-                    if take_non_empty:
+                    if take_rows and take_non_empty and not is_skipped:
                         take_rows += is_empty_row
                     # ? Simple way to break in generator, that works in background thread
                     if 0 < take_rows < row:
-- 
2.43.0


From 570d9171cf024e7607fe80eedad338d14d3be46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:10 +0000
Subject: [PATCH 04/22] fix: failures of the xlsx worker reach the caller, and
 the worker never outlives the iteration

An error in the worker thread was printed by that thread only, and the
table was returned without the rest of its rows (or the caller waited
forever, when the first callback failed). The worker of an abandoned
iteration went on with a closed file.
---
 rxls/reader/xlsx.py | 42 +++++++++++++++++++++++++++++-------------
 1 file changed, 29 insertions(+), 13 deletions(-)

diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index ae496c0..b20ecc1 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -7,7 +7,7 @@ __all__ = ["XlsxWorkbook"]
 import re
 from functools import cached_property
 from queue import SimpleQueue as Queue
-from threading import Thread
+from threading import Event, Thread
 from typing import TYPE_CHECKING
 from zipfile import ZipFile
 
@@ -299,6 +299,8 @@ class XlsxWorkbook:  # noqa: D101
             o_q: Queue[cell | T],
             sentinel: T,
             callback: Callable[[], None] | None,
+            stopped: Event,
+            failures: list[BaseException],
             /,
         ) -> None:
             tags: list[str] = []
@@ -317,13 +319,13 @@ class XlsxWorkbook:  # noqa: D101
 
             l_tag: str | None = None
 
-            # ? First row started event:
             row += 1
-            if callback is not None:
-                callback()
 
             def cell_sh(tag: str, attrs: dict[str, str]) -> None:
                 nonlocal row, tags, l_col, c_typ, c_row, styles, l_tag, skip_rows
+                # ? Nobody is waiting for cells anymore
+                if stopped.is_set():
+                    raise GeneratorExit
                 if not l_tag:
                     # ? If tags is empty, we are outside of sheet data.
                     if tag == "c" and row >= skip_rows:
@@ -424,23 +426,27 @@ class XlsxWorkbook:  # noqa: D101
             parser.buffer_text = True
 
             try:
+                # ? First row started event:
+                if callback is not None:
+                    callback()
+
                 parser.ParseFile(io)
-            except ValueError as e:
-                if e.args[0] != "read from closed file.":
-                    raise
-            except AttributeError as e:
-                if e.args[0] != "'NoneType' object has no attribute 'tell'":
-                    raise
             except GeneratorExit:
                 pass
+            except BaseException as e:  # noqa: BLE001
+                # ? Will be raised in the consuming thread
+                failures.append(e)
             finally:
                 o_q.put(sentinel)
 
         o_q: Queue[cell] = Queue()
         sentinel = object()
 
+        stopped = Event()
+        failures: list[BaseException] = []
+
         with self.zf.open(sheet_path) as io:
-            Thread(
+            thread = Thread(
                 target=worker,
                 args=(
                     io,
@@ -454,7 +460,17 @@ class XlsxWorkbook:  # noqa: D101
                     o_q,
                     sentinel,
                     row_callback,
+                    stopped,
+                    failures,
                 ),
-            ).start()
+            )
+            thread.start()
+
+            try:
+                yield from iter(o_q.get, sentinel)
+            finally:
+                stopped.set()
+                thread.join()
 
-            yield from iter(o_q.get, sentinel)
+            if failures:
+                raise failures.pop()
-- 
2.43.0


From ad4f5fc34920f1a4bc3fab6cf95c58c185ff389a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:48 +0000
Subject: [PATCH 05/22] fix: xlsx texts longer than the parser's buffer are not
 cut

expat hands over a text longer than its buffer (8 KiB) in several parts;
only the first part of it was kept.
---
 rxls/reader/xlsx.py | 30 +++++++++++++++++++-----------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index b20ecc1..2b38b6f 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -161,22 +161,22 @@ class XlsxWorkbook:  # noqa: D101
 
         with self.zf.open("xl/sharedStrings.xml") as io:
             must_be = False
+            # ? Text of element may come in several parts
+            parts: list[str] = []
 
             def cell_sh(tag: str, _: dict[str, str]) -> None:
                 nonlocal must_be
+                parts.clear()
                 if tag == "si":
                     must_be = True
 
-            def cell_th(txt: str) -> None:
+            def cell_eh(tag: str) -> None:
                 nonlocal must_be, ret
-                if must_be and (txt := txt.strip()):
-                    if self.null_values(txt):
-                        return
+                txt = "".join(parts).strip()
+                parts.clear()
+                if must_be and txt and not self.null_values(txt):
                     ret.append(txt)
                     must_be = False
-
-            def cell_eh(tag: str) -> None:
-                nonlocal must_be
                 if tag == "si" and must_be:
                     ret.append(None)  # type: ignore
                     self.null_shared.add(str(len(ret) - 1))
@@ -185,7 +185,7 @@ class XlsxWorkbook:  # noqa: D101
             parser = ParserCreate()
             parser.StartElementHandler = cell_sh
             parser.EndElementHandler = cell_eh
-            parser.CharacterDataHandler = cell_th
+            parser.CharacterDataHandler = parts.append
             parser.buffer_text = True
 
             parser.ParseFile(io)
@@ -319,6 +319,9 @@ class XlsxWorkbook:  # noqa: D101
 
             l_tag: str | None = None
 
+            # ? Text of element may come in several parts
+            parts: list[str] = []
+
             row += 1
 
             def cell_sh(tag: str, attrs: dict[str, str]) -> None:
@@ -326,6 +329,7 @@ class XlsxWorkbook:  # noqa: D101
                 # ? Nobody is waiting for cells anymore
                 if stopped.is_set():
                     raise GeneratorExit
+                parts.clear()
                 if not l_tag:
                     # ? If tags is empty, we are outside of sheet data.
                     if tag == "c" and row >= skip_rows:
@@ -366,7 +370,7 @@ class XlsxWorkbook:  # noqa: D101
                 if skip_rows > row:
                     return
 
-                if l_tag == "v" and (txt := txt.strip()):
+                if txt := txt.strip():
                     if is_sharedstr:
                         # ? Check, that shared string number is not in null-shared
                         if txt in nullss:
@@ -396,8 +400,12 @@ class XlsxWorkbook:  # noqa: D101
                 #         last_opened == tag
                 #     ), f"Invalid closing tag: {tag}. Required {last_opened}."
 
+                # ? Value closing tag
+                if tag == "v" and l_tag == "v":
+                    cell_th("".join(parts))
+
                 # ? Row closing tag
-                if tag == "row":
+                elif tag == "row":
                     # ? Row number for cells increases here only.
                     # * If row was empty and take_non_empty, do not increase row number
                     # * Skipped rows are always counted: nothing is known about their cells
@@ -422,7 +430,7 @@ class XlsxWorkbook:  # noqa: D101
             parser = ParserCreate()
             parser.StartElementHandler = cell_sh
             parser.EndElementHandler = cell_eh
-            parser.CharacterDataHandler = cell_th
+            parser.CharacterDataHandler = parts.append
             parser.buffer_text = True
 
             try:
-- 
2.43.0


From 1a3a1e54cfc4655f32ed91173308683082c545a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:48 +0000
Subject: [PATCH 06/22] fix: workbooks without shared strings can be read

---
 rxls/reader/xlsb.py | 4 ++++
 rxls/reader/xlsx.py | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/rxls/reader/xlsb.py b/rxls/reader/xlsb.py
index 8fc9d2c..83e3fa5 100644
--- a/rxls/reader/xlsb.py
+++ b/rxls/reader/xlsb.py
@@ -127,6 +127,10 @@ class XlsbWorkbook:  # noqa: D101
             msg = "Workbook is not open"
             raise RuntimeError(msg)
 
+        # ? Workbook without any string has no such part
+        if "xl/sharedStrings.bin" not in self.zf.namelist():
+            return pa.nulls(0, pa.large_string())
+
         with self.zf.open("xl/sharedStrings.bin") as io:
             return pa.array(
                 (self.null_shared.add(u4_p(i)) or y)
diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index 2b38b6f..9eaac49 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -159,6 +159,10 @@ class XlsxWorkbook:  # noqa: D101
 
         ret: pyarrow.lib.StringBuilder = pyarrow.lib.StringBuilder()
 
+        # ? Workbook without any string has no such part
+        if "xl/sharedStrings.xml" not in self.zf.namelist():
+            return pa.nulls(0, pa.large_string())
+
         with self.zf.open("xl/sharedStrings.xml") as io:
             must_be = False
             # ? Text of element may come in several parts
-- 
2.43.0


From 91cace8d120dea9683528dadb733e9bf35d66040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:49 +0000
Subject: [PATCH 07/22] fix: null shared strings are dropped whether or not
 shared strings were loaded before

The set of null shared strings was taken before the shared strings were
loaded, and in xlsx the null rule was applied to the index of the string
instead of to its text.
---
 rxls/reader/xlsb.py | 4 ++++
 rxls/reader/xlsx.py | 8 ++++++--
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/rxls/reader/xlsb.py b/rxls/reader/xlsb.py
index 83e3fa5..4966971 100644
--- a/rxls/reader/xlsb.py
+++ b/rxls/reader/xlsb.py
@@ -209,6 +209,10 @@ class XlsbWorkbook:  # noqa: D101
 
         if take_rows:
             take_rows += skip_rows
+
+        # ? Null shared strings are known after loading of shared strings only
+        _ = self.shared
+
         row = -1
         is_empty_row = False
 
diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index 9eaac49..08005c6 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -291,6 +291,9 @@ class XlsxWorkbook:  # noqa: D101
         if take_rows:
             take_rows += skip_rows
 
+        # ? Null shared strings are known after loading of shared strings only
+        _ = self.shared
+
         def worker(
             io: IO[bytes],
             styles: dict[str, int],
@@ -329,7 +332,7 @@ class XlsxWorkbook:  # noqa: D101
             row += 1
 
             def cell_sh(tag: str, attrs: dict[str, str]) -> None:
-                nonlocal row, tags, l_col, c_typ, c_row, styles, l_tag, skip_rows
+                nonlocal row, tags, l_col, c_typ, c_row, styles, l_tag, skip_rows, is_sharedstr
                 # ? Nobody is waiting for cells anymore
                 if stopped.is_set():
                     raise GeneratorExit
@@ -341,7 +344,8 @@ class XlsxWorkbook:  # noqa: D101
                         l_col = attrs["r"]
 
                         # ? check, if value is shared string index:
-                        if attrs.get("t") == "s":
+                        is_sharedstr = attrs.get("t") == "s"
+                        if is_sharedstr:
                             c_typ = TYPE_STRING | REPR_SHARED
                         # ? check, if value has temporal or numeric representation
                         elif typ := styles.get(attrs.get("s", "0")):
-- 
2.43.0


From 175d3f1a30ce5c474eefda7329a9632a18691fa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:49 +0000
Subject: [PATCH 08/22] fix: xlsb error strings are null

They are compared with decoded strings, but were kept as utf-16 bytes.
---
 rxls/reader/xlsb.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/rxls/reader/xlsb.py b/rxls/reader/xlsb.py
index 4966971..11158dc 100644
--- a/rxls/reader/xlsb.py
+++ b/rxls/reader/xlsb.py
@@ -35,8 +35,7 @@ re_dt = re.compile(r"(?<!\\)[dmhysDMHYS]")
 re_xt = re.compile(r'(?:".*?")|(?:\[(?!(?:hh?|mm?|ss?)\])[^\]]*\])')
 
 ERROR_STRINGS = frozenset(
-    x.encode("utf-16")
-    for x in (
+    (
         "#NULL!",
         "#DIV/0!",
         "#VALUE!",
@@ -51,7 +50,7 @@ ERROR_STRINGS = frozenset(
         "#ИМЯ?",
         "#ЧИСЛО!",
         "#Н/Д",  # noqa: RUF001
-    )
+    ),
 )
 
 TEMPORAL_STYLES = frozenset(
-- 
2.43.0


From df1d7b153571cc752625e9c84919dbde5c5c2378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:33 +0000
Subject: [PATCH 09/22] fix: damaged cell data never reads memory outside of
 the shared strings

References out of range were taken without bounds check, and numbers out
of range of uint32 wrapped around to some other string. Cells cut off
shifted the values of all cells after them, or made an array longer than
its buffer.
---
 rxls/chunk/arrow.py |  2 +-
 rxls/chunk/casts.py | 13 +++++++++++--
 rxls/chunk/chunk.py |  6 ++----
 3 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/rxls/chunk/arrow.py b/rxls/chunk/arrow.py
index 68915db..b882c8c 100644
--- a/rxls/chunk/arrow.py
+++ b/rxls/chunk/arrow.py
@@ -111,7 +111,7 @@ def and_(x: PaArray, y: PaValue, /) -> pa.BooleanArray:
     raise NotImplementedError
 
 
-@arrow_fn("array_take", pc.TakeOptions(boundscheck=False))
+@arrow_fn("array_take", pc.TakeOptions(boundscheck=True))
 def take(
     arr: MonoArray,
     indices: PaArray | list[int],
diff --git a/rxls/chunk/casts.py b/rxls/chunk/casts.py
index 3182876..380f6d8 100644
--- a/rxls/chunk/casts.py
+++ b/rxls/chunk/casts.py
@@ -483,6 +483,15 @@ def _unsafe_arrow(
     return from_buffers(dtype, len(arr), (None, pa.py_buffer(arr.data)), 0)
 
 
+def _join(data: Iterable[bytes | bytearray | memoryview], size: int) -> bytes:
+    """Join elements, none of which may be longer than `size` bytes. Raises, if some of them are cut off."""
+    ret = b"".join(data)
+    if len(ret) != len(data) * size:  # type: ignore
+        msg = "Cell data is cut off"
+        raise ValueError(msg)
+    return ret
+
+
 def _unsafe_data_to_arrow(
     data: Iterable[bytes | bytearray | memoryview],
     dtype: pa.DataType[T],
@@ -514,7 +523,7 @@ def _unsafe_data_to_arrow(
     return from_buffers(
         dtype,
         len(data),  # type: ignore
-        (None, pa.py_buffer(b"".join(data))),  # type: ignore
+        (None, pa.py_buffer(_join(data, dtype.bit_width // 8))),  # type: ignore
         0,
     )
 
@@ -546,7 +555,7 @@ def _unsafe_data_to_array(
         Numpy array of expected dtype
 
     """
-    return np.frombuffer(b"".join(data), dtype)
+    return np.frombuffer(_join(data, np.dtype(dtype).itemsize), dtype)
 
 
 def _unsafe_bool_arrow_to_numpy(arr: pa.BooleanArray) -> NDArray[np.bool_]:
diff --git a/rxls/chunk/chunk.py b/rxls/chunk/chunk.py
index d0f1841..f499d6a 100644
--- a/rxls/chunk/chunk.py
+++ b/rxls/chunk/chunk.py
@@ -131,10 +131,8 @@ class chunk:  # noqa: D101, N801
             if shareds is None:
                 shareds = EMPTY_SHAREDS
             return chunk(
-                _unsafe_arrow(
-                    _unsafe_strings_to_array(data, np.uint32, data_len),
-                    UI_4,
-                ),
+                # NOTE: numpy wraps numbers that are out of range, pyarrow raises
+                pa.array([int(x) for x in data], UI_4),
                 TYPE_STRING | REPR_SHARED,
                 data_len,
                 shareds,
-- 
2.43.0


From 5c2e5c81be0b7856135124ea5800dba51724151a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:33 +0000
Subject: [PATCH 10/22] fix: extraction of a column leaves the column as it was

Without a window, chunks converted for the result replaced those of the
column; a conversion that failed halfway was applied twice by the next
one; and an offset without a length gave one chunk only.
---
 rxls/chunk/chunk.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/rxls/chunk/chunk.py b/rxls/chunk/chunk.py
index f499d6a..e07affb 100644
--- a/rxls/chunk/chunk.py
+++ b/rxls/chunk/chunk.py
@@ -218,10 +218,13 @@ class chunk:  # noqa: D101, N801
                 self.data = take(self.sref, self.data)  # type: ignore
                 self.type = TYPE_STRING | REPR_PREPARED
             else:
+                # NOTE: Any step may fail, so data must not be replaced before the last one
+                data = self.data
                 if self.type & REPR_RKNUMBER:
-                    self.data = rk_to_f8(self.data)  # type: ignore
+                    data = rk_to_f8(data)  # type: ignore
                 if self.type & REPR_TEMPORAL:
-                    self.data = f8_to_ms_win(self.data)  # type: ignore
+                    data = f8_to_ms_win(data)  # type: ignore
+                self.data = data
                 self.type |= REPR_PREPARED
         return self
 
@@ -405,7 +408,7 @@ class chunk:  # noqa: D101, N801
                 if _chunk.size:
                     result.append(_chunk)
 
-                if cum_len >= length:
+                if length and cum_len >= length:
                     break
 
         if length and cum_len < length:
@@ -454,8 +457,11 @@ class chunk:  # noqa: D101, N801
             pa.Array -- pyarrow.Array
 
         """
+        # NOTE: Original list must remain untouched
         if offset or length or index is not None:
             chunks = chunk.take_over(chunks, offset, length, index)
+        else:
+            chunks = list(chunks)
 
         temp_idx = []
         nums_idx = []
-- 
2.43.0


From d641e9722cbd293a07b05d0a24c73fd02e981dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:42 +0000
Subject: [PATCH 11/22] fix: header-only tables and columns with leading nulls
 have their right length

A window without any row raised, and the length of a column did not count
nulls before its first value.
---
 rxls/chunk/chunk.py | 1 +
 rxls/series.py      | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/rxls/chunk/chunk.py b/rxls/chunk/chunk.py
index e07affb..9f0ee40 100644
--- a/rxls/chunk/chunk.py
+++ b/rxls/chunk/chunk.py
@@ -538,4 +538,5 @@ class chunk:  # noqa: D101, N801
 
         return pa.chunked_array(
             [x.arrow(dest_dtype=dtype) for x in chunks],  # type: ignore
+            type=dtype,
         ).combine_chunks()  # type: ignore
diff --git a/rxls/series.py b/rxls/series.py
index 55c1f88..72f652b 100644
--- a/rxls/series.py
+++ b/rxls/series.py
@@ -70,7 +70,7 @@ class xl_series:  # noqa: N801
         self.__binary = binary
 
     def __len__(self) -> int:
-        return self.__e_row - self.__s_row + 1
+        return self.__e_row + 1
 
     def __pull_chunk(self) -> None:
         """Normalize chunk and add it to underlying list."""
-- 
2.43.0


From 312698d726e2b7e8a5019adbf21d92529d1fa9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:58 +0000
Subject: [PATCH 12/22] fix: shared strings of a temporal column can be
 converted

They were parsed before being taken from the shared strings.
---
 rxls/chunk/chunk.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rxls/chunk/chunk.py b/rxls/chunk/chunk.py
index 9f0ee40..c6b8c27 100644
--- a/rxls/chunk/chunk.py
+++ b/rxls/chunk/chunk.py
@@ -246,7 +246,7 @@ class chunk:  # noqa: D101, N801
                 return chunk(self.data, TYPE_NUMERIC | REPR_TEMPORAL)
             return chunk(self.data, self.type | REPR_TEMPORAL)
         return chunk(
-            mf_strptime(self.data, formats),  # type: ignore
+            mf_strptime(self.arrow(), formats),  # type: ignore
             TYPE_NUMERIC | REPR_TEMPORAL | REPR_PREPARED,
         )  # type: ignore
 
-- 
2.43.0


From cd426229d1f48658f3b236fc1a767258647aad77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:17 +0000
Subject: [PATCH 13/22] fix: xlsb shared strings that are cut off are not
 accepted

---
 rxls/reader/xlsb.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/rxls/reader/xlsb.py b/rxls/reader/xlsb.py
index 11158dc..93a8f75 100644
--- a/rxls/reader/xlsb.py
+++ b/rxls/reader/xlsb.py
@@ -31,6 +31,8 @@ if TYPE_CHECKING:
 
     from typing_extensions import Self
 
+    from ..biff import record
+
 re_dt = re.compile(r"(?<!\\)[dmhysDMHYS]")
 re_xt = re.compile(r'(?:".*?")|(?:\[(?!(?:hh?|mm?|ss?)\])[^\]]*\])')
 
@@ -58,6 +60,18 @@ TEMPORAL_STYLES = frozenset(
 )
 
 
+def scan_complete(io: IO[bytes], only: set[int], end: int) -> Iterator[record]:
+    """Scan whole part, in which record `end` must follow all records of interest."""
+    is_complete = False
+    for r in scan_biff(io, {*only, end}):
+        if r.rec_id == end:
+            is_complete = True
+        else:
+            yield r
+    if not is_complete:
+        raise ValueError("Data is cut off")
+
+
 class XlsbWorkbook:  # noqa: D101
     __slots__ = ("__dict__", "__file", "null_shared", "null_values", "zf")
 
@@ -137,7 +151,7 @@ class XlsbWorkbook:  # noqa: D101
                     y := r.data[5 : 5 + u4_u(r.data[1:5])[0] * 2].decode("utf-16"),
                 )
                 else y
-                for i, r in enumerate(scan_biff(io, {19}))
+                for i, r in enumerate(scan_complete(io, {19}, 416))
             ).cast("large_string")
 
     @cached_property
-- 
2.43.0


From 6af1eeed27d92323bbc11e21532dae3c9035e2e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:45 +0000
Subject: [PATCH 14/22] fix: a file that is no workbook of the expected kind is
 closed

---
 rxls/reader/xlsb.py | 2 ++
 rxls/reader/xlsx.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/rxls/reader/xlsb.py b/rxls/reader/xlsb.py
index 93a8f75..f14c6e3 100644
--- a/rxls/reader/xlsb.py
+++ b/rxls/reader/xlsb.py
@@ -104,6 +104,8 @@ class XlsbWorkbook:  # noqa: D101
     def __enter__(self) -> Self:
         self.zf = ZipFile(self.__file).__enter__()
         if "xl/workbook.bin" not in self.zf.namelist():
+            # ? Exit is not called, when enter fails
+            self.zf.close()
             raise AssertionError("Incorrect xlsb file")
         return self
 
diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index 08005c6..96c4740 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -118,6 +118,8 @@ class XlsxWorkbook:  # noqa: D101
     def __enter__(self) -> Self:
         self.zf = ZipFile(self.__file).__enter__()
         if "xl/workbook.xml" not in self.zf.namelist():
+            # ? Exit is not called, when enter fails
+            self.zf.close()
             raise AssertionError("Invalid xlsx file")
         return self
 
-- 
2.43.0


From 015b9b666ca8164804b9e61e9ba25636e536e416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:10 +0000
Subject: [PATCH 15/22] fix: lack of memory in a cast of a column is not
 reported as a wrong type

---
 rxls/reader/common.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/rxls/reader/common.py b/rxls/reader/common.py
index 8a3a5b3..d3f18e4 100644
--- a/rxls/reader/common.py
+++ b/rxls/reader/common.py
@@ -302,6 +302,8 @@ def read(  # noqa: C901, PLR0914, PLR0912, PLR0915
                 if arrays[i].type.id != dtypes.id:  # type: ignore
                     try:
                         arrays[i] = arrays[i].cast(dtypes)
+                    except MemoryError:
+                        raise
                     except Exception:  # noqa: BLE001
                         msg = f"Column {header[i]} cannot be cast to dtype {dtypes!r}"
                         raise ValueError(
@@ -314,6 +316,8 @@ def read(  # noqa: C901, PLR0914, PLR0912, PLR0915
                     if arrays[i].type.id != dtype.id:
                         try:
                             arrays[i] = arrays[i].cast(dtype)
+                        except MemoryError:
+                            raise
                         except Exception:  # noqa: BLE001
                             msg = f"Column {col} cannot be cast to dtype {dtype!r}"
                             raise ValueError(
@@ -330,6 +334,8 @@ def read(  # noqa: C901, PLR0914, PLR0912, PLR0915
                 if arrays[i].type.id != dtype.id:
                     try:
                         arrays[i] = arrays[i].cast(dtype)
+                    except MemoryError:
+                        raise
                     except Exception:  # noqa: BLE001
                         msg = f"Column {i} ({header[i]!r}) cannot be cast to dtype {dtype!r}"
                         raise ValueError(
-- 
2.43.0


From 279a37828f17f57bf340a0308c3a2bfa73c16a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:41 +0000
Subject: [PATCH 16/22] fix: dumped strings are read back whole, strings that
 are cut off are not accepted

---
 rxls/biff_recs.py | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/rxls/biff_recs.py b/rxls/biff_recs.py
index defd16f..41a3507 100644
--- a/rxls/biff_recs.py
+++ b/rxls/biff_recs.py
@@ -25,6 +25,18 @@ def u44_p(*_: Un[tuple[int, int]]) -> bytes:
     end_decl()
 
 
+def read_exact(io: IO[bytes], size: int) -> bytes:
+    """Read exactly `size` bytes, however few of them each single read returns"""
+    data = io.read(size)
+    while len(data) < size:
+        more = io.read(size - len(data))
+        if not more:
+            msg = "String is cut off"
+            raise EOFError(msg)
+        data += more
+    return data
+
+
 @as_dataclass
 class xstr:
     s: str | None = ""
@@ -35,17 +47,19 @@ class xstr:
 
     @staticmethod
     def load(io: IO[bytes]) -> xstr:
-        (sz,) = u4_u(io.read(4))
+        (sz,) = u4_u(read_exact(io, 4))
         if sz == 0xFFFFFFFF:
             return xstr(None)
-        return xstr(io.read(sz * 2).decode("utf-16"))
+        return xstr(read_exact(io, sz * 2).decode("utf-16-le"))
 
     def dump(self, io: IO[bytes]) -> int:
         if self.s is None:
             io.write(b"\xff\xff\xff\xff")
         elif self.s:
-            io.write(u4_p(len(self.s)))
-            io.write(self.s.encode("utf-16"))
+            # NOTE: Size is a count of utf-16 code units, there is no byte order mark
+            data = self.s.encode("utf-16-le")
+            io.write(u4_p(len(data) // 2))
+            io.write(data)
         else:
             io.write(b"\x00\x00\x00\x00")
 
@@ -53,10 +67,8 @@ class xstr:
 
     @staticmethod
     def from_binary(b: bytes) -> xstr:
-        (sz,) = u4_u(b[:4])
-        if sz == 0xFFFFFFFF:
-            return xstr(None)
-        return xstr(b[4 : 4 + sz * 2].decode("utf-16"))
+        with BytesIO(b) as io:
+            return xstr.load(io)
 
     @staticmethod
     def from_string(s: str) -> xstr:
-- 
2.43.0


From 32f1a147b977909ac14fe079ba303e95382be4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:55 +0000
Subject: [PATCH 17/22] fix: dumps are written whole to streams that accept a
 part of data at once

---
 rxls/biff.py      |  4 ++--
 rxls/biff_recs.py |  9 ++++-----
 rxls/core.py      | 15 ++++++++++++++-
 rxls/rels.py      |  5 +++--
 4 files changed, 23 insertions(+), 10 deletions(-)

diff --git a/rxls/biff.py b/rxls/biff.py
index c6e9dea..00c5913 100644
--- a/rxls/biff.py
+++ b/rxls/biff.py
@@ -9,7 +9,7 @@ from struct import Struct as st
 from typing import TYPE_CHECKING
 
 from .biff_enum import BIFF_ENUM, BIFF_ENUM_REVERSED
-from .core import NUMBA_AVAILABLE, as_dataclass, u1_p, u2_p
+from .core import NUMBA_AVAILABLE, as_dataclass, u1_p, u2_p, write_exact
 
 if TYPE_CHECKING:
     from typing import IO, Iterator
@@ -101,7 +101,7 @@ class record:
         )
 
     def dump(self, io: IO[bytes]) -> int:
-        io.write(self.as_binary())
+        write_exact(io, self.as_binary())
 
         return io.tell()
 
diff --git a/rxls/biff_recs.py b/rxls/biff_recs.py
index 41a3507..3ca4de6 100644
--- a/rxls/biff_recs.py
+++ b/rxls/biff_recs.py
@@ -6,7 +6,7 @@ __all__ = ["xstr", "BrtBundleSh"]
 from io import BytesIO
 from typing import TYPE_CHECKING
 
-from .core import as_dataclass, end_decl, struct_p, struct_u, u4_p, u4_u
+from .core import as_dataclass, end_decl, struct_p, struct_u, u4_p, u4_u, write_exact
 
 if TYPE_CHECKING:
     from typing import IO
@@ -54,14 +54,13 @@ class xstr:
 
     def dump(self, io: IO[bytes]) -> int:
         if self.s is None:
-            io.write(b"\xff\xff\xff\xff")
+            write_exact(io, b"\xff\xff\xff\xff")
         elif self.s:
             # NOTE: Size is a count of utf-16 code units, there is no byte order mark
             data = self.s.encode("utf-16-le")
-            io.write(u4_p(len(data) // 2))
-            io.write(data)
+            write_exact(io, u4_p(len(data) // 2) + data)
         else:
-            io.write(b"\x00\x00\x00\x00")
+            write_exact(io, b"\x00\x00\x00\x00")
 
         return io.tell()
 
diff --git a/rxls/core.py b/rxls/core.py
index 0a22143..97b3c1b 100644
--- a/rxls/core.py
+++ b/rxls/core.py
@@ -16,6 +16,7 @@ __all__ = [
     "u2_p",
     "u4_p",
     "u4_u",
+    "write_exact",
 ]
 
 import os
@@ -30,7 +31,7 @@ from typing_extensions import (
 from typing_extensions import dataclass_transform
 
 if TYPE_CHECKING:
-    from typing import Callable, NoReturn, TypeVar
+    from typing import IO, Callable, NoReturn, TypeVar
 
     import pyarrow as pa
     from typing_extensions import (
@@ -198,3 +199,15 @@ def u2_p(i: int) -> bytes:
 @struct_p("<B")
 def u1_p(i: int) -> bytes:
     end_decl()
+
+
+def write_exact(io: IO[bytes], data: bytes) -> None:
+    """Write all of the `data`, however few of it each single write accepts"""
+    size = io.write(data)
+    # NOTE: Some of writable objects return nothing
+    while size is not None and size < len(data):
+        if not size:
+            msg = "Stream does not accept data"
+            raise OSError(msg)
+        data = data[size:]
+        size = io.write(data)
diff --git a/rxls/rels.py b/rxls/rels.py
index 16c5367..af32a09 100644
--- a/rxls/rels.py
+++ b/rxls/rels.py
@@ -7,7 +7,7 @@ from typing import IO
 
 from pyexpat import ParserCreate
 
-from .core import as_dataclass
+from .core import as_dataclass, write_exact
 
 RELS_NS = "http://schemas.openxmlformats.org/package/2006/relationships"
 
@@ -41,6 +41,7 @@ class Relationship:
         return ret
 
     def dump_xml(self, io: IO[bytes]) -> None:
-        io.write(
+        write_exact(
+            io,
             f'<Relationship Id="{self.Id}" Type="{RELS_NS}/{self.Type}" Target="{self.Target}"/>'.encode(),
         )
-- 
2.43.0


From 6e7c5b1db40d87714530af871486e84a5b6489b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:04 +0000
Subject: [PATCH 18/22] fix: attributes of dumped relationships are escaped

---
 rxls/rels.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rxls/rels.py b/rxls/rels.py
index af32a09..ec0747d 100644
--- a/rxls/rels.py
+++ b/rxls/rels.py
@@ -4,6 +4,7 @@ from __future__ import annotations
 __all__ = ["Relationship"]
 
 from typing import IO
+from xml.sax.saxutils import quoteattr
 
 from pyexpat import ParserCreate
 
@@ -43,5 +44,5 @@ class Relationship:
     def dump_xml(self, io: IO[bytes]) -> None:
         write_exact(
             io,
-            f'<Relationship Id="{self.Id}" Type="{RELS_NS}/{self.Type}" Target="{self.Target}"/>'.encode(),
+            f"<Relationship Id={quoteattr(self.Id)} Type={quoteattr(f'{RELS_NS}/{self.Type}')} Target={quoteattr(self.Target)}/>".encode(),
         )
-- 
2.43.0


From 847af8030ac3fd1a0f03b55120b5202a8a587206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:04 +0000
Subject: [PATCH 19/22] fix: parts of an earlier opening are not used when a
 workbook is opened again

---
 rxls/reader/xlsb.py | 3 +++
 rxls/reader/xlsx.py | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/rxls/reader/xlsb.py b/rxls/reader/xlsb.py
index f14c6e3..1dc3134 100644
--- a/rxls/reader/xlsb.py
+++ b/rxls/reader/xlsb.py
@@ -102,6 +102,9 @@ class XlsbWorkbook:  # noqa: D101
         self.null_shared: set[bytes] = set()
 
     def __enter__(self) -> Self:
+        # ? File may have changed since it was open last time
+        self.__dict__.clear()
+        self.null_shared.clear()
         self.zf = ZipFile(self.__file).__enter__()
         if "xl/workbook.bin" not in self.zf.namelist():
             # ? Exit is not called, when enter fails
diff --git a/rxls/reader/xlsx.py b/rxls/reader/xlsx.py
index 96c4740..4654a60 100644
--- a/rxls/reader/xlsx.py
+++ b/rxls/reader/xlsx.py
@@ -116,6 +116,9 @@ class XlsxWorkbook:  # noqa: D101
         self.null_shared: set[str] = set()
 
     def __enter__(self) -> Self:
+        # ? File may have changed since it was open last time
+        self.__dict__.clear()
+        self.null_shared.clear()
         self.zf = ZipFile(self.__file).__enter__()
         if "xl/workbook.xml" not in self.zf.namelist():
             # ? Exit is not called, when enter fails
-- 
2.43.0


From 9a3507bd69b6c83899f31f8633ce3c1b874910a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:41 +0000
Subject: [PATCH 20/22] fix: scanning by compiled code ends at a torn record

---
 rxls/biff.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rxls/biff.py b/rxls/biff.py
index 00c5913..8531a1f 100644
--- a/rxls/biff.py
+++ b/rxls/biff.py
@@ -201,7 +201,9 @@ if NUMBA_AVAILABLE:  # noqa: PLR1702
         if only is not None and not isinstance(only, set):
             only = set(only)
 
-        while chunk := chunk + io.read(2**16):
+        # NOTE: A torn record may remain in the chunk when there is nothing left to read
+        while data := io.read(2**16):
+            chunk += data
             for _i, _o, _data in scan_chunk(chunk, only):
                 if _i < 0:
                     chunk = chunk[_o:]
-- 
2.43.0


From a90c5d281d4d8ebdfd015fcbdc741b48a8493588 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:28:26 +0000
Subject: [PATCH 21/22] fix: styles or sheet list of .xlsb that are cut off are
 not taken for complete

---
 rxls/reader/xlsb.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rxls/reader/xlsb.py b/rxls/reader/xlsb.py
index 1dc3134..d8c128b 100644
--- a/rxls/reader/xlsb.py
+++ b/rxls/reader/xlsb.py
@@ -128,7 +128,7 @@ class XlsbWorkbook:  # noqa: D101
             wb_rels: list[Relationship] = Relationship.scan_xml(io)
 
         with self.zf.open("xl/workbook.bin") as io:
-            for _sheet in scan_biff(io, {412}):
+            for _sheet in scan_complete(io, {412}, 400):
                 _sheet = BrtBundleSh.loadr(_sheet)
 
                 sheet_file = "xl/" + next(
@@ -172,7 +172,7 @@ class XlsbWorkbook:  # noqa: D101
             xfs: dict[bytes, bytes] = {}
             # ! [1]: Get full formats list from custom BrtFmt records (only 1-st format from every record)
             fms: dict[bytes, str] = {}
-            for r in scan_biff(io, {44, 47}):
+            for r in scan_complete(io, {44, 47}, 663):
                 if r.rec_id == 44:
                     fms[r.data[:2]] = r.data[2:].decode("utf-16").split(";", 1)[0]
                 elif r.data[:2] != b"\xff\xff":
-- 
2.43.0


From 1fa501c16248a7d416e673c5f35af4d9be10123b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:47 +0000
Subject: [PATCH 22/22] fix: a dump to a raw stream that would block is not
 taken for done

---
 rxls/core.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/rxls/core.py b/rxls/core.py
index 97b3c1b..f2b3844 100644
--- a/rxls/core.py
+++ b/rxls/core.py
@@ -21,6 +21,7 @@ __all__ = [
 
 import os
 import warnings
+from io import RawIOBase
 from struct import Struct
 from typing import TYPE_CHECKING
 
@@ -203,11 +204,12 @@ def u1_p(i: int) -> bytes:
 
 def write_exact(io: IO[bytes], data: bytes) -> None:
     """Write all of the `data`, however few of it each single write accepts"""
-    size = io.write(data)
-    # NOTE: Some of writable objects return nothing
-    while size is not None and size < len(data):
+    while data:
+        size = io.write(data)
+        # NOTE: Some of writable objects return nothing, but raw stream does so if it would block
+        if size is None and not isinstance(io, RawIOBase):
+            break
         if not size:
             msg = "Stream does not accept data"
             raise OSError(msg)
         data = data[size:]
-        size = io.write(data)
-- 
2.43.0

