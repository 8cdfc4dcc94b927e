From 4dfe95a68017c6c04bbadd35bd2bee828fc59b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:49 +0000
Subject: [PATCH 01/24] fix: pairwise() of an empty iterable raised
 RuntimeError

Since PEP 479 the StopIteration which escaped from the generator is a
RuntimeError, so files without traces could not be opened.
---
 segpy/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/segpy/util.py b/segpy/util.py
index 6bec669..1f9bd5f 100644
--- a/segpy/util.py
+++ b/segpy/util.py
@@ -24,7 +24,7 @@ UNSET = object()
 
 def pairwise(iterable):
     a, b = tee(iterable)
-    next(b)
+    next(b, None)
     yield from zip(a, b)
 
 
-- 
2.43.0


From 6ba02e7c96ded32d1297e85488f2acd848394d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:49 +0000
Subject: [PATCH 02/24] fix: catalog_traces() reported progress greater than
 one

Progress is documented to be between zero and one, but 1.125 and 1.3125
were reported while building catalogs, and reading a truncated file could
report any value.
---
 segpy/toolkit.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/segpy/toolkit.py b/segpy/toolkit.py
index b7714ae..71e6cb5 100644
--- a/segpy/toolkit.py
+++ b/segpy/toolkit.py
@@ -388,7 +388,7 @@ def catalog_traces(fh, bps, trace_header_format=TraceHeaderRev1, endian='>', pro
     cdp_catalog_builder = CatalogBuilder()
 
     for trace_number in count():
-        progress_callback(_READ_PROPORTION * pos_begin / length)
+        progress_callback(_READ_PROPORTION * min(pos_begin / length, 1))
         fh.seek(pos_begin)
         data = fh.read(TRACE_HEADER_NUM_BYTES)
         if len(data) < TRACE_HEADER_NUM_BYTES:
@@ -410,13 +410,13 @@ def catalog_traces(fh, bps, trace_header_format=TraceHeaderRev1, endian='>', pro
     progress_callback(_READ_PROPORTION)
 
     trace_offset_catalog = trace_offset_catalog_builder.create()
-    progress_callback(_READ_PROPORTION + (_READ_PROPORTION / 4))
+    progress_callback(_READ_PROPORTION + (1 - _READ_PROPORTION) / 4)
 
     trace_length_catalog = trace_length_catalog_builder.create()
-    progress_callback(_READ_PROPORTION + (_READ_PROPORTION / 2))
+    progress_callback(_READ_PROPORTION + (1 - _READ_PROPORTION) / 2)
 
     cdp_catalog = cdp_catalog_builder.create()
-    progress_callback(_READ_PROPORTION + (_READ_PROPORTION * 3 / 4))
+    progress_callback(_READ_PROPORTION + (1 - _READ_PROPORTION) * 3 / 4)
 
     line_catalog = line_catalog_builder.create()
 
-- 
2.43.0


From 62a002fe83e0642eaeef7df7a85fea49940e6e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:49 +0000
Subject: [PATCH 03/24] fix: create_reader() failed if the cache directory
 could not be created

Failing to write the cache is otherwise only logged, but a read-only or
full file system made os.makedirs() raise out of create_reader().
---
 segpy/reader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/segpy/reader.py b/segpy/reader.py
index f309491..54b27c0 100644
--- a/segpy/reader.py
+++ b/segpy/reader.py
@@ -196,8 +196,8 @@ def _save_reader_to_cache(reader, cache_file_path):
         cache_file_path: A Path instance giving the path to the pickle file location.
     """
     cache_path = cache_file_path.parent
-    os.makedirs(str(cache_path), exist_ok=True)
     try:
+        os.makedirs(str(cache_path), exist_ok=True)
         with cache_file_path.open('wb') as cache_file:
             try:
                 pickle.dump(reader, cache_file)
-- 
2.43.0


From 1603b2ac7b9b922b6c2d2df61606a0e55d5d661a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:49 +0000
Subject: [PATCH 04/24] fix: create_reader() failed if a cache entry could not
 be opened

The entry can be removed by another process between the check for its
existence and opening it, or may be unreadable.
---
 segpy/reader.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/segpy/reader.py b/segpy/reader.py
index 54b27c0..f91799a 100644
--- a/segpy/reader.py
+++ b/segpy/reader.py
@@ -226,10 +226,16 @@ def _load_reader_from_cache(cache_file_path, seg_y_path):
         TypeError: If the pickle could be read, but did not contain a SegYReader.
     """
 
-    if not (cache_file_path.exists() and cache_file_path.is_file()):
+    try:
+        if not (cache_file_path.exists() and cache_file_path.is_file()):
+            return None
+        pickle_file = cache_file_path.open('rb')
+    except OSError as os_error:
+        log.warning("Could not open cache entry {} for {} because {}"
+                    .format(cache_file_path, seg_y_path, os_error))
         return None
 
-    with cache_file_path.open('rb') as pickle_file:
+    with pickle_file:
         try:
             reader = pickle.load(pickle_file)
         except Exception as unpickling_error:
-- 
2.43.0


From c7b669688b2bf6342e7cfd6b74576928c67a3956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:49 +0000
Subject: [PATCH 05/24] fix: a cached reader read from a file other than the
 one supplied

A reader loaded from the cache reopened the file by the name it had when
it was cached, rather than using the handle given to create_reader(). If
the cache was shared between copies of a file, or the file had been
moved, data could be read from a different file.
---
 segpy/reader.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/segpy/reader.py b/segpy/reader.py
index f91799a..c8c9c61 100644
--- a/segpy/reader.py
+++ b/segpy/reader.py
@@ -146,7 +146,7 @@ def create_reader(
         seg_y_path = filename_from_handle(fh)
         cache_file_path = _locate_cache_file(seg_y_path, cache_directory, sha1)
         if cache_file_path is not None:
-            reader = _load_reader_from_cache(cache_file_path, seg_y_path)
+            reader = _load_reader_from_cache(cache_file_path, seg_y_path, fh)
 
     if reader is None:
         reader = _make_reader(fh, encoding, binary_reel_header_format, trace_header_format,
@@ -208,7 +208,7 @@ def _save_reader_to_cache(reader, cache_file_path):
         log.warn("Could not cache {} because {}".format(reader, os_error))
 
 
-def _load_reader_from_cache(cache_file_path, seg_y_path):
+def _load_reader_from_cache(cache_file_path, seg_y_path, fh=None):
     """Attempt to load a reader object from cache.
 
     Any cache file that can be located but not successfully read is removed.
@@ -219,6 +219,9 @@ def _load_reader_from_cache(cache_file_path, seg_y_path):
         seg_y_path: The name of the SEG Y file which the pickled reader is expected
             to be able to read (used for error reporting).
 
+        fh: The file-like object from which the loaded reader should read. If None, the
+            reader will use the file it opened itself, using the name with which it was cached.
+
     Returns:
         A Reader instance associated with seg_y_filename.
 
@@ -252,6 +255,8 @@ def _load_reader_from_cache(cache_file_path, seg_y_path):
             log.info("Successfully unpickled reader for {}".format(seg_y_path))
     if not isinstance(reader, SegYReader):
         raise TypeError("Pickle at {} does not contain a {} instance.".format(cache_file_path, SegYReader.__name__))
+    if fh is not None:
+        reader._rebind(fh)
     return reader
 
 
@@ -425,6 +430,12 @@ class SegYReader(Dataset):
 
         self.__dict__.update(state)
 
+    def _rebind(self, fh):
+        """Read from the supplied file-like object henceforth, closing any other."""
+        if self._fh is not fh:
+            self._fh.close()
+            self._fh = fh
+
     def trace_indexes(self):
         """An iterator over zero-based trace_samples indexes.
 
-- 
2.43.0


From 550014c13061d9887e3cd9ac70bef9020b41dadd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:49 +0000
Subject: [PATCH 06/24] fix: traces were lost when reading from a file-like
 object with short reads

An unbuffered (raw) file object may return fewer bytes than requested.
This was mistaken for the end of the file, so that later traces were
silently omitted from the catalogs.
---
 segpy/toolkit.py | 14 +++++++-------
 segpy/util.py    | 21 +++++++++++++++++++++
 2 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/segpy/toolkit.py b/segpy/toolkit.py
index 71e6cb5..2b6924e 100644
--- a/segpy/toolkit.py
+++ b/segpy/toolkit.py
@@ -17,7 +17,7 @@ from segpy.packer import make_header_packer
 from segpy.revisions import canonicalize_revision
 from segpy.trace_header import TraceHeaderRev1
 from segpy.util import (file_length, batched, pad, complementary_intervals, NATIVE_ENDIANNESS,
-                        EMPTY_BYTE_STRING, restored_position_seek)
+                        EMPTY_BYTE_STRING, restored_position_seek, read_fully)
 
 
 HEADER_NEWLINE = '\r\n'
@@ -137,7 +137,7 @@ def guess_textual_header_encoding(fh):
 
     """
     with restored_position_seek(fh, 0):
-        raw_header = fh.read(TEXTUAL_HEADER_NUM_BYTES)
+        raw_header = read_fully(fh, TEXTUAL_HEADER_NUM_BYTES)
     encoding = guess_encoding(raw_header)
     return encoding
 
@@ -154,7 +154,7 @@ def read_textual_reel_header(fh, encoding):
     Returns:
         A tuple of forty Unicode strings containing the transcoded header data.
     """
-    raw_header = fh.read(TEXTUAL_HEADER_NUM_BYTES)
+    raw_header = read_fully(fh, TEXTUAL_HEADER_NUM_BYTES)
 
     num_bytes_read = len(raw_header)
     if num_bytes_read < TEXTUAL_HEADER_NUM_BYTES:
@@ -178,7 +178,7 @@ def read_binary_reel_header(fh, binary_reel_header_format=BinaryReelHeader, endi
             little-endian (non-standard)
     """
     header_packer = make_header_packer(binary_reel_header_format, endian)
-    buffer = fh.read(binary_reel_header_format.LENGTH_IN_BYTES)
+    buffer = read_fully(fh, binary_reel_header_format.LENGTH_IN_BYTES)
     reel_header = header_packer.unpack(buffer)
     return reel_header
 
@@ -390,7 +390,7 @@ def catalog_traces(fh, bps, trace_header_format=TraceHeaderRev1, endian='>', pro
     for trace_number in count():
         progress_callback(_READ_PROPORTION * min(pos_begin / length, 1))
         fh.seek(pos_begin)
-        data = fh.read(TRACE_HEADER_NUM_BYTES)
+        data = read_fully(fh, TRACE_HEADER_NUM_BYTES)
         if len(data) < TRACE_HEADER_NUM_BYTES:
             break
         trace_header = trace_header_packer.unpack(data)
@@ -449,7 +449,7 @@ def read_trace_header(fh, trace_header_packer, pos=None):
     """
     pos = fh.tell() if pos is None else pos
     fh.seek(pos)
-    data = fh.read(TRACE_HEADER_NUM_BYTES)
+    data = read_fully(fh, TRACE_HEADER_NUM_BYTES)
     try:
         trace_header = trace_header_packer.unpack(data)
     except ValueError as e:
@@ -483,7 +483,7 @@ def read_binary_values(fh, pos=None, seg_y_type='int32', num_items=1, endian='>'
 
     pos = fh.tell() if pos is None else pos
     fh.seek(pos, os.SEEK_SET)
-    buf = fh.read(block_size)
+    buf = read_fully(fh, block_size)
 
     if len(buf) < block_size:
         raise EOFError("{} bytes requested but only {} available when reading "
diff --git a/segpy/util.py b/segpy/util.py
index 1f9bd5f..5b051ac 100644
--- a/segpy/util.py
+++ b/segpy/util.py
@@ -532,6 +532,27 @@ def restored_position_seek(fh, pos):
     fh.seek(original)
 
 
+def read_fully(fh, num_bytes):
+    """Read bytes from a file-like object, which may perform short reads.
+
+    Args:
+        fh: A file-like object opened in binary mode.
+
+        num_bytes: The number of bytes to be read.
+
+    Returns:
+        A bytes object of length num_bytes, or shorter only if the end of the file
+        was reached.
+    """
+    buf = fh.read(num_bytes)
+    while 0 < len(buf) < num_bytes:
+        more = fh.read(num_bytes - len(buf))
+        if not more:
+            break
+        buf += more
+    return buf
+
+
 def cmp(x, y):
     """Compare the two objects x and y and return an integer according to the outcome.
 
-- 
2.43.0


From b6f64caa6848c324f65738146adbbfce6c1f75fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:07:49 +0000
Subject: [PATCH 07/24] fix: data was lost when writing to a file-like object
 with short writes

An unbuffered (raw) file object may write fewer bytes than supplied, and
reports the number written, which was ignored.
---
 segpy/toolkit.py | 12 ++++++------
 segpy/util.py    | 14 ++++++++++++++
 2 files changed, 20 insertions(+), 6 deletions(-)

diff --git a/segpy/toolkit.py b/segpy/toolkit.py
index 2b6924e..4302cbc 100644
--- a/segpy/toolkit.py
+++ b/segpy/toolkit.py
@@ -17,7 +17,7 @@ from segpy.packer import make_header_packer
 from segpy.revisions import canonicalize_revision
 from segpy.trace_header import TraceHeaderRev1
 from segpy.util import (file_length, batched, pad, complementary_intervals, NATIVE_ENDIANNESS,
-                        EMPTY_BYTE_STRING, restored_position_seek, read_fully)
+                        EMPTY_BYTE_STRING, restored_position_seek, read_fully, write_fully)
 
 
 HEADER_NEWLINE = '\r\n'
@@ -676,7 +676,7 @@ def write_textual_reel_header(fh, lines, encoding):
                     for line in pad(lines, padding='', size=CARDS_PER_HEADER)]
     joined_header = EMPTY_BYTE_STRING.join(padded_lines)
     assert len(joined_header) == TEXTUAL_HEADER_NUM_BYTES
-    fh.write(joined_header)
+    write_fully(fh, joined_header)
 
 
 def write_binary_reel_header(fh, binary_reel_header, endian='>'):
@@ -693,7 +693,7 @@ def write_binary_reel_header(fh, binary_reel_header, endian='>'):
     """
     header_packer = make_header_packer(type(binary_reel_header), endian)
     buffer = header_packer.pack(binary_reel_header)
-    fh.write(buffer)
+    write_fully(fh, buffer)
 
 
 def format_extended_textual_header(text, encoding, include_text_stop=False):
@@ -786,7 +786,7 @@ def write_extended_textual_headers(fh, pages, encoding):
     for encoded_page in encoded_pages:
         concatenated_page = EMPTY_BYTE_STRING.join(encoded_page)
         assert(len(concatenated_page) == TEXTUAL_HEADER_NUM_BYTES)
-        fh.write(concatenated_page)
+        write_fully(fh, concatenated_page)
 
 
 def write_trace_header(fh, trace_header, trace_header_packer):
@@ -801,7 +801,7 @@ def write_trace_header(fh, trace_header, trace_header_packer):
             header format.
     """
     buf = trace_header_packer.pack(trace_header)
-    fh.write(buf)
+    write_fully(fh, buf)
 
 
 def write_trace_samples(fh, samples, seg_y_type, endian='>'):
@@ -839,7 +839,7 @@ def write_binary_values(fh, values, seg_y_type, endian='>'):
            if ctype == 'ibm'
            else pack_values(values, ctype, endian))
 
-    fh.write(buf)
+    write_fully(fh, buf)
 
 
 def pack_values(values, ctype, endian='>'):
diff --git a/segpy/util.py b/segpy/util.py
index 5b051ac..561c518 100644
--- a/segpy/util.py
+++ b/segpy/util.py
@@ -553,6 +553,20 @@ def read_fully(fh, num_bytes):
     return buf
 
 
+def write_fully(fh, buf):
+    """Write bytes to a file-like object, which may perform short writes.
+
+    Args:
+        fh: A file-like object opened in binary mode for writing.
+
+        buf: A bytes object, all of which will be written.
+    """
+    num_bytes_written = fh.write(buf)
+    while num_bytes_written is not None and num_bytes_written < len(buf):
+        buf = buf[num_bytes_written:]
+        num_bytes_written = fh.write(buf)
+
+
 def cmp(x, y):
     """Compare the two objects x and y and return an integer according to the outcome.
 
-- 
2.43.0


From 9dad411e406b2af6cbfcf1f482b2443cc0f3d7c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:27 +0000
Subject: [PATCH 08/24] fix: create_reader() failed with trace header formats
 without line numbers

TraceHeaderRev0 could be used for writing, but not for reading, because
the inline and crossline numbers were demanded of every format.
---
 segpy/toolkit.py | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/segpy/toolkit.py b/segpy/toolkit.py
index 4302cbc..a8b00ea 100644
--- a/segpy/toolkit.py
+++ b/segpy/toolkit.py
@@ -365,15 +365,17 @@ def catalog_traces(fh, bps, trace_header_format=TraceHeaderRev1, endian='>', pro
     if not callable(progress_callback):
         raise TypeError("catalog_traces(): progress callback must be callable")
 
+    # Not all formats, for example TraceHeaderRev0, have inline and crossline numbers.
+    has_line_numbers = {'inline_number', 'crossline_number'} <= set(trace_header_format.ordered_field_names())
+    line_number_field_names = ('inline_number', 'crossline_number') if has_line_numbers else ()
+
     class CatalogSubFormat(metaclass=SubFormatMeta,
                            parent_format=trace_header_format,
                            parent_field_names=(
                                'file_sequence_num',
                                'ensemble_num',
                                'num_samples',
-                               'inline_number',
-                               'crossline_number',
-                           )):
+                           ) + line_number_field_names):
         pass
 
     trace_header_packer = make_header_packer(CatalogSubFormat, endian)
@@ -400,9 +402,10 @@ def catalog_traces(fh, bps, trace_header_format=TraceHeaderRev1, endian='>', pro
         samples_bytes = num_samples * bps
         trace_offset_catalog_builder.add(trace_number, pos_begin)
         # Should we check the data actually exists?
-        line_catalog_builder.add((trace_header.inline_number,
-                                  trace_header.crossline_number),
-                                 trace_number)
+        if has_line_numbers:
+            line_catalog_builder.add((trace_header.inline_number,
+                                      trace_header.crossline_number),
+                                     trace_number)
         cdp_catalog_builder.add(trace_header.ensemble_num, trace_number)
         pos_end = pos_begin + TRACE_HEADER_NUM_BYTES + samples_bytes
         pos_begin = pos_end
@@ -418,7 +421,7 @@ def catalog_traces(fh, bps, trace_header_format=TraceHeaderRev1, endian='>', pro
     cdp_catalog = cdp_catalog_builder.create()
     progress_callback(_READ_PROPORTION + (1 - _READ_PROPORTION) * 3 / 4)
 
-    line_catalog = line_catalog_builder.create()
+    line_catalog = line_catalog_builder.create() if has_line_numbers else None
 
     progress_callback(1)
 
-- 
2.43.0


From adc7705ae4967c643d912912e0487dc7fdf24811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:27 +0000
Subject: [PATCH 09/24] fix: create_reader() failed with handles not opened by
 a string name

File objects opened from a file descriptor, including those from
tempfile.TemporaryFile(), have an integer name, those opened by a bytes
path have a bytes name, and a SpooledTemporaryFile can have None.
---
 segpy/util.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/segpy/util.py b/segpy/util.py
index 561c518..46a74eb 100644
--- a/segpy/util.py
+++ b/segpy/util.py
@@ -264,10 +264,12 @@ def filename_from_handle(fh):
         A string containing the file name, or UNKNOWN_FILENAME if it could not
         be determined.
     """
-    try:
-        return fh.name
-    except AttributeError:
-        return UNKNOWN_FILENAME
+    name = getattr(fh, 'name', None)
+    if isinstance(name, bytes):
+        return os.fsdecode(name)
+    if isinstance(name, (str, os.PathLike)):
+        return name
+    return UNKNOWN_FILENAME
 
 
 def now_millis():
-- 
2.43.0


From b7e4d5a87853476044d00d494b6b605d5fcb7b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:27 +0000
Subject: [PATCH 10/24] fix: header fields not declared in order of offset were
 unpacked wrongly

Values in order of offset were assigned to fields in order of declaration,
so a format which is derived from an existing one to add a field, or has
the inline number before the CDP number, silently gave each such field
the value of another.
---
 segpy/packer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/segpy/packer.py b/segpy/packer.py
index 5997788..00b3cc9 100644
--- a/segpy/packer.py
+++ b/segpy/packer.py
@@ -131,7 +131,9 @@ def make_header_packer(header_format_class, endian='>'):
         endian)
     structure = Struct(cformat)
 
-    one_to_one = all(len(fields) == 1 for fields in field_name_allocations)
+    # Values can be unpacked positionally only if the fields were also declared in order of offset
+    one_to_one = ([list(fields) for fields in field_name_allocations]
+                  == [[name] for name in header_format_class.ordered_field_names()])
 
     if one_to_one:
         return BijectiveHeaderPacker(header_format_class, structure, field_name_allocations)
-- 
2.43.0


From 7c5a9e11a1b8080b1c6c368d98fca5f46beba8ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:08:27 +0000
Subject: [PATCH 11/24] fix: inherited header fields were lost by pickling and
 deep copying

Only the fields declared by the class itself were saved, so that, for
example, a TraceHeaderRev1 lost all TraceHeaderRev0 fields, and the
binary reel header of a cached reader reverted to default values if its
format was derived from BinaryReelHeader.
---
 segpy/header.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/segpy/header.py b/segpy/header.py
index 0349392..dc9bdb2 100644
--- a/segpy/header.py
+++ b/segpy/header.py
@@ -75,7 +75,7 @@ class BaseHeader:
     def __getstate__(self):
         state = self.__dict__.copy()
         state['__version__'] = __version__
-        state['_all_attributes'] = OrderedDict((name, getattr(self, name)) for name in self._ordered_field_names)
+        state['_all_attributes'] = OrderedDict((name, getattr(self, name)) for name in self.ordered_field_names())
         return state
 
     def __setstate__(self, state):
-- 
2.43.0


From b776992c440d41a054767f51dcead039041efeac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:08 +0000
Subject: [PATCH 12/24] fix: extracting lines and timeslices gave wrong data or
 failed for traces shorter than the longest

A trace with one sample was repeated along the whole row of the array, and any other short trace
raised ValueError. Samples which a trace does not have are now masked, or null.
---
 segpy-ext/segpy_numpy/segpy_numpy/extract.py | 30 ++++++++++++++------
 1 file changed, 21 insertions(+), 9 deletions(-)

diff --git a/segpy-ext/segpy_numpy/segpy_numpy/extract.py b/segpy-ext/segpy_numpy/segpy_numpy/extract.py
index 9baacc4..a23943f 100644
--- a/segpy-ext/segpy_numpy/segpy_numpy/extract.py
+++ b/segpy-ext/segpy_numpy/segpy_numpy/extract.py
@@ -248,11 +248,13 @@ def _populate_inline_array_numbered_samples(reader_3d, inline_number, xline_numb
         if reader_3d.has_trace_index(inline_xline_number):
             trace_index = reader_3d.trace_index(inline_xline_number)
             num_trace_samples = reader_3d.num_trace_samples(trace_index)
-            trace_sample_start = sample_numbers[0]
             trace_sample_stop = min(sample_numbers[-1] + 1, num_trace_samples)
+            trace_sample_start = min(sample_numbers[0], trace_sample_stop)
             trace_samples = reader_3d.trace_samples(trace_index, start=trace_sample_start, stop=trace_sample_stop)
             for sample_index, sample_number in enumerate(sample_numbers):
-                array[xline_index, sample_index] = trace_samples[sample_number - trace_sample_start]
+                # The trace may be shorter than the longest trace
+                if sample_number < trace_sample_stop:
+                    array[xline_index, sample_index] = trace_samples[sample_number - trace_sample_start]
 
 
 def _populate_inline_array_over_sample_range(reader_3d, inline_number, xline_numbers, sample_numbers, array):
@@ -264,7 +266,9 @@ def _populate_inline_array_over_sample_range(reader_3d, inline_number, xline_num
             trace_sample_stop = min(sample_numbers.stop, num_trace_samples)
             trace_samples = reader_3d.trace_samples(trace_index)
             source_slice = slice(sample_numbers.start, trace_sample_stop, sample_numbers.step)
-            array[xline_index, :] = trace_samples[source_slice]
+            # The trace may be shorter than the longest trace
+            values = trace_samples[source_slice]
+            array[xline_index, :len(values)] = values
 
 
 def extract_xline_3d(reader_3d, xline_number, inline_numbers=None, sample_numbers=None, null=None):
@@ -337,11 +341,13 @@ def _populate_xline_array_numbered_samples(reader_3d, xline_number, inline_numbe
         if reader_3d.has_trace_index(inline_xline_number):
             trace_index = reader_3d.trace_index(inline_xline_number)
             num_trace_samples = reader_3d.num_trace_samples(trace_index)
-            trace_sample_start = sample_numbers[0]
             trace_sample_stop = min(sample_numbers[-1] + 1, num_trace_samples)
+            trace_sample_start = min(sample_numbers[0], trace_sample_stop)
             trace_samples = reader_3d.trace_samples(trace_index, start=trace_sample_start, stop=trace_sample_stop)
             for sample_index, sample_number in enumerate(sample_numbers):
-                array[inline_index, sample_index] = trace_samples[sample_number - trace_sample_start]
+                # The trace may be shorter than the longest trace
+                if sample_number < trace_sample_stop:
+                    array[inline_index, sample_index] = trace_samples[sample_number - trace_sample_start]
 
 
 def _populate_xline_array_over_sample_range(reader_3d, xline_number, inline_numbers, sample_numbers, array):
@@ -353,7 +359,9 @@ def _populate_xline_array_over_sample_range(reader_3d, xline_number, inline_numb
             trace_sample_stop = min(sample_numbers.stop, num_trace_samples)
             trace_samples = reader_3d.trace_samples(trace_index)
             source_slice = slice(sample_numbers.start, trace_sample_stop, sample_numbers.step)
-            array[inline_index, :] = trace_samples[source_slice]
+            # The trace may be shorter than the longest trace
+            values = trace_samples[source_slice]
+            array[inline_index, :len(values)] = values
 
 
 def extract_timeslice_3d(reader_3d, sample_number, inline_numbers=None, xline_numbers=None, null=None):
@@ -404,8 +412,10 @@ def extract_timeslice_3d(reader_3d, sample_number, inline_numbers=None, xline_nu
         order as the fields specified in the `fields` argument.
 
     Raises:
-        AttributeError: If the the named fields do not exist in the trace header definition.
+        ValueError: If no trace has the requested sample.
     """
+    if not (0 <= sample_number < reader_3d.max_num_trace_samples()):
+        raise ValueError("Sample number {} not present in {}".format(sample_number, reader_3d))
 
     inline_numbers = ensure_superset(reader_3d.inline_numbers(), inline_numbers)
     xline_numbers = ensure_superset(reader_3d.xline_numbers(), xline_numbers)
@@ -419,8 +429,10 @@ def extract_timeslice_3d(reader_3d, sample_number, inline_numbers=None, xline_nu
             inline_xline_number = (inline_number, xline_number)
             if reader_3d.has_trace_index(inline_xline_number):
                 trace_index = reader_3d.trace_index((inline_number, xline_number))
-                trace_samples = reader_3d.trace_samples(trace_index, start=sample_number, stop=sample_number_stop)
-                array[inline_index, xline_index] = trace_samples[0]
+                # The trace may be shorter than the longest trace
+                if sample_number < reader_3d.num_trace_samples(trace_index):
+                    trace_samples = reader_3d.trace_samples(trace_index, start=sample_number, stop=sample_number_stop)
+                    array[inline_index, xline_index] = trace_samples[0]
     return array
 
 
-- 
2.43.0


From 2de72801b1fba3b67b214a86d2d7e73095d46fef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:21 +0000
Subject: [PATCH 13/24] fix: extracting non-negative header fields, such as
 num_samples, as arrays raised ValueError

---
 segpy-ext/segpy_numpy/segpy_numpy/dtypes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/segpy-ext/segpy_numpy/segpy_numpy/dtypes.py b/segpy-ext/segpy_numpy/segpy_numpy/dtypes.py
index 74431f3..290eba3 100644
--- a/segpy-ext/segpy_numpy/segpy_numpy/dtypes.py
+++ b/segpy-ext/segpy_numpy/segpy_numpy/dtypes.py
@@ -4,7 +4,9 @@ import numpy
 
 NUMPY_DTYPES = {'ibm':     numpy.dtype('f4'),
                 'int32':   numpy.dtype('i4'),
+                'nnint32': numpy.dtype('i4'),
                 'int16':   numpy.dtype('i2'),
+                'nnint16': numpy.dtype('i2'),
                 'float32': numpy.dtype('f4'),
                 'int8':    numpy.dtype('i1')}
 
-- 
2.43.0


From 95cd01d062cedde018259379ac29aa2cd82b5244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:31 +0000
Subject: [PATCH 14/24] fix: extract_trace() treated the trace index as an
 inline/crossline pair or CDP number

It failed for every reader, or for 2D readers extracted only traces the index of which happens
to be a CDP number.
---
 segpy-ext/segpy_numpy/segpy_numpy/extract.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/segpy-ext/segpy_numpy/segpy_numpy/extract.py b/segpy-ext/segpy_numpy/segpy_numpy/extract.py
index a23943f..1eaa123 100644
--- a/segpy-ext/segpy_numpy/segpy_numpy/extract.py
+++ b/segpy-ext/segpy_numpy/segpy_numpy/extract.py
@@ -165,10 +165,10 @@ def extract_trace(reader, trace_index, sample_numbers):
     Returns:
         A one-dimensional array.
     """
-    if not reader.has_trace_index(trace_index):
-        raise ValueError("Inline number {} not present in {}".format(trace_index, reader))
+    if not (0 <= trace_index < reader.num_traces()):
+        raise ValueError("Trace index {} not present in {}".format(trace_index, reader))
 
-    sample_numbers = ensure_superset(range(0, reader.max_num_trace_samples()), sample_numbers)
+    sample_numbers = ensure_superset(range(0, reader.num_trace_samples(trace_index)), sample_numbers)
 
     trace_sample_start = sample_numbers[0]
     trace_sample_stop = min(sample_numbers[-1] + 1, reader.num_trace_samples(trace_index))
-- 
2.43.0


From 9a4047fd28ea5c59cff406f68af1fd1037cdfb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:42:27 +0000
Subject: [PATCH 15/24] fix: write_segy() reported decreasing progress for
 datasets which list their traces out of order

---
 segpy/writer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/segpy/writer.py b/segpy/writer.py
index 5a1ddb9..9dbf65c 100644
--- a/segpy/writer.py
+++ b/segpy/writer.py
@@ -53,9 +53,9 @@ def write_segy(fh,
 
     num_traces = dataset.num_traces()
 
-    for trace_index in dataset.trace_indexes():
+    for num_written, trace_index in enumerate(dataset.trace_indexes()):
         write_trace_header(fh, dataset.trace_header(trace_index), trace_header_packer)
         write_trace_samples(fh, dataset.trace_samples(trace_index), dataset.data_sample_format, endian=endian)
-        progress_callback(trace_index / num_traces)
+        progress_callback(num_written / num_traces)
 
     progress_callback(1)
-- 
2.43.0


From 403c1dca014dcac90170592129872078e1900ebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:06 +0000
Subject: [PATCH 16/24] fix: extracting single IBM float samples into masked
 arrays raised ValueError

IBMFloat has a _data attribute, which numpy.ma takes for the data of a masked array.
---
 segpy-ext/segpy_numpy/segpy_numpy/extract.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/segpy-ext/segpy_numpy/segpy_numpy/extract.py b/segpy-ext/segpy_numpy/segpy_numpy/extract.py
index 1eaa123..09063e3 100644
--- a/segpy-ext/segpy_numpy/segpy_numpy/extract.py
+++ b/segpy-ext/segpy_numpy/segpy_numpy/extract.py
@@ -254,7 +254,7 @@ def _populate_inline_array_numbered_samples(reader_3d, inline_number, xline_numb
             for sample_index, sample_number in enumerate(sample_numbers):
                 # The trace may be shorter than the longest trace
                 if sample_number < trace_sample_stop:
-                    array[xline_index, sample_index] = trace_samples[sample_number - trace_sample_start]
+                    array[xline_index, sample_index] = float(trace_samples[sample_number - trace_sample_start])
 
 
 def _populate_inline_array_over_sample_range(reader_3d, inline_number, xline_numbers, sample_numbers, array):
@@ -347,7 +347,7 @@ def _populate_xline_array_numbered_samples(reader_3d, xline_number, inline_numbe
             for sample_index, sample_number in enumerate(sample_numbers):
                 # The trace may be shorter than the longest trace
                 if sample_number < trace_sample_stop:
-                    array[inline_index, sample_index] = trace_samples[sample_number - trace_sample_start]
+                    array[inline_index, sample_index] = float(trace_samples[sample_number - trace_sample_start])
 
 
 def _populate_xline_array_over_sample_range(reader_3d, xline_number, inline_numbers, sample_numbers, array):
@@ -432,7 +432,7 @@ def extract_timeslice_3d(reader_3d, sample_number, inline_numbers=None, xline_nu
                 # The trace may be shorter than the longest trace
                 if sample_number < reader_3d.num_trace_samples(trace_index):
                     trace_samples = reader_3d.trace_samples(trace_index, start=sample_number, stop=sample_number_stop)
-                    array[inline_index, xline_index] = trace_samples[0]
+                    array[inline_index, xline_index] = float(trace_samples[0])
     return array
 
 
-- 
2.43.0


From c8d806da8604f48d6f4195c8c25b8eab7452ec03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:59:06 +0000
Subject: [PATCH 17/24] fix: a single line or sample number could not be
 selected from regularly spaced ones

The step of a range with one item says nothing about its items.
---
 segpy-ext/segpy_numpy/segpy_numpy/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/segpy-ext/segpy_numpy/segpy_numpy/util.py b/segpy-ext/segpy_numpy/segpy_numpy/util.py
index 450fd32..166eb6a 100644
--- a/segpy-ext/segpy_numpy/segpy_numpy/util.py
+++ b/segpy-ext/segpy_numpy/segpy_numpy/util.py
@@ -6,7 +6,7 @@ def is_range_superset_of_range(superset_range, subset_range):
     """
     if subset_range.start not in superset_range:
         return False
-    if subset_range.step % superset_range.step != 0:
+    if len(subset_range) > 1 and subset_range.step % superset_range.step != 0:
         return False
     if subset_range[-1] > superset_range[-1]:
         return False
-- 
2.43.0


From f49f497fdc77bf8122668ebabcfd9063c30d52cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:14:06 +0000
Subject: [PATCH 18/24] fix: create_reader() failed if a cache entry could not
 be closed

---
 segpy/reader.py | 31 ++++++++++++++++++-------------
 1 file changed, 18 insertions(+), 13 deletions(-)

diff --git a/segpy/reader.py b/segpy/reader.py
index c8c9c61..6aca6f7 100644
--- a/segpy/reader.py
+++ b/segpy/reader.py
@@ -238,21 +238,26 @@ def _load_reader_from_cache(cache_file_path, seg_y_path, fh=None):
                     .format(cache_file_path, seg_y_path, os_error))
         return None
 
-    with pickle_file:
+    try:
+        reader = pickle.load(pickle_file)
+    except Exception as unpickling_error:
+        log.info("Could not unpickle reader for {} because {}".format(seg_y_path, unpickling_error))
         try:
-            reader = pickle.load(pickle_file)
-        except Exception as unpickling_error:
-            log.info("Could not unpickle reader for {} because {}".format(seg_y_path, unpickling_error))
-            try:
-                cache_file_path.unlink()
-            except OSError as os_error:
-                log.warn("Could not remove stale cache entry {} for {} because {}"
-                         .format(cache_file_path, seg_y_path, os_error))
-            else:
-                log.info("Removed stale cache entry {} for {}".format(cache_file_path, seg_y_path))
-            return None
+            cache_file_path.unlink()
+        except OSError as os_error:
+            log.warn("Could not remove stale cache entry {} for {} because {}"
+                     .format(cache_file_path, seg_y_path, os_error))
         else:
-            log.info("Successfully unpickled reader for {}".format(seg_y_path))
+            log.info("Removed stale cache entry {} for {}".format(cache_file_path, seg_y_path))
+        return None
+    else:
+        log.info("Successfully unpickled reader for {}".format(seg_y_path))
+    finally:
+        try:
+            pickle_file.close()
+        except OSError as os_error:
+            log.warning("Could not close cache entry {} for {} because {}"
+                        .format(cache_file_path, seg_y_path, os_error))
     if not isinstance(reader, SegYReader):
         raise TypeError("Pickle at {} does not contain a {} instance.".format(cache_file_path, SegYReader.__name__))
     if fh is not None:
-- 
2.43.0


From ea04526b7653b49fa6d7a8eaeb8c4e992cdc0797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:52 +0000
Subject: [PATCH 19/24] fix: extracting samples or lines with reversed slices
 gave masked arrays or the wrong order

---
 segpy-ext/segpy_numpy/segpy_numpy/extract.py | 11 +++++++++--
 segpy-ext/segpy_numpy/segpy_numpy/util.py    |  6 ++++--
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/segpy-ext/segpy_numpy/segpy_numpy/extract.py b/segpy-ext/segpy_numpy/segpy_numpy/extract.py
index 09063e3..aff3f55 100644
--- a/segpy-ext/segpy_numpy/segpy_numpy/extract.py
+++ b/segpy-ext/segpy_numpy/segpy_numpy/extract.py
@@ -170,8 +170,9 @@ def extract_trace(reader, trace_index, sample_numbers):
 
     sample_numbers = ensure_superset(range(0, reader.num_trace_samples(trace_index)), sample_numbers)
 
-    trace_sample_start = sample_numbers[0]
-    trace_sample_stop = min(sample_numbers[-1] + 1, reader.num_trace_samples(trace_index))
+    # Sample numbers selected by a slice with a negative step are in decreasing order
+    trace_sample_start = min(sample_numbers[0], sample_numbers[-1])
+    trace_sample_stop = min(max(sample_numbers[0], sample_numbers[-1]) + 1, reader.num_trace_samples(trace_index))
     trace_samples = reader.trace_samples(trace_index, start=trace_sample_start, stop=trace_sample_stop)
     arr = np.fromiter((trace_samples[sample_number - trace_sample_start] for sample_number in sample_numbers),
                       make_dtype(reader.data_sample_format))
@@ -258,6 +259,9 @@ def _populate_inline_array_numbered_samples(reader_3d, inline_number, xline_numb
 
 
 def _populate_inline_array_over_sample_range(reader_3d, inline_number, xline_numbers, sample_numbers, array):
+    if sample_numbers.step < 0:
+        # The samples were selected by a slice with a negative step
+        sample_numbers, array = sample_numbers[::-1], array[:, ::-1]
     for xline_index, xline_number in enumerate(xline_numbers):
         inline_xline_number = (inline_number, xline_number)
         if reader_3d.has_trace_index(inline_xline_number):
@@ -351,6 +355,9 @@ def _populate_xline_array_numbered_samples(reader_3d, xline_number, inline_numbe
 
 
 def _populate_xline_array_over_sample_range(reader_3d, xline_number, inline_numbers, sample_numbers, array):
+    if sample_numbers.step < 0:
+        # The samples were selected by a slice with a negative step
+        sample_numbers, array = sample_numbers[::-1], array[:, ::-1]
     for inline_index, inline_number in enumerate(inline_numbers):
         inline_xline_number = (inline_number, xline_number)
         if reader_3d.has_trace_index(inline_xline_number):
diff --git a/segpy-ext/segpy_numpy/segpy_numpy/util.py b/segpy-ext/segpy_numpy/segpy_numpy/util.py
index 166eb6a..246c14f 100644
--- a/segpy-ext/segpy_numpy/segpy_numpy/util.py
+++ b/segpy-ext/segpy_numpy/segpy_numpy/util.py
@@ -37,7 +37,8 @@ def ensure_superset(superset, subset):
             superset, or a slice object, in which case the subset items will be sliced
             from superset.
     Returns:
-        A sorted, distinct collection which is a subset of superset.
+        A sorted, distinct collection which is a subset of superset. It is in decreasing order
+        if it was selected by a slice with a negative step.
 
     Raises:
         ValueError: If the items in subset are not a subset of the items in all_items.
@@ -45,7 +46,8 @@ def ensure_superset(superset, subset):
     if subset is None:
         return superset
     elif isinstance(subset, slice):
-        return superset[subset]
+        # Slices of sorted sets are sorted, whatever the sense of the slice
+        return superset[subset] if isinstance(superset, range) else tuple(superset)[subset]
     else:
         subset = make_sorted_distinct_sequence(subset)
         if not is_superset(superset, subset):
-- 
2.43.0


From f7d59e446d557256ca18f91d04bf06dfba816a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:59 +0000
Subject: [PATCH 20/24] fix: extracting header fields of type nnint8 as arrays
 raised ValueError

---
 segpy-ext/segpy_numpy/segpy_numpy/dtypes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/segpy-ext/segpy_numpy/segpy_numpy/dtypes.py b/segpy-ext/segpy_numpy/segpy_numpy/dtypes.py
index 290eba3..2bd71c2 100644
--- a/segpy-ext/segpy_numpy/segpy_numpy/dtypes.py
+++ b/segpy-ext/segpy_numpy/segpy_numpy/dtypes.py
@@ -8,7 +8,8 @@ NUMPY_DTYPES = {'ibm':     numpy.dtype('f4'),
                 'int16':   numpy.dtype('i2'),
                 'nnint16': numpy.dtype('i2'),
                 'float32': numpy.dtype('f4'),
-                'int8':    numpy.dtype('i1')}
+                'int8':    numpy.dtype('i1'),
+                'nnint8':  numpy.dtype('i1')}
 
 
 def make_dtype(data_sample_format): # TODO: What is the correct name for this arg?
-- 
2.43.0


From e377ff57974ac79f952f87f3cc96adba16aad240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:20 +0000
Subject: [PATCH 21/24] fix: reading a trace with a damaged number of samples
 could request gigabytes

---
 segpy/util.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/segpy/util.py b/segpy/util.py
index 46a74eb..442ff88 100644
--- a/segpy/util.py
+++ b/segpy/util.py
@@ -534,6 +534,9 @@ def restored_position_seek(fh, pos):
     fh.seek(original)
 
 
+MAX_READ_NUM_BYTES = 2 ** 24
+
+
 def read_fully(fh, num_bytes):
     """Read bytes from a file-like object, which may perform short reads.
 
@@ -546,13 +549,16 @@ def read_fully(fh, num_bytes):
         A bytes object of length num_bytes, or shorter only if the end of the file
         was reached.
     """
-    buf = fh.read(num_bytes)
-    while 0 < len(buf) < num_bytes:
-        more = fh.read(num_bytes - len(buf))
-        if not more:
+    # Bounded reads, because the file-like object may allocate whatever is requested, however short the file
+    chunks = []
+    remaining = num_bytes
+    while remaining > 0:
+        chunk = fh.read(min(remaining, MAX_READ_NUM_BYTES))
+        if len(chunk) == 0:
             break
-        buf += more
-    return buf
+        chunks.append(chunk)
+        remaining -= len(chunk)
+    return b''.join(chunks)
 
 
 def write_fully(fh, buf):
-- 
2.43.0


From f1670d585488a290015d4ff7b492594afc3b2a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:03 +0000
Subject: [PATCH 22/24] fix: opening files with irregular line numbers took
 time quadratic in the number of traces

---
 segpy/toolkit.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/segpy/toolkit.py b/segpy/toolkit.py
index a8b00ea..21dc589 100644
--- a/segpy/toolkit.py
+++ b/segpy/toolkit.py
@@ -403,8 +403,10 @@ def catalog_traces(fh, bps, trace_header_format=TraceHeaderRev1, endian='>', pro
         trace_offset_catalog_builder.add(trace_number, pos_begin)
         # Should we check the data actually exists?
         if has_line_numbers:
-            line_catalog_builder.add((trace_header.inline_number,
-                                      trace_header.crossline_number),
+            # As plain integers, because searching a range for an instance of a
+            # subclass of int takes time proportional to the length of the range
+            line_catalog_builder.add((int(trace_header.inline_number),
+                                      int(trace_header.crossline_number)),
                                      trace_number)
         cdp_catalog_builder.add(trace_header.ensemble_num, trace_number)
         pos_end = pos_begin + TRACE_HEADER_NUM_BYTES + samples_bytes
-- 
2.43.0


From f35f2e4b3716adc1b77fc6c4b1bc78d70eaccdc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:40:30 +0000
Subject: [PATCH 23/24] fix: keep blank lines when formatting extended textual
 headers

---
 segpy/toolkit.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/segpy/toolkit.py b/segpy/toolkit.py
index 21dc589..8e25909 100644
--- a/segpy/toolkit.py
+++ b/segpy/toolkit.py
@@ -724,11 +724,11 @@ def format_extended_textual_header(text, encoding, include_text_stop=False):
     width = CARD_LENGTH - len(HEADER_NEWLINE)
     original_lines = text.splitlines()
 
-    # Split overly long lines (i.e. > 78) and pad too-short lines with spaces
+    # Split overly long lines (i.e. > 78) and pad too-short lines, including blank ones, with spaces
     lines = []
     for original_line in original_lines:
         padded_lines = (pad_and_terminate_header_line(original_line[i:i+width], width)
-                        for i in range(0, len(original_line), width))
+                        for i in range(0, max(len(original_line), 1), width))
         lines.extend(padded_lines)
 
     pages = list(batched(lines, 40, pad_and_terminate_header_line('', width)))
-- 
2.43.0


From aec3bfd79c36adb4c94a141f3a83c416368db9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:00 +0000
Subject: [PATCH 24/24] fix: unpickling a reader could create or truncate the
 file it was reading

The mode of the original handle was used to open the file again, so that
a reader of a handle open for appending created a missing file, also when
another file with the same content was opened through the cache, and a
file-like object with a mode such as 'w+b' led to the file being emptied.
---
 segpy/reader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/segpy/reader.py b/segpy/reader.py
index 6aca6f7..9624129 100644
--- a/segpy/reader.py
+++ b/segpy/reader.py
@@ -419,8 +419,11 @@ class SegYReader(Dataset):
                                     __version__))
         del state['__version__']
 
+        # Only for reading, because other modes, such as 'ab+', could create or truncate the file
+        file_mode = 'rb' if 'b' in state['_file_mode'] else state['_file_mode']
+
         try:
-            fh = open(state['_file_name'], state['_file_mode'])
+            fh = open(state['_file_name'], file_mode)
         except OSError as e:
             raise TypeError("Cannot unpickle {} as file {} could not be opened because {}"
                             .format(self.__class__.__name__, state['_file_name'], str(e)))
-- 
2.43.0

