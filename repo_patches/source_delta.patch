From ad6bdc531032d93cbe26be4d5e714ad6b583be8d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 16:21:11 +0000
Subject: [PATCH 01/44] fix: read zstd files with more than one frame to the
 end

---
 src/eventio/base.py       | 4 +++-
 src/eventio/file_types.py | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/eventio/base.py b/src/eventio/base.py
index fddfbac..60df446 100644
--- a/src/eventio/base.py
+++ b/src/eventio/base.py
@@ -97,7 +97,9 @@ class EventIOFile:
 
         elif is_zstd(path):
             log.info('Found zstd compressed file')
-            self._filehandle = zstd.ZstdDecompressor().stream_reader(open(path, 'rb'), read_size=1024**2)
+            self._filehandle = zstd.ZstdDecompressor().stream_reader(
+                open(path, 'rb'), read_size=1024**2, read_across_frames=True,
+            )
             self.zstd = True
 
         else:
diff --git a/src/eventio/file_types.py b/src/eventio/file_types.py
index 78e3e44..b57a295 100644
--- a/src/eventio/file_types.py
+++ b/src/eventio/file_types.py
@@ -48,7 +48,7 @@ def is_eventio(path):
             raise IOError('You need the `zstandard` module to read zstd files')
         with open(path, 'rb') as f:
             cctx = zstd.ZstdDecompressor()
-            with cctx.stream_reader(f) as stream:
+            with cctx.stream_reader(f, read_across_frames=True) as stream:
                 marker_bytes = stream.read(SYNC_MARKER_SIZE)
     else:
         with open(path, 'rb') as f:
-- 
2.43.0


From 61dc3aab4af686a0d415cefd53bcc18b5ce29efd Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 16:25:13 +0000
Subject: [PATCH 02/44] fix: raise EOFError if a file ends inside the last
 payload or before a header extension

---
 src/eventio/base.py | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/src/eventio/base.py b/src/eventio/base.py
index 60df446..d153c70 100644
--- a/src/eventio/base.py
+++ b/src/eventio/base.py
@@ -126,12 +126,22 @@ class EventIOFile:
         return self._read_next_object()
 
     def _read_next_object(self):
-        self._filehandle.seek(self._next_header_pos)
-        read_sync_marker(self._filehandle)
+        start = self._next_header_pos
+        if self._filehandle.seek(start) < start:
+            # the payload of the previous object is incomplete
+            raise EOFError('File seems to be truncated')
+
+        try:
+            read_sync_marker(self._filehandle)
+        except StopIteration:
+            if self._ends_before(start):
+                raise EOFError('File seems to be truncated') from None
+            raise
+
         header = read_header(
             self._filehandle,
             toplevel=True,
-            offset=self._next_header_pos,
+            offset=start,
         )
         self._next_header_pos += header.total_size
 
@@ -140,6 +150,16 @@ class EventIOFile:
             filehandle=self._filehandle,
         )
 
+    def _ends_before(self, position):
+        '''Check if the file ends before `position`
+
+        Seeking beyond the end of an uncompressed file is not an error, so we
+        have to compare to its size. All other streams already stop at their end.
+        '''
+        if self.read_process is not None or self.zstd or isinstance(self._filehandle, gzip.GzipFile):
+            return False
+        return self._filehandle.seek(0, 2) < position
+
     def peek(self):
         if self.next is None and self.peek_error is None:
             try:
@@ -228,7 +248,7 @@ def read_header(byte_stream, offset, toplevel=False):
         check_size_or_raise(
             extension_field,
             constants.EXTENSION_SIZE,
-            zero_ok=True
+            zero_ok=False
         )
         ext = parse_extension_field(extension_field)
         header.content_size += ext
-- 
2.43.0


From c0a5599e25c23ed94b45e493968894e11a03e204 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 16:29:25 +0000
Subject: [PATCH 03/44] fix: report a failed gzip process instead of ending the
 file cleanly

---
 src/eventio/base.py | 32 ++++++++++++++++++++++++++++----
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/src/eventio/base.py b/src/eventio/base.py
index d153c70..b84d6ac 100644
--- a/src/eventio/base.py
+++ b/src/eventio/base.py
@@ -25,26 +25,50 @@ class PipeWrapper:
     by keeping track of the bytes already read
     and reading as many bytes as required in `seek`
     '''
-    def __init__(self, pipe):
+    def __init__(self, pipe, process=None):
         self.pipe = pipe
+        self.process = process
+        self.error_message = None
         self.pos = 0
 
     def read(self, size=-1):
         data = self.pipe.read(size)
         self.pos += len(data)
+        if size is None or size < 0 or len(data) < size:
+            self._check_process()
         return data
 
+    def _check_process(self):
+        '''The pipe ended: make sure that is not because the process failed'''
+        if self.process is None:
+            return
+
+        returncode = self.process.wait()
+        # gzip uses 2 for warnings
+        if returncode in (0, 2):
+            return
+
+        if self.error_message is None:
+            self.error_message = self.process.stderr.read().decode(errors='replace').strip()
+
+        if 'unexpected end of file' in self.error_message:
+            raise EOFError('File seems to be truncated')
+
+        raise IOError('Reading from gzip failed with exit status {}: {}'.format(
+            returncode, self.error_message
+        ))
+
     def seek(self, offset, whence=0):
         if whence == 0:
             to_read = offset - self.pos
             if to_read < 0:
                 raise IOError('Only forward seeking possible')
-            self.pos += len(self.pipe.read(to_read))
+            self.read(to_read)
 
         if whence == 1:
             if offset < 0:
                 raise IOError('Only forward seeking possible')
-            self.pos += len(self.pipe.read(offset))
+            self.read(offset)
 
         if whence == 2:
             raise IOError('Only forward seeking possible')
@@ -85,7 +109,7 @@ class EventIOFile:
                     if rc is not None and rc != 0:
                         raise ValueError(self.read_process.stderr.read().decode())
 
-                    self._filehandle = PipeWrapper(self.read_process.stdout)
+                    self._filehandle = PipeWrapper(self.read_process.stdout, self.read_process)
                     log.info('Using zcat')
                 except Exception as e:
                     log.info(str(e))
-- 
2.43.0


From 3b3a482d4a1aae97da3b74f8a4627eca4ea997d2 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 16:36:33 +0000
Subject: [PATCH 04/44] fix: objects read and seek at their own position and
 report missing payload bytes

---
 src/eventio/base.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/eventio/base.py b/src/eventio/base.py
index b84d6ac..af56dce 100644
--- a/src/eventio/base.py
+++ b/src/eventio/base.py
@@ -338,13 +338,20 @@ class EventIOObject:
             If size == -1 (default), read all remaining bytes.
         '''
         # read all remaining bytes.
-        remaining = self.size - self._pos
+        remaining = max(0, self.size - self._pos)
         if size == -1 or size > remaining:
             size = remaining
 
+        if size == 0:
+            return b''
+
+        # the filehandle is shared with all other objects of this file
+        self._filehandle.seek(self.address + self._pos)
         data = self._filehandle.read(size)
-        self._pos += len(data)
+        if len(data) < size:
+            raise EOFError('File seems to be truncated')
 
+        self._pos += len(data)
         return data
 
     def __iter__(self):
@@ -381,7 +388,7 @@ class EventIOObject:
             assert offset >= 0
             new_pos = self._filehandle.seek(address + offset, whence)
         elif whence == 1:
-            new_pos = self._filehandle.seek(offset, whence)
+            new_pos = self._filehandle.seek(address + self._pos + offset, 0)
         elif whence == 2:
             if offset > self.size:
                 offset = self.size
-- 
2.43.0


From 5536525546b3139834caada8a8367063bccee3e2 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 16:39:09 +0000
Subject: [PATCH 05/44] fix: read the contents of integer histograms

---
 src/eventio/histograms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eventio/histograms.py b/src/eventio/histograms.py
index a75ebd4..f86f50a 100644
--- a/src/eventio/histograms.py
+++ b/src/eventio/histograms.py
@@ -59,7 +59,7 @@ class Histograms(EventIOObject):
                     hist['data'] = np.zeros(n_counts)
             else:
                 if hist['tentries'] > 0:
-                    hist['data'] = read_array(self, dtype='<i4', counts=n_counts)
+                    hist['data'] = read_array(self, dtype='<i4', count=n_counts)
                 else:
                     hist['data'] = np.zeros(n_counts)
 
-- 
2.43.0


From 5612192a4aa11ba3eaf4d79cc66dad433cffa455 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 16:39:16 +0000
Subject: [PATCH 06/44] fix: read physical addresses of version 0 and 1
 telescope event headers

---
 src/eventio/simtel/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eventio/simtel/objects.py b/src/eventio/simtel/objects.py
index 2830d47..788f4f0 100644
--- a/src/eventio/simtel/objects.py
+++ b/src/eventio/simtel/objects.py
@@ -814,7 +814,7 @@ class TelescopeEventHeader(TelescopeObject):
 
         if t & 0x200:
             if self.header.version <= 1:
-                event_head['n_phys_addr'] = struct.unpack('<h', data[pos:pos + 2])
+                event_head['n_phys_addr'], = struct.unpack('<h', data[pos:pos + 2])
                 pos += 2
                 event_head['phys_addr'] = np.frombuffer(
                     data, dtype='<i2', count=event_head['n_phys_addr'], offset=pos
-- 
2.43.0


From dbee1eedeaaf988d787c7cc7db3b3cda47f1fff7 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 16:39:25 +0000
Subject: [PATCH 07/44] fix: parse version 0 and 1 central events, which have
 no trigger type mask

---
 src/eventio/simtel/objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eventio/simtel/objects.py b/src/eventio/simtel/objects.py
index 788f4f0..6b54957 100644
--- a/src/eventio/simtel/objects.py
+++ b/src/eventio/simtel/objects.py
@@ -647,7 +647,7 @@ class TriggerInformation(EventIOObject):
         # here we fix the bug, as does the fixed hessio library.
         # This only affects versions up to 3, as that was the highest version
         # existing before the fix was introduced.
-        if version <= 3:
+        if 2 <= version <= 3:
             self.fix_teltrg_type_mask(event_info["teltrg_type_mask"])
 
         return event_info
-- 
2.43.0


From 106123349cf769e77e44ea2720f94c87144520cb Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 16:40:40 +0000
Subject: [PATCH 08/44] fix: read the extra parameters of version 2 MC showers

---
 src/eventio/simtel/objects.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/eventio/simtel/objects.py b/src/eventio/simtel/objects.py
index 6b54957..886a513 100644
--- a/src/eventio/simtel/objects.py
+++ b/src/eventio/simtel/objects.py
@@ -1442,9 +1442,9 @@ class MCShower(EventIOObject):
             mc['profiles'].append(p)
 
         if self.header.version >= 2:
-            h = read_header(self, offset=self._filehandle.tell(), toplevel=False)
+            h = read_header(byte_stream, offset=byte_stream.tell(), toplevel=False)
             assert h.type == 1215
-            mc['mc_extra_params'] = MCExtraParams(h, self).parse()
+            mc['mc_extra_params'] = MCExtraParams(h, byte_stream).parse()
         return mc
 
 
@@ -1463,7 +1463,7 @@ class MCExtraParams(EventIOObject):
         if ep['n_iparam'] > 0:
             ep['iparam'] = read_array(byte_stream, dtype='<i4', count=ep['n_iparam'])
         if ep['n_fparam'] > 0:
-            ep['fparam'] = read_array(byte_stream, dtype='<f4', count=ep['n_iparam'])
+            ep['fparam'] = read_array(byte_stream, dtype='<f4', count=ep['n_fparam'])
         return ep
 
 
-- 
2.43.0


From 169e66dd0ba05ef0a9b048373690536eb999c4bd Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 16:41:58 +0000
Subject: [PATCH 09/44] fix: parse from the start of the payload in all classes

---
 src/eventio/simtel/objects.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/eventio/simtel/objects.py b/src/eventio/simtel/objects.py
index 886a513..ab6e3ac 100644
--- a/src/eventio/simtel/objects.py
+++ b/src/eventio/simtel/objects.py
@@ -80,6 +80,7 @@ class HistoryCommandLine(EventIOObject):
     eventio_type = 71
 
     def parse(self):
+        self.seek(0)
         timestamp = read_int(self)
         string = read_string(self)
         return timestamp, string
@@ -89,6 +90,7 @@ class HistoryConfig(EventIOObject):
     eventio_type = 72
 
     def parse(self):
+        self.seek(0)
         timestamp = read_int(self)
         string = read_string(self)
         return timestamp, string
@@ -98,6 +100,7 @@ class HistoryMeta(EventIOObject):
     eventio_type = 75
 
     def parse(self):
+        self.seek(0)
         n_items = read_unsigned_varint(self)
 
         data = {}
@@ -1807,6 +1810,7 @@ class AuxiliaryDigitalTraces(EventIOObject):
     eventio_type = 2029
 
     def parse(self):
+        self.seek(0)
         data = {}
         data["tel_id"] = read_int(self)
         data["time_scale"] = read_float(self)
@@ -1821,6 +1825,7 @@ class AuxiliaryAnalogTraces(EventIOObject):
     eventio_type = 2030
 
     def parse(self):
+        self.seek(0)
         data = {}
         data["tel_id"] = read_int(self)
         data["time_scale"] = read_float(self)
@@ -1841,6 +1846,7 @@ class PixelTriggerTimes(TelescopeObject):
 
     def parse(self):
         assert_exact_version(self, supported_version=0)
+        self.seek(0)
         byte_stream = BytesIO(self.read())
 
         trigger_times = {}
@@ -1860,6 +1866,7 @@ class PixelMonitoring(TelescopeObject):
 
     def parse(self):
         assert_exact_version(self, supported_version=0)
+        self.seek(0)
         byte_stream = BytesIO(self.read())
 
         flags = read_int(byte_stream)
-- 
2.43.0


From 0996f99edb0d667494889d7c31d0420656e36439 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 16:53:16 +0000
Subject: [PATCH 10/44] fix: refuse relative seeks to before the start of an
 object

---
 src/eventio/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/eventio/base.py b/src/eventio/base.py
index af56dce..157e3f2 100644
--- a/src/eventio/base.py
+++ b/src/eventio/base.py
@@ -388,6 +388,7 @@ class EventIOObject:
             assert offset >= 0
             new_pos = self._filehandle.seek(address + offset, whence)
         elif whence == 1:
+            assert self._pos + offset >= 0
             new_pos = self._filehandle.seek(address + self._pos + offset, 0)
         elif whence == 2:
             if offset > self.size:
-- 
2.43.0


From ea5690bb1b171b1d7da5a3a80c5566c794fc5b73 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 16:58:27 +0000
Subject: [PATCH 11/44] fix: raise a failure met while peeking on the next
 read, and then forget it

---
 src/eventio/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/eventio/base.py b/src/eventio/base.py
index 157e3f2..d8267a8 100644
--- a/src/eventio/base.py
+++ b/src/eventio/base.py
@@ -147,6 +147,10 @@ class EventIOFile:
             o, self.next = self.next, None
             return o
 
+        if self.peek_error is not None:
+            error, self.peek_error = self.peek_error, None
+            raise error
+
         return self._read_next_object()
 
     def _read_next_object(self):
-- 
2.43.0


From 77186a2cc96970b6b155ce9023ec131eb50c654c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:01:26 +0000
Subject: [PATCH 12/44] fix: only advance to the next header once the object
 was read

---
 src/eventio/base.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/eventio/base.py b/src/eventio/base.py
index d8267a8..0b8a818 100644
--- a/src/eventio/base.py
+++ b/src/eventio/base.py
@@ -171,12 +171,13 @@ class EventIOFile:
             toplevel=True,
             offset=start,
         )
-        self._next_header_pos += header.total_size
-
-        return KNOWN_OBJECTS.get(header.type, EventIOObject)(
+        o = KNOWN_OBJECTS.get(header.type, EventIOObject)(
             header,
             filehandle=self._filehandle,
         )
+        # only advance if everything worked, so a failed read can be repeated
+        self._next_header_pos += header.total_size
+        return o
 
     def _ends_before(self, position):
         '''Check if the file ends before `position`
@@ -380,11 +381,11 @@ class EventIOObject:
             toplevel=False,
             offset=self.address + self._next_header_pos,
         )
-        self._next_header_pos += header.total_size
-
-        return KNOWN_OBJECTS.get(header.type, EventIOObject)(
+        o = KNOWN_OBJECTS.get(header.type, EventIOObject)(
             header, filehandle=self._filehandle
         )
+        self._next_header_pos += header.total_size
+        return o
 
     def seek(self, offset, whence=0):
         address = self.address
-- 
2.43.0


From 82930cbdcf9ebc2d7af3911fd591fd922a77317b Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:14:28 +0000
Subject: [PATCH 13/44] fix: pass on warnings of the gzip process

---
 src/eventio/base.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/eventio/base.py b/src/eventio/base.py
index 0b8a818..6eca5e0 100644
--- a/src/eventio/base.py
+++ b/src/eventio/base.py
@@ -44,13 +44,19 @@ class PipeWrapper:
             return
 
         returncode = self.process.wait()
-        # gzip uses 2 for warnings
-        if returncode in (0, 2):
+        if returncode == 0:
             return
 
-        if self.error_message is None:
+        first = self.error_message is None
+        if first:
             self.error_message = self.process.stderr.read().decode(errors='replace').strip()
 
+        # gzip uses 2 for warnings, e.g. if it ignored garbage after the compressed data
+        if returncode == 2:
+            if first:
+                warnings.warn('Reading from gzip: {}'.format(self.error_message))
+            return
+
         if 'unexpected end of file' in self.error_message:
             raise EOFError('File seems to be truncated')
 
-- 
2.43.0


From 6e1ca253a9a7f218b703244114408bc27e98e56e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:17:55 +0000
Subject: [PATCH 14/44] fix: do not continue reading from a pipe at an unknown
 position after an error

---
 src/eventio/base.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/eventio/base.py b/src/eventio/base.py
index 6eca5e0..1b720cd 100644
--- a/src/eventio/base.py
+++ b/src/eventio/base.py
@@ -29,10 +29,20 @@ class PipeWrapper:
         self.pipe = pipe
         self.process = process
         self.error_message = None
+        self.failed = False
         self.pos = 0
 
     def read(self, size=-1):
-        data = self.pipe.read(size)
+        if self.failed:
+            raise IOError('Position is unknown after an earlier error')
+
+        try:
+            data = self.pipe.read(size)
+        except BaseException:
+            # we do not know how much was already taken from the pipe
+            self.failed = True
+            raise
+
         self.pos += len(data)
         if size is None or size < 0 or len(data) < size:
             self._check_process()
-- 
2.43.0


From a6b6dd24e12c5d2cfe26d932f2c3ccfc5e0e15ea Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:18:15 +0000
Subject: [PATCH 15/44] fix: raise EOFError if a zstd file ends inside a frame

---
 src/eventio/base.py        | 13 +++++-----
 src/eventio/file_types.py  | 13 +++++-----
 src/eventio/zstd_reader.py | 50 ++++++++++++++++++++++++++++++++++++++
 3 files changed, 63 insertions(+), 13 deletions(-)
 create mode 100644 src/eventio/zstd_reader.py

diff --git a/src/eventio/base.py b/src/eventio/base.py
index 1b720cd..c050194 100644
--- a/src/eventio/base.py
+++ b/src/eventio/base.py
@@ -1,14 +1,14 @@
-from io import BufferedIOBase
+from io import BufferedIOBase, BufferedReader
 import warnings
 import weakref
 import struct
 import gzip
 import logging
 import subprocess as sp
-import zstandard as zstd
 from typing import Any
 
 from .file_types import is_gzip, is_eventio, is_zstd
+from .zstd_reader import ZstdReader
 from .header import parse_header_bytes, get_bits_from_word
 from . import constants
 from .exceptions import WrongType
@@ -38,6 +38,9 @@ class PipeWrapper:
 
         try:
             data = self.pipe.read(size)
+        except EOFError:
+            # there is nothing more to come
+            raise
         except BaseException:
             # we do not know how much was already taken from the pipe
             self.failed = True
@@ -92,7 +95,7 @@ class PipeWrapper:
         return self.pos
 
     def close(self):
-        pass
+        self.pipe.close()
 
     def tell(self):
         return self.pos
@@ -137,9 +140,7 @@ class EventIOFile:
 
         elif is_zstd(path):
             log.info('Found zstd compressed file')
-            self._filehandle = zstd.ZstdDecompressor().stream_reader(
-                open(path, 'rb'), read_size=1024**2, read_across_frames=True,
-            )
+            self._filehandle = PipeWrapper(BufferedReader(ZstdReader(path), 1024**2))
             self.zstd = True
 
         else:
diff --git a/src/eventio/file_types.py b/src/eventio/file_types.py
index b57a295..f5ec2df 100644
--- a/src/eventio/file_types.py
+++ b/src/eventio/file_types.py
@@ -1,8 +1,9 @@
 import gzip
+from io import BufferedReader
 try:
-    import zstandard as zstd
+    from .zstd_reader import ZstdReader
 except ModuleNotFoundError:
-    zstd = None
+    ZstdReader = None
 
 from .constants import (
     SYNC_MARKER_SIZE,
@@ -44,12 +45,10 @@ def is_eventio(path):
         with gzip.open(path, 'rb') as f:
             marker_bytes = f.read(SYNC_MARKER_SIZE)
     elif is_zstd(path):
-        if zstd is None:
+        if ZstdReader is None:
             raise IOError('You need the `zstandard` module to read zstd files')
-        with open(path, 'rb') as f:
-            cctx = zstd.ZstdDecompressor()
-            with cctx.stream_reader(f, read_across_frames=True) as stream:
-                marker_bytes = stream.read(SYNC_MARKER_SIZE)
+        with BufferedReader(ZstdReader(path)) as f:
+            marker_bytes = f.read(SYNC_MARKER_SIZE)
     else:
         with open(path, 'rb') as f:
             marker_bytes = f.read(SYNC_MARKER_SIZE)
diff --git a/src/eventio/zstd_reader.py b/src/eventio/zstd_reader.py
new file mode 100644
index 0000000..472012f
--- /dev/null
+++ b/src/eventio/zstd_reader.py
@@ -0,0 +1,50 @@
+from io import RawIOBase
+import zstandard as zstd
+
+
+class ZstdReader(RawIOBase):
+    '''
+    Decompress all zstd frames of the file `path`.
+
+    Other than the readers of the zstandard module, this raises an `EOFError`
+    if the file ends inside a frame instead of pretending to be complete.
+    '''
+    READ_SIZE = 16 * 1024
+
+    def __init__(self, path):
+        self._file = open(path, 'rb')
+        self._decompressor = None
+        self._compressed = b''
+        self._data = memoryview(b'')
+
+    def readable(self):
+        return True
+
+    def readinto(self, buffer):
+        while len(self._data) == 0:
+            if not self._compressed:
+                self._compressed = self._file.read(self.READ_SIZE)
+
+                if not self._compressed:
+                    if self._decompressor is not None:
+                        raise EOFError('File seems to be truncated')
+                    return 0
+
+            if self._decompressor is None:
+                self._decompressor = zstd.ZstdDecompressor().decompressobj()
+
+            compressed, self._compressed = self._compressed, b''
+            self._data = memoryview(self._decompressor.decompress(compressed))
+            if self._decompressor.eof:
+                self._compressed = self._decompressor.unused_data
+                self._decompressor = None
+
+        size = min(len(buffer), len(self._data))
+        buffer[:size] = self._data[:size]
+        self._data = self._data[size:]
+        return size
+
+    def close(self):
+        if not self.closed:
+            self._file.close()
+        super().close()
-- 
2.43.0


From b88dae9d521edd4f965df755b9bcbacacce22cbf Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:44:25 +0000
Subject: [PATCH 16/44] fix: do not attach observation level particles to later
 showers

---
 src/eventio/simtel/simtelfile.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/eventio/simtel/simtelfile.py b/src/eventio/simtel/simtelfile.py
index 2ca70ee..1abdc43 100644
--- a/src/eventio/simtel/simtelfile.py
+++ b/src/eventio/simtel/simtelfile.py
@@ -283,6 +283,8 @@ class SimTelFile:
 
         elif isinstance(o, MCShower):
             self.current_mc_shower = o.parse()
+            # particles at observation level belong to one shower only
+            self.current_obslev_particles = None
 
         elif isinstance(o, ArrayEvent):
             # assume that array event without shower available are unpacked calibration events
-- 
2.43.0


From a3511dbe1d70a98b431c8eb96e23fa286faa6c80 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:47:18 +0000
Subject: [PATCH 17/44] fix: keep the last complete event if a following
 calibration event is truncated

---
 src/eventio/simtel/simtelfile.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/eventio/simtel/simtelfile.py b/src/eventio/simtel/simtelfile.py
index 1abdc43..06769ba 100644
--- a/src/eventio/simtel/simtelfile.py
+++ b/src/eventio/simtel/simtelfile.py
@@ -287,15 +287,14 @@ class SimTelFile:
             self.current_obslev_particles = None
 
         elif isinstance(o, ArrayEvent):
+            array_event = parse_array_event(o, self.allowed_telescopes)
             # assume that array event without shower available are unpacked calibration events
             if self.current_mc_shower is None:
                 event = self.current_event
                 self.current_event = {"type": "calibration"}
 
             self.current_event["event_id"] = o.header.id
-            self.current_event.update(
-                parse_array_event(o, self.allowed_telescopes)
-            )
+            self.current_event.update(array_event)
             self._add_monitoring(self.current_event)
 
         elif isinstance(o, iact.TelescopeData):
@@ -331,18 +330,17 @@ class SimTelFile:
             self.corsika_inputcards.append(o.parse())
 
         elif isinstance(o, CalibrationEvent):
-            array_event = next(o)
+            array_event_object = next(o)
+            array_event = parse_array_event(array_event_object, self.allowed_telescopes)
             # make event_id negative for calibration events to not overlap with
             # later air shower events
             event = self.current_event
             self.current_event = {
                 "type": "calibration",
-                "event_id": -array_event.header.id,
+                "event_id": -array_event_object.header.id,
                 "calibration_type": o.type,
             }
-            self.current_event.update(
-                parse_array_event(array_event, self.allowed_telescopes)
-            )
+            self.current_event.update(array_event)
             self._add_monitoring(self.current_event)
             if self._current_calib_pe is not None:
                 self.current_event["photoelectrons"] = self._current_calib_pe
-- 
2.43.0


From d501e59ce20b135c72be1cc0dc4ef1916dbaa70d Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:47:25 +0000
Subject: [PATCH 18/44] fix: raise EOFError if a file ends between objects of
 the run header

---
 src/eventio/simtel/simtelfile.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/eventio/simtel/simtelfile.py b/src/eventio/simtel/simtelfile.py
index 06769ba..d29e849 100644
--- a/src/eventio/simtel/simtelfile.py
+++ b/src/eventio/simtel/simtelfile.py
@@ -206,7 +206,10 @@ class SimTelFile:
         # and we found the telescope_descriptions of all telescopes
         found_all_telescopes = False
         while not found_all_telescopes:
-            self._parse_next_object()
+            try:
+                self._parse_next_object()
+            except StopIteration:
+                raise EOFError('File ends before all telescope descriptions were found') from None
 
             # check if we found all the descriptions of all telescopes
             if self.n_telescopes is not None:
-- 
2.43.0


From 8e18fed0bf5a7eabff28a4e86aea1584774dc980 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:55:12 +0000
Subject: [PATCH 19/44] fix: forget a peeked object when a new iteration over
 an IACT file starts

---
 src/eventio/iact/__init__.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/src/eventio/iact/__init__.py b/src/eventio/iact/__init__.py
index 0d0db1e..f85e16e 100644
--- a/src/eventio/iact/__init__.py
+++ b/src/eventio/iact/__init__.py
@@ -134,11 +134,24 @@ class IACTFile(EventIOFile):
             self.n_telescopes,
         )
 
+    def _rewind(self):
+        '''Make the first object of the first event the next one'''
+        position = self._next_header_pos
+        if self.next is not None:
+            header = self.next.header
+            position = header.content_address - header.header_size
+
+        # keep what is known from peeking if we are already there
+        if position != self._first_event_byte:
+            self.next = None
+            self.peek_error = None
+            self._next_header_pos = self._first_event_byte
+
     def __iter__(self):
         '''
         Generator over the single array events
         '''
-        self._next_header_pos = self._first_event_byte
+        self._rewind()
         obj = next(self)
 
         while not isinstance(obj, RunEnd):
-- 
2.43.0


From 1868994da6e3e6305ffc2c00672a788ad9c086b3 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 17:55:49 +0000
Subject: [PATCH 20/44] fix: raise EOFError if an IACT file ends between
 objects

---
 src/eventio/iact/__init__.py | 31 +++++++++++++++++++------------
 1 file changed, 19 insertions(+), 12 deletions(-)

diff --git a/src/eventio/iact/__init__.py b/src/eventio/iact/__init__.py
index f85e16e..cbbdae6 100644
--- a/src/eventio/iact/__init__.py
+++ b/src/eventio/iact/__init__.py
@@ -101,18 +101,18 @@ class IACTFile(EventIOFile):
     def __init__(self, path, zcat=True):
         super().__init__(path, zcat=zcat)
 
-        header_object = next(self)
+        header_object = self._next_object()
         check_type(header_object, RunHeader)
         self.header = header_object.parse()
 
-        input_card_object = next(self)
+        input_card_object = self._next_object()
         check_type(input_card_object, InputCard)
         self.input_card = input_card_object.parse()
 
-        o = next(self)
+        o = self._next_object()
         if isinstance(o, AtmosphericProfile):
             self.atmospheric_profile = o.parse()
-            telescope_object = next(self)
+            telescope_object = self._next_object()
         else:
             self.atmospheric_profile = None
             telescope_object = o
@@ -134,6 +134,13 @@ class IACTFile(EventIOFile):
             self.n_telescopes,
         )
 
+    def _next_object(self):
+        '''Get the next low-level object, there has to be one before the end of the run'''
+        try:
+            return next(self)
+        except StopIteration:
+            raise EOFError('File ends before the end of the run') from None
+
     def _rewind(self):
         '''Make the first object of the first event the next one'''
         position = self._next_header_pos
@@ -152,13 +159,13 @@ class IACTFile(EventIOFile):
         Generator over the single array events
         '''
         self._rewind()
-        obj = next(self)
+        obj = self._next_object()
 
         while not isinstance(obj, RunEnd):
             check_type(obj, EventHeader)
             header = obj.parse()
 
-            reuse_object = next(self)
+            reuse_object = self._next_object()
             check_type(reuse_object, ArrayOffsets)
 
             time_offset, array_offsets = reuse_object.parse()
@@ -167,7 +174,7 @@ class IACTFile(EventIOFile):
             longitudinal = None
             particles = None
 
-            obj = next(self)
+            obj = self._next_object()
 
             while not isinstance(obj, (TelescopeData, TelescopeArrayHead)):
                 if isinstance(obj, Longitudinal):
@@ -179,7 +186,7 @@ class IACTFile(EventIOFile):
 
                     particles = obj.parse()
 
-                obj = next(self)
+                obj = self._next_object()
 
             split_always = isinstance(obj, TelescopeArrayHead)
 
@@ -193,7 +200,7 @@ class IACTFile(EventIOFile):
                 n_photons = {}
                 n_bunches = {}
                 if split_always:
-                    obj = next(self)
+                    obj = self._next_object()
                     while not isinstance(obj, TelescopeArrayEnd):
                         check_type(obj, Photons)
                         photons, emitter = obj.parse()
@@ -201,7 +208,7 @@ class IACTFile(EventIOFile):
                         emitter_bunches[obj.telescope] = emitter
                         n_photons[obj.telescope] = obj.n_photons
                         n_bunches[obj.telescope] = obj.n_bunches
-                        obj = next(self)
+                        obj = self._next_object()
                 else:
                     check_type(obj, TelescopeData)
                     telescope_data_obj = obj
@@ -229,7 +236,7 @@ class IACTFile(EventIOFile):
                     impact_y=-array_offsets[reuse]['y'],
                 )
                 reuses.append(reuse_data)
-                obj = next(self)
+                obj = self._next_object()
 
             check_type(obj, EventEnd)
             event_end = obj.parse(header["version"])
@@ -245,7 +252,7 @@ class IACTFile(EventIOFile):
                     **reuse,
                 )
 
-            obj = next(self)
+            obj = self._next_object()
 
         self.run_end = obj.parse()
 
-- 
2.43.0


From ac31e31d652ab3a39705531522d5d17d6193be0f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 18:03:14 +0000
Subject: [PATCH 21/44] fix: read gzip files whose name starts with a dash

---
 src/eventio/base.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/eventio/base.py b/src/eventio/base.py
index c050194..0071c23 100644
--- a/src/eventio/base.py
+++ b/src/eventio/base.py
@@ -1,3 +1,4 @@
+import os
 from io import BufferedIOBase, BufferedReader
 import warnings
 import weakref
@@ -120,8 +121,10 @@ class EventIOFile:
             if zcat:
                 try:
                     log.info('Trying to read using zcat')
+                    # make sure the file name cannot be taken for an option
+                    gzip_path = os.path.join(os.curdir, os.fsdecode(path))
                     self.read_process = sp.Popen(
-                        ['gzip', '-cd', path], stdout=sp.PIPE, stderr=sp.PIPE
+                        ['gzip', '-cd', gzip_path], stdout=sp.PIPE, stderr=sp.PIPE
                     )
                     self.read_process.poll()
                     rc = self.read_process.returncode
-- 
2.43.0


From 6772a953682e208d8cbe42aa441ac3be815243ec Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 18:03:50 +0000
Subject: [PATCH 22/44] fix: do not fall back to the gzip module on warnings of
 the gzip process

---
 src/eventio/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/eventio/base.py b/src/eventio/base.py
index 0071c23..df77017 100644
--- a/src/eventio/base.py
+++ b/src/eventio/base.py
@@ -128,7 +128,8 @@ class EventIOFile:
                     )
                     self.read_process.poll()
                     rc = self.read_process.returncode
-                    if rc is not None and rc != 0:
+                    # 2 is only a warning, e.g. about trailing garbage
+                    if rc not in (None, 0, 2):
                         raise ValueError(self.read_process.stderr.read().decode())
 
                     self._filehandle = PipeWrapper(self.read_process.stdout, self.read_process)
-- 
2.43.0


From 76d09e0b08e7731c8cf91c34aa2d6e448d15439e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 18:08:57 +0000
Subject: [PATCH 23/44] fix: kill a gzip process that does not react to being
 terminated

---
 src/eventio/base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/eventio/base.py b/src/eventio/base.py
index df77017..6e835a4 100644
--- a/src/eventio/base.py
+++ b/src/eventio/base.py
@@ -245,7 +245,11 @@ class EventIOFile:
                 read_process.terminate()
                 read_process.stdout.close()
                 read_process.stderr.close()
-                read_process.wait(timeout=1)
+                try:
+                    read_process.wait(timeout=1)
+                except sp.TimeoutExpired:
+                    read_process.kill()
+                    read_process.wait()
         except Exception:
             pass
 
-- 
2.43.0


From d7f790877d7ec9cc4aad32e36741ba37ff395d05 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 18:29:25 +0000
Subject: [PATCH 24/44] fix: yield no object if zero subobjects are asked for

---
 src/eventio/search_utils.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/eventio/search_utils.py b/src/eventio/search_utils.py
index 0de7543..76e03c2 100644
--- a/src/eventio/search_utils.py
+++ b/src/eventio/search_utils.py
@@ -1,4 +1,5 @@
 from eventio import EventIOFile
+from itertools import islice
 import warnings
 
 
@@ -81,9 +82,4 @@ def yield_subobjects(f, eventio_type):
 
 
 def yield_n_subobjects(f, eventio_type, n=3):
-    for i, obj in enumerate(yield_subobjects(f, eventio_type), start=1):
-        if i >= n:
-            yield obj
-            return
-
-        yield obj
+    yield from islice(yield_subobjects(f, eventio_type), n)
-- 
2.43.0


From 266fd071958c8cfdcb587dab72707637776a134f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 18:32:00 +0000
Subject: [PATCH 25/44] fix: cut files also after an object that fits exactly

---
 src/eventio/scripts/cut_eventio_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eventio/scripts/cut_eventio_file.py b/src/eventio/scripts/cut_eventio_file.py
index fb68a57..cbae47b 100644
--- a/src/eventio/scripts/cut_eventio_file.py
+++ b/src/eventio/scripts/cut_eventio_file.py
@@ -55,7 +55,7 @@ def main():
         last_o = None
         for o in f:
             last_byte = o.header.content_address + o.header.content_size
-            if last_byte < max_size:
+            if last_byte <= max_size:
                 bytes_to_read = last_byte
                 last_o = o
             else:
-- 
2.43.0


From 787675e30bdbb8f1f3f77f9e48dab7c242286130 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 18:32:07 +0000
Subject: [PATCH 26/44] fix: refuse sizes that are not of a documented form
 when cutting files

---
 src/eventio/scripts/cut_eventio_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/eventio/scripts/cut_eventio_file.py b/src/eventio/scripts/cut_eventio_file.py
index cbae47b..4b275aa 100644
--- a/src/eventio/scripts/cut_eventio_file.py
+++ b/src/eventio/scripts/cut_eventio_file.py
@@ -26,7 +26,7 @@ parser.add_argument(
 
 
 def parse_size(size):
-    m = re.match(r'(\d+)([kMG])?', size)
+    m = re.fullmatch(r'(\d+)([kMG])?', size)
     if not m:
         raise ValueError('Format not recognized, valid are #, #k, #M or #G')
 
-- 
2.43.0


From 11dfba35071817638d831eec898e8558c7f2fae2 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 18:35:18 +0000
Subject: [PATCH 27/44] fix: do not write a shorter file if the input changes
 while cutting

---
 src/eventio/scripts/cut_eventio_file.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/eventio/scripts/cut_eventio_file.py b/src/eventio/scripts/cut_eventio_file.py
index 4b275aa..9296066 100644
--- a/src/eventio/scripts/cut_eventio_file.py
+++ b/src/eventio/scripts/cut_eventio_file.py
@@ -72,7 +72,10 @@ def main():
     with open_file(args.outputfile, 'wb') as of:
 
         with EventIOFile(args.inputfile) as f:
-            of.write(f.read(bytes_to_read))
+            data = f.read(bytes_to_read)
+            if len(data) < bytes_to_read:
+                raise EOFError('File seems to be truncated')
+            of.write(data)
 
 
 if __name__ == '__main__':
-- 
2.43.0


From 1e11413f295bfd4ddf51ae950e503de51324889c Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 18:39:26 +0000
Subject: [PATCH 28/44] fix: count all objects that are not printed when
 printing the structure of a file

---
 src/eventio/scripts/print_structure.py | 29 ++++++++++++++------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/src/eventio/scripts/print_structure.py b/src/eventio/scripts/print_structure.py
index d9ca5f0..1d2be77 100644
--- a/src/eventio/scripts/print_structure.py
+++ b/src/eventio/scripts/print_structure.py
@@ -18,6 +18,11 @@ parser.add_argument(
 )
 
 
+def print_omitted(n_omitted, level):
+    if n_omitted > 0:
+        print('    ' * level, 'And {} objects more of the same type'.format(n_omitted))
+
+
 def print_structure():
     args = parser.parse_args()
 
@@ -27,28 +32,26 @@ def print_structure():
         last = None
         last_level = 0
         n_same = 0
+        error = None
 
         try:
             for o, level in yield_all_objects_depth_first(f):
                 if last and last != EventIOObject and isinstance(o, last):
                     n_same += 1
-                    last_level = level
                 else:
+                    print_omitted(n_same - args.max_repeats, last_level)
                     last = o.__class__
-                    if n_same > args.max_repeats:
-                        print(
-                            '    ' * last_level,
-                            'And {} objects more of the same type'.format(
-                                n_same - args.max_repeats
-                            )
-                        )
-                    n_same = 0
-                    last_level = level
-
-                if n_same < args.max_repeats:
+                    n_same = 1
+                last_level = level
+
+                if n_same <= args.max_repeats:
                     print('    ' * level, conv(o))
         except EOFError as e:
-            print(e)
+            error = e
+
+        print_omitted(n_same - args.max_repeats, last_level)
+        if error is not None:
+            print(error)
 
 
 def main():
-- 
2.43.0


From 1f838d6c291ec08d3b0c32ddd4e8b1f762bafc41 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 18:39:33 +0000
Subject: [PATCH 29/44] fix: print the history of files that contain nothing
 else

---
 src/eventio/scripts/print_simtel_history.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/eventio/scripts/print_simtel_history.py b/src/eventio/scripts/print_simtel_history.py
index d7831e9..a62a9a8 100644
--- a/src/eventio/scripts/print_simtel_history.py
+++ b/src/eventio/scripts/print_simtel_history.py
@@ -11,13 +11,14 @@ def print_history():
     args = parser.parse_args()
 
     with EventIOFile(args.inputfile) as f:
-        o = next(f)
-        while isinstance(o, History):
+        for o in f:
+            if not isinstance(o, History):
+                break
+
             for subo in o:
                 t, line = subo.parse()
                 t = datetime.fromtimestamp(t)
                 print(f'{t:%Y-%m-%dT%H:%M:%S}', line.decode('utf-8').strip())
-            o = next(f)
 
 
 def main():
-- 
2.43.0


From 6c8233f6b59d5a81fa40315729cf3e093a9db945 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 18:45:03 +0000
Subject: [PATCH 30/44] fix: read array events with version 0 trigger
 information

---
 src/eventio/simtel/simtelfile.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/eventio/simtel/simtelfile.py b/src/eventio/simtel/simtelfile.py
index d29e849..fc3c25c 100644
--- a/src/eventio/simtel/simtelfile.py
+++ b/src/eventio/simtel/simtelfile.py
@@ -481,9 +481,13 @@ def parse_array_event(array_event, allowed_telescopes=None):
                 event["event_id"] = o.header.id
             trigger_information = o.parse()
             event["trigger_information"] = trigger_information
-            telescopes = set(trigger_information['telescopes_with_data'])
+            # version 0 does not list the telescopes
+            telescopes = trigger_information.get('telescopes_with_data')
 
-            if allowed_telescopes and len(telescopes & allowed_telescopes) == 0:
+            if (
+                allowed_telescopes and telescopes is not None
+                and len(set(telescopes) & allowed_telescopes) == 0
+            ):
                 break
 
         elif isinstance(o, TelescopeEvent):
-- 
2.43.0


From 2cc0300c4d919ec98f7d3b57cb4a18c2f670f50e Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:47:46 +0000
Subject: [PATCH 31/44] fix: plot histograms without entries, and show all bins
 that have contents

---
 src/eventio/scripts/plot_hists.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/eventio/scripts/plot_hists.py b/src/eventio/scripts/plot_hists.py
index 1ccbe0f..d916aed 100644
--- a/src/eventio/scripts/plot_hists.py
+++ b/src/eventio/scripts/plot_hists.py
@@ -47,14 +47,10 @@ def main():
 
                     plt.pcolormesh(x_bins, y_bins, hist['data'])
 
-                    marginal_x = np.sum(hist['data'], axis=0)
-                    marginal_y = np.sum(hist['data'], axis=1)
-
-                    non_zero_x, = np.where(marginal_x != 0)
-                    plt.xlim(x_bins[non_zero_x[0]], x_bins[non_zero_x[-1] + 1])
-
-                    non_zero_y, = np.where(marginal_y != 0)
-                    plt.ylim(y_bins[non_zero_y[0]], y_bins[non_zero_y[-1] + 1])
+                    non_zero_y, non_zero_x = np.where(hist['data'] != 0)
+                    if len(non_zero_x) > 0:
+                        plt.xlim(x_bins[non_zero_x.min()], x_bins[non_zero_x.max() + 1])
+                        plt.ylim(y_bins[non_zero_y.min()], y_bins[non_zero_y.max() + 1])
                     plt.colorbar(label='Number of Events')
 
                 else:
@@ -62,7 +58,8 @@ def main():
                     plt.hist(centers, bins=x_bins, weights=hist['data'])
 
                     non_zero_x, = np.where(hist['data'] != 0)
-                    plt.xlim(x_bins[non_zero_x[0]], x_bins[non_zero_x[-1] + 1])
+                    if len(non_zero_x) > 0:
+                        plt.xlim(x_bins[non_zero_x[0]], x_bins[non_zero_x[-1] + 1])
 
                 plt.title(hist['title'])
                 plt.tight_layout()
-- 
2.43.0


From caef33d6c46be8cb414bc7525d100ab9b493bb9f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:50:33 +0000
Subject: [PATCH 32/44] fix: ignore unexpected objects among the photoelectrons
 of a calibration event, as announced

---
 src/eventio/simtel/simtelfile.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/eventio/simtel/simtelfile.py b/src/eventio/simtel/simtelfile.py
index fc3c25c..3790ad7 100644
--- a/src/eventio/simtel/simtelfile.py
+++ b/src/eventio/simtel/simtelfile.py
@@ -365,6 +365,7 @@ class SimTelFile:
                         f"Unexpected sub-object: {photoelectrons} in {telescope_data}, ignoring",
                         UnknownObjectWarning
                     )
+                    continue
 
                 tel_id = photoelectrons.telescope_id
                 self._current_calib_pe[tel_id] = photoelectrons.parse()
-- 
2.43.0


From d3e33199afb986c422be45ea6d05ca68b7996fa3 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 19:54:04 +0000
Subject: [PATCH 33/44] fix: do not end the iteration at empty calibration
 containers

---
 src/eventio/simtel/simtelfile.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/eventio/simtel/simtelfile.py b/src/eventio/simtel/simtelfile.py
index 3790ad7..74c87fe 100644
--- a/src/eventio/simtel/simtelfile.py
+++ b/src/eventio/simtel/simtelfile.py
@@ -333,7 +333,11 @@ class SimTelFile:
             self.corsika_inputcards.append(o.parse())
 
         elif isinstance(o, CalibrationEvent):
-            array_event_object = next(o)
+            array_event_object = next(o, None)
+            # must not look like the end of the file
+            if array_event_object is None:
+                raise ValueError('Calibration event {} is empty'.format(o))
+
             array_event = parse_array_event(array_event_object, self.allowed_telescopes)
             # make event_id negative for calibration events to not overlap with
             # later air shower events
@@ -350,7 +354,8 @@ class SimTelFile:
                 self._current_calib_pe = None
 
         elif isinstance(o, CalibrationPhotoelectrons):
-            telescope_data = next(o)
+            # None if there are no subobjects, this must not look like the end of the file
+            telescope_data = next(o, None)
             if not isinstance(telescope_data, iact.TelescopeData):
                 warnings.warn(
                     f"Unexpected sub-object: {telescope_data} in {o}, ignoring",
-- 
2.43.0


From 7555b85596786e44c783868092864ae775161d30 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:33:33 +0000
Subject: [PATCH 34/44] fix: reading with any negative size stays within the
 payload of the object

---
 src/eventio/base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/eventio/base.py b/src/eventio/base.py
index 6e835a4..37b3b63 100644
--- a/src/eventio/base.py
+++ b/src/eventio/base.py
@@ -365,11 +365,11 @@ class EventIOObject:
         ----------
         size: int
             read `size` bytes from the payload of this object
-            If size == -1 (default), read all remaining bytes.
+            If size is negative (default) or None, read all remaining bytes.
         '''
         # read all remaining bytes.
         remaining = max(0, self.size - self._pos)
-        if size == -1 or size > remaining:
+        if size is None or size < 0 or size > remaining:
             size = remaining
 
         if size == 0:
-- 
2.43.0


From 61ecd2ba8d692046c19632e6c5f60d222f29ffa8 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:37:57 +0000
Subject: [PATCH 35/44] fix: a CORSIKA shower without its telescope data is an
 error instead of getting those of a later shower

---
 src/eventio/iact/__init__.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/eventio/iact/__init__.py b/src/eventio/iact/__init__.py
index cbbdae6..8f701d7 100644
--- a/src/eventio/iact/__init__.py
+++ b/src/eventio/iact/__init__.py
@@ -2,7 +2,7 @@ import logging
 from collections import namedtuple
 
 from ..base import KNOWN_OBJECTS, EventIOFile, EventIOObject
-from ..exceptions import check_type
+from ..exceptions import WrongType, check_type
 
 from .objects import (
     RunHeader,
@@ -29,6 +29,9 @@ for o in EventIOObject.__subclasses__():
 
 log = logging.getLogger(__name__)
 
+# objects that mark the structure of a shower or of the run
+SHOWER_STRUCTURE = (EventHeader, ArrayOffsets, TelescopeArrayEnd, EventEnd, RunEnd)
+
 
 __all__ = [
     'IACTFile',
@@ -177,6 +180,10 @@ class IACTFile(EventIOFile):
             obj = self._next_object()
 
             while not isinstance(obj, (TelescopeData, TelescopeArrayHead)):
+                # the telescope data of this shower is missing
+                if isinstance(obj, SHOWER_STRUCTURE):
+                    raise WrongType(TelescopeData, obj)
+
                 if isinstance(obj, Longitudinal):
                     longitudinal = obj.parse()
 
@@ -200,6 +207,7 @@ class IACTFile(EventIOFile):
                 n_photons = {}
                 n_bunches = {}
                 if split_always:
+                    check_type(obj, TelescopeArrayHead)
                     obj = self._next_object()
                     while not isinstance(obj, TelescopeArrayEnd):
                         check_type(obj, Photons)
-- 
2.43.0


From 84561066dc28dd7fab0f24f81f51aaac02623325 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:38:07 +0000
Subject: [PATCH 36/44] fix: an event end block of another shower is an error

---
 src/eventio/iact/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/eventio/iact/__init__.py b/src/eventio/iact/__init__.py
index 8f701d7..6442922 100644
--- a/src/eventio/iact/__init__.py
+++ b/src/eventio/iact/__init__.py
@@ -248,6 +248,8 @@ class IACTFile(EventIOFile):
 
             check_type(obj, EventEnd)
             event_end = obj.parse(header["version"])
+            if event_end["event_number"] != header["event_number"]:
+                raise ValueError('EventEnd does not belong to this shower')
 
             for reuse in reuses:
                 yield Event(
-- 
2.43.0


From 72e0d6d2fc783e48675c1888638891cdadc7409f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 20:38:15 +0000
Subject: [PATCH 37/44] fix: particles among the photons of a telescope are an
 error instead of being taken for photons

---
 src/eventio/iact/__init__.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/eventio/iact/__init__.py b/src/eventio/iact/__init__.py
index 6442922..830f399 100644
--- a/src/eventio/iact/__init__.py
+++ b/src/eventio/iact/__init__.py
@@ -157,6 +157,13 @@ class IACTFile(EventIOFile):
             self.peek_error = None
             self._next_header_pos = self._first_event_byte
 
+    @staticmethod
+    def _parse_photons(obj):
+        '''Parse the photons of a telescope'''
+        if obj.array_id == 999 and obj.telescope_id == 999:
+            raise ValueError('Unexpected particles block')
+        return obj.parse()
+
     def __iter__(self):
         '''
         Generator over the single array events
@@ -211,7 +218,7 @@ class IACTFile(EventIOFile):
                     obj = self._next_object()
                     while not isinstance(obj, TelescopeArrayEnd):
                         check_type(obj, Photons)
-                        photons, emitter = obj.parse()
+                        photons, emitter = self._parse_photons(obj)
                         photon_bunches[obj.telescope] = photons
                         emitter_bunches[obj.telescope] = emitter
                         n_photons[obj.telescope] = obj.n_photons
@@ -222,7 +229,7 @@ class IACTFile(EventIOFile):
                     telescope_data_obj = obj
                     for data in telescope_data_obj:
                         if isinstance(data, Photons):
-                            photons, emitter = data.parse()
+                            photons, emitter = self._parse_photons(data)
                             photon_bunches[data.telescope] = photons
                             emitter_bunches[data.telescope] = emitter
                             n_photons[data.telescope] = data.n_photons
-- 
2.43.0


From bd95030b154a0dbdc7cc5d441459ab499db4a6f2 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:16:18 +0000
Subject: [PATCH 38/44] fix: read histograms with non-ASCII titles

---
 src/eventio/histograms.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/eventio/histograms.py b/src/eventio/histograms.py
index f86f50a..5c7c737 100644
--- a/src/eventio/histograms.py
+++ b/src/eventio/histograms.py
@@ -17,8 +17,10 @@ class Histograms(EventIOObject):
         for i in range(n_histograms):
             hist = {}
             hist['type'] = self.read(1).decode('ascii')
-            hist['title'] = read_string(self).decode('utf-8')
-            if len(hist['title']) % 2 == 0:
+            title = read_string(self)
+            hist['title'] = title.decode('utf-8')
+            # the number of bytes, not of characters, decides about the padding
+            if len(title) % 2 == 0:
                 self.read(1)
             hist['id'] = read_int(self)
             hist['n_bins_x'] = read_short(self)
-- 
2.43.0


From eba5bbedcf0bb547e6a7c8d09ee34efceab357de Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:16:44 +0000
Subject: [PATCH 39/44] fix: do not loop over a damaged number of traces
 without samples

---
 src/eventio/var_int.pyx | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/eventio/var_int.pyx b/src/eventio/var_int.pyx
index 9783df5..dd92e9d 100644
--- a/src/eventio/var_int.pyx
+++ b/src/eventio/var_int.pyx
@@ -194,6 +194,10 @@ cpdef unsigned_varint_arrays_differential(
     cdef uint32_t[:, :] output_view = output
     cdef uint32_t[:] output_view_1d
 
+    # nothing is stored for empty arrays, however many there are said to be
+    if n_elements == 0:
+        return output, bytes_read_total
+
     for i in range(n_arrays):
 
         output_view_1d = output_view[i]
-- 
2.43.0


From b842377f93e5a2d86bdb65000e3dbfc9a277a307 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:17:13 +0000
Subject: [PATCH 40/44] fix: do not read beyond the payload in the compiled
 decoders

---
 src/eventio/simtel/parsing.pyx | 14 ++++++++++++++
 src/eventio/var_int.pyx        | 17 +++++++++++++++++
 2 files changed, 31 insertions(+)

diff --git a/src/eventio/simtel/parsing.pyx b/src/eventio/simtel/parsing.pyx
index e03a670..9d76bac 100644
--- a/src/eventio/simtel/parsing.pyx
+++ b/src/eventio/simtel/parsing.pyx
@@ -7,6 +7,16 @@ cimport numpy as np
 
 INT16 = np.int16
 
+
+@cython.wraparound(False)  # disable negative indexing
+cdef int check_available(const uint8_t[:] data, uint64_t pos, uint64_t size) except -1:
+    """Make sure that `size` bytes are available in `data` starting at `pos`"""
+    cdef uint64_t total = data.shape[0]
+    if pos > total or size > total - pos:
+        raise IndexError('Out of bounds: data ends before the value')
+    return 0
+
+
 @cython.wraparound(False)  # disable negative indexing
 cpdef read_sector_information_v1(
     const uint8_t[:] data,
@@ -23,12 +33,14 @@ cpdef read_sector_information_v1(
     cdef uint64_t pos = offset
     for i in range(n_pixels):
 
+        check_available(data, pos, sizeof(int16_t))
         short_ptr = <int16_t*> &data[pos]
         n = short_ptr[0]
         pos += 2
 
         sector = array.array('h')
         for j in range(n):
+            check_available(data, pos, sizeof(int16_t))
             short_ptr = <int16_t*> &data[pos]
             sector.append(short_ptr[0])
             pos += 2
@@ -64,6 +76,8 @@ cpdef dict parse_mc_event(
     cdef float xcore, ycore, aweight
     cdef int32_t shower_num
 
+    check_available(data, pos, sizeof(int32_t) + (3 if version >= 2 else 2) * sizeof(float))
+
     shower_num = (<int32_t*> &data[pos])[0]
     pos += 4
     xcore = (<float*> &data[pos])[0]
diff --git a/src/eventio/var_int.pyx b/src/eventio/var_int.pyx
index dd92e9d..d02d3b7 100644
--- a/src/eventio/var_int.pyx
+++ b/src/eventio/var_int.pyx
@@ -8,6 +8,15 @@ from libc.math cimport NAN
 cnp.import_array()
 
 
+@cython.wraparound(False)  # disable negative indexing
+cdef int check_available(const uint8_t[:] data, uint64_t pos, uint64_t size) except -1:
+    """Make sure that `size` bytes are available in `data` starting at `pos`"""
+    cdef uint64_t total = data.shape[0]
+    if pos > total or size > total - pos:
+        raise IndexError('Out of bounds: data ends before the value')
+    return 0
+
+
 @cython.wraparound(False)  # disable negative indexing
 cpdef (uint64_t, uint8_t) unsigned_varint(const uint8_t[:] data, uint64_t offset=0):
     cdef uint8_t length
@@ -335,6 +344,7 @@ def simtel_pixel_timing_parse_list_type_2(
 
         for i_pix in range(start, stop + 1):
             for i_type in range(n_types):
+                check_available(data, pos, sizeof(int16_t))
                 timval[i_pix, i_type] = granularity * (<int16_t*> &data[pos])[0]
                 pos += 2
 
@@ -396,17 +406,20 @@ def parse_1208(
         if version > 2:
             pix_id, length = varint(data, offset=pos)
         else:
+            check_available(data, pos, sizeof(int16_t))
             pix_id = (<int16_t*> &data[pos])[0]
             length = 2
 
         pos += length
 
+        check_available(data, pos, sizeof(int32_t))
         n_pe = (<int32_t*> &data[pos])[0]
         pos += 4
 
         photoelectrons[pix_id] = n_pe
 
         for j in range(n_pe):
+            check_available(data, pos, sizeof(float))
             t = (<float*> &data[pos])[0]
             pixel_id[i_pe + j] = pix_id
             time[i_pe + j] = t
@@ -414,6 +427,7 @@ def parse_1208(
 
         if has_amplitudes:
             for j in range(n_pe):
+                check_available(data, pos, sizeof(float))
                 amplitude[i_pe + j] = (<float*> &data[pos])[0]
                 pos += 4
 
@@ -429,10 +443,12 @@ def parse_1208(
     if has_photons:
         photons = cnp.PyArray_ZEROS(1, pixel_shape, cnp.NPY_INT32, False)
 
+        check_available(data, pos, sizeof(int32_t))
         nonempty = (<int32_t*> &data[pos])[0]
         pos += 4
 
         for i in range(nonempty):
+            check_available(data, pos, sizeof(int16_t) + sizeof(int32_t))
             pix_id = (<int16_t*> &data[pos])[0]
             pos += 2
 
@@ -473,6 +489,7 @@ cpdef simtel_pixel_timing_parse_list_type_1(
     for i in range(pixel_list_length):
         i_pix = pixel_list[i]
         for i_type in range(n_types):
+            check_available(data, pos, sizeof(int16_t))
             short_ptr = <int16_t*> &(data[pos])
             timval[i_pix, i_type] = granularity * short_ptr[0]
             pos += 2
-- 
2.43.0


From 04ff5182c91628b43c2ed59b8ff67cfd5b5c8acc Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 22:17:38 +0000
Subject: [PATCH 41/44] fix: refuse variable length integers that are cut off

---
 src/eventio/tools.py    | 2 ++
 src/eventio/var_int.pyx | 3 +++
 2 files changed, 5 insertions(+)

diff --git a/src/eventio/tools.py b/src/eventio/tools.py
index 63a68ba..d8a6bf0 100644
--- a/src/eventio/tools.py
+++ b/src/eventio/tools.py
@@ -98,5 +98,7 @@ def read_unsigned_varint(f):
     var_int_length = get_length_of_varint(var_int_bytes[0])
     if var_int_length > 1:
         var_int_bytes += f.read(var_int_length - 1)
+        if len(var_int_bytes) < var_int_length:
+            raise ValueError('Data ends within a variable length integer')
 
     return parse_varint(var_int_bytes)
diff --git a/src/eventio/var_int.pyx b/src/eventio/var_int.pyx
index d02d3b7..b96db8d 100644
--- a/src/eventio/var_int.pyx
+++ b/src/eventio/var_int.pyx
@@ -22,6 +22,7 @@ cpdef (uint64_t, uint8_t) unsigned_varint(const uint8_t[:] data, uint64_t offset
     cdef uint8_t length
     cdef uint64_t value
     length = get_length_of_varint(data[offset])
+    check_available(data, offset, length)
     value = parse_varint(data[offset:offset + length])
     return value, length
 
@@ -150,6 +151,7 @@ cpdef unsigned_varint_array(
 
     for i in range(n_elements):
         length = get_length_of_varint(data[pos])
+        check_available(data, pos, length)
         output[i] = parse_varint(data[pos:pos + length])
         pos += length
 
@@ -174,6 +176,7 @@ cpdef varint_array(
 
     for i in range(n_elements):
         length = get_length_of_varint(data[pos])
+        check_available(data, pos, length)
         val = parse_varint(data[pos:pos + length])
         pos += length
 
-- 
2.43.0


From 495a6f16a371a1846c5fbc0400849b5c753ff57b Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Thu, 19 Nov 2026 23:36:35 +0000
Subject: [PATCH 42/44] fix: recognize zstd files that start with a skippable
 frame (pzstd)

---
 src/eventio/file_types.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/eventio/file_types.py b/src/eventio/file_types.py
index f5ec2df..9d584f3 100644
--- a/src/eventio/file_types.py
+++ b/src/eventio/file_types.py
@@ -12,6 +12,7 @@ from .constants import (
 )
 
 ZSTD_MARKER = b'\x28\xb5\x2f\xfd'
+ZSTD_SKIPPABLE_MARKER = b'\x50\x2a\x4d\x18'
 GZIP_MARKER = b'\x1f\x8b'
 
 
@@ -33,8 +34,18 @@ def is_gzip(path):
 
 def is_zstd(path):
     '''Test if a file is compressed using zstd using its magic marker bytes
+
+    The compressed data may follow skippable frames, as e.g. written by pzstd.
     '''
-    return _check_marker(path, ZSTD_MARKER)
+    with open(path, 'rb') as f:
+        marker_bytes = f.read(len(ZSTD_MARKER))
+
+        # 16 markers for skippable frames, they are followed by the size of the frame
+        while marker_bytes[1:] == ZSTD_SKIPPABLE_MARKER[1:] and marker_bytes[0] & 0xf0 == ZSTD_SKIPPABLE_MARKER[0]:
+            f.seek(int.from_bytes(f.read(4), 'little'), 1)
+            marker_bytes = f.read(len(ZSTD_MARKER))
+
+    return marker_bytes == ZSTD_MARKER
 
 
 def is_eventio(path):
-- 
2.43.0


From 4eab8f5ad9e66703500af7c41ea74e90da15fa9f Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 02:11:00 +0000
Subject: [PATCH 43/44] fix: eventio_cut_file destroyed its input if that was
 also named as the output

---
 src/eventio/scripts/cut_eventio_file.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/eventio/scripts/cut_eventio_file.py b/src/eventio/scripts/cut_eventio_file.py
index 9296066..38fc760 100644
--- a/src/eventio/scripts/cut_eventio_file.py
+++ b/src/eventio/scripts/cut_eventio_file.py
@@ -64,18 +64,19 @@ def main():
     print('Writing {:.2f}MB (uncompressed)'.format(bytes_to_read / 1024**2))
     print('Last object is of type {}'.format(last_o.header.type))
 
+    # the output might be the input itself, so read everything before opening it
+    with EventIOFile(args.inputfile) as f:
+        data = f.read(bytes_to_read)
+        if len(data) < bytes_to_read:
+            raise EOFError('File seems to be truncated')
+
     if args.outputfile.endswith('.gz'):
         open_file = gzip.open
     else:
         open_file = open
 
     with open_file(args.outputfile, 'wb') as of:
-
-        with EventIOFile(args.inputfile) as f:
-            data = f.read(bytes_to_read)
-            if len(data) < bytes_to_read:
-                raise EOFError('File seems to be truncated')
-            of.write(data)
+        of.write(data)
 
 
 if __name__ == '__main__':
-- 
2.43.0


From 4f14f700cc917488f7931f180ed1b30e3956aa80 Mon Sep 17 00:00:00 2001
From: verif <v@x>
Date: Fri, 20 Nov 2026 02:44:05 +0000
Subject: [PATCH 44/44] fix: photon chunks were wrong if the object was used
 between two chunks

---
 src/eventio/iact/objects.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/eventio/iact/objects.py b/src/eventio/iact/objects.py
index 2f12206..103d435 100644
--- a/src/eventio/iact/objects.py
+++ b/src/eventio/iact/objects.py
@@ -272,12 +272,18 @@ class Photons(EventIOObject):
         if last_chunksize == 0:
             last_chunksize = chunksize
 
+        # the object might be used otherwise between two chunks
+        position = 12
+
         # read the first full size chunks
         for _ in range(n_chunks - 1):
+            self.seek(position)
             data = self.read_data(chunksize=chunksize)
+            position = self.tell()
             yield self.parse_emitter(data)
 
         # read the remaining, smaller chunk
+        self.seek(position)
         data = self.read_data(chunksize=last_chunksize)
         yield self.parse_emitter(data)
 
-- 
2.43.0

