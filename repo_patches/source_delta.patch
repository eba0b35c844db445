From 544167e4693f5fd9a7cd480e25690c1ddddec2dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:44 +0000
Subject: [PATCH 01/11] fix: VarObjectHeader.unpack_from honours its offset for
 the base header

---
 src/vblf/general.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vblf/general.py b/src/vblf/general.py
index 66a999a..b425a0e 100644
--- a/src/vblf/general.py
+++ b/src/vblf/general.py
@@ -175,7 +175,7 @@ class VarObjectHeader(HeaderWithBase):
 
     @classmethod
     def unpack_from(cls, buffer: bytes, offset: int = 0) -> Self:
-        base = ObjectHeaderBase.unpack_from(buffer, 0)
+        base = ObjectHeaderBase.unpack_from(buffer, offset)
         (
             object_flags,
             object_static_size,
-- 
2.43.0


From aee0fc8cf04c108ec33e4c23f48ca216b87c80a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:44 +0000
Subject: [PATCH 02/11] fix: CanFdErrorFrame64 without ext frame data no longer
 reads/overwrites its header

With ext_data_offset == 0 the ext frame data was unpacked from and packed to
offset 0, i.e. the object signature.
---
 src/vblf/can.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/vblf/can.py b/src/vblf/can.py
index 2d5affc..cb696f2 100644
--- a/src/vblf/can.py
+++ b/src/vblf/can.py
@@ -685,7 +685,10 @@ class CanFdErrorFrame64(ObjectWithHeader[ObjectHeader]):
 
         # get ext frame data
         btr_ext_arb, btr_ext_data = 0, 0
-        if header.base.object_size >= ext_data_offset + cls._FORMAT_EXT.size:
+        if (
+            ext_data_offset != 0
+            and header.base.object_size >= ext_data_offset + cls._FORMAT_EXT.size
+        ):
             btr_ext_arb, btr_ext_data = cls._FORMAT_EXT.unpack_from(buffer, ext_data_offset)
 
         return cls(
@@ -748,7 +751,10 @@ class CanFdErrorFrame64(ObjectWithHeader[ObjectHeader]):
         buffer[data_offset : data_offset + self.valid_data_bytes] = self.data
 
         # pack ext frame data
-        if self.header.base.object_size >= self.ext_data_offset + self._FORMAT_EXT.size:
+        if (
+            self.ext_data_offset != 0
+            and self.header.base.object_size >= self.ext_data_offset + self._FORMAT_EXT.size
+        ):
             self._FORMAT_EXT.pack_into(
                 buffer, self.ext_data_offset, self.btr_ext_arb, self.btr_ext_data
             )
-- 
2.43.0


From e796bef22a8f1aa1aff9fb81e6b996399de0f0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:44 +0000
Subject: [PATCH 03/11] fix: writer keeps less than buffer_size bytes
 unflushed, reject non-positive buffer_size

Only one container was flushed per write(), so objects larger than the buffer
accumulated in memory until close(). A buffer_size <= 0 made close() loop forever.
---
 src/vblf/writer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/vblf/writer.py b/src/vblf/writer.py
index 7386a51..6f75502 100644
--- a/src/vblf/writer.py
+++ b/src/vblf/writer.py
@@ -21,6 +21,7 @@ class BlfWriter(AbstractContextManager["BlfWriter"]):
     :param compression_level: Compression level (0-9), defaults to no compression
     :param buffer_size: Size of internal buffer in bytes before flushing, defaults to 128 KiB
     :raises TypeError: If file parameter is of unsupported type
+    :raises ValueError: If buffer_size is not positive
     """
 
     def __init__(
@@ -33,6 +34,9 @@ class BlfWriter(AbstractContextManager["BlfWriter"]):
 
         See class documentation for details.
         """
+        if buffer_size < 1:
+            err_msg = f"Buffer size must be positive, got {buffer_size}"
+            raise ValueError(err_msg)
         self._buffer_size = buffer_size
         self._buffer = bytearray()
         self._measurement_start_time = time.time()
@@ -73,7 +77,7 @@ class BlfWriter(AbstractContextManager["BlfWriter"]):
         self._file_statistics.uncompressed_file_size += len(obj_data)
         self._time_of_last_object = time.time()
 
-        if len(self._buffer) >= self._buffer_size:
+        while len(self._buffer) >= self._buffer_size:
             self._flush_container()
 
     def _flush_container(self) -> None:
-- 
2.43.0


From 58f81edc9eb61d0e09bb07b957e13f2e77f2647d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:44 +0000
Subject: [PATCH 04/11] fix: writer declares compression method and
 uncompressed size of each container

The container header carried TIME_ONE_NANS (== zlib) even for uncompressed data
and a time stamp in place of the uncompressed size (compare LOG_CONTAINER.lobj).
A clock that steps backwards made the time stamp negative, so that flushing
raised struct.error and dropped the buffered objects.
---
 src/vblf/constants.py |  4 ++++
 src/vblf/writer.py    | 10 +++++++---
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/vblf/constants.py b/src/vblf/constants.py
index bdb68ba..d5df931 100644
--- a/src/vblf/constants.py
+++ b/src/vblf/constants.py
@@ -5,6 +5,10 @@ FILE_SIGNATURE: Final = b"LOGG"
 OBJ_SIGNATURE: Final = b"LOBJ"
 OBJ_SIGNATURE_SIZE: Final = len(OBJ_SIGNATURE)
 
+# compression methods of a LogContainer
+CONTAINER_UNCOMPRESSED: Final = 0
+CONTAINER_ZLIB: Final = 2
+
 
 class ObjType(IntEnum):
     UNKNOWN = 0
diff --git a/src/vblf/writer.py b/src/vblf/writer.py
index 6f75502..d1e3b9b 100644
--- a/src/vblf/writer.py
+++ b/src/vblf/writer.py
@@ -5,7 +5,7 @@ import zlib
 from contextlib import AbstractContextManager
 from typing import Any, BinaryIO, Final
 
-from vblf.constants import Compression, ObjFlags
+from vblf.constants import CONTAINER_UNCOMPRESSED, CONTAINER_ZLIB, Compression, ObjFlags
 from vblf.general import FileStatistics, HeaderWithBase, LogContainer, ObjectWithHeader, SystemTime
 
 BYTE_ALIGNMENT: Final = 8
@@ -97,13 +97,17 @@ class BlfWriter(AbstractContextManager["BlfWriter"]):
 
         if self._file_statistics.compression_level > Compression.NONE:
             compressed_data = zlib.compress(buffer, level=self._file_statistics.compression_level)
+            compression_method = CONTAINER_ZLIB
         else:
             compressed_data = bytes(buffer)
+            compression_method = CONTAINER_UNCOMPRESSED
 
+        # a LogContainer stores the compression method in place of the object flags
+        # and the uncompressed size in place of the time stamp
         log_container = LogContainer.new(
             data=compressed_data,
-            time_stamp=round((time.time() - self._measurement_start_time) * 1e9),
-            flags=ObjFlags.TIME_ONE_NANS,
+            time_stamp=len(buffer),
+            flags=ObjFlags(compression_method),
         )
         self._file.write(log_container.pack())
         self._file_statistics.file_size = self._file.tell()
-- 
2.43.0


From d57304db121644f56202c257da55466076c6774a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:44 +0000
Subject: [PATCH 05/11] fix: reader accepts uncompressed containers in a file
 with compression level > 0

---
 src/vblf/reader.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/vblf/reader.py b/src/vblf/reader.py
index 27ac49f..2f2aaaf 100644
--- a/src/vblf/reader.py
+++ b/src/vblf/reader.py
@@ -21,7 +21,13 @@ from vblf.can import (
     CanMessage2,
     CanOverloadFrame,
 )
-from vblf.constants import FILE_SIGNATURE, OBJ_SIGNATURE, OBJ_SIGNATURE_SIZE, ObjType
+from vblf.constants import (
+    CONTAINER_UNCOMPRESSED,
+    FILE_SIGNATURE,
+    OBJ_SIGNATURE,
+    OBJ_SIGNATURE_SIZE,
+    ObjType,
+)
 from vblf.ethernet import EthernetFrameEx, EthernetStatistic
 from vblf.flexray import FlexrayVFrReceiveMsgEx
 from vblf.general import (
@@ -131,6 +137,7 @@ class BlfReader(AbstractContextManager["BlfReader"]):
                 uncompressed = (
                     zlib.decompress(container.data)
                     if self.file_statistics.compression_level > 0
+                    and container.header.object_flags != CONTAINER_UNCOMPRESSED
                     else container.data
                 )
 
-- 
2.43.0


From dff6b7e51746683c6d410b632e2221a42f9fb24e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:44 +0000
Subject: [PATCH 06/11] fix: reader skips a signature whose object size cannot
 hold the base header

A negative read count swallowed the rest of the container (or raised ValueError
for files), so that all following objects were lost.
---
 src/vblf/reader.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vblf/reader.py b/src/vblf/reader.py
index 2f2aaaf..af1d803 100644
--- a/src/vblf/reader.py
+++ b/src/vblf/reader.py
@@ -118,6 +118,11 @@ class BlfReader(AbstractContextManager["BlfReader"]):
             else:
                 header_base = ObjectHeaderBase.unpack(header_base_data)
 
+            if header_base.object_size < ObjectHeaderBase.SIZE:
+                # not a valid object, continue searching behind the signature
+                stream.seek(OBJ_SIGNATURE_SIZE - ObjectHeaderBase.SIZE, os.SEEK_CUR)
+                continue
+
             # read object data
             obj_data = header_base_data + stream.read(
                 header_base.object_size - ObjectHeaderBase.SIZE
-- 
2.43.0


From e4bf35bc3f8f1b191d14e9862dc72f9afe7721ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:44 +0000
Subject: [PATCH 07/11] fix: writer keeps buffered objects if writing a
 container fails

The data was removed from the buffer before it was written, so that a transient
write error silently lost objects that had been accepted before.
---
 src/vblf/writer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vblf/writer.py b/src/vblf/writer.py
index d1e3b9b..28326c9 100644
--- a/src/vblf/writer.py
+++ b/src/vblf/writer.py
@@ -93,7 +93,7 @@ class BlfWriter(AbstractContextManager["BlfWriter"]):
         if rest := self._file.tell() % BYTE_ALIGNMENT:
             self._file.write(b"\x00" * (BYTE_ALIGNMENT - rest))
 
-        buffer, self._buffer = self._buffer[: self._buffer_size], self._buffer[self._buffer_size :]
+        buffer = self._buffer[: self._buffer_size]
 
         if self._file_statistics.compression_level > Compression.NONE:
             compressed_data = zlib.compress(buffer, level=self._file_statistics.compression_level)
@@ -110,6 +110,8 @@ class BlfWriter(AbstractContextManager["BlfWriter"]):
             flags=ObjFlags(compression_method),
         )
         self._file.write(log_container.pack())
+        # discard the data only after it has been written successfully
+        del self._buffer[: self._buffer_size]
         self._file_statistics.file_size = self._file.tell()
 
     def _update_file_statistics(self) -> None:
-- 
2.43.0


From 1e57bd15666ab59dac80f63c407edfa3c5d3e99a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:44 +0000
Subject: [PATCH 08/11] fix: BlfWriter.write raises after close instead of
 silently dropping the object

---
 src/vblf/writer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/vblf/writer.py b/src/vblf/writer.py
index 28326c9..9f3680d 100644
--- a/src/vblf/writer.py
+++ b/src/vblf/writer.py
@@ -63,8 +63,11 @@ class BlfWriter(AbstractContextManager["BlfWriter"]):
         or when the file is closed.
 
         :param obj: Object to write
-        :raises ValueError: If object size doesn't match its header
+        :raises ValueError: If object size doesn't match its header or the writer is closed
         """
+        if self._file.closed:
+            err_msg = "Cannot write to a closed BLF file"
+            raise ValueError(err_msg)
         # byte alignment
         if rest := len(self._buffer) % BYTE_ALIGNMENT:
             self._buffer.extend(b"\x00" * (BYTE_ALIGNMENT - rest))
-- 
2.43.0


From da42427ca8d7b926abd7c625a51bb20252429619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:44 +0000
Subject: [PATCH 09/11] fix: AppText keeps the last character of a text without
 terminating null

A text without terminator lost its last character and an empty text
(text_length == 0) could not be packed again.
---
 src/vblf/general.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/vblf/general.py b/src/vblf/general.py
index b425a0e..87f3831 100644
--- a/src/vblf/general.py
+++ b/src/vblf/general.py
@@ -500,7 +500,9 @@ class AppText(ObjectWithHeader[ObjectHeader]):
             reserved2,
         ) = cls._FORMAT.unpack_from(buffer, ObjectHeader.SIZE)
         text_offset = ObjectHeader.SIZE + cls._FORMAT.size
-        text = buffer[text_offset : text_offset + text_length - 1].decode("cp1252")
+        text = (
+            buffer[text_offset : text_offset + text_length].removesuffix(b"\x00").decode("cp1252")
+        )
         return cls(
             header,
             AppTextSource(source),
@@ -521,7 +523,9 @@ class AppText(ObjectWithHeader[ObjectHeader]):
             self.text_length,
             self.reserved2,
         )
-        encoded_text = self.text.encode("cp1252") + b"\x00"
+        encoded_text = self.text.encode("cp1252")
+        if len(encoded_text) < self.text_length:
+            encoded_text += b"\x00"
         text_offset = ObjectHeader.SIZE + self._FORMAT.size
         buffer[text_offset : text_offset + self.text_length] = encoded_text
         return bytes(buffer)
-- 
2.43.0


From 2dba236d3c7406f20e84a30ce2ea474ec7f30c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:10:14 +0000
Subject: [PATCH 10/11] fix: writer keeps its position if rewriting the file
 header fails

---
 src/vblf/writer.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/vblf/writer.py b/src/vblf/writer.py
index 9f3680d..2faed3a 100644
--- a/src/vblf/writer.py
+++ b/src/vblf/writer.py
@@ -125,8 +125,13 @@ class BlfWriter(AbstractContextManager["BlfWriter"]):
         self._file_statistics.last_object_time = SystemTime.from_datetime(
             datetime.datetime.fromtimestamp(self._time_of_last_object, datetime.timezone.utc)
         )
+        position = self._file.tell()
         self._file.seek(0)
-        self._file.write(self._file_statistics.pack())
+        try:
+            self._file.write(self._file_statistics.pack())
+        finally:
+            # keep appending behind the existing data if the session goes on
+            self._file.seek(position)
 
     def close(self) -> None:
         """Close the BLF file.
-- 
2.43.0


From 43a0d961406773377f455aed879fd20076d33af9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:30 +0000
Subject: [PATCH 11/11] fix: writer replaces what a failed attempt to store a
 container left behind

---
 src/vblf/writer.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/vblf/writer.py b/src/vblf/writer.py
index 2faed3a..d3cfc06 100644
--- a/src/vblf/writer.py
+++ b/src/vblf/writer.py
@@ -92,6 +92,10 @@ class BlfWriter(AbstractContextManager["BlfWriter"]):
         if not self._buffer:
             return
 
+        # continue behind the last container, a failed attempt may have moved the position
+        if self._file.tell() != self._file_statistics.file_size:
+            self._file.seek(self._file_statistics.file_size)
+
         # byte alignment
         if rest := self._file.tell() % BYTE_ALIGNMENT:
             self._file.write(b"\x00" * (BYTE_ALIGNMENT - rest))
@@ -113,9 +117,9 @@ class BlfWriter(AbstractContextManager["BlfWriter"]):
             flags=ObjFlags(compression_method),
         )
         self._file.write(log_container.pack())
+        self._file_statistics.file_size = self._file.tell()
         # discard the data only after it has been written successfully
         del self._buffer[: self._buffer_size]
-        self._file_statistics.file_size = self._file.tell()
 
     def _update_file_statistics(self) -> None:
         """Update file statistics and write them to the beginning of the file.
-- 
2.43.0

