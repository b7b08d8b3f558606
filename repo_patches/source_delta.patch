From 37261a53976d01249355bb0e5b34951258cc257e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:16 +0000
Subject: [PATCH 1/5] fix: VarObjectHeader.unpack_from reads its base header at
 the given offset

---
 src/vblf/general.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vblf/general.py b/src/vblf/general.py
index 66a999a..b425a0e 100644
--- a/src/vblf/general.py
+++ b/src/vblf/general.py
@@ -175,7 +175,7 @@ class VarObjectHeader(HeaderWithBase):
 
     @classmethod
     def unpack_from(cls, buffer: bytes, offset: int = 0) -> Self:
-        base = ObjectHeaderBase.unpack_from(buffer, 0)
+        base = ObjectHeaderBase.unpack_from(buffer, offset)
         (
             object_flags,
             object_static_size,
-- 
2.43.0


From 544683618de3ff08a8efbeaddc4d220e178ea64c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:16 +0000
Subject: [PATCH 2/5] fix: CanFdErrorFrame64 without ext data neither reads nor
 overwrites offset 0

---
 src/vblf/can.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/vblf/can.py b/src/vblf/can.py
index 2d5affc..cb696f2 100644
--- a/src/vblf/can.py
+++ b/src/vblf/can.py
@@ -685,7 +685,10 @@ class CanFdErrorFrame64(ObjectWithHeader[ObjectHeader]):
 
         # get ext frame data
         btr_ext_arb, btr_ext_data = 0, 0
-        if header.base.object_size >= ext_data_offset + cls._FORMAT_EXT.size:
+        if (
+            ext_data_offset != 0
+            and header.base.object_size >= ext_data_offset + cls._FORMAT_EXT.size
+        ):
             btr_ext_arb, btr_ext_data = cls._FORMAT_EXT.unpack_from(buffer, ext_data_offset)
 
         return cls(
@@ -748,7 +751,10 @@ class CanFdErrorFrame64(ObjectWithHeader[ObjectHeader]):
         buffer[data_offset : data_offset + self.valid_data_bytes] = self.data
 
         # pack ext frame data
-        if self.header.base.object_size >= self.ext_data_offset + self._FORMAT_EXT.size:
+        if (
+            self.ext_data_offset != 0
+            and self.header.base.object_size >= self.ext_data_offset + self._FORMAT_EXT.size
+        ):
             self._FORMAT_EXT.pack_into(
                 buffer, self.ext_data_offset, self.btr_ext_arb, self.btr_ext_data
             )
-- 
2.43.0


From 3700a29b5f26f37d8a6092aadde3cd9db7348b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:16 +0000
Subject: [PATCH 3/5] fix: AppText without text is packed without a terminator

---
 src/vblf/general.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vblf/general.py b/src/vblf/general.py
index b425a0e..ae39ddf 100644
--- a/src/vblf/general.py
+++ b/src/vblf/general.py
@@ -521,7 +521,9 @@ class AppText(ObjectWithHeader[ObjectHeader]):
             self.text_length,
             self.reserved2,
         )
-        encoded_text = self.text.encode("cp1252") + b"\x00"
+        encoded_text = self.text.encode("cp1252")
+        if self.text_length > 0:
+            encoded_text += b"\x00"
         text_offset = ObjectHeader.SIZE + self._FORMAT.size
         buffer[text_offset : text_offset + self.text_length] = encoded_text
         return bytes(buffer)
-- 
2.43.0


From 7318312c24428fa936e594ef92f9d1282de6de76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:45 +0000
Subject: [PATCH 4/5] fix: reader skips a signature whose declared size is
 below the base header

---
 src/vblf/reader.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/vblf/reader.py b/src/vblf/reader.py
index 27ac49f..dd5d8c0 100644
--- a/src/vblf/reader.py
+++ b/src/vblf/reader.py
@@ -112,6 +112,11 @@ class BlfReader(AbstractContextManager["BlfReader"]):
             else:
                 header_base = ObjectHeaderBase.unpack(header_base_data)
 
+            if header_base.object_size < ObjectHeaderBase.SIZE:
+                # not an object, an object is at least as large as its base header
+                stream.seek(OBJ_SIGNATURE_SIZE - ObjectHeaderBase.SIZE, os.SEEK_CUR)
+                continue
+
             # read object data
             obj_data = header_base_data + stream.read(
                 header_base.object_size - ObjectHeaderBase.SIZE
-- 
2.43.0


From 4e60e802b0e7f049fdbc7b8014115e54d4aa14c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:45 +0000
Subject: [PATCH 5/5] fix: writer stores compression method and uncompressed
 size in containers

---
 src/vblf/writer.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/vblf/writer.py b/src/vblf/writer.py
index 7386a51..a92c7e9 100644
--- a/src/vblf/writer.py
+++ b/src/vblf/writer.py
@@ -93,13 +93,17 @@ class BlfWriter(AbstractContextManager["BlfWriter"]):
 
         if self._file_statistics.compression_level > Compression.NONE:
             compressed_data = zlib.compress(buffer, level=self._file_statistics.compression_level)
+            compression_method = 2  # zlib
         else:
             compressed_data = bytes(buffer)
+            compression_method = 0
 
+        # a container has no flags and no time stamp, their place in the header is taken
+        # by the compression method and the uncompressed size
         log_container = LogContainer.new(
             data=compressed_data,
-            time_stamp=round((time.time() - self._measurement_start_time) * 1e9),
-            flags=ObjFlags.TIME_ONE_NANS,
+            time_stamp=len(buffer),
+            flags=ObjFlags(compression_method),
         )
         self._file.write(log_container.pack())
         self._file_statistics.file_size = self._file.tell()
-- 
2.43.0

