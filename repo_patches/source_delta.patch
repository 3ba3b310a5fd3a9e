From 13193d121b7f5e2300c77075db50cb3bc4c97a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:01 +0000
Subject: [PATCH 01/39] fix: pad logical record segments shorter than the
 12-byte minimum instead of refusing to write them

---
 .../core/logical_record/logical_record_bytes.py   | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/dliswriter/logical_record/core/logical_record/logical_record_bytes.py b/src/dliswriter/logical_record/core/logical_record/logical_record_bytes.py
index b365f5c..3681f09 100644
--- a/src/dliswriter/logical_record/core/logical_record/logical_record_bytes.py
+++ b/src/dliswriter/logical_record/core/logical_record/logical_record_bytes.py
@@ -69,26 +69,23 @@ class LogicalRecordBytes:
                 raise ValueError("Logical record too short for the requested bytes")
             is_last = end_pos == self._size
 
-        if n_bytes < 12:
-            raise ValueError(f"Logical Record segment body cannot be shorter than 12 bytes (got {n_bytes})")
-
         segment_attributes = SegmentAttributes(
             is_eflr=self._is_eflr,
             is_first=(start_pos == 0),
             is_last=is_last
         )
 
-        size = n_bytes + 4  # adding header size - 4 bytes
-        if size % 2:
-            # total segment size must be even; if the number of bytes is odd, add a padding byte
-            size += 1
-            segment_attributes.has_padding = True
+        # segment body must be at least 12 bytes long and have even size; otherwise, it must be filled with padding bytes
+        n_padding = max(12 - n_bytes, n_bytes % 2)
+        size = n_bytes + n_padding + 4  # adding header size - 4 bytes
+        segment_attributes.has_padding = n_padding > 0
 
         header_bytes = RepC.UNORM.convert(size) + segment_attributes.to_struct() + self._lr_type_struct
 
         new_bts = header_bytes + self._bts[start_pos:end_pos]
         if segment_attributes.has_padding:
-            new_bts += self.padding  # add the promised padding byte
+            # add the promised padding; the last (here: each) padding byte specifies the number of padding bytes
+            new_bts += n_padding * RepC.USHORT.convert(n_padding)
 
         return new_bts, size
 
-- 
2.43.0


From 9dac465d77e8fb4b5151f1025722176366101ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:43 +0000
Subject: [PATCH 02/39] fix: allow all maximum record lengths accepted by the
 writer (20-30 bytes) to be written with

---
 .../core/logical_record/logical_record_bytes.py        | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/dliswriter/logical_record/core/logical_record/logical_record_bytes.py b/src/dliswriter/logical_record/core/logical_record/logical_record_bytes.py
index 3681f09..f25e97c 100644
--- a/src/dliswriter/logical_record/core/logical_record/logical_record_bytes.py
+++ b/src/dliswriter/logical_record/core/logical_record/logical_record_bytes.py
@@ -107,17 +107,17 @@ class LogicalRecordBytes:
         start_pos = 0  # start from the beginning of the logical record bytes
         remaining_size = self._size  # all bytes will be processed; self._size is assumed to always be >=12
 
-        if max_n_bytes < 24:
-            # minimal length of a logical record segment is 16 (of which 4 bytes are reserved for header),
-            # so for the splitting to work correctly max_n_bytes must be >= 24, which is twice the min segment body size
-            raise ValueError(f"Max size of a logical record segment body cannot be less than 24 (got {max_n_bytes})")
+        if max_n_bytes < 12:
+            # minimal length of a logical record segment is 16 (of which 4 bytes are reserved for header)
+            raise ValueError(f"Max size of a logical record segment body cannot be less than 12 (got {max_n_bytes})")
 
         while remaining_size > 0:
             n_bytes = min(remaining_size, max_n_bytes)  # size of the current (to be created) segment body
             future_remaining_size = remaining_size - n_bytes  # how many bytes will be left for a next segment
-            if 0 < future_remaining_size < 12:
+            if 0 < future_remaining_size < 12 and n_bytes + future_remaining_size >= 24:
                 # the next segment would be shorter than 12 bytes, and this is not allowed
                 # so the current segment must be shortened by a few bytes which will be passed over to the next segment;
+                # (if that would make the current segment too short, padding is added to the next segment instead)
                 n_bytes -= (12 - future_remaining_size)
                 future_remaining_size = 12
 
-- 
2.43.0


From 08c0fdb30b2ba3d40dd33ce661dd7006459284b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:43 +0000
Subject: [PATCH 03/39] fix: do not pad the payload of short no-format data
 records

---
 .../logical_record/iflr_types/no_format_frame_data.py  | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/src/dliswriter/logical_record/iflr_types/no_format_frame_data.py b/src/dliswriter/logical_record/iflr_types/no_format_frame_data.py
index 80db7a6..b9de52f 100644
--- a/src/dliswriter/logical_record/iflr_types/no_format_frame_data.py
+++ b/src/dliswriter/logical_record/iflr_types/no_format_frame_data.py
@@ -1,7 +1,6 @@
 from typing import Union
 
 from dliswriter.logical_record.core.iflr import IFLR
-from dliswriter.logical_record.core.logical_record.logical_record_bytes import LogicalRecordBytes
 from dliswriter.utils.internal.internal_enums import IFLRType
 from dliswriter.logical_record.eflr_types.no_format import NoFormatItem
 
@@ -27,14 +26,7 @@ class NoFormatFrameData(IFLR):
         else:
             data_encoded = self.data.encode('ascii')
 
-        bts = self.no_format_object.obname + data_encoded
-
-        # add padding if the length of the bts is less than minimum (12)
-        padding_len = 12 - len(bts)
-        if padding_len:
-            bts += padding_len * LogicalRecordBytes.padding
-
-        return bts
+        return self.no_format_object.obname + data_encoded
 
     @property
     def n_items(self) -> int:
-- 
2.43.0


From 7a3fe3790f7676fc3661aad759dac765f373c88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:44 +0000
Subject: [PATCH 04/39] fix: encode identifiers (names, labels, units, IDENT
 values) with a single-byte length and reject those over 255 characters

---
 .../core/attribute/attribute.py               |  6 +++---
 .../logical_record/core/eflr/eflr_set.py      |  6 +++---
 .../utils/internal/struct_writer.py           | 21 ++++++++++++++++---
 3 files changed, 24 insertions(+), 9 deletions(-)

diff --git a/src/dliswriter/logical_record/core/attribute/attribute.py b/src/dliswriter/logical_record/core/attribute/attribute.py
index 185e7b8..933f1c5 100644
--- a/src/dliswriter/logical_record/core/attribute/attribute.py
+++ b/src/dliswriter/logical_record/core/attribute/attribute.py
@@ -1,7 +1,7 @@
 from typing import Union, Any, TYPE_CHECKING, Callable, Optional
 import logging
 
-from dliswriter.utils.internal.struct_writer import write_struct, write_struct_ascii, write_struct_uvari
+from dliswriter.utils.internal.struct_writer import write_struct, write_struct_ident, write_struct_uvari
 from dliswriter.utils.internal.internal_enums import RepresentationCode
 from dliswriter.utils.enums import Unit
 from dliswriter.utils.internal.converters import ReprCodeConverter
@@ -218,7 +218,7 @@ class Attribute:
         """Transform the attribute to bytes and characteristics needed for an EFLRSet template."""
 
         if self._label:
-            bts += write_struct_ascii(self._label)
+            bts += write_struct_ident(self._label)
             characteristics += '1'
         else:
             characteristics += '0'
@@ -258,7 +258,7 @@ class Attribute:
 
         # units
         if self._units:
-            bts += write_struct_ascii(self._units)
+            bts += write_struct_ident(self._units)
             characteristics += '1'
         else:
             characteristics += '0'
diff --git a/src/dliswriter/logical_record/core/eflr/eflr_set.py b/src/dliswriter/logical_record/core/eflr/eflr_set.py
index 4cb5d69..0fc8543 100644
--- a/src/dliswriter/logical_record/core/eflr/eflr_set.py
+++ b/src/dliswriter/logical_record/core/eflr/eflr_set.py
@@ -1,7 +1,7 @@
 import logging
 from typing import Optional
 
-from dliswriter.utils.internal.struct_writer import write_struct_ascii
+from dliswriter.utils.internal.struct_writer import write_struct_ident
 from dliswriter.utils.internal.internal_enums import EFLRType
 from dliswriter.logical_record.core.logical_record import LogicalRecord
 from dliswriter.logical_record.core.eflr.eflr_item import EFLRItem
@@ -29,7 +29,7 @@ class EFLRSet(LogicalRecord):
         super().__init__()
 
         self.set_name = set_name
-        self._set_type_struct = write_struct_ascii(self.set_type)  # used in the header
+        self._set_type_struct = write_struct_ident(self.set_type)  # used in the header
         self._eflr_item_list: list[EFLRItem] = []  # instances of EFLRItem registered with this EFLRSet instance
 
     def __str__(self) -> str:
@@ -41,7 +41,7 @@ class EFLRSet(LogicalRecord):
         """Create bytes describing the set of this EFLR, using set type (class attr) and name (specified at init)."""
 
         if self.set_name:
-            _bytes = b'\xf8' + self._set_type_struct + write_struct_ascii(self.set_name)
+            _bytes = b'\xf8' + self._set_type_struct + write_struct_ident(self.set_name)
         else:
             _bytes = b'\xf0' + self._set_type_struct
 
diff --git a/src/dliswriter/utils/internal/struct_writer.py b/src/dliswriter/utils/internal/struct_writer.py
index 760f85e..139bdcf 100644
--- a/src/dliswriter/utils/internal/struct_writer.py
+++ b/src/dliswriter/utils/internal/struct_writer.py
@@ -77,6 +77,21 @@ def write_struct_ascii(value: Any) -> bytes:
     return write_struct_uvari(len(value_str)) + value_str.encode('ascii')
 
 
+def write_struct_ident(value: Any) -> bytes:
+    """Convert value to str, encode as ASCII, and represent as bytes.
+
+    Unlike in ASCII, the length of an IDENT (also: set type or name, attribute label, units, object name) is always
+    given by a single byte, which limits it to 255 characters.
+    """
+
+    value_str = str(value)
+    if len(value_str) > 255:
+        raise ValueError(f"Identifiers, names, labels, and units cannot be longer than 255 characters; "
+                         f"got {len(value_str)} characters: {value_str}")
+
+    return RepresentationCode.USHORT.convert(len(value_str)) + value_str.encode('ascii')
+
+
 def write_struct_uvari(value: int) -> bytes:
     """Convert an integer to bytes. The format (USHORT/UNORM/ULONG) is chosen depending on the provided value."""
 
@@ -99,7 +114,7 @@ def write_struct_obname(value: "EFLRItem") -> bytes:
     try:
         origin_reference = write_struct_uvari(value.origin_reference)
         copy_number = RepresentationCode.USHORT.convert(value.copy_number)
-        name = write_struct_ascii(value.name)
+        name = write_struct_ident(value.name)
 
         obname = origin_reference + copy_number + name
 
@@ -112,7 +127,7 @@ def write_struct_obname(value: "EFLRItem") -> bytes:
 def write_struct_objref(value: "EFLRItem") -> bytes:
     """Create a reference to an EFLRObject, based on the object's name and set type it belongs to."""
 
-    return write_struct_ascii(value.parent.set_type) + value.obname
+    return write_struct_ident(value.parent.set_type) + value.obname
 
 
 def write_struct_status(value: int) -> bytes:
@@ -128,7 +143,7 @@ def write_struct_status(value: int) -> bytes:
 _struct_dict = {
     RepresentationCode.ASCII: write_struct_ascii,
     RepresentationCode.UVARI: write_struct_uvari,
-    RepresentationCode.IDENT: write_struct_ascii,
+    RepresentationCode.IDENT: write_struct_ident,
     RepresentationCode.DTIME: write_struct_dtime,
     RepresentationCode.OBNAME: write_struct_obname,
     RepresentationCode.OBJREF: write_struct_objref,
-- 
2.43.0


From f9aeb42fce236628e8969de9fffa183abd7e18a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:39 +0000
Subject: [PATCH 05/39] fix: count file headers in the number of records, so
 that several small logical files can be written

---
 src/dliswriter/file/file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dliswriter/file/file.py b/src/dliswriter/file/file.py
index 51396b8..b8c6731 100644
--- a/src/dliswriter/file/file.py
+++ b/src/dliswriter/file/file.py
@@ -165,7 +165,7 @@ class DLISFile:
                 ]
             )
 
-        n = 0
+        n = len(self.logical_files)  # file headers are not included in the sets
         for eflr_set_type in self._eflr_sets:
             n += len(list(self._eflr_sets.get_all_items_for_set_type(eflr_set_type)))
 
-- 
2.43.0


From 8afe1b1126849a43e29320991567f20abc7046df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:11 +0000
Subject: [PATCH 06/39] fix: reject non-string values (lists included) of
 identifier attributes instead of writing a malformed record

---
 src/dliswriter/logical_record/core/attribute/subtypes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dliswriter/logical_record/core/attribute/subtypes.py b/src/dliswriter/logical_record/core/attribute/subtypes.py
index cd2bd9a..a1ab9d9 100644
--- a/src/dliswriter/logical_record/core/attribute/subtypes.py
+++ b/src/dliswriter/logical_record/core/attribute/subtypes.py
@@ -360,6 +360,9 @@ class IdentAttribute(Attribute):
 
         super().__init__(*args, **kwargs)
 
+        if not self._converter:
+            self._converter = TextAttribute._check_string
+
 
 class PropertiesAttribute(IdentAttribute):
     """Model an attribute representing properties of DLIS objects - Channel, Computation, and Process."""
-- 
2.43.0


From 64f63a1dfd5fde22515e5107f40b87d0afd4c957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:11 +0000
Subject: [PATCH 07/39] fix: do not memoise encoded values by equality (0.0 and
 -0.0, or ambiguous local times, were given each other's bytes)

---
 src/dliswriter/utils/internal/struct_writer.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/dliswriter/utils/internal/struct_writer.py b/src/dliswriter/utils/internal/struct_writer.py
index 139bdcf..f838a61 100644
--- a/src/dliswriter/utils/internal/struct_writer.py
+++ b/src/dliswriter/utils/internal/struct_writer.py
@@ -1,6 +1,5 @@
 from datetime import datetime, timezone
 from typing import Any, TYPE_CHECKING
-from functools import lru_cache
 
 from dliswriter.utils.internal.internal_enums import RepresentationCode
 
@@ -151,7 +150,6 @@ _struct_dict = {
 }
 
 
-@lru_cache(maxsize=65536)
 def write_struct(representation_code: RepresentationCode, value: Any) -> bytes:
     """Convert a value to bytes according to the RP66 V1 spec.
 
-- 
2.43.0


From 87e597de6000dc7a73d6e1ac87aa565e1523f32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:11 +0000
Subject: [PATCH 08/39] fix: refresh the stored identity bytes of an object
 when its name or origin reference changes

---
 src/dliswriter/logical_record/core/eflr/eflr_item.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dliswriter/logical_record/core/eflr/eflr_item.py b/src/dliswriter/logical_record/core/eflr/eflr_item.py
index aa4d425..86fc138 100644
--- a/src/dliswriter/logical_record/core/eflr/eflr_item.py
+++ b/src/dliswriter/logical_record/core/eflr/eflr_item.py
@@ -156,6 +156,9 @@ class EFLRItem:
         if isinstance(getattr(self, key, None), Attribute):
             raise RuntimeError(f"Cannot set DLIS Attribute '{key}'. Did you mean setting '{key}.value' instead?")
 
+        if key in ('name', '_origin_reference', '_copy_number'):
+            self.__dict__.pop('obname', None)  # the identity changes, so the stored bytes are no longer valid
+
         return super().__setattr__(key, value)
 
     @cached_property
-- 
2.43.0


From 0d8d67924d9761acc3be2f25a76db7a444b60b1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:11 +0000
Subject: [PATCH 09/39] fix: write multi-sample channels given in big-endian
 byte order correctly

---
 src/dliswriter/utils/source_data_wrappers.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dliswriter/utils/source_data_wrappers.py b/src/dliswriter/utils/source_data_wrappers.py
index f761131..9416fd6 100644
--- a/src/dliswriter/utils/source_data_wrappers.py
+++ b/src/dliswriter/utils/source_data_wrappers.py
@@ -108,6 +108,7 @@ class SourceDataWrapper(ABC):
             # determine the numpy number dtype
             number_type = known_dtypes.get(dtype_name, dset_row0.dtype)
             ReprCodeConverter.validate_numpy_dtype(number_type)
+            number_type = np.dtype(number_type).newbyteorder('=')  # frame data expect the native byte order
 
             # determine the dtype of the data set (2- or 3-tuple)
             dt = (dtype_name, number_type)
-- 
2.43.0


From 57e7871da7e0a84096334d14f793ec988e437ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:11 +0000
Subject: [PATCH 10/39] fix: accept two-dimensional data of width one

---
 src/dliswriter/utils/source_data_wrappers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dliswriter/utils/source_data_wrappers.py b/src/dliswriter/utils/source_data_wrappers.py
index 9416fd6..494a59f 100644
--- a/src/dliswriter/utils/source_data_wrappers.py
+++ b/src/dliswriter/utils/source_data_wrappers.py
@@ -96,7 +96,7 @@ class SourceDataWrapper(ABC):
         known_dtypes = known_dtypes or {}
 
         for dtype_name, dataset_name in mapping.items():
-            dt: Union[tuple[str, Any], tuple[str, Any, int]]
+            dt: Union[tuple[str, Any], tuple[str, Any, tuple[int]]]
 
             try:
                 dset = data_object[dataset_name]
@@ -115,7 +115,7 @@ class SourceDataWrapper(ABC):
             if dset_row0.ndim > 1:
                 if dset_row0.ndim > 2:
                     raise RuntimeError("Data sets with more than 2 dimensions are not supported")
-                dt = (*dt, dset_row0.shape[-1])  # 3-tuple if the data set has multiple samples per row - add the width
+                dt = (*dt, (dset_row0.shape[-1],))  # 3-tuple if the data set has multiple samples per row - add the width
             dtypes.append(dt)
 
         return np.dtype(dtypes)
-- 
2.43.0


From 0b512716165ea9b3483149713b1579e8100dca1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:11 +0000
Subject: [PATCH 11/39] fix: honour from_idx, to_idx and the channel-to-field
 mapping when writing from a structured array

---
 src/dliswriter/utils/source_data_wrappers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dliswriter/utils/source_data_wrappers.py b/src/dliswriter/utils/source_data_wrappers.py
index 494a59f..34e11b9 100644
--- a/src/dliswriter/utils/source_data_wrappers.py
+++ b/src/dliswriter/utils/source_data_wrappers.py
@@ -330,7 +330,8 @@ class NumpyDataWrapper(SourceDataWrapper):
             A structured numpy array, containing the required chunks of all the relevant data sets from the source data.
         """
 
-        if self._dtype == self._data_source.dtype:
+        if self._dtype == self._data_source.dtype and not self._from_idx and stop is not None \
+                and all(k == v for k, v in self._mapping.items()):
             return self._data_source[start:stop]
 
         return super().load_chunk(start, stop)
-- 
2.43.0


From 9c20b56bc743e66b83280ed9e91d0129a7b51b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:11 +0000
Subject: [PATCH 12/39] fix: reject channels of one frame with different
 numbers of rows instead of repeating or truncating their data

---
 src/dliswriter/utils/source_data_wrappers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dliswriter/utils/source_data_wrappers.py b/src/dliswriter/utils/source_data_wrappers.py
index 34e11b9..6122109 100644
--- a/src/dliswriter/utils/source_data_wrappers.py
+++ b/src/dliswriter/utils/source_data_wrappers.py
@@ -185,6 +185,10 @@ class SourceDataWrapper(ABC):
             Structured numpy.ndarray objects with the consecutive chunks of the source data.
         """
 
+        n_rows_per_dataset = {key: self._data_source[loc].shape[0] for key, loc in self._mapping.items()}
+        if len(set(n_rows_per_dataset.values())) > 1:
+            raise ValueError(f"All data sets must have the same number of rows; got {n_rows_per_dataset}")
+
         if chunk_rows is None:
             chunk_rows = self._n_rows
             n_full_chunks = 1
-- 
2.43.0


From 20c0872b890a012d23cb87083b2422867deace32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:11 +0000
Subject: [PATCH 13/39] fix: reject row windows extending beyond the data
 instead of repeating a row

---
 src/dliswriter/utils/source_data_wrappers.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/dliswriter/utils/source_data_wrappers.py b/src/dliswriter/utils/source_data_wrappers.py
index 6122109..926bc9a 100644
--- a/src/dliswriter/utils/source_data_wrappers.py
+++ b/src/dliswriter/utils/source_data_wrappers.py
@@ -50,6 +50,10 @@ class SourceDataWrapper(ABC):
         self._to_idx = to_idx if to_idx is not None else total_n_rows
         self._n_rows = self._to_idx - self._from_idx  # number of rows to be loaded
 
+        if self._from_idx < 0:
+            raise ValueError(f"Starting index cannot be negative; got {self._from_idx}")
+        if self._to_idx > total_n_rows:
+            raise ValueError(f"End index {self._to_idx} too large for total n. rows {total_n_rows}")
         if self._from_idx >= total_n_rows:
             raise ValueError(f"Starting index {self._from_idx} too large for total n. rows {total_n_rows}")
         if self._n_rows < 1:
-- 
2.43.0


From 1546e933d647ff22a5d08a6d21dc5e5359ba0eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:11 +0000
Subject: [PATCH 14/39] fix: reject negative input chunk sizes instead of
 writing no frame data

---
 src/dliswriter/file/multi_frame_data.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dliswriter/file/multi_frame_data.py b/src/dliswriter/file/multi_frame_data.py
index 3e2d4bb..62a9556 100644
--- a/src/dliswriter/file/multi_frame_data.py
+++ b/src/dliswriter/file/multi_frame_data.py
@@ -27,6 +27,8 @@ class MultiFrameData:
         self._check_type(frame, FrameItem)
         self._check_type(data, SourceDataWrapper)
         self._check_type(chunk_size, int, type(None))
+        if chunk_size is not None and chunk_size < 1:
+            raise ValueError(f"Size of the input data chunks must be positive; got {chunk_size}")
 
         frame_channel_names = tuple(c.name for c in frame.channels.value)
         data_channel_names = data.dtype.names
-- 
2.43.0


From c00d4fc645cce57319f292e0702ece613e4a9073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:18:11 +0000
Subject: [PATCH 15/39] fix: mark attributes with an empty list of values as
 absent instead of announcing a value

---
 src/dliswriter/logical_record/core/eflr/eflr_item.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dliswriter/logical_record/core/eflr/eflr_item.py b/src/dliswriter/logical_record/core/eflr/eflr_item.py
index 86fc138..d12d03a 100644
--- a/src/dliswriter/logical_record/core/eflr/eflr_item.py
+++ b/src/dliswriter/logical_record/core/eflr/eflr_item.py
@@ -175,7 +175,7 @@ class EFLRItem:
 
         _bytes = b''
         for attr in self.attributes.values():
-            if attr.value is None:
+            if attr.value is None or attr.count == 0:
                 _bytes += b'\x00'
             else:
                 _bytes += attr.get_as_bytes()
-- 
2.43.0


From 8d2716cb0b3a593c4b0d44447e7d68af720a8873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:01 +0000
Subject: [PATCH 16/39] fix: write the symbol, not the enum member name, of
 units given as Unit members

---
 src/dliswriter/logical_record/core/attribute/attribute.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/dliswriter/logical_record/core/attribute/attribute.py b/src/dliswriter/logical_record/core/attribute/attribute.py
index 933f1c5..9ccd871 100644
--- a/src/dliswriter/logical_record/core/attribute/attribute.py
+++ b/src/dliswriter/logical_record/core/attribute/attribute.py
@@ -152,8 +152,7 @@ class Attribute:
         if not self._units_settable:
             raise RuntimeError(f"Units of {self.__class__.__name__} cannot be set")
 
-        self._unit_checker(units)
-        self._units = units
+        self._units = self._unit_checker(units)
 
     @property
     def count(self) -> Union[int, None]:
-- 
2.43.0


From 8d334212d069f6edf27ee13cc8f208889ec500b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:01 +0000
Subject: [PATCH 17/39] fix: honour an origin reference of 0 given explicitly

---
 src/dliswriter/file/file.py | 49 ++++++++++++++++++++-----------------
 1 file changed, 27 insertions(+), 22 deletions(-)

diff --git a/src/dliswriter/file/file.py b/src/dliswriter/file/file.py
index b8c6731..f983dc7 100644
--- a/src/dliswriter/file/file.py
+++ b/src/dliswriter/file/file.py
@@ -311,6 +311,11 @@ class LogicalFile:
             return origin.origin_reference
         return None
 
+    def _choose_origin_reference(self, origin_reference: Optional[int]) -> Optional[int]:
+        """Return the provided origin reference (which might be 0) or - if not given - the default one."""
+
+        return self.default_origin_reference if origin_reference is None else origin_reference
+
     @property
     def channels(self) -> list[eflr_types.ChannelItem]:
         """Channels defined for the DLIS."""
@@ -373,7 +378,7 @@ class LogicalFile:
             coordinates=coordinates,
             spacing=spacing,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._choose_origin_reference(origin_reference),
         )
 
         return ax
@@ -449,7 +454,7 @@ class LogicalFile:
             parameters=parameters,
             method=method,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._choose_origin_reference(origin_reference),
         )
 
         return c
@@ -528,7 +533,7 @@ class LogicalFile:
             plus_tolerances=plus_tolerances,
             minus_tolerances=minus_tolerances,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._choose_origin_reference(origin_reference),
         )
 
         return c
@@ -670,7 +675,7 @@ class LogicalFile:
             plus_tolerance=plus_tolerance,
             minus_tolerance=minus_tolerance,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._choose_origin_reference(origin_reference),
         )
 
         return m
@@ -760,7 +765,7 @@ class LogicalFile:
             maximum_value=maximum_value,
             source=source,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._choose_origin_reference(origin_reference),
         )
 
         if data is not None:
@@ -825,7 +830,7 @@ class LogicalFile:
             name=name,
             text=text,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._choose_origin_reference(origin_reference),
         )
 
         return c
@@ -897,7 +902,7 @@ class LogicalFile:
             values=values,
             source=source,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._choose_origin_reference(origin_reference),
         )
 
         return c
@@ -1014,7 +1019,7 @@ class LogicalFile:
             radial_drift=radial_drift,
             angular_drift=angular_drift,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._choose_origin_reference(origin_reference),
         )
 
         return eq
@@ -1127,7 +1132,7 @@ class LogicalFile:
             index_min=index_min,
             index_max=index_max,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._choose_origin_reference(origin_reference),
         )
 
         return fr
@@ -1173,7 +1178,7 @@ class LogicalFile:
             parent=self.physical_file._eflr_sets.get_or_make_set(
                 eflr_types.GroupSet, set_name=set_name
             ),
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._choose_origin_reference(origin_reference),
         )
 
         return g
@@ -1273,7 +1278,7 @@ class LogicalFile:
             standard_symbol=standard_symbol,
             private_symbol=private_symbol,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._choose_origin_reference(origin_reference),
         )
 
         return ln
@@ -1324,7 +1329,7 @@ class LogicalFile:
             angular_drift=angular_drift,
             text=text,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._choose_origin_reference(origin_reference),
         )
 
         return m
@@ -1373,7 +1378,7 @@ class LogicalFile:
             consumer_name=consumer_name,
             description=description,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._choose_origin_reference(origin_reference),
         )
 
         return nf
@@ -1404,7 +1409,7 @@ class LogicalFile:
     ) -> int:
         origins_refs = [o.origin_reference for o in origins]
         next_available_origin_ref: int = 0
-        if origin_reference:
+        if origin_reference is not None:
             next_available_origin_ref = origin_reference
             if origin_reference in origins_refs:
                 raise RuntimeError(
@@ -1546,7 +1551,7 @@ class LogicalFile:
 
         o = eflr_types.OriginItem(
             name=name,
-            origin_reference=origin_reference or new_origin_ref,
+            origin_reference=new_origin_ref,
             file_set_number=file_set_number,
             file_set_name=file_set_name,
             file_id=self.file_header.header_id,
@@ -1647,7 +1652,7 @@ class LogicalFile:
             zones=zones,
             values=values,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._choose_origin_reference(origin_reference),
         )
 
         return p
@@ -1770,7 +1775,7 @@ class LogicalFile:
             measure_point_offset=measure_point_offset,
             tool_zero_offset=tool_zero_offset,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._choose_origin_reference(origin_reference),
         )
 
         return p
@@ -1846,7 +1851,7 @@ class LogicalFile:
             parameters=parameters,
             comments=comments,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._choose_origin_reference(origin_reference),
         )
 
         return p
@@ -1898,7 +1903,7 @@ class LogicalFile:
             input_channels=input_channels,
             zones=zones,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._choose_origin_reference(origin_reference),
         )
 
         return sp
@@ -1959,7 +1964,7 @@ class LogicalFile:
             channels=channels,
             parameters=parameters,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._choose_origin_reference(origin_reference),
         )
 
         return t
@@ -2049,7 +2054,7 @@ class LogicalFile:
             coordinate_3_name=coordinate_3_name,
             coordinate_3_value=coordinate_3_value,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._choose_origin_reference(origin_reference),
         )
 
         return w
@@ -2110,7 +2115,7 @@ class LogicalFile:
             parent=self.physical_file._eflr_sets.get_or_make_set(
                 eflr_types.ZoneSet, set_name=set_name
             ),
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._choose_origin_reference(origin_reference),
         )
 
         return z
-- 
2.43.0


From c75d2feaec75ec7ddc3077edaba185de5245a65a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:21:01 +0000
Subject: [PATCH 18/39] fix: do not assign the origin of one logical file to
 objects of other logical files

---
 src/dliswriter/file/file.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/src/dliswriter/file/file.py b/src/dliswriter/file/file.py
index f983dc7..a9bf8c4 100644
--- a/src/dliswriter/file/file.py
+++ b/src/dliswriter/file/file.py
@@ -1587,11 +1587,6 @@ class LogicalFile:
                     for eflr_item in eflr_set.get_all_eflr_items():
                         if eflr_item.origin_reference is None:
                             eflr_item.origin_reference = o.origin_reference
-            for eflr_set_dict in self.physical_file._eflr_sets.values():
-                for eflr_set in eflr_set_dict.values():
-                    for eflr_item in eflr_set.get_all_eflr_items():
-                        if eflr_item.origin_reference is None:
-                            eflr_item.origin_reference = o.origin_reference
 
             # Not enlisted in the sets. See Issue #
             self.file_header_item.origin_reference = o.origin_reference
-- 
2.43.0


From cd5084d6609b73444497a9cf6de8ddd87c6d3f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:19 +0000
Subject: [PATCH 19/39] fix: treat an empty set name as no set name, so that
 there is a single unnamed set of each type

---
 src/dliswriter/file/eflr_sets_dict.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dliswriter/file/eflr_sets_dict.py b/src/dliswriter/file/eflr_sets_dict.py
index 7859bc5..563d448 100644
--- a/src/dliswriter/file/eflr_sets_dict.py
+++ b/src/dliswriter/file/eflr_sets_dict.py
@@ -53,6 +53,8 @@ class EFLRSetsDict(defaultdict):
             An EFLRSet instance of given subtype and name, registered in the structure.
         """
 
+        set_name = set_name or None  # a set with an empty name is the same as the unnamed one
+
         # dict mapping set names on EFLRSet (subclass) instances
         eflr_set_dict: dict[Union[str, None], AnyEFLRSet] = self[eflr_set_type]
 
-- 
2.43.0


From 50d0b183ea5d47db2fe43975dbffc00defbe7641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:19 +0000
Subject: [PATCH 20/39] fix: do not let queries about the contents of a file
 change the order of its sets

---
 src/dliswriter/file/eflr_sets_dict.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dliswriter/file/eflr_sets_dict.py b/src/dliswriter/file/eflr_sets_dict.py
index 563d448..c6916c8 100644
--- a/src/dliswriter/file/eflr_sets_dict.py
+++ b/src/dliswriter/file/eflr_sets_dict.py
@@ -71,5 +71,5 @@ class EFLRSetsDict(defaultdict):
     def get_all_items_for_set_type(self, eflr_set_type: type[EFLRSet]) -> Generator[AnyEFLRItem, None, None]:
         """Retrieve all EFLRItem instances registered for all instances of given EFLRSet subclass."""
 
-        for value in self[eflr_set_type].values():
+        for value in self.get(eflr_set_type, {}).values():
             yield from value.get_all_eflr_items()
-- 
2.43.0


From e3857ea0c2695a2b2ac55880034728f983a1886e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:19 +0000
Subject: [PATCH 21/39] fix: give same-named objects distinct copy numbers also
 when they are in differently named sets of one type

---
 src/dliswriter/file/eflr_sets_dict.py                | 1 +
 src/dliswriter/logical_record/core/eflr/eflr_item.py | 3 ++-
 src/dliswriter/logical_record/core/eflr/eflr_set.py  | 1 +
 3 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/dliswriter/file/eflr_sets_dict.py b/src/dliswriter/file/eflr_sets_dict.py
index c6916c8..3ff4d18 100644
--- a/src/dliswriter/file/eflr_sets_dict.py
+++ b/src/dliswriter/file/eflr_sets_dict.py
@@ -40,6 +40,7 @@ class EFLRSetsDict(defaultdict):
             return False
         else:
             self[eflr_set.__class__][eflr_set.set_name] = eflr_set
+            eflr_set.sibling_sets = self[eflr_set.__class__]
             return True
 
     def get_or_make_set(self, eflr_set_type: type[AnyEFLRSet], set_name: Optional[str] = None) -> AnyEFLRSet:
diff --git a/src/dliswriter/logical_record/core/eflr/eflr_item.py b/src/dliswriter/logical_record/core/eflr/eflr_item.py
index d12d03a..ac909d1 100644
--- a/src/dliswriter/logical_record/core/eflr/eflr_item.py
+++ b/src/dliswriter/logical_record/core/eflr/eflr_item.py
@@ -116,7 +116,8 @@ class EFLRItem:
     def _compute_copy_number(self) -> int:
         """Compute copy number of this ELFRItem, i.e. how many other objects of the same type and name there are."""
 
-        items_with_the_same_name = filter(lambda o: o.name == self.name, self.parent.get_all_eflr_items())
+        items_with_the_same_name = (o for eflr_set in self.parent.sibling_sets.values()
+                                    for o in eflr_set.get_all_eflr_items() if o.name == self.name)
         return len(list(items_with_the_same_name)) - 1
 
     @classmethod
diff --git a/src/dliswriter/logical_record/core/eflr/eflr_set.py b/src/dliswriter/logical_record/core/eflr/eflr_set.py
index 0fc8543..b447681 100644
--- a/src/dliswriter/logical_record/core/eflr/eflr_set.py
+++ b/src/dliswriter/logical_record/core/eflr/eflr_set.py
@@ -31,6 +31,7 @@ class EFLRSet(LogicalRecord):
         self.set_name = set_name
         self._set_type_struct = write_struct_ident(self.set_type)  # used in the header
         self._eflr_item_list: list[EFLRItem] = []  # instances of EFLRItem registered with this EFLRSet instance
+        self.sibling_sets: dict[Optional[str], EFLRSet] = {set_name: self}  # sets of this type in the logical file
 
     def __str__(self) -> str:
         """Represent the EFLRSet instance as str."""
-- 
2.43.0


From bfe3c71b472941ad814329510b2f50c4c1d9d15c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:22:19 +0000
Subject: [PATCH 22/39] fix: refuse to write a file without any logical file

---
 src/dliswriter/file/file.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dliswriter/file/file.py b/src/dliswriter/file/file.py
index a9bf8c4..660c8bf 100644
--- a/src/dliswriter/file/file.py
+++ b/src/dliswriter/file/file.py
@@ -203,6 +203,9 @@ class DLISFile:
             This function is used in a timeit call to time the file creation.
             """
 
+            if not self.logical_files:
+                raise RuntimeError("No logical files defined")
+
             for lf in self.logical_files:
                 lf.check_objects()
 
-- 
2.43.0


From 22dc2c0ae3ee274f4a6cf40db9c18ce30017f921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:37 +0000
Subject: [PATCH 23/39] fix: refuse to write sets shared by several logical
 files instead of writing them in each of these files

---
 src/dliswriter/file/file.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/dliswriter/file/file.py b/src/dliswriter/file/file.py
index 660c8bf..db81a8f 100644
--- a/src/dliswriter/file/file.py
+++ b/src/dliswriter/file/file.py
@@ -127,6 +127,24 @@ class DLISFile:
             for multi_frame_data in multi_frame_data_objects[idx_lf]:
                 yield from multi_frame_data
 
+    def _check_sets_not_shared(self) -> None:
+        """Check that no EFLRSet (including the header one) holds objects of more than one logical file."""
+
+        used: set[int] = set()
+        for lf in self.logical_files:
+            if lf.file_header.parent.n_items != 1:
+                raise RuntimeError(f"{lf.file_header} is not the only item of its set")
+
+            lf_sets = [lf.file_header.parent]
+            for set_dict in lf._eflr_sets.values():
+                lf_sets.extend(set_dict.values())
+
+            for eflr_set in lf_sets:
+                if id(eflr_set) in used:
+                    raise RuntimeError(f"{eflr_set} is shared by several logical files; objects of the same type must "
+                                       f"be put in differently named sets in different logical files")
+                used.add(id(eflr_set))
+
     def generate_logical_records(
         self,
         chunk_size: Optional[int],
@@ -206,6 +224,8 @@ class DLISFile:
             if not self.logical_files:
                 raise RuntimeError("No logical files defined")
 
+            self._check_sets_not_shared()
+
             for lf in self.logical_files:
                 lf.check_objects()
 
-- 
2.43.0


From 2554514fa56b849b2e0abf12622a5b902e079beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:23:37 +0000
Subject: [PATCH 24/39] fix: refuse to write references to objects or origins
 which are not defined in the same logical file

---
 src/dliswriter/file/file.py | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/src/dliswriter/file/file.py b/src/dliswriter/file/file.py
index db81a8f..568a945 100644
--- a/src/dliswriter/file/file.py
+++ b/src/dliswriter/file/file.py
@@ -2144,6 +2144,40 @@ class LogicalFile:
         self._check_completeness()
         self._check_channels_assigned_to_frames()
         self._check_defining_origin_params()
+        self._check_references()
+
+    def _check_references(self) -> None:
+        """Check that all objects are uniquely identified and only refer to objects of this logical file."""
+
+        items: list[EFLRItem] = [self.file_header]
+        for set_dict in self._eflr_sets.values():
+            for eflr_set in set_dict.values():
+                items.extend(eflr_set.get_all_eflr_items())
+
+        item_ids = {id(item) for item in items}
+        origin_references = {o.origin_reference for o in self.origins}
+        identities: set[tuple] = set()
+
+        for item in items:
+            if item.origin_reference not in origin_references:
+                raise RuntimeError(f"Origin reference {item.origin_reference} of {item} does not correspond to any "
+                                   f"origin of the logical file")
+
+            identity = (item.parent.set_type, item.origin_reference, item.copy_number, item.name)
+            if identity in identities:
+                raise RuntimeError(f"{item} cannot be told apart from another object of the same name and type")
+            identities.add(identity)
+
+            for attr in item.attributes.values():
+                values = attr.value if isinstance(attr.value, (list, tuple)) else [attr.value]
+                for value in values:
+                    if isinstance(value, EFLRItem) and id(value) not in item_ids:
+                        raise RuntimeError(f"{value}, referred to by {attr}, does not belong to the logical file")
+
+        for no_format_frame_data in self._no_format_frame_data:
+            if id(no_format_frame_data.no_format_object) not in item_ids:
+                raise RuntimeError(f"{no_format_frame_data.no_format_object}, which no-format data have been added to, "
+                                   f"does not belong to the logical file")
 
     def _check_defining_origin_params(self) -> None:
         """Check that the file_id of the defining origin is the same as the ID of the header."""
-- 
2.43.0


From bb8e2823babebc7790943d9b2a5a04effa36b156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:53 +0000
Subject: [PATCH 25/39] fix: compute frame spacing of integer index channels
 without wrapping around

---
 src/dliswriter/logical_record/eflr_types/frame.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dliswriter/logical_record/eflr_types/frame.py b/src/dliswriter/logical_record/eflr_types/frame.py
index 4dc250b..f65bcb9 100644
--- a/src/dliswriter/logical_record/eflr_types/frame.py
+++ b/src/dliswriter/logical_record/eflr_types/frame.py
@@ -143,6 +143,9 @@ class FrameItem(EFLRItem):
             If direction cannot be determined, it is assigned to None.
         """
 
+        if np.issubdtype(index_data.dtype, np.integer):
+            index_data = index_data.astype(np.int64)  # differences might not fit in the original type
+
         diff = np.diff(index_data)
         diff_unique = np.unique(diff)
 
-- 
2.43.0


From ba66299281f04fd003d24a4fec41c0f358f21c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:53 +0000
Subject: [PATCH 26/39] fix: do not write NaN as the spacing of frames with a
 single row or undefined index values

---
 src/dliswriter/logical_record/eflr_types/frame.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/dliswriter/logical_record/eflr_types/frame.py b/src/dliswriter/logical_record/eflr_types/frame.py
index f65bcb9..d012a0d 100644
--- a/src/dliswriter/logical_record/eflr_types/frame.py
+++ b/src/dliswriter/logical_record/eflr_types/frame.py
@@ -120,7 +120,10 @@ class FrameItem(EFLRItem):
                                    f"for {index_channel} of {self}")
             spacing, direction = self._compute_spacing_and_direction(index_data)
 
-            if spacing is None:
+            if index_data.shape[0] < 2:
+                logger.debug(f"Single row of data in {self}; spacing and direction not defined")
+
+            elif spacing is None:
                 # spacing cannot be used because it is not uniform enough; using only direction - if available
                 m = (f"Spacing of the index channel of {self} is not uniform; this can cause issues in some viewer "
                      f"software. Consider implicit indexing by row number number instead "
@@ -158,6 +161,10 @@ class FrameItem(EFLRItem):
         else:
             direction = None  # some increasing, some decreasing -> not determined
 
+        if not len(diff_unique) or np.isnan(diff_unique).any():
+            # single row or undefined differences -> no spacing
+            return None, direction
+
         if len(diff_unique) == 1:
             # if spacing between each sample is the same, this is it
             return diff_unique[0], direction
-- 
2.43.0


From d24c443473efc89657cbccd0f5038996a4457b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:53 +0000
Subject: [PATCH 27/39] fix: determine index limits and spacing of a frame from
 the index values as written (after the cast)

---
 src/dliswriter/logical_record/eflr_types/frame.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dliswriter/logical_record/eflr_types/frame.py b/src/dliswriter/logical_record/eflr_types/frame.py
index d012a0d..355c05e 100644
--- a/src/dliswriter/logical_record/eflr_types/frame.py
+++ b/src/dliswriter/logical_record/eflr_types/frame.py
@@ -99,6 +99,8 @@ class FrameItem(EFLRItem):
 
         index_channel: ChannelItem = self.channels.value[0]
         index_data = data[index_channel.name][:]
+        if index_channel.cast_dtype is not None:
+            index_data = index_data.astype(index_channel.cast_dtype)  # the values which will be written
 
         if self.index_type.value is None:
             # according to RP66, if index_type is None:
-- 
2.43.0


From 93a611fd8b2381e8847899faf90d4f0071aea2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:53 +0000
Subject: [PATCH 28/39] fix: keep the element limit set by the user when it
 bounds the dimension of the data

---
 src/dliswriter/logical_record/eflr_types/channel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dliswriter/logical_record/eflr_types/channel.py b/src/dliswriter/logical_record/eflr_types/channel.py
index 244b2da..388d4ae 100644
--- a/src/dliswriter/logical_record/eflr_types/channel.py
+++ b/src/dliswriter/logical_record/eflr_types/channel.py
@@ -139,7 +139,7 @@ class ChannelItem(EFLRItem, DimensionedItem):
             else:
                 # only set the element limit if it was None before
                 logger.debug(f"Setting element limit of {self} to {dim}")
-            self.element_limit.value = dim
+                self.element_limit.value = dim
 
     @staticmethod
     def _compare_element_limit_vs_dimension(el: list[int], dim: list[int]) -> bool:
-- 
2.43.0


From 0b2b1e98c33a5164124f8df1a423dc57d296a791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:53 +0000
Subject: [PATCH 29/39] fix: keep an empty long name set by the user

---
 src/dliswriter/logical_record/eflr_types/channel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dliswriter/logical_record/eflr_types/channel.py b/src/dliswriter/logical_record/eflr_types/channel.py
index 388d4ae..d825ad3 100644
--- a/src/dliswriter/logical_record/eflr_types/channel.py
+++ b/src/dliswriter/logical_record/eflr_types/channel.py
@@ -197,7 +197,7 @@ class ChannelItem(EFLRItem, DimensionedItem):
 
         self._check_axis_vs_dimension()
 
-        if not self.long_name.value:
+        if self.long_name.value is None:
             logger.debug(f"Long name of channel '{self.name}' not specified; setting it to to the channel's name")
             self.long_name.value = self.name
 
-- 
2.43.0


From eca40c666cdb87ebda98506830540773088d2d94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:20 +0000
Subject: [PATCH 30/39] fix: do not keep objects whose creation has failed, nor
 write sets left empty by that

---
 src/dliswriter/file/file.py                          | 5 +++--
 src/dliswriter/logical_record/core/eflr/eflr_item.py | 6 ++++--
 src/dliswriter/logical_record/eflr_types/channel.py  | 4 ++--
 3 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/dliswriter/file/file.py b/src/dliswriter/file/file.py
index 568a945..9dc0ef7 100644
--- a/src/dliswriter/file/file.py
+++ b/src/dliswriter/file/file.py
@@ -116,11 +116,12 @@ class DLISFile:
         for idx_lf, logical_file in enumerate(self.logical_files):
             yield logical_file.file_header_item.parent
 
-            yield from logical_file._eflr_sets[eflr_types.OriginSet].values()
+            # sets without items (e.g. because creating the items has failed) are not written
+            yield from (s for s in logical_file._eflr_sets[eflr_types.OriginSet].values() if s.n_items)
 
             for set_type, set_dict in logical_file._eflr_sets.items():
                 if set_type not in (eflr_types.FileHeaderSet, eflr_types.OriginSet):
-                    yield from set_dict.values()
+                    yield from (s for s in set_dict.values() if s.n_items)
 
             yield from logical_file._no_format_frame_data
 
diff --git a/src/dliswriter/logical_record/core/eflr/eflr_item.py b/src/dliswriter/logical_record/core/eflr/eflr_item.py
index ac909d1..ac7c54b 100644
--- a/src/dliswriter/logical_record/core/eflr/eflr_item.py
+++ b/src/dliswriter/logical_record/core/eflr/eflr_item.py
@@ -61,7 +61,6 @@ class EFLRItem:
 
         self._check_parent(parent)
         self._parent = parent  #: EFLRSet instance this item belongs to
-        self._parent.register_item(self)
 
         #: origin reference value, common for records sharing origin
         self._origin_reference: Union[int, None] = self._validate_origin_reference(origin_reference, allow_none=True)
@@ -74,6 +73,9 @@ class EFLRItem:
 
         self.set_attributes(**{k: v for k, v in kwargs.items() if v is not None})
 
+        # only register the item now that all of its values are known to be correct
+        self._parent.register_item(self)
+
     @property
     def parent(self) -> "EFLRSet":
         """EFLRSet instance that this EFLRItem is a part of."""
@@ -118,7 +120,7 @@ class EFLRItem:
 
         items_with_the_same_name = (o for eflr_set in self.parent.sibling_sets.values()
                                     for o in eflr_set.get_all_eflr_items() if o.name == self.name)
-        return len(list(items_with_the_same_name)) - 1
+        return len(list(items_with_the_same_name))
 
     @classmethod
     def _check_parent(cls, parent: "EFLRSet") -> None:
diff --git a/src/dliswriter/logical_record/eflr_types/channel.py b/src/dliswriter/logical_record/eflr_types/channel.py
index d825ad3..ae6bc57 100644
--- a/src/dliswriter/logical_record/eflr_types/channel.py
+++ b/src/dliswriter/logical_record/eflr_types/channel.py
@@ -73,11 +73,11 @@ class ChannelItem(EFLRItem, DimensionedItem):
         self.minimum_value = NumericAttribute('minimum_value', representation_code=RepC.FDOUBL, multivalued=True)
         self.maximum_value = NumericAttribute('maximum_value', representation_code=RepC.FDOUBL, multivalued=True)
 
-        super().__init__(name, parent=parent, **kwargs)
-
         self._dataset_name: Union[str, None] = dataset_name
         self._set_cast_dtype(cast_dtype)
 
+        super().__init__(name, parent=parent, **kwargs)
+
     @property
     def dataset_name(self) -> str:
         """Name of the data corresponding to this channel in the SourceDataWrapper."""
-- 
2.43.0


From de5ae5ecd9cebc4d8458cef69a4b436fde4e8d90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:42 +0000
Subject: [PATCH 31/39] fix: do not let values determined while writing a file
 affect writing it again (with other data)

---
 src/dliswriter/file/file.py                   | 25 ++++++++++++++++++-
 .../logical_record/core/eflr/eflr_item.py     | 11 ++++++++
 .../logical_record/eflr_types/channel.py      | 11 ++++++++
 3 files changed, 46 insertions(+), 1 deletion(-)

diff --git a/src/dliswriter/file/file.py b/src/dliswriter/file/file.py
index 9dc0ef7..46de79f 100644
--- a/src/dliswriter/file/file.py
+++ b/src/dliswriter/file/file.py
@@ -5,6 +5,7 @@ Note: unless otherwise specified, all quotes come from teh RP66 v1 standard spec
 
 from typing import Any, Union, Optional, TypeVar, Generator
 import numpy as np
+from contextlib import contextmanager
 from timeit import timeit
 from datetime import timedelta, datetime
 import logging
@@ -128,6 +129,27 @@ class DLISFile:
             for multi_frame_data in multi_frame_data_objects[idx_lf]:
                 yield from multi_frame_data
 
+    @contextmanager
+    def _specification_preserved(self) -> Generator[None, None, None]:
+        """Undo, on exit, the changes made to the specification when preparing it to be written.
+
+        Values which were not set by the user are determined from the data (e.g. channel dimension, frame index limits)
+        or given defaults; these should not affect the next time the file is written, possibly with different data.
+        """
+
+        data_dicts = [(lf, lf._data_dict) for lf in self.logical_files]
+        items = [item for lf in self.logical_files for set_dict in lf._eflr_sets.values()
+                 for eflr_set in set_dict.values() for item in eflr_set.get_all_eflr_items()]
+        states = [(item, item.get_state()) for item in items]
+
+        try:
+            yield
+        finally:
+            for lf, data_dict in data_dicts:
+                lf._data_dict = data_dict
+            for item, state in states:
+                item.restore_state(state)
+
     def _check_sets_not_shared(self) -> None:
         """Check that no EFLRSet (including the header one) holds objects of more than one logical file."""
 
@@ -246,7 +268,8 @@ class DLISFile:
                 logical_records, output_chunk_size=output_chunk_size
             )
 
-        exec_time = timeit(timed_func, number=1)
+        with self._specification_preserved():
+            exec_time = timeit(timed_func, number=1)
         logger.info(
             f"DLIS file created in {timedelta(seconds=exec_time)} ({exec_time} seconds)"
         )
diff --git a/src/dliswriter/logical_record/core/eflr/eflr_item.py b/src/dliswriter/logical_record/core/eflr/eflr_item.py
index ac7c54b..f12d31b 100644
--- a/src/dliswriter/logical_record/core/eflr/eflr_item.py
+++ b/src/dliswriter/logical_record/core/eflr/eflr_item.py
@@ -197,6 +197,17 @@ class EFLRItem:
 
         return b'p' + self.obname + self._make_attrs_bytes()
 
+    def get_state(self) -> dict[str, Any]:
+        """Collect the values and units of all attributes of the item."""
+
+        return {key: (attr._value, attr._units) for key, attr in self.attributes.items()}
+
+    def restore_state(self, state: dict[str, Any]) -> None:
+        """Bring the attributes of the item back to the values and units obtained from 'get_state' earlier."""
+
+        for key, attr in self.attributes.items():
+            attr._value, attr._units = state[key]
+
     def set_attributes(self, **kwargs: Any) -> None:
         """Set the values and other characteristics of the EFLRItem's attributes.
 
diff --git a/src/dliswriter/logical_record/eflr_types/channel.py b/src/dliswriter/logical_record/eflr_types/channel.py
index ae6bc57..63f945e 100644
--- a/src/dliswriter/logical_record/eflr_types/channel.py
+++ b/src/dliswriter/logical_record/eflr_types/channel.py
@@ -111,6 +111,17 @@ class ChannelItem(EFLRItem, DimensionedItem):
         self._cast_dtype = dt
         self.representation_code.set_from_dtype(self.cast_dtype)
 
+    def get_state(self) -> dict[str, Any]:
+        """Collect the values and units of all attributes of the item and the cast dtype."""
+
+        return super().get_state() | {'_cast_dtype': self._cast_dtype}
+
+    def restore_state(self, state: dict[str, Any]) -> None:
+        """Bring the attributes and cast dtype of the channel back to the values obtained from 'get_state' earlier."""
+
+        super().restore_state(state)
+        self._cast_dtype = state['_cast_dtype']
+
     def set_dimension_and_repr_code_from_data(self, data: SourceDataWrapper) -> None:
         """Determine and dimension and representation code attributes of the ChannelItem based on the source data."""
 
-- 
2.43.0


From 3b5a75ff679d26ac6ac6cfb7dec0473f8bc7b4d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:11:49 +0000
Subject: [PATCH 32/39] fix: do not let a failed attempt at adding an object
 affect the sets of the file (their order or sharing)

---
 src/dliswriter/file/eflr_sets_dict.py | 17 ++++++++++++
 src/dliswriter/file/file.py           | 40 ++++++++++++++++++++++++++-
 2 files changed, 56 insertions(+), 1 deletion(-)

diff --git a/src/dliswriter/file/eflr_sets_dict.py b/src/dliswriter/file/eflr_sets_dict.py
index 3ff4d18..ded533e 100644
--- a/src/dliswriter/file/eflr_sets_dict.py
+++ b/src/dliswriter/file/eflr_sets_dict.py
@@ -69,6 +69,23 @@ class EFLRSetsDict(defaultdict):
 
         return eflr_set_instance
 
+    def get_state(self) -> list[tuple]:
+        """Return the registered sets of each type, to be able to restore them."""
+
+        return [(set_type, set_dict, [(name, s, s.sibling_sets) for name, s in set_dict.items()])
+                for set_type, set_dict in self.items()]
+
+    def restore_state(self, state: list[tuple]) -> None:
+        """Bring back the registered sets to what they were when the state was retrieved."""
+
+        self.clear()
+        for set_type, set_dict, sets in state:
+            set_dict.clear()
+            for name, eflr_set, sibling_sets in sets:
+                set_dict[name] = eflr_set
+                eflr_set.sibling_sets = sibling_sets
+            self[set_type] = set_dict
+
     def get_all_items_for_set_type(self, eflr_set_type: type[EFLRSet]) -> Generator[AnyEFLRItem, None, None]:
         """Retrieve all EFLRItem instances registered for all instances of given EFLRSet subclass."""
 
diff --git a/src/dliswriter/file/file.py b/src/dliswriter/file/file.py
index 46de79f..2cb9ddd 100644
--- a/src/dliswriter/file/file.py
+++ b/src/dliswriter/file/file.py
@@ -3,9 +3,10 @@
 Note: unless otherwise specified, all quotes come from teh RP66 v1 standard specification.
 """
 
-from typing import Any, Union, Optional, TypeVar, Generator
+from typing import Any, Callable, Union, Optional, TypeVar, Generator
 import numpy as np
 from contextlib import contextmanager
+from functools import wraps
 from timeit import timeit
 from datetime import timedelta, datetime
 import logging
@@ -66,6 +67,22 @@ def raise_or_warn(message: str) -> None:
     logger.warning(message)
 
 
+def sets_restored_on_failure(add_method: Callable[..., T]) -> Callable[..., T]:
+    """Make a LogicalFile method adding an object leave no (empty) sets behind when the object cannot be created."""
+
+    @wraps(add_method)
+    def wrapper(self: "LogicalFile", *args: Any, **kwargs: Any) -> T:
+        states = [(sets, sets.get_state()) for sets in (self.physical_file._eflr_sets, self._eflr_sets)]
+        try:
+            return add_method(self, *args, **kwargs)
+        except BaseException:
+            for sets, state in states:
+                sets.restore_state(state)
+            raise
+
+    return wrapper
+
+
 class DLISFile:
     """DLIS file. Contains the list of the logical files, the Storage Unit Label and the writing routines"""
 
@@ -381,6 +398,7 @@ class LogicalFile:
 
         return list(self._eflr_sets.get_all_items_for_set_type(eflr_types.OriginSet))
 
+    @sets_restored_on_failure
     def add_axis(
         self,
         name: str,
@@ -430,6 +448,7 @@ class LogicalFile:
 
         return ax
 
+    @sets_restored_on_failure
     def add_calibration(
         self,
         name: str,
@@ -506,6 +525,7 @@ class LogicalFile:
 
         return c
 
+    @sets_restored_on_failure
     def add_calibration_coefficient(
         self,
         name: str,
@@ -585,6 +605,7 @@ class LogicalFile:
 
         return c
 
+    @sets_restored_on_failure
     def add_calibration_measurement(
         self,
         name: str,
@@ -727,6 +748,7 @@ class LogicalFile:
 
         return m
 
+    @sets_restored_on_failure
     def add_channel(
         self,
         name: str,
@@ -849,6 +871,7 @@ class LogicalFile:
 
         return n
 
+    @sets_restored_on_failure
     def add_comment(
         self,
         name: str,
@@ -882,6 +905,7 @@ class LogicalFile:
 
         return c
 
+    @sets_restored_on_failure
     def add_computation(
         self,
         name: str,
@@ -954,6 +978,7 @@ class LogicalFile:
 
         return c
 
+    @sets_restored_on_failure
     def add_equipment(
         self,
         name: str,
@@ -1071,6 +1096,7 @@ class LogicalFile:
 
         return eq
 
+    @sets_restored_on_failure
     def add_frame(
         self,
         name: str,
@@ -1184,6 +1210,7 @@ class LogicalFile:
 
         return fr
 
+    @sets_restored_on_failure
     def add_group(
         self,
         name: str,
@@ -1230,6 +1257,7 @@ class LogicalFile:
 
         return g
 
+    @sets_restored_on_failure
     def add_long_name(
         self,
         name: str,
@@ -1330,6 +1358,7 @@ class LogicalFile:
 
         return ln
 
+    @sets_restored_on_failure
     def add_message(
         self,
         name: str,
@@ -1381,6 +1410,7 @@ class LogicalFile:
 
         return m
 
+    @sets_restored_on_failure
     def add_no_format(
         self,
         name: str,
@@ -1468,6 +1498,7 @@ class LogicalFile:
             next_available_origin_ref += 1
         return next_available_origin_ref
 
+    @sets_restored_on_failure
     def add_origin(
         self,
         name: str,
@@ -1640,6 +1671,7 @@ class LogicalFile:
 
         return o
 
+    @sets_restored_on_failure
     def add_parameter(
         self,
         name: str,
@@ -1699,6 +1731,7 @@ class LogicalFile:
 
         return p
 
+    @sets_restored_on_failure
     def add_path(
         self,
         name: str,
@@ -1822,6 +1855,7 @@ class LogicalFile:
 
         return p
 
+    @sets_restored_on_failure
     def add_process(
         self,
         name: str,
@@ -1898,6 +1932,7 @@ class LogicalFile:
 
         return p
 
+    @sets_restored_on_failure
     def add_splice(
         self,
         name: str,
@@ -1950,6 +1985,7 @@ class LogicalFile:
 
         return sp
 
+    @sets_restored_on_failure
     def add_tool(
         self,
         name: str,
@@ -2011,6 +2047,7 @@ class LogicalFile:
 
         return t
 
+    @sets_restored_on_failure
     def add_well_reference_point(
         self,
         name: str,
@@ -2101,6 +2138,7 @@ class LogicalFile:
 
         return w
 
+    @sets_restored_on_failure
     def add_zone(
         self,
         name: str,
-- 
2.43.0


From 74e583a39910b64773ab11134d71abd6db7cd208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:25 +0000
Subject: [PATCH 33/39] fix: write the source of a computation as a reference
 with the type of the object, so that it is unambiguous

---
 src/dliswriter/logical_record/eflr_types/computation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dliswriter/logical_record/eflr_types/computation.py b/src/dliswriter/logical_record/eflr_types/computation.py
index 52ad2fd..9990518 100644
--- a/src/dliswriter/logical_record/eflr_types/computation.py
+++ b/src/dliswriter/logical_record/eflr_types/computation.py
@@ -5,7 +5,7 @@ from dliswriter.logical_record.core.eflr import EFLRItem, EFLRSet, DimensionedIt
 from dliswriter.logical_record.eflr_types.axis import AxisSet
 from dliswriter.logical_record.eflr_types.zone import ZoneSet
 from dliswriter.logical_record.eflr_types.long_name import LongNameSet
-from dliswriter.utils.internal.internal_enums import EFLRType
+from dliswriter.utils.internal.internal_enums import EFLRType, RepresentationCode as RepC
 from dliswriter.logical_record.core.attribute import (EFLRAttribute, NumericAttribute, DimensionAttribute,
                                                       EFLROrTextAttribute, PropertiesAttribute)
 
@@ -33,7 +33,7 @@ class ComputationItem(EFLRItem, DimensionedItem):
         self.axis = EFLRAttribute('axis', object_class=AxisSet, multivalued=True)
         self.zones = EFLRAttribute('zones', object_class=ZoneSet, multivalued=True)
         self.values = NumericAttribute('values', multivalued=True, multidimensional=True)
-        self.source = EFLRAttribute('source')
+        self.source = EFLRAttribute('source', representation_code=RepC.OBJREF)
 
         super().__init__(name, parent=parent, **kwargs)
 
-- 
2.43.0


From 857f262c9575219eceac8d3ed89827d2372e0d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:58:58 +0000
Subject: [PATCH 34/39] fix: only accept no-format objects as owners of
 no-format data

Data added to an object of another type used to be written as a no-format
record which refers to no NO-FORMAT object.
---
 .../logical_record/iflr_types/no_format_frame_data.py          | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/dliswriter/logical_record/iflr_types/no_format_frame_data.py b/src/dliswriter/logical_record/iflr_types/no_format_frame_data.py
index b9de52f..7b64679 100644
--- a/src/dliswriter/logical_record/iflr_types/no_format_frame_data.py
+++ b/src/dliswriter/logical_record/iflr_types/no_format_frame_data.py
@@ -13,6 +13,9 @@ class NoFormatFrameData(IFLR):
     def __init__(self, no_format_object: NoFormatItem, data: Union[str, bytes, bytearray]) -> None:
         """Initialise NoFormatFrameData."""
 
+        if not isinstance(no_format_object, NoFormatItem):
+            raise TypeError(f"Expected a NoFormatItem; got {type(no_format_object)}: {no_format_object}")
+
         super().__init__()
 
         self.no_format_object = no_format_object
-- 
2.43.0


From e351805d40d5f72089873abbb8e24a9ec24176e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:52 +0000
Subject: [PATCH 35/39] fix: refuse sequence numbers and record lengths which
 are not positive integers

Sequence numbers of the storage unit and reassigned ones of the file header
were written as they were, e.g. as '  -1' or 'True'.
---
 .../logical_record/eflr_types/file_header.py  |  4 ++--
 .../logical_record/misc/storage_unit_label.py |  6 +++---
 src/dliswriter/utils/internal/converters.py   | 20 +++++++++++++++++++
 3 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/dliswriter/logical_record/eflr_types/file_header.py b/src/dliswriter/logical_record/eflr_types/file_header.py
index 7895267..9151325 100644
--- a/src/dliswriter/logical_record/eflr_types/file_header.py
+++ b/src/dliswriter/logical_record/eflr_types/file_header.py
@@ -6,7 +6,7 @@ Unless otherwise specified, all quotes in this file come from the RP66 v1 standa
 
 from typing import Any
 
-from dliswriter.utils.internal.converters import get_ascii_bytes
+from dliswriter.utils.internal.converters import get_ascii_bytes, get_positive_integer_bytes
 from dliswriter.utils.internal.struct_writer import write_struct_ascii
 from dliswriter.utils.internal.internal_enums import RepresentationCode, EFLRType
 from dliswriter.logical_record.core.eflr import EFLRSet, EFLRItem
@@ -85,7 +85,7 @@ class FileHeaderItem(EFLRItem):
 
         bts += pack_ushort(int('00100001', 2))
         bts += pack_ushort(10)
-        bts += get_ascii_bytes(str(self.sequence_number), 10, justify_left=False)
+        bts += get_positive_integer_bytes(self.sequence_number, 10)
         bts += pack_ushort(int('00100001', 2))
         bts += pack_ushort(65)
         bts += get_ascii_bytes(self.header_id, 65, justify_left=True)
diff --git a/src/dliswriter/logical_record/misc/storage_unit_label.py b/src/dliswriter/logical_record/misc/storage_unit_label.py
index 7dc54c6..30f8146 100644
--- a/src/dliswriter/logical_record/misc/storage_unit_label.py
+++ b/src/dliswriter/logical_record/misc/storage_unit_label.py
@@ -1,6 +1,6 @@
 from typing import Any
 
-from dliswriter.utils.internal.converters import get_ascii_bytes
+from dliswriter.utils.internal.converters import get_ascii_bytes, get_positive_integer_bytes
 from dliswriter.logical_record.core.logical_record import LogicalRecordBytes
 from dliswriter.utils.internal.value_checkers import validate_string
 
@@ -73,7 +73,7 @@ class StorageUnitLabel:
         """
 
         # Storage Unit Sequence Number
-        _susn_as_bytes = get_ascii_bytes(str(self.sequence_number), 4)
+        _susn_as_bytes = get_positive_integer_bytes(self.sequence_number, 4)
 
         # DLIS Version
         _dlisv_as_bytes = get_ascii_bytes(self.dlis_version, 5, justify_left=True)
@@ -82,7 +82,7 @@ class StorageUnitLabel:
         _sus_as_bytes = get_ascii_bytes(self.storage_unit_structure, 6)
 
         # Maximum Record Length
-        _mrl_as_bytes = get_ascii_bytes(str(self.max_record_length), 5)
+        _mrl_as_bytes = get_positive_integer_bytes(self.max_record_length, 5)
 
         # Storage Set Identifier
         _ssi_as_bytes = get_ascii_bytes(self.set_identifier, 60, justify_left=True)
diff --git a/src/dliswriter/utils/internal/converters.py b/src/dliswriter/utils/internal/converters.py
index 6c1f1f9..98395cd 100644
--- a/src/dliswriter/utils/internal/converters.py
+++ b/src/dliswriter/utils/internal/converters.py
@@ -1,4 +1,5 @@
 from datetime import datetime
+from numbers import Integral
 import numpy as np
 from typing import Callable, Any, Iterable, Union, Optional
 
@@ -32,6 +33,25 @@ def get_ascii_bytes(value: str, required_length: int, justify_left: bool = False
     return padded_value.encode('ascii')
 
 
+def get_positive_integer_bytes(value: int, required_length: int) -> bytes:
+    """Encode a positive integer as ASCII decimal digits, padded with preceding blanks.
+
+    Args:
+        value           :   Number to convert.
+        required_length :   Required length of the string.
+
+    Returns:
+        ASCII encoded bytes.
+    """
+
+    if isinstance(value, bool) or not isinstance(value, Integral):
+        raise TypeError(f"Expected an integer; got {type(value)}: {value}")
+    if value < 1:
+        raise ValueError(f"Expected a positive integer; got {value}")
+
+    return get_ascii_bytes(str(int(value)), required_length)
+
+
 def _filter_codes(cond: Callable) -> tuple[RepresentationCode, ...]:
     """Return a tuple containing all representation codes fulfilling a certain condition ('cond')."""
 
-- 
2.43.0


From 32eb8304e96090286d744f192fecae8e720d5037 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:10 +0000
Subject: [PATCH 36/39] fix: refuse lists as values of attributes with a single
 value

The source of a channel could be a list, of which all elements were written
though only one was announced.
---
 src/dliswriter/logical_record/core/attribute/attribute.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/dliswriter/logical_record/core/attribute/attribute.py b/src/dliswriter/logical_record/core/attribute/attribute.py
index 9ccd871..a18433b 100644
--- a/src/dliswriter/logical_record/core/attribute/attribute.py
+++ b/src/dliswriter/logical_record/core/attribute/attribute.py
@@ -290,6 +290,8 @@ class Attribute:
 
         if value is not None:
             if isinstance(value, (list, tuple)):
+                if not self._multivalued:
+                    raise ValueError(f"{self} cannot have multiple values; got {value}")
                 for val in self.flatten_list(value):
                     bts += write_struct(rc, val)
             else:
-- 
2.43.0


From 49a8224af077e4ce62a857b3c6682feac3cfe788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:40 +0000
Subject: [PATCH 37/39] fix: refuse fractions of every type as a status

Only Python floats were checked; numpy ones and others were truncated.
---
 src/dliswriter/logical_record/core/attribute/subtypes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dliswriter/logical_record/core/attribute/subtypes.py b/src/dliswriter/logical_record/core/attribute/subtypes.py
index a1ab9d9..61f4822 100644
--- a/src/dliswriter/logical_record/core/attribute/subtypes.py
+++ b/src/dliswriter/logical_record/core/attribute/subtypes.py
@@ -306,7 +306,7 @@ class StatusAttribute(Attribute):
         if isinstance(val, bool):
             return int(val)
 
-        if isinstance(val, float) and val % 1:
+        if not isinstance(val, str) and val % 1:
             raise ValueError(f"Status cannot be a fraction; got {val}")
 
         val = int(val)
-- 
2.43.0


From 53f16f0a720a2c806f48046e28c44d8044300c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:38 +0000
Subject: [PATCH 38/39] fix: warn about names outside the safe set of
 characters also without the high-compatibility mode

---
 src/dliswriter/utils/internal/value_checkers.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/dliswriter/utils/internal/value_checkers.py b/src/dliswriter/utils/internal/value_checkers.py
index 05f5b4f..ac2ec78 100644
--- a/src/dliswriter/utils/internal/value_checkers.py
+++ b/src/dliswriter/utils/internal/value_checkers.py
@@ -1,9 +1,12 @@
+import logging
 import re
 from typing import Union
 
 from dliswriter.configuration import global_config
 
 
+logger = logging.getLogger(__name__)
+
 HC_STRING_PATTERN = re.compile(r"[A-Z0-9_-]+")
 
 
@@ -19,6 +22,9 @@ def validate_string(s: str) -> str:
         raise TypeError(f"Expected a str, got {type(s)}: {s}")
 
     if not global_config.high_compat_mode:
+        if HC_STRING_PATTERN.fullmatch(s) is None:
+            logger.warning(f"Some DLIS viewers accept only uppercase characters, digits, dashes, and underscores "
+                           f"in strings; got {repr(s)}")
         return s
 
     if HC_STRING_PATTERN.fullmatch(s) is None:
-- 
2.43.0


From ebd4292b85c42c8b21b9c56752c8da440ce5d3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:35:02 +0000
Subject: [PATCH 39/39] fix: check also reassigned names, header ids, and set
 identifiers

---
 .../logical_record/core/eflr/eflr_item.py          | 14 +++++++++++++-
 .../logical_record/eflr_types/file_header.py       | 14 +++++++++++++-
 .../logical_record/misc/storage_unit_label.py      | 14 +++++++++++++-
 3 files changed, 39 insertions(+), 3 deletions(-)

diff --git a/src/dliswriter/logical_record/core/eflr/eflr_item.py b/src/dliswriter/logical_record/core/eflr/eflr_item.py
index f12d31b..025e4af 100644
--- a/src/dliswriter/logical_record/core/eflr/eflr_item.py
+++ b/src/dliswriter/logical_record/core/eflr/eflr_item.py
@@ -57,7 +57,7 @@ class EFLRItem:
 
         """
 
-        self.name = validate_string(name)    #: name of the item
+        self.name = name    #: name of the item
 
         self._check_parent(parent)
         self._parent = parent  #: EFLRSet instance this item belongs to
@@ -76,6 +76,18 @@ class EFLRItem:
         # only register the item now that all of its values are known to be correct
         self._parent.register_item(self)
 
+    @property
+    def name(self) -> str:
+        """Name of this EFLRItem."""
+
+        return self._name
+
+    @name.setter
+    def name(self, name: str) -> None:
+        """Set a new name, checking its validity."""
+
+        self._name = validate_string(name)
+
     @property
     def parent(self) -> "EFLRSet":
         """EFLRSet instance that this EFLRItem is a part of."""
diff --git a/src/dliswriter/logical_record/eflr_types/file_header.py b/src/dliswriter/logical_record/eflr_types/file_header.py
index 9151325..0b81278 100644
--- a/src/dliswriter/logical_record/eflr_types/file_header.py
+++ b/src/dliswriter/logical_record/eflr_types/file_header.py
@@ -54,11 +54,23 @@ class FileHeaderItem(EFLRItem):
         if len(identifier) != 1:
             raise ValueError(f"'identifier' should be a single character; got '{identifier}'")
 
-        self.header_id = validate_string(header_id)
+        self.header_id = header_id
         self.sequence_number = sequence_number
 
         super().__init__(name=identifier, parent=parent)
 
+    @property
+    def header_id(self) -> str:
+        """Descriptive identification of the Logical File."""
+
+        return self._header_id
+
+    @header_id.setter
+    def header_id(self, header_id: str) -> None:
+        """Set a new header ID, checking its validity."""
+
+        self._header_id = validate_string(header_id)
+
     def __repr__(self) -> str:
         return (f"{self.__class__.__name__}(header_id={self.header_id}, sequence_number={self.sequence_number}, "
                 f"parent=FileHeaderSet())")
diff --git a/src/dliswriter/logical_record/misc/storage_unit_label.py b/src/dliswriter/logical_record/misc/storage_unit_label.py
index 30f8146..5c9866f 100644
--- a/src/dliswriter/logical_record/misc/storage_unit_label.py
+++ b/src/dliswriter/logical_record/misc/storage_unit_label.py
@@ -39,12 +39,24 @@ class StorageUnitLabel:
         super().__init__()
 
         self.sequence_number = sequence_number
-        self.set_identifier = validate_string(set_identifier)
+        self.set_identifier = set_identifier
         self.max_record_length = max_record_length
 
         if max_record_length > self.max_record_length_limit:
             raise ValueError(f"Max record length cannot be larger than {self.max_record_length_limit}")
 
+    @property
+    def set_identifier(self) -> str:
+        """ID of the storage set."""
+
+        return self._set_identifier
+
+    @set_identifier.setter
+    def set_identifier(self, set_identifier: str) -> None:
+        """Set a new ID of the storage set, checking its validity."""
+
+        self._set_identifier = validate_string(set_identifier)
+
     def __repr__(self) -> str:
         return (f"{self.__class__.__name__}(sequence_number={self.sequence_number}, "
                 f"set_identifier={self.set_identifier}, max_record_length={self.max_record_length})")
-- 
2.43.0

