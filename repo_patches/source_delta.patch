From 4d0ce9bd5679ea3062b263ee7a13fa038bab287e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:42 +0000
Subject: [PATCH 01/75] fix: compute the entry header from the current data

VfbEntry.header was cached, so that an entry which was edited after the Vfb
had been written once was written with its old size the next time.
---
 src/vfbLib/vfb/entry.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/vfbLib/vfb/entry.py b/src/vfbLib/vfb/entry.py
index 661c515..744eeca 100644
--- a/src/vfbLib/vfb/entry.py
+++ b/src/vfbLib/vfb/entry.py
@@ -1,5 +1,4 @@
 import logging
-from functools import cached_property
 from io import BytesIO
 from struct import pack
 from typing import TYPE_CHECKING
@@ -59,7 +58,7 @@ class VfbEntry(StreamReader):
             f"compiler: {self.compiler}>"
         )
 
-    @cached_property
+    @property
     def header(self) -> bytes:
         """The entry header.
 
-- 
2.43.0


From 37a0c3d5d3fa15f2ee702ad46f84762f71fa5a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:49 +0000
Subject: [PATCH 02/75] fix: keep the glyph data when accessing glyphs by name

Making a VfbGlyph from an entry that already has data replaced the data by an
empty glyph, so all glyphs lost their name, outlines, etc. on dict access.
---
 src/vfbLib/vfb/glyph.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vfbLib/vfb/glyph.py b/src/vfbLib/vfb/glyph.py
index bf32f84..c643dc7 100644
--- a/src/vfbLib/vfb/glyph.py
+++ b/src/vfbLib/vfb/glyph.py
@@ -33,7 +33,8 @@ class VfbGlyph:
         self._parent = parent
         self._glyph: UfoMasterGlyph | None = None
         self.master_index = 0
-        self.empty()
+        if self.entry.data is None:
+            self.empty()
 
     # UFO/cu2qu compatibility
 
-- 
2.43.0


From 2166abb68763effdaf4fac594ae1e36860ee5f33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:18 +0000
Subject: [PATCH 03/75] fix: detect the end of the file when reading entries

Reading a VFB without an end marker never ended, because the EOFError that
Vfb.read_stream expects was never raised. A file that ends inside of an entry
was read as if it were complete.
---
 src/vfbLib/vfb/entry.py | 33 +++++++++++++++++++++++----------
 1 file changed, 23 insertions(+), 10 deletions(-)

diff --git a/src/vfbLib/vfb/entry.py b/src/vfbLib/vfb/entry.py
index 744eeca..eeb984c 100644
--- a/src/vfbLib/vfb/entry.py
+++ b/src/vfbLib/vfb/entry.py
@@ -6,7 +6,7 @@ from typing import TYPE_CHECKING
 from vfbLib.compilers.base import BaseCompiler
 from vfbLib.constants import parser_classes
 from vfbLib.enum import F
-from vfbLib.helpers import hexStr, int32_size
+from vfbLib.helpers import hexStr, int16_size, int32_size
 from vfbLib.parsers.base import BaseParser, StreamReader
 from vfbLib.typing import EntryDict
 
@@ -151,17 +151,24 @@ class VfbEntry(StreamReader):
         """
         Read an entry from the stream and return its data size.
         """
-        raw_id = self.read_uint16()
+        start = self.stream.read(int16_size)
+        if not start:
+            # Regular end of the stream
+            raise EOFError
+
+        if len(start) < int16_size:
+            raise ValueError("Unexpected end of file in entry header.")
+
+        raw_id = int.from_bytes(start, byteorder="little", signed=False)
         self.id = raw_id & ~0x8000
 
-        if raw_id & 0x8000:
-            # Uses uint32 for data length
-            num_bytes = self.read_uint32()
-        else:
-            # Uses uint16 for data length
-            num_bytes = self.read_uint16()
+        # Uses uint32 or uint16 for data length
+        num_size = int32_size if raw_id & 0x8000 else int16_size
+        num_bytes = self.stream.read(num_size)
+        if len(num_bytes) < num_size:
+            raise ValueError("Unexpected end of file in entry header.")
 
-        return num_bytes
+        return int.from_bytes(num_bytes, byteorder="little", signed=False)
 
     def as_dict(self, minimize=True) -> EntryDict:
         d = EntryDict(key=str(self.key))
@@ -259,4 +266,10 @@ class VfbEntry(StreamReader):
             # In this case it can be calculated from the number of masters:
             size = 2 * int32_size + self.vfb.num_masters * 2
 
-        self.data = self.stream.read(size)
+        data = self.stream.read(size)
+        if len(data) < size:
+            raise ValueError(
+                f"Unexpected end of file in entry {self.key}: expected {size} bytes, "
+                f"found {len(data)}."
+            )
+        self.data = data
-- 
2.43.0


From b50c739fbc8f8327ea69da9ff5c84d9a2beecbcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:06 +0000
Subject: [PATCH 04/75] fix: report encoded values which are cut off

When the data ended inside of an encoded value, the missing bytes were
treated as 0 (or ignored), and a made-up number was returned.
---
 src/vfbLib/parsers/value.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/vfbLib/parsers/value.py b/src/vfbLib/parsers/value.py
index babc68e..4abe52b 100644
--- a/src/vfbLib/parsers/value.py
+++ b/src/vfbLib/parsers/value.py
@@ -6,6 +6,13 @@ if TYPE_CHECKING:
     from io import BufferedIOBase
 
 
+def _read_exactly(stream: "BufferedIOBase", size: int) -> bytes:
+    data = stream.read(size)
+    if len(data) < size:
+        raise ValueError("Unexpected end of data in encoded value")
+    return data
+
+
 def read_value(stream: "BufferedIOBase", signed=True) -> int:
     """
     Read an encoded value from the stream, decode it to integer and return it.
@@ -24,6 +31,7 @@ def read_value(stream: "BufferedIOBase", signed=True) -> int:
         ValueError: When the byte that was read from the stream is < 0x20.
         ValueError: When the byte that was read from the stream has any other undefined
             value.
+        ValueError: When the stream ends inside of the encoded value.
 
     Returns:
         int: The decoded value.
@@ -41,13 +49,13 @@ def read_value(stream: "BufferedIOBase", signed=True) -> int:
 
     elif val <= 0xFA:
         # 108 to 1131, represented by 2 bytes
-        val2 = int.from_bytes(stream.read(int8_size), byteorder="little")
+        val2 = int.from_bytes(_read_exactly(stream, int8_size), byteorder="little")
         # val - 0x8B + (val - 0xF7) * 0xFF + val2
         return 0x100 * val - 0xF694 + val2
 
     elif val <= 0xFE:
         # -108 to -1131, represented by 2 bytes
-        val2 = int.from_bytes(stream.read(int8_size), byteorder="little")
+        val2 = int.from_bytes(_read_exactly(stream, int8_size), byteorder="little")
         # 0x8F - val - (val - 0xFB) * 0xFF - val2
         return -0x100 * val + 0xFA94 - val2
 
@@ -55,7 +63,7 @@ def read_value(stream: "BufferedIOBase", signed=True) -> int:
         # 32 bit integer follows
         # FIXME: The Type1 spec says that it is always a signed int.
         decoded = int.from_bytes(
-            stream.read(int32_size), byteorder="big", signed=signed
+            _read_exactly(stream, int32_size), byteorder="big", signed=signed
         )
         return decoded
 
-- 
2.43.0


From 56af9a7412e5c6fe24eca2797dd26cdfebf23060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:13 +0000
Subject: [PATCH 05/75] fix: keep all TrueType info option bits, and end at the
 end of the data

Decompiling TrueType info never ended if bit 31 of the flags and options value
was set, or if the data had no end marker. Option bits without a name were
dropped when compiling.
---
 src/vfbLib/compilers/truetype.py |  4 +++-
 src/vfbLib/parsers/truetype.py   | 10 +++++++---
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/vfbLib/compilers/truetype.py b/src/vfbLib/compilers/truetype.py
index d05b29c..b47848d 100644
--- a/src/vfbLib/compilers/truetype.py
+++ b/src/vfbLib/compilers/truetype.py
@@ -26,6 +26,8 @@ def convert_flags_options_to_int(data: "TrueTypeInfoDict") -> int:
         for k, v in tt_settings.items():
             if v in options:
                 option_bits.append(k)
+        # Options without a name are represented by their bit number
+        option_bits.extend(int(v) for v in options if v.isdigit())
 
         value += intListToBinary(option_bits) << 16
     return value
@@ -55,7 +57,7 @@ class TrueTypeInfoCompiler(BaseCompiler):
         # Convert combined flags and options dict back to a single int
         head_flags_options = convert_flags_options_to_int(data)
         self.write_uint8(0x39)
-        self.write_value(head_flags_options)
+        self.write_value(head_flags_options, signed=False)
 
         for k in (
             0x3A,
diff --git a/src/vfbLib/parsers/truetype.py b/src/vfbLib/parsers/truetype.py
index 4d86367..cef8f77 100644
--- a/src/vfbLib/parsers/truetype.py
+++ b/src/vfbLib/parsers/truetype.py
@@ -3,7 +3,7 @@ from struct import unpack
 from typing import TYPE_CHECKING
 
 from vfbLib import tt_settings, ttinfo_names
-from vfbLib.helpers import binaryToIntList
+from vfbLib.helpers import binaryToIntList, int8_size
 from vfbLib.parsers.base import BaseParser
 from vfbLib.typing import (
     TrueTypeInfoDict,
@@ -22,7 +22,7 @@ logger = logging.getLogger(__name__)
 
 def convert_int_to_flags_options(value: int) -> "FlagsOptionsDict":
     flags = binaryToIntList(value & 0xFFFF)
-    options = binaryToIntList(value >> 16)
+    options = binaryToIntList(value >> 16 & 0xFFFF)
     return {
         "flags": flags,
         "options": [tt_settings.get(i, str(i)) for i in options],
@@ -61,7 +61,11 @@ class TrueTypeInfoParser(BaseParser):
         info: TrueTypeInfoDict = TrueTypeInfoDict()
 
         while True:
-            k = self.read_uint8()
+            key = self.stream.read(int8_size)
+            if not key:
+                raise ValueError("Unexpected end of data in TrueType info.")
+
+            k = key[0]
             bk = ttinfo_names.get(k, f"bit{k}")  # dict key, as a bit number
             dk = ttinfo_names.get(k, str(k))  # dict key, human-readable
             hk = ttinfo_names.get(k, hex(k))  # dict key, hex
-- 
2.43.0


From 8b9a0006c335542861c0b58f548e4c0b1351042a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:57 +0000
Subject: [PATCH 06/75] fix: compile MM kern pairs from their decompiled
 structure

The parser returns a dict with the glyph indices and values, but the compiler
expected a list of values, so such an entry could not be written.
---
 src/vfbLib/compilers/fl3.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/compilers/fl3.py b/src/vfbLib/compilers/fl3.py
index 5a42ba4..72e651d 100644
--- a/src/vfbLib/compilers/fl3.py
+++ b/src/vfbLib/compilers/fl3.py
@@ -1,4 +1,5 @@
 import logging
+from typing import Any
 
 from vfbLib.compilers.base import BaseCompiler
 
@@ -6,6 +7,8 @@ logger = logging.getLogger(__name__)
 
 
 class MMKernPairCompiler(BaseCompiler):
-    def _compile(self, data: list[int]) -> None:
-        for value in data:
+    def _compile(self, data: dict[str, Any]) -> None:
+        self.write_uint32(data["l"])
+        self.write_uint32(data["r"])
+        for value in data["values"]:
             self.write_int16(value)
-- 
2.43.0


From ea87a78f20f9c839259e71c4f15fc7eea53252d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:03 +0000
Subject: [PATCH 07/75] fix: compile negative stroke weight and width type of
 the PCLT table

---
 src/vfbLib/compilers/pclt.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/compilers/pclt.py b/src/vfbLib/compilers/pclt.py
index bd037eb..a0e964f 100644
--- a/src/vfbLib/compilers/pclt.py
+++ b/src/vfbLib/compilers/pclt.py
@@ -22,6 +22,6 @@ class PcltCompiler(BaseCompiler):
         for value in data["character_complement"]:
             self.write_uint8(value)
         self.write_str(data["file_name"], 6)
-        self.write_uint8(data["stroke_weight"])
-        self.write_uint8(data["width_type"])
+        self.write_int8(data["stroke_weight"])
+        self.write_int8(data["width_type"])
         self.write_uint8(data["serif_style"])
-- 
2.43.0


From a30cc846b6f782ddc74a8e30336dd3187751b539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:08 +0000
Subject: [PATCH 08/75] fix: round guide angles and instance locations when
 compiling

Truncating the float value changed angles and locations by one unit in many
cases, although they had not been edited.
---
 src/vfbLib/compilers/guides.py | 2 +-
 src/vfbLib/compilers/mm.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/compilers/guides.py b/src/vfbLib/compilers/guides.py
index 4265373..70d8fac 100644
--- a/src/vfbLib/compilers/guides.py
+++ b/src/vfbLib/compilers/guides.py
@@ -17,7 +17,7 @@ class GuidesCompiler(BaseCompiler):
             for guide in dir_guides:
                 for master_index in range(self.vfb.num_masters):
                     self.write_value(guide[master_index]["pos"])
-                    angle = int(tan(radians(guide[master_index]["angle"])) * 10000)
+                    angle = round(tan(radians(guide[master_index]["angle"])) * 10000)
                     self.write_value(angle)
 
 
diff --git a/src/vfbLib/compilers/mm.py b/src/vfbLib/compilers/mm.py
index cfa3611..fae8102 100644
--- a/src/vfbLib/compilers/mm.py
+++ b/src/vfbLib/compilers/mm.py
@@ -42,4 +42,4 @@ class PrimaryInstancesCompiler(BaseCompiler):
             name = instance["name"]
             self.write_str_with_len(name)
             for value in instance["values"]:
-                self.write_value(int(10000 * value))
+                self.write_value(round(10000 * value))
-- 
2.43.0


From d3ba92cffdc5bbe8a6d98c58bfde28fabc8e7a38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:15 +0000
Subject: [PATCH 09/75] fix: invert bitmap bytes of Windows files within the
 byte range

Compiling any bitmap of a Windows VFB failed with an OverflowError.
---
 src/vfbLib/compilers/bitmap.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vfbLib/compilers/bitmap.py b/src/vfbLib/compilers/bitmap.py
index a7b4fd0..a20f1f1 100644
--- a/src/vfbLib/compilers/bitmap.py
+++ b/src/vfbLib/compilers/bitmap.py
@@ -69,7 +69,7 @@ class BaseBitmapCompiler(BaseCompiler):
         # For the "windows" platform, the bitmap must be inverted.
         data = bitmap["data"]
         if self.vfb is not None and self.vfb.writer_platform == "windows":
-            data = [[~b - 0x100 for b in row] for row in data]
+            data = [[~b + 0x100 for b in row] for row in data]
 
         encoded = self._encode_bitmap(data)
         num_values = len(list(chain.from_iterable(encoded)))
-- 
2.43.0


From 740e137c67891d5cb6af5dfa861d20bff2752a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:48 +0000
Subject: [PATCH 10/75] fix: compile entries with an unknown ID

Such entries are decompiled to a hex string by the fallback parser, but there
was no fallback compiler, so that a decompiled VFB could not be written.
---
 src/vfbLib/vfb/entry.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vfbLib/vfb/entry.py b/src/vfbLib/vfb/entry.py
index eeb984c..ba16165 100644
--- a/src/vfbLib/vfb/entry.py
+++ b/src/vfbLib/vfb/entry.py
@@ -3,7 +3,7 @@ from io import BytesIO
 from struct import pack
 from typing import TYPE_CHECKING
 
-from vfbLib.compilers.base import BaseCompiler
+from vfbLib.compilers.base import BaseCompiler, HexStringCompiler
 from vfbLib.constants import parser_classes
 from vfbLib.enum import F
 from vfbLib.helpers import hexStr, int16_size, int32_size
@@ -21,6 +21,7 @@ logger = logging.getLogger(__name__)
 
 
 FALLBACK_PARSER = BaseParser
+FALLBACK_COMPILER = HexStringCompiler
 
 
 class VfbEntry(StreamReader):
@@ -142,6 +143,7 @@ class VfbEntry(StreamReader):
                     f"Falling back to parser {FALLBACK_PARSER} for ID {self._id}"
                 )
                 self.parser = FALLBACK_PARSER
+                self.compiler = FALLBACK_COMPILER
             else:
                 self.key, self.parser, self.compiler = entry_info
                 if self.parser is not None:
-- 
2.43.0


From cca4647140a1802652d4aa8cdfe1f63c0a930628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:54 +0000
Subject: [PATCH 11/75] fix: compile options and mapping modes without a name

Unnamed bits, options and modes are kept by the parsers as numbers, but made
the compilers fail.
---
 src/vfbLib/compilers/base.py    | 4 +++-
 src/vfbLib/compilers/options.py | 9 +++++----
 2 files changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/vfbLib/compilers/base.py b/src/vfbLib/compilers/base.py
index 72c0fa9..4e760d7 100644
--- a/src/vfbLib/compilers/base.py
+++ b/src/vfbLib/compilers/base.py
@@ -271,7 +271,9 @@ class MappingModeCompiler(BaseCompiler):
     def _compile(self, data: "MappingModeDict") -> None:
         rev_map = {v: k for k, v in mapping_modes.items()}
         self.write_uint8(1)
-        self.write_value(rev_map[data["mapping_mode"]])
+        mode = data["mapping_mode"]
+        # Modes without a name are represented by their number
+        self.write_value(rev_map[mode] if mode in rev_map else int(mode))
         self.write_uint8(2)
         self.write_value(data["m2"])
         self.write_uint8(3)
diff --git a/src/vfbLib/compilers/options.py b/src/vfbLib/compilers/options.py
index 0f6c7cf..cc71d97 100644
--- a/src/vfbLib/compilers/options.py
+++ b/src/vfbLib/compilers/options.py
@@ -9,9 +9,10 @@ if TYPE_CHECKING:
 
 
 class ExportOptionsCompiler(BaseCompiler):
-    def _compile(self, data: list[str]) -> None:
+    def _compile(self, data: list[str | int]) -> None:
         rev = {v: k for k, v in export_options.items()}
-        options = [rev[k] for k in data]
+        # Options without a name are represented by their bit number
+        options = [rev.get(k, k) for k in data]
         self.write_uint16(intListToBinary(options))
 
 
@@ -19,8 +20,8 @@ class FontOptionsCompiler(BaseCompiler):
     def _compile(self, data: "FontOptionsDict") -> None:
         rev = {v: k for k, v in font_options.items()}
         for k, v in data.items():
-            raw_key = rev.get(k)
-            assert raw_key is not None
+            # Options without a name are represented by their number
+            raw_key = rev[k] if k in rev else int(k)
             match k:
                 case "auto_hinting_h_ratio" | "auto_hinting_v_ratio":
                     assert isinstance(v, float)
-- 
2.43.0


From 3f56dae0292ec9ecf7021b6586a54c9863cd9cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:01 +0000
Subject: [PATCH 12/75] fix: compile anchor properties and class flags as
 signed values

The parsers read those values as signed, and compiling a value less than -1131
failed.
---
 src/vfbLib/compilers/base.py  | 10 +++++-----
 src/vfbLib/compilers/glyph.py |  4 ++--
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/vfbLib/compilers/base.py b/src/vfbLib/compilers/base.py
index 4e760d7..c5b1900 100644
--- a/src/vfbLib/compilers/base.py
+++ b/src/vfbLib/compilers/base.py
@@ -289,8 +289,8 @@ class OpenTypeKerningClassFlagsCompiler(BaseCompiler):
         for name, flags in data.items():
             self.write_str_with_len(name)
             flag1, flag2 = flags
-            self.write_value(flag1, signed=False)
-            self.write_value(flag2, signed=False)
+            self.write_value(flag1)
+            self.write_value(flag2)
 
 
 class OpenTypeMetricsClassFlagsCompiler(BaseCompiler):
@@ -299,6 +299,6 @@ class OpenTypeMetricsClassFlagsCompiler(BaseCompiler):
         for name, flags in data.items():
             self.write_str_with_len(name)
             flag1, flag2, flag3 = flags
-            self.write_value(flag1, signed=False)
-            self.write_value(flag2, signed=False)
-            self.write_value(flag3, signed=False)
+            self.write_value(flag1)
+            self.write_value(flag2)
+            self.write_value(flag3)
diff --git a/src/vfbLib/compilers/glyph.py b/src/vfbLib/compilers/glyph.py
index 3ce4376..df9ce46 100644
--- a/src/vfbLib/compilers/glyph.py
+++ b/src/vfbLib/compilers/glyph.py
@@ -40,8 +40,8 @@ class GlyphAnchorsSuppCompiler(BaseCompiler):
     def _compile(self, data: "list[AnchorPropertiesDict]") -> None:
         self.write_value(len(data), signed=False)
         for anchor in data:
-            self.write_value(anchor.get("hue", 0), signed=False)
-            self.write_value(anchor.get("data", 0), signed=False)
+            self.write_value(anchor.get("hue", 0))
+            self.write_value(anchor.get("data", 0))
 
 
 class GlyphGDEFCompiler(BaseCompiler):
-- 
2.43.0


From 57af0481445eee454d7872d751a1d2255cf1bb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:36 +0000
Subject: [PATCH 13/75] fix: decompile OpenType features which only consist of
 empty lines

---
 src/vfbLib/parsers/text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vfbLib/parsers/text.py b/src/vfbLib/parsers/text.py
index f5c809b..018367a 100644
--- a/src/vfbLib/parsers/text.py
+++ b/src/vfbLib/parsers/text.py
@@ -101,7 +101,7 @@ class OpenTypeStringParser(BaseParser):
 
         if len(lines) > 1:
             # Remove empty lines at the end, except one
-            while not lines[-1]:
+            while lines and not lines[-1]:
                 lines.pop()
         lines.append("")
         return lines
-- 
2.43.0


From bd3e204cd1c53fe542c8982725a7224569bbd1d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:42 +0000
Subject: [PATCH 14/75] fix: decompile Mac name records with codes larger than
 a byte

Such codes raised an OverflowError, instead of being replaced like any other
code that can't be decoded.
---
 src/vfbLib/parsers/text.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vfbLib/parsers/text.py b/src/vfbLib/parsers/text.py
index 018367a..a283ace 100644
--- a/src/vfbLib/parsers/text.py
+++ b/src/vfbLib/parsers/text.py
@@ -23,7 +23,7 @@ class NameRecordsParser(BaseParser):
                     if platID == 1 and encID == 0:
                         # TODO: Remove default arguments when Python < 3.11 is dropped
                         char = c.to_bytes(length=1, byteorder="big").decode("macroman")
-                except ValueError:
+                except (OverflowError, ValueError):
                     char = "\ufeff"
                 name += char
             result.append((nameID, platID, encID, langID, name))
-- 
2.43.0


From be36b26e3eb6954483a72bc29bf9de534e6935c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:50 +0000
Subject: [PATCH 15/75] fix: keep the existing file when a VFB can't be
 compiled

Vfb.write truncated the output file before compiling the entries. If an entry
could not be compiled, the file was lost.
---
 src/vfbLib/vfb/vfb.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/vfbLib/vfb/vfb.py b/src/vfbLib/vfb/vfb.py
index 7166493..369011c 100644
--- a/src/vfbLib/vfb/vfb.py
+++ b/src/vfbLib/vfb/vfb.py
@@ -1,5 +1,6 @@
 import logging
 from collections.abc import Iterable
+from io import BytesIO
 from pathlib import Path
 from time import time
 from typing import TYPE_CHECKING, Any
@@ -316,8 +317,12 @@ class Vfb:
         """
         Compile any entries with changes, and write the VFB to out_path.
         """
+        # Compile before opening the file, so that a failing compilation doesn't destroy
+        # an existing file
+        buffer = BytesIO()
+        self.write_bytes(buffer)
         with open(out_path, "wb") as vfb:
-            self.write_bytes(vfb)
+            vfb.write(buffer.getvalue())
 
     def write_bytes(self, buffer: "BufferedIOBase") -> None:
         """
-- 
2.43.0


From 12b13e5f4c81c52fcd0a25c63ba543f9786e420e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:57 +0000
Subject: [PATCH 16/75] fix: clear all data that belongs to the previously read
 file

Reading another file into a Vfb kept the glyphs, the glyph order, the number
of masters, etc. of the file that had been read before.
---
 src/vfbLib/vfb/vfb.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/vfbLib/vfb/vfb.py b/src/vfbLib/vfb/vfb.py
index 369011c..ed62e46 100644
--- a/src/vfbLib/vfb/vfb.py
+++ b/src/vfbLib/vfb/vfb.py
@@ -139,6 +139,16 @@ class Vfb:
         """
         self.header = VfbHeader()
         self.entries = []
+        self._glyphs = {}
+        self.glyph_order = []
+        self.info = VfbInfo(vfb=self)
+        self.encoding = "utf-8"
+        self.num_masters = 0
+        self.ttStemsV_count = 0
+        self.ttStemsH_count = 0
+        self.writer_platform = "macos"
+        self.ps_hinting_options = None
+        self.any_errors = False
 
     def compile(self) -> None:
         """
-- 
2.43.0


From fc7d104aeac043f1b14284434b4c552bee78561c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:21 +0000
Subject: [PATCH 17/75] fix: merge drawn masters only once

The additional masters data was kept after merging, and overwrote later edits
when the entry was compiled again.
---
 src/vfbLib/vfb/entry.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vfbLib/vfb/entry.py b/src/vfbLib/vfb/entry.py
index ba16165..3453220 100644
--- a/src/vfbLib/vfb/entry.py
+++ b/src/vfbLib/vfb/entry.py
@@ -254,6 +254,7 @@ class VfbEntry(StreamReader):
             return
 
         self.compiler.merge(self.temp_masters, self.data)
+        self.temp_masters = None
 
     def read(self, stream: "BufferedIOBase") -> None:
         """
-- 
2.43.0


From ae78cd14a8075befd43d4235a11f44bcf67d790d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:27 +0000
Subject: [PATCH 18/75] fix: draw into additional masters without clearing them
 first

The pen made a list with a single empty list instead of one dict per master,
so that drawing into any other master than the first raised an IndexError.
---
 src/vfbLib/vfb/pens.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vfbLib/vfb/pens.py b/src/vfbLib/vfb/pens.py
index b49f17a..dd17bb7 100644
--- a/src/vfbLib/vfb/pens.py
+++ b/src/vfbLib/vfb/pens.py
@@ -27,7 +27,9 @@ class VfbGlyphPointPen(AbstractPointPen):
             self.target = self.glyph.entry.data
         else:
             if self.glyph.entry.temp_masters is None:
-                self.glyph.entry.temp_masters = [[] * self.glyphSet.num_masters]
+                self.glyph.entry.temp_masters = [
+                    {} for _ in range(self.glyphSet.num_masters)
+                ]
             self.target = self.glyph.entry.temp_masters[self.glyph.master_index]
 
     def beginPath(
-- 
2.43.0


From 258130915de4c11281f215923269b6f3e698d4d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:24 +0000
Subject: [PATCH 19/75] fix: draw the current outlines of edited glyphs

Glyph.drawPoints kept using the outlines from its first call.
---
 src/vfbLib/vfb/glyph.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/vfbLib/vfb/glyph.py b/src/vfbLib/vfb/glyph.py
index c643dc7..be144ba 100644
--- a/src/vfbLib/vfb/glyph.py
+++ b/src/vfbLib/vfb/glyph.py
@@ -274,8 +274,8 @@ class VfbGlyph:
         if self.entry.data is None:
             raise ValueError
 
-        if self._glyph is None:
-            self._copy_to_ufo_glyph()
+        # Always make a new copy, the outlines may have been edited since the last call
+        self._copy_to_ufo_glyph()
 
         if self._glyph is None:
             raise ValueError
@@ -439,8 +439,8 @@ class VfbGlyphMaster:
         if self.entry.data is None:
             raise ValueError
 
-        if self._glyph is None:
-            self._copy_to_ufo_glyph(self.master_index)
+        # Always make a new copy, the outlines may have been edited since the last call
+        self._copy_to_ufo_glyph(self.master_index)
 
         if self._glyph is None:
             raise ValueError
-- 
2.43.0


From a4ea1ee058559adf501753a9c8472e841390f6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:30 +0000
Subject: [PATCH 20/75] fix: draw the last curve of TrueType paths ending in
 off-curve points

Glyph.draw connected the off-curve points at the end of a path to the start of
the next path, or dropped them in the last path.
---
 src/vfbLib/vfb/glyph.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/vfbLib/vfb/glyph.py b/src/vfbLib/vfb/glyph.py
index be144ba..dc98551 100644
--- a/src/vfbLib/vfb/glyph.py
+++ b/src/vfbLib/vfb/glyph.py
@@ -210,6 +210,7 @@ class VfbGlyph:
         in_path = False
         in_qcurve = False
         qcurve = []
+        start_pt = None
 
         for n in glyph.get("nodes", []):
             node_type = n.get("type")
@@ -217,7 +218,8 @@ class VfbGlyph:
             pt = n["points"][self.master_index][0]
             if node_type == "move":
                 if in_qcurve:
-                    qcurve.append(pt)
+                    # The last curve of the previous path ends at its start point
+                    qcurve.append(start_pt)
                     pen.qCurveTo(*qcurve)
                 if in_path:
                     if path_is_open:
@@ -228,6 +230,7 @@ class VfbGlyph:
                 in_qcurve = False
                 qcurve = []
                 pen.moveTo(pt)
+                start_pt = pt
                 in_path = True
                 path_is_open = bool(flags & 8)
 
@@ -249,6 +252,9 @@ class VfbGlyph:
                 qcurve.append(pt)
             else:
                 raise ValueError(f"Unknown node type: '{node_type}'")
+        if in_qcurve:
+            qcurve.append(start_pt)
+            pen.qCurveTo(*qcurve)
         if in_path:
             if path_is_open:
                 pen.endPath()
-- 
2.43.0


From 7cb63932f0af208be6f365b8c874eabb32796265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:37 +0000
Subject: [PATCH 21/75] fix: return the name of decompiled glyphs

The name was None if it was accessed before drawing the glyph, even later.
---
 src/vfbLib/vfb/glyph.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/vfbLib/vfb/glyph.py b/src/vfbLib/vfb/glyph.py
index dc98551..13bd63f 100644
--- a/src/vfbLib/vfb/glyph.py
+++ b/src/vfbLib/vfb/glyph.py
@@ -1,5 +1,4 @@
 import logging
-from functools import cached_property
 from typing import TYPE_CHECKING
 
 from fontTools.pens.pointPen import AbstractPointPen, SegmentToPointPen
@@ -51,12 +50,12 @@ class VfbGlyph:
         node_types = [node["type"] for node in self.entry.data["nodes"]]
         return node_types.count("move")
 
-    @cached_property
+    @property
     def name(self) -> str | None:
-        if self._glyph is None:
+        if not isinstance(self.entry.data, dict):
             return None
 
-        return self._glyph.name
+        return self.entry.data.get("name")
 
     def clearContours(self):
         try:
@@ -385,12 +384,12 @@ class VfbGlyphMaster:
         node_types = [node["type"] for node in self.entry.data["nodes"]]
         return node_types.count("move")
 
-    @cached_property
+    @property
     def name(self) -> str | None:
-        if self._glyph is None:
+        if not isinstance(self.entry.data, dict):
             return None
 
-        return self._glyph.name
+        return self.entry.data.get("name")
 
     def _copy_to_ufo_glyph(self, master_index):
         """
-- 
2.43.0


From 9d6de4072d6603b16025dfb4502df5e8736d2a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:14 +0000
Subject: [PATCH 22/75] fix: read and write strings with bytes not defined in
 Windows-1252

Five byte values are not defined in Windows-1252, but may appear in the UTF-8
strings of files written on a Mac. A single such byte made it impossible to
decompile the VFB.
---
 src/vfbLib/compilers/base.py     | 13 ++++++++++---
 src/vfbLib/compilers/glyph.py    |  3 ++-
 src/vfbLib/compilers/truetype.py |  4 ++--
 src/vfbLib/helpers.py            | 21 +++++++++++++++++++++
 src/vfbLib/parsers/base.py       |  7 ++++---
 src/vfbLib/parsers/truetype.py   |  2 +-
 6 files changed, 40 insertions(+), 10 deletions(-)

diff --git a/src/vfbLib/compilers/base.py b/src/vfbLib/compilers/base.py
index c5b1900..82c3ed8 100644
--- a/src/vfbLib/compilers/base.py
+++ b/src/vfbLib/compilers/base.py
@@ -3,7 +3,14 @@ from struct import pack
 from typing import TYPE_CHECKING
 
 from vfbLib.compilers.value import write_value, write_value_long
-from vfbLib.helpers import deHexStr, hexStr, int8_size, int16_size, int32_size
+from vfbLib.helpers import (
+    KEEP_UNDEFINED,
+    deHexStr,
+    hexStr,
+    int8_size,
+    int16_size,
+    int32_size,
+)
 
 if TYPE_CHECKING:
     from io import BufferedIOBase
@@ -98,7 +105,7 @@ class StreamWriter:
         """
         if value is None:
             value = ""
-        enc = value.encode(self.encoding)
+        enc = value.encode(self.encoding, KEEP_UNDEFINED)
         if len(enc) < pad:
             enc += b"\00" * (pad - len(enc))
         self.stream.write(enc)
@@ -113,7 +120,7 @@ class StreamWriter:
         """
         if value is None:
             value = ""
-        enc = value.encode(self.encoding)
+        enc = value.encode(self.encoding, KEEP_UNDEFINED)
         self.write_value(len(enc))
         self.stream.write(enc)
 
diff --git a/src/vfbLib/compilers/glyph.py b/src/vfbLib/compilers/glyph.py
index df9ce46..049ca68 100644
--- a/src/vfbLib/compilers/glyph.py
+++ b/src/vfbLib/compilers/glyph.py
@@ -8,6 +8,7 @@ from fontTools.ttLib.tables.ttProgram import Program
 from vfbLib import DIRECTIONS, GLYPH_CONSTANT, gdef_class_names
 from vfbLib.compilers.base import BaseCompiler, StreamWriter
 from vfbLib.compilers.guides import GuidesCompiler
+from vfbLib.helpers import KEEP_UNDEFINED
 from vfbLib.parsers.glyph import PathCommand
 from vfbLib.truetype import TT_COMMAND_CONSTANTS, TT_COMMANDS
 
@@ -203,7 +204,7 @@ class GlyphCompiler(BaseCompiler):
         if not (name := data.get("name")):
             return
 
-        glyph_name = name.encode("cp1252")
+        glyph_name = name.encode("cp1252", KEEP_UNDEFINED)
         glyph_name_length = len(glyph_name)
         self.write_uint8(1)
         self.write_value(glyph_name_length)
diff --git a/src/vfbLib/compilers/truetype.py b/src/vfbLib/compilers/truetype.py
index b47848d..6820f0b 100644
--- a/src/vfbLib/compilers/truetype.py
+++ b/src/vfbLib/compilers/truetype.py
@@ -2,7 +2,7 @@ from typing import TYPE_CHECKING, Any
 
 from vfbLib import tt_settings, ttinfo_names
 from vfbLib.compilers.base import BaseCompiler
-from vfbLib.helpers import intListToBinary
+from vfbLib.helpers import KEEP_UNDEFINED, intListToBinary
 
 if TYPE_CHECKING:
     from vfbLib.typing import (
@@ -153,7 +153,7 @@ class TrueTypeStemsCompiler(BaseCompiler):
             self.write_value(len(stems))
             for stem in stems:
                 self.write_value(stem["value"])  # width
-                stem_name = stem["name"].encode(self.encoding)
+                stem_name = stem["name"].encode(self.encoding, KEEP_UNDEFINED)
                 self.write_uint8(len(stem_name))
                 self.write_bytes(stem_name)
                 self.write_value(stem["round"][6])
diff --git a/src/vfbLib/helpers.py b/src/vfbLib/helpers.py
index cc4f364..c2c9b6b 100644
--- a/src/vfbLib/helpers.py
+++ b/src/vfbLib/helpers.py
@@ -1,3 +1,4 @@
+import codecs
 from typing import TYPE_CHECKING
 
 if TYPE_CHECKING:
@@ -34,3 +35,23 @@ def deHexStr(hexstr: str) -> bytes:
 
 def hexStr(b: bytes) -> str:
     return bytes.hex(b)
+
+
+def _keep_undefined(error: UnicodeError) -> "tuple[str | bytes, int]":
+    """
+    Codec error handler that maps the bytes which are not defined in Windows-1252 (0x81,
+    0x8d, 0x8f, 0x90, 0x9d) to the C1 control characters of the same number, and back.
+    Such bytes are part of UTF-8 strings which are read as Windows-1252.
+    """
+    if isinstance(error, UnicodeDecodeError):
+        return error.object[error.start : error.end].decode("latin-1"), error.end
+    if isinstance(error, UnicodeEncodeError):
+        chars = error.object[error.start : error.end]
+        if all(c in "\x81\x8d\x8f\x90\x9d" for c in chars):
+            return chars.encode("latin-1"), error.end
+    raise error
+
+
+# The error handler must be used for decoding and encoding of any 8-bit strings
+KEEP_UNDEFINED = "vfbLib.keep_undefined"
+codecs.register_error(KEEP_UNDEFINED, _keep_undefined)
diff --git a/src/vfbLib/parsers/base.py b/src/vfbLib/parsers/base.py
index 7586723..371a4b5 100644
--- a/src/vfbLib/parsers/base.py
+++ b/src/vfbLib/parsers/base.py
@@ -5,6 +5,7 @@ from typing import TYPE_CHECKING, Any
 
 from vfbLib import mapping_modes
 from vfbLib.helpers import (
+    KEEP_UNDEFINED,
     deHexStr,
     double_size,
     hexStr,
@@ -104,7 +105,7 @@ class StreamReader:
         """
         if size == 0:
             return ""
-        return self.stream.read(size).decode(self.encoding)
+        return self.stream.read(size).decode(self.encoding, KEEP_UNDEFINED)
 
     def read_str_with_len(self) -> str:
         """
@@ -125,7 +126,7 @@ class StreamReader:
         Returns:
             str: The string
         """
-        return self.stream.read().decode(self.encoding)
+        return self.stream.read().decode(self.encoding, KEEP_UNDEFINED)
 
     def read_uint8(self) -> int:
         """
@@ -329,7 +330,7 @@ class EncodedValueListWithCountParser(BaseParser):
 class GlyphEncodingParser(BaseParser):
     def _parse(self) -> tuple[int, str]:
         gid = self.read_uint16()
-        nam = self.stream.read().decode("cp1252")
+        nam = self.stream.read().decode("cp1252", KEEP_UNDEFINED)
         return gid, nam
 
 
diff --git a/src/vfbLib/parsers/truetype.py b/src/vfbLib/parsers/truetype.py
index cef8f77..45a2a65 100644
--- a/src/vfbLib/parsers/truetype.py
+++ b/src/vfbLib/parsers/truetype.py
@@ -169,7 +169,7 @@ class TrueTypeStemsParser(BaseParser):
             for _ in range(num_stems):
                 width = self.read_value()
                 stem_name_length = self.read_uint8()
-                stem_name = self.stream.read(stem_name_length).decode(self.encoding)
+                stem_name = self.read_str(stem_name_length)
                 ppm6 = self.read_value()
 
                 direction.append(
-- 
2.43.0


From fb7af89e4f7f0fc1a8a013569a810076c2b7f420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:52 +0000
Subject: [PATCH 23/75] fix: decompile glyphs with guides, but without a name

The name was only used in an error message.
---
 src/vfbLib/parsers/glyph.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/parsers/glyph.py b/src/vfbLib/parsers/glyph.py
index 89d9c3d..9bca2a6 100644
--- a/src/vfbLib/parsers/glyph.py
+++ b/src/vfbLib/parsers/glyph.py
@@ -170,7 +170,6 @@ class GlyphParser(BaseParser):
                     # Glyph name
                     glyph_name = self.read_str_with_len()
                     self.glyphdata["name"] = glyph_name
-                    self.name = self.glyphdata["name"]
 
                 case 0x02:
                     # Metrics
@@ -221,7 +220,8 @@ class GlyphParser(BaseParser):
 
     def parse_guides(self) -> None:
         # Guidelines
-        guides = parse_guides(self.stream, self.num_masters, f"glyph '{self.name}'")
+        name = self.glyphdata.get("name", "")
+        guides = parse_guides(self.stream, self.num_masters, f"glyph '{name}'")
         if guides:
             self.glyphdata["guides"] = guides
 
-- 
2.43.0


From 4a2a2c952456d772fcacaa23bc78d94dee93c9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:01 +0000
Subject: [PATCH 24/75] fix: decompile bitmaps without any columns

Splitting the data into rows failed for a width of 0.
---
 src/vfbLib/parsers/bitmap.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/vfbLib/parsers/bitmap.py b/src/vfbLib/parsers/bitmap.py
index fa97f89..36078a6 100644
--- a/src/vfbLib/parsers/bitmap.py
+++ b/src/vfbLib/parsers/bitmap.py
@@ -66,7 +66,8 @@ class BaseBitmapParser(BaseParser):
             data = [~b + 0x100 for b in data]
 
         # Split list into rows
-        bytes_per_row = ((w + 15) // 16) * 2
+        # (A bitmap without any columns has got no rows either.)
+        bytes_per_row = ((w + 15) // 16) * 2 or 1
         # fmt:off
         nice = [
             data[j : j + bytes_per_row]  # noqa: E203
-- 
2.43.0


From 827c7a1e7000ba0759c65aeac2816868871f14f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:12 +0000
Subject: [PATCH 25/75] fix: compile block markers that contain a string

Block Names End and Block Font Info Start are decompiled to a string, but were
compiled from a hex string.
---
 src/vfbLib/constants.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/constants.py b/src/vfbLib/constants.py
index 1281a67..e817072 100644
--- a/src/vfbLib/constants.py
+++ b/src/vfbLib/constants.py
@@ -150,8 +150,8 @@ parser_classes = {
     F.EncodingDefault: ("Encoding Default", GlyphEncodingParser, GlyphEncodingCompiler),
     F.Encoding: ("Encoding", GlyphEncodingParser, GlyphEncodingCompiler),
     F.MMEncType: ("MM Encoding Type", Int16Parser, Int16Compiler),
-    F.BlockNamesEnd: ("Block Names End", StringParser, HexStringCompiler),
-    F.BlockFontInfoStart: ("Block Font Info Start", StringParser, HexStringCompiler),
+    F.BlockNamesEnd: ("Block Names End", StringParser, StringCompiler),
+    F.BlockFontInfoStart: ("Block Font Info Start", StringParser, StringCompiler),
     F.font_name: ("font_name", StringParser, StringCompiler),
     F.MasterCount: ("Master Count", Int16Parser, Int16Compiler),
     F.weight_vector: ("weight_vector", DoubleListParser, DoubleListCompiler),
-- 
2.43.0


From 25ab30b03dde589f110df713da18275d25c50154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:38 +0000
Subject: [PATCH 26/75] fix: report data which is cut off when decompiling

Fixed-size values and strings at the end of cut off data were decompiled to
zero or shortened, and damaged counts could keep reading zeros from the end of
the data.
---
 src/vfbLib/parsers/base.py  | 20 +++++++++++++-------
 src/vfbLib/parsers/glyph.py |  2 +-
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/vfbLib/parsers/base.py b/src/vfbLib/parsers/base.py
index 371a4b5..49ac54e 100644
--- a/src/vfbLib/parsers/base.py
+++ b/src/vfbLib/parsers/base.py
@@ -38,6 +38,12 @@ class StreamReader:
         self.encoding = "cp1252"
         self.stream: "BufferedIOBase" = BytesIO()
 
+    def _read_exactly(self, size: int) -> bytes:
+        data = self.stream.read(size)
+        if len(data) < size:
+            raise ValueError("Unexpected end of data")
+        return data
+
     def read_double(self) -> float:
         """
         Return a double-precision float from the stream.
@@ -67,7 +73,7 @@ class StreamReader:
             int: The integer
         """
         return int.from_bytes(
-            self.stream.read(int8_size), byteorder="little", signed=True
+            self._read_exactly(int8_size), byteorder="little", signed=True
         )
 
     def read_int16(self) -> int:
@@ -78,7 +84,7 @@ class StreamReader:
             int: The integer
         """
         return int.from_bytes(
-            self.stream.read(int16_size), byteorder="little", signed=True
+            self._read_exactly(int16_size), byteorder="little", signed=True
         )
 
     def read_int32(self) -> int:
@@ -89,7 +95,7 @@ class StreamReader:
             int: The integer
         """
         return int.from_bytes(
-            self.stream.read(int32_size), byteorder="little", signed=True
+            self._read_exactly(int32_size), byteorder="little", signed=True
         )
 
     def read_str(self, size: int) -> str:
@@ -105,7 +111,7 @@ class StreamReader:
         """
         if size == 0:
             return ""
-        return self.stream.read(size).decode(self.encoding, KEEP_UNDEFINED)
+        return self._read_exactly(size).decode(self.encoding, KEEP_UNDEFINED)
 
     def read_str_with_len(self) -> str:
         """
@@ -136,7 +142,7 @@ class StreamReader:
             int: The integer
         """
         return int.from_bytes(
-            self.stream.read(int8_size), byteorder="little", signed=False
+            self._read_exactly(int8_size), byteorder="little", signed=False
         )
 
     def read_uint16(self) -> int:
@@ -147,7 +153,7 @@ class StreamReader:
             int: The integer
         """
         return int.from_bytes(
-            self.stream.read(int16_size), byteorder="little", signed=False
+            self._read_exactly(int16_size), byteorder="little", signed=False
         )
 
     def read_uint32(self) -> int:
@@ -158,7 +164,7 @@ class StreamReader:
             int: The integer
         """
         return int.from_bytes(
-            self.stream.read(int32_size), byteorder="little", signed=False
+            self._read_exactly(int32_size), byteorder="little", signed=False
         )
 
     def read_value(self, signed: bool = True) -> int:
diff --git a/src/vfbLib/parsers/glyph.py b/src/vfbLib/parsers/glyph.py
index 9bca2a6..76a039b 100644
--- a/src/vfbLib/parsers/glyph.py
+++ b/src/vfbLib/parsers/glyph.py
@@ -281,7 +281,7 @@ class GlyphParser(BaseParser):
                 case 0x2B:
                     # Instructions
                     num_bytes = self.read_value(signed=False)
-                    instructions = self.stream.read(num_bytes)
+                    instructions = self._read_exactly(num_bytes)
                     p = Program()
                     p.fromBytecode(instructions)
                     imported["instructions"] = p.getAssembly()
-- 
2.43.0


From d818f7dd44aa56d0989588a90c2a0c716b68a9ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:46 +0000
Subject: [PATCH 27/75] fix: refuse damaged master counts and guideline colors

A damaged count of masters or guides made decompiling allocate or loop over
billions of elements. Colors with more than 24 bits were converted to a
different color.
---
 src/vfbLib/__init__.py       | 3 +++
 src/vfbLib/parsers/glyph.py  | 6 +++++-
 src/vfbLib/parsers/guides.py | 5 ++++-
 3 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/__init__.py b/src/vfbLib/__init__.py
index eebc206..2c79015 100644
--- a/src/vfbLib/__init__.py
+++ b/src/vfbLib/__init__.py
@@ -5,6 +5,9 @@ from typing import Literal
 # Used by guides and links
 DIRECTIONS: Sequence[Literal["h", "v"]] = ("h", "v")
 
+# FontLab supports up to 4 axes, i.e. up to 16 masters
+MAX_MASTERS = 16
+
 GLYPH_CONSTANT = (1, 9, 7, 1)
 
 export_options = {
diff --git a/src/vfbLib/parsers/glyph.py b/src/vfbLib/parsers/glyph.py
index 76a039b..3937bb5 100644
--- a/src/vfbLib/parsers/glyph.py
+++ b/src/vfbLib/parsers/glyph.py
@@ -5,7 +5,7 @@ from typing import TYPE_CHECKING, Any
 
 from fontTools.ttLib.tables.ttProgram import Program
 
-from vfbLib import DIRECTIONS, gdef_class_names, replace_types
+from vfbLib import DIRECTIONS, MAX_MASTERS, gdef_class_names, replace_types
 from vfbLib.helpers import hexStr
 from vfbLib.parsers.base import BaseParser
 from vfbLib.parsers.guides import parse_guides
@@ -65,6 +65,8 @@ class GlyphAnchorsParser(BaseParser):
         anchors = []
         num_anchors = self.read_value()
         num_masters = self.read_value()
+        if not 1 <= num_masters <= MAX_MASTERS:
+            raise ValueError(f"Unsupported number of masters: {num_masters}")
         for _ in range(num_anchors):
             anchor = MMAnchorDict(x=[], y=[])
             for _ in range(num_masters):
@@ -378,6 +380,8 @@ class GlyphParser(BaseParser):
     def parse_outlines(self, target: GlyphData | MaskData) -> int:
         # Nodes
         num_masters = self.read_value(signed=False)
+        if not 1 <= num_masters <= MAX_MASTERS:
+            raise ValueError(f"Unsupported number of masters: {num_masters}")
         target["num_masters"] = num_masters
 
         # 2 x the number of values to be read after num_nodes, the reason is unclear.
diff --git a/src/vfbLib/parsers/guides.py b/src/vfbLib/parsers/guides.py
index dadfb68..87a0754 100644
--- a/src/vfbLib/parsers/guides.py
+++ b/src/vfbLib/parsers/guides.py
@@ -39,8 +39,8 @@ def parse_guides(stream: "BytesIO", num_masters: int, name: str) -> "MMGuidesDic
         if num_guides == 0:
             continue
 
-        guides[direction] = [[] for _ in range(num_guides)]
         for i in range(num_guides):
+            guides[direction].append([])
             for _ in range(num_masters):
                 try:
                     pos = read_value(stream)
@@ -73,6 +73,9 @@ class GuidePropertiesParser(BaseParser):
                 g = GuidePropertyDict(index=index)
 
                 color_raw = self.read_value()
+                if color_raw > 0xFFFFFF:
+                    raise ValueError(f"Unsupported guideline color: {color_raw:x}")
+
                 if color_raw > -1:
                     color_bgr = "%06x" % color_raw
                     g["color"] = f"#{color_bgr[4:]}{color_bgr[2:4]}{color_bgr[:2]}"
-- 
2.43.0


From 90960b2a06a02ec80e1e7121b6682ccd57662d48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:06 +0000
Subject: [PATCH 28/75] fix: access and draw glyphs after the VFB has been
 compiled

---
 src/vfbLib/vfb/glyph.py | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/src/vfbLib/vfb/glyph.py b/src/vfbLib/vfb/glyph.py
index 13bd63f..85bb5bb 100644
--- a/src/vfbLib/vfb/glyph.py
+++ b/src/vfbLib/vfb/glyph.py
@@ -44,6 +44,7 @@ class VfbGlyph:
         Returns:
             int: The number of paths, or contours.
         """
+        self._ensure_decompiled()
         if not self.entry.data["nodes"]:
             return 0
 
@@ -52,12 +53,14 @@ class VfbGlyph:
 
     @property
     def name(self) -> str | None:
+        self._ensure_decompiled()
         if not isinstance(self.entry.data, dict):
             return None
 
         return self.entry.data.get("name")
 
     def clearContours(self):
+        self._ensure_decompiled()
         try:
             del self.entry.data["hints"]
         except KeyError:
@@ -76,6 +79,13 @@ class VfbGlyph:
 
         return self.entry.data["name"]
 
+    def _ensure_decompiled(self) -> None:
+        """
+        Decompile the Glyph entry again if it has been compiled, e.g. by saving the VFB.
+        """
+        if isinstance(self.entry.data, bytes):
+            self.entry.decompile()
+
     def empty(self) -> None:
         self.entry.data = get_empty_glyph(self._parent.num_masters)
 
@@ -87,6 +97,7 @@ class VfbGlyph:
         if self.entry.data is None:
             raise ValueError
 
+        self._ensure_decompiled()
         _mm_glyph = VfbToUfoGlyph()
         _mm_glyph.name = self.entry.data["name"]
 
@@ -112,6 +123,7 @@ class VfbGlyph:
 
     def resolve_hint_sets(self) -> "dict[int, list[HintTuple]]":
         hint_sets = {}
+        self._ensure_decompiled()
         hints = self.resolve_hints()
         hints_entry = self.entry.data.get("hints", {})
         hintmasks = hints_entry.get("hintmasks", [])
@@ -139,6 +151,7 @@ class VfbGlyph:
     def resolve_hints(self) -> "dict[str, list[HintTuple]]":
         hints: "dict[str, list[HintTuple]]" = {"h": [], "v": []}
 
+        self._ensure_decompiled()
         mm_hints = self.entry.data.get("hints", {"h": [], "v": []})
 
         # Hints
@@ -164,11 +177,14 @@ class VfbGlyph:
         if self.links_entry is None:
             return hints
 
+        if isinstance(self.links_entry.data, bytes):
+            self.links_entry.decompile()
         links = self.links_entry.data
         assert isinstance(links, dict)
         if not (links["x"] or links["y"]):
             return hints
 
+        self._ensure_decompiled()
         mm_nodes = self.entry.data.get("nodes", [])
 
         # Do the actual conversion
@@ -203,6 +219,7 @@ class VfbGlyph:
         if self.entry.data is None:
             raise ValueError
 
+        self._ensure_decompiled()
         glyph = self.entry.data
 
         path_is_open = False
@@ -295,6 +312,7 @@ class VfbGlyph:
         if self.entry.data is None:
             raise ValueError
 
+        self._ensure_decompiled()
         glyph = self.entry.data
 
         in_path = False
@@ -361,6 +379,7 @@ class VfbGlyph:
                 self.empty()
             else:
                 self.decompile()
+        self._ensure_decompiled()
         return VfbGlyphPointPen(self, self._parent)
 
 
@@ -378,6 +397,7 @@ class VfbGlyphMaster:
         Returns:
             int: The number of paths, or contours.
         """
+        self._ensure_decompiled()
         if not self.entry.data["nodes"]:
             return 0
 
@@ -386,11 +406,15 @@ class VfbGlyphMaster:
 
     @property
     def name(self) -> str | None:
+        self._ensure_decompiled()
         if not isinstance(self.entry.data, dict):
             return None
 
         return self.entry.data.get("name")
 
+    def _ensure_decompiled(self) -> None:
+        self.glyph._ensure_decompiled()
+
     def _copy_to_ufo_glyph(self, master_index):
         """
         Copy minimal data to the VfbToUfoGlyph. Only data that is necessary for the pen
@@ -399,6 +423,7 @@ class VfbGlyphMaster:
         if self.entry.data is None:
             raise ValueError
 
+        self._ensure_decompiled()
         _mm_glyph = VfbToUfoGlyph()
         _mm_glyph.name = self.entry.data["name"]
 
@@ -423,6 +448,7 @@ class VfbGlyphMaster:
         self._glyph.build()
 
     def clearContours(self):
+        self._ensure_decompiled()
         if self.master_index == 0:
             target = self.entry.data
         else:
@@ -470,4 +496,5 @@ class VfbGlyphMaster:
                 self.glyph.empty()
             else:
                 self.entry.decompile()
+        self._ensure_decompiled()
         return VfbGlyphPointPen(self, self.glyph._parent)
-- 
2.43.0


From 79632ed6740d2b33e919e2fdc5d9214ccc3fd212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:13 +0000
Subject: [PATCH 29/75] fix: keep the contours of UFO masters compatible when
 closing paths

---
 src/vfbLib/ufo/paths.py | 42 ++++++++++++++++++++++++++++++++---------
 1 file changed, 33 insertions(+), 9 deletions(-)

diff --git a/src/vfbLib/ufo/paths.py b/src/vfbLib/ufo/paths.py
index 90f40a6..0dd674d 100644
--- a/src/vfbLib/ufo/paths.py
+++ b/src/vfbLib/ufo/paths.py
@@ -11,7 +11,7 @@ from vfbLib.ufo.vfb2ufo import TT_GLYPH_LIB_KEY, TT_UFO_LIB_KEY
 if TYPE_CHECKING:
     from fontTools.pens.pointPen import AbstractPointPen
 
-    from vfbLib.typing import AnchorDict
+    from vfbLib.typing import AnchorDict, MMNode
     from vfbLib.ufo.glyph import VfbToUfoGlyph
     from vfbLib.ufo.typing import UfoComponent, UfoContour
 
@@ -136,6 +136,8 @@ class UfoMasterGlyph:
 
         path_is_open = False
         in_qcurve = False
+        # The first and last nodes of the current path
+        path_ends: "list[MMNode]" = []
         if True:
             contour: "UfoContour" = []
             for i, n in enumerate(mm_nodes):
@@ -150,8 +152,9 @@ class UfoMasterGlyph:
                 smooth = bool(flags & 1)
 
                 if segment_type == "move":
-                    self._append_contour(contour, path_is_open, to_mask)
+                    self._append_contour(contour, path_is_open, to_mask, path_ends)
                     contour = [("move", smooth, name, pt)]
+                    path_ends = [n]
                     path_is_open = bool(flags & 8)
                     in_qcurve = False
 
@@ -177,7 +180,9 @@ class UfoMasterGlyph:
                     logger.error(f"Unknown segment type: {segment_type}")
                     raise ValueError
 
-            self._append_contour(contour, path_is_open, to_mask)
+                path_ends = [path_ends[0], n] if path_ends else [n]
+
+            self._append_contour(contour, path_is_open, to_mask, path_ends)
 
         if to_mask:
             # Mask has no components
@@ -314,24 +319,39 @@ class UfoMasterGlyph:
             cmd[key] = self.rename_points[pt_name]
 
     def _append_contour(
-        self, contour: "UfoContour", path_is_open: bool, to_mask: bool = False
+        self,
+        contour: "UfoContour",
+        path_is_open: bool,
+        to_mask: bool = False,
+        path_ends: "list[MMNode] | None" = None,
     ) -> None:
         """
         Append the contour to the glyph's contours, applying closepath optimizations.
         """
         if contour:
-            ct = self._flush_contour(contour, path_is_open)
+            ct = self._flush_contour(contour, path_is_open, to_mask, path_ends)
             if to_mask:
                 self.mask_contours.append(ct)
             else:
                 self.contours.append(ct)
 
-    def _apply_closepath(self, contour: "UfoContour", to_mask: bool = False) -> None:
+    def _apply_closepath(
+        self,
+        contour: "UfoContour",
+        to_mask: bool = False,
+        path_ends: "list[MMNode] | None" = None,
+    ) -> None:
         """
         Apply closepath optimizations to the contour.
         """
         last_type = contour[-1][0]
-        if contour[-1][3] == contour[0][3] and last_type not in ("line", "qcurve"):
+        # The contour must have the same structure in all masters, so the first and last
+        # points must be equal in all of them
+        is_equal = contour[-1][3] == contour[0][3]
+        if path_ends:
+            first, last = path_ends[0]["points"], path_ends[-1]["points"]
+            is_equal = is_equal and all(a[0] == b[0] for a, b in zip(first, last))
+        if is_equal and last_type not in ("line", "qcurve"):
             # Equal coords, use closepath to draw the last line, but not for explicit
             # lines
             name = contour[0][2]
@@ -356,7 +376,11 @@ class UfoMasterGlyph:
             contour[0] = ("line", smooth, name, pt)
 
     def _flush_contour(
-        self, contour: "UfoContour", path_is_open: bool, to_mask: bool = False
+        self,
+        contour: "UfoContour",
+        path_is_open: bool,
+        to_mask: bool = False,
+        path_ends: "list[MMNode] | None" = None,
     ) -> "UfoContour":
         """
         Post-process a contour before it is appended to the glyph's contours.
@@ -364,7 +388,7 @@ class UfoMasterGlyph:
         if not path_is_open:
             last_type = contour[-1][0]
             if last_type in ("line", "curve", "qcurve"):
-                self._apply_closepath(contour, to_mask=to_mask)
+                self._apply_closepath(contour, to_mask=to_mask, path_ends=path_ends)
 
             elif last_type is None:
                 _, smooth, name, pt = contour[0]
-- 
2.43.0


From 55449d333dbb806f4ddde8739c7aec7dd781b2ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:22 +0000
Subject: [PATCH 30/75] fix: refuse additional masters with more nodes than the
 first one

The additional nodes or components of a master drawn with a pen were silently
dropped when the glyph was compiled.
---
 src/vfbLib/compilers/glyph.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vfbLib/compilers/glyph.py b/src/vfbLib/compilers/glyph.py
index 049ca68..4b541c1 100644
--- a/src/vfbLib/compilers/glyph.py
+++ b/src/vfbLib/compilers/glyph.py
@@ -87,6 +87,7 @@ class GlyphCompiler(BaseCompiler):
             # See if there is any data to merge
             if "nodes" in master_data:
                 assert "nodes" in data
+                assert len(master_data["nodes"]) == len(data["nodes"])
                 for i, tgt in enumerate(data["nodes"]):
                     src = master_data["nodes"][i]
                     for key in ("type", "flags"):
@@ -95,6 +96,7 @@ class GlyphCompiler(BaseCompiler):
 
             if "components" in master_data:
                 assert "components" in data
+                assert len(master_data["components"]) == len(data["components"])
                 for i, tgt in enumerate(data["components"]):
                     src = master_data["components"][i]
                     for key in ("gid",):
-- 
2.43.0


From 3c9ffb869e453eb01752762fa0b3290b3c088bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:00 +0000
Subject: [PATCH 31/75] fix: compute the number of masters from the number of
 axes

Fonts with three axes have 8 masters, not 9, and couldn't be converted to UFO.
Fonts with one axis have two masters, not one.
---
 src/vfbLib/ufo/builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index ed8bd27..f574187 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -684,7 +684,7 @@ class VfbToUfoBuilder:
         if self.axis_count == 0:
             masters_count = 1
         else:
-            masters_count = self.axis_count**2
+            masters_count = 2**self.axis_count
         if len(self.masters) < masters_count:
             additional = [f"m{n}" for n in range(len(self.masters), masters_count)]
             self.masters.extend(additional)
-- 
2.43.0


From c93c09118200c051209bfba10c704a048d4118c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:24 +0000
Subject: [PATCH 32/75] fix: write glyph notes to the UFO

---
 src/vfbLib/ufo/builder.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index f574187..eff0387 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -782,6 +782,7 @@ class VfbToUfoBuilder:
             ufo_glyph.guidelines = master_glyph.guidelines
             ufo_glyph.height = master_glyph.height
             ufo_glyph.lib = master_glyph.lib
+            ufo_glyph.note = mm_glyph.note
             ufo_glyph.width = master_glyph.width
             ufo_glyph.unicodes = master_glyph.unicodes
 
-- 
2.43.0


From db32c1caf9fcc6b126d95a0dd0d07da2194bd859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:54 +0000
Subject: [PATCH 33/75] fix: don't lose a glyph if the last glyph has a
 duplicate name

The last glyph was not renamed like other glyphs with duplicate names, it
replaced the earlier glyph and was listed twice in the glyph order.
---
 src/vfbLib/ufo/builder.py | 47 +++++++++++++++++++++------------------
 1 file changed, 25 insertions(+), 22 deletions(-)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index eff0387..26c279e 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -141,6 +141,29 @@ class VfbToUfoBuilder:
             # Jump to the next 10 axis mappings
             data = data[10:]
 
+    def add_current_glyph(self) -> None:
+        """
+        Add the current glyph to the glyph set. Duplicate glyph names are renamed.
+        """
+        if self.current_glyph is None:
+            return
+
+        name = self.current_glyph.name
+        if name in self.glyph_masters:
+            for i in range(255):
+                n = f"{name}#{i}"
+                if n not in self.glyph_masters:
+                    self.glyph_masters[n] = self.current_glyph
+                    self.glyphOrder.append(n)
+                    logger.warning(f"Duplicate glyph, renamed from {name} to {n}.")
+                    break
+        else:
+            if name is None:
+                logger.error("Glyph without name.")
+            else:
+                self.glyph_masters[name] = self.current_glyph
+                self.glyphOrder.append(name)
+
     def add_ot_class(self, data: str) -> None:
         """
         Add an OpenType class/group to the builder. VFB stores groups as strings, so
@@ -449,24 +472,7 @@ class VfbToUfoBuilder:
 
             match key:
                 case G.Glyph:
-                    if self.current_glyph is not None:
-                        name = self.current_glyph.name
-                        if name in self.glyph_masters:
-                            for i in range(255):
-                                n = f"{name}#{i}"
-                                if n not in self.glyph_masters:
-                                    self.glyph_masters[n] = self.current_glyph
-                                    self.glyphOrder.append(n)
-                                    logger.warning(
-                                        f"Duplicate glyph, renamed from {name} to {n}."
-                                    )
-                                    break
-                        else:
-                            if name is None:
-                                logger.error("Glyph without name.")
-                            else:
-                                self.glyph_masters[name] = self.current_glyph
-                                self.glyphOrder.append(name)
+                    self.add_current_glyph()
                     self.build_mm_glyph(data)
                 case G.VSB:
                     assert self.current_glyph is not None
@@ -659,10 +665,7 @@ class VfbToUfoBuilder:
                             pass
                     logger.info(f"Unhandled entry: {k}")
 
-        if self.current_glyph is not None:
-            assert self.current_glyph.name is not None
-            self.glyph_masters[self.current_glyph.name] = self.current_glyph
-            self.glyphOrder.append(self.current_glyph.name)
+        self.add_current_glyph()
         self.lib["public.glyphOrder"] = self.glyphOrder
         self.build_tt_glyph_lib()
         self.assure_tt_lib()
-- 
2.43.0


From fd115f779154230f6bbdc411333d1d2862ca8c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:01 +0000
Subject: [PATCH 34/75] fix: don't remove hint masks and image previews from
 the VFB on UFO conversion

---
 src/vfbLib/ufo/builder.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index 26c279e..3c879d3 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -209,10 +209,9 @@ class VfbToUfoBuilder:
             g.mm_guides = data["guides"]
 
         if self.include_ps_hints and "hints" in data:
-            g.mm_hints = data["hints"]
+            g.mm_hints = {d: h for d, h in data["hints"].items() if d != "hintmasks"}
             if "hintmasks" in data["hints"]:
                 g.hintmasks = data["hints"]["hintmasks"]
-                del data["hints"]["hintmasks"]
 
         if "kerning" in data:
             kerning: dict[int, list[int]] = data["kerning"]
@@ -240,8 +239,9 @@ class VfbToUfoBuilder:
 
     def set_glyph_background(self, data: dict[str, Any]) -> None:
         assert self.current_glyph is not None
-        if "preview" in data["bitmap"]:
-            del data["bitmap"]["preview"]
+        # The preview is not needed in the UFO. Don't modify the data in the VFB.
+        bitmap = {k: v for k, v in data["bitmap"].items() if k != "preview"}
+        data = {**data, "bitmap": bitmap}
         self.current_glyph.lib["com.fontlab.v5.background"] = data
 
     def set_glyph_bitmaps(self, data: "list[GlyphBitmapDict]") -> None:
-- 
2.43.0


From ac03528506683d9d0983dfe17c15b478137e30c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:46 +0000
Subject: [PATCH 35/75] fix: export the 1 px rounding of TrueType stems

---
 src/vfbLib/tth.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vfbLib/tth.py b/src/vfbLib/tth.py
index 27ec4fd..e73febc 100644
--- a/src/vfbLib/tth.py
+++ b/src/vfbLib/tth.py
@@ -207,7 +207,7 @@ def extract_tt_stem_ppem_1(data: dict, target: dict) -> None:
             direction_data = data[direction]
             for stem_data in direction_data:
                 stem_index = stem_data["stem"]
-                target[direction][stem_index]["1"] = stem_data["round"]["1"]
+                target[direction][stem_index][1] = stem_data["round"][1]
 
 
 def extract_tt_stem_ppems(data: dict, target: dict) -> None:
-- 
2.43.0


From 767b207240af826d47040c967780dee54516a8fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:35 +0000
Subject: [PATCH 36/75] fix: keep the bigger width if several TrueType stem
 widths have the same ppm

---
 src/vfbLib/ufo/tth.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vfbLib/ufo/tth.py b/src/vfbLib/ufo/tth.py
index 575eec2..03dced0 100644
--- a/src/vfbLib/ufo/tth.py
+++ b/src/vfbLib/ufo/tth.py
@@ -75,10 +75,10 @@ def transform_stem_rounds(data: dict[int, int], name: str) -> dict[str, int]:
     """
     d: dict[str, int] = {}
     for k, v in data.items():
-        key = v
+        key = str(v)
         val = k
         if key in d:
-            if val > v:
+            if val > d[key]:
                 logger.warning(
                     f"Duplicate rounding ppm {key} in TT stem '{name}', "
                     f"choosing bigger value {val}px over {d[key]}px. {data}"
@@ -90,7 +90,7 @@ def transform_stem_rounds(data: dict[int, int], name: str) -> dict[str, int]:
                     f"keeping value {d[key]}px, ignoring {val}px. {data}"
                 )
         else:
-            d[str(key)] = val
+            d[key] = val
     return d
 
 
-- 
2.43.0


From aa2a7ba5b4fb84521cd8256fc14a82a282f61cdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:03 +0000
Subject: [PATCH 37/75] fix: export the TrueType hinting of fonts without stem,
 zone or delta records

---
 src/vfbLib/tth.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/vfbLib/tth.py b/src/vfbLib/tth.py
index e73febc..b34066f 100644
--- a/src/vfbLib/tth.py
+++ b/src/vfbLib/tth.py
@@ -187,7 +187,7 @@ def extract_glyph_hints(
             IndexVfbToUfoGlyph(),
             data=tth,
             zone_names=zone_names,
-            stems=font_hints["stems"],
+            stems=font_hints.get("stems", {"ttStemsV": [], "ttStemsH": []}),
         )
         tr = ttg.get_tt_glyph_hints()
         target[data["name"]] = tr
@@ -328,7 +328,7 @@ def merge_stem_information(data: dict, font: dict) -> None:
     if stems_dict:
         font["stems"] = stems_dict
     else:
-        del font["stems"]
+        font.pop("stems", None)
 
 
 def merge_zone_information(font: dict) -> None:
@@ -341,7 +341,7 @@ def merge_zone_information(font: dict) -> None:
     """
     all_zones = []
     for side in ("ttZonesB", "ttZonesT"):
-        for zone in font["zones"].get(side, []):
+        for zone in font.get("zones", {}).get(side, []):
             all_zones.append(zone)
     for zone_index, zone_delta in font.get("zone_deltas", {}).items():
         zone = all_zones[zone_index]
@@ -355,5 +355,5 @@ def merge_zone_information(font: dict) -> None:
     if zones_dict:
         font["zones"] = zones_dict
     else:
-        del font["zones"]
-    del font["zone_deltas"]
+        font.pop("zones", None)
+    font.pop("zone_deltas", None)
-- 
2.43.0


From 801b2e9736fa7aadee543ca1cc304ee0d2409114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:09 +0000
Subject: [PATCH 38/75] fix: refer to TrueType stems by the names they have in
 the UFO

---
 src/vfbLib/ufo/builder.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index 3c879d3..3f51d6b 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -408,19 +408,23 @@ class VfbToUfoBuilder:
             direction_stems = self.stems[d]
             for stem in direction_stems:
                 name = stem["name"]
-                del stem["name"]
                 if name == "":
                     dname = "v" if d == "ttStemsH" else "h"
                     name = "%s%02i" % (dname, i)
                     i += 1
                 if name in lib:
                     oldname = name
-                    name = "%s#%02i" % (oldname, i)
+                    n = i
+                    while name in lib:
+                        name = "%s#%02i" % (oldname, n)
+                        n += 1
                     logger.warning(
                         f"Duplicate TrueType stem name '{oldname}', renamed to '{name}'"
                         ". Preferably make stem names unique in VFB."
                     )
-                lib[name] = stem
+                # The hinting commands must refer to the final name
+                stem["name"] = name
+                lib[name] = {k: v for k, v in stem.items() if k != "name"}
         if lib:
             self.lib[TT_LIB_KEY]["stems"] = lib
 
@@ -667,10 +671,10 @@ class VfbToUfoBuilder:
 
         self.add_current_glyph()
         self.lib["public.glyphOrder"] = self.glyphOrder
-        self.build_tt_glyph_lib()
         self.assure_tt_lib()
         self.build_tt_stems_lib()
         self.build_tt_zones_lib()
+        self.build_tt_glyph_lib()
         if not self.lib[TT_LIB_KEY]:
             del self.lib[TT_LIB_KEY]
         if (
-- 
2.43.0


From b35aa813e4b9acf86616e6181cbec7be41a50449 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:11 +0000
Subject: [PATCH 39/75] fix: use the final point names in the TrueType hinting
 of UFO glyphs

---
 src/vfbLib/ufo/paths.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vfbLib/ufo/paths.py b/src/vfbLib/ufo/paths.py
index 0dd674d..6fdfebd 100644
--- a/src/vfbLib/ufo/paths.py
+++ b/src/vfbLib/ufo/paths.py
@@ -76,12 +76,12 @@ class UfoMasterGlyph:
         self.tth_commands = deepcopy(self.mm_glyph.tth_commands)
         if include_ps_hints:
             self._extract_master_ps_hints()
-        self._extract_master_tt_hints()
         if not minimal:
             self._extract_master_contours(to_mask=True)
             self._extract_master_mask_metrics()
         self._extract_master_contours()
         self._finalize_point_labels(include_ps_hints)
+        self._extract_master_tt_hints()
         self._extract_master_anchors()
         if not minimal:
             self._extract_master_guides()
-- 
2.43.0


From 1e5c7a2caa420532e0f697933bd3136eea0edad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:46 +0000
Subject: [PATCH 40/75] fix: use the same label for TrueType commands on merged
 points

---
 src/vfbLib/ufo/glyph.py | 24 ++++++++++++++++++++++++
 1 file changed, 24 insertions(+)

diff --git a/src/vfbLib/ufo/glyph.py b/src/vfbLib/ufo/glyph.py
index 377b2be..7e2f943 100644
--- a/src/vfbLib/ufo/glyph.py
+++ b/src/vfbLib/ufo/glyph.py
@@ -81,6 +81,9 @@ class VfbToUfoGlyph:
             )
             return "invalid"
 
+        if code != "PSHintReplacement":
+            # Hint replacement may happen at both the first and the last point
+            index = self._get_merged_index(index)
         if index in self.point_labels:
             # We already have a label for this point index
             return self.point_labels[index]
@@ -103,6 +106,27 @@ class VfbToUfoGlyph:
         self.point_labels[index] = label
         return label
 
+    def _get_merged_index(self, index: int) -> int:
+        """
+        The last point of a closed contour is merged with the first point of the contour
+        if it ends a curve at the same position. There is only one point in the UFO, so
+        all TrueType commands must use the same label.
+        """
+        nodes = self.mm_nodes
+        if not 0 <= index < len(nodes) or nodes[index]["type"] != "curve":
+            return index
+        if index + 1 < len(nodes) and nodes[index + 1]["type"] != "move":
+            return index
+        start = index
+        while start > 0 and nodes[start]["type"] != "move":
+            start -= 1
+        if nodes[start]["flags"] & 8:  # Open contour
+            return index
+        first, last = nodes[start]["points"], nodes[index]["points"]
+        if all(a[0] == b[0] for a, b in zip(first, last)):
+            return start
+        return index
+
     def set_instructions(self, instructions: list[str]) -> None:
         if not instructions:
             return
-- 
2.43.0


From 9b7b060b619588728082ff56229422f9f013b3da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:51 +0000
Subject: [PATCH 41/75] fix: encode TrueType hinting with non-ASCII stem or
 zone names

---
 src/vfbLib/ufo/paths.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vfbLib/ufo/paths.py b/src/vfbLib/ufo/paths.py
index 6fdfebd..142f31e 100644
--- a/src/vfbLib/ufo/paths.py
+++ b/src/vfbLib/ufo/paths.py
@@ -261,7 +261,7 @@ class UfoMasterGlyph:
         if encode_data_base64 and TT_GLYPH_LIB_KEY in self.lib:
             data = self.lib[TT_GLYPH_LIB_KEY]
             if not isinstance(data, bytes):
-                self.lib[TT_GLYPH_LIB_KEY] = b64encode(data.encode("ascii"))
+                self.lib[TT_GLYPH_LIB_KEY] = b64encode(data.encode("utf-8"))
         if TT_UFO_LIB_KEY in self.lib:
             self.lib[TT_UFO_LIB_KEY] = deepcopy(self.lib[TT_UFO_LIB_KEY])
 
-- 
2.43.0


From 7a1951000ea3d52225e31c01508e6b742e759d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:18 +0000
Subject: [PATCH 42/75] fix: keep kerning groups in groups.plist when they are
 added to the features

---
 src/vfbLib/ufo/builder.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index 3f51d6b..5fdfe9b 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -866,7 +866,9 @@ class VfbToUfoBuilder:
                 continue
 
             self.ufo_features.text += f"@{name} = [{' '.join(glyphs)}];\n"
-            move_groups.add(name)
+            if not name.startswith("public.kern"):
+                # The kerning references the kerning groups, they must be kept
+                move_groups.add(name)
 
         if self.move_groups_to_fea:
             # Remove groups that were added to the feature code from the groups dict
-- 
2.43.0


From bbc1f8d071fe2859e773640654ff6f2586798f03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:23 +0000
Subject: [PATCH 43/75] fix: don't fail on OT classes with more than one colon

---
 src/vfbLib/ufo/builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index 5fdfe9b..36b0082 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -176,7 +176,7 @@ class VfbToUfoBuilder:
             logger.warning(f"Malformed OT class definition, skipping: {data}")
             return
 
-        name, contents = data.split(":")
+        name, contents = data.split(":", 1)
 
         glyphs: list[str] = []
         for glyph in contents.split(" "):
-- 
2.43.0


From d9c4478ca8fc913b434e606a0c43e47f8158a926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:28 +0000
Subject: [PATCH 44/75] fix: omit groups without any existing glyphs in minimal
 mode

---
 src/vfbLib/ufo/groups.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vfbLib/ufo/groups.py b/src/vfbLib/ufo/groups.py
index 0edee62..b967e5c 100644
--- a/src/vfbLib/ufo/groups.py
+++ b/src/vfbLib/ufo/groups.py
@@ -33,7 +33,7 @@ def check_for_missing_glyphs(
             remaining_glyphs = list(set(glyphs) - set(missing))
             if not remaining_glyphs:
                 logger.warning(f"Not adding empty group '{group_name}' to the UFO.")
-                return glyphs, missing
+                return [], missing
             glyphs = [g for g in glyphs if g not in missing]
     return glyphs, missing
 
@@ -99,6 +99,8 @@ def transform_groups(
         glyphs, missing = check_for_missing_glyphs(
             name, glyphs, glyphOrder, skip_missing_group_glyphs
         )
+        if skip_missing_group_glyphs and not glyphs:
+            continue
         num_missing = len(missing)
 
         key_glyph = None
-- 
2.43.0


From 478b38261256a9c17824579a346f880fdb2417c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:33 +0000
Subject: [PATCH 45/75] fix: kerning of renamed duplicate glyphs replaced that
 of the original glyph

---
 src/vfbLib/ufo/builder.py | 11 +++++++----
 src/vfbLib/ufo/glyph.py   |  1 +
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index 36b0082..c6b188b 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -156,6 +156,7 @@ class VfbToUfoBuilder:
                     self.glyph_masters[n] = self.current_glyph
                     self.glyphOrder.append(n)
                     logger.warning(f"Duplicate glyph, renamed from {name} to {n}.")
+                    name = n
                     break
         else:
             if name is None:
@@ -164,6 +165,11 @@ class VfbToUfoBuilder:
                 self.glyph_masters[name] = self.current_glyph
                 self.glyphOrder.append(name)
 
+        if name is not None:
+            for Rid, values in self.current_glyph.mm_kerning.items():
+                # The pair belongs to the final name of the glyph
+                self.mm_kerning[(name, Rid)] = values
+
     def add_ot_class(self, data: str) -> None:
         """
         Add an OpenType class/group to the builder. VFB stores groups as strings, so
@@ -214,10 +220,7 @@ class VfbToUfoBuilder:
                 g.hintmasks = data["hints"]["hintmasks"]
 
         if "kerning" in data:
-            kerning: dict[int, list[int]] = data["kerning"]
-            for Rid, values in kerning.items():
-                assert g.name is not None
-                self.mm_kerning[(g.name, Rid)] = values
+            g.mm_kerning = data["kerning"]
 
         g.mm_metrics = data["metrics"]  # width and height
         g.mm_nodes = data["nodes"]
diff --git a/src/vfbLib/ufo/glyph.py b/src/vfbLib/ufo/glyph.py
index 7e2f943..491abde 100644
--- a/src/vfbLib/ufo/glyph.py
+++ b/src/vfbLib/ufo/glyph.py
@@ -33,6 +33,7 @@ class VfbToUfoGlyph:
         self.mm_components: list[Any] = []
         self.mm_guides: "MMGuidesDict | None" = None
         self.mm_hints: "MMHintsDict" = {"h": [], "v": []}
+        self.mm_kerning: dict[int, list[int]] = {}
         self.mm_metrics: list[tuple[int, int]] = []
         self.mm_nodes: "list[MMNode]" = []
         self.mm_mask_nodes: "list[MMNode]" = []
-- 
2.43.0


From 3891c4140752719f1dc458a150a691a71be7b4e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:59 +0000
Subject: [PATCH 46/75] fix: fonts with an invalid width class could not be
 converted to UFO

---
 src/vfbLib/ufo/info.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/vfbLib/ufo/info.py b/src/vfbLib/ufo/info.py
index 1dbfd99..def4c74 100644
--- a/src/vfbLib/ufo/info.py
+++ b/src/vfbLib/ufo/info.py
@@ -191,7 +191,7 @@ class VfbToUfoInfo(Info):
             # "head_flags": "", # below
             # "head_units_per_em": "unitsPerEm",  # duplicate
             # "os2_us_weight_class": "openTypeOS2WeightClass",  # duplicate
-            "os2_us_width_class": "openTypeOS2WidthClass",
+            # "os2_us_width_class": "openTypeOS2WidthClass",  # below
             "head_lowest_rec_ppem": "openTypeHeadLowestRecPPEM",
             "os2_y_subscript_x_size": "openTypeOS2SubscriptXSize",
             "os2_y_subscript_y_size": "openTypeOS2SubscriptYSize",
@@ -307,6 +307,8 @@ class VfbToUfoInfo(Info):
                     c = v >> 8
                     s = v & ~(c << 8)
                     self.openTypeOS2FamilyClass = [c, s]
+                elif k == "os2_us_width_class":
+                    self.openTypeOS2WidthClass = WidthClass(min(max(1, v), 9))
                 elif k == "os2_us_weight_class":
                     # Duplicate, we set it from a separate entry (weight_code)
                     # self.openTypeOS2WeightClass = v
-- 
2.43.0


From 17ef5562be30ea940b1cc22c3d1218cce580227f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:04 +0000
Subject: [PATCH 47/75] fix: fonts flagged as both regular and italic could not
 be saved as UFO

---
 src/vfbLib/ufo/info.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vfbLib/ufo/info.py b/src/vfbLib/ufo/info.py
index def4c74..cd8fd0d 100644
--- a/src/vfbLib/ufo/info.py
+++ b/src/vfbLib/ufo/info.py
@@ -266,7 +266,7 @@ class VfbToUfoInfo(Info):
         # Construct the style map style name
 
         name_parts = []
-        if 6 in intlist:
+        if 6 in intlist and 0 not in intlist:
             name_parts.append("regular")
         elif 5 in intlist:
             name_parts.append("bold")
-- 
2.43.0


From 8f7c27a7d2a53921b7979e576a3a1e4ae987e3af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:21 +0000
Subject: [PATCH 48/75] fix: characters outside of the BMP in name records
 could not be written to JSON and UFO

---
 src/vfbLib/compilers/text.py | 19 ++++++++++---------
 src/vfbLib/parsers/text.py   |  4 ++++
 2 files changed, 14 insertions(+), 9 deletions(-)

diff --git a/src/vfbLib/compilers/text.py b/src/vfbLib/compilers/text.py
index 36291f2..d5ad2f7 100644
--- a/src/vfbLib/compilers/text.py
+++ b/src/vfbLib/compilers/text.py
@@ -1,3 +1,4 @@
+from struct import iter_unpack
 from typing import Any
 
 from vfbLib.compilers.base import BaseCompiler
@@ -12,15 +13,15 @@ class NameRecordsCompiler(BaseCompiler):
             self.write_value(platID)
             self.write_value(encID)
             self.write_value(langID)
-            self.write_value(len(name))
-            for char in name:
-                if platID == 1 and encID == 0:
-                    try:
-                        char = char.encode("macroman")
-                    except ValueError:
-                        char = "?"
-                o = ord(char)
-                self.write_value(o)
+            if platID == 1 and encID == 0:
+                codes = list(name.encode("macroman", "replace"))
+            else:
+                # Characters outside of the BMP are stored as UTF-16 surrogate pairs
+                b = name.encode("utf-16-le", "surrogatepass")
+                codes = [c for (c,) in iter_unpack("<H", b)]
+            self.write_value(len(codes))
+            for code in codes:
+                self.write_value(code)
 
 
 class OpenTypeStringCompiler(BaseCompiler):
diff --git a/src/vfbLib/parsers/text.py b/src/vfbLib/parsers/text.py
index a283ace..66fbdb8 100644
--- a/src/vfbLib/parsers/text.py
+++ b/src/vfbLib/parsers/text.py
@@ -26,6 +26,10 @@ class NameRecordsParser(BaseParser):
                 except (OverflowError, ValueError):
                     char = "\ufeff"
                 name += char
+            # Characters outside of the BMP are stored as UTF-16 surrogate pairs
+            name = name.encode("utf-16-le", "surrogatepass").decode(
+                "utf-16-le", "surrogatepass"
+            )
             result.append((nameID, platID, encID, langID, name))
 
         return result
-- 
2.43.0


From 9af6b8e85c917b0ef0b6661fd3802443f36aa1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:47 +0000
Subject: [PATCH 49/75] fix: the designspace file did not find its masters if
 written to a folder given by a relative path

---
 src/vfbLib/ufo/builder.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index c6b188b..3927232 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -967,10 +967,13 @@ class VfbToUfoBuilder:
 
         # Add sources
         for i in range(self.num_masters):
+            # The masters are in the same folder as the designspace file
+            master_path = self.get_master_path(out_path, i)
             ds.addSourceDescriptor(
                 # designLocation=,
                 familyName=self.info.ds_family_name,
-                filename=f"{self.get_master_path(out_path, i)}",
+                filename=master_path.name,
+                path=f"{master_path}",
                 location=get_ds_location(self.axes, self.master_locations[i + 1]),
                 name=self.masters[i].strip(),
                 styleName=f"Master {i}",
-- 
2.43.0


From 2c4f896176dc035ec52dfa81f9f09c54374f96b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:52 +0000
Subject: [PATCH 50/75] fix: the designspace of fonts with axes without
 mappings could not be written

---
 src/vfbLib/ufo/builder.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index 3927232..e0a380b 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -594,8 +594,15 @@ class VfbToUfoBuilder:
                         "Optical Size": "opsz",
                         "Serif": "SERF",
                     }
+                    # The limits are for axes without mappings
                     self.axes.append(
-                        AxisDescriptor(tag=tags.get(data, data.upper()[:4]), name=data)
+                        AxisDescriptor(
+                            tag=tags.get(data, data.upper()[:4]),
+                            name=data,
+                            minimum=0,
+                            default=0,
+                            maximum=1000,
+                        )
                     )
                 case F.AxisMappingsCount:
                     self.axis_mappings_count: list[int] = data
-- 
2.43.0


From b92bebb7b92d00dcea42e258571e687779e96f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:57 +0000
Subject: [PATCH 51/75] fix: building the designspace again duplicated its axis
 labels

---
 src/vfbLib/ufo/builder.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index e0a380b..ad30809 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -962,10 +962,10 @@ class VfbToUfoBuilder:
         # Add labels
         if self.axis_count == 1:
             # Only support the simple case here
-            for p in self.primary_instances:
-                self.axes[0].axisLabels.append(
-                    AxisLabelDescriptor(name=p["name"], userValue=p["values"][0])
-                )
+            self.axes[0].axisLabels = [
+                AxisLabelDescriptor(name=p["name"], userValue=p["values"][0])
+                for p in self.primary_instances
+            ]
         else:
             logger.warning(
                 "WARNING: Designspace output of AxisLabelDescriptors is only supported "
-- 
2.43.0


From 178612522da406f392a3b766cf698774ae01d929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:22 +0000
Subject: [PATCH 52/75] fix: Don't destroy an existing JSON file if the export
 fails

---
 src/vfbLib/json.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/vfbLib/json.py b/src/vfbLib/json.py
index 69c0fca..a178832 100644
--- a/src/vfbLib/json.py
+++ b/src/vfbLib/json.py
@@ -36,9 +36,10 @@ def save_vfb_json(
 
 
 def write_vfb_json(vfb: Vfb, out_path: Path) -> None:
+    # Serialize before opening the file, so that a failure doesn't destroy an existing
+    # file
+    data = orjson.dumps(
+        vfb.as_dict(), option=orjson.OPT_INDENT_2 | orjson.OPT_NON_STR_KEYS
+    )
     with open(str(out_path), "wb") as f:
-        f.write(
-            orjson.dumps(
-                vfb.as_dict(), option=orjson.OPT_INDENT_2 | orjson.OPT_NON_STR_KEYS
-            )
-        )
+        f.write(data)
-- 
2.43.0


From 076c4fd887cb962b02b6021e67e05814297f532e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:30 +0000
Subject: [PATCH 53/75] fix: Respect the outputpath argument of vfb3ufo and
 vfbcu2qu

---
 src/vfbLib/cmdline.py | 2 ++
 src/vfbLib/cu2qu.py   | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/src/vfbLib/cmdline.py b/src/vfbLib/cmdline.py
index 641a853..4dab0b4 100644
--- a/src/vfbLib/cmdline.py
+++ b/src/vfbLib/cmdline.py
@@ -226,6 +226,8 @@ def vfb2ufo():
             suffix += "z"
         if args.path:
             out_path = (Path(args.path[0]) / vfb_path.name).with_suffix(suffix)
+        elif args.outputpath:
+            out_path = Path(args.outputpath).with_suffix(suffix)
         else:
             out_path = vfb_path.with_suffix(suffix)
         vfb.decompile()
diff --git a/src/vfbLib/cu2qu.py b/src/vfbLib/cu2qu.py
index bcb8d82..48c8481 100644
--- a/src/vfbLib/cu2qu.py
+++ b/src/vfbLib/cu2qu.py
@@ -82,6 +82,8 @@ def vfbcu2qu():
         if args.path:
             suffix = ".vfb"
             out_path = (Path(args.path[0]) / vfb_path.name).with_suffix(suffix)
+        elif args.outputpath:
+            out_path = Path(args.outputpath)
         else:
             out_path = vfb_path.with_suffix(suffix)
         if out_path.exists():
-- 
2.43.0


From 35583e04cb9d482e856f2d75a82544d0ec761399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:22 +0000
Subject: [PATCH 54/75] fix: Don't overwrite existing JSON files of UFOs
 without being told to

---
 src/vfbLib/ufo/builder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index ad30809..ae96a3c 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -933,6 +933,8 @@ class VfbToUfoBuilder:
         for index, ufo in enumerate(ufos):
             master_path = self.get_master_path(out_path, index)
             if json:
+                if master_path.exists() and not overwrite:
+                    raise FileExistsError(str(master_path))
                 ufo.json_dump(master_path, indent=indent, sort_keys=False)
             else:
                 ufo.save(master_path, structure=strct, overwrite=overwrite)
-- 
2.43.0


From c0c90c7f086e14aef5f5bcb4c831379289ecc0f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:17 +0000
Subject: [PATCH 55/75] fix: Don't print timing information in silent mode

---
 src/vfbLib/cmdline.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vfbLib/cmdline.py b/src/vfbLib/cmdline.py
index 4dab0b4..8a37795 100644
--- a/src/vfbLib/cmdline.py
+++ b/src/vfbLib/cmdline.py
@@ -217,6 +217,7 @@ def vfb2ufo():
             print(f"Reading file {vfb_path} ...")
         vfb = Vfb(
             vfb_path,
+            timing=not args.silent,
             minimal=args.minimal,
             drop_keys={F.Encoding, F.EncodingDefault},
             unicode_strings=args.unicode_strings,
-- 
2.43.0


From 90cc2901ee9ea420c5f55f3022878d4e0239116c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:44 +0000
Subject: [PATCH 56/75] fix: HTML diffs compared single characters instead of
 lines

---
 src/vfbLib/diff.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/diff.py b/src/vfbLib/diff.py
index 0af044d..a412c9e 100644
--- a/src/vfbLib/diff.py
+++ b/src/vfbLib/diff.py
@@ -60,8 +60,8 @@ def diffvfb():
     if args.html:
         html_diff = HtmlDiff()
         html = html_diff.make_file(
-            str(vfb1_str),
-            str(vfb2_str),
+            vfb1_str,
+            vfb2_str,
             str(vfb1_path),
             str(vfb2_path),
             context=True,
-- 
2.43.0


From 4664060f4b94ef24888e579f324c84788743ceea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:44 +0000
Subject: [PATCH 57/75] fix: yuri: Heed the --long option

---
 src/vfbLib/value.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/value.py b/src/vfbLib/value.py
index cfcb271..d70ec25 100644
--- a/src/vfbLib/value.py
+++ b/src/vfbLib/value.py
@@ -1,7 +1,7 @@
 from argparse import ArgumentParser
 from io import BytesIO
 
-from vfbLib.compilers.value import write_value
+from vfbLib.compilers.value import write_value, write_value_long
 from vfbLib.helpers import deHexStr, hexStr
 from vfbLib.parsers.value import read_value
 
@@ -45,8 +45,9 @@ def yuri():
     if args:
         if args.encode:
             stream = BytesIO()
+            write = write_value_long if args.long else write_value
             for value in args.hexstring:
-                write_value(int(value), stream, args.signed)
+                write(int(value), stream, args.signed)
             print(hexStr(stream.getvalue()))
         else:
             data = deHexStr("".join(args.hexstring))
-- 
2.43.0


From 21d8f2761723cc5cbe7bae92fb4c919aec3a4a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:20 +0000
Subject: [PATCH 58/75] fix: Keep the prefix of feature code without features
 in build_fea_dict

---
 src/vfbLib/parsers/text.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/parsers/text.py b/src/vfbLib/parsers/text.py
index 66fbdb8..52b6023 100644
--- a/src/vfbLib/parsers/text.py
+++ b/src/vfbLib/parsers/text.py
@@ -84,8 +84,12 @@ class OpenTypeStringParser(BaseParser):
             else:
                 feature.append(line)
 
-        # Flush the last feature
-        fea["features"].append({"tag": tag, "code": feature})
+        if in_prefix:
+            # There are no features
+            fea["prefix"] = prefix
+        else:
+            # Flush the last feature
+            fea["features"].append({"tag": tag, "code": feature})
 
         return fea
 
-- 
2.43.0


From b3b7c54306faa9483d6210e65c4c585ffb95a4ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:51 +0000
Subject: [PATCH 59/75] fix: Don't share the font lib between the master UFOs
 and the VFB

---
 src/vfbLib/ufo/builder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index ae96a3c..e04a109 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -778,7 +778,7 @@ class VfbToUfoBuilder:
             groups=deepcopy(self.ufo_groups),
             info=master_info,
             kerning=master_kerning,
-            lib=self.lib,
+            lib=deepcopy(self.lib),
         )
 
         mask_glyphs: list[Glyph] = []
-- 
2.43.0


From b016b060c470193707f29911befcf3ecc2b57273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:52 +0000
Subject: [PATCH 60/75] fix: Don't take the glyphs before a damaged glyph for
 the whole font

---
 src/vfbLib/vfb/vfb.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/vfbLib/vfb/vfb.py b/src/vfbLib/vfb/vfb.py
index ed62e46..738e844 100644
--- a/src/vfbLib/vfb/vfb.py
+++ b/src/vfbLib/vfb/vfb.py
@@ -159,6 +159,10 @@ class Vfb:
             e.compile()
 
     def _decompile_glyphs(self) -> None:
+        # Collect the glyphs first, so that an error doesn't leave us with a part of
+        # the font, which would be mistaken for the whole font on the next access
+        glyphs: dict[str, VfbGlyph] = {}
+        ps_hinting_options: VfbEntry | None = None
         name = None
         for entry in self.entries:
             match entry.id:
@@ -167,13 +171,12 @@ class Vfb:
                     name = glyph.decompile()
                     i = 1
                     # Disambiguate duplicate names
-                    if name in self._glyphs:
+                    if name in glyphs:
                         logger.error(f"VFB contains duplicate glyph name: {name}")
-                        while f"{name}#{i}" in self._glyphs:
+                        while f"{name}#{i}" in glyphs:
                             i += 1
                         name = f"{name}#{i}"
-                    self._glyphs[name] = glyph
-                    self.glyph_order.append(name)
+                    glyphs[name] = glyph
                 case G.Links:
                     # We need to store the links of the glyph for converting links to
                     # PS hints before writing charstrings
@@ -181,7 +184,7 @@ class Vfb:
                     if name is None:
                         logger.error("Links entry without preceding glyph entry")
                     else:
-                        self._glyphs[name].links_entry = entry
+                        glyphs[name].links_entry = entry
                 case G.HintingOptions:
                     # We need this to decide if we should generate hstem3/vstem3 hints
                     entry.decompile()
@@ -190,11 +193,16 @@ class Vfb:
                             "Glyph Hinting Options entry without preceding glyph entry"
                         )
                     else:
-                        self._glyphs[name].ps_hinting_options = entry
+                        glyphs[name].ps_hinting_options = entry
                 case F.PostScriptHintingOptions:
                     # We need this to decide if we should generate flex hints
                     entry.decompile()
-                    self.ps_hinting_options = entry
+                    ps_hinting_options = entry
+
+        self._glyphs = glyphs
+        self.glyph_order = list(glyphs)
+        if ps_hinting_options is not None:
+            self.ps_hinting_options = ps_hinting_options
 
     def __contains__(self, key: str) -> bool:
         if not self._glyphs:
-- 
2.43.0


From 3d9ca214cddcfa817d1d645d036fab3b6bf05b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:55 +0000
Subject: [PATCH 61/75] fix: Keep more than 255 glyphs of the same name

---
 src/vfbLib/ufo/builder.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index e04a109..542418f 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -150,14 +150,13 @@ class VfbToUfoBuilder:
 
         name = self.current_glyph.name
         if name in self.glyph_masters:
-            for i in range(255):
-                n = f"{name}#{i}"
-                if n not in self.glyph_masters:
-                    self.glyph_masters[n] = self.current_glyph
-                    self.glyphOrder.append(n)
-                    logger.warning(f"Duplicate glyph, renamed from {name} to {n}.")
-                    name = n
-                    break
+            i = 0
+            while (n := f"{name}#{i}") in self.glyph_masters:
+                i += 1
+            self.glyph_masters[n] = self.current_glyph
+            self.glyphOrder.append(n)
+            logger.warning(f"Duplicate glyph, renamed from {name} to {n}.")
+            name = n
         else:
             if name is None:
                 logger.error("Glyph without name.")
-- 
2.43.0


From b8ef60732e244a867061fa12caba1f4e055276ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:01 +0000
Subject: [PATCH 62/75] fix: Round the offsets of drawn components

---
 src/vfbLib/vfb/pens.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vfbLib/vfb/pens.py b/src/vfbLib/vfb/pens.py
index dd17bb7..0b8f0a4 100644
--- a/src/vfbLib/vfb/pens.py
+++ b/src/vfbLib/vfb/pens.py
@@ -122,8 +122,8 @@ class VfbGlyphPointPen(AbstractPointPen):
         self.target["components"].append(
             {
                 "gid": base_index,
-                "offsetX": [dx] * self.glyphSet.num_masters,
-                "offsetY": [dy] * self.glyphSet.num_masters,
+                "offsetX": [round(dx)] * self.glyphSet.num_masters,
+                "offsetY": [round(dy)] * self.glyphSet.num_masters,
                 "scaleX": [xx] * self.glyphSet.num_masters,
                 "scaleY": [yy] * self.glyphSet.num_masters,
             }
-- 
2.43.0


From 49b8e28a21e4e7b4bda27aa37510574b88b334e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:08 +0000
Subject: [PATCH 63/75] fix: Refuse cubic curves that end at the first point

---
 src/vfbLib/vfb/pens.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vfbLib/vfb/pens.py b/src/vfbLib/vfb/pens.py
index 0b8f0a4..03b6be4 100644
--- a/src/vfbLib/vfb/pens.py
+++ b/src/vfbLib/vfb/pens.py
@@ -61,6 +61,10 @@ class VfbGlyphPointPen(AbstractPointPen):
     ) -> None:
         assert self.currentPath is not None
 
+        if segmentType == "curve":
+            print(f"Unsupported segment type: {segmentType}")
+            raise ValueError
+
         flags = 0
         x, y = pt
         node = {
-- 
2.43.0


From fce3a2598756ef27b2457b232dda6d770ecddc59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:14 +0000
Subject: [PATCH 64/75] fix: Draw contours that begin with an off-curve point

---
 src/vfbLib/vfb/pens.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/vfbLib/vfb/pens.py b/src/vfbLib/vfb/pens.py
index 03b6be4..9697fbe 100644
--- a/src/vfbLib/vfb/pens.py
+++ b/src/vfbLib/vfb/pens.py
@@ -22,6 +22,7 @@ class VfbGlyphPointPen(AbstractPointPen):
         self.glyph = glyph
         self.glyphSet = glyphSet
         self.currentPath = None
+        self.leadingPoints: list[tuple[float, float]] = []
         self.in_qcurve = False
         if self.glyph.master_index == 0:
             self.target = self.glyph.entry.data
@@ -36,6 +37,8 @@ class VfbGlyphPointPen(AbstractPointPen):
         self, identifier: str | None = None, **kwargs: dict[str, Any]
     ) -> None:
         self.currentPath = []
+        # The off-curve points before the first on-curve point
+        self.leadingPoints = []
 
     def endPath(self) -> None:
         if not isinstance(self.target, dict):
@@ -47,6 +50,18 @@ class VfbGlyphPointPen(AbstractPointPen):
         if self.currentPath is None:
             raise TypeError
 
+        if self.leadingPoints:
+            # A VFB path must begin with an on-curve point, the off-curve points before
+            # it belong to the end of the path
+            leading = self.leadingPoints
+            self.leadingPoints = []
+            if not self.currentPath:
+                # No on-curve point at all, begin at an implied one
+                (x0, y0), (x1, y1) = leading[-1], leading[0]
+                self.addPoint((0.5 * (x0 + x1), 0.5 * (y0 + y1)), "qcurve")
+            for pt in leading:
+                self.addPoint(pt)
+
         self.target["nodes"].extend(self.currentPath)
         self.currentPath = None
 
@@ -65,6 +80,10 @@ class VfbGlyphPointPen(AbstractPointPen):
             print(f"Unsupported segment type: {segmentType}")
             raise ValueError
 
+        if segmentType is None and not self.currentPath:
+            self.leadingPoints.append(pt)
+            return
+
         flags = 0
         x, y = pt
         node = {
-- 
2.43.0


From e31b0a6a16f9f79a485efb976919ee32f4245b02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:12 +0000
Subject: [PATCH 65/75] fix: Refuse cut-off anisotropic interpolation mappings

---
 src/vfbLib/parsers/mm.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/vfbLib/parsers/mm.py b/src/vfbLib/parsers/mm.py
index 5d3d851..f9ec4b7 100644
--- a/src/vfbLib/parsers/mm.py
+++ b/src/vfbLib/parsers/mm.py
@@ -7,13 +7,12 @@ class AnisotropicInterpolationsParser(BaseParser):
         # The graph used for anisotropic interpolation maps, for all axes.
         values = []
         while True:
-            axis_values = []
             try:
                 n = self.read_value()
-                axis_values = [(self.read_value(), self.read_value()) for _ in range(n)]
-                values.append(axis_values)
             except EOFError:
                 return values
+            axis_values = [(self.read_value(), self.read_value()) for _ in range(n)]
+            values.append(axis_values)
 
 
 class AxisMappingsCountParser(BaseParser):
-- 
2.43.0


From 077a3088982511c13aa66990039d38305328ce06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:17 +0000
Subject: [PATCH 66/75] fix: Refuse cut-off gasp ranges

---
 src/vfbLib/parsers/truetype.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vfbLib/parsers/truetype.py b/src/vfbLib/parsers/truetype.py
index 45a2a65..1bbf671 100644
--- a/src/vfbLib/parsers/truetype.py
+++ b/src/vfbLib/parsers/truetype.py
@@ -36,6 +36,8 @@ class GaspParser(BaseParser):
 
     def _parse(self) -> "GaspList":
         data = self.stream.read()
+        if len(data) % 4:
+            raise ValueError("Unexpected end of gasp data")
         gasp = unpack(f"<{len(data) // 2}H", data)
         it = iter(gasp)
         return [
-- 
2.43.0


From 42521497842fd6c93c0593a2b92564164f091300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:04 +0000
Subject: [PATCH 67/75] fix: refuse strings which are too long for their field
 instead of writing a record that can't be read

---
 src/vfbLib/compilers/base.py   | 16 ++++++++++++++++
 src/vfbLib/compilers/binary.py |  3 ++-
 src/vfbLib/compilers/pclt.py   |  4 ++--
 3 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/src/vfbLib/compilers/base.py b/src/vfbLib/compilers/base.py
index 82c3ed8..3856c18 100644
--- a/src/vfbLib/compilers/base.py
+++ b/src/vfbLib/compilers/base.py
@@ -110,6 +110,22 @@ class StreamWriter:
             enc += b"\00" * (pad - len(enc))
         self.stream.write(enc)
 
+    def write_str_fixed(self, value: str, size: int) -> None:
+        """
+        Write a string to a field of fixed size. The string is padded with null bytes.
+
+        Args:
+            value (str): The string to write.
+            size (int): The size of the field in bytes.
+
+        Raises:
+            ValueError: If the encoded string doesn't fit into the field.
+        """
+        enc = value.encode(self.encoding, KEEP_UNDEFINED)
+        if len(enc) > size:
+            raise ValueError(f"String must not be longer than {size} bytes: '{value}'")
+        self.stream.write(enc.ljust(size, b"\00"))
+
     def write_str_with_len(self, value: str | None) -> None:
         """
         Write the length of a string to the stream, then the string itself. The string
diff --git a/src/vfbLib/compilers/binary.py b/src/vfbLib/compilers/binary.py
index 22e5c3d..a44231d 100644
--- a/src/vfbLib/compilers/binary.py
+++ b/src/vfbLib/compilers/binary.py
@@ -10,5 +10,6 @@ class BinaryTableCompiler(BaseCompiler):
     """
 
     def _compile(self, data: Any) -> None:
-        self.write_str(data["tag"])  # FIXME: Add padding here?
+        # Tags are padded with spaces
+        self.write_str_fixed(data["tag"].ljust(4), 4)
         self.stream.write(deHexStr(data["data"]))
diff --git a/src/vfbLib/compilers/pclt.py b/src/vfbLib/compilers/pclt.py
index a0e964f..4d32eb6 100644
--- a/src/vfbLib/compilers/pclt.py
+++ b/src/vfbLib/compilers/pclt.py
@@ -18,10 +18,10 @@ class PcltCompiler(BaseCompiler):
             "symbol_set",
         ):
             self.write_value(data[k])
-        self.write_str(data["typeface"], 16)
+        self.write_str_fixed(data["typeface"], 16)
         for value in data["character_complement"]:
             self.write_uint8(value)
-        self.write_str(data["file_name"], 6)
+        self.write_str_fixed(data["file_name"], 6)
         self.write_int8(data["stroke_weight"])
         self.write_int8(data["width_type"])
         self.write_uint8(data["serif_style"])
-- 
2.43.0


From a938db720090e56622a096f0d7ff6d857810c00e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:37 +0000
Subject: [PATCH 68/75] fix: refuse values of the wrong number where the format
 has a fixed count

Records with more or less values were written, but could not be read again.
---
 src/vfbLib/compilers/base.py  | 18 +++++++++++++++++-
 src/vfbLib/compilers/fl3.py   |  4 +++-
 src/vfbLib/compilers/glyph.py |  7 +++++--
 src/vfbLib/compilers/mm.py    |  5 ++++-
 src/vfbLib/compilers/pclt.py  |  3 ++-
 5 files changed, 31 insertions(+), 6 deletions(-)

diff --git a/src/vfbLib/compilers/base.py b/src/vfbLib/compilers/base.py
index 3856c18..e8a5c05 100644
--- a/src/vfbLib/compilers/base.py
+++ b/src/vfbLib/compilers/base.py
@@ -14,7 +14,7 @@ from vfbLib.helpers import (
 
 if TYPE_CHECKING:
     from io import BufferedIOBase
-    from typing import Any, Iterable
+    from typing import Any, Iterable, Sized
 
     from vfbLib.typing import (
         KerningClassFlagDict,
@@ -183,6 +183,22 @@ class StreamWriter:
             write_value_long(value, self.stream, signed)
 
 
+def check_count(values: "Sized", count: int, what: str) -> None:
+    """
+    Check that there are as many values as the format requires.
+
+    Args:
+        values (Sized): The values.
+        count (int): The required number of values.
+        what (str): The description of the values, used in the error message.
+
+    Raises:
+        ValueError: If the number of values is different.
+    """
+    if len(values) != count:
+        raise ValueError(f"Expected {count} values for {what}, got {len(values)}")
+
+
 class BaseCompiler(StreamWriter):
     """
     Base class to compile vfb data.
diff --git a/src/vfbLib/compilers/fl3.py b/src/vfbLib/compilers/fl3.py
index 72e651d..501edff 100644
--- a/src/vfbLib/compilers/fl3.py
+++ b/src/vfbLib/compilers/fl3.py
@@ -1,7 +1,7 @@
 import logging
 from typing import Any
 
-from vfbLib.compilers.base import BaseCompiler
+from vfbLib.compilers.base import BaseCompiler, check_count
 
 logger = logging.getLogger(__name__)
 
@@ -10,5 +10,7 @@ class MMKernPairCompiler(BaseCompiler):
     def _compile(self, data: dict[str, Any]) -> None:
         self.write_uint32(data["l"])
         self.write_uint32(data["r"])
+        if self.vfb is not None:
+            check_count(data["values"], self.vfb.num_masters, "MM kern pair")
         for value in data["values"]:
             self.write_int16(value)
diff --git a/src/vfbLib/compilers/glyph.py b/src/vfbLib/compilers/glyph.py
index 4b541c1..b7e36dc 100644
--- a/src/vfbLib/compilers/glyph.py
+++ b/src/vfbLib/compilers/glyph.py
@@ -6,7 +6,7 @@ from typing import TYPE_CHECKING, Any
 from fontTools.ttLib.tables.ttProgram import Program
 
 from vfbLib import DIRECTIONS, GLYPH_CONSTANT, gdef_class_names
-from vfbLib.compilers.base import BaseCompiler, StreamWriter
+from vfbLib.compilers.base import BaseCompiler, StreamWriter, check_count
 from vfbLib.compilers.guides import GuidesCompiler
 from vfbLib.helpers import KEEP_UNDEFINED
 from vfbLib.parsers.glyph import PathCommand
@@ -372,7 +372,10 @@ class OutlinesCompiler(StreamWriter):
             type_flags = node.get("flags", 0) * 16 + PathCommand[node["type"]].value
             self.write_uint8(type_flags)
             num_values += 1
-            for j in range(len(node["points"][0])):
+            num_points = 3 if node["type"] == PathCommand.curve.name else 1
+            for i in range(self.num_masters):
+                check_count(node["points"][i], num_points, f"{node['type']} node")
+            for j in range(num_points):
                 for i in range(self.num_masters):
                     x, y = node["points"][i][j]
                     refx, refy = ref_coords[i]
diff --git a/src/vfbLib/compilers/mm.py b/src/vfbLib/compilers/mm.py
index fae8102..bc2516f 100644
--- a/src/vfbLib/compilers/mm.py
+++ b/src/vfbLib/compilers/mm.py
@@ -1,6 +1,6 @@
 from typing import TYPE_CHECKING
 
-from vfbLib.compilers.base import BaseCompiler
+from vfbLib.compilers.base import BaseCompiler, check_count
 
 if TYPE_CHECKING:
     from vfbLib.typing import PrimaryInstanceDict
@@ -17,6 +17,7 @@ class AnisotropicInterpolationsCompiler(BaseCompiler):
 
 class AxisMappingsCountCompiler(BaseCompiler):
     def _compile(self, data: list[int]) -> None:
+        check_count(data, 4, "axis mappings count")
         for value in data:
             self.write_uint32(value)
 
@@ -31,6 +32,7 @@ class AxisMappingsCompiler(BaseCompiler):
 class MasterLocationCompiler(BaseCompiler):
     def _compile(self, data: tuple[int, tuple[float, float, float, float]]) -> None:
         master_index, location = data
+        check_count(location, 4, "master location")
         self.write_uint32(master_index)
         self.write_doubles(location)
 
@@ -41,5 +43,6 @@ class PrimaryInstancesCompiler(BaseCompiler):
         for instance in data:
             name = instance["name"]
             self.write_str_with_len(name)
+            check_count(instance["values"], 4, "primary instance")
             for value in instance["values"]:
                 self.write_value(round(10000 * value))
diff --git a/src/vfbLib/compilers/pclt.py b/src/vfbLib/compilers/pclt.py
index 4d32eb6..b638610 100644
--- a/src/vfbLib/compilers/pclt.py
+++ b/src/vfbLib/compilers/pclt.py
@@ -1,6 +1,6 @@
 from typing import TYPE_CHECKING
 
-from vfbLib.compilers.base import BaseCompiler
+from vfbLib.compilers.base import BaseCompiler, check_count
 
 if TYPE_CHECKING:
     from vfbLib.typing import PCLTDict
@@ -19,6 +19,7 @@ class PcltCompiler(BaseCompiler):
         ):
             self.write_value(data[k])
         self.write_str_fixed(data["typeface"], 16)
+        check_count(data["character_complement"], 8, "character complement")
         for value in data["character_complement"]:
             self.write_uint8(value)
         self.write_str_fixed(data["file_name"], 6)
-- 
2.43.0


From a5884bd2a203f195518af7828ad97b4b3cb55485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:46 +0000
Subject: [PATCH 69/75] fix: refuse imported glyph data with the wrong number
 of values

---
 src/vfbLib/compilers/glyph.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/src/vfbLib/compilers/glyph.py b/src/vfbLib/compilers/glyph.py
index b7e36dc..1432fa9 100644
--- a/src/vfbLib/compilers/glyph.py
+++ b/src/vfbLib/compilers/glyph.py
@@ -135,6 +135,7 @@ class GlyphCompiler(BaseCompiler):
         self.write_value(imported["unknown1"])
         self.write_value(imported["unknown2"])
         self.write_value(imported["unknown3"])
+        check_count(imported["bbox"], 4, "imported bounding box")
         for value in imported["bbox"]:
             self.write_value(value)
 
@@ -144,11 +145,7 @@ class GlyphCompiler(BaseCompiler):
         num_contours = imported["num_contours"]  # -1 for composite, so we don't count
         self.write_value(num_contours)
         endpoints = imported.get("endpoints", [])
-        if num_contours >= 0 and len(endpoints) != num_contours:
-            logger.warning(
-                f"Imported binary glyph: Number of contours ({num_contours}) doesn't "
-                f"match length of endpoints array ({len(endpoints)})"
-            )
+        check_count(endpoints, max(num_contours, 0), "imported contour endpoints")
         for endpoint in endpoints:
             self.write_value(endpoint, signed=False)
         nodes = imported.get("nodes", [])
-- 
2.43.0


From 512867fd6c36537cf849918782603e4b4a7abdca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:09 +0000
Subject: [PATCH 70/75] fix: refuse kerning pairs with the wrong number of
 values

---
 src/vfbLib/compilers/glyph.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/vfbLib/compilers/glyph.py b/src/vfbLib/compilers/glyph.py
index 1432fa9..aae45b9 100644
--- a/src/vfbLib/compilers/glyph.py
+++ b/src/vfbLib/compilers/glyph.py
@@ -281,6 +281,7 @@ class GlyphCompiler(BaseCompiler):
         self.write_value(len(kerning))
         for gid, values in kerning.items():
             self.write_value(gid)
+            check_count(values, self.num_masters, "kerning pair")
             for value in values:
                 self.write_value(value)
 
-- 
2.43.0


From fce8bddee38f638664518b979ea74259647aeae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:18 +0000
Subject: [PATCH 71/75] fix: keep all TrueType zones which share a name in the
 UFO

---
 src/vfbLib/ufo/builder.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/vfbLib/ufo/builder.py b/src/vfbLib/ufo/builder.py
index 542418f..871b295 100644
--- a/src/vfbLib/ufo/builder.py
+++ b/src/vfbLib/ufo/builder.py
@@ -371,7 +371,12 @@ class VfbToUfoBuilder:
                 )
                 name = dz["name"]
                 if name in self.tt_zones:
-                    logger.warning(f"Duplicate zone name: {name}, overwriting.")
+                    # Make zone names unique
+                    logger.warning(f"Duplicate zone name: {name}, renaming.")
+                    i = 1
+                    while f"{name}#{i}" in self.tt_zones:
+                        i += 1
+                    name = f"{name}#{i}"
                 self.tt_zones[name] = zone
                 self.tt_zone_names.append(name)  # for deltas
                 self.zone_names[d].append(name)  # for AlignTop/AlignBottom
-- 
2.43.0


From d1a3810a7ea7e49e3bfe7d55c3ba8ef92c0f58fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:39:27 +0000
Subject: [PATCH 72/75] fix: refuse to add rotated or skewed components,
 instead of adding them upright

---
 src/vfbLib/vfb/pens.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/vfbLib/vfb/pens.py b/src/vfbLib/vfb/pens.py
index 9697fbe..7f8facd 100644
--- a/src/vfbLib/vfb/pens.py
+++ b/src/vfbLib/vfb/pens.py
@@ -136,6 +136,10 @@ class VfbGlyphPointPen(AbstractPointPen):
             raise KeyError(f"Base glyph not found: '{baseGlyphName}'")
 
         xx, xy, yx, yy, dx, dy = transformation
+        if xy or yx:
+            # VFB components can only be scaled and moved
+            print(f"Unsupported component transformation: {transformation}")
+            raise ValueError
 
         if not isinstance(self.target, dict):
             raise TypeError
-- 
2.43.0


From 2b821610b53f9d579391d090c65ae3c939b3f4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:41:36 +0000
Subject: [PATCH 73/75] fix: forget the lib and the master index of the
 previous font when a new one is read

---
 src/vfbLib/vfb/vfb.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/vfbLib/vfb/vfb.py b/src/vfbLib/vfb/vfb.py
index 738e844..5064749 100644
--- a/src/vfbLib/vfb/vfb.py
+++ b/src/vfbLib/vfb/vfb.py
@@ -142,7 +142,9 @@ class Vfb:
         self._glyphs = {}
         self.glyph_order = []
         self.info = VfbInfo(vfb=self)
+        self.lib = {}
         self.encoding = "utf-8"
+        self.master_index = 0
         self.num_masters = 0
         self.ttStemsV_count = 0
         self.ttStemsH_count = 0
-- 
2.43.0


From 304f346363cf839f4e8661f23ff6b025f845c056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:31 +0000
Subject: [PATCH 74/75] fix: don't add repeated bits of a bit list up to
 another bit

---
 src/vfbLib/helpers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vfbLib/helpers.py b/src/vfbLib/helpers.py
index c2c9b6b..aa4b2ff 100644
--- a/src/vfbLib/helpers.py
+++ b/src/vfbLib/helpers.py
@@ -25,7 +25,7 @@ def binaryToIntList(value: int, start: int = 0) -> list[int]:
 def intListToBinary(bits: "Iterable[int]") -> int:
     value = 0
     for bit in bits:
-        value += 2**bit
+        value |= 1 << bit
     return value
 
 
-- 
2.43.0


From f3735d33a8757eeb4342f0466f906a57fe81a424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:47:51 +0000
Subject: [PATCH 75/75] fix: rename kerning classes in pair positionings with
 any white space, also beside other statements

---
 src/vfbLib/ufo/features.py | 39 ++++++++++++++++++--------------------
 1 file changed, 18 insertions(+), 21 deletions(-)

diff --git a/src/vfbLib/ufo/features.py b/src/vfbLib/ufo/features.py
index 738fbf5..fa69d3a 100644
--- a/src/vfbLib/ufo/features.py
+++ b/src/vfbLib/ufo/features.py
@@ -1,4 +1,18 @@
-from re import search
+from re import Match, compile
+
+# A pair positioning statement, at the beginning of the line or after another statement
+_pair_pos = compile(
+    r"((?:^|[;{])\s*(?:enum(?:erate)?\s+)?pos(?:ition)?\s+)(\S+)(\s+)(\S+)(?=\s+\S)"
+)
+
+
+def _rename_kern_classes(match: Match[str]) -> str:
+    start, L, space, R = match.groups()
+    if L.startswith("@_"):
+        L = f"@public.kern1.{L[1:]}"
+    if R.startswith("@_"):
+        R = f"@public.kern2.{R[1:]}"
+    return f"{start}{L}{space}{R}"
 
 
 def rename_kern_classes_in_feature_code(data: list[str]) -> list[str]:
@@ -8,25 +22,8 @@ def rename_kern_classes_in_feature_code(data: list[str]) -> list[str]:
     """
     features = []
     for line in data:
-        if "#" in line:
-            code, comment = line.split("#", 1)
-        else:
-            code = line
-            comment = None
-
-        if m := search(r"^([\t\s]*)(enum )?(pos) +([\S]+) ([\S]+) +([\S]+.*)$", code):
-            indent, enum, pos, L, R, value = m.groups()
-            if L.startswith("@_"):
-                L = f"@public.kern1.{L[1:]}"
-            if R.startswith("@_"):
-                R = f"@public.kern2.{R[1:]}"
-            if enum is None:
-                enum = ""
-            code = f"{indent}{enum}{pos} {L} {R} {value}"
-            if comment:
-                code += f"#{comment}"
-            features.append(code)
-        else:
-            features.append(line)
+        code, hash_sign, comment = line.partition("#")
+        code = _pair_pos.sub(_rename_kern_classes, code)
+        features.append(f"{code}{hash_sign}{comment}")
 
     return features
-- 
2.43.0

