From 4bbb54ff65a33f2be09db26c183b7c7dd22ecdcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:22 +0000
Subject: [PATCH 01/23] fix: get_char_substring with a non-negative start and a
 negative end

The end is already relative to the start, so it is the slice's length.
Subtracting the start again gave too short or wrapped lengths.
---
 src/Ystring/AlgorithmUtilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Ystring/AlgorithmUtilities.cpp b/src/Ystring/AlgorithmUtilities.cpp
index 56da7d8..30821c4 100644
--- a/src/Ystring/AlgorithmUtilities.cpp
+++ b/src/Ystring/AlgorithmUtilities.cpp
@@ -65,7 +65,7 @@ namespace ystring
         {
             auto s = get_capped_char_pos(str, start_index);
             auto e = get_capped_char_pos(str.substr(s), end_index);
-            return {s, e - s};
+            return {s, e};
         }
         else
         {
-- 
2.43.0


From bb31e0c414d94507ecff3d9e2360d96112bd1253 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:22 +0000
Subject: [PATCH 02/23] fix: get_codepoint_substring with a negative start and
 a non-negative end

The function returned an offset where a length is expected.
---
 src/Ystring/AlgorithmUtilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Ystring/AlgorithmUtilities.cpp b/src/Ystring/AlgorithmUtilities.cpp
index 30821c4..a96793e 100644
--- a/src/Ystring/AlgorithmUtilities.cpp
+++ b/src/Ystring/AlgorithmUtilities.cpp
@@ -103,7 +103,7 @@ namespace ystring
         {
             auto s = get_capped_codepoint_pos(str, start_index);
             auto e = get_capped_codepoint_pos(str, end_index);
-            return {s, std::max(s, e)};
+            return {s, e > s ? e - s : 0};
         }
     }
 
-- 
2.43.0


From e480b8732d8cf6b654397c9ca909c87bfdda0ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:22 +0000
Subject: [PATCH 03/23] fix: substring ranges with a negative end at or before
 a negative start

An empty slice was returned as the prefix of the string that ends at
the end index.
---
 src/Ystring/AlgorithmUtilities.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Ystring/AlgorithmUtilities.cpp b/src/Ystring/AlgorithmUtilities.cpp
index a96793e..115e731 100644
--- a/src/Ystring/AlgorithmUtilities.cpp
+++ b/src/Ystring/AlgorithmUtilities.cpp
@@ -47,8 +47,8 @@ namespace ystring
                                       ptrdiff_t start_index,
                                       ptrdiff_t end_index)
     {
-        if (end_index < start_index && (start_index >= 0) == (end_index >= 0))
-            end_index = start_index;
+        if (end_index <= start_index && (start_index >= 0) == (end_index >= 0))
+            return {get_capped_char_pos(str, start_index), 0};
         if (start_index >= 0 && end_index >= 0)
         {
             auto s = get_capped_char_pos(str, start_index);
@@ -79,8 +79,8 @@ namespace ystring
                                            ptrdiff_t start_index,
                                            ptrdiff_t end_index)
     {
-        if (end_index < start_index && (start_index >= 0) == (end_index >= 0))
-            end_index = start_index;
+        if (end_index <= start_index && (start_index >= 0) == (end_index >= 0))
+            return {get_capped_codepoint_pos(str, start_index), 0};
         if (start_index >= 0 && end_index >= 0)
         {
             auto s = get_capped_codepoint_pos(str, start_index);
-- 
2.43.0


From 103c12162425793fefd733eb421a2bf26a73860b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:22 +0000
Subject: [PATCH 04/23] fix: TokenIterator::token() returned text following the
 token

---
 include/Ystring/TokenIterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Ystring/TokenIterator.hpp b/include/Ystring/TokenIterator.hpp
index 0d211df..b1ea289 100644
--- a/include/Ystring/TokenIterator.hpp
+++ b/include/Ystring/TokenIterator.hpp
@@ -52,7 +52,7 @@ namespace ystring
         {
             if (!m_token)
                 return {};
-            return m_str.substr(m_token.start(), m_token.end());
+            return m_str.substr(m_token.start(), m_token.length);
         }
 
         [[nodiscard]] std::string_view remainder() const
-- 
2.43.0


From ce1ab1da6e38b392609379f523aada8e17e9543f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:22 +0000
Subject: [PATCH 05/23] fix: split with max_splits 0 lost the whole string

---
 include/Ystring/Algorithms.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Ystring/Algorithms.hpp b/include/Ystring/Algorithms.hpp
index 12eb689..64fa11d 100644
--- a/include/Ystring/Algorithms.hpp
+++ b/include/Ystring/Algorithms.hpp
@@ -520,7 +520,7 @@ namespace ystring
             if (!params.ignore_empty || !part.empty())
                 result.push_back(part);
         }
-        if (it)
+        if (it || params.max_splits == 0)
         {
             auto remainder = it.remainder();
             if (!params.ignore_empty || !remainder.empty())
-- 
2.43.0


From fbc828adad7402720a70a0f50bdddf894b5f36ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:22 +0000
Subject: [PATCH 06/23] fix: escape sequences cut short by the end of the
 string

find_first_escaped_char returned a range that extended beyond the string
for octal escapes and incomplete \u and \U escapes at the end of it, which
made unescape read and copy from outside the string.
---
 src/Ystring/Unescape.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Ystring/Unescape.cpp b/src/Ystring/Unescape.cpp
index 0a2ebdf..29c9772 100644
--- a/src/Ystring/Unescape.cpp
+++ b/src/Ystring/Unescape.cpp
@@ -28,7 +28,8 @@ namespace ystring
         size_t find_first_where(std::string_view str, size_t start, size_t end,
                                 Pred pred)
         {
-            for (size_t i = start; i < std::min(str.size(), end); ++i)
+            end = std::min(str.size(), end);
+            for (size_t i = start; i < end; ++i)
             {
                 if (pred(str[i]))
                     return i;
-- 
2.43.0


From 24e6f52d0cbc5674b3cc96e893dfded3040d4526 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:22 +0000
Subject: [PATCH 07/23] fix: hexadecimal escapes with values above U+10FFFF

unescape used an uninitialized value if the escaped value did not fit in
32 bits, and silently removed the other invalid values.
---
 src/Ystring/Unescape.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Ystring/Unescape.cpp b/src/Ystring/Unescape.cpp
index 29c9772..0bbdfe4 100644
--- a/src/Ystring/Unescape.cpp
+++ b/src/Ystring/Unescape.cpp
@@ -61,7 +61,8 @@ namespace ystring
             auto res = std::from_chars(str.data() + 2,
                                        str.data() + str.size(),
                                        value, 16);
-            if (res.ptr == str.data() + 2)
+            if (res.ptr == str.data() + 2 || res.ec != std::errc()
+                || value > UNICODE_MAX)
             {
                 YSTRING_THROW("Cannot parse escaped char: "
                               + std::string(str));
-- 
2.43.0


From 95e4b0f3635ccd0016297184fadcbf7908bd52da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:22 +0000
Subject: [PATCH 08/23] fix: unescape threw if an escape sequence was near an
 unpaired surrogate

The search for the second surrogate looked at escape sequences that were
cut off by its 6-byte window.
---
 src/Ystring/Unescape.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Ystring/Unescape.cpp b/src/Ystring/Unescape.cpp
index 0bbdfe4..14a3cdc 100644
--- a/src/Ystring/Unescape.cpp
+++ b/src/Ystring/Unescape.cpp
@@ -98,6 +98,8 @@ namespace ystring
 
             // Look for the second part of a surrogate pair.
             auto str2 = str.substr(sub.end(), 6);
+            if (str2.substr(0, 2) != "\\u")
+                return {ch, sub};
             auto sub2 = find_first_escaped_char(str2);
             if (!sub2 || sub2.offset != 0 || sub2.length != 6)
                 return {ch, sub};
-- 
2.43.0


From 025dff289c026b3a2f4f0ef18cba88981b458501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:22 +0000
Subject: [PATCH 09/23] fix: find_composed's table lookup

The lookup compared with the end of the wrong table and read past the end
of the right one, never found pairs where the first code point is U+1000
or above because the entry was truncated to 32 bits, and mistook code
points above U+FFFFF for others.
---
 src/Ystring/Normalize.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Ystring/Normalize.cpp b/src/Ystring/Normalize.cpp
index 8affe78..0f4739c 100644
--- a/src/Ystring/Normalize.cpp
+++ b/src/Ystring/Normalize.cpp
@@ -32,13 +32,13 @@ namespace ystring
 
         char32_t find_composed(char32_t ch, char32_t mark)
         {
-            if (mark < 0x300)
+            if (mark < 0x300 || mark > 0xFFFFF)
                 return 0;
             auto key = (uint64_t(ch) << 20u) | uint64_t(mark);
             auto it = std::lower_bound(std::begin(TO_COMPOSED),
                                        std::end(TO_COMPOSED),
                                        key << 20u);
-            if (it == std::end(TO_DECOMPOSED) || char32_t(*it >> 20u) != key)
+            if (it == std::end(TO_COMPOSED) || (*it >> 20u) != key)
                 return 0;
             return char32_t(*it & 0xFFFFFu);
         }
-- 
2.43.0


From ef0f1b9a0d646913a58a42dd5c2cfeafaf14ed11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:22 +0000
Subject: [PATCH 10/23] fix: decomposing characters that expand to four code
 points

The size of the expansion was calculated by following the wrong part, and
to_decomposed never terminated for characters like U+1F82.
---
 src/Ystring/Normalize.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Ystring/Normalize.cpp b/src/Ystring/Normalize.cpp
index 0f4739c..93997b4 100644
--- a/src/Ystring/Normalize.cpp
+++ b/src/Ystring/Normalize.cpp
@@ -50,7 +50,7 @@ namespace ystring
             while (mark)
             {
                 ++n;
-                std::tie(norm, mark) = find_decomposed(mark);
+                std::tie(norm, mark) = find_decomposed(norm);
             }
             return n;
         }
-- 
2.43.0


From 8129d90d8b1aed8da6f72884865dc705cf5c4202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:22 +0000
Subject: [PATCH 11/23] fix: to_composed lost the character after a composed
 one

---
 src/Ystring/Normalize.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Ystring/Normalize.cpp b/src/Ystring/Normalize.cpp
index 93997b4..6c51abd 100644
--- a/src/Ystring/Normalize.cpp
+++ b/src/Ystring/Normalize.cpp
@@ -134,6 +134,7 @@ namespace ystring
                     ch = denorm;
                     from = prev = to = it;
                 }
+                prev = it;
                 auto out = std::back_inserter(result);
                 encode_utf8(ch, out);
             }
-- 
2.43.0


From f4474c86420e754d5015f46e5378fb7a2d49a02e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:22 +0000
Subject: [PATCH 12/23] fix: replace never terminated if the from-string was
 empty

---
 src/Ystring/Algorithms.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Ystring/Algorithms.cpp b/src/Ystring/Algorithms.cpp
index 7e310e6..3459c12 100644
--- a/src/Ystring/Algorithms.cpp
+++ b/src/Ystring/Algorithms.cpp
@@ -355,6 +355,8 @@ namespace ystring
                         std::string_view to,
                         ptrdiff_t max_replacements)
     {
+        if (from.empty())
+            return std::string(str);
         std::string result;
         if (max_replacements >= 0)
         {
-- 
2.43.0


From 0d99dc557888f0954efd56145234a621b86a9058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:22 +0000
Subject: [PATCH 13/23] fix: unterminated arrays were used as null-terminated
 strings

The whitespace and newline arrays decay to pointers when they are converted
to std::u32string_view, so whatever followed them in memory was regarded as
whitespace and newlines too.
---
 include/Ystring/Algorithms.hpp |  4 ++--
 src/Ystring/Algorithms.cpp     | 11 ++---------
 2 files changed, 4 insertions(+), 11 deletions(-)

diff --git a/include/Ystring/Algorithms.hpp b/include/Ystring/Algorithms.hpp
index 64fa11d..ab89701 100644
--- a/include/Ystring/Algorithms.hpp
+++ b/include/Ystring/Algorithms.hpp
@@ -26,8 +26,8 @@
 
 namespace ystring
 {
-    constexpr char32_t ASCII_WHITESPACE[] = {' ', '\t', '\n', '\r', '\f', '\v'};
-    constexpr char32_t COMMON_WHITESPACE[] = {' ', '\t', '\n', '\r'};
+    constexpr std::u32string_view ASCII_WHITESPACE = U" \t\n\r\f\v";
+    constexpr std::u32string_view COMMON_WHITESPACE = U" \t\n\r";
 
     inline std::string_view to_string_view(std::u8string_view str)
     {
diff --git a/src/Ystring/Algorithms.cpp b/src/Ystring/Algorithms.cpp
index 3459c12..7bc7bd9 100644
--- a/src/Ystring/Algorithms.cpp
+++ b/src/Ystring/Algorithms.cpp
@@ -17,15 +17,8 @@ namespace ystring
 {
     namespace
     {
-        constexpr char32_t NEWLINES[] = {
-            '\n',
-            '\v',
-            '\f',
-            '\r',
-            NEXT_LINE,
-            LINE_SEPARATOR,
-            PARAGRAPH_SEPARATOR
-        };
+        constexpr std::u32string_view NEWLINES =
+            U"\n\v\f\r\u0085\u2028\u2029";
     }
 
     std::string& append(std::string& str, char32_t chr)
-- 
2.43.0


From a86326bc9da39097155d4bd5a207724078e0b2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:09 +0000
Subject: [PATCH 14/23] fix: character classes of the ranges with only a first
 and last entry

Most code points in the CJK and Tangut ranges were classified as unassigned
because the generator's list of such ranges was out of date. The generator
now uses the names in the Unicode data file.
---
 src/Ystring/CharClassTables.hpp                  | 16 ++++++++--------
 .../make_char_class_file.py                      |  5 +----
 2 files changed, 9 insertions(+), 12 deletions(-)

diff --git a/src/Ystring/CharClassTables.hpp b/src/Ystring/CharClassTables.hpp
index 973d811..c7fe4ad 100644
--- a/src/Ystring/CharClassTables.hpp
+++ b/src/Ystring/CharClassTables.hpp
@@ -248,8 +248,8 @@ namespace ystring
         0x0188201E, 0x018980BE, 0x018C78BE, 0x018C8816, 0x018CA80B,
         0x018CF816, 0x018DF805, 0x018F2816, 0x018F7BD6, 0x018FF805,
         0x0190FADE, 0x0191480B, 0x01923816, 0x01928176, 0x0192F80B,
-        0x0193F816, 0x0194480B, 0x01958016, 0x0195F80B, 0x01A002C5,
-        0x026DFBC5, 0x027002C5, 0x04FFF01E, 0x0500A8A4, 0x05246005,
+        0x0193F816, 0x0194480B, 0x01958016, 0x0195F80B, 0x019FF816,
+        0x026DF805, 0x026FF816, 0x0500A8A4, 0x05246005,
         0x0524781E, 0x05263016, 0x0526781E, 0x0527B805, 0x0527E804,
         0x0527F812, 0x053060A4, 0x05307812, 0x0530F805, 0x05314809,
         0x05315805, 0x0531F81E, 0x05336C02, 0x053378A6, 0x05339912,
@@ -426,8 +426,8 @@ namespace ystring
         0x0B71F81E, 0x0B72F801, 0x0B73F802, 0x0B74B00B, 0x0B74D012,
         0x0B77F81E, 0x0B7A5005, 0x0B7A7BC6, 0x0B7A8005, 0x0B7C3807,
         0x0B7C701E, 0x0B7C9006, 0x0B7CF804, 0x0B7EF81E, 0x0B7F1092,
-        0x0B7F2086, 0x0B7F781E, 0x0B7F8807, 0x0B8003C5, 0x0C3FBBC5,
-        0x0C3FF81E, 0x0C66A805, 0x0C67F01E, 0x0C680005, 0x0C6843C5,
+        0x0B7F2086, 0x0B7F781E, 0x0B7F8807, 0x0B7FF81E, 0x0C3FB805,
+        0x0C3FF81E, 0x0C66A805, 0x0C67F01E, 0x0C684005,
         0x0D7F781E, 0x0D7FA09E, 0x0D7FE09E, 0x0D7FF89E, 0x0D891005,
         0x0D8993C5, 0x0D8A781E, 0x0D8A9005, 0x0D8AABC5, 0x0D8B181E,
         0x0D8B3805, 0x0D8B781E, 0x0D97D805, 0x0DDFF81E, 0x0DE35005,
@@ -491,10 +491,10 @@ namespace ystring
         0x0FD36816, 0x0FD3781E, 0x0FD3E016, 0x0FD3F81E, 0x0FD44816,
         0x0FD4701E, 0x0FD63016, 0x0FD6681E, 0x0FD6E016, 0x0FD6F01E,
         0x0FD74816, 0x0FD7781E, 0x0FD7C016, 0x0FD7F81E, 0x0FDC9ADE,
-        0x0FDF7816, 0x0FDFC809, 0x100003C5, 0x1536FBC5, 0x153803C5,
-        0x15B9CBC5, 0x15B9F81E, 0x15C0E805, 0x15C103C5, 0x16750BC5,
-        0x167583C5, 0x175F03C5, 0x175F83C5, 0x1772EBC5, 0x17BFF81E,
-        0x17D0E805, 0x180003C5, 0x189A53C5, 0x189A83C5, 0x191D7BC5,
+        0x0FDF7816, 0x0FDFC809, 0x0FFFF81E, 0x1536F805, 0x1537F81E,
+        0x15B9C805, 0x15B9F81E, 0x15C0E805, 0x15C0F81E, 0x16750805,
+        0x1675781E, 0x175F0005, 0x175F781E, 0x1772E805, 0x17BFF81E,
+        0x17D0E805, 0x17FFF81E, 0x189A5005, 0x189A781E, 0x191D7805,
         0x70000BDB, 0x7000F81E, 0x7003F81B, 0x7007F81E, 0x700F7806,
         0x77FFF81E, 0x7FFFE81D, 0x7FFFF81E, 0x87FFE81D
     };
diff --git a/tools/unicode_character_tables/make_char_class_file.py b/tools/unicode_character_tables/make_char_class_file.py
index adb8c1a..a0a4ec8 100644
--- a/tools/unicode_character_tables/make_char_class_file.py
+++ b/tools/unicode_character_tables/make_char_class_file.py
@@ -127,9 +127,6 @@ ClassNames = {
     "XLu":  "Alternating upper and lower case, ends on upper"
 }
 
-KnownRanges = {0x4DB5, 0x9FCC, 0xD7A3, 0xDB7F, 0xDBFF, 0xDFFF, 0xF8FF,
-               0x2A6D6, 0x2B734, 0x2B81D, 0xFFFFD, 0x10FFFD}
-
 
 Template = """\
 //****************************************************************************
@@ -175,7 +172,7 @@ def get_class_ranges(file_name):
         parts = line.split(";")
         char_class = parts[2]
         char_id = int(parts[0], 16)
-        if (char_id == range_end + 1 or char_id in KnownRanges) and char_class == range_class:
+        if (char_id == range_end + 1 or parts[1].endswith(", Last>")) and char_class == range_class:
             range_end = char_id
         else:
             if range_class:
-- 
2.43.0


From 557f1d06fbf41c5ac6f32fb52c2e94dc109869aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:09 +0000
Subject: [PATCH 15/23] fix: get_char_class for values that do not fit in 21
 bits

The upper bits were shifted out, and e.g. INVALID_CHAR was looked up as a
different code point.
---
 src/Ystring/CharClass.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Ystring/CharClass.cpp b/src/Ystring/CharClass.cpp
index f656947..22b1b9c 100644
--- a/src/Ystring/CharClass.cpp
+++ b/src/Ystring/CharClass.cpp
@@ -10,6 +10,7 @@
 #include <algorithm>
 #include <iterator>
 #include "CharClassTables.hpp"
+#include "Ystring/CodepointConstants.hpp"
 
 // What are the values in the COMPLETE_CHAR_CLASSES table?
 //
@@ -62,6 +63,8 @@ namespace ystring
     {
         if (code_point < 128)
             return CharClass_t(1u << ASCII_CHAR_CLASSES[code_point]);
+        if (code_point > UNICODE_MAX)
+            return CharClass::UNASSIGNED;
         char32_t key = code_point << CODE_POINT_SHIFT;
         auto it = std::lower_bound(
             std::begin(COMPLETE_CHAR_CLASSES),
-- 
2.43.0


From 14142a0d3998f0f1d64a3b8bb4ea723310e04716 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:09 +0000
Subject: [PATCH 16/23] fix: CodepointSet::case_insensitive_contains for ranges

The upper case mapping of a range's ends says nothing about the mapping of
its members: [_-b] did not contain '_', and [a-~] contained '['.
---
 src/Ystring/Char32Set.cpp | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/src/Ystring/Char32Set.cpp b/src/Ystring/Char32Set.cpp
index d033793..1a15eb7 100644
--- a/src/Ystring/Char32Set.cpp
+++ b/src/Ystring/Char32Set.cpp
@@ -13,6 +13,28 @@
 
 namespace ystring
 {
+    namespace
+    {
+        bool range_contains(const CodepointRange& range, char32_t cp)
+        {
+            auto upper = to_upper(cp);
+            if ((range.first <= cp && cp <= range.second)
+                || (range.first <= upper && upper <= range.second))
+            {
+                return true;
+            }
+
+            // Nothing above UNICODE_MAX has an upper case mapping.
+            auto last = std::min(range.second, UNICODE_MAX);
+            for (auto c = range.first; c <= last; ++c)
+            {
+                if (to_upper(c) == upper)
+                    return true;
+            }
+            return false;
+        }
+    }
+
     void CodepointSet::add_range(char32_t first, char32_t last)
     {
         ranges.emplace_back(first, last);
@@ -44,10 +66,7 @@ namespace ystring
         return std::any_of(ranges.begin(), ranges.end(),
                            [&](auto& r)
                            {
-                               if (r.first == r.second)
-                                   return case_insensitive_equal(cp, r.first);
-                               return !case_insensitive_less(cp, r.first)
-                                      && !case_insensitive_less(r.second, cp);
+                               return range_contains(r, cp);
                            }) != negated;
     }
 
-- 
2.43.0


From 31183d8f8e63b6a673306369f5821c0f03a20ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:09 +0000
Subject: [PATCH 17/23] fix: shift count in decode_prev

The number of bits to shift grew beyond 31 in sequences of more than five
continuation bytes.
---
 include/Ystring/DecodeUtf8.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/Ystring/DecodeUtf8.hpp b/include/Ystring/DecodeUtf8.hpp
index 412db80..300fdee 100644
--- a/include/Ystring/DecodeUtf8.hpp
+++ b/include/Ystring/DecodeUtf8.hpp
@@ -100,7 +100,8 @@ namespace ystring
                     ++it;
                 return INVALID_CHAR;
             }
-            result |= (uint8_t(*it) & 0x3Fu) << (n * 6u);
+            if (n < 3)
+                result |= (uint8_t(*it) & 0x3Fu) << (n * 6u);
             ++n;
             --it;
         }
-- 
2.43.0


From f777c58424777179a1475f8b184459bfe562c86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:09 +0000
Subject: [PATCH 18/23] fix: unescape_next moved the start of the string when
 it failed

Escaped newlines before an invalid character were not restored.
---
 src/Ystring/Unescape.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/Ystring/Unescape.cpp b/src/Ystring/Unescape.cpp
index 14a3cdc..d88dd5f 100644
--- a/src/Ystring/Unescape.cpp
+++ b/src/Ystring/Unescape.cpp
@@ -299,8 +299,8 @@ namespace ystring
         return char32_t(value);
     }
 
-    std::optional<char32_t>
-    unescape_next(std::string_view& str, bool* did_unescape)
+    static std::optional<char32_t>
+    unescape_next_impl(std::string_view& str, bool* did_unescape)
     {
         while (str.size() > 1 && str[0] == '\\' && str[1] == '\n')
             str.remove_prefix(2);
@@ -366,4 +366,13 @@ namespace ystring
             throw;
         }
     }
+
+    std::optional<char32_t>
+    unescape_next(std::string_view& str, bool* did_unescape)
+    {
+        auto rest = str;
+        auto result = unescape_next_impl(rest, did_unescape);
+        str = rest;
+        return result;
+    }
 }
-- 
2.43.0


From 1a50ab0096eb8d2b6d1147c54f1c215b88ace254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:09 +0000
Subject: [PATCH 19/23] fix: negation of the smallest ptrdiff_t value in
 replace and get_codepoint_pos

---
 src/Ystring/Algorithms.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Ystring/Algorithms.cpp b/src/Ystring/Algorithms.cpp
index 7bc7bd9..b198de3 100644
--- a/src/Ystring/Algorithms.cpp
+++ b/src/Ystring/Algorithms.cpp
@@ -248,7 +248,7 @@ namespace ystring
 
     size_t get_codepoint_pos(std::string_view str, ptrdiff_t pos)
     {
-        if (std::abs(pos) > ptrdiff_t(str.size()))
+        if (pos > ptrdiff_t(str.size()) || pos < -ptrdiff_t(str.size()))
             return std::string_view::npos;
         if (pos >= 0)
         {
@@ -369,7 +369,7 @@ namespace ystring
         else
         {
             size_t prev = 0;
-            auto matches = find_last_n(str, from, -max_replacements);
+            auto matches = find_last_n(str, from, size_t(0) - size_t(max_replacements));
             for (auto it = matches.rbegin(); it != matches.rend(); ++it)
             {
                 if (it->offset != prev)
-- 
2.43.0


From 6013e8ccb9435365c04b87af93a63704560cd8b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:01 +0000
Subject: [PATCH 20/23] fix: add_codepoint lost code points added after an
 empty range

Extending a range whose last value is less than its first, e.g. adding 4
after the range 5-3, leaves it empty.
---
 src/Ystring/Char32Set.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Ystring/Char32Set.cpp b/src/Ystring/Char32Set.cpp
index 1a15eb7..2f50e32 100644
--- a/src/Ystring/Char32Set.cpp
+++ b/src/Ystring/Char32Set.cpp
@@ -42,7 +42,8 @@ namespace ystring
 
     void CodepointSet::add_codepoint(char32_t cp)
     {
-        if (!ranges.empty() && ranges.back().second + 1 == cp)
+        if (!ranges.empty() && ranges.back().first < cp
+            && ranges.back().second + 1 == cp)
             ranges.back().second = cp;
         else
             add_range(cp, cp);
-- 
2.43.0


From 7c9cd4cb78c2d609d1795d918b3b0c69a7538a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:43 +0000
Subject: [PATCH 21/23] fix: unescape_next threw if an unpaired surrogate was
 followed by an invalid escape

The error belongs to the next call, when the invalid escape sequence is
the next character.
---
 src/Ystring/Unescape.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/Ystring/Unescape.cpp b/src/Ystring/Unescape.cpp
index d88dd5f..0e7e9aa 100644
--- a/src/Ystring/Unescape.cpp
+++ b/src/Ystring/Unescape.cpp
@@ -274,6 +274,8 @@ namespace ystring
             return ch;
 
         str2.remove_prefix(2);
+        if (find_end_of_hex_sequence(str2, 0, 4) != 4)
+            return ch;
         auto ch2 = extract_hex_char(str2, 4, 4);
         if (ch2 < 0xDC00 || 0xDFFF < ch2)
             return ch;
-- 
2.43.0


From d67d43fbabc664c8deacc0e84fca9157d098af5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:00 +0000
Subject: [PATCH 22/23] fix: a token finder that throws leaves the token
 iterator as it was

TokenIterator::next() advanced its string before calling the finder. After
an exception (for instance a malformed sequence found by find_first_of) the
observers showed the wrong pieces, and calling next() again skipped text or
threw std::out_of_range.
---
 include/Ystring/TokenIterator.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/Ystring/TokenIterator.hpp b/include/Ystring/TokenIterator.hpp
index b1ea289..d3742f1 100644
--- a/include/Ystring/TokenIterator.hpp
+++ b/include/Ystring/TokenIterator.hpp
@@ -28,11 +28,14 @@ namespace ystring
 
         bool next()
         {
+            auto str = m_str;
             if (m_token)
-                m_str = m_str.substr(m_token.end());
+                str = m_str.substr(m_token.end());
             else if (m_token.start() != 0)
                 return false;
-            m_token = m_finder(m_str);
+            // Nothing must have changed if the finder throws an exception.
+            m_token = m_finder(str);
+            m_str = str;
             if (!m_token)
                 m_token.offset = SIZE_MAX;
             return true;
-- 
2.43.0


From 5bfd5736a5b81b9d2f98e75557f37abe91493c3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:04 +0000
Subject: [PATCH 23/23] fix: runs of more than 2^32 continuation bytes are
 counted exactly

---
 include/Ystring/DecodeUtf8.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/Ystring/DecodeUtf8.hpp b/include/Ystring/DecodeUtf8.hpp
index 300fdee..4abdc10 100644
--- a/include/Ystring/DecodeUtf8.hpp
+++ b/include/Ystring/DecodeUtf8.hpp
@@ -91,12 +91,12 @@ namespace ystring
             return uint8_t(*it);
 
         char32_t result = 0;
-        unsigned n = 0;
+        size_t n = 0;
         while ((uint8_t(*it) & 0xC0u) == 0x80)
         {
             if (it == begin)
             {
-                for (unsigned i = 0; i <= n; ++i)
+                for (size_t i = 0; i <= n; ++i)
                     ++it;
                 return INVALID_CHAR;
             }
@@ -114,7 +114,7 @@ namespace ystring
         else if ((c & 0xF8u) == 0xF0 && n == 3)
             return result | ((c & 0x07u) << 18u);
 
-        for (unsigned i = 0; i <= n; ++i)
+        for (size_t i = 0; i <= n; ++i)
             ++it;
         return INVALID_CHAR;
     }
@@ -130,7 +130,7 @@ namespace ystring
         if ((c & 0x80u) == 0)
             return true;
 
-        uint32_t n;
+        size_t n;
         if ((c & 0xE0u) == 0xC0)
             n = 1;
         else if ((c & 0xF0u) == 0xE0)
@@ -138,7 +138,7 @@ namespace ystring
         else if ((c & 0xF8u) == 0xF0)
             n = 3;
         else
-            n = UINT32_MAX;
+            n = SIZE_MAX;
 
         while (it != end && (uint8_t(*it) & 0xC0u) == 0x80 && n-- > 0)
             ++it;
@@ -152,7 +152,7 @@ namespace ystring
         if (it == begin)
             return false;
 
-        uint32_t n = 0;
+        size_t n = 0;
         while ((uint8_t(*(--it)) & 0xC0u) == 0x80)
         {
             if (it == begin)
@@ -161,7 +161,7 @@ namespace ystring
         }
 
         auto c = uint8_t(*it);
-        uint32_t m;
+        size_t m;
         if ((c & 0x80u) == 0)
             m = 1;
         else if ((c & 0xE0u) == 0xC0)
@@ -171,11 +171,11 @@ namespace ystring
         else if ((c & 0xF8u) == 0xF0)
             m = 4;
         else
-            m = UINT32_MAX;
+            m = SIZE_MAX;
 
         if (m >= n + 1)
             return true;
-        for (uint32_t i = 0; i < m; ++i)
+        for (size_t i = 0; i < m; ++i)
             ++it;
         return true;
     }
-- 
2.43.0

