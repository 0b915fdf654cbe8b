From d48f02c884bd56fcd7fe3815f1492e6927e197aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:37 +0000
Subject: [PATCH 001/144] fix: keep raw text lengths in sync after a
 non-terminating closing name in HTML

---
 src/main/cpp/lang/html.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/lang/html.cpp b/src/main/cpp/lang/html.cpp
index 3705701..e0241f7 100644
--- a/src/main/cpp/lang/html.cpp
+++ b/src/main/cpp/lang/html.cpp
@@ -104,8 +104,7 @@ std::size_t match_raw_text(std::u8string_view str, std::u8string_view closing_na
         if (is_html_whitespace(c) || c == u8'>' || c == u8'/') {
             return length;
         }
-        length += 2;
-        str.remove_prefix(2);
+        length = new_length;
     }
     return length;
 }
@@ -153,6 +152,7 @@ match_escapable_raw_text_piece(std::u8string_view str, std::u8string_view closin
         if (is_html_whitespace(c) || c == u8'>' || c == u8'/') {
             return { .raw_length = length, .ref_length = 0 };
         }
+        length = new_length;
     }
     return { .raw_length = length, .ref_length = 0 };
 }
-- 
2.43.0


From b8b50edaaf966ef29a4505366558a4e458b63baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:37 +0000
Subject: [PATCH 002/144] fix: include the closing angle bracket in HTML end
 tags with trailing whitespace

---
 src/main/cpp/lang/html.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/html.cpp b/src/main/cpp/lang/html.cpp
index e0241f7..58974a5 100644
--- a/src/main/cpp/lang/html.cpp
+++ b/src/main/cpp/lang/html.cpp
@@ -252,7 +252,7 @@ End_Tag_Result match_end_tag_permissive(const std::u8string_view str)
         return {};
     }
 
-    return { .length = end_pos, .name_length = name_length };
+    return { .length = end_pos + 1, .name_length = name_length };
 }
 
 namespace {
-- 
2.43.0


From c3fff4ef67777d944e185bd274cc1006a619fdb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:37 +0000
Subject: [PATCH 003/144] fix: do not skip the character following a reference
 in HTML attribute values

---
 src/main/cpp/lang/html.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/lang/html.cpp b/src/main/cpp/lang/html.cpp
index 58974a5..a330c5a 100644
--- a/src/main/cpp/lang/html.cpp
+++ b/src/main/cpp/lang/html.cpp
@@ -454,7 +454,7 @@ private:
             }
         };
 
-        for (; piece_length < remainder.length(); ++piece_length) {
+        while (piece_length < remainder.length()) {
             const char8_t c = remainder[piece_length];
             if (is_html_unquoted_attribute_value_terminator(c)) {
                 flush();
@@ -465,6 +465,9 @@ private:
                 flush();
                 emit_and_advance(ref_length, Highlight_Type::string_escape);
             }
+            else {
+                ++piece_length;
+            }
         }
         flush();
         return true;
@@ -483,7 +486,7 @@ private:
             }
         };
 
-        for (; piece_length < remainder.length(); ++piece_length) {
+        while (piece_length < remainder.length()) {
             const char8_t c = remainder[piece_length];
             if (c == quote_char) {
                 ++piece_length;
@@ -495,6 +498,9 @@ private:
                 flush();
                 emit_and_advance(ref_length, Highlight_Type::string_escape);
             }
+            else {
+                ++piece_length;
+            }
         }
         flush();
         return true;
-- 
2.43.0


From f682b4186e65889a3905636e7480822ff14b5d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:37 +0000
Subject: [PATCH 004/144] fix: make progress and stay in bounds on malformed
 UTF-8 in CSS

---
 src/main/cpp/lang/css.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/lang/css.cpp b/src/main/cpp/lang/css.cpp
index 1a895b2..977774a 100644
--- a/src/main/cpp/lang/css.cpp
+++ b/src/main/cpp/lang/css.cpp
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include <cstddef>
 #include <memory_resource>
 #include <string_view>
@@ -98,7 +99,7 @@ std::size_t match_escaped_code_point(std::u8string_view str)
         }
         return length;
     }
-    return std::size_t(utf8::sequence_length(str[0]));
+    return std::min(std::size_t(utf8::sequence_length(str[0], 1)), str.length());
 }
 
 std::size_t match_ident_sequence(std::u8string_view str)
@@ -398,7 +399,8 @@ public:
                     consume_ident_like_token(contextual_highlight_type);
                 }
                 else {
-                    advance(std::size_t(utf8::sequence_length(c)));
+                    const auto length = std::size_t(utf8::sequence_length(c, 1));
+                    advance(std::min(length, remainder.length()));
                 }
                 break;
             }
-- 
2.43.0


From ceacb9e05e229b88cbc15cf8ba049215270ea9a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:51 +0000
Subject: [PATCH 005/144] fix: do not emit zero-length tokens for empty Lua
 comments and strings

---
 src/main/cpp/lang/lua.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main/cpp/lang/lua.cpp b/src/main/cpp/lang/lua.cpp
index 9c048ad..61fe694 100644
--- a/src/main/cpp/lang/lua.cpp
+++ b/src/main/cpp/lang/lua.cpp
@@ -528,6 +528,10 @@ bool highlight_lua(
 )
 {
     const auto emit = [&](std::size_t begin, std::size_t length, Highlight_Type type) {
+        // Comments and strings may have no content between their delimiters.
+        if (length == 0) {
+            return;
+        }
         const bool coalesce = options.coalescing //
             && !out.empty() //
             && Highlight_Type(out.back().type) == type //
-- 
2.43.0


From f9bbcc83ceec8f2dc96e05973761445e9e99c6eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:51 +0000
Subject: [PATCH 006/144] fix: do not split code points in Lua symbols

---
 src/main/cpp/lang/lua.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/lang/lua.cpp b/src/main/cpp/lang/lua.cpp
index 61fe694..1e23d4a 100644
--- a/src/main/cpp/lang/lua.cpp
+++ b/src/main/cpp/lang/lua.cpp
@@ -684,8 +684,9 @@ bool highlight_lua(
             continue;
         }
 
-        emit(index, 1, Highlight_Type::symbol);
-        index++;
+        const auto [_, units] = utf8::decode_and_length_or_replacement(remainder);
+        emit(index, std::size_t(units), Highlight_Type::symbol);
+        index += std::size_t(units);
     }
 
     return true;
-- 
2.43.0


From b770b4a1c510be1e5e6c6ee6e6afde003e3628c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:30 +0000
Subject: [PATCH 007/144] fix: stay in bounds on truncated UTF-8 in C and C++
 literals

---
 src/main/cpp/lang/cpp.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/main/cpp/lang/cpp.cpp b/src/main/cpp/lang/cpp.cpp
index e50a9c4..9332351 100644
--- a/src/main/cpp/lang/cpp.cpp
+++ b/src/main/cpp/lang/cpp.cpp
@@ -811,9 +811,9 @@ public:
                 fresh_line = true;
                 return;
             }
-            const auto code_units = std::size_t(utf8::sequence_length(source[index], 1));
-            chars_length += code_units;
-            advance(code_units);
+            const auto [_, code_units] = utf8::decode_and_length_or_replacement(remainder());
+            chars_length += std::size_t(code_units);
+            advance(std::size_t(code_units));
         }
 
         // This point is only reached when the literal is unterminated.
-- 
2.43.0


From 542e85030f030f5f9ddf0a5a2e89494613ebce31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:30 +0000
Subject: [PATCH 008/144] fix: do not split code points in erroneous C++
 escapes and raw string delimiters

---
 src/main/cpp/lang/cpp.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/lang/cpp.cpp b/src/main/cpp/lang/cpp.cpp
index 9332351..93aea6d 100644
--- a/src/main/cpp/lang/cpp.cpp
+++ b/src/main/cpp/lang/cpp.cpp
@@ -448,7 +448,8 @@ Escape_Result match_escape_sequence(std::u8string_view str)
     }
 
     default: {
-        return { .length = 2,
+        const auto [_, units] = utf8::decode_and_length_or_replacement(str.substr(1));
+        return { .length = 1 + std::size_t(units),
                  .type = Escape_Type::conditional,
                  .erroneous = !is_cpp_basic(str[1]) };
     }
@@ -837,7 +838,11 @@ public:
             return;
         }
         if (rem[d_char_sequence_length + 1] != u8'(') {
-            emit_and_advance(d_char_sequence_length + 2, Highlight_Type::error);
+            const auto [_, units]
+                = utf8::decode_and_length_or_replacement(rem.substr(d_char_sequence_length + 1));
+            emit_and_advance(
+                d_char_sequence_length + 1 + std::size_t(units), Highlight_Type::error
+            );
             return;
         }
         rem.remove_prefix(d_char_sequence_length + 2);
-- 
2.43.0


From 15428bc49ad9eff92fd42a57264a1052e65b0820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:27 +0000
Subject: [PATCH 009/144] fix: do not split code points in erroneous
 fixed-length hex escapes

---
 include/ulight/impl/escapes.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/ulight/impl/escapes.hpp b/include/ulight/impl/escapes.hpp
index 649b296..a9a0411 100644
--- a/include/ulight/impl/escapes.hpp
+++ b/include/ulight/impl/escapes.hpp
@@ -159,12 +159,14 @@ constexpr Escape_Result match_common_escape(std::u8string_view str)
     else if constexpr (type == Common_Escape::hex_2 || type == Common_Escape::hex_4
                        || type == Common_Escape::hex_8) {
         constexpr std::size_t min_length = escape_type_min_length(type);
-        str = str.substr(0, min(min_length, str.length()));
-        if (str.length() < min_length) {
-            return { .length = str.length(), .erroneous = true };
+        std::size_t length = min(min_length, str.length());
+        const bool erroneous
+            = length < min_length || !all_of(str.substr(0, length), hex_digit_lambda);
+        // An erroneous escape may contain non-ASCII characters, which must not be split.
+        while (length < str.length() && (str[length] & 0xC0) == 0x80) {
+            ++length;
         }
-        const bool all_hex = all_of(str, hex_digit_lambda);
-        return { .length = str.length(), .erroneous = !all_hex };
+        return { .length = length, .erroneous = erroneous };
     }
 
     else if constexpr (type == Common_Escape::nonempty_braced) {
-- 
2.43.0


From 6044e9c1e4beb5388a37df00827818801a41801a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:27 +0000
Subject: [PATCH 010/144] fix: do not split code points in COWEL error recovery

---
 src/main/cpp/lang/cowel.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/lang/cowel.cpp b/src/main/cpp/lang/cowel.cpp
index b578562..74f2c75 100644
--- a/src/main/cpp/lang/cowel.cpp
+++ b/src/main/cpp/lang/cowel.cpp
@@ -469,7 +469,8 @@ struct [[nodiscard]] Highlighter : Highlighter_Base {
                 );
             }
             else {
-                emit_and_advance(1, Highlight_Type::error);
+                const auto [_, units] = utf8::decode_and_length_or_replacement(remainder);
+                emit_and_advance(std::size_t(units), Highlight_Type::error);
             }
         }
 
@@ -553,7 +554,8 @@ struct [[nodiscard]] Highlighter : Highlighter_Base {
                 );
             }
             else {
-                emit_and_advance(1, Highlight_Type::error);
+                const auto [_, units] = utf8::decode_and_length_or_replacement(remainder);
+                emit_and_advance(std::size_t(units), Highlight_Type::error);
             }
         }
 
-- 
2.43.0


From 29abceb176696fe1946d39e97362a62b547200a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:09 +0000
Subject: [PATCH 011/144] fix: do not match JavaScript escapes past the end of
 a string literal

---
 src/main/cpp/lang/js.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/js.cpp b/src/main/cpp/lang/js.cpp
index 7449ea1..217bc72 100644
--- a/src/main/cpp/lang/js.cpp
+++ b/src/main/cpp/lang/js.cpp
@@ -1284,7 +1284,9 @@ private:
         std::size_t remaining = content_length;
         while (remaining > 0) {
             if (remainder.starts_with(u8'\\')) {
-                if (const Escape_Result esc = match_escape_sequence(remainder)) {
+                // An escape sequence cannot extend past the end of the string contents.
+                if (const Escape_Result esc
+                    = match_escape_sequence(remainder.substr(0, remaining))) {
                     flush_chars();
                     emit_and_advance(
                         esc.length,
-- 
2.43.0


From 24d5f1a7041d6ec1afa9d9c121f9487fd1fd7438 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:09 +0000
Subject: [PATCH 012/144] fix: limit highlighting of braced JSX code to the
 matched extent

---
 src/main/cpp/lang/js.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/js.cpp b/src/main/cpp/lang/js.cpp
index 217bc72..f8b8469 100644
--- a/src/main/cpp/lang/js.cpp
+++ b/src/main/cpp/lang/js.cpp
@@ -1178,9 +1178,18 @@ private:
         emit_and_advance(1, Highlight_Type::symbol_brace);
         const std::size_t js_length = braced.length - (braced.is_terminated ? 2 : 1);
 
-        if (js_length != 0) {
+        // The extent of the braces has been determined by match_jsx_braced already,
+        // which is unaware of templates, regexes, etc.
+        // Highlighting the contents must not go past that extent.
+        const std::u8string_view after_js = remainder.substr(js_length);
+        remainder = remainder.substr(0, js_length);
+        while (!remainder.empty()) {
             consume_js_before_closing_brace();
+            if (!remainder.empty()) {
+                emit_and_advance(1, Highlight_Type::symbol_brace);
+            }
         }
+        remainder = after_js;
         if (braced.is_terminated) {
             emit_and_advance(1, Highlight_Type::symbol_brace);
         }
-- 
2.43.0


From 806e26d5c01cbba2f688e6134ea0adbd599341e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:09 +0000
Subject: [PATCH 013/144] fix: do not split code points in JavaScript escapes
 and errors

---
 src/main/cpp/lang/js.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/lang/js.cpp b/src/main/cpp/lang/js.cpp
index f8b8469..6613e1d 100644
--- a/src/main/cpp/lang/js.cpp
+++ b/src/main/cpp/lang/js.cpp
@@ -287,7 +287,8 @@ Escape_Result match_escape_sequence(const std::u8string_view str)
     }
     default: {
         // https://262.ecma-international.org/15.0/index.html#prod-CharacterEscapeSequence
-        return { .length = 2 };
+        const auto [_, units] = utf8::decode_and_length_or_replacement(str.substr(1));
+        return { .length = 1 + std::size_t(units) };
     }
     }
 }
@@ -997,7 +998,8 @@ private:
 
     void consume_error()
     {
-        emit_and_advance(1, Highlight_Type::error);
+        const auto [_, units] = utf8::decode_and_length_or_replacement(remainder);
+        emit_and_advance(std::size_t(units), Highlight_Type::error);
         input_element = Input_Element::regex;
     }
 
-- 
2.43.0


From db2aaefec9b75435927feb85ee96381fff72c02c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:25 +0000
Subject: [PATCH 014/144] fix: do not assert that Rust lifetimes are never
 followed by an apostrophe

---
 src/main/cpp/lang/rust.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/src/main/cpp/lang/rust.cpp b/src/main/cpp/lang/rust.cpp
index 4dedc55..403fcfc 100644
--- a/src/main/cpp/lang/rust.cpp
+++ b/src/main/cpp/lang/rust.cpp
@@ -584,9 +584,6 @@ private:
             else {
                 emit_result(raw_prefix.length(), id_length);
             }
-            // There should not be a closing apostrophe here because any such case would have
-            // been interpreted as a character literal already.
-            ULIGHT_DEBUG_ASSERT(!remainder.starts_with(u8'\''));
         }
         else {
             const std::size_t id_length = match_identifier(remainder.substr(1));
@@ -594,7 +591,6 @@ private:
                 return false;
             }
             emit_result(1, id_length);
-            ULIGHT_DEBUG_ASSERT(!remainder.starts_with(u8'\''));
         }
         return true;
     }
-- 
2.43.0


From 13cd45845a076051c00db52a83de76408f36cf39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:14 +0000
Subject: [PATCH 015/144] fix: do not split code points in Bash escapes

---
 src/main/cpp/lang/bash.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/bash.cpp b/src/main/cpp/lang/bash.cpp
index 7c58241..b2cb2af 100644
--- a/src/main/cpp/lang/bash.cpp
+++ b/src/main/cpp/lang/bash.cpp
@@ -7,6 +7,7 @@
 
 #include "ulight/impl/highlight.hpp"
 #include "ulight/impl/highlighter.hpp"
+#include "ulight/impl/unicode.hpp"
 
 #include "ulight/impl/lang/bash.hpp"
 
@@ -319,7 +320,8 @@ private:
             advance(1);
         }
         else {
-            emit_and_advance(std::min(2uz, remainder.length()), Highlight_Type::string_escape);
+            const auto [_, units] = utf8::decode_and_length_or_replacement(remainder.substr(1));
+            emit_and_advance(1 + std::size_t(units), Highlight_Type::string_escape);
         }
     }
 
-- 
2.43.0


From 08eb0121713e0bccef63eaa1ad7f7d89a83b48e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:14 +0000
Subject: [PATCH 016/144] fix: do not split code points in Java character
 literals

---
 src/main/cpp/lang/java.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/java.cpp b/src/main/cpp/lang/java.cpp
index fc1b436..084a7f7 100644
--- a/src/main/cpp/lang/java.cpp
+++ b/src/main/cpp/lang/java.cpp
@@ -341,7 +341,8 @@ private:
         }
         else if (!remainder.empty() && remainder[0] != u8'\'' //
                  && remainder[0] != u8'\r' && remainder[0] != u8'\n') {
-            emit_and_advance(1, Highlight_Type::string);
+            const auto [_, units] = utf8::decode_and_length_or_replacement(remainder);
+            emit_and_advance(std::size_t(units), Highlight_Type::string);
         }
         else if (!remainder.empty()) {
             emit_and_advance(1, Highlight_Type::error);
-- 
2.43.0


From a6defaa8a0fc5ea7f3466db149d06578668e072c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:14 +0000
Subject: [PATCH 017/144] fix: do not split code points in TeX and LaTeX
 escapes

---
 src/main/cpp/lang/tex.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/tex.cpp b/src/main/cpp/lang/tex.cpp
index 55ed495..0acb145 100644
--- a/src/main/cpp/lang/tex.cpp
+++ b/src/main/cpp/lang/tex.cpp
@@ -8,6 +8,7 @@
 #include "ulight/impl/buffer.hpp"
 #include "ulight/impl/highlight.hpp"
 #include "ulight/impl/highlighter.hpp"
+#include "ulight/impl/unicode.hpp"
 
 #include "ulight/impl/lang/tex.hpp"
 
@@ -65,7 +66,9 @@ struct Highlighter : Highlighter_Base {
                     // While TeX doesn't really distinguish between '\{' and '\abc'
                     // as being escape sequences or commands,
                     // it is helpful for highlighting if we do that.
-                    emit_and_advance(2, Highlight_Type::string_escape);
+                    const auto [_, units]
+                        = utf8::decode_and_length_or_replacement(remainder.substr(1));
+                    emit_and_advance(1 + std::size_t(units), Highlight_Type::string_escape);
                     break;
                 }
                 emit_and_advance(name_length, Highlight_Type::markup_tag);
-- 
2.43.0


From 65c7f192112dd9d31a07d148e66c2c96060f76a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:14 +0000
Subject: [PATCH 018/144] fix: do not split code points in YAML tags and
 directives

---
 src/main/cpp/lang/yaml.cpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/main/cpp/lang/yaml.cpp b/src/main/cpp/lang/yaml.cpp
index 7297ae8..7f9804c 100644
--- a/src/main/cpp/lang/yaml.cpp
+++ b/src/main/cpp/lang/yaml.cpp
@@ -5,6 +5,7 @@
 #include "ulight/impl/ascii_algorithm.hpp"
 #include "ulight/impl/ascii_chars.hpp"
 #include "ulight/impl/highlighter.hpp"
+#include "ulight/impl/unicode.hpp"
 
 #include "ulight/impl/lang/yaml.hpp"
 
@@ -311,6 +312,14 @@ private:
         advance(std::min(n, actual));
     }
 
+    /// @brief Emits a token for the (possibly non-ASCII) code point
+    /// at the start of the remainder.
+    void emit_code_point_and_advance(const Highlight_Type type)
+    {
+        const auto [_, units] = utf8::decode_and_length_or_replacement(remainder);
+        emit_and_advance(std::size_t(units), type);
+    }
+
     // ========================================================================
     // Document-level
     // ========================================================================
@@ -436,7 +445,7 @@ private:
                 advance(1);
             }
             else {
-                emit_and_advance(1, Highlight_Type::string);
+                emit_code_point_and_advance(Highlight_Type::string);
             }
         }
         skip_line();
@@ -841,7 +850,7 @@ private:
             emit_and_advance(2, Highlight_Type::name_attr_delim);
             while (!remainder.empty() && remainder[0] != u8'>' && remainder[0] != u8'\r'
                    && remainder[0] != u8'\n') {
-                emit_and_advance(1, Highlight_Type::name_attr);
+                emit_code_point_and_advance(Highlight_Type::name_attr);
             }
             if (!remainder.empty() && remainder[0] == u8'>') {
                 emit_and_advance(1, Highlight_Type::name_attr_delim);
@@ -880,7 +889,7 @@ private:
     void consume_tag_suffix()
     {
         while (!remainder.empty() && !is_yaml_word_terminator(remainder[0])) {
-            emit_and_advance(1, Highlight_Type::name_attr);
+            emit_code_point_and_advance(Highlight_Type::name_attr);
         }
     }
 
-- 
2.43.0


From f7f4b43058b4f58126a505f51e3dff73dbae4d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:36 +0000
Subject: [PATCH 019/144] fix: do not limit the number of YAML block collection
 entries to 64

---
 src/main/cpp/lang/yaml.cpp | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/main/cpp/lang/yaml.cpp b/src/main/cpp/lang/yaml.cpp
index 7f9804c..b572184 100644
--- a/src/main/cpp/lang/yaml.cpp
+++ b/src/main/cpp/lang/yaml.cpp
@@ -1,6 +1,7 @@
 #include <algorithm>
 #include <memory_resource>
 #include <string_view>
+#include <vector>
 
 #include "ulight/impl/ascii_algorithm.hpp"
 #include "ulight/impl/ascii_chars.hpp"
@@ -213,37 +214,39 @@ struct Highlighter : Highlighter_Base {
     /// @brief Stack of indentation levels for block structures.
     /// Used to detect when a block collection ends (de-dent).
     struct Indent_Stack {
-        static constexpr std::size_t capacity = 64;
-        std::size_t data[capacity];
-        std::size_t size = 0;
+        std::pmr::vector<std::size_t> data;
+
+        explicit Indent_Stack(std::pmr::memory_resource* memory)
+            : data { memory }
+        {
+        }
 
         void push(std::size_t n)
         {
-            ULIGHT_ASSERT(size < capacity);
-            data[size++] = n;
+            data.push_back(n);
         }
 
         [[nodiscard]]
         std::size_t top() const
         {
-            return size == 0 ? 0 : data[size - 1];
+            return data.empty() ? 0 : data.back();
         }
 
         void pop()
         {
-            ULIGHT_ASSERT(size > 0);
-            --size;
+            ULIGHT_ASSERT(!data.empty());
+            data.pop_back();
         }
 
         [[nodiscard]]
         bool empty() const
         {
-            return size == 0;
+            return data.empty();
         }
 
         void reset()
         {
-            size = 0;
+            data.clear();
         }
     };
 
@@ -257,6 +260,7 @@ public:
         const Highlight_Options& options
     )
         : Highlighter_Base { out, source, memory, options }
+        , indent_stack { memory }
     {
     }
 
-- 
2.43.0


From 664e62de7212e5593cec864373d48283f181bb8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:36 +0000
Subject: [PATCH 020/144] fix: allow Markdown HTML comments with nothing after
 the opening delimiter

---
 src/main/cpp/lang/markdown.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/markdown.cpp b/src/main/cpp/lang/markdown.cpp
index 5e1f766..84e315b 100644
--- a/src/main/cpp/lang/markdown.cpp
+++ b/src/main/cpp/lang/markdown.cpp
@@ -830,7 +830,11 @@ private:
             return true;
         }
 
-        emit_and_advance(comment.length - html_comment_prefix.length(), Highlight_Type::comment);
+        if (comment.length > html_comment_prefix.length()) {
+            emit_and_advance(
+                comment.length - html_comment_prefix.length(), Highlight_Type::comment
+            );
+        }
         in_html_comment = true;
         return true;
     }
-- 
2.43.0


From 92406a0055e0b4329b5bc2833763ea300e7b02b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:44 +0000
Subject: [PATCH 021/144] fix: coalesce the first token of nested code in HTML
 with the preceding token

---
 include/ulight/impl/highlighter.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/ulight/impl/highlighter.hpp b/include/ulight/impl/highlighter.hpp
index da6b980..3c39ebd 100644
--- a/include/ulight/impl/highlighter.hpp
+++ b/include/ulight/impl/highlighter.hpp
@@ -152,11 +152,16 @@ protected:
     Non_Owning_Buffer<Token> sub_buffer(std::span<Token> data)
     {
         constexpr auto flush = +[](const void* this_pointer, Token* tokens, std::size_t amount) {
-            const auto& self = *static_cast<const Highlighter_Base*>(this_pointer);
+            // This is safe because `this` is never const below.
+            // NOLINTNEXTLINE(cppcoreguidelines-pro-type-const-cast)
+            auto& self = *static_cast<Highlighter_Base*>(const_cast<void*>(this_pointer));
+            // Tokens are emitted one by one so that the first nested token is coalesced
+            // into the token preceding the nested code, if requested.
             for (std::size_t i = 0; i < amount; ++i) {
-                tokens[i].begin += self.index;
+                self.emit(
+                    tokens[i].begin + self.index, tokens[i].length, Highlight_Type(tokens[i].type)
+                );
             }
-            self.out.append_range(std::span<const Token> { tokens, amount });
         };
         return { data.data(), data.size(), this, flush };
     }
-- 
2.43.0


From 0328c20e52344d58517a050f29eec33ec9fb955a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:25 +0000
Subject: [PATCH 022/144] fix: do not recurse for every entry of a YAML block
 sequence

---
 src/main/cpp/lang/yaml.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/lang/yaml.cpp b/src/main/cpp/lang/yaml.cpp
index b572184..bb443aa 100644
--- a/src/main/cpp/lang/yaml.cpp
+++ b/src/main/cpp/lang/yaml.cpp
@@ -566,6 +566,12 @@ private:
             // Consume the indentation (no highlighting).
             consume_indent(line_indent);
 
+            // Lines that contain nothing but indentation do not end the node.
+            if (match_line_break(remainder)) {
+                skip_line_break();
+                continue;
+            }
+
             // Handle explicit mapping key: ? key
             if (remainder.starts_with(u8"? ") || //
                 (remainder.starts_with(u8"?") && remainder.length() > 1
@@ -608,8 +614,13 @@ private:
                 if (!remainder.empty() && match_line_break(remainder)) {
                     skip_line();
                 }
-                indent_stack.push(line_indent);
-                consume_block_node(line_indent, 0);
+                // Further entries of the same sequence are handled by the current loop.
+                // It is important not to recurse for each of these;
+                // long sequences would otherwise exhaust the stack.
+                if (line_indent != block_indent || seq_offset != 0) {
+                    indent_stack.push(line_indent);
+                    consume_block_node(line_indent, 0);
+                }
                 continue;
             }
 
-- 
2.43.0


From e0eaf75bb8c61a6803973a439b06e6abfd3ba0f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:31 +0000
Subject: [PATCH 023/144] fix: make ulight_lang_from_path_u8 look at the file
 extension

---
 src/main/cpp/ulight.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/ulight.cpp b/src/main/cpp/ulight.cpp
index 092935c..b09dea9 100644
--- a/src/main/cpp/ulight.cpp
+++ b/src/main/cpp/ulight.cpp
@@ -258,7 +258,7 @@ ulight_lang ulight_lang_from_path(const char* path, size_t path_length) noexcept
 ULIGHT_EXPORT
 ulight_lang ulight_lang_from_path_u8(const char8_t* path, size_t path_length) noexcept
 {
-    return ulight_get_lang(reinterpret_cast<const char*>(path), path_length);
+    return ulight_lang_from_path(reinterpret_cast<const char*>(path), path_length);
 }
 
 ULIGHT_EXPORT
-- 
2.43.0


From 1529ed8856011bcf3dc0fa732bf29b41b69b1e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:31 +0000
Subject: [PATCH 024/144] fix: report ULIGHT_LANG_COUNT as an invalid language

---
 src/main/cpp/ulight.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/ulight.cpp b/src/main/cpp/ulight.cpp
index b09dea9..2e7b731 100644
--- a/src/main/cpp/ulight.cpp
+++ b/src/main/cpp/ulight.cpp
@@ -411,7 +411,7 @@ ulight_status ulight_source_to_tokens(ulight_state* state) noexcept
     if (state->flush_tokens == nullptr) {
         return error(state, ULIGHT_STATUS_BAD_BUFFER, u8"flush_tokens must not be null.");
     }
-    if (state->lang == ULIGHT_LANG_NONE || int(state->lang) > ULIGHT_LANG_COUNT) {
+    if (state->lang == ULIGHT_LANG_NONE || int(state->lang) >= ULIGHT_LANG_COUNT) {
         return error(
             state, ULIGHT_STATUS_BAD_LANG, u8"The given language (numeric value) is invalid."
         );
-- 
2.43.0


From d3ffd21989fb70f2fe6344fc12b5811d5582f9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:31 +0000
Subject: [PATCH 025/144] fix: set the length of the attribute name in
 State::set_html_attr_name

---
 include/ulight/ulight.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ulight/ulight.hpp b/include/ulight/ulight.hpp
index da170ab..bc4500f 100644
--- a/include/ulight/ulight.hpp
+++ b/include/ulight/ulight.hpp
@@ -484,7 +484,7 @@ struct [[nodiscard]] State {
     void set_html_attr_name(std::string_view name) noexcept
     {
         impl.html_attr_name = name.data();
-        impl.html_tag_name_length = name.length();
+        impl.html_attr_name_length = name.length();
     }
 
     void set_text_buffer(std::span<char> buffer)
-- 
2.43.0


From db8330ad76a12cf52c24d83f5202ccb239152684 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:32 +0000
Subject: [PATCH 026/144] fix: make the long string of ULIGHT_HL_NAME_DELIM
 match the enumerator

---
 include/ulight/ulight.hpp | 2 +-
 scripts/theme-to-css.cjs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ulight/ulight.hpp b/include/ulight/ulight.hpp
index bc4500f..72d1829 100644
--- a/include/ulight/ulight.hpp
+++ b/include/ulight/ulight.hpp
@@ -148,7 +148,7 @@ constexpr Flag operator|(Flag x, Flag y) noexcept
     F(name, "name", "name", ULIGHT_HL_NAME)                                                        \
     F(name_decl, "name-decl", "name_decl", ULIGHT_HL_NAME_DECL)                                    \
     F(name_builtin, "name-builtin", "name_pre", ULIGHT_HL_NAME_BUILTIN)                            \
-    F(name_delim, "name-builtin-delim", "name_dlim", ULIGHT_HL_NAME_DELIM)                         \
+    F(name_delim, "name-delim", "name_dlim", ULIGHT_HL_NAME_DELIM)                                 \
                                                                                                    \
     F(name_var, "name-var", "name_var", ULIGHT_HL_NAME_VAR)                                        \
     F(name_var_decl, "name-var-decl", "name_var_decl", ULIGHT_HL_NAME_VAR_DECL)                    \
diff --git a/scripts/theme-to-css.cjs b/scripts/theme-to-css.cjs
index 582d050..a627308 100644
--- a/scripts/theme-to-css.cjs
+++ b/scripts/theme-to-css.cjs
@@ -26,7 +26,7 @@ const longNameToShort = {
     "name": "name",
     "name-decl": "name_decl",
     "name-builtin": "name_pre",
-    "name-builtin-delim": "name_dlim",
+    "name-delim": "name_dlim",
     "name-var": "name_var",
     "name-var-decl": "name_var_decl",
     "name-var-builtin": "name_var_pre",
-- 
2.43.0


From e02ed0dfd96b054e6a056eec222d0c8d00c9cb4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:32 +0000
Subject: [PATCH 027/144] fix: give ULIGHT_HL_NAME_SHELL_COMMAND_DELIM a short
 string of its own

---
 include/ulight/ulight.hpp | 2 +-
 scripts/theme-to-css.cjs  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/ulight/ulight.hpp b/include/ulight/ulight.hpp
index 72d1829..ca9440f 100644
--- a/include/ulight/ulight.hpp
+++ b/include/ulight/ulight.hpp
@@ -220,7 +220,7 @@ constexpr Flag operator|(Flag x, Flag y) noexcept
       ULIGHT_HL_NAME_SHELL_COMMAND_DECL)                                                           \
     F(name_shell_command_builtin, "name-command-builtin", "sh_cmd_pre",                            \
       ULIGHT_HL_NAME_SHELL_COMMAND_BUILTIN)                                                        \
-    F(name_shell_command_delim, "name-command-delim", "name_cmd",                                  \
+    F(name_shell_command_delim, "name-command-delim", "name_cmd_dlim",                             \
       ULIGHT_HL_NAME_SHELL_COMMAND_DELIM)                                                          \
                                                                                                    \
     F(name_shell_option, "name-option", "name_opt", ULIGHT_HL_NAME_SHELL_OPTION)                   \
diff --git a/scripts/theme-to-css.cjs b/scripts/theme-to-css.cjs
index a627308..3afd2c1 100644
--- a/scripts/theme-to-css.cjs
+++ b/scripts/theme-to-css.cjs
@@ -74,7 +74,7 @@ const longNameToShort = {
     "name-command": "name_cmd",
     "name-command-decl": "name_cmd_decl",
     "name-command-builtin": "sh_cmd_pre",
-    "name-command": "name_cmd",
+    "name-command-delim": "name_cmd_dlim",
     "name-option": "name_opt",
     "name-option-decl": "name_opt_decl",
     "name-option-builtin": "name_opt_pre",
-- 
2.43.0


From 731757ffade16fc47096f3cdc349cf2ac8afb9b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:32 +0000
Subject: [PATCH 028/144] fix: map the text highlight type in theme-to-css.cjs

---
 scripts/theme-to-css.cjs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/theme-to-css.cjs b/scripts/theme-to-css.cjs
index 3afd2c1..4fca6ed 100644
--- a/scripts/theme-to-css.cjs
+++ b/scripts/theme-to-css.cjs
@@ -112,7 +112,7 @@ const longNameToShort = {
     "markup-attr-decl": "mk_attr_decl",
     "markup-attr-builtin": "mk_attr_pre",
     "markup-attr-delim": "mk_attr_dlim",
-    "text-emph": "text",
+    "text": "text",
     "text-heading": "text_head",
     "text-link": "text_link",
     "text-mark": "text_mark",
-- 
2.43.0


From 5404e916b823ac19d14043fbc9f555bd0c741f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:32 +0000
Subject: [PATCH 029/144] fix: return null from ulight_new when allocation
 fails

---
 src/main/cpp/ulight.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main/cpp/ulight.cpp b/src/main/cpp/ulight.cpp
index 2e7b731..5a799ef 100644
--- a/src/main/cpp/ulight.cpp
+++ b/src/main/cpp/ulight.cpp
@@ -354,6 +354,9 @@ ULIGHT_EXPORT
 ulight_state* ulight_new() noexcept
 {
     void* const result = ulight_alloc(sizeof(ulight_state), alignof(ulight_state));
+    if (result == nullptr) {
+        return nullptr;
+    }
     return ulight_init(static_cast<ulight_state*>(result));
 }
 
-- 
2.43.0


From eabeb9f525b5eb2ba02ee5d9b2e3e0fda3dd0e28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:32 +0000
Subject: [PATCH 030/144] fix: pass block comments to JSON visitors before
 advancing past them

---
 src/main/cpp/lang/json.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/json.cpp b/src/main/cpp/lang/json.cpp
index d2298c4..076b2df 100644
--- a/src/main/cpp/lang/json.cpp
+++ b/src/main/cpp/lang/json.cpp
@@ -525,8 +525,8 @@ private:
                 error(JSON_Error::comment);
                 return false;
             }
-            advance(block_comment.length);
             out.block_comment(pos, remainder.substr(0, block_comment.length));
+            advance(block_comment.length);
             return true;
         }
         ULIGHT_DEBUG_ASSERT_UNREACHABLE(u8"/* should have been tested.");
-- 
2.43.0


From 40c96f348ca79584c1d8a46d2010a214c63effa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:32 +0000
Subject: [PATCH 031/144] fix: do not read past the end of JSON numbers when
 parsing their value

---
 src/main/cpp/lang/json.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/json.cpp b/src/main/cpp/lang/json.cpp
index 076b2df..1958a1e 100644
--- a/src/main/cpp/lang/json.cpp
+++ b/src/main/cpp/lang/json.cpp
@@ -1,6 +1,7 @@
 #include <charconv>
 #include <cstddef>
 #include <cstdlib>
+#include <string>
 #include <string_view>
 
 #include "ulight/json.hpp"
@@ -692,7 +693,10 @@ private:
 
         const std::u8string_view number_string = remainder.substr(0, number.length);
         if (options.parse_numbers) {
-            const auto* const str_begin = reinterpret_cast<const char*>(number_string.data());
+            // The source is not necessarily null-terminated,
+            // and std::strtod may accept more characters than are part of the number.
+            const std::string null_terminated { as_string_view(number_string) };
+            const char* const str_begin = null_terminated.c_str();
             char* str_end = nullptr;
             const double value = std::strtod(str_begin, &str_end);
             if (str_end == str_begin) {
-- 
2.43.0


From 882bacdf94df8b3fffe1c89681d558d55539e209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:32 +0000
Subject: [PATCH 032/144] fix: reject characters following the root value of a
 JSON document

---
 src/main/cpp/lang/json.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/json.cpp b/src/main/cpp/lang/json.cpp
index 1958a1e..08782ac 100644
--- a/src/main/cpp/lang/json.cpp
+++ b/src/main/cpp/lang/json.cpp
@@ -442,7 +442,14 @@ public:
     [[nodiscard]]
     bool operator()()
     {
-        return consume_whitespace_comments() && consume_value() && consume_whitespace_comments();
+        if (!consume_whitespace_comments() || !consume_value() || !consume_whitespace_comments()) {
+            return false;
+        }
+        if (!remainder.empty()) {
+            error(JSON_Error::illegal_character);
+            return false;
+        }
+        return true;
     }
 
 private:
-- 
2.43.0


From f1ae998e1ec318317c2a93c3fd46bf67137ff55d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:32 +0000
Subject: [PATCH 033/144] fix: report disallowed comments to JSON visitors

---
 src/main/cpp/lang/json.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/main/cpp/lang/json.cpp b/src/main/cpp/lang/json.cpp
index 08782ac..999a958 100644
--- a/src/main/cpp/lang/json.cpp
+++ b/src/main/cpp/lang/json.cpp
@@ -490,6 +490,10 @@ private:
         if (!options.allow_comments) {
             const std::size_t white_length = match_whitespace(remainder);
             advance(white_length);
+            if (remainder.starts_with(u8"//") || remainder.starts_with(u8"/*")) {
+                error(JSON_Error::comment);
+                return false;
+            }
             return true;
         }
         while (true) {
-- 
2.43.0


From 3ef5699e077570e2e2f850b9b8601fdafc1a715c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:32 +0000
Subject: [PATCH 034/144] fix: report every JSON parse error to the visitor
 with a fitting error code

---
 src/main/cpp/lang/json.cpp | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/src/main/cpp/lang/json.cpp b/src/main/cpp/lang/json.cpp
index 999a958..49d115c 100644
--- a/src/main/cpp/lang/json.cpp
+++ b/src/main/cpp/lang/json.cpp
@@ -550,6 +550,7 @@ private:
     bool consume_value()
     {
         if (remainder.empty()) {
+            error(JSON_Error::error);
             return false;
         }
         switch (remainder[0]) {
@@ -581,6 +582,7 @@ private:
                 advance_on_same_line(4);
                 return true;
             }
+            error(JSON_Error::illegal_character);
             return false;
         }
         case u8'f': {
@@ -589,6 +591,7 @@ private:
                 advance_on_same_line(5);
                 return true;
             }
+            error(JSON_Error::illegal_character);
             return false;
         }
         case u8'n': {
@@ -597,9 +600,10 @@ private:
                 advance_on_same_line(4);
                 return true;
             }
+            error(JSON_Error::illegal_character);
             return false;
         }
-        default: error(JSON_Error::illegal_escape); return false;
+        default: error(JSON_Error::illegal_character); return false;
         }
     }
 
@@ -739,6 +743,9 @@ private:
             if (!consume_whitespace_comments()) {
                 return false;
             }
+            if (remainder.empty()) {
+                break;
+            }
             if (remainder.starts_with(u8'}')) {
                 out.pop_object(pos);
                 advance_on_same_line(1);
@@ -753,7 +760,13 @@ private:
             }
             if (remainder.starts_with(u8',')) {
                 advance_on_same_line(1);
-                if (!consume_whitespace_comments() || !consume_member()) {
+                if (!consume_whitespace_comments()) {
+                    return false;
+                }
+                if (remainder.empty()) {
+                    break;
+                }
+                if (!consume_member()) {
                     return false;
                 }
                 continue;
@@ -769,6 +782,10 @@ private:
     [[nodiscard]]
     bool consume_member()
     {
+        if (!remainder.starts_with(u8'"')) {
+            error(JSON_Error::illegal_character);
+            return false;
+        }
         if (!consume_string(String_Type::property)) {
             return false;
         }
@@ -815,6 +832,9 @@ private:
             if (!consume_whitespace_comments()) {
                 return false;
             }
+            if (remainder.empty()) {
+                break;
+            }
             if (remainder.starts_with(u8']')) {
                 out.pop_array(pos);
                 advance_on_same_line(1);
@@ -829,7 +849,13 @@ private:
             }
             if (remainder.starts_with(u8',')) {
                 advance_on_same_line(1);
-                if (!consume_whitespace_comments() || !consume_value()) {
+                if (!consume_whitespace_comments()) {
+                    return false;
+                }
+                if (remainder.empty()) {
+                    break;
+                }
+                if (!consume_value()) {
                     return false;
                 }
                 continue;
-- 
2.43.0


From d741884b98cdfe96b21c164aac32a0aa9190cc99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:32 +0000
Subject: [PATCH 035/144] fix: do not highlight the character after a JSON
 literal in an array as an error

---
 src/main/cpp/lang/json.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main/cpp/lang/json.cpp b/src/main/cpp/lang/json.cpp
index 49d115c..b554d8e 100644
--- a/src/main/cpp/lang/json.cpp
+++ b/src/main/cpp/lang/json.cpp
@@ -415,6 +415,7 @@ private:
             const auto coalescing
                 = highlight == Highlight_Type::error ? Coalescing::forced : Coalescing::normal;
             emit_and_advance(id.length, highlight, coalescing);
+            return true;
         }
         return false;
     }
-- 
2.43.0


From 5d746257ac14a180ed1ca1698e7e102d05e26db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:12 +0000
Subject: [PATCH 036/144] fix: do not close a file twice when assigning to
 Unique_File

---
 include/ulight/impl/io.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ulight/impl/io.hpp b/include/ulight/impl/io.hpp
index b0c7792..3bfed25 100644
--- a/include/ulight/impl/io.hpp
+++ b/include/ulight/impl/io.hpp
@@ -72,7 +72,7 @@ public:
     void close() noexcept
     {
         if (m_file) {
-            std::fclose(m_file);
+            std::fclose(std::exchange(m_file, nullptr));
         }
     }
 
-- 
2.43.0


From 360dcc339cdd8b4e0df7964bcb37c8bac82aa071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:12 +0000
Subject: [PATCH 037/144] fix: always null-terminate the path passed to fopen

---
 src/main/cpp/io.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/io.cpp b/src/main/cpp/io.cpp
index 1101513..92415e8 100644
--- a/src/main/cpp/io.cpp
+++ b/src/main/cpp/io.cpp
@@ -24,7 +24,7 @@ std::expected<void, IO_Error_Code> file_to_bytes_chunked(
     constexpr std::size_t block_size = BUFSIZ;
     char buffer[block_size] {};
 
-    if (path.size() > block_size) {
+    if (path.size() >= block_size) {
         return std::unexpected { IO_Error_Code::cannot_open };
     }
     std::memcpy(buffer, path.data(), path.size());
-- 
2.43.0


From 1cace6a0d87fbd636571c59d037a4bf0b65e58c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:12 +0000
Subject: [PATCH 038/144] fix: exit with failure from the CLI when highlighting
 fails

---
 src/main/cpp/main.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/main/cpp/main.cpp b/src/main/cpp/main.cpp
index d022e38..3530267 100644
--- a/src/main/cpp/main.cpp
+++ b/src/main/cpp/main.cpp
@@ -65,6 +65,7 @@ int main(int argc, const char** argv)
     Status status = state.source_to_html();
     if (status != Status::ok) {
         std::cerr << "Error: " << state.get_error_string() << '\n';
+        return EXIT_FAILURE;
     }
 
     return 0;
-- 
2.43.0


From 586ea97ad302a3a20979e10e8b69df7347fbd4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:59 +0000
Subject: [PATCH 039/144] fix: do not split code points in erroneous XML names

---
 src/main/cpp/lang/xml.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/lang/xml.cpp b/src/main/cpp/lang/xml.cpp
index 9dec07c..16aae3f 100644
--- a/src/main/cpp/lang/xml.cpp
+++ b/src/main/cpp/lang/xml.cpp
@@ -748,10 +748,10 @@ private:
                 if (piece_length) {
                     emit_and_advance(piece_length, type);
                 }
-                emit_and_advance(1, Highlight_Type::error);
+                emit_and_advance(std::size_t(length), Highlight_Type::error);
 
                 piece_length = 0;
-                total_length += 1;
+                total_length += std::size_t(length);
             }
             else {
                 piece_length += std::size_t(length);
-- 
2.43.0


From 3887dc155bd5462630a12e2df1ff3509d1ff00f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:10 +0000
Subject: [PATCH 040/144] fix: do not split code points in Kotlin annotation
 lists

---
 src/main/cpp/lang/kotlin.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/kotlin.cpp b/src/main/cpp/lang/kotlin.cpp
index 9d24fda..193a028 100644
--- a/src/main/cpp/lang/kotlin.cpp
+++ b/src/main/cpp/lang/kotlin.cpp
@@ -497,7 +497,8 @@ private:
                 consume_dotted_annotation_name();
             }
             else {
-                emit_and_advance(1, Highlight_Type::error);
+                const auto [_, error_length] = utf8::decode_and_length_or_replacement(remainder);
+                emit_and_advance(std::size_t(error_length), Highlight_Type::error);
             }
         }
         if (!remainder.empty() && remainder[0] == u8']') {
-- 
2.43.0


From 85115d6fe3fa3ac75eb231d9b5d29566ab9d6e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:10 +0000
Subject: [PATCH 041/144] fix: highlight the Kotlin double arrow as one token

---
 src/main/cpp/lang/kotlin.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/kotlin.cpp b/src/main/cpp/lang/kotlin.cpp
index 193a028..5e04887 100644
--- a/src/main/cpp/lang/kotlin.cpp
+++ b/src/main/cpp/lang/kotlin.cpp
@@ -128,7 +128,7 @@ std::optional<Token_Type> match_symbol(std::u8string_view str) noexcept
     case u8'=':
         return str.starts_with(u8"===") ? eqeqeq
             : str.starts_with(u8"==")   ? eqeq
-            : str.starts_with(u8">=")   ? double_arrow
+            : str.starts_with(u8"=>")   ? double_arrow
                                         : assignment;
     case u8'>': return str.starts_with(u8">=") ? ge : rangle;
     case u8'?':
-- 
2.43.0


From d2ac6b0caa23e27e83488105273330a5beb98fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:10 +0000
Subject: [PATCH 042/144] fix: highlight the Kotlin keyword super

---
 include/ulight/impl/lang/kotlin.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ulight/impl/lang/kotlin.hpp b/include/ulight/impl/lang/kotlin.hpp
index 6036cce..64a9bf0 100644
--- a/include/ulight/impl/lang/kotlin.hpp
+++ b/include/ulight/impl/lang/kotlin.hpp
@@ -118,7 +118,7 @@ namespace ulight::kotlin {
     F(sealed, "sealed", keyword)                                                                   \
     F(set, "set", keyword)                                                                         \
     F(setparam, "setparam", keyword)                                                               \
-    F(super, "super@", keyword_this)                                                               \
+    F(super, "super", keyword_this)                                                                \
     F(super_at, "super@", keyword_this)                                                            \
     F(suspend, "suspend", keyword)                                                                 \
     F(this_, "this", keyword_this)                                                                 \
-- 
2.43.0


From 771165315e7c7c4b5edb3e0b9a7625dc0ad195a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:55 +0000
Subject: [PATCH 043/144] fix: do not accept form feeds as JSON whitespace

---
 include/ulight/impl/lang/json.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ulight/impl/lang/json.hpp b/include/ulight/impl/lang/json.hpp
index be33d2f..b63ad1b 100644
--- a/include/ulight/impl/lang/json.hpp
+++ b/include/ulight/impl/lang/json.hpp
@@ -11,7 +11,7 @@
 namespace ulight::json {
 
 // https://www.json.org/json-en.html
-inline constexpr auto is_json_whitespace = Charset256(u8" \t\f\n\r");
+inline constexpr auto is_json_whitespace = Charset256(u8" \t\n\r");
 
 inline constexpr auto is_json_escapable = Charset256(u8"\"\\/bfnrtu");
 
-- 
2.43.0


From 4a41f4a7e9fe1044ed25d39263a37233a43fa99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:29 +0000
Subject: [PATCH 044/144] fix: match LLVM hexadecimal float prefixes before
 plain 0x

---
 src/main/cpp/lang/llvm.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/llvm.cpp b/src/main/cpp/lang/llvm.cpp
index 8411d91..1e504a4 100644
--- a/src/main/cpp/lang/llvm.cpp
+++ b/src/main/cpp/lang/llvm.cpp
@@ -354,11 +354,11 @@ private:
     {
         // https://llvm.org/docs/LangRef.html#simple-constants
         static constexpr Number_Prefix prefixes[] {
-            { u8"0x"sv, 16 }, // float and double
             { u8"0xK"sv, 16 }, // x86 80-bit
             { u8"0xL"sv, 16 }, // IEEE 128-bit
             { u8"0xM"sv, 16 }, // PowerPC 128-bit
             { u8"0xR"sv, 16 }, // bfloat 16-bit
+            { u8"0x"sv, 16 }, // float and double
             { u8"s0x"sv, 16 }, // signed integer
             { u8"u0x"sv, 16 }, // unsigned integer
         };
-- 
2.43.0


From 33fde8d45df62bce854c686e664564cab5e61101 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:41 +0000
Subject: [PATCH 045/144] fix: highlight negative LLVM constants as numbers

---
 src/main/cpp/lang/llvm.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/main/cpp/lang/llvm.cpp b/src/main/cpp/lang/llvm.cpp
index 1e504a4..cc86848 100644
--- a/src/main/cpp/lang/llvm.cpp
+++ b/src/main/cpp/lang/llvm.cpp
@@ -208,6 +208,12 @@ private:
             consume_identifier();
             break;
         }
+        case u8'-': {
+            if (remainder.length() < 2 || !is_ascii_digit(remainder[1]) || !expect_number()) {
+                goto default_case;
+            }
+            break;
+        }
         case u8's':
         case u8'u': {
             // https://llvm.org/docs/LangRef.html#simple-constants
-- 
2.43.0


From 5b4876519e34c5b923001a60573cf4eccd739fb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:36 +0000
Subject: [PATCH 046/144] fix: leave it to the options whether a number may
 have no integer part or fraction

---
 src/main/cpp/lang/kotlin.cpp | 4 ++--
 src/main/cpp/parse_utils.cpp | 6 ++++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/main/cpp/lang/kotlin.cpp b/src/main/cpp/lang/kotlin.cpp
index 5e04887..7adab60 100644
--- a/src/main/cpp/lang/kotlin.cpp
+++ b/src/main/cpp/lang/kotlin.cpp
@@ -83,8 +83,8 @@ Common_Number_Result match_number(std::u8string_view str)
     };
     Common_Number_Result result = match_common_number(str, options);
     result.erroneous |= (result.fractional || result.radix_point) && result.prefix;
-    if (result.radix_point && result.fractional == 0 && result.length < str.length()
-        && str[result.length] == u8'.') {
+    if (result.radix_point && result.fractional == 0 && result.exponent_sep == 0
+        && result.suffix == 0 && result.length < str.length() && str[result.length] == u8'.') {
         result.radix_point = 0;
         --result.length;
     }
diff --git a/src/main/cpp/parse_utils.cpp b/src/main/cpp/parse_utils.cpp
index a289886..f46ccc1 100644
--- a/src/main/cpp/parse_utils.cpp
+++ b/src/main/cpp/parse_utils.cpp
@@ -198,7 +198,8 @@ match_common_number(const std::u8string_view str, const Common_Number_Options& o
             = match_separated_digits(str.substr(length), base, options.digit_separator);
         result.integer = integer_digits;
         result.erroneous |= options.nonempty_integer && integer_digits == 0;
-        result.erroneous |= integer_error;
+        // Whether the integer part may be empty is decided by `nonempty_integer`.
+        result.erroneous |= integer_digits != 0 && integer_error;
         length += result.integer;
     }
 
@@ -209,7 +210,8 @@ match_common_number(const std::u8string_view str, const Common_Number_Options& o
             = match_separated_digits(str.substr(length + 1), base, options.digit_separator);
         result.fractional += fractional_digits;
         result.erroneous |= options.nonempty_fraction && fractional_digits == 0;
-        result.erroneous |= fractional_error;
+        // Whether the fraction may be empty is decided by `nonempty_fraction`.
+        result.erroneous |= fractional_digits != 0 && fractional_error;
 
         // Handle degenerate case of standalone '.' with no prefix, no integer part,
         // and no fraction.
-- 
2.43.0


From 2c7f3e1b3f69b1c0e0651ba531f5979506b31d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:45 +0000
Subject: [PATCH 047/144] fix: read decimal fractions following a leading zero

---
 src/main/cpp/parse_utils.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/parse_utils.cpp b/src/main/cpp/parse_utils.cpp
index f46ccc1..8b49754 100644
--- a/src/main/cpp/parse_utils.cpp
+++ b/src/main/cpp/parse_utils.cpp
@@ -206,8 +206,11 @@ match_common_number(const std::u8string_view str, const Common_Number_Options& o
     if (allow_float && str.substr(length).starts_with(u8'.')) {
         result.radix_point = 1;
 
-        const auto [fractional_digits, fractional_error]
-            = match_separated_digits(str.substr(length + 1), base, options.digit_separator);
+        // A leading zero affects the base of integers, but not that of fractions.
+        const int fractional_base = result.prefix ? base : options.default_base;
+        const auto [fractional_digits, fractional_error] = match_separated_digits(
+            str.substr(length + 1), fractional_base, options.digit_separator
+        );
         result.fractional += fractional_digits;
         result.erroneous |= options.nonempty_fraction && fractional_digits == 0;
         // Whether the fraction may be empty is decided by `nonempty_fraction`.
-- 
2.43.0


From 2c15651bee7ac55c77db10091db20e5a6305bb36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:58 +0000
Subject: [PATCH 048/144] fix: match the longest number suffix

---
 src/main/cpp/parse_utils.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/main/cpp/parse_utils.cpp b/src/main/cpp/parse_utils.cpp
index 8b49754..34f8589 100644
--- a/src/main/cpp/parse_utils.cpp
+++ b/src/main/cpp/parse_utils.cpp
@@ -250,12 +250,11 @@ match_common_number(const std::u8string_view str, const Common_Number_Options& o
     if (length < str.length()) {
         if (!options.suffixes.empty()) {
             for (const std::u8string_view suffix : options.suffixes) {
-                if (str.substr(length).starts_with(suffix)) {
+                if (suffix.length() > result.suffix && str.substr(length).starts_with(suffix)) {
                     result.suffix = suffix.length();
-                    length += result.suffix;
-                    break;
                 }
             }
+            length += result.suffix;
         }
         else if (options.match_suffix) {
             const std::size_t suffix = options.match_suffix(str.substr(length));
-- 
2.43.0


From b9b9294cef446f1ddad572b073e172678e7ab7a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:09 +0000
Subject: [PATCH 049/144] fix: accept all Python string prefixes

---
 src/main/cpp/lang/python.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main/cpp/lang/python.cpp b/src/main/cpp/lang/python.cpp
index ff8b430..630aa1e 100644
--- a/src/main/cpp/lang/python.cpp
+++ b/src/main/cpp/lang/python.cpp
@@ -96,6 +96,7 @@ std::optional<String_Prefix> classify_string_prefix(std::u8string_view str)
         { u8"RB", raw_byte },
         { u8"RF", raw_formatted },
         { u8"Rb", raw_byte },
+        { u8"Rf", raw_formatted },
         { u8"U", unicode },
         { u8"b", byte },
         { u8"bR", raw_byte },
@@ -108,6 +109,7 @@ std::optional<String_Prefix> classify_string_prefix(std::u8string_view str)
         { u8"rF", raw_formatted },
         { u8"rb", raw_byte },
         { u8"rf", raw_formatted },
+        { u8"u", unicode },
     };
     static_assert(std::ranges::is_sorted(prefixes, {}, &Prefix_And_Type::id));
 
-- 
2.43.0


From cff2224d53aa872a82a215dcf47530d5df77e617 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:19 +0000
Subject: [PATCH 050/144] fix: accept Python octal escapes of one or two digits

---
 src/main/cpp/lang/python.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/python.cpp b/src/main/cpp/lang/python.cpp
index 630aa1e..cbcc8eb 100644
--- a/src/main/cpp/lang/python.cpp
+++ b/src/main/cpp/lang/python.cpp
@@ -167,7 +167,7 @@ Escape_Result match_escape_sequence(const std::u8string_view str, const String_P
         // Note that while octal escapes with a value above 255 produce a `SyntaxWarning`
         // as of Python 3.12, they do not raise an error yet,
         // so we don't highlight them as an error.
-        return match_common_escape<Common_Escape::octal_3>(str, 1);
+        return match_common_escape<Common_Escape::octal_1_to_3>(str, 1);
     }
 
     case u8'x': return match_common_escape<Common_Escape::hex_2>(str, 2);
-- 
2.43.0


From 304d28c2eb13445eac201301c1c9eff16386c058 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:29 +0000
Subject: [PATCH 051/144] fix: accept Python numbers without integer part

---
 src/main/cpp/lang/python.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/main/cpp/lang/python.cpp b/src/main/cpp/lang/python.cpp
index cbcc8eb..3b1c2e6 100644
--- a/src/main/cpp/lang/python.cpp
+++ b/src/main/cpp/lang/python.cpp
@@ -140,7 +140,6 @@ Common_Number_Result match_number(std::u8string_view str)
         .exponent_separators = exponent_separators,
         .suffixes = suffixes,
         .digit_separator = digit_separator,
-        .nonempty_integer = true,
     };
     return match_common_number(str, options);
 }
-- 
2.43.0


From 5d8b5840aef558e75a63ce2c8928593389732e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:41 +0000
Subject: [PATCH 052/144] fix: report digit separators at the end of a number

---
 src/main/cpp/parse_utils.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/parse_utils.cpp b/src/main/cpp/parse_utils.cpp
index 34f8589..594a964 100644
--- a/src/main/cpp/parse_utils.cpp
+++ b/src/main/cpp/parse_utils.cpp
@@ -154,7 +154,10 @@ Digits_Result match_separated_digits(std::u8string_view str, int base, char8_t s
             return true;
         }
         const bool is_digit = is_ascii_digit_base(c, base);
-        previous = c;
+        if (is_digit) {
+            // The character after the digits must not hide a trailing separator.
+            previous = c;
+        }
         return is_digit;
     });
     erroneous |= previous == separator;
-- 
2.43.0


From ef73e9a21d5ff115ad18da586de7b6ecf2085eb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:26 +0000
Subject: [PATCH 053/144] fix: do not treat names with leading underscore as
 numbers

---
 src/main/cpp/parse_utils.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/main/cpp/parse_utils.cpp b/src/main/cpp/parse_utils.cpp
index 594a964..72b5f8f 100644
--- a/src/main/cpp/parse_utils.cpp
+++ b/src/main/cpp/parse_utils.cpp
@@ -196,6 +196,11 @@ match_common_number(const std::u8string_view str, const Common_Number_Options& o
         return str.substr(length).starts_with(u8'0') ? options.default_leading_zero_base
                                                      : options.default_base;
     }();
+    if (options.digit_separator != 0 && result.prefix == 0
+        && str.substr(length).starts_with(options.digit_separator)) {
+        // Without a prefix, this is presumably an identifier such as `_1`.
+        return {};
+    }
     {
         const auto [integer_digits, integer_error]
             = match_separated_digits(str.substr(length), base, options.digit_separator);
-- 
2.43.0


From 5699dff36dc17d9d870d81abf26bf7ee35314ff6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:26 +0000
Subject: [PATCH 054/144] fix: accept all digit separators in Rust numbers

---
 include/ulight/impl/numbers.hpp | 10 +++++++++-
 src/main/cpp/lang/rust.cpp      |  1 +
 src/main/cpp/parse_utils.cpp    | 24 ++++++++++++++++++++----
 3 files changed, 30 insertions(+), 5 deletions(-)

diff --git a/include/ulight/impl/numbers.hpp b/include/ulight/impl/numbers.hpp
index 44487c3..552f1ac 100644
--- a/include/ulight/impl/numbers.hpp
+++ b/include/ulight/impl/numbers.hpp
@@ -37,7 +37,12 @@ inline Digits_Result match_digits_as_result(std::u8string_view str, int base = 1
 }
 
 [[nodiscard]]
-Digits_Result match_separated_digits(std::u8string_view str, int base, char8_t separator = 0);
+Digits_Result match_separated_digits(
+    std::u8string_view str,
+    int base,
+    char8_t separator = 0,
+    bool lenient_separator = false
+);
 
 enum struct Matched_Signs : Underlying {
     none = 0b00,
@@ -96,6 +101,9 @@ struct Common_Number_Options {
     /// @brief An optional digit separator which is accepted as part of digit sequences
     /// in addition to the set of digits determined by the base.
     char8_t digit_separator = 0;
+    /// @brief If `true`, digit separators may be repeated,
+    /// and may precede or follow all of the digits.
+    bool lenient_digit_separator = false;
     /// @brief If `true`, the integer part shall not be empty, even if there is a fraction,
     /// like `.5f`.
     bool nonempty_integer = false;
diff --git a/src/main/cpp/lang/rust.cpp b/src/main/cpp/lang/rust.cpp
index 403fcfc..76e8842 100644
--- a/src/main/cpp/lang/rust.cpp
+++ b/src/main/cpp/lang/rust.cpp
@@ -134,6 +134,7 @@ Common_Number_Result match_number(const std::u8string_view str)
         .exponent_separators = exponent_separators,
         .match_suffix = Constant<match_suffix> {},
         .digit_separator = digit_separator,
+        .lenient_digit_separator = true,
         .nonempty_integer = true,
     };
     Common_Number_Result result = match_common_number(str, options);
diff --git a/src/main/cpp/parse_utils.cpp b/src/main/cpp/parse_utils.cpp
index 72b5f8f..cb2e534 100644
--- a/src/main/cpp/parse_utils.cpp
+++ b/src/main/cpp/parse_utils.cpp
@@ -139,11 +139,25 @@ std::size_t match_digits(std::u8string_view str, int base)
     return ascii::length_if(str, predicate);
 }
 
-Digits_Result match_separated_digits(std::u8string_view str, int base, char8_t separator)
+Digits_Result match_separated_digits(
+    std::u8string_view str,
+    int base,
+    char8_t separator,
+    bool lenient_separator
+)
 {
     if (separator == 0) {
         return match_digits_as_result(str, base);
     }
+    if (lenient_separator) {
+        bool any_digit = false;
+        const std::size_t length = ascii::length_if(str, [&](char8_t c) {
+            const bool is_digit = is_ascii_digit_base(c, base);
+            any_digit |= is_digit;
+            return is_digit || c == separator;
+        });
+        return { .length = length, .erroneous = !any_digit };
+    }
     bool erroneous = false;
 
     char8_t previous = separator;
@@ -202,8 +216,9 @@ match_common_number(const std::u8string_view str, const Common_Number_Options& o
         return {};
     }
     {
-        const auto [integer_digits, integer_error]
-            = match_separated_digits(str.substr(length), base, options.digit_separator);
+        const auto [integer_digits, integer_error] = match_separated_digits(
+            str.substr(length), base, options.digit_separator, options.lenient_digit_separator
+        );
         result.integer = integer_digits;
         result.erroneous |= options.nonempty_integer && integer_digits == 0;
         // Whether the integer part may be empty is decided by `nonempty_integer`.
@@ -217,7 +232,8 @@ match_common_number(const std::u8string_view str, const Common_Number_Options& o
         // A leading zero affects the base of integers, but not that of fractions.
         const int fractional_base = result.prefix ? base : options.default_base;
         const auto [fractional_digits, fractional_error] = match_separated_digits(
-            str.substr(length + 1), fractional_base, options.digit_separator
+            str.substr(length + 1), fractional_base, options.digit_separator,
+            options.lenient_digit_separator
         );
         result.fractional += fractional_digits;
         result.erroneous |= options.nonempty_fraction && fractional_digits == 0;
-- 
2.43.0


From a30a01739b57e5e7ecf04aff39a11f8dffc7f05d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:43 +0000
Subject: [PATCH 055/144] fix: do not treat Rust ranges and member accesses as
 fractions

---
 src/main/cpp/lang/rust.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/rust.cpp b/src/main/cpp/lang/rust.cpp
index 76e8842..c558ea5 100644
--- a/src/main/cpp/lang/rust.cpp
+++ b/src/main/cpp/lang/rust.cpp
@@ -113,8 +113,23 @@ std::optional<String_Classify_Result> classify_string_prefix(const std::u8string
     return String_Classify_Result { result->prefix_length, result->type };
 }
 
-Common_Number_Result match_number(const std::u8string_view str)
+Common_Number_Result match_number(std::u8string_view str)
 {
+    if (str.starts_with(u8'.')) {
+        // There is no number without integer part; this may be a tuple index, like `t.0`.
+        return {};
+    }
+    // https://doc.rust-lang.org/reference/tokens.html#floating-point-literals
+    // If the dot after an integer is followed by another dot or by an identifier,
+    // it is not a radix point, but part of a range or of a member access.
+    const std::size_t decimal_length = ascii::length_if(str, [](char8_t c) {
+        return is_ascii_digit(c) || c == digit_separator; //
+    });
+    if (const std::u8string_view rest = str.substr(decimal_length); rest.starts_with(u8'.')
+        && (rest.substr(1).starts_with(u8'.') || match_identifier(rest.substr(1)) != 0)) {
+        str = str.substr(0, decimal_length);
+    }
+
     // https://doc.rust-lang.org/reference/grammar.html#grammar-summary-INTEGER_LITERAL
     static constexpr Number_Prefix prefixes[] {
         { u8"0b", 2 },
-- 
2.43.0


From 01a90b12b271a43c14aa609289eb522ce65b8b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:06 +0000
Subject: [PATCH 056/144] fix: match nested comments in Rust and Kotlin

---
 include/ulight/impl/lang/js.hpp |  5 +++++
 src/main/cpp/lang/js.cpp        | 28 ++++++++++++++++++++++++++++
 src/main/cpp/lang/kotlin.cpp    |  4 ++--
 src/main/cpp/lang/rust.cpp      |  4 ++--
 4 files changed, 37 insertions(+), 4 deletions(-)

diff --git a/include/ulight/impl/lang/js.hpp b/include/ulight/impl/lang/js.hpp
index d6be250..6d798b9 100644
--- a/include/ulight/impl/lang/js.hpp
+++ b/include/ulight/impl/lang/js.hpp
@@ -293,6 +293,11 @@ struct Comment_Result {
 [[nodiscard]]
 Comment_Result match_block_comment(std::u8string_view str);
 
+/// @brief Like `match_block_comment`,
+/// but block comments may contain further block comments, like in Rust and in Kotlin.
+[[nodiscard]]
+Comment_Result match_nested_block_comment(std::u8string_view str);
+
 /// @brief Returns the length of a JavaScript line comment at the start of `str`, if any.
 /// Returns zero if there is no line comment.
 /// In any case, the length does not include the terminating newline character.
diff --git a/src/main/cpp/lang/js.cpp b/src/main/cpp/lang/js.cpp
index 6613e1d..83d693d 100644
--- a/src/main/cpp/lang/js.cpp
+++ b/src/main/cpp/lang/js.cpp
@@ -220,6 +220,34 @@ Comment_Result match_block_comment(std::u8string_view s)
     return Comment_Result { .length = s.length(), .is_terminated = false };
 }
 
+Comment_Result match_nested_block_comment(std::u8string_view s)
+{
+    if (!s.starts_with(u8"/*")) {
+        return {};
+    }
+
+    std::size_t level = 1;
+    std::size_t length = 2; // Skip /*
+    while (length < s.length()) {
+        const std::u8string_view rest = s.substr(length);
+        if (rest.starts_with(u8"/*")) {
+            ++level;
+            length += 2;
+        }
+        else if (rest.starts_with(u8"*/")) {
+            length += 2;
+            if (--level == 0) {
+                return Comment_Result { .length = length, .is_terminated = true };
+            }
+        }
+        else {
+            ++length;
+        }
+    }
+
+    return Comment_Result { .length = s.length(), .is_terminated = false };
+}
+
 std::size_t match_hashbang_comment(std::u8string_view s)
 {
     if (!s.starts_with(u8"#!")) {
diff --git a/src/main/cpp/lang/kotlin.cpp b/src/main/cpp/lang/kotlin.cpp
index 7adab60..b8cb61d 100644
--- a/src/main/cpp/lang/kotlin.cpp
+++ b/src/main/cpp/lang/kotlin.cpp
@@ -159,8 +159,8 @@ std::optional<Token_Type> match_symbol(std::u8string_view str) noexcept
 using cpp::match_identifier;
 
 using js::Comment_Result;
-using js::match_block_comment;
 using js::match_line_comment;
+using js::match_nested_block_comment;
 
 Escape_Result match_escape_sequence(const std::u8string_view str)
 {
@@ -289,7 +289,7 @@ private:
 
     bool expect_block_comment()
     {
-        if (const Comment_Result block_comment = match_block_comment(remainder)) {
+        if (const Comment_Result block_comment = match_nested_block_comment(remainder)) {
             emit(index, 2, Highlight_Type::comment_delim); // /*
             const std::size_t suffix_length = block_comment.is_terminated ? 2 : 0;
             const std::size_t content_length = block_comment.length - 2 - suffix_length;
diff --git a/src/main/cpp/lang/rust.cpp b/src/main/cpp/lang/rust.cpp
index c558ea5..09a01ef 100644
--- a/src/main/cpp/lang/rust.cpp
+++ b/src/main/cpp/lang/rust.cpp
@@ -258,8 +258,8 @@ std::optional<Token_Type> match_punctuation(std::u8string_view str) noexcept
 }
 
 using js::Comment_Result;
-using js::match_block_comment;
 using js::match_line_comment;
+using js::match_nested_block_comment;
 
 namespace {
 
@@ -329,7 +329,7 @@ private:
 
     bool expect_block_comment()
     {
-        if (const Comment_Result block_comment = match_block_comment(remainder)) {
+        if (const Comment_Result block_comment = match_nested_block_comment(remainder)) {
             emit(index, 2, Highlight_Type::comment_delim); // /*
             const std::size_t suffix_length = block_comment.is_terminated ? 2 : 0;
             const std::size_t content_length = block_comment.length - 2 - suffix_length;
-- 
2.43.0


From 6c6846216b6ced07f94f7e1d4d955d74b12e894c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:06 +0000
Subject: [PATCH 057/144] fix: match raw lifetimes in Rust

---
 src/main/cpp/lang/rust.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/rust.cpp b/src/main/cpp/lang/rust.cpp
index 09a01ef..0519364 100644
--- a/src/main/cpp/lang/rust.cpp
+++ b/src/main/cpp/lang/rust.cpp
@@ -571,7 +571,7 @@ private:
     bool expect_lifetime_token()
     {
         // https://doc.rust-lang.org/reference/tokens.html#lifetimes-and-loop-labels
-        constexpr std::u8string_view raw_prefix = u8"'#r";
+        constexpr std::u8string_view raw_prefix = u8"'r#";
 
         if (!remainder.starts_with(u8'\'')) {
             return false;
-- 
2.43.0


From 4be350404051cc6cf4ac876ab1af09c066001f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:06 +0000
Subject: [PATCH 058/144] fix: accept all Rust punctuation

---
 include/ulight/impl/lang/rust.hpp | 5 ++++-
 src/main/cpp/lang/rust.cpp        | 3 +++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/ulight/impl/lang/rust.hpp b/include/ulight/impl/lang/rust.hpp
index 8a5a339..90fd03a 100644
--- a/include/ulight/impl/lang/rust.hpp
+++ b/include/ulight/impl/lang/rust.hpp
@@ -35,6 +35,8 @@ inline constexpr struct Is_Rust_Whitespace {
 #define ULIGHT_RUST_TOKEN_ENUM_DATA(F)                                                             \
     F(exclamation, "!", symbol_op)                                                                 \
     F(exclamation_eq, "!=", symbol_op)                                                             \
+    F(hash, "#", symbol_punc)                                                                      \
+    F(dollar, "$", symbol_punc)                                                                    \
     F(percent, "%", symbol_op)                                                                     \
     F(percent_eq, "%=", symbol_op)                                                                 \
     F(amp, "&", symbol_op)                                                                         \
@@ -160,7 +162,8 @@ inline constexpr struct Is_Rust_Whitespace {
     F(pipe, "|", symbol_op)                                                                        \
     F(pipe_eq, "|=", symbol_op)                                                                    \
     F(pipe_pipe, "||", symbol_op)                                                                  \
-    F(right_brace, "}", symbol_brace)
+    F(right_brace, "}", symbol_brace)                                                              \
+    F(tilde, "~", symbol_op)
 
 #define ULIGHT_RUST_TOKEN_ENUM_ENUMERATOR(id, code, highlight) id,
 
diff --git a/src/main/cpp/lang/rust.cpp b/src/main/cpp/lang/rust.cpp
index 0519364..29fc684 100644
--- a/src/main/cpp/lang/rust.cpp
+++ b/src/main/cpp/lang/rust.cpp
@@ -205,6 +205,8 @@ std::optional<Token_Type> match_punctuation(std::u8string_view str) noexcept
     }
     switch (str[0]) {
     case u8'!': return str.starts_with(u8"!=") ? exclamation_eq : exclamation;
+    case u8'#': return hash;
+    case u8'$': return dollar;
     case u8'%': return str.starts_with(u8"%=") ? percent_eq : percent;
     case u8'&':
         return str.starts_with(u8"&&") ? amp_amp //
@@ -253,6 +255,7 @@ std::optional<Token_Type> match_punctuation(std::u8string_view str) noexcept
             : str.starts_with(u8"||")  ? pipe_pipe
                                        : pipe;
     case u8'}': return right_brace;
+    case u8'~': return tilde;
     default: return {};
     }
 }
-- 
2.43.0


From 075390642594ea5f493536b2b325fb867f079cd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:06 +0000
Subject: [PATCH 059/144] fix: do not split Kotlin names after an exclamation
 mark

---
 src/main/cpp/lang/kotlin.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/main/cpp/lang/kotlin.cpp b/src/main/cpp/lang/kotlin.cpp
index b8cb61d..9940b9d 100644
--- a/src/main/cpp/lang/kotlin.cpp
+++ b/src/main/cpp/lang/kotlin.cpp
@@ -91,6 +91,11 @@ Common_Number_Result match_number(std::u8string_view str)
     return result;
 }
 
+// https://kotlinlang.org/spec/syntax-and-grammar.html#grammar-rule-Identifier
+// I don't think this is 100% correct and the same as C++.
+// However, it should be close enough.
+using cpp::match_identifier;
+
 std::optional<Token_Type> match_symbol(std::u8string_view str) noexcept
 {
     constexpr std::optional<Token_Type> none;
@@ -102,9 +107,9 @@ std::optional<Token_Type> match_symbol(std::u8string_view str) noexcept
     switch (str[0]) {
     case u8'!':
         return str.starts_with(u8"!=") ? excl_eq
-            : str.starts_with(u8"!in") ? not_in
-            : str.starts_with(u8"!is") ? not_is
-                                       : excl;
+            : str.substr(1, match_identifier(str.substr(1))) == u8"in" ? not_in
+            : str.substr(1, match_identifier(str.substr(1))) == u8"is" ? not_is
+                                                                       : excl;
     case u8'"': return str.starts_with(u8"\"\"\"") ? triple_quote_open : quote_open;
     case u8'#': return hash;
     case u8'%': return str.starts_with(u8"%=") ? mod_assignment : mod;
@@ -153,11 +158,6 @@ std::optional<Token_Type> match_symbol(std::u8string_view str) noexcept
     }
 }
 
-// https://kotlinlang.org/spec/syntax-and-grammar.html#grammar-rule-Identifier
-// I don't think this is 100% correct and the same as C++.
-// However, it should be close enough.
-using cpp::match_identifier;
-
 using js::Comment_Result;
 using js::match_line_comment;
 using js::match_nested_block_comment;
-- 
2.43.0


From 2c639b3aa348eb3db5dd0cf2fc5691028b9add00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:33 +0000
Subject: [PATCH 060/144] fix: accept dollar signs in Java names

---
 src/main/cpp/lang/java.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/java.cpp b/src/main/cpp/lang/java.cpp
index 084a7f7..4f74059 100644
--- a/src/main/cpp/lang/java.cpp
+++ b/src/main/cpp/lang/java.cpp
@@ -5,6 +5,7 @@
 #include "ulight/impl/highlighter.hpp"
 #include "ulight/impl/lang/cpp.hpp"
 #include "ulight/impl/unicode.hpp"
+#include "ulight/impl/unicode_algorithm.hpp"
 
 #include "ulight/impl/lang/java.hpp"
 #include "ulight/impl/lang/js.hpp"
@@ -156,7 +157,21 @@ std::optional<Token_Type> match_symbol(const std::u8string_view str) noexcept
 }
 
 // https://docs.oracle.com/javase/specs/jls/se26/html/jls-3.html#jls-3.8
-using cpp::match_identifier;
+static std::size_t match_identifier(std::u8string_view str)
+{
+    constexpr auto is_start = [](char32_t c) { return c == U'$' || cpp::is_cpp_identifier_start(c); };
+    constexpr auto is_continue
+        = [](char32_t c) { return c == U'$' || cpp::is_cpp_identifier_continue(c); };
+
+    if (str.empty()) {
+        return 0;
+    }
+    const auto [code_point, units] = utf8::decode_and_length_or_replacement(str);
+    if (!is_start(code_point)) {
+        return 0;
+    }
+    return std::size_t(units) + utf8::length_if(str.substr(std::size_t(units)), is_continue);
+}
 
 // https://docs.oracle.com/javase/specs/jls/se26/html/jls-3.html#jls-3.7
 using js::Comment_Result;
-- 
2.43.0


From b146b3ca0aca5131ee57ba0bccbb00ceccfc85fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:33 +0000
Subject: [PATCH 061/144] fix: match the Kotlin operator !==

---
 include/ulight/impl/lang/kotlin.hpp | 1 +
 src/main/cpp/lang/kotlin.cpp        | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/ulight/impl/lang/kotlin.hpp b/include/ulight/impl/lang/kotlin.hpp
index 64a9bf0..2762754 100644
--- a/include/ulight/impl/lang/kotlin.hpp
+++ b/include/ulight/impl/lang/kotlin.hpp
@@ -14,6 +14,7 @@ namespace ulight::kotlin {
 #define ULIGHT_KOTLIN_TOKEN_ENUM_DATA(F)                                                           \
     F(excl, "!", symbol_op)                                                                        \
     F(excl_eq, "!=", symbol_op)                                                                    \
+    F(excl_eqeq, "!==", symbol_op)                                                                 \
     F(not_in, "!in", keyword)                                                                      \
     F(not_is, "!is", keyword)                                                                      \
     F(quote_open, "\"", string_delim)                                                              \
diff --git a/src/main/cpp/lang/kotlin.cpp b/src/main/cpp/lang/kotlin.cpp
index 9940b9d..b8a3498 100644
--- a/src/main/cpp/lang/kotlin.cpp
+++ b/src/main/cpp/lang/kotlin.cpp
@@ -106,7 +106,8 @@ std::optional<Token_Type> match_symbol(std::u8string_view str) noexcept
     }
     switch (str[0]) {
     case u8'!':
-        return str.starts_with(u8"!=") ? excl_eq
+        return str.starts_with(u8"!==") ? excl_eqeq
+            : str.starts_with(u8"!=")  ? excl_eq
             : str.substr(1, match_identifier(str.substr(1))) == u8"in" ? not_in
             : str.substr(1, match_identifier(str.substr(1))) == u8"is" ? not_is
                                                                        : excl;
-- 
2.43.0


From 07905497d6d18fe8f428d54c434a181e3da27f6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:59 +0000
Subject: [PATCH 062/144] fix: match decimal exponents of hexadecimal Java and
 NASM numbers

---
 src/main/cpp/lang/java.cpp | 12 ++++++------
 src/main/cpp/lang/nasm.cpp |  4 ++--
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/main/cpp/lang/java.cpp b/src/main/cpp/lang/java.cpp
index 4f74059..88e768f 100644
--- a/src/main/cpp/lang/java.cpp
+++ b/src/main/cpp/lang/java.cpp
@@ -81,12 +81,12 @@ Common_Number_Result match_number(const std::u8string_view str)
         { u8"e-", 10 },
         { u8"e", 10 }, //
         // Hexadecimal floating-point exponent:
-        { u8"P+", 16 },
-        { u8"P-", 16 },
-        { u8"P", 16 }, //
-        { u8"p+", 16 },
-        { u8"p-", 16 },
-        { u8"p", 16 }, //
+        { u8"P+", 10 },
+        { u8"P-", 10 },
+        { u8"P", 10 }, //
+        { u8"p+", 10 },
+        { u8"p-", 10 },
+        { u8"p", 10 }, //
     };
     static constexpr std::u8string_view suffixes[] {
         u8"D", u8"F", u8"L", u8"d", u8"f", u8"l",
diff --git a/src/main/cpp/lang/nasm.cpp b/src/main/cpp/lang/nasm.cpp
index 3f28f46..f03650f 100644
--- a/src/main/cpp/lang/nasm.cpp
+++ b/src/main/cpp/lang/nasm.cpp
@@ -543,8 +543,8 @@ private:
         static constexpr Exponent_Separator exponent_separators[] {
             { u8"e+", 10 }, { u8"e-", 10 }, { u8"e", 10 }, //
             { u8"E+", 10 }, { u8"E-", 10 }, { u8"E", 10 }, //
-            { u8"p+", 16 }, { u8"p-", 16 }, { u8"p", 16 }, //
-            { u8"P+", 16 }, { u8"P-", 16 }, { u8"P", 16 }, //
+            { u8"p+", 10 }, { u8"p-", 16 }, { u8"p", 16 }, //
+            { u8"P+", 10 }, { u8"P-", 16 }, { u8"P", 16 }, //
         };
         static constexpr Common_Number_Options options //
             { .prefixes = prefixes,
-- 
2.43.0


From d417059c4d38bcb40b0c1375225112e80bc239f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:54 +0000
Subject: [PATCH 063/144] fix: do not treat Kotlin member accesses as fractions

---
 src/main/cpp/lang/kotlin.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/main/cpp/lang/kotlin.cpp b/src/main/cpp/lang/kotlin.cpp
index b8a3498..cf618fb 100644
--- a/src/main/cpp/lang/kotlin.cpp
+++ b/src/main/cpp/lang/kotlin.cpp
@@ -60,6 +60,18 @@ Highlight_Type token_type_highlight(Token_Type type)
 
 Common_Number_Result match_number(std::u8string_view str)
 {
+    // https://kotlinlang.org/spec/syntax-and-grammar.html#grammar-rule-DoubleLiteral
+    // A dot which is followed by another dot or by a name
+    // is part of a range or of a member access.
+    const std::size_t decimal_length = ascii::length_if(str, [](char8_t c) {
+        return is_ascii_digit(c) || c == digit_separator; //
+    });
+    if (const std::u8string_view rest = str.substr(decimal_length);
+        rest.starts_with(u8'.')
+        && (rest.substr(1).starts_with(u8'.') || cpp::match_identifier(rest.substr(1)) != 0)) {
+        str = str.substr(0, decimal_length);
+    }
+
     // https://kotlinlang.org/spec/syntax-and-grammar.html#literals
     static constexpr Number_Prefix prefixes[] {
         { u8"0b", 2 },
@@ -83,11 +95,6 @@ Common_Number_Result match_number(std::u8string_view str)
     };
     Common_Number_Result result = match_common_number(str, options);
     result.erroneous |= (result.fractional || result.radix_point) && result.prefix;
-    if (result.radix_point && result.fractional == 0 && result.exponent_sep == 0
-        && result.suffix == 0 && result.length < str.length() && str[result.length] == u8'.') {
-        result.radix_point = 0;
-        --result.length;
-    }
     return result;
 }
 
-- 
2.43.0


From f58fe98654c5d7e10549fe4e1df68c3194468972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:46 +0000
Subject: [PATCH 064/144] fix: match raw identifiers in Rust

---
 src/main/cpp/lang/rust.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/rust.cpp b/src/main/cpp/lang/rust.cpp
index 29fc684..98df962 100644
--- a/src/main/cpp/lang/rust.cpp
+++ b/src/main/cpp/lang/rust.cpp
@@ -313,8 +313,8 @@ private:
             || expect_string_literal() //
             || expect_number() //
             || expect_lifetime_token() //
-            || expect_identifier_or_keyword() //
             || expect_raw_identifier() //
+            || expect_identifier_or_keyword() //
             || expect_punctuation();
     }
 
-- 
2.43.0


From 5081ad92f42dbb9d887f45719fda7f954a2304e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:46 +0000
Subject: [PATCH 065/144] fix: match delimiters of raw strings in Rust exactly

---
 src/main/cpp/lang/rust.cpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/main/cpp/lang/rust.cpp b/src/main/cpp/lang/rust.cpp
index 98df962..a3d4cd8 100644
--- a/src/main/cpp/lang/rust.cpp
+++ b/src/main/cpp/lang/rust.cpp
@@ -483,8 +483,7 @@ private:
             ? ascii::length_before_not(remainder.substr(prefix_length), u8'#')
             : 0uz;
 
-        if (const auto after_prefix = remainder.substr(prefix_length + raw_hash_length);
-            !after_prefix.starts_with(u8'\'') && !after_prefix.starts_with(u8'"')) {
+        if (!remainder.substr(prefix_length + raw_hash_length).starts_with(u8'"')) {
             return false;
         }
 
@@ -519,7 +518,7 @@ private:
                         = ascii::length_before_not(remainder.substr(length + 1), u8'#');
                     if (terminating_hashes >= raw_hash_length) {
                         flush();
-                        emit_and_advance(1 + terminating_hashes, Highlight_Type::string_delim);
+                        emit_and_advance(1 + raw_hash_length, Highlight_Type::string_delim);
                         break;
                     }
                 }
-- 
2.43.0


From 74f04b3f49c252d5f691bb1087ed98677efd7273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:46 +0000
Subject: [PATCH 066/144] fix: do not treat Rust inequalities as macro
 invocations

---
 src/main/cpp/lang/rust.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/lang/rust.cpp b/src/main/cpp/lang/rust.cpp
index a3d4cd8..90ad730 100644
--- a/src/main/cpp/lang/rust.cpp
+++ b/src/main/cpp/lang/rust.cpp
@@ -77,6 +77,13 @@ constexpr bool is_illegal_raw_identifier(std::u8string_view id)
         || id == u8"_"sv;
 }
 
+/// @brief Returns `true` iff `str` starts with the `!` of a macro invocation,
+/// rather than with `!=`.
+constexpr bool is_macro_suffix(std::u8string_view str)
+{
+    return str.starts_with(u8'!') && !str.starts_with(u8"!=");
+}
+
 } // namespace
 
 // I don't think this is 100% correct and the same as C++.
@@ -363,7 +370,7 @@ private:
         if (is_illegal_raw_identifier(id)) {
             emit_and_advance(prefix.length() + id_length, Highlight_Type::error);
         }
-        else if (remainder.substr(prefix.length() + id_length).starts_with(u8'!')) {
+        else if (is_macro_suffix(remainder.substr(prefix.length() + id_length))) {
             // https://doc.rust-lang.org/reference/macros.html
             emit_and_advance(prefix.length(), Highlight_Type::name_macro_delim);
             emit_and_advance(id_length, Highlight_Type::name_macro);
@@ -389,7 +396,7 @@ private:
         if (type) {
             emit_and_advance(length, token_type_highlight(*type));
         }
-        else if (remainder.substr(length).starts_with(u8'!')) {
+        else if (is_macro_suffix(remainder.substr(length))) {
             emit_and_advance(length, Highlight_Type::name_macro);
             emit_and_advance(1, Highlight_Type::name_macro_delim);
         }
-- 
2.43.0


From e5cdab72474384acfdc1bda663f79929e7e5161a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:46 +0000
Subject: [PATCH 067/144] fix: match decimal exponents of hexadecimal NASM
 numbers

---
 src/main/cpp/lang/nasm.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/lang/nasm.cpp b/src/main/cpp/lang/nasm.cpp
index f03650f..45c5288 100644
--- a/src/main/cpp/lang/nasm.cpp
+++ b/src/main/cpp/lang/nasm.cpp
@@ -543,8 +543,8 @@ private:
         static constexpr Exponent_Separator exponent_separators[] {
             { u8"e+", 10 }, { u8"e-", 10 }, { u8"e", 10 }, //
             { u8"E+", 10 }, { u8"E-", 10 }, { u8"E", 10 }, //
-            { u8"p+", 10 }, { u8"p-", 16 }, { u8"p", 16 }, //
-            { u8"P+", 10 }, { u8"P-", 16 }, { u8"P", 16 }, //
+            { u8"p+", 10 }, { u8"p-", 10 }, { u8"p", 10 }, //
+            { u8"P+", 10 }, { u8"P-", 10 }, { u8"P", 10 }, //
         };
         static constexpr Common_Number_Options options //
             { .prefixes = prefixes,
-- 
2.43.0


From c74d4b912a391b2def48cb01555938e463d98806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:46 +0000
Subject: [PATCH 068/144] fix: accept separators in numbers with base suffix

---
 src/main/cpp/parse_utils.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/main/cpp/parse_utils.cpp b/src/main/cpp/parse_utils.cpp
index cb2e534..26f4227 100644
--- a/src/main/cpp/parse_utils.cpp
+++ b/src/main/cpp/parse_utils.cpp
@@ -324,18 +324,18 @@ Suffix_Number_Result match_suffix_number(
         for (std::size_t i = 0; i + suffix.length < length; ++i) {
             const char8_t c = number[i];
 
+            if (digit_separator != 0 && c == digit_separator) {
+                if (i != 0 && number[i - 1] == digit_separator) {
+                    return true;
+                }
+                continue;
+            }
             const int digit_value = c >= u8'A' && c <= u8'Z' ? c - u8'A' + 10
                 : c >= u8'a' && c <= u8'z'                   ? c - u8'a' + 10
                                                              : c - u8'0';
             if (digit_value >= suffix.base) {
                 return true;
             }
-            const bool repeated_separator = digit_separator != 0 && c == digit_separator //
-                && i != 0 //
-                && number[i - 1] == digit_separator;
-            if (repeated_separator) {
-                return true;
-            }
         }
         return false;
     }();
-- 
2.43.0


From 9eda818c9bf3b8f57e0cca9f52afed39f19f52cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:46 +0000
Subject: [PATCH 069/144] fix: accept single-digit octal escapes in NASM

---
 src/main/cpp/lang/nasm.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/nasm.cpp b/src/main/cpp/lang/nasm.cpp
index 45c5288..42cd9fa 100644
--- a/src/main/cpp/lang/nasm.cpp
+++ b/src/main/cpp/lang/nasm.cpp
@@ -43,7 +43,7 @@ Escape_Result match_escape_sequence(std::u8string_view str)
     case u8'5':
     case u8'6':
     case u8'7': {
-        return match_common_escape<Common_Escape::octal_1_to_2>(str, 2);
+        return match_common_escape<Common_Escape::octal_1_to_3>(str, 1);
     }
     case u8'x': {
         return match_common_escape<Common_Escape::hex_1_to_2>(str, 2);
-- 
2.43.0


From 78077c268c3b59e7fad3f1f6f52c4b6fb4345656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:46 +0000
Subject: [PATCH 070/144] fix: do not split characters after NASM backslashes

---
 src/main/cpp/lang/nasm.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/nasm.cpp b/src/main/cpp/lang/nasm.cpp
index 42cd9fa..4a30438 100644
--- a/src/main/cpp/lang/nasm.cpp
+++ b/src/main/cpp/lang/nasm.cpp
@@ -55,7 +55,7 @@ Escape_Result match_escape_sequence(std::u8string_view str)
         return match_common_escape<Common_Escape::hex_8>(str, 2);
     }
     default: {
-        return { .length = 2uz, .erroneous = true };
+        return { .length = 1uz, .erroneous = true };
     }
     }
 }
-- 
2.43.0


From b2790f8ae2a7cef930eeaa23737eb62400976c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:46 +0000
Subject: [PATCH 071/144] fix: highlight unterminated NASM strings as strings

---
 src/main/cpp/lang/nasm.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main/cpp/lang/nasm.cpp b/src/main/cpp/lang/nasm.cpp
index 4a30438..87c209b 100644
--- a/src/main/cpp/lang/nasm.cpp
+++ b/src/main/cpp/lang/nasm.cpp
@@ -656,6 +656,9 @@ private:
             }
             }
         }
+
+        // Unterminated string.
+        flush();
     }
 
     bool expect_escape()
-- 
2.43.0


From b1f047332fb7ba9fedfbf4ec81e7d8fce15455d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:46 +0000
Subject: [PATCH 072/144] fix: match the NASM operators *, =, and ==

---
 src/main/cpp/lang/nasm.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main/cpp/lang/nasm.cpp b/src/main/cpp/lang/nasm.cpp
index 87c209b..4808ef2 100644
--- a/src/main/cpp/lang/nasm.cpp
+++ b/src/main/cpp/lang/nasm.cpp
@@ -71,7 +71,9 @@ std::size_t match_operator(std::u8string_view str)
     case u8':':
     case u8'+':
     case u8'-':
+    case u8'*':
     case u8'~': return 1;
+    case u8'=': return str.starts_with(u8"==") ? 2 : 1;
     case u8'!': return str.starts_with(u8"!=") ? 2 : 1;
     case u8'|': return str.starts_with(u8"||") ? 2 : 1;
     case u8'&': return str.starts_with(u8"&&") ? 2 : 1;
-- 
2.43.0


From 6a461354731d16fd984a639b01846cc1425089a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:46 +0000
Subject: [PATCH 073/144] fix: correct the characters of NASM names

---
 include/ulight/impl/lang/nasm.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ulight/impl/lang/nasm.hpp b/include/ulight/impl/lang/nasm.hpp
index 4c0a95a..78a9eeb 100644
--- a/include/ulight/impl/lang/nasm.hpp
+++ b/include/ulight/impl/lang/nasm.hpp
@@ -12,7 +12,7 @@ namespace ulight::nasm {
 inline constexpr auto is_nasm_identifier_start = is_ascii_alpha | Charset256(u8"._?$");
 
 // https://www.nasm.us/xdoc/2.16.03/html/nasmdoc3.html
-inline constexpr auto is_nasm_identifier = is_ascii_alphanumeric | Charset256(u8"_$@-.?");
+inline constexpr auto is_nasm_identifier = is_ascii_alphanumeric | Charset256(u8"_$#@~.?");
 
 [[nodiscard]]
 bool is_pseudo_instruction(std::u8string_view name) noexcept;
-- 
2.43.0


From a6c65ebe866fb235ba721d451915d997d5470c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:39 +0000
Subject: [PATCH 074/144] fix: match NASM numbers with prefix which end in a
 suffix character

---
 src/main/cpp/lang/nasm.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/main/cpp/lang/nasm.cpp b/src/main/cpp/lang/nasm.cpp
index 4808ef2..885c7fa 100644
--- a/src/main/cpp/lang/nasm.cpp
+++ b/src/main/cpp/lang/nasm.cpp
@@ -568,6 +568,12 @@ private:
         if (!suffixed) {
             return false;
         }
+        if (remainder.starts_with(u8'0') && suffixed.digits >= 2
+            && base_of_suffix_char(remainder[1]) > suffixed.base) {
+            // If there is both a prefix and a suffix, such as in 0x1d,
+            // the one with the greater base wins.
+            return false;
+        }
         if (suffixed.base == 16) {
             // In the case of hex numbers, there are actually some insane ambiguities.
             // For example, "eax" could technically be parsed as hexadecimal digits
-- 
2.43.0


From 67333ada23f04a0dfa6df7e9ccd463836151bec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:39 +0000
Subject: [PATCH 075/144] fix: do not treat the NASM position $ as number

---
 src/main/cpp/lang/nasm.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/main/cpp/lang/nasm.cpp b/src/main/cpp/lang/nasm.cpp
index 885c7fa..c6da58f 100644
--- a/src/main/cpp/lang/nasm.cpp
+++ b/src/main/cpp/lang/nasm.cpp
@@ -526,6 +526,11 @@ private:
         if (remainder.starts_with(digit_separator)) {
             return false;
         }
+        if (remainder.starts_with(u8'$')
+            && (remainder.length() < 2 || !is_ascii_digit(remainder[1]))) {
+            // This is not a hexadecimal prefix, but the current position or an escaped name.
+            return false;
+        }
         return expect_suffixed_number() || expect_common_number();
     }
 
-- 
2.43.0


From 19d85f029bfbd7ab03b5710aecdc693475679ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:39 +0000
Subject: [PATCH 076/144] fix: correct the list of NASM registers

---
 src/main/cpp/lang/nasm.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/main/cpp/lang/nasm.cpp b/src/main/cpp/lang/nasm.cpp
index c6da58f..15c4d32 100644
--- a/src/main/cpp/lang/nasm.cpp
+++ b/src/main/cpp/lang/nasm.cpp
@@ -248,17 +248,17 @@ constexpr std::u8string_view registers[] {
     u8"xmm0", u8"xmm1", u8"xmm10", u8"xmm11", u8"xmm12", u8"xmm13", u8"xmm14", u8"xmm15",
     u8"xmm16", u8"xmm17", u8"xmm18", u8"xmm19", u8"xmm2", u8"xmm20", u8"xmm21", u8"xmm22",
     u8"xmm23", u8"xmm24", u8"xmm25", u8"xmm26", u8"xmm27", u8"xmm28", u8"xmm29", u8"xmm3",
-    u8"xmm31", u8"xmm32", u8"xmm4", u8"xmm5", u8"xmm6", u8"xmm7", u8"xmm8", u8"xmm9",
+    u8"xmm30", u8"xmm31", u8"xmm4", u8"xmm5", u8"xmm6", u8"xmm7", u8"xmm8", u8"xmm9",
 
     u8"ymm0", u8"ymm1", u8"ymm10", u8"ymm11", u8"ymm12", u8"ymm13", u8"ymm14", u8"ymm15",
     u8"ymm16", u8"ymm17", u8"ymm18", u8"ymm19", u8"ymm2", u8"ymm20", u8"ymm21", u8"ymm22",
     u8"ymm23", u8"ymm24", u8"ymm25", u8"ymm26", u8"ymm27", u8"ymm28", u8"ymm29", u8"ymm3",
-    u8"ymm31", u8"ymm32", u8"ymm4", u8"ymm5", u8"ymm6", u8"ymm7", u8"ymm8", u8"ymm9",
+    u8"ymm30", u8"ymm31", u8"ymm4", u8"ymm5", u8"ymm6", u8"ymm7", u8"ymm8", u8"ymm9",
 
     u8"zmm0", u8"zmm1", u8"zmm10", u8"zmm11", u8"zmm12", u8"zmm13", u8"zmm14", u8"zmm15",
     u8"zmm16", u8"zmm17", u8"zmm18", u8"zmm19", u8"zmm2", u8"zmm20", u8"zmm21", u8"zmm22",
     u8"zmm23", u8"zmm24", u8"zmm25", u8"zmm26", u8"zmm27", u8"zmm28", u8"zmm29", u8"zmm3",
-    u8"zmm31", u8"zmm32", u8"zmm4", u8"zmm5", u8"zmm6", u8"zmm7", u8"zmm8", u8"zmm9",
+    u8"zmm30", u8"zmm31", u8"zmm4", u8"zmm5", u8"zmm6", u8"zmm7", u8"zmm8", u8"zmm9",
 };
 // clang-format on
 
-- 
2.43.0


From 0de7bc2bb1888b6a3d8766a0253576a04475e324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:27 +0000
Subject: [PATCH 077/144] fix: recognize url( in CSS

---
 src/main/cpp/lang/css.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/css.cpp b/src/main/cpp/lang/css.cpp
index 977774a..7486f5f 100644
--- a/src/main/cpp/lang/css.cpp
+++ b/src/main/cpp/lang/css.cpp
@@ -128,7 +128,7 @@ Ident_Result match_ident_like_token(std::u8string_view str)
     // parenthesis or the following URL, just the identifier.
 
     const std::size_t length = match_ident_sequence(str);
-    const std::u8string_view result = str.substr(length);
+    const std::u8string_view result = str.substr(0, length);
 
     if (length == str.length() || str[length] != u8'(') {
         return { .length = length, .type = Ident_Type::ident };
-- 
2.43.0


From f0421c76bed2236c402a27dd0540b8d1c073af4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:27 +0000
Subject: [PATCH 078/144] fix: allow non-ASCII characters in CSS identifiers

---
 include/ulight/impl/lang/css.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/ulight/impl/lang/css.hpp b/include/ulight/impl/lang/css.hpp
index 854cfa6..c80356d 100644
--- a/include/ulight/impl/lang/css.hpp
+++ b/include/ulight/impl/lang/css.hpp
@@ -25,7 +25,8 @@ inline constexpr struct Is_CSS_Identifier_Start {
     static constexpr bool operator()(const char8_t c) noexcept
     {
         // https://www.w3.org/TR/css-syntax-3/#ident-start-code-point
-        return is_css_ascii_identifier_start(c);
+        // Code units of non-ASCII code points all belong to identifiers.
+        return c >= 0x80 || is_css_ascii_identifier_start(c);
     }
 
     [[nodiscard]]
@@ -44,7 +45,8 @@ inline constexpr struct Is_CSS_Identifier {
     static constexpr bool operator()(const char8_t c) noexcept
     {
         // https://www.w3.org/TR/css-syntax-3/#ident-code-point
-        return is_css_ascii_identifier(c);
+        // Code units of non-ASCII code points all belong to identifiers.
+        return c >= 0x80 || is_css_ascii_identifier(c);
     }
 
     [[nodiscard]]
-- 
2.43.0


From a634fb21dfbaeb289a48b254ace19137c5208c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:27 +0000
Subject: [PATCH 079/144] fix: leave the value of a CSS declaration at the end
 of a nested block

---
 src/main/cpp/lang/css.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/main/cpp/lang/css.cpp b/src/main/cpp/lang/css.cpp
index 7486f5f..9de1a6f 100644
--- a/src/main/cpp/lang/css.cpp
+++ b/src/main/cpp/lang/css.cpp
@@ -375,9 +375,7 @@ public:
                 if (brace_level != 0) {
                     --brace_level;
                 }
-                if (brace_level == 0) {
-                    context = Context::top_level;
-                }
+                context = brace_level == 0 ? Context::top_level : Context::block;
                 emit_and_advance(1, Highlight_Type::symbol_brace);
                 break;
             }
-- 
2.43.0


From 397e3e1c58381f466ac5e99914c387c13e5934d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:27 +0000
Subject: [PATCH 080/144] fix: stay in the CSS block after a nested at-rule
 without block

---
 src/main/cpp/lang/css.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/css.cpp b/src/main/cpp/lang/css.cpp
index 9de1a6f..c706f3f 100644
--- a/src/main/cpp/lang/css.cpp
+++ b/src/main/cpp/lang/css.cpp
@@ -295,7 +295,7 @@ public:
                     context = Context::block;
                 }
                 else if (context == Context::at_prelude) {
-                    context = Context::top_level;
+                    context = brace_level == 0 ? Context::top_level : Context::block;
                 }
                 emit_and_advance(1, Highlight_Type::symbol_punc);
                 break;
-- 
2.43.0


From f68a83c7e76fb388060f31f69435937eebaf3aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:27 +0000
Subject: [PATCH 081/144] fix: do not treat the next-sibling combinator of CSS
 as error

---
 src/main/cpp/lang/css.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/css.cpp b/src/main/cpp/lang/css.cpp
index c706f3f..5455df6 100644
--- a/src/main/cpp/lang/css.cpp
+++ b/src/main/cpp/lang/css.cpp
@@ -257,9 +257,14 @@ public:
                         break;
                     }
                 }
+                if (c == u8'+' && context == Context::top_level) {
+                    // Example: "h1 + p"
+                    emit_and_advance(1, selector_highlight_type, Coalescing::forced);
+                    break;
+                }
                 emit_and_advance(
                     1,
-                    context == Context::value || context == Context::at_prelude
+                    c == u8'+' || context == Context::value || context == Context::at_prelude
                         ? Highlight_Type::symbol_op
                         : Highlight_Type::error
                 );
-- 
2.43.0


From 27df55cba0a7e90be17916013eb5f5690b318392 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:27 +0000
Subject: [PATCH 082/144] fix: require the whole word important in CSS

---
 src/main/cpp/lang/css.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/css.cpp b/src/main/cpp/lang/css.cpp
index 5455df6..59a2f15 100644
--- a/src/main/cpp/lang/css.cpp
+++ b/src/main/cpp/lang/css.cpp
@@ -344,7 +344,7 @@ public:
                 const std::size_t white_length = html::match_whitespace(remainder.substr(1));
                 if (const std::size_t name_length
                     = match_ident_sequence(remainder.substr(1 + white_length))) {
-                    if (ascii::starts_with_ignore_case(
+                    if (ascii::equals_ignore_case(
                             remainder.substr(1 + white_length, name_length), important
                         )) {
                         emit_and_advance(
-- 
2.43.0


From 9d2668b216394e49339f7f9a11ee88f46d02b917 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:27 +0000
Subject: [PATCH 083/144] fix: treat CRLF as one newline in CSS escapes

---
 src/main/cpp/lang/css.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/css.cpp b/src/main/cpp/lang/css.cpp
index 59a2f15..b95698b 100644
--- a/src/main/cpp/lang/css.cpp
+++ b/src/main/cpp/lang/css.cpp
@@ -94,11 +94,17 @@ std::size_t match_escaped_code_point(std::u8string_view str)
         ++length;
     }
     if (length != 0) {
-        if (length < str.length() && is_css_whitespace(str[length])) {
+        if (str.substr(length).starts_with(u8"\r\n")) {
+            length += 2;
+        }
+        else if (length < str.length() && is_css_whitespace(str[length])) {
             ++length;
         }
         return length;
     }
+    if (str.starts_with(u8"\r\n")) {
+        return 2;
+    }
     return std::min(std::size_t(utf8::sequence_length(str[0], 1)), str.length());
 }
 
-- 
2.43.0


From e519f3c5d5bbee8b22fb5454cea47e37bdb1d72a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:42 +0000
Subject: [PATCH 084/144] fix: allow hyphens in XML names

---
 include/ulight/impl/lang/xml.hpp | 2 +-
 src/main/cpp/lang/xml.cpp        | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/ulight/impl/lang/xml.hpp b/include/ulight/impl/lang/xml.hpp
index e1918ce..5416a16 100644
--- a/include/ulight/impl/lang/xml.hpp
+++ b/include/ulight/impl/lang/xml.hpp
@@ -51,7 +51,7 @@ inline constexpr struct Is_XML_Name {
         // https://www.w3.org/TR/REC-xml/#sec-common-syn
         return is_ascii_digit(c) //
             || is_xml_name_start(c) //
-            || c == U':' //
+            || c == U'-' //
             || c == U'.' //
             || c == U'\u00b7' //
             || (c >= U'\u0300' && c <= U'\u036f') //
diff --git a/src/main/cpp/lang/xml.cpp b/src/main/cpp/lang/xml.cpp
index 16aae3f..6e7ad1f 100644
--- a/src/main/cpp/lang/xml.cpp
+++ b/src/main/cpp/lang/xml.cpp
@@ -180,8 +180,9 @@ std::size_t match_entity_reference(const std::u8string_view str)
     }
     const std::size_t result = str.find(u8';', 1);
     std::u8string_view ref_content = str.substr(1, result - 1);
-    const bool success
-        = result != std::u8string_view::npos && match_name(ref_content) == ref_content.size();
+    const bool success = result != std::u8string_view::npos
+        && ref_content.find(u8'-') == std::u8string_view::npos
+        && match_name(ref_content) == ref_content.size();
     return success ? result + 1 : 0;
 }
 
-- 
2.43.0


From 872ff1ceff6c4d55550f5c435e7b8002037a7079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:42 +0000
Subject: [PATCH 085/144] fix: do not treat XML processing instructions such as
 xml-stylesheet as XML declaration

---
 src/main/cpp/lang/xml.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/xml.cpp b/src/main/cpp/lang/xml.cpp
index 6e7ad1f..bed09d4 100644
--- a/src/main/cpp/lang/xml.cpp
+++ b/src/main/cpp/lang/xml.cpp
@@ -400,7 +400,8 @@ private:
     bool expect_xml_decl()
     {
         // https://www.w3.org/TR/xml/#NT-XMLDecl
-        if (!remainder.starts_with(xml_tag)) {
+        if (!remainder.starts_with(xml_tag)
+            || !match_whitespace(remainder.substr(xml_tag.length()))) {
             return false;
         }
         emit_and_advance(xml_tag.size(), Highlight_Type::name_macro);
-- 
2.43.0


From 7ab4a1e489e93318680c28a5b6f20f58a3c21618 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:42 +0000
Subject: [PATCH 086/144] fix: accept a quoted version in the XML declaration

---
 src/main/cpp/lang/xml.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main/cpp/lang/xml.cpp b/src/main/cpp/lang/xml.cpp
index bed09d4..3034cf9 100644
--- a/src/main/cpp/lang/xml.cpp
+++ b/src/main/cpp/lang/xml.cpp
@@ -408,6 +408,9 @@ private:
         expect_whitespace();
 
         const auto highlight_number = [&]() {
+            if (expect_attribute_value()) {
+                return;
+            }
             Common_Number_Result num_result
                 = match_common_number(remainder, Common_Number_Options {});
             if (num_result.integer) {
-- 
2.43.0


From f9d0c0e6e1130e908bfea37f077e04554e605480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:42 +0000
Subject: [PATCH 087/144] fix: accept whitespace around '=' in the XML
 declaration

---
 src/main/cpp/lang/xml.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/main/cpp/lang/xml.cpp b/src/main/cpp/lang/xml.cpp
index 3034cf9..3cb9dca 100644
--- a/src/main/cpp/lang/xml.cpp
+++ b/src/main/cpp/lang/xml.cpp
@@ -433,11 +433,13 @@ private:
                 return;
             }
             emit_and_advance(attr_name.size(), Highlight_Type::markup_attr);
+            expect_whitespace();
 
             if (!remainder.starts_with(u8'=')) {
                 return;
             }
             emit_and_advance(1, Highlight_Type::symbol_punc);
+            expect_whitespace();
 
             if (!remainder.empty()) {
                 expect_val();
-- 
2.43.0


From 7b5a9ad865e5afb78c80c18c55231141019a9f5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:42 +0000
Subject: [PATCH 088/144] fix: examine the target of XML processing
 instructions, not their contents

---
 src/main/cpp/lang/xml.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/lang/xml.cpp b/src/main/cpp/lang/xml.cpp
index 3cb9dca..c49101b 100644
--- a/src/main/cpp/lang/xml.cpp
+++ b/src/main/cpp/lang/xml.cpp
@@ -485,14 +485,15 @@ private:
         constexpr auto is_processing_name_end = [](std::u8string_view str) {
             return match_whitespace(str) || str.starts_with(u8"?>");
         };
+        const std::u8string_view target = remainder;
         const std::size_t name_length
             = expect_name(Highlight_Type::name_macro, is_processing_name_end);
         if (!name_length) {
             return true;
         }
 
-        const std::u8string_view target_name = remainder.substr(0, name_length);
-        if (ascii::contains_ignore_case(target_name, u8"xml")) {
+        const std::u8string_view target_name = target.substr(0, name_length);
+        if (ascii::equals_ignore_case(target_name, u8"xml")) {
             return true;
         }
 
-- 
2.43.0


From 9a624e99767d6f26ee97ad4e667fe7ba12f7d42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:43 +0000
Subject: [PATCH 089/144] fix: end XML document type declarations without
 internal subset

---
 src/main/cpp/lang/xml.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/xml.cpp b/src/main/cpp/lang/xml.cpp
index c49101b..efb413c 100644
--- a/src/main/cpp/lang/xml.cpp
+++ b/src/main/cpp/lang/xml.cpp
@@ -353,7 +353,7 @@ private:
         if (match_external_id_type(remainder)) {
             expect_external_id();
         }
-        else if (!remainder.starts_with(u8'[')) {
+        else if (!remainder.starts_with(u8'[') && !remainder.starts_with(u8'>')) {
             const std::size_t word_len = ascii::length_if_not(remainder, is_xml_whitespace);
             advance(word_len);
 
@@ -369,6 +369,10 @@ private:
         }
 
         expect_whitespace();
+        if (remainder.starts_with(u8'>')) {
+            emit_and_advance(1, Highlight_Type::name_macro);
+            return true;
+        }
         if (!remainder.starts_with(u8'[')) {
             return true;
         }
-- 
2.43.0


From 4815eb302dbc6e06d2fecc216c2615d4f9d1f818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:43 +0000
Subject: [PATCH 090/144] fix: end names in XML markup declarations at '>'

---
 src/main/cpp/lang/xml.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/xml.cpp b/src/main/cpp/lang/xml.cpp
index efb413c..55df529 100644
--- a/src/main/cpp/lang/xml.cpp
+++ b/src/main/cpp/lang/xml.cpp
@@ -271,7 +271,7 @@ private:
 
         emit_and_advance(2, Highlight_Type::name_macro);
         constexpr auto after_markup_decl_name
-            = [](std::u8string_view str) { return match_whitespace(str); };
+            = [](std::u8string_view str) { return match_whitespace(str) || str.starts_with(u8'>'); };
 
         expect_name(Highlight_Type::name_macro, after_markup_decl_name);
         expect_whitespace();
-- 
2.43.0


From 30fcc2978d344c45ec7e1598ca6aea79ddac33ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:43 +0000
Subject: [PATCH 091/144] fix: highlight '?' and '+' in XML content models

---
 src/main/cpp/lang/xml.cpp | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/src/main/cpp/lang/xml.cpp b/src/main/cpp/lang/xml.cpp
index 55df529..3527ea4 100644
--- a/src/main/cpp/lang/xml.cpp
+++ b/src/main/cpp/lang/xml.cpp
@@ -287,11 +287,7 @@ private:
 
         while (!remainder.starts_with(u8'>') && !remainder.empty()) {
 
-            if (remainder.starts_with(u8')') || //
-                remainder.starts_with(u8'(') || //
-                remainder.starts_with(u8'|') || //
-                remainder.starts_with(u8'*') || //
-                remainder.starts_with(u8',')) { //
+            if (is_contentspec_non_name_char(remainder[0])) {
                 emit_and_advance(1, Highlight_Type::symbol_punc);
             }
             else if (const std::size_t att_type_len = match_att_type(remainder)) {
-- 
2.43.0


From e122094c43fd82489307b908ba1740c0a6412e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:43 +0000
Subject: [PATCH 092/144] fix: do not treat the beginning of an XML name as
 keyword

---
 src/main/cpp/lang/xml.cpp | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/main/cpp/lang/xml.cpp b/src/main/cpp/lang/xml.cpp
index 3527ea4..2527ab3 100644
--- a/src/main/cpp/lang/xml.cpp
+++ b/src/main/cpp/lang/xml.cpp
@@ -82,11 +82,19 @@ std::size_t match_att_type(const std::u8string_view str)
     return 0;
 }
 
+/// @brief Returns `true` if `str` starts with `word`,
+/// and no character that could continue a name follows.
+[[nodiscard]]
+static bool starts_with_word(const std::u8string_view str, const std::u8string_view word)
+{
+    return str.starts_with(word) && match_name(str.substr(word.length())) == 0;
+}
+
 [[nodiscard]]
 std::size_t match_default_decl_type(const std::u8string_view str)
 {
     for (const auto& default_decl_type : default_decl_types) {
-        if (str.starts_with(default_decl_type)) {
+        if (starts_with_word(str, default_decl_type)) {
             return default_decl_type.size();
         }
     }
@@ -97,11 +105,11 @@ std::size_t match_default_decl_type(const std::u8string_view str)
 [[nodiscard]]
 std::size_t match_external_id_type(const std::u8string_view str)
 {
-    if (str.starts_with(external_id_public)) {
+    if (starts_with_word(str, external_id_public)) {
         return external_id_public.size();
     }
 
-    if (str.starts_with(external_id_system)) {
+    if (starts_with_word(str, external_id_system)) {
         return external_id_system.size();
     }
 
@@ -111,11 +119,11 @@ std::size_t match_external_id_type(const std::u8string_view str)
 [[nodiscard]]
 std::size_t match_content_spec_type(const std::u8string_view str)
 {
-    if (str.starts_with(content_spec_empty)) {
+    if (starts_with_word(str, content_spec_empty)) {
         return content_spec_empty.size();
     }
 
-    if (str.starts_with(content_spec_any)) {
+    if (starts_with_word(str, content_spec_any)) {
         return content_spec_any.size();
     }
 
@@ -125,13 +133,13 @@ std::size_t match_content_spec_type(const std::u8string_view str)
 [[nodiscard]]
 std::size_t match_ndata_decl(const std::u8string_view str)
 {
-    return str.starts_with(ndata_decl_string) ? ndata_decl_string.size() : 0;
+    return starts_with_word(str, ndata_decl_string) ? ndata_decl_string.size() : 0;
 }
 
 [[nodiscard]]
 std::size_t match_pcdata_decl(const std::u8string_view str)
 {
-    return str.starts_with(pcdata_decl_string) ? pcdata_decl_string.size() : 0;
+    return starts_with_word(str, pcdata_decl_string) ? pcdata_decl_string.size() : 0;
 }
 
 [[nodiscard]]
-- 
2.43.0


From 0e81c77d8cc37614e0a705d30751e3144d6bce42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:43 +0000
Subject: [PATCH 093/144] fix: recognize XML entity references with any name

---
 src/main/cpp/lang/xml.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/main/cpp/lang/xml.cpp b/src/main/cpp/lang/xml.cpp
index 2527ab3..8195df7 100644
--- a/src/main/cpp/lang/xml.cpp
+++ b/src/main/cpp/lang/xml.cpp
@@ -209,6 +209,14 @@ std::size_t match_pe_reference(const std::u8string_view str)
     return success ? result + 1 : 0;
 }
 
+/// @brief Matches a character reference or an entity reference.
+[[nodiscard]]
+static std::size_t match_reference(const std::u8string_view str)
+{
+    const std::size_t result = html::match_character_reference(str);
+    return result != 0 || str.starts_with(u8"&;") ? result : match_pe_reference(str);
+}
+
 struct XML_Highlighter : Highlighter_Base {
 
     [[nodiscard]]
@@ -547,7 +555,7 @@ private:
     bool expect_reference()
     {
         // https://www.w3.org/TR/xml/#NT-CharRef
-        if (std::size_t ref_length = html::match_character_reference(remainder)) {
+        if (const std::size_t ref_length = match_reference(remainder)) {
             emit_and_advance(ref_length, Highlight_Type::string_escape);
             return true;
         }
@@ -647,14 +655,13 @@ private:
         while (!remainder.empty() && piece_length < remainder.length()
                && remainder[piece_length] != quote_type) {
             std::u8string_view candidate = remainder.substr(piece_length);
-            if ((remainder[piece_length] == u8'&' && !html::match_character_reference(candidate))
+            if ((remainder[piece_length] == u8'&' && !match_reference(candidate))
                 || remainder[piece_length] == u8'<') {
                 highlight_piece();
                 emit_and_advance(1, Highlight_Type::error);
                 piece_length = 0;
             }
-            else if (remainder[piece_length] == u8'&'
-                     && html::match_character_reference(candidate)) {
+            else if (remainder[piece_length] == u8'&' && match_reference(candidate)) {
                 highlight_piece();
                 expect_reference();
                 piece_length = 0;
-- 
2.43.0


From 08a84ba8e98d1a2c538ef2700ea5ba9e3e8584ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:43 +0000
Subject: [PATCH 094/144] fix: avoid quadratic search for character references
 in HTML text

---
 src/main/cpp/lang/html.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/lang/html.cpp b/src/main/cpp/lang/html.cpp
index a330c5a..5c0f684 100644
--- a/src/main/cpp/lang/html.cpp
+++ b/src/main/cpp/lang/html.cpp
@@ -528,8 +528,9 @@ private:
                 advance(remainder.length());
                 break;
             }
-            if (remainder[safe_length] == u8'<') {
-                advance(safe_length);
+            const bool is_tag = remainder[safe_length] == u8'<';
+            advance(safe_length);
+            if (is_tag) {
                 break;
             }
             if (!expect_character_reference()) {
-- 
2.43.0


From a47abb57e49da8dcfe144bf04eaf7d5478af5d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:47 +0000
Subject: [PATCH 095/144] fix: expect a command after control operators in Bash

---
 src/main/cpp/lang/bash.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/main/cpp/lang/bash.cpp b/src/main/cpp/lang/bash.cpp
index b2cb2af..4b6bc18 100644
--- a/src/main/cpp/lang/bash.cpp
+++ b/src/main/cpp/lang/bash.cpp
@@ -258,7 +258,12 @@ private:
             case u8'>': {
                 const std::optional<Token_Type> op = match_operator(remainder);
                 ULIGHT_ASSERT(op);
+                const bool is_redirection
+                    = token_type_code(*op).find_first_of(u8"<>") != std::u8string_view::npos;
                 emit_and_advance(token_type_length(*op), Highlight_Type::symbol_op);
+                if (state != State::parameter_sub && op != Token_Type::amp) {
+                    state = is_redirection ? State::before_argument : State::before_command;
+                }
                 continue;
             }
             case u8'}': {
-- 
2.43.0


From 8c7872b0993315f04210debd807ef86292711f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:47 +0000
Subject: [PATCH 096/144] fix: do not expect a command after a newline in a
 Bash parameter substitution

---
 src/main/cpp/lang/bash.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/bash.cpp b/src/main/cpp/lang/bash.cpp
index 4b6bc18..78e4d58 100644
--- a/src/main/cpp/lang/bash.cpp
+++ b/src/main/cpp/lang/bash.cpp
@@ -213,7 +213,9 @@ private:
             case u8'\r':
             case u8'\n': {
                 advance(1);
-                state = State::before_command;
+                if (state != State::parameter_sub) {
+                    state = State::before_command;
+                }
                 continue;
             }
             case u8'$': {
-- 
2.43.0


From 9b99b72fc130a501f1e341d8f266bf5f43b5e739 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:47 +0000
Subject: [PATCH 097/144] fix: continue the outer word after Bash substitutions
 and subshells

---
 src/main/cpp/lang/bash.cpp | 33 ++++++++++++++++++++++-----------
 1 file changed, 22 insertions(+), 11 deletions(-)

diff --git a/src/main/cpp/lang/bash.cpp b/src/main/cpp/lang/bash.cpp
index 78e4d58..f541023 100644
--- a/src/main/cpp/lang/bash.cpp
+++ b/src/main/cpp/lang/bash.cpp
@@ -229,8 +229,10 @@ private:
             }
             case u8'(': {
                 emit_and_advance(1, Highlight_Type::symbol_parens);
+                const bool in_parameter_sub = state == State::parameter_sub;
                 state = State::before_command;
                 consume_commands(Context::subshell);
+                state = in_parameter_sub ? State::parameter_sub : State::before_argument;
                 continue;
             }
             case u8')': {
@@ -378,14 +380,28 @@ private:
         flush_chars();
     }
 
+    /// @brief Updates the state after a part of a word has been consumed.
+    void continue_word()
+    {
+        if (state == State::before_command) {
+            state = State::in_command;
+        }
+        else if (state == State::before_argument) {
+            state = State::in_argument;
+        }
+    }
+
     void consume_substitution()
     {
         ULIGHT_ASSERT(remainder.size() >= 2 && remainder.starts_with(u8'$'));
         const char8_t next = remainder[1];
+        const State outer_state = state;
         if (next == u8'{') {
             emit_and_advance(2, Highlight_Type::string_interpolation_delim);
             state = State::parameter_sub;
             consume_commands(Context::parameter_sub);
+            state = outer_state;
+            continue_word();
             return;
         }
         if (next == u8'(') {
@@ -393,31 +409,26 @@ private:
                 emit_and_advance(3, Highlight_Type::string_interpolation_delim);
                 state = State::before_command;
                 consume_commands(Context::arith_sub);
+                state = outer_state;
+                continue_word();
                 return;
             }
             emit_and_advance(2, Highlight_Type::string_interpolation_delim);
             state = State::before_command;
             consume_commands(Context::command_sub);
+            state = outer_state;
+            continue_word();
             return;
         }
 
-        const auto update_state = [&] {
-            if (state == State::before_command) {
-                state = State::in_command;
-            }
-            else if (state == State::before_argument) {
-                state = State::in_argument;
-            };
-        };
-
         if (is_bash_special_parameter(next)) {
             emit_and_advance(2, Highlight_Type::string_interpolation);
-            update_state();
+            continue_word();
             return;
         }
         if (const std::size_t id = match_identifier(remainder.substr(1))) {
             emit_and_advance(id + 1, Highlight_Type::string_interpolation);
-            update_state();
+            continue_word();
             return;
         }
         ULIGHT_ASSERT_UNREACHABLE(u8"No substitution to consume.");
-- 
2.43.0


From d53a8836d3c709425abe8b0bc65d00c962120341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:47 +0000
Subject: [PATCH 098/144] fix: treat quotes and escapes as part of Bash words

---
 src/main/cpp/lang/bash.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main/cpp/lang/bash.cpp b/src/main/cpp/lang/bash.cpp
index f541023..e46eeb0 100644
--- a/src/main/cpp/lang/bash.cpp
+++ b/src/main/cpp/lang/bash.cpp
@@ -185,11 +185,13 @@ private:
             case u8'\'': {
                 const String_Result string = match_single_quoted_string(remainder);
                 highlight_string(string);
+                continue_word();
                 continue;
             }
             case u8'"': {
                 emit_and_advance(1, Highlight_Type::string_delim);
                 consume_double_quoted_string();
+                continue_word();
                 continue;
             }
             case u8'#': {
@@ -331,6 +333,7 @@ private:
         else {
             const auto [_, units] = utf8::decode_and_length_or_replacement(remainder.substr(1));
             emit_and_advance(1 + std::size_t(units), Highlight_Type::string_escape);
+            continue_word();
         }
     }
 
-- 
2.43.0


From 4597f59a73cd03044e037ceb802e3d8cc535ab44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:47 +0000
Subject: [PATCH 099/144] fix: begin Bash comments only where a word may begin

---
 src/main/cpp/lang/bash.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/main/cpp/lang/bash.cpp b/src/main/cpp/lang/bash.cpp
index e46eeb0..5e877b9 100644
--- a/src/main/cpp/lang/bash.cpp
+++ b/src/main/cpp/lang/bash.cpp
@@ -195,6 +195,11 @@ private:
                 continue;
             }
             case u8'#': {
+                if (context == Context::parameter_sub || context == Context::arith_sub
+                    || state == State::in_command || state == State::in_argument) {
+                    consume_word(context);
+                    continue;
+                }
                 const std::size_t length = match_comment(remainder);
                 emit_and_advance(1, Highlight_Type::comment_delim);
                 if (length > 1) {
@@ -255,6 +260,9 @@ private:
                     continue;
                 }
                 emit_and_advance(1, Highlight_Type::symbol_parens);
+                if (state != State::parameter_sub) {
+                    state = State::before_command;
+                }
                 continue;
             }
             case u8'|':
-- 
2.43.0


From 47468e2438d0bb1fa535f05b6e35e7f85f52fc1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:47 +0000
Subject: [PATCH 100/144] fix: recognize positional parameters in Bash

---
 include/ulight/impl/lang/bash.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ulight/impl/lang/bash.hpp b/include/ulight/impl/lang/bash.hpp
index a53e3ef..3773bed 100644
--- a/include/ulight/impl/lang/bash.hpp
+++ b/include/ulight/impl/lang/bash.hpp
@@ -36,7 +36,7 @@ inline constexpr auto is_bash_escapable_in_double_quotes = Charset256(u8"'$`\"\\
 /// because `$#` expands to the number of positional parameters.
 ///
 // https://www.gnu.org/software/bash/manual/bash.html#Special-Parameters
-inline constexpr auto is_bash_special_parameter = Charset256(u8"*@#?-$!0");
+inline constexpr auto is_bash_special_parameter = Charset256(u8"*@#?-$!0123456789");
 
 // https://www.gnu.org/software/bash/manual/bash.html#index-name
 inline constexpr auto is_bash_identifier_start = is_ascii_alpha | u8'_';
-- 
2.43.0


From 3afe1c55f942bf3ba248c4d2c6b398cadca5c61a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:58 +0000
Subject: [PATCH 101/144] fix: highlight the digraph %> as brace

---
 src/main/cpp/lang/cpp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/cpp.cpp b/src/main/cpp/lang/cpp.cpp
index 93aea6d..cf0c436 100644
--- a/src/main/cpp/lang/cpp.cpp
+++ b/src/main/cpp/lang/cpp.cpp
@@ -482,7 +482,7 @@ std::optional<Token_Type> match_preprocessing_op_or_punc(std::u8string_view str,
         return str.starts_with(u8"%:%:") ? pound_pound_alt
             : str.starts_with(u8"%:")    ? pound_alt
             : str.starts_with(u8"%=")    ? percent_eq
-            : str.starts_with(u8"%>")    ? right_square_alt
+            : str.starts_with(u8"%>")    ? right_brace_alt
                                          : percent;
     case u8'{': return left_brace;
     case u8'}': return right_brace;
-- 
2.43.0


From d120abfbedd17a2b2f7ea8df3521abb4c0e64a37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:58 +0000
Subject: [PATCH 102/144] fix: do not apply the rule for <:: of C++ to C

---
 src/main/cpp/lang/cpp.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/cpp.cpp b/src/main/cpp/lang/cpp.cpp
index cf0c436..638b077 100644
--- a/src/main/cpp/lang/cpp.cpp
+++ b/src/main/cpp/lang/cpp.cpp
@@ -492,7 +492,7 @@ std::optional<Token_Type> match_preprocessing_op_or_punc(std::u8string_view str,
     case u8')': return right_parens;
     case u8'<': {
         // https://eel.is/c++draft/lex.pptoken#4.2
-        if (str.starts_with(u8"<::") && !str.starts_with(u8"<:::") && !str.starts_with(u8"<::>")) {
+        if (is_cpp && str.starts_with(u8"<::") && !str.starts_with(u8"<:::") && !str.starts_with(u8"<::>")) {
             return less;
         }
         return is_cpp && str.starts_with(u8"<=>") ? three_way
-- 
2.43.0


From e7b83216d3a3cc78f6ddad35e38e60ce814fabcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:58 +0000
Subject: [PATCH 103/144] fix: do not treat catch as C keyword

---
 include/ulight/impl/lang/cpp.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ulight/impl/lang/cpp.hpp b/include/ulight/impl/lang/cpp.hpp
index 4c2734e..d71ab45 100644
--- a/include/ulight/impl/lang/cpp.hpp
+++ b/include/ulight/impl/lang/cpp.hpp
@@ -193,7 +193,7 @@ constexpr bool is_cpp_feature(Feature_Source source)
     F(kw_bool, "bool", keyword_type, c_cpp)                                                        \
     F(kw_break, "break", keyword_control, c_cpp)                                                   \
     F(kw_case, "case", keyword_control, c_cpp)                                                     \
-    F(kw_catch, "catch", keyword_control, c_cpp)                                                   \
+    F(kw_catch, "catch", keyword_control, cpp)                                                     \
     F(kw_char, "char", keyword_type, c_cpp)                                                        \
     F(kw_char16_t, "char16_t", keyword_type, cpp)                                                  \
     F(kw_char32_t, "char32_t", keyword_type, cpp)                                                  \
-- 
2.43.0


From 77d24a2792795313e5d80c1c59adac337bbc6c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:58 +0000
Subject: [PATCH 104/144] fix: end C and C++ preprocessing directives at the
 end of the line

---
 src/main/cpp/lang/cpp.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/main/cpp/lang/cpp.cpp b/src/main/cpp/lang/cpp.cpp
index 638b077..2cdde9a 100644
--- a/src/main/cpp/lang/cpp.cpp
+++ b/src/main/cpp/lang/cpp.cpp
@@ -459,6 +459,13 @@ Escape_Result match_escape_sequence(std::u8string_view str)
 
 namespace {
 
+[[nodiscard]]
+std::size_t match_horizontal_whitespace(std::u8string_view str)
+{
+    constexpr auto predicate = [](char8_t c) { return is_cpp_whitespace(c) && c != u8'\n'; };
+    return ascii::length_if(str, predicate);
+}
+
 [[nodiscard]]
 std::size_t match_d_char_sequence(std::u8string_view str)
 {
@@ -1038,9 +1045,10 @@ public:
         const std::size_t op_length = cpp_token_type_length(*op);
         emit_and_advance(op_length, Highlight_Type::name_macro_delim);
 
+        fresh_line = false;
+
         // Consume whitespace between `#` and the directive name.
-        const std::size_t white = match_whitespace(remainder());
-        advance(white);
+        advance(match_horizontal_whitespace(remainder()));
 
         const std::size_t id_length = match_identifier(remainder());
         if (id_length == 0) {
@@ -1051,8 +1059,7 @@ public:
 
         // For #include, highlight a `<...>` header name as a string.
         if (directive_name == u8"include") {
-            const std::size_t w2 = match_whitespace(remainder());
-            advance(w2);
+            advance(match_horizontal_whitespace(remainder()));
             if (remainder().starts_with(u8'<')) {
                 emit_and_advance(1, Highlight_Type::string_delim);
                 const std::u8string_view rem = remainder();
-- 
2.43.0


From e16674c6b4394629bbc6269643eb462a067557dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:58 +0000
Subject: [PATCH 105/144] fix: separate C and C++ names from literals after
 them

---
 src/main/cpp/lang/cpp.cpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/main/cpp/lang/cpp.cpp b/src/main/cpp/lang/cpp.cpp
index 2cdde9a..74e422a 100644
--- a/src/main/cpp/lang/cpp.cpp
+++ b/src/main/cpp/lang/cpp.cpp
@@ -728,11 +728,11 @@ public:
 
         if (prefix_length != 0) {
             const auto prefix = remainder().substr(0, prefix_length);
-            const auto prefix_highlight
-                = prefix == u8"u8" || prefix == u8"u" || prefix == u8"U" || prefix == u8"L"
-                ? Highlight_Type::string_decor
-                : Highlight_Type::error;
-            emit_and_advance(prefix_length, prefix_highlight);
+            if (prefix != u8"u8" && prefix != u8"u" && prefix != u8"U" && prefix != u8"L") {
+                // The identifier or keyword is a token on its own, like in: case'a':
+                return false;
+            }
+            emit_and_advance(prefix_length, Highlight_Type::string_decor);
         }
         ULIGHT_DEBUG_ASSERT(source[index] == quote_char);
         emit_and_advance(1, Highlight_Type::string_delim);
@@ -755,11 +755,11 @@ public:
         bool is_raw = false;
         if (prefix_length != 0) {
             const auto prefix = remainder().substr(0, prefix_length);
-            const auto prefix_highlight = //
-                prefix == u8"operator"             ? Highlight_Type::keyword
-                : is_string_literal_prefix(prefix) ? Highlight_Type::string_decor
-                                                   : Highlight_Type::error;
-            emit_and_advance(prefix_length, prefix_highlight);
+            if (!is_string_literal_prefix(prefix)) {
+                // The identifier or keyword is a token on its own, like in: return"";
+                return false;
+            }
+            emit_and_advance(prefix_length, Highlight_Type::string_decor);
             is_raw = prefix.ends_with(u8'R');
         }
         ULIGHT_DEBUG_ASSERT(source[index] == quote_char);
-- 
2.43.0


From e4a2e658652307d7dd806e9406f71cc2f4840d8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:58 +0000
Subject: [PATCH 106/144] fix: continue C and C++ preprocessing directives
 after escaped newlines

---
 src/main/cpp/lang/cpp.cpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/src/main/cpp/lang/cpp.cpp b/src/main/cpp/lang/cpp.cpp
index 74e422a..5ea8326 100644
--- a/src/main/cpp/lang/cpp.cpp
+++ b/src/main/cpp/lang/cpp.cpp
@@ -1088,15 +1088,19 @@ public:
 
     bool expect_non_whitespace()
     {
-        if (const std::size_t non_white_length = match_non_whitespace(remainder())) {
-            // Don't emit any highlighting.
-            // To my understanding, this currently only matches backslashes at the end of the
-            // line. We don't have a separate phase for these, so whatever, this seems fine.
-            fresh_line = false;
-            advance(non_white_length);
+        // Don't emit any highlighting.
+        if (remainder().empty()) {
+            return false;
+        }
+        if (const std::size_t escape_length = match_newline_escape(remainder())) {
+            // The next physical line is part of the same logical line.
+            advance(escape_length);
             return true;
         }
-        return false;
+        const auto [_, units] = utf8::decode_and_length_or_replacement(remainder());
+        fresh_line = false;
+        advance(std::size_t(units));
+        return true;
     }
 };
 
-- 
2.43.0


From 22f6b975a8186ab1b5113ee683b514cc7055c9ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:59 +0000
Subject: [PATCH 107/144] fix: end unterminated braced escapes at the end of
 the string or line

---
 include/ulight/impl/escapes.hpp | 25 +++++++++++++++----------
 src/main/cpp/lang/cpp.cpp       |  2 +-
 2 files changed, 16 insertions(+), 11 deletions(-)

diff --git a/include/ulight/impl/escapes.hpp b/include/ulight/impl/escapes.hpp
index a9a0411..2f4c8e9 100644
--- a/include/ulight/impl/escapes.hpp
+++ b/include/ulight/impl/escapes.hpp
@@ -103,20 +103,24 @@ constexpr std::size_t escape_type_max_length(Common_Escape type)
 
 namespace detail {
 
+/// @brief A braced escape never extends past these characters.
+/// If the closing brace is missing,
+/// this prevents everything up to some unrelated brace from being part of the escape.
+inline constexpr auto is_braced_escape_end = Charset256(u8"}\"'`\r\n");
+
 template <typename Predicate>
 constexpr Escape_Result match_common_braced_escape(std::u8string_view str, Predicate p)
 {
     if (!str.starts_with(u8'{')) {
         return { .length = 0, .erroneous = true };
     }
-    const std::size_t length_without_brace = ascii::length_before(str, u8'}', 1);
+    const std::size_t length_without_brace
+        = 1 + ascii::length_if_not(str.substr(1), is_braced_escape_end);
     const std::u8string_view digits = str.substr(1, length_without_brace - 1);
-    const bool erroneous = length_without_brace <= 1 || !all_of(digits, p);
-    const std::size_t length
-        = length_without_brace == str.length() || str[length_without_brace] != u8'}'
-        ? length_without_brace
-        : length_without_brace + 1;
-    return { .length = length, .erroneous = erroneous };
+    const bool terminated
+        = length_without_brace < str.length() && str[length_without_brace] == u8'}';
+    const bool erroneous = !terminated || length_without_brace <= 1 || !all_of(digits, p);
+    return { .length = length_without_brace + std::size_t(terminated), .erroneous = erroneous };
 }
 
 } // namespace detail
@@ -173,9 +177,10 @@ constexpr Escape_Result match_common_escape(std::u8string_view str)
         if (!str.starts_with(u8'{')) {
             return { .length = 0, .erroneous = true };
         }
-        const std::size_t index = str.find(u8'}', 1);
-        if (index == std::u8string_view::npos) {
-            return { .length = str.length(), .erroneous = true };
+        const std::size_t index
+            = 1 + ascii::length_if_not(str.substr(1), detail::is_braced_escape_end);
+        if (index >= str.length() || str[index] != u8'}') {
+            return { .length = index, .erroneous = true };
         }
         return { .length = index + 1 };
     }
diff --git a/src/main/cpp/lang/cpp.cpp b/src/main/cpp/lang/cpp.cpp
index 5ea8326..d093895 100644
--- a/src/main/cpp/lang/cpp.cpp
+++ b/src/main/cpp/lang/cpp.cpp
@@ -404,7 +404,7 @@ Escape_Result match_escape_sequence(std::u8string_view str)
     case u8'N': {
         // https://eel.is/c++draft/lex.universal.char#nt:named-universal-character
         if (str.length() >= 3 && str[2] == u8'{') {
-            const std::size_t end = str.find_first_of(u8"}\n");
+            const std::size_t end = str.find_first_of(u8"}\"'\r\n");
             if (end == std::u8string_view::npos || str[end] != u8'}') {
                 return { .length = 3, .type = Escape_Type::universal, .erroneous = true };
             }
-- 
2.43.0


From f3b610d27f80db4c5381d775f46a32132a9a7123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:32 +0000
Subject: [PATCH 108/144] fix: recognize JavaScript hashbang comments only at
 the beginning

---
 src/main/cpp/lang/js.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/js.cpp b/src/main/cpp/lang/js.cpp
index 83d693d..ee27df0 100644
--- a/src/main/cpp/lang/js.cpp
+++ b/src/main/cpp/lang/js.cpp
@@ -969,6 +969,8 @@ public:
 
     bool operator()()
     {
+        expect_hashbang_comment();
+        input_element = Input_Element::regex;
         while (!remainder.empty()) {
             consume_token();
         }
@@ -1008,7 +1010,6 @@ private:
     void consume_token()
     {
         if (expect_whitespace() || //
-            expect_hashbang_comment() || //
             expect_line_comment() || //
             expect_block_comment() || //
             (mode == Mode::javascript && expect_jsx_in_js()) || //
-- 
2.43.0


From 940d4d5eec8e82b2ede3a9acde72a083dc47874e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:32 +0000
Subject: [PATCH 109/144] fix: do not take a division after a comment for a
 regular expression in JavaScript

---
 src/main/cpp/lang/js.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/main/cpp/lang/js.cpp b/src/main/cpp/lang/js.cpp
index ee27df0..d0fac67 100644
--- a/src/main/cpp/lang/js.cpp
+++ b/src/main/cpp/lang/js.cpp
@@ -1268,7 +1268,6 @@ private:
         if (length > 2) {
             emit_and_advance(length - 2, Highlight_Type::comment);
         }
-        input_element = Input_Element::regex;
     }
 
     bool expect_block_comment()
@@ -1294,7 +1293,6 @@ private:
             emit(index + block_comment.length - 2, 2, Highlight_Type::comment_delim); // */
         }
         advance(block_comment.length);
-        input_element = Input_Element::regex;
     }
 
     bool expect_string_literal()
-- 
2.43.0


From 3b856cff5c9eaf5757ced50447abeb00c3e0bbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:32 +0000
Subject: [PATCH 110/144] fix: do not take JavaScript comparisons for JSX tags

---
 src/main/cpp/lang/js.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/js.cpp b/src/main/cpp/lang/js.cpp
index d0fac67..3b4ace6 100644
--- a/src/main/cpp/lang/js.cpp
+++ b/src/main/cpp/lang/js.cpp
@@ -120,7 +120,10 @@ constexpr bool token_type_is_expr_keyword(Token_Type type)
     case kw_return:
     case kw_throw:
     case kw_case:
+    case kw_default:
     case kw_delete:
+    case kw_do:
+    case kw_else:
     case kw_void:
     case kw_typeof:
     case kw_yield:
@@ -1042,7 +1045,12 @@ private:
         // and consider "<" to be the less-than operator instead.
         //
         // Furthermore, we ignore closing tags at the beginning.
+        // Also, a tag can only appear where an expression can begin;
+        // after an operand, "<" is the less-than operator.
 
+        if (!input_element_has_regex(input_element)) {
+            return false;
+        }
         const JSX_Tag_Result opening = match_jsx_tag_impl(remainder, JSX_Tag_Subset::non_closing);
         if (!opening) {
             return false;
@@ -1054,7 +1062,7 @@ private:
             ULIGHT_ASSERT(is_opening);
             consume_jsx_children_and_closing_tag();
         }
-        input_element = Input_Element::div;
+        input_element = Input_Element::regex;
         return true;
     }
 
-- 
2.43.0


From 0cf914c1f1621e04af68ff2be8d9bf81df02ab49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:32 +0000
Subject: [PATCH 111/144] fix: treat carriage returns in JavaScript strings as
 line terminators

---
 src/main/cpp/lang/js.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/js.cpp b/src/main/cpp/lang/js.cpp
index 3b4ace6..23272ff 100644
--- a/src/main/cpp/lang/js.cpp
+++ b/src/main/cpp/lang/js.cpp
@@ -174,6 +174,7 @@ std::size_t match_line_terminator_sequence(std::u8string_view s)
 
     return s.starts_with(u8'\n') ? 1
         : s.starts_with(crlf)    ? crlf.length()
+        : s.starts_with(u8'\r')  ? 1
         : s.starts_with(ls)      ? ls.length()
         : s.starts_with(ps)      ? ps.length()
                                  : 0;
@@ -317,6 +318,10 @@ Escape_Result match_escape_sequence(const std::u8string_view str)
         return { .length = length };
     }
     default: {
+        // https://262.ecma-international.org/15.0/index.html#prod-LineContinuation
+        if (const std::size_t terminator = match_line_terminator_sequence(str.substr(1))) {
+            return { .length = 1 + terminator };
+        }
         // https://262.ecma-international.org/15.0/index.html#prod-CharacterEscapeSequence
         const auto [_, units] = utf8::decode_and_length_or_replacement(str.substr(1));
         return { .length = 1 + std::size_t(units) };
@@ -340,6 +345,9 @@ String_Literal_Result match_string_literal(std::u8string_view str)
 
         if (escaped) {
             escaped = false;
+            if (str.substr(length).starts_with(u8"\r\n")) {
+                ++length;
+            }
         }
         else if (c == u8'\\') {
             escaped = true;
@@ -347,7 +355,7 @@ String_Literal_Result match_string_literal(std::u8string_view str)
         else if (c == quote) {
             return String_Literal_Result { .length = length + 1, .terminated = true };
         }
-        else if (c == u8'\n') {
+        else if (c == u8'\n' || c == u8'\r') {
             return String_Literal_Result { .length = length, .terminated = false };
         }
 
-- 
2.43.0


From 47dfc179404087bbc12cd4f530b6c28e606efe2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:32 +0000
Subject: [PATCH 112/144] fix: do not end JavaScript regular expressions at a
 slash in a class

---
 src/main/cpp/lang/js.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/main/cpp/lang/js.cpp b/src/main/cpp/lang/js.cpp
index 23272ff..af97bd3 100644
--- a/src/main/cpp/lang/js.cpp
+++ b/src/main/cpp/lang/js.cpp
@@ -1480,17 +1480,28 @@ private:
         rem.remove_prefix(1);
 
         auto escaped = false;
+        auto in_class = false;
 
         for (std::size_t size = 0; size < rem.length(); ++size) {
             const char8_t c = rem[size];
 
+            if (starts_with_line_terminator(rem.substr(size))) {
+                break;
+            }
             if (escaped) {
                 escaped = false;
             }
             else if (c == u8'\\') {
                 escaped = true;
             }
-            else if (c == u8'/') {
+            else if (c == u8'[') {
+                // https://262.ecma-international.org/15.0/index.html#prod-RegularExpressionClass
+                in_class = true;
+            }
+            else if (c == u8']') {
+                in_class = false;
+            }
+            else if (c == u8'/' && !in_class) {
                 emit_and_advance(1, Highlight_Type::string_delim);
                 emit_and_advance(size, Highlight_Type::string);
                 emit_and_advance(1, Highlight_Type::string_delim);
@@ -1500,9 +1511,6 @@ private:
                 input_element = Input_Element::div;
                 return true;
             }
-            else if (starts_with_line_terminator(rem.substr(size))) {
-                break;
-            }
         }
 
         return false;
-- 
2.43.0


From d6a533a5d04a3053caf5a779132ab47e23b36ad3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:32 +0000
Subject: [PATCH 113/144] fix: do not take ?.5 for optional chaining in
 JavaScript

---
 src/main/cpp/lang/js.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/js.cpp b/src/main/cpp/lang/js.cpp
index af97bd3..dc01da6 100644
--- a/src/main/cpp/lang/js.cpp
+++ b/src/main/cpp/lang/js.cpp
@@ -894,7 +894,8 @@ std::optional<Token_Type> match_operator_or_punctuation(std::u8string_view str)
     case u8'?':
         return str.starts_with(u8"??=") ? nullish_coalescing_equal
             : str.starts_with(u8"??")   ? nullish_coalescing
-            : str.starts_with(u8"?.")   ? optional_chaining
+            : str.starts_with(u8"?.") && !(str.length() >= 3 && is_ascii_digit(str[2]))
+            ? optional_chaining
                                         : conditional;
     case u8'[': return left_bracket;
     case u8']': return right_bracket;
-- 
2.43.0


From 12e025f22e7698dbb75c17844a6860e4d928c23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:32 +0000
Subject: [PATCH 114/144] fix: do not treat letters such as Khmer ones as
 JavaScript whitespace

---
 include/ulight/impl/lang/js.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/ulight/impl/lang/js.hpp b/include/ulight/impl/lang/js.hpp
index 6d798b9..74a184e 100644
--- a/include/ulight/impl/lang/js.hpp
+++ b/include/ulight/impl/lang/js.hpp
@@ -40,7 +40,7 @@ inline constexpr struct Is_JS_Whitespace {
                 || c == U'\N{NARROW NO-BREAK SPACE}'
                 || c == U'\N{MEDIUM MATHEMATICAL SPACE}'
                 || c == U'\N{IDEOGRAPHIC SPACE}'
-                || (c >= U'\u1680' && c <= U'\u180E')
+                || c == U'\u1680'
                 || (c >= U'\u2000' && c <= U'\u200A');
         // clang-format on
     }
-- 
2.43.0


From d2856a1f5a63604f4c9708a4923549ec1ba272c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:32 +0000
Subject: [PATCH 115/144] fix: base JavaScript identifiers on XID_Start and
 XID_Continue

---
 include/ulight/impl/lang/js.hpp | 35 ++++-----------------------------
 1 file changed, 4 insertions(+), 31 deletions(-)

diff --git a/include/ulight/impl/lang/js.hpp b/include/ulight/impl/lang/js.hpp
index 74a184e..eec9d64 100644
--- a/include/ulight/impl/lang/js.hpp
+++ b/include/ulight/impl/lang/js.hpp
@@ -10,6 +10,7 @@
 #include "ulight/impl/ascii_chars.hpp"
 #include "ulight/impl/escapes.hpp"
 #include "ulight/impl/numbers.hpp"
+#include "ulight/impl/unicode_chars.hpp"
 
 namespace ulight::js {
 
@@ -55,23 +56,7 @@ inline constexpr struct Is_JS_Identifier_Start {
     static constexpr bool operator()(const char32_t c) noexcept
     {
         // https://262.ecma-international.org/15.0/index.html#prod-IdentifierName
-        // clang-format off
-            return c == U'$'
-                || c == U'_' // Special JS characters.
-                || is_ascii_alpha(c)
-                || (c >= U'\u00C0' && c <= U'\u00D6') // Lu, Ll, Lt, Lm, Lo, Nl categories.
-                || (c >= U'\u00D8' && c <= U'\u00F6')
-                || (c >= U'\u00F8' && c <= U'\u02FF')
-                || (c >= U'\u0370' && c <= U'\u037D')
-                || (c >= U'\u037F' && c <= U'\u1FFF')
-                || (c >= U'\u200C' && c <= U'\u200D')
-                || (c >= U'\u2070' && c <= U'\u218F')
-                || (c >= U'\u2C00' && c <= U'\u2FEF')
-                || (c >= U'\u3001' && c <= U'\uD7FF')
-                || (c >= U'\uF900' && c <= U'\uFDCF')
-                || (c >= U'\uFDF0' && c <= U'\uFFFD')
-                || (c >= U'\U00010000' && c <= U'\U000EFFFF');
-        // clang-format on
+        return c == U'$' || c == U'_' || is_xid_start(c);
     }
 } is_js_identifier_start;
 
@@ -84,20 +69,8 @@ inline constexpr struct Is_JS_Identifier_Part {
     static constexpr bool operator()(const char32_t c) noexcept
     {
         // https://262.ecma-international.org/15.0/index.html#prod-IdentifierPart
-        // clang-format off
-            return is_js_identifier_start(c)
-                || is_ascii_digit(c)
-                || (c >= U'\u0300' && c <= U'\u036F') // // Mn, Mc, Nd, Pc categories.
-                || (c >= U'\u1DC0' && c <= U'\u1DFF')
-                || (c >= U'\u20D0' && c <= U'\u20FF')
-                || (c >= U'\uFE20' && c <= U'\uFE2F')
-                || (c >= U'\u0660' && c <= U'\u0669') // Arabic-Indic digits.
-                || (c >= U'\u06F0' && c <= U'\u06F9') // Extended Arabic-Indic digits.
-                || (c >= U'\u07C0' && c <= U'\u07C9') // NKo digits.
-                || (c >= U'\u0966' && c <= U'\u096F') // Devanagari digits.
-                || c == U'\u200C'  // Zero-width joiner.
-                || c == U'\u200D'; // Joiner.
-        // clang-format on
+        // The last two are ZWNJ and ZWJ.
+        return c == U'$' || is_xid_continue(c) || c == U'\u200C' || c == U'\u200D';
     }
 } is_js_identifier_part;
 
-- 
2.43.0


From 348167d96181a80d386071c4db6ec23ea8849aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:32 +0000
Subject: [PATCH 116/144] fix: require a name in JSX tags

---
 src/main/cpp/lang/js.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/lang/js.cpp b/src/main/cpp/lang/js.cpp
index dc01da6..2f99dfb 100644
--- a/src/main/cpp/lang/js.cpp
+++ b/src/main/cpp/lang/js.cpp
@@ -774,9 +774,11 @@ bool match_jsx_tag_impl(
             return true;
         }
     }
-    if (const std::size_t id_length = match_jsx_element_name(str)) {
-        out.element_name(id_length);
+    const std::size_t id_length = match_jsx_element_name(str);
+    if (id_length == 0) {
+        return false;
     }
+    out.element_name(id_length);
 
     while (!str.empty()) {
         match_whitespace_comment_sequence(out, str);
-- 
2.43.0


From d8d692848d14d1a61e373cb14158ed7fa05a26a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:10 +0000
Subject: [PATCH 117/144] fix: end erroneous fixed-length escapes before
 quotes, backslashes, and newlines

---
 include/ulight/impl/escapes.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/ulight/impl/escapes.hpp b/include/ulight/impl/escapes.hpp
index 2f4c8e9..17d78a1 100644
--- a/include/ulight/impl/escapes.hpp
+++ b/include/ulight/impl/escapes.hpp
@@ -108,6 +108,10 @@ namespace detail {
 /// this prevents everything up to some unrelated brace from being part of the escape.
 inline constexpr auto is_braced_escape_end = Charset256(u8"}\"'`\r\n");
 
+/// @brief An erroneous escape of fixed length never extends past these characters.
+/// Otherwise, in `"\x"`, the closing quote would be part of the escape.
+inline constexpr auto is_fixed_length_escape_end = Charset256(u8"\\\"'`\r\n");
+
 template <typename Predicate>
 constexpr Escape_Result match_common_braced_escape(std::u8string_view str, Predicate p)
 {
@@ -163,7 +167,9 @@ constexpr Escape_Result match_common_escape(std::u8string_view str)
     else if constexpr (type == Common_Escape::hex_2 || type == Common_Escape::hex_4
                        || type == Common_Escape::hex_8) {
         constexpr std::size_t min_length = escape_type_min_length(type);
-        std::size_t length = min(min_length, str.length());
+        std::size_t length = ascii::length_if_not(
+            str.substr(0, min(min_length, str.length())), detail::is_fixed_length_escape_end
+        );
         const bool erroneous
             = length < min_length || !all_of(str.substr(0, length), hex_digit_lambda);
         // An erroneous escape may contain non-ASCII characters, which must not be split.
-- 
2.43.0


From 5d1275d93a9f06750753c64c736232b42d030557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:57 +0000
Subject: [PATCH 118/144] fix: end COWEL expression lines at line terminators
 after whitespace

---
 src/main/cpp/lang/cowel.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/cowel.cpp b/src/main/cpp/lang/cowel.cpp
index 74f2c75..e3eeb4b 100644
--- a/src/main/cpp/lang/cowel.cpp
+++ b/src/main/cpp/lang/cowel.cpp
@@ -456,7 +456,8 @@ struct [[nodiscard]] Highlighter : Highlighter_Base {
                 continue;
             }
 
-            const std::size_t whitespace = match_whitespace(remainder);
+            // Line terminators must not be skipped because they end the expression-line-splice.
+            const std::size_t whitespace = ascii::length_if(remainder, is_horizontal_whitespace);
             if (whitespace) {
                 advance(whitespace);
                 continue;
-- 
2.43.0


From e98ecc0e738675dd912ec2b493bac071ec41e39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:57 +0000
Subject: [PATCH 119/144] fix: treat COWEL backslashes without special meaning
 as text

---
 src/main/cpp/lang/cowel.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/cowel.cpp b/src/main/cpp/lang/cowel.cpp
index e3eeb4b..b4297d1 100644
--- a/src/main/cpp/lang/cowel.cpp
+++ b/src/main/cpp/lang/cowel.cpp
@@ -375,7 +375,9 @@ struct [[nodiscard]] Highlighter : Highlighter_Base {
     {
         ULIGHT_ASSERT(brace_level >= 0);
 
-        std::size_t plain_length = 0;
+        // If we got here despite a leading backslash,
+        // that backslash does not begin any special construct.
+        std::size_t plain_length = remainder.starts_with(u8'\\') ? 1 : 0;
 
         for (; plain_length < remainder.length(); ++plain_length) {
             const char8_t c = remainder[plain_length];
-- 
2.43.0


From e73b33f5004efa4da1752d5cbb0556c29c48b067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:57 +0000
Subject: [PATCH 120/144] fix: do not split words in COWEL expression splices

---
 src/main/cpp/lang/cowel.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main/cpp/lang/cowel.cpp b/src/main/cpp/lang/cowel.cpp
index b4297d1..0407b8d 100644
--- a/src/main/cpp/lang/cowel.cpp
+++ b/src/main/cpp/lang/cowel.cpp
@@ -556,7 +556,9 @@ struct [[nodiscard]] Highlighter : Highlighter_Base {
                     fixed_token_type_length(*token), fixed_token_type_highlight(*token)
                 );
             }
-            else {
+            else if (!expect_identifier_like() && !expect_number()) {
+                // Names and numbers are not broken up by error recovery;
+                // for example, "let x" is two names in a row.
                 const auto [_, units] = utf8::decode_and_length_or_replacement(remainder);
                 emit_and_advance(std::size_t(units), Highlight_Type::error);
             }
-- 
2.43.0


From f54a826f500bd6d574898f87c44a9eee5780b750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:57 +0000
Subject: [PATCH 121/144] fix: do not close COWEL blocks within the recovery of
 groups

---
 src/main/cpp/lang/cowel.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/main/cpp/lang/cowel.cpp b/src/main/cpp/lang/cowel.cpp
index 0407b8d..485c6ae 100644
--- a/src/main/cpp/lang/cowel.cpp
+++ b/src/main/cpp/lang/cowel.cpp
@@ -630,10 +630,10 @@ struct [[nodiscard]] Highlighter : Highlighter_Base {
                     if (remainder[0] == u8',') {
                         continue;
                     }
-                    const auto is_brace = remainder[0] == u8'}';
-                    emit_and_advance(
-                        1, is_brace ? Highlight_Type::symbol_brace : Highlight_Type::symbol_parens
-                    );
+                    // A closing brace belongs to the surrounding block, just like above.
+                    if (remainder[0] == u8')') {
+                        emit_and_advance(1, Highlight_Type::symbol_parens);
+                    }
                 }
                 return true;
             }
-- 
2.43.0


From c8b4f4d638610cd62d583e4a799981ed17b0d807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:20 +0000
Subject: [PATCH 122/144] fix: allow unmatched backticks in Markdown emphasis

---
 src/main/cpp/lang/markdown.cpp | 26 ++++++--------------------
 1 file changed, 6 insertions(+), 20 deletions(-)

diff --git a/src/main/cpp/lang/markdown.cpp b/src/main/cpp/lang/markdown.cpp
index 84e315b..da89c87 100644
--- a/src/main/cpp/lang/markdown.cpp
+++ b/src/main/cpp/lang/markdown.cpp
@@ -1011,27 +1011,13 @@ private:
 
             if (ch == u8'`') {
                 // Skip over a code span so emphasis can't start inside one.
-                std::size_t bt = 0;
-                while (i < avail && remainder[i] == u8'`') {
-                    ++bt;
-                    ++i;
-                }
-                // Scan for the matching closing backtick run.
-                bool found_close = false;
-                while (i < avail && !found_close) {
-                    while (i < avail && remainder[i] != u8'`') {
-                        ++i;
-                    }
-                    std::size_t cbt = 0;
-                    while (i < avail && remainder[i] == u8'`') {
-                        ++cbt;
-                        ++i;
-                    }
-                    if (cbt == bt) {
-                        found_close = true;
-                    }
+                const Code_Span_Match span = match_code_span(remainder.substr(i, avail - i));
+                if (span.length != 0) {
+                    i += span.length;
+                    continue;
                 }
-                // If no matching close was found, i is now at avail — outer loop ends.
+                // If there is no matching close, the backtick is literal text.
+                ++i;
             }
             else if (ch == c) {
                 const std::size_t close_start = i;
-- 
2.43.0


From 1235487c47e0f53b970b912d98731acb143c8428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:06 +0000
Subject: [PATCH 123/144] fix: do not close Markdown emphasis within comments

---
 src/main/cpp/lang/markdown.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/main/cpp/lang/markdown.cpp b/src/main/cpp/lang/markdown.cpp
index da89c87..dfce3cf 100644
--- a/src/main/cpp/lang/markdown.cpp
+++ b/src/main/cpp/lang/markdown.cpp
@@ -1019,6 +1019,11 @@ private:
                 // If there is no matching close, the backtick is literal text.
                 ++i;
             }
+            else if (const html::Match_Result comment
+                     = html::match_comment(remainder.substr(i, avail - i))) {
+                // Similarly, delimiters in comments don't close anything.
+                i += comment.length;
+            }
             else if (ch == c) {
                 const std::size_t close_start = i;
                 std::size_t close_run = 0;
-- 
2.43.0


From f1ebdee1268367fa246dc6a0ff51b9c0ca08092a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:09 +0000
Subject: [PATCH 124/144] fix: do not continue Markdown comments from the
 middle of a line

---
 src/main/cpp/lang/markdown.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/main/cpp/lang/markdown.cpp b/src/main/cpp/lang/markdown.cpp
index dfce3cf..451a254 100644
--- a/src/main/cpp/lang/markdown.cpp
+++ b/src/main/cpp/lang/markdown.cpp
@@ -817,6 +817,12 @@ private:
         if (!comment) {
             return false;
         }
+        // Only a comment that extends to the end of the line can continue on the next line.
+        // Otherwise, we would highlight what follows e.g. a link text both ways.
+        const std::u8string_view rest = remainder.substr(avail);
+        if (!comment.terminated && !rest.empty() && rest[0] != u8'\r' && rest[0] != u8'\n') {
+            return false;
+        }
 
         emit_and_advance(html_comment_prefix.length(), Highlight_Type::comment_delim);
         if (comment.terminated) {
-- 
2.43.0


From 97b6da326846b4bb162cd1b737ffff970fd16008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:22 +0000
Subject: [PATCH 125/144] fix: give the preceding line in diff hunk headers of
 empty ranges

---
 include/ulight/impl/string_diff.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/ulight/impl/string_diff.hpp b/include/ulight/impl/string_diff.hpp
index e2cd6af..aaab605 100644
--- a/include/ulight/impl/string_diff.hpp
+++ b/include/ulight/impl/string_diff.hpp
@@ -235,10 +235,11 @@ inline void print_diff(
 
     // Print each hunk with a unidiff @@ header followed by its lines.
     for (const Hunk& hunk : hunks) {
-        const std::size_t from_start = from_prefix[hunk.begin] + 1;
         const std::size_t from_count = from_prefix[hunk.end] - from_prefix[hunk.begin];
-        const std::size_t to_start = to_prefix[hunk.begin] + 1;
         const std::size_t to_count = to_prefix[hunk.end] - to_prefix[hunk.begin];
+        // For an empty range, unidiff uses the number of the line preceding it.
+        const std::size_t from_start = from_prefix[hunk.begin] + (from_count != 0);
+        const std::size_t to_start = to_prefix[hunk.begin] + (to_count != 0);
 
         if (use_color) {
             out << ansi::h_cyan;
-- 
2.43.0


From 6e3e138cc2319dcb2d599c86f362be5bea9612da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:10 +0000
Subject: [PATCH 126/144] fix: report output which could not be written

---
 src/main/cpp/main.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/main/cpp/main.cpp b/src/main/cpp/main.cpp
index 3530267..f5ccd24 100644
--- a/src/main/cpp/main.cpp
+++ b/src/main/cpp/main.cpp
@@ -1,3 +1,4 @@
+#include <cstdio>
 #include <cstdlib>
 #include <expected>
 #include <iostream>
@@ -68,6 +69,11 @@ int main(int argc, const char** argv)
         return EXIT_FAILURE;
     }
 
+    if (std::fflush(out_file) != 0 || std::ferror(out_file)) {
+        std::cerr << "Error: failed to write the output.\n";
+        return EXIT_FAILURE;
+    }
+
     return 0;
 }
 
-- 
2.43.0


From 868c9cbe776b964244d58213c4ca90bd6b09aebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:20 +0000
Subject: [PATCH 127/144] fix: do not cut off file paths at null characters

---
 src/main/cpp/io.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/main/cpp/io.cpp b/src/main/cpp/io.cpp
index 92415e8..d159755 100644
--- a/src/main/cpp/io.cpp
+++ b/src/main/cpp/io.cpp
@@ -24,7 +24,7 @@ std::expected<void, IO_Error_Code> file_to_bytes_chunked(
     constexpr std::size_t block_size = BUFSIZ;
     char buffer[block_size] {};
 
-    if (path.size() >= block_size) {
+    if (path.size() >= block_size || path.contains('\0')) {
         return std::unexpected { IO_Error_Code::cannot_open };
     }
     std::memcpy(buffer, path.data(), path.size());
-- 
2.43.0


From d8039715cce3db8f762e948be42290783fa8cada Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:22 +0000
Subject: [PATCH 128/144] fix: do not copy to null pointers when loading empty
 files

---
 include/ulight/impl/io.hpp | 3 +++
 src/main/cpp/io.cpp        | 4 +++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/ulight/impl/io.hpp b/include/ulight/impl/io.hpp
index 3bfed25..85d417c 100644
--- a/include/ulight/impl/io.hpp
+++ b/include/ulight/impl/io.hpp
@@ -134,6 +134,9 @@ file_to_bytes(std::vector<Byte, Alloc>& out, std::string_view path)
 {
     return file_to_bytes_chunked(
         [&out](std::span<const std::byte> chunk) -> void {
+            if (chunk.empty()) {
+                return;
+            }
             const std::size_t old_size = out.size();
             out.resize(out.size() + chunk.size());
             std::memcpy(out.data() + old_size, chunk.data(), chunk.size());
diff --git a/src/main/cpp/io.cpp b/src/main/cpp/io.cpp
index d159755..8d8d940 100644
--- a/src/main/cpp/io.cpp
+++ b/src/main/cpp/io.cpp
@@ -86,7 +86,9 @@ std::expected<std::vector<char32_t>, IO_Error_Code> load_utf32le_file(std::strin
     // We could make this code more portable in the long run, but I don't care for now.
     static_assert(std::endian::native == std::endian::little);
     std::vector<char32_t> result(bytes.size() / 4);
-    std::memcpy(result.data(), bytes.data(), bytes.size());
+    if (!bytes.empty()) {
+        std::memcpy(result.data(), bytes.data(), bytes.size());
+    }
 
     return result;
 }
-- 
2.43.0


From cbba4efe107fc72c8ea3cd1471f6bca3e1e2978a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:28 +0000
Subject: [PATCH 129/144] fix: highlight comments behind YAML nodes

---
 src/main/cpp/lang/yaml.cpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/main/cpp/lang/yaml.cpp b/src/main/cpp/lang/yaml.cpp
index bb443aa..5a6deba 100644
--- a/src/main/cpp/lang/yaml.cpp
+++ b/src/main/cpp/lang/yaml.cpp
@@ -301,6 +301,17 @@ private:
         }
     }
 
+    /// @brief Skip the rest of a line behind a node.
+    /// A comment there is highlighted.
+    void finish_line()
+    {
+        consume_inline_whitespace();
+        if (remainder.starts_with(u8'#')) {
+            consume_comment();
+        }
+        skip_line();
+    }
+
     /// @brief Get the indentation (number of spaces) at the start of the current line.
     [[nodiscard]]
     std::size_t current_indent() const
@@ -581,7 +592,7 @@ private:
                 if (!remainder.empty() && !match_line_break(remainder) && remainder[0] != u8'#') {
                     consume_flow_node(line_indent + 1);
                 }
-                skip_line();
+                finish_line();
                 // Expect : value on next line(s)
                 consume_whitespace_and_comments();
                 if (!remainder.empty() && remainder.starts_with(u8": ")) {
@@ -593,7 +604,7 @@ private:
                         consume_block_node(line_indent, 0);
                     }
                     else {
-                        skip_line();
+                        finish_line();
                         consume_block_node(line_indent, 0);
                     }
                 }
@@ -643,7 +654,7 @@ private:
             // Check for flow node
             if (!remainder.empty() && !match_line_break(remainder) && remainder[0] != u8'#') {
                 consume_flow_node(line_indent);
-                skip_line();
+                finish_line();
                 continue;
             }
 
@@ -735,7 +746,7 @@ private:
                         if (is_block_scalar) {
                             return true;
                         }
-                        skip_line();
+                        finish_line();
 
                         // If value was on the next line(s), parse block value.
                         skip_blank_and_comment_lines();
@@ -777,6 +788,7 @@ private:
 
         // Otherwise, just a flow node
         consume_flow_node(indent);
+        finish_line();
     }
 
     /// @brief Consume a flow-level node (inline value on a single logical line).
-- 
2.43.0


From 6ed5ea8f7611ad1269f908f658724f712fb2b538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:28 +0000
Subject: [PATCH 130/144] fix: do not skip the line behind YAML block scalars
 with tags or in sequences

---
 src/main/cpp/lang/yaml.cpp | 37 +++++++++++++++++++++----------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/src/main/cpp/lang/yaml.cpp b/src/main/cpp/lang/yaml.cpp
index 5a6deba..2d622c0 100644
--- a/src/main/cpp/lang/yaml.cpp
+++ b/src/main/cpp/lang/yaml.cpp
@@ -653,8 +653,7 @@ private:
 
             // Check for flow node
             if (!remainder.empty() && !match_line_break(remainder) && remainder[0] != u8'#') {
-                consume_flow_node(line_indent);
-                finish_line();
+                consume_flow_node_and_line(line_indent);
                 continue;
             }
 
@@ -734,16 +733,11 @@ private:
                         }
 
                         // Value
-                        const bool is_block_scalar = !remainder.empty()
-                            && (remainder[0] == u8'|' || remainder[0] == u8'>');
                         const bool has_inline_value = !remainder.empty()
                             && !match_line_break(remainder) && remainder[0] != u8'#';
-                        if (has_inline_value) {
-                            consume_flow_node(line_indent);
-                        }
                         // Block scalars are self-contained and consume their own content lines;
-                        // do not skip_line() or descend into block_node for them.
-                        if (is_block_scalar) {
+                        // do not skip the line or descend into block_node for them.
+                        if (has_inline_value && consume_flow_node(line_indent)) {
                             return true;
                         }
                         finish_line();
@@ -787,16 +781,26 @@ private:
         }
 
         // Otherwise, just a flow node
-        consume_flow_node(indent);
-        finish_line();
+        consume_flow_node_and_line(indent);
+    }
+
+    /// @brief Consume a flow-level node (inline value on a single logical line)
+    /// and the rest of its last line.
+    void consume_flow_node_and_line(const std::size_t indent)
+    {
+        // Block scalars are self-contained and consume their own content lines.
+        if (!consume_flow_node(indent)) {
+            finish_line();
+        }
     }
 
     /// @brief Consume a flow-level node (inline value on a single logical line).
-    void consume_flow_node(const std::size_t indent, const bool is_key = false)
+    /// @returns `true` if the node was a block scalar, with all of its lines.
+    bool consume_flow_node(const std::size_t indent, const bool is_key = false)
     {
         consume_whitespace_and_comments();
         if (remainder.empty() || match_line_break(remainder)) {
-            return;
+            return false;
         }
 
         // Check for node properties: tag and/or anchor
@@ -805,23 +809,24 @@ private:
         // Flow sequence: [...]
         if (remainder.starts_with(u8'[')) {
             consume_flow_sequence(indent);
-            return;
+            return false;
         }
 
         // Flow mapping: {...}
         if (remainder.starts_with(u8'{')) {
             consume_flow_mapping(indent);
-            return;
+            return false;
         }
 
         // Block scalars: | or >
         if (remainder.starts_with(u8'|') || remainder.starts_with(u8'>')) {
             consume_block_scalar(indent);
-            return;
+            return true;
         }
 
         // Flow scalars
         consume_flow_scalar(is_key);
+        return false;
     }
 
     /// @brief Consume flow node content of a specific length with given highlight type.
-- 
2.43.0


From f1b3dc4b7a4fb4ebae26cc2b739879afc9dc7414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:28 +0000
Subject: [PATCH 131/144] fix: recognize YAML block indicators at the ends of
 lines

---
 src/main/cpp/lang/yaml.cpp | 71 ++++++++++++++++----------------------
 1 file changed, 30 insertions(+), 41 deletions(-)

diff --git a/src/main/cpp/lang/yaml.cpp b/src/main/cpp/lang/yaml.cpp
index 2d622c0..fa5f7f0 100644
--- a/src/main/cpp/lang/yaml.cpp
+++ b/src/main/cpp/lang/yaml.cpp
@@ -312,6 +312,26 @@ private:
         skip_line();
     }
 
+    /// @brief Returns `true` if the remainder starts with the indicator of an entry
+    /// of a block collection: a hyphen, question mark, or colon that stands alone.
+    [[nodiscard]]
+    bool starts_with_block_indicator() const
+    {
+        // https://yaml.org/spec/1.2.2/#82-block-collection-styles
+        return !remainder.empty()
+            && (remainder[0] == u8'-' || remainder[0] == u8'?' || remainder[0] == u8':')
+            && is_at_separation(1);
+    }
+
+    /// @brief Returns `true` if there is whitespace, a line break,
+    /// or the end of the source at the given position of the remainder.
+    [[nodiscard]]
+    bool is_at_separation(const std::size_t pos) const
+    {
+        return pos >= remainder.length() || is_yaml_whitespace(remainder[pos])
+            || match_line_break(remainder.substr(pos));
+    }
+
     /// @brief Get the indentation (number of spaces) at the start of the current line.
     [[nodiscard]]
     std::size_t current_indent() const
@@ -583,49 +603,19 @@ private:
                 continue;
             }
 
-            // Handle explicit mapping key: ? key
-            if (remainder.starts_with(u8"? ") || //
-                (remainder.starts_with(u8"?") && remainder.length() > 1
-                 && match_line_break(remainder.substr(1)))) {
-                emit_and_advance(1, Highlight_Type::symbol_punc);
-                consume_whitespace_and_comments();
-                if (!remainder.empty() && !match_line_break(remainder) && remainder[0] != u8'#') {
-                    consume_flow_node(line_indent + 1);
-                }
-                finish_line();
-                // Expect : value on next line(s)
-                consume_whitespace_and_comments();
-                if (!remainder.empty() && remainder.starts_with(u8": ")) {
-                    consume_indent(line_indent);
-                    emit_and_advance(1, Highlight_Type::symbol_punc);
-                    consume_whitespace_and_comments();
-                    if (!remainder.empty() && !match_line_break(remainder)
-                        && remainder[0] != u8'#') {
-                        consume_block_node(line_indent, 0);
-                    }
-                    else {
-                        finish_line();
-                        consume_block_node(line_indent, 0);
-                    }
-                }
-                continue;
-            }
-
-            // Handle block sequence entry: - item
-            if (remainder.starts_with(u8"- ")) {
+            // Handle block sequence entries (- item) and the parts of explicit mapping entries
+            // (? key and : value).
+            if (starts_with_block_indicator()) {
                 emit_and_advance(1, Highlight_Type::symbol_punc);
-                if (!remainder.empty() && remainder[0] == u8' ') {
-                    advance(1);
-                }
-                consume_whitespace_and_comments();
+                consume_inline_whitespace();
 
                 if (!remainder.empty() && !match_line_break(remainder) && remainder[0] != u8'#') {
                     try_consume_compact_sequence_or_mapping(line_indent + 1);
                 }
-                if (!remainder.empty() && match_line_break(remainder)) {
-                    skip_line();
+                else {
+                    finish_line();
                 }
-                // Further entries of the same sequence are handled by the current loop.
+                // Further entries of the same collection are handled by the current loop.
                 // It is important not to recurse for each of these;
                 // long sequences would otherwise exhaust the stack.
                 if (line_indent != block_indent || seq_offset != 0) {
@@ -718,8 +708,7 @@ private:
                         // Check for block structure indicators on the value line.
                         // These must be handled before flow-node, otherwise the first
                         // entry gets consumed as a plain scalar instead of sym_punc.
-                        if (!remainder.empty()
-                            && (remainder.starts_with(u8"- ") || remainder.starts_with(u8"? "))) {
+                        if (starts_with_block_indicator()) {
                             skip_line();
                             skip_blank_and_comment_lines();
                             if (!remainder.empty() && remainder[0] != u8'\r'
@@ -769,8 +758,8 @@ private:
             return;
         }
 
-        // Compact sequence: another "- " on the same line
-        if (remainder.starts_with(u8"- ")) {
+        // Compact sequence or mapping: another indicator on the same line
+        if (starts_with_block_indicator()) {
             consume_block_node(indent, 1);
             return;
         }
-- 
2.43.0


From e48739e37c06ab600489b02bded5a0b085cfed11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:28 +0000
Subject: [PATCH 132/144] fix: recognize blank and comment lines with tabs in
 YAML

---
 src/main/cpp/lang/yaml.cpp | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/main/cpp/lang/yaml.cpp b/src/main/cpp/lang/yaml.cpp
index fa5f7f0..d9a9220 100644
--- a/src/main/cpp/lang/yaml.cpp
+++ b/src/main/cpp/lang/yaml.cpp
@@ -543,18 +543,21 @@ private:
         return false;
     }
 
-    /// @brief Skip blank lines and comment-only lines without consuming indentation spaces.
+    /// @brief Skip blank lines and comment-only lines without consuming
+    /// the indentation of the line behind them.
     void skip_blank_and_comment_lines()
     {
         while (!remainder.empty()) {
-            if (match_line_break(remainder)) {
+            const std::size_t blank = ascii::length_if(remainder, is_yaml_whitespace);
+            const std::u8string_view rest = remainder.substr(blank);
+            if (rest.empty() || match_line_break(rest)) {
+                advance(blank);
                 skip_line_break();
                 continue;
             }
             // Skip lines that are just a comment (possibly indented).
-            const std::size_t indent = current_indent();
-            if (indent < remainder.length() && remainder[indent] == u8'#') {
-                consume_indent(indent);
+            if (rest.starts_with(u8'#')) {
+                advance(blank);
                 consume_comment();
                 skip_line_break();
                 continue;
@@ -597,12 +600,6 @@ private:
             // Consume the indentation (no highlighting).
             consume_indent(line_indent);
 
-            // Lines that contain nothing but indentation do not end the node.
-            if (match_line_break(remainder)) {
-                skip_line_break();
-                continue;
-            }
-
             // Handle block sequence entries (- item) and the parts of explicit mapping entries
             // (? key and : value).
             if (starts_with_block_indicator()) {
-- 
2.43.0


From 0a282b7a1cc9a6c76125e6dc363089f1566a4669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:28 +0000
Subject: [PATCH 133/144] fix: recognize YAML document markers only if they
 stand alone and highlight what follows them

---
 src/main/cpp/lang/yaml.cpp | 108 +++++++++++--------------------------
 1 file changed, 32 insertions(+), 76 deletions(-)

diff --git a/src/main/cpp/lang/yaml.cpp b/src/main/cpp/lang/yaml.cpp
index d9a9220..9cca906 100644
--- a/src/main/cpp/lang/yaml.cpp
+++ b/src/main/cpp/lang/yaml.cpp
@@ -251,6 +251,7 @@ struct Highlighter : Highlighter_Base {
     };
 
     Indent_Stack indent_stack;
+    const std::u8string_view source;
 
 public:
     Highlighter(
@@ -261,6 +262,7 @@ public:
     )
         : Highlighter_Base { out, source, memory, options }
         , indent_stack { memory }
+        , source { source }
     {
     }
 
@@ -323,6 +325,16 @@ private:
             && is_at_separation(1);
     }
 
+    /// @brief Returns `true` if the given document marker is at the start of the remainder,
+    /// and at the start of a line.
+    [[nodiscard]]
+    bool is_at_marker(const std::u8string_view marker) const
+    {
+        // https://yaml.org/spec/1.2.2/#rule-c-forbidden
+        return (index == 0 || source[index - 1] == u8'\n' || source[index - 1] == u8'\r')
+            && remainder.starts_with(marker) && is_at_separation(marker.length());
+    }
+
     /// @brief Returns `true` if there is whitespace, a line break,
     /// or the end of the source at the given position of the remainder.
     [[nodiscard]]
@@ -362,45 +374,26 @@ private:
     void consume_document_prefix()
     {
         // https://yaml.org/spec/1.2.2/#l-document-prefix
-        while (!eof()) {
-            consume_whitespace_and_comments();
-            if (eof()) {
-                break;
-            }
-            // The prefix is just comments and blank lines.
-            // If we see anything else, it's the start of a document.
-            if (!expect_comment_or_blank()) {
-                break;
-            }
-        }
+        // The prefix is just comments and blank lines.
+        // If we see anything else, it's the start of a document.
+        skip_blank_and_comment_lines();
     }
 
     void consume_document_suffix()
     {
         // https://yaml.org/spec/1.2.2/#l-document-suffix
         while (!eof()) {
-            consume_whitespace_and_comments();
+            skip_blank_and_comment_lines();
             if (eof()) {
                 break;
             }
             // Document end marker: ...
-            if (remainder.starts_with(u8"...")) {
-                if (const std::size_t indent = current_indent(); indent == 0) {
-                    consume_indent(indent);
-                    emit_and_advance(3, Highlight_Type::symbol_punc);
-                    skip_line();
-                    continue;
-                }
-            }
-            // Directives end marker: ---
-            if (remainder.starts_with(u8"---")) {
-                if (const std::size_t indent = current_indent(); indent == 0) {
-                    consume_indent(indent);
-                    emit_and_advance(3, Highlight_Type::symbol_punc);
-                    skip_line();
-                    break; // Start of next document
-                }
+            if (is_at_marker(u8"...")) {
+                emit_and_advance(3, Highlight_Type::symbol_punc);
+                finish_line();
+                continue;
             }
+            // Anything else (possibly "---") is the start of the next document.
             break;
         }
     }
@@ -409,37 +402,21 @@ private:
     {
         // https://yaml.org/spec/1.2.2/#l-any-document
         indent_stack.reset();
-        consume_whitespace_and_comments();
+        skip_blank_and_comment_lines();
         if (eof()) {
             return;
         }
 
-        const std::size_t indent = current_indent();
-
-        // Check for directives end marker (explicit document start)
-        if (indent == 0 && remainder.starts_with(u8"---")) {
-            consume_indent(0);
-            emit_and_advance(3, Highlight_Type::symbol_punc);
-            skip_line();
-            consume_whitespace_and_comments();
-            if (eof()) {
-                return;
-            }
-        }
-
         // Check for directives (must be at indent 0)
-        if (indent == 0 && remainder.starts_with(u8'%')) {
+        if (remainder.starts_with(u8'%')) {
             consume_directives();
-            // After directives, expect ---
-            consume_whitespace_and_comments();
-            if (!remainder.empty() && remainder.starts_with(u8"---")) {
-                emit_and_advance(3, Highlight_Type::symbol_punc);
-                skip_line();
-                consume_whitespace_and_comments();
-            }
-            if (eof()) {
-                return;
-            }
+        }
+
+        // Check for directives end marker (explicit document start),
+        // which may be followed by the document on the same line.
+        if (is_at_marker(u8"---")) {
+            emit_and_advance(3, Highlight_Type::symbol_punc);
+            consume_inline_whitespace();
         }
 
         // Parse the document body (a block node at indent -1 conceptually)
@@ -450,7 +427,7 @@ private:
     {
         // https://yaml.org/spec/1.2.2/#l-directive
         while (!eof()) {
-            consume_whitespace_and_comments();
+            skip_blank_and_comment_lines();
             if (eof() || !remainder.starts_with(u8'%')) {
                 break;
             }
@@ -523,26 +500,6 @@ private:
         }
     }
 
-    [[nodiscard]]
-    bool expect_comment_or_blank()
-    {
-        consume_whitespace_and_comments();
-        if (eof()) {
-            return true;
-        }
-        // If we're at a comment or line break, consume and return true
-        if (remainder[0] == u8'#') {
-            consume_comment();
-            skip_line_break();
-            return true;
-        }
-        if (match_line_break(remainder)) {
-            skip_line_break();
-            return true;
-        }
-        return false;
-    }
-
     /// @brief Skip blank lines and comment-only lines without consuming
     /// the indentation of the line behind them.
     void skip_blank_and_comment_lines()
@@ -583,8 +540,7 @@ private:
             const std::size_t line_indent = current_indent();
 
             // Document markers at indent 0 stop block parsing.
-            if (line_indent == 0
-                && (remainder.starts_with(u8"---") || remainder.starts_with(u8"..."))) {
+            if (is_at_marker(u8"---") || is_at_marker(u8"...")) {
                 return;
             }
 
-- 
2.43.0


From 32437a74c17ad14b886129af92ed9bb80a0f21f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:28 +0000
Subject: [PATCH 134/144] fix: recognize YAML keys with quotes, hashes, blanks,
 tags and anchors, and none in flow collections

---
 src/main/cpp/lang/yaml.cpp | 43 ++++++++++++++++++++++++++------------
 1 file changed, 30 insertions(+), 13 deletions(-)

diff --git a/src/main/cpp/lang/yaml.cpp b/src/main/cpp/lang/yaml.cpp
index 9cca906..01ebfce 100644
--- a/src/main/cpp/lang/yaml.cpp
+++ b/src/main/cpp/lang/yaml.cpp
@@ -588,19 +588,20 @@ private:
                 continue;
             }
 
-            // Handle block mapping entry: key: value
-            if (try_consume_block_mapping_key(line_indent)) {
-                indent_stack.push(line_indent);
+            // Handle the tag and anchor of the node, or of its first key.
+            consume_node_properties();
+            if (remainder.empty() || match_line_break(remainder) || remainder[0] == u8'#') {
+                finish_line();
                 continue;
             }
 
-            // Check for flow node
-            if (!remainder.empty() && !match_line_break(remainder) && remainder[0] != u8'#') {
-                consume_flow_node_and_line(line_indent);
+            // Handle block mapping entry: key: value
+            if (try_consume_block_mapping_key(line_indent)) {
+                indent_stack.push(line_indent);
                 continue;
             }
 
-            break;
+            consume_flow_node_and_line(line_indent);
         }
     }
 
@@ -609,6 +610,11 @@ private:
     [[nodiscard]]
     bool try_consume_block_mapping_key(const std::size_t line_indent)
     {
+        // Flow collections contain keys, but they are none.
+        if (remainder.starts_with(u8'[') || remainder.starts_with(u8'{')) {
+            return false;
+        }
+
         // Look for "key: value" pattern on the current line.
         // We need to find the ': ' separator.
         const std::u8string_view line = remainder;
@@ -620,32 +626,37 @@ private:
         ) {
             const char8_t c = line[colon_pos];
             if (in_quote) {
-                if (c == quote_char) {
+                if (c == u8'\'' && quote_char == u8'\'' && colon_pos + 1 < line.length()
+                    && line[colon_pos + 1] == u8'\'') {
+                    ++colon_pos; // skip escaped quote
+                }
+                else if (c == quote_char) {
                     in_quote = false;
                 }
-                else if (c == u8'\\' && quote_char == u8'"') {
+                else if (c == u8'\\' && quote_char == u8'"'
+                         && !match_line_break(line.substr(colon_pos + 1))) {
                     ++colon_pos; // skip escaped char
                 }
             }
             else {
-                if (c == u8'"' || c == u8'\'') {
+                if (colon_pos == 0 && (c == u8'"' || c == u8'\'')) {
                     in_quote = true;
                     quote_char = c;
                 }
-                else if (c == u8'#') {
+                else if (c == u8'#' && colon_pos != 0 && is_yaml_whitespace(line[colon_pos - 1])) {
                     // Comment starts - no colon after this
                     break;
                 }
                 else if (c == u8':') {
                     // Found colon! Check if followed by space or end of line
-                    if (colon_pos + 1 >= line.length() || line[colon_pos + 1] == u8' '
-                        || match_line_break(line.substr(colon_pos + 1))) {
+                    if (is_at_separation(colon_pos + 1)) {
                         // It's a mapping key!
                         // Highlight the key
                         const std::u8string_view key_part = remainder.substr(0, colon_pos);
                         consume_flow_node_content(key_part.length(), Highlight_Type::markup_attr);
 
                         // Highlight the colon
+                        consume_inline_whitespace();
                         emit_and_advance(1, Highlight_Type::symbol_punc);
 
                         // Skip space after colon
@@ -717,6 +728,12 @@ private:
             return;
         }
 
+        consume_node_properties();
+        if (remainder.empty() || match_line_break(remainder) || remainder[0] == u8'#') {
+            finish_line();
+            return;
+        }
+
         // Compact mapping: "key: value" on the same line
         if (try_consume_block_mapping_key(indent)) {
             return;
-- 
2.43.0


From c0f6829e94184e5f479c8a8df4f9deef802d550a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:28 +0000
Subject: [PATCH 135/144] fix: recognize all YAML block scalar headers,
 comments behind directives and pairs in flow sequences

---
 src/main/cpp/lang/yaml.cpp | 41 +++++++++++++++++++++++++++++---------
 1 file changed, 32 insertions(+), 9 deletions(-)

diff --git a/src/main/cpp/lang/yaml.cpp b/src/main/cpp/lang/yaml.cpp
index 01ebfce..08a4e60 100644
--- a/src/main/cpp/lang/yaml.cpp
+++ b/src/main/cpp/lang/yaml.cpp
@@ -344,6 +344,14 @@ private:
             || match_line_break(remainder.substr(pos));
     }
 
+    /// @brief Like `is_at_separation`,
+    /// but also `true` if there is an indicator that delimits flow nodes.
+    [[nodiscard]]
+    bool is_at_flow_separation(const std::size_t pos) const
+    {
+        return is_at_separation(pos) || is_yaml_flow_indicator(remainder[pos]);
+    }
+
     /// @brief Get the indentation (number of spaces) at the start of the current line.
     [[nodiscard]]
     std::size_t current_indent() const
@@ -455,6 +463,9 @@ private:
         while (!remainder.empty() && !match_line_break(remainder)) {
             if (is_yaml_whitespace(remainder[0])) {
                 advance(1);
+                if (remainder.starts_with(u8'#')) {
+                    consume_comment();
+                }
             }
             else {
                 emit_code_point_and_advance(Highlight_Type::string);
@@ -926,6 +937,14 @@ private:
             case u8']': emit_and_advance(1, Highlight_Type::symbol_square); return;
             case u8'}': emit_and_advance(1, Highlight_Type::error); return;
             case u8',': emit_and_advance(1, Highlight_Type::symbol_punc); continue;
+            case u8'?':
+            case u8':':
+                // The parts of a single pair.
+                if (is_at_flow_separation(1)) {
+                    emit_and_advance(1, Highlight_Type::symbol_punc);
+                    continue;
+                }
+                break;
             case u8'\r':
             case u8'\n': skip_line_break(); continue;
             case u8'#':
@@ -1255,19 +1274,23 @@ private:
         // Block scalar indicator
         emit_and_advance(1, Highlight_Type::string_delim);
 
-        // Optional chomping indicator (+ or -)
-        if (!remainder.empty() && (remainder[0] == u8'+' || remainder[0] == u8'-')) {
-            emit_and_advance(1, Highlight_Type::number_decor);
-        }
-        // Optional indentation indicator (1-9)
+        // Optional chomping indicator (+ or -) and indentation indicator (1-9), in any order
+        const auto consume_chomping_indicator = [&] {
+            if (remainder.starts_with(u8'+') || remainder.starts_with(u8'-')) {
+                emit_and_advance(1, Highlight_Type::number_decor);
+                return true;
+            }
+            return false;
+        };
+        const bool has_chomping_indicator = consume_chomping_indicator();
         if (!remainder.empty() && remainder[0] >= u8'1' && remainder[0] <= u8'9') {
             emit_and_advance(1, Highlight_Type::number_decor);
+            if (!has_chomping_indicator) {
+                consume_chomping_indicator();
+            }
         }
         // Optional comment after header
-        if (!remainder.empty() && remainder[0] == u8'#') {
-            consume_comment();
-        }
-        skip_line();
+        finish_line();
 
         // Determine content indentation from the first non-empty content line.
         // Skip leading blank lines first.
-- 
2.43.0


From 40656be5c0e15f7afabc86465eee448915937ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:28 +0000
Subject: [PATCH 136/144] fix: highlight YAML plain scalars as a whole

---
 src/main/cpp/lang/yaml.cpp | 116 +++++++++++++++++--------------------
 1 file changed, 54 insertions(+), 62 deletions(-)

diff --git a/src/main/cpp/lang/yaml.cpp b/src/main/cpp/lang/yaml.cpp
index 08a4e60..082e645 100644
--- a/src/main/cpp/lang/yaml.cpp
+++ b/src/main/cpp/lang/yaml.cpp
@@ -252,6 +252,8 @@ struct Highlighter : Highlighter_Base {
 
     Indent_Stack indent_stack;
     const std::u8string_view source;
+    /// @brief The amount of flow collections around the current position.
+    std::size_t flow_depth = 0;
 
 public:
     Highlighter(
@@ -778,13 +780,17 @@ private:
 
         // Flow sequence: [...]
         if (remainder.starts_with(u8'[')) {
+            ++flow_depth;
             consume_flow_sequence(indent);
+            --flow_depth;
             return false;
         }
 
         // Flow mapping: {...}
         if (remainder.starts_with(u8'{')) {
+            ++flow_depth;
             consume_flow_mapping(indent);
+            --flow_depth;
             return false;
         }
 
@@ -991,12 +997,12 @@ private:
     void consume_flow_mapping_entry(const std::size_t indent)
     {
         // Key
-        if (remainder.starts_with(u8'?')) {
+        if (remainder.starts_with(u8'?') && is_at_flow_separation(1)) {
             emit_and_advance(1, Highlight_Type::symbol_punc);
             consume_whitespace_and_comments();
-            consume_flow_node(indent, true);
         }
-        else {
+        // The key may be missing.
+        if (!(remainder.starts_with(u8':') && is_at_flow_separation(1))) {
             consume_flow_node(indent, true);
         }
 
@@ -1179,66 +1185,58 @@ private:
     void consume_plain_scalar(const bool is_key = false)
     {
         // https://yaml.org/spec/1.2.2/#ns-plain
-        // First, check for special plain values: null, bool, number
-        if (remainder.starts_with(u8'~')) {
-            emit_and_advance(1, Highlight_Type::null);
+        const std::size_t length = match_plain_scalar();
+        if (length == 0) {
             return;
         }
-
-        // Check for null/boolean identifiers
-        if (const Plain_Identifier_Result id = match_plain_identifier(remainder)) {
-            if (id.length >= remainder.length() || is_yaml_word_terminator(remainder[id.length])
-                || match_line_break(remainder.substr(id.length)) || remainder[id.length] == u8':'
-                || remainder[id.length] == u8'-') {
-                const auto highlight = id.type == Plain_Identifier_Type::null ? Highlight_Type::null
-                    : id.type == Plain_Identifier_Type::bool_true  ? Highlight_Type::bool_
-                    : id.type == Plain_Identifier_Type::bool_false ? Highlight_Type::bool_
-                                                                   : Highlight_Type::name;
-                emit_and_advance(id.length, highlight);
-                return;
-            }
+        std::size_t trimmed_length = length;
+        while (trimmed_length != 0 && is_yaml_whitespace(remainder[trimmed_length - 1])) {
+            --trimmed_length;
         }
 
-        // Check for number.
-        // Only treat as a number if we've consumed the entire plain scalar
-        // (up to a plain-terminator, not a generic word-terminator).
+        // Special plain values (null, bool, number) are scalars as a whole.
         // Otherwise "123 Main St" would be split into number + unhighlighted text.
-        if (const Common_Number_Result num = match_number(remainder)) {
-            if (num.length >= remainder.length()) {
-                const auto highlight
-                    = num.erroneous ? Highlight_Type::error : Highlight_Type::number;
-                emit_and_advance(num.length, highlight);
-                return;
-            }
-            const char8_t peek = remainder[num.length];
-            const bool number_terminates
-                = is_yaml_plain_terminator(peek) || match_line_break(remainder.substr(num.length));
-            const bool number_followed_by_colon = peek == u8':'
-                && (num.length + 1 >= remainder.length() || remainder[num.length + 1] == u8' '
-                    || match_line_break(remainder.substr(num.length + 1)));
-            // Space + flow indicator (e.g. "42 }" in flow mappings) or space + comment.
-            const bool number_then_terminating_space = num.length + 1 < remainder.length()
-                && peek == u8' '
-                && (remainder[num.length + 1] == u8'#'
-                    || is_yaml_flow_indicator(remainder[num.length + 1]));
-            if (number_terminates || peek == u8']' || peek == u8'}' || number_followed_by_colon
-                || number_then_terminating_space) {
-                const auto highlight
-                    = num.erroneous ? Highlight_Type::error : Highlight_Type::number;
-                emit_and_advance(num.length, highlight);
-                return;
-            }
+        const std::u8string_view scalar = remainder.substr(0, trimmed_length);
+        if (scalar == u8"~") {
+            emit_and_advance(trimmed_length, Highlight_Type::null);
+            return;
+        }
+        if (const Plain_Identifier_Result id = match_plain_identifier(scalar);
+            id && id.length == trimmed_length) {
+            const auto highlight = id.type == Plain_Identifier_Type::null ? Highlight_Type::null
+                                                                          : Highlight_Type::bool_;
+            emit_and_advance(trimmed_length, highlight);
+            return;
+        }
+        if (const Common_Number_Result num = match_number(scalar);
+            num && num.length == trimmed_length && !num.erroneous) {
+            emit_and_advance(trimmed_length, Highlight_Type::number);
+            return;
         }
 
-        // Plain string: consume until end of line or special character
+        emit_and_advance(length, is_key ? Highlight_Type::markup_attr : Highlight_Type::string);
+    }
+
+    /// @brief Returns the length of the line of a plain scalar at the start of the remainder.
+    [[nodiscard]]
+    std::size_t match_plain_scalar() const
+    {
+        // https://yaml.org/spec/1.2.2/#733-plain-style
         std::size_t length = 0;
         while (length < remainder.length()) {
             const char8_t c = remainder[length];
-            if (is_yaml_plain_terminator(c)) {
+            if (c == u8'\r' || c == u8'\n') {
                 break;
             }
-            if (c == u8' ' && length > 0 && length + 1 < remainder.length()
-                && remainder[length + 1] == u8'#') {
+            // The indicators of flow collections are special only within these.
+            if (flow_depth != 0 && is_yaml_flow_indicator(c)) {
+                break;
+            }
+            // Comments are separated by whitespace, which is not part of the scalar.
+            if (c == u8'#' && (length == 0 || is_yaml_whitespace(remainder[length - 1]))) {
+                while (length != 0 && is_yaml_whitespace(remainder[length - 1])) {
+                    --length;
+                }
                 break;
             }
             // Colon only terminates when it separates a key from a value
@@ -1246,20 +1244,14 @@ private:
             // character of the scalar).
             // A colon at position zero is just part of the scalar content
             // (e.g. \":value\" inside a flow sequence).
-            if (c == u8':' && length > 0) {
-                if (length + 1 >= remainder.length() || remainder[length + 1] == u8' '
-                    || match_line_break(remainder.substr(length + 1))) {
-                    break;
-                }
+            if (c == u8':' && length > 0
+                && (flow_depth != 0 ? is_at_flow_separation(length + 1)
+                                    : is_at_separation(length + 1))) {
+                break;
             }
             ++length;
         }
-
-        if (length > 0) {
-            const Highlight_Type type
-                = is_key ? Highlight_Type::markup_attr : Highlight_Type::string;
-            emit_and_advance(length, type);
-        }
+        return length;
     }
 
     // ========================================================================
-- 
2.43.0


From b2c340eb62b274a00f4decdf83bf33c9c2e071d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:28 +0000
Subject: [PATCH 137/144] fix: do not begin YAML block scalars in flow
 collections

---
 include/ulight/impl/lang/yaml.hpp | 6 ------
 src/main/cpp/lang/yaml.cpp        | 3 ++-
 2 files changed, 2 insertions(+), 7 deletions(-)

diff --git a/include/ulight/impl/lang/yaml.hpp b/include/ulight/impl/lang/yaml.hpp
index bee17ed..64c35a2 100644
--- a/include/ulight/impl/lang/yaml.hpp
+++ b/include/ulight/impl/lang/yaml.hpp
@@ -20,12 +20,6 @@ inline constexpr Charset256 is_yaml_flow_indicator { u8",[]{}" };
 // https://yaml.org/spec/1.2.2/#ns-word-char
 inline constexpr auto is_yaml_word_char = is_ascii_alphanumeric | Charset256(u8"-");
 
-// https://yaml.org/spec/1.2.2/#c-indicator
-// Characters that terminate a plain scalar (flow indicators, #, newline).
-// Note: ':' is NOT included here because it only terminates a plain scalar
-// when followed by a separator (space/newline/end). See consume_plain_scalar().
-inline constexpr Charset256 is_yaml_plain_terminator { u8"\r\n,[]{}#" };
-
 // https://yaml.org/spec/1.2.2/#c-indicator
 // Characters that terminate a tag suffix, anchor name, or alias name.
 inline constexpr Charset256 is_yaml_word_terminator { u8"\r\n,[]{}# \t&*!" };
diff --git a/src/main/cpp/lang/yaml.cpp b/src/main/cpp/lang/yaml.cpp
index 082e645..2e8c74e 100644
--- a/src/main/cpp/lang/yaml.cpp
+++ b/src/main/cpp/lang/yaml.cpp
@@ -795,7 +795,8 @@ private:
         }
 
         // Block scalars: | or >
-        if (remainder.starts_with(u8'|') || remainder.starts_with(u8'>')) {
+        if (flow_depth == 0
+            && (remainder.starts_with(u8'|') || remainder.starts_with(u8'>'))) {
             consume_block_scalar(indent);
             return true;
         }
-- 
2.43.0


From 15a45d227c9272d8f80d150740970cf3e732ab94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:11 +0000
Subject: [PATCH 138/144] fix: do not end YAML block scalars at lines of blanks

---
 src/main/cpp/lang/yaml.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/main/cpp/lang/yaml.cpp b/src/main/cpp/lang/yaml.cpp
index 2e8c74e..6e87ea0 100644
--- a/src/main/cpp/lang/yaml.cpp
+++ b/src/main/cpp/lang/yaml.cpp
@@ -1287,7 +1287,8 @@ private:
 
         // Determine content indentation from the first non-empty content line.
         // Skip leading blank lines first.
-        while (!remainder.empty() && match_line_break(remainder)) {
+        while (!remainder.empty() && match_line_break(remainder.substr(current_indent()))) {
+            consume_indent(current_indent());
             skip_line_break();
         }
         const std::size_t content_indent = current_indent();
@@ -1301,17 +1302,18 @@ private:
         while (!remainder.empty()) {
             const std::size_t line_indent = current_indent();
 
-            // De-dent past the content indentation ends the block scalar.
-            if (line_indent < content_indent && !match_line_break(remainder)) {
-                break;
-            }
-
             // Empty lines are part of the content.
-            if (match_line_break(remainder)) {
+            if (line_indent <= content_indent && match_line_break(remainder.substr(line_indent))) {
+                consume_indent(line_indent);
                 skip_line_break();
                 continue;
             }
 
+            // De-dent past the content indentation ends the block scalar.
+            if (line_indent < content_indent) {
+                break;
+            }
+
             // Comments at lower indentation end the block scalar.
             if (remainder[0] == u8'#' && line_indent < content_indent) {
                 break;
-- 
2.43.0


From 7ce4db1492295feadcf6ef96b5e0846db1e399a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:59 +0000
Subject: [PATCH 139/144] fix: web: report a failed allocation instead of a
 ReferenceError

---
 www/js/ulight.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/www/js/ulight.js b/www/js/ulight.js
index 7b2ea7d..482cf43 100644
--- a/www/js/ulight.js
+++ b/www/js/ulight.js
@@ -209,7 +209,7 @@ export class UlightWasm {
     _alloc(size, alignment) {
         const result = this._exports.ulight_alloc(size, alignment);
         if (result === 0) {
-            throw new Error(`Allocation failure in WASM with: bytes=${bytes}, align=${alignment}`);
+            throw new Error(`Allocation failure in WASM with: bytes=${size}, align=${alignment}`);
         }
         return result;
     }
-- 
2.43.0


From aa5f684e8939dd1c58e267f04cc2cbb988e26baf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:59 +0000
Subject: [PATCH 140/144] fix: web: getLanguageId: do not free what could not
 be allocated

---
 www/js/ulight.js | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/www/js/ulight.js b/www/js/ulight.js
index 482cf43..fff23c4 100644
--- a/www/js/ulight.js
+++ b/www/js/ulight.js
@@ -57,9 +57,8 @@ export class UlightWasm {
      * @returns {number} The numeric ID. The special value `0` represents no valid language.
      */
     getLanguageId(name) {
-        let u8string;
+        const u8string = this._allocUtf8(name);
         try {
-            u8string = this._allocUtf8(name);
             return this._exports.ulight_get_lang(u8string.address, u8string.size);
         } finally {
             this._freeUtf8(u8string);
-- 
2.43.0


From 3b983809a75c2fed5e03722ff60907c603be45a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:59 +0000
Subject: [PATCH 141/144] fix: web: read the error message through the current
 view of memory

---
 www/js/ulight.js | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/www/js/ulight.js b/www/js/ulight.js
index fff23c4..79669c4 100644
--- a/www/js/ulight.js
+++ b/www/js/ulight.js
@@ -131,8 +131,9 @@ export class UlightWasm {
 
             const result = this._exports.ulight_source_to_html(state);
             if (result != 0) {
-                const errorAddress = heap32[state / 4 + 16];
-                const errorLength = heap32[state / 4 + 17];
+                // Memory may have grown during the call, so `heap32` may be detached by now.
+                const errorAddress = this._heap32[state / 4 + 16];
+                const errorLength = this._heap32[state / 4 + 17];
                 const error = this._loadUtf8(errorAddress, errorLength);
                 console.error(`ulight_source_to_html failed with status ${result}:`, error);
                 throw result;
-- 
2.43.0


From 704421fe5351fa4164b956b5879a0c163bc2de70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:00 +0000
Subject: [PATCH 142/144] fix: web: decode code points which are split between
 two flushes of text

---
 www/js/ulight.js | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/www/js/ulight.js b/www/js/ulight.js
index 79669c4..47fd746 100644
--- a/www/js/ulight.js
+++ b/www/js/ulight.js
@@ -99,7 +99,7 @@ export class UlightWasm {
         const lang = typeof (id) === "string" ? this.getLanguageId(id) : id;
         const sourceData = typeof (source) === "string" ? new TextEncoder().encode(source) : source;
 
-        this._bufferedText = "";
+        this._bufferedChunks = [];
 
         let u8source = 0;
         let tokenBuffer = 0;
@@ -138,7 +138,7 @@ export class UlightWasm {
                 console.error(`ulight_source_to_html failed with status ${result}:`, error);
                 throw result;
             }
-            return this._bufferedText;
+            return this._decodeChunks(this._bufferedChunks);
         } finally {
             if (state) {
                 this._deleteState(state);
@@ -167,6 +167,20 @@ export class UlightWasm {
         return decoder.decode(utf8Bytes);
     }
 
+    /**
+     * Decodes UTF-8 text which is split into chunks at arbitrary positions.
+     * @param {Uint8Array[]} chunks The chunks of the text, in order.
+     * @returns {string} The decoded string.
+     */
+    _decodeChunks(chunks) {
+        const decoder = new TextDecoder("utf-8", { fatal: true });
+        let result = "";
+        for (const chunk of chunks) {
+            result += decoder.decode(chunk, { stream: true });
+        }
+        return result + decoder.decode();
+    }
+
     /**
      * Copies a `string` to a newly allocated UTF-8 array in memory.
      * The returned allocation should later be freed with `_freeUtf8`.
@@ -261,8 +275,8 @@ export class UlightWasm {
         }
 
         const flushTextFunction = (_, textAddress, textLength) => {
-            const str = this._loadUtf8(textAddress, textLength);
-            this._bufferedText += str;
+            // A code point may be split between two chunks, so these are not decoded individually.
+            this._bufferedChunks.push(this._heap8.slice(textAddress, textAddress + textLength));
         };
         const flushTextModule = await fetchBytes('f_i32_i32_i32_to_void.wasm')
             .then(bytes => WebAssembly.compile(bytes));
-- 
2.43.0


From 7014002c61ae3665ce04faf5810e828bead1ef4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:00 +0000
Subject: [PATCH 143/144] fix: web: keep a byte order mark at the start of the
 source

---
 www/js/ulight.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/www/js/ulight.js b/www/js/ulight.js
index 47fd746..6570fec 100644
--- a/www/js/ulight.js
+++ b/www/js/ulight.js
@@ -173,7 +173,7 @@ export class UlightWasm {
      * @returns {string} The decoded string.
      */
     _decodeChunks(chunks) {
-        const decoder = new TextDecoder("utf-8", { fatal: true });
+        const decoder = new TextDecoder("utf-8", { fatal: true, ignoreBOM: true });
         let result = "";
         for (const chunk of chunks) {
             result += decoder.decode(chunk, { stream: true });
-- 
2.43.0


From a7fabb894d8f37fbce85212f167fc88d09a0387d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:24 +0000
Subject: [PATCH 144/144] fix: reject numbers of languages which are negative

---
 src/main/cpp/ulight.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/main/cpp/ulight.cpp b/src/main/cpp/ulight.cpp
index 5a799ef..832e413 100644
--- a/src/main/cpp/ulight.cpp
+++ b/src/main/cpp/ulight.cpp
@@ -196,7 +196,7 @@ static_assert(std::ranges::none_of(ulight_lang_display_names, [](ulight_string_v
 ULIGHT_EXPORT
 ulight_string_view ulight_lang_display_name(ulight_lang lang) noexcept
 {
-    if (lang == ULIGHT_LANG_NONE || int(lang) >= int(ULIGHT_LANG_COUNT)) {
+    if (lang == ULIGHT_LANG_NONE || unsigned(lang) >= unsigned(ULIGHT_LANG_COUNT)) {
         return {};
     }
     return ulight_lang_display_names[std::size_t(lang)];
@@ -414,7 +414,8 @@ ulight_status ulight_source_to_tokens(ulight_state* state) noexcept
     if (state->flush_tokens == nullptr) {
         return error(state, ULIGHT_STATUS_BAD_BUFFER, u8"flush_tokens must not be null.");
     }
-    if (state->lang == ULIGHT_LANG_NONE || int(state->lang) >= ULIGHT_LANG_COUNT) {
+    if (state->lang == ULIGHT_LANG_NONE
+        || unsigned(state->lang) >= unsigned(ULIGHT_LANG_COUNT)) {
         return error(
             state, ULIGHT_STATUS_BAD_LANG, u8"The given language (numeric value) is invalid."
         );
-- 
2.43.0

