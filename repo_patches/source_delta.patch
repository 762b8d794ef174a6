From a6461bbf96ae10dc4bf420b514b83b73e3b00127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:52 +0000
Subject: [PATCH 01/16] fix: accept registered names that begin like an IPv4
 address

---
 lib/uri/uri.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/uri/uri.cpp b/lib/uri/uri.cpp
index b64783b..777ead8 100644
--- a/lib/uri/uri.cpp
+++ b/lib/uri/uri.cpp
@@ -392,8 +392,12 @@ auto ip_literal (rule const& r) {
 }
 
 // host = IP-literal / IPv4address / reg-name
+//
+// Any IPv4address is also a reg-name. There is no separate alternative for
+// IPv4address here because it would be preferred to, and hence hide, a reg-name
+// which starts with the same characters (such as "1.2.3.4.example.com").
 auto host (rule const& r) {
-  return r.alternative (ip_literal, ipv4address, reg_name)
+  return r.alternative (ip_literal, reg_name)
     .matched ("IP-literal / IPv4address / reg-name", r);
 }
 constexpr auto hostfn = host;
-- 
2.43.0


From 6fd787a839cc87eb13c3ddbd75ddc8b4e5efc1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:55 +0000
Subject: [PATCH 02/16] fix: merge() drops the last segment of a single-segment
 base path

---
 lib/uri/uri.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/uri/uri.cpp b/lib/uri/uri.cpp
index 777ead8..02f64e5 100644
--- a/lib/uri/uri.cpp
+++ b/lib/uri/uri.cpp
@@ -747,7 +747,7 @@ struct uri::parts::path merge (uri::parts const& base, uri::parts const& ref) {
   r2.absolute = base.path.absolute;
 
   auto last = std::end (base.path.segments);
-  if (base.path.segments.size () > 1) {
+  if (!base.path.segments.empty ()) {
     std::advance (last, -1);
   }
   auto out = std::back_inserter (r2.segments);
-- 
2.43.0


From 4b6b15a5ef9557837fe75f3dd1a26104ce53c329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:39 +0000
Subject: [PATCH 03/16] fix: remove_dot_segments() follows RFC 3986 section
 5.2.4 for empty segments and relative paths

---
 lib/uri/uri.cpp | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/lib/uri/uri.cpp b/lib/uri/uri.cpp
index 02f64e5..6840725 100644
--- a/lib/uri/uri.cpp
+++ b/lib/uri/uri.cpp
@@ -785,9 +785,19 @@ void parts::path::remove_dot_segments () {
       last_dir = true;
       if (outit != begin) {
         --outit;
+        if (outit == begin) {
+          // What follows the popped segment starts with a solidus.
+          this->absolute = true;
+        }
       }
     } else {
-      last_dir = it->empty ();
+      last_dir = false;
+      if (outit == begin && it->empty () && !this->absolute &&
+          std::next (it) != end) {
+        // An initial empty segment is just the solidus that follows it.
+        this->absolute = true;
+        continue;
+      }
       if (outit != it) {
         *outit = *it;
       }
@@ -796,14 +806,9 @@ void parts::path::remove_dot_segments () {
   }
   this->segments.erase (outit, end);
 
+  // A path whose last segment was a dot segment ends with a solidus.
   if (last_dir) {
-    if (segments.empty ()) {
-      this->segments.emplace_back ();
-    } else {
-      if (!this->segments.back ().empty ()) {
-        this->segments.emplace_back ();
-      }
-    }
+    this->segments.emplace_back ();
   }
 }
 
-- 
2.43.0


From dba02c823eebc2c4de46f634d99a66dc89e0e642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:43 +0000
Subject: [PATCH 04/16] fix: compose() does not let a path be read as an
 authority

---
 lib/uri/uri.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/uri/uri.cpp b/lib/uri/uri.cpp
index 6840725..06537fb 100644
--- a/lib/uri/uri.cpp
+++ b/lib/uri/uri.cpp
@@ -1014,7 +1014,12 @@ std::ostream& compose (std::ostream& os, parts const& p) {
       os << '/';
     }
   }
-  os << p.path;
+  auto const path = static_cast<std::string> (p.path);
+  if (!p.authority.has_value () && path.starts_with ("//")) {
+    // Without this, the path would be read as an authority.
+    os << "/.";
+  }
+  os << path;
   if (p.query.has_value ()) {
     os << '?' << p.query.value ();
   }
-- 
2.43.0


From 10e60f41e046a97995a77fbe5936df36da76ac26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:47 +0000
Subject: [PATCH 05/16] fix: compose() to a string reports an allocation
 failure

---
 lib/uri/uri.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/uri/uri.cpp b/lib/uri/uri.cpp
index 06537fb..7c28d09 100644
--- a/lib/uri/uri.cpp
+++ b/lib/uri/uri.cpp
@@ -1031,6 +1031,8 @@ std::ostream& compose (std::ostream& os, parts const& p) {
 
 std::string compose (parts const& p) {
   std::stringstream result;
+  // Report a failure to store the text rather than return part of it.
+  result.exceptions (std::ios_base::badbit);
   result << p;
   return result.str ();
 }
-- 
2.43.0


From b40759a97885a98e8c37fcb8f88524320fa11207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:54 +0000
Subject: [PATCH 06/16] fix: uri-split reports read errors, write errors and
 memory exhaustion

---
 tools/uri-split/uri-split.cpp | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/tools/uri-split/uri-split.cpp b/tools/uri-split/uri-split.cpp
index cd9a04e..16e74be 100644
--- a/tools/uri-split/uri-split.cpp
+++ b/tools/uri-split/uri-split.cpp
@@ -22,7 +22,7 @@ namespace {
 
 bool read_stream (std::istream& is) {
   std::string line;
-  while (getline (is, line)) {
+  while (std::cout && getline (is, line)) {
     std::cout << "URI: " << line << '\n';
 
     auto r = uri::split (line);
@@ -42,10 +42,25 @@ bool read_stream (std::istream& is) {
                 << "\n host: None"
                 << "\n port: None";
     }
-    std::cout << "\n path: " << std::quoted (static_cast<std::string> (r->path))
+    // (std::quoted() would truncate the path if memory ran out.)
+    auto const path = static_cast<std::string> (r->path);
+    std::cout << "\n path: " << value_or_none (path)
               << "\n query: " << value_or_none (r->query)
               << "\n fragment: " << value_or_none (r->fragment) << '\n';
   }
+  if (is.bad ()) {
+    std::cerr << "Error: couldn't read the input\n";
+    return false;
+  }
+  return true;
+}
+
+// Returns true if all of the output was accepted.
+bool flush_output () {
+  if (!std::cout.flush ()) {
+    std::cerr << "Error: couldn't write the output\n";
+    return false;
+  }
   return true;
 }
 
@@ -54,8 +69,11 @@ bool read_stream (std::istream& is) {
 int main (int argc, char const* argv[]) {
   int exit_code = EXIT_SUCCESS;
   try {
+    // The C library would have std::cin present a read error as end of file.
+    std::ios_base::sync_with_stdio (false);
     if (argc == 1) {
-      return read_stream (std::cin) ? EXIT_SUCCESS : EXIT_FAILURE;
+      return read_stream (std::cin) && flush_output () ? EXIT_SUCCESS
+                                                       : EXIT_FAILURE;
     }
 
     for (int arg = 1; arg < argc; ++arg) {
@@ -69,6 +87,9 @@ int main (int argc, char const* argv[]) {
         return EXIT_FAILURE;
       }
     }
+    if (!flush_output ()) {
+      exit_code = EXIT_FAILURE;
+    }
   } catch (std::exception const& ex) {
     std::cerr << "Error: " << ex.what () << '\n';
     exit_code = EXIT_FAILURE;
-- 
2.43.0


From fb9939d1621c328de5a22d78f949e9b8f3fd8013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:22 +0000
Subject: [PATCH 07/16] fix: the grammar does not depend on the current locale

---
 include/uri/rule.hpp | 35 +++++++++++++++++++++++++++--------
 lib/uri/uri.cpp      |  8 ++++----
 2 files changed, 31 insertions(+), 12 deletions(-)

diff --git a/include/uri/rule.hpp b/include/uri/rule.hpp
index ebd1b26..b744700 100644
--- a/include/uri/rule.hpp
+++ b/include/uri/rule.hpp
@@ -91,6 +91,25 @@
 
 namespace uri {
 
+namespace details {
+
+// These are used in place of the functions from <cctype> because the results of
+// those depend on the current locale.
+constexpr char to_lower (char const c) noexcept {
+  return c >= 'A' && c <= 'Z' ? static_cast<char> (c - 'A' + 'a') : c;
+}
+constexpr bool is_alpha (char const c) noexcept {
+  return to_lower (c) >= 'a' && to_lower (c) <= 'z';
+}
+constexpr bool is_digit (char const c) noexcept {
+  return c >= '0' && c <= '9';
+}
+constexpr bool is_xdigit (char const c) noexcept {
+  return is_digit (c) || (to_lower (c) >= 'a' && to_lower (c) <= 'f');
+}
+
+}  // end namespace details
+
 class rule {
 public:
   using acceptor_container = std::vector<
@@ -161,8 +180,8 @@ public:
   template <typename Predicate>
   [[nodiscard]] matched_result single_char (Predicate pred) const;
   [[nodiscard]] matched_result single_char (char const c) const {
-    return single_char ([c2 = std::tolower (static_cast<int> (c))] (char d) {
-      return c2 == std::tolower (static_cast<int> (d));
+    return single_char ([c2 = details::to_lower (c)] (char d) {
+      return c2 == details::to_lower (d);
     });
   }
 
@@ -326,10 +345,10 @@ inline auto single_char (char const first) {
   return [=] (rule const& r) { return r.single_char (first); };
 }
 inline auto char_range (char const first, char const last) {
-  return [f = std::tolower (static_cast<int> (first)),
-          l = std::tolower (static_cast<int> (last))] (rule const& r) {
+  return [f = details::to_lower (first),
+          l = details::to_lower (last)] (rule const& r) {
     return r.single_char ([=] (char const c) {
-      auto const cl = std::tolower (static_cast<int> (c));
+      auto const cl = details::to_lower (c);
       return cl >= f && cl <= l;
     });
   };
@@ -337,15 +356,15 @@ inline auto char_range (char const first, char const last) {
 
 inline auto alpha (rule const& r) {
   return r.single_char (
-    [] (char const c) { return std::isalpha (static_cast<int> (c)); });
+    [] (char const c) { return details::is_alpha (c); });
 }
 inline auto digit (rule const& r) {
   return r.single_char (
-    [] (char const c) { return std::isdigit (static_cast<int> (c)); });
+    [] (char const c) { return details::is_digit (c); });
 }
 inline auto hexdig (rule const& r) {
   return r.single_char (
-    [] (char const c) { return std::isxdigit (static_cast<int> (c)); });
+    [] (char const c) { return details::is_xdigit (c); });
 }
 
 }  // end namespace uri
diff --git a/lib/uri/uri.cpp b/lib/uri/uri.cpp
index 7c28d09..c64c676 100644
--- a/lib/uri/uri.cpp
+++ b/lib/uri/uri.cpp
@@ -36,10 +36,10 @@ inline auto code_point_range (code_point const first, code_point const last) {
   assert (static_cast<std::underlying_type_t<code_point>> (last) <=
           static_cast<std::underlying_type_t<code_point>> (
             std::numeric_limits<char>::max ()));
-  return [f = std::tolower (static_cast<int> (first)),
-          l = std::tolower (static_cast<int> (last))] (rule const& r) {
+  return [f = details::to_lower (static_cast<char> (first)),
+          l = details::to_lower (static_cast<char> (last))] (rule const& r) {
     return r.single_char ([=] (char const c) {
-      auto const cl = std::tolower (static_cast<int> (c));
+      auto const cl = details::to_lower (c);
       return cl >= f && cl <= l;
     });
   };
@@ -123,7 +123,7 @@ auto sub_delims (rule const& r) {
 auto unreserved (rule const& r) {
   return r.single_char ([] (char const c) {
     auto const cp = static_cast<code_point> (c);
-    return static_cast<bool> (std::isalnum (static_cast<int> (c))) ||
+    return details::is_alpha (c) || details::is_digit (c) ||
            cp == code_point::hyphen_minus || cp == code_point::full_stop ||
            cp == code_point::low_line || cp == code_point::tilde;
   });
-- 
2.43.0


From f3a69dcc0d82cf8123666b7325ff5814c5726596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:51 +0000
Subject: [PATCH 08/16] fix: transcoders no longer promise that a caller's
 output iterator cannot throw

---
 include/uri/icubaby.hpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/include/uri/icubaby.hpp b/include/uri/icubaby.hpp
index adc0bf2..800b5d9 100644
--- a/include/uri/icubaby.hpp
+++ b/include/uri/icubaby.hpp
@@ -571,7 +571,7 @@ public:
   /// \param dest  An output iterator to which the output sequence is written.
   /// \returns  Iterator one past the last element assigned.
   template <ICUBABY_CONCEPT_OUTPUT_ITERATOR (output_type) OutputIterator>
-  OutputIterator operator() (input_type code_unit, OutputIterator dest) noexcept;
+  OutputIterator operator() (input_type code_unit, OutputIterator dest);
 
   /// Call once the entire input sequence has been fed to \ref transcoder-call-operator "operator()". This
   /// function ensures that the sequence did not end with a partial code point.
@@ -714,7 +714,7 @@ public:
   /// \param dest  An output iterator to which the output sequence is written.
   /// \returns  Iterator one past the last element assigned.
   template <ICUBABY_CONCEPT_OUTPUT_ITERATOR (output_type) OutputIterator>
-  OutputIterator operator() (input_type code_unit, OutputIterator dest) noexcept {
+  OutputIterator operator() (input_type code_unit, OutputIterator dest) {
     if (code_unit < 0x80) {
       *(dest++) = static_cast<output_type> (code_unit);
       return dest;
@@ -964,7 +964,7 @@ public:
   /// \param dest  Iterator to which the output should be written.
   /// \returns  Iterator one past the last element assigned.
   template <ICUBABY_CONCEPT_OUTPUT_ITERATOR (output_type) OutputIterator>
-  OutputIterator operator() (input_type code_unit, OutputIterator dest) noexcept {
+  OutputIterator operator() (input_type code_unit, OutputIterator dest) {
     if (is_surrogate (code_unit) || code_unit > max_code_point) {
       dest = (*this) (replacement_char, dest);
       well_formed_ = false;
@@ -1038,7 +1038,7 @@ public:
   /// \param dest  An output iterator to which the output sequence is written.
   /// \returns  Iterator one past the last element assigned.
   template <ICUBABY_CONCEPT_OUTPUT_ITERATOR (output_type) OutputIterator>
-  OutputIterator operator() (input_type code_unit, OutputIterator dest) noexcept {
+  OutputIterator operator() (input_type code_unit, OutputIterator dest) {
     if (!has_high_) {
       if (is_high_surrogate (code_unit)) {
         // A high surrogate code unit indicates that this is the first of a
@@ -1213,7 +1213,7 @@ public:
   /// \param dest  An output iterator to which the output sequence is written.
   /// \returns  Iterator one past the last element assigned.
   template <ICUBABY_CONCEPT_OUTPUT_ITERATOR (output_type) OutputIterator>
-  OutputIterator operator() (input_type value, OutputIterator dest) noexcept {
+  OutputIterator operator() (input_type value, OutputIterator dest) {
     switch (state_) {
     case states::start: dest = this->start_state (value, dest); break;
     case states::utf8_bom_byte2:
@@ -1302,7 +1302,7 @@ public:
   /// \param dest  An output iterator to which the output sequence is written.
   /// \returns  Iterator one past the last element assigned.
   template <ICUBABY_CONCEPT_OUTPUT_ITERATOR (ToEncoding) OutputIterator>
-  OutputIterator end_cp (OutputIterator dest) noexcept {
+  OutputIterator end_cp (OutputIterator dest) {
     if (transcoder_variant_.valueless_by_exception ()) {
       return dest;
     }
@@ -1586,7 +1586,7 @@ private:
   /// \param dest  An output iterator to which the output sequence is written.
   /// \returns  Iterator one past the last element assigned.
   template <ICUBABY_CONCEPT_OUTPUT_ITERATOR (ToEncoding) OutputIterator>
-  [[nodiscard]] OutputIterator start_state (input_type const value, OutputIterator dest) noexcept {
+  [[nodiscard]] OutputIterator start_state (input_type const value, OutputIterator dest) {
     buffer_[0] = value;
     if (value == std::byte{0xEF}) {
       state_ = states::utf8_bom_byte1;
@@ -1609,7 +1609,7 @@ private:
   /// \param dest  An output iterator to which the output sequence is written.
   /// \returns  Iterator one past the last element assigned.
   template <ICUBABY_CONCEPT_OUTPUT_ITERATOR (ToEncoding) OutputIterator>
-  [[nodiscard]] OutputIterator run8_start (bool const copy_buffer, OutputIterator dest) noexcept {
+  [[nodiscard]] OutputIterator run8_start (bool const copy_buffer, OutputIterator dest) {
     assert (!is_run_mode (state_) && "The FSM should not be in run mode when run8_start is called");
     assert (std::holds_alternative<std::monostate> (transcoder_variant_) &&
             "The variant should hold monostate until the FSM is in run mode");
@@ -1630,7 +1630,7 @@ private:
   /// \param dest  An output iterator to which the output sequence is written.
   /// \returns  Iterator one past the last element assigned.
   template <ICUBABY_CONCEPT_OUTPUT_ITERATOR (ToEncoding) OutputIterator>
-  [[nodiscard]] OutputIterator run16_start (OutputIterator dest) noexcept {
+  [[nodiscard]] OutputIterator run16_start (OutputIterator dest) {
     assert (!is_run_mode (state_) && "The FSM should not be in run mode when run16_start is called");
     assert (std::holds_alternative<std::monostate> (transcoder_variant_) &&
             "The variant should hold monostate until the FSM is in run mode");
@@ -1650,7 +1650,7 @@ private:
   /// \param dest  An output iterator to which the output sequence is written.
   /// \returns  Iterator one past the last element assigned.
   template <ICUBABY_CONCEPT_OUTPUT_ITERATOR (ToEncoding) OutputIterator>
-  [[nodiscard]] OutputIterator run16 (input_type const value, OutputIterator dest) noexcept {
+  [[nodiscard]] OutputIterator run16 (input_type const value, OutputIterator dest) {
     assert (state_ == states::run_16be_byte1 || state_ == states::run_16le_byte1);
     assert (std::holds_alternative<t16_type> (transcoder_variant_));
 
@@ -1674,7 +1674,7 @@ private:
   /// \param dest  An output iterator to which the output sequence is written.
   /// \returns  Iterator one past the last element assigned.
   template <ICUBABY_CONCEPT_OUTPUT_ITERATOR (ToEncoding) OutputIterator>
-  [[nodiscard]] OutputIterator run32 (input_type const value, OutputIterator dest) noexcept {
+  [[nodiscard]] OutputIterator run32 (input_type const value, OutputIterator dest) {
     assert (state_ == states::run_32be_byte3 || state_ == states::run_32le_byte3);
     assert (std::holds_alternative<t32_type> (transcoder_variant_));
 
-- 
2.43.0


From d78d8f8a8af75b52a92af04400be3f8e4172cdce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:49 +0000
Subject: [PATCH 09/16] fix: the most significant byte of a UTF-32 LE code unit
 is not ignored

---
 include/uri/icubaby.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/uri/icubaby.hpp b/include/uri/icubaby.hpp
index 800b5d9..1a023cb 100644
--- a/include/uri/icubaby.hpp
+++ b/include/uri/icubaby.hpp
@@ -1723,7 +1723,7 @@ private:
   /// \returns A native-endian 32 bit value.
   [[nodiscard]] constexpr char32_t char32_from_little_endian_buffer (input_type const value) const noexcept {
     return static_cast<char32_t> (
-        (static_cast<std::uint_least32_t> (value << 24U)) | (static_cast<std::uint_least32_t> (buffer_[2]) << 16U) |
+        (static_cast<std::uint_least32_t> (value) << 24U) | (static_cast<std::uint_least32_t> (buffer_[2]) << 16U) |
         (static_cast<std::uint_least32_t> (buffer_[1]) << 8U) | (static_cast<std::uint_least32_t> (buffer_[0])));
   }
 };
-- 
2.43.0


From ff61fcb70206fb063c54a04716cbfac50ba50428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:01 +0000
Subject: [PATCH 10/16] fix: a UTF-16 LE byte order mark followed by U+xx00 is
 recognised

---
 include/uri/icubaby.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/uri/icubaby.hpp b/include/uri/icubaby.hpp
index 1a023cb..50a8ae1 100644
--- a/include/uri/icubaby.hpp
+++ b/include/uri/icubaby.hpp
@@ -1254,6 +1254,16 @@ public:
       break;
 
     case states::utf32_le_bom_byte3:
+      if (value != std::byte{0x00}) {
+        // This isn't a UTF-32 LE BOM but the start of a UTF-16 run whose first code unit is U+xx00.
+        dest = this->run16_start (dest);
+        state_ = states::run_16le_byte1;
+        buffer_[0] = std::byte{0x00};
+        dest = this->run16 (value, dest);
+        break;
+      }
+      [[fallthrough]];
+
     case states::utf32_be_bom_byte3:
       assert (byte_no (state_) == 3);
       buffer_[3] = value;
-- 
2.43.0


From 7b3dda758b2f9b860cbb0e71f293d8698b1ab604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:19 +0000
Subject: [PATCH 11/16] fix: the end of a byte stream is decoded exactly and
 reported if it is cut off

---
 include/uri/icubaby.hpp | 54 ++++++++++++++++++++++++++++-------------
 1 file changed, 37 insertions(+), 17 deletions(-)

diff --git a/include/uri/icubaby.hpp b/include/uri/icubaby.hpp
index 50a8ae1..41b0b92 100644
--- a/include/uri/icubaby.hpp
+++ b/include/uri/icubaby.hpp
@@ -1219,7 +1219,8 @@ public:
     case states::utf8_bom_byte2:
       buffer_[byte_no (state_)] = value;
       // Start decoding as UTF-8. If we have a complete UTF-8 BOM drop it, otherwise copy the buffer to output.
-      dest = this->run8_start (value != details::boms[boms_index_from_state (state_)][byte_no (state_)], dest);
+      dest = this->run8_start (
+          value != details::boms[boms_index_from_state (state_)][byte_no (state_)] ? byte_no (state_) + 1U : 0U, dest);
       break;
 
     case states::utf16_be_bom_byte1:
@@ -1227,7 +1228,7 @@ public:
       // We either have a complete UTF-16 BE BOM in which case we start transcoding or we default to UTF-8 emitting the
       // bytes consumed so far.
       dest = (value == details::boms[boms_index_from_state (state_)][byte_no (state_)]) ? this->run16_start (dest)
-                                                                                        : this->run8_start (true, dest);
+                                                                                        : this->run8_start (byte_no (state_) + 1U, dest);
       break;
 
     case states::utf32_or_16_le_bom_byte2:
@@ -1249,7 +1250,7 @@ public:
         state_ = next_byte (state_);
       } else {
         // Default input encoding. Emit buffer.
-        dest = this->run8_start (true, dest);
+        dest = this->run8_start (byte_no (state_) + 1U, dest);
       }
       break;
 
@@ -1272,7 +1273,7 @@ public:
         state_ = set_run_mode (set_byte (state_, 0));
       } else {
         // Default input encoding. Emit buffer.
-        dest = this->run8_start (true, dest);
+        dest = this->run8_start (byte_no (state_) + 1U, dest);
       }
       break;
 
@@ -1316,11 +1317,32 @@ public:
     if (transcoder_variant_.valueless_by_exception ()) {
       return dest;
     }
+    if (state_ == states::utf32_or_16_le_bom_byte2) {
+      // A UTF-16 LE BOM and nothing else.
+      dest = this->run16_start (dest);
+    } else if (state_ == states::utf32_le_bom_byte3) {
+      // A UTF-16 LE BOM and half of a code unit.
+      dest = this->run16_start (dest);
+      state_ = states::run_16le_byte1;
+    } else if (!is_run_mode (state_)) {
+      // The byte number is the number of bytes received so far.
+      dest = this->run8_start (byte_no (state_), dest);
+    }
+    // True if the input ended part way through a code unit.
+    bool const cut_off = byte_no (state_) != 0;
+    state_ = set_byte (state_, 0);
     return std::visit (
-        [this, &dest] (auto& arg) {
-          if constexpr (std::is_same_v<std::decay_t<decltype (arg)>, std::monostate>) {
-            return this->run8_start (state_ != states::start, dest);
+        [&dest, cut_off] (auto& arg) {
+          using arg_type = std::decay_t<decltype (arg)>;
+          if constexpr (std::is_same_v<arg_type, std::monostate>) {
+            return dest;
           } else {
+            if constexpr (!std::is_same_v<arg_type, t8_type>) {
+              if (cut_off && !arg.partial ()) {
+                // Stand in an ill-formed code unit for the incomplete one.
+                dest = arg (static_cast<typename arg_type::input_type> (first_low_surrogate), dest);
+              }
+            }
             return arg.end_cp (dest);
           }
         },
@@ -1607,7 +1629,7 @@ private:
     } else if (value == std::byte{0x00}) {
       state_ = states::utf32_or_16_be_bom_byte1;
     } else {
-      dest = this->run8_start (true, dest);
+      dest = this->run8_start (byte_no (state_) + 1U, dest);
     }
     return dest;
   }
@@ -1615,21 +1637,19 @@ private:
   /// Switches to the run state in which the input has been determined to be UTF-8 encoded.
   ///
   /// \tparam OutputIterator  An output iterator type to which values of type output_type can be written.
-  /// \param copy_buffer  True if the contents of buffer_ should be copied immediately to the output.
+  /// \param num_bytes  The number of leading bytes of buffer_ which should be copied immediately to the output.
   /// \param dest  An output iterator to which the output sequence is written.
   /// \returns  Iterator one past the last element assigned.
   template <ICUBABY_CONCEPT_OUTPUT_ITERATOR (ToEncoding) OutputIterator>
-  [[nodiscard]] OutputIterator run8_start (bool const copy_buffer, OutputIterator dest) {
+  [[nodiscard]] OutputIterator run8_start (std::size_t const num_bytes, OutputIterator dest) {
     assert (!is_run_mode (state_) && "The FSM should not be in run mode when run8_start is called");
     assert (std::holds_alternative<std::monostate> (transcoder_variant_) &&
             "The variant should hold monostate until the FSM is in run mode");
     auto& trans = transcoder_variant_.template emplace<t8_type> ();
-    if (copy_buffer) {
-      // NOLINTNEXTLINE(llvm-qualified-auto,readability-qualified-auto)
-      auto const first = std::begin (buffer_);
-      (void)std::for_each (first, first + byte_no (state_) + 1,
-                           [&trans, &dest] (std::byte value) { dest = trans (static_cast<char8> (value), dest); });
-    }
+    // NOLINTNEXTLINE(llvm-qualified-auto,readability-qualified-auto)
+    auto const first = std::begin (buffer_);
+    (void)std::for_each (first, first + num_bytes,
+                         [&trans, &dest] (std::byte value) { dest = trans (static_cast<char8> (value), dest); });
     state_ = states::run_8;
     return dest;
   }
@@ -1752,7 +1772,7 @@ constexpr bool transcoder<std::byte, ToEncoding>::partial () const noexcept {
         if constexpr (std::is_same_v<std::decay_t<decltype (arg)>, std::monostate>) {
           return this->state_ != states::start;
         } else {
-          return arg.partial ();
+          return arg.partial () || byte_no (this->state_) != 0;
         }
       },
       transcoder_variant_);
-- 
2.43.0


From 441b690c19205dd5bf97c90c204340cfdb11727f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:38 +0000
Subject: [PATCH 12/16] fix: transcode_view reaches the end exactly once all of
 its output has been produced

The last code point of a single-pass range such as one made from
std::istreambuf_iterator was lost because a copy of an iterator compares equal
to the end as soon as the last code unit has been read. Iterators to different
code units of the same code point compared equal. end_cp() was called again for
every increment past the end of the input.
---
 include/uri/icubaby.hpp | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/include/uri/icubaby.hpp b/include/uri/icubaby.hpp
index 41b0b92..5ea1fd4 100644
--- a/include/uri/icubaby.hpp
+++ b/include/uri/icubaby.hpp
@@ -2151,10 +2151,14 @@ public:
   friend constexpr bool operator== (iterator const& lhs, iterator const& rhs)
     requires std::equality_comparable<std::ranges::iterator_t<View>>
   {
-    return lhs.current_ == rhs.current_ && lhs.parent_ == rhs.parent_;
+    // Several positions share the same value of current_ if a code point yields more than one output code unit. If View
+    // is a single-pass range, current_ may also already equal the end of the view whilst output remains.
+    return lhs.current_ == rhs.current_ && lhs.parent_ == rhs.parent_ && lhs.state_.size () == rhs.state_.size ();
   }
 
 private:
+  friend class sentinel;
+
   /// \brief The state class is responsible for transforming the input values to output code units.
   ///
   /// It maintains a code point's worth of output code units in its internal buffer. These may be accessed by the
@@ -2174,6 +2178,12 @@ private:
       return first_ == last_;
     }
 
+    /// Returns the number of code units in the output buffer.
+    [[nodiscard]] constexpr std::size_t size () const noexcept {
+      assert (first_ <= last_ && last_ <= out_.size () && "first_ and last_ must be valid indexes in the out_ array");
+      return std::size_t{last_} - std::size_t{first_};
+    }
+
     /// Returns the first element from the range of code units forming the current code point.
     [[nodiscard]] constexpr auto& front () const noexcept {
       assert (!this->empty () && "The out_ array must not be empty when front() is called");
@@ -2239,6 +2249,12 @@ constexpr std::ranges::iterator_t<View const> transcode_view<FromEncoding, ToEnc
   auto const out_begin = out_.begin ();
   auto out_it = out_begin;
   auto const input_end = std::ranges::end (parent->base_);
+  if (next_ == input_end) {
+    // The input was exhausted, and the transcoder told so, by an earlier call.
+    first_ = std::uint_least8_t{0};
+    last_ = std::uint_least8_t{0};
+    return result;
+  }
   // Loop until we've produced a code-point's worth of code-units in the out
   // container or we've run out of input.
   while (out_it == out_begin && next_ != input_end) {
@@ -2256,6 +2272,10 @@ constexpr std::ranges::iterator_t<View const> transcode_view<FromEncoding, ToEnc
   }
   first_ = std::uint_least8_t{0};
   last_ = static_cast<std::uint_least8_t> (out_it - out_begin);
+  if (this->empty ()) {
+    // The remaining input did not produce any output: we're at the end.
+    result = next_;
+  }
   return result;
 }
 
@@ -2270,9 +2290,13 @@ public:
   /// \returns The underlying view's end sentinel
   constexpr std::ranges::sentinel_t<View> base () const { return end_; }
   /// \brief Compares and iterator and sentinal for equality.
-  friend constexpr bool operator== (iterator const& lhs, sentinel const& rhs) { return lhs.base () == rhs.end_; }
+  friend constexpr bool operator== (iterator const& lhs, sentinel const& rhs) { return rhs.reached_by (lhs); }
 
 private:
+  /// \param pos  An iterator of the associated view.
+  /// \returns True if \p pos has reached the end of the associated view.
+  constexpr bool reached_by (iterator const& pos) const { return pos.state_.empty () && pos.current_ == end_; }
+
   std::ranges::sentinel_t<View> end_{};  ///< The underlying view's end sentinel
 };
 
-- 
2.43.0


From a698b18c0d468be4579abc24d53a2e52eb201cd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:26 +0000
Subject: [PATCH 13/16] fix: transcode_view can hold all of the output of a
 byte transcoder

A single byte can cause as many as four bytes to be converted at once, but the
view's buffer was only large enough for one code point.
---
 include/uri/icubaby.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/include/uri/icubaby.hpp b/include/uri/icubaby.hpp
index 5ea1fd4..1328d1f 100644
--- a/include/uri/icubaby.hpp
+++ b/include/uri/icubaby.hpp
@@ -2098,6 +2098,18 @@ template <> inline constexpr auto max_output_bytes<char16_t, icubaby::char8> = s
 /// \brief The maximum number of bytes produced by a single code-unit being passed to a transcoder consuming UTF-32.
 template <> inline constexpr auto max_output_bytes<char16_t, char32_t> = std::size_t{2};
 
+/// \brief The maximum number of code units produced by a single byte being passed to a "byte transcoder".
+///
+/// A byte which shows that its predecessors were not a byte order mark causes as many as four bytes to be converted from
+/// UTF-8 at once.
+template <typename ToEncoding> inline constexpr auto max_output_bytes<std::byte, ToEncoding> = std::size_t{4};
+
+/// \brief The maximum number of UTF-8 code units produced by a single byte being passed to a "byte transcoder".
+///
+/// The worst case is std::byte{0x00}, std::byte{0x00}, std::byte{0xFE}, std::byte{0xFE}: the last of these yields two
+/// NUL characters and two REPLACEMENT CHARACTERs.
+template <> inline constexpr auto max_output_bytes<std::byte, icubaby::char8> = std::size_t{8};
+
 /// \brief The iterator type of transcode_view.
 template <unicode_input FromEncoding, unicode_char_type ToEncoding, std::ranges::input_range View>
   requires std::ranges::view<View>
-- 
2.43.0


From 1c3f0694344a9e024d91f5f6c89c354520dc7f11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:46 +0000
Subject: [PATCH 14/16] fix: join() leaves a path of nothing with no segments,
 as split() does

---
 lib/uri/uri.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/uri/uri.cpp b/lib/uri/uri.cpp
index c64c676..1493cc4 100644
--- a/lib/uri/uri.cpp
+++ b/lib/uri/uri.cpp
@@ -987,6 +987,11 @@ parts join (parts const& base, parts const& reference, bool strict) {
     }
     target.scheme = base.scheme;
   }
+  if (!target.authority && !target.path.absolute &&
+      target.path.segments.size () == 1 && target.path.segments[0].empty ()) {
+    // Nothing is left of the path: there is one way to say so.
+    target.path.segments.clear ();
+  }
   target.fragment = reference.fragment;
   return target;
 }
-- 
2.43.0


From 7ab9f78098ec94eeb0fb0be80b46b45933fe0b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:13 +0000
Subject: [PATCH 15/16] fix: threads that share a const transcode_view may all
 walk it

The view's record of whether its input was well formed is written by every
iterator that meets ill-formed input, through a const view: a data race.
---
 include/uri/icubaby.hpp | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/include/uri/icubaby.hpp b/include/uri/icubaby.hpp
index 1328d1f..2432095 100644
--- a/include/uri/icubaby.hpp
+++ b/include/uri/icubaby.hpp
@@ -86,6 +86,7 @@
 
 #include <algorithm>
 #include <array>
+#include <atomic>
 #include <cassert>
 #include <cstddef>
 #include <cstdint>
@@ -2034,6 +2035,28 @@ using tx_32 = transcoder<std::byte, char32_t>;
 
 #if ICUBABY_HAVE_RANGES && ICUBABY_HAVE_CONCEPTS
 
+namespace details {
+
+/// \brief A flag which is initially true and may be cleared at any time by any thread.
+class clearable_flag {
+public:
+  constexpr clearable_flag () noexcept = default;
+  clearable_flag (clearable_flag const& other) noexcept : value_{other.get ()} {}
+  ~clearable_flag () noexcept = default;
+  clearable_flag& operator= (clearable_flag const& other) noexcept {
+    value_.store (other.get (), std::memory_order_relaxed);
+    return *this;
+  }
+
+  [[nodiscard]] bool get () const noexcept { return value_.load (std::memory_order_relaxed); }
+  void clear () noexcept { value_.store (false, std::memory_order_relaxed); }
+
+private:
+  std::atomic<bool> value_{true};
+};
+
+}  // end namespace details
+
 /// \brief icubaby C++ 20 ranges support types.
 namespace ranges {
 
@@ -2074,13 +2097,13 @@ public:
   }
 
   /// \returns True if the input processed was well formed.
-  [[nodiscard]] constexpr bool well_formed () const noexcept { return well_formed_; }
+  [[nodiscard]] constexpr bool well_formed () const noexcept { return well_formed_.get (); }
 
 private:
   /// The underlying view from which input is drawn.
   ICUBABY_NO_UNIQUE_ADDRESS View base_ = View ();
-  /// True if the input consumed is well formed, false otherwise.
-  mutable bool well_formed_ = true;
+  /// True if the input consumed is well formed, false otherwise. Threads that share a const view may each clear it.
+  mutable details::clearable_flag well_formed_;
 };
 
 /// The maximum number of bytes that can be produced by a single code-unit being passed to a transcoder.
@@ -2280,7 +2303,7 @@ constexpr std::ranges::iterator_t<View const> transcode_view<FromEncoding, ToEnc
   }
   assert (out_it >= out_begin && out_it <= out_.end () && "out_ buffer overflow!");
   if (!transcoder_.well_formed ()) {
-    parent->well_formed_ = false;
+    parent->well_formed_.clear ();
   }
   first_ = std::uint_least8_t{0};
   last_ = static_cast<std::uint_least8_t> (out_it - out_begin);
-- 
2.43.0


From e484a524c3cef84b5c233e428625219dbd3628f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:08:05 +0000
Subject: [PATCH 16/16] fix: pctdecode_view: reading an element by moving it
 yields the decoded character

iter_move() returned the underlying element, so that std::move_iterator and
whatever else uses std::ranges::iter_move() saw "%" for an encoded octet.
---
 include/uri/pctdecode.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/uri/pctdecode.hpp b/include/uri/pctdecode.hpp
index 7df41f5..bd15aa6 100644
--- a/include/uri/pctdecode.hpp
+++ b/include/uri/pctdecode.hpp
@@ -185,8 +185,8 @@ public:
   }
 
   friend constexpr std::ranges::range_rvalue_reference_t<View> iter_move (
-    iterator const& it) noexcept (noexcept (std::ranges::iter_move (it.pos_))) {
-    return std::ranges::iter_move (it.pos_);
+    iterator const& it) {
+    return static_cast<std::ranges::range_rvalue_reference_t<View>> (*it);
   }
 
   friend constexpr void iter_swap (
-- 
2.43.0

