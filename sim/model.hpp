// Reference models: small, string based, written from RFC 3986, RFC 3492, the WHATWG URL standard and the Unicode
// standard rather than from the code under test.
#ifndef SIM_MODEL_HPP
#define SIM_MODEL_HPP
#include <cstdint>
#include <optional>
#include <string>
#include <string_view>
#include <vector>

namespace model {
using std::optional;
using std::string;
using std::string_view;

struct Uri {
  optional<string> scheme;
  bool has_authority = false;
  optional<string> userinfo;
  string host;
  optional<string> port;
  string path;
  optional<string> query;
  optional<string> fragment;
  bool operator== (Uri const&) const = default;
};

// --- RFC 3986 syntax ---
inline bool is_digit (char c) { return c >= '0' && c <= '9'; }
inline bool is_alpha (char c) { return (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z'); }
inline bool is_hex (char c) { return is_digit (c) || (c >= 'a' && c <= 'f') || (c >= 'A' && c <= 'F'); }
inline int hex_value (char c) { return is_digit (c) ? c - '0' : (c >= 'a' ? c - 'a' : c - 'A') + 10; }
inline bool is_unreserved (char c) { return is_alpha (c) || is_digit (c) || (c != 0 && string_view{"-._~"}.find (c) != string_view::npos); }
inline bool is_subdelim (char c) { return c != 0 && string_view{"!$&'()*+,;="}.find (c) != string_view::npos; }

// Every octet is unreserved, a sub-delim, one of `extra`, or part of a pct-encoded triplet.
inline bool text_ok (string_view s, string_view extra) {
  for (std::size_t i = 0; i < s.size (); ++i) {
    char const c = s[i];
    if (c == '%') {
      if (i + 2 >= s.size () || !is_hex (s[i + 1]) || !is_hex (s[i + 2])) {
        return false;
      }
      i += 2;
    } else if (!is_unreserved (c) && !is_subdelim (c) && (c == 0 || extra.find (c) == string_view::npos)) {
      return false;
    }
  }
  return true;
}
inline bool scheme_ok (string_view s) {
  if (s.empty () || !is_alpha (s[0])) {
    return false;
  }
  for (char const c : s) {
    if (!is_alpha (c) && !is_digit (c) && c != '+' && c != '-' && c != '.') {
      return false;
    }
  }
  return true;
}
inline bool userinfo_ok (string_view s) { return text_ok (s, ":"); }
inline bool port_ok (string_view s) {
  for (char const c : s) {
    if (!is_digit (c)) {
      return false;
    }
  }
  return true;
}
inline bool path_ok (string_view s) { return text_ok (s, ":@/"); }
inline bool segment_ok (string_view s) { return text_ok (s, ":@"); }
inline bool query_ok (string_view s) { return text_ok (s, ":@/?"); }

inline bool ipv4_ok (string_view s) {
  int parts = 0;
  std::size_t i = 0;
  for (;;) {
    std::size_t j = i;
    while (j < s.size () && is_digit (s[j])) {
      ++j;
    }
    std::size_t const n = j - i;
    if (n == 0 || n > 3 || (n > 1 && s[i] == '0')) {
      return false;
    }
    int v = 0;
    for (std::size_t k = i; k < j; ++k) {
      v = v * 10 + (s[k] - '0');
    }
    if (v > 255) {
      return false;
    }
    ++parts;
    if (j == s.size ()) {
      return parts == 4;
    }
    if (s[j] != '.' || parts == 4) {
      return false;
    }
    i = j + 1;
  }
}
// Counts the 16-bit groups of a colon-separated list; -1 if malformed. Empty text has no groups.
inline int groups (string_view s, bool may_end_in_ipv4) {
  if (s.empty ()) {
    return 0;
  }
  int n = 0;
  std::size_t i = 0;
  for (;;) {
    std::size_t j = s.find (':', i);
    bool const last = j == string_view::npos;
    string_view const g = s.substr (i, last ? string_view::npos : j - i);
    if (last && may_end_in_ipv4 && g.find ('.') != string_view::npos) {
      return ipv4_ok (g) ? n + 2 : -1;
    }
    if (g.empty () || g.size () > 4) {
      return -1;
    }
    for (char const c : g) {
      if (!is_hex (c)) {
        return -1;
      }
    }
    ++n;
    if (last) {
      return n;
    }
    i = j + 1;
  }
}
inline bool ipv6_ok (string_view s) {
  auto const p = s.find ("::");
  if (p == string_view::npos) {
    return groups (s, true) == 8;
  }
  if (s.find ("::", p + 1) != string_view::npos) {
    return false;
  }
  int const a = groups (s.substr (0, p), false);
  int const b = groups (s.substr (p + 2), true);
  return a >= 0 && b >= 0 && a + b <= 7;
}
inline bool ipvfuture_ok (string_view s) {
  if (s.size () < 4 || (s[0] != 'v' && s[0] != 'V')) {
    return false;
  }
  auto const dot = s.find ('.');
  if (dot == string_view::npos || dot < 2 || dot + 1 >= s.size ()) {
    return false;
  }
  for (char const c : s.substr (1, dot - 1)) {
    if (!is_hex (c)) {
      return false;
    }
  }
  return s.substr (dot + 1).find ('%') == string_view::npos && text_ok (s.substr (dot + 1), ":");
}
inline bool host_ok (string_view s) {
  if (!s.empty () && s[0] == '[') {
    if (s.size () < 2 || s.back () != ']') {
      return false;
    }
    auto const in = s.substr (1, s.size () - 2);
    return ipv6_ok (in) || ipvfuture_ok (in);
  }
  return text_ok (s, "");
}

// URI-reference (or only URI).
inline optional<Uri> parse (string_view s, bool allow_relative) {
  Uri u;
  auto const stop = s.find_first_of (":/?#");
  if (stop != string_view::npos && s[stop] == ':') {
    if (!scheme_ok (s.substr (0, stop))) {
      return {};
    }
    u.scheme = string{s.substr (0, stop)};
    s.remove_prefix (stop + 1);
  } else if (!allow_relative) {
    return {};
  }
  if (auto const h = s.find ('#'); h != string_view::npos) {
    u.fragment = string{s.substr (h + 1)};
    s = s.substr (0, h);
  }
  if (auto const q = s.find ('?'); q != string_view::npos) {
    u.query = string{s.substr (q + 1)};
    s = s.substr (0, q);
  }
  if (s.substr (0, 2) == "//") {
    s.remove_prefix (2);
    auto const e = s.find ('/');
    auto a = s.substr (0, e);
    s = e == string_view::npos ? string_view{} : s.substr (e);
    u.has_authority = true;
    if (auto const at = a.find ('@'); at != string_view::npos) {
      u.userinfo = string{a.substr (0, at)};
      a.remove_prefix (at + 1);
    }
    std::size_t from = 0;
    if (!a.empty () && a[0] == '[') {
      from = a.find (']');
      if (from == string_view::npos) {
        return {};
      }
    }
    if (auto const c = a.find (':', from); c != string_view::npos) {
      u.port = string{a.substr (c + 1)};
      a = a.substr (0, c);
    }
    u.host = string{a};
  }
  u.path = string{s};
  if ((u.userinfo && !userinfo_ok (*u.userinfo)) || !host_ok (u.host) || (u.port && !port_ok (*u.port)) ||
      !path_ok (u.path) || (u.query && !query_ok (*u.query)) || (u.fragment && !query_ok (*u.fragment))) {
    return {};
  }
  return u;
}

inline string authority_text (Uri const& u) {
  string r;
  if (u.userinfo) {
    r += *u.userinfo + "@";
  }
  r += u.host;
  if (u.port) {
    r += ":" + *u.port;
  }
  return r;
}
// RFC 3986 section 5.3. A path beginning "//" without an authority would read as one: "/." keeps it a path
// (WHATWG URL serialising; RFC 3986 errata).
inline string compose (Uri const& u) {
  string r;
  if (u.scheme) {
    r += *u.scheme + ":";
  }
  if (u.has_authority) {
    r += "//" + authority_text (u);
    if (!u.path.empty () && u.path[0] != '/') {
      r += '/';
    }
  } else if (u.path.substr (0, 2) == "//") {
    r += "/.";
  }
  r += u.path;
  if (u.query) {
    r += "?" + *u.query;
  }
  if (u.fragment) {
    r += "#" + *u.fragment;
  }
  return r;
}

// RFC 3986 section 5.2.4, literally.
inline string remove_dots (string in) {
  string out;
  auto starts = [&] (char const* p) { return in.rfind (p, 0) == 0; };
  auto pop = [&] {
    auto const p = out.rfind ('/');
    out.erase (p == string::npos ? 0 : p);
  };
  while (!in.empty ()) {
    if (starts ("../")) {
      in.erase (0, 3);
    } else if (starts ("./")) {
      in.erase (0, 2);
    } else if (starts ("/./")) {
      in.erase (0, 2);
    } else if (in == "/.") {
      in = "/";
    } else if (starts ("/../")) {
      in.erase (0, 3);
      pop ();
    } else if (in == "/..") {
      in = "/";
      pop ();
    } else if (in == "." || in == "..") {
      in.clear ();
    } else {
      auto const p = in.find ('/', 1);
      out += in.substr (0, p);
      in.erase (0, p == string::npos ? in.size () : p);
    }
  }
  return out;
}
// RFC 3986 section 5.2.2 and 5.2.3.
inline Uri resolve (Uri const& base, Uri const& ref, bool strict) {
  Uri t;
  bool const use_scheme = ref.scheme && !(!strict && ref.scheme == base.scheme);
  auto authority_from = [&] (Uri const& u) {
    t.has_authority = u.has_authority;
    t.userinfo = u.userinfo;
    t.host = u.host;
    t.port = u.port;
  };
  t.scheme = use_scheme ? ref.scheme : base.scheme;
  t.fragment = ref.fragment;
  if (use_scheme || ref.has_authority) {
    authority_from (ref);
    t.path = remove_dots (ref.path);
    t.query = ref.query;
    return t;
  }
  authority_from (base);
  if (ref.path.empty ()) {
    t.path = base.path;
    t.query = ref.query ? ref.query : base.query;
    return t;
  }
  t.query = ref.query;
  if (ref.path[0] == '/') {
    t.path = remove_dots (ref.path);
  } else if (base.has_authority && base.path.empty ()) {
    t.path = remove_dots ("/" + ref.path);
  } else {
    auto const p = base.path.rfind ('/');
    t.path = remove_dots ((p == string::npos ? string{} : base.path.substr (0, p + 1)) + ref.path);
  }
  return t;
}

// --- percent encoding ---
enum Set { s_fragment, s_query, s_special_query, s_path, s_userinfo, s_component, s_form, s_none };
// WHATWG percent-encode sets. This library additionally always encodes '%', so that decoding inverts encoding; and
// its path set predates the addition of '^'.
inline bool pct_needed (unsigned char c, Set set) {
  if (c <= 0x20 || c > 0x7E) {
    return true;
  }
  auto in = [&] (char const* s) { return string_view{s}.find (static_cast<char> (c)) != string_view::npos; };
  if (set == s_none) {
    return false;
  }
  if (c == '%') {
    return true;
  }
  switch (set) {
  case s_fragment: return in ("\"<>");  // The URL standard now has U+0060 too; the existing tests fix the older set.
  case s_query: return in ("\"#<>");
  case s_special_query: return in ("\"#<>'");
  case s_path: return in ("\"#<>?`{}");
  case s_userinfo: return in ("\"#<>?`{}/:;=@[\\]^|");
  case s_component: return in ("\"#<>?`{}/:;=@[\\]^|$&+,");
  case s_form: return in ("\"#<>?`{}/:;=@[\\]^|$&+,!'()~");
  default: return false;
  }
}
inline string pct_encode (string_view s, Set set) {
  static char const hex[] = "0123456789ABCDEF";
  string r;
  for (char const ch : s) {
    auto const c = static_cast<unsigned char> (ch);
    if (pct_needed (c, set)) {
      r += '%';
      r += hex[c >> 4U];
      r += hex[c & 15U];
    } else {
      r += ch;
    }
  }
  return r;
}
inline string pct_decode (string_view s) {
  string r;
  for (std::size_t i = 0; i < s.size (); ++i) {
    if (s[i] == '%' && i + 2 < s.size () && is_hex (s[i + 1]) && is_hex (s[i + 2])) {
      r += static_cast<char> (hex_value (s[i + 1]) * 16 + hex_value (s[i + 2]));
      i += 2;
    } else {
      r += s[i];
    }
  }
  return r;
}

// --- UTF ---
using Cps = std::u32string;
inline bool scalar (char32_t c) { return c < 0xD800 || (c > 0xDFFF && c <= 0x10FFFF); }
template <typename Out> void utf8_put (char32_t c, Out& o) {
  using T = typename Out::value_type;
  if (c < 0x80) {
    o.push_back (static_cast<T> (c));
  } else if (c < 0x800) {
    o.push_back (static_cast<T> (0xC0U | (c >> 6U)));
    o.push_back (static_cast<T> (0x80U | (c & 0x3FU)));
  } else if (c < 0x10000) {
    o.push_back (static_cast<T> (0xE0U | (c >> 12U)));
    o.push_back (static_cast<T> (0x80U | ((c >> 6U) & 0x3FU)));
    o.push_back (static_cast<T> (0x80U | (c & 0x3FU)));
  } else {
    o.push_back (static_cast<T> (0xF0U | (c >> 18U)));
    o.push_back (static_cast<T> (0x80U | ((c >> 12U) & 0x3FU)));
    o.push_back (static_cast<T> (0x80U | ((c >> 6U) & 0x3FU)));
    o.push_back (static_cast<T> (0x80U | (c & 0x3FU)));
  }
}
template <typename Out> void utf16_put (char32_t c, Out& o) {
  using T = typename Out::value_type;
  if (c < 0x10000) {
    o.push_back (static_cast<T> (c));
  } else {
    c -= 0x10000;
    o.push_back (static_cast<T> (0xD800 + (c >> 10U)));
    o.push_back (static_cast<T> (0xDC00 + (c & 0x3FFU)));
  }
}
inline string to_utf8 (std::u32string_view s) {
  string r;
  for (auto const c : s) {
    utf8_put (c, r);
  }
  return r;
}
// Strict decoding (Unicode table 3-7).
inline optional<Cps> from_utf8 (string_view s) {
  Cps r;
  for (std::size_t i = 0; i < s.size ();) {
    auto const b = [&] (std::size_t k) { return static_cast<unsigned char> (s[k]); };
    unsigned const c = b (i);
    unsigned n = 0;
    char32_t v = 0;
    if (c < 0x80) {
      v = c;
    } else if (c >= 0xC2 && c <= 0xDF) {
      n = 1;
      v = c & 0x1FU;
    } else if (c >= 0xE0 && c <= 0xEF) {
      n = 2;
      v = c & 0x0FU;
    } else if (c >= 0xF0 && c <= 0xF4) {
      n = 3;
      v = c & 0x07U;
    } else {
      return {};
    }
    if (i + n >= s.size ()) {
      return {};
    }
    for (unsigned k = 1; k <= n; ++k) {
      if ((b (i + k) & 0xC0U) != 0x80U) {
        return {};
      }
      v = (v << 6U) | (b (i + k) & 0x3FU);
    }
    if ((n == 2 && v < 0x800) || (n == 3 && v < 0x10000) || !scalar (v)) {
      return {};
    }
    r += v;
    i += n + 1;
  }
  return r;
}

// --- Punycode (RFC 3492 section 6, with wide arithmetic) ---
inline std::uint64_t puny_adapt (unsigned __int128 delta, std::uint64_t numpoints, bool first) {
  delta = first ? delta / 700 : delta / 2;
  delta += delta / numpoints;
  std::uint64_t k = 0;
  while (delta > 455) {
    delta /= 35;
    k += 36;
  }
  return k + static_cast<std::uint64_t> (36 * delta / (delta + 38));
}
inline string puny_encode (Cps const& in) {
  string out;
  for (auto const c : in) {
    if (c < 0x80) {
      out += static_cast<char> (c);
    }
  }
  std::uint64_t const b = out.size ();
  std::uint64_t h = b;
  if (b > 0) {
    out += '-';
  }
  unsigned __int128 delta = 0;
  std::uint64_t bias = 72;
  char32_t n = 0x80;
  auto digit = [] (std::uint64_t d) { return static_cast<char> (d < 26 ? 'a' + d : '0' + (d - 26)); };
  while (h < in.size ()) {
    char32_t m = 0xFFFFFFFF;
    for (auto const c : in) {
      if (c >= n && c < m) {
        m = c;
      }
    }
    delta += static_cast<unsigned __int128> (m - n) * (h + 1);
    n = m;
    for (auto const c : in) {
      if (c < n) {
        ++delta;
      }
      if (c == n) {
        unsigned __int128 q = delta;
        for (std::uint64_t k = 36;; k += 36) {
          std::uint64_t const t = k <= bias ? 1 : (k >= bias + 26 ? 26 : k - bias);
          if (q < t) {
            break;
          }
          out += digit (static_cast<std::uint64_t> (t + (q - t) % (36 - t)));
          q = (q - t) / (36 - t);
        }
        out += digit (static_cast<std::uint64_t> (q));
        bias = puny_adapt (delta, h + 1, h == b);
        delta = 0;
        ++h;
      }
    }
    ++delta;
    ++n;
  }
  return out;
}
// nullopt: not decodable to Unicode scalar values (what an implementation reports then is not modelled).
inline optional<Cps> puny_decode (string_view s, bool* malformed = nullptr) {
  Cps out;
  auto bad = [&] {
    if (malformed != nullptr) {
      *malformed = true;  // not Punycode at all, rather than Punycode for something out of range
    }
  };
  auto const d = s.rfind ('-');
  std::size_t i = 0;
  if (d != string_view::npos) {
    for (char const c : s.substr (0, d)) {
      if (static_cast<unsigned char> (c) >= 0x80) {
        bad ();
        return {};
      }
      out += static_cast<char32_t> (c);
    }
    i = d + 1;
  }
  unsigned __int128 n = 0x80;
  unsigned __int128 idx = 0;
  std::uint64_t bias = 72;
  while (i < s.size ()) {
    unsigned __int128 const old = idx;
    unsigned __int128 w = 1;
    for (std::uint64_t k = 36;; k += 36) {
      if (i >= s.size ()) {
        bad ();
        return {};
      }
      char const c = s[i++];
      std::uint64_t digit = 36;
      if (is_digit (c)) {
        digit = static_cast<std::uint64_t> (c - '0') + 26;
      } else if (is_alpha (c)) {
        digit = static_cast<std::uint64_t> ((c | 0x20) - 'a');
      }
      if (digit >= 36) {
        bad ();
        return {};
      }
      idx += digit * w;
      if (idx > 0xFFFFFFFFFFULL) {
        return {};
      }
      std::uint64_t const t = k <= bias ? 1 : (k >= bias + 26 ? 26 : k - bias);
      if (digit < t) {
        break;
      }
      w *= 36 - t;
      if (w > 0xFFFFFFFFFFFFULL) {
        w = 0xFFFFFFFFFFFFULL;
      }
    }
    std::uint64_t const len = out.size () + 1;
    bias = puny_adapt (idx - old, len, old == 0);
    n += idx / len;
    idx %= len;
    if (n > 0x10FFFF || !scalar (static_cast<char32_t> (n))) {
      return {};
    }
    out.insert (static_cast<std::size_t> (idx), 1, static_cast<char32_t> (n));
    ++idx;
  }
  return out;
}
inline std::vector<string> labels (string_view host) {
  std::vector<string> r;
  std::size_t i = 0;
  for (;;) {
    auto const d = host.find ('.', i);
    r.emplace_back (host.substr (i, d == string_view::npos ? d : d - i));
    if (d == string_view::npos) {
      return r;
    }
    i = d + 1;
  }
}
// host must be well-formed UTF-8
inline string host_encode (string_view host) {
  string r;
  bool first = true;
  for (auto const& l : labels (host)) {
    if (!first) {
      r += '.';
    }
    first = false;
    auto const cps = *from_utf8 (l);
    bool non_ascii = false;
    for (auto const c : cps) {
      non_ascii = non_ascii || c >= 0x80;
    }
    r += non_ascii ? "xn--" + puny_encode (cps) : l;
  }
  return r;
}
inline optional<string> host_decode (string_view host, bool* malformed = nullptr) {
  string r;
  bool first = true;
  for (auto const& l : labels (host)) {
    if (!first) {
      r += '.';
    }
    first = false;
    if (l.rfind ("xn--", 0) == 0) {
      auto const d = puny_decode (string_view{l}.substr (4), malformed);
      if (!d) {
        return {};
      }
      r += to_utf8 (*d);
    } else {
      r += l;
    }
  }
  return r;
}

}  // namespace model
#endif
