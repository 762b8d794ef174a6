// Workload generators.  Swarm style: each run draws which features it uses.
#ifndef SIM_GEN_HPP
#define SIM_GEN_HPP
#include <string>
#include <vector>

#include "core.hpp"
#include "model.hpp"

namespace gen {
using sim::Source;
using std::string;

struct Swarm {
  bool pct, odd_chars, long_text, many_segments, dots, empties, ip, userinfo, port, upper, high;
  unsigned max_segments;
  explicit Swarm (Source& s) {
    auto const f = s.draw (2048);
    pct = (f & 1U) != 0;
    odd_chars = (f & 2U) != 0;
    long_text = (f & 4U) != 0 && (f & 8U) != 0;
    many_segments = (f & 16U) != 0 && (f & 32U) != 0;
    dots = (f & 64U) != 0;
    empties = (f & 128U) != 0;
    ip = (f & 256U) != 0;
    userinfo = (f & 512U) != 0;
    port = (f & 512U) != 0;
    upper = (f & 1024U) != 0;
    high = false;
    max_segments = many_segments ? 40 : 5;
  }
};

// A character of the RFC component classes.
inline char text_char (Source& s, Swarm const& w, char const* extra) {
  static char const lower[] = "abcdefghijklmnopqrstuvwxyz0123456789";
  switch (s.draw (w.odd_chars ? 4 : (w.upper ? 2 : 1))) {
  case 0: return lower[s.draw (36)];
  case 1: return static_cast<char> ('A' + s.draw (26));
  case 2: {
    static char const od[] = "-._~!$&'()*+,;=";
    return od[s.draw (15)];
  }
  default: {
    auto const n = static_cast<std::uint32_t> (std::strlen (extra));
    return n == 0 ? 'x' : extra[s.draw (n)];
  }
  }
}
inline string text (Source& s, Swarm const& w, char const* extra, unsigned min = 0) {
  string r;
  unsigned const n = min + s.small (w.long_text ? 120 : 8);
  for (unsigned i = 0; i < n; ++i) {
    if (w.pct && s.chance (1, 6)) {
      static char const hex[] = "0123456789ABCDEFabcdef";
      r += '%';
      r += hex[s.draw (22)];
      r += hex[s.draw (22)];
    } else {
      r += text_char (s, w, extra);
    }
  }
  return r;
}
inline string scheme (Source& s, Swarm const& w) {
  static std::vector<string> const common{"s", "http", "a+b-c.d0", "urn", "file", "HTTP", "mailto"};
  if (s.draw (3) != 2) {
    return s.pick (common);
  }
  string r{static_cast<char> ('a' + s.draw (26))};
  unsigned const n = s.small (10);
  for (unsigned i = 0; i < n; ++i) {
    static char const c[] = "abz09+-.AZ";
    r += c[s.draw (10)];
  }
  (void)w;
  return r;
}
inline string dec_octet (Source& s) {
  static std::vector<string> const v{"1", "0", "9", "10", "99", "100", "199", "200", "249", "250", "255"};
  return s.pick (v);
}
inline string ipv4 (Source& s) {
  return dec_octet (s) + "." + dec_octet (s) + "." + dec_octet (s) + "." + dec_octet (s);
}
inline string h16 (Source& s) {
  static char const hex[] = "0123456789abcdefABCDEF";
  string r;
  unsigned const n = 1 + s.draw (4);
  for (unsigned i = 0; i < n; ++i) {
    r += hex[s.draw (22)];
  }
  return r;
}
inline string ipv6 (Source& s) {
  bool const elide = s.draw (2) == 0;
  bool const v4 = s.draw (3) == 2;
  unsigned const total = elide ? s.draw (8) : 8;
  unsigned const left = elide ? s.draw (total + 1) : 0;
  string r;
  auto list = [&] (unsigned n, bool tail) {
    string l;
    for (unsigned i = 0; i < n; ++i) {
      if (i > 0) {
        l += ':';
      }
      if (tail && v4 && i + 2 == n) {
        l += ipv4 (s);
        break;
      }
      l += h16 (s);
    }
    return l;
  };
  if (!elide) {
    return list (8, true);
  }
  r = list (left, false) + "::";
  return r + list (total - left, true);
}
inline string host (Source& s, Swarm const& w) {
  if (w.ip) {
    switch (s.draw (6)) {
    case 0: return ipv4 (s);
    case 1: return "[" + ipv6 (s) + "]";
    case 2: return "[v" + string{"0123456789abcdefABCDEF"[s.draw (22)]} + "." + text_char (s, w, ":") + "x:]";
    case 3: return ipv4 (s) + text (s, w, "");  // reg-name beginning like an address
    case 4: return dec_octet (s) + "." + dec_octet (s) + "." + dec_octet (s) + "." + std::to_string (s.draw (1000));
    default: break;
    }
  }
  static std::vector<string> const common{"h", "example.com", "a.b.c", "EXAMPLE.org"};
  if (s.draw (2) == 0) {
    return s.pick (common);
  }
  return text (s, w, "");
}
inline string segment (Source& s, Swarm const& w, unsigned min = 0) {
  if (w.dots) {
    switch (s.draw (5)) {
    case 1: return ".";
    case 2: return "..";
    case 3: {
      static std::vector<string> const near{"...", ".a", "a.", "..a", "%2e", ".%2E", "%2e%2e", ". .", "a..b"};
      auto r = s.pick (near);
      return r == ". ." ? string{"._."} : r;
    }
    default: break;
    }
  }
  if (w.empties && min == 0 && s.draw (3) == 2) {
    return "";
  }
  return text (s, w, ":@", min > 0 ? min : 1);
}
// "/seg/seg..." possibly empty
inline string abempty (Source& s, Swarm const& w) {
  string r;
  unsigned const n = s.small (w.max_segments);
  for (unsigned i = 0; i < n; ++i) {
    r += "/" + segment (s, w);
  }
  return r;
}
inline string authority (Source& s, Swarm const& w) {
  string r;
  if (w.userinfo && s.draw (2) == 1) {
    r += text (s, w, ":") + "@";
  }
  r += host (s, w);
  if (w.port && s.draw (2) == 1) {
    unsigned const n = s.draw (6);
    r += ":";
    for (unsigned i = 0; i < n; ++i) {
      r += static_cast<char> ('0' + s.draw (10));
    }
  }
  return r;
}
inline string query_fragment (Source& s, Swarm const& w) {
  string r;
  auto const f = s.draw (4);
  if ((f & 1U) != 0) {
    r += "?" + text (s, w, ":@/?");
  }
  if ((f & 2U) != 0) {
    r += "#" + text (s, w, ":@/?");
  }
  return r;
}
inline string rootless (Source& s, Swarm const& w, bool colon_ok) {
  string first = segment (s, w, 1);
  if (!colon_ok) {
    for (auto& c : first) {
      if (c == ':') {
        c = ';';
      }
    }
  }
  return first + abempty (s, w);
}
inline string path_no_authority (Source& s, Swarm const& w, bool colon_ok) {
  switch (s.draw (4)) {
  case 0: return "/" + (s.draw (3) == 2 ? string{} : rootless (s, w, true));
  case 1: return rootless (s, w, colon_ok);
  case 2: return "";
  default: return "/" + rootless (s, w, true);
  }
}
// A URI: always accepted by RFC 3986.
inline string uri (Source& s, Swarm const& w) {
  string r = scheme (s, w) + ":";
  if (s.draw (3) != 2) {
    r += "//" + authority (s, w) + abempty (s, w);
  } else {
    r += path_no_authority (s, w, true);
  }
  return r + query_fragment (s, w);
}
inline string relative (Source& s, Swarm const& w) {
  string r;
  if (s.draw (5) == 4) {
    r += "//" + authority (s, w) + abempty (s, w);
  } else {
    r += path_no_authority (s, w, false);
  }
  return r + query_fragment (s, w);
}
inline string reference (Source& s, Swarm const& w) { return s.draw (4) == 3 ? uri (s, w) : relative (s, w); }

// Edits text at random: the result is usually near the edge of the language.
inline string mutate (Source& s, string t, bool high = true) {
  static char const near[] = ":/?#[]@%.-_~!$&'()*+,;=09azAZfFgGvV \"<>\\^`{|}\n\t";
  unsigned const n = 1 + s.small (4);
  for (unsigned k = 0; k < n; ++k) {
    auto const pos = s.draw (static_cast<std::uint32_t> (t.size ()) + 1);
    auto ch = [&] () -> char {
      if (high && s.draw (8) == 7) {
        return static_cast<char> (s.draw (256));
      }
      return near[s.draw (sizeof near - 1)];
    };
    switch (s.draw (6)) {
    case 0: t.insert (pos, 1, ch ()); break;
    case 1:
      if (pos < t.size ()) {
        t[pos] = ch ();
      }
      break;
    case 2:
      if (pos < t.size ()) {
        t.erase (pos, 1 + s.small (3));
      }
      break;
    case 3:
      if (pos < t.size ()) {
        auto const len = 1 + s.small (6);
        t.insert (s.draw (static_cast<std::uint32_t> (t.size ()) + 1), t.substr (pos, len));
      }
      break;
    case 4: t.resize (pos); break;
    default:
      if (pos + 1 < t.size ()) {
        std::swap (t[pos], t[pos + 1]);
      }
      break;
    }
  }
  return t;
}
// Damages a few octets beside the delimiters of a text, or within what seems to be an address or an escape.
inline string garble (Source& s, string t) {
  unsigned const n = 1 + s.draw (3);
  for (unsigned k = 0; k < n; ++k) {
    std::vector<std::uint32_t> at;
    for (std::uint32_t i = 0; i < t.size (); ++i) {
      if (std::strchr (":/?#[]@%.", t[i]) != nullptr || (t[i] >= '0' && t[i] <= '9')) {
        at.push_back (i);
      }
    }
    std::size_t pos = at.empty () ? 0 : s.pick (at) + s.draw (3);
    pos = std::min (pos, t.size ());
    auto same_kind = [&] (char c) -> char {
      static char const digits[] = "0125689";
      static char const hex[] = "09afAFgG";
      static char const delim[] = ":/?#[]@%.";
      if (c >= '0' && c <= '9') {
        return digits[s.draw (7)];
      }
      if ((c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z')) {
        return hex[s.draw (8)];
      }
      return delim[s.draw (9)];
    };
    char const c = pos < t.size () ? t[pos] : 'a';
    switch (s.draw (5)) {
    case 0: t.insert (pos, 1, c); break;
    case 1: t.insert (pos, 1, same_kind (c)); break;
    case 2:
      if (pos < t.size ()) {
        t[pos] = same_kind (c);
      }
      break;
    case 3:
      if (pos < t.size ()) {
        t.erase (pos, 1);
      }
      break;
    default: {
      auto const from = at.empty () ? 0 : s.pick (at);
      t.insert (pos, t.substr (from, 1 + s.draw (5)));
      break;
    }
    }
  }
  return t;
}
inline string bytes (Source& s, unsigned max) {
  string r;
  unsigned const n = s.small (max);
  for (unsigned i = 0; i < n; ++i) {
    static char const near[] = "a%25Ff0 /?#:@[]\"<>`{}";
    switch (s.draw (5)) {
    case 0:
    case 1: r += near[s.draw (sizeof near - 1)]; break;
    case 2: {
      // A percent sign followed by hexadecimal digits or their neighbours.
      static char const hex[] = "0189aAbBfFgG/:@`%";
      r += '%';
      r += hex[s.draw (sizeof hex - 1)];
      r += hex[s.draw (sizeof hex - 1)];
      break;
    }
    default: r += static_cast<char> (s.draw (256)); break;
    }
  }
  return r;
}
inline char32_t code_point (Source& s) {
  static std::vector<char32_t> const edge{0x7F,   0x80,   0x7FF,  0x800,   0xD7FF,  0xE000,
                                          0xFFFD, 0xFFFF, 0x10000, 0x10FFFF, 0xFEFF,  0xE9,
                                          0,      0x7E,   '-',    'A',     '0',     0xFFF,
                                          0x1000, 0xFFFE, 0x3FFFF, 0x40000, 0xFFFFF, 0x100000};
  switch (s.draw (5)) {
  case 0: return U'a' + s.draw (26);
  case 1: return 0x80 + s.draw (0x780);
  case 2: return 0x800 + s.draw (0xD000);
  case 3: return s.pick (edge);
  default: return 0x10000 + s.draw (0x100000);
  }
}
inline std::u32string code_points (Source& s, unsigned max) {
  std::u32string r;
  unsigned const n = s.small (max);
  for (unsigned i = 0; i < n; ++i) {
    r += code_point (s);
    if (s.draw (12) == 11) {
      // The same several times.
      r.append (s.small (std::min (12U, n)), r.back ());
      r.resize (std::min<std::size_t> (r.size (), max));
    }
  }
  return r;
}
// A host name in Unicode: labels of ASCII or mixed text.
inline string unicode_host (Source& s) {
  string r;
  unsigned const n = s.draw (32) == 31 ? 1 + s.draw (60) : 1 + s.draw (4);
  unsigned const long_label = s.draw (64) == 63 ? s.draw (n) : n;
  for (unsigned i = 0; i < n; ++i) {
    if (i > 0) {
      r += '.';
    }
    if (i == long_label) {
      // The number of characters and the gaps between them are multiplied: these can exceed 32 bits.
      std::u32string cps (s.draw (2) == 0 ? s.draw (8000) : s.small (1000), U'a' + s.draw (26));
      for (unsigned k = 1 + s.draw (3); k > 0; --k) {
        auto const at = s.small (static_cast<std::uint32_t> (cps.size ()));
        char32_t const c = s.draw (2) == 0 ? 0x10FFFF - s.draw (0x10000) : code_point (s);
        cps.insert (cps.begin () + static_cast<std::ptrdiff_t> (at), c < 0x80 ? U'z' : c);
      }
      r += model::to_utf8 (cps);
    } else if (s.draw (2) == 0) {
      static std::vector<string> const l{"a", "www", "example", "", "x-y", "A1", "-"};
      r += s.pick (l);
    } else {
      std::u32string cps;
      unsigned const k = 1 + s.small (20);
      for (unsigned j = 0; j < k; ++j) {
        char32_t c = code_point (s);
        if (c < 0x80) {
          c = U'a' + c % 26;
        }
        cps += c;
      }
      r += model::to_utf8 (cps);
    }
  }
  return r;
}

}  // namespace gen
#endif
