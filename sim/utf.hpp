// Reference decoding of UTF-8, UTF-16 and UTF-32 (Unicode 15, chapter 3), and damage to encoded text.
#ifndef SIM_UTF_HPP
#define SIM_UTF_HPP
#include "core.hpp"
#include "gen.hpp"
#include "model.hpp"

namespace utf {
using sim::Source;
using std::string;
template <typename T> using str = std::basic_string<T>;

template <typename T> char const* name () { return sizeof (T) == 1 ? "utf8" : sizeof (T) == 2 ? "utf16" : "utf32"; }

template <typename T> void put (char32_t c, str<T>& r) {
  if constexpr (sizeof (T) == 1) {
    model::utf8_put (c, r);
  } else if constexpr (sizeof (T) == 2) {
    model::utf16_put (c, r);
  } else {
    r.push_back (static_cast<T> (c));
  }
}
template <typename T> str<T> encode (std::u32string_view cps) {
  str<T> r;
  for (auto const c : cps) {
    put (c, r);
  }
  return r;
}
template <typename T> string units (str<T> const& s) {
  string r;
  char b[12];
  for (auto const c : s) {
    std::snprintf (b, sizeof b, "%x ", static_cast<unsigned> (c));
    r += b;
  }
  if (!r.empty ()) {
    r.pop_back ();
  }
  return r;
}

// The number of units of the well-formed sequence at s[i], 0 if there is none, -1 if the text ends within one.
template <typename T> int sequence (str<T> const& s, std::size_t i, char32_t* cp) {
  auto const u = static_cast<std::uint32_t> (s[i]);
  if constexpr (sizeof (T) == 4) {
    *cp = u;
    return model::scalar (u) ? 1 : 0;
  } else if constexpr (sizeof (T) == 2) {
    if (u < 0xD800 || u > 0xDFFF) {
      *cp = u;
      return 1;
    }
    if (u > 0xDBFF) {
      return 0;
    }
    if (i + 1 == s.size ()) {
      return -1;
    }
    auto const v = static_cast<std::uint32_t> (s[i + 1]);
    if (v < 0xDC00 || v > 0xDFFF) {
      return 0;
    }
    *cp = 0x10000 + ((u - 0xD800) << 10U) + (v - 0xDC00);
    return 2;
  } else {
    if (u < 0x80) {
      *cp = u;
      return 1;
    }
    std::uint32_t lo = 0x80;
    std::uint32_t hi = 0xBF;
    int n = 0;
    char32_t c = 0;
    if (u >= 0xC2 && u <= 0xDF) {
      n = 2;
      c = u & 0x1FU;
    } else if (u >= 0xE0 && u <= 0xEF) {
      n = 3;
      c = u & 0x0FU;
      lo = u == 0xE0 ? 0xA0 : lo;
      hi = u == 0xED ? 0x9F : hi;
    } else if (u >= 0xF0 && u <= 0xF4) {
      n = 4;
      c = u & 0x07U;
      lo = u == 0xF0 ? 0x90 : lo;
      hi = u == 0xF4 ? 0x8F : hi;
    } else {
      return 0;
    }
    for (int k = 1; k < n; ++k) {
      if (i + static_cast<std::size_t> (k) == s.size ()) {
        return -1;
      }
      auto const v = static_cast<std::uint32_t> (static_cast<unsigned char> (s[i + static_cast<std::size_t> (k)]));
      if (v < lo || v > hi) {
        return 0;
      }
      c = (c << 6U) | (v & 0x3FU);
      lo = 0x80;
      hi = 0xBF;
    }
    *cp = c;
    return n;
  }
}
template <typename T> struct Decoded {
  std::u32string cps;      // the characters before the first error
  std::size_t used = 0;    // the units they occupy
  bool well_formed = true; // all of it
  bool cut = false;        // it ends within a character, and has no other error
};
template <typename T> Decoded<T> decode (str<T> const& s) {
  Decoded<T> d;
  while (d.used < s.size ()) {
    char32_t c = 0;
    int const n = sequence (s, d.used, &c);
    if (n <= 0) {
      d.well_formed = false;
      d.cut = n < 0;
      break;
    }
    d.cps.push_back (c);
    d.used += static_cast<std::size_t> (n);
  }
  return d;
}

template <typename T> T odd_unit (Source& s) {
  if constexpr (sizeof (T) == 1) {
    static unsigned char const v[] = {0x80, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xED, 0xEF, 0xF0, 0xF4, 0xF5, 0xFF, 0xA0, 0x9F, 0x90, 0x8F, 0x00, 0x7F, 0xFE, 0xBB};
    return static_cast<T> (v[s.draw (std::size (v))]);
  } else if constexpr (sizeof (T) == 2) {
    static std::uint16_t const v[] = {0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0xFFFF, 0x0000, 0xFEFF, 0xFFFE, 0xD7FF, 0xE000, 0xFFFD};
    return static_cast<T> (v[s.draw (std::size (v))]);
  } else {
    static std::uint32_t const v[] = {0xD800, 0xDBFF, 0xDC00, 0xDFFF, 0x10FFFF, 0x110000, 0xFFFFFFFF, 0x80000041, 0x200041, 0xFEFF, 0xFFFE0000, 0, 0xE000, 0xFFFF};
    return static_cast<T> (v[s.draw (std::size (v))]);
  }
}
// What a channel may do to a text.  Returns how many faults it injected.
template <typename T> unsigned damage (Source& s, str<T>& d, string* what) {
  unsigned const n = 1 + s.small (3);
  unsigned done = 0;
  for (unsigned k = 0; k < n; ++k) {
    if (d.empty ()) {
      break;
    }
    auto const at = s.draw (static_cast<std::uint32_t> (d.size ()));
    auto const span = std::min<std::size_t> (1 + s.small (4), d.size () - at);
    char const* kind = "";
    switch (s.draw (6)) {
    case 0:
      kind = "lost";
      d.erase (at, span);
      break;
    case 1: {
      kind = "truncated";
      d.erase (d.size () - std::min<std::size_t> (span, d.size ()));
      break;
    }
    case 2: {
      kind = "repeated";
      str<T> const r = d.substr (at, span);
      d.insert (at, r);
      break;
    }
    case 3:
      kind = "altered";
      d[at] = odd_unit<T> (s);
      break;
    case 4: {
      kind = "bit_flipped";
      d[at] = static_cast<T> (static_cast<std::uint32_t> (d[at]) ^ (std::uint32_t{1} << s.draw (8 * sizeof (T))));
      break;
    }
    default: {
      kind = "inserted";
      T const u = odd_unit<T> (s);
      d.insert (d.begin () + at, u);
      break;
    }
    }
    ++done;
    sim::stats.add (string{"fault.unit_"} + kind, 1);
    *what += string{*what == "" ? "" : ", "} + kind + " at " + std::to_string (at);
  }
  return done;
}
}  // namespace utf
#endif
