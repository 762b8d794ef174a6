// C13: byte streams of unknown encoding, cut, damaged and delivered by arbitrary schedules.
#include "receivers.hpp"

namespace sim {
// This file is compiled three times, once for each output encoding.
std::unique_ptr<Stream> stream8 (Ctx& c);
std::unique_ptr<Stream> stream16 (Ctx& c);
std::unique_ptr<Stream> stream32 (Ctx& c);

namespace {
using icubaby::encoding;

char const* name (encoding e) {
  switch (e) {
  case encoding::utf8: return "utf8";
  case encoding::utf16be: return "utf16be";
  case encoding::utf16le: return "utf16le";
  case encoding::utf32be: return "utf32be";
  case encoding::utf32le: return "utf32le";
  default: return "unknown";
  }
}
std::size_t width (encoding e) {
  return e == encoding::utf8 ? 1 : e == encoding::utf16be || e == encoding::utf16le ? 2 : 4;
}
bool little (encoding e) { return e == encoding::utf16le || e == encoding::utf32le; }

template <typename T> string to_bytes (std::u32string_view cps, bool le) {
  string r;
  for (T const u : utf::encode<T> (cps)) {
    for (std::size_t k = 0; k < sizeof (T); ++k) {
      r += static_cast<char> (static_cast<std::uint32_t> (u) >> (8 * (le ? k : sizeof (T) - 1 - k)));
    }
  }
  return r;
}
string to_bytes (std::u32string_view cps, encoding e) {
  switch (width (e)) {
  case 1: return to_bytes<char8_t> (cps, false);
  case 2: return to_bytes<char16_t> (cps, little (e));
  default: return to_bytes<char32_t> (cps, little (e));
  }
}
// Strictly: the characters before the first error and whether all is well.
template <typename T> utf::Decoded<T> from_bytes (string_view b, bool le) {
  str<T> u;
  for (std::size_t i = 0; i + sizeof (T) <= b.size (); i += sizeof (T)) {
    std::uint32_t v = 0;
    for (std::size_t k = 0; k < sizeof (T); ++k) {
      v |= std::uint32_t{static_cast<unsigned char> (b[i + (le ? k : sizeof (T) - 1 - k)])} << (8 * k);
    }
    u.push_back (static_cast<T> (v));
  }
  auto d = utf::decode (u);
  if (b.size () % sizeof (T) != 0 && d.well_formed) {
    d.well_formed = false;
    d.cut = true;
  }
  return d;
}

template <typename O> struct Bytes {
  using From = std::byte;
  using To = O;
  using T = icubaby::transcoder<From, To>;
  static constexpr bool reusable = false;
  static std::byte odd (Source& s) {
    static unsigned char const v[] = {0xFE, 0xFF, 0xEF, 0xBB, 0xBF, 0x00, 0x41, 0xD8, 0xDC, 0xE2};
    return std::byte{v[s.draw (std::size (v))]};
  }

  string name_;
  encoding sent_as, found;
  std::size_t header = 0;
  std::u32string sent;
  std::vector<std::byte> units;
  std::vector<At> trace;
  std::vector<encoding> selected;
  str<To> out;
  bool well_formed = true;
  std::u32string cps;  // strictly
  bool sound = true, cut = false;

  explicit Bytes (Ctx& c) {
    static encoding const all[] = {encoding::utf8, encoding::utf16be, encoding::utf16le, encoding::utf32be, encoding::utf32le};
    sent_as = all[c.src.draw (std::size (all))];
    bool const mark = sent_as != encoding::utf8 || c.src.draw (2) == 1;
    sent = gen::code_points (c.src, 12);
    if (!sent.empty ()) {
      switch (c.src.draw (8)) {
      case 5: sent[0] = 0xFEFF; break;
      case 6: sent[0] = 0; break;
      case 7: sent[0] = sent_as == encoding::utf8 ? 0xFFFD : 0x100; break;
      default: break;
      }
    }
    string b = (mark ? to_bytes (U"\xFEFF", sent_as) : string{}) + to_bytes (sent, sent_as);
    string what;
    unsigned const how = c.src.draw (5);
    if (how == 2 || how == 3) {
      str<char8_t> d (b.begin (), b.end ());
      utf::damage (c.src, d, &what);
      b.assign (d.begin (), d.end ());
    } else if (how == 4) {
      // Cut off, perhaps within the byte order mark.
      auto const n = c.src.draw (static_cast<std::uint32_t> (c.src.draw (2) == 0 ? std::min<std::size_t> (b.size (), 5) + 1 : b.size () + 1));
      b.resize (std::min<std::size_t> (n, b.size ()));
      what = "cut to " + std::to_string (b.size ());
      stats.add ("fault.stream_cut");
      if (c.src.draw (3) == 2) {
        // What follows belongs to something else.
        unsigned const k = 1 + c.src.draw (6);
        for (unsigned i = 0; i < k; ++i) {
          b += static_cast<char> (odd (c.src));
        }
        what += " and spliced with other bytes";
        stats.add ("fault.stream_spliced");
      }
    }
    for (char const ch : b) {
      units.push_back (static_cast<std::byte> (ch));
    }
    auto starts = [&] (string_view p) { return string_view{b}.substr (0, p.size ()) == p; };
    using namespace std::string_view_literals;
    found = encoding::utf8;
    if (starts ("\xEF\xBB\xBF"sv)) {
      header = 3;
    } else if (starts ("\0\0\xFE\xFF"sv)) {
      found = encoding::utf32be;
      header = 4;
    } else if (starts ("\xFF\xFE\0\0"sv)) {
      found = encoding::utf32le;
      header = 4;
    } else if (starts ("\xFE\xFF"sv)) {
      found = encoding::utf16be;
      header = 2;
    } else if (starts ("\xFF\xFE"sv)) {
      found = encoding::utf16le;
      header = 2;
    }
    string_view const body = string_view{b}.substr (header);
    auto take = [&] (auto d) {
      cps = d.cps;
      sound = d.well_formed;
      cut = d.cut;
    };
    switch (width (found)) {
    case 1: take (from_bytes<char8_t> (body, false)); break;
    case 2: take (from_bytes<char16_t> (body, little (found))); break;
    default: take (from_bytes<char32_t> (body, little (found))); break;
    }
    name_ = string{"bytes->"} + utf::name<To> () + " of " + quote (b);
    c.log (name_ + " sent as " + name (sent_as) + (mark ? " with mark" : "") + (what == "" ? "" : " " + what));
    stats.add (string{"workload.arrived_as_"} + name (found));
    T t;
    auto note = [&] {
      trace.push_back ({out.size (), t.partial (), t.well_formed ()});
      selected.push_back (t.selected_encoding ());
    };
    note ();
    for (auto const u : units) {
      t (u, std::back_inserter (out));
      note ();
    }
    t.end_cp (std::back_inserter (out));
    selected.push_back (t.selected_encoding ());
    well_formed = t.well_formed ();
    judge (c, body);
  }
  string text () const { return name_; }
  void look (Ctx& c, T const& t, std::size_t pos) const {
    if (t.selected_encoding () != selected[pos]) {
      c.fail ("schedule-changes-encoding", text () + ": selected_encoding() after " + std::to_string (pos) + " bytes depends on the schedule");
    }
  }

private:
  void judge (Ctx& c, string_view body) const {
    for (std::size_t i = 0; i < selected.size (); ++i) {
      bool const last = i + 1 == selected.size ();
      if (selected[i] != found && (selected[i] != encoding::unknown || last || (i > 0 && selected[i - 1] == found))) {
        c.fail ("encoding", text () + ": selected_encoding() is " + name (selected[i]) + " after " + std::to_string (i) + " bytes, expected " + name (found));
      }
    }
    if (well_formed != sound) {
      c.fail (sound ? "sound-text-reported" : "damage-unreported", text () + ": well_formed() is " + (well_formed ? "true" : "false"));
    }
    if (sound) {
      stats.add ("probe.sound");
      if (out != utf::encode<To> (cps)) {
        c.fail ("wrong-text", text () + " gave [" + utf::units (out) + "], expected [" + utf::units (utf::encode<To> (cps)) + "]");
      }
    } else {
      stats.add (cut ? "probe.cut_in_mid_character" : "probe.ill_formed");
    }
    auto const d = utf::decode (out);
    if (!d.well_formed) {
      c.fail ("ill-formed-output", text () + " gave the ill-formed [" + utf::units (out) + "]");
    }
    if (d.cps.compare (0, cps.size (), cps) != 0) {
      c.fail ("prefix-lost", text () + " gave [" + utf::units (out) + "], which lost something before the damage");
    }
    if (!sound && d.cps.size () <= cps.size ()) {
      c.fail ("damage-unmarked", text () + " gave [" + utf::units (out) + "], which nothing stands for the damage in");
    }
    // The characters sent last, if they arrived intact and aligned.
    if (found == sent_as) {
      std::size_t same = 0;
      while (same < sent.size ()) {
        auto const longer = to_bytes (std::u32string_view{sent}.substr (sent.size () - same - 1), found);
        if (longer.size () > body.size () || body.substr (body.size () - longer.size ()) != longer || body.size () % width (found) != 0) {
          break;
        }
        ++same;
      }
      if (same > 1) {
        auto const want = sent.substr (sent.size () - (same - 1));
        if (d.cps.size () < want.size () || d.cps.compare (d.cps.size () - want.size (), want.size (), want) != 0) {
          c.fail ("suffix-lost", text () + " gave [" + utf::units (out) + "], which lost more than one character after the damage");
        }
      }
    }
    for (std::size_t i = 1; i < trace.size (); ++i) {
      if (trace[i].well_formed && !trace[i - 1].well_formed) {
        c.fail ("damage-forgotten", text () + ": well_formed() turned true again after " + std::to_string (i) + " bytes");
      }
      if (sound && !trace[i].well_formed) {
        c.fail ("sound-text-reported", text () + ": well_formed() is false after " + std::to_string (i) + " bytes");
      }
    }
    if (cut && !trace.back ().partial) {
      c.fail ("partial", text () + ": partial() is false at the end");
    }
    if (sound && units.size () > 4 && trace.back ().partial) {
      c.fail ("partial", text () + ": partial() is true at the end");
    }
  }
};

template <typename To> std::unique_ptr<Stream> stream (Ctx& c) {
  using M = Bytes<To>;
  switch (c.src.draw (8)) {
  default: return std::make_unique<Feed<M>> (c);
  case 5: return std::make_unique<Walk<M, std::vector<std::byte>>> (c);
  case 6: return std::make_unique<Walk<M, std::forward_list<std::byte>>> (c);
  case 7: return std::make_unique<Walk<M, void>> (c);
  }
}
}  // namespace

#if PART == 16
std::unique_ptr<Stream> stream16 (Ctx& c) { return stream<char16_t> (c); }
#elif PART == 32
std::unique_ptr<Stream> stream32 (Ctx& c) { return stream<char32_t> (c); }
#else
std::unique_ptr<Stream> stream8 (Ctx& c) { return stream<char8_t> (c); }

char const* scenario_name () { return "C13"; }
unsigned scenario_chunk () { return 32; }
void scenario_init () {}

void run_case (Ctx& c) {
  unsigned const n = 1 + c.src.draw (3);
  std::vector<std::pair<char, std::unique_ptr<Stream>>> live;
  for (unsigned i = 0; i < n; ++i) {
    unsigned const to = c.src.draw (3);
    c.mark (to);
    live.emplace_back (static_cast<char> ('A' + i), to == 0 ? stream8 (c) : to == 1 ? stream16 (c) : stream32 (c));
  }
  interleave (c, live);
}
#endif
}  // namespace sim
