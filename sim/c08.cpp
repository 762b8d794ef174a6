// C08: several texts cross a channel which damages them, and are transcoded while their schedules interleave.
#include "receivers.hpp"

namespace sim {
// This file is compiled three times, once for each source encoding.
std::unique_ptr<Stream> stream8 (Ctx& c, unsigned to);
std::unique_ptr<Stream> stream16 (Ctx& c, unsigned to);
std::unique_ptr<Stream> stream32 (Ctx& c, unsigned to);

namespace {
// What a fresh transcoder makes of the delivered text, one unit at a time.
template <typename F, typename O> struct Message {
  using From = F;
  using To = O;
  using T = icubaby::transcoder<From, To>;
  static constexpr bool reusable = true;  // for another text, if the last was complete
  static From odd (Source& s) { return utf::odd_unit<From> (s); }
  void look (Ctx&, T const&, std::size_t) const {}
  string name;
  std::u32string sent;
  bool damaged = false;
  str<From> units;
  std::vector<At> trace;  // after each unit
  str<To> out;
  bool well_formed = true;
  utf::Decoded<From> strict;

  explicit Message (Ctx& c) {
    name = string{utf::name<From> ()} + "->" + utf::name<To> ();
    sent = gen::code_points (c.src, 16);
    units = utf::encode<From> (sent);
    string what;
    if (c.src.draw (3) != 0) {
      damaged = utf::damage (c.src, units, &what) != 0;
    }
    strict = utf::decode (units);
    c.log (name + " [" + utf::units (units) + "]" + (what == "" ? "" : " " + what));
    T t;
    trace.push_back ({0, t.partial (), t.well_formed ()});
    for (From const u : units) {
      t (u, std::back_inserter (out));
      trace.push_back ({out.size (), t.partial (), t.well_formed ()});
    }
    t.end_cp (std::back_inserter (out));
    well_formed = t.well_formed ();
    judge (c);
  }
  string text () const { return name + " of [" + utf::units (units) + "]"; }

private:
  void judge (Ctx& c) const {
    if (well_formed != strict.well_formed) {
      c.fail (strict.well_formed ? "sound-text-reported" : "damage-unreported",
              text () + ": well_formed() is " + (well_formed ? "true" : "false"));
    }
    if (strict.well_formed) {
      stats.add (damaged ? "probe.damaged_but_well_formed" : "probe.intact");
      if (out != utf::encode<To> (strict.cps)) {
        c.fail ("wrong-text", text () + " gave [" + utf::units (out) + "], expected [" +
                                utf::units (utf::encode<To> (strict.cps)) + "]");
      }
    } else {
      stats.add (strict.cut ? "probe.cut_in_mid_character" : "probe.ill_formed");
    }
    auto const d = utf::decode (out);
    if (!d.well_formed) {
      c.fail ("ill-formed-output", text () + " gave the ill-formed [" + utf::units (out) + "]");
    }
    if (d.cps.compare (0, strict.cps.size (), strict.cps) != 0) {
      c.fail ("prefix-lost", text () + " gave [" + utf::units (out) + "], which lost something before the damage");
    }
    // The sent characters at the end which arrived intact.
    std::size_t same = 0;
    str<From> tail;
    while (same < sent.size ()) {
      str<From> const longer = utf::encode<From> (std::u32string_view{sent}.substr (sent.size () - same - 1));
      if (longer.size () > units.size () || units.compare (units.size () - longer.size (), longer.size (), longer) != 0) {
        break;
      }
      ++same;
    }
    if (same > 1) {
      auto const want = sent.substr (sent.size () - (same - 1));
      if (d.cps.size () < want.size () || d.cps.compare (d.cps.size () - want.size (), want.size (), want) != 0) {
        c.fail ("suffix-lost", text () + " gave [" + utf::units (out) + "], which lost more than one character after the damage");
      }
    }
    // Nothing is made up.
    std::size_t at = 0;
    for (char32_t const cp : d.cps) {
      if (cp == 0xFFFD) {
        continue;
      }
      auto const p = units.find (utf::encode<From> (std::u32string_view{&cp, 1}), at);
      if (p == str<From>::npos) {
        c.fail ("made-up", text () + " gave [" + utf::units (out) + "], with a character which was not delivered");
      }
      at = p + 1;
    }
    // A well-formed prefix is partial exactly while within a character; damage once seen stays seen.
    std::size_t boundary = 0;
    std::size_t k = 0;
    for (std::size_t i = 0; i <= strict.used; ++i) {
      while (boundary < i) {
        boundary += utf::encode<From> (std::u32string_view{strict.cps}.substr (k, 1)).size ();
        ++k;
      }
      if (trace[i].partial != (boundary != i)) {
        c.fail ("partial", text () + ": partial() is " + (trace[i].partial ? "true" : "false") + " after " + std::to_string (i) + " units");
      }
      if (!trace[i].well_formed) {
        c.fail ("sound-text-reported", text () + ": well_formed() is false after " + std::to_string (i) + " units");
      }
    }
    for (std::size_t i = 1; i < trace.size (); ++i) {
      if (trace[i].well_formed && !trace[i - 1].well_formed) {
        c.fail ("damage-forgotten", text () + ": well_formed() turned true again after " + std::to_string (i) + " units");
      }
    }
    if (strict.cut && !trace.back ().partial) {
      c.fail ("partial", text () + ": partial() is false at the end");
    }
    // Also after damage: a character which the end cuts off, with an intact one before it.
    for (std::size_t q = units.size (); q != 0 && units.size () - q < 3; --q) {
      char32_t cp = 0;
      if (utf::sequence (units, q - 1, &cp) != -1) {
        continue;
      }
      for (std::size_t p = q - 1; p != 0 && q - p <= 4; --p) {
        if (utf::sequence (units, p - 1, &cp) == static_cast<int> (q - p)) {
          stats.add (damaged ? "probe.cut_after_damage" : "probe.cut");
          if (!trace.back ().partial) {
            c.fail ("partial", text () + ": partial() is false at the end, which cuts off a character");
          }
        }
      }
    }
    if (trace.back ().partial != (out.size () > trace.back ().size)) {
      c.fail ("partial", text () + ": partial() is " + (trace.back ().partial ? "true" : "false") + " at the end, where end_cp() wrote " +
                           std::to_string (out.size () - trace.back ().size) + " units");
    }
    if (!trace.back ().well_formed && well_formed) {
      c.fail ("damage-forgotten", text () + ": well_formed() turned true again at the end");
    }
  }
};

// Someone who joins late, finds the next character and decodes from there.
template <typename From, typename To> class Late final : public Stream {
public:
  explicit Late (Ctx& c) : sent_{gen::code_points (c.src, 16)}, units_{utf::encode<From> (sent_)} {}
  bool step (Ctx& c, char id) override {
    auto const from = c.src.draw (static_cast<std::uint32_t> (units_.size () + 1));
    std::size_t boundary = 0;
    std::size_t k = 0;
    std::vector<std::size_t> starts;
    for (; k < sent_.size (); ++k) {
      starts.push_back (boundary);
      boundary += utf::encode<From> (std::u32string_view{sent_}.substr (k, 1)).size ();
    }
    std::size_t const first = static_cast<std::size_t> (std::lower_bound (starts.begin (), starts.end (), from) - starts.begin ());
    std::list<From> const rest{units_.begin () + from, units_.end ()};
    auto const skip = c.src.small (3);
    c.log (string{id} + " joins [" + utf::units (units_) + "] at " + std::to_string (from) + " and skips " + std::to_string (skip));
    stats.add ("fault.joined_late");
    auto const start = icubaby::index (rest.begin (), rest.end (), skip);
    auto const want = first + skip < starts.size () ? starts[first + skip] - from : rest.size ();
    if (static_cast<std::size_t> (std::distance (rest.begin (), start)) != want ||
        icubaby::index (rest, skip) != start) {
      c.fail ("resync", "index(" + std::to_string (skip) + ") of [" + utf::units (str<From> (rest.begin (), rest.end ())) + "] is " +
                          std::to_string (std::distance (rest.begin (), start)) + ", expected " + std::to_string (want));
    }
    auto const n = static_cast<std::size_t> (icubaby::length (rest.begin (), rest.end ()));
    if (n != sent_.size () - first || static_cast<std::size_t> (icubaby::length (rest)) != n) {
      c.fail ("resync", "length of [" + utf::units (str<From> (rest.begin (), rest.end ())) + "] is " + std::to_string (n));
    }
    icubaby::transcoder<From, To> t;
    str<To> out;
    t.end_cp (std::copy (start, rest.end (), icubaby::iterator{&t, std::back_inserter (out)}));
    auto const expect = utf::encode<To> (std::u32string_view{sent_}.substr (std::min (first + skip, sent_.size ())));
    if (out != expect || !t.well_formed ()) {
      c.fail ("resync", "[" + utf::units (units_) + "] joined at " + std::to_string (from) + " gave [" + utf::units (out) + "], expected [" + utf::units (expect) + "]");
    }
    return false;
  }

private:
  std::u32string sent_;
  str<From> units_;
};

template <typename From, typename To> std::unique_ptr<Stream> stream (Ctx& c) {
  switch (c.src.draw (10)) {
  default: return std::make_unique<Feed<Message<From, To>>> (c);
  case 5: return std::make_unique<Walk<Message<From, To>, str<From>>> (c);
  case 6: return std::make_unique<Walk<Message<From, To>, std::forward_list<From>>> (c);
  case 7: return std::make_unique<Walk<Message<From, To>, std::list<From>>> (c);
  case 8: return std::make_unique<Walk<Message<From, To>, void>> (c);
  case 9: return std::make_unique<Late<From, To>> (c);
  }
}
template <typename From> std::unique_ptr<Stream> stream_to (Ctx& c, unsigned to) {
  switch (to) {
  case 0: return stream<From, char8_t> (c);
  case 1: return stream<From, char16_t> (c);
  default: return stream<From, char32_t> (c);
  }
}
}  // namespace

#if PART == 16
std::unique_ptr<Stream> stream16 (Ctx& c, unsigned to) { return stream_to<char16_t> (c, to); }
#elif PART == 32
std::unique_ptr<Stream> stream32 (Ctx& c, unsigned to) { return stream_to<char32_t> (c, to); }
#else
std::unique_ptr<Stream> stream8 (Ctx& c, unsigned to) { return stream_to<char8_t> (c, to); }

char const* scenario_name () { return "C08"; }
unsigned scenario_chunk () { return 32; }
void scenario_init () {}

void run_case (Ctx& c) {
  unsigned const n = 1 + c.src.draw (3);
  std::vector<std::pair<char, std::unique_ptr<Stream>>> live;
  for (unsigned i = 0; i < n; ++i) {
    unsigned const from = c.src.draw (3);
    unsigned const to = c.src.draw (3);
    c.mark (from * 3 + to);
    live.emplace_back (static_cast<char> ('A' + i), from == 0 ? stream8 (c, to) : from == 1 ? stream16 (c, to) : stream32 (c, to));
  }
  interleave (c, live);
}
#endif
}  // namespace sim
