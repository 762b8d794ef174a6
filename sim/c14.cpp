// C14: a hostile peer chooses the messages, and there are many of them.  What a receiver spends on one is measured on the
// simulator's clock (control-flow edges of the library, and octets moved or searched by the C library's memory functions),
// by its allocator and on its stack.
#include <cctype>
#include <cmath>
#include <functional>
#include <memory>
#include <sstream>

#include "core.hpp"
#include "uri/icubaby.hpp"
#include "uri/parts.hpp"
#include "uri/pctdecode.hpp"
#include "uri/pctencode.hpp"
#include "uri/punycode.hpp"
#include "uri/rule.hpp"
#include "uri/uri.hpp"

namespace sim {
char const* scenario_name () { return "C14"; }
unsigned scenario_chunk () { return 16; }
void scenario_init () {}
extern std::uint64_t octets_moved;
extern char* stack_low;

namespace {
using std::string;

struct Cost {
  double work = 0, bytes = 0, peak = 0, stack = 0, unit = 0;
  bool refused = false;
};
double const unit_limit = 5000;  // work for one code unit given to a transcoder, or one step of a cursor
double worst_unit = 0;

double clock_now () { return static_cast<double> (steps) + static_cast<double> (octets_moved) / 16; }

// ---- what the peer sends ---------------------------------------------------------------------------------------------
struct Shape {
  string prefix, suffix;
  std::vector<string> units;
  bool vary = false, front = false;
  // The tag tells messages of a kind apart.
  string text (std::size_t n, string const& tag) const {
    string r = prefix;
    std::size_t k = 0;
    for (std::size_t i = 0; i < units.size (); ++i) {
      auto const end = prefix.size () + (i + 1) * n / units.size ();
      while (r.size () < end) {
        r += units[i];
        if (vary) {
          r += static_cast<char> ('a' + (k * 7 + k / 26) % 26);
          r += static_cast<char> ('0' + k / 5 % 10);
        }
        ++k;
      }
    }
    r += tag + suffix;
    for (std::size_t i = 0; front && i < prefix.size (); ++i) {
      if (std::isalpha (static_cast<unsigned char> (prefix[i])) != 0) {
        r.insert (i + 1, tag);
        break;
      }
    }
    return r;
  }
};
string draw_unit (Source& s) {
  static std::vector<string> const whole{"a",  "/",  "a/",  "/a", "..", "/..", "/.", "/../a", "//", "%41", "%2F", "%2", "%", ".",  ":",  "a:",  "1",
                                         "1.", "1:", "::",  "@",  "a@", "?",   "#",  "/?",    "a.", "-",   "~",   "A",  "\xC3\xBC", "\xC3\xBC.", "xn--", "xn--tda.", "%C3%BC",
                                         "\xE2\x82\xAC", "\xF0\x9F\x98\x80", "\xFF", " ", "[", "]", "255.", "ffff:", "v1.", "/a/..", "&=", "+", "\xC3"};
  if (s.draw (4) != 3) {
    return s.pick (whole);
  }
  string r;
  unsigned const n = 1 + s.draw (6);
  static char const cs[] = "ab1/.:%@?#-4FZ+[]~ \xC3\xBC";
  for (unsigned i = 0; i < n; ++i) {
    r += cs[s.draw (sizeof cs - 1)];
  }
  return r;
}
Shape draw_shape (Source& s, bool reference) {
  static std::vector<string> const heads{"http://h/", "s:", "http://", "http://h", "s:/", "http://u@", "http://h:", "http://h/?", "s:#", "s:a/", "http://[", "http://[::", "http://[v1.", "http://1.", "s://", "", "s",
                                         "http://h/a?b#", "http://u:"};
  static std::vector<string> const rel{"", "/", "//", "../", "./", "?", "#", "//h/", "a/", "a", "//u@"};
  static std::vector<string> const tails{"", "", "/", "]", "@h/", ":", " ", "%", "?q#f", "/..", "[", "]/", "\x80", "#", "a"};
  Shape r;
  r.prefix = reference && s.draw (2) == 1 ? s.pick (rel) : s.pick (heads);
  unsigned const phases = 1 + (s.draw (3) == 2 ? 1 + s.draw (2) : 0);
  for (unsigned i = 0; i < phases; ++i) {
    r.units.push_back (draw_unit (s));
  }
  r.suffix = s.pick (tails);
  r.vary = s.draw (5) == 4;
  r.front = s.draw (2) == 1;
  return r;
}

// ---- what the receiver does with it ----------------------------------------------------------------------------------
struct Task {
  string name;
  std::size_t length = 0;
  unsigned power = 1;
  std::function<void ()> run;
};
struct Owned {
  string a, b;
  uri::parts p, q;
};

std::vector<std::string_view> cut (string const& t, char at) {
  std::vector<std::string_view> r;
  std::string_view v = t;
  for (;;) {
    auto const k = v.find (at);
    r.push_back (v.substr (0, k));
    if (k == v.npos) {
      return r;
    }
    v.remove_prefix (k + 1);
  }
}
// Components straight from the peer's text.
uri::parts raw_parts (string const& t, unsigned where) {
  uri::parts p;
  p.scheme = "s";
  std::string_view const v = t;
  switch (where) {
  case 0:
    p.path.absolute = true;
    p.path.segments = cut (t, '/');
    break;
  case 1: p.path.segments = cut (t, 'a'); break;
  case 2: p.query = v; break;
  case 3: p.fragment = v; break;
  case 4: p.ensure_authority ().userinfo = v; p.authority->host = "h"; break;
  case 5: p.ensure_authority ().host = v; break;
  case 6: p.ensure_authority ().host = "h"; p.authority->port = v; break;
  case 7: p.scheme = v; break;
  default:
    p.path.segments = cut (t, '.');
    p.path.absolute = true;
    p.ensure_authority ().host = "h";
    p.query = v;
    p.fragment = v;
    break;
  }
  return p;
}
template <typename From, typename To> void feed (std::vector<From> const& in) {
  icubaby::transcoder<From, To> t;
  To buffer[16];
  for (auto const u : in) {
    auto const before = clock_now ();
    (void)t (u, buffer);
    auto const d = clock_now () - before;
    worst_unit = d > worst_unit ? d : worst_unit;
  }
  (void)t.end_cp (buffer);
}
template <typename View> void walk (View const& view) {
  auto it = view.begin ();
  auto const end = view.end ();
  while (it != end) {
    (void)*it;
    auto const before = clock_now ();
    ++it;
    auto const d = clock_now () - before;
    worst_unit = d > worst_unit ? d : worst_unit;
  }
}
template <typename T> std::vector<T> as_units (string const& t) {
  std::vector<T> r;
  if constexpr (sizeof (T) == 1) {
    for (char const c : t) {
      r.push_back (static_cast<T> (static_cast<unsigned char> (c)));
    }
  } else {
    // Any two octets make a unit; surrogates in every order turn up.
    unsigned const add = sizeof (T) == 2 ? 0xD7A0U : 0x10FFC0U;
    for (char const c : t) {
      auto const v = static_cast<unsigned char> (c);
      r.push_back (static_cast<T> (v < 0x50 ? v : add + v * 4U));
    }
  }
  return r;
}
template <typename From, typename To> std::function<void ()> transcode_task (string const& t, bool view) {
  auto const in = std::make_shared<std::vector<From>> (as_units<From> (t));
  if (view) {
    return [in] { walk (*in | icubaby::views::transcode<From, To>); };
  }
  return [in] { feed<From, To> (*in); };
}
template <typename From> std::function<void ()> transcode_to (unsigned k, string const& t) {
  switch (k % 3) {
  case 0: return transcode_task<From, char8_t> (t, k >= 3);
  case 1: return transcode_task<From, char16_t> (t, k >= 3);
  default: return transcode_task<From, char32_t> (t, k >= 3);
  }
}

// Everything about a task but the length of its message.
struct Kind {
  unsigned what = 0, detail = 0, detail2 = 0;
  bool flag = false;
  Shape a, b;
};
Kind draw_kind (Source& s) {
  Kind k;
  k.what = s.draw (24);
  k.detail = s.draw (9);
  k.detail2 = s.draw (9);
  k.flag = s.draw (2) == 1;
  k.a = draw_shape (s, k.what != 0);
  k.b = draw_shape (s, true);
  return k;
}

Task make (Kind const& k, std::size_t n, string const& tag) {
  Quiet const quiet;
  Task t;
  auto const o = std::make_shared<Owned> ();
  o->a = k.a.text (n, tag);
  t.length = o->a.size ();
  auto second = [&] {
    o->b = k.flag ? k.b.text (n / 2, tag) : string{"http://a/b/c/d;p?q"};
    t.length += o->b.size ();
  };
  // Text that the library reads, or else components of the peer's choice.
  auto parts = [&] (string const& text, unsigned where) {
    if (auto r = uri::split_reference (text)) {
      return *r;
    }
    return raw_parts (text, where);
  };
  static std::vector<uri::pctencode_set> const sets{uri::pctencode_set::none, uri::pctencode_set::fragment, uri::pctencode_set::query, uri::pctencode_set::special_query, uri::pctencode_set::path,
                                                    uri::pctencode_set::userinfo, uri::pctencode_set::component, uri::pctencode_set::form_urlencoded};
  auto const set = sets[k.detail % sets.size ()];
  switch (k.what) {
  case 0:
    t.name = "split";
    t.run = [o] { (void)uri::split (o->a); };
    break;
  case 1:
  case 2:
    t.name = "split_reference";
    t.run = [o] { (void)uri::split_reference (o->a); };
    break;
  case 3:
  case 4: {
    t.name = "join(text)";
    second ();
    bool const swap = k.detail >= 6;
    bool const strict = k.detail % 2 == 0;
    t.run = [o, swap, strict] { (void)uri::join (swap ? o->a : o->b, swap ? o->b : o->a, strict); };
    break;
  }
  case 5: {
    t.name = "join(parts)";
    second ();
    o->p = parts (o->b, k.detail);
    o->q = parts (o->a, k.detail2);
    bool const strict = k.detail2 % 2 == 0;
    t.run = [o, strict] { (void)uri::join (o->p, o->q, strict); };
    break;
  }
  case 6:
    t.name = "remove_dot_segments";
    o->p = raw_parts (o->a, k.detail % 2);
    t.run = [o] {
      auto p = o->p.path;
      p.remove_dot_segments ();
    };
    break;
  case 7:
    t.name = "compose(string)";
    o->p = parts (o->a, k.detail);
    t.run = [o] { (void)uri::compose (o->p); };
    break;
  case 8:
    t.name = "compose(stream)";
    o->p = parts (o->a, k.detail);
    t.run = [o] {
      std::ostringstream os;
      os << o->p;
    };
    break;
  case 9:
    t.name = k.flag ? "path->filesystem" : "path->string";
    o->p = parts (o->a, k.detail);
    if (k.flag) {
      t.run = [o] { (void)static_cast<std::filesystem::path> (o->p.path); };
    } else {
      t.run = [o] { (void)static_cast<string> (o->p.path); };
    }
    break;
  case 10:
    t.name = "valid";
    o->p = parts (o->a, k.detail);
    t.run = [o] { (void)(o->p.valid () + o->p.path.valid () + (o->p.authority && o->p.authority->valid ())); };
    break;
  case 11:
    t.name = "equal";
    o->p = parts (o->a, k.detail);
    o->b = o->a;
    o->q = parts (o->b, k.detail);
    t.run = [o] { (void)(o->p == o->q); };
    break;
  case 12:
  case 13:
  case 14:
  case 15: {
    bool const enc = k.what <= 13;
    o->p = k.what % 2 == 0 ? raw_parts (o->a, k.detail) : parts (o->a, k.detail);
    t.name = enc ? "encode" : "decode";
    if (o->p.authority) {
      for (auto const label : cut (string{o->p.authority->host}, '.')) {
        t.power = label.size () > 70 ? 2 : t.power;
      }
    }
    bool const str = k.flag;
    t.run = [o, enc, str] {
      std::vector<char> v;
      string s;
      if (enc) {
        (void)(str ? uri::encode (s, o->p) : uri::encode (v, o->p));
      } else {
        (void)(str ? uri::decode (s, o->p) : uri::decode (v, o->p));
      }
    };
    break;
  }
  case 16:
    t.name = "pctencode";
    t.run = [o, set] { (void)uri::pctencode (o->a, set); };
    break;
  case 17:
    t.name = "pctdecode";
    t.run = [o] { (void)uri::pctdecode (o->a); };
    break;
  case 18:
    t.name = "pctdecode_view";
    t.run = [o] { walk (o->a | uri::views::pctdecode); };
    break;
  case 19:
    t.name = "needs";
    t.run = [o, set] { (void)(uri::needs_pctencode (o->a, set) + uri::needs_pctdecode (o->a.begin (), o->a.end ())); };
    break;
  case 20: {
    t.name = k.detail < 6 ? "transcode" : "transcode/any";
    unsigned const to = k.detail % 6;
    switch (k.detail2 % 4) {
    case 0: t.run = transcode_to<char8_t> (to, o->a); break;
    case 1: t.run = transcode_to<char16_t> (to, o->a); break;
    case 2: t.run = transcode_to<char32_t> (to, o->a); break;
    default: {
      static std::vector<string> const marks{"", "\xEF\xBB\xBF", "\xFE\xFF", "\xFF\xFE"};
      t.run = transcode_to<std::byte> (to, marks[k.detail % 4] + o->a);
    }
    }
    break;
  }
  case 21: {
    t.name = "punycode::encode";
    t.power = 2;
    auto const in = std::make_shared<std::u32string> ();
    for (auto const u : as_units<char32_t> (o->a)) {
      *in += u >= 0xD800 && u < 0xE000 ? U'x' : u > 0x10FFFF ? U'y' : u;
    }
    t.run = [in] {
      string r;
      (void)uri::punycode::encode (*in, true, std::back_inserter (r));
    };
    break;
  }
  case 22: {
    t.name = "punycode::decode";
    t.power = 2;
    if (k.flag) {
      for (auto& c : o->a) {
        c = static_cast<char> ('a' + static_cast<unsigned char> (c) % 26);
      }
    }
    t.run = [o] { (void)uri::punycode::decode (o->a); };
    break;
  }
  default: {
    t.name = "rule";
    bool const action = k.flag;
    unsigned const d = k.detail;
    t.run = [o, action, d] {
      unsigned n = 0;
      auto count = [&n] (std::string_view) { ++n; };
      auto item = [&] (uri::rule const& r) {
        auto const any = [] (uri::rule const& r2) { return r2.single_char ([] (char) { return true; }); };
        auto const pair = [&] (uri::rule const& r2) { return r2.concat (uri::single_char ('/')).optional (any, count).matched ("pair", r2); };
        auto const one = [&] (uri::rule const& r2) { return action ? r2.concat (any, count).matched ("one", r2) : r2.concat (any).matched ("one", r2); };
        return r.alternative (uri::single_char ('%'), pair, one).matched ("item", r);
      };
      auto const items = [&] (uri::rule const& r) { return r.star (item).matched ("items", r); };
      switch (d % 3) {
      case 0: (void)uri::rule{o->a}.star (item).done (); break;
      case 1: (void)uri::rule{o->a}.concat (items, count).done (); break;
      default: (void)uri::rule{o->a}.optional (items, count).concat (uri::single_char ('!')).done (); break;
      }
    };
  }
  }
  return t;
}

// ---- measuring -------------------------------------------------------------------------------------------------------
double limit_work (Task const& t) {
  double const l = static_cast<double> (t.length);
  return 400000 + 10000 * l + (t.power == 2 ? 400 * l * l : 0);
}
double limit_bytes (Task const& t) {
  double const l = static_cast<double> (t.length);
  return 200000 + 10000 * l + (t.power == 2 ? 400 * l * l : 0);
}
double const limit_stack = 256 * 1024;

__attribute__ ((noinline)) Cost measure (Ctx& c, Task const& t, AllocPlan const& plan = {}) {
  Cost r;
  worst_unit = 0;
  auto const w0 = clock_now ();
  step_limit = steps + static_cast<std::uint64_t> (limit_work (t)) + 1;
  char here = 0;
  stack_low = &here;
  {
    AllocScope const scope{plan};
    try {
      t.run ();
    } catch (std::bad_alloc const&) {
      r.refused = true;
    }
    r.bytes = static_cast<double> (alloc.bytes);
    r.peak = static_cast<double> (alloc.peak);
  }
  r.stack = static_cast<double> (&here - stack_low);
  r.work = clock_now () - w0;
  r.unit = worst_unit;
  auto const l = static_cast<double> (t.length) + 64;
  if (t.power == 1 && !r.refused) {
    stats.max ("max.work_per_octet", static_cast<std::uint64_t> (r.work / l));
    stats.max ("max.bytes_per_octet", static_cast<std::uint64_t> (r.bytes / l));
  }
  stats.max ("max.stack", static_cast<std::uint64_t> (r.stack));
  stats.max ("max.work_per_unit", static_cast<std::uint64_t> (r.unit));
  stats.max ("max.length", t.length);
  (void)c;
  return r;
}
string text_of (Task const& t, Cost const& k) {
  return t.name + " of " + std::to_string (t.length) + " octets took " + std::to_string (static_cast<long> (k.work)) + " steps, " + std::to_string (static_cast<long> (k.bytes)) + " bytes (" +
         std::to_string (static_cast<long> (k.peak)) + " at once), " + std::to_string (static_cast<long> (k.stack)) + " of stack";
}
void absolute (Ctx& c, Task const& t, Cost const& k) {
  if (k.work > limit_work (t)) {
    c.fail ("work", text_of (t, k) + ", more than any message of its length may");
  }
  if (k.bytes > limit_bytes (t)) {
    c.fail ("memory", text_of (t, k) + ", more than any message of its length may");
  }
  if (k.stack > limit_stack) {
    c.fail ("stack", text_of (t, k) + ", more than any message may");
  }
  if (k.unit > unit_limit) {
    c.fail ("stall", text_of (t, k) + ", " + std::to_string (static_cast<long> (k.unit)) + " of them for one element");
  }
}
string draw_text (Shape const& s) {
  string r = quote (s.prefix) + " +";
  for (auto const& u : s.units) {
    r += " " + quote (u) + "*";
  }
  return r + (s.vary ? "(varied)" : "") + " + " + quote (s.suffix);
}
void growth (Ctx& c, Kind const& kind, Task const& a, Cost const& s, Task const& b, Cost const& l) {
  double const f = std::pow (static_cast<double> (b.length) / static_cast<double> (a.length), b.power);
  auto judge = [&] (char const* what, double small, double large, double floor, double slack) {
    auto const ratio = large / (f * (small + floor));
    stats.max ((string{"max.percent_growth."} + what).c_str (), static_cast<std::uint64_t> (ratio * 100));
    if (ratio > slack) {
      c.fail (string{"growth-"} + what, text_of (b, l) + ", although " + text_of (a, s) + "; messages are " + draw_text (kind.a) + (kind.flag ? " and " + draw_text (kind.b) : ""));
    }
  };
  judge ("work", s.work, l.work, 1000, 3);
  judge ("bytes", s.bytes, l.bytes, 1000, 4);
  judge ("peak", s.peak, l.peak, 1000, 4);
}
}  // namespace

void run_case (Ctx& c) {
  struct Client {
    Kind kind;
    std::size_t size = 0;
    Task small;
    Cost cost;
  };
  auto const tag = [] (unsigned k) {
    char b[16];
    std::snprintf (b, sizeof b, "%05u", k);
    return string{b};
  };
  unsigned const n = 1 + c.src.draw (3);
  std::vector<Client> clients;
  std::size_t longest = 0;
  for (unsigned i = 0; i < n; ++i) {
    Client x;
    {
      Quiet const q;
      x.kind = draw_kind (c.src);
    }
    std::size_t size = 200 + c.src.draw (800);
    std::size_t factor = std::size_t{4} << c.src.draw (4);
    x.small = make (x.kind, size, tag (0));
    if (x.small.power == 2) {
      size = 60 + size / 16;
      factor = 2 + factor / 8;
      x.small = make (x.kind, size, tag (0));
    }
    Task const large = make (x.kind, size * factor, tag (0));
    if (large.power != x.small.power) {
      // A long host label only at one of the lengths: both may cost its square.
      x.small.power = 2;
      if (large.length > 4000) {
        stats.add ("probe.skipped_long_label");
        continue;
      }
    }
    x.size = size;
    longest = std::max (longest, x.small.length);
    stats.add ("calls." + x.small.name, 2);
    c.log (x.small.name + " " + std::to_string (x.small.length) + "/" + std::to_string (large.length) + " of " + draw_text (x.kind.a));
    c.mark (x.small.name);
    c.mark (x.small.length);
    c.mark (large.length);
    for (auto const& u : x.kind.a.units) {
      c.mark (u);
    }
    x.cost = measure (c, x.small);
    absolute (c, x.small, x.cost);
    // The first call of a process may have things to set up.
    x.cost = measure (c, x.small);
    absolute (c, x.small, x.cost);
    if (x.cost.refused) {
      c.fail ("spurious-failure", x.small.name + " reported std::bad_alloc although no allocation failed");
    }
    auto const big = measure (c, large);
    absolute (c, large, big);
    growth (c, x.kind, x.small, x.cost, large, big);
    c.log ("  " + text_of (large, big));
    auto const seen = alloc;
    // libstdc++'s std::filesystem::path::operator/= itself is not safe when an allocation fails.
    bool const fragile = large.name == "path->filesystem";
    unsigned const tries = fragile ? 0 : c.src.draw (3);
    for (unsigned k = 0; k < tries && seen.count != 0; ++k) {
      auto const plan = draw_plan (c.src, seen.count, seen.max_size, seen.bytes);
      auto const r = measure (c, large, plan);
      c.log ("  " + plan_text (plan) + ": " + text_of (large, r));
      c.mark (plan.n);
      absolute (c, large, r);
      if (r.work > 3 * big.work + 20000 || r.bytes > 3 * big.bytes + 20000) {
        c.fail ("faulted-work", text_of (large, r) + " when " + plan_text (plan) + ", and otherwise " + text_of (large, big));
      }
      stats.add ("probe.measured_under_exhaustion");
    }
    c.nontrivial ();
    {
      Quiet const q;
      clients.push_back (std::move (x));
    }
  }
  // Many more messages come in: of the lengths seen, or a flood of short ones.
  bool const flood = c.src.draw (8) == 7;
  unsigned const rounds = clients.empty () ? 0 : flood ? 2500 : c.src.draw (4) * c.src.draw (40);
  if (flood) {
    longest = 0;
    for (auto& x : clients) {
      x.size = 8 + c.src.draw (50);
      x.small = make (x.kind, x.size, tag (0));
      (void)measure (c, x.small);
      x.cost = measure (c, x.small);
      absolute (c, x.small, x.cost);
      longest = std::max (longest, x.small.length);
    }
    stats.add ("probe.floods");
  }
  c.mark (rounds);
  std::int64_t held = 0;
  for (unsigned i = 0; i < rounds; ++i) {
    if (i == rounds / 2) {
      held = live_bytes;
    }
    auto const& x = clients[flood ? i % clients.size () : c.src.draw (static_cast<std::uint32_t> (clients.size ()))];
    AllocPlan plan;
    if (!flood && c.src.draw (8) == 7 && x.small.name != "path->filesystem") {
      plan.kind = AllocPlan::nth;
      plan.n = 1 + c.src.draw (20);
    }
    Task const t = make (x.kind, x.size, tag (i + 1));
    auto const r = measure (c, t, plan);
    absolute (c, t, r);
    if (r.work > 2 * x.cost.work + 5000 || r.bytes > 2 * x.cost.bytes + 5000 || r.peak > 2 * x.cost.peak + 5000) {
      c.fail ("history", "as message " + std::to_string (i + 1) + " " + text_of (t, r) + "; when one like it came first " + text_of (x.small, x.cost));
    }
  }
  stats.add ("probe.later_messages", rounds);
  // What may be kept for re-use depends on the longest message only.
  if (auto const kept = live_bytes - held; rounds > 0 && kept > 8192 + 2 * static_cast<std::int64_t> (longest)) {
    c.fail ("accumulation", "while the last " + std::to_string (rounds - rounds / 2) + " messages of at most " + std::to_string (longest) + " octets came, " + std::to_string (kept) + " bytes more were kept");
  }
  step_limit = ~std::uint64_t{0};
}
}  // namespace sim
