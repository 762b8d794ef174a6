// C05: operations declared non-throwing, called when there is little or no memory.
#include <array>
#include <deque>

#include "core.hpp"
#include "items.hpp"
#include "ops.hpp"
#include "uri/rule.hpp"

namespace sim {
char const* scenario_name () { return "C05"; }
unsigned scenario_chunk () { return 16; }
void scenario_init () {}

namespace {
using std::string;

AllocPlan hostile (Source& s) {
  AllocPlan p;
  switch (s.draw (5)) {
  case 0:
    p.kind = AllocPlan::from_nth;
    p.n = 1;
    break;
  case 1:
    p.kind = AllocPlan::nth;
    p.n = 1 + s.draw (4);
    break;
  case 2:
    p.kind = AllocPlan::from_nth;
    p.n = 1 + s.small (64);
    break;
  case 3:
    p.kind = AllocPlan::at_least;
    p.n = 1 + s.small (2048);
    break;
  default:
    p.kind = AllocPlan::budget;
    p.n = s.small (8192);
    break;
  }
  return p;
}

bool authority_model (struct uri::parts::authority const& a) {
  return (!a.userinfo || model::userinfo_ok (*a.userinfo)) && model::host_ok (a.host) && (!a.port || model::port_ok (*a.port));
}
bool path_model (struct uri::parts::path const& p) {
  for (auto const& g : p.segments) {
    if (!model::segment_ok (g)) {
      return false;
    }
  }
  return true;
}

// Evaluates a call under the plan. `promised` says whether the operation must not fail.
template <typename F> void check (Ctx& c, AllocPlan const& plan, char const* what, string const& expect, F f) {
  string got;
  std::uint64_t failed = 0;
  std::uint64_t count = 0;
  try {
    AllocScope const scope{plan};
    auto const r = f ();
    failed = alloc.failed;
    count = alloc.count;
    alloc.armed = false;
    got = r ();
  } catch (std::bad_alloc const&) {
    alloc.armed = false;
    c.fail ("threw", string{what} + " threw std::bad_alloc when " + plan_text (plan) + ", expected " + expect);
  }
  stats.add (string{"calls."} + what);
  static char const* const kinds[] = {"none", "nth", "from_nth", "at_least", "budget"};
  stats.add (string{"fault.calls_with_memory_restricted_"} + kinds[plan.kind]);
  c.log (string{what} + ", " + plan_text (plan) + ": " + got + " after " + std::to_string (failed) + " failures");
  c.mark (what);
  c.mark (plan.kind * 65537 + plan.n);
  c.mark (count);
  c.mark (got);
  if (got != expect) {
    c.fail (failed != 0 ? "wrong-under-exhaustion" : "wrong-answer",
            string{what} + " gave " + got + " when " + plan_text (plan) + " (" + std::to_string (failed) +
              " allocations failed), expected " + expect);
  }
}
auto text_of (bool b) {
  return [b] { return string{b ? "true" : "false"}; };
}
string expect_of (bool b) { return b ? "true" : "false"; }

template <typename From, typename To> void transcoder_ops (Ctx& c, AllocPlan const& plan) {
  using T = icubaby::transcoder<From, To>;
  auto const cps = gen::code_points (c.src, 6);
  auto const in = ops::encode_cps<From> (cps);
  std::basic_string<To> out;
  T t;
  auto const feed = c.src.draw (static_cast<std::uint32_t> (in.size ()) + 1);
  auto it = icubaby::iterator<T, std::back_insert_iterator<std::basic_string<To>>>{&t, std::back_inserter (out)};
  for (std::size_t k = 0; k < feed; ++k) {
    *it = in[k];
    ++it;
  }
  // In mid character?
  bool const partial = feed < in.size () && !icubaby::is_code_point_start (in[feed]);
  check (c, plan, "transcoder::well_formed", "true", [&] { return text_of (t.well_formed ()); });
  if constexpr (noexcept (t.partial ())) {
    check (c, plan, "transcoder::partial", expect_of (partial), [&] { return text_of (t.partial ()); });
  }
  if constexpr (std::is_nothrow_default_constructible_v<T>) {
    check (c, plan, "transcoder::transcoder", "true", [&] {
      T const a;
      return [x = a.well_formed ()] { return expect_of (x); };
    });
  }
  if constexpr (std::is_nothrow_move_constructible_v<decltype (it)> && std::is_nothrow_move_assignable_v<decltype (it)>) {
    check (c, plan, "icubaby::iterator move", "true", [&] {
      auto b = std::move (it);
      it = std::move (b);
      return text_of (it.transcoder () == &t);
    });
  }
  for (std::size_t k = feed; k < in.size (); ++k) {
    *it = in[k];
    ++it;
  }
  if (out != ops::encode_cps<To> (cps)) {
    c.fail ("wrong-answer", "the transcoder produced " + ops::units (out) + " for " + ops::units (in));
  }
}
}  // namespace

void run_case (Ctx& c) {
  auto& s = c.src;
  gen::Swarm const w{s};
  unsigned const n_items = 1 + s.draw (3);
  std::deque<items::Item> all (n_items);
  for (auto& it : all) {
    items::fill (c, w, it);
  }
  unsigned const n = 2 + s.draw (12);
  for (unsigned i = 0; i < n; ++i) {
    auto& it = all[s.draw (n_items)];
    if (s.draw (4) == 3) {
      items::fill (c, w, it);
    }
    AllocPlan const plan = hostile (s);
    c.nontrivial ();
    uri::parts const& p = it.p;
    auto const kind = s.draw (12);
    if (kind <= 5) {
      c.log ("on " + lib::show (lib::to_model (p)));
    }
    switch (kind) {
    case 0:
    case 1:
    case 2: {
      auto const e = ops::valid_model (p);
      stats.add (e ? "probe.valid" : "probe.invalid");
      check (c, plan, "parts::valid", expect_of (e), [&] { return text_of (p.valid ()); });
      break;
    }
    case 3:
      if (p.authority) {
        check (c, plan, "authority::valid", expect_of (authority_model (*p.authority)),
               [&] { return text_of (p.authority->valid ()); });
      }
      break;
    case 4:
      check (c, plan, "path::valid", expect_of (path_model (p.path)), [&] { return text_of (p.path.valid ()); });
      break;
    case 5:
      if constexpr (noexcept (p.path.empty ())) {
        check (c, plan, "path::empty", expect_of (p.path.segments.empty ()), [&] { return text_of (p.path.empty ()); });
      }
      break;
    case 6: {
      auto const set = s.draw (8);
      static uri::pctencode_set const sets[] = {
        uri::pctencode_set::fragment,  uri::pctencode_set::query,     uri::pctencode_set::special_query, uri::pctencode_set::path,
        uri::pctencode_set::userinfo, uri::pctencode_set::component, uri::pctencode_set::form_urlencoded, uri::pctencode_set::none};
      // One octet or a long run of them (there might be state which grows from call to call).
      bool const mixed = s.draw (4) == 3;
      std::array<unsigned char, 400> chars{};
      unsigned const len = s.draw (2) == 0 ? 1 : 1 + s.small (400) % 400U;
      unsigned const first = s.draw (256);
      unsigned const stride = s.draw (3);
      string expect;
      for (unsigned k = 0; k < len; ++k) {
        chars[k] = static_cast<unsigned char> (first + k * stride);
        expect += model::pct_needed (chars[k], static_cast<model::Set> (mixed ? (set + k) % 8 : set)) ? '1' : '0';
      }
      if constexpr (noexcept (uri::needs_pctencode (chars[0], sets[0]))) {
        check (c, plan, "needs_pctencode", expect, [&] {
          std::array<char, 400> r{};
          for (unsigned k = 0; k < len; ++k) {
            r[k] = uri::needs_pctencode (chars[k], sets[mixed ? (set + k) % 8 : set]) ? '1' : '0';
          }
          return [r, len] { return string (r.data (), len); };
        });
      }
      break;
    }
    case 7: {
      // Moving rules: their actions move with them.
      string const text = gen::text (s, w, "");
      string fired;
      auto any = [] (uri::rule const& r) {
        return r.star ([] (uri::rule const& r2) { return r2.single_char ([] (char) { return true; }); }).matched ("any", r);
      };
      string const tag = "a longer tag than fits in a small buffer";
      auto r = uri::rule{text}.concat (any, [&fired, tag] (std::string_view v) { fired += tag + string{v}; });
      if constexpr (std::is_nothrow_move_constructible_v<uri::rule> && std::is_nothrow_move_assignable_v<uri::rule>) {
        check (c, plan, "rule move", "true", [&] {
          uri::rule r2{std::move (r)};
          r = std::move (r2);
          return text_of (true);
        });
      }
      if (!r.done () || fired != tag + text) {
        c.fail ("wrong-answer", "a moved rule fired " + quote (fired) + ", expected " + quote (tag + text));
      }
      break;
    }
    case 8: {
      string const text = ops::pct_text (s);
      string const expect = model::pct_decode (text);
      string got;
      AllocPlan const pl = plan;
      auto const b0 = uri::pctdecode_begin (text);
      auto const e0 = uri::pctdecode_end (text);
      if constexpr (noexcept (uri::pctdecode_begin (text)) && noexcept (b0 == e0)) {
        check (c, pl, "pctdecode_begin/==", expect_of (text.empty ()),
               [&] { return text_of (uri::pctdecode_begin (text) == uri::pctdecode_end (text)); });
      }
      if constexpr (noexcept (uri::pctdecoder{text})) {
        check (c, pl, "pctdecoder", expect_of (text.empty ()), [&] {
          uri::pctdecoder const d{text};
          return text_of (d.begin () == d.end ());
        });
      }
      for (auto it2 = b0; it2 != e0; ++it2) {
        got += *it2;
      }
      if (got != expect) {
        c.fail ("wrong-answer", "pctdecode of " + quote (text) + " gave " + quote (got));
      }
      break;
    }
    case 9:
      switch (s.draw (9)) {
      case 0: transcoder_ops<char8_t, char16_t> (c, plan); break;
      case 1: transcoder_ops<char8_t, char32_t> (c, plan); break;
      case 2: transcoder_ops<char16_t, char8_t> (c, plan); break;
      case 3: transcoder_ops<char16_t, char32_t> (c, plan); break;
      case 4: transcoder_ops<char32_t, char8_t> (c, plan); break;
      case 5: transcoder_ops<char32_t, char16_t> (c, plan); break;
      case 6: transcoder_ops<char8_t, char8_t> (c, plan); break;
      case 7: transcoder_ops<char16_t, char16_t> (c, plan); break;
      default: transcoder_ops<char32_t, char32_t> (c, plan); break;
      }
      break;
    case 10: {
      // Moving and destroying parsed URIs.
      uri::parts a = p;
      auto const before = lib::show (lib::to_model (a));
      if constexpr (std::is_nothrow_move_constructible_v<uri::parts> && std::is_nothrow_move_assignable_v<uri::parts>) {
        uri::parts d;
        check (c, plan, "parts move", "true", [&] {
          uri::parts b{std::move (a)};
          d = std::move (b);
          return text_of (true);
        });
        if (lib::show (lib::to_model (d)) != before) {
          c.fail ("wrong-answer", "moving " + before + " gave " + lib::show (lib::to_model (d)));
        }
      }
      break;
    }
    default: {
      auto const e = uri::punycode::make_error_code (uri::punycode::decode_error_code::bad_input);
      string const name = e.category ().name ();
      check (c, plan, "error_category::name", name, [&] {
        char const* const r = e.category ().name ();
        return [r] { return string{r}; };
      });
      break;
    }
    }
  }
}
}  // namespace sim
