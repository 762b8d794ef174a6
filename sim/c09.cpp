// C09: data flows from sources to sinks which may fail at any access.
#include <memory>

#include "c09.hpp"
#include "uri/icubaby.hpp"
#include "uri/pctdecode.hpp"
#include "uri/pctencode.hpp"
#include "uri/punycode.hpp"

namespace sim::wire {
namespace {
using std::forward_iterator_tag;
using std::input_iterator_tag;
using std::bidirectional_iterator_tag;
using std::random_access_iterator_tag;

template <typename T, typename Tag> From<T, Tag> first (Source9<T>& s) { return {&s, 0}; }
template <typename T, typename Tag> From<T, Tag> last (Source9<T>& s) { return {&s, s.data.size ()}; }
template <typename T, typename Tag> auto common_range (Source9<T>& s) { return std::ranges::subrange (first<T, Tag> (s), last<T, Tag> (s)); }
template <typename T, typename Tag> auto sentinel_range (Source9<T>& s) { return std::ranges::subrange (first<T, Tag> (s), End<T>{s.data.size ()}); }

template <typename T> string check_end (To<T> const& out, Sink9<T> const& snk) {
  if (out.pos () != snk.got.size ()) {
    snk.w->rule ("sink-position", "returned position " + std::to_string (out.pos ()) + " of a sink which had " + std::to_string (snk.got.size ()) + " elements");
  }
  return "done";
}
string yes_no (bool b) { return b ? "yes" : "no"; }

#if PART == 0
template <typename Tag, typename T> std::unique_ptr<Transfer> job_pctencode (Ctx& c, string const& text, char const* kind) {
  static uri::pctencode_set const sets[] = {uri::pctencode_set::component, uri::pctencode_set::none, uri::pctencode_set::fragment, uri::pctencode_set::query, uri::pctencode_set::special_query,
                                            uri::pctencode_set::path, uri::pctencode_set::userinfo, uri::pctencode_set::form_urlencoded};
  static model::Set const models[] = {model::s_component, model::s_none, model::s_fragment, model::s_query, model::s_special_query, model::s_path, model::s_userinfo, model::s_form};
  auto const k = c.src.draw (8);
  auto const set = sets[k];
  if (c.src.draw (5) == 4) {
    auto j = std::make_unique<Job<T, char>> ();
    j->name = string{"needs_pctencode/"} + kind;
    j->data = to_vec<T> (text);
    j->single = std::is_same_v<Tag, input_iterator_tag>;
    bool want = false;
    for (char const ch : text) {
      want = want || model::pct_needed (static_cast<unsigned char> (ch), models[k]);
    }
    j->want = vec<char>{};
    j->want_answer = yes_no (want);
    j->run = [set] (Source9<T>& s, Sink9<char>&) { return yes_no (uri::needs_pctencode (first<T, Tag> (s), last<T, Tag> (s), set)); };
    return j;
  }
  auto j = std::make_unique<Job<T, T>> ();
  j->name = string{"pctencode/"} + kind;
  j->data = to_vec<T> (text);
  j->single = std::is_same_v<Tag, input_iterator_tag>;
  j->reads_all = true;
  j->want = to_vec<T> (model::pct_encode (text, models[k]));
  j->run = [set] (Source9<T>& s, Sink9<T>& o) {
    return check_end (uri::pctencode (first<T, Tag> (s), last<T, Tag> (s), To<T>{&o}, set), o);
  };
  return j;
}
// Cursors are values: each stands where it was put, whatever is done with the others.
template <typename It> To<char> with_cursors (It it, It const end, To<char> out, std::uint32_t plan, bool steps) {
  if (!steps) {
    // One cursor ahead of the other. What was read through one is still there after the other is read.
    It lead = it;
    for (unsigned k = plan % 5; k > 0 && lead != end; --k) {
      ++lead;
    }
    for (; it != end; ++it) {
      auto const& lag_char = *it;
      if (lead != end) {
        auto const& lead_char = *lead;
        static_cast<void> (lead_char);
        *out = lag_char;
        lead++;
      } else {
        *out = lag_char;
      }
      ++out;
    }
    return out;
  }
  // Every way to take a step, going on from either of the cursors there are afterwards.
  while (it != end) {
    plan = plan * 1664525U + 1013904223U;
    switch (plan >> 29U) {
    case 0: *out = *it++; break;
    case 1: {
      auto old = it++;
      *out = *old;
      it = ++old;
      break;
    }
    case 2: {
      It const old = it;
      ++it;
      *out = *old;
      break;
    }
    case 3: {
      It next = it;
      next++;
      *out = *it;
      it = next;
      break;
    }
    case 4: {
      It other = it;
      ++other;
      for (unsigned k = (plan >> 20U) % 4; k > 0 && other != end; --k) {
        static_cast<void> (*other);
        other++;
      }
      *out = *it;
      ++it;
      break;
    }
    case 5: {
      auto const old = it++;
      It again = old;
      *out = *again;
      it = std::next (again);
      break;
    }
    default:
      *out = *it;
      ++it;
      break;
    }
    ++out;
  }
  return out;
}
template <typename Tag> std::unique_ptr<Transfer> job_pctdecode (Ctx& c, string const& text, char const* kind) {
  auto j = std::make_unique<Job<char, char>> ();
  j->data = to_vec<char> (text);
  auto const how = c.src.draw (std::is_same_v<Tag, input_iterator_tag> ? 1 : 8);
  std::uint32_t const plan = how < 6 ? 0 : c.src.draw (1U << 16U);
  bool const view_cursors = how >= 6 && c.src.draw (2) == 1;
  if (how == 0) {
    j->name = string{"needs_pctdecode/"} + kind;
    j->single = std::is_same_v<Tag, input_iterator_tag>;
    j->want = vec<char>{};
    j->want_answer = yes_no (text.find ('%') != string::npos);
    j->run = [] (Source9<char>& s, Sink9<char>&) { return yes_no (uri::needs_pctdecode (first<char, Tag> (s), last<char, Tag> (s))); };
    return j;
  }
  if constexpr (!std::is_same_v<Tag, input_iterator_tag>) {
    j->name = string{how == 1 ? "pctdecoder/" : how == 2 ? "pctdecode_view/" : how == 3 ? "pctdecode_iterator/" : how == 4 ? "pctdecode_view/ranges::move/" : how == 5 ? "pctdecode_view/move_iterator/" : how == 6 ? "pctdecode/two cursors/" : "pctdecode/steps/"} + kind;
    j->want = to_vec<char> (model::pct_decode (text));
    j->reads_all = true;
    j->run = [how, plan, view_cursors] (Source9<char>& s, Sink9<char>& o) {
      if (how >= 6) {
        if (view_cursors) {
          auto const view = common_range<char, Tag> (s) | uri::views::pctdecode;
          return check_end (with_cursors (view.begin (), view.end (), To<char>{&o}, plan, how == 7), o);
        }
        uri::pctdecoder<From<char, Tag>> const d{first<char, Tag> (s), last<char, Tag> (s)};
        return check_end (with_cursors (d.begin (), d.end (), To<char>{&o}, plan, how == 7), o);
      }
      if (how == 1) {
        uri::pctdecoder<From<char, Tag>> const d{first<char, Tag> (s), last<char, Tag> (s)};
        return check_end (std::copy (d.begin (), d.end (), To<char>{&o}), o);
      }
      if (how == 2) {
        auto const view = common_range<char, Tag> (s) | uri::views::pctdecode;
        return check_end (std::ranges::copy (view, To<char>{&o}).out, o);
      }
      if (how == 4) {
        return check_end (std::ranges::move (common_range<char, Tag> (s) | uri::views::pctdecode, To<char>{&o}).out, o);
      }
      if (how == 5) {
        auto const view = common_range<char, Tag> (s) | uri::views::pctdecode;
        To<char> out{&o};
        std::move_iterator const end{view.end ()};
        for (std::move_iterator it{view.begin ()}; it != end; ++it, ++out) {
          *out = *it;
        }
        return check_end (out, o);
      }
      uri::pctdecode_iterator<From<char, Tag>> it{first<char, Tag> (s), last<char, Tag> (s)};
      uri::pctdecode_iterator<From<char, Tag>> const end{last<char, Tag> (s), last<char, Tag> (s)};
      To<char> out{&o};
      while (it != end) {
        *out = *it;
        ++out;
        it++;
      }
      return check_end (out, o);
    };
  }
  return j;
}
// Anything the two transfers below produce is encoded text of Unicode scalar values.
template <typename Tag> std::unique_ptr<Transfer> job_puny_encode (Ctx& c, char const* kind) {
  auto j = std::make_unique<Job<char32_t, char>> ();
  auto cps = gen::code_points (c.src, 12);
  bool const plain = c.src.draw (2) == 1;
  bool const sentinel = c.src.draw (2) == 1;
  j->name = string{"punycode::encode/"} + kind;
  j->data = to_vec<char32_t> (cps);
  j->reads_all = true;
  bool non_ascii = false;
  for (auto const cp : cps) {
    non_ascii = non_ascii || cp >= 0x80;
  }
  string want = model::puny_encode (cps);
  if (plain && !non_ascii) {
    want = model::to_utf8 (cps);
  }
  j->want = to_vec<char> (want);
  j->want_answer = yes_no (non_ascii) + " at " + std::to_string (cps.size ());
  j->run = [plain, sentinel] (Source9<char32_t>& s, Sink9<char>& o) {
    auto finish = [&] (auto const& r) {
      check_end (std::get<1> (r), o);
      return yes_no (std::get<2> (r)) + " at " + std::to_string (std::get<0> (r).pos ());
    };
    if (sentinel) {
      return finish (uri::punycode::encode (sentinel_range<char32_t, Tag> (s), plain, To<char>{&o}));
    }
    return finish (uri::punycode::encode (common_range<char32_t, Tag> (s), plain, To<char>{&o}));
  };
  return j;
}
template <typename Tag> std::unique_ptr<Transfer> job_puny_decode (Ctx& c, char const* kind) {
  auto j = std::make_unique<Job<char, char>> ();
  string text = c.src.draw (4) == 3 ? gen::text (c.src, gen::Swarm{c.src}, "-") : model::puny_encode (gen::code_points (c.src, 12));
  if (c.src.draw (3) == 2) {
    text = gen::mutate (c.src, text);
  }
  bool const range = c.src.draw (2) == 1;
  j->name = string{"punycode::decode/"} + kind;
  j->data = to_vec<char> (text);
  j->want = vec<char>{};
  bool malformed = false;
  auto const want = model::puny_decode (text, &malformed);
  if (want) {
    j->want_answer = "[" + utf::units (utf::str<char32_t> (want->begin (), want->end ())) + "] at " + std::to_string (text.size ());
    j->reads_all = true;
  } else if (malformed) {
    j->want_answer = "bad input";
  }
  j->run = [range] (Source9<char>& s, Sink9<char>&) {
    auto r = range ? uri::punycode::decode (common_range<char, Tag> (s)) : uri::punycode::decode (first<char, Tag> (s), last<char, Tag> (s));
    Quiet const q;
    if (auto const* const e = std::get_if<std::error_code> (&r)) {
      return *e == uri::punycode::make_error_code (uri::punycode::decode_error_code::bad_input) ? string{"bad input"} : string{"error"};
    }
    auto const& ok = std::get<1> (r);
    return "[" + utf::units (ok.str) + "] at " + std::to_string (ok.in.pos ());
  };
  return j;
}
// Text which is percent-encoded UTF-8 goes through three stages at once.
template <typename Tag> std::unique_ptr<Transfer> job_pipeline (Ctx& c, char const* kind) {
  auto j = std::make_unique<Job<char8_t, char>> ();
  auto const cps = gen::code_points (c.src, 8);
  string const text = model::pct_encode (model::to_utf8 (cps), model::s_component);
  bool non_ascii = false;
  for (auto const cp : cps) {
    non_ascii = non_ascii || cp >= 0x80;
  }
  j->name = string{"pctdecode|transcode|punycode/"} + kind;
  j->data = to_vec<char8_t> (text);
  j->want = to_vec<char> (model::puny_encode (cps));
  j->want_answer = yes_no (non_ascii);
  j->reads_all = true;
  j->run = [] (Source9<char8_t>& s, Sink9<char>& o) {
    auto const r = uri::punycode::encode (common_range<char8_t, Tag> (s) | uri::views::pctdecode | icubaby::views::transcode<char8_t, char32_t>, false, To<char>{&o});
    check_end (std::get<1> (r), o);
    return yes_no (std::get<2> (r));
  };
  return j;
}
std::unique_ptr<Transfer> job_transcode_encode (Ctx& c) {
  auto j = std::make_unique<Job<char32_t, char8_t>> ();
  auto const cps = gen::code_points (c.src, 10);
  j->name = "transcode|pctencode/input";
  j->data = to_vec<char32_t> (cps);
  j->single = true;
  j->reads_all = true;
  j->want = to_vec<char8_t> (model::pct_encode (model::to_utf8 (cps), model::s_component));
  j->run = [] (Source9<char32_t>& s, Sink9<char8_t>& o) {
    auto const view = sentinel_range<char32_t, input_iterator_tag> (s) | icubaby::views::transcode<char32_t, char8_t>;
    To<char8_t> out{&o};
    for (char8_t const u : view) {
      out = uri::pctencode (&u, &u + 1, out, uri::pctencode_set::component);
    }
    return check_end (out, o);
  };
  return j;
}
#else
#if PART == 8
using F = char8_t;
#elif PART == 16
using F = char16_t;
#elif PART == 32
using F = char32_t;
#else
using F = std::byte;
#endif
vec<F> draw_units (Ctx& c, string* note) {
  auto const cps = gen::code_points (c.src, 10);
  vec<F> r;
  if constexpr (std::is_same_v<F, std::byte>) {
    auto const how = c.src.draw (5);
    bool const mark = how != 0;
    auto put = [&] (std::uint32_t v, unsigned n, bool big) {
      for (unsigned i = 0; i < n; ++i) {
        r.push_back (static_cast<F> (v >> (8 * (big ? n - 1 - i : i))));
      }
    };
    auto const text = mark ? std::u32string{0xFEFF} + cps : cps;
    switch (how) {
    case 1:
    case 2:
      for (auto const u : utf::encode<char16_t> (text)) {
        put (u, 2, how == 1);
      }
      break;
    case 3:
      for (auto const u : text) {
        put (u, 4, c.src.draw (1) == 0);
      }
      break;
    default:
      for (auto const u : utf::encode<char8_t> (text)) {
        put (u, 1, true);
      }
    }
    if (c.src.draw (3) == 2 && !r.empty ()) {
      r.resize (c.src.draw (static_cast<std::uint32_t> (r.size ())));
    }
  } else {
    auto u = utf::encode<F> (cps);
    if (c.src.draw (3) == 2) {
      utf::damage (c.src, u, note);
    }
    r.assign (u.begin (), u.end ());
  }
  return r;
}
template <typename T> std::unique_ptr<Transfer> job_transcoder (Ctx& c) {
  auto j = std::make_unique<Job<F, T>> ();
  string note;
  j->data = draw_units (c, &note);
  j->reads_all = true;
  if constexpr (!std::is_same_v<F, std::byte>) {
    auto const d = utf::decode (utf::str<F> (j->data.begin (), j->data.end ()));
    if (d.well_formed) {
      j->want = to_vec<T> (utf::encode<T> (d.cps));
      j->want_answer = "well formed";
    } else {
      j->want_answer = "ill formed";
    }
  }
  auto const how = c.src.draw (6);
  static char const* const names[] = {"transcoder/units", "transcoder/iterator", "transcode_view/input", "transcode_view/forward", "transcode_view/common", "transcode_view/random"};
  j->name = names[how];
  j->single = how <= 2;
  auto verdict = [] (bool ok) { return string{ok ? "well formed" : "ill formed"}; };
  j->run = [how, verdict] (Source9<F>& s, Sink9<T>& o) {
    using Tr = icubaby::transcoder<F, T>;
    auto walk = [&] (auto range) {
      auto const view = range | icubaby::views::transcode<F, T>;
      check_end (std::ranges::copy (view.begin (), view.end (), To<T>{&o}).out, o);
      return verdict (view.well_formed ());
    };
    switch (how) {
    case 0: {
      Tr t;
      To<T> out{&o};
      auto const end = last<F, input_iterator_tag> (s);
      for (auto it = first<F, input_iterator_tag> (s); it != end; ++it) {
        out = t (*it, out);
      }
      out = t.end_cp (out);
      check_end (out, o);
      return verdict (t.well_formed ());
    }
    case 1: {
      Tr t;
      auto it = std::copy (first<F, input_iterator_tag> (s), last<F, input_iterator_tag> (s), icubaby::iterator<Tr, To<T>>{&t, To<T>{&o}});
      it = t.end_cp (it);
      check_end (it.base (), o);
      return verdict (t.well_formed ());
    }
    case 2: return walk (sentinel_range<F, input_iterator_tag> (s));
    case 3: return walk (sentinel_range<F, forward_iterator_tag> (s));
    case 4: return walk (common_range<F, bidirectional_iterator_tag> (s));
    default: return walk (common_range<F, random_access_iterator_tag> (s));
    }
  };
  return j;
}
#endif
}  // namespace

#if PART == 0
std::unique_ptr<Transfer> transfer_text (Ctx& c, bool simple) {
  gen::Swarm const w{c.src};
  auto text = [&] { return c.src.draw (2) == 0 ? gen::text (c.src, w, ":@/?% ") : gen::bytes (c.src, 20); };
  auto const kind = c.src.draw (simple ? 2 : 6);
  auto const cat = c.src.draw (4);
  switch (kind) {
  case 0:
    switch (cat) {
    case 0: return job_pctencode<input_iterator_tag, char> (c, text (), "input");
    case 1: return job_pctencode<forward_iterator_tag, unsigned char> (c, text (), "forward");
    case 2: return job_pctencode<input_iterator_tag, signed char> (c, text (), "input");
    default: return job_pctencode<random_access_iterator_tag, char> (c, text (), "random");
    }
  case 1:
    switch (cat) {
    case 0:
    case 1:
    case 2: return job_pctdecode<random_access_iterator_tag> (c, text (), "random");
    default: return job_pctdecode<input_iterator_tag> (c, text (), "input");
    }
  case 2:
    switch (cat) {
    case 0:
    case 1: return job_puny_encode<forward_iterator_tag> (c, "forward");
    case 2: return job_puny_encode<bidirectional_iterator_tag> (c, "bidirectional");
    default: return job_puny_encode<random_access_iterator_tag> (c, "random");
    }
  case 3:
    return cat < 2 ? job_puny_decode<bidirectional_iterator_tag> (c, "bidirectional") : job_puny_decode<random_access_iterator_tag> (c, "random");
  case 4:
    return job_pipeline<random_access_iterator_tag> (c, "random");
  default: return job_transcode_encode (c);
  }
}
std::unique_ptr<Transfer> draw_transfer (Ctx& c, bool simple) {
  switch (c.src.draw (8)) {
  case 4: return transfer8 (c);
  case 5: return transfer16 (c);
  case 6: return transfer32 (c);
  case 7: return transfer_bytes (c);
  default: return transfer_text (c, simple);
  }
}
}  // namespace sim::wire

namespace sim {
char const* scenario_name () { return "C09"; }
unsigned scenario_chunk () { return 32; }
void scenario_init () {}
void run_case (Ctx& c) {
  unsigned const n = 1 + c.src.draw (3);
  for (unsigned i = 0; i < n; ++i) {
    wire::draw_transfer (c, false)->go (c, false);
  }
}
}  // namespace sim
#else
#define CAT2(a, b) a##b
#define CAT(a, b) CAT2 (a, b)
#if PART == 1
#define NAME transfer_bytes
#else
#define NAME CAT (transfer, PART)
#endif
std::unique_ptr<Transfer> NAME (Ctx& c) {
  switch (c.src.draw (3)) {
  case 0: return job_transcoder<char8_t> (c);
  case 1: return job_transcoder<char16_t> (c);
  default: return job_transcoder<char32_t> (c);
  }
}
}  // namespace sim::wire
#endif
