// One call of the library's public API together with the answer the models give.
//
// Used by every scenario whose property is "whatever happens around the call, the answer is the right one": the call
// is data (owned inputs), run() performs it and renders the answer as text, expect is the model's rendering.
#ifndef SIM_OPS_HPP
#define SIM_OPS_HPP
#include <algorithm>
#include <deque>
#include <filesystem>
#include <functional>
#include <memory>
#include <optional>
#include <sstream>
#include <string>
#include <vector>

#include "gen.hpp"
#include "lib.hpp"
#include "utf.hpp"
#include "uri/icubaby.hpp"
#include "uri/parts.hpp"
#include "uri/pctdecode.hpp"
#include "uri/pctencode.hpp"
#include "uri/punycode.hpp"
#include "uri/uri.hpp"

namespace ops {
using std::string;

// Wraps the part of a call that is the library's. A scenario that injects allocation faults sets `arm`.
inline bool arm = false;
inline sim::AllocPlan plan;
// A scenario may want to know when the library is entered and left.
inline void (*on_enter) () = nullptr;
inline void (*on_leave) () = nullptr;
struct Inside {
  Inside () {
    if (on_enter != nullptr) {
      on_enter ();
    }
  }
  ~Inside () {
    if (on_leave != nullptr) {
      on_leave ();
    }
  }
  Inside (Inside const&) = delete;
  Inside& operator= (Inside const&) = delete;
};
template <typename F> auto guarded (F&& f) {
  Inside const inside;
  if (arm) {
    sim::AllocScope const scope{plan};
    return f ();
  }
  return f ();
}

struct Call {
  string name;                            // which operation
  string text;                            // the call, for traces
  std::optional<string> expect;           // the models' answer, if they have one
  std::function<string ()> run;           // performs the call
  std::function<bool ()> intact;          // the inputs are as they were
};

inline string show (std::optional<uri::parts> const& p) {
  return p ? lib::show (lib::to_model (*p)) : string{"rejected"};
}
inline string show_error (std::error_code const& e) { return string{"error "} + e.category ().name () + ": " + e.message (); }

// Read-only objects which several calls (and, in the thread scenario, several threads) use at once.
struct Shared {
  std::vector<string> texts;                          // URIs
  std::vector<string> refs;                           // references
  std::vector<uri::parts> parts;                      // split of texts, or edited
  std::vector<std::u32string> cps;
  std::deque<string> arena;
};
// The representation of a URI, made without calling the library.
inline uri::parts cold_parts (model::Uri const& m, std::deque<string>& arena) {
  uri::parts p;
  auto keep = [&] (string const& t) { return std::string_view{arena.emplace_back (t)}; };
  auto keep_opt = [&] (std::optional<string> const& t) {
    return t ? std::optional<std::string_view>{keep (*t)} : std::optional<std::string_view>{};
  };
  p.scheme = keep_opt (m.scheme);
  if (m.has_authority) {
    p.authority.emplace ();
    p.authority->userinfo = keep_opt (m.userinfo);
    p.authority->host = keep (m.host);
    p.authority->port = keep_opt (m.port);
  }
  string path = m.path;
  if (!path.empty () && path[0] == '/') {
    p.path.absolute = true;
    path.erase (0, 1);
  }
  if (!m.path.empty ()) {
    std::size_t from = 0;
    for (;;) {
      auto const to = path.find ('/', from);
      p.path.segments.push_back (keep (path.substr (from, to == string::npos ? to : to - from)));
      if (to == string::npos) {
        break;
      }
      from = to + 1;
    }
  }
  p.query = keep_opt (m.query);
  p.fragment = keep_opt (m.fragment);
  return p;
}
// Set when inputs must be made without calling the library.
inline bool cold = false;
inline uri::parts parse_for_input (string const& t, bool ref, std::deque<string>& arena) {
  if (cold) {
    auto const m = model::parse (t, ref);
    return m ? cold_parts (*m, arena) : uri::parts{};
  }
  auto const u = ref ? uri::split_reference (t) : uri::split (t);
  return u ? *u : uri::parts{};
}
inline std::shared_ptr<Shared const> make_shared_pool (sim::Source& s, gen::Swarm const& w, unsigned n) {
  auto p = std::make_shared<Shared> ();
  for (unsigned i = 0; i < n; ++i) {
    p->texts.push_back (gen::uri (s, w));
    p->refs.push_back (gen::reference (s, w));
    p->cps.push_back (gen::code_points (s, 24));
  }
  for (auto const& t : p->texts) {
    p->parts.push_back (parse_for_input (t, false, p->arena));
  }
  return p;
}

template <typename From, typename To> std::basic_string<To> transcode_all (std::basic_string<From> const& in, bool* well_formed) {
  std::basic_string<To> out;
  icubaby::transcoder<From, To> t;
  auto it = std::back_inserter (out);
  for (auto const c : in) {
    it = t (c, it);
  }
  t.end_cp (it);
  *well_formed = t.well_formed ();
  return out;
}
template <typename T> string units (std::basic_string<T> const& s) {
  string r;
  char b[12];
  for (auto const c : s) {
    std::snprintf (b, sizeof b, "%x ", static_cast<unsigned> (c));
    r += b;
  }
  return r;
}
template <typename T> std::basic_string<T> encode_cps (std::u32string const& cps) {
  std::basic_string<T> r;
  for (auto const c : cps) {
    if constexpr (sizeof (T) == 1) {
      model::utf8_put (c, r);
    } else if constexpr (sizeof (T) == 2) {
      model::utf16_put (c, r);
    } else {
      r.push_back (static_cast<T> (c));
    }
  }
  return r;
}
template <typename From, typename To> Call transcode_call (std::u32string const& cps, bool view) {
  Call c;
  auto in = std::make_shared<std::basic_string<From> const> (encode_cps<From> (cps));
  auto copy = std::make_shared<std::basic_string<From> const> (*in);
  c.name = "utf" + std::to_string (8 * sizeof (From)) + "to" + std::to_string (8 * sizeof (To)) + (view ? "_view" : "");
  c.text = c.name + "(" + units (*in) + ")";
  c.expect = units (encode_cps<To> (cps)) + "well-formed";
  c.run = [in, view] {
    bool wf = true;
    auto out = guarded ([&] {
      if (view) {
        std::basic_string<To> r;
        auto v = *in | icubaby::views::transcode<From, To>;
        for (auto const u : v) {
          r.push_back (u);
        }
        wf = v.well_formed ();
        return r;
      }
      return transcode_all<From, To> (*in, &wf);
    });
    return units (out) + (wf ? "well-formed" : "ill-formed");
  };
  c.intact = [in, copy] { return *in == *copy; };
  return c;
}

// Text of any kind, possibly damaged: no model answer, but the same answer every time.
template <typename To> Call raw_transcode_call (std::shared_ptr<std::vector<std::byte> const> const& in, bool view) {
  Call c;
  auto copy = std::make_shared<std::vector<std::byte> const> (*in);
  c.name = string{"bytes_to_utf"} + std::to_string (8 * sizeof (To)) + (view ? "_view" : "");
  c.text = c.name + "(";
  for (auto const b : *in) {
    char t[4];
    std::snprintf (t, sizeof t, "%02x ", static_cast<unsigned> (b));
    c.text += t;
  }
  c.text += ")";
  c.run = [in, view] {
    string extra;
    auto out = guarded ([&] {
      std::basic_string<To> r;
      if (view) {
        auto v = *in | icubaby::views::transcode<std::byte, To>;
        for (auto const u : v) {
          r.push_back (u);
        }
        extra = v.well_formed () ? "well-formed" : "ill-formed";
        return r;
      }
      icubaby::transcoder<std::byte, To> t;
      auto it = std::back_inserter (r);
      for (auto const b : *in) {
        it = t (b, it);
      }
      extra = t.partial () ? "partial " : "";
      t.end_cp (it);
      extra += t.well_formed () ? "well-formed " : "ill-formed ";
      extra += std::to_string (static_cast<int> (t.selected_encoding ()));
      return r;
    });
    return units (out) + extra;
  };
  c.intact = [in, copy] { return *in == *copy; };
  return c;
}
template <typename From, typename To> Call damaged_call (std::basic_string<From> const& text, bool view) {
  Call c = transcode_call<From, To> ({}, view);
  auto in = std::make_shared<std::basic_string<From> const> (text);
  auto copy = std::make_shared<std::basic_string<From> const> (text);
  c.name += "_damaged";
  c.text = c.name + "(" + units (text) + ")";
  c.expect.reset ();
  c.run = [in, view] {
    bool wf = true;
    auto out = guarded ([&] {
      if (view) {
        std::basic_string<To> r;
        auto v = *in | icubaby::views::transcode<From, To>;
        for (auto const u : v) {
          r.push_back (u);
        }
        wf = v.well_formed ();
        return r;
      }
      return transcode_all<From, To> (*in, &wf);
    });
    return units (out) + (wf ? "well-formed" : "ill-formed");
  };
  c.intact = [in, copy] { return *in == *copy; };
  return c;
}
template <typename From> Call make_damaged (sim::Source& s, bool view) {
  auto text = encode_cps<From> (gen::code_points (s, 24));
  string what;
  utf::damage (s, text, &what);
  switch (s.draw (3)) {
  case 0: return damaged_call<From, char8_t> (text, view);
  case 1: return damaged_call<From, char16_t> (text, view);
  default: return damaged_call<From, char32_t> (text, view);
  }
}
inline Call make_bytes (sim::Source& s, bool view) {
  auto const cps = gen::code_points (s, 24);
  unsigned const enc = s.draw (5);
  string b;
  if (s.draw (4) != 3) {
    static string const marks[] = {"\xEF\xBB\xBF", "\xFE\xFF", "\xFF\xFE", string{"\0\0\xFE\xFF", 4}, string{"\xFF\xFE\0\0", 4}};
    b = marks[enc];
  }
  auto put = [&] (std::uint32_t u, unsigned n, bool little) {
    for (unsigned i = 0; i < n; ++i) {
      b += static_cast<char> (u >> (8 * (little ? i : n - 1 - i)));
    }
  };
  if (enc == 0) {
    for (auto const u : encode_cps<char8_t> (cps)) {
      put (u, 1, false);
    }
  } else if (enc < 3) {
    for (auto const u : encode_cps<char16_t> (cps)) {
      put (u, 2, enc == 2);
    }
  } else {
    for (auto const u : cps) {
      put (u, 4, enc == 4);
    }
  }
  if (s.draw (2) == 1) {
    string what;
    std::basic_string<char8_t> d (b.begin (), b.end ());
    utf::damage (s, d, &what);
    b.assign (d.begin (), d.end ());
  }
  auto in = std::make_shared<std::vector<std::byte>> ();
  for (char const c : b) {
    in->push_back (static_cast<std::byte> (c));
  }
  switch (s.draw (3)) {
  case 0: return raw_transcode_call<char8_t> (in, view);
  case 1: return raw_transcode_call<char16_t> (in, view);
  default: return raw_transcode_call<char32_t> (in, view);
  }
}

// The pieces of parts rendered from models, for encode and decode.
inline bool encodable (uri::parts const& p) {
  return !p.authority || model::from_utf8 (p.authority->host).has_value ();
}
inline model::Uri encoded_model (uri::parts const& p) {
  using namespace model;
  Uri u;
  if (p.scheme) {
    u.scheme = pct_encode (*p.scheme, s_none);
  }
  u.has_authority = p.authority.has_value ();
  if (p.authority) {
    if (p.authority->userinfo) {
      u.userinfo = pct_encode (*p.authority->userinfo, s_userinfo);
    }
    u.host = host_encode (p.authority->host);
    if (p.authority->port) {
      u.port = pct_encode (*p.authority->port, s_none);
    }
  }
  bool sep = p.path.absolute || (u.has_authority && !p.path.segments.empty ());
  for (auto const& s : p.path.segments) {
    u.path += (sep ? "/" : "") + pct_encode (s, s_path);
    sep = true;
  }
  if (p.query) {
    u.query = pct_encode (*p.query, s_query);
  }
  if (p.fragment) {
    u.fragment = pct_encode (*p.fragment, s_fragment);
  }
  return u;
}
inline std::optional<model::Uri> decoded_model (uri::parts const& p) {
  using namespace model;
  Uri u;
  if (p.scheme) {
    u.scheme = pct_decode (*p.scheme);
  }
  u.has_authority = p.authority.has_value ();
  if (p.authority) {
    if (p.authority->userinfo) {
      u.userinfo = pct_decode (*p.authority->userinfo);
    }
    auto h = host_decode (p.authority->host);
    if (!h || (h->empty () && !p.authority->host.empty ())) {  // "xn--" and "xn---" are not the encoding of anything
      return {};
    }
    u.host = *h;
    if (p.authority->port) {
      u.port = pct_decode (*p.authority->port);
    }
  }
  bool sep = p.path.absolute || (u.has_authority && !p.path.segments.empty ());
  for (auto const& s : p.path.segments) {
    u.path += (sep ? "/" : "") + pct_decode (s);
    sep = true;
  }
  if (p.query) {
    u.query = pct_decode (*p.query);
  }
  if (p.fragment) {
    u.fragment = pct_decode (*p.fragment);
  }
  return u;
}

// RFC 3986 validity of parts which may hold any text.
inline bool valid_model (uri::parts const& p) {
  using namespace model;
  auto ok = [] (std::optional<std::string_view> const& v, bool (*f) (std::string_view)) { return !v || f (*v); };
  if (!p.scheme || !scheme_ok (*p.scheme)) {
    return false;
  }
  if (p.authority && (!ok (p.authority->userinfo, userinfo_ok) || !host_ok (p.authority->host) ||
                      !ok (p.authority->port, port_ok))) {
    return false;
  }
  for (auto const& s : p.path.segments) {
    if (!segment_ok (s)) {
      return false;
    }
  }
  return ok (p.query, query_ok) && ok (p.fragment, query_ok);
}

struct Owned {
  string a, b;
  uri::parts p, q;
  lib::Snapshot* sp = nullptr;
};

enum Kind {
  k_split, k_split_reference, k_join_text, k_join_parts, k_compose, k_stream, k_remove_dots, k_path_string, k_path_fs,
  k_equal, k_valid, k_pctencode, k_pctdecode, k_pctdecode_view, k_needs, k_puny_encode, k_puny_decode, k_utf,
  k_utf_view, k_encode, k_decode, k_category, k_utf_damaged, k_bytes, k_count
};

inline string pct_text (sim::Source& s) { return gen::bytes (s, 60); }

// A call of the given kind with freshly generated private inputs, or with the shared ones.
inline Call make (sim::Source& s, gen::Swarm const& w, unsigned kind, std::shared_ptr<Shared const> const& pool = {}) {
  Call c;
  auto text = [&] (bool ref) {
    string t = ref ? gen::reference (s, w) : gen::uri (s, w);
    return s.draw (3) == 2 ? gen::mutate (s, t) : t;
  };
  // A URI held by the pool or by the call.
  struct In {
    std::shared_ptr<Shared const> pool;
    string own_text, own_ref;
    string copy_text, copy_ref;
    uri::parts own_parts, own_parts2;
    std::deque<string> arena;
    string const* text;
    string const* ref;
    uri::parts const* parts;
    uri::parts const* parts2;
    std::optional<lib::Snapshot> snap, snap2;
    bool intact () const {
      return *text == copy_text && *ref == copy_ref && (!snap || *snap == lib::Snapshot{*parts}) &&
             (!snap2 || *snap2 == lib::Snapshot{*parts2});
    }
  };
  auto in = std::make_shared<In> ();
  in->pool = pool;
  bool const use_pool = pool && !pool->texts.empty () && s.draw (2) == 0;
  std::uint32_t const k1 = use_pool ? s.draw (static_cast<std::uint32_t> (pool->texts.size ())) : 0;
  std::uint32_t const k2 = use_pool ? s.draw (static_cast<std::uint32_t> (pool->texts.size ())) : 0;
  auto want_texts = [&] (bool ref) {
    if (use_pool) {
      in->text = ref ? &pool->refs[k1] : &pool->texts[k1];
      in->ref = &pool->refs[k2];
    } else {
      in->own_text = text (ref);
      in->own_ref = text (true);
      in->text = &in->own_text;
      in->ref = &in->own_ref;
    }
    in->copy_text = *in->text;
    in->copy_ref = *in->ref;
  };
  // Parts whose text comes from valid URIs.
  auto want_parts = [&] {
    in->own_text = gen::uri (s, w);
    in->own_ref = gen::reference (s, w);
    in->text = &in->own_text;
    in->ref = &in->own_ref;
    if (use_pool) {
      in->parts = &pool->parts[k1];
      in->parts2 = &pool->parts[k2];
    } else {
      in->own_parts = parse_for_input (in->own_text, false, in->arena);
      in->own_parts2 = parse_for_input (in->own_ref, true, in->arena);
      in->parts = &in->own_parts;
      in->parts2 = &in->own_parts2;
    }
    in->copy_text = *in->text;
    in->copy_ref = *in->ref;
    in->snap.emplace (*in->parts);
    in->snap2.emplace (*in->parts2);
  };
  auto q = [] (string const& t) { return sim::quote (t); };
  c.intact = [in] { return in->intact (); };
  switch (kind) {
  case k_split:
  case k_split_reference: {
    bool const ref = kind == k_split_reference;
    want_texts (ref);
    c.name = ref ? "split_reference" : "split";
    c.text = c.name + "(" + q (*in->text) + ")";
    c.expect = lib::show (model::parse (*in->text, ref));
    c.run = [in, ref] {
      auto r = guarded ([&] { return ref ? uri::split_reference (*in->text) : uri::split (*in->text); });
      return show (r);
    };
    break;
  }
  case k_join_text: {
    want_texts (false);
    bool const strict = s.draw (2) == 0;
    c.name = "join(text)";
    c.text = "join(" + q (*in->text) + ", " + q (*in->ref) + (strict ? ")" : ", non-strict)");
    auto const b = model::parse (*in->text, false);
    auto const r = model::parse (*in->ref, true);
    c.expect = b && r ? q (model::compose (model::resolve (*b, *r, strict))) : string{"rejected"};
    c.run = [in, strict] {
      auto r = guarded ([&] { return uri::join (*in->text, *in->ref, strict); });
      return r ? sim::quote (model::compose (lib::to_model (*r))) : string{"rejected"};
    };
    break;
  }
  case k_join_parts: {
    want_parts ();
    bool const strict = s.draw (2) == 0;
    auto const mb = lib::to_model (*in->parts);
    auto const mr = lib::to_model (*in->parts2);
    c.name = "join(parts)";
    c.text = "join(" + lib::show (mb) + ", " + lib::show (mr) + (strict ? ")" : ", non-strict)");
    c.expect = q (model::compose (model::resolve (mb, mr, strict)));
    c.run = [in, strict] {
      auto r = guarded ([&] { return uri::join (*in->parts, *in->parts2, strict); });
      return sim::quote (model::compose (lib::to_model (r)));
    };
    break;
  }
  case k_compose: {
    want_parts ();
    c.name = "compose";
    c.text = "compose(" + lib::show (lib::to_model (*in->parts)) + ")";
    c.expect = q (model::compose (lib::to_model (*in->parts)));
    c.run = [in] {
      auto r = guarded ([&] { return uri::compose (*in->parts); });
      return sim::quote (r);
    };
    break;
  }
  case k_stream: {
    want_parts ();
    c.name = "operator<<";
    c.text = "os << " + lib::show (lib::to_model (*in->parts));
    c.expect = q (model::compose (lib::to_model (*in->parts)));
    c.run = [in] {
      return sim::quote (guarded ([&] {
        std::ostringstream os;
        os << *in->parts;
        return os.str ();
      }));
    };
    break;
  }
  case k_remove_dots: {
    want_parts ();
    uri::parts const* src = in->parts2;
    auto const before = lib::path_text (src->path, false);
    c.name = "remove_dot_segments";
    c.text = "remove_dot_segments(" + q (before) + ")";
    c.expect = q (model::remove_dots (before));
    c.run = [in, src, before] {
      auto p = src->path;
      try {
        guarded ([&] {
          p.remove_dot_segments ();
          return 0;
        });
      } catch (...) {
        if (lib::path_text (p, false) != before) {
          return string{"threw and left "} + sim::quote (lib::path_text (p, false));
        }
        throw;
      }
      return sim::quote (lib::path_text (p, false));
    };
    break;
  }
  case k_path_string: {
    want_parts ();
    c.name = "path->string";
    c.text = "string(" + q (lib::path_text (in->parts->path, false)) + ")";
    c.expect = q (lib::path_text (in->parts->path, false));
    c.run = [in] {
      auto r = guarded ([&] { return static_cast<string> (in->parts->path); });
      return sim::quote (r);
    };
    break;
  }
  case k_path_fs: {
    want_parts ();
    string e = in->parts->path.absolute ? "/" : "";
    for (auto const& g : in->parts->path.segments) {
      if (!e.empty () && e.back () != '/') {
        e += '/';
      }
      e += g;
    }
    c.name = "path->filesystem";
    c.text = "filesystem::path(" + q (lib::path_text (in->parts->path, false)) + ")";
    c.expect = q (e);
    c.run = [in] {
      auto r = guarded ([&] { return static_cast<std::filesystem::path> (in->parts->path); });
      return sim::quote (r.string ());
    };
    break;
  }
  case k_equal: {
    want_parts ();
    c.name = "operator==";
    auto const a = lib::to_model (*in->parts);
    auto const b = lib::to_model (*in->parts2);
    c.text = lib::show (a) + " == " + lib::show (b);
    // Identical representations are equal; different component text is not. (Empty path spellings are not compared.)
    bool const same_text = a == b;
    bool const known = !same_text || (in->parts->path.segments.size () == in->parts2->path.segments.size ());
    if (known) {
      c.expect = same_text ? "equal" : "different";
    }
    c.run = [in] {
      bool const self = guarded ([&] { return *in->parts == *in->parts && *in->parts2 == *in->parts2; });
      bool const r = guarded ([&] { return *in->parts == *in->parts2; });
      bool const n = guarded ([&] { return *in->parts != *in->parts2; });
      return !self ? string{"not equal to itself"} : (r == n ? string{"== and != agree"} : (r ? "equal" : "different"));
    };
    break;
  }
  case k_valid: {
    want_parts ();
    if (!use_pool && s.draw (2) == 1) {
      // Replace one component by arbitrary text.
      in->own_ref = gen::mutate (s, gen::text (s, w, ":@/?"));
      in->copy_ref = in->own_ref;
      std::string_view const t = in->own_ref;
      switch (s.draw (7)) {
      case 0: in->own_parts.scheme = t; break;
      case 1: in->own_parts.ensure_authority ().userinfo = t; break;
      case 2: in->own_parts.ensure_authority ().host = t; break;
      case 3: in->own_parts.ensure_authority ().port = t; break;
      case 4: in->own_parts.path.segments.emplace_back (t); break;
      case 5: in->own_parts.query = t; break;
      default: in->own_parts.fragment = t; break;
      }
      in->own_parts2 = uri::parts{};
      in->snap.emplace (*in->parts);
      in->snap2.emplace (*in->parts2);
    }
    c.name = "valid";
    c.text = "valid(" + lib::show (lib::to_model (*in->parts)) + ")";
    c.expect = valid_model (*in->parts) ? "valid" : "invalid";
    c.run = [in] {
      bool const r = guarded ([&] { return in->parts->valid (); });
      return string{r ? "valid" : "invalid"};
    };
    break;
  }
  case k_pctencode:
  case k_pctdecode:
  case k_pctdecode_view:
  case k_needs: {
    in->own_text = pct_text (s);
    in->text = &in->own_text;
    in->ref = &in->own_ref;
    in->copy_text = *in->text;
    auto const set = s.draw (8);
    static uri::pctencode_set const sets[] = {
      uri::pctencode_set::fragment,  uri::pctencode_set::query,     uri::pctencode_set::special_query, uri::pctencode_set::path,
      uri::pctencode_set::userinfo, uri::pctencode_set::component, uri::pctencode_set::form_urlencoded, uri::pctencode_set::none};
    if (kind == k_pctencode) {
      c.name = "pctencode";
      c.expect = q (model::pct_encode (*in->text, static_cast<model::Set> (set)));
      c.run = [in, set] { return sim::quote (guarded ([&] { return uri::pctencode (*in->text, sets[set]); })); };
    } else if (kind == k_pctdecode) {
      c.name = "pctdecode";
      c.expect = q (model::pct_decode (*in->text));
      c.run = [in] { return sim::quote (guarded ([&] { return uri::pctdecode (*in->text); })); };
    } else if (kind == k_pctdecode_view) {
      c.name = "pctdecode_view";
      c.expect = q (model::pct_decode (*in->text));
      c.run = [in] {
        return sim::quote (guarded ([&] {
          string r;
          for (auto const ch : *in->text | uri::views::pctdecode) {
            r += ch;
          }
          return r;
        }));
      };
    } else {
      c.name = "needs_pct";
      auto const enc = model::pct_encode (*in->text, static_cast<model::Set> (set)) != *in->text;
      auto const dec = in->text->find ('%') != string::npos;
      c.expect = string{enc ? "encode" : "-"} + (dec ? " decode" : " -");
      c.run = [in, set] {
        bool const e = guarded ([&] { return uri::needs_pctencode (*in->text, sets[set]); });
        bool const d = guarded ([&] { return uri::needs_pctdecode (in->text->begin (), in->text->end ()); });
        return string{e ? "encode" : "-"} + (d ? " decode" : " -");
      };
    }
    c.text = c.name + "(" + q (*in->text) + ", set " + std::to_string (set) + ")";
    break;
  }
  case k_puny_encode:
  case k_puny_decode: {
    std::u32string cps;
    if (pool && !pool->cps.empty () && s.draw (2) == 0) {
      cps = s.pick (pool->cps);
    } else {
      cps = gen::code_points (s, 40);
    }
    in->text = &in->own_text;
    in->ref = &in->own_ref;
    if (kind == k_puny_encode) {
      auto const input = std::make_shared<std::u32string const> (cps);
      auto const copy = std::make_shared<std::u32string const> (cps);
      c.name = "punycode::encode";
      c.text = c.name + "(" + units (cps) + ")";
      c.expect = q (model::puny_encode (cps));
      c.run = [input] {
        return sim::quote (guarded ([&] {
          string r;
          uri::punycode::encode (*input, false, std::back_inserter (r));
          return r;
        }));
      };
      c.intact = [input, copy] { return *input == *copy; };
    } else {
      in->own_text = model::puny_encode (cps);
      switch (s.draw (4)) {
      case 2: in->own_text = gen::mutate (s, in->own_text); break;
      case 3:
        // Numbers too large to be represented.
        for (unsigned i = s.small (30); i > 0; --i) {
          in->own_text += "9z99kA"[s.draw (6)];
        }
        break;
      default: break;
      }
      in->copy_text = *in->text;
      c.name = "punycode::decode";
      c.text = c.name + "(" + q (*in->text) + ")";
      if (auto const m = model::puny_decode (*in->text)) {
        c.expect = units (*m);
      }
      c.run = [in] {
        auto r = guarded ([&] { return uri::punycode::decode (*in->text); });
        if (auto const* const e = std::get_if<std::error_code> (&r)) {
          return show_error (*e);
        }
        return units (std::get<1> (r).str);
      };
    }
    break;
  }
  case k_utf:
  case k_utf_view: {
    auto cps = gen::code_points (s, 40);
    bool const view = kind == k_utf_view;
    switch (s.draw (9)) {
    case 0: return transcode_call<char8_t, char16_t> (cps, view);
    case 1: return transcode_call<char8_t, char32_t> (cps, view);
    case 2: return transcode_call<char16_t, char8_t> (cps, view);
    case 3: return transcode_call<char16_t, char32_t> (cps, view);
    case 4: return transcode_call<char32_t, char8_t> (cps, view);
    case 5: return transcode_call<char32_t, char16_t> (cps, view);
    case 6: return transcode_call<char8_t, char8_t> (cps, view);
    case 7: return transcode_call<char16_t, char16_t> (cps, view);
    default: return transcode_call<char32_t, char32_t> (cps, view);
    }
  }
  case k_utf_damaged: {
    bool const view = s.draw (2) == 1;
    switch (s.draw (3)) {
    case 0: return make_damaged<char8_t> (s, view);
    case 1: return make_damaged<char16_t> (s, view);
    default: return make_damaged<char32_t> (s, view);
    }
  }
  case k_bytes: return make_bytes (s, s.draw (2) == 1);
  case k_encode:
  case k_decode: {
    bool const enc = kind == k_encode;
    want_parts ();
    if (!use_pool) {
      // Raw text in some components.
      if (in->own_parts.authority && s.draw (2) == 0) {
        string h = gen::unicode_host (s);
        in->own_ref = enc ? h : model::host_encode (h);
        if (!enc && s.draw (4) == 3) {
          in->own_ref = gen::mutate (s, in->own_ref, false);
        }
        in->own_parts.authority->host = in->own_ref;
      } else {
        in->own_ref = gen::bytes (s, 40);
        if (s.draw (2) == 0) {
          in->own_parts.query = in->own_ref;
        } else {
          in->own_parts.path.segments.emplace_back (in->own_ref);
        }
      }
      in->copy_ref = in->own_ref;
      in->own_parts2 = uri::parts{};
      in->snap.emplace (*in->parts);
      in->snap2.emplace (*in->parts2);
    }
    c.name = enc ? "encode" : "decode";
    c.text = c.name + "(" + lib::show (lib::to_model (*in->parts)) + ")";
    if (enc) {
      if (encodable (*in->parts)) {
        c.expect = lib::show (encoded_model (*in->parts));
      }
      c.run = [in] {
        std::vector<char> store;
        auto r = guarded ([&] { return uri::encode (store, *in->parts); });
        return lib::show (lib::to_model (r));
      };
    } else {
      if (auto const m = decoded_model (*in->parts)) {
        c.expect = lib::show (*m);
      }
      c.run = [in] {
        std::vector<char> store;
        auto r = guarded ([&] { return uri::decode (store, *in->parts); });
        if (auto const* const e = std::get_if<std::error_code> (&r)) {
          return show_error (*e);
        }
        return lib::show (lib::to_model (std::get<1> (r)));
      };
    }
    break;
  }
  case k_category:
  default: {
    in->text = &in->own_text;
    in->ref = &in->own_ref;
    static uri::punycode::decode_error_code const codes[] = {uri::punycode::decode_error_code::none,
                                                             uri::punycode::decode_error_code::bad_input,
                                                             uri::punycode::decode_error_code::overflow};
    auto const k = s.draw (3);
    c.name = "error_category";
    c.text = "make_error_code(" + std::to_string (k) + ")";
    c.run = [k] {
      auto const r = guarded ([&] {
        auto const e = uri::punycode::make_error_code (codes[k]);
        return std::pair{e, e.message ()};
      });
      return string{r.first.category ().name ()} + ": " + r.second +
             (r.first == uri::punycode::make_error_code (codes[k]) ? "" : " unequal");
    };
    break;
  }
  }
  return c;
}

}  // namespace ops
#endif
