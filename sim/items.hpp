// URIs put together component by component from arbitrary texts in memory that is used again and again.
#ifndef SIM_ITEMS_HPP
#define SIM_ITEMS_HPP
#include <array>
#include <deque>
#include <string>
#include <vector>

#include "core.hpp"
#include "gen.hpp"
#include "uri/uri.hpp"

namespace items {
using std::string;

// One object under test: texts which are rewritten in place, and parts which view them.
struct Item {
  std::array<std::vector<char>, 6> text;
  std::deque<std::vector<char>> segs;
  uri::parts p;
};

inline string component_text (sim::Ctx& c, gen::Swarm const& w, unsigned which) {
  auto& s = c.src;
  string t;
  if (s.draw (40) == 39) {
    // A long text, perhaps with a single flaw.
    t = string (1 + s.draw (20000), "ab1%"[s.draw (3)]);
    if (s.draw (2) == 1) {
      t[s.draw (static_cast<std::uint32_t> (t.size ()))] = "% [\"\x80/:"[s.draw (7)];
    }
    return t;
  }
  switch (which) {
  case 0: t = gen::scheme (s, w); break;
  case 1: t = gen::text (s, w, ":"); break;
  case 2: t = gen::host (s, w); break;
  case 3: t = std::to_string (s.draw (70000)); break;
  case 4: t = gen::text (s, w, ":@/?"); break;
  case 5: t = gen::text (s, w, ":@/?"); break;
  default: t = gen::segment (s, w); break;
  }
  return s.draw (6) == 5 ? gen::mutate (s, t) : t;
}

inline std::string_view put (std::vector<char>& buf, string const& t) {
  // The same memory is used again when it is big enough.
  if (buf.capacity () < t.size ()) {
    buf.reserve (t.size () + 16);
  }
  buf.assign (t.begin (), t.end ());
  return {buf.data (), buf.size ()};
}

inline void fill (sim::Ctx& c, gen::Swarm const& w, Item& it) {
  auto& s = c.src;
  it.p = uri::parts{};
  auto opt = [&] (unsigned k) -> std::optional<std::string_view> {
    switch (s.draw (8)) {
    case 6: return {};
    case 7: return std::string_view{};
    default: return put (it.text[k], component_text (c, w, k));
    }
  };
  it.p.scheme = put (it.text[0], component_text (c, w, 0));
  if (s.draw (12) == 11) {
    it.p.scheme = opt (0);
  }
  if (s.draw (3) != 2) {
    auto& a = it.p.ensure_authority ();
    if (s.draw (2) == 1) {
      a.userinfo = opt (1);
    }
    a.host = s.draw (10) == 9 ? std::string_view{} : put (it.text[2], component_text (c, w, 2));
    if (s.draw (2) == 1) {
      a.port = opt (3);
    }
  }
  it.p.path.absolute = s.draw (2) == 0;
  unsigned const n = s.small (w.max_segments);
  for (unsigned k = 0; k < n; ++k) {
    if (it.segs.size () <= k) {
      it.segs.emplace_back ();
    }
    it.p.path.segments.push_back (s.draw (16) == 15 ? std::string_view{} : put (it.segs[k], component_text (c, w, 6)));
  }
  if (s.draw (2) == 1) {
    it.p.query = opt (4);
  }
  if (s.draw (2) == 1) {
    it.p.fragment = opt (5);
  }
}

}  // namespace items
#endif
