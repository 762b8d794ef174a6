// Bridges between the library's types and the models.
#ifndef SIM_LIB_HPP
#define SIM_LIB_HPP
#include <optional>
#include <string>

#include "core.hpp"
#include "model.hpp"
#include "uri/uri.hpp"

namespace lib {
using std::optional;
using std::string;

inline optional<string> own (optional<std::string_view> const& v) {
  return v ? optional<string>{string{*v}} : optional<string>{};
}
// Reads the library's path representation without calling the library.
inline string path_text (struct uri::parts::path const& p, bool authority) {
  string r;
  bool sep = p.absolute || (authority && !p.segments.empty ());
  for (auto const& s : p.segments) {
    if (sep) {
      r += '/';
    }
    sep = true;
    r += s;
  }
  return r;
}
inline model::Uri to_model (uri::parts const& p) {
  model::Uri u;
  u.scheme = own (p.scheme);
  u.has_authority = p.authority.has_value ();
  if (p.authority) {
    u.userinfo = own (p.authority->userinfo);
    u.host = string{p.authority->host};
    u.port = own (p.authority->port);
  }
  u.path = path_text (p.path, u.has_authority);
  u.query = own (p.query);
  u.fragment = own (p.fragment);
  return u;
}
inline string show (optional<string> const& s) { return s ? sim::quote (*s) : string{"-"}; }
inline string show (model::Uri const& u) {
  return "{scheme=" + show (u.scheme) +
         (u.has_authority ? " userinfo=" + show (u.userinfo) + " host=" + sim::quote (u.host) + " port=" + show (u.port)
                          : string{" no-authority"}) +
         " path=" + sim::quote (u.path) + " query=" + show (u.query) + " fragment=" + show (u.fragment) + "}";
}
inline string show (optional<model::Uri> const& u) { return u ? show (*u) : string{"rejected"}; }

// An independent deep copy of parts, so that "arguments unchanged" can be checked field by field and view by view.
struct Snapshot {
  struct View {
    char const* p;
    std::size_t n;
    string text;
    bool operator== (View const&) const = default;
  };
  std::vector<optional<View>> views;
  bool absolute;
  bool authority;
  std::size_t segments;
  bool operator== (Snapshot const&) const = default;
  explicit Snapshot (uri::parts const& p)
      : absolute{p.path.absolute}, authority{p.authority.has_value ()}, segments{p.path.segments.size ()} {
    auto add = [&] (optional<std::string_view> const& v) {
      views.push_back (v ? optional<View>{View{v->data (), v->size (), string{*v}}} : optional<View>{});
    };
    add (p.scheme);
    if (p.authority) {
      add (p.authority->userinfo);
      add (p.authority->host);
      add (p.authority->port);
    }
    for (auto const& s : p.path.segments) {
      add (s);
    }
    add (p.query);
    add (p.fragment);
  }
};

}  // namespace lib
#endif
