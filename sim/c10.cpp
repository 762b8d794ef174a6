// C10: peers exchange encoded URIs over a network which loses, repeats, reorders, alters and truncates packets.
#include <deque>
#include <memory>
#include <sstream>

#include "core.hpp"
#include "gen.hpp"
#include "lib.hpp"
#include "ops.hpp"
#include "uri/parts.hpp"
#include "uri/uri.hpp"

namespace sim {
char const* scenario_name () { return "C10"; }
unsigned scenario_chunk () { return 16; }
void scenario_init () {}

namespace {
using std::optional;
using std::string;
using std::string_view;

// The components as their owner has them: arbitrary octets.
struct Raw {
  string scheme;
  bool authority = false;
  optional<string> userinfo;
  string host;
  optional<string> port;
  bool absolute = false;
  bool implicit = false;  // absolute, but its owner does not say so
  std::vector<string> segs;
  optional<string> query, fragment;
  bool operator== (Raw const&) const = default;
};
string show (Raw const& r) {
  string t = "{scheme=" + quote (r.scheme);
  if (r.authority) {
    t += " userinfo=" + lib::show (r.userinfo) + " host=" + quote (r.host) + " port=" + lib::show (r.port);
  }
  t += r.absolute ? " absolute" : " rootless";
  for (auto const& s : r.segs) {
    t += " /" + quote (s);
  }
  return t + " query=" + lib::show (r.query) + " fragment=" + lib::show (r.fragment) + "}";
}
Raw own (uri::parts const& p) {
  Raw r;
  r.scheme = p.scheme ? string{*p.scheme} : string{"(none)"};
  r.authority = p.authority.has_value ();
  if (p.authority) {
    r.userinfo = lib::own (p.authority->userinfo);
    r.host = string{p.authority->host};
    r.port = lib::own (p.authority->port);
  }
  r.absolute = p.path.absolute;
  for (auto const& s : p.path.segments) {
    r.segs.emplace_back (s);
  }
  r.query = lib::own (p.query);
  r.fragment = lib::own (p.fragment);
  return r;
}

string octets (Source& s, gen::Swarm const& w, char const* not_these) {
  string t = s.draw (3) == 0 ? gen::text (s, w, ":@/?") : gen::bytes (s, w.long_text ? 80 : 20);
  if (s.draw (40) == 39) {
    t += string (s.draw (2000), "a %\xC3"[s.draw (4)]);
  }
  std::erase_if (t, [&] (char ch) { return ch != 0 && string_view{not_these}.find (ch) != string_view::npos; });
  return t;
}

enum How { whole, by_component };

Raw draw_raw (Source& s, gen::Swarm const& w, How how, bool literal) {
  // encode() leaves some characters alone which RFC 3986 does not allow there: those are not its domain.
  bool const any = how == by_component;
  Raw r;
  r.scheme = gen::scheme (s, w);
  r.authority = s.draw (3) != 2;
  if (r.authority) {
    if (s.draw (2) == 1) {
      r.userinfo = octets (s, w, "");
    }
    if (literal && !any) {
      r.host = s.draw (8) == 7 ? "[v" + gen::h16 (s) + ".a:" + gen::text (s, w, ":") + "]" : "[" + gen::ipv6 (s) + "]";
      if (!model::host_ok (r.host)) {
        r.host = "[::1]";  // a '%' in the address
      }
    } else if (any && s.draw (2) == 1) {
      r.host = octets (s, w, "");
    } else {
      switch (s.draw (4)) {
      case 0: r.host = any ? gen::unicode_host (s) : gen::host (s, w); break;
      case 1: break;
      default: r.host = gen::unicode_host (s); break;
      }
      if (!any) {
        // Labels which are encodings already would be decoded.
        string h;
        for (auto const& l : model::labels (r.host)) {
          h += (h.empty () ? "" : ".") + (l.rfind ("xn--", 0) == 0 ? "x" + l : l);
        }
        if (model::from_utf8 (h) && model::host_ok (model::host_encode (h)) && h.find ('%') == string::npos) {
          r.host = h;
        } else {
          r.host = "h";
        }
        auto const back = model::host_decode (model::host_encode (r.host));
        if (!back || *back != r.host) {
          r.host = "h";
        }
      }
    }
    if (s.draw (2) == 1) {
      r.port = s.draw (4) == 3 ? string{} : std::to_string (s.draw (100000));
    }
  }
  auto const n = s.small (w.max_segments);
  for (unsigned i = 0; i < n; ++i) {
    r.segs.push_back (s.draw (6) == 5 ? string{} : octets (s, w, any ? "" : "/[]\\^|"));
  }
  if (r.authority) {
    r.absolute = !r.segs.empty ();
    // Beside an authority every path is absolute, whether its owner says so or not.
    r.implicit = r.absolute && s.draw (8) == 7;
  } else {
    r.absolute = !r.segs.empty () && s.draw (2) == 0;
    // Without an authority a path cannot begin with "//", and a rootless path cannot begin with "/".
    if (!r.segs.empty () && r.segs[0].empty () && (!r.absolute || r.segs.size () > 1)) {
      r.segs[0] = "x";
    }
  }
  if (s.draw (2) == 1) {
    r.query = octets (s, w, any ? "" : "`{|}\\^[]");
  }
  if (s.draw (2) == 1) {
    r.fragment = octets (s, w, any ? "" : "#[]{}|^\\`");
  }
  return r;
}
uri::parts view_of (Raw const& r) {
  uri::parts p;
  p.scheme = r.scheme;
  if (r.authority) {
    auto& a = p.ensure_authority ();
    a.userinfo = r.userinfo;
    a.host = r.host;
    a.port = r.port;
  }
  p.path.absolute = r.absolute && !r.implicit;
  for (auto const& g : r.segs) {
    p.path.segments.emplace_back (g);
  }
  p.query = r.query;
  p.fragment = r.fragment;
  return p;
}
Raw each (Raw r, std::function<string (string const&)> const& f) {
  auto opt = [&] (optional<string>& o) {
    if (o) {
      o = f (*o);
    }
  };
  opt (r.userinfo);
  r.host = f (r.host);
  for (auto& g : r.segs) {
    g = f (g);
  }
  opt (r.query);
  opt (r.fragment);
  return r;
}

struct Packet {
  string bytes;
};
struct Message {
  unsigned id = 0;
  How how = whole;
  Raw raw;
  string text;
  std::deque<Packet> in_flight;
  string delivered;  // ground truth, kept by the network
};

// A receiver assembles one message at a time in memory which it uses again.
struct Peer {
  std::vector<char> buffer;
  std::vector<char> store;
  std::unique_ptr<Message> now;
  // What it got last, still in use.
  optional<uri::parts> held;
  Raw held_expect;
  string held_what;
};

class World {
public:
  World (Ctx& c, gen::Swarm const& w) : c_{c}, s_{c.src}, w_{w} {
    peers_.resize (1 + s_.draw (3));
    total_ = 1 + s_.draw (5);
    faulty_ = s_.draw (3) != 0;
    rate_ = 2 + s_.draw (10);
    reorder_ = faulty_ && s_.draw (2) == 1;
    exhaust_ = s_.draw (4) == 3;
    literal_ = s_.draw (4) == 3;
    repeats_ = s_.draw (3) == 2 ? 1 + s_.draw (6) : 0;
  }
  void run () {
    unsigned sent = 0;
    for (;;) {
      std::vector<unsigned> busy, idle;
      for (unsigned i = 0; i < peers_.size (); ++i) {
        (peers_[i].now ? busy : idle).push_back (i);
      }
      bool const can_send = sent < total_ && !idle.empty ();
      if (!can_send && busy.empty ()) {
        break;
      }
      if (can_send && (busy.empty () || s_.draw (2) == 0)) {
        send (peers_[s_.pick (idle)], sent++);
      } else {
        auto const k = s_.pick (busy);
        c_.mark (k);
        deliver (peers_[k], k);
      }
      for (auto const& p : peers_) {
        if (p.held && own (*p.held) != p.held_expect) {
          c_.fail ("mixture", p.held_what + ": the components in use turned into " + show (own (*p.held)) + ", expected " + show (p.held_expect));
        }
      }
    }
  }

private:
  void send (Peer& p, unsigned id) {
    auto m = std::make_unique<Message> ();
    m->id = id;
    m->how = s_.draw (3) == 2 ? by_component : whole;
    m->raw = draw_raw (s_, w_, m->how, literal_);
    Raw const before = m->raw;
    if (m->how == whole) {
      uri::parts const in = view_of (m->raw);
      std::vector<char> store;
      auto const enc = uri::encode (store, in);
      m->text = compose (enc);
    } else {
      static uri::pctencode_set const sets[] = {uri::pctencode_set::component, uri::pctencode_set::form_urlencoded};
      auto const set = sets[s_.draw (2)];
      Raw const enc = each (m->raw, [set] (string const& t) { return uri::pctencode (t, set); });
      m->text = compose (view_of (enc));
    }
    if (m->raw != before) {
      c_.fail ("sender-changed", "encoding changed the sender's text");
    }
    m->raw.implicit = false;
    c_.log ("send " + std::to_string (id) + (m->how == whole ? " whole " : " by component ") + show (m->raw) + " as " + quote (m->text));
    stats.add (m->how == whole ? "workload.sent_whole" : "workload.sent_by_component");
    if (!model::parse (m->text, false)) {
      c_.fail ("sent-not-a-uri", show (m->raw) + " was encoded and composed as " + quote (m->text) + ", which is not a URI");
    }
    string_view rest = m->text;
    while (!rest.empty ()) {
      auto const n = std::min<std::size_t> (1 + s_.small (40), rest.size ());
      m->in_flight.push_back ({string{rest.substr (0, n)}});
      rest.remove_prefix (n);
    }
    c_.mark (m->in_flight.size ());
    p.buffer.clear ();
    p.held.reset ();  // its memory is about to be used again
    p.now = std::move (m);
  }
  string compose (uri::parts const& p) {
    if (s_.draw (2) == 0) {
      return uri::compose (p);
    }
    std::ostringstream os;
    uri::compose (os, p);
    return os.str ();
  }
  void deliver (Peer& p, unsigned k) {
    auto& m = *p.now;
    if (!m.in_flight.empty ()) {
      std::size_t at = 0;
      if (reorder_ && m.in_flight.size () > 1 && s_.draw (4) == 3) {
        at = s_.draw (static_cast<std::uint32_t> (m.in_flight.size ()));
        if (at != 0) {
          note ("packet_reordered");
        }
      }
      Packet pk = std::move (m.in_flight[at]);
      m.in_flight.erase (m.in_flight.begin () + static_cast<std::ptrdiff_t> (at));
      unsigned copies = 1;
      if (faulty_ && s_.draw (rate_) == rate_ - 1) {
        switch (s_.draw (6)) {
        case 0:
          note ("packet_lost");
          copies = 0;
          break;
        case 1:
          note ("packet_repeated");
          copies = 2;
          break;
        case 2: {
          note ("octet_altered");
          static char const near[] = ":/?#[]@%.-_~!09aZ \"<>\\^`{|}\0\x7F\x80\xFF";
          pk.bytes[s_.draw (static_cast<std::uint32_t> (pk.bytes.size ()))] = near[s_.draw (sizeof near - 1)];
          break;
        }
        case 3: {
          note ("bit_flipped");
          auto& b = pk.bytes[s_.draw (static_cast<std::uint32_t> (pk.bytes.size ()))];
          b = static_cast<char> (b ^ (1 << s_.draw (8)));
          break;
        }
        case 4: {
          note ("packet_truncated");
          pk.bytes.resize (s_.draw (static_cast<std::uint32_t> (pk.bytes.size ())));
          break;
        }
        default:
          note ("connection_closed");
          m.in_flight.clear ();
          pk.bytes.resize (s_.draw (static_cast<std::uint32_t> (pk.bytes.size () + 1)));
          break;
        }
      }
      for (unsigned i = 0; i < copies; ++i) {
        p.buffer.insert (p.buffer.end (), pk.bytes.begin (), pk.bytes.end ());
        m.delivered += pk.bytes;
      }
      if (!m.in_flight.empty ()) {
        return;
      }
    }
    receive (p, k);
  }
  void note (char const* fault) {
    stats.add (string{"fault."} + fault);
    c_.mark (fault);
  }
  // Runs f with memory running out now and then; the message is still there, so it may simply be tried again.
  template <typename F> auto patiently (F&& f) {
    if (exhaust_ && s_.draw (2) == 1) {
      AllocPlan plan;
      plan.kind = s_.draw (2) == 0 ? AllocPlan::nth : AllocPlan::from_nth;
      plan.n = 1 + s_.small (10);
      try {
        AllocScope const scope{plan};
        return f ();
      } catch (std::bad_alloc const&) {
        stats.add ("probe.tried_again");
      }
    }
    return f ();
  }
  void receive (Peer& p, unsigned k) {
    std::unique_ptr<Message> const m = std::move (p.now);
    string const& text = m->delivered;
    string_view const in{p.buffer.data (), p.buffer.size ()};
    bool const intact = text == m->text;
    string const what = "message " + std::to_string (m->id) + " " + quote (text);
    optional<uri::parts> const got = patiently ([&] { return uri::split (in); });
    auto const want = model::parse (text, false);
    c_.log ("peer " + std::to_string (k) + " gets " + what + (intact ? " intact: " : ": ") + (got ? show (own (*got)) : string{"rejected"}));
    if (got.has_value () != want.has_value ()) {
      c_.fail (got ? "accepted-non-uri" : "rejected-uri", what + (got ? " was accepted" : " was rejected"));
    }
    auto const ref = patiently ([&] { return uri::split_reference (in); });
    auto const want_ref = model::parse (text, true);
    if (ref.has_value () != want_ref.has_value () || (ref && lib::to_model (*ref) != *want_ref)) {
      c_.fail ("wrong-reference", what + " as a reference gave " + ops::show (ref) + ", expected " + lib::show (want_ref));
    }
    if (ref) {
      auto const again = patiently ([&] { return uri::compose (*ref); });
      if (again != text) {
        c_.fail ("recomposed-differently", what + " was composed again as " + quote (again));
      }
    }
    c_.mark (intact ? 1U : got ? 2U : 3U);
    c_.nontrivial ();
    for (unsigned i = 0; i < repeats_; ++i) {
      // Sent once more, and received with a few octets damaged.
      string const again = gen::garble (s_, m->text);
      stats.add ("fault.resent_damaged");
      judge (again, "message " + std::to_string (m->id) + " sent again " + quote (again));
    }
    if (!got) {
      stats.add ("probe.damaged_and_rejected");
      return;
    }
    if (lib::to_model (*got) != *want) {
      c_.fail ("wrong-components", what + " gave " + lib::show (lib::to_model (*got)) + ", expected " + lib::show (want));
    }
    auto const again = patiently ([&] { return compose_quietly (*got); });
    if (again != text) {
      c_.fail ("recomposed-differently", what + " was composed again as " + quote (again));
    }
    if (!intact) {
      stats.add ("probe.damaged_but_a_uri");
    } else {
      stats.add ("probe.arrived_intact");
    }
    if (m->how == by_component) {
      Raw const back = each (own (*got), [] (string const& t) { return uri::pctdecode (t); });
      if (intact && back != m->raw) {
        c_.fail ("round-trip", what + " was decoded as " + show (back) + ", sent was " + show (m->raw));
      }
      Raw const expect = each (own (*got), [] (string const& t) { return model::pct_decode (t); });
      if (back != expect) {
        c_.fail ("wrong-decoding", what + " was decoded as " + show (back) + ", expected " + show (expect));
      }
      p.held = *got;
      p.held_expect = own (*got);
      p.held_what = what;
      return;
    }
    auto const dec = patiently ([&] { return uri::decode (p.store, *got); });
    bool malformed = false;
    Raw expect = each (own (*got), [] (string const& t) { return model::pct_decode (t); });
    expect.scheme = string{*got->scheme};
    optional<string> host{string{}};
    if (got->authority) {
      host = model::host_decode (got->authority->host, &malformed);
      if (host) {
        expect.host = *host;
      }
    }
    if (auto const* const e = std::get_if<std::error_code> (&dec)) {
      stats.add ("probe.undecodable_host");
      if (host || !*e) {
        c_.fail (intact ? "round-trip" : "wrong-decoding", what + " could not be decoded: " + ops::show_error (*e));
      }
      return;
    }
    auto const& d = std::get<1> (dec);
    if (malformed) {
      c_.fail ("wrong-decoding", what + " was decoded although its host is not Punycode");
    }
    if (intact && own (d) != m->raw) {
      c_.fail ("round-trip", what + " was decoded as " + show (own (d)) + ", sent was " + show (m->raw));
    }
    if (host && (!host->empty () || got->authority->host.empty ()) && own (d) != expect) {
      c_.fail ("wrong-decoding", what + " was decoded as " + show (own (d)) + ", expected " + show (expect));
    }
    p.held = d;
    p.held_expect = own (d);
    p.held_what = what;
  }
  // The verdict, the components and the text composed from them.
  // (Received in one buffer, each text over the last, or in one of exactly its size.)
  void judge (string const& text, string const& what) {
    std::vector<char> exact;
    string_view in;
    if (s_.draw (2) == 0) {
      inbox_.reserve (4096);
      inbox_.assign (text);
      in = inbox_;
    } else {
      exact.assign (text.begin (), text.end ());
      exact.shrink_to_fit ();
      in = {exact.data (), exact.size ()};
    }
    auto const got = uri::split (in);
    auto const want = model::parse (text, false);
    if (got.has_value () != want.has_value ()) {
      c_.fail (got ? "accepted-non-uri" : "rejected-uri", what + (got ? " was accepted" : " was rejected"));
    }
    auto const ref = uri::split_reference (in);
    auto const want_ref = model::parse (text, true);
    if (ref.has_value () != want_ref.has_value () || (ref && lib::to_model (*ref) != *want_ref)) {
      c_.fail ("wrong-reference", what + " as a reference gave " + ops::show (ref) + ", expected " + lib::show (want_ref));
    }
    if (got && lib::to_model (*got) != *want) {
      c_.fail ("wrong-components", what + " gave " + lib::show (lib::to_model (*got)) + ", expected " + lib::show (want));
    }
    if (ref) {
      if (auto const composed = uri::compose (*ref); composed != text) {
        c_.fail ("recomposed-differently", what + " was composed again as " + quote (composed));
      }
      stats.add ("probe.damaged_but_a_reference");
    }
    c_.mark (got ? 5U : ref ? 6U : 7U);
  }
  static string compose_quietly (uri::parts const& p) { return uri::compose (p); }

  Ctx& c_;
  Source& s_;
  gen::Swarm const& w_;
  std::vector<Peer> peers_;
  string inbox_;
  unsigned total_ = 0, rate_ = 2;
  unsigned repeats_ = 0;
  bool faulty_ = false, reorder_ = false, exhaust_ = false, literal_ = false;
};
}  // namespace

void run_case (Ctx& c) {
  gen::Swarm const w{c.src};
  World world{c, w};
  world.run ();
}
}  // namespace sim
