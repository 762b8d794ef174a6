// C11: a client walks through a web of relative references, storing where it is as text; it crashes and restarts.
#include <deque>
#include <memory>
#include <sstream>

#include "core.hpp"
#include "gen.hpp"
#include "lib.hpp"
#include "ops.hpp"
#include "uri/uri.hpp"

namespace sim {
char const* scenario_name () { return "C11"; }
unsigned scenario_chunk () { return 16; }
void scenario_init () {}

namespace {
using std::optional;
using std::string;
using std::string_view;

// An append-only log of framed records. What was written but not synchronised may be lost or torn by a crash.
class Store {
public:
  static string frame (string const& text) {
    auto const n = static_cast<std::uint32_t> (text.size ());
    std::uint32_t sum = 2166136261U ^ n;
    for (char const ch : text) {
      sum = (sum ^ static_cast<unsigned char> (ch)) * 16777619U;
    }
    string r;
    for (unsigned i = 0; i < 4; ++i) {
      r += static_cast<char> (n >> (8 * i));
    }
    r += text;
    for (unsigned i = 0; i < 4; ++i) {
      r += static_cast<char> (sum >> (8 * i));
    }
    return r;
  }
  void append (string const& framed) { log_ += framed; }
  void sync () { durable_ = log_.size (); }
  std::size_t size () const { return log_.size (); }
  std::size_t durable () const { return durable_; }
  // Power is lost: any prefix of what was not yet durable survives, perhaps with its end overwritten.
  string crash (Source& s) {
    std::size_t const loose = log_.size () - durable_;
    std::size_t const kept = loose == 0 ? 0 : s.draw (static_cast<std::uint32_t> (loose + 1));
    string how;
    if (kept < loose) {
      how = kept == 0 ? "write_lost" : "write_torn";
    }
    log_.resize (durable_ + kept);
    if (kept > 0 && s.draw (4) == 3) {
      std::size_t const junk = 1 + s.draw (static_cast<std::uint32_t> (kept));
      for (std::size_t i = log_.size () - junk; i < log_.size (); ++i) {
        log_[i] = s.draw (2) == 0 ? '\0' : static_cast<char> (s.draw (256));
      }
      how = "write_corrupted";
    }
    return how;
  }
  // The last record which is complete, with everything behind it cut off.
  string recover () {
    std::size_t at = 0;
    string last;
    while (at + 8 <= log_.size ()) {
      std::uint32_t n = 0;
      for (unsigned i = 0; i < 4; ++i) {
        n |= static_cast<std::uint32_t> (static_cast<unsigned char> (log_[at + i])) << (8 * i);
      }
      if (n > log_.size () - at - 8) {
        break;
      }
      string const text = log_.substr (at + 4, n);
      if (log_.compare (at, n + 8, frame (text)) != 0) {
        break;
      }
      last = text;
      at += n + 8;
    }
    log_.resize (at);
    durable_ = at;
    return last;
  }

private:
  string log_;
  std::size_t durable_ = 0;
};

// The file the client writes a record to: its disk may be full.
class Disk : public std::streambuf {
public:
  explicit Disk (std::size_t room) : room_{room} {}
  string got;
  bool refused = false;

protected:
  int_type overflow (int_type ch) override {
    if (traits_type::eq_int_type (ch, traits_type::eof ())) {
      return traits_type::not_eof (ch);
    }
    if (got.size () >= room_) {
      refused = true;
      return traits_type::eof ();
    }
    Quiet const q;
    got += traits_type::to_char_type (ch);
    return ch;
  }
  std::streamsize xsputn (char const* p, std::streamsize n) override {
    Quiet const q;
    auto const fit = std::min<std::size_t> (static_cast<std::size_t> (n), room_ - std::min (room_, got.size ()));
    got.append (p, fit);
    refused = refused || fit < static_cast<std::size_t> (n);
    return static_cast<std::streamsize> (fit);
  }

private:
  std::size_t room_;
};

string lower (string t) {
  for (auto& ch : t) {
    ch = ch >= 'A' && ch <= 'Z' ? static_cast<char> (ch - 'A' + 'a') : ch;
  }
  return t;
}
string draw_reference (Source& s, gen::Swarm const& w, model::Uri const& here) {
  static std::vector<string> const special{
    "",       ".",         "..",     "./",   "../",     "../..",   "../../../..", "/",   "/.",      "/..",     "#",     "?",
    "?#",     "//",        "///",    "//h",  "/.//x",   "/..//x",  "..//x",       ".//", "./..//.", "x//..",   "x/..",  "x/../",
    "x/../..", "x/./y/../z", "/x//../y", ";x=1/../y", "a/../../b", "./a:b", "%2e%2E/x", ".../x",  "..x/.y",  "//@:",  "x/.",   "/./"};
  switch (s.draw (6)) {
  case 0: return s.pick (special);
  case 1: return gen::reference (s, w);
  case 2: {  // a path of dots
    string r;
    unsigned const n = 1 + s.small (12);
    for (unsigned i = 0; i < n; ++i) {
      static char const* const part[] = {"..", ".", "", "a", "b:c", "..."};
      r += (i > 0 || s.draw (3) == 2 ? "/" : "") + string{part[s.draw (6)]};
    }
    auto const colon = r.find (':');
    if (colon != string::npos && r.find ('/') > colon) {
      r.insert (0, "./");
    }
    return r + gen::query_fragment (s, w);
  }
  case 3: {
    string scheme = here.scheme ? *here.scheme : string{"s"};
    switch (s.draw (5)) {  // the same scheme, or one much like it
    case 2: scheme[s.draw (static_cast<std::uint32_t> (scheme.size ()))] = "abxz"[s.draw (4)]; break;
    case 3: scheme += "x0+s"[s.draw (4)]; break;
    case 4:
      if (scheme.size () > 1) {
        scheme.resize (1 + s.draw (static_cast<std::uint32_t> (scheme.size ()) - 1));
      }
      break;
    default: break;
    }
    return scheme + ":" + gen::relative (s, w);
  }
  case 4: return gen::mutate (s, gen::reference (s, w));
  default: return gen::relative (s, w);
  }
}

class Client {
public:
  Client (Ctx& c, gen::Swarm const& w) : c_{c}, s_{c.src}, w_{w} {
    short_of_memory_ = s_.draw (3) == 2;
    disk_fills_ = s_.draw (4) == 3;
    crashes_ = s_.draw (3) != 0;
  }
  void run () {
    string start = gen::uri (s_, w_);
    c_.log ("start at " + quote (start));
    store_.append (Store::frame (start));
    store_.sync ();
    history_.push_back ({store_.size (), start});
    restart ("started");
    unsigned const steps = 1 + s_.small (24);
    for (unsigned i = 0; i < steps; ++i) {
      c_.mark (i);
      if (crashes_ && s_.draw (5) == 4) {
        crash ();
        continue;
      }
      switch (s_.draw (12)) {
      case 9: tidy (); break;
      case 10: reread (); break;
      case 11: store_.sync (); break;
      default: follow (); break;
      }
    }
    crash ();
    c_.nontrivial ();
  }

private:
  struct Written {
    std::size_t end;  // where its record ends in the log
    string text;
  };

  // Runs one call of the library, perhaps with little memory: false if it ran out of it.
  template <typename F> bool call (F&& f) {
    AllocPlan plan;
    if (short_of_memory_ && s_.draw (3) == 2) {
      plan.kind = static_cast<AllocPlan::Kind> (1 + s_.draw (4));
      plan.n = plan.kind >= AllocPlan::at_least ? s_.small (400) : 1 + s_.small (20);
    }
    try {
      AllocScope const scope{plan};
      f ();
      return true;
    } catch (std::bad_alloc const&) {
      if (alloc.failed == 0) {
        c_.fail ("spurious-failure", "std::bad_alloc although no allocation failed");
      }
      stats.add ("probe.step_failed_for_memory");
      c_.mark ("oom");
      return false;
    }
  }

  // Is in memory what it should be?
  void check_here (string const& what) {
    auto const got = lib::to_model (here_);
    if (got != expect_) {
      c_.fail ("wrong-place", what + ": the client is at " + lib::show (got) + ", expected " + lib::show (expect_));
    }
  }

  void restart (string const& why) {
    string const text = store_.recover ();
    texts_.clear ();
    texts_.push_back (text);
    optional<uri::parts> p;
    while (!call ([&] { p = uri::split (texts_.back ()); })) {
    }
    if (!p) {
      c_.fail ("stored-text-unreadable", "the client " + why + " and could not read its stored URI " + quote (text));
    }
    here_ = *p;
    here_text_ = text;
    auto const m = model::parse (text, false);
    if (!m) {
      c_.fail ("stored-text-invalid", "the client " + why + " from " + quote (text) + ", which is not a URI");
    }
    expect_ = *m;
    check_here ("restarted from " + quote (text));
  }

  void crash () {
    // Only complete records count, so it is known where the client has to come back.
    std::size_t const durable = store_.durable ();
    string const how = store_.crash (s_);
    stats.add ("fault.crash");
    if (!how.empty ()) {
      stats.add ("fault." + how);
    }
    c_.mark ("crash");
    c_.mark (how);
    restart ("restarted");
    std::size_t const end = store_.size ();
    if (end < durable) {
      c_.fail ("harness", "the log lost durable records");
    }
    while (!history_.empty () && history_.back ().end > end) {
      history_.pop_back ();
      stats.add ("probe.back_at_an_earlier_step");
    }
    if (history_.empty () || history_.back ().end != end || history_.back ().text != here_text_) {
      c_.fail ("harness", "recovered a record which was never written");
    }
    c_.log ("crash " + how + ": back at " + quote (here_text_));
  }

  // The new place becomes the current one once its record has been written.
  void move_to (uri::parts const& to, model::Uri const& to_model, string const& what, bool resolved) {
    string const want = model::compose (to_model);
    string text;
    bool written = false;
    if (s_.draw (2) == 0) {
      if (!call ([&] { text = uri::compose (to); })) {
        stay (what);
        return;
      }
      written = true;
    } else {
      Disk disk{disk_fills_ && s_.draw (3) == 2 ? s_.small (200) : std::size_t{1} << 20U};
      std::ostream os{&disk};
      bool const operator_form = s_.draw (2) == 1;
      if (!call ([&] { operator_form ? void (os << to) : void (uri::compose (os, to)); })) {
        stay (what);
        return;
      }
      text = disk.got;
      written = os.good ();
      if (written && disk.refused) {
        c_.fail ("write-failure-hidden", what + ": the disk was full but the stream is good");
      }
      if (!written) {
        stats.add ("fault.disk_full");
        if (!disk.refused) {
          c_.fail ("spurious-write-failure", what + ": the stream failed although the disk took everything");
        }
        c_.mark ("full");
        if (want.rfind (text, 0) != 0) {
          c_.fail ("wrong-text", what + ": the disk took " + quote (text) + ", not a beginning of " + quote (want));
        }
        // A torn record: recovery has to cut it off.
        store_.append (Store::frame (want).substr (0, 4 + text.size ()));
        crash ();
        return;
      }
    }
    if (text != want) {
      c_.fail ("wrong-text", what + ": stored as " + quote (text) + ", expected " + quote (want));
    }
    store_.append (Store::frame (text));
    if (s_.draw (3) != 2) {
      store_.sync ();
    }
    history_.push_back ({store_.size (), text});
    here_ = to;
    expect_ = to_model;
    here_text_ = text;
    stats.add ("probe.moved");
    verify_stored (what, resolved);
    if (texts_.size () > 64) {
      reread ();
    }
  }

  // Would a restart lead to the same place?
  void verify_stored (string const& what, bool resolved) {
    optional<uri::parts> again;
    if (!call ([&] { again = uri::split (here_text_); })) {
      return;
    }
    if (!again) {
      c_.fail ("stored-text-unreadable", what + ": stored as " + quote (here_text_) + ", which is rejected");
    }
    bool const guarded = !expect_.has_authority && expect_.path.substr (0, 2) == "//";
    model::Uri want = expect_;
    if (guarded) {
      stats.add ("probe.path_with_two_slashes");
      want.path = "/." + want.path;
    }
    if (want.has_authority && !want.path.empty () && want.path[0] != '/') {
      want.path = "/" + want.path;
    }
    auto const got = lib::to_model (*again);
    if (got != want) {
      c_.fail ("restart-moves-client", what + ": in memory " + lib::show (expect_) + ", stored as " + quote (here_text_) + ", which reads as " + lib::show (got));
    }
    if (!guarded && resolved && !(here_ == *again)) {
      c_.fail ("restart-moves-client", what + ": what " + quote (here_text_) + " reads as does not compare equal to what was stored");
    }
    string twice;
    if (call ([&] { twice = uri::compose (*again); }) && twice != here_text_) {
      c_.fail ("restart-moves-client", what + ": stored as " + quote (here_text_) + ", then as " + quote (twice));
    }
  }

  void stay (string const& what) {
    check_here (what);
    string text;
    if (call ([&] { text = uri::compose (here_); }) && text != here_text_) {
      c_.fail ("moved-by-failed-step", what + ": the client is now at " + quote (text) + ", was at " + quote (here_text_));
    }
  }

  // Follows a reference found at the current place.
  void follow () {
    string const ref = draw_reference (s_, w_, expect_);
    auto const ref_model = model::parse (ref, true);
    bool strict = s_.draw (3) != 2;
    if (ref_model && ref_model->scheme && *ref_model->scheme != *expect_.scheme && lower (*ref_model->scheme) == lower (*expect_.scheme)) {
      strict = true;  // whether schemes which differ in case are the same scheme is left open
    }
    bool const by_text = s_.draw (2) == 1;
    string const what = string{"at "} + quote (here_text_) + (by_text ? " follow " : " follow parts of ") + quote (ref) + (strict ? "" : " leniently");
    c_.log (what);
    c_.mark (ref.size ());
    texts_.push_back (ref);
    optional<uri::parts> to;
    if (by_text) {
      texts_.push_back (here_text_);
      string const& base = texts_.back ();
      string const& r = texts_[texts_.size () - 2];
      bool const as_default = strict && s_.draw (2) == 0;
      if (!call ([&] { to = as_default ? uri::join (base, r) : uri::join (base, r, strict); })) {
        stay (what);
        return;
      }
    } else {
      optional<uri::parts> r;
      if (!call ([&] { r = uri::split_reference (texts_.back ()); })) {
        stay (what);
        return;
      }
      if (r.has_value () != ref_model.has_value ()) {
        c_.fail ("wrong-verdict", what + ": the reference was " + (r ? "accepted" : "rejected"));
      }
      if (r) {
        lib::Snapshot const base_before{here_};
        lib::Snapshot const ref_before{*r};
        uri::parts t;
        bool const ok = call ([&] { t = uri::join (here_, *r, strict); });
        if (lib::Snapshot{here_} != base_before || lib::Snapshot{*r} != ref_before) {
          c_.fail ("moved-by-failed-step", what + ": resolution changed its arguments");
        }
        if (!ok) {
          stay (what);
          return;
        }
        to = t;
      }
    }
    if (to.has_value () != ref_model.has_value ()) {
      c_.fail ("wrong-verdict", what + (to ? ": the reference was accepted" : ": the reference was rejected"));
    }
    if (!to) {
      stats.add ("probe.not_a_reference");
      c_.mark ("bad");
      stay (what);
      return;
    }
    // By text, the base is what was stored; in memory, what has been carried along.
    model::Uri const base = by_text ? *model::parse (here_text_, false) : expect_;
    auto const want = model::resolve (base, *ref_model, strict);
    auto const got = lib::to_model (*to);
    c_.log ("  to " + lib::show (got));
    if (got != want) {
      c_.fail ("wrong-place", what + ": led to " + lib::show (got) + ", expected " + lib::show (want));
    }
    stats.add (by_text ? "workload.followed_by_text" : "workload.followed_by_parts");
    move_to (*to, want, what, true);
  }

  // Normalises the current path in place.
  void tidy () {
    uri::parts p = here_;
    model::Uri m = expect_;
    m.path = model::remove_dots (m.path);
    if (!call ([&] { p.path.remove_dot_segments (); })) {
      stay ("tidy");
      return;
    }
    auto const got = lib::to_model (p);
    c_.log ("tidy to " + lib::show (got));
    if (got != m) {
      c_.fail ("wrong-place", "at " + quote (here_text_) + " removing dot segments gave " + lib::show (got) + ", expected " + lib::show (m));
    }
    stats.add ("workload.tidied");
    move_to (p, m, "at " + quote (here_text_) + " removing dot segments", false);
  }

  // Continues from the stored text without a crash.
  void reread () {
    store_.sync ();
    c_.log ("reread " + quote (here_text_));
    string const was = here_text_;
    restart ("read its stored URI");
    if (here_text_ != was) {
      c_.fail ("harness", "the log's last record is not the current one");
    }
  }

  Ctx& c_;
  Source& s_;
  gen::Swarm const& w_;
  Store store_;
  std::vector<Written> history_;
  std::deque<string> texts_;  // everything here_ may point into
  uri::parts here_;
  model::Uri expect_;
  string here_text_;
  bool short_of_memory_ = false, disk_fills_ = false, crashes_ = false;
};
}  // namespace

void run_case (Ctx& c) {
  gen::Swarm const w{c.src};
  Client client{c, w};
  client.run ();
}
}  // namespace sim
