// C03: composing URIs to sinks which refuse, throw, stall their flushes, and when memory runs out.
#include <deque>
#include <functional>
#include <ios>
#include <ostream>
#include <streambuf>

#include "core.hpp"
#include "items.hpp"
#include "lib.hpp"

namespace sim {
char const* scenario_name () { return "C03"; }
unsigned scenario_chunk () { return 16; }
void scenario_init () {}

namespace {
using std::string;

struct SinkError {
  int id;
};

struct Plan {
  enum Kind { healthy, refuse_for_ever, refuse_once, throw_struct, throw_bad_alloc, throw_failure, throw_int, kinds } kind = healthy;
  std::size_t at = 0;       // byte at which the sink fails
  unsigned sync_fail = 0;   // the sync_fail-th flush fails (0: none), and all later ones if sync_for_ever
  bool sync_for_ever = false;
  bool whole_or_nothing = false;  // xsputn takes all of a block or nothing of it
  unsigned buffer = 0;      // put area
  bool slow_xsputn = false; // the default xsputn (byte at a time through overflow)
};
string text (Plan const& p) {
  static char const* const names[] = {"healthy", "refuses for ever", "refuses once", "throws a struct", "throws bad_alloc",
                                      "throws ios_base::failure", "throws int"};
  string r = names[p.kind];
  if (p.kind != Plan::healthy) {
    r += " at byte " + std::to_string (p.at);
  }
  if (p.sync_fail != 0) {
    r += ", flush " + std::to_string (p.sync_fail) + " fails" + (p.sync_for_ever ? " for ever" : "");
  }
  return r + (p.buffer != 0 ? ", buffer of " + std::to_string (p.buffer) : "") + (p.slow_xsputn ? ", byte by byte" : "") +
         (p.whole_or_nothing ? ", whole blocks" : "");
}

class Sink : public std::streambuf {
public:
  explicit Sink (Plan const& p) : plan_{p} {
    Quiet const q;
    area_.resize (p.buffer);
    if (p.buffer != 0) {
      setp (area_.data (), area_.data () + area_.size ());
    }
  }
  // Everything this buffer accepted, including what is still in the put area.
  string accepted () const {
    string r = device_;
    if (pbase () != nullptr) {
      r.append (pbase (), pptr ());
    }
    return r;
  }
  unsigned failures = 0;
  unsigned sync_failures = 0;
  unsigned seeks = 0;
  bool threw = false;

protected:
  int_type overflow (int_type ch) override {
    Quiet const q;
    if (!drain ()) {
      return traits_type::eof ();
    }
    if (traits_type::eq_int_type (ch, traits_type::eof ())) {
      return traits_type::not_eof (ch);
    }
    if (plan_.buffer != 0) {
      *pptr () = traits_type::to_char_type (ch);
      pbump (1);
      return ch;
    }
    char const c = traits_type::to_char_type (ch);
    return take (&c, 1) == 1 ? ch : traits_type::eof ();
  }
  std::streamsize xsputn (char const* s, std::streamsize n) override {
    if (plan_.slow_xsputn || plan_.buffer != 0) {
      return std::streambuf::xsputn (s, n);
    }
    Quiet const q;
    return take (s, n);
  }
  int sync () override {
    Quiet const q;
    ++syncs_;
    if (plan_.sync_fail != 0 && (syncs_ == plan_.sync_fail || (plan_.sync_for_ever && syncs_ >= plan_.sync_fail))) {
      ++sync_failures;
      return -1;
    }
    return drain () ? 0 : -1;
  }
  pos_type seekoff (off_type, std::ios_base::seekdir, std::ios_base::openmode) override {
    ++seeks;
    return pos_type (off_type (-1));
  }
  pos_type seekpos (pos_type, std::ios_base::openmode) override {
    ++seeks;
    return pos_type (off_type (-1));
  }

private:
  // Moves the put area to the device as far as the device takes it.
  bool drain () {
    auto const n = pptr () - pbase ();
    if (n == 0) {
      return true;
    }
    auto const before = device_.size ();
    auto keep_rest = [&] {
      auto const done = static_cast<std::ptrdiff_t> (device_.size () - before);
      std::memmove (pbase (), pbase () + done, static_cast<std::size_t> (n - done));
      setp (area_.data (), area_.data () + area_.size ());
      pbump (static_cast<int> (n - done));
      return done == n;
    };
    try {
      take (pbase (), n);
    } catch (...) {
      keep_rest ();
      throw;
    }
    return keep_rest ();
  }
  std::streamsize take (char const* s, std::streamsize n) {
    auto const size = static_cast<std::size_t> (n);
    bool const spent = plan_.kind == Plan::healthy || (plan_.kind == Plan::refuse_once && failures != 0);
    if (spent || device_.size () + size <= plan_.at) {
      device_.append (s, size);
      return n;
    }
    std::size_t part = plan_.at > device_.size () ? plan_.at - device_.size () : 0;
    if (plan_.whole_or_nothing) {
      part = 0;
    }
    device_.append (s, part);
    ++failures;
    switch (plan_.kind) {
    case Plan::throw_struct: threw = true; throw SinkError{42};
    case Plan::throw_bad_alloc: threw = true; throw std::bad_alloc{};
    case Plan::throw_failure: threw = true; throw std::ios_base::failure{"sink"};
    case Plan::throw_int: threw = true; throw 42;
    default: break;
    }
    return static_cast<std::streamsize> (part);
  }
  Plan plan_;
  string device_;
  std::vector<char> area_;
  unsigned syncs_ = 0;
};

Plan draw_sink (Source& s, std::size_t total) {
  Plan p;
  auto const k = s.draw (9);
  p.kind = k < Plan::kinds ? static_cast<Plan::Kind> (k) : Plan::refuse_for_ever;
  if (p.kind != Plan::healthy) {
    p.at = s.draw (static_cast<std::uint32_t> (total) + 2);
  }
  switch (s.draw (5)) {
  case 3: p.buffer = 1 + s.small (40); break;
  case 4: p.slow_xsputn = true; break;
  case 2: p.whole_or_nothing = true; break;
  default: break;
  }
  if (s.draw (5) == 4) {
    p.sync_fail = 1 + s.small (12);
    p.sync_for_ever = s.draw (2) == 1;
  }
  return p;
}

struct Op {
  string name, text;
  std::function<void (std::ostream&)> write;
};

Op draw_op (Ctx& c, gen::Swarm const& w, items::Item& it) {
  auto& s = c.src;
  if (s.draw (3) != 0) {
    items::fill (c, w, it);
  } else {
    // A URI which was split from a text.
    it.text[0].clear ();
    string const t = gen::reference (s, w);
    auto const v = items::put (it.text[0], t);
    auto const p = uri::split_reference (v);
    it.p = p ? *p : uri::parts{};
  }
  uri::parts const& p = it.p;
  Op op;
  switch (s.draw (5)) {
  case 3:
    if (p.authority) {
      op.name = "os << authority";
      op.text = model::authority_text (lib::to_model (p));
      op.write = [&p] (std::ostream& os) { os << *p.authority; };
      break;
    }
    [[fallthrough]];
  case 4:
    op.name = "os << path";
    op.text = lib::path_text (p.path, false);
    op.write = [&p] (std::ostream& os) { os << p.path; };
    break;
  case 2:
    op.name = "compose(os, parts)";
    op.text = model::compose (lib::to_model (p));
    op.write = [&p] (std::ostream& os) { uri::compose (os, p); };
    break;
  default:
    op.name = "os << parts";
    op.text = model::compose (lib::to_model (p));
    op.write = [&p] (std::ostream& os) { os << p; };
    break;
  }
  return op;
}

void to_stream (Ctx& c, gen::Swarm const& w) {
  auto& s = c.src;
  unsigned const n = 1 + s.draw (4);
  std::deque<items::Item> items (n);
  std::vector<Op> ops;
  std::size_t total = 0;
  for (unsigned i = 0; i < n; ++i) {
    ops.push_back (draw_op (c, w, items[i]));
    total += ops.back ().text.size ();
  }
  Plan const plan = draw_sink (s, total);
  Sink sink{plan};
  std::ostream os{&sink};
  static std::ios_base::iostate const masks[] = {std::ios_base::goodbit, std::ios_base::badbit, std::ios_base::failbit,
                                                 std::ios_base::badbit | std::ios_base::failbit};
  auto const mask = masks[s.draw (4)];
  os.exceptions (mask);
  // libstdc++ terminates if an unbuffered stream's flush throws, or fails when the stream is set to throw.
  bool const may_throw = plan.kind >= Plan::throw_struct && plan.kind < Plan::kinds;
  if (s.draw (4) == 3 && mask == std::ios_base::goodbit && !may_throw) {
    os << std::unitbuf;
  }
  if (s.draw (4) == 3) {
    os.setf (std::ios_base::hex | std::ios_base::showbase | std::ios_base::uppercase | std::ios_base::left);
    os.fill ('*');
  }
  c.log ("a stream with exception mask " + std::to_string (static_cast<int> (mask)) + ((os.flags () & std::ios_base::unitbuf) != 0 ? ", unbuffered" : "") +
         " on a sink which is " + text (plan));
  c.mark (plan.kind * 131U + plan.at);
  c.mark (plan.buffer * 7U + plan.sync_fail);
  c.mark (static_cast<std::uint64_t> (mask));
  for (unsigned i = 0; i < n; ++i) {
    bool const clear_first = !os.good () && s.draw (2) == 1;
    if (clear_first) {
      // The caller wants to try again.
      os.clear ();
    }
    if (i != 0 && s.draw (12) == 11) {
      // Somebody else made the stream fail.
      try {
        os.setstate (s.draw (2) == 0 ? std::ios_base::failbit : std::ios_base::eofbit);
      } catch (std::ios_base::failure const&) {
      }
    }
    bool const good_before = os.good ();
    string const before = sink.accepted ();
    auto const failures_before = sink.failures + sink.sync_failures;
    AllocPlan ap;
    if (s.draw (4) == 3) {
      ap.kind = s.draw (2) == 0 ? AllocPlan::nth : AllocPlan::from_nth;
      ap.n = 1 + s.draw (4);
    }
    string ended;
    bool reported = false;
    bool clean = false;
    try {
      AllocScope const scope{ap};
      ops[i].write (os);
      clean = true;
    } catch (SinkError const& e) {
      ended = e.id == 42 ? "the sink's exception" : "a changed exception";
    } catch (std::ios_base::failure const& e) {
      ended = "ios_base::failure";
    } catch (std::bad_alloc const&) {
      ended = "std::bad_alloc";
    } catch (int e) {
      ended = e == 42 ? "the sink's int" : "a changed int";
    }
    alloc.armed = false;
    auto const alloc_failed = alloc.failed;
    string const now = sink.accepted ();
    auto const failed_now = sink.failures + sink.sync_failures - failures_before;
    string const& t = ops[i].text;
    string const what = ops[i].name + " of " + quote (t);
    auto const state = static_cast<int> (os.rdstate ());
    string const delivered = now.size () >= before.size () ? now.substr (before.size ()) : string{"?"};
    c.log (what + (alloc_failed != 0 ? " with " + plan_text (ap) : "") + " -> delivered " + quote (delivered) + ", state " +
           std::to_string (state) + (ended.empty () ? "" : ", threw " + ended));
    c.mark (ops[i].name);
    c.mark (delivered.size ());
    c.mark (static_cast<std::uint64_t> (state));
    stats.add ("calls." + ops[i].name);
    reported = os.fail () || !ended.empty ();
    if (now.size () < before.size () || now.compare (0, before.size (), before) != 0) {
      c.fail ("took-back", what + " changed bytes which had been delivered: " + quote (before) + " became " + quote (now));
    }
    if (!good_before) {
      stats.add ("probe.composed_to_a_failed_stream");
      if (!delivered.empty ()) {
        c.fail ("wrote-to-failed-stream", what + " delivered " + quote (delivered) + " to a stream which had failed");
      }
      if (os.good ()) {
        c.fail ("failure-cleared", what + " cleared the stream's failure");
      }
      continue;
    }
    if (t.compare (0, delivered.size (), delivered) != 0) {
      c.fail ("not-a-prefix", what + " delivered " + quote (delivered));
    }
    if (delivered != t && !reported) {
      c.fail ("silent-truncation", what + " delivered only " + quote (delivered) + " and the stream is still good");
    }
    if (failed_now == 0 && alloc_failed == 0) {
      if (reported || delivered != t) {
        c.fail ("spurious-failure", what + " failed (" + (ended.empty () ? "state " + std::to_string (state) : ended) +
                                      ") though neither the sink nor memory did");
      }
    } else {
      c.nontrivial ();
      if (failed_now != 0) {
        stats.add (sink.sync_failures != 0 ? "fault.flush_refused" : (sink.threw ? "fault.sink_threw" : "fault.sink_refused"));
      }
    }
    // Which exceptions may come out: the stream's own if its mask says so, std::bad_alloc if memory ran out.
    if (!ended.empty ()) {
      bool const by_mask = failed_now != 0 && (mask & (std::ios_base::badbit | std::ios_base::failbit)) != 0;
      bool const by_memory = alloc_failed != 0 && (ended == "std::bad_alloc" || mask != std::ios_base::goodbit);
      if (!by_mask && !by_memory) {
        c.fail ("unexpected-exception", what + " threw " + ended + " although the stream's exception mask is " +
                                          std::to_string (static_cast<int> (mask)));
      }
      if (ended.find ("changed") != string::npos) {
        c.fail ("exception-changed", what + " threw " + ended);
      }
    }
    if (ended.empty () && (os.rdstate () & mask) != 0) {
      c.fail ("exception-swallowed", what + " left the stream in state " + std::to_string (state) + " without throwing, although its exception mask is " +
                                       std::to_string (static_cast<int> (mask)));
    }
    if (os.exceptions () != mask) {
      c.fail ("mask-changed", what + " changed the stream's exception mask");
    }
    if (!clean) {
      stats.add ("probe.composing_threw");
    }
  }
}

void to_string (Ctx& c, gen::Swarm const& w) {
  auto& s = c.src;
  items::Item it;
  draw_op (c, w, it);
  uri::parts const& p = it.p;
  string const t = model::compose (lib::to_model (p));
  string const what = "compose of " + lib::show (lib::to_model (p));
  auto once = [&] (AllocPlan const& plan) {
    string got;
    bool threw = false;
    {
      try {
        AllocScope const scope{plan};
        got = uri::compose (p);
      } catch (std::exception const&) {
        threw = true;
      }
    }
    c.log (what + " with " + plan_text (plan) + ": " + (threw ? "threw" : quote (got)) + " (" + std::to_string (alloc.failed) + " failed)");
    c.mark (plan.kind * 4099U + plan.n);
    c.mark (alloc.count);
    stats.add ("calls.compose to string");
    if (threw && alloc.failed == 0) {
      c.fail ("spurious-failure", what + " threw although memory was available");
    }
    if (!threw && got != t) {
      c.fail (alloc.failed != 0 ? "truncated-string" : "wrong-text", what + " with " + plan_text (plan) + " gave " + quote (got) + ", expected " + quote (t));
    }
    if (alloc.failed != 0) {
      c.nontrivial ();
    }
  };
  once ({});
  AllocState const seen = alloc;
  unsigned const tries = 1 + s.draw (4);
  for (unsigned k = 0; k < tries && seen.count != 0; ++k) {
    once (draw_plan (s, seen.count, seen.max_size, seen.bytes));
  }
  once ({});
}
}  // namespace

void run_case (Ctx& c) {
  gen::Swarm const w{c.src};
  if (c.src.draw (4) == 3) {
    to_string (c, w);
  } else {
    to_stream (c, w);
  }
}
}  // namespace sim
