// Sources and sinks owned by the simulator: every access to one is an event at which it may fail.
#ifndef SIM_C09_HPP
#define SIM_C09_HPP
#include <functional>
#include <iterator>
#include <optional>
#include <ranges>
#include <stdexcept>
#include <string>
#include <system_error>
#include <variant>
#include <vector>

#include "core.hpp"
#include "gen.hpp"
#include "model.hpp"
#include "utf.hpp"

namespace sim {
namespace wire {
using std::optional;
using std::string;
template <typename T> using vec = std::vector<T>;

struct Boom {
  unsigned id;
};
struct Mine : std::bad_alloc {
  unsigned id;
  explicit Mine (unsigned i) : id{i} {}
  char const* what () const noexcept override { return "mine"; }
};

enum Event : unsigned { read, advance, write, step };
inline char const* event_name (Event e) {
  static char const* const n[] = {"source_read", "source_advance", "sink_write", "sink_advance"};
  return n[e];
}

// Counts the accesses of one transfer and decides what happens at them.
class Wire {
public:
  explicit Wire (Ctx& c) : c{c} {}
  Ctx& c;
  std::uint64_t events = 0;
  std::uint64_t fail_at = 0;  // 0: never
  unsigned how = 0;
  std::uint64_t nest_at = 0;
  std::function<void ()> nest;
  string thrown;              // what was thrown, as text
  string broken;              // a rule of iterators that was broken
  string broken_class;

  void event (Event e) {
    ++events;
    if (events == nest_at && nest) {
      Quiet const q;
      auto const saved = alloc;
      alloc.armed = false;
      nest ();
      alloc = saved;
    }
    if (events != fail_at) {
      return;
    }
    stats.add (string{"fault."} + event_name (e) + "_throws");
    auto const id = static_cast<unsigned> (events);
    switch (how) {
    case 0: say ("Boom " + std::to_string (id)); throw Boom{id};
    case 1: say ("int " + std::to_string (id)); throw static_cast<int> (id);
    case 2: say ("runtime_error gone"); throw std::runtime_error{"gone"};
    case 3: say ("Mine " + std::to_string (id)); throw Mine{id};
    case 4: say ("system_error " + std::to_string (ENOSPC)); throw std::system_error{ENOSPC, std::generic_category ()};
    default: say ("end of file"); throw string{"end of file"};
    }
  }
  void rule (char const* cls, string const& what) {
    Quiet const q;
    if (broken.empty ()) {
      broken_class = cls;
      broken = what;
    }
  }

private:
  void say (string s) {
    Quiet const q;
    thrown = std::move (s);
  }
};

// The exception being handled, as text.
inline string current_exception_text () {
  Quiet const q;
  try {
    throw;
  } catch (Boom const& b) {
    return "Boom " + std::to_string (b.id);
  } catch (int i) {
    return "int " + std::to_string (i);
  } catch (std::system_error const& e) {
    return "system_error " + std::to_string (e.code ().value ());
  } catch (std::runtime_error const& e) {
    return string{"runtime_error "} + e.what ();
  } catch (Mine const& m) {
    return "Mine " + std::to_string (m.id);
  } catch (std::bad_alloc const&) {
    return "bad_alloc";
  } catch (string const& s) {
    return s;
  } catch (std::exception const& e) {
    return string{"exception "} + e.what ();
  } catch (...) {
    return "something";
  }
}

// ---- sources --------------------------------------------------------------------------------------------------------
template <typename T> struct Source9 {
  Wire* w;
  vec<T> data;
  bool single = false;       // each element can be had only while it is the current one
  std::size_t at = 0;        // of a single-pass source
  optional<T> current;
  std::size_t furthest = 0;  // one past the last element read
};

template <typename T, typename Tag> class From {
public:
  using iterator_category = Tag;
  using iterator_concept = Tag;
  using value_type = T;
  using difference_type = std::ptrdiff_t;
  using pointer = T const*;
  using reference = T const&;
  static constexpr bool forward = std::is_base_of_v<std::forward_iterator_tag, Tag>;
  static constexpr bool bidi = std::is_base_of_v<std::bidirectional_iterator_tag, Tag>;
  static constexpr bool random = std::is_base_of_v<std::random_access_iterator_tag, Tag>;

  From () = default;
  From (Source9<T>* s, std::size_t pos) : s_{s}, pos_{pos} {}

  reference operator* () const {
    s_->w->event (read);
    return get (pos_);
  }
  pointer operator->() const { return &**this; }
  From& operator++ () {
    s_->w->event (advance);
    inc ();
    return *this;
  }
  From operator++ (int)
    requires forward
  {
    s_->w->event (advance);
    From old = *this;
    inc ();
    return old;
  }
  struct Kept {
    T v;
    T const& operator* () const { return v; }
  };
  Kept operator++ (int)
    requires (!forward)
  {
    Kept k{get (pos_)};
    ++*this;
    return k;
  }
  From& operator-- ()
    requires bidi
  {
    s_->w->event (advance);
    if (pos_ == 0) {
      s_->w->rule ("before-begin", "moved before the beginning of the source");
    } else {
      --pos_;
    }
    return *this;
  }
  From operator-- (int)
    requires bidi
  {
    From old = *this;
    --*this;
    return old;
  }
  From& operator+= (difference_type n)
    requires random
  {
    s_->w->event (advance);
    auto const p = static_cast<difference_type> (pos_) + n;
    if (p < 0 || p > static_cast<difference_type> (s_->data.size ())) {
      s_->w->rule ("past-end", "moved to " + std::to_string (p) + " of a source with " + std::to_string (s_->data.size ()) + " elements");
    } else {
      pos_ = static_cast<std::size_t> (p);
    }
    return *this;
  }
  From& operator-= (difference_type n)
    requires random
  {
    return *this += -n;
  }
  friend From operator+ (From a, difference_type n)
    requires random
  {
    return a += n;
  }
  friend From operator+ (difference_type n, From a)
    requires random
  {
    return a += n;
  }
  friend From operator- (From a, difference_type n)
    requires random
  {
    return a -= n;
  }
  friend difference_type operator- (From const& a, From const& b)
    requires random
  {
    return static_cast<difference_type> (a.pos_) - static_cast<difference_type> (b.pos_);
  }
  reference operator[] (difference_type n) const
    requires random
  {
    return *(*this + n);
  }
  friend auto operator<=> (From const& a, From const& b)
    requires random
  {
    return a.pos_ <=> b.pos_;
  }
  friend bool operator== (From const& a, From const& b) { return a.pos_ == b.pos_; }
  std::size_t pos () const { return pos_; }

private:
  reference get (std::size_t i) const {
    static T const nothing{};
    if (i >= s_->data.size ()) {
      s_->w->rule ("past-end", "read element " + std::to_string (i) + " of a source with " + std::to_string (s_->data.size ()));
      return nothing;
    }
    s_->furthest = s_->furthest > i ? s_->furthest : i + 1;
    if (!s_->single) {
      return s_->data[i];
    }
    if (i != s_->at) {
      s_->w->rule ("read-again", "read element " + std::to_string (i) + " of a single-pass source which is at " + std::to_string (s_->at));
      return nothing;
    }
    s_->current = s_->data[i];
    return *s_->current;
  }
  void inc () {
    if (pos_ >= s_->data.size ()) {
      s_->w->rule ("past-end", "moved past the end of the source");
      return;
    }
    if (s_->single) {
      if (pos_ != s_->at) {
        s_->w->rule ("read-again", "moved from element " + std::to_string (pos_) + " of a single-pass source which is at " + std::to_string (s_->at));
      } else {
        ++s_->at;
        s_->current = static_cast<T> (0x7F);  // whoever kept a reference sees something else
      }
    }
    ++pos_;
  }
  Source9<T>* s_ = nullptr;
  std::size_t pos_ = 0;
};

// A sentinel of another type.
template <typename T> struct End {
  std::size_t size = 0;
  template <typename Tag> friend bool operator== (From<T, Tag> const& a, End const& e) { return a.pos () == e.size; }
};

// ---- sinks ----------------------------------------------------------------------------------------------------------
template <typename T> struct Sink9 {
  Wire* w;
  vec<T> got;
};
// Behaves as a pointer into an array would: a position is written once, and only the next one can be written.
template <typename T> class To {
public:
  using iterator_category = std::output_iterator_tag;
  using value_type = void;
  using difference_type = std::ptrdiff_t;
  using pointer = void;
  using reference = void;
  explicit To (Sink9<T>* s) : s_{s} {}
  class Cell {
  public:
    Cell (Sink9<T>* s, std::size_t pos) : s_{s}, pos_{pos} {}
    Cell const& operator= (T v) const {
      s_->w->event (write);
      Quiet const q;
      if (pos_ != s_->got.size ()) {
        s_->w->rule ("sink-position", "wrote position " + std::to_string (pos_) + " of a sink which had " + std::to_string (s_->got.size ()) + " elements");
      }
      s_->got.push_back (v);
      return *this;
    }

  private:
    Sink9<T>* s_;
    std::size_t pos_;
  };
  Cell operator* () const { return Cell{s_, pos_}; }
  To& operator++ () {
    s_->w->event (step);
    ++pos_;
    return *this;
  }
  To operator++ (int) {
    s_->w->event (step);
    To old = *this;
    ++pos_;
    return old;
  }
  std::size_t pos () const { return pos_; }

private:
  Sink9<T>* s_;
  std::size_t pos_ = 0;
};

template <typename T> string show (vec<T> const& v) {
  Quiet const q;
  if constexpr (sizeof (T) == 1) {
    string s;
    for (auto const x : v) {
      s += static_cast<char> (x);
    }
    return quote (s);
  } else {
    return "[" + utf::units (utf::str<T> (v.begin (), v.end ())) + "]";
  }
}
template <typename T, typename S> vec<T> to_vec (S const& s) {
  vec<T> r;
  for (auto const x : s) {
    r.push_back (static_cast<T> (x));
  }
  return r;
}

// ---- transfers ------------------------------------------------------------------------------------------------------
struct Transfer {
  virtual ~Transfer () = default;
  virtual void go (Ctx& c, bool nested) = 0;
};
// Any transfer, for use within another one.
std::unique_ptr<Transfer> draw_transfer (Ctx& c, bool simple);

template <typename In, typename Out> struct Job final : public Transfer {
  string name;
  vec<In> data;
  bool single = false;
  bool reads_all = false;
  optional<vec<Out>> want;      // what the models say
  optional<string> want_answer;
  std::function<string (Source9<In>&, Sink9<Out>&)> run;

  struct Outcome {
    optional<string> answer;
    string exception;
    vec<Out> got;
    std::size_t furthest = 0;
  };
  string text () const { return name + " of " + show (data); }
  Outcome once (Ctx& c, Wire& w, AllocPlan plan) {
    Outcome o;
    Source9<In> src{&w, data, single, 0, {}, 0};
    src.data.shrink_to_fit ();
    Sink9<Out> snk{&w, {}};
    try {
      AllocScope const scope{plan};
      string a = run (src, snk);
      Quiet const q;
      o.answer = a;
    } catch (Violation const&) {
      throw;
    } catch (...) {
      o.exception = current_exception_text ();
    }
    o.got = snk.got;
    o.furthest = src.furthest;
    if (!w.broken.empty ()) {
      c.fail (w.broken_class, text () + " " + w.broken);
    }
    return o;
  }
  void go (Ctx& c, bool nested) override {
    c.log ((nested ? "  meanwhile " : "") + text ());
    c.mark (name);
    Wire clean{c};
    Outcome const good = once (c, clean, {});
    AllocState const seen = alloc;
    if (!good.answer) {
      c.fail ("spurious-exception", text () + " threw " + good.exception + " although nothing failed");
    }
    if (want && good.got != *want) {
      c.fail ("wrong-output", text () + " delivered " + show (good.got) + ", expected " + show (*want));
    }
    if (want_answer && *good.answer != *want_answer) {
      c.fail ("wrong-answer", text () + " gave " + *good.answer + ", expected " + *want_answer);
    }
    if (reads_all && good.furthest != data.size ()) {
      c.fail ("source-not-read", text () + " read only " + std::to_string (good.furthest) + " elements");
    }
    stats.add ("calls." + name);
    if (nested) {
      return;
    }
    unsigned const tries = 1 + c.src.draw (5);
    for (unsigned t = 0; t < tries; ++t) {
      Wire w{c};
      AllocPlan plan;
      auto const fault = c.src.draw (8);
      string what;
      if (fault == 7 && seen.count > 0) {
        plan = draw_plan (c.src, seen.count, seen.max_size, seen.bytes);
        what = plan_text (plan);
      } else if (fault == 6 && clean.events > 0) {
        w.nest_at = 1 + c.src.draw (static_cast<std::uint32_t> (clean.events));
        w.nest = [&c] { draw_transfer (c, true)->go (c, true); };
        what = "other work at access " + std::to_string (w.nest_at);
        stats.add ("fault.reentered");
      } else if (clean.events > 0) {
        w.fail_at = 1 + c.src.draw (static_cast<std::uint32_t> (clean.events));
        w.how = c.src.draw (6);
        what = "failure of access " + std::to_string (w.fail_at) + " of " + std::to_string (clean.events);
      } else {
        continue;
      }
      Outcome const bad = once (c, w, plan);
      c.log ("  " + what + ": " + (bad.answer ? *bad.answer : "threw " + bad.exception) + " after " + show (bad.got));
      c.mark (w.fail_at * 64 + w.nest_at * 8 + w.how);
      c.nontrivial ();
      if (bad.answer) {
        if (!w.thrown.empty ()) {
          c.fail ("exception-lost", text () + " with " + what + " returned " + *bad.answer + " although " + w.thrown + " was thrown");
        }
        if (bad.got != good.got || bad.answer != good.answer) {
          c.fail ("wrong-output", text () + " with " + what + " delivered " + show (bad.got) + " and gave " + *bad.answer + ", expected " + show (good.got) + " and " + *good.answer);
        }
        continue;
      }
      string const expect = !w.thrown.empty () ? w.thrown : alloc.failed > 0 || plan.kind != AllocPlan::none ? "bad_alloc" : "nothing";
      if (bad.exception != expect) {
        c.fail ("exception-changed", text () + " with " + what + " threw " + bad.exception + ", expected " + expect);
      }
      if (bad.got.size () > good.got.size () || !std::equal (bad.got.begin (), bad.got.end (), good.got.begin ())) {
        c.fail ("not-a-prefix", text () + " with " + what + " delivered " + show (bad.got) + ", which is not the beginning of " + show (good.got));
      }
    }
    Wire again{c};
    Outcome const last = once (c, again, {});
    if (last.answer != good.answer || last.got != good.got) {
      c.fail ("no-recovery", text () + " after failures delivered " + show (last.got) + ", expected " + show (good.got));
    }
  }
};

std::unique_ptr<Transfer> transfer_text (Ctx& c, bool simple);
std::unique_ptr<Transfer> transfer8 (Ctx& c);
std::unique_ptr<Transfer> transfer16 (Ctx& c);
std::unique_ptr<Transfer> transfer32 (Ctx& c);
std::unique_ptr<Transfer> transfer_bytes (Ctx& c);
}  // namespace wire
}  // namespace sim
#endif
