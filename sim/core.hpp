// Core of the deterministic simulator: one integer -> one choice sequence -> one execution.
//
// Every random decision of a run (workload, schedule, faults) is drawn from sim::Source.  In random mode a draw comes
// from a PRNG seeded by (VERIF_SEED, run index) and is recorded; in replay mode it comes from the recorded list (zero
// once the list is exhausted).  A replay file is therefore just the recorded list, and minimising it is minimising
// the list.  Scenarios are written so that 0 is always the simplest choice (no fault, no switch, shortest input).
#ifndef SIM_CORE_HPP
#define SIM_CORE_HPP
#include <cstdint>
#include <cstdio>
#include <cstring>
#include <map>
#include <set>
#include <string>
#include <string_view>
#include <vector>

namespace sim {

struct Violation {
  std::string cls;  // class: stable under minimisation
  std::string msg;
};

class Rng {
public:
  explicit Rng (std::uint64_t seed) : s_{seed} {}
  std::uint64_t next () {
    std::uint64_t z = (s_ += 0x9E3779B97F4A7C15ULL);
    z = (z ^ (z >> 30U)) * 0xBF58476D1CE4E5B9ULL;
    z = (z ^ (z >> 27U)) * 0x94D049BB133111EBULL;
    return z ^ (z >> 31U);
  }

private:
  std::uint64_t s_;
};

inline std::uint64_t mix (std::uint64_t a, std::uint64_t b) {
  Rng r{a * 0xD1342543DE82EF95ULL + b * 0x2545F4914F6CDD1DULL + 0x632BE59BD9B4E019ULL};
  r.next ();
  return r.next ();
}

// Allocation inside the simulator itself must never be counted or failed: see alloc.cpp.
struct Quiet {
  Quiet ();
  ~Quiet ();
  Quiet (Quiet const&) = delete;
  Quiet& operator= (Quiet const&) = delete;
};

// Appends to a record which survives the death of this process.
void record_choice (std::uint32_t v);

class Source {
public:
  explicit Source (std::uint64_t seed) : rng_{seed} {}
  explicit Source (std::vector<std::uint32_t> rec) : replay_{true}, rng_{0}, in_{std::move (rec)} {}

  // Uniform in [0, n).
  std::uint32_t draw (std::uint32_t n) {
    if (n <= 1) {
      return 0;
    }
    Quiet const q;
    std::uint32_t v = 0;
    if (replay_) {
      v = pos_ < in_.size () ? in_[pos_] : 0;
      ++pos_;
      if (v >= n) {
        v = n - 1;
      }
    } else {
      v = static_cast<std::uint32_t> (rng_.next () % n);
    }
    ++drawn_;
    record_choice (v);
    return v;
  }
  std::uint32_t range (std::uint32_t lo, std::uint32_t hi) { return lo + draw (hi - lo + 1); }
  // True with probability num/den; zero choice means false.
  bool chance (std::uint32_t num, std::uint32_t den) {
    return draw (den) >= den - num;
  }
  // Skewed towards small values, up to max (inclusive).
  std::uint32_t small (std::uint32_t max) {
    if (max == 0) {
      return 0;
    }
    std::uint32_t cap = 1;
    std::uint32_t const bits = draw (6);
    for (std::uint32_t i = 0; i < bits * 2; ++i) {
      if (cap < max) {
        cap *= 2;
      }
    }
    return draw ((cap < max ? cap : max) + 1);
  }
  template <typename T> T const& pick (std::vector<T> const& v) { return v[draw (static_cast<std::uint32_t> (v.size ()))]; }
  std::uint32_t drawn () const { return drawn_; }

private:
  bool replay_ = false;
  Rng rng_;
  std::vector<std::uint32_t> in_;
  std::size_t pos_ = 0;
  std::uint32_t drawn_ = 0;
};

// Counters shared by all runs of a process (they never influence a run).
struct Stats {
  std::map<std::string, std::uint64_t> n;
  void add (char const* k, std::uint64_t v = 1) {
    Quiet const q;
    n[k] += v;
  }
  void add (std::string const& k, std::uint64_t v = 1) {
    Quiet const q;
    n[k] += v;
  }
  // The key must begin with "max.".
  void max (char const* k, std::uint64_t v) {
    Quiet const q;
    auto& x = n[k];
    x = x < v ? v : x;
  }
};
extern Stats stats;

std::string quote (std::string_view s);

class Ctx {
public:
  Source src;
  bool trace = false;
  // hash points at memory which survives the death of this process.
  Ctx (Source s, std::uint64_t* hash) : src{std::move (s)}, hash_{hash} { *hash_ = 0xCBF29CE484222325ULL; }

  // The event log.  Its hash is what the determinism checks compare.
  void log (std::string const& line) {
    Quiet const q;
    std::uint64_t h = *hash_;
    for (char const c : line) {
      h = (h ^ static_cast<unsigned char> (c)) * 0x100000001B3ULL;
    }
    *hash_ = (h ^ 0x0AU) * 0x100000001B3ULL;
    ++events_;
    if (trace) {
      std::string l = "  " + line + "\n";
      std::fwrite (l.data (), 1, l.size (), stderr);
    }
  }
  // Something that distinguishes this run from others: the shape of the schedule and faults.
  void mark (std::uint64_t v) { sig_ = mix (sig_, v); }
  void mark (std::string_view v) {
    for (char const c : v) {
      sig_ = mix (sig_, static_cast<unsigned char> (c));
    }
  }
  void nontrivial () { nontrivial_ = true; }
  [[noreturn]] void fail (std::string cls, std::string msg) {
    Quiet const q;
    throw Violation{std::move (cls), std::move (msg)};
  }
  std::uint64_t hash () const { return *hash_; }
  std::uint64_t sig () const { return sig_; }
  bool is_nontrivial () const { return nontrivial_; }
  std::uint64_t events () const { return events_; }

private:
  std::uint64_t* hash_;
  std::uint64_t sig_ = 1;
  std::uint64_t events_ = 0;
  bool nontrivial_ = false;
};

// Deterministic "simulated time": instrumented control-flow edges executed by the code under test.  A run which
// exceeds its budget is reported as making no progress.
extern thread_local int quiet_depth;
extern std::uint64_t steps;
extern std::uint64_t step_limit;
// The lowest stack address seen at an edge.
extern char* stack_low;
// Called once, when steps reaches step_hook_at.
extern std::uint64_t step_hook_at;
extern void (*step_hook) ();

// ---- allocation faults -------------------------------------------------------------------------------------------
struct AllocPlan {
  enum Kind { none, nth, from_nth, at_least, budget } kind = none;
  std::uint64_t n = 0;
};
struct AllocState {
  bool armed = false;        // counting + failing enabled
  AllocPlan plan;
  std::uint64_t count = 0;   // allocations seen while armed
  std::uint64_t bytes = 0;   // bytes requested while armed
  std::uint64_t failed = 0;  // failures injected while armed
  std::uint64_t max_size = 0;
  std::int64_t held = 0;     // bytes allocated less bytes released while armed
  std::int64_t peak = 0;     // its maximum
};
extern AllocState alloc;
extern std::int64_t live_blocks;  // balance of non-quiet operator new/delete
extern std::int64_t live_bytes;

// Arms allocation accounting (and, with a plan, failures) for a scope.
class AllocScope {
public:
  explicit AllocScope (AllocPlan plan = {});
  ~AllocScope ();
  AllocScope (AllocScope const&) = delete;
  AllocScope& operator= (AllocScope const&) = delete;
};
// Draws a plan aimed at an operation that performed `count` allocations (largest `max_size`) when not faulted.
AllocPlan draw_plan (Source& s, std::uint64_t count, std::uint64_t max_size, std::uint64_t bytes);
std::string plan_text (AllocPlan const& p);

// Implemented by each scenario.
char const* scenario_name ();
unsigned scenario_chunk ();  // runs per forked child: 1 gives every run a pristine process
void scenario_init ();       // once per child, before its first run
void run_case (Ctx& c);

}  // namespace sim
#endif
