// Driver: batches of seeded runs, single runs, replay of recorded choice sequences, minimisation.
//
//   sim --batch SEED START COUNT OUT [DEADLINE_S]   runs START..START+COUNT-1, writes OUT.bin / OUT.json
//   sim --one SEED INDEX [--trace]                  one run
//   sim --replay FILE [--trace]                     FILE: one choice sequence per line, run in order in one process
//   sim --shrink FILE OUT CLASS MAXEVALS            minimises the last line of FILE
//
// Every run executes in a forked child, so that a crash, a call to std::terminate, a sanitizer report or a run without
// progress is an outcome like any other.
#include <dlfcn.h>
#include <fcntl.h>
#include <poll.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <unistd.h>

#include <cerrno>
#include <chrono>
#include <clocale>
#include <cstdlib>
#include <exception>
#include <fstream>
#include <iostream>
#include <new>
#include <sstream>
#include <typeinfo>

#include "core.hpp"

namespace sim {
Stats stats;
std::uint64_t steps = 0;
char* stack_low = nullptr;
std::uint64_t step_limit = ~0ULL;
std::uint64_t step_hook_at = 0;
void (*step_hook) () = nullptr;

std::string quote (std::string_view s) {
  static char const hex[] = "0123456789abcdef";
  std::string r = "\"";
  for (char const c : s) {
    auto const u = static_cast<unsigned char> (c);
    if (c == '"' || c == '\\') {
      r += '\\';
      r += c;
    } else if (u >= 0x20 && u < 0x7F) {
      r += c;
    } else {
      r += "\\x";
      r += hex[u >> 4U];
      r += hex[u & 15U];
    }
  }
  return r + "\"";
}
}  // namespace sim

namespace {
using namespace sim;

constexpr int exit_terminate = 86;
constexpr int exit_hang = 88;
constexpr int exit_sanitizer = 77;
constexpr std::uint64_t run_step_limit = 60'000'000;
constexpr int wall_limit_s = 60;

struct Shared {
  std::uint64_t hash;
  std::uint64_t idx;       // run being executed
  std::uint64_t done;      // runs completed in this child
  char cls[200];
  char msg[8000];
  std::uint64_t violated;  // cls/msg are valid
  std::uint64_t steps;
  std::uint32_t nrec;      // choices drawn by the violating run
  std::uint32_t rec[1U << 18U];
  unsigned char edges[1U << 16U];
};
Shared* shared = nullptr;

struct Record {
  std::uint64_t idx, hash, sig, steps;
  std::uint32_t nontrivial, choices;
};

std::uint32_t* guard_first = nullptr;

void on_terminate () {
  static char const m[] = "std::terminate called\n";
  (void)!write (2, m, sizeof m - 1);
  std::_Exit (exit_terminate);
}

void put (char* dst, std::size_t cap, std::string const& s) {
  auto const n = s.size () < cap - 1 ? s.size () : cap - 1;
  std::memcpy (dst, s.data (), n);
  dst[n] = 0;
}

// Runs one case in this process. Returns true if it held.
Ctx* running = nullptr;
bool run_here (Source src, std::uint64_t idx, bool trace, Record* rec) {
  shared->idx = idx;
  shared->violated = 0;
  shared->nrec = 0;
  Ctx c{std::move (src), &shared->hash};
  c.trace = trace;
  running = &c;
  alloc = AllocState{};
  quiet_depth = 0;
  steps = 0;
  step_limit = run_step_limit;
  auto fault = [&] (std::string const& cls, std::string const& msg) {
    alloc.armed = false;
    c.log ("VIOLATION " + cls + ": " + msg);
    put (shared->cls, sizeof shared->cls, cls);
    put (shared->msg, sizeof shared->msg, msg);
    shared->violated = 1;
  };
  bool ok = false;
  try {
    run_case (c);
    ok = true;
  } catch (Violation const& v) {
    fault (v.cls, v.msg);
  } catch (std::exception const& e) {
    alloc.armed = false;
    fault (std::string{"unexpected-exception:"} + typeid (e).name (), e.what ());
  } catch (...) {
    alloc.armed = false;
    fault ("unexpected-exception:unknown", "");
  }
  alloc.armed = false;
  shared->steps = steps;
  step_limit = ~0ULL;
  if (rec != nullptr) {
    *rec = Record{idx, shared->hash, c.sig (), steps, c.is_nontrivial () ? 1U : 0U,
                  c.src.drawn ()};
  }
  return ok;
}

struct Outcome {
  bool ok = true;
  std::string cls, msg;
  std::uint64_t hash = 0, idx = 0;
  std::vector<std::uint32_t> rec;
  std::string child_output;  // what the child wrote on its pipe
};

std::string slurp_fd (int fd) {
  std::string r;
  lseek (fd, 0, SEEK_SET);
  char b[4096];
  ssize_t n = 0;
  while ((n = read (fd, b, sizeof b)) > 0) {
    r.append (b, static_cast<std::size_t> (n));
  }
  return r;
}

std::string classify_text (std::string const& err, std::string const& fallback) {
  auto find_word = [&] (char const* key) -> std::string {
    auto p = err.find (key);
    if (p == std::string::npos) {
      return {};
    }
    p += std::strlen (key);
    auto e = err.find_first_of (" \n(", p);
    return err.substr (p, e == std::string::npos ? e : e - p);
  };
  if (auto w = find_word ("ERROR: AddressSanitizer: "); !w.empty ()) {
    return "sanitizer:" + w;
  }
  if (err.find ("runtime error:") != std::string::npos) {
    return "sanitizer:undefined-behaviour";
  }
  if (err.find ("Assertion") != std::string::npos) {
    return "crash:assertion";
  }
  return fallback;
}

std::string gist (std::string const& err) {
  std::string best;
  std::istringstream is{err};
  std::string l;
  int frames = 0;
  while (std::getline (is, l)) {
    if (l.find ("ERROR:") != std::string::npos || l.find ("runtime error") != std::string::npos ||
        l.find ("Assertion") != std::string::npos || l.find ("terminate") != std::string::npos) {
      best += l + "; ";
    } else if (l.find (" in uri::") != std::string::npos && frames < 4) {
      ++frames;
      best += l.substr (l.find (" in ") + 4) + "; ";
    }
    if (best.size () > 900) {
      break;
    }
  }
  return best.empty () ? err.substr (0, 300) : best;
}

// Runs `body` in a child; body returns true if all was well.
template <typename Body> Outcome in_child (bool trace, Body body) {
  Outcome o;
  std::memset (shared->cls, 0, sizeof shared->cls);
  shared->violated = 0;
  shared->hash = 0;
  shared->nrec = 0;
  int fds[2];
  if (pipe (fds) != 0) {
    std::perror ("pipe");
    std::exit (2);
  }
  int const err = trace ? -1 : memfd_create ("err", MFD_CLOEXEC);
  std::fflush (nullptr);
  pid_t const pid = fork ();
  if (pid < 0) {
    std::perror ("fork");
    std::exit (2);
  }
  if (pid == 0) {
    close (fds[0]);
    if (err >= 0) {
      dup2 (err, 2);
    }
    rlimit rl{static_cast<rlim_t> (wall_limit_s), static_cast<rlim_t> (wall_limit_s)};
    setrlimit (RLIMIT_CPU, &rl);
    rlimit core{0, 0};
    setrlimit (RLIMIT_CORE, &core);
    scenario_init ();
    std::set_terminate (on_terminate);
    bool const ok = body (fds[1]);
    std::_Exit (ok ? 0 : 1);
  }
  close (fds[1]);
  auto const t0 = std::chrono::steady_clock::now ();
  bool killed = false;
  char b[65536];
  for (;;) {
    pollfd p{fds[0], POLLIN, 0};
    int const pr = poll (&p, 1, 2000);
    if (pr > 0) {
      ssize_t const n = read (fds[0], b, sizeof b);
      if (n <= 0) {
        break;
      }
      o.child_output.append (b, static_cast<std::size_t> (n));
    }
    if (std::chrono::steady_clock::now () - t0 > std::chrono::seconds (5 * wall_limit_s)) {
      kill (pid, SIGKILL);
      killed = true;
      break;
    }
  }
  close (fds[0]);
  int st = 0;
  while (waitpid (pid, &st, 0) < 0 && errno == EINTR) {
  }
  o.hash = shared->hash;
  o.idx = shared->idx;
  o.rec.assign (shared->rec, shared->rec + shared->nrec);
  if (WIFEXITED (st) && WEXITSTATUS (st) == 0) {
    // fine
  } else {
    o.ok = false;
    std::string const text = err >= 0 ? slurp_fd (err) : std::string{};
    if (shared->violated != 0) {
      o.cls = shared->cls;
      o.msg = shared->msg;
    } else if (killed || (WIFEXITED (st) && WEXITSTATUS (st) == exit_hang) ||
               (WIFSIGNALED (st) && (WTERMSIG (st) == SIGXCPU || WTERMSIG (st) == SIGKILL))) {
      o.cls = "no-progress";
      o.msg = "the operation did not finish within its step budget";
    } else if (WIFEXITED (st) && WEXITSTATUS (st) == exit_terminate) {
      o.cls = "crash:terminate";
      o.msg = "std::terminate was called: " + gist (text);
    } else if (WIFSIGNALED (st)) {
      o.cls = classify_text (text, "crash:signal-" + std::to_string (WTERMSIG (st)));
      o.msg = gist (text);
    } else {
      o.cls = classify_text (text, "crash:exit-" + std::to_string (WEXITSTATUS (st)));
      o.msg = gist (text);
    }
    if (trace) {
      o.msg += " (child output above)";
    }
  }
  if (err >= 0) {
    close (err);
  }
  return o;
}

std::string json_str (std::string const& s) {
  std::string r = "\"";
  for (char const c : s) {
    auto const u = static_cast<unsigned char> (c);
    if (c == '"' || c == '\\') {
      r += '\\';
      r += c;
    } else if (u < 0x20 || u >= 0x7F) {
      char b[8];
      std::snprintf (b, sizeof b, "\\u%04x", u);
      r += b;
    } else {
      r += c;
    }
  }
  return r + "\"";
}

std::string outcome_json (Outcome const& o) {
  std::ostringstream s;
  s << "{\"ok\": " << (o.ok ? "true" : "false") << ", \"idx\": " << o.idx << ", \"hash\": \"" << std::hex << o.hash
    << std::dec << "\", \"class\": " << json_str (o.cls) << ", \"msg\": " << json_str (o.msg) << ", \"choices\": [";
  for (std::size_t i = 0; i < o.rec.size (); ++i) {
    s << (i ? "," : "") << o.rec[i];
  }
  s << "]}";
  return s.str ();
}

int batch (std::uint64_t seed, std::uint64_t start, std::uint64_t count, std::string const& out, double deadline) {
  auto const t0 = std::chrono::steady_clock::now ();
  unsigned const chunk = scenario_chunk ();
  std::ofstream bin{out + ".bin", std::ios::binary};
  std::map<std::string, std::uint64_t> total;
  Outcome bad;
  std::uint64_t prefix_start = 0;
  std::uint64_t ran = 0;
  std::uint64_t i = start;
  while (i < start + count) {
    if (deadline > 0 && std::chrono::duration<double> (std::chrono::steady_clock::now () - t0).count () > deadline) {
      break;
    }
    std::uint64_t const end = std::min<std::uint64_t> (start + count, (i / chunk + 1) * chunk);
    Outcome o = in_child (false, [&] (int fd) {
      stats.n.clear ();
      std::string buf;
      bool ok = true;
      for (std::uint64_t k = i; k < end && ok; ++k) {
        Record r{};
        ok = run_here (Source{mix (seed, k)}, k, false, &r);
        buf.append (reinterpret_cast<char const*> (&r), sizeof r);
      }
      std::string s;
      for (auto const& [k, v] : stats.n) {
        std::string key = k;
        for (auto& ch : key) {
          ch = ch == ' ' ? '_' : ch;
        }
        s += key + " " + std::to_string (v) + "\n";
      }
      std::uint64_t const nb = buf.size ();
      std::string msg{reinterpret_cast<char const*> (&nb), sizeof nb};
      msg += buf + s;
      std::size_t at = 0;
      while (at < msg.size ()) {
        ssize_t const n = write (fd, msg.data () + at, msg.size () - at);
        if (n <= 0) {
          break;
        }
        at += static_cast<std::size_t> (n);
      }
      return ok;
    });
    if (o.child_output.size () >= 8) {
      std::uint64_t nb = 0;
      std::memcpy (&nb, o.child_output.data (), 8);
      bin.write (o.child_output.data () + 8, static_cast<std::streamsize> (nb));
      ran += nb / sizeof (Record);
      std::istringstream is{o.child_output.substr (8 + nb)};
      std::string k;
      std::uint64_t v = 0;
      while (is >> k >> v) {
        if (k.rfind ("max.", 0) == 0) {
          total[k] = std::max (total[k], v);
        } else {
          total[k] += v;
        }
      }
    }
    if (!o.ok) {
      bad = o;
      prefix_start = i;
      break;
    }
    i = end;
  }
  bin.close ();
  std::ofstream js{out + ".json"};
  std::uint64_t edges = 0;
  for (auto const e : shared->edges) {
    edges += e;
  }
  js << "{\"ran\": " << ran << ", \"edges\": " << edges << ", \"violation\": "
     << (bad.ok ? std::string{"null"} : outcome_json (bad)) << ", \"chunk_start\": " << prefix_start
     << ", \"stats\": {";
  bool first = true;
  for (auto const& [k, v] : total) {
    js << (first ? "" : ", ") << json_str (k) << ": " << v;
    first = false;
  }
  js << "}}\n";
  js.close ();
  std::ofstream eb{out + ".edges", std::ios::binary};
  eb.write (reinterpret_cast<char const*> (shared->edges), sizeof shared->edges);
  return bad.ok ? 0 : 1;
}

using Choices = std::vector<std::uint32_t>;

std::vector<Choices> load (std::string const& file) {
  std::ifstream is{file};
  if (!is) {
    std::cerr << "cannot read " << file << '\n';
    std::exit (2);
  }
  std::vector<Choices> r;
  std::string l;
  while (std::getline (is, l)) {
    std::istringstream ls{l};
    Choices c;
    std::uint32_t v = 0;
    while (ls >> v) {
      c.push_back (v);
    }
    r.push_back (std::move (c));
  }
  return r;
}

Outcome replay_all (std::vector<Choices> const& runs, bool trace) {
  return in_child (trace, [&] (int) {
    for (std::size_t k = 0; k < runs.size (); ++k) {
      bool const last = k + 1 == runs.size ();
      bool const ok = run_here (Source{runs[k]}, k, trace && last, nullptr);
      if (!ok) {
        return false;
      }
    }
    return true;
  });
}

Choices shrink (std::vector<Choices> prefix, Choices best, std::string const& cls, unsigned max_evals) {
  unsigned evals = 0;
  auto fails = [&] (Choices const& c) {
    ++evals;
    auto all = prefix;
    all.push_back (c);
    Outcome const o = replay_all (all, false);
    return !o.ok && o.cls == cls;
  };
  bool progress = true;
  while (progress && evals < max_evals) {
    progress = false;
    // Trailing choices default to zero.
    for (std::size_t n = best.size () / 2; n >= 1 && evals < max_evals; n /= 2) {
      while (best.size () >= n && evals < max_evals) {
        Choices c{best.begin (), best.end () - static_cast<std::ptrdiff_t> (n)};
        if (!fails (c)) {
          break;
        }
        best = c;
        progress = true;
      }
    }
    // Remove blocks.
    for (std::size_t n = std::min<std::size_t> (64, best.size ()); n >= 1 && evals < max_evals; n /= 2) {
      for (std::size_t p = 0; p + n <= best.size () && evals < max_evals;) {
        Choices c{best.begin (), best.begin () + static_cast<std::ptrdiff_t> (p)};
        c.insert (c.end (), best.begin () + static_cast<std::ptrdiff_t> (p + n), best.end ());
        if (fails (c)) {
          best = c;
          progress = true;
        } else {
          p += n;
        }
      }
    }
    // Simplify values.
    for (std::size_t p = 0; p < best.size () && evals < max_evals; ++p) {
      if (best[p] == 0) {
        continue;
      }
      for (std::uint32_t const v : {0U, best[p] / 2, best[p] - 1}) {
        if (v >= best[p]) {
          continue;
        }
        Choices c = best;
        c[p] = v;
        if (fails (c)) {
          best = c;
          progress = true;
          break;
        }
      }
    }
  }
  while (!best.empty () && best.back () == 0) {
    best.pop_back ();
  }
  return best;
}

std::string join_choices (Choices const& c) {
  std::string s;
  for (auto const v : c) {
    s += (s.empty () ? "" : " ") + std::to_string (v);
  }
  return s;
}

}  // namespace

#ifdef SIM_COVERAGE
#if SIM_COVERAGE == 1
extern "C" void __sanitizer_cov_trace_pc_guard_init (std::uint32_t* start, std::uint32_t* stop) {
  static std::uint32_t n = 0;
  if (start == stop || *start != 0) {
    return;
  }
  for (auto* x = start; x < stop; ++x) {
    *x = ++n;
  }
}
extern "C" void __sanitizer_cov_trace_pc_guard (std::uint32_t* guard) {
  std::uintptr_t const edge = *guard;
#else
extern "C" void __sanitizer_cov_trace_pc () {
  auto const edge = reinterpret_cast<std::uintptr_t> (__builtin_return_address (0)) >> 2U;
#endif
  if (auto* const frame = static_cast<char*> (__builtin_frame_address (0)); frame < sim::stack_low) {
    sim::stack_low = frame;
  }
  if (++sim::steps > sim::step_limit) {
    static char const m[] = "no progress: step budget exhausted\n";
    (void)!write (2, m, sizeof m - 1);
    std::_Exit (exit_hang);
  }
  if (shared != nullptr) {
    shared->edges[edge & 0xFFFFU] = 1;
  }
  if (sim::steps == sim::step_hook_at) {
    sim::step_hook_at = 0;
    sim::step_hook ();
  }
}
#endif

namespace sim {
[[noreturn]] void fatal (std::string cls, std::string msg) {
  running->log ("VIOLATION " + cls + ": " + msg);
  put (shared->cls, sizeof shared->cls, cls);
  put (shared->msg, sizeof shared->msg, msg);
  shared->violated = 1;
  std::_Exit (1);
}
void record_choice (std::uint32_t v) {
  if (shared->nrec < (1U << 18U)) {
    shared->rec[shared->nrec++] = v;
  }
}
}  // namespace sim

int main (int argc, char* argv[]) {
  shared = static_cast<Shared*> (
    mmap (nullptr, sizeof (Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  std::vector<std::string> a{argv + 1, argv + argc};
  bool trace = false;
  if (!a.empty () && a.back () == "--trace") {
    trace = true;
    a.pop_back ();
  }
  auto num = [&] (std::size_t k) { return std::strtoull (a.at (k).c_str (), nullptr, 10); };
  if (a.size () >= 5 && a[0] == "--batch") {
    return batch (num (1), num (2), num (3), a[4], a.size () > 5 ? std::strtod (a[5].c_str (), nullptr) : 0.0);
  }
  if (a.size () >= 3 && a[0] == "--one") {
    auto const seed = num (1);
    auto const idx = num (2);
    Outcome const o = in_child (trace, [&] (int) {
      Record r{};
      bool const ok = run_here (Source{mix (seed, idx)}, idx, trace, &r);
      return ok;
    });
    std::cout << outcome_json (o) << '\n';
    return o.ok ? 0 : 1;
  }
  if (a.size () >= 2 && a[0] == "--replay") {
    Outcome o = replay_all (load (a[1]), trace);
    std::cout << outcome_json (o) << '\n';
    return o.ok ? 0 : 1;
  }
  if (a.size () >= 5 && a[0] == "--shrink") {
    auto runs = load (a[1]);
    Choices last = runs.back ();
    runs.pop_back ();
    Choices const best = shrink (runs, last, a[3], static_cast<unsigned> (num (4)));
    std::ofstream os{a[2]};
    for (auto const& r : runs) {
      os << join_choices (r) << '\n';
    }
    os << join_choices (best) << '\n';
    return 0;
  }
  std::cerr << "usage: see main.cpp\n";
  return 2;
}
