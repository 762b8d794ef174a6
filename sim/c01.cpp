// C01: threads call the library at the same time.
//
// Real threads, one of which runs at a time: the simulator decides at every memory access of the library which one is
// next (sched.hpp). Every run has a process of its own, so that the first calls in a process are among those raced.
#include "core.hpp"
#include "ops.hpp"
#include "sched.hpp"
#include "utf.hpp"
#include "uri/pctdecode.hpp"
#include "uri/rule.hpp"

namespace sim {
char const* scenario_name () { return "C01"; }
unsigned scenario_chunk () { return 1; }
void scenario_init () {}

namespace {
struct Step {
  ops::Call call;
  std::uint64_t fail = 0;  // this allocation fails (0: none)
  bool fail_after = false;
  std::string got;
  unsigned failed = 0;
};

// A rule is a value: any number of threads may continue the same const one.
struct SharedRule {
  std::string text;
  uri::rule rule;
  explicit SharedRule (std::string t) : text{std::move (t)}, rule{text} {}
};
ops::Call rule_call (Source& s, std::shared_ptr<SharedRule const> const& r) {
  ops::Call c;
  bool const full = s.draw (2) == 1;
  c.name = "rule";
  c.text = "rule(" + quote (r->text) + ") continued";
  std::string_view const t = r->text;
  auto alpha = [] (char ch) { return (ch >= 'a' && ch <= 'z') || (ch >= 'A' && ch <= 'Z'); };
  auto digit = [] (char ch) { return ch >= '0' && ch <= '9'; };
  std::size_t n = 0;
  while (n < t.size () && alpha (t[n])) {
    ++n;
  }
  std::size_t m = n;
  while (m < t.size () && digit (t[m])) {
    ++m;
  }
  bool const ok = n > 0;
  bool const done = ok && m == t.size ();
  c.expect = !ok || (full && !done) ? std::string{"no match"}
                                    : quote (t.substr (0, n)) + " " + quote (t.substr (n, m - n)) + (full ? " done" : "");
  c.run = [r, full] {
    std::string a;
    std::string b;
    auto const matched = ops::guarded ([&] {
      auto const letters = [] (uri::rule const& x) { return x.star (uri::alpha, 1).matched ("letters", x); };
      auto const digits = [] (uri::rule const& x) { return x.star (uri::digit).matched ("digits", x); };
      auto const x = r->rule.concat (letters, [&] (std::string_view v) { a = v; })
                       .concat (digits, [&] (std::string_view v) { b = v; });
      if (full) {
        return x.done ();
      }
      auto const res = x.matched ("x", r->rule);
      if (res) {
        for (auto const& [f, v] : std::get<1> (*res)) {
          f (v);
        }
      }
      return res.has_value ();
    });
    return matched ? quote (a) + " " + quote (b) + (full ? " done" : "") : std::string{"no match"};
  };
  auto const copy = r->text;
  c.intact = [r, copy] { return r->text == copy; };
  return c;
}

// Lazy views are values too: any number of threads may walk the same const one, each with cursors of its own.
template <typename From, typename To>
using UtfView = icubaby::ranges::transcode_view<From, To, std::ranges::ref_view<std::basic_string<From> const>>;
template <typename From, typename To, typename Owner>
ops::Call view_call (Source& s, std::shared_ptr<Owner const> const& owner, UtfView<From, To> const& view) {
  ops::Call c;
  bool const copy = s.draw (4) == 3;
  c.name = "shared_view";
  c.text = "walk the shared view of " + ops::units (view.base ().base ()) + "as utf" + std::to_string (8 * sizeof (To)) + (copy ? " (a copy)" : "");
  c.run = [owner, &view, copy] {
    bool wf = true;
    auto walk = [&wf] (auto const& v) {
      std::basic_string<To> r;
      for (auto const u : v) {
        r.push_back (u);
      }
      wf = v.well_formed ();
      return r;
    };
    auto const out = ops::guarded ([&] {
      if (copy) {
        auto const mine = view;
        return walk (mine);
      }
      return walk (view);
    });
    return ops::units (out) + (wf ? "well-formed" : "ill-formed");
  };
  c.intact = [] { return true; };
  return c;
}
struct SharedViews {
  std::u32string const u32;
  std::u16string const u16;
  std::u8string const u8;
  std::string const pct;
  UtfView<char8_t, char16_t> v816{u8};
  UtfView<char16_t, char8_t> v168{u16};
  UtfView<char8_t, char32_t> v832{u8};
  UtfView<char32_t, char8_t> v328{u32};
  uri::pctdecode_view<std::string_view> pct_view{std::string_view{pct}};
  uri::pctdecoder<std::string::const_iterator> decoder{pct.begin (), pct.end ()};
};
template <typename T> std::basic_string<T> perhaps_damaged (Source& s) {
  auto t = ops::encode_cps<T> (gen::code_points (s, 12));
  std::string what;
  if (s.draw (2) == 1) {
    utf::damage (s, t, &what);
  }
  return t;
}
ops::Call shared_view_call (Source& s, std::shared_ptr<SharedViews const> const& v) {
  switch (s.draw (6)) {
  case 0: return view_call (s, v, v->v816);
  case 1: return view_call (s, v, v->v168);
  case 2: return view_call (s, v, v->v832);
  case 3: return view_call (s, v, v->v328);
  default: break;
  }
  ops::Call c;
  bool const view = s.draw (2) == 0;
  c.name = view ? "shared_pctdecode_view" : "shared_pctdecoder";
  c.text = c.name + " of " + quote (v->pct);
  c.expect = quote (model::pct_decode (v->pct));
  c.run = [v, view] {
    return quote (ops::guarded ([&] {
      std::string r;
      if (view) {
        for (auto const ch : v->pct_view) {
          r += ch;
        }
      } else {
        for (auto const ch : v->decoder) {
          r += ch;
        }
      }
      return r;
    }));
  };
  c.intact = [] { return true; };
  return c;
}

// A caller may keep its text in one buffer and write the next over the last: answers are about the text, not the place.
ops::Call reused_buffer_call (Source& s, std::string const& base) {
  ops::Call c;
  std::string t = base;
  for (unsigned k = s.draw (3); k > 0 && !t.empty (); --k) {
    auto const from_end = std::min (static_cast<std::size_t> (s.small (40)), t.size () - 1);
    t[s.draw (2) == 0 ? t.size () - 1 - from_end : from_end] = "az09%/?#:@.-[] \x80"[s.draw (16)];
  }
  unsigned const op = s.draw (4);
  static char const* const names[] = {"split", "split_reference", "join", "pctdecode"};
  c.name = "reused_buffer";
  c.text = std::string{names[op]} + "(" + quote (t) + ") in a buffer used before";
  switch (op) {
  case 0:
  case 1: c.expect = lib::show (model::parse (t, op == 1)); break;
  case 2: {
    auto const b = model::parse ("s://h/a/b?c", false);
    auto const r = model::parse (t, true);
    c.expect = r ? quote (model::compose (model::resolve (*b, *r, true))) : std::string{"rejected"};
    break;
  }
  default: c.expect = quote (model::pct_decode (t)); break;
  }
  c.run = [t, op] {
    thread_local std::string buffer;
    buffer.reserve (1024);
    buffer.assign (t);
    std::string_view const in = buffer;
    switch (op) {
    case 0:
    case 1: {
      auto const r = ops::guarded ([&] { return op == 1 ? uri::split_reference (in) : uri::split (in); });
      return ops::show (r);
    }
    case 2: {
      auto const r = ops::guarded ([&] { return uri::join ("s://h/a/b?c", in, true); });
      return r ? quote (model::compose (lib::to_model (*r))) : std::string{"rejected"};
    }
    default: return quote (ops::guarded ([&] { return uri::pctdecode (in); }));
    }
  };
  c.intact = [] { return true; };
  return c;
}

std::string outcome (ops::Call const& call) {
  try {
    return call.run ();
  } catch (std::bad_alloc const&) {
    return "std::bad_alloc";
  } catch (std::exception const& e) {
    return std::string{"exception: "} + e.what ();
  }
}
}  // namespace

void run_case (Ctx& c) {
  auto& s = c.src;
  ops::cold = true;
  ops::on_enter = sched::enter;
  ops::on_leave = sched::leave;
  gen::Swarm const w{s};
  auto const pool = ops::make_shared_pool (s, w, 1 + s.draw (3));
  std::string rt;
  for (unsigned i = s.draw (6), k = 0; k < i; ++k) {
    rt += "abzAZ019-"[s.draw (9)];
  }
  auto const shared_rule = std::make_shared<SharedRule const> (rt);
  unsigned const n_tasks = 2 + s.draw (3);
  // Often all threads do the same kind of thing.
  unsigned const only = s.draw (2) == 0 ? ops::k_count + 3 : s.draw (ops::k_count + 3);
  std::shared_ptr<SharedViews const> shared_views;
  if (only > ops::k_count) {
    auto const u32 = perhaps_damaged<char32_t> (s);
    auto const u16 = perhaps_damaged<char16_t> (s);
    auto const u8 = perhaps_damaged<char8_t> (s);
    shared_views.reset (new SharedViews{u32, u16, u8, ops::pct_text (s)});
  }
  std::string const buffer_base = s.draw (2) == 0 ? gen::uri (s, w) : gen::reference (s, w);
  unsigned const one_call = s.draw (2) == 1 && only != ops::k_count + 2 ? 1 : 0;
  // Or indeed the same thing: the same calls with the same arguments.
  bool const alike = s.draw (3) == 2;
  std::vector<std::vector<Step>> steps_of (n_tasks);
  for (unsigned t = 0; t < n_tasks; ++t) {
    if (alike && t > 0) {
      steps_of[t] = steps_of[0];
      stats.add ("probe.same_calls_at_once", steps_of[t].size ());
      continue;
    }
    unsigned const n = one_call != 0 ? 1 : 1 + s.draw (3);
    unsigned const fails = s.chance (1, 4) ? s.draw (n) + 1 : 0;
    for (unsigned i = 0; i < n; ++i) {
      unsigned const kind = only <= ops::k_count + 2 ? only : s.draw (ops::k_count + 3);
      Step st;
      st.call = kind == ops::k_count + 2 ? reused_buffer_call (s, buffer_base) : kind == ops::k_count + 1 ? shared_view_call (s, shared_views) : kind == ops::k_count ? rule_call (s, shared_rule) : ops::make (s, w, kind, pool);
      // libstdc++'s path::operator/= is not safe when an allocation fails, and streams report such failures by their state.
      if (fails == i + 1 && kind != ops::k_path_fs && kind != ops::k_stream) {
        st.fail = 1 + s.small (40);
        st.fail_after = s.draw (2) == 1;
      }
      c.log ("task " + std::to_string (t + 1) + ": " + st.call.text +
             (st.fail != 0 ? " with allocation " + std::to_string (st.fail) + (st.fail_after ? " and all later ones" : "") + " failing" : ""));
      stats.add ("calls." + st.call.name);
      c.mark (st.call.name);
      steps_of[t].push_back (std::move (st));
    }
  }
  static std::uint32_t const spreads[] = {1, 2, 4, 8, 16, 64, 256, 1024};
  sched::Config cfg;
  cfg.spread = spreads[s.draw (std::size (spreads))];
  static std::uint32_t const starts[] = {1, 16, 128, 1024};
  cfg.start = s.draw (starts[s.draw (4)]);
  static unsigned const caps[] = {5, 20, 100, 400};
  cfg.switches = caps[s.draw (4)];
  std::vector<std::function<void ()>> bodies;
  for (unsigned t = 0; t < n_tasks; ++t) {
    bodies.push_back ([&, t] {
      for (auto& st : steps_of[t]) {
        sched::fail_allocation (st.fail, st.fail_after);
        st.got = outcome (st.call);
        st.failed = sched::fail_allocation (0, false);
        sched::note ("  task " + std::to_string (t + 1) + " got " + st.got);
      }
    });
  }
  auto const r = sched::run (c, cfg, bodies);
  ops::on_enter = nullptr;
  ops::on_leave = nullptr;
  c.log ("accesses " + std::to_string (r.accesses) + ", switches " + std::to_string (r.switches) + ", order " + std::to_string (r.order));
  c.mark (r.order);
  stats.add ("sched.accesses", r.accesses);
  stats.add ("sched.blocked", r.blocked);
  stats.add ("sched.atomics", r.atomics);
  stats.add ("sched.shared_words", r.granules);
  stats.add ("fault.preemption", r.switches);
  if (r.switches >= n_tasks) {
    c.nontrivial ();
  }
  for (unsigned t = 0; t < n_tasks; ++t) {
    for (auto const& st : steps_of[t]) {
      if (st.failed != 0) {
        stats.add ("fault.alloc_failure", st.failed);
        stats.add (st.got == "std::bad_alloc" ? "probe.failure_reported" : "probe.failure_survived");
      }
      std::string const want = st.call.expect ? *st.call.expect : outcome (st.call);
      if (st.got == want || (st.failed != 0 && st.got == "std::bad_alloc")) {
        continue;
      }
      c.fail ("wrong-answer", "task " + std::to_string (t + 1) + ": " + st.call.text + " gave " + st.got + " while other threads called the library, expected " + want);
    }
  }
  // And nothing lasting was done: the same calls, alone.
  for (unsigned t = 0; t < n_tasks; ++t) {
    for (auto const& st : steps_of[t]) {
      if (!st.call.intact ()) {
        c.fail ("argument-changed", st.call.text + " changed its arguments");
      }
      if (st.failed == 0) {
        if (auto const again = outcome (st.call); again != st.got) {
          c.fail ("lasting-effect", st.call.text + " gave " + st.got + " among other threads, and " + again + " alone");
        }
      }
    }
  }
}
}  // namespace sim
