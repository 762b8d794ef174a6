// C06: random grammars run over random inputs while matchers, actions and allocations fail.
#include <deque>
#include <functional>
#include <memory>

#include "core.hpp"
#include "uri/rule.hpp"

namespace sim {
char const* scenario_name () { return "C06"; }
unsigned scenario_chunk () { return 16; }
void scenario_init () {}

namespace {
using std::optional;
using std::string;
using std::string_view;
using matched = uri::rule::matched_result;

struct Boom {
  int id;
};

// What the actions did, and which of them is to fail.
struct Fired {
  int id;
  std::size_t at, len;
  bool operator== (Fired const& o) const { return id == o.id && len == o.len && (len == 0 || at == o.at); }
};
struct World {
  char const* base = nullptr;
  std::size_t size = 0;
  std::vector<Fired> fired;
  unsigned matcher_calls = 0, matcher_throws_at = 0;
  unsigned action_throws_at = 0;
  int throw_kind = 0;
  bool threw = false;
  bool threw_in_matcher = false;
  bool in_done = false;
  bool early = false;    // an action ran before done()
  bool foreign = false;  // an action was given text from elsewhere
  unsigned nest_at = 0;  // at this call, or this action, another grammar is run before it goes on
  bool nest_in_action = false;
};
World world;
std::function<void ()> nested;     // runs the other grammar
std::size_t cap = 60;              // of sampled texts
unsigned most_repeats = 4;
// Runs the other grammar with memory available, in a world of its own.
void nest () {
  if (!nested) {
    return;
  }
  Quiet const q;
  auto const saved_alloc = alloc;
  auto const saved = world;
  alloc.armed = false;
  world = World{};
  nested ();
  world = saved;
  alloc = saved_alloc;
}

[[noreturn]] void boom () {
  world.threw = true;
  switch (world.throw_kind) {
  case 0: throw Boom{7};
  case 1: throw std::bad_alloc{};
  default: throw 7;
  }
}
void act (int id, string_view v) {
  {
    Quiet const q;
    std::less_equal<char const*> const le;
    std::size_t at = 0;
    if (!v.empty ()) {
      if (le (world.base, v.data ()) && le (v.data () + v.size (), world.base + world.size)) {
        at = static_cast<std::size_t> (v.data () - world.base);
      } else {
        world.foreign = true;
      }
    }
    if (!world.in_done) {
      world.early = true;
    }
    world.fired.push_back ({id, at, v.size ()});
  }
  if (world.nest_in_action && world.fired.size () == world.nest_at) {
    nest ();
  }
  if (world.action_throws_at != 0 && world.fired.size () == world.action_throws_at) {
    boom ();
  }
}
void act_plain (string_view v) { act (1000, v); }

bool test_char () {
  ++world.matcher_calls;
  if (!world.nest_in_action && world.matcher_calls == world.nest_at) {
    nest ();
  }
  if (world.matcher_calls == world.matcher_throws_at) {
    world.threw_in_matcher = true;
    boom ();
  }
  return true;
}

// ---- grammars ----
struct Node {
  enum Kind { chr, range, alpha, digit, hexdig, pred, seq, alt, star, opt } kind = chr;
  char a = 'a', b = 'a';
  unsigned min = 0, max = 0;
  std::vector<std::unique_ptr<Node>> kids;
  std::vector<int> ids;  // action of each kid in a sequence (or of an optional): -1 none, 1000 the plain function
  bool nullable = false;
};

Node* leaf (Source& s) {
  auto* n = new Node;
  static char const letters[] = "abcABC01:.-";
  n->kind = static_cast<Node::Kind> (s.draw (6));
  n->a = letters[s.draw (11)];
  n->b = letters[s.draw (11)];
  if (n->kind == Node::range) {
    static char const los[] = "aaAb0B";
    static char const his[] = "bCczZ9";
    n->a = los[s.draw (6)];
    n->b = his[s.draw (6)];
  }
  return n;
}
int draw_id (Source& s, int& next) {
  switch (s.draw (4)) {
  case 0: return -1;
  case 3: return 1000;
  default: return next++;
  }
}
std::unique_ptr<Node> grammar (Source& s, unsigned depth, int& next) {
  auto const k = depth == 0 ? 0 : s.draw (9);
  if (k <= 1) {
    return std::unique_ptr<Node>{leaf (s)};
  }
  auto n = std::make_unique<Node> ();
  auto kid = [&] { return grammar (s, depth - 1, next); };
  if (k <= 4) {
    n->kind = Node::seq;
    unsigned const m = 1 + s.draw (4);
    n->nullable = true;
    for (unsigned i = 0; i < m; ++i) {
      n->kids.push_back (kid ());
      n->ids.push_back (draw_id (s, next));
      n->nullable = n->nullable && n->kids.back ()->nullable;
    }
  } else if (k <= 6) {
    n->kind = Node::alt;
    unsigned const m = 1 + s.draw (4);
    for (unsigned i = 0; i < m; ++i) {
      n->kids.push_back (kid ());
      n->nullable = n->nullable || n->kids.back ()->nullable;
    }
  } else if (k == 7) {
    n->kind = Node::opt;
    n->kids.push_back (kid ());
    n->ids.push_back (draw_id (s, next));
    n->nullable = true;
  } else {
    n->kind = Node::star;
    auto body = kid ();
    bool const exact = body->nullable && s.draw (2) == 1;  // a fixed number of elements, each of which may be empty
    if (body->nullable && !exact) {
      // Unbounded repetition needs an element which matches something.
      auto wrap = std::make_unique<Node> ();
      wrap->kind = Node::seq;
      wrap->kids.emplace_back (leaf (s));
      wrap->ids.push_back (draw_id (s, next));
      wrap->kids.push_back (std::move (body));
      wrap->ids.push_back (draw_id (s, next));
      body = std::move (wrap);
    }
    n->kids.push_back (std::move (body));
    n->min = s.draw (3);
    if (exact && depth <= 2 && s.draw (4) == 3) {
      n->min = 4 + s.draw (10);
    }
    n->max = exact ? n->min : s.draw (3) == 0 ? std::numeric_limits<unsigned>::max () : n->min + s.draw (4);
    n->nullable = n->min == 0 || exact;
  }
  return n;
}
string show (Node const& n) {
  auto id = [] (int i) { return i < 0 ? string{} : "{" + std::to_string (i) + "}"; };
  auto list = [&] (char const* sep) {
    string r;
    for (std::size_t i = 0; i < n.kids.size (); ++i) {
      r += (i != 0 ? sep : "") + show (*n.kids[i]) + (i < n.ids.size () ? id (n.ids[i]) : string{});
    }
    return r;
  };
  switch (n.kind) {
  case Node::chr: return string{"'"} + n.a + "'";
  case Node::range: return string{"'"} + n.a + "-" + n.b + "'";
  case Node::alpha: return "ALPHA";
  case Node::digit: return "DIGIT";
  case Node::hexdig: return "HEXDIG";
  case Node::pred: return string{"<"} + n.a + ">";
  case Node::seq: return "(" + list (" ") + ")";
  case Node::alt: return "(" + list (" / ") + ")";
  case Node::opt: return "[" + list ("") + "]";
  case Node::star:
    return std::to_string (n.min) + "*" + (n.max == std::numeric_limits<unsigned>::max () ? string{} : std::to_string (n.max)) + list ("");
  }
  return "";
}
// A text which the grammar may well match.
void sample (Source& s, Node const& n, string& out) {
  if (out.size () > cap) {
    return;
  }
  switch (n.kind) {
  case Node::chr:
  case Node::pred: out += n.a; break;
  case Node::range: out += s.draw (2) == 0 ? n.a : n.b; break;
  case Node::alpha: out += "aBz"[s.draw (3)]; break;
  case Node::digit: out += "109"[s.draw (3)]; break;
  case Node::hexdig: out += "0fC"[s.draw (3)]; break;
  case Node::seq:
    for (auto const& k : n.kids) {
      sample (s, *k, out);
    }
    break;
  case Node::alt: sample (s, *n.kids[s.draw (static_cast<std::uint32_t> (n.kids.size ()))], out); break;
  case Node::opt:
    if (s.draw (2) == 1) {
      sample (s, *n.kids[0], out);
    }
    break;
  case Node::star: {
    unsigned const m = n.min + s.draw (most_repeats);
    for (unsigned i = 0; i < m && out.size () <= cap && (i < n.max || s.draw (4) == 3); ++i) {
      sample (s, *n.kids[0], out);
    }
    break;
  }
  }
}

// ---- the documented semantics ----
struct Result {
  std::size_t len = 0;
  std::vector<Fired> fired;
};
char lower (char c) { return c >= 'A' && c <= 'Z' ? static_cast<char> (c + 32) : c; }
bool leaf_matches (Node const& n, char c) {
  switch (n.kind) {
  case Node::chr: return lower (n.a) == lower (c);
  case Node::range: return lower (c) >= lower (n.a) && lower (c) <= lower (n.b);
  case Node::alpha: return lower (c) >= 'a' && lower (c) <= 'z';
  case Node::digit: return c >= '0' && c <= '9';
  case Node::hexdig: return (c >= '0' && c <= '9') || (lower (c) >= 'a' && lower (c) <= 'f');
  default: return c == n.a;
  }
}
void append (Result& r, Result const& k) {
  r.len += k.len;
  r.fired.insert (r.fired.end (), k.fired.begin (), k.fired.end ());
}
optional<Result> eval (Node const& n, string_view text, std::size_t at) {
  switch (n.kind) {
  case Node::seq: {
    Result r;
    for (std::size_t i = 0; i < n.kids.size (); ++i) {
      auto k = eval (*n.kids[i], text, at + r.len);
      if (!k) {
        return {};
      }
      if (n.ids[i] >= 0) {
        k->fired.push_back ({n.ids[i], at + r.len, k->len});
      }
      append (r, *k);
    }
    return r;
  }
  case Node::alt:
    for (auto const& k : n.kids) {
      if (auto r = eval (*k, text, at)) {
        return r;
      }
    }
    return {};
  case Node::opt: {
    auto k = eval (*n.kids[0], text, at);
    if (!k) {
      return Result{};
    }
    if (n.ids[0] >= 0) {
      k->fired.push_back ({n.ids[0], at, k->len});
    }
    return k;
  }
  case Node::star: {
    Result r;
    unsigned count = 0;
    while (count < n.max) {
      auto const k = eval (*n.kids[0], text, at + r.len);
      if (!k) {
        break;
      }
      append (r, *k);
      ++count;
    }
    return count < n.min ? optional<Result>{} : optional<Result>{r};
  }
  default:
    if (at < text.size () && leaf_matches (n, text[at])) {
      return Result{1, {}};
    }
    return {};
  }
}

// ---- the same grammar made of the library's combinators ----
struct Matcher {
  Node const* n;
  matched operator() (uri::rule const& r) const;
};
struct BigAction {
  int id;
  char padding[48];
  void operator() (string_view v) const { act (id, v); }
};
uri::rule with_action (uri::rule const& r, Node const& kid, int id, bool optional_) {
  Matcher const m{&kid};
  auto add = [&] (auto action) { return optional_ ? r.optional (m, action) : r.concat (m, action); };
  if (id < 0) {
    return optional_ ? r.optional (m) : r.concat (m);
  }
  if (id == 1000) {
    return add (&act_plain);
  }
  switch (id % 3) {
  case 0: return add ([id] (string_view v) { act (id, v); });
  case 1: return add (std::function<void (string_view)>{[id] (string_view v) { act (id, v); }});
  default: return add (BigAction{id, {}});
  }
}
uri::rule alternatives (uri::rule const& r, Node const& n) {
  Matcher const a{n.kids[0].get ()};
  switch (n.kids.size ()) {
  case 1: return r.alternative (a);
  case 2: return r.alternative (a, Matcher{n.kids[1].get ()});
  case 3: return r.alternative (a, Matcher{n.kids[1].get ()}, Matcher{n.kids[2].get ()});
  default: return r.alternative (a, Matcher{n.kids[1].get ()}, Matcher{n.kids[2].get ()}, Matcher{n.kids[3].get ()});
  }
}
// One step: the rule after matching n.
uri::rule step (uri::rule const& r, Node const& n, int id) {
  switch (n.kind) {
  case Node::alt:
    if (id < 0) {
      return alternatives (r, n);
    }
    break;
  case Node::star:
    if (id < 0) {
      return r.star (Matcher{n.kids[0].get ()}, n.min, n.max);
    }
    break;
  case Node::opt:
    if (id < 0) {
      return with_action (r, *n.kids[0], n.ids[0], true);
    }
    break;
  default: break;
  }
  return with_action (r, n, id, false);
}
matched Matcher::operator() (uri::rule const& r) const {
  auto guard = [&] (matched const& m) {
    test_char ();
    return m;
  };
  switch (n->kind) {
  case Node::chr: return guard (n->b == 'a' ? uri::single_char (n->a) (r) : r.single_char (n->a));
  case Node::range: return guard (uri::char_range (n->a, n->b) (r));
  case Node::alpha: return guard (uri::alpha (r));
  case Node::digit: return guard (uri::digit (r));
  case Node::hexdig: return guard (uri::hexdig (r));
  case Node::pred:
    return r.single_char ([this] (char c) {
      test_char ();
      return c == n->a;
    });
  case Node::seq: {
    uri::rule q = r;
    for (std::size_t i = 0; i < n->kids.size (); ++i) {
      q = with_action (q, *n->kids[i], n->ids[i], false);
    }
    return q.matched ("seq", r);
  }
  case Node::alt: return alternatives (r, *n).matched ("alt", r);
  case Node::opt: return with_action (r, *n->kids[0], n->ids[0], true).matched ("opt", r);
  case Node::star: return r.star (Matcher{n->kids[0].get ()}, n->min, n->max).matched ("star", r);
  }
  return {};
}

string show (std::vector<Fired> const& f) {
  string r;
  for (auto const& x : f) {
    r += " " + std::to_string (x.id) + "@" + std::to_string (x.at) + "+" + std::to_string (x.len);
  }
  return r.empty () ? " nothing" : r;
}
bool prefix (std::vector<Fired> const& a, std::vector<Fired> const& b) {
  return a.size () <= b.size () && std::equal (a.begin (), a.end (), b.begin ());
}

// A rule being built and what it should be.
struct Path {
  uri::rule r;
  optional<std::size_t> pos;  // matched so far, or failure
  std::vector<Fired> fired;
};
}  // namespace

void run_case (Ctx& c) {
  auto& s = c.src;
  int next = 0;
  unsigned const n_grammars = 1 + s.draw (3);
  std::vector<std::unique_ptr<Node>> gs;
  unsigned const depth = 1 + s.draw (4);
  for (unsigned i = 0; i < n_grammars; ++i) {
    gs.push_back (grammar (s, depth, next));
    c.mark (show (*gs.back ()));
  }
  // The plan: which grammars are matched one after another, from which of the rules built so far.
  unsigned const n_steps = 1 + s.draw (3);
  string text;
  bool const big = s.draw (24) == 23;
  cap = big ? 600 : 60;
  most_repeats = big ? 40 : 4;
  std::vector<unsigned> order;
  for (unsigned i = 0; i < n_steps; ++i) {
    order.push_back (s.draw (n_grammars));
    sample (s, *gs[order.back ()], text);
  }
  switch (s.draw (6)) {
  case 4:
    if (!text.empty ()) {
      text[s.draw (static_cast<std::uint32_t> (text.size ()))] = "abcABC019:.-z\xC3\0 \n\x80\xFF%"[s.draw (20)];
    }
    break;
  case 5:
    if (s.draw (2) == 0) {
      // A tail which is often not matched: one character, several times.
      auto const tail = s.draw (12);
      text.append (tail < 4 ? 1 : 1 + s.small (3), "abC0a0\0 \n\x80\xFF\t"[tail]);
    } else if (!text.empty ()) {
      text.pop_back ();
    }
    break;
  default: break;
  }
  world = World{};
  world.base = text.data ();
  world.size = text.size ();
  // What a matcher or an action may do besides: run one of the grammars on another text.
  string other;
  string nested_problem;
  nested = nullptr;
  if (s.draw (4) == 3) {
    Node const& g = *gs[s.draw (n_grammars)];
    cap = 20;
    sample (s, g, other);
    if (s.draw (3) == 2) {
      other += 'a';
    }
    world.nest_in_action = s.draw (2) == 1;
    world.nest_at = 1 + s.small (world.nest_in_action ? 12 : 60);
    nested = [&g, &other, &nested_problem] {
      stats.add (string{"fault.reentered"});
      auto const r = eval (g, other, 0);
      bool const full = r && r->len == other.size ();
      world.base = other.data ();
      world.size = other.size ();
      auto const rule = uri::rule{other}.concat (Matcher{&g});
      bool const early = !world.fired.empty ();
      world.in_done = true;
      bool const got = rule.done ();
      auto const want = full ? r->fired : std::vector<Fired>{};
      if (early || world.foreign || got != full || world.fired != want) {
        nested_problem = "a grammar run by a matcher or an action: " + show (g) + " of " + quote (other) + " gave " + (got ? "true" : "false") + " and ran" +
                         show (world.fired) + (early ? " early" : "") + ", expected " + (full ? "true" : "false") + " and" + show (want);
      }
    };
  }
  AllocPlan plan;
  switch (s.draw (4)) {
  case 1: world.matcher_throws_at = 1 + s.small (60); break;
  case 2: world.action_throws_at = 1 + s.small (12); break;
  case 3:
    if (s.draw (2) == 0) {
      plan.kind = AllocPlan::nth;
      plan.n = 1 + s.small (200);
    } else {
      plan.kind = AllocPlan::budget;
      plan.n = s.small (20000);
    }
    break;
  default: break;
  }
  world.throw_kind = static_cast<int> (s.draw (3));
  string const faults = (nested ? string{world.nest_in_action ? ", action " : ", matcher call "} + std::to_string (world.nest_at) + " runs another grammar on " + quote (other) : string{}) +
                        (world.matcher_throws_at != 0 ? ", matcher call " + std::to_string (world.matcher_throws_at) + " throws" : string{}) +
                        (world.action_throws_at != 0 ? ", action " + std::to_string (world.action_throws_at) + " throws" : string{}) +
                        (plan.kind != AllocPlan::none ? ", " + plan_text (plan) : string{});
  c.log ("text " + quote (text) + faults);

  auto catching = [&] (string const& what, auto const& f) {
    // Returns true if nothing was thrown.
    auto const settle = [&] {
      if (!nested_problem.empty ()) {
        c.fail ("wrong-nested", what + ": " + nested_problem);
      }
    };
    try {
      AllocScope const scope{plan};
      f ();
    } catch (Boom const& b) {
      if (!world.threw || world.throw_kind != 0 || b.id != 7) {
        c.fail ("exception-changed", what + " threw something else than was thrown");
      }
      settle ();
      return false;
    } catch (std::bad_alloc const&) {
      settle ();
      if (alloc.failed == 0 && !(world.threw && world.throw_kind == 1)) {
        c.fail ("spurious-failure", what + " threw std::bad_alloc although nothing failed");
      }
      return false;
    } catch (int i) {
      if (!world.threw || world.throw_kind != 2 || i != 7) {
        c.fail ("exception-changed", what + " threw something else than was thrown");
      }
      return false;
    }
    settle ();
    if (world.threw) {
      c.fail ("exception-swallowed", what + " returned although a matcher or action threw");
    }
    return true;
  };

  std::deque<Path> paths;
  paths.push_back ({uri::rule{text}, 0, {}});
  bool failed = false;
  for (unsigned i = 0; i < n_steps && !failed; ++i) {
    // Usually the newest rule is continued; sometimes an older one is.
    auto const from = s.draw (4) == 3 ? s.draw (static_cast<std::uint32_t> (paths.size ())) : static_cast<std::uint32_t> (paths.size ()) - 1;
    Node const& g = *gs[order[i]];
    int const id = draw_id (s, next);
    Path p = paths[from];
    if (p.pos) {
      auto r = eval (g, text, *p.pos);
      if (!r) {
        p.pos.reset ();
        p.fired.clear ();
      } else {
        p.fired.insert (p.fired.end (), r->fired.begin (), r->fired.end ());
        if (id >= 0) {
          p.fired.push_back ({id, *p.pos, r->len});
        }
        *p.pos += r->len;
      }
    }
    string const what = "rule " + std::to_string (from) + ", then " + show (g) + (id < 0 ? string{} : "{" + std::to_string (id) + "}");
    bool const ok = catching (what, [&] { p.r = step (paths[from].r, g, id); });
    stats.add ("calls.match");
    if (!world.fired.empty ()) {
      c.fail ("fired-early", what + " on " + quote (text) + " ran an action before the whole input had matched:" + show (world.fired));
    }
    if (!ok) {
      c.log (what + ": threw");
      c.mark ("threw");
      c.nontrivial ();
      stats.add (world.threw ? "fault.matcher_threw" : "probe.memory_ran_out_while_matching");
      failed = true;
      break;
    }
    auto const tail = p.r.tail ();
    optional<std::size_t> const pos = tail ? optional<std::size_t>{text.size () - tail->size ()} : optional<std::size_t>{};
    c.log (what + ": " + (pos ? "at " + std::to_string (*pos) : string{"no match"}));
    c.mark (pos.value_or (9999));
    if (pos != p.pos || (tail && !tail->empty () && tail->data () != text.data () + *pos)) {
      c.fail ("wrong-match", what + " on " + quote (text) + (pos ? " matched up to " + std::to_string (*pos) : string{" did not match"}) + ", expected " +
                               (p.pos ? std::to_string (*p.pos) : string{"no match"}));
    }
    paths.push_back (std::move (p));
  }
  if (failed) {
    // Nothing that failed left a trace in the rules built before.
    world.matcher_throws_at = 0;
    world.action_throws_at = 0;
    world.threw = false;
    plan = {};
  }
  unsigned const n_done = failed ? static_cast<unsigned> (paths.size ()) : 1 + s.draw (3);
  for (unsigned k = 0; k < n_done; ++k) {
    auto const which = failed || s.draw (3) == 2 ? s.draw (static_cast<std::uint32_t> (paths.size ())) : static_cast<std::uint32_t> (paths.size ()) - 1;
    Path& p = paths[which];
    bool const full = p.pos && *p.pos == text.size ();
    std::vector<Fired> const expect = full ? p.fired : std::vector<Fired>{};
    world.fired.clear ();
    world.threw = false;
    world.nest_at = world.nest_in_action || !nested ? world.nest_at : 0;
    bool result = false;
    string const what = "done() on rule " + std::to_string (which);
    world.in_done = true;
    bool const ok = catching (what, [&] {
      if (k + 1 == n_done && which + 1 == paths.size ()) {
        uri::rule const moved{std::move (p.r)};
        result = moved.done ();
      } else {
        result = p.r.done ();
      }
    });
    world.in_done = false;
    stats.add ("calls.done");
    c.log (what + ": " + (ok ? (result ? "true" : "false") : "threw") + "," + show (world.fired));
    c.mark (ok ? (result ? 1U : 2U) : 3U);
    if (full && !expect.empty ()) {
      c.nontrivial ();
      stats.add ("probe.actions_ran", world.fired.size ());
    }
    if (world.foreign) {
      c.fail ("foreign-text", what + " gave an action text which is not part of the input");
    }
    if (ok) {
      if (result != full) {
        c.fail ("wrong-verdict", what + " gave " + (result ? "true" : "false") + " for " + quote (text));
      }
      if (world.fired != expect) {
        c.fail ("wrong-actions", what + " for " + quote (text) + " ran" + show (world.fired) + ", expected" + show (expect));
      }
    } else {
      stats.add (world.threw ? "fault.action_threw" : "probe.memory_ran_out_in_done");
      if (!prefix (world.fired, expect) || (world.threw && world.fired.size () != world.action_throws_at)) {
        c.fail ("wrong-actions", what + " for " + quote (text) + " threw after" + show (world.fired) + ", expected the first of" + show (expect));
      }
    }
    if (which + 1 == paths.size () && k + 1 == n_done) {
      break;
    }
  }
}
}  // namespace sim
