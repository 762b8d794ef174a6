// C04: histories of encode and decode operations which share and reuse stores.
#include <deque>
#include <functional>
#include <memory>

#include "core.hpp"
#include "items.hpp"
#include "ops.hpp"

namespace sim {
char const* scenario_name () { return "C04"; }
unsigned scenario_chunk () { return 16; }
void scenario_init () {}

namespace {
using std::optional;
using std::string;
using std::string_view;

// A contiguous container which honours reserve() but nothing more: it moves whenever it is allowed to, wipes what it
// gives up, and has a capacity which cannot grow for ever.
class Store {
public:
  using value_type = char;
  using iterator = char*;
  using const_iterator = char const*;
  using reference = char&;
  using const_reference = char const&;
  using size_type = std::size_t;
  using difference_type = std::ptrdiff_t;

  Store (unsigned policy, std::size_t limit) : policy_{policy}, limit_{limit} {}
  Store (Store const&) = delete;
  Store& operator= (Store const&) = delete;
  ~Store () { drop (p_, cap_); }

  iterator begin () { return p_; }
  iterator end () { return p_ + n_; }
  const_iterator begin () const { return p_; }
  const_iterator end () const { return p_ + n_; }
  char* data () { return p_; }
  char const* data () const { return p_; }
  size_type size () const { return n_; }
  size_type capacity () const { return cap_; }
  bool empty () const { return n_ == 0; }
  void clear () {
    if (n_ != 0) {
      std::memset (p_, 0xEE, n_);
    }
    n_ = 0;
    if (policy_ == 2) {
      drop (p_, cap_);
      p_ = nullptr;
      cap_ = 0;
    }
  }
  void reserve (size_type n) {
    if (n > cap_) {
      // Some stores take exactly what is asked for and others more; some move even if they need not.
      relocate (policy_ == 1 ? n * 2 + 8 : n);
    } else if (policy_ == 3 && n_ == 0 && n != 0) {
      relocate (n);
    }
  }
  void push_back (char c) {
    if (n_ == cap_) {
      relocate (policy_ == 1 ? cap_ * 2 + 8 : cap_ + 1);
      ++moves_in_use;
    }
    p_[n_++] = c;
  }
  char& back () { return p_[n_ - 1]; }
  char& operator[] (size_type i) { return p_[i]; }
  char const& operator[] (size_type i) const { return p_[i]; }
  template <typename It> iterator insert (char const* at, It first, It last) {
    auto const off = at - p_;
    string const tail{p_ + off, n_ - static_cast<size_type> (off)};
    resize (static_cast<size_type> (off));
    for (; first != last; ++first) {
      push_back (*first);
    }
    for (char const c : tail) {
      push_back (c);
    }
    return p_ + off;
  }
  void resize (size_type n, char c = 0) {
    while (n_ < n) {
      push_back (c);
    }
    n_ = n;
  }
  unsigned moves_in_use = 0;

private:
  void relocate (size_type n) {
    if (n > limit_) {
      stats.add ("fault.store_full");
      ++alloc.failed;
      throw std::bad_alloc{};
    }
    char* const q = n == 0 ? nullptr : new char[n];
    if (n_ != 0) {
      std::memcpy (q, p_, n_);
    }
    drop (p_, cap_);
    p_ = q;
    cap_ = n;
  }
  static void drop (char* p, size_type cap) {
    if (p != nullptr) {
      std::memset (p, 0xDD, cap);
      delete[] p;
    }
  }
  char* p_ = nullptr;
  size_type n_ = 0;
  size_type cap_ = 0;
  unsigned policy_;
  size_type limit_;
};

struct AnyStore {
  string kind;
  virtual ~AnyStore () = default;
  virtual uri::parts encode (uri::parts const& p) = 0;
  virtual std::variant<std::error_code, uri::parts> decode (uri::parts const& p) = 0;
  virtual string_view contents () const = 0;
  bool busy = false;  // holds a result which is still in use
};
template <typename S> struct StoreOf final : AnyStore {
  S s;
  template <typename... A> explicit StoreOf (string k, A&&... a) : s (std::forward<A> (a)...) { kind = std::move (k); }
  uri::parts encode (uri::parts const& p) override { return uri::encode (s, p); }
  std::variant<std::error_code, uri::parts> decode (uri::parts const& p) override { return uri::decode (s, p); }
  string_view contents () const override { return {s.data (), s.size ()}; }
};

std::unique_ptr<AnyStore> make_store (Source& src) {
  switch (src.draw (8)) {
  case 0:
  case 1: return std::make_unique<StoreOf<std::vector<char>>> ("vector");
  case 2: return std::make_unique<StoreOf<string>> ("string");
  case 3: return std::make_unique<StoreOf<Store>> ("exact store", 0U, std::size_t{1} << 30U);
  case 4: return std::make_unique<StoreOf<Store>> ("generous store", 1U, std::size_t{1} << 30U);
  case 5: return std::make_unique<StoreOf<Store>> ("store which frees on clear()", 2U, std::size_t{1} << 30U);
  case 6: return std::make_unique<StoreOf<Store>> ("store which moves on reserve()", 3U, std::size_t{1} << 30U);
  default: {
    std::size_t const limit = src.small (600);
    return std::make_unique<StoreOf<Store>> ("store of at most " + std::to_string (limit), 0U, limit);
  }
  }
}

// Every component on its own.
struct Flat {
  optional<string> scheme, userinfo, host, port, query, fragment;
  bool absolute = false;
  std::vector<string> segs;
  bool operator== (Flat const&) const = default;
};
Flat flatten (uri::parts const& p) {
  Flat f;
  f.scheme = lib::own (p.scheme);
  if (p.authority) {
    f.userinfo = lib::own (p.authority->userinfo);
    f.host = string{p.authority->host};
    f.port = lib::own (p.authority->port);
  }
  f.absolute = p.path.absolute;
  for (auto const& s : p.path.segments) {
    f.segs.emplace_back (s);
  }
  f.query = lib::own (p.query);
  f.fragment = lib::own (p.fragment);
  return f;
}
string show (Flat const& f) {
  string r = "scheme=" + lib::show (f.scheme) + " userinfo=" + lib::show (f.userinfo) + " host=" + lib::show (f.host) + " port=" +
             lib::show (f.port) + (f.absolute ? " path=/" : " path=");
  for (auto const& s : f.segs) {
    r += "[" + quote (s) + "]";
  }
  return r + " query=" + lib::show (f.query) + " fragment=" + lib::show (f.fragment);
}
template <typename F, typename H> Flat mapped (Flat f, F const& fn, H const& host) {
  auto m = [&] (optional<string>& t, model::Set set) {
    if (t) {
      t = fn (*t, set);
    }
  };
  m (f.scheme, model::s_none);
  m (f.userinfo, model::s_userinfo);
  m (f.port, model::s_none);
  m (f.query, model::s_query);
  m (f.fragment, model::s_fragment);
  for (auto& s : f.segs) {
    s = fn (s, model::s_path);
  }
  if (f.host) {
    f.host = host (*f.host);
  }
  return f;
}
Flat encoded (Flat const& f) { return mapped (f, model::pct_encode, [] (string const& h) { return model::host_encode (h); }); }
// Nothing: what happens is not modelled, unless *malformed.
optional<Flat> decoded (Flat const& f, bool* malformed) {
  bool ok = true;
  auto r = mapped (f, [] (string const& t, model::Set) { return model::pct_decode (t); },
                   [&] (string const& h) {
                     auto d = model::host_decode (h, malformed);
                     if (!d || (d->empty () && !h.empty ())) {
                       ok = false;
                       return h;
                     }
                     return *d;
                   });
  return ok ? optional<Flat>{r} : optional<Flat>{};
}

struct Range {
  char const* p;
  std::size_t n;
};
bool inside (string_view v, std::vector<Range> const& rs) {
  std::less_equal<char const*> const le;
  for (auto const& r : rs) {
    if (r.n != 0 && le (r.p, v.data ()) && le (v.data () + v.size (), r.p + r.n)) {
      return true;
    }
  }
  return false;
}
template <typename F> void each_view (uri::parts const& p, F f) {
  if (p.scheme) {
    f (*p.scheme);
  }
  if (p.authority) {
    if (p.authority->userinfo) {
      f (*p.authority->userinfo);
    }
    f (p.authority->host);
    if (p.authority->port) {
      f (*p.authority->port);
    }
  }
  for (auto const& s : p.path.segments) {
    f (s);
  }
  if (p.query) {
    f (*p.query);
  }
  if (p.fragment) {
    f (*p.fragment);
  }
}

// A result which somebody still uses.
struct Live {
  uri::parts parts;
  Flat expect;
  AnyStore* store;
  std::vector<Range> original;  // texts the operation was given
  string what;
};
std::vector<Range> texts_of (uri::parts const& p) {
  std::vector<Range> r;
  each_view (p, [&] (string_view v) {
    if (!v.empty ()) {
      r.push_back ({v.data (), v.size ()});
    }
  });
  return r;
}

void check_live (Ctx& c, Live const& l, bool exact) {
  auto rs = l.original;
  auto const s = l.store->contents ();
  rs.push_back ({s.data (), s.size ()});
  each_view (l.parts, [&] (string_view v) {
    if (!v.empty () && !inside (v, rs)) {
      c.fail ("dangling", l.what + ": a component of " + std::to_string (v.size ()) + " characters is neither in the store nor in the original text");
    }
  });
  auto const now = flatten (l.parts);
  if (exact && now != l.expect) {
    c.fail ("wrong-result", l.what + " gave " + show (now) + ", expected " + show (l.expect));
  }
}

// Arbitrary raw texts for every component.
void fill_raw (Ctx& c, gen::Swarm const& w, items::Item& it, bool for_decode) {
  auto& s = c.src;
  items::fill (c, w, it);
  bool const raw = s.draw (3) != 0;
  if (!raw) {
    return;
  }
  auto raw_text = [&] {
    if (s.draw (30) == 29) {
      return string (s.draw (3000), " x%"[s.draw (3)]);
    }
    return gen::bytes (s, w.long_text ? 200 : 24);
  };
  if (it.p.authority) {
    auto& a = *it.p.authority;
    if (a.userinfo && s.draw (2) == 1) {
      a.userinfo = items::put (it.text[1], raw_text ());
    }
    if (s.draw (4) != 3) {
      string h = gen::unicode_host (s);
      if (for_decode) {
        h = model::host_encode (h);
      }
      if (s.draw (8) == 7) {
        h = gen::mutate (s, h);
      }
      a.host = items::put (it.text[2], h);
    }
  }
  unsigned const extra = s.draw (6) == 5 ? s.draw (60) : 0;
  for (unsigned k = 0; k < extra; ++k) {
    it.p.path.segments.push_back ("plain");
  }
  std::size_t idx = 0;
  for (auto& g : it.p.path.segments) {
    if (it.segs.size () <= idx) {
      it.segs.emplace_back ();
    }
    if (g.data () == nullptr) {
      // stays null
    } else if (s.draw (3) == 2) {
      g = items::put (it.segs[idx], raw_text ());
    } else {
      // Views must lie in memory of their own.
      g = items::put (it.segs[idx], string{g});
    }
    ++idx;
  }
  if (it.p.query && s.draw (2) == 1) {
    it.p.query = items::put (it.text[4], raw_text ());
  }
  if (it.p.fragment && s.draw (2) == 1) {
    it.p.fragment = items::put (it.text[5], raw_text ());
  }
}
}  // namespace

void run_case (Ctx& c) {
  auto& s = c.src;
  gen::Swarm const w{s};
  unsigned const n_stores = 1 + s.draw (3);
  std::vector<std::unique_ptr<AnyStore>> stores;
  for (unsigned i = 0; i < n_stores; ++i) {
    stores.push_back (make_store (s));
    c.mark (stores.back ()->kind);
  }
  std::deque<items::Item> originals;
  std::deque<Live> live;
  unsigned const n = 1 + s.draw (8);
  for (unsigned i = 0; i < n; ++i) {
    AnyStore& store = *stores[s.draw (n_stores)];
    // Using a store again ends the results which live in it, and those made from them.
    for (bool again = true; again;) {
      again = false;
      for (auto l = live.begin (); l != live.end (); ++l) {
        auto const t = store.contents ();
        bool const from = std::any_of (l->original.begin (), l->original.end (), [&] (Range const& r) {
          return inside ({r.p, r.n}, {Range{t.data (), t.size ()}});
        });
        if (l->store == &store || from) {
          live.erase (l);
          again = true;
          break;
        }
      }
    }
    bool const enc = s.draw (2) == 0;
    // The input: a fresh one, or a result which is still alive.
    std::vector<Range> from;
    uri::parts const* in = nullptr;
    uri::parts copy;
    if (!live.empty () && s.draw (3) != 0) {
      auto const& l = live[s.draw (static_cast<std::uint32_t> (live.size ()))];
      copy = l.parts;
      stats.add ("probe.chained");
    } else {
      originals.emplace_back ();
      fill_raw (c, w, originals.back (), !enc);
      copy = originals.back ().p;
    }
    from = texts_of (copy);
    Flat const before = flatten (copy);
    auto own_input = std::make_unique<uri::parts> (copy);
    in = own_input.get ();
    lib::Snapshot const snap{*in};
    string const what = (enc ? "encode" : "decode") + string{" of "} + show (before) + " into a " + store.kind;
    optional<Flat> expect;
    bool malformed = false;
    bool known = true;
    if (enc) {
      known = !before.host || model::from_utf8 (*before.host).has_value ();
      if (known) {
        expect = encoded (before);
      }
    } else {
      expect = decoded (before, &malformed);
      known = expect.has_value ();
    }
    AllocPlan plan;
    if (s.draw (3) == 2) {
      switch (s.draw (4)) {
      case 0: plan.kind = AllocPlan::nth; plan.n = 1 + s.small (12); break;
      case 1: plan.kind = AllocPlan::from_nth; plan.n = 1 + s.small (12); break;
      case 2: plan.kind = AllocPlan::at_least; plan.n = 1 + s.small (1024); break;
      default: plan.kind = AllocPlan::budget; plan.n = s.small (8192); break;
      }
    }
    optional<uri::parts> got;
    optional<std::error_code> err;
    bool oom = false;
    try {
      AllocScope const scope{plan};
      if (enc) {
        got = store.encode (*in);
      } else {
        auto r = store.decode (*in);
        if (auto const* const e = std::get_if<std::error_code> (&r)) {
          err = *e;
        } else {
          got = std::get<1> (std::move (r));
        }
      }
    } catch (std::bad_alloc const&) {
      oom = true;
    }
    auto const failed = alloc.failed;
    if (!(snap == lib::Snapshot{*in})) {
      c.fail ("input-changed", what + " changed its input");
    }
    // Whoever asked may forget the input parts; only the texts stay.
    for (auto& g : own_input->path.segments) {
      g = "gone";
    }
    own_input.reset ();
    stats.add (enc ? "calls.encode" : "calls.decode");
    c.mark (enc ? 1U : 2U);
    c.mark (before.segs.size ());
    c.mark (store.contents ().size ());
    c.mark (failed);
    c.log (what + (failed != 0 ? " with " + plan_text (plan) : "") + ": " +
           (oom ? string{"std::bad_alloc"} : (err ? ops::show_error (*err) : show (flatten (*got)))));
    if (before.segs.size () > 26) {
      stats.add ("probe.more_than_26_segments");
    }
    if (oom) {
      stats.add ("probe.reported_exhaustion");
      c.nontrivial ();
      if (failed == 0) {
        c.fail ("spurious-failure", what + " reported std::bad_alloc although memory was available");
      }
    } else if (err) {
      stats.add ("probe.undecodable");
      if (known) {
        c.fail (failed != 0 ? "wrong-under-exhaustion" : "wrong-result", what + " reported " + ops::show_error (*err));
      }
      if (!*err) {
        c.fail ("wrong-result", what + " reported an error which means success");
      }
    } else {
      if (malformed) {
        c.fail ("undetected-malformed", what + " succeeded although a host label is not Punycode");
      }
      live.push_back (Live{*got, known ? *expect : flatten (*got), &store, from, what});
      if (before.segs.size () + (store.contents ().empty () ? 0U : 1U) > 1) {
        c.nontrivial ();
      }
    }
    // Every result in use is still what it was.
    for (auto const& l : live) {
      check_live (c, l, true);
    }
  }
  stats.max ("max.results_alive", live.size ());
}
}  // namespace sim
