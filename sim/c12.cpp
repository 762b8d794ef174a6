// C12: another task switches the process between locales before, between and in the middle of calls.
#include <clocale>
#include <cstdlib>
#include <locale>
#include <locale.h>
#include <memory>

#include "core.hpp"
#include "gen.hpp"
#include "lib.hpp"
#include "ops.hpp"
#include "utf.hpp"
#include "uri/rule.hpp"
#include "uri/uri.hpp"

namespace sim {
char const* scenario_name () { return "C12"; }
unsigned scenario_chunk () { return 32; }

namespace {
using std::string;

// A C++ locale in which every octet above US-ASCII is a letter, a digit and whatever else, in which the case of I is
// Turkish, numbers have separators and text sorts backwards.
class Letters : public std::ctype<char> {
public:
  Letters () : std::ctype<char> {table ()} {}

protected:
  char do_toupper (char c) const override { return c == 'i' ? '\xDD' : std::ctype<char>::do_toupper (c); }
  char do_tolower (char c) const override { return c == 'I' ? '\xFD' : c == '\xDD' ? 'i' : std::ctype<char>::do_tolower (c); }
  char const* do_toupper (char* lo, char const* hi) const override {
    for (; lo != hi; ++lo) {
      *lo = do_toupper (*lo);
    }
    return hi;
  }
  char const* do_tolower (char* lo, char const* hi) const override {
    for (; lo != hi; ++lo) {
      *lo = do_tolower (*lo);
    }
    return hi;
  }

private:
  static mask const* table () {
    static std::vector<mask> const t = [] {
      std::vector<mask> v (classic_table (), classic_table () + table_size);
      for (std::size_t i = 0x80; i < 0x100; ++i) {
        v[i] = static_cast<mask> (alpha | digit | xdigit | lower | upper | graph | print | (i % 3 == 0 ? space : i % 3 == 1 ? punct : 0));
      }
      v['g'] = static_cast<mask> (v['g'] | xdigit);
      return v;
    }();
    return t.data ();
  }
};
class Numbers : public std::numpunct<char> {
protected:
  char do_decimal_point () const override { return ','; }
  char do_thousands_sep () const override { return '.'; }
  std::string do_grouping () const override { return "\1"; }
  std::string do_truename () const override { return "wahr"; }
  std::string do_falsename () const override { return "falsch"; }
};
class Backwards : public std::collate<char> {
protected:
  int do_compare (char const* a, char const* b, char const* c, char const* d) const override {
    return -std::collate<char>::do_compare (a, b, c, d);
  }
};

struct Setting {
  string name;
  std::function<void ()> apply;
};
std::vector<Setting> settings;
locale_t const no_locale = static_cast<locale_t> (nullptr);

void back_to_c () {
  Quiet const q;
  std::setlocale (LC_ALL, "C");
  std::locale::global (std::locale::classic ());
  uselocale (LC_GLOBAL_LOCALE);
}

struct Switch {
  std::uint64_t at;
  unsigned to;
};
std::vector<Switch> plan;      // in order; at 0: before the call
std::size_t next_switch = 0;
std::uint64_t entered_at = 0;
std::uint64_t inside = 0;      // steps the library took
std::uint64_t done_switches = 0;

void arm_next () {
  step_hook_at = next_switch < plan.size () ? entered_at + plan[next_switch].at : 0;
}
void hook () {
  Quiet const q;
  settings[plan[next_switch].to].apply ();
  ++next_switch;
  ++done_switches;
  arm_next ();
}
void enter () {
  entered_at = steps;
  next_switch = 0;
  while (next_switch < plan.size () && plan[next_switch].at == 0) {
    settings[plan[next_switch].to].apply ();
    ++next_switch;
  }
  arm_next ();
}
void leave () {
  step_hook_at = 0;
  inside = std::max (inside, steps - entered_at);
  back_to_c ();
}

// Text in which national letters stand where ASCII letters or digits could.
string nationalise (Source& s, string t) {
  unsigned const n = 1 + s.small (3);
  for (unsigned k = 0; k < n && !t.empty (); ++k) {
    auto const at = s.draw (static_cast<std::uint32_t> (t.size ()));
    static char const odd[] = "iI\xFD\xDD\xE9\xC9\xDF\xF1\xB2\xB5\xAA\xBA\xA0\xFF\x80\xC3\xD0\xF0";
    char const c = s.draw (3) == 2 ? static_cast<char> (0x80 + s.draw (0x80)) : odd[s.draw (sizeof odd - 1)];
    if (s.draw (2) == 0) {
      t[at] = c;
    } else {
      t.insert (at, 1, c);
    }
  }
  return t;
}

ops::Call classify (Source& s) {
  ops::Call c;
  auto const ch = static_cast<char> (s.draw (4) == 0 ? s.draw (256) : s.draw (2) == 0 ? 0x80 + s.draw (0x80) : "iIıAZaz09_[`@{gGfF"[s.draw (18)]);
  auto const kind = s.draw (5);
  static char const of[] = "iIaAzZ0-\xE9\xDD\xFD";
  char const arg = of[s.draw (sizeof of - 1)];
  static char const* const names[] = {"alpha", "digit", "hexdig", "single_char", "char_range"};
  c.name = string{"rule."} + names[kind];
  c.text = c.name + "(" + quote (string{1, ch}) + (kind >= 3 ? ", " + quote (string{1, arg}) : "") + ")";
  auto fold = [] (char x) { return model::is_alpha (x) ? static_cast<char> (x | 0x20) : x; };
  switch (kind) {
  case 0: c.expect = model::is_alpha (ch) ? "yes" : "no"; break;
  case 1: c.expect = model::is_digit (ch) ? "yes" : "no"; break;
  case 2: c.expect = model::is_hex (ch) ? "yes" : "no"; break;
  case 3: c.expect = fold (ch) == fold (arg) ? "yes" : "no"; break;
  default: break;
  }
  c.run = [=] {
    string const text (1, ch);
    bool const r = ops::guarded ([&] {
      switch (kind) {
      case 0: return uri::rule{text}.concat (uri::alpha).done ();
      case 1: return uri::rule{text}.concat (uri::digit).done ();
      case 2: return uri::rule{text}.concat (uri::hexdig).done ();
      case 3: return uri::rule{text}.concat (uri::single_char (arg)).done ();
      default: return uri::rule{text}.concat (uri::char_range ('a', 'z')).done ();
      }
    });
    return string{r ? "yes" : "no"};
  };
  c.intact = [] { return true; };
  return c;
}
ops::Call national (Source& s, gen::Swarm const& w) {
  ops::Call c;
  auto const kind = s.draw (7);
  auto const text = std::make_shared<string const> (nationalise (s, kind == 1 ? gen::reference (s, w) : kind < 4 ? gen::uri (s, w) : gen::bytes (s, 20) + "%4" + gen::text (s, w, "%")));
  switch (kind) {
  case 0:
  case 1:
    c.name = kind == 1 ? "split_reference" : "split";
    c.expect = lib::show (model::parse (*text, kind == 1));
    c.run = [=] { return ops::show (ops::guarded ([&] { return kind == 1 ? uri::split_reference (*text) : uri::split (*text); })); };
    break;
  case 2: {
    auto const m = model::parse (*text, true);
    c.name = "join";
    auto const b = model::parse ("http://h/a/b", false);
    c.expect = m ? quote (model::compose (model::resolve (*b, *m, true))) : string{"rejected"};
    c.run = [=] {
      return ops::guarded ([&] {
        auto const r = uri::join ("http://h/a/b", *text);
        return r ? quote (uri::compose (*r)) : string{"rejected"};
      });
    };
    break;
  }
  case 3: {
    // Written to a stream which has the locale itself.
    c.name = "compose";
    auto const p = model::parse (*text, false);
    c.expect = p ? quote (model::compose (*p)) : string{"rejected"};
    c.run = [=] {
      return ops::guarded ([&] {
        auto const r = uri::split (*text);
        if (!r) {
          return string{"rejected"};
        }
        std::ostringstream os;
        os.imbue (std::locale{});
        uri::compose (os, *r);
        return quote (os.str ());
      });
    };
    break;
  }
  case 4:
    c.name = "pctdecode";
    c.expect = quote (model::pct_decode (*text));
    c.run = [=] { return quote (ops::guarded ([&] { return uri::pctdecode (*text); })); };
    break;
  case 5: {
    auto const set = s.draw (7);
    static uri::pctencode_set const sets[] = {
      uri::pctencode_set::fragment,  uri::pctencode_set::query,     uri::pctencode_set::special_query, uri::pctencode_set::path,
      uri::pctencode_set::userinfo, uri::pctencode_set::component, uri::pctencode_set::form_urlencoded};
    c.name = "pctencode";
    c.expect = quote (model::pct_encode (*text, static_cast<model::Set> (set)));
    c.run = [=] { return quote (ops::guarded ([&] { return uri::pctencode (*text, sets[set]); })); };
    break;
  }
  default: {
    auto const puny = std::make_shared<string const> (nationalise (s, model::puny_encode (gen::code_points (s, 6)) + "i"));
    c.name = "punycode::decode";
    bool malformed = false;
    auto const m = model::puny_decode (*puny, &malformed);
    if (m) {
      c.expect = "ok " + utf::units (*m);
    } else if (malformed) {
      c.expect = "error";
    }
    c.text = c.name + "(" + quote (*puny) + ")";
    c.run = [=] {
      auto r = ops::guarded ([&] { return uri::punycode::decode (*puny); });
      return r.index () == 0 ? string{"error"} : "ok " + utf::units (std::get<1> (r).str);
    };
    c.intact = [] { return true; };
    return c;
  }
  }
  c.text = c.name + "(" + quote (*text) + ")";
  c.intact = [] { return true; };
  return c;
}
}  // namespace

void scenario_init () {
  settings.push_back ({"C", back_to_c});
  auto const custom = std::locale{std::locale{std::locale{std::locale::classic (), new Letters}, new Numbers}, new Backwards};
  settings.push_back ({"custom facets", [custom] { std::locale::global (custom); }});
  for (char const* name : {"C.utf8", "tr_TR.ISO-8859-9", "de_DE.ISO-8859-1", "ru_RU.KOI8-R", "el_GR.ISO-8859-7", "tr_TR.UTF-8", "ja_JP.EUC-JP", "th_TH.TIS-620", "lt_LT.UTF-8"}) {
    locale_t const l = newlocale (LC_ALL_MASK, name, no_locale);
    if (l == no_locale) {
      continue;
    }
    string const n = name;
    settings.push_back ({"setlocale " + n, [n] { std::setlocale (LC_ALL, n.c_str ()); }});
    settings.push_back ({"setlocale LC_CTYPE " + n, [n] { std::setlocale (LC_CTYPE, n.c_str ()); }});
    settings.push_back ({"uselocale " + n, [l] { uselocale (l); }});
    try {
      std::locale const cxx{name};
      settings.push_back ({"global " + n, [cxx] { std::locale::global (cxx); }});
    } catch (std::runtime_error const&) {
    }
  }
  step_hook = hook;
  ops::on_enter = enter;
  ops::on_leave = leave;
}

void run_case (Ctx& c) {
  Source& s = c.src;
  gen::Swarm const w{s};
  plan.clear ();
  if (settings.size () > 30) {
    stats.max ("max.locales", settings.size ());
  }
  unsigned const n = 1 + s.draw (5);
  for (unsigned i = 0; i < n; ++i) {
    auto const what = s.draw (4);
    plan.clear ();
    ops::Call const call = what == 0 ? classify (s) : what == 1 ? ops::make (s, w, s.draw (ops::k_count)) : national (s, w);
    stats.add ("calls." + call.name);
    c.mark (call.name);
    inside = 0;
    string const good = call.run ();
    c.log (call.text + " = " + good);
    if (call.expect && good != *call.expect) {
      c.fail ("wrong-answer", call.text + " gave " + good + " in the C locale, expected " + *call.expect);
    }
    auto const length = inside;
    unsigned const tries = 1 + s.draw (4);
    for (unsigned t = 0; t < tries; ++t) {
      plan.clear ();
      string text;
      unsigned const m = 1 + s.draw (3);
      std::vector<std::uint64_t> when;
      for (unsigned k = 0; k < m; ++k) {
        when.push_back (s.draw (2) == 0 || length == 0 ? 0 : 1 + s.draw (static_cast<std::uint32_t> (std::min<std::uint64_t> (length, 1U << 30U))));
      }
      std::sort (when.begin (), when.end ());
      for (auto const at : when) {
        if (!plan.empty () && plan.back ().at == at && at != 0) {
          continue;
        }
        plan.push_back ({at, s.draw (static_cast<std::uint32_t> (settings.size ()))});
        text += (text.empty () ? "" : ", ") + settings[plan.back ().to].name + " at step " + std::to_string (at);
        c.mark (plan.back ().to * 7919U + at);
        stats.add (at == 0 ? "fault.locale_switched_before_call" : "fault.locale_switched_during_call");
      }
      auto const got = call.run ();
      if (got != good) {
        c.fail ("locale-dependent", call.text + " gave " + got + " with locale " + text + ", expected " + good);
      }
      if (!call.intact ()) {
        c.fail ("argument-changed", call.text + " with locale " + text + " changed its arguments");
      }
      c.log ("  same with " + text);
      c.nontrivial ();
    }
  }
  plan.clear ();
}
}  // namespace sim
