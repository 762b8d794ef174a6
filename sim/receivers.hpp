// Receivers of transcoded text: each makes its own schedule of portions, copies, moves, crashes and cursor steps, and
// holds what it gets against a whole conversion of the same text.
#ifndef SIM_RECEIVERS_HPP
#define SIM_RECEIVERS_HPP
#include <forward_list>
#include <iterator>
#include <list>
#include <memory>
#include <ranges>
#include <type_traits>

#include "core.hpp"
#include "uri/icubaby.hpp"
#include "utf.hpp"

namespace sim {
struct Stream {
  virtual ~Stream () = default;
  virtual bool step (Ctx& c, char id) = 0;  // false once finished
};

namespace {
using std::string;
using std::string_view;
using utf::str;

// The state of a transcoder after each unit.
struct At {
  std::size_t size;
  bool partial, well_formed;
};

// Someone who feeds a transcoder in whatever portions arrive, and moves it about.
template <typename M> class Feed final : public Stream {
  using From = typename M::From;
  using To = typename M::To;
  using T = icubaby::transcoder<From, To>;

public:
  explicit Feed (Ctx& c) : m_{std::make_shared<M> (c)} {
    if constexpr (std::is_constructible_v<T, bool>) {
      if (c.src.draw (8) == 7) {
        tainted_ = true;
        t_ = std::make_unique<T> (false);
        return;
      }
    }
    t_ = std::make_unique<T> ();
  }
  bool step (Ctx& c, char id) override {
    string did;
    switch (c.src.draw (9)) {
    default: {
      auto const n = std::min<std::size_t> (1 + c.src.small (6), m_->units.size () - pos_);
      did = "feeds " + std::to_string (n);
      for (std::size_t i = 0; i < n; ++i) {
        (*t_) (m_->units[pos_++], std::back_inserter (out_));
        check (c, id);
      }
      break;
    }
    case 3: {
      auto const n = std::min<std::size_t> (1 + c.src.small (12), m_->units.size () - pos_);
      did = "copies a chunk of " + std::to_string (n);
      auto const first = m_->units.begin () + static_cast<std::ptrdiff_t> (pos_);
      icubaby::iterator it{t_.get (), std::back_inserter (out_)};
      auto const after = std::copy (first, first + static_cast<std::ptrdiff_t> (n), it);
      if (after.transcoder () != t_.get ()) {
        c.fail ("iterator", string{1, id} + ": icubaby::iterator changed its transcoder");
      }
      pos_ += n;
      break;
    }
    case 4: {
      did = "resumes from a copy";
      auto copy = std::make_unique<T> (*t_);
      spoil (c);
      t_ = std::move (copy);
      stats.add ("probe.resumed_from_copy");
      break;
    }
    case 5: {
      did = "assigns to a used transcoder";
      auto other = std::make_unique<T> ();
      std::swap (other, t_);
      spoil (c);
      *t_ = *other;
      std::swap (other, t_);
      spoil (c);
      std::swap (other, t_);
      stats.add ("probe.assigned");
      break;
    }
    case 6: {
      did = "moves";
      auto other = std::make_unique<T> (std::move (*t_));
      t_ = std::move (other);
      break;
    }
    case 7: {
      did = "takes a checkpoint";
      saved_ = std::make_unique<T> (*t_);
      saved_pos_ = pos_;
      saved_size_ = out_.size ();
      break;
    }
    case 8:
      if (!saved_) {
        return true;
      }
      did = "crashes and goes back to its checkpoint";
      *t_ = *saved_;
      pos_ = saved_pos_;
      out_.resize (saved_size_);
      stats.add ("fault.crash_to_checkpoint");
      break;
    }
    c.log (string{id} + " " + did);
    check (c, id);
    m_->look (c, *t_, pos_);
    if (pos_ < m_->units.size ()) {
      return true;
    }
    if (c.src.draw (2) == 0) {
      t_->end_cp (std::back_inserter (out_));
    } else {
      auto const last = t_->end_cp (icubaby::iterator{t_.get (), std::back_inserter (out_)});
      (void)last;
    }
    c.log (string{id} + " ends [" + utf::units (out_) + "]");
    if (out_ != m_->out) {
      c.fail ("schedule-changes-output", m_->text () + " gave [" + utf::units (out_) + "] in portions but [" + utf::units (m_->out) + "] whole");
    }
    if (t_->well_formed () != (m_->well_formed && !tainted_)) {
      c.fail ("schedule-changes-verdict", m_->text () + ": well_formed() is " + (t_->well_formed () ? "true" : "false") + " in portions");
    }
    m_->look (c, *t_, pos_ + 1);
    if (M::reusable && m_->well_formed && round_++ == 0 && c.src.draw (3) == 2) {
      // The next message may use the same transcoder.
      pos_ = 0;
      out_.clear ();
      saved_.reset ();
      stats.add ("probe.reused");
      return true;
    }
    return false;
  }

private:
  void spoil (Ctx& c) {
    // Whatever is done to an object must not show in its copies.
    str<To> sink;
    unsigned const n = 1 + c.src.draw (4);
    for (unsigned i = 0; i < n; ++i) {
      (*t_) (M::odd (c.src), std::back_inserter (sink));
    }
    if (c.src.draw (2) == 1) {
      t_->end_cp (std::back_inserter (sink));
    }
  }
  void check (Ctx& c, char id) {
    auto const& at = m_->trace[pos_];
    if (out_.size () != at.size || m_->out.compare (0, at.size, out_) != 0) {
      c.fail ("schedule-changes-output", string{id} + ": " + m_->text () + " gave [" + utf::units (out_) + "] after " +
                                           std::to_string (pos_) + " units but [" + utf::units (m_->out.substr (0, at.size)) + "] whole");
    }
    if (t_->partial () != at.partial) {
      c.fail ("schedule-changes-partial", string{id} + ": " + m_->text () + ": partial() after " + std::to_string (pos_) + " units depends on the schedule");
    }
    if (t_->well_formed () != (at.well_formed && !tainted_)) {
      c.fail ("schedule-changes-verdict", string{id} + ": " + m_->text () + ": well_formed() after " + std::to_string (pos_) + " units depends on the schedule");
    }
  }
  std::shared_ptr<M> m_;
  std::unique_ptr<T> t_;
  std::unique_ptr<T> saved_;
  std::size_t pos_ = 0, saved_pos_ = 0, saved_size_ = 0;
  str<To> out_;
  bool tainted_ = false;
  unsigned round_ = 0;
};

// Someone who walks a lazy view with several cursors.
template <typename M, typename Range> class Walk final : public Stream {
  using From = typename M::From;
  using To = typename M::To;
  using Units = std::conditional_t<std::is_same_v<Range, void>, std::vector<From>, Range>;
  static auto make_view (Units const& u) {
    if constexpr (std::is_same_v<Range, void>) {
      // Not a common range.
      return std::views::counted (u.begin (), static_cast<std::ptrdiff_t> (u.size ())) |
             std::views::take_while ([] (From) { return true; }) | icubaby::views::transcode<From, To>;
    } else {
      return u | icubaby::views::transcode<From, To>;
    }
  }
  using View = decltype (make_view (std::declval<Units const&> ()));
  using Cursor = decltype (std::declval<View const&> ().begin ());

public:
  explicit Walk (Ctx& c)
      : m_{std::make_shared<M> (c)},
        units_ (m_->units.begin (), m_->units.end ()),
        view_{make_view (units_)} {
    cursors_.emplace_back (view_.begin (), 0);
    left_ = c.src.small (24);
  }
  bool step (Ctx& c, char id) override {
    if (left_ == 0) {
      auto& [it, index] = cursors_.front ();
      while (it != view_.end ()) {
        look (c, id, cursors_.front ());
        ++it;
        ++index;
      }
      look (c, id, cursors_.front ());
      c.log (string{id} + " reaches the end");
      if (view_.well_formed () != m_->well_formed) {
        c.fail ("schedule-changes-verdict", m_->text () + ": the view's well_formed() is " + (view_.well_formed () ? "true" : "false") + " at the end");
      }
      return false;
    }
    --left_;
    auto const k = c.src.draw (static_cast<std::uint32_t> (cursors_.size ()));
    string did;
    switch (c.src.draw (7)) {
    default: {
      auto const n = 1 + c.src.small (8);
      did = "moves cursor " + std::to_string (k) + " by " + std::to_string (n);
      for (unsigned i = 0; i < n && cursors_[k].second < m_->out.size (); ++i) {
        ++cursors_[k].first;
        ++cursors_[k].second;
        look (c, id, cursors_[k]);
      }
      break;
    }
    case 3:
      if (cursors_[k].second < m_->out.size ()) {
        did = "moves cursor " + std::to_string (k) + " and keeps the old one";
        auto const old = cursors_[k].first++;
        cursors_[k].second++;
        cursors_.emplace_back (old, cursors_[k].second - 1);
        if (*cursors_.back ().first != m_->out[cursors_.back ().second]) {
          look (c, id, cursors_.back ());
        }
      }
      break;
    case 4:
      did = "copies cursor " + std::to_string (k);
      cursors_.push_back (cursors_[k]);
      break;
    case 5:
      did = "starts another cursor";
      cursors_.emplace_back (view_.begin (), 0);
      break;
    case 6: {
      auto const j = c.src.draw (static_cast<std::uint32_t> (cursors_.size ()));
      did = "assigns cursor " + std::to_string (j) + " to " + std::to_string (k);
      cursors_[k] = cursors_[j];
      break;
    }
    }
    c.log (string{id} + " " + did);
    look (c, id, cursors_[k]);
    auto const& other = cursors_[c.src.draw (static_cast<std::uint32_t> (cursors_.size ()))];
    look (c, id, other);
    if ((other.first == cursors_[k].first) != (other.second == cursors_[k].second)) {
      c.fail ("cursor-equality", m_->text () + ": cursors at " + std::to_string (other.second) + " and " + std::to_string (cursors_[k].second) +
                                   " of the view compare " + (other.first == cursors_[k].first ? "equal" : "unequal"));
    }
    if (!view_.well_formed () && m_->well_formed) {
      c.fail ("sound-text-reported", m_->text () + ": the view's well_formed() is false");
    }
    return true;
  }

private:
  void look (Ctx& c, char id, std::pair<Cursor, std::size_t> const& at) {
    bool const end = at.first == view_.end ();
    if (end != (at.second == m_->out.size ()) || (!end && *at.first != m_->out[at.second])) {
      c.fail ("view-differs", string{id} + ": " + m_->text () + ": the view " +
                                (end ? string{"ends"} : "has " + std::to_string (static_cast<std::uint32_t> (*at.first))) + " at " +
                                std::to_string (at.second) + ", whole conversion gives [" + utf::units (m_->out) + "]");
    }
  }
  std::shared_ptr<M> m_;
  Units units_;
  View view_;
  std::vector<std::pair<Cursor, std::size_t>> cursors_;
  unsigned left_ = 0;
};

// Interleaves the receivers until all have finished or the budget is spent.
[[maybe_unused]] inline void interleave (Ctx& c, std::vector<std::pair<char, std::unique_ptr<Stream>>>& live) {
  unsigned budget = 400;
  while (!live.empty () && budget-- > 0) {
    auto const k = c.src.draw (static_cast<std::uint32_t> (live.size ()));
    c.mark (k);
    if (!live[k].second->step (c, live[k].first)) {
      live.erase (live.begin () + k);
    }
  }
  if (live.empty ()) {
    c.nontrivial ();
  } else {
    stats.add ("probe.schedule_cut_off");
  }
}
}  // namespace
}  // namespace sim
#endif
