// The allocator seam: global operator new/delete replaced by the simulator's.
#include <cstdlib>
#include <new>
#include "core.hpp"

namespace sim {
thread_local int quiet_depth = 0;
AllocState alloc;
std::int64_t live_blocks = 0;
std::int64_t live_bytes = 0;

Quiet::Quiet () { ++quiet_depth; }
Quiet::~Quiet () { --quiet_depth; }

AllocScope::AllocScope (AllocPlan plan) {
  alloc = AllocState{};
  alloc.plan = plan;
  alloc.armed = true;
}
AllocScope::~AllocScope () {
  alloc.armed = false;
  if (alloc.failed != 0) {
    stats.add ("fault.alloc_failure", alloc.failed);
  }
}

AllocPlan draw_plan (Source& s, std::uint64_t count, std::uint64_t max_size, std::uint64_t bytes) {
  AllocPlan p;
  if (count == 0) {
    return p;
  }
  switch (s.draw (4)) {
  case 0: p.kind = AllocPlan::nth; break;
  case 1: p.kind = AllocPlan::from_nth; break;
  case 2: p.kind = AllocPlan::at_least; break;
  default: p.kind = AllocPlan::budget; break;
  }
  switch (p.kind) {
  case AllocPlan::nth:
  case AllocPlan::from_nth:
    p.n = 1 + s.draw (static_cast<std::uint32_t> (count < 4000 ? count : 4000));
    break;
  case AllocPlan::at_least: p.n = 1 + s.draw (static_cast<std::uint32_t> (max_size)); break;
  default: p.n = s.draw (static_cast<std::uint32_t> (bytes)); break;
  }
  return p;
}
std::string plan_text (AllocPlan const& p) {
  switch (p.kind) {
  case AllocPlan::none: return "none";
  case AllocPlan::nth: return "allocation " + std::to_string (p.n) + " fails";
  case AllocPlan::from_nth: return "every allocation from " + std::to_string (p.n) + " on fails";
  case AllocPlan::at_least: return "every allocation of " + std::to_string (p.n) + " bytes or more fails";
  case AllocPlan::budget: return "memory runs out after " + std::to_string (p.n) + " bytes";
  }
  return "";
}
}  // namespace sim

namespace sim::sched {
// The thread scheduler (tsan_rt.cpp), where it is linked in.
bool should_fail () __attribute__ ((weak));
}

namespace {
// Each block is tagged so that its release is accounted the same way as its allocation.
struct alignas (16) Header {
  std::uint64_t tag;
  std::uint64_t size;
};
constexpr std::uint64_t tag_quiet = 0x5157AE7000000001ULL;
constexpr std::uint64_t tag_live = 0x5157AE7000000002ULL;

void* sim_new (std::size_t n) {
  bool const quiet = sim::quiet_depth != 0;
  if (!quiet && sim::alloc.armed) {
    auto& a = sim::alloc;
    ++a.count;
    if (n > a.max_size) {
      a.max_size = n;
    }
    bool fail = false;
    switch (a.plan.kind) {
    case sim::AllocPlan::none: break;
    case sim::AllocPlan::nth: fail = a.count == a.plan.n; break;
    case sim::AllocPlan::from_nth: fail = a.count >= a.plan.n; break;
    case sim::AllocPlan::at_least: fail = n >= a.plan.n; break;
    case sim::AllocPlan::budget: fail = a.bytes + n > a.plan.n; break;
    }
    if (fail) {
      ++a.failed;
      return nullptr;
    }
    a.bytes += n;
    a.held += static_cast<std::int64_t> (n);
    a.peak = a.held > a.peak ? a.held : a.peak;
  }
  if (sim::sched::should_fail != nullptr && !quiet && sim::sched::should_fail ()) {
    return nullptr;
  }
  auto* h = static_cast<Header*> (std::malloc (n + sizeof (Header)));
  if (h == nullptr) {
    return nullptr;
  }
  h->tag = quiet ? tag_quiet : tag_live;
  h->size = n;
  if (!quiet) {
    __atomic_fetch_add (&sim::live_blocks, 1, __ATOMIC_RELAXED);
    __atomic_fetch_add (&sim::live_bytes, static_cast<std::int64_t> (n), __ATOMIC_RELAXED);
  }
  return h + 1;
}
void sim_delete (void* p) noexcept {
  if (p == nullptr) {
    return;
  }
  auto* h = static_cast<Header*> (p) - 1;
  if (h->tag == tag_live) {
    __atomic_fetch_sub (&sim::live_blocks, 1, __ATOMIC_RELAXED);
    __atomic_fetch_sub (&sim::live_bytes, static_cast<std::int64_t> (h->size), __ATOMIC_RELAXED);
    if (sim::alloc.armed) {
      sim::alloc.held -= static_cast<std::int64_t> (h->size);
    }
  } else if (h->tag != tag_quiet) {
    static char const m[] = "sim: delete of a bad pointer\n";
    std::fwrite (m, 1, sizeof m - 1, stderr);
    std::abort ();
  }
  h->tag = 0xDEADULL;
  std::free (h);
}
}  // namespace

void* operator new (std::size_t n) {
  if (void* p = sim_new (n)) {
    return p;
  }
  throw std::bad_alloc{};
}
void* operator new[] (std::size_t n) { return operator new (n); }
void* operator new (std::size_t n, std::nothrow_t const&) noexcept { return sim_new (n); }
void* operator new[] (std::size_t n, std::nothrow_t const&) noexcept { return sim_new (n); }
void operator delete (void* p) noexcept { sim_delete (p); }
void operator delete[] (void* p) noexcept { sim_delete (p); }
void operator delete (void* p, std::size_t) noexcept { sim_delete (p); }
void operator delete[] (void* p, std::size_t) noexcept { sim_delete (p); }
