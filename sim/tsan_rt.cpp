// See sched.hpp. This file is not instrumented.
#include "sched.hpp"

#include <cxxabi.h>
#include <dlfcn.h>
#include <errno.h>
#include <link.h>
#include <linux/futex.h>
#include <malloc.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <stdarg.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <time.h>
#include <unistd.h>

#include <cstdlib>

namespace {
using sim::Ctx;
constexpr unsigned max_tasks = 8;  // 0 is the thread which starts them
constexpr std::uint64_t access_limit = 40'000'000;

long raw (long nr, long a = 0, long b = 0, long c = 0, long d = 0, long e = 0, long f = 0) {
  register long r10 __asm__ ("r10") = d;
  register long r8 __asm__ ("r8") = e;
  register long r9 __asm__ ("r9") = f;
  long ret = 0;
  __asm__ volatile ("syscall" : "=a"(ret) : "a"(nr), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return ret;
}

struct Clock {
  std::uint32_t t[max_tasks] = {};
  void join (Clock const& o) {
    for (unsigned i = 0; i < max_tasks; ++i) {
      t[i] = t[i] < o.t[i] ? o.t[i] : t[i];
    }
  }
};
struct Task {
  unsigned id = 0;
  enum State { ready, blocked, done } state = ready;
  void const* waits_for = nullptr;
  Clock vc;
  std::uintptr_t stack_lo = 0, stack_hi = 0;
  int go = 0;
  int depth = 0;          // inside the library
  int skip = 0;           // inside the runtime
  std::uint64_t fail_in = 0;
  bool fail_after = false;
  unsigned failed = 0;
  void* frames[64] = {};
  unsigned nframes = 0;
  std::function<void ()> const* body = nullptr;
  pthread_t thread{};
};
Task tasks[max_tasks];
unsigned n_tasks = 0;
unsigned current = 0;
int main_go = 0;
thread_local Task* self = nullptr;
Ctx* ctx = nullptr;
sim::sched::Config config;
std::uint64_t accesses = 0, until_switch = 0, n_switches = 0, n_blocked = 0, n_atomics = 0, order_hash = 0;
bool races_on = false;

// ---- what the code under test may not do while another thread does ----
struct Cell {
  std::uintptr_t key = 0;
  std::uint32_t wclk[max_tasks], rclk[max_tasks];
  std::uint8_t wmask[max_tasks], rmask[max_tasks];
  void* wpc[max_tasks];
  void* rpc[max_tasks];
};
constexpr unsigned table_bits = 17;
Cell* table = nullptr;
std::uint64_t granules = 0;
Cell* find (std::uintptr_t key, bool make) {
  std::uint64_t h = (key * 0x9E3779B97F4A7C15ULL) >> (64U - table_bits);
  for (unsigned i = 0; i < 1U << table_bits; ++i) {
    Cell& c = table[h];
    if (c.key == key) {
      return &c;
    }
    if (c.key == 0) {
      if (!make) {
        return nullptr;
      }
      c.key = key;
      ++granules;
      return &c;
    }
    h = (h + 1) & ((1U << table_bits) - 1U);
  }
  return nullptr;
}
void clear_range (void const* p, std::size_t n) {
  if (table == nullptr || p == nullptr) {
    return;
  }
  auto const a = reinterpret_cast<std::uintptr_t> (p) >> 3U, b = (reinterpret_cast<std::uintptr_t> (p) + n + 7U) >> 3U;
  for (auto k = a; k < b; ++k) {
    if (Cell* c = find (k, false)) {
      for (unsigned i = 0; i < max_tasks; ++i) {
        c->wmask[i] = c->rmask[i] = 0;
      }
    }
  }
}
// Ranges which are not watched: constants, and the objects of other libraries, which do their own synchronisation in
// code that is not instrumented.
std::uintptr_t ro_lo[64], ro_hi[64];
unsigned n_ro = 0;
std::uintptr_t exe_base = 0;
int on_object (dl_phdr_info* info, size_t, void* first) {
  if (*static_cast<bool*> (first)) {
    exe_base = info->dlpi_addr;
    *static_cast<bool*> (first) = false;
    for (int i = 0; i < info->dlpi_phnum; ++i) {
      auto const& p = info->dlpi_phdr[i];
      if (p.p_type == PT_LOAD && (p.p_flags & PF_W) == 0 && n_ro < 64) {
        ro_lo[n_ro] = info->dlpi_addr + p.p_vaddr;
        ro_hi[n_ro++] = info->dlpi_addr + p.p_vaddr + p.p_memsz;
      }
    }
  } else if (n_ro < 64) {
    std::uintptr_t lo = ~static_cast<std::uintptr_t> (0), hi = 0;
    for (int i = 0; i < info->dlpi_phnum; ++i) {
      auto const& p = info->dlpi_phdr[i];
      if (p.p_type == PT_LOAD) {
        auto const a = info->dlpi_addr + p.p_vaddr;
        lo = a < lo ? a : lo;
        hi = a + p.p_memsz > hi ? a + p.p_memsz : hi;
      }
    }
    if (hi > lo) {
      ro_lo[n_ro] = lo;
      ro_hi[n_ro++] = hi;
    }
  }
  return 0;
}
std::string place (void* pc) {
  Dl_info i{};
  std::string r;
  if (dladdr (pc, &i) != 0 && i.dli_sname != nullptr) {
    int st = 0;
    char* d = abi::__cxa_demangle (i.dli_sname, nullptr, nullptr, &st);
    r = d != nullptr ? d : i.dli_sname;
    std::free (d);
    if (r.size () > 160) {
      r = r.substr (0, 160) + "...";
    }
  } else {
    char b[40];
    std::snprintf (b, sizeof b, "exe+0x%llx", static_cast<unsigned long long> (reinterpret_cast<std::uintptr_t> (pc) - exe_base));
    r = b;
  }
  return r;
}
std::string object_at (std::uintptr_t a) {
  Dl_info i{};
  if (dladdr (reinterpret_cast<void*> (a), &i) != 0) {
    char b[64];
    std::snprintf (b, sizeof b, "+0x%llx", static_cast<unsigned long long> (a - reinterpret_cast<std::uintptr_t> (i.dli_fbase)));
    return std::string{"static object "} + (i.dli_sname != nullptr ? i.dli_sname : b);
  }
  return "a heap object";
}
std::string stack_of (Task const& t) {
  std::string r;
  for (unsigned i = t.nframes < 64 ? t.nframes : 64, n = 0; i > 0 && n < 5; --i, ++n) {
    r += (n != 0 ? " < " : "") + place (t.frames[i - 1]);
  }
  return r;
}
struct Skip {
  Task* t;
  explicit Skip (Task* x) : t{x} { ++t->skip; }
  ~Skip () { --t->skip; }
};

void wait_for_turn (int& word) {
  while (__atomic_load_n (&word, __ATOMIC_ACQUIRE) == 0) {
    raw (SYS_futex, reinterpret_cast<long> (&word), FUTEX_WAIT_PRIVATE, 0, 0);
  }
  __atomic_store_n (&word, 0, __ATOMIC_RELAXED);
}
void wake (int& word) {
  __atomic_store_n (&word, 1, __ATOMIC_RELEASE);
  raw (SYS_futex, reinterpret_cast<long> (&word), FUTEX_WAKE_PRIVATE, 1);
}
void draw_interval () {
  // Every thread keeps making progress, whatever it waits for.
  until_switch = n_switches >= config.switches ? 100'000 : 1 + ctx->src.draw (2 * config.spread);
}
// Lets task `to` run; returns when it is this task's turn again.
void hand_over (Task* me, unsigned to) {
  order_hash = sim::mix (order_hash, to * 1000003ULL + accesses);
  current = to;
  wake (tasks[to].go);
  if (me->state != Task::done) {
    wait_for_turn (me->go);
  }
}
unsigned pick_other (Task const* me) {
  unsigned ready[max_tasks];
  unsigned n = 0;
  for (unsigned i = 1; i <= n_tasks; ++i) {
    if (&tasks[i] != me && tasks[i].state == Task::ready) {
      ready[n++] = i;
    }
  }
  return n == 0 ? 0 : ready[ctx->src.draw (n)];
}
void yield_now (Task* me) {
  Skip const s{me};
  unsigned const to = pick_other (me);
  n_switches += to != 0 ? 1 : 0;
  draw_interval ();
  if (to != 0) {
    hand_over (me, to);
  }
}
void yield_point (Task* me) {
  if (++accesses > access_limit) {
    Skip const s{me};
    sim::fatal ("no-progress", "the calls did not finish within " + std::to_string (access_limit) + " accesses; task " +
                                 std::to_string (me->id) + " is in " + stack_of (*me));
  }
  if (--until_switch == 0) {
    yield_now (me);
  }
}
// Waits until somebody calls unblock(key).
void block_on (Task* me, void const* key) {
  Skip const s{me};
  ++n_blocked;
  me->state = Task::blocked;
  me->waits_for = key;
  unsigned const to = pick_other (me);
  if (to == 0) {
    std::string m = "every task waits:";
    for (unsigned i = 1; i <= n_tasks; ++i) {
      if (tasks[i].state == Task::blocked) {
        m += " task " + std::to_string (i) + " in " + stack_of (tasks[i]) + ";";
      }
    }
    sim::fatal ("deadlock", m);
  }
  hand_over (me, to);
}
void unblock (void const* key) {
  for (unsigned i = 1; i <= n_tasks; ++i) {
    if (tasks[i].state == Task::blocked && tasks[i].waits_for == key) {
      tasks[i].state = Task::ready;
      tasks[i].waits_for = nullptr;
    }
  }
}

// ---- synchronisation: what happens before what ----
struct Sync {
  void const* key = nullptr;
  Clock c;
};
Sync syncs[4096];
Clock* sync_clock (void const* key) {
  std::size_t h = (reinterpret_cast<std::uintptr_t> (key) * 0x9E3779B97F4A7C15ULL) >> 52U;
  for (unsigned i = 0; i < 4096; ++i, h = (h + 1) & 4095U) {
    if (syncs[h].key == key) {
      return &syncs[h].c;
    }
    if (syncs[h].key == nullptr) {
      syncs[h].key = key;
      return &syncs[h].c;
    }
  }
  return &syncs[0].c;
}
void acquire (Task* me, void const* key) { me->vc.join (*sync_clock (key)); }
void release (Task* me, void const* key) {
  sync_clock (key)->join (me->vc);
  ++me->vc.t[me->id];
}

void race (Task* me, std::uintptr_t a, bool write, Task const& other, bool other_write, void* other_pc, void* pc) {
  Skip const s{me};
  sim::fatal ("data-race", "data race on " + object_at (a) + ": task " + std::to_string (me->id) + (write ? " writes" : " reads") + " in " +
                             place (pc) + " (" + stack_of (*me) + ") what task " + std::to_string (other.id) +
                             (other_write ? " wrote" : " read") + " in " + place (other_pc) + " without synchronisation");
}
void access_granule (Task* me, std::uintptr_t key, unsigned mask, bool write, void* pc) {
  Cell* const c = find (key, true);
  if (c == nullptr) {
    return;
  }
  for (unsigned u = 1; u <= n_tasks; ++u) {
    if (u == me->id) {
      continue;
    }
    if ((c->wmask[u] & mask) != 0 && c->wclk[u] > me->vc.t[u]) {
      race (me, key << 3U, write, tasks[u], true, c->wpc[u], pc);
    }
    if (write && (c->rmask[u] & mask) != 0 && c->rclk[u] > me->vc.t[u]) {
      race (me, key << 3U, write, tasks[u], false, c->rpc[u], pc);
    }
  }
  auto& clk = write ? c->wclk[me->id] : c->rclk[me->id];
  auto& m = write ? c->wmask[me->id] : c->rmask[me->id];
  if (clk != me->vc.t[me->id]) {
    m = 0;
    clk = me->vc.t[me->id];
  }
  m = static_cast<std::uint8_t> (m | mask);
  (write ? c->wpc[me->id] : c->rpc[me->id]) = pc;
}
inline void access (void const* p, std::size_t n, bool write, void* pc) {
  Task* const me = self;
  if (me == nullptr || me->depth == 0 || me->skip != 0 || sim::quiet_depth != 0 || n == 0) {
    return;
  }
  auto const a = reinterpret_cast<std::uintptr_t> (p);
  if (a >= me->stack_lo && a < me->stack_hi) {
    return;
  }
  for (unsigned i = 0; i < n_ro; ++i) {
    if (a >= ro_lo[i] && a < ro_hi[i]) {
      return;
    }
  }
  yield_point (me);
  for (auto k = a >> 3U; k <= (a + n - 1) >> 3U; ++k) {
    auto const lo = k << 3U;
    unsigned mask = 0xFFU;
    if (lo < a) {
      mask &= 0xFFU << (a - lo);
    }
    if (lo + 8 > a + n) {
      mask &= 0xFFU >> (lo + 8 - (a + n));
    }
    access_granule (me, k, mask & 0xFFU, write, pc);
  }
}

void* thread_main (void* arg) {
  auto* const t = static_cast<Task*> (arg);
  pthread_attr_t at;
  pthread_getattr_np (pthread_self (), &at);
  void* lo = nullptr;
  size_t sz = 0;
  pthread_attr_getstack (&at, &lo, &sz);
  pthread_attr_destroy (&at);
  t->stack_lo = reinterpret_cast<std::uintptr_t> (lo);
  t->stack_hi = t->stack_lo + sz;
  wake (main_go);
  wait_for_turn (t->go);
  self = t;
  (*t->body) ();
  self = nullptr;
  t->state = Task::done;
  unsigned left = 0;
  for (unsigned i = 1; i <= n_tasks; ++i) {
    left += tasks[i].state != Task::done;
  }
  if (left == 0) {
    wake (main_go);
    return nullptr;
  }
  unsigned const to = pick_other (t);
  if (to == 0) {
    sim::fatal ("deadlock", "task " + std::to_string (t->id) + " finished and every other task waits for ever");
  }
  hand_over (t, to);
  return nullptr;
}

template <typename F> F next (char const* name) { return reinterpret_cast<F> (dlsym (RTLD_NEXT, name)); }

// Locks of the code under test, by address. A lock exists here only while a task holds it.
struct Lock {
  void const* key = nullptr;
  Task* owner = nullptr;  // exclusive
  unsigned count = 0;     // recursion, or shared holders
};
Lock locks[512];
Lock* lock_at (void const* key) {
  Lock* empty = nullptr;
  for (auto& l : locks) {
    if (l.key == key) {
      return &l;
    }
    if (l.key == nullptr && empty == nullptr) {
      empty = &l;
    }
  }
  if (empty == nullptr) {
    sim::fatal ("unsupported", "too many locks");
  }
  *empty = Lock{};
  empty->key = key;
  return empty;
}
int lock_exclusive (Task* me, void const* key, bool wait, bool recursive) {
  if (me->depth != 0) {
    yield_point (me);
  }
  for (;;) {
    Lock* const l = lock_at (key);
    if (l->owner == me && recursive) {
      ++l->count;
      return 0;
    }
    if (l->owner == nullptr && l->count == 0) {
      l->owner = me;
      l->count = 1;
      acquire (me, key);
      return 0;
    }
    if (!wait) {
      return EBUSY;
    }
    block_on (me, key);
  }
}
int lock_shared (Task* me, void const* key, bool wait) {
  if (me->depth != 0) {
    yield_point (me);
  }
  for (;;) {
    Lock* const l = lock_at (key);
    if (l->owner == nullptr) {
      ++l->count;
      acquire (me, key);
      return 0;
    }
    if (!wait) {
      return EBUSY;
    }
    block_on (me, key);
  }
}
int unlock_any (Task* me, void const* key, bool may_switch = true) {
  Lock* const l = lock_at (key);
  if (l->count == 0) {
    l->key = nullptr;
    return EPERM;
  }
  release (me, key);
  if (--l->count == 0) {
    l->owner = nullptr;
    l->key = nullptr;
    unblock (key);
  }
  if (may_switch && me->depth != 0) {
    yield_point (me);
  }
  return 0;
}
bool is_recursive (pthread_mutex_t const* m) { return (m->__data.__kind & 3) == PTHREAD_MUTEX_RECURSIVE; }

struct Once {
  void const* key = nullptr;
  int state = 0;  // 0 new, 1 running, 2 done
  Task* owner = nullptr;
};
Once onces[512];
Once* once_at (void const* key) {
  for (auto& o : onces) {
    if (o.key == key) {
      return &o;
    }
    if (o.key == nullptr) {
      o.key = key;
      return &o;
    }
  }
  std::abort ();
}
}  // namespace

namespace sim::sched {
void on_alloc (void* p, std::size_t n) { clear_range (p, n); }
bool should_fail () {
  Task* const me = self;
  if (me == nullptr || me->depth == 0 || me->skip != 0 || me->fail_in == 0) {
    return false;
  }
  if (me->fail_in == 1) {
    ++me->failed;
    if (!me->fail_after) {
      me->fail_in = 0;
    }
    return true;
  }
  --me->fail_in;
  return false;
}
void enter () {
  if (self != nullptr) {
    ++self->depth;
  }
}
void leave () {
  if (self != nullptr) {
    --self->depth;
  }
}
unsigned fail_allocation (std::uint64_t n, bool all_after) {
  unsigned const r = self->failed;
  self->failed = 0;
  self->fail_in = n;
  self->fail_after = all_after;
  return r;
}
void note (std::string const& line) {
  Task* const me = self;
  if (me != nullptr) {
    Skip const s{me};
    ctx->log (line);
  }
}

Result run (Ctx& c, Config const& cfg, std::vector<std::function<void ()>> const& bodies) {
  ctx = &c;
  config = cfg;
  if (exe_base == 0 && n_ro == 0) {
    bool first = true;
    dl_iterate_phdr (on_object, &first);
  }
  if (table == nullptr) {
    table = static_cast<Cell*> (mmap (nullptr, sizeof (Cell) << table_bits, PROT_READ | PROT_WRITE,
                                      MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0));
  }
  n_tasks = static_cast<unsigned> (bodies.size ());
  accesses = n_switches = n_blocked = n_atomics = granules = order_hash = 0;
  until_switch = cfg.switches == 0 ? 100'000 : 1 + cfg.start;
  for (unsigned i = 1; i <= n_tasks; ++i) {
    Task& t = tasks[i];
    auto const clk = t.vc.t[i];
    t = Task{};
    t.id = i;
    for (auto& x : t.vc.t) {
      x = 0;
    }
    t.vc.t[i] = clk + 1;
    t.body = &bodies[i - 1];
  }
  // Everything before is known to all.
  for (unsigned i = 1; i <= n_tasks; ++i) {
    for (unsigned k = 1; k <= n_tasks; ++k) {
      if (k != i) {
        tasks[i].vc.t[k] = tasks[k].vc.t[k] - 1;
      }
    }
  }
  for (unsigned i = 1; i <= n_tasks; ++i) {
    if (pthread_create (&tasks[i].thread, nullptr, thread_main, &tasks[i]) != 0) {
      std::abort ();
    }
    wait_for_turn (main_go);
  }
  current = 1 + c.src.draw (n_tasks);
  wake (tasks[current].go);
  wait_for_turn (main_go);
  for (unsigned i = 1; i <= n_tasks; ++i) {
    pthread_join (tasks[i].thread, nullptr);
  }
  Result r;
  r.accesses = accesses;
  r.switches = n_switches;
  r.blocked = n_blocked;
  r.granules = granules;
  r.order = order_hash;
  r.atomics = n_atomics;
  for (unsigned i = 1; i <= n_tasks; ++i) {
    auto const clk = tasks[i].vc.t[i];
    tasks[i].vc = Clock{};
    tasks[i].vc.t[i] = clk;
  }
  return r;
}
}  // namespace sim::sched

// ---- what the instrumentation calls ----
#define PC __builtin_return_address (0)
extern "C" {
void __tsan_init () {}
void __tsan_func_entry (void* pc) {
  (void)pc;
  if (Task* const t = self; t != nullptr) {
    if (t->nframes < 64) {
      t->frames[t->nframes] = PC;
    }
    ++t->nframes;
  }
}
void __tsan_func_exit () {
  if (Task* const t = self; t != nullptr && t->nframes != 0) {
    --t->nframes;
  }
}
void __tsan_ignore_thread_begin () {}
void __tsan_ignore_thread_end () {}
#define ACCESS(n) \
  void __tsan_read##n (void* p) { access (p, n, false, PC); } \
  void __tsan_write##n (void* p) { access (p, n, true, PC); } \
  void __tsan_unaligned_read##n (void* p) { access (p, n, false, PC); } \
  void __tsan_unaligned_write##n (void* p) { access (p, n, true, PC); } \
  void __tsan_volatile_read##n (void* p) { access (p, n, false, PC); } \
  void __tsan_volatile_write##n (void* p) { access (p, n, true, PC); } \
  void __tsan_unaligned_volatile_read##n (void* p) { access (p, n, false, PC); } \
  void __tsan_unaligned_volatile_write##n (void* p) { access (p, n, true, PC); } \
  void __tsan_read_write##n (void* p) { access (p, n, true, PC); } \
  void __tsan_unaligned_read_write##n (void* p) { access (p, n, true, PC); }
ACCESS (1) ACCESS (2) ACCESS (4) ACCESS (8) ACCESS (16)
void __tsan_read_range (void* p, unsigned long n) { access (p, n, false, PC); }
void __tsan_write_range (void* p, unsigned long n) { access (p, n, true, PC); }
void __tsan_vptr_update (void** p, void* v) {
  if (*p != v) {
    access (p, 8, true, PC);
  }
}
void __tsan_vptr_read (void** p) { access (p, 8, false, PC); }
void* __tsan_memcpy (void* d, void const* s, unsigned long n) {
  access (s, n, false, PC);
  access (d, n, true, PC);
  return __builtin_memcpy (d, s, n);
}
void* __tsan_memmove (void* d, void const* s, unsigned long n) {
  access (s, n, false, PC);
  access (d, n, true, PC);
  return __builtin_memmove (d, s, n);
}
void* __tsan_memset (void* d, int c, unsigned long n) {
  access (d, n, true, PC);
  return __builtin_memset (d, c, n);
}
}

namespace {
enum { mo_relaxed, mo_consume, mo_acquire, mo_release, mo_acq_rel, mo_seq_cst };
bool acquires (int o) { return o != mo_relaxed && o != mo_release; }
bool releases (int o) { return o == mo_release || o == mo_acq_rel || o == mo_seq_cst; }
struct AtomicOp {
  Task* me = nullptr;
  void const* p;
  int order;
  AtomicOp (void const* q, int o) : p{q}, order{o} {
    Task* const t = self;
    if (t != nullptr && t->skip == 0) {
      me = t;
      if (t->depth != 0 && sim::quiet_depth == 0) {
        ++n_atomics;
        yield_point (t);
      }
      if (acquires (o)) {
        acquire (t, p);
      }
    }
  }
  ~AtomicOp () {
    if (me != nullptr && releases (order)) {
      release (me, p);
    }
  }
};
}  // namespace
extern "C" {
#define ATOMIC(bits, T) \
  T __tsan_atomic##bits##_load (T const volatile* p, int o) { \
    AtomicOp const a{const_cast<T const*> (p), o == mo_seq_cst ? mo_acquire : o}; \
    return __atomic_load_n (p, __ATOMIC_SEQ_CST); \
  } \
  void __tsan_atomic##bits##_store (T volatile* p, T v, int o) { \
    AtomicOp const a{const_cast<T*> (p), o == mo_seq_cst ? mo_release : o}; \
    __atomic_store_n (p, v, __ATOMIC_SEQ_CST); \
  } \
  T __tsan_atomic##bits##_exchange (T volatile* p, T v, int o) { \
    AtomicOp const a{const_cast<T*> (p), o}; \
    return __atomic_exchange_n (p, v, __ATOMIC_SEQ_CST); \
  } \
  T __tsan_atomic##bits##_fetch_add (T volatile* p, T v, int o) { \
    AtomicOp const a{const_cast<T*> (p), o}; \
    return __atomic_fetch_add (p, v, __ATOMIC_SEQ_CST); \
  } \
  T __tsan_atomic##bits##_fetch_sub (T volatile* p, T v, int o) { \
    AtomicOp const a{const_cast<T*> (p), o}; \
    return __atomic_fetch_sub (p, v, __ATOMIC_SEQ_CST); \
  } \
  T __tsan_atomic##bits##_fetch_and (T volatile* p, T v, int o) { \
    AtomicOp const a{const_cast<T*> (p), o}; \
    return __atomic_fetch_and (p, v, __ATOMIC_SEQ_CST); \
  } \
  T __tsan_atomic##bits##_fetch_or (T volatile* p, T v, int o) { \
    AtomicOp const a{const_cast<T*> (p), o}; \
    return __atomic_fetch_or (p, v, __ATOMIC_SEQ_CST); \
  } \
  T __tsan_atomic##bits##_fetch_xor (T volatile* p, T v, int o) { \
    AtomicOp const a{const_cast<T*> (p), o}; \
    return __atomic_fetch_xor (p, v, __ATOMIC_SEQ_CST); \
  } \
  T __tsan_atomic##bits##_fetch_nand (T volatile* p, T v, int o) { \
    AtomicOp const a{const_cast<T*> (p), o}; \
    return __atomic_fetch_nand (p, v, __ATOMIC_SEQ_CST); \
  } \
  int __tsan_atomic##bits##_compare_exchange_strong (T volatile* p, T* e, T v, int o, int) { \
    AtomicOp const a{const_cast<T*> (p), o}; \
    return __atomic_compare_exchange_n (p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST) ? 1 : 0; \
  } \
  int __tsan_atomic##bits##_compare_exchange_weak (T volatile* p, T* e, T v, int o, int) { \
    AtomicOp const a{const_cast<T*> (p), o}; \
    return __atomic_compare_exchange_n (p, e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST) ? 1 : 0; \
  } \
  T __tsan_atomic##bits##_compare_exchange_val (T volatile* p, T e, T v, int o, int) { \
    AtomicOp const a{const_cast<T*> (p), o}; \
    (void)__atomic_compare_exchange_n (p, &e, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); \
    return e; \
  }
ATOMIC (8, unsigned char) ATOMIC (16, unsigned short) ATOMIC (32, unsigned int) ATOMIC (64, unsigned long)
void __tsan_atomic_thread_fence (int o) {
  static char fence;
  AtomicOp const a{&fence, o};
}
void __tsan_atomic_signal_fence (int) {}

// ---- blocking ----
int pthread_mutex_lock (pthread_mutex_t* m) {
  if (Task* const t = self) {
    return lock_exclusive (t, m, true, is_recursive (m));
  }
  static auto const f = next<int (*) (pthread_mutex_t*)> ("pthread_mutex_lock");
  return f (m);
}
int pthread_mutex_trylock (pthread_mutex_t* m) {
  if (Task* const t = self) {
    return lock_exclusive (t, m, false, is_recursive (m));
  }
  static auto const f = next<int (*) (pthread_mutex_t*)> ("pthread_mutex_trylock");
  return f (m);
}
int pthread_mutex_unlock (pthread_mutex_t* m) {
  if (Task* const t = self) {
    return unlock_any (t, m);
  }
  static auto const f = next<int (*) (pthread_mutex_t*)> ("pthread_mutex_unlock");
  return f (m);
}
int pthread_rwlock_rdlock (pthread_rwlock_t* m) {
  if (Task* const t = self) {
    return lock_shared (t, m, true);
  }
  static auto const f = next<int (*) (pthread_rwlock_t*)> ("pthread_rwlock_rdlock");
  return f (m);
}
int pthread_rwlock_tryrdlock (pthread_rwlock_t* m) {
  if (Task* const t = self) {
    return lock_shared (t, m, false);
  }
  static auto const f = next<int (*) (pthread_rwlock_t*)> ("pthread_rwlock_tryrdlock");
  return f (m);
}
int pthread_rwlock_wrlock (pthread_rwlock_t* m) {
  if (Task* const t = self) {
    return lock_exclusive (t, m, true, false);
  }
  static auto const f = next<int (*) (pthread_rwlock_t*)> ("pthread_rwlock_wrlock");
  return f (m);
}
int pthread_rwlock_trywrlock (pthread_rwlock_t* m) {
  if (Task* const t = self) {
    return lock_exclusive (t, m, false, false);
  }
  static auto const f = next<int (*) (pthread_rwlock_t*)> ("pthread_rwlock_trywrlock");
  return f (m);
}
int pthread_rwlock_unlock (pthread_rwlock_t* m) {
  if (Task* const t = self) {
    return unlock_any (t, m);
  }
  static auto const f = next<int (*) (pthread_rwlock_t*)> ("pthread_rwlock_unlock");
  return f (m);
}
int pthread_cond_wait (pthread_cond_t* c, pthread_mutex_t* m) {
  if (Task* const t = self) {
    unlock_any (t, m, false);  // and waits, as one step
    block_on (t, c);
    return lock_exclusive (t, m, true, is_recursive (m));
  }
  static auto const f = next<int (*) (pthread_cond_t*, pthread_mutex_t*)> ("pthread_cond_wait");
  return f (c, m);
}
int pthread_cond_timedwait (pthread_cond_t*, pthread_mutex_t* m, timespec const*) {
  if (Task* const t = self) {
    unlock_any (t, m);
    yield_now (t);
    (void)lock_exclusive (t, m, true, is_recursive (m));
  }
  return ETIMEDOUT;
}
int pthread_cond_clockwait (pthread_cond_t* c, pthread_mutex_t* m, clockid_t, timespec const* w) {
  return pthread_cond_timedwait (c, m, w);
}
int pthread_cond_signal (pthread_cond_t* c) {
  if (self != nullptr) {
    unblock (c);  // waking too many is allowed
    return 0;
  }
  static auto const f = next<int (*) (pthread_cond_t*)> ("pthread_cond_signal");
  return f (c);
}
int pthread_cond_broadcast (pthread_cond_t* c) {
  if (self != nullptr) {
    unblock (c);
    return 0;
  }
  static auto const f = next<int (*) (pthread_cond_t*)> ("pthread_cond_broadcast");
  return f (c);
}
int sched_yield () {
  if (Task* const t = self) {
    yield_now (t);
    return 0;
  }
  return static_cast<int> (raw (SYS_sched_yield));
}
int nanosleep (timespec const* a, timespec* b) {
  if (Task* const t = self) {
    yield_now (t);
    return 0;
  }
  long const r = raw (SYS_nanosleep, reinterpret_cast<long> (a), reinterpret_cast<long> (b));
  if (r < 0) {
    errno = static_cast<int> (-r);
    return -1;
  }
  return 0;
}
long syscall (long nr, ...) noexcept {
  va_list ap;
  va_start (ap, nr);
  long const a = va_arg (ap, long), b = va_arg (ap, long), c = va_arg (ap, long), d = va_arg (ap, long), e = va_arg (ap, long),
             f = va_arg (ap, long);
  va_end (ap);
  if (Task* const t = self; t != nullptr && nr == SYS_futex) {
    int const op = static_cast<int> (b) & FUTEX_CMD_MASK;
    if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
      if (*reinterpret_cast<int volatile*> (a) != static_cast<int> (c)) {
        errno = EAGAIN;
        return -1;
      }
      block_on (t, reinterpret_cast<void*> (a));
      return 0;
    }
    if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
      unblock (reinterpret_cast<void*> (a));
      return 1;
    }
  }
  long const r = raw (nr, a, b, c, d, e, f);
  if (r < 0 && r > -4096) {
    errno = static_cast<int> (-r);
    return -1;
  }
  return r;
}
int pthread_once (pthread_once_t* k, void (*f) ()) {
  Task* const t = self;
  Once* const o = once_at (k);
  if (t == nullptr) {
    if (o->state != 2) {
      o->state = 1;
      f ();
      o->state = 2;
    }
    return 0;
  }
  if (t->depth != 0) {
    yield_point (t);
  }
  while (o->state == 1) {
    block_on (t, k);
  }
  if (o->state == 2) {
    acquire (t, k);
    return 0;
  }
  o->state = 1;
  try {
    f ();
  } catch (...) {
    o->state = 0;
    unblock (k);
    throw;
  }
  o->state = 2;
  release (t, k);
  unblock (k);
  return 0;
}

// Initialisation of function-local statics. Byte 0 says that it is done, byte 1 that it is under way.
int sim_guard_acquire (unsigned char* g) __asm__ ("__cxa_guard_acquire");
void sim_guard_release (unsigned char* g) noexcept __asm__ ("__cxa_guard_release");
void sim_guard_abort (unsigned char* g) noexcept __asm__ ("__cxa_guard_abort");
void* sim_memchr (void const* a, int ch, size_t n) __asm__ ("memchr");
int sim_guard_acquire (unsigned char* g) {
  Task* const t = self;
  if (t == nullptr) {
    if (g[0] != 0) {
      return 0;
    }
    g[1] = 1;
    return 1;
  }
  if (t->depth != 0) {
    yield_point (t);
  }
  for (;;) {
    if (g[0] != 0) {
      acquire (t, g);
      return 0;
    }
    if (g[1] == 0) {
      break;
    }
    if (g[1] == t->id + 1) {
      sim::fatal ("deadlock", "the initialisation of a static object depends on itself");
    }
    block_on (t, g);
  }
  g[1] = static_cast<unsigned char> (t->id + 1);
  acquire (t, g);
  return 1;
}
void sim_guard_release (unsigned char* g) noexcept {
  g[1] = 0;
  g[0] = 1;
  if (Task* const t = self) {
    release (t, g);
    unblock (g);
  }
}
void sim_guard_abort (unsigned char* g) noexcept {
  g[1] = 0;
  if (self != nullptr) {
    unblock (g);
  }
}

// Memory which has been given back belongs to nobody.
void* __libc_malloc (size_t);
void* __libc_realloc (void*, size_t);
void __libc_free (void*);
void free (void* p) {
  if (self != nullptr && p != nullptr) {
    clear_range (p, malloc_usable_size (p));
  }
  __libc_free (p);
}
void* realloc (void* p, size_t n) {
  if (self != nullptr && p != nullptr) {
    clear_range (p, malloc_usable_size (p));
  }
  return __libc_realloc (p, n);
}
void* malloc (size_t n) {
  void* const p = __libc_malloc (n);
  if (self != nullptr) {
    clear_range (p, n);
  }
  return p;
}

// Functions the compiler does not see into.
int memcmp (void const* a, void const* b, size_t n) {
  access (a, n, false, PC);
  access (b, n, false, PC);
  auto const* p = static_cast<unsigned char const*> (a);
  auto const* q = static_cast<unsigned char const*> (b);
  for (size_t i = 0; i < n; ++i) {
    if (p[i] != q[i]) {
      return p[i] < q[i] ? -1 : 1;
    }
  }
  return 0;
}
int bcmp (void const* a, void const* b, size_t n) { return memcmp (a, b, n); }
void* sim_memchr (void const* a, int ch, size_t n) {
  auto const* p = static_cast<unsigned char const*> (a);
  for (size_t i = 0; i < n; ++i) {
    if (p[i] == static_cast<unsigned char> (ch)) {
      access (a, i + 1, false, PC);
      return const_cast<unsigned char*> (p + i);
    }
  }
  access (a, n, false, PC);
  return nullptr;
}
size_t strlen (char const* s) {
  size_t n = 0;
  while (s[n] != 0) {
    ++n;
  }
  access (s, n + 1, false, PC);
  return n;
}
}
