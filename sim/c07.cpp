// C07: the whole program uri-split on a simulated operating system.
//
// Every execution is a process of its own whose file system calls trap (seccomp) into the simulator, which decides how
// much is read or written at a time, what is interrupted and what fails; what the program wrote and how it ended are
// then compared with the report which the RFC 3986 model gives for its inputs.
#include <fcntl.h>
#include <linux/filter.h>
#include <linux/seccomp.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <sys/wait.h>
#include <ucontext.h>
#include <unistd.h>

#include <cerrno>
#include <cstddef>
#include <cstdlib>

#include "core.hpp"
#include "gen.hpp"
#include "model.hpp"

// main() under another name, however it is declared.
int uri_split_main () __attribute__ ((weak));
int uri_split_main (int, char**) __attribute__ ((weak));
int uri_split_main (int, char const**) __attribute__ ((weak));
int uri_split_main (int, char* const*) __attribute__ ((weak));
int uri_split_main (int, char const* const*) __attribute__ ((weak));
int uri_split_main (int, char**, char**) __attribute__ ((weak));

namespace sim {
char const* scenario_name () { return "C07"; }
unsigned scenario_chunk () { return 8; }

namespace {
constexpr unsigned max_files = 4;  // object 0 is stdin, 1..max_files the named files
constexpr unsigned n_objects = 1 + max_files;
constexpr std::size_t max_out = 1U << 20U;
constexpr unsigned max_events = 60000;
constexpr int out_obj = 100, err_obj = 101;

struct Schedule {
  unsigned n = 0;
  std::int32_t step[16] = {};  // 0: no limit; >0: at most so many bytes; -1: interrupted
  unsigned at = 0;
  std::int32_t next () { return n == 0 || at >= 300 ? 0 : step[at++ % n]; }
};
struct InputPlan {
  bool present = true, directory = false, pipe = false;
  int open_errno = 0;
  Schedule reads;
  std::int64_t error_at = -1;  // reading from this offset on fails
  int error = 0;
  bool error_once = false;
};
struct Plan {
  InputPlan in[n_objects];
  Schedule writes;
  std::int64_t room = -1;  // stdout accepts so many bytes
  int out_error = 0;
  bool out_error_once = false;
  int err_error = 0;  // stderr refuses everything
  AllocPlan alloc;
};

struct Event {
  char op;  // o(pen) r(ead) w(rite) s(eek) c(lose)
  int obj;
  std::int64_t asked, got;
};
struct Log {  // shared with the process under simulation
  unsigned n;
  bool trapped;
  std::uint64_t out_n, err_n;
  std::uint64_t allocs, alloc_bytes, alloc_max, alloc_failed;
  bool read_failed[n_objects];  // the last read of the object failed
  bool opened[n_objects];
  unsigned in_errors, out_errors, open_errors, interrupted, short_reads, short_writes, err_errors;
  bool in_main;
  Event ev[max_events];
  char out[max_out];
  char err[8192];
};
Log* lg = nullptr;
Plan plan;          // of the process under simulation
int object_of[1024];  // by file descriptor: 0 none, else 1 + object
char dir[512];

constexpr long magic = 0x51A7E11;
long real (long nr, long a = 0, long b = 0, long c = 0, long d = 0) {
  register long r10 __asm__ ("r10") = d;
  register long r8 __asm__ ("r8") = 0;
  register long r9 __asm__ ("r9") = magic;
  long ret = 0;
  __asm__ volatile ("syscall" : "=a"(ret) : "a"(nr), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
  return ret;
}

void event (char op, int obj, std::int64_t asked, std::int64_t got) {
  if (lg->n >= max_events) {
    real (SYS_exit_group, 88);
  }
  lg->ev[lg->n++] = {op, obj, asked, got};
}
int object (long fd) {
  return fd >= 0 && fd < 1024 && object_of[fd] != 0 ? object_of[fd] - 1 : -1;
}
long sim_open (long nr, char const* path, long a, long b, long c, long d) {
  char const* name = path;
  for (char const* p = path; *p != 0; ++p) {
    name = *p == '/' ? p + 1 : name;
  }
  int obj = -1;
  if (name[0] == 'i' && name[1] == 'n' && name[2] >= '1' && name[2] < static_cast<char> ('1' + max_files) && name[3] == 0) {
    obj = name[2] - '0';
  }
  if (obj < 0) {
    return real (nr, a, b, c, d);
  }
  auto& in = plan.in[obj];
  if (in.open_errno != 0) {
    ++lg->open_errors;
    event ('o', obj, 0, -in.open_errno);
    return -in.open_errno;
  }
  long const r = real (nr, a, b, c, d);
  if (r >= 0 && r < 1024) {
    object_of[r] = 1 + obj;
    lg->opened[obj] = true;
  } else {
    ++lg->open_errors;
  }
  event ('o', obj, 0, r >= 0 ? 0 : r);
  return r;
}
// Reading n bytes into p, at offset `at` (-1: the current one).
long sim_read (int fd, int obj, char* p, long n, long at) {
  auto& in = plan.in[obj];
  auto const step = in.reads.next ();
  if (step == -1) {
    ++lg->interrupted;
    event ('r', obj, n, -EINTR);
    return -EINTR;
  }
  long const pos = at >= 0 ? at : real (SYS_lseek, fd, 0, SEEK_CUR);
  long want = n;
  if (in.error_at >= 0 && n > 0) {
    if (pos >= in.error_at) {
      ++lg->in_errors;
      lg->read_failed[obj] = true;
      if (in.error_once) {
        in.error_at = -1;
      }
      event ('r', obj, n, -in.error);
      return -in.error;
    }
    want = std::min<long> (want, in.error_at - pos);
  }
  if (step > 0 && step < want) {
    want = step;
    ++lg->short_reads;
  }
  long const r = at >= 0 ? real (SYS_pread64, fd, reinterpret_cast<long> (p), want, at) : real (SYS_read, fd, reinterpret_cast<long> (p), want);
  lg->read_failed[obj] = r < 0;
  if (r < 0) {
    ++lg->in_errors;
  }
  event ('r', obj, n, r);
  return r;
}
long sim_write_out (iovec const* v, long nv) {
  std::int64_t total = 0;
  for (long i = 0; i < nv; ++i) {
    total += static_cast<std::int64_t> (v[i].iov_len);
  }
  if (total == 0) {
    return 0;
  }
  auto const step = plan.writes.next ();
  if (step == -1) {
    ++lg->interrupted;
    event ('w', out_obj, total, -EINTR);
    return -EINTR;
  }
  std::int64_t take = total;
  if (plan.room >= 0) {
    if (plan.room == 0) {
      ++lg->out_errors;
      if (plan.out_error_once) {
        plan.room = -1;
      }
      event ('w', out_obj, total, -plan.out_error);
      return -plan.out_error;
    }
    take = std::min (take, plan.room);
  }
  if (step > 0 && step < take) {
    take = step;
    ++lg->short_writes;
  }
  if (plan.room >= 0) {
    plan.room -= take;
  }
  std::int64_t left = take;
  for (long i = 0; i < nv && left > 0; ++i) {
    auto const m = std::min<std::int64_t> (left, static_cast<std::int64_t> (v[i].iov_len));
    for (std::int64_t k = 0; k < m; ++k) {
      if (lg->out_n < max_out) {
        lg->out[lg->out_n++] = static_cast<char const*> (v[i].iov_base)[k];
      }
    }
    left -= m;
  }
  event ('w', out_obj, total, take);
  return take;
}
long sim_write_err (iovec const* v, long nv) {
  std::int64_t total = 0;
  for (long i = 0; i < nv; ++i) {
    for (std::size_t k = 0; k < v[i].iov_len; ++k) {
      ++total;
      if (lg->err_n < sizeof lg->err) {
        lg->err[lg->err_n++] = static_cast<char const*> (v[i].iov_base)[k];
      }
    }
  }
  if (plan.err_error != 0) {
    ++lg->err_errors;
    return -plan.err_error;
  }
  return total;
}

void on_syscall (int, siginfo_t* si, void* uc) {
  auto* const g = static_cast<ucontext_t*> (uc)->uc_mcontext.gregs;
  long const a = g[REG_RDI], b = g[REG_RSI], c = g[REG_RDX], d = g[REG_R10];
  long r = 0;
  lg->trapped = true;
  switch (si->si_syscall) {
  case SYS_open:
  case SYS_creat: r = sim_open (si->si_syscall, reinterpret_cast<char const*> (a), a, b, c, d); break;
  case SYS_openat: r = sim_open (SYS_openat, reinterpret_cast<char const*> (b), a, b, c, d); break;
  case SYS_read:
  case SYS_pread64: {
    int const obj = object (a);
    long const at = si->si_syscall == SYS_pread64 ? d : -1;
    r = obj < 0 ? real (si->si_syscall, a, b, c, d) : sim_read (static_cast<int> (a), obj, reinterpret_cast<char*> (b), c, at);
    break;
  }
  case SYS_readv: {
    int const obj = object (a);
    if (obj < 0) {
      r = real (SYS_readv, a, b, c, d);
      break;
    }
    auto const* v = reinterpret_cast<iovec const*> (b);
    for (long i = 0; i < c; ++i) {
      if (v[i].iov_len == 0) {
        continue;
      }
      long const k = sim_read (static_cast<int> (a), obj, static_cast<char*> (v[i].iov_base), static_cast<long> (v[i].iov_len), -1);
      if (k < 0) {
        r = r == 0 ? k : r;
        break;
      }
      r += k;
      if (k < static_cast<long> (v[i].iov_len)) {
        break;
      }
    }
    break;
  }
  case SYS_write:
  case SYS_writev: {
    iovec const one{reinterpret_cast<void*> (b), static_cast<std::size_t> (c)};
    bool const single = si->si_syscall == SYS_write;
    auto const* v = single ? &one : reinterpret_cast<iovec const*> (b);
    long const nv = single ? 1 : c;
    r = a == 1 ? sim_write_out (v, nv) : a == 2 ? sim_write_err (v, nv) : real (si->si_syscall, a, b, c, d);
    break;
  }
  case SYS_lseek: {
    int const obj = object (a);
    r = (obj >= 0 && plan.in[obj].pipe) || a == 1 ? -ESPIPE : real (SYS_lseek, a, b, c, d);
    break;
  }
  case SYS_close:
    if (a >= 0 && a < 1024) {
      object_of[a] = 0;
    }
    r = real (SYS_close, a, b, c, d);
    break;
  default: r = -ENOSYS; break;
  }
  g[REG_RAX] = r;
}

bool install_filter () {
  struct sigaction sa {};
  sa.sa_sigaction = on_syscall;
  sa.sa_flags = SA_SIGINFO | SA_NODEFER;
  sigaction (SIGSYS, &sa, nullptr);
  static int const nrs[] = {SYS_read, SYS_write, SYS_open, SYS_close, SYS_lseek, SYS_pread64, SYS_readv, SYS_writev, SYS_creat, SYS_openat};
  constexpr unsigned n = sizeof nrs / sizeof nrs[0];
  sock_filter f[n + 8];
  unsigned k = 0;
  f[k++] = BPF_STMT (BPF_LD | BPF_W | BPF_ABS, offsetof (seccomp_data, nr));
  for (unsigned i = 0; i < n; ++i) {
    f[k++] = BPF_JUMP (BPF_JMP | BPF_JEQ | BPF_K, static_cast<unsigned> (nrs[i]), static_cast<unsigned char> (n - i), 0);
  }
  f[k++] = BPF_STMT (BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
  f[k++] = BPF_STMT (BPF_LD | BPF_W | BPF_ABS, offsetof (seccomp_data, args[5]));
  f[k++] = BPF_JUMP (BPF_JMP | BPF_JEQ | BPF_K, magic, 0, 1);
  f[k++] = BPF_STMT (BPF_RET | BPF_K, SECCOMP_RET_ALLOW);
  f[k++] = BPF_STMT (BPF_RET | BPF_K, SECCOMP_RET_TRAP);
  sock_fprog p{static_cast<unsigned short> (k), f};
  return prctl (PR_SET_NO_NEW_PRIVS, 1, 0, 0, 0) == 0 && prctl (PR_SET_SECCOMP, SECCOMP_MODE_FILTER, &p) == 0;
}

int call_main (int argc, char** argv) {
  if (auto* f = static_cast<int (*) (int, char const**)> (uri_split_main)) {
    return f (argc, const_cast<char const**> (argv));
  }
  if (auto* f = static_cast<int (*) (int, char**)> (uri_split_main)) {
    return f (argc, argv);
  }
  if (auto* f = static_cast<int (*) (int, char const* const*)> (uri_split_main)) {
    return f (argc, argv);
  }
  if (auto* f = static_cast<int (*) (int, char* const*)> (uri_split_main)) {
    return f (argc, argv);
  }
  if (auto* f = static_cast<int (*) (int, char**, char**)> (uri_split_main)) {
    return f (argc, argv, environ);
  }
  if (auto* f = static_cast<int (*) ()> (uri_split_main)) {
    return f ();
  }
  real (SYS_exit_group, 99);
  return 99;
}

void put_file (std::string const& name, std::string const& text) {
  int const fd = ::open (name.c_str (), O_WRONLY | O_CREAT | O_TRUNC | O_CLOEXEC, 0600);
  std::size_t at = 0;
  while (at < text.size ()) {
    auto const r = ::write (fd, text.data () + at, text.size () - at);
    if (r <= 0) {
      break;
    }
    at += static_cast<std::size_t> (r);
  }
  ::close (fd);
}

struct Ending {
  bool exited = false;
  int code = 0;
};
// Runs the program once under `plan`.
Ending execute (std::vector<unsigned> const& args, bool use_stdin) {
  lg->n = 0;
  lg->trapped = false;
  lg->out_n = lg->err_n = 0;
  lg->allocs = lg->alloc_bytes = lg->alloc_max = lg->alloc_failed = 0;
  lg->in_errors = lg->out_errors = lg->open_errors = lg->interrupted = lg->short_reads = lg->short_writes = lg->err_errors = 0;
  for (unsigned i = 0; i < n_objects; ++i) {
    lg->read_failed[i] = lg->opened[i] = false;
  }
  std::fflush (nullptr);
  pid_t const pid = fork ();
  if (pid < 0) {
    std::abort ();
  }
  if (pid == 0) {
    rlimit const rl{5, 5};
    setrlimit (RLIMIT_CPU, &rl);
    int const in = ::open (use_stdin ? (plan.in[0].directory ? "." : "in0") : "/dev/null", O_RDONLY);
    if (in != 0) {
      dup2 (in, 0);
      ::close (in);
    }
    object_of[0] = 1;
    lg->opened[0] = use_stdin;
    static char name[max_files + 1][4] = {"u", "in1", "in2", "in3", "in4"};
    static char* argv[max_files + 8];
    int argc = 0;
    argv[argc++] = name[0];
    for (auto const a : args) {
      argv[argc++] = name[a];
    }
    argv[argc] = nullptr;
    if (!install_filter ()) {
      real (SYS_exit_group, 98);
    }
    alloc = AllocState{};
    alloc.plan = plan.alloc;
    alloc.armed = true;
    int const rc = call_main (argc, argv);
    alloc.armed = false;
    lg->allocs = alloc.count;
    lg->alloc_bytes = alloc.bytes;
    lg->alloc_max = alloc.max_size;
    lg->alloc_failed = alloc.failed;
    std::exit (rc);
  }
  int st = 0;
  while (waitpid (pid, &st, 0) < 0 && errno == EINTR) {
  }
  Ending e;
  e.exited = WIFEXITED (st);
  e.code = e.exited ? WEXITSTATUS (st) : WTERMSIG (st);
  return e;
}

// ---- what should be reported ----
std::string value (std::optional<std::string> const& v) { return v ? "\"" + *v + "\"" : std::string{"None"}; }
// Appends the report for one input. Returns false at a line which is not a URI.
bool report (std::string const& text, std::string& out) {
  std::size_t at = 0;
  while (at < text.size ()) {
    auto const nl = text.find ('\n', at);
    std::string const line = text.substr (at, nl == std::string::npos ? nl : nl - at);
    at = nl == std::string::npos ? text.size () : nl + 1;
    out += "URI: " + line + "\n";
    auto const u = model::parse (line, false);
    if (!u) {
      return false;
    }
    out += " scheme: " + value (u->scheme);
    out += "\n userinfo: " + value (u->has_authority ? u->userinfo : std::nullopt);
    out += "\n host: " + (u->has_authority ? value (u->host) : std::string{"None"});
    out += "\n port: " + value (u->has_authority ? u->port : std::nullopt);
    out += "\n path: " + value (u->path) + "\n query: " + value (u->query) + "\n fragment: " + value (u->fragment) + "\n";
  }
  return true;
}

std::string content (Source& s) {
  gen::Swarm const w{s};
  std::string t;
  unsigned const n = s.draw (8) == 7 ? s.draw (120) : s.draw (6);
  bool const crlf = s.draw (24) == 23;
  for (unsigned i = 0; i < n; ++i) {
    std::string line;
    switch (s.draw (24)) {
    case 20: line = gen::mutate (s, gen::uri (s, w)); break;
    case 21: line = gen::reference (s, w); break;
    case 22: line = gen::uri (s, w) + std::string (1000 + s.draw (20000), 'x'); break;
    case 23: line = s.draw (2) == 0 ? std::string{} : gen::bytes (s, 20); break;
    default: line = gen::uri (s, w); break;
    }
    t += line;
    if (i + 1 < n || s.draw (3) != 2) {
      t += crlf ? "\r\n" : "\n";
    }
  }
  switch (s.draw (24)) {
  // Something after the last line which is easily overlooked.
  case 21: t += '\r'; break;
  case 22: t += '\0'; break;
  case 23: t += s.draw (2) == 0 ? " " : "\x1A"; break;
  default: break;
  }
  return t;
}

Schedule draw_schedule (Source& s) {
  Schedule r;
  switch (s.draw (4)) {
  case 0: return r;
  case 1:  // byte by byte
    r.n = 1;
    r.step[0] = 1;
    break;
  default:
    r.n = 1 + s.draw (16);
    bool progress = false;
    for (unsigned i = 0; i < r.n; ++i) {
      switch (s.draw (4)) {
      case 0: r.step[i] = 0; break;
      case 1: r.step[i] = -1; break;
      case 2: r.step[i] = 1 + static_cast<std::int32_t> (s.draw (8)); break;
      default: r.step[i] = 1 + static_cast<std::int32_t> (s.draw (400)); break;
      }
      progress = progress || r.step[i] != -1;
    }
    if (!progress) {
      r.step[0] = 1;
    }
    break;
  }
  return r;
}
int pick_errno (Source& s, std::initializer_list<int> l) { return l.begin ()[s.draw (static_cast<std::uint32_t> (l.size ()))]; }

std::string hash_of (char const* p, std::uint64_t n) {
  std::uint64_t h = 0xCBF29CE484222325ULL;
  for (std::uint64_t i = 0; i < n; ++i) {
    h = (h ^ static_cast<unsigned char> (p[i])) * 0x100000001B3ULL;
  }
  char b[32];
  std::snprintf (b, sizeof b, "%llu bytes %016llx", static_cast<unsigned long long> (n), static_cast<unsigned long long> (h));
  return b;
}
}  // namespace

void scenario_init () {
  lg = static_cast<Log*> (mmap (nullptr, sizeof (Log), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
  char const* const w = std::getenv ("SIM_WORK");
  std::snprintf (dir, sizeof dir, "%s/c07-%d", w != nullptr ? w : "/tmp", static_cast<int> (getpid ()));
  if ((mkdir (dir, 0700) != 0 && errno != EEXIST) || chdir (dir) != 0) {
    std::abort ();
  }
}

void run_case (Ctx& c) {
  auto& s = c.src;
  // The inputs.
  bool const use_stdin = s.draw (3) == 0;
  unsigned const files = use_stdin ? 0 : 1 + s.draw (max_files);
  std::string text[n_objects];
  std::vector<unsigned> args;
  for (unsigned i = 0; i < files; ++i) {
    args.push_back (1 + (s.draw (10) == 9 ? s.draw (files) : i));
  }
  if (use_stdin) {
    text[0] = content (s);
    put_file ("in0", text[0]);
  }
  for (unsigned i = 1; i <= files; ++i) {
    text[i] = content (s);
  }
  std::vector<unsigned> const order = use_stdin ? std::vector<unsigned>{0} : args;
  std::string whole;
  bool valid = true;
  for (auto const o : order) {
    if (valid) {
      valid = report (text[o], whole);
    }
  }
  c.log ("inputs " + std::to_string (order.size ()) + (use_stdin ? " (stdin)" : "") + ", report " + hash_of (whole.data (), whole.size ()) +
         (valid ? "" : ", with a line that is not a URI"));
  if (c.trace) {
    for (auto const o : order) {
      c.log ("  in" + std::to_string (o) + " " + quote (text[o].substr (0, 600)));
    }
  } else {
    for (auto const o : order) {
      c.log ("");
      (void)o;
    }
  }
  Log const* const l = lg;
  std::uint64_t seen_allocs = 0, seen_max = 0, seen_bytes = 0;
  unsigned const runs = 2 + s.draw (3);
  for (unsigned k = 0; k < runs; ++k) {
    plan = Plan{};
    bool absent = false;
    std::string what;
    if (k > 0) {
      // How the system behaves this time.
      for (auto const o : order) {
        auto& in = plan.in[o];
        in.reads = draw_schedule (s);
        in.pipe = o == 0 && s.draw (2) == 1;
      }
      plan.writes = draw_schedule (s);
      switch (s.draw (6)) {
      case 0: break;
      case 1: {  // an input cannot be read
        auto const o = order[s.draw (static_cast<std::uint32_t> (order.size ()))];
        auto& in = plan.in[o];
        in.error_at = static_cast<std::int64_t> (s.draw (static_cast<std::uint32_t> (text[o].size () + 1)));
        if (s.draw (4) == 3) {
          in.error_at = static_cast<std::int64_t> (text[o].size ());
        }
        in.error = pick_errno (s, {EIO, EAGAIN, EISDIR, ENOMEM, ESTALE});
        in.error_once = s.draw (4) == 3;
        what += " read error " + std::to_string (in.error) + " at " + std::to_string (in.error_at) + " of in" + std::to_string (o) +
                (in.error_once ? " once" : "");
        break;
      }
      case 2: {  // an input cannot be opened, or is a directory
        auto const o = order[s.draw (static_cast<std::uint32_t> (order.size ()))];
        auto& in = plan.in[o];
        if (o == 0 || s.draw (3) == 2) {
          in.directory = true;
          what += " in" + std::to_string (o) + " is a directory";
        } else if (s.draw (2) == 1) {
          in.open_errno = pick_errno (s, {EACCES, EMFILE, ENOMEM, EIO, EINTR, ELOOP});
          what += " in" + std::to_string (o) + " cannot be opened: " + std::to_string (in.open_errno);
        } else {
          in.present = false;
          what += " in" + std::to_string (o) + " is missing";
        }
        absent = true;
        break;
      }
      case 3: {  // the output fills up
        plan.room = s.draw (static_cast<std::uint32_t> (whole.size () + 1));
        if (s.draw (4) == 3) {
          plan.room = s.draw (2) == 0 ? 0 : static_cast<std::int64_t> (whole.size ()) - 1;
          plan.room = plan.room < 0 ? 0 : plan.room;
        }
        plan.out_error = pick_errno (s, {ENOSPC, EPIPE, EIO, EAGAIN, EBADF, EFBIG});
        plan.out_error_once = s.draw (4) == 3;
        what += " stdout fails with " + std::to_string (plan.out_error) + " after " + std::to_string (plan.room) + " bytes" +
                (plan.out_error_once ? ", once" : "");
        break;
      }
      default:
        plan.alloc = draw_plan (s, seen_allocs, seen_max, seen_bytes);
        what += " " + plan_text (plan.alloc);
        break;
      }
      plan.err_error = s.draw (6) == 5 ? pick_errno (s, {EPIPE, ENOSPC, EBADF}) : 0;
    }
    for (unsigned i = 1; i <= files; ++i) {
      char const name[] = {'i', 'n', static_cast<char> ('0' + i), 0};
      ::unlink (name);
      ::rmdir (name);
      if (plan.in[i].directory) {
        ::mkdir (name, 0700);
      } else if (plan.in[i].present) {
        put_file (name, text[i]);
      }
    }
    c.log ("execution " + std::to_string (k) + ":" + (what.empty () ? " nothing fails" : what));
    Ending const e = execute (args, use_stdin);
    if (e.exited && (e.code == 98 || e.code == 99)) {
      std::fprintf (stderr, "cannot simulate the system: %d\n", e.code);
      std::_Exit (2);
    }
    if (k == 0) {
      seen_allocs = l->allocs;
      seen_max = l->alloc_max;
      seen_bytes = l->alloc_bytes;
    }
    // The history of the execution.
    for (unsigned i = 0; i < l->n; ++i) {
      auto const& ev = l->ev[i];
      char b[96];
      std::snprintf (b, sizeof b, "  %s %s%d: %lld -> %lld", ev.op == 'o' ? "open" : ev.op == 'r' ? "read" : "write",
                     ev.obj == out_obj ? "out" : "in", ev.obj == out_obj ? 1 : ev.obj, static_cast<long long> (ev.asked),
                     static_cast<long long> (ev.got));
      if (i < 4000) {
        c.log (b);
      }
      if (i < 200) {
        c.mark (static_cast<std::uint64_t> (ev.op) * 131 + static_cast<std::uint64_t> (ev.obj));
        c.mark (static_cast<std::uint64_t> (ev.got < 0 ? ev.got : ev.got > 0 ? 1 : 0));
      }
    }
    c.mark (static_cast<std::uint64_t> (plan.alloc.kind) * 4099 + plan.alloc.n);
    std::string const ending = (e.exited ? "exit " : "signal ") + std::to_string (e.code);
    c.log ("  " + ending + ", wrote " + hash_of (l->out, l->out_n));
    stats.add ("sim.steps", l->n);
    stats.add ("executions");
    auto count = [] (char const* key, std::uint64_t n) {
      if (n != 0) {
        stats.add (key, n);
      }
    };
    count ("fault.read_error", l->in_errors);
    count ("fault.write_error", l->out_errors);
    count ("fault.open_error", l->open_errors);
    count ("fault.interrupted_call", l->interrupted);
    count ("fault.short_read", l->short_reads);
    count ("fault.short_write", l->short_writes);
    count ("fault.stderr_error", l->err_errors);
    count ("fault.alloc_failure", l->alloc_failed);
    std::string const out{l->out, l->out + l->out_n};
    std::string const err{l->err, l->err + l->err_n};
    std::string const about = "with" + (what.empty () ? " no failure" : what) + " uri-split";
    if (!e.exited) {
      if (e.code == SIGXCPU || e.code == SIGKILL) {
        c.fail ("no-progress", about + " did not finish");
      }
      c.fail ("crash:signal", about + " was ended by signal " + std::to_string (e.code) + ": " + err.substr (0, 600));
    }
    if (e.code == 88) {
      c.fail ("no-progress", about + " made " + std::to_string (l->n) + " system calls and did not finish");
    }
    if (e.code == 86) {
      c.fail ("crash:terminate", about + " called std::terminate");
    }
    if (e.code == 77) {
      c.fail ("sanitizer", about + ": " + err.substr (0, 900));
    }
    // What it wrote.
    std::size_t same = 0;
    while (same < out.size () && same < whole.size () && out[same] == whole[same]) {
      ++same;
    }
    if (same != out.size ()) {
      c.fail ("wrong-report", about + " wrote, after " + std::to_string (same) + " correct bytes, " + quote (out.substr (same, 120)) +
                                " where the report is " + quote (whole.substr (same, 120)));
    }
    bool const complete = out.size () == whole.size ();
    // What it said about it.
    bool unread = false;
    for (auto const o : order) {
      unread = unread || l->read_failed[o] || !l->opened[o];
    }
    bool const hard = l->in_errors + l->out_errors + l->open_errors + l->alloc_failed != 0 || absent;
    if (e.code == 0) {
      if (!valid) {
        c.fail ("false-success", about + " exits 0 although a line is not a URI");
      }
      if (!complete) {
        c.fail ("false-success", about + " exits 0 although only " + std::to_string (out.size ()) + " of " + std::to_string (whole.size ()) +
                                   " bytes of the report were accepted");
      }
      if (unread) {
        c.fail ("false-success", about + " exits 0 although an input was not read to its end");
      }
      stats.add ("probe.exit_0");
    } else {
      if (!hard && valid) {
        c.fail ("false-failure", about + " exits " + std::to_string (e.code) + " although every line is a URI and nothing failed: " +
                                   err.substr (0, 200));
      }
      if (!hard && !complete) {
        c.fail ("incomplete-report", about + " wrote " + std::to_string (out.size ()) + " of " + std::to_string (whole.size ()) +
                                       " bytes of the report although nothing failed");
      }
      stats.add (hard ? "probe.exit_nonzero_after_fault" : "probe.exit_nonzero_for_bad_line");
    }
    if (hard || l->interrupted + l->short_reads + l->short_writes != 0) {
      c.nontrivial ();
    }
  }
}
}  // namespace sim
