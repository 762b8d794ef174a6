// Counts what the C library's memory functions do on behalf of the code under test (linked with --wrap).
#include <cstddef>
#include <cstdint>

#include "core.hpp"

namespace sim {
std::uint64_t octets_moved = 0;
namespace {
inline void moved (std::size_t n) {
  if (quiet_depth == 0) {
    octets_moved += n;
  }
}
}  // namespace
}  // namespace sim

extern "C" {
void* __real_memcpy (void*, void const*, std::size_t);
void* __real_memmove (void*, void const*, std::size_t);
void* __real_memset (void*, int, std::size_t);
int __real_memcmp (void const*, void const*, std::size_t);
void* __real_memchr (void const*, int, std::size_t);
std::size_t __real_strlen (char const*);

void* __wrap_memcpy (void* d, void const* s, std::size_t n) { sim::moved (n); return __real_memcpy (d, s, n); }
void* __wrap_memmove (void* d, void const* s, std::size_t n) { sim::moved (n); return __real_memmove (d, s, n); }
void* __wrap_memset (void* d, int c, std::size_t n) { sim::moved (n); return __real_memset (d, c, n); }
// Only as far as it has to go.
int __wrap_memcmp (void const* a, void const* b, std::size_t n) {
  auto const* const x = static_cast<unsigned char const*> (a);
  auto const* const y = static_cast<unsigned char const*> (b);
  for (std::size_t i = 0; i < n; ++i) {
    if (x[i] != y[i]) {
      sim::moved (i + 1);
      return x[i] < y[i] ? -1 : 1;
    }
  }
  sim::moved (n);
  return 0;
}
int __wrap_bcmp (void const* a, void const* b, std::size_t n) { return __wrap_memcmp (a, b, n); }
void* __wrap_memchr (void const* p, int c, std::size_t n) {
  void* const r = __real_memchr (p, c, n);
  sim::moved (r != nullptr ? static_cast<std::size_t> (static_cast<char*> (r) - static_cast<char const*> (p)) + 1 : n);
  return r;
}
std::size_t __wrap_strlen (char const* p) {
  auto const n = __real_strlen (p);
  sim::moved (n);
  return n;
}
}
