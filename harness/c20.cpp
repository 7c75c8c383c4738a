// C20: no operation allocates dynamic memory. -DVMC_T=type -DVMC_SHAPES="shape<..>();..."
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <cerrno>
#include <cmath>
#include <type_traits>
template <class X> inline void useResult(const X&) {}
static inline bool starts(const char* s, const char* p) { while (*p) if (*s++ != *p++) return false; return true; }
static inline bool skipOp(const char* name, size_t R, size_t C)
{
  if (strstr(name, "histogram")) return true;                                       // return a std::map
  if (R > 12 && (strstr(name, "inv(") || strstr(name, "-p"))) return true;           // time: grows with the fifth power
  return false;
}
static void beforeCall();
template <class Again> static void afterCall(bool threw, Again again);
#include "sweep.hpp"
#include <dlfcn.h>

static volatile bool armed, failing; static volatile unsigned long seen; static volatile size_t seenSize;
extern "C" {
void* __libc_malloc(size_t); void __libc_free(void*); void* __libc_calloc(size_t, size_t); void* __libc_realloc(void*, size_t); void* __libc_memalign(size_t, size_t);
static inline bool refuse(size_t n) { if (!armed) return false; ++seen; seenSize = n; return failing; }
void* malloc(size_t n) { return refuse(n) ? (errno = ENOMEM, nullptr) : __libc_malloc(n); }
void free(void* p) { __libc_free(p); }
void* calloc(size_t a, size_t b) { return refuse(a * b) ? (errno = ENOMEM, nullptr) : __libc_calloc(a, b); }
void* realloc(void* p, size_t n) { return refuse(n) ? (errno = ENOMEM, nullptr) : __libc_realloc(p, n); }
void* memalign(size_t a, size_t n) { return refuse(n) ? (errno = ENOMEM, nullptr) : __libc_memalign(a, n); }
void* aligned_alloc(size_t a, size_t n) { return memalign(a, n); }
int posix_memalign(void** p, size_t a, size_t n) { if (refuse(n)) return ENOMEM; *p = __libc_memalign(a, n); return *p ? 0 : ENOMEM; }
void* valloc(size_t n) { return memalign(4096, n); }
}
static void beforeCall() { seen = 0; failing = false; armed = true; }
template <class Again> static void afterCall(bool threw, Again again)
{
  armed = false;
  if (!threw && seen)
  {
    char b[96]; snprintf(b, sizeof b, "%lu allocations, the last of %zu bytes", (unsigned long)seen, (size_t)seenSize);
    emit(b, "none", "calls of the allocation functions during the call"); _exit(3);
  }
  // the same call while no memory can be had
  seen = 0; failing = true; armed = true;
  ++transitions;
  uint64_t h = again();
  armed = false; failing = false;
  if (h != lastHash) { emit("another result, or an exception", "the same result as with memory available", "no dynamic memory available"); _exit(3); }
}
int main(int argc, char** argv) { return sweepMain(argc, argv); }
