// C21: memory and undefined behaviour, under sanitizers. -DVMC_T=type -DVMC_SHAPES="..." [-DVMC_MSAN]
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <csignal>
#include <cmath>
#include <type_traits>
#include <unistd.h>
#include <map>
#ifdef VMC_MSAN
#include <sanitizer/msan_interface.h>
template <class X> inline void useResult(const X& x) { __msan_check_mem_is_initialized(&x, sizeof x); }
template <class K> inline void useResult(const std::map<K, std::size_t>&) {}
#else
template <class X> inline void useResult(const X&) {}
#endif
static inline bool starts(const char* s, const char* p) { while (*p) if (*s++ != *p++) return false; return true; }
static inline bool skipOp(const char* name, size_t R, size_t C)
{
#ifdef VMC_MSAN
  if (strstr(name, "histogram")) return true;              // the map's code in the C++ library is not instrumented
#endif
  if (R > 12 && (strstr(name, "inv(") || strstr(name, "-p"))) return true;
  if (std::is_integral<VMC_T>::value && R > 8 && (starts(name, "det") || starts(name, "pow") || strstr(name, "inv("))) return true;   // values leave the type
  return false;
}
static void beforeCall() {}
template <class Again> static void afterCall(bool, Again) {}
#ifndef VMC_MSAN
#define SWEEP_PRINT
#include <iostream>
struct NullBuf : std::streambuf { int overflow(int c) override { return c == EOF ? 0 : c; } std::streamsize xsputn(const char*, std::streamsize n) override { return n; } };
#endif
#include "sweep.hpp"
extern "C" void __sanitizer_set_death_callback(void (*)(void));
static void onDeath() { emit("a sanitizer report (see stderr)", "no report", "memory, initialisation or undefined behaviour"); }
static void onAbort(int) { emit("abort (array index checked by the library, see stderr)", "indices in range", "abort"); _exit(3); }
static void onSig(int s) { emit(s == SIGFPE ? "SIGFPE" : "SIGSEGV", "the call returns", "signal"); _exit(3); }
int main(int argc, char** argv)
{
  __sanitizer_set_death_callback(onDeath);
  signal(SIGABRT, onAbort); signal(SIGFPE, onSig);
#ifdef SWEEP_PRINT
  std::cout.rdbuf(new NullBuf);          // the report goes through stdio
#endif
  return sweepMain(argc, argv);
}
