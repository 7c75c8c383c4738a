// Runs every operation of the table on every content of a bounded space, for a list of shapes.
// Plain C in its own bookkeeping, so that it can run under every sanitizer and without an allocator.
// The including file defines: template <class X> void useResult(const X&), void beforeCall(), void afterCall(bool threw)
#ifndef SWEEP_HPP_
#define SWEEP_HPP_
#include "optable.hpp"
#include <cstdio>
#include <cstdlib>
#include <limits>
#include <unistd.h>
typedef VMC_T T;

static const char* curOp = "nothing"; static int curRows, curCols; static char curArgs[1 << 16];
static void (*curPrint)() = nullptr;
static unsigned long long states, transitions, validated, units, exceptions, outcomes; static unsigned worker, workers = 1; static bool thorough;
static uint64_t lastHash; static bool hasNan;

template <class M> static size_t matText(char* p, size_t room, const char* name, const M& A)
{
  size_t k = (size_t)snprintf(p, room, "%s={", name);
  for (auto& r : A) { k += (size_t)snprintf(p + k, room - k, "{"); for (auto& x : r) { if (k + 60 > room) return k; k += (size_t)snprintf(p + k, room - k, "%.9Lg,", (long double)x); } k += (size_t)snprintf(p + k, room - k, "}"); }
  return k + (size_t)snprintf(p + k, room - k, "} ");
}
static void emit(const char* got, const char* want, const char* note)
{
  static char b[1 << 17]; static bool once = false; if (once) return; once = true;
  curArgs[0] = 0; if (curPrint) curPrint();
  int n = snprintf(b, sizeof b, "{\"violation\":true,\"noreplay\":true,\"expr\":\"%s on %dx%d\",\"operands\":[\"%s\"],\"got\":\"%s\",\"expected\":\"%s\",\"note\":\"%s\"}\n", curOp, curRows, curCols, curArgs, got, want, note);
  if (n > 0) { ssize_t w = write(1, b, (size_t)n); (void)w; }
}
template <size_t R, size_t C> struct S { static tab::In<T, R, C> x; static void print() {
  size_t k = 0, room = sizeof curArgs; if (R * C > 400) { snprintf(curArgs, room, "large contents"); return; }
  k += matText(curArgs + k, room - k, "A", x.A); k += matText(curArgs + k, room - k, "B", x.B); k += matText(curArgs + k, room - k, "D", x.D); k += matText(curArgs + k, room - k, "K", x.K);
  snprintf(curArgs + k, room - k, "s=%Lg i=%zu j=%zu k=%zu l=%zu p=%d", (long double)x.s, x.i, x.j, x.k, x.l, x.p); } };
template <size_t R, size_t C> tab::In<T, R, C> S<R, C>::x;

struct Sink { uint64_t h = 1; template <class X> void operator()(const X& x) { useResult(x); h = tab::mix(h, tab::hv(x)); } };

template <size_t R, size_t C> struct Runner
{
  int which = 0;     // 0 all operations, 1 those with index arguments, 2 those with scalar or exponent arguments, 3 compare
  unsigned long long ran = 0;
  template <class F> void operator()(const char* name, F f)
  {
    if (skipOp(name, R, C)) return;
    if (hasNan && (starts(name, "median") || strstr(name, "histogram"))) return;      // no order among the elements
    const bool idx = starts(name, "swap") || starts(name, "getminor");
    if (which == 1 && !idx) return;
    if (which == 3 && !starts(name, "compare")) return;
    if (which == 2 && !starts(name, "pow") && !starts(name, "A / s") && !starts(name, "div")) return;
    curOp = name;
    bool threw = false; Sink k;
    ++transitions;
    beforeCall();
    try { f(S<R, C>::x, k); } catch (...) { threw = true; ++exceptions; }
    lastHash = threw ? 5 : k.h;
    afterCall(threw, [&] { Sink q; bool t = false; try { f(S<R, C>::x, q); } catch (...) { t = true; } return t ? (uint64_t)5 : q.h; });
    ++validated; ++ran;
  }
};
template <size_t R, size_t C> void one(int which) { ++states; Runner<R, C> r; r.which = which; tab::allOps<T, R, C>(r);
#ifdef SWEEP_PRINT
  if (which == 0) r("print(A)", [](tab::In<T, R, C>& x, auto& out) { mlib::print(x.A); out(x.s); });
#endif
}
template <class U> typename std::enable_if<std::is_floating_point<U>::value, size_t>::type extremes(U* v)
{
  typedef std::numeric_limits<U> L; size_t k = 0;
  for (U x : {L::infinity(), -L::infinity(), L::max(), -L::max(), L::min(), L::denorm_min(), -U(0), L::epsilon(), L::quiet_NaN()}) v[k++] = x;
  return k;
}
template <class U> typename std::enable_if<!std::is_floating_point<U>::value, size_t>::type extremes(U*) { return 0; }

static unsigned long long shapeNo;
template <size_t R, size_t C> void shape()
{
  if (shapeNo++ % workers != worker) return;
  ++units;
  curRows = (int)R; curCols = (int)C; curPrint = &S<R, C>::print;
  auto& x = S<R, C>::x;
  const size_t n = R * C;
  const int base[] = {1, 2, -1, 3, 0, 2, -2, 1, 5, -3, 4};
  T alpha[6] = {T(0), T(1), T(-1), T(2), T(3), T(-2)};
  auto fillBase = [&](int b) {
    for (size_t q = 0; q < n; ++q)
    {
      size_t i = q / C, j = q % C; T v;
      switch (b) { case 0: v = T(0); break; case 1: v = T(i == j); break; case 2: v = (T)base[q % 11]; break; case 3: v = (T)(base[(q * 3 + i) % 11] + (i == j ? 4 : 0)); break;
        case 4: v = (T)((int)(q % 7) - 3); break; case 5: v = (T)((i + j + 1 == R) * 2 + (i == 0)); break; default: v = T(2); }
      x.A[i][j] = v;
    } };
  tab::others(x, 7);
  // contents: complete where small, else every base with one element deviating
  double full = 1; for (size_t q = 0; q < n && full < 1e9; ++q) full *= 5;
  if (full <= (thorough ? 2e6 : 16000))
  {
    for (unsigned long long c = 0; c < (unsigned long long)full; ++c) { unsigned long long y = c; for (size_t q = 0; q < n; ++q) { x.A[q / C][q % C] = alpha[y % 5]; y /= 5; } one<R, C>(0); }
  }
  for (int b = 0; b < 7; ++b)
  {
    for (int seed : {7, 20, 33}) { fillBase(b); tab::others(x, seed); if (seed == 33) x.B = x.A; one<R, C>(0); if (n > 150) break; }
    if (n <= 36 || (thorough && n <= 150)) for (size_t q = 0; q < n; ++q) for (T v : alpha) { fillBase(b); if (x.A[q / C][q % C] == v) continue; x.A[q / C][q % C] = v; one<R, C>(0); }
  }
  // extreme values, one at every place of A or B, and as the scalar
  T ext[16]; const size_t nExt = extremes(ext);
  for (size_t e = 0; e < nExt; ++e)
  {
    hasNan = ext[e] != ext[e];
    for (int b : {0, 3}) for (size_t q = 0; q < n; q += thorough ? 1 : n > 150 ? n : n > 20 ? n / 5 : n > 8 ? 2 : 1)
    {
      if (b == 0 && n > 8 && !thorough) break;
      fillBase(b); x.A[q / C][q % C] = ext[e]; one<R, C>(0);
      if (q == 0 || q + 1 == n) { fillBase(b); T keep = x.B[q / C][q % C]; x.B[q / C][q % C] = ext[e]; one<R, C>(0); x.B[q / C][q % C] = keep; }
    }
    fillBase(3); x.s = ext[e]; one<R, C>(0); for (auto& r : x.A) for (auto& y : r) y = ext[e]; one<R, C>(0); tab::others(x, 7);
    hasNan = false;
  }
  // every index argument
  fillBase(3);
  const size_t hop = n > 300 ? 7 : 1;
  for (size_t a = 0; a < R; a += hop) for (size_t b = 0; b < R; b += hop) { x.i = a; x.k = b; x.j = a % C; x.l = b % C; one<R, C>(1); }
  for (size_t a = 0; a < C; a += hop) for (size_t b = 0; b < C; b += hop) { x.j = a; x.l = b; x.i = a % R; x.k = b % R; one<R, C>(1); }
  if (n <= 64) for (size_t a = 0; a < R; ++a) for (size_t b = 0; b < C; ++b) { x.i = a; x.j = b; one<R, C>(1); }
  tab::others(x, 7);
  // tolerances
  for (float e : {0.0f, -0.0f, -1.0f, 1.0f, 1e30f, -1e30f, std::numeric_limits<float>::infinity(), -std::numeric_limits<float>::infinity(), std::numeric_limits<float>::quiet_NaN(), std::numeric_limits<float>::denorm_min()})
    for (int b : {0, 3}) for (int same = 0; same < 2; ++same) { fillBase(b); if (same) x.B = x.A; x.eps = e; one<R, C>(3); tab::others(x, 7); }
  // exponents and divisors
  if (n <= 36) for (int b : {1, 3, 5}) { fillBase(b); if (R == C && b == 5) for (size_t q = 0; q < n; ++q) x.A[q / C][q % C] = (T)((q / C + 1) % R == q % C); for (x.p = 0; x.p <= (b == 3 ? 4 : 17); ++x.p) for (T s : alpha) { x.s = s; one<R, C>(2); }
    if (R == C && b != 3) for (int p : {20, 31, 32, 33, 42, 63, 64, 65, 100, 127, 128, 255, 256, 1000, 1023, 1024, 65535, 65536, 1 << 20, 2147483647}) { x.p = p; one<R, C>(2); }
    tab::others(x, 7); }
}
#ifndef SWEEP_SHAPES
#define SWEEP_SHAPES
#endif
static void sweepAll() { VMC_SHAPES }
static int sweepMain(int argc, char** argv)
{
  for (int i = 1; i < argc; ++i)
  {
    if (!strcmp(argv[i], "--thorough")) thorough = true;
    else if (!strcmp(argv[i], "--worker") && i + 1 < argc) sscanf(argv[++i], "%u/%u", &worker, &workers);
  }
  sweepAll();
  curPrint = nullptr;
  printf("{\"violation\":false,\"units\":%llu,\"states\":%llu,\"transitions\":%llu,\"validated\":%llu,\"exceptions\":%llu,\"modes\":{\"contents of shapes\":%llu},\"samples\":[\"%llu calls over %llu contents of %llu shapes\"]}\n",
    units, states, transitions, validated, exceptions, states, transitions, states, units);
  fflush(stdout);
  return 0;
}
#endif
