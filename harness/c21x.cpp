// C21 at the limits of the integer types: every operation on contents up to the smallest and largest value, whenever
// the exact scalar results fit the type, under the undefined-behaviour sanitizer. -DVMC_T=type -DVMC_SHAPES="..."
#include <cstddef>
#include <cstdint>
#include <cstring>
#include <cstdio>
#include <cstdlib>
#include <csignal>
#include <limits>
#include <type_traits>
#include <unistd.h>
#include "optable.hpp"
typedef VMC_T T; typedef std::numeric_limits<T> L; typedef __int128 W; typedef long double F;
using std::size_t;
static const char* curOp = "nothing"; static int curRows, curCols; static char curArgs[1 << 16]; static void (*curPrint)() = nullptr;
static unsigned long long states, transitions, skipped, exceptions, units; static unsigned worker, workers = 1; static bool thorough;

template <class M> static size_t text(char* p, size_t room, const char* name, const M& A)
{
  size_t k = (size_t)snprintf(p, room, "%s={", name);
  for (auto& r : A) { k += (size_t)snprintf(p + k, room - k, "{"); for (auto& x : r) { if (k + 60 > room) return k; k += (size_t)snprintf(p + k, room - k, "%.20Lg,", (F)x); } k += (size_t)snprintf(p + k, room - k, "}"); }
  return k + (size_t)snprintf(p + k, room - k, "} ");
}
static void emit(const char* got)
{
  static char b[1 << 17]; static bool once = false; if (once) return; once = true;
  curArgs[0] = 0; if (curPrint) curPrint();
  int n = snprintf(b, sizeof b, "{\"violation\":true,\"noreplay\":true,\"expr\":\"%s on %dx%d\",\"operands\":[\"%s\"],\"got\":\"%s\",\"expected\":\"no report: the scalar results fit the type\",\"note\":\"undefined behaviour\"}\n", curOp, curRows, curCols, curArgs, got);
  if (n > 0) { ssize_t w = write(1, b, (size_t)n); (void)w; }
}
template <size_t R, size_t C> struct S { static tab::In<T, R, C> x; static void print() {
  size_t k = 0, room = sizeof curArgs;
  k += text(curArgs + k, room - k, "A", x.A); k += text(curArgs + k, room - k, "B", x.B); k += text(curArgs + k, room - k, "D", x.D); k += text(curArgs + k, room - k, "K", x.K);
  snprintf(curArgs + k, room - k, "s=%.20Lg i=%zu j=%zu k=%zu l=%zu p=%d", (F)x.s, x.i, x.j, x.k, x.l, x.p); } };
template <size_t R, size_t C> tab::In<T, R, C> S<R, C>::x;
struct Sink { template <class X> void operator()(const X& x) { h = tab::mix(h, tab::hv(x)); } uint64_t h = 1; };

static bool fit(W x) { return x >= (W)L::min() && x <= (W)L::max(); }
static F mag(T x) { return x < 0 ? -(F)x : (F)x; }
static F mag1(T x) { F m = mag(x); return m < 1 ? 1 : m; }
static const F TOP = (F)L::max();
template <size_t R, size_t C, size_t P> bool dotsFit(const tab::Mat<T, R, C>& A, const tab::Mat<T, C, P>& B)
{
  for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < P; ++j) { F s = 0; for (size_t k = 0; k < C; ++k) s += mag(A[i][k]) * mag(B[k][j]); if (s > TOP) return false; }
  return true;
}
template <class F2, class M> bool each(const M& A, F2 f) { for (size_t i = 0; i < A.size(); ++i) for (size_t j = 0; j < A[0].size(); ++j) if (!f(i, j)) return false; return true; }
template <size_t N> F rowBound(const tab::Mat<T, N, N>& A) { F p = 1; for (auto& r : A) { F s = 0; for (auto& x : r) s += mag(x); p *= s < 1 ? 1 : s; } return p; }
template <size_t R, size_t C> struct Square { static int ask(const char*, tab::In<T, R, C>&) { return -1; } };
template <size_t N> bool detFits(const tab::Mat<T, N, N>& A) { return rowBound<N>(A) <= TOP; }
inline bool detFits(const tab::Mat<T, 1, 1>&) { return true; }
inline bool detFits(const tab::Mat<T, 2, 2>& A) { W p = (W)A[0][0] * A[1][1], q = (W)A[0][1] * A[1][0]; return fit(p) && fit(q) && fit(p - q); }
template <size_t N> struct Square<N, N>
{
  static int ask(const char* n, tab::In<T, N, N>& x)
  {
    auto is = [n](const char* s) { return !strcmp(n, s); };
    if (is("A * B") || is("A = A * B")) return dotsFit<N, N, N>(x.A, x.B);
    if (is("A * A")) return dotsFit<N, N, N>(x.A, x.A);
    if (is("det(A)")) return detFits(x.A);
    if (strstr(n, "inv(")) return (N == 1 && x.A[0][0] != 0) || rowBound<N>(x.A) <= TOP;
    if (!strncmp(n, "pow", 3))
    {
      F norm = 1; for (auto& r : x.A) { F s = 0; for (auto& y : r) s += mag(y); if (s > norm) norm = s; }
      bool eye = each(x.A, [&](size_t i, size_t j) { return x.A[i][j] == T(i == j); });
      if (eye) return true;
      if (strstr(n, "-p")) return x.p == 1 && rowBound<N>(x.A) <= TOP;
      F v = 1; for (int k = 0; k < 2 * x.p && v <= TOP; ++k) v *= norm;
      return norm <= 1 || v <= TOP;
    }
    if (strstr(n, "strassen")) { F a = 0, b = 0; for (auto& r : x.A) for (auto& y : r) a = mag(y) > a ? mag(y) : a; for (auto& r : x.B) for (auto& y : r) b = mag(y) > b ? mag(y) : b; F m = a > b ? a : b; return strstr(n, "(A, A)") ? 16 * a * a <= TOP && 2 * a <= TOP : 16 * a * b <= TOP && 2 * m <= TOP; }
    if (is("isSymetric(A)") || is("isIdentity(A)") || !strncmp(n, "eye", 3) || !strncmp(n, "getminor", 8) || is("A = trans(A)") || !strncmp(n, "concatenate", 11)) return 1;
    return -1;
  }
};
template <size_t R, size_t C> bool domain(const char* n, tab::In<T, R, C>& x)
{
  auto is = [n](const char* s) { return !strcmp(n, s); };
  int q = Square<R, C>::ask(n, x);
  if (q >= 0) return q;
  if (is("A + B") || is("A = A + B") || is("sum(A, B)")) return each(x.A, [&](size_t i, size_t j) { return fit((W)x.A[i][j] + x.B[i][j]); });
  if (is("A + A")) return each(x.A, [&](size_t i, size_t j) { return fit((W)x.A[i][j] * 2); });
  if (is("A + s") || is("s + A") || is("sum(A, s)")) return each(x.A, [&](size_t i, size_t j) { return fit((W)x.A[i][j] + x.s); });
  if (is("A++")) return each(x.A, [&](size_t i, size_t j) { return fit((W)x.A[i][j] + 1); });
  if (is("A--")) return each(x.A, [&](size_t i, size_t j) { return fit((W)x.A[i][j] - 1); });
  if (is("A - B") || is("sub(A, B)")) return each(x.A, [&](size_t i, size_t j) { return fit((W)x.A[i][j] - x.B[i][j]); });
  if (is("A - A")) return true;
  if (is("A = B - A")) return each(x.A, [&](size_t i, size_t j) { return fit((W)x.B[i][j] - x.A[i][j]); });
  if (is("A - s") || is("sub(A, s)")) return each(x.A, [&](size_t i, size_t j) { return fit((W)x.A[i][j] - x.s); });
  if (is("A * s") || is("s * A") || is("mult(A, s)")) return each(x.A, [&](size_t i, size_t j) { return fit((W)x.A[i][j] * x.s); });
  if (is("A / s") || is("div(A, s)")) return x.s == 0 || each(x.A, [&](size_t i, size_t j) { return fit((W)x.A[i][j] / x.s); });
  if (is("abs(A)")) return each(x.A, [&](size_t i, size_t j) { return fit(x.A[i][j] < 0 ? -(W)x.A[i][j] : (W)x.A[i][j]); });
  if (is("A * D")) return dotsFit<R, C, R>(x.A, x.D);
  if (is("mult(D, A)")) return dotsFit<C, R, C>(x.D, x.A);
  if (!strncmp(n, "conv2", 5))
  {
    for (size_t r = 0; r < R + 2; ++r) for (size_t c = 0; c < C + 2; ++c)
    { F s = 0; for (size_t a = 0; a < 3; ++a) for (size_t b = 0; b < 3; ++b) if (r >= a && c >= b && r - a < R && c - b < C) s += mag(x.K[a][b]) * mag(x.A[r - a][c - b]); if (s > TOP) return false; }
    return true;
  }
  F all = 0, big = 0; for (auto& r : x.A) for (auto& y : r) { all += mag(y); if (mag(y) > big) big = mag(y); }
  if (is("mean(A)")) return all <= (F)INT64_MAX / 2 && (sizeof(T) < 8 || all <= TOP / 2);
  if (is("var(A)") || is("stddev(A)")) return 4 * big * big * (F)(R * C) <= TOP;
  if (is("median(A)")) return (R * C) % 2 || 2 * big <= TOP;
  return true;
}
template <size_t R, size_t C> struct Runner
{
  template <class F2> void operator()(const char* name, F2 f)
  {
    if (!domain<R, C>(name, S<R, C>::x)) { ++skipped; return; }
    curOp = name; ++transitions; Sink k;
    try { f(S<R, C>::x, k); } catch (...) { ++exceptions; }
  }
};
template <size_t R, size_t C> void one() { ++states; Runner<R, C> r; tab::allOps<T, R, C>(r); }

static size_t values(T* v)
{
  size_t k = 0;
  v[k++] = T(0); v[k++] = T(1); v[k++] = L::max(); v[k++] = L::min(); v[k++] = T(2); v[k++] = T(L::max() / 2); v[k++] = T(L::max() - 1); v[k++] = T(3); v[k++] = T(L::max() / 2 + 1);
  if (L::is_signed) { v[k++] = T(-1); v[k++] = T(L::min() + 1); v[k++] = T(L::min() / 2); v[k++] = T(-2); v[k++] = T(-3); v[k++] = T(L::min() / 2 - 1); }
  return k;
}
static unsigned long long shapeNo;
template <size_t R, size_t C> void shape()
{
  if (shapeNo++ % workers != worker) return;
  ++units; curRows = (int)R; curCols = (int)C; curPrint = &S<R, C>::print;
  auto& x = S<R, C>::x; const size_t n = R * C;
  T v[16]; const size_t m = values(v);
  tab::others(x, 7);
  auto setAll = [&](auto& M, T y) { for (auto& r : M) for (auto& e : r) e = y; };
  auto second = [&](size_t k) {      // the other operands: k < m one value everywhere, then one value in one place
    const T y = v[k % m];
    if (k < m) { setAll(x.B, y); setAll(x.D, y); setAll(x.K, y); setAll(x.H, y); setAll(x.V, y); }
    else { setAll(x.B, T(0)); setAll(x.D, T(0)); setAll(x.K, T(0)); setAll(x.H, T(0)); setAll(x.V, T(0)); const size_t at = k / m; x.B[at % R][at % C] = y; x.D[at % C][at % R] = y; x.K[at % 3][at / 3 % 3] = y; }
    x.s = y; x.p = (int)(k % 3) + 1; x.i = k % R; x.k = (k / 2) % R; x.j = k % C; x.l = (k / 2) % C; };
  double full = 1; for (size_t q = 0; q < n && full < 1e9; ++q) full *= (double)m;
  if (full <= 60000)
    for (unsigned long long c = 0; c < (unsigned long long)full; ++c)
    {
      unsigned long long y = c; for (size_t q = 0; q < n; ++q) { x.A[q / C][q % C] = v[y % m]; y /= m; }
      for (size_t k = 0; k < (full < 4000 ? 10 * m : thorough ? 3 * m : m); ++k) { if (full >= 4000 && !thorough && (c + k) % 3) continue; second(k); one<R, C>(); }
    }
  for (size_t k = 0; k < 10 * m; ++k)
  {
    second(k);
    for (size_t b = 0; b < m + 3; ++b)
    {
      auto base = [&] { for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < C; ++j) x.A[i][j] = b < m ? v[b] : b == m ? T(i == j) : b == m + 1 ? (((i + j) & 1) ? L::min() : L::max()) : (j == 0 ? v[k % m] : T(0)); };
      base(); one<R, C>();
      if (b != 0 && b != 1 && b < m && !thorough) continue;
      for (size_t q = 0; q < n; ++q) for (size_t e = 0; e < m; ++e) { if (n > 9 && !thorough && (q * m + e + k) % 4) continue; base(); x.A[q / C][q % C] = v[e]; one<R, C>(); }
    }
  }
  // the exponents at the limits, on the identity
  for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < C; ++j) x.A[i][j] = T(i == j);
  for (int p : {0, 1, 2147483647, -2147483647}) { x.p = p; one<R, C>(); }
}
// more elements than a small type can count
template <size_t R, size_t C> void counts()
{
  if (shapeNo++ % workers != worker) return;
  ++units; curRows = (int)R; curCols = (int)C; curPrint = nullptr;
  static tab::Mat<T, R, C> A; T v[16]; const size_t m = values(v); static volatile long double sink;
  for (size_t b = 0; b < m; ++b) for (size_t e = 0; e < m; ++e)
  {
    for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < C; ++j) A[i][j] = (i + j) % 2 ? v[b] : v[e];
    ++states; transitions += 4;
    curOp = "mean(A)"; if (sizeof(T) < 8) sink = (F)mlib::mean(A);
    curOp = "histogram(A)"; sink = (F)mlib::histogram(A).size();
    curOp = "cumulative_histogram(A)"; sink = (F)mlib::cumulative_histogram(A).size();
    curOp = "compare(A, A, 1)"; sink = mlib::compare(A, A, 1.0f);
    if (mag(v[b]) < 2 && mag(v[e]) < 2) { transitions += 2; curOp = "var(A)"; sink = (F)mlib::var(A); curOp = "median(A)"; sink = (F)mlib::median(A); }
  }
}
static void sweepAll() { VMC_SHAPES }
extern "C" void __sanitizer_set_death_callback(void (*)(void));
static void onDeath() { emit("a sanitizer report (see stderr)"); }
static void onSig(int s) { emit(s == SIGFPE ? "SIGFPE" : s == SIGABRT ? "abort" : "SIGSEGV"); _exit(3); }
int main(int argc, char** argv)
{
  for (int i = 1; i < argc; ++i)
  {
    if (!strcmp(argv[i], "--thorough")) thorough = true;
    else if (!strcmp(argv[i], "--worker") && i + 1 < argc) sscanf(argv[++i], "%u/%u", &worker, &workers);
  }
  __sanitizer_set_death_callback(onDeath); signal(SIGABRT, onSig); signal(SIGFPE, onSig);
  sweepAll();
  curPrint = nullptr;
  printf("{\"violation\":false,\"units\":%llu,\"states\":%llu,\"transitions\":%llu,\"validated\":%llu,\"undefined_skipped\":%llu,\"exceptions\":%llu,\"modes\":{\"contents at the limits of an integer type\":%llu},\"samples\":[]}\n", units, states, transitions, transitions, skipped, exceptions, states);
  return 0;
}
