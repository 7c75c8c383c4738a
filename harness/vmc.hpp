// vmc.hpp - a small explicit-state explorer for the operations of MatrixLibs.
//
// A unit of exploration is one operation instantiated for one element type and
// shape. Its states are the valuations of the operands in a bounded space which
// is enumerated completely (see enumerate()), its transitions are calls of the
// real code from /repo/matrix, and after every transition the result is compared
// with a reference model. Nothing here is random.
#ifndef VMC_HPP_
#define VMC_HPP_

#include "matrix.hpp"

#include <cmath>
#include <cfenv>
#include <complex>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <exception>
#include <functional>
#include <limits>
#include <map>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <unordered_set>
#include <utility>
#include <vector>
#include <sys/time.h>
#include <unistd.h>

namespace vmc {

using std::size_t;
typedef __int128 i128;

template <class T, size_t R, size_t C> using Mat = mlib::Matrix<T, R, C>;

// ---------------------------------------------------------------- text output
template <class T> struct TName { static std::string s() { return "?"; } };
#define VMC_TN(T) template <> struct TName<T> { static std::string s() { return #T; } };
VMC_TN(int) VMC_TN(long) VMC_TN(long long) VMC_TN(short) VMC_TN(signed char) VMC_TN(unsigned char)
VMC_TN(unsigned) VMC_TN(unsigned short) VMC_TN(unsigned long) VMC_TN(unsigned long long) VMC_TN(float)
VMC_TN(double) VMC_TN(long double) VMC_TN(bool) VMC_TN(char) VMC_TN(std::complex<float>) VMC_TN(std::complex<double>)

inline std::string num(long double x, const char* suffix)
{
  if (std::isnan(x)) return std::string("NAN");
  if (std::isinf(x)) return x < 0 ? "-INFINITY" : "INFINITY";
  char b[64];
  if (std::fabs(x) < 1e15L && x == std::floor(x)) { std::snprintf(b, sizeof b, "%s%.0Lf", (x == 0 && std::signbit(x)) ? "" : "", x); if (x == 0 && std::signbit(x)) return std::string("-0.0") + suffix; return b; }
  std::snprintf(b, sizeof b, "%La", x);
  return std::string(b) + suffix;
}
template <class T> typename std::enable_if<std::is_floating_point<T>::value, std::string>::type lit(const T& x)
{ return num(x, std::is_same<T, float>::value ? "f" : std::is_same<T, long double>::value ? "L" : ""); }
template <class T> typename std::enable_if<std::is_integral<T>::value, std::string>::type lit(const T& x)
{ return std::is_signed<T>::value ? std::to_string((long long)x) : std::to_string((unsigned long long)x); }
template <class T> std::string lit(const std::complex<T>& x) { return "{" + lit(x.real()) + "," + lit(x.imag()) + "}"; }
inline std::string lit(const std::string& s) { return s; }
inline std::string lit(const char* s) { return s; }
inline std::string lit(const i128& x) { return std::to_string((long double)x); }
template <class T, size_t C, size_t R> std::string lit(const std::array<std::array<T, C>, R>& A)
{
  std::string s = "{{ ";
  size_t shown = 0;
  for (size_t i = 0; i < R; ++i)
  {
    s += "{{";
    for (size_t j = 0; j < C; ++j) { s += (j ? "," : "") + lit(A[i][j]); ++shown; }
    s += i + 1 < R ? "}}, " : "}}";
    if (shown > 20000) { s += "..."; break; }
  }
  return s + " }}";
}
template <class A, class B> std::string lit(const std::pair<A, B>& p) { return "(" + lit(p.first) + " ; " + lit(p.second) + ")"; }
template <class K, class V> std::string lit(const std::map<K, V>& m)
{ std::string s = "{"; for (auto& p : m) s += lit(p.first) + ":" + lit(p.second) + " "; return s + "}"; }

template <class T> std::string decl(const char* name, const T& x) { return TName<T>::s() + " " + name + " = " + lit(x) + ";"; }
template <class T, size_t C, size_t R> std::string decl(const char* name, const std::array<std::array<T, C>, R>& A)
{ return "Matrix<" + TName<T>::s() + ", " + std::to_string(R) + ", " + std::to_string(C) + "> " + name + " = " + lit(A) + ";"; }

inline std::string jstr(const std::string& s)
{
  std::string o = "\"";
  for (unsigned char c : s)
  {
    if (c == '"' || c == '\\') { o += '\\'; o += (char)c; }
    else if (c == '\n') o += "\\n";
    else if (c < 32 || c > 126) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += (char)c;
  }
  return o + "\"";
}

// ---------------------------------------------------------------- bookkeeping
struct Unit;
struct Global
{
  const char* prop = "C00";
  bool thorough = false;
  unsigned worker = 0, workers = 1;
  uint64_t unitIndex = 0;
  uint64_t states = 0, transitions = 0, validated = 0, undefinedSkipped = 0, exceptions = 0, units = 0;
  std::unordered_set<uint64_t> outcomes;
  bool outcomesCapped = false;
  std::vector<std::string> samples;
  std::map<std::string, uint64_t> modes;
  long double worst = 0;          // largest error seen, relative to the tolerance of the comparison
  Unit* unit = nullptr;
  bool reporting = false;
};
inline Global& g() { static Global* G = new Global; return *G; }

struct Unit
{
  std::string expr;
  std::vector<std::function<std::string()>> operands;
  std::unordered_set<uint64_t> seen;
  uint64_t cases = 0;
  Unit* outer;
  explicit Unit(const std::string& e) : expr(e), outer(g().unit) { g().unit = this; ++g().units; }
  ~Unit() { g().unit = outer; }
  template <class M> Unit& in(const char* name, const M& m) { operands.push_back([name, &m] { return decl(name, m); }); return *this; }
  std::string text() const { std::string s; for (auto& f : operands) { s += f(); s += " "; } return s; }
};

[[noreturn]] inline void emitViolation(const std::string& got, const std::string& expected, const std::string& note)
{
  Global& G = g();
  if (G.reporting) _exit(4);
  G.reporting = true;
  std::string o = "{\"violation\":true,\"property\":" + jstr(G.prop) + ",\"expr\":" + jstr(G.unit ? G.unit->expr : "") + ",\"operands\":[";
  if (G.unit) for (size_t i = 0; i < G.unit->operands.size(); ++i) o += (i ? "," : "") + jstr(G.unit->operands[i]());
  o += "],\"got\":" + jstr(got) + ",\"expected\":" + jstr(expected) + ",\"note\":" + jstr(note) +
       ",\"case\":" + std::to_string(G.unit ? G.unit->cases : 0) + ",\"worker\":\"" + std::to_string(G.worker) + "/" + std::to_string(G.workers) + "\"}\n";
  const char* p = o.c_str(); size_t n = o.size();
  while (n) { ssize_t w = ::write(1, p, n); if (w <= 0) break; p += w; n -= (size_t)w; }
  _exit(3);
}
template <class A, class B> [[noreturn]] void fail(const A& got, const B& expected, const std::string& note = "") { emitViolation(lit(got), lit(expected), note); }

inline void onSignal(int s)
{
  emitViolation(std::string("signal ") + std::to_string(s), "the call returns or throws", "the process was hit by a signal during or after this call");
}
inline void onTimer(int)
{
  static uint64_t last = ~0ull; static int same = 0;
  uint64_t now = g().transitions + g().states;
  if (now != last) { last = now; same = 0; return; }
  if (++same >= 12) emitViolation("no return after a minute of processor time", "the call returns", "hang");
}
inline void onTerminate()
{
  std::string what = "std::terminate";
  if (auto e = std::current_exception()) { try { std::rethrow_exception(e); } catch (std::exception& x) { what += std::string(": ") + x.what(); } catch (...) { what += ": unknown exception"; } }
  emitViolation(what, "the call returns", "uncaught exception or terminate during this call");
}
inline void init(const char* prop, int argc, char** argv)
{
  Global& G = g();
  G.prop = prop;
  for (int i = 1; i < argc; ++i)
  {
    std::string a = argv[i];
    if (a == "--thorough") G.thorough = true;
    else if (a == "--worker" && i + 1 < argc) { std::sscanf(argv[++i], "%u/%u", &G.worker, &G.workers); }
  }
  static char alt[1 << 16];
  stack_t ss; std::memset(&ss, 0, sizeof ss); ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr);
#ifndef VMC_NO_SIGNALS
  for (int s : {SIGSEGV, SIGFPE, SIGILL, SIGBUS, SIGABRT})
  { struct sigaction sa; std::memset(&sa, 0, sizeof sa); sa.sa_handler = onSignal; sa.sa_flags = SA_ONSTACK | SA_NODEFER; sigaction(s, &sa, nullptr); }
#endif
  struct sigaction sa; std::memset(&sa, 0, sizeof sa); sa.sa_handler = onTimer; sa.sa_flags = SA_RESTART; sigaction(SIGPROF, &sa, nullptr);
  itimerval it; it.it_interval = {5, 0}; it.it_value = {5, 0}; setitimer(ITIMER_PROF, &it, nullptr);
  std::set_terminate(onTerminate);
}
inline int finish()
{
  Global& G = g();
  std::printf("{\"violation\":false,\"units\":%llu,\"states\":%llu,\"transitions\":%llu,\"validated\":%llu,\"undefined_skipped\":%llu,\"exceptions\":%llu,\"distinct_outcomes\":%llu,\"outcomes_capped\":%s,\"modes\":{",
    (unsigned long long)G.units, (unsigned long long)G.states, (unsigned long long)G.transitions, (unsigned long long)G.validated,
    (unsigned long long)G.undefinedSkipped, (unsigned long long)G.exceptions, (unsigned long long)G.outcomes.size(), G.outcomesCapped ? "true" : "false");
  bool first = true;
  for (auto& m : G.modes) { std::printf("%s%s:%llu", first ? "" : ",", jstr(m.first).c_str(), (unsigned long long)m.second); first = false; }
  std::printf("},\"worst_error_over_tolerance\":%.4Lf,\"samples\":[", G.worst);
  for (size_t i = 0; i < G.samples.size(); ++i) std::printf("%s%s", i ? "," : "", jstr(G.samples[i]).c_str());
  std::printf("]}\n");
  std::fflush(stdout);
  return 0;
}
// Work is dealt out to worker processes unit by unit.
inline bool mine() { Global& G = g(); return (G.unitIndex++ % G.workers) == G.worker; }

inline void call(uint64_t n = 1) { g().transitions += n; }            // a library call was made
inline uint64_t mix(uint64_t h, uint64_t x) { h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; return h ^ (h >> 32); }
inline void outcome(uint64_t h)
{
  Global& G = g();
  if (G.outcomes.size() >= (1u << 18)) { G.outcomesCapped = true; return; }
  G.outcomes.insert(h);
}
template <class X> inline typename std::enable_if<!std::is_floating_point<X>::value, uint64_t>::type hv(const X& x) { return (uint64_t)x; }
template <class X> inline typename std::enable_if<std::is_floating_point<X>::value, uint64_t>::type hv(const X& x) { double d = (double)x + 0.0; uint64_t u; std::memcpy(&u, &d, 8); return u; }
template <class X> inline uint64_t hv(const std::complex<X>& x) { return mix(hv(x.real()), hv(x.imag())); }
template <class T, size_t C, size_t R> inline uint64_t hv(const std::array<std::array<T, C>, R>& A) { uint64_t h = R * 64 + C; for (auto& r : A) for (auto& x : r) h = mix(h, hv(x)); return h; }
template <class A, class B> inline uint64_t hv(const std::pair<A, B>& p) { return mix(hv(p.first), hv(p.second)); }

// A result was compared with the model (and agreed).
template <class X> inline void agreed(const X& result)
{
  Global& G = g();
  ++G.validated;
  Unit* u = G.unit;
  uint64_t c = u ? u->cases : 0;
  if ((c & 63) == 1 || c < 64) outcome(hv(result));
  if (G.samples.size() < 3 && u && c == 7) { std::string s = u->text() + u->expr + " == " + lit(result); if (s.size() < 600) G.samples.push_back(s); }
}
inline void agreedQuiet()
{
  Global& G = g(); ++G.validated;
  Unit* u = G.unit;
  if (u && u->cases == 7 && G.samples.size() < 3) { std::string s = u->text() + u->expr; if (s.size() < 600) G.samples.push_back(s); }
}

// |error| <= tolerance, remembering the worst ratio
inline bool within(long double error, long double tol)
{
  error = std::fabs(error);
  if (!(error <= tol)) return false;
  if (tol > 0 && error > g().worst * tol) g().worst = error / tol;
  return true;
}
// How a call ended: returned, std::overflow_error, another exception
enum Ending { Returned = 0, Overflow = 1, OtherException = 2 };
inline const char* endingText(int e) { return e == Returned ? "returned" : e == Overflow ? "std::overflow_error" : "another exception"; }
template <class F> int attempt(F&& f)
{
  call();
  try { f(); return Returned; }
  catch (const std::overflow_error&) { ++g().exceptions; return Overflow; }
  catch (...) { ++g().exceptions; return OtherException; }
}

// ---------------------------------------------------------------- comparison
template <class T> inline typename std::enable_if<std::is_integral<T>::value, bool>::type same(const T& a, const T& b) { return a == b; }
template <class T> inline typename std::enable_if<std::is_floating_point<T>::value, bool>::type same(const T& a, const T& b)
{ if (a != a || b != b) return a != a && b != b; return a == b && std::signbit(a) == std::signbit(b); }
template <class T> inline bool same(const std::complex<T>& a, const std::complex<T>& b) { return same(a.real(), b.real()) && same(a.imag(), b.imag()); }
// equal as numbers: the sign of zero is not looked at
template <class T> inline bool eqv(const T& a, const T& b) { return a == b || (a != a && b != b); }
template <class T, size_t C, size_t R> inline bool same(const std::array<std::array<T, C>, R>& A, const std::array<std::array<T, C>, R>& B)
{ for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < C; ++j) if (!same(A[i][j], B[i][j])) return false; return true; }
template <class T, size_t C, size_t R> inline bool eqv(const std::array<std::array<T, C>, R>& A, const std::array<std::array<T, C>, R>& B)
{ for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < C; ++j) if (!eqv(A[i][j], B[i][j])) return false; return true; }

// ---------------------------------------------------------------- input spaces
// cells: pointers to all scalars of all operands.
template <class T> struct Cells
{
  std::vector<T*> p;
  Cells& add(T& x) { p.push_back(&x); return *this; }
  template <size_t C, size_t R> Cells& add(std::array<std::array<T, C>, R>& A) { for (auto& r : A) for (auto& x : r) p.push_back(&x); return *this; }
  size_t size() const { return p.size(); }
};

template <class T> struct Space
{
  std::vector<T> alpha;            // the alphabet
  std::vector<std::vector<T>> bases;   // base patterns, repeated cyclically over the cells
  double fullLimit = 20000;        // enumerate all |alpha|^cells valuations up to this many,
  double dev2Limit = 20000;        // else every base with up to 2 deviating cells up to this many,
  double dev1Limit = 1e18;         // else every base with up to 1 deviating cell
  bool shard = false;              // split one unit's full enumeration over the workers
};

inline void counted(Unit& u, const char* mode, uint64_t n) { (void)u; g().modes[mode] += n; }

template <class T> void enumerate(Unit& u, const Cells<T>& c, const Space<T>& sp, const std::function<void()>& f)
{
  Global& G = g();
  const size_t n = c.size(), k = sp.alpha.size();
  double full = 1;
  for (size_t i = 0; i < n && full <= 1e18; ++i) full *= (double)k;
  if (full <= sp.fullLimit && (k > 1 || sp.bases.empty() || n == 0))   // one letter: the bases are the space
  {
    std::vector<size_t> d(n, 0);
    for (size_t i = 0; i < n; ++i) *c.p[i] = sp.alpha[0];
    // the leading cells (at least 64 combinations) are dealt out when sharding
    size_t lead = 0; double leadN = 1;
    while (lead < n && leadN < 64) { leadN *= (double)k; ++lead; }
    uint64_t done = 0;
    for (uint64_t li = 0; li < (uint64_t)leadN; ++li)
    {
      if (!sp.shard || li % G.workers == G.worker)
      {
        uint64_t x = li;
        for (size_t i = 0; i < lead; ++i) { *c.p[i] = sp.alpha[x % k]; x /= k; }
        for (size_t i = lead; i < n; ++i) { d[i] = 0; *c.p[i] = sp.alpha[0]; }
        for (;;)
        {
          ++u.cases; ++done;
          ++G.states;
          f();
          size_t i = lead;
          for (; i < n; ++i)
          {
            if (++d[i] < k) { *c.p[i] = sp.alpha[d[i]]; break; }
            d[i] = 0; *c.p[i] = sp.alpha[0];
          }
          if (i == n) break;
        }
      }
    }
    counted(u, "all valuations", done);
    return;
  }
  double pairs = (double)n * (double)(n - 1) / 2 * (double)k * (double)k;
  int dev = pairs * (double)sp.bases.size() <= sp.dev2Limit ? 2 : (double)n * (double)k <= sp.dev1Limit ? 1 : 0;
  if (sp.shard && G.workers > 1 && !G.worker) { /* worker 0 takes deviation-bounded units that were meant to be sharded */ }
  else if (sp.shard && G.worker) return;
  uint64_t done = 0;
  auto visit = [&] {
    uint64_t h = 1;
    for (size_t i = 0; i < n; ++i) h = mix(h, hv(*c.p[i]) ^ (uint64_t)std::signbit((long double)std::real(*c.p[i])));
    if (u.seen.size() < (1u << 22) && !u.seen.insert(h).second) return;
    ++u.cases; ++done; ++G.states; f();
  };
  for (auto& b : sp.bases)
  {
    for (size_t i = 0; i < n; ++i) *c.p[i] = b[i % b.size()];
    visit();
    if (dev < 1) continue;
    for (size_t i = 0; i < n; ++i)
    {
      T keep = *c.p[i];
      for (T v : sp.alpha)
      {
        *c.p[i] = v;
        visit();
        if (dev < 2) continue;
        for (size_t j = i + 1; j < n; ++j)
        {
          T keep2 = *c.p[j];
          for (T w : sp.alpha) { *c.p[j] = w; visit(); }
          *c.p[j] = keep2;
        }
      }
      *c.p[i] = keep;
    }
  }
  u.seen.clear();
  counted(u, dev == 2 ? "bases with <=2 deviations" : dev == 1 ? "bases with <=1 deviation" : "bases", done);
}

// Base patterns. Long (prime-length) patterns make all elements of the usual shapes distinct.
template <class T> std::vector<T> ramp(size_t n, int first, int step)
{ std::vector<T> v; for (size_t i = 0; i < n; ++i) v.push_back((T)(first + (int)i * step)); return v; }
template <class T> std::vector<std::vector<T>> smallBases()
{
  std::vector<std::vector<T>> b;
  b.push_back({T(0)});
  b.push_back({T(1)});
  b.push_back({T(1), T(2), T(3), T(5), T(7), T(4), T(6)});                 // distinct neighbours
  if (std::is_signed<T>::value || std::is_floating_point<T>::value) b.push_back({T(-1), T(2), T(-3), T(1), T(-2), T(3), T(0), T(-4), T(5), T(-5), T(4)});
  return b;
}
template <class T> std::vector<std::vector<T>> distinctBases()
{
  std::vector<std::vector<T>> b = smallBases<T>();
  std::vector<T> r;
  for (int i = 0; i < 120; ++i) r.push_back((T)(i + 1));
  b.push_back(r);
  if (sizeof(T) > 1)
  {
    std::vector<T> q;
    for (int i = 0; i < 16411; ++i) q.push_back((T)((i * 7919) % 16411 - (std::is_signed<T>::value || std::is_floating_point<T>::value ? 8000 : 0)));
    b.push_back(q);
  }
  return b;
}

// shape lists -----------------------------------------------------------------
template <size_t... I> struct Ns {};
template <class F, size_t... I> void forNs(Ns<I...>, F&& f) { int x[] = {0, (f(std::integral_constant<size_t, I>()), 0)...}; (void)x; }
#ifndef VMC_SLICES
#define VMC_SLICE 0
#define VMC_SLICES 1
#endif
// all numbers from Lo to Hi; a build may take every VMC_SLICES-th of them only
constexpr bool inSlice(size_t n) { return n % VMC_SLICES == VMC_SLICE; }
template <size_t Lo, size_t... I> Ns<(Lo + I)...> shiftNs(std::index_sequence<I...>) { return {}; }
template <size_t Lo, size_t Hi> auto range() { return shiftNs<Lo>(std::make_index_sequence<Hi - Lo + 1>()); }

}  // namespace vmc
#endif
