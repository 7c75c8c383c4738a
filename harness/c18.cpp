// C18: results depend on the arguments alone. -DVMC_T=type -DVMC_PART=0 histories of calls, 1 a register machine
#include "alphabet.hpp"
#include "optable.hpp"
#include <deque>
#include <fenv.h>
#include <sys/mman.h>
#include <sys/wait.h>
using namespace vmc;
typedef VMC_T T;

#if VMC_PART == 0
// ---------------------------------------------------------------- the calls
template <class T, size_t R, size_t C> struct Args { static std::vector<tab::In<T, R, C>> v; static std::vector<char> use; static tab::In<T, R, C> obj[2]; };
template <class T, size_t R, size_t C> std::vector<tab::In<T, R, C>> Args<T, R, C>::v;
template <class T, size_t R, size_t C> std::vector<char> Args<T, R, C>::use;     // 0, or the operand an operation must have to be called with the set
template <class T, size_t R, size_t C> tab::In<T, R, C> Args<T, R, C>::obj[2];

template <class T, size_t R, size_t C> std::string argText(const tab::In<T, R, C>& x)
{ return "A=" + lit(x.A) + " B=" + lit(x.B) + " s=" + lit(x.s) + " p=" + std::to_string(x.p) + " i=" + std::to_string(x.i) + " j=" + std::to_string(x.j) + " k=" + std::to_string(x.k) + " l=" + std::to_string(x.l); }

struct Call
{
  std::string op; int shape; size_t group;          // group: same operation, shape and type
  size_t arg;
  std::function<uint64_t(int place, const char*& changed)> run;
  std::function<std::string()> text;
  uint64_t base = 0;
};
static std::vector<Call> calls;
static std::vector<std::vector<size_t>> groups;
static int nShapes = 0;
static size_t nSpecial = 0;

// the operand occurs in the call by itself, not as part of a name
static bool names(const char* call, char operand)
{
  for (const char* p = call; *p; ++p) if (*p == operand && (p == call || !std::isalnum((unsigned char)p[-1])) && !std::isalnum((unsigned char)p[1])) return true;
  return false;
}
template <class T, size_t R, size_t C> struct Reg
{
  template <class F> void operator()(const char* name, F f)
  {
    auto& AV = Args<T, R, C>::v;
    groups.emplace_back();
    for (size_t a = 0; a < AV.size(); ++a)
    {
      if (Args<T, R, C>::use[a] && !names(name, Args<T, R, C>::use[a])) continue;
      Call c; c.op = name; c.shape = nShapes; c.group = groups.size() - 1; c.arg = a;
      c.run = [a, f](int place, const char*& changed) -> uint64_t {
        tab::In<T, R, C>& x = Args<T, R, C>::obj[place];
        const tab::In<T, R, C>& src = Args<T, R, C>::v[a];
        std::memcpy((void*)&x, (const void*)&src, sizeof x);
        tab::HashSink s; uint64_t h;
        try { f(x, s); h = s.h; }
        catch (const std::overflow_error&) { h = 2; }
        catch (...) { h = 3; }
        if (std::memcmp((const void*)&x, (const void*)&src, sizeof x) != 0) changed = "an argument was changed by the call";
        if (fegetround() != FE_TONEAREST) changed = "the rounding mode was changed by the call";
        return h;
      };
      std::string n = name;
      c.text = [n, a] { return n + " with " + argText(Args<T, R, C>::v[a]); };
      groups.back().push_back(calls.size());
      calls.push_back(std::move(c));
    }
  }
};
template <class T, size_t R, size_t C> void addShape()
{
  auto& v = Args<T, R, C>::v;
  typedef tab::In<T, R, C> I;
  static I base; std::memset((void*)&base, 0, sizeof base);
  tab::others(base, 7);
  // distinct, non-singular enough
  for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < C; ++j) base.A[i][j] = (T)((int)((i * 3 + j * 5) % 7) - 2 + (i == j ? 6 : 0));
  auto put = [&v](const I& x, char use = 0) { v.push_back(x); Args<T, R, C>::use.push_back(use); };
  I x; std::memcpy((void*)&x, (void*)&base, sizeof x);
  auto fresh = [&] { std::memcpy((void*)&x, (void*)&base, sizeof x); };
  const bool fl = std::is_floating_point<T>::value;
  put(base);
  // the ones used in pairs of calls of different operations come first (nSpecial of them)
  fresh(); for (auto& r : x.A) for (auto& e : r) e = (T)0; put(x);               // singular, throws in inv
  fresh(); for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < C; ++j) x.A[i][j] = j + 2 < C ? base.A[i][j] : (T)0;
  if (R > 1) { x.A[0][0] = (T)0; x.A[1][0] = (T)2; x.A[0][C > 1] = (T)(C > 1 ? 3 : 0); } put(x);   // singular, found only after an exchange of rows
  fresh(); if (R > 1) { x.A[0][0] = (T)0; x.A[R - 1][0] = (T)2; } put(x);          // an exchange of rows
  fresh(); for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < C; ++j) x.A[i][j] = (T)(base.A[i][j] + (fl ? 0.1 * (double)(i + 1) : 0)); put(x);   // results are rounded
  fresh(); for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < C; ++j) x.A[i][j] = (T)(base.A[i][j] + (fl ? 0.1 * (double)(i + 1) : 0));
  x.A[R - 1][C - 1] = (T)(fl ? 1e17 : 30.0); put(x);                                // the last element far larger
  fresh(); x.s = (T)0; x.p = 0; put(x);                                          // division by zero throws
  fresh(); x.s = (T)-1; x.p = -1; put(x);
  fresh(); for (auto& r : x.A) for (auto& e : r) e = (T)2; put(x);               // constant (singular)
  fresh(); for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < C; ++j) x.A[i][j] = (T)(i == j); put(x);
  nSpecial = v.size();
  fresh(); for (auto& r : x.A) for (auto& e : r) e = (T)-(T)0; x.B = x.A; put(x);
  fresh(); for (auto& r : x.A) for (auto& e : r) e = (T)-e; put(x);              // same magnitudes
  fresh(); x.A.swap(x.B); put(x);
  fresh(); x.B = x.A; put(x);
  fresh(); if (R > 1) std::swap(x.A[0], x.A[R - 1]); put(x);                          // the same elements in another order
  fresh(); for (size_t i = 0; i < R && R == C; ++i) for (size_t j = 0; j < C && j < R; ++j) x.A[i][j] = base.A[j % R][i % C]; put(x);
  fresh(); x.s = (T)3; x.p = 2; put(x);                                          // scalar and exponent
  fresh(); x.s = (T)(fl ? 0.3 : 7); x.p = 5; put(x);
  fresh(); x.k = 0; x.l = 0; x.i = R - 1; x.j = C - 1; put(x);                     // indices
  fresh(); x.k = R / 2; x.l = C / 2; x.eps = 5.0f; put(x);
  fresh(); x.K[0][0] += (T)1; put(x, 'K'); fresh(); x.K[2][1] -= (T)2; put(x, 'K');                // kernel
  fresh(); for (auto& r : x.K) r.fill(T(0)); put(x, 'K'); x.K[1][1] = (T)1; put(x, 'K'); x.K[1][1] = (T)0; x.K[0][2] = (T)3; put(x, 'K');
  fresh(); for (auto& r : x.K) r.fill(T(1)); put(x, 'K'); x.K[1] = {{T(2), T(2), T(2)}}; put(x, 'K'); x.K[1] = {{T(0), T(0), T(0)}}; put(x, 'K');   // separable
  fresh(); for (size_t i = 0; i < 3; ++i) for (size_t j = 0; j < i; ++j) x.K[i][j] = x.K[j][i]; put(x, 'K');                            // symmetric
  for (size_t q = 0; q < 9; ++q) { fresh(); x.K[q / 3][q % 3] = (T)0; put(x, 'K'); }
  fresh(); for (auto& r : x.B) r.fill(T(0)); put(x, 'B'); fresh(); for (auto& r : x.B) r.fill(T(1)); put(x, 'B');                        // second operands
  fresh(); for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < C; ++j) x.B[i][j] = (T)(i == j); put(x, 'B'); fresh(); for (auto& r : x.B) for (auto& e : r) e = (T)-e; put(x, 'B');
  fresh(); for (auto& r : x.D) r.fill(T(0)); put(x, 'D'); fresh(); for (auto& r : x.D) r.fill(T(1)); put(x, 'D');
  fresh(); for (size_t i = 0; i < C; ++i) for (size_t j = 0; j < R; ++j) x.D[i][j] = (T)(i == j); put(x, 'D'); fresh(); for (auto& r : x.D) for (auto& e : r) e = (T)-e; put(x, 'D');
  fresh(); x.D[C - 1][R - 1] += (T)2; put(x, 'D'); fresh(); x.D[0][0] += (T)2; put(x, 'D');
  fresh(); for (auto& r : x.H) r.fill(T(0)); put(x, 'H'); fresh(); x.H[R - 1][C] += (T)2; put(x, 'H'); fresh(); for (auto& r : x.V) r.fill(T(0)); put(x, 'V'); fresh(); x.V[R][C - 1] += (T)2; put(x, 'V');
  for (int q = 0; q < 3; ++q) { fresh(); x.s = (T)(q == 0 ? 1 : q == 1 ? -2 : 100); put(x, 's'); }                                     // scalars
  for (size_t q = R * C; q-- > (R * C <= 25 ? 0 : R * C - 4);) { fresh(); x.A[q / C][q % C] += (T)(q % 2 ? 1 : -2); put(x); }       // one element of A, the last first
  if (R * C > 25) for (size_t q : {R * C / 2, C + 1, (R - 1) * C, C / 2}) { fresh(); x.A[q / C][q % C] += (T)1; put(x); }
  if (R * C <= 9) for (size_t q = R * C; q-- > 0;) { fresh(); x.B[q / C][q % C] += (T)3; put(x, 'B'); }          // one element of B
  Reg<T, R, C> r;
  tab::allOps<T, R, C>(r);
  ++nShapes;
}

// ---------------------------------------------------------------- histories
static std::deque<std::pair<size_t, int>> recent;
static uint64_t made = 0;
static std::string historyText()
{
  std::string s = std::to_string(made) + " calls so far, the last of them:\n";
  for (auto& p : recent) s += "  object " + std::to_string(p.second) + ": " + calls[p.first].text() + "\n";
  return s;
}
static inline void step(size_t c, int place)
{
  const char* changed = nullptr;
  recent.push_back({c, place}); if (recent.size() > 6) recent.pop_front();
  ++made; call();
  uint64_t h = calls[c].run(place, changed);
  if (changed) emitViolation(historyText(), "arguments as before the call", changed);
  if (h != calls[c].base) emitViolation(historyText(), "the result the last call gives as the first call of a process", "the result depends on the calls before");
  ++g().validated;
}
// the result of every call as the first call of a fresh process
static void baselines()
{
  uint64_t* shared = (uint64_t*)mmap(nullptr, 16, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
  for (size_t k = 0; k < calls.size(); ++k)
  {
    shared[0] = shared[1] = 0;
    pid_t p = fork();
    if (p == 0)
    {
      recent = {{k, 0}}; made = 1;
      const char* changed = nullptr; uint64_t h = calls[k].run(0, changed);
      if (changed) emitViolation(historyText(), "arguments as before the call", changed);
      shared[0] = h; shared[1] = 1; _exit(0);
    }
    int st = 0; waitpid(p, &st, 0); call();
    if (!WIFEXITED(st) || WEXITSTATUS(st) != 0 || !shared[1]) { if (WIFEXITED(st) && WEXITSTATUS(st) == 3) _exit(3); recent = {{k, 0}}; made = 1; emitViolation(historyText(), "the call returns or throws", "the process ended during the call"); }
    calls[k].base = shared[0];
    outcome(shared[0]);
  }
  g().modes["first calls in a fresh process"] += calls.size();
}
static void inChild(const std::function<void()>& f)
{
  pid_t p = fork();
  if (p == 0) { made = 0; recent.clear(); f(); _exit(0); }
  int st = 0; waitpid(p, &st, 0);
  if (WIFEXITED(st) && WEXITSTATUS(st) == 0) return;
  if (WIFEXITED(st)) _exit(WEXITSTATUS(st));     // the violation is written already
  emitViolation("a process exploring histories ended by signal " + std::to_string(WTERMSIG(st)), "all calls return", "");
}
#ifdef VMC_MIXED
static const bool mixed = true;
#else
static const bool mixed = false;
#endif
int main(int argc, char** argv)
{
  init("C18", argc, argv);
  #ifdef VMC_MIXED
  // several element types in one process
  addShape<float, 3, 3>(); addShape<double, 3, 3>(); addShape<int, 3, 3>();
  const size_t squareCalls = calls.size();
  addShape<float, 4, 4>(); addShape<double, 4, 4>(); addShape<long long, 3, 3>(); addShape<float, 2, 2>(); addShape<double, 2, 2>();
#else
  addShape<T, 2, 2>(); addShape<T, 3, 3>(); addShape<T, 4, 4>();
  const size_t squareCalls = calls.size();
  addShape<T, 1, 1>(); addShape<T, 2, 3>(); addShape<T, 3, 2>(); addShape<T, 1, 4>(); addShape<T, 4, 1>(); addShape<T, 5, 5>(); addShape<T, 3, 4>(); addShape<T, 9, 9>(); addShape<T, 2, 17>();
#endif
  Unit u("a history of calls");
  u.operands.push_back([] { return historyText(); });
  baselines();
  std::vector<size_t> firsts;            // one call per operation and shape, two for the square ones
  for (size_t gi = 0; gi < groups.size(); ++gi) { firsts.push_back(groups[gi][0]); if (groups[gi][0] < squareCalls) for (size_t k = 1; k < 4; ++k) firsts.push_back(groups[gi][k]); }

  // all triples of argument sets of one operation, in one object or two
  uint64_t n3 = 0;
  for (size_t gi = 0; gi < groups.size(); ++gi)
  {
    if (!mine()) continue;
    auto& G = groups[gi];
    const size_t lim = g().thorough ? G.size() : std::min<size_t>(G.size(), 26);
    for (size_t a = 0; a < G.size(); ++a) for (size_t b = 0; b < G.size(); ++b)
    {
      step(G[a], 0); step(G[b], 0); step(G[a], 1); ++n3;
      for (size_t c = 0; a < lim && b < lim && c < lim; ++c) { step(G[a], 0); step(G[b], 0); step(G[c], 0); ++n3; }
    }
  }
  g().states += n3; g().modes["argument triples of one operation"] += n3;

  // all ordered pairs of calls of all operations and shapes, contents of the objects carried over
  uint64_t n2 = 0;
  std::vector<size_t> some;
  for (auto& G : groups) for (size_t k = 0; k < G.size(); ++k) if (g().thorough ? k < nSpecial || k % 3 == 0 : k < nSpecial && (calls[G[k]].shape <= 2 || k < 4)) some.push_back(G[k]);
  for (size_t a = 0; a < some.size(); ++a)
  {
    if (!mine()) continue;
    for (size_t b = 0; b < some.size(); ++b) { step(some[a], 0); step(some[b], 0); ++n2; }
  }
  g().states += n2; g().modes["pairs of calls"] += n2;

  // pairs that are the first two calls of a process
  uint64_t nf = 0;
  for (size_t a = 0; a < firsts.size(); ++a)
  {
    if (calls[firsts[a]].shape > 2) continue;
    if (!mine()) continue;
    for (size_t b = 0; b < firsts.size(); ++b)
      if (calls[firsts[b]].shape == calls[firsts[a]].shape || g().thorough || (mixed && a % 4 == 0 && b % 4 == 0)) { inChild([&] { step(firsts[a], 0); step(firsts[b], 0); step(firsts[a], 1); }); ++nf; g().transitions += 3; g().validated += 3; }
  }
  g().states += nf; g().modes["first calls of a fresh process, three deep"] += nf;

  // long repetitions of one call, then another argument of the same operation
  uint64_t nr = 0;
  for (auto& G : groups)
  {
    if (!mine()) continue;
    const int reps = calls[G[0]].shape <= 1 ? 70000 : 3000;
    step(G[1], 0); for (int k = 0; k < reps; ++k) step(G[0], 0); step(G[1], 0); ++nr;
  }
  g().states += nr; g().modes["repetitions (70000 or 3000 calls)"] += nr;
  // one call 300 times, then every other argument of the operation in turn
  uint64_t nv = 0;
  for (auto& G : groups)
  {
    if (!mine()) continue;
    for (size_t b = 1; b < G.size(); ++b) { for (int k = 0; k < (g().thorough ? 1100 : 300); ++k) step(G[0], 0); step(G[b], 0); ++nv; }
  }
  g().states += nv; g().modes["one call 300 times, then another argument"] += nv;
  u.cases = 7;
  if (g().samples.empty()) g().samples.push_back(historyText());
  return finish();
}
#else
// ---------------------------------------------------------------- a register machine
// Two 2x2 registers with elements -2..2 (results are reduced modulo 5). Every state reachable
// from the zero state is expanded with every command, each of which runs the real operation
// on the registers themselves (so aliasing and assignment to an operand are part of it).
typedef Mat<T, 2, 2> M;
static M A, B;
static inline int red(long long x) { x %= 5; if (x > 2) x -= 5; if (x < -2) x += 5; return (int)x; }
struct RM { long long e[2][2]; };
static RM ra, rb;
static RM rmul(const RM& x, const RM& y) { RM z; for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) z.e[i][j] = x.e[i][0] * y.e[0][j] + x.e[i][1] * y.e[1][j]; return z; }
template <class F> static RM rmap(const RM& x, const RM& y, F f) { RM z; for (int i = 0; i < 2; ++i) for (int j = 0; j < 2; ++j) z.e[i][j] = f(x.e[i][j], y.e[i][j]); return z; }
static RM rtrans(const RM& x) { return {{{x.e[0][0], x.e[1][0]}, {x.e[0][1], x.e[1][1]}}}; }
static RM rconst(long long a, long long b, long long c, long long d) { return {{{a, b}, {c, d}}}; }
static long long rdet(const RM& x) { return x.e[0][0] * x.e[1][1] - x.e[0][1] * x.e[1][0]; }

struct Cmd { const char* text; void (*real)(); void (*ref)(); };
namespace o = tab::ops;
#define LL long long
static const Cmd cmds[] = {
  {"A = A + B", [] { A = o::add(A, B); }, [] { ra = rmap(ra, rb, [](LL x, LL y) { return x + y; }); }},
  {"B = A + B", [] { B = o::add(A, B); }, [] { rb = rmap(ra, rb, [](LL x, LL y) { return x + y; }); }},
  {"A = A - B", [] { A = o::sub(A, B); }, [] { ra = rmap(ra, rb, [](LL x, LL y) { return x - y; }); }},
  {"B = A - B", [] { B = o::sub(A, B); }, [] { rb = rmap(ra, rb, [](LL x, LL y) { return x - y; }); }},
  {"A = A * B", [] { A = o::mul(A, B); }, [] { ra = rmul(ra, rb); }},
  {"B = A * B", [] { B = o::mul(A, B); }, [] { rb = rmul(ra, rb); }},
  {"A = A * A", [] { A = o::mul(A, A); }, [] { ra = rmul(ra, ra); }},
  {"A = mult(B, A)", [] { A = mlib::mult(B, A); }, [] { ra = rmul(rb, ra); }},
  {"A = strassen(A, B)", [] { A = mlib::strassen(A, B); }, [] { ra = rmul(ra, rb); }},
  {"B = strassen(A, B)", [] { B = mlib::strassen(A, B); }, [] { rb = rmul(ra, rb); }},
  {"A = trans(A)", [] { A = mlib::trans(A); }, [] { ra = rtrans(ra); }},
  {"B = trans(A)", [] { B = mlib::trans(A); }, [] { rb = rtrans(ra); }},
  {"swap_rows(A, 0, 1)", [] { mlib::swap_rows(A, 0, 1); }, [] { std::swap(ra.e[0], ra.e[1]); }},
  {"swap_cols(B, 1, 0)", [] { mlib::swap_cols(B, 1, 0); }, [] { std::swap(rb.e[0][0], rb.e[0][1]); std::swap(rb.e[1][0], rb.e[1][1]); }},
  {"A = A++", [] { A = o::inc(A); }, [] { ra = rmap(ra, ra, [](LL x, LL) { return x + 1; }); }},
  {"B--", [] { B = o::dec(B); }, [] { rb = rmap(rb, rb, [](LL x, LL) { return x - 1; }); }},
  {"A = A * 2", [] { T two = 2; A = o::mul(A, two); }, [] { ra = rmap(ra, ra, [](LL x, LL) { return 2 * x; }); }},
  {"B = 1 + B", [] { T one = 1; B = o::add(one, B); }, [] { rb = rmap(rb, rb, [](LL x, LL) { return 1 + x; }); }},
  {"A = pow(A, 2)", [] { A = mlib::pow(A, 2); }, [] { ra = rmul(ra, ra); }},
  {"A = pow(B, 3)", [] { A = mlib::pow(B, 3); }, [] { ra = rmul(rb, rmul(rb, rb)); }},
  {"B = pow(B, 0)", [] { B = mlib::pow(B, 0); }, [] { rb = rconst(1, 0, 0, 1); }},
  {"A = abs(A)", [] { A = mlib::abs(A); }, [] { ra = rmap(ra, ra, [](LL x, LL) { return x < 0 ? -x : x; }); }},
  {"A = fill(det(B))", [] { A = mlib::fill<T, 2, 2>(mlib::det(B)); }, [] { LL q = rdet(rb); ra = rconst(q, q, q, q); }},
  {"B[0][1] = det(A)", [] { B[0][1] = mlib::det(A); }, [] { rb.e[0][1] = rdet(ra); }},
  {"A[1][0] = median(B)*2", [] { A[1][0] = (T)(mlib::median(A) * 0 + mlib::median(B) * 2); },
    [] { LL v[4] = {rb.e[0][0], rb.e[0][1], rb.e[1][0], rb.e[1][1]}; std::sort(v, v + 4); LL s = v[1] + v[2]; ra.e[1][0] = std::is_integral<T>::value ? (s / 2) * 2 : s; }},
  {"A = eye()", [] { A = mlib::eye<T, 2>(); }, [] { ra = rconst(1, 0, 0, 1); }},
  {"B = conv2(B, kernel of 1s)", [] { const Mat<T, 3, 3> K = {{{{1, 1, 1}}, {{1, 1, 1}}, {{1, 1, 1}}}}; B = mlib::conv2(B, K); }, [] { LL q = rb.e[0][0] + rb.e[0][1] + rb.e[1][0] + rb.e[1][1]; rb = rconst(q, q, q, q); }},
  {"B = adjugate from getminor(A)", [] { for (size_t i = 0; i < 2; ++i) for (size_t j = 0; j < 2; ++j) B[j][i] = (T)(((i + j) % 2 ? -1 : 1) * mlib::getminor(A, i, j)[0][0]); },
    [] { rb = rconst(ra.e[1][1], -ra.e[0][1], -ra.e[1][0], ra.e[0][0]); }},
  {"B = halves of concatenate(A, B)", [] { auto p = mlib::concatenate(A, B); B = {{p.first[3], p.first[2]}}; }, [] { rb = rconst(rb.e[1][0], rb.e[1][1], rb.e[0][0], rb.e[0][1]); }},
};
static const size_t nCmds = sizeof cmds / sizeof cmds[0];
static uint32_t code() { uint32_t c = 0; for (M* m : {&A, &B}) for (auto& r : *m) for (auto& x : r) c = c * 5 + (uint32_t)((int)x + 2); return c; }
static void decode(uint32_t c) { for (RM* m : {&rb, &ra}) for (int i = 1; i >= 0; --i) for (int j = 1; j >= 0; --j) { m->e[i][j] = (LL)(c % 5) - 2; c /= 5; } }
int main(int argc, char** argv)
{
  init("C18", argc, argv);
  static const char* last = "";
  Unit u("one command of the register machine"); u.in("A", A).in("B", B);
  u.operands.push_back([] { return std::string(last); });
  std::vector<uint8_t> seen(390625, 0); std::deque<uint32_t> q;
  std::memset(&ra, 0, sizeof ra); std::memset(&rb, 0, sizeof rb);
  for (auto& r : A) r.fill(T(0)); for (auto& r : B) r.fill(T(0));
  q.push_back(code()); seen[q.front()] = 1;
  while (!q.empty())
  {
    uint32_t s = g().thorough && (g().states & 1) ? q.back() : q.front(); if (s == q.front()) q.pop_front(); else q.pop_back();
    ++g().states; ++u.cases;
    for (size_t k = 0; k < nCmds; ++k)
    {
      decode(s);
      for (size_t i = 0; i < 2; ++i) for (size_t j = 0; j < 2; ++j) { A[i][j] = (T)ra.e[i][j]; B[i][j] = (T)rb.e[i][j]; }
      last = cmds[k].text; call();
      cmds[k].real(); cmds[k].ref();
      for (size_t i = 0; i < 2; ++i) for (size_t j = 0; j < 2; ++j)
        if (!(A[i][j] == (T)ra.e[i][j]) || !(B[i][j] == (T)rb.e[i][j]))
        {
          std::string got = "A=" + lit(A) + " B=" + lit(B);
          for (size_t x = 0; x < 2; ++x) for (size_t y = 0; y < 2; ++y) { A[x][y] = (T)ra.e[x][y]; B[x][y] = (T)rb.e[x][y]; }
          std::string want = "A=" + lit(A) + " B=" + lit(B);
          decode(s); for (size_t x = 0; x < 2; ++x) for (size_t y = 0; y < 2; ++y) { A[x][y] = (T)ra.e[x][y]; B[x][y] = (T)rb.e[x][y]; }
          emitViolation(got, want, cmds[k].text);
        }
      ++g().validated;
      for (M* m : {&A, &B}) for (auto& r : *m) for (auto& x : r) x = (T)red((LL)x);
      uint32_t n = code();
      if (!seen[n]) { seen[n] = 1; q.push_back(n); }
    }
  }
  g().modes["register machine states"] += g().states;
  g().samples.push_back("register machine: " + std::to_string(g().states) + " reachable states, each expanded with " + std::to_string(nCmds) + " commands");
  return finish();
}
#endif
