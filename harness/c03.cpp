// C03: division by zero raises std::overflow_error, and only division by zero does.
// -DVMC_T=type -DVMC_PART=0 division, 1 inversion and negative powers, 2 histories
#include "ref.hpp"
using namespace vmc;
typedef VMC_T T;
namespace ops { using mlib::operator/; template <class M, class S> M divMS(const M& A, S s) { return A / s; } }

inline void expectEnding(int got, int want, const std::string& note = "")
{
  if (got != want) emitViolation(endingText(got), endingText(want), note);
  agreedQuiet();
}

#if VMC_PART == 0
template <class X> typename std::enable_if<std::is_floating_point<X>::value, std::vector<X>>::type zeros() { return {X(0), -X(0)}; }
template <class X> typename std::enable_if<!std::is_floating_point<X>::value, std::vector<X>>::type zeros() { return {X(0)}; }
template <class X> bool minusOne(const X& s) { return std::is_integral<X>::value && std::is_signed<X>::value && s == X(-1); }
template <size_t R, size_t C> void shape()
{
  if (!mine()) return;
  static Mat<T, R, C> A; static T s; static volatile unsigned char sink;
  for (int form = 0; form < 2; ++form)
  {
    Unit u(form ? "mlib::div(A, s)" : "A / s"); u.in("A", A).in("s", s);
    std::vector<T> scalars = zeros<T>();
    const size_t nz = scalars.size();
    for (auto& x : wideAlphabet<T>()) if (!(x == T(0))) scalars.push_back(x);
    for (size_t k = 0; k < scalars.size(); ++k)
    {
      s = scalars[k];
      Cells<T> c; c.add(A);
      Space<T> sp = wideSpace<T>(R * C);
      sp.fullLimit = 3000; sp.dev2Limit = 0; sp.dev1Limit = k < nz ? 1e18 : 2000;
      if (R * C > 40 && k >= nz) sp.alpha.resize(2);
      if (R * C > 5000) sp.dev1Limit = 0;
      if (minusOne(s)) { std::vector<T> a; for (auto& x : sp.alpha) if (x != std::numeric_limits<T>::min()) a.push_back(x); sp.alpha = a; }
      enumerate<T>(u, c, sp, [&] {
        int e = attempt([&] { Mat<T, R, C> r = form ? mlib::div(A, s) : ops::divMS(A, s); sink = reinterpret_cast<unsigned char*>(&r)[0]; });
        expectEnding(e, k < nz ? Overflow : Returned, "divisor " + lit(s));
        outcome(mix(e, hv(s)));
      });
    }
  }
}
#endif

#if VMC_PART == 1
static volatile unsigned char sink;
template <class M> void use(const M& r) { sink = reinterpret_cast<const unsigned char*>(&r)[0]; }

// the library's own determinant decides which ending is due; where the elimination is exact (exactDet)
// the true determinant has to agree with it
template <size_t N> void invCase(const Mat<T, N, N>& A, bool exactDet)
{
  T d = mlib::det(A); call();
  if (exactDet || std::is_integral<T>::value)
  {
    long long a[N * N]; toInts<T, N>(A, a);
    long long w = detExact<long long>(a, N);
    if ((w == 0) != (d == T(0))) fail(d, std::to_string(w), "determinant");
  }
  int e = attempt([&] { use(mlib::inv(A)); });
  expectEnding(e, d == T(0) ? Overflow : Returned, "inverse, determinant " + lit(d));
  outcome(mix(e, hv(d)));
}
template <size_t N> void powCase(const Mat<T, N, N>& A, int p)
{
  bool singular = mlib::det(A) == T(0); call();
  int e = attempt([&] { use(mlib::pow(A, p)); });
  expectEnding(e, singular && p < 0 ? Overflow : Returned, "power " + std::to_string(p));
}
template <size_t N> void space(const char* what, std::vector<T> alpha, std::vector<std::vector<T>> bases, double full, double dev2, bool exactDet, bool powers)
{
  static Mat<T, N, N> A;
  Unit u("mlib::inv(A)"); u.in("A", A);
  Cells<T> c; c.add(A);
  Space<T> sp; sp.alpha = alpha; sp.bases = bases; sp.fullLimit = full; sp.dev2Limit = dev2; sp.shard = true;
  enumerate<T>(u, c, sp, [&] { invCase<N>(A, exactDet); });
  if (!powers || g().worker) return;
  for (int p : {-1, -2, -3, -4, -7, -8, 0, 1, 2, 5})
  {
    Unit v("mlib::pow(A, " + std::to_string(p) + ")"); v.in("A", A);
    sp.dev2Limit = 0; sp.shard = false; if (sp.fullLimit > 20000) sp.fullLimit = 0; if (sp.bases.empty()) sp.bases = squareBases<T>(N);
    enumerate<T>(v, c, sp, [&] { powCase<N>(A, p); });
  }
  (void)what;
}
// singular because of a zero or repeated row or column, at every position
template <size_t N> void structural()
{
  if (!mine()) return;
  static Mat<T, N, N> A;
  Unit u("mlib::inv(A)"); u.in("A", A);
  for (auto& b : squareBases<T>(N))
    for (size_t line = 0; line < N; ++line) for (int col = 0; col < 2; ++col)
      for (int sc = 0; sc < (std::is_floating_point<T>::value ? 5 : 1); ++sc)
      {
        const long double scale[] = {1, 1.0L / 1024, 1024, 0.1L, 1e-5L};
        for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) A[i][j] = (col ? j : i) == line ? T(0) : T((long double)b[i * N + j] * scale[sc]);
        ++u.cases; ++g().states;
        T d = mlib::det(A); call();
        if (!(d == T(0))) fail(d, T(0), "determinant with a line of zeros");
        expectEnding(attempt([&] { use(mlib::inv(A)); }), Overflow, "a line of zeros");
        for (int p : {-1, -2, -3}) expectEnding(attempt([&] { use(mlib::pow(A, p)); }), Overflow, "a line of zeros, power " + std::to_string(p));
      }
  g().modes["every zero line of the base matrices"] += u.cases;
}
// invertible, but the determinant is tiny (or huge): never raises
template <size_t N> void tiny()
{
  if (!mine() || !std::is_floating_point<T>::value) return;
  static Mat<T, N, N> A;
  Unit u("mlib::inv(A)"); u.in("A", A);
  const int range = sizeof(T) == 4 ? 116 : 980;
  for (auto& b : squareBases<T>(N))
  {
    long long a[N * N];
    for (size_t i = 0; i < N * N; ++i) a[i] = (long long)b[i];
    if (detExact<long long>(a, N) == 0) continue;
    for (int e = -range; e <= range; e += (g().thorough ? 1 : 3))
    {
      if (std::abs(e) * (int)std::max<size_t>(N, 3) > range) continue;
      for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) A[i][j] = std::ldexp(b[i * N + j], e);
      ++u.cases; ++g().states;
      if (mlib::det(A) == T(0)) fail("determinant 0", "non-zero", "scaled by a power of two");
      expectEnding(attempt([&] { use(mlib::inv(A)); }), Returned, "tiny or huge determinant");
      expectEnding(attempt([&] { use(mlib::pow(A, -1)); }), Returned, "tiny or huge determinant");
    }
  }
  g().modes["base matrices scaled by powers of two"] += u.cases;
}
template <size_t N> void sizeN()
{
  structural<N>(); tiny<N>();
  space<N>("bases", ints<T>(-2, 2), squareBases<T>(N), 0, N <= 4 ? 80000 : 0, false, N <= 6);
}
#endif

#if VMC_PART == 2
// all sequences of failing and succeeding calls
namespace hist {
template <size_t N> Mat<T, N, N> ok() { Mat<T, N, N> A{}; for (size_t i = 0; i < N; ++i) { A[i][i] = T(1); if (i) A[i][0] = T((int)i); if (i + 1 < N) A[i][i + 1] = T(1); } if (N > 1) A[1][0] = T(2); return A; }
template <size_t N> Mat<T, N, N> sing() { Mat<T, N, N> A = ok<N>(); for (size_t i = 0; i < N; ++i) A[N - 1][i] = T(0); return A; }
uint64_t runOne(int k)
{
  uint64_t h = 0;
  int e = attempt([&] {
    switch (k)
    {
      case 0: h = hv(ops::divMS(ok<2>(), T(0))); break;
      case 1: h = hv(ops::divMS(ok<2>(), T(2))); break;
      case 2: h = hv(mlib::inv(sing<1>())); break;
      case 3: h = hv(mlib::inv(sing<2>())); break;
      case 4: h = hv(mlib::inv(sing<3>())); break;
      case 5: h = hv(mlib::inv(sing<4>())); break;
      case 6: h = hv(mlib::inv(ok<2>())); break;
      case 7: h = hv(mlib::inv(ok<3>())); break;
      case 8: h = hv(mlib::inv(ok<4>())); break;
      case 9: h = hv(mlib::pow(sing<2>(), -2)); break;
      case 10: h = hv(mlib::pow(ok<2>(), -3)); break;
      case 11: h = hv(mlib::inv(ok<1>())); break;
      case 12: h = hv(mlib::inv(sing<5>())); break;
      case 13: h = hv(mlib::pow(ok<5>(), -1)); break;
      case 14: h = hv(mlib::det(sing<4>())); break;
      case 15: h = hv(ops::divMS(ok<5>(), T(0))); break;
    }
  });
  return mix(e, h);
}
const bool fails[16] = {1, 0, 1, 1, 1, 1, 0, 0, 0, 1, 0, 0, 1, 0, 0, 1};
void all()
{
  uint64_t want[16];
  static std::string seq;
  Unit u("sequence of calls"); u.operands.push_back([] { return "/* " + seq + " */"; });
  for (int k = 0; k < 16; ++k)
  {
    want[k] = runOne(k);
    seq = std::to_string(k);
    int e = attempt([&] { (void)0; });
    (void)e;
  }
  const int depth = g().thorough ? 5 : 4;
  std::vector<int> d(depth, 0);
  for (;;)
  {
    seq.clear();
    ++u.cases; ++g().states;
    for (int k : d)
    {
      seq += std::to_string(k) + " ";
      uint64_t ex = g().exceptions;
      uint64_t h = runOne(k);
      bool threw = g().exceptions != ex;
      if (threw != fails[k]) emitViolation(threw ? "an exception" : "returned", fails[k] ? "std::overflow_error" : "returned", "call " + std::to_string(k) + " of the sequence " + seq);
      if (h != want[k]) emitViolation("another result than as first call", "the same", "sequence " + seq);
      agreedQuiet();
    }
    int i = 0;
    for (; i < depth; ++i) { if (++d[i] < 16) break; d[i] = 0; }
    if (i == depth) break;
  }
  for (int k = 0; k < 16; ++k) outcome(want[k]);
  g().modes["all call sequences of full depth"] += u.cases;
}
}
#endif

int main(int argc, char** argv)
{
  init("C03", argc, argv);
#if VMC_PART == 0
  forNs(Ns<1, 2, 3, 4, 5>(), [](auto r) { forNs(Ns<1, 2, 3, 4, 5>(), [](auto c) { shape<decltype(r)::value, decltype(c)::value>(); }); });
  forNs(Ns<6, 7, 8, 9, 10, 12, 16, 20, 32>(), [](auto n) { shape<decltype(n)::value, decltype(n)::value>(); });
  shape<1, 16>(); shape<16, 1>(); shape<3, 20>(); shape<20, 3>(); shape<1, 64>(); shape<64, 1>(); shape<7, 9>(); shape<40, 40>(); shape<64, 64>(); shape<1, 300>(); shape<300, 1>(); shape<257, 3>(); shape<2, 256>(); shape<257, 257>(); shape<1, 65537>(); shape<65537, 1>();
#elif VMC_PART == 1
  space<1>("all", wideAlphabet<T>(), {}, 1e6, 0, false, true);
  space<2>("all", ints<T>(-4, 4), {}, 1e6, 0, true, true);
  space<3>("all", ints<T>(-1, 1), {}, 1e6, 0, true, true);
  space<4>("all", {T(0), T(1)}, {}, 1e6, 0, true, true);
  if (g().thorough) { space<3>("all", ints<T>(-2, 2), {}, 1e7, 0, true, false); space<4>("all", ints<T>(-1, 1), {}, 1e8, 0, true, false); }
  forNs(Ns<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12>(), [](auto n) { sizeN<decltype(n)::value>(); });
#else
  hist::all();
#endif
  return finish();
}
