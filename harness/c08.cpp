// C08: powers. -DVMC_T=type -DVMC_PART=0
#include "ref.hpp"
using namespace vmc;
typedef VMC_T T;
constexpr bool kInt = std::is_integral<T>::value;

template <size_t N> struct LD { long double a[N * N]; };
template <size_t N> void mul(const LD<N>& x, const LD<N>& y, LD<N>& z)
{
  LD<N> t;
  for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) { long double s = 0; for (size_t k = 0; k < N; ++k) s += x.a[i * N + k] * y.a[k * N + j]; t.a[i * N + j] = s; }
  z = t;
}
template <size_t N> LD<N> identity() { LD<N> r; for (size_t i = 0; i < N * N; ++i) r.a[i] = i / N == i % N; return r; }
template <size_t N> long double top(const LD<N>& x) { long double m = 0; for (auto v : x.a) m = std::max(m, std::fabs(v)); return m; }
inline long double exactLimit() { return kInt ? std::min((long double)std::numeric_limits<T>::max(), 9.2e18L) : 1 / epsOf<T>(); }

template <size_t N, class P> void judge(const Mat<T, N, N>& A, P p, const LD<N>& W, const LD<N>& bound, bool exact, long double q)
{
  call();
  const Mat<T, N, N> keep = A;
  Mat<T, N, N> X = mlib::pow(A, p);
  for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j)
  {
    long double w = W.a[i * N + j];
    if (exact ? !((long double)X[i][j] == w) : !within((long double)X[i][j] - w, 8 * (N + 2) * q * epsOf<T>() * bound.a[i * N + j] + (kInt ? 0 : 16 * N * (long double)std::numeric_limits<T>::min())))
      fail(X, std::to_string(w), "exponent " + std::to_string((long long)p) + ", element (" + std::to_string(i) + "," + std::to_string(j) + ")");
  }
  if (!same(A, keep)) fail(A, keep, "the argument was changed");
  agreed(X);
}
template <class P> struct PName; 
#define PN(x) template <> struct PName<x> { static const char* s() { return #x; } };
PN(int) PN(long) PN(short) PN(unsigned) PN(unsigned long) PN(long long) PN(signed char) PN(unsigned char) PN(unsigned short)

// all exponents lo..hi for one matrix, each compared with the running product
template <size_t N, class P> void sweep(Unit& u, const Mat<T, N, N>& A, int lo, int hi)
{
  LD<N> a, ab, w = identity<N>(), b = w;
  bool whole = true;
  for (size_t i = 0; i < N * N; ++i) { a.a[i] = (long double)A[i / N][i % N]; ab.a[i] = std::fabs(a.a[i]); whole = whole && a.a[i] == std::floor(a.a[i]); }
  long double peak = 1;
  for (int p = 0; p <= hi; ++p)
  {
    if (p) { mul(w, a, w); mul(b, ab, b); peak = std::max(peak, top(b) * (N > 1 ? 1 : 1)); }
    if (whole ? peak * N >= exactLimit() : peak > 1e30L) { if (kInt || peak > 1e30L) break; }
    ++u.cases; ++g().states;
    judge<N, P>(A, (P)p, w, b, whole && peak * N < exactLimit(), p + 1);
  }
  if (!std::is_signed<P>::value || lo >= 0) return;
  // negative exponents: n <= 3 from the cofactors; larger ones are driven by unimodularBand()
  if (N > 3) return;
  long double d = detExact<long double>(a.a, N);
  if (d == 0 || !whole || (kInt && std::fabs(d) != 1)) return;
  const bool dyadic = std::fabs(d) == 1 || std::fabs(d) == 2 || std::fabs(d) == 4;
  LD<N> x, xb;
  for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) { long double m = minorExact<long double>(a.a, N, i, j); x.a[j * N + i] = ((i + j) & 1 ? -m : m) / d; }
  for (size_t i = 0; i < N * N; ++i) xb.a[i] = std::fabs(x.a[i]);
  w = identity<N>(); b = w; peak = 1;
  long double den = 1;
  for (int p = 1; p <= -lo; ++p)
  {
    mul(w, x, w); mul(b, xb, b); den *= std::fabs(d); peak = std::max(peak, top(b));
    const bool exact = dyadic && peak * den * N < exactLimit();
    if (kInt && !exact) break;
    ++u.cases; ++g().states;
    judge<N, P>(A, (P)-p, w, b, exact, 2 * p + 2);
  }
}
template <size_t N, class P> void space(std::vector<T> alpha, std::vector<std::vector<T>> bases, double full, double dev2, int lo, int hi, bool devs = true)
{
  if (!mine()) return;
  static Mat<T, N, N> A;
  Unit u("mlib::pow(A, p)"); u.in("A", A);
  Cells<T> c; c.add(A);
  Space<T> sp; sp.alpha = alpha; sp.bases = bases; sp.fullLimit = full; sp.dev2Limit = dev2; sp.dev1Limit = devs ? 1e18 : 0;
  enumerate<T>(u, c, sp, [&] { sweep<N, P>(u, A, lo, hi); });
}
// matrices whose powers stay small, with large exponents: reference by binary powers
template <size_t N, class P> void large(std::vector<unsigned long long> exps)
{
  if (!mine()) return;
  static Mat<T, N, N> A; static long long pe;
  Unit u("mlib::pow(A, p)"); u.in("A", A).in("p", pe);
  for (int kind = 0; kind < 9; ++kind)
  {
    for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j)
    {
      int x = 0;
      switch (kind)
      {
        case 0: x = i == j; break;                                     // I
        case 1: x = i == j ? -1 : 0; break;                            // -I
        case 2: x = (i + 1) % N == j; break;                           // cycle
        case 3: x = i + j == N - 1; break;                             // exchange
        case 4: x = j == i + 1; break;                                 // nilpotent
        case 5: x = (i + 1) % N == j ? (i ? 1 : -1) : 0; break;        // cycle with a sign: order 2n
        case 6: x = i == j || (i == 0 && j == N - 1); break;           // shear: grows linearly
        case 7: x = i == 0; break;                                     // idempotent
        case 8: x = i == j ? (i % 2 ? -1 : 1) : (i == 0 && j == 2); break;
      }
      A[i][j] = T(x);
    }
    for (unsigned long long e : exps) for (int sign = 0; sign < 2; ++sign)
    {
      if (sign && (!std::is_signed<P>::value || kind == 4 || (kind == 7 && N > 1) || e == 0)) continue;
      if (e > (unsigned long long)std::numeric_limits<P>::max() + sign) continue;          // the smallest exponent has no positive counterpart
      if (kind == 6 && (long double)e > exactLimit() / 4) continue;
      if (kind == 8 && N > 2 && (long double)e > exactLimit() / 4) continue;
      // |e| copies of A or of its inverse (all these matrices have exactly computable inverses)
      LD<N> a, w = identity<N>(), b;
      for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) a.a[i * N + j] = (long double)A[i][j];
      if (sign)
      {
        // signed permutation: transpose; shear and kind 8: I + s E has inverse found by solving 2x2 blocks
        LD<N> t;
        for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) t.a[i * N + j] = a.a[j * N + i];
        if (kind == 6 && N > 1) { t = identity<N>(); t.a[N - 1] = -1; }
        if (kind == 6 && N == 1) { t = identity<N>(); }
        if (kind == 8 && N > 2) { for (size_t i = 0; i < N * N; ++i) t.a[i] = i / N == i % N ? (i / N % 2 ? -1 : 1) : 0; t.a[2] = -1; }
        a = t;
      }
      b = a;
      for (unsigned long long r = e; r; r >>= 1) { if (r & 1) mul(w, b, w); if (r > 1) mul(b, b, b); }
      pe = (long long)(sign ? 0 - e : e);
      ++u.cases; ++g().states;
      judge<N, P>(A, (P)pe, w, w, true, 1);
    }
  }
  g().modes["bounded matrices with large exponents"] += u.cases;
}
template <size_t N> void special()
{
  if (!mine()) return;
  // p = 0 and p = 1
  static Mat<T, N, N> A;
  Unit u("mlib::pow(A, p)"); u.in("A", A);
  Cells<T> c; c.add(A);
  Space<T> sp; sp.alpha = wideAlphabet<T>(); sp.bases = smallBases<T>(); sp.fullLimit = 1e4; sp.dev2Limit = 1e5;
  enumerate<T>(u, c, sp, [&] {
    call(2);
    Mat<T, N, N> z = mlib::pow(A, 0), o = mlib::pow(A, 1);
    for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) if (!(z[i][j] == T(i == j))) fail(z, "identity", "p = 0");
    // a product with the identity on the way loses infinities, NaNs and the sign of zero, nothing else
    bool finite = true; for (auto& r : A) for (auto& x : r) finite = finite && std::isfinite((long double)x);
    if (finite && !eqv(o, A)) fail(o, A, "p = 1");
    agreed(o);
  });
}
std::vector<std::vector<T>> times(std::vector<std::vector<T>> b, long double f, long double shift = 0)
{ for (auto& v : b) for (auto& x : v) x = (T)((long double)x * f + shift); return b; }

int main(int argc, char** argv)
{
  init("C08", argc, argv);
  const bool th = g().thorough;
  space<1, int>(ints<T>(-9, 9), {}, 1e6, 0, -40, 70);
  space<1, long>(ints<T>(-3, 3), {}, 1e6, 0, -9, 70); space<1, unsigned long>(ints<T>(-3, 3), {}, 1e6, 0, 0, 70);
  space<2, int>(ints<T>(-3, 3), {}, 1e6, 0, -20, 66);
  space<2, short>(ints<T>(-1, 1), {}, 1e6, 0, -40, 66); space<2, long>(ints<T>(-1, 1), {}, 1e6, 0, -40, 66); space<2, long long>(ints<T>(-1, 1), {}, 1e6, 0, -40, 66);
  space<2, unsigned>(ints<T>(-1, 1), {}, 1e6, 0, 0, 66); space<2, unsigned long>(ints<T>(-1, 1), {}, 1e6, 0, 0, 66); space<2, signed char>(ints<T>(-1, 1), {}, 1e6, 0, -40, 66); space<2, unsigned char>(ints<T>(-1, 1), {}, 1e6, 0, 0, 66);
  space<3, int>(ints<T>(-1, 1), {}, 1e6, 0, -12, 40);
  if (th) space<3, int>(ints<T>(-2, 2), {}, 1e7, 0, -12, 40);
  space<3, int>(ints<T>(-4, 4), squareBases<T>(3), 1, 1e5, -8, 20);
  space<4, int>(ints<T>(-2, 2), squareBases<T>(4), 1, th ? 1e6 : 0, 0, 40);
  space<5, int>(ints<T>(-1, 1), squareBases<T>(5), 1, 0, 0, 40);
  space<6, int>({T(1)}, squareBases<T>(6), 1, 0, 0, 33); space<7, int>({T(1)}, squareBases<T>(7), 1, 0, 0, 17); space<8, int>({T(1)}, squareBases<T>(8), 1, 0, 0, 17);
  space<9, int>({T(1)}, squareBases<T>(9), 1, 0, 0, 17, false); space<10, int>({T(1)}, squareBases<T>(10), 1, 0, 0, 17, false); space<12, int>({T(1)}, squareBases<T>(12), 1, 0, 0, 17, false); space<16, int>({T(1)}, squareBases<T>(16), 1, 0, 0, 17, false);
  if (!kInt)
  {
    space<1, int>({T(0.1), T(-0.7), T(1.5), T(1.01)}, {}, 1e4, 0, 0, 66);
    space<2, int>({T(0.1), T(-0.7), T(1.5), T(0), T(1) / T(3)}, {}, 1e4, 0, 0, 40);
    space<3, int>({T(0.1), T(-0.7), T(1.5), T(0)}, times(squareBases<T>(3), 0.3L, 0.01L), 1, 1e5, 0, 20);
    space<4, int>({T(0.1), T(-0.7)}, times(squareBases<T>(4), 0.3L, 0.01L), 1, 0, 0, 20); space<5, int>({T(0.1), T(-0.7)}, times(squareBases<T>(5), 0.3L, 0.01L), 1, 0, 0, 20);
  }
  std::vector<unsigned long long> ex; for (int i = 0; i <= 130; ++i) ex.push_back((unsigned long long)i);
  for (unsigned long long e : {254ULL, 255ULL, 256ULL, 257ULL, 511ULL, 1000ULL, 1023ULL, 1024ULL, 4095ULL, 32767ULL, 32768ULL, 65535ULL, 65536ULL, 65537ULL, 1048577ULL, 2147483646ULL, 2147483647ULL, 2147483648ULL, 4294967295ULL, 4294967297ULL, 1000000000000ULL, 9223372036854775807ULL, 9223372036854775808ULL}) ex.push_back(e);
  large<1, int>(ex); large<2, int>(ex); large<3, int>(ex); large<4, int>(ex); large<5, int>(ex); large<6, int>(ex); large<7, int>(ex); large<8, int>(ex); large<9, int>(ex); large<10, int>(ex);
  large<2, long>(ex); large<3, long long>(ex); large<2, unsigned>(ex); large<3, unsigned long>(ex); large<4, unsigned long>(ex); large<2, short>(ex); large<3, signed char>(ex); large<3, unsigned char>(ex); large<4, unsigned short>(ex); large<4, long>(ex); large<5, long long>(ex);
  forNs(range<11, 24>(), [&](auto n) { large<decltype(n)::value, int>({0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 15, 16, 17, 24, 31, 32, 33, 100, 2147483647ULL}); });
  special<1>(); special<2>(); special<3>(); special<4>(); special<5>(); special<6>(); special<8>();
  return finish();
}
