// C15: compare and isIdentity. -DVMC_T=type -DVMC_PART=0 compare, 1 isIdentity
#include "alphabet.hpp"
#include <cfloat>
using namespace vmc;
typedef VMC_T T;

#if VMC_PART == 0
// 1 match, 0 no match, -1 undecided (the rounding of a floating point difference decides)
template <class X> typename std::enable_if<std::is_integral<X>::value, int>::type matches(X a, X b, float e)
{
  if (a == b) return 1;
  i128 d = (i128)a - (i128)b; if (d < 0) d = -d;
  return (long double)d <= (long double)e;
}
template <class X> typename std::enable_if<std::is_floating_point<X>::value, int>::type matches(X a, X b, float e)
{
  if (a == b) return 1;
  if (a != a || b != b) return 0;
  volatile X d = a - b;
  if (std::isinf(d)) return std::isinf(e) ? -1 : 0;
  // is the subtraction exact?
  volatile X bb = a - d, t = bb - b, aa = d + b, t2 = a - aa;
  const X ad = d < 0 ? -d : d;
  const bool exact = t == 0 && t2 == 0;
  if (!exact && std::fabs((long double)ad - (long double)e) <= 4 * (long double)std::numeric_limits<X>::epsilon() * (long double)ad) return -1;
  return (long double)ad <= (long double)e;
}
template <size_t R, size_t C> struct S { static Mat<T, R, C> A, B; static float eps; };
template <size_t R, size_t C> Mat<T, R, C> S<R, C>::A; template <size_t R, size_t C> Mat<T, R, C> S<R, C>::B; template <size_t R, size_t C> float S<R, C>::eps;

template <size_t R, size_t C> void judge()
{
  auto& A = S<R, C>::A; auto& B = S<R, C>::B; const float e = S<R, C>::eps;
  int want = 1;
  for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < C; ++j) { int m = matches<T>(A[i][j], B[i][j], e); if (m < 0) { ++g().undefinedSkipped; return; } want &= m; }
  call();
  const Mat<T, R, C> ka = A, kb = B;
  bool got = mlib::compare(A, B, e);
  if (got != (bool)want) fail(std::string(got ? "true" : "false"), std::string(want ? "true" : "false"));
  // the operands exchanged, and one object on both sides
  call(2);
  if (mlib::compare(B, A, e) != (bool)want) fail(std::string(want ? "false" : "true"), std::string(want ? "true" : "false"), "compare(B, A, e)");
  bool self = true; for (auto& r : B) for (auto& x : r) self &= x == x;
  if (mlib::compare(B, B, e) != self) fail(std::string(self ? "false" : "true"), std::string(self ? "true" : "false"), "compare(B, B, e): the same object on both sides");
  if (!same(A, ka) || !same(B, kb)) fail(A, ka, "an argument was changed");
  agreed((int)got);
}
template <class X> typename std::enable_if<std::is_floating_point<X>::value, std::vector<X>>::type deltas(float e)
{
  X x = (X)e, inf = std::numeric_limits<X>::infinity();
  std::vector<X> v = {X(0), x, -x, std::nextafter(x, inf), -std::nextafter(x, inf), std::nextafter(x, X(0)), x / 2, 2 * x, -2 * x, X(1), X(-1), X(1e-30L), std::numeric_limits<X>::denorm_min(), std::numeric_limits<X>::quiet_NaN(), inf, -inf, X(1e10L), (X)std::nextafter(e, HUGE_VALF), (X)-std::nextafter(e, 0.0f)};
  return v;
}
template <class X> typename std::enable_if<std::is_integral<X>::value, std::vector<X>>::type deltas(float e)
{
  std::vector<X> v; X x = (X)std::max(0.0f, std::min(e, (float)std::min<long double>(1000000, std::numeric_limits<X>::max())));
  for (long long d : {0LL, 1LL, -1LL, 2LL, -2LL, 3LL, 10LL, (long long)x, (long long)x + 1, (long long)x - 1, -(long long)x, -(long long)x - 1, 1000LL, 65536LL, 4294967296LL, 16777216LL, 16777217LL, 2147483647LL, -2147483648LL, (long long)std::numeric_limits<X>::max(), (long long)std::numeric_limits<X>::min()}) if (std::is_unsigned<X>::value ? sizeof(X) == 8 || (d >= 0 && d <= (long long)std::numeric_limits<X>::max()) : d >= (long long)std::numeric_limits<X>::min() && d <= (long long)std::numeric_limits<X>::max()) v.push_back((X)d);
  return v;
}
static const float EPS[] = {0.0f, FLT_TRUE_MIN, FLT_MIN, 1e-30f, 1e-10f, 1e-7f, FLT_EPSILON, 1e-6f, 1e-3f, 0.01f, 0.1f, 0.25f, 0.5f, 0.9f, 1.0f, 1.5f, 2.0f, 3.0f, 10.0f, 1e6f, 16777216.0f, 2147483648.0f, 4294967296.0f, 9223372036854775808.0f, 1e30f, -1.0f, INFINITY};

template <class X> typename std::enable_if<!std::is_integral<X>::value, X>::type addTo(X a, X d) { return (X)(a + d); }
template <class X> typename std::enable_if<std::is_integral<X>::value, X>::type addTo(X a, X d)      // saturating
{ typedef std::numeric_limits<X> L; i128 s = (i128)a + (i128)d; return s > (i128)L::max() ? L::max() : s < (i128)L::min() ? L::min() : (X)s; }
template <class X> typename std::enable_if<!std::is_integral<X>::value, X>::type minus(X d) { return X(0) - d; }
template <class X> typename std::enable_if<std::is_integral<X>::value, X>::type minus(X d) { return std::is_signed<X>::value ? d == std::numeric_limits<X>::min() ? std::numeric_limits<X>::max() : (X)-d : d; }

template <size_t R, size_t C> void shape()
{
  if (!mine()) return;
  auto& A = S<R, C>::A; auto& B = S<R, C>::B;
  Unit u("mlib::compare(A, B, e)"); u.in("A", A).in("B", B).in("e", S<R, C>::eps);
  const size_t n = R * C;
  const bool pairs = n <= 6 || g().thorough && n <= 16;
  for (float e : EPS)
  {
    S<R, C>::eps = e;
    const bool large = n > 5000;
    if (large && e != 0.0f && e != 1e-6f && e != 0.5f && e != 3.0f) continue;
    std::vector<T> D = deltas<T>(e);
    if (large) D = {T(0), T(1), T(4)};
    int nb = 0;
    auto bases = distinctBases<T>();
    if (std::is_integral<T>::value) { bases.push_back({std::numeric_limits<T>::min()}); bases.push_back({std::numeric_limits<T>::max(), T(std::numeric_limits<T>::max() - 1)}); }
    for (auto& b : bases)
    {
      ++nb;
      if (large && nb != 1 && nb != 6) continue;
      for (size_t k = 0; k < n; ++k) A[k / C][k % C] = b[k % b.size()];
      // one delta everywhere; deltas of alternating sign
      for (auto& d : D) for (int alt = 0; alt < 2; ++alt)
      {
        for (size_t k = 0; k < n; ++k) B[k / C][k % C] = addTo(A[k / C][k % C], alt && k % 2 ? minus<T>(d) : d);
        ++u.cases; ++g().states; judge<R, C>();
      }
      if (n > 300 && !large && nb % 3) continue;
      B = A;
      for (size_t k = 0; k < n; ++k)
      {
        if (large && k > 2 && k + 3 < n && k % C != 255 && k % C != 256 && k != 65535 && k != 65536 && k / C != 256) continue;
        if (large && n > 10000 && k % 5 && k > 2 && k + 3 < n && k < 65535) continue;
        for (auto& d : D)
        {
          B[k / C][k % C] = addTo(A[k / C][k % C], d);
          ++u.cases; ++g().states; judge<R, C>();
          if (!pairs) continue;
          for (size_t q = k + 1; q < n; ++q) { for (auto& d2 : D) { B[q / C][q % C] = addTo(A[q / C][q % C], d2); ++u.cases; ++g().states; judge<R, C>(); } B[q / C][q % C] = A[q / C][q % C]; }
        }
        B[k / C][k % C] = A[k / C][k % C];
        if (n > 300 && !large && k > 40 && k + 40 < n) k += 16;
      }
    }
  }
  g().modes["every position and boundary of a difference"] += u.cases;
}
void scalars()   // 1x1: all pairs of values, all tolerances
{
  if (!mine()) return;
  auto& A = S<1, 1>::A; auto& B = S<1, 1>::B;
  for (float e : EPS)
  {
    Unit u("mlib::compare(A, B, e)"); u.in("A", A).in("B", B).in("e", S<1, 1>::eps);
    S<1, 1>::eps = e;
    Cells<T> c; c.add(A).add(B);
    Space<T> sp; sp.alpha = wideAlphabet<T>(); for (auto& d : deltas<T>(e)) sp.alpha.push_back(d); sp.fullLimit = 1e6;
    enumerate<T>(u, c, sp, [&] { judge<1, 1>(); });
  }
}
#else
template <size_t N> void ident(std::vector<T> alpha, double full, double dev2, bool devs = true)
{
  if (!mine()) return;
  static Mat<T, N, N> A;
  Unit u("mlib::isIdentity(A)"); u.in("A", A);
  Cells<T> c; c.add(A);
  Space<T> sp; sp.alpha = alpha; sp.fullLimit = full; sp.dev2Limit = dev2; sp.dev1Limit = devs ? 1e18 : 0;
  auto base = [&](std::function<int(int, int)> f) { std::vector<T> v; for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) v.push_back(T(f((int)i, (int)j))); sp.bases.push_back(v); };
  base([](int i, int j) { return i == j; });
  base([](int i, int j) { return i + j == (int)N - 1; });
  base([](int, int) { return 0; });
  base([](int, int) { return 1; });
  base([](int i, int j) { return i == j ? 2 : 0; });
  base([](int i, int j) { return j >= i; });
  base([](int i, int j) { return (i + 1) % (int)N == j; });
  enumerate<T>(u, c, sp, [&] {
    bool want = true;
    for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) want &= A[i][j] == T(i == j);
    call();
    const Mat<T, N, N> keep = A;
    bool got = mlib::isIdentity(A);
    if (got != want) fail(std::string(got ? "true" : "false"), std::string(want ? "true" : "false"));
    if (!same(A, keep)) fail(A, keep, "the argument was changed");
    agreed((int)got);
  });
}
// one wrong element: every place of the first, last and middle rows and columns, the diagonals and the edges of blocks
template <size_t N> void lone()
{
  if (!mine()) return;
  static Mat<T, N, N> A;
  Unit u("mlib::isIdentity(A)"); u.in("A", A);
  for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) A[i][j] = T(i == j);
  auto ask = [&](bool want) { ++u.cases; ++g().states; call(); bool got = mlib::isIdentity(A); if (got != want) fail(std::string(got ? "true" : "false"), std::string(want ? "true" : "false")); agreed((int)got); };
  ask(true);
  auto edge = [](size_t a) { if (a == 0 || a + 1 == N || a == N / 2) return true; for (size_t p : {64, 128, 256}) if (a == p || a + 1 == p) return true; return false; };
  for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j)
  {
    if (!(edge(i) && edge(j)) && i != j && i + j != N - 1 && j + 1 != i && i + 1 != j && !(edge(i) && j % 3 == 0)) continue;
    const T keep = A[i][j];
    A[i][j] = T(!(i == j)); ask(false); A[i][j] = keep;
  }
  g().modes["a single wrong element"] += u.cases;
}
template <class X> typename std::enable_if<std::is_floating_point<X>::value, std::vector<X>>::type nearOnes()
{ typedef std::numeric_limits<X> L; return {X(0), X(1), X(-1), X(2), L::epsilon(), -L::epsilon(), X(1) + L::epsilon(), X(1) - L::epsilon(), L::denorm_min(), L::min(), -X(0), L::quiet_NaN(), L::infinity(), X(0.5), X(1.5), X(0.999), X(1e-6L), X(1e-12L), X(1e-20L), X(256), X(4294967296.0)}; }
template <class X> typename std::enable_if<std::is_integral<X>::value, std::vector<X>>::type nearOnes()
{ std::vector<X> v = {X(0), X(1), X(2), X(3)}; if (std::is_signed<X>::value) { v.push_back(X(-1)); v.push_back(std::numeric_limits<X>::min()); } v.push_back(std::numeric_limits<X>::max());
  for (long long x : {127LL, 128LL, 256LL, 257LL, 65536LL, 65537LL, 4294967296LL, 4294967297LL}) if (x < (long long)(std::numeric_limits<X>::max() / 2) || (sizeof(X) > 4)) v.push_back((X)x); return v; }
#endif
int main(int argc, char** argv)
{
  init("C15", argc, argv);
#if VMC_PART == 0
  scalars();
  forNs(Ns<1, 2, 3, 4, 5>(), [](auto r) { forNs(Ns<1, 2, 3, 4, 5>(), [](auto c) { shape<decltype(r)::value, decltype(c)::value>(); }); });
  forNs(Ns<6, 7, 8, 9, 10, 12, 16, 17, 20, 33>(), [](auto n) { constexpr size_t N = decltype(n)::value; shape<N, N>(); shape<1, N>(); shape<N, 1>(); });
  shape<2, 9>(); shape<9, 2>(); shape<64, 1>(); shape<1, 64>(); shape<7, 8>(); shape<8, 7>(); shape<1, 300>(); shape<300, 1>(); shape<257, 2>(); shape<2, 256>(); shape<100, 100>(); shape<257, 257>(); shape<1, 65537>(); shape<65537, 1>();
#else
  const auto a = nearOnes<T>();
  ident<1>(wideAlphabet<T>(), 1e6, 0); ident<2>(a, 1e6, 0); ident<3>({T(0), T(1), T(2)}, 1e6, 0); ident<4>({T(0), T(1)}, 1e6, 0);
  ident<3>(a, 1, 1e6); ident<4>(a, 1, 1e6); ident<5>(a, 1, g().thorough ? 1e7 : 0); ident<5>({T(0), T(1), T(2)}, 1, 1e5); ident<6>(a, 1, 0); ident<7>(a, 1, 0); ident<8>(a, 1, 0);
  forNs(Ns<9, 10, 11, 12, 13, 15, 16, 17, 20, 24>(), [&](auto n) { ident<decltype(n)::value>(a, 1, 0); });
  forNs(Ns<31, 32, 33, 64, 65>(), [&](auto n) { ident<decltype(n)::value>({T(0), T(1), T(2)}, 1, 0, decltype(n)::value <= 33 || g().thorough); });
  ident<100>({T(2)}, 1, 0, false); lone<100>(); lone<128>(); lone<129>(); lone<256>(); lone<257>(); lone<300>();
#endif
  return finish();
}
