// C02: matrix product and strassen against the definition. -DVMC_T=type -DVMC_PART=0 small shapes, 1 large shapes, 2 full 2x2
#include "ref.hpp"
using namespace vmc;
typedef VMC_T T;
namespace ops { using mlib::operator*; template <class A, class B> auto mul(const A& a, const B& b) -> decltype(a * b) { return a * b; } }

template <size_t N> struct MulSelf { static Mat<T, N, N> go(const Mat<T, N, N>& A, int) { return ops::mul(A, A); } };
template <> struct MulSelf<2> { static Mat<T, 2, 2> go(const Mat<T, 2, 2>& A, int k) { return k ? mlib::strassen(A, A) : ops::mul(A, A); } };
template <size_t N> Mat<T, N, N> mulSelf(const Mat<T, N, N>& A, int k) { return MulSelf<N>::go(A, k); }
template <size_t N, size_t M, size_t P, bool I> struct Ref;
// all elements whole and below 2^20: 64-bit sums are exact; peak: the largest sum of magnitudes
template <size_t N, size_t M, size_t P> struct Small
{
  long long a[N * M], b[P * M], w[N * P]; long long peak;
  template <class X> static bool conv(const X& x, long long& o) { if (!(x <= X(1 << 20 > std::numeric_limits<X>::max() ? std::numeric_limits<X>::max() : X(1 << 20)))) return false; if (std::is_signed<X>::value && sizeof(X) > 2 && x < -(X)(1 << 20)) return false; o = (long long)x; return (X)o == x; }
  bool make(const Mat<T, N, M>& A, const Mat<T, M, P>& B)
  {
    for (size_t i = 0; i < N; ++i) for (size_t k = 0; k < M; ++k) if (!conv(A[i][k], a[i * M + k])) return false;
    for (size_t k = 0; k < M; ++k) for (size_t j = 0; j < P; ++j) if (!conv(B[k][j], b[j * M + k])) return false;
    peak = 0;
    for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < P; ++j)
    {
      long long s = 0, m = 0; const long long *x = a + i * M, *y = b + j * M;
      for (size_t k = 0; k < M; ++k) { long long t = x[k] * y[k]; s += t; m += t < 0 ? -t : t; }
      w[i * P + j] = s; if (m > peak) peak = m;
    }
    return true;
  }
};
// integers: exact, if no order of summation can overflow
template <size_t N, size_t M, size_t P> struct Ref<N, M, P, true>
{
  Mat<T, N, P> W; Small<N, M, P> S;
  bool make(const Mat<T, N, M>& A, const Mat<T, M, P>& B)
  {
    if (S.make(A, B))
    {
      if (std::is_signed<T>::value && S.peak > (long long)std::numeric_limits<T>::max()) return false;
      for (size_t i = 0; i < N * P; ++i) W[i / P][i % P] = (T)S.w[i];
      return true;
    }
    for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < P; ++j)
    {
      i128 s = 0, a = 0;
      for (size_t k = 0; k < M; ++k) { i128 x = (i128)A[i][k] * (i128)B[k][j]; s += x; a += x < 0 ? -x : x; }
      if (std::is_signed<T>::value && a > (i128)std::numeric_limits<T>::max()) return false;
      W[i][j] = (T)s;
    }
    return true;
  }
  void check(const Mat<T, N, P>& G) { for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < P; ++j) if (!(G[i][j] == W[i][j])) fail(G, W, "element (" + std::to_string(i) + "," + std::to_string(j) + ")"); agreed(G); }
};
template <size_t N, size_t M, size_t P> struct Ref<N, M, P, false>
{
  Mat<long double, N, P> W, tol; Mat<T, N, P> exact; Small<N, M, P> S; bool isExact;
  bool make(const Mat<T, N, M>& A, const Mat<T, M, P>& B)
  {
    const long double eps = std::numeric_limits<T>::epsilon();
    isExact = S.make(A, B) && S.peak < 1 / eps;
    if (isExact) { for (size_t i = 0; i < N * P; ++i) exact[i / P][i % P] = (T)S.w[i]; return true; }
    for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < P; ++j)
    {
      long double s = 0, a = 0; bool whole = true;
      for (size_t k = 0; k < M; ++k)
      {
        long double x = (long double)A[i][k] * (long double)B[k][j];
        s += x; a += std::fabs(x);
        whole = whole && std::fabs((long double)A[i][k]) < 1e18L && std::fabs((long double)B[k][j]) < 1e18L && x == (long double)(long long)x && (long double)A[i][k] == (long double)(long long)A[i][k] && (long double)B[k][j] == (long double)(long long)B[k][j];
      }
      if (!(a < (long double)std::numeric_limits<T>::max() / 4)) return false;
      W[i][j] = s;
      tol[i][j] = whole && a < 1 / eps ? 0 : (M + 4) * 2 * eps * a + (long double)std::numeric_limits<T>::denorm_min() * (M + 2);
    }
    return true;
  }
  void check(const Mat<T, N, P>& G)
  {
    if (isExact) { for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < P; ++j) if (!(G[i][j] == exact[i][j])) fail(G, exact, "element (" + std::to_string(i) + "," + std::to_string(j) + ")"); agreed(G); return; }
    for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < P; ++j) if (!within((long double)G[i][j] - W[i][j], tol[i][j])) fail(G, W, "element (" + std::to_string(i) + "," + std::to_string(j) + ")"); agreed(G); }
};

template <class X> typename std::enable_if<std::is_integral<X>::value, std::vector<X>>::type alphabet()
{
  std::vector<X> v = {X(0), X(1), X(2), X(3), X(7)};
  for (long long x : {-1LL, -2LL, -5LL}) if (std::is_signed<X>::value) v.push_back((X)x);
  for (long long x : {257LL, 4097LL, 46337LL, 16777217LL, 94906267LL, 9007199254740993LL}) if (x < (long long)std::numeric_limits<X>::max()) { v.push_back((X)x); if (std::is_signed<X>::value) v.push_back((X)-x); }
  return v;
}
template <class X> typename std::enable_if<std::is_floating_point<X>::value, std::vector<X>>::type alphabet()
{ return {X(0), X(1), X(-1), X(2), X(3), X(-5), X(0.5), X(0.1), X(1e-4), X(1e-15), X(4097), X(-16777217), X(1e10), X(-1e15), X(94906267.0)}; }

template <size_t N, size_t M, size_t P> void shape()
{
  if (!mine()) return;
  static Mat<T, N, M> A; static Mat<T, M, P> B; static Ref<N, M, P, std::is_integral<T>::value> ref;
  static bool plain = true;
  auto body = [&] {
    if (!ref.make(A, B)) { ++g().undefinedSkipped; return; }
    call();
    if (plain) ref.check(ops::mul(A, B)); else ref.check(mlib::mult(A, B));
  };
  const size_t cells = N * M + M * P;
  Space<T> sp; sp.alpha = alphabet<T>(); sp.bases = distinctBases<T>(); sp.fullLimit = 3000; sp.dev2Limit = g().thorough ? 1000000 : 40000;
  // large shapes: as many deviations as the work budget allows
  const double work = (double)N * M * P + 60, budget = g().thorough ? 3e9 : 4e7;
  if (cells > 100) sp.bases.erase(sp.bases.begin() + 1, sp.bases.begin() + 3);
  if (cells > 400) sp.bases.erase(sp.bases.begin(), sp.bases.end() - 2);
  sp.dev2Limit = std::min(sp.dev2Limit, budget / work);
  if ((double)cells * sp.alpha.size() * sp.bases.size() * work > budget)
  {
    size_t k = (size_t)(budget / work / cells / sp.bases.size());
    if (k) sp.alpha.resize(k); else { sp.dev1Limit = 0; sp.bases = distinctBases<T>(); }
  }
  for (int k = 0; k < 2; ++k)
  {
    plain = k == 0;
    Unit u(plain ? "A * B" : "mlib::mult(A, B)"); u.in("A", A).in("B", B);
    Cells<T> c; c.add(A).add(B);
    enumerate<T>(u, c, sp, body);
    // every pair of unit matrices (the product is bilinear)
    const bool pairs = (double)N * M * M * P * 4 * work < budget;
    if (pairs)
    {
      for (auto& r : A) r.fill(T(0));
      for (auto& r : B) r.fill(T(0));
      for (size_t a = 0; a < N * M; ++a) for (size_t b = 0; b < M * P; ++b)
        for (T x : {T(1), T(3)}) for (T y : {T(1), T(5)})
        {
          A[a / M][a % M] = x; B[b / P][b % P] = y;
          ++u.cases; ++g().states; body();
          A[a / M][a % M] = T(0); B[b / P][b % P] = T(0);
        }
      g().modes["all pairs of unit matrices"] += N * M * M * P * 4;
    }
    else if ((double)(N * M + M * P) * work < 4 * budget)
    {
      // every unit matrix times a matrix of distinct elements
      const int mod = sizeof(T) == 1 ? 11 : 1021;
      for (auto& r : A) r.fill(T(0));
      for (size_t b = 0; b < M * P; ++b) B[b / P][b % P] = T(b % mod + 1);
      for (size_t a = 0; a < N * M; ++a) { A[a / M][a % M] = T(1); ++u.cases; ++g().states; body(); A[a / M][a % M] = T(0); }
      for (auto& r : B) r.fill(T(0));
      for (size_t a = 0; a < N * M; ++a) A[a / M][a % M] = T(a % mod + 1);
      for (size_t b = 0; b < M * P; ++b) { B[b / P][b % P] = T(1); ++u.cases; ++g().states; body(); B[b / P][b % P] = T(0); }
      g().modes["unit matrices times a distinct one"] += N * M + M * P;
    }
  }
}

// one object on both sides
template <size_t N> void self()
{
  if (!mine()) return;
  static Mat<T, N, N> A; static Ref<N, N, N, std::is_integral<T>::value> ref;
  for (int k = 0; k < 2; ++k)
  {
    if (k && N != 2) continue;
    Unit u(k ? "mlib::strassen(A, A)" : "A * A"); u.in("A", A);
    Cells<T> c; c.add(A);
    Space<T> sp; sp.alpha = {T(0), T(1), T(2), T(5)}; sp.bases = distinctBases<T>(); sp.fullLimit = 3000; sp.dev2Limit = 0; sp.dev1Limit = N * N <= 150 ? 1e18 : 0;
    enumerate<T>(u, c, sp, [&] {
      if (!ref.make(A, A)) { ++g().undefinedSkipped; return; }
      call(); ref.check(mulSelf<N>(A, k));
    });
  }
}
// infinities and NaNs: when no finite product overflows, whether a sum is finite, infinite or NaN does not depend on the order of summation
template <size_t N, size_t M, size_t P> void special()
{
  if (std::is_integral<T>::value || !mine()) return;
  static Mat<T, N, M> A; static Mat<T, M, P> B;
  Unit u("A * B"); u.in("A", A).in("B", B);
  Cells<T> c; c.add(A).add(B);
  const T inf = std::numeric_limits<T>::infinity(), nan = std::numeric_limits<T>::quiet_NaN();
  Space<T> sp; sp.alpha = {T(0), T(1), inf, -inf, nan}; sp.bases = {{T(0)}, {T(1)}, {T(2), T(-1), T(0)}}; sp.fullLimit = 20000; sp.dev2Limit = 60000;
  enumerate<T>(u, c, sp, [&] {
    call();
    const Mat<T, N, P> G = ops::mul(A, B);
    for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < P; ++j)
    {
      T w = T(0); for (size_t k = 0; k < M; ++k) w = w + A[i][k] * B[k][j];
      if (!(G[i][j] == w || (G[i][j] != G[i][j] && w != w))) fail(G, lit(w), "element (" + std::to_string(i) + "," + std::to_string(j) + ")");
    }
    agreed(G);
  });
}
// 2x2: strassen and the product over a complete space
void full22(std::vector<T> alpha, const char* what)
{
  static Mat<T, 2, 2> A, B; static Ref<2, 2, 2, std::is_integral<T>::value> ref; int which = 0;
  const long double eps = epsOf<T>();
  for (which = 0; which < 2; ++which)
  {
    Unit u(which ? "A * B" : "mlib::strassen(A, B)"); u.in("A", A).in("B", B);
    Cells<T> c; c.add(A).add(B);
    Space<T> sp; sp.alpha = alpha; sp.fullLimit = 1e12; sp.shard = true;
    enumerate<T>(u, c, sp, [&] {
      // strassen forms sums and differences of elements: stay clear of overflow in those as well
      long double ma = 0, mb = 0; bool whole = true;
      for (auto& r : A) for (auto& x : r) { ma = std::max(ma, std::fabs((long double)x)); whole = whole && (long double)x == std::floor((long double)x); }
      for (auto& r : B) for (auto& x : r) { mb = std::max(mb, std::fabs((long double)x)); whole = whole && (long double)x == std::floor((long double)x); }
      if (std::is_integral<T>::value && std::is_signed<T>::value && ma * mb * 16 > (long double)std::numeric_limits<T>::max()) { ++g().undefinedSkipped; return; }
      if (!ref.make(A, B)) { ++g().undefinedSkipped; return; }
      call();
      Mat<T, 2, 2> G = which ? ops::mul(A, B) : mlib::strassen(A, B);
      if (std::is_floating_point<T>::value && !which)
      {
        const long double tol = whole && ma * mb * 16 < 1 / eps ? 0 : 64 * eps * ma * mb;
        for (size_t i = 0; i < 2; ++i) for (size_t j = 0; j < 2; ++j)
        {
          long double w = (long double)A[i][0] * B[0][j] + (long double)A[i][1] * B[1][j];
          if (!within((long double)G[i][j] - w, tol)) fail(G, std::to_string((double)w), "element (" + std::to_string(i) + "," + std::to_string(j) + ")");
        }
        agreed(G);
      }
      else ref.check(G);
    });
  }
  (void)what;
}

int main(int argc, char** argv)
{
  init("C02", argc, argv);
#if VMC_PART == 0
  forNs(Ns<1, 2, 3, 4, 5>(), [](auto n) { forNs(Ns<1, 2, 3, 4, 5>(), [](auto m) { forNs(Ns<1, 2, 3, 4, 5>(), [](auto p) { shape<decltype(n)::value, decltype(m)::value, decltype(p)::value>(); }); }); });
  forNs(Ns<1, 2, 3, 4, 5, 6, 7, 8, 9, 16, 17, 32, 33>(), [](auto n) { self<decltype(n)::value>(); });
  forNs(Ns<1, 2, 3, 5>(), [](auto n) { forNs(Ns<1, 2, 3, 4, 5, 8, 9, 17>(), [](auto m) { forNs(Ns<1, 2, 4>(), [](auto p) { special<decltype(n)::value, decltype(m)::value, decltype(p)::value>(); }); }); });
  forNs(Ns<33, 41, 48, 64, 65, 100, 129, 257, 300>(), [](auto m) { special<1, decltype(m)::value, 1>(); special<2, decltype(m)::value, 3>(); }); special<17, 17, 17>(); special<33, 33, 33>(); special<65, 3, 2>(); special<2, 3, 65>();
#elif VMC_PART == 1
  forNs(Ns<6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 20, 24, 31, 32, 33, 48, 63, 64, 65, 96, 100, 127, 128, 129>(), [](auto n) { constexpr size_t N = decltype(n)::value; shape<N, N, N>(); shape<1, N, 1>(); shape<N, 1, N>(); shape<2, N, 3>(); });
  shape<6, 7, 8>(); shape<8, 7, 6>(); shape<7, 3, 11>(); shape<16, 2, 16>(); shape<2, 16, 2>(); shape<16, 8, 4>(); shape<4, 8, 16>(); shape<33, 5, 2>(); shape<9, 64, 9>(); shape<5, 5, 6>(); shape<6, 5, 5>(); shape<5, 6, 5>();
  shape<1, 257, 1>(); shape<2, 300, 2>(); shape<1, 1000, 1>(); shape<257, 1, 2>(); shape<2, 1, 257>(); shape<300, 2, 1>(); shape<1, 2, 300>(); shape<256, 3, 2>(); shape<3, 256, 255>(); shape<1, 70000, 1>(); shape<1, 1, 70000>(); shape<70000, 1, 1>();
#else
  full22(std::is_unsigned<T>::value ? std::vector<T>{T(0), T(1), T(2), T(3), T(5)} : std::vector<T>{T(0), T(1), T(-1), T(2), T(-3), T(4), T(7)}, "small");
  std::vector<T> big = alphabet<T>(), pick;
  for (size_t i = 0; i < big.size(); i += (big.size() + 6) / 7) pick.push_back(big[i]);
  full22(pick, "wide");
#endif
  return finish();
}
