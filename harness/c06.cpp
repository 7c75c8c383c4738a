// C06: LU. -DVMC_T=type -DVMC_PART=0
#include "ref.hpp"
using namespace vmc;
typedef VMC_T T;

template <size_t N> struct Case
{
  static Mat<T, N, N> A, L, U;
};
template <size_t N> Mat<T, N, N> Case<N>::A; template <size_t N> Mat<T, N, N> Case<N>::L; template <size_t N> Mat<T, N, N> Case<N>::U;

template <size_t N> void checkShape(const Mat<T, N, N>& L, const Mat<T, N, N>& U)
{
  for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j)
  {
    if (i == j && !(L[i][j] == T(1))) fail(L, "unit diagonal", "L");
    if (j > i && !(L[i][j] == T(0))) fail(L, "lower triangular", "L");
    if (i > j && !(U[i][j] == T(0))) fail(U, "upper triangular", "U");
  }
}
// A = L*U exactly, all steps exact: lu has to find these factors, or raise if U has a zero on its diagonal
template <size_t N> void exactCase(Unit& u, int scale = 0)
{
  auto& A = Case<N>::A; auto& L = Case<N>::L; auto& U = Case<N>::U;
  bool zero = false;
  for (size_t i = 0; i < N; ++i) { zero |= U[i][i] == T(0); for (size_t j = 0; j < N; ++j) { T s = T(0); for (size_t k = 0; k <= std::min(i, j); ++k) s += L[i][k] * U[k][j]; A[i][j] = scale ? std::ldexp(s, scale) : s; } }
  std::pair<Mat<T, N, N>, Mat<T, N, N>> r;
  int e = attempt([&] { r = mlib::lu(A); });
  if (e != (zero ? Overflow : Returned)) emitViolation(endingText(e), zero ? "std::overflow_error (zero pivot)" : "returned", "");
  if (zero) { agreedQuiet(); return; }
  for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j)
  {
    if (!(r.first[i][j] == L[i][j])) fail(r.first, L, "L");
    if (!(r.second[i][j] == (scale ? std::ldexp(U[i][j], scale) : U[i][j]))) fail(r.second, U, "U");
  }
  if ((u.cases & 15) == 7) agreed(r); else agreedQuiet();
}
template <size_t N> void exactSpace(std::vector<T> alpha, double full, double dev2, std::vector<int> scales = {0})
{
  auto& L = Case<N>::L; auto& U = Case<N>::U;
  for (int sc : scales)
  {
    if (full < 1e5 && !mine()) continue;
    Unit u("mlib::lu(A)"); u.in("A", Case<N>::A);
    Cells<T> c;
    L = U = Mat<T, N, N>{};
    for (size_t i = 0; i < N; ++i) L[i][i] = T(1);
    for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) if (j < i) c.add(L[i][j]); else c.add(U[i][j]);
    Space<T> sp; sp.alpha = alpha; sp.fullLimit = full; sp.dev2Limit = dev2; sp.shard = full >= 1e5;
    // bases: cells are row by row: L part, then U part with the diagonal first
    auto base = [&](std::function<int(int, int)> f) { std::vector<T> v; for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) v.push_back(T(f((int)i, (int)j))); sp.bases.push_back(v); };
    base([](int i, int j) { return i == j; });
    base([](int i, int j) { return i == j ? (i % 2 ? -2 : 1) : j > i ? (i + j) % 3 - 1 : (i + 2 * j) % 2; });
    base([](int i, int j) { return i == j ? 1 : j == i + 1 ? 1 : i == j + 1 ? -1 : 0; });
    base([](int i, int j) { return i == j ? (i % 3 ? 3 : -1) : j > i ? (j - i) % 2 : (i - j == 2); });
    enumerate<T>(u, c, sp, [&] { exactCase<N>(u, sc); });
  }
}
// any small-integer matrix: backward error bound, and no exception unless a leading minor is zero
template <size_t N> void anyCase(bool whole)
{
  auto& A = Case<N>::A;
  std::pair<Mat<T, N, N>, Mat<T, N, N>> r;
  int e = attempt([&] { r = mlib::lu(A); });
  bool zero = false;
  if (whole)
  {
    long long a[N * N];
    for (size_t n = 1; n <= N && !zero; ++n) { for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) a[i * n + j] = (long long)A[i][j]; zero = detExact<long long>(a, n) == 0; }
    if (e == OtherException || (e == Overflow && !zero)) emitViolation(endingText(e), "returned", "no leading minor is zero");
    // the first two pivots of an integer matrix are zero exactly when the minors are
    if (e == Returned && A[0][0] == T(0)) emitViolation("returned", "std::overflow_error", "first pivot is zero");
  }
  else if (e == OtherException) emitViolation(endingText(e), "returned", "");
  if (e != Returned) { agreedQuiet(); return; }
  const auto& L = r.first; const auto& U = r.second;
  {
    // without pivoting the factors can outgrow the type: results that are not finite are judged only if the finite ones leave no doubt
    bool finite = true; long double ml = 0, mu = 0, ma = 0, piv = HUGE_VALL;
    for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j)
    {
      ma = std::max(ma, std::fabs((long double)A[i][j]));
      if (std::isfinite(L[i][j])) ml = std::max(ml, std::fabs((long double)L[i][j])); else finite = false;
      if (std::isfinite(U[i][j])) mu = std::max(mu, std::fabs((long double)U[i][j])); else finite = false;
      if (i == j && std::isfinite(U[i][j])) piv = std::min(piv, std::fabs((long double)U[i][j]));
    }
    const long double top = (long double)std::numeric_limits<T>::max() / (8 * N);
    if (!finite && (ml >= top / std::max(mu, 1.0L) || std::max(ma, ml * mu) >= top * std::min(piv, 1.0L))) { ++g().undefinedSkipped; agreedQuiet(); return; }
  }
  checkShape<N>(L, U);
  for (size_t i = 0; i < N; ++i)
  {
    if (U[i][i] == T(0)) fail(U, "std::overflow_error", "zero pivot");
    for (size_t j = 0; j < N; ++j)
    {
      long double s = 0, m = 0;
      for (size_t k = 0; k <= std::min(i, j); ++k) { long double x = (long double)L[i][k] * (long double)U[k][j]; s += x; m += std::fabs(x); }
      long double tol = 4 * N * epsOf<T>() * (m + std::fabs((long double)A[i][j]));
      if (!within(s - (long double)A[i][j], tol)) fail(r, A, "L*U differs at (" + std::to_string(i) + "," + std::to_string(j) + ")");
    }
  }
  agreed(r);
}
template <size_t N> void anySpace(std::vector<T> alpha, std::vector<std::vector<T>> bases, double full, double dev2, bool whole, bool devs = true)
{
  if (full < 1e5 && !mine()) return;
  Unit u("mlib::lu(A)"); u.in("A", Case<N>::A);
  Cells<T> c; c.add(Case<N>::A);
  Space<T> sp; sp.alpha = alpha; sp.bases = bases; sp.fullLimit = full; sp.dev2Limit = dev2; sp.shard = full >= 1e5; sp.dev1Limit = devs ? 1e18 : 0;
  enumerate<T>(u, c, sp, [&] { anyCase<N>(whole); });
}
// a tiny (or huge) pivot at every position is no zero pivot; a zero at every position is one
template <size_t N> void pivots()
{
  if (!mine()) return;
  auto& A = Case<N>::A;
  Unit u("mlib::lu(A)"); u.in("A", A);
  std::vector<T> pv = {T(0), -T(0), std::numeric_limits<T>::min(), std::numeric_limits<T>::denorm_min(), std::numeric_limits<T>::epsilon(), T(1e-30L), T(1e-20L), T(1e-12L), T(1e-9L), T(1e-7L), T(1e-5L), T(1e-3L), T(1e5L), T(1e20L)};
  for (size_t k = 0; k < N; ++k) for (T p : pv) for (int sign = 0; sign < 2; ++sign) for (int fill = 0; fill < 2; ++fill)
  {
    T v = sign ? -p : p;
    for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) A[i][j] = i == j ? (i == k ? v : T(1 + (int)i)) : fill && j > i ? T(1) : T(0);   // upper triangular: L = I, U = A
    ++u.cases; ++g().states;
    std::pair<Mat<T, N, N>, Mat<T, N, N>> r;
    int e = attempt([&] { r = mlib::lu(A); });
    bool zero = v == T(0);
    if (e != (zero ? Overflow : Returned)) emitViolation(endingText(e), zero ? "std::overflow_error" : "returned", "pivot " + lit(v) + " at " + std::to_string(k));
    if (e == Returned) { for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) if (!(r.first[i][j] == T(i == j) && r.second[i][j] == A[i][j])) fail(r, A, "upper triangular input"); agreed(r); } else agreedQuiet();
  }
  g().modes["every pivot position and magnitude"] += u.cases;
}
// pivots that are what is left of a cancellation: all terms are multiples of eps and their magnitudes add up to at most 2,
// so that every order of summation is exact
template <size_t N> void cancelSpace()
{
  auto& L = Case<N>::L; auto& U = Case<N>::U;
  const T e = std::numeric_limits<T>::epsilon();
  Unit u("mlib::lu(A)"); u.in("A", Case<N>::A);
  std::vector<T> la = {T(0), T(1), T(-1)}, ua = {T(0), T(1), T(-1), e, -e, 4 * e, T(1) - 4 * e, T(e * T(1 << 10))};
  if (N > 2) ua = {T(0), T(1), e, -4 * e, T(1) - 4 * e};
  const size_t nl = N * (N - 1) / 2, nu = N * (N + 1) / 2;
  std::vector<size_t> d(nl + nu, 0);
  uint64_t index = 0, done = 0;
  for (;;)
  {
    size_t q = 0, i;
    if (index++ % g().workers == g().worker)
    {
      L = U = Mat<T, N, N>{};
      for (i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j, ++q) if (j < i) L[i][j] = la[d[q]]; else U[i][j] = ua[d[q]];
      bool small = true;
      for (i = 0; i < N; ++i) { L[i][i] = T(1); for (size_t j = 0; j < N; ++j) { __float128 s = 0; for (size_t k = 0; k <= std::min(i, j); ++k) s += (__float128)std::fabs((long double)L[i][k] * (long double)U[k][j]); small = small && s <= 2; } }
      if (small) { ++u.cases; ++g().states; ++done; exactCase<N>(u); }
    }
    q = 0; size_t pos = 0;
    for (; pos < d.size(); ++pos) { const size_t r = pos / N, c = pos % N; if (++d[pos] < (c < r ? la.size() : ua.size())) break; d[pos] = 0; }
    if (pos == d.size()) break;
  }
  g().modes["cancelling pivots"] += done;
}
template <size_t N> void cancelAt()   // in larger matrices: every pivot in turn is 1 - (1 - p)
{
  if (!mine()) return;
  auto& L = Case<N>::L; auto& U = Case<N>::U;
  Unit u("mlib::lu(A)"); u.in("A", Case<N>::A);
  const int bits = std::numeric_limits<T>::digits - 1;
  for (size_t k = 1; k < N; ++k) for (int b = 1; b <= bits; ++b) for (int sign : {1, -1}) for (size_t from = 0; from < k; from += (N > 12 ? k : 1))
  {
    L = U = Mat<T, N, N>{};
    for (size_t i = 0; i < N; ++i) L[i][i] = U[i][i] = T(1);
    L[k][from] = T(1); U[from][k] = T(1); U[k][k] = (T)std::ldexp((long double)sign, -b);
    ++u.cases; ++g().states; exactCase<N>(u);
  }
  g().modes["cancelling pivots"] += u.cases;
}
std::vector<std::vector<T>> times(std::vector<std::vector<T>> b, long double f, long double shift = 0)
{ for (auto& v : b) for (auto& x : v) x = (T)((long double)x * f + shift); return b; }

int main(int argc, char** argv)
{
  init("C06", argc, argv);
  const bool th = g().thorough;
  { std::vector<T> w; for (auto& x : wideAlphabet<T>()) if (x == x && std::isfinite((long double)x)) w.push_back(x); exactSpace<1>(w, 1e4, 0); }
  const int lim = sizeof(T) == 4 ? 100 : 900;
  std::vector<int> sc = {0, -lim, -60, -40, -20, -10, 10, 20, 40, 60, lim};
  exactSpace<2>(ints<T>(-4, 4), 1e4, 0, sc);
  exactSpace<3>(ints<T>(-2, 2), 1e7, 0);
  exactSpace<3>(ints<T>(-1, 1), 1e4 * 2, 0, sc);
  exactSpace<4>({T(0), T(1)}, 1e5, 0);
  exactSpace<4>(ints<T>(-3, 3), 1, 1e6, sc);
  if (th) exactSpace<4>(ints<T>(-1, 1), 1e8, 0);
  exactSpace<5>(ints<T>(-2, 2), 1, th ? 1e7 : 1e5, sc);
  exactSpace<6>(ints<T>(-2, 2), 1, th ? 1e7 : 0, sc);
  exactSpace<7>(ints<T>(-1, 1), 1, th ? 1e7 : 0); exactSpace<8>(ints<T>(-1, 1), 1, 0); exactSpace<9>(ints<T>(-1, 1), 1, 0); exactSpace<10>(ints<T>(-1, 1), 1, 0);
  exactSpace<11>(ints<T>(0, 1), 1, 0); exactSpace<12>(ints<T>(0, 1), 1, 0); exactSpace<13>({T(0)}, 1, 0); exactSpace<16>({T(0)}, 1, 0); exactSpace<17>({T(0)}, 1, 0); exactSpace<20>({T(0)}, 1, 0); exactSpace<33>({T(0)}, 1, 0);
  anySpace<2>(ints<T>(-9, 9), {}, 2e5, 0, true);
  anySpace<3>(ints<T>(-2, 2), {}, 1e7, 0, true);
  if (th) anySpace<3>(ints<T>(-3, 3), {}, 1e8, 0, true);
  anySpace<4>({T(1), T(0)}, {}, 1e5, 0, true);
  anySpace<4>(ints<T>(-9, 9), squareBases<T>(4), 1, 1e6, true);
  anySpace<5>(ints<T>(-4, 4), squareBases<T>(5), 1, th ? 1e6 : 0, true);
  anySpace<6>(ints<T>(-3, 3), squareBases<T>(6), 1, 0, true); anySpace<8>(ints<T>(-2, 2), squareBases<T>(8), 1, 0, true);
  const std::vector<T> real = {T(0.1), T(-0.3), T(1) / T(3), T(1e-3), T(-7.77), T(123.456), T(1e5), T(-1e-5)};
  anySpace<1>(real, {}, 1e4, 0, false); anySpace<2>(real, {}, 1e4, 0, false);
  anySpace<3>(real, times(squareBases<T>(3), 0.1L, 0.01L), 1, 1e6, false);
  anySpace<4>(real, times(squareBases<T>(4), 0.3L, 0.01L), 1, 1e6, false);
  anySpace<5>(real, times(squareBases<T>(5), 0.7L, 0.03L), 1, 0, false); anySpace<7>(real, times(squareBases<T>(7), 0.7L, 0.03L), 1, 0, false);
  auto more = [](auto n) { constexpr size_t N = decltype(n)::value; anySpace<N>({T(0.7)}, times(squareBases<T>(N), 0.7L, 0.03L), 1, 0, false, N <= 16); };
  forNs(range<9, 40>(), more); forNs(Ns<48, 64, 65, 100, 128>(), more);
  forNs(range<1, 33>(), [](auto n) { pivots<decltype(n)::value>(); });
  cancelSpace<2>(); cancelSpace<3>();
  forNs(range<2, 33>(), [](auto n) { cancelAt<decltype(n)::value>(); });
  return finish();
}
