// C05: the inverse. -DVMC_T=type -DVMC_PART=0 small sizes, 1 n=4 complete, 2 larger sizes
#include "ref.hpp"
using namespace vmc;
typedef VMC_T T;
constexpr bool kInt = std::is_integral<T>::value;

// reference inverse: cofactors by the definition for n <= 6, else Gauss-Jordan with complete pivoting in long double
template <size_t N> struct RefInv
{
  long double a[N * N], x[N * N], d, H, hm[N * N], rn2[N];
  // false: singular
  bool make(const Mat<T, N, N>& A)
  {
    for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) a[i * N + j] = (long double)A[i][j];
    H = 1;
    for (size_t i = 0; i < N; ++i) { rn2[i] = 0; for (size_t j = 0; j < N; ++j) rn2[i] += a[i * N + j] * a[i * N + j]; H *= std::sqrt(rn2[i]); }
    if (N <= 6)
    {
      d = detExact<long double>(a, N);
      if (std::fabs(d) <= 1e-16L * H) return false;
      for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) { long double m = minorExact<long double>(a, N, i, j); x[j * N + i] = ((i + j) & 1 ? -m : m) / d; }
    }
    else if (!gauss()) return false;
    return true;
  }
  bool gauss()
  {
    std::vector<long double> w(a, a + N * N); long double inv[N * N];
    for (size_t i = 0; i < N * N; ++i) inv[i] = i / N == i % N;
    size_t perm[N]; for (size_t i = 0; i < N; ++i) perm[i] = i;   // column order
    d = 1;
    for (size_t k = 0; k < N; ++k)
    {
      size_t pr = k, pc = k;
      for (size_t i = k; i < N; ++i) for (size_t j = k; j < N; ++j) if (std::fabs(w[i * N + j]) > std::fabs(w[pr * N + pc])) { pr = i; pc = j; }
      long double p = w[pr * N + pc];
      if (std::fabs(p) == 0) return false;
      if (pr != k) { d = -d; for (size_t j = 0; j < N; ++j) { std::swap(w[pr * N + j], w[k * N + j]); std::swap(inv[pr * N + j], inv[k * N + j]); } }
      if (pc != k) { d = -d; std::swap(perm[pc], perm[k]); for (size_t i = 0; i < N; ++i) std::swap(w[i * N + pc], w[i * N + k]); }
      d *= p;
      for (size_t j = 0; j < N; ++j) { w[k * N + j] /= p; inv[k * N + j] /= p; }
      for (size_t i = 0; i < N; ++i) if (i != k) { long double f = w[i * N + k]; if (f == 0) continue; for (size_t j = 0; j < N; ++j) { w[i * N + j] -= f * w[k * N + j]; inv[i * N + j] -= f * inv[k * N + j]; } }
    }
    for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) x[perm[i] * N + j] = inv[i * N + j];
    return std::fabs(d) > 1e-13L * H;
  }
  // bound of the (j,i) minor
  long double minorH(size_t i, size_t j) const
  {
    long double s = 1;
    for (size_t k = 0; k < N; ++k) if (k != i) s *= std::max((long double)0, rn2[k] - a[k * N + j] * a[k * N + j]);
    return std::sqrt(s);
  }
};
template <size_t N> void judge(const Mat<T, N, N>& A)
{
  static RefInv<N> R;
  if (!R.make(A)) { ++g().undefinedSkipped; return; }
  const long double eps = epsOf<T>();
  if (kInt && std::fabs(std::fabs(R.d) - 1) > 1e-6L) { ++g().undefinedSkipped; return; }
  if (!kInt && 40 * N * eps * R.H > 0.05L * std::fabs(R.d)) { ++g().undefinedSkipped; return; }
  call();
  Mat<T, N, N> X = mlib::inv(A);
  // the reference itself has rounding errors above n = 6
  long double refErr = 0;
  if (N > 6 && !kInt) { for (auto& v : R.x) refErr = std::max(refErr, std::fabs(v)); refErr *= N * 1e-18L * R.H / std::fabs(R.d); }
  for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j)
  {
    long double w = R.x[i * N + j];
    if (kInt) { if (X[i][j] != (T)std::llround(w)) fail(X, std::to_string(w), "element (" + std::to_string(i) + "," + std::to_string(j) + ")"); continue; }
    long double tol = 40 * N * eps * (R.minorH(j, i) / std::fabs(R.d) + std::fabs(w) * R.H / std::fabs(R.d)) + 8 * eps * std::fabs(w) + refErr;
    if (!within((long double)X[i][j] - w, tol)) fail(X, std::to_string(w), "element (" + std::to_string(i) + "," + std::to_string(j) + ") tolerance " + std::to_string(tol));
  }
  agreed(X);
}
template <size_t N> void space(std::vector<T> alpha, std::vector<std::vector<T>> bases, double full, double dev2, bool shard, bool devs = true)
{
  if (!shard && !mine()) return;
  static Mat<T, N, N> A;
  Unit u("mlib::inv(A)"); u.in("A", A);
  Cells<T> c; c.add(A);
  Space<T> sp; sp.alpha = alpha; sp.bases = bases; sp.fullLimit = full; sp.dev2Limit = dev2; sp.dev1Limit = devs ? 1e18 : 0; sp.shard = shard;
  enumerate<T>(u, c, sp, [&] { judge<N>(A); });
}
// all products of a unit lower and a unit upper triangular matrix, rows rotated: determinant 1 or -1
template <size_t N> void unimodular(std::vector<T> alpha, size_t rotations)
{
  static Mat<T, N, N> A, L, U;
  for (size_t rot = 0; rot < rotations; ++rot)
  {
    Unit u("mlib::inv(A)"); u.in("A", A);
    Cells<T> c;
    L = U = Mat<T, N, N>{};
    for (size_t i = 0; i < N; ++i) { L[i][i] = U[i][i] = T(1); for (size_t j = 0; j < N; ++j) if (j < i) c.add(L[i][j]); else if (j > i) c.add(U[i][j]); }
    Space<T> sp; sp.alpha = alpha; sp.fullLimit = 1e9; sp.shard = true;
    enumerate<T>(u, c, sp, [&] {
      for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) { T s = T(0); for (size_t k = 0; k <= std::min(i, j); ++k) s += L[i][k] * U[k][j]; A[(i + rot) % N][j] = s; }
      judge<N>(A);
    });
  }
}
template <size_t N> void permuted()
{
  static Mat<T, N, N> A;
  for (int kind = 0; kind < 3; ++kind)
  {
    if (!mine()) continue;
    Unit u("mlib::inv(A)"); u.in("A", A);
    permutations(N, [&](const std::vector<size_t>& p, int) {
      for (auto& r : A) r.fill(T(0));
      for (size_t i = 0; i < N; ++i)
      {
        A[p[i]][i] = T(kInt ? (i % 2 ? -1 : 1) : (i % 3 == 0 ? 2 : i % 3 == 1 ? -1 : 3));
        if (kind == 1 && i + 1 < N) A[p[i]][i + 1] = T(1);
        if (kind == 2 && i > 0) A[p[i]][i - 1] = T(-1);
      }
      ++u.cases; ++g().states;
      judge<N>(A);
    });
    g().modes["all row permutations of band matrices"] += u.cases;
  }
}
template <size_t N> void big()
{
  static Mat<T, N, N> A;
  for (int kind = 0; kind < 4; ++kind)
  {
    if (!mine()) continue;
    if (kInt && kind == 3) continue;
    Unit u("mlib::inv(A)"); u.in("A", A);
    std::vector<std::vector<size_t>> perms;
    std::vector<size_t> id(N); for (size_t i = 0; i < N; ++i) id[i] = i;
    perms.push_back(id);
    { auto q = id; std::reverse(q.begin(), q.end()); perms.push_back(q); }
    for (size_t s = 1; s < N; s += (N > 12 ? 5 : 2)) { auto q = id; std::rotate(q.begin(), q.begin() + s, q.end()); perms.push_back(q); }
    if (N <= 12) for (size_t a = 0; a + 1 < N; ++a) { auto q = id; std::swap(q[a], q[a + 1]); perms.push_back(q); }
    for (auto& q : perms)
    {
      for (auto& r : A) r.fill(T(0));
      for (size_t i = 0; i < N; ++i)
      {
        A[q[i]][i] = T(kind == 3 ? 4 : kInt ? (i % 3 == 1 ? -1 : 1) : (i % 3 == 1 ? -1 : i % 5 == 0 ? 2 : 1));
        if ((kind == 1 || kind == 3) && i + 1 < N) A[q[i]][i + 1] = T(i % 2 ? 1 : -1);
        if ((kind == 2 || kind == 3) && i > 0) A[q[i]][i - 1] = T(1);
      }
      ++u.cases; ++g().states;
      judge<N>(A);
    }
    g().modes["band matrices under transpositions and rotations"] += u.cases;
  }
}
template <size_t N> void scaled()
{
  if (kInt || !mine()) return;
  static Mat<T, N, N> A;
  Unit u("mlib::inv(A)"); u.in("A", A);
  const int range = sizeof(T) == 4 ? 110 : 900;
  for (auto& b : squareBases<T>(N))
    for (int e = -range; e <= range; e += (g().thorough ? 1 : 4))
      for (size_t where = 0; where <= 2 * N; ++where)
      {
        if (where == 2 * N ? std::abs(e) * (int)std::max<size_t>(N, 3) > range : std::abs(e) * 3 > range) continue;
        for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) A[i][j] = std::ldexp(b[i * N + j], where == 2 * N || where == i || where == N + j ? e : 0);
        ++u.cases; ++g().states;
        judge<N>(A);
      }
  // down to the smallest and up to the largest determinants the type has; products of these elements are exact there
  if (N <= 3 && sizeof(T) <= 8)
  {
    const int lo = std::numeric_limits<T>::min_exponent - std::numeric_limits<T>::digits, hi = std::numeric_limits<T>::max_exponent - 12;
    for (auto& b : squareBases<T>(N))
      for (int e = lo / (int)N; e <= hi / (int)N; ++e)
      {
        if (N == 1 && (e < -hi || e > hi)) continue;
        for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) A[i][j] = std::ldexp(b[i * N + j], e);
        ++u.cases; ++g().states;
        judge<N>(A);
      }
  }
  g().modes["base matrices scaled by powers of two"] += u.cases;
}
std::vector<std::vector<T>> times(std::vector<std::vector<T>> b, long double f, long double shift = 0)
{ for (auto& v : b) for (auto& x : v) x = (T)((long double)x * f + shift); return b; }

int main(int argc, char** argv)
{
  init("C05", argc, argv);
#if VMC_PART == 0
  { std::vector<T> a; for (auto& x : wideAlphabet<T>()) if (x == x && std::fabs((long double)x) < 1e30L && std::fabs((long double)x) > 1e-30L) a.push_back(x); for (int i = -300; i <= 300; ++i) if (i) a.push_back(T(i)); space<1>(a, {}, 1e6, 0, false); }
  space<2>(ints<T>(-9, 9), {}, 1e6, 0, false);
  space<3>(ints<T>(-2, 2), {}, 1e7, 0, true);
  if (g().thorough) space<3>(ints<T>(-3, 3), {}, 1e8, 0, true);
  space<3>(ints<T>(-9, 9), squareBases<T>(3), 1, 1e6, false);
  unimodular<3>(ints<T>(-2, 2), 3);
  unimodular<4>(ints<T>(-1, 1), g().thorough ? 4 : 1);
  unimodular<5>({T(0), T(1)}, g().thorough ? 5 : 1);
  if (!kInt)
  {
    const std::vector<T> real = {T(0), T(0.1), T(-0.3), T(1) / T(3), T(1e-3), T(-7.77), T(123.456), T(1e5), T(-1e-5)};
    const std::vector<T> like = {T(0), T(0.1), T(-0.3), T(1) / T(3), T(1.5), T(-0.77), T(0.015), T(-2.1)};
    space<2>(real, {}, 1e5, 0, false);
    space<3>(real, times(squareBases<T>(3), 0.1L, 0.01L), 1, 1e6, false);
    space<4>(like, times(squareBases<T>(4), 0.1L, 0.01L), 1, 1e6, false);
    space<5>(like, times(squareBases<T>(5), 0.1L, 0.01L), 1, g().thorough ? 1e6 : 0, false);
    space<6>(like, times(squareBases<T>(6), 0.3L), 1, 0, false);
    space<7>(like, times(squareBases<T>(7), 0.7L, 0.003L), 1, 0, false, g().thorough);
  }
  scaled<1>(); scaled<2>(); scaled<3>(); scaled<4>(); scaled<5>(); scaled<6>();
#elif VMC_PART == 1
  if (std::is_same<T, double>::value || g().thorough) space<4>(ints<T>(-1, 1), {}, 1e8, 0, true);
  else space<4>({T(0), T(1)}, {}, 1e8, 0, true);
  if (g().thorough && !kInt) space<5>({T(0), T(1)}, {}, 1e8, 0, true);
#else
  space<4>(ints<T>(-9, 9), squareBases<T>(4), 1, 1e6, false);
  space<5>(ints<T>(-3, 3), squareBases<T>(5), 1, g().thorough ? 1e6 : 0, false);
  space<6>(ints<T>(-2, 2), squareBases<T>(6), 1, g().thorough ? 1e6 : 0, false);
  space<7>(ints<T>(-1, 1), squareBases<T>(7), 1, 0, false);
  space<8>({T(1)}, squareBases<T>(8), 1, 0, false);
  space<9>({T(1)}, squareBases<T>(9), 1, 0, false, g().thorough);
  space<10>({T(1)}, squareBases<T>(10), 1, 0, false, g().thorough);
  permuted<4>(); permuted<5>(); permuted<6>();
  if (g().thorough) permuted<7>();
  forNs(range<4, 28>(), [](auto n) { big<decltype(n)::value>(); }); big<33>();
  if (g().thorough) forNs(Ns<32, 40>(), [](auto n) { big<decltype(n)::value>(); });
#endif
  return finish();
}
