// C04: the determinant. -DVMC_T=type -DVMC_PART=0 small sizes complete, 1 n=4 and n=5 complete, 2 larger sizes
#include "ref.hpp"
using namespace vmc;
typedef VMC_T T;
constexpr bool kInt = std::is_integral<T>::value;

template <class I> I det5(const I* a)
{
  I r = 0;
  for (int c = 0; c < 5; ++c)
  {
    if (a[c] == 0) continue;
    I b[16]; int k = 0;
    for (int i = 1; i < 5; ++i) for (int j = 0; j < 5; ++j) if (j != c) b[k++] = a[i * 5 + j];
    I m = a[c] * detExact<I>(b, 4);
    r += c & 1 ? -m : m;
  }
  return r;
}
// H: product of max(1, norm) of the rows; bounds every minor of an integer matrix
template <size_t N> long double minorBound(const Mat<T, N, N>& A)
{
  long double p = 1;
  for (auto& r : A) { long double s = 0; for (auto& x : r) s += (long double)x * (long double)x; if (s > 1) p *= std::sqrt(s); }
  return p;
}
template <size_t N> bool fits(const Mat<T, N, N>& A)
{
  if (!kInt) return true;
  long double m = minorBound<N>(A);
  return m < (long double)std::numeric_limits<T>::max() / 2;
}
template <size_t N> void judge(const Mat<T, N, N>& A, long double want, long double tol)
{
  call();
  T d = mlib::det(A);
  if (std::is_unsigned<T>::value && want < 0) return;    // no unsigned value
  if (!within((long double)d - want, tol)) fail(d, std::to_string(want), "tolerance " + std::to_string(tol));
  agreed(d);
}
template <size_t N> long double tolerance(const Mat<T, N, N>& A) { return kInt ? 0 : 40 * N * epsOf<T>() * hadamard<T, N>(A); }

// all / deviations over small integers; exact up to n = 3 as products stay below 2^24
template <size_t N> void intSpace(std::vector<T> alpha, std::vector<std::vector<T>> bases, double full, double dev2, bool shard, bool exact)
{
  if (!shard && !mine()) return;
  static Mat<T, N, N> A;
  Unit u("mlib::det(A)"); u.in("A", A);
  Cells<T> c; c.add(A);
  Space<T> sp; sp.alpha = alpha; sp.bases = bases; sp.fullLimit = full; sp.dev2Limit = dev2; sp.shard = shard;
  enumerate<T>(u, c, sp, [&] {
    if (!fits<N>(A)) { ++g().undefinedSkipped; return; }
    long long a[N * N]; toInts<T, N>(A, a);
    long long w = N == 5 ? det5<long long>(a) : detExact<long long>(a, N);
    judge<N>(A, w, exact || kInt ? 0 : tolerance<N>(A));
  });
}
// floating values of any kind: long double reference by the definition
template <size_t N> void realSpace(std::vector<T> alpha, std::vector<std::vector<T>> bases, double dev2, bool devs = true)
{
  if (kInt || !mine()) return;
  static Mat<T, N, N> A;
  Unit u("mlib::det(A)"); u.in("A", A);
  Cells<T> c; c.add(A);
  Space<T> sp; sp.alpha = alpha; sp.bases = bases; sp.fullLimit = 20000; sp.dev2Limit = dev2; sp.dev1Limit = devs ? 1e18 : 0;
  enumerate<T>(u, c, sp, [&] {
    long double a[N * N], tol = tolerance<N>(A);
    if (!(tol < std::numeric_limits<T>::max() / 1e6) || (tol > 0 && tol < std::numeric_limits<T>::min() * 1e6)) { ++g().undefinedSkipped; return; }
    for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) a[i * N + j] = A[i][j];
    judge<N>(A, detExact<long double>(a, N), tol);
  });
}
// n = 2, 3 in wide integers: whenever every partial sum of products fits
template <size_t N> void wideInts(double dev2)
{
  if (!kInt || !mine()) return;
  static Mat<T, N, N> A;
  Unit u("mlib::det(A)"); u.in("A", A);
  Cells<T> c; c.add(A);
  Space<T> sp; sp.alpha = wideAlphabet<T>(); sp.bases = smallBases<T>(); sp.fullLimit = 3e6; sp.dev2Limit = dev2;
  enumerate<T>(u, c, sp, [&] {
    long double bound = 0; std::vector<size_t> p(N); for (size_t i = 0; i < N; ++i) p[i] = i;
    do { long double q = 1; for (size_t i = 0; i < N; ++i) q *= std::max(1.0L, std::fabs((long double)A[i][p[i]])); bool z = false; for (size_t i = 0; i < N; ++i) z |= A[i][p[i]] == T(0); (void)z; bound += q; } while (std::next_permutation(p.begin(), p.end()));
    if (bound >= (long double)std::numeric_limits<T>::max()) { ++g().undefinedSkipped; return; }
    i128 a[N * N]; for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) a[i * N + j] = (i128)A[i][j];
    T w = (T)detExact<i128>(a, N);
    call(); T d = mlib::det(A);
    if (d != w) fail(d, w);
    agreed(d);
  });
}
// n = 2 up to the limits: the two products and their difference fit
void limits2()
{
  if (!kInt || !mine()) return;
  static Mat<T, 2, 2> A;
  Unit u("mlib::det(A)"); u.in("A", A);
  Cells<T> c; c.add(A);
  Space<T> sp; sp.alpha = wideAlphabet<T>(); sp.fullLimit = 1e7;
  auto fit = [](i128 x) { return x >= (i128)std::numeric_limits<T>::min() && x <= (i128)std::numeric_limits<T>::max(); };
  enumerate<T>(u, c, sp, [&] {
    const i128 p = (i128)A[0][0] * (i128)A[1][1], q = (i128)A[0][1] * (i128)A[1][0];
    if (!fit(p) || !fit(q) || !fit(p - q)) { ++g().undefinedSkipped; return; }
    call(); T d = mlib::det(A);
    if (d != (T)(p - q)) fail(d, (T)(p - q));
    agreed(d);
  });
}
// n >= 4: does every minor fit the type? By expansion over the minors of the first rows of each set of rows; false when in doubt
template <size_t N> bool minorsFit(const Mat<T, N, N>& A, i128& det)
{
  typedef std::numeric_limits<T> L;
  static std::vector<i128> m; m.assign((size_t)1 << (2 * N), 0);       // [rows][columns]
  m[0] = 1;
  for (size_t R = 1; R < ((size_t)1 << N); ++R)
  {
    const size_t last = 63 - __builtin_clzll(R), R0 = R & ~((size_t)1 << last); const int k = __builtin_popcountll(R);
    for (size_t C = 1; C < ((size_t)1 << N); ++C)
    {
      if (__builtin_popcountll(C) != k) continue;
      i128 s = 0; long double mag = 0;
      for (size_t c = 0, pos = 0; c < N; ++c)
      {
        if (!(C >> c & 1)) continue;
        const i128 x = (i128)A[last][c], y = m[R0 << N | (C & ~((size_t)1 << c))];
        mag += std::fabs((long double)x) * std::fabs((long double)y);
        if (mag > 1.6e38L) return false;
        s += (((size_t)k - 1 + pos) & 1) ? -x * y : x * y;
        ++pos;
      }
      if (s < (i128)L::min() || s > (i128)L::max()) return false;
      m[R << N | C] = s;
    }
  }
  det = m[(((size_t)1 << N) - 1) << N | (((size_t)1 << N) - 1)];
  return true;
}
template <size_t N> void judgeLimits(Mat<T, N, N>& A)
{
  i128 w;
  if (!minorsFit<N>(A, w)) { ++g().undefinedSkipped; return; }
  call(); T d = mlib::det(A);
  if (d != (T)w) fail(d, (T)w);
  agreed(d);
}
std::vector<T> limitValues()
{
  typedef std::numeric_limits<T> L;
  std::vector<T> v = {T(1), L::max(), T(2), T(L::max() / 2), T(L::max() / 2 + 1), T(1ULL << (sizeof(T) * 4 % 64)), T((1ULL << (sizeof(T) * 4 % 64)) - 1), T(3)};
  if (L::is_signed) for (T x : {T(-1), L::min(), T(L::min() + 1), T(-2), T(L::min() / 2), T(-(T)(1ULL << (sizeof(T) * 4 % 64)))}) v.push_back(x);
  return v;
}
// all permutations of every diagonal over values at the limits of the type, with an off-diagonal line of another value
template <size_t N> void limits()
{
  if (!kInt) return;
  static Mat<T, N, N> A;
  std::vector<T> v = limitValues();
  if (N > 4) v = {v[0], v[1], v[3], v[4], v[5], v.back(), std::numeric_limits<T>::min(), T(std::numeric_limits<T>::min() + 1), T(-1)};
  if (N > 5) v = {v[0], v[1], v[3], std::numeric_limits<T>::min(), T(-1)};
  for (int off = 0; off < (N > 5 ? 2 : N > 4 && !g().thorough ? 3 : 5); ++off)
  {
    if (!mine()) continue;
    Unit u("mlib::det(A)"); u.in("A", A);
    const T o = off == 0 ? T(0) : off == 1 ? T(1) : off == 2 ? T(-1) : off == 3 ? std::numeric_limits<T>::max() : std::numeric_limits<T>::min();
    std::vector<size_t> ix(N, 0);
    for (;;)
    {
      long double mag = 1; for (auto k : ix) mag *= std::fabs((long double)v[k]);
      if (mag <= (long double)std::numeric_limits<T>::max() + 1)
        permutations(N, [&](const std::vector<size_t>& p, int) {
          for (size_t where = 0; where < (off ? 3u : 1u); ++where)
          {
            for (auto& r : A) r.fill(T(0));
            for (size_t i = 0; i < N; ++i)
            {
              A[p[i]][i] = v[ix[i]];
              if (where == 0 && i + 1 < N && off) A[p[i]][i + 1] = o;
              if (where == 1 && i == 0) A[p[0]][N - 1] = o;
              if (where == 2 && i == N - 1) A[p[N - 1]][0] = o;
            }
            ++u.cases; ++g().states; judgeLimits<N>(A);
          }
        });
      size_t k = 0; while (k < N && ++ix[k] == v.size()) ix[k++] = 0;
      if (k == N) break;
    }
    g().modes["permuted diagonals over values at the limits of the type"] += u.cases;
  }
}
// deviations towards the limits from structured matrices
template <size_t N> void limitDeviations(double dev2)
{
  if (!kInt || !mine()) return;
  static Mat<T, N, N> A;
  Unit u("mlib::det(A)"); u.in("A", A);
  Cells<T> c; c.add(A);
  Space<T> sp; sp.alpha = limitValues(); sp.bases = squareBases<T>(N); sp.fullLimit = 1; sp.dev2Limit = dev2;
  enumerate<T>(u, c, sp, [&] { judgeLimits<N>(A); });
}
// every permutation of the rows (and of the columns) of triangular matrices: all pivoting orders
template <size_t N> void permuted()
{
  static Mat<T, N, N> A;
  for (int kind = 0; kind < 4; ++kind)
  {
    if (!mine()) continue;
    Unit u("mlib::det(A)"); u.in("A", A);
    permutations(N, [&](const std::vector<size_t>& p, int sign) {
      long double w = sign;
      for (auto& r : A) r.fill(T(0));
      for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j)
      {
        int x = 0;
        int dg = kInt && N > 6 ? ((int)i % 2 ? -1 : 1) : (i % 3 == 0 ? 2 : i % 3 == 1 ? -1 : 3);
        if (i == j) x = dg;
        else if (kind == 1 && j > i) x = kInt && N > 5 ? (j == i + 1) : (int)((i + 2 * j) % 4) - 1;
        else if (kind == 2 && j < i) x = kInt && N > 5 ? (i == j + 1) : (int)((3 * i + j) % 4) - 2;
        else if (kind == 3 && j > i) x = kInt && N > 5 ? -(j == i + 1) : (int)((i + 2 * j) % 3);
        if (kind == 3) A[i][p[j]] = T(x); else A[p[i]][j] = T(x);
      }
      for (size_t i = 0; i < N; ++i) w *= kInt && N > 6 ? ((int)i % 2 ? -1 : 1) : (i % 3 == 0 ? 2 : i % 3 == 1 ? -1 : 3);
      ++u.cases; ++g().states;
      judge<N>(A, w, tolerance<N>(A));
    });
    g().modes["all row or column permutations of triangular matrices"] += u.cases;
  }
}
// larger sizes: bidiagonal and tridiagonal matrices with known determinant under every transposition, rotation and the exchange
template <size_t N> void big()
{
  static Mat<T, N, N> A;
  for (int kind = 0; kind < 3; ++kind)
  {
    if (!mine()) continue;
    Unit u("mlib::det(A)"); u.in("A", A);
    std::vector<std::vector<size_t>> perms;
    std::vector<size_t> id(N); for (size_t i = 0; i < N; ++i) id[i] = i;
    perms.push_back(id);
    for (size_t a = 0; a < N; ++a) for (size_t b = a + 1; b < N; ++b) { if (N > 20 && b != a + 1 && b != N - 1 && a != 0) continue; auto q = id; std::swap(q[a], q[b]); perms.push_back(q); }
    for (size_t s = 1; s < N; ++s) { auto q = id; std::rotate(q.begin(), q.begin() + s, q.end()); perms.push_back(q); }
    { auto q = id; std::reverse(q.begin(), q.end()); perms.push_back(q); }
    for (size_t zero = 0; zero <= N; ++zero)   // zero < N: that diagonal element is zero, the matrix singular
    {
      for (auto& q : perms)
      {
        if (zero < N && (&q - &perms[0]) % 5) continue;
        long double w = 1; int sign = 1;
        for (size_t i = 0; i < N; ++i) for (size_t j = i + 1; j < N; ++j) if (q[i] > q[j]) sign = -sign;
        for (auto& r : A) r.fill(T(0));
        if (kind == 2 && zero < N) continue;
        for (size_t i = 0; i < N; ++i)
        {
          int dg = kind == 2 ? (kInt ? 0 : 4) : kInt ? (i % 3 == 1 ? -1 : 1) : (i % 3 == 1 ? -1 : i % 5 == 0 ? 2 : 1);
          if (zero == i) dg = 0;
          w *= dg;
          A[q[i]][i] = T(dg);
          if (kind == 0 && i + 1 < N) A[q[i]][i + 1] = T(i % 2 ? 1 : -1);
          if (kind == 1 && i > 0) A[q[i]][i - 1] = T(i % 2 ? 1 : -1);
          if (kind == 2) { if (i + 1 < N) A[q[i]][i + 1] = T(1); if (i > 0) A[q[i]][i - 1] = T(1); }
        }
        if (kind == 2)   // d_k = c d_{k-1} - d_{k-2}
        {
          long double c = kInt ? 0 : 4, d0 = 1, d1 = c;
          for (size_t k = 2; k <= N; ++k) { long double d2 = c * d1 - d0; d0 = d1; d1 = d2; }
          w = d1;
        }
        ++u.cases; ++g().states;
        judge<N>(A, w * sign, tolerance<N>(A));
      }
    }
    g().modes["band matrices under transpositions and rotations"] += u.cases;
  }
}
// scaling by powers of two, whole matrix, one row, one column
template <size_t N> void scaled()
{
  if (kInt || !mine()) return;
  static Mat<T, N, N> A;
  Unit u("mlib::det(A)"); u.in("A", A);
  const int range = sizeof(T) == 4 ? 110 : 900;
  for (auto& b : squareBases<T>(N))
  {
    long long a[N * N]; for (size_t i = 0; i < N * N; ++i) a[i] = (long long)b[i];
    const long double w = (long double)detExact<long long>(a, N);
    for (int e = -range; e <= range; e += (g().thorough ? 1 : 4))
      for (size_t where = 0; where <= 2 * N; ++where)
      {
        // stay clear of underflow and overflow of products of two elements and of the determinant
        if (where == 2 * N ? std::abs(e) * (int)std::max<size_t>(N, 3) > range : (where % 3 || std::abs(e) * 3 > range)) continue;
        for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) A[i][j] = std::ldexp(b[i * N + j], where == 2 * N || where == i || where == N + j ? e : 0);
        ++u.cases; ++g().states;
        judge<N>(A, std::ldexp(w, where == 2 * N ? e * (int)N : e), tolerance<N>(A));
      }
  }
  // to both ends of the range of the determinant; products of these elements are exact there
  if (N <= 3 && sizeof(T) <= 8)
  {
    const int lo = std::numeric_limits<T>::min_exponent - std::numeric_limits<T>::digits, hi = std::numeric_limits<T>::max_exponent - 12;
    for (auto& b : squareBases<T>(N))
    {
      long long a[N * N]; for (size_t i = 0; i < N * N; ++i) a[i] = (long long)b[i];
      const long double w = (long double)detExact<long long>(a, N);
      for (int e = lo / (int)N; e <= hi / (int)N; ++e)
      {
        for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) A[i][j] = std::ldexp(b[i * N + j], e);
        ++u.cases; ++g().states;
        judge<N>(A, std::ldexp(w, e * (int)N), 0);
      }
    }
  }
  g().modes["base matrices scaled by powers of two"] += u.cases;
}
std::vector<std::vector<T>> times(std::vector<std::vector<T>> b, long double f, long double shift = 0)
{ for (auto& v : b) for (auto& x : v) x = (T)((long double)x * f + shift); return b; }

int main(int argc, char** argv)
{
  init("C04", argc, argv);
#if VMC_PART == 0
  if (mine())
  {
    static Mat<T, 1, 1> A; Unit u("mlib::det(A)"); u.in("A", A); Cells<T> c; c.add(A);
    Space<T> sp; sp.alpha = wideAlphabet<T>(); for (int i = -1000; i <= 1000; ++i) sp.alpha.push_back(T(i));
    enumerate<T>(u, c, sp, [&] { call(); T d = mlib::det(A); if (!same(d, A[0][0])) fail(d, A[0][0]); agreed(d); });
  }
  intSpace<2>(ints<T>(-9, 9), {}, 1e6, 0, false, true);
  intSpace<3>(ints<T>(-2, 2), {}, 1e7, 0, true, true);
  if (g().thorough) intSpace<3>(ints<T>(-3, 3), {}, 1e8, 0, true, true);
  intSpace<3>(ints<T>(-9, 9), squareBases<T>(3), 1, 1e6, false, true);
  wideInts<2>(1e6); wideInts<3>(1e6);
  limits2(); limits<4>(); limits<5>(); if (g().thorough) limits<6>();
  limitDeviations<4>(1e6); limitDeviations<5>(g().thorough ? 1e6 : 0);
  const std::vector<T> real = {T(0), T(0.1), T(-0.3), T(1) / T(3), T(1e-3), T(-7.77), T(123.456), T(1e5), T(-1e-5)};
  realSpace<2>(real, {}, 0);
  realSpace<3>(real, times(squareBases<T>(3), 0.1L, 0.01L), 1e6);
  // elimination is accurate relative to the largest element, not to each row: elements of like size from here on
  const std::vector<T> like = {T(0), T(0.1), T(-0.3), T(1) / T(3), T(1.5), T(-0.77), T(0.015), T(-2.1)};
  realSpace<4>(like, times(squareBases<T>(4), 0.1L, 0.01L), 1e6);
  realSpace<5>(like, times(squareBases<T>(5), 0.1L, 0.01L), g().thorough ? 1e6 : 1e5);
  realSpace<6>(like, times(squareBases<T>(6), 0.3L), 0); realSpace<7>(like, times(squareBases<T>(7), 0.7L, -0.003L), 0);
  realSpace<8>(like, times(squareBases<T>(8), 1e-2L), 0); realSpace<9>(like, times(squareBases<T>(9), 1.1L), 0, g().thorough);
  scaled<1>(); scaled<2>(); scaled<3>(); scaled<4>(); scaled<5>(); scaled<6>(); scaled<7>(); scaled<8>();
#elif VMC_PART == 1
  intSpace<4>(ints<T>(-1, 1), {}, 1e8, 0, true, false);
  if (!std::is_same<T, float>::value && (std::is_same<T, double>::value || g().thorough)) intSpace<5>({T(0), T(1)}, {}, 1e8, 0, true, false);
  if (g().thorough) intSpace<4>({T(0), T(1), T(-2), T(3)}, {}, 1e10, 0, true, false);
#else
  intSpace<4>(ints<T>(-9, 9), squareBases<T>(4), 1, 1e6, false, false);
  intSpace<5>(ints<T>(-4, 4), squareBases<T>(5), 1, 5e5, false, false);
  intSpace<6>(ints<T>(-3, 3), squareBases<T>(6), 1, g().thorough ? 1e6 : 0, false, false);
  intSpace<7>(ints<T>(-2, 2), squareBases<T>(7), 1, g().thorough ? 1e6 : 0, false, false);
  intSpace<8>(ints<T>(-2, 2), squareBases<T>(8), 1, 0, false, false);
  intSpace<9>(ints<T>(-1, 1), squareBases<T>(9), 1, 0, false, false);
  intSpace<10>(ints<T>(-1, 1), squareBases<T>(10), 1, 0, false, false);
  intSpace<11>({T(1)}, squareBases<T>(11), 1, 0, false, false);
  intSpace<12>({T(1)}, squareBases<T>(12), 1, 0, false, false);
  permuted<4>(); permuted<5>(); permuted<6>(); permuted<7>();
  if (g().thorough) { permuted<8>(); permuted<9>(); }
  forNs(range<4, 40>(), [](auto n) { big<decltype(n)::value>(); }); big<48>(); big<64>(); big<65>();
#endif
  return finish();
}
