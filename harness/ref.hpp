// Reference model of the linear algebra operations: definitions, in exact integer
// arithmetic (__int128) or long double, written without the library.
#ifndef REF_HPP_
#define REF_HPP_
#include "vmc.hpp"
#include "alphabet.hpp"
namespace vmc {

typedef std::vector<std::vector<i128>> IMat;    // exact integer matrix
typedef std::vector<std::vector<long double>> LMat;

// determinant by the definition, as a dynamic programme over column subsets (no division); n <= 14
template <class I> I detExact(const I* a, size_t n)
{
  if (n == 1) return a[0];
  if (n == 2) return a[0] * a[3] - a[1] * a[2];
  if (n == 3) return a[0] * (a[4] * a[8] - a[5] * a[7]) - a[1] * (a[3] * a[8] - a[5] * a[6]) + a[2] * (a[3] * a[7] - a[4] * a[6]);
  if (n == 4)
  {
    I s[6], c[6];
    s[0] = a[0] * a[5] - a[4] * a[1]; s[1] = a[0] * a[6] - a[4] * a[2]; s[2] = a[0] * a[7] - a[4] * a[3];
    s[3] = a[1] * a[6] - a[5] * a[2]; s[4] = a[1] * a[7] - a[5] * a[3]; s[5] = a[2] * a[7] - a[6] * a[3];
    c[5] = a[10] * a[15] - a[14] * a[11]; c[4] = a[9] * a[15] - a[13] * a[11]; c[3] = a[9] * a[14] - a[13] * a[10];
    c[2] = a[8] * a[15] - a[12] * a[11]; c[1] = a[8] * a[14] - a[12] * a[10]; c[0] = a[8] * a[13] - a[12] * a[9];
    return s[0] * c[5] - s[1] * c[4] + s[2] * c[3] + s[3] * c[2] - s[4] * c[1] + s[5] * c[0];
  }
  static std::vector<I> d; d.assign((size_t)1 << n, I(0)); d[0] = 1;
  for (size_t S = 0; S + 1 < ((size_t)1 << n); ++S)
  {
    if (d[S] == 0) continue;
    size_t row = (size_t)__builtin_popcountll(S);
    for (size_t c = 0; c < n; ++c)
    {
      if (S >> c & 1) continue;
      I x = a[row * n + c];
      if (x == 0) continue;
      int later = __builtin_popcountll(S >> c);     // inversions with columns taken before
      if (later & 1) d[S | (size_t)1 << c] -= x * d[S]; else d[S | (size_t)1 << c] += x * d[S];
    }
  }
  return d[((size_t)1 << n) - 1];
}
template <class I> I minorExact(const I* a, size_t n, size_t r, size_t c)
{
  if (n == 1) return 1;
  I b[196]; size_t k = 0;
  for (size_t i = 0; i < n; ++i) { if (i == r) continue; for (size_t j = 0; j < n; ++j) if (j != c) b[k++] = a[i * n + j]; }
  return detExact<I>(b, n - 1);
}
// product of the euclidean norms of the rows (Hadamard): the scale of rounding errors in a determinant
template <class T, size_t N> long double hadamard(const Mat<T, N, N>& A)
{
  long double p = 1;
  for (auto& r : A) { long double s = 0; for (auto& x : r) s += (long double)x * (long double)x; p *= std::sqrt(s); }
  return p;
}
template <class T> long double epsOf() { return std::is_floating_point<T>::value ? (long double)std::numeric_limits<T>::epsilon() : 0; }

template <class T, size_t N> void toInts(const Mat<T, N, N>& A, long long* a, long double scale = 1)
{ for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) a[i * N + j] = (long long)((long double)A[i][j] / scale); }

// fixed base patterns of n x n cells for elimination algorithms
template <class T> std::vector<std::vector<T>> squareBases(size_t n, bool rich = true)
{
  std::vector<std::vector<T>> B;
  auto make = [&](std::function<int(int, int)> f) { std::vector<T> v; for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) v.push_back(T(f((int)i, (int)j))); B.push_back(v); };
  int N = (int)n;
  make([](int i, int j) { return i == j; });                                   // identity
  make([N](int i, int j) { return i + j == N - 1; });                          // exchange
  make([N](int i, int j) { return (i + 1) % N == j ? 1 : 0; });                // cycle
  make([](int i, int j) { return i == j ? 2 : (j == i + 1 || i == j + 1) ? -1 : 0; });
  if (!rich) return B;
  make([](int i, int j) { return (i * 7 + j * j * 3 + i * j * 5 + 2) % 7 - 3; });
  make([](int i, int j) { return j < i ? 0 : ((i * 3 + j * 5) % 5 + 1) * ((i + j) % 2 ? -1 : 1); });
  make([N](int i, int j) { int k = (i + 2) % N; return j < k ? 0 : (k * 3 + j) % 4 + 1; });      // upper triangular with rows rotated
  make([](int i, int j) { return i == 0 ? j + 1 : i == 1 ? 2 * (j + 1) : (i * i + j * 3) % 5 - 2; });  // two dependent rows
  make([](int i, int j) { return i == j ? 0 : (i * 2 + j) % 3 + 1; });         // zero diagonal
  make([](int, int) { return 1; });
  make([](int, int) { return 0; });
  return B;
}

// all permutations of n elements in a fixed order; f(perm, sign)
inline void permutations(size_t n, const std::function<void(const std::vector<size_t>&, int)>& f)
{
  std::vector<size_t> p(n);
  for (size_t i = 0; i < n; ++i) p[i] = i;
  do
  {
    int s = 1;
    for (size_t i = 0; i < n; ++i) for (size_t j = i + 1; j < n; ++j) if (p[i] > p[j]) s = -s;
    f(p, s);
  } while (std::next_permutation(p.begin(), p.end()));
}

}  // namespace vmc
#endif
