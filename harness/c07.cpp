// C07: Cholesky and the symmetry predicate. -DVMC_T=type -DVMC_PART=0 chol, 1 isSymetric
#include "ref.hpp"
using namespace vmc;
typedef VMC_T T;
constexpr bool kInt = std::is_integral<T>::value;

#if VMC_PART == 0
// A = L0*trans(L0) exactly computable: chol has to return L0
template <size_t N> void exactSpace(std::vector<T> diag, std::vector<T> off, double full, double dev2, std::vector<int> scales = {0})
{
  static Mat<T, N, N> A, L0;
  for (int sc : scales)
  {
    if (kInt && sc) continue;
    if (!mine()) continue;
    Unit u("mlib::chol(A)"); u.in("A", A);
    auto visit = [&] {
      for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) { T s = T(0); for (size_t k = 0; k <= std::min(i, j); ++k) s += L0[i][k] * L0[j][k]; A[i][j] = sc ? (T)std::ldexp((long double)s, 2 * sc) : s; }
      call();
      Mat<T, N, N> L = mlib::chol(A);
      for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j)
        if (!(L[i][j] == (sc ? (T)std::ldexp((long double)L0[i][j], sc) : L0[i][j]))) fail(L, L0, "element (" + std::to_string(i) + "," + std::to_string(j) + ")");
      agreed(L);
    };
    double f = 1; for (size_t i = 0; i < N; ++i) f *= diag.size(); for (size_t i = 0; i < N * (N - 1) / 2; ++i) f *= off.size();
    if (f <= full)
    {
      // diagonal by an odometer, the rest by the explorer
      std::vector<size_t> d(N, 0);
      for (;;)
      {
        L0 = Mat<T, N, N>{};
        Cells<T> c;
        for (size_t i = 0; i < N; ++i) { L0[i][i] = diag[d[i]]; for (size_t j = 0; j < i; ++j) c.add(L0[i][j]); }
        Space<T> sp; sp.alpha = off; sp.fullLimit = 1e12;
        enumerate<T>(u, c, sp, visit);
        size_t i = 0; for (; i < N; ++i) { if (++d[i] < diag.size()) break; d[i] = 0; }
        if (i == N) break;
      }
      continue;
    }
    // bases with deviations in the strict lower part and with every single changed diagonal element
    for (int b = 0; b < 4; ++b) for (size_t dk = 0; dk <= N; ++dk) for (T dv : diag)
    {
      if (dk == N && dv != diag[0]) continue;
      L0 = Mat<T, N, N>{};
      Cells<T> c; std::vector<T> base;
      for (size_t i = 0; i < N; ++i) { L0[i][i] = i == dk ? dv : T(b == 1 ? 1 + (int)i % 3 : b == 2 ? 2 : 1); for (size_t j = 0; j < i; ++j) { c.add(L0[i][j]); base.push_back(T(b == 0 ? 0 : b == 1 ? ((int)(i + 2 * j) % 3) - 1 : b == 2 ? (i == j + 1 ? -1 : 0) : (int)(i * j) % 2)); } }
      Space<T> sp; sp.alpha = off; sp.bases = {base}; sp.fullLimit = 1; sp.dev2Limit = dk == N ? dev2 : 0; sp.dev1Limit = N <= 10 || dk == N ? 1e18 : 0;
      enumerate<T>(u, c, sp, visit);
    }
  }
}
// any positive definite matrix: backward error, structure, positive diagonal
template <size_t N> void judge(const Mat<T, N, N>& A)
{
  call();
  Mat<T, N, N> L = mlib::chol(A);
  for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j)
  {
    if (j > i && !(L[i][j] == T(0))) fail(L, "zeros above the diagonal");
    if (i == j && !(L[i][i] > T(0))) fail(L, "positive diagonal");
    long double s = 0, m = 0;
    for (size_t k = 0; k <= std::min(i, j); ++k) { long double x = (long double)L[i][k] * (long double)L[j][k]; s += x; m += std::fabs(x); }
    if (!within(s - (long double)A[i][j], 8 * (N + 2) * epsOf<T>() * std::sqrt((long double)A[i][i] * (long double)A[j][j]))) fail(L, A, "L*trans(L) differs at (" + std::to_string(i) + "," + std::to_string(j) + ")");
  }
  agreed(L);
}
template <size_t N> bool definite(const Mat<T, N, N>& A, long double margin)
{
  long double a[N * N];
  long double p = 1;
  for (size_t n = 1; n <= N; ++n) { p *= (long double)A[n - 1][n - 1]; for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) a[i * n + j] = (long double)A[i][j]; if (!(detExact<long double>(a, n) > margin * p) || !(p > 0)) return false; }
  return true;
}
template <size_t N> void spd(std::vector<T> diag, std::vector<T> off, double full, double f, std::vector<int> scales = {0})
{
  if (kInt || !mine()) return;
  static Mat<T, N, N> A;
  Unit u("mlib::chol(A)"); u.in("A", A);
  for (int sc : scales)
  {
    std::vector<size_t> d(N, 0);
    for (;;)
    {
      std::vector<T> lower(N * (N - 1) / 2, T(0));
      Cells<T> c; for (auto& x : lower) c.add(x);
      Space<T> sp; sp.alpha = off; sp.fullLimit = full; sp.dev2Limit = 3000; sp.bases = {{T(0)}, {off.back()}, {T(off[1]), T(0), T(-off[1])}};
      enumerate<T>(u, c, sp, [&] {
        size_t k = 0;
        for (size_t i = 0; i < N; ++i) { A[i][i] = (T)std::ldexp((long double)diag[d[i]] * f, sc); for (size_t j = 0; j < i; ++j) A[i][j] = A[j][i] = (T)std::ldexp((long double)lower[k++] * f, sc); }
        if (!definite<N>(A, N * 100 * epsOf<T>())) { ++g().undefinedSkipped; return; }
        judge<N>(A);
      });
      size_t i = 0; for (; i < N; ++i) { if (++d[i] < diag.size()) break; d[i] = 0; }
      if (i == N) break;
    }
  }
}
template <size_t N> void bigSpd()
{
  if (kInt || !mine()) return;
  static Mat<T, N, N> A;
  Unit u("mlib::chol(A)"); u.in("A", A);
  for (int b = 0; b < 4; ++b) for (int sc : {-30, -7, 0, 7, 30}) for (size_t k = 0; k < N; ++k)
  {
    for (size_t i = 0; i < N; ++i) for (size_t j = 0; j <= i; ++j)
    {
      long double x = i == j ? (b == 3 ? 1.0L * N : 1.0L + (i == k) * 7) : b == 0 ? 0 : b == 1 ? (i == j + 1 ? -0.4L : 0) : b == 2 ? 0.3L / N * ((int)(i * 7 + j * 3) % 5 - 2) : 1 / (1.0L + i + j);
      A[i][j] = A[j][i] = (T)std::ldexp(x, sc);
    }
    ++u.cases; ++g().states;
    judge<N>(A);
  }
  g().modes["diagonally dominant bases"] += u.cases;
}
#else
template <size_t N> void sym(std::vector<T> alpha, double full, double dev2)
{
  if (!mine()) return;
  static Mat<T, N, N> A;
  Unit u("mlib::isSymetric(A)"); u.in("A", A);
  Cells<T> c; c.add(A);
  Space<T> sp; sp.alpha = alpha; sp.fullLimit = full; sp.dev2Limit = dev2;
  auto base = [&](std::function<int(int, int)> f) { std::vector<T> v; for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) v.push_back(T(f((int)i, (int)j))); sp.bases.push_back(v); };
  base([](int, int) { return 0; });
  base([](int i, int j) { return i == j; });
  base([](int i, int j) { return (std::max(i, j) * 5 + std::min(i, j)) % 23; });
  base([](int i, int j) { return (i * 5 + j) % 23; });
  base([](int i, int j) { return (i + j) % 23; });
  enumerate<T>(u, c, sp, [&] {
    bool w = true;
    for (size_t i = 0; i < N; ++i) { if (A[i][i] != A[i][i]) { ++g().undefinedSkipped; return; } for (size_t j = 0; j < N; ++j) if (i != j) w &= A[i][j] == A[j][i]; }
    call();
    bool got = mlib::isSymetric(A);
    if (got != w) fail(std::string(got ? "true" : "false"), std::string(w ? "true" : "false"));
    agreed((int)got);
  });
}
// one element off, along the borders, the diagonals and the edges of blocks
template <size_t N> void lone()
{
  if (!mine()) return;
  static Mat<T, N, N> A;
  Unit u("mlib::isSymetric(A)"); u.in("A", A);
  for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j) A[i][j] = T((std::max(i, j) * 5 + std::min(i, j)) % 23);
  auto ask = [&](bool want) { ++u.cases; ++g().states; call(); bool got = mlib::isSymetric(A); if (got != want) fail(std::string(got ? "true" : "false"), std::string(want ? "true" : "false")); agreed((int)got); };
  ask(true);
  auto edge = [](size_t a) { if (a == 0 || a + 1 == N || a == N / 2) return true; for (size_t p : {64, 128, 256}) if (a == p || a + 1 == p) return true; return false; };
  for (size_t i = 0; i < N; ++i) for (size_t j = 0; j < N; ++j)
  {
    if (!(edge(i) && edge(j)) && i != j && i + j != N - 1 && j + 1 != i && i + 1 != j && !(edge(i) && j % 3 == 0)) continue;
    const T keep = A[i][j];
    A[i][j] = T(30); ask(i == j); A[i][j] = keep;
  }
  g().modes["a single asymmetry"] += u.cases;
}
#endif

int main(int argc, char** argv)
{
  init("C07", argc, argv);
  const bool th = g().thorough;
#if VMC_PART == 0
  std::vector<T> d100; for (int i = 1; i <= 100; ++i) d100.push_back(T(i));
  const int lim = sizeof(T) == 4 ? 50 : 450;
  std::vector<int> sc = {0, -lim, -20, -10, -5, 5, 10, 20, lim};
  exactSpace<1>(d100, {T(0)}, 1e4, 0, sc);
  exactSpace<2>({T(1), T(2), T(3), T(4), T(5), T(7)}, ints<T>(-6, 6), 1e4, 0, sc);
  exactSpace<3>({T(1), T(2), T(3)}, ints<T>(-3, 3), 1e5, 0, sc);
  exactSpace<4>({T(1), T(2)}, {T(0), T(1), T(-1), T(2)}, 1e5, 0);
  exactSpace<5>({T(1)}, ints<T>(-1, 1), 1e5, 0);
  if (th) exactSpace<5>({T(1), T(2)}, ints<T>(-1, 1), 1e7, 0);
  exactSpace<5>({T(1), T(2), T(5)}, ints<T>(-4, 4), 1, 1e5, sc);
  exactSpace<6>({T(1), T(2), T(5)}, ints<T>(-4, 4), 1, 1e5); exactSpace<7>({T(1), T(2), T(5)}, ints<T>(-3, 3), 1, 1e5); exactSpace<8>({T(1), T(3)}, ints<T>(-3, 3), 1, 1e5);
  exactSpace<9>({T(1), T(3)}, ints<T>(-1, 2), 1, 1e4); exactSpace<10>({T(1), T(3)}, ints<T>(-1, 2), 1, 1e4);
  exactSpace<12>({T(1), T(3)}, ints<T>(-1, 2), 1, 1e3); exactSpace<13>({T(1), T(3)}, ints<T>(-1, 1), 1, 1); exactSpace<16>({T(1), T(3)}, ints<T>(-1, 1), 1, 1); exactSpace<17>({T(1), T(3)}, ints<T>(-1, 1), 1, 1);
  exactSpace<20>({T(1), T(3)}, {T(2)}, 1, 1); exactSpace<32>({T(1), T(3)}, {T(2)}, 1, 1); exactSpace<33>({T(1), T(3)}, {T(2)}, 1, 1);
  // factors with a tiny diagonal: the pivot is what is left of 1 - (1 - d*d)
  {
    const int h = std::is_same<T, float>::value ? -9 : std::is_same<T, double>::value ? -24 : -29;
    const T d0 = (T)std::ldexp(1.0L, h), d1 = (T)std::ldexp(1.0L, h / 2);
    exactSpace<2>({T(1), d0, d1}, ints<T>(-1, 1), 1e5, 0, {0, -20, 20}); exactSpace<3>({T(1), d0, d1}, ints<T>(-1, 1), 1e5, 0, {0, -20, 20});
    exactSpace<4>({d0, T(1)}, ints<T>(-1, 1), 1e5, 0); exactSpace<5>({T(1), d0, d1}, {T(0)}, 1, 0); exactSpace<8>({T(1), d0, d1}, {T(0)}, 1, 0); exactSpace<17>({T(1), d0}, {T(0)}, 1, 0);
  }
  std::vector<T> d9; for (int i = 1; i <= 9; ++i) d9.push_back(T(i));
  spd<1>(d9, {T(0), T(1)}, 1e4, 0.37, {-40, 0, 40});
  spd<2>(d9, ints<T>(-8, 8), 1e4, 0.37, {-40, -9, 0, 9, 40});
  spd<3>({T(1), T(2), T(3), T(5), T(6)}, ints<T>(-3, 3), 1e4, 0.1, {-20, 0, 20});
  spd<4>({T(2), T(3), T(5)}, ints<T>(-1, 1), 1e4, 1.3);
  spd<5>({T(3), T(7)}, ints<T>(-2, 2), 1, 0.7);
  spd<6>({T(4), T(7)}, ints<T>(-1, 1), 1, 0.01);
  forNs(range<7, 40>(), [](auto n) { bigSpd<decltype(n)::value>(); }); bigSpd<64>(); bigSpd<65>(); bigSpd<100>(); bigSpd<128>();
#else
  sym<1>(wideAlphabet<T>(), 1e4, 0);
  sym<2>(wideAlphabet<T>(), 1e7, 0);
  sym<3>({T(0), T(1), T(2), T(7)}, 1e6, 0);
  sym<4>({T(0), T(1)}, 1e6, 0);
  if (th) { sym<4>({T(0), T(1), T(3)}, 1e8, 0); sym<5>({T(0), T(1)}, 1e8, 0); }
  sym<3>(wideAlphabet<T>(), 1, 1e6); sym<4>(wideAlphabet<T>(), 1, 2e6); sym<5>({T(0), T(1), T(2), T(100)}, 1, 1e6); sym<6>(wideAlphabet<T>(), 1, 0);
  forNs(Ns<7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 20>(), [](auto n) { sym<decltype(n)::value>({T(0), T(1), T(2)}, 1, 1e5); });
  sym<32>({T(0), T(99)}, 1, 0); sym<33>({T(0), T(99)}, 1, 0); forNs(range<17, 40>(), [](auto n) { lone<decltype(n)::value>(); }); sym<64>({T(99)}, 1, 0); sym<65>({T(99)}, 1, 0); lone<100>(); lone<128>(); lone<129>(); lone<257>(); lone<300>();
#endif
  return finish();
}
