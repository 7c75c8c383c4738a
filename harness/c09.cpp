// C09: trans, swap_rows, swap_cols, getminor only move elements. -DVMC_T=type -DVMC_PART=0 trans, 1 swaps, 2 minors
#include "alphabet.hpp"
using namespace vmc;
typedef VMC_T T;

template <size_t R, size_t C> Space<T> spaceFor()
{
  Space<T> sp = wideSpace<T>(R * C);
  sp.fullLimit = 4000; sp.dev2Limit = g().thorough ? 1e6 : 1e4;
  if (R * C > 60) sp.alpha.resize(5);
  if (R * C > 400) { sp.dev1Limit = g().thorough ? 1e18 : 2500; }
  return sp;
}
template <size_t R, size_t C> void transShape()
{
  if (!mine()) return;
  static Mat<T, R, C> A;
  Unit u("mlib::trans(A)"); u.in("A", A);
  Cells<T> c; c.add(A);
  enumerate<T>(u, c, spaceFor<R, C>(), [&] {
    call();
    const Mat<T, R, C> keep = A;
    Mat<T, C, R> B = mlib::trans(A);
    for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < C; ++j) if (!same(B[j][i], A[i][j])) fail(B, A, "element (" + std::to_string(i) + "," + std::to_string(j) + ")");
    if (!same(A, keep)) fail(A, keep, "the argument was changed");
    agreed(B);
  });
}
// the ends, the middle and around the powers of two
bool near(size_t a, size_t n) { if (a < 2 || a + 3 > n || a == n / 2 || a == n / 3) return true; for (size_t p : {64, 128, 256, 32768, 65536}) if (a + 1 >= p && a <= p + 1) return true; return false; }
template <size_t R, size_t C> void swapShape()
{
  static Mat<T, R, C> A, B; static size_t a, b;
  for (int cols = 0; cols < 2; ++cols)
  {
    if (!mine()) continue;
    // the call is made on a copy: replay prints A before
    Unit u(cols ? "(mlib::swap_cols(A, a, b), A)" : "(mlib::swap_rows(A, a, b), A)"); u.in("A", A).in("a", a).in("b", b);
    const size_t n = cols ? C : R;
    Cells<T> c; c.add(A);
    Space<T> sp = spaceFor<R, C>();
    sp.dev2Limit = 0; sp.fullLimit = 200;
    if (R * C > 16 && sp.alpha.size() > 12) sp.alpha.resize(12);
    if (R * C > 64) { sp.alpha.resize(1); sp.dev1Limit = 0; }
    enumerate<T>(u, c, sp, [&] {
      for (a = 0; a < n; ++a) for (b = 0; b < n; ++b)
      {
        if (n > 1000 && !near(a, n)) break;
        if (n > 100 && !(near(a, n) && near(b, n)) && !(n < 1000 && (a == b || a + 1 == b || a + b == n - 1))) continue;
        if (n > 40 && n <= 100 && a != b && a % 7 && b % 5 && a + 1 != b && b + 1 != a && a + b != n - 1) continue;
        call();
        B = A;
        if (cols) mlib::swap_cols(B, a, b); else mlib::swap_rows(B, a, b);
        for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < C; ++j)
        {
          size_t si = i, sj = j;
          if (cols) sj = j == a ? b : j == b ? a : j; else si = i == a ? b : i == b ? a : i;
          if (!same(B[i][j], A[si][sj])) fail(B, "lines " + std::to_string(a) + " and " + std::to_string(b) + " exchanged", "element (" + std::to_string(i) + "," + std::to_string(j) + ")");
        }
        agreed(B);
      }
    });
  }
}
template <size_t N> void minors()
{
  if (!mine()) return;
  static Mat<T, N, N> A; static size_t a, b;
  Unit u("mlib::getminor(A, a, b)"); u.in("A", A).in("a", a).in("b", b);
  Cells<T> c; c.add(A);
  Space<T> sp = spaceFor<N, N>();
  sp.dev2Limit = 0; sp.fullLimit = 200;
  if (N * N > 16 && sp.alpha.size() > 12) sp.alpha.resize(12);
  if (N * N > 64) { sp.alpha.resize(1); sp.dev1Limit = N > 12 ? 0 : 1e18; }
  enumerate<T>(u, c, sp, [&] {
    for (a = 0; a < N; ++a) for (b = 0; b < N; ++b)
    {
      if (N > 40 && !(near(a, N) && near(b, N)) && !(N < 200 && a == b)) continue;
      call();
      const Mat<T, N, N> keep = A;
      Mat<T, N - 1, N - 1> M = mlib::getminor(A, a, b);
      for (size_t i = 0; i + 1 < N; ++i) for (size_t j = 0; j + 1 < N; ++j)
        if (!same(M[i][j], A[i < a ? i : i + 1][j < b ? j : j + 1])) fail(M, "A without row " + std::to_string(a) + " and column " + std::to_string(b), "element (" + std::to_string(i) + "," + std::to_string(j) + ")");
      if (!same(A, keep)) fail(A, keep, "the argument was changed");
      agreed(M);
    }
  });
}
int main(int argc, char** argv)
{
  init("C09", argc, argv);
#if VMC_PART == 0
  forNs(Ns<1, 2, 3, 4, 5, 6, 7, 8>(), [](auto r) { forNs(Ns<1, 2, 3, 4, 5, 6, 7, 8>(), [](auto c) { transShape<decltype(r)::value, decltype(c)::value>(); }); });
  forNs(Ns<9, 10, 11, 12, 13, 14, 15, 16, 17, 20, 24, 31, 32, 33, 48, 64, 65, 100, 128, 129>(), [](auto n) { constexpr size_t N = decltype(n)::value; transShape<N, N>(); transShape<1, N>(); transShape<N, 1>(); transShape<2, N>(); transShape<N, 3>(); transShape<N, N + 1>(); });
  transShape<257, 257>(); transShape<255, 256>(); transShape<300, 2>(); transShape<2, 300>(); transShape<300, 300>(); transShape<1, 65537>(); transShape<65537, 1>();
#elif VMC_PART == 1
  forNs(Ns<1, 2, 3, 4, 5, 6, 7, 8>(), [](auto r) { forNs(Ns<1, 2, 3, 4, 5, 6, 7, 8>(), [](auto c) { swapShape<decltype(r)::value, decltype(c)::value>(); }); });
  forNs(Ns<9, 10, 11, 12, 13, 16, 17, 20, 32, 33, 64, 65>(), [](auto n) { constexpr size_t N = decltype(n)::value; swapShape<N, N>(); swapShape<1, N>(); swapShape<N, 1>(); swapShape<2, N>(); swapShape<N, 3>(); });
  swapShape<129, 2>(); swapShape<2, 129>(); swapShape<257, 2>(); swapShape<2, 257>(); swapShape<300, 300>(); swapShape<65537, 1>(); swapShape<1, 65537>();
#else
  forNs(Ns<2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 20, 24, 32, 33, 64, 65, 100, 129, 257>(), [](auto n) { minors<decltype(n)::value>(); });
#endif
  return finish();
}
