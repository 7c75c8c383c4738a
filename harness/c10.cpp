// C10: concatenation. -DVMC_T=type -DVMC_PART=0
#include "alphabet.hpp"
using namespace vmc;
typedef VMC_T T;

template <size_t R, size_t C> Space<T> spaceFor()
{
  Space<T> sp = wideSpace<T>(R * C);
  sp.fullLimit = 4000; sp.dev2Limit = g().thorough ? 1e6 : 1e4;
  if (R * C > 30) sp.alpha.resize(6);
  if (R * C > 200) sp.alpha.resize(2);
  if (R * C > 600 && !g().thorough) sp.dev1Limit = 0;
  return sp;
}
template <size_t R1, size_t C1, size_t R2, size_t C2> void checkV(const Mat<T, R1 + R2, C1>& X, const Mat<T, R1, C1>& A, const Mat<T, R2, C2>& B)
{ for (size_t i = 0; i < R1 + R2; ++i) for (size_t j = 0; j < C1; ++j) if (!same(X[i][j], i < R1 ? A[i][j] : B[i - R1][j])) fail(X, "A above B", "element (" + std::to_string(i) + "," + std::to_string(j) + ")"); }
template <size_t R1, size_t C1, size_t R2, size_t C2> void checkH(const Mat<T, R1, C1 + C2>& X, const Mat<T, R1, C1>& A, const Mat<T, R2, C2>& B)
{ for (size_t i = 0; i < R1; ++i) for (size_t j = 0; j < C1 + C2; ++j) if (!same(X[i][j], j < C1 ? A[i][j] : B[i][j - C1])) fail(X, "A left of B", "element (" + std::to_string(i) + "," + std::to_string(j) + ")"); }

template <size_t R1, size_t R2, size_t C> void vertical()
{
  if (!mine()) return;
  static Mat<T, R1, C> A; static Mat<T, R2, C> B;
  Unit u("mlib::concatenate(A, B)"); u.in("A", A).in("B", B);
  Cells<T> c; c.add(A).add(B);
  enumerate<T>(u, c, spaceFor<R1 + R2, C>(), [&] { call(); Mat<T, R1 + R2, C> X = mlib::concatenate(A, B); checkV<R1, C, R2, C>(X, A, B); agreed(X); });
}
template <size_t R, size_t C1, size_t C2> void horizontal()
{
  if (!mine()) return;
  static Mat<T, R, C1> A; static Mat<T, R, C2> B;
  Unit u("mlib::concatenate(A, B)"); u.in("A", A).in("B", B);
  Cells<T> c; c.add(A).add(B);
  enumerate<T>(u, c, spaceFor<R, C1 + C2>(), [&] { call(); Mat<T, R, C1 + C2> X = mlib::concatenate(A, B); checkH<R, C1, R, C2>(X, A, B); agreed(X); });
}
template <size_t N> void square()
{
  static Mat<T, N, N> A, B;
  for (int form = 0; form < 3; ++form)
  {
    if (!mine()) continue;
    Unit u(form == 0 ? "mlib::concatenate(A, B)" : form == 1 ? "mlib::concatenateV(A, B)" : "mlib::concatenateH(A, B)"); u.in("A", A).in("B", B);
    Cells<T> c; c.add(A).add(B);
    enumerate<T>(u, c, spaceFor<2 * N, N>(), [&] {
      call();
      const Mat<T, N, N> ka = A, kb = B;
      if (form == 0)
      {
        auto p = mlib::concatenate(A, B);
        checkV<N, N, N, N>(p.first, A, B); checkH<N, N, N, N>(p.second, A, B); agreed(p);
      }
      else if (form == 1) { Mat<T, 2 * N, N> X = mlib::concatenateV(A, B); checkV<N, N, N, N>(X, A, B); agreed(X); }
      else { Mat<T, N, 2 * N> X = mlib::concatenateH(A, B); checkH<N, N, N, N>(X, A, B); agreed(X); }
      if (!same(A, ka) || !same(B, kb)) fail(A, ka, "an argument was changed");
      call();   // one object on both sides
      if (form == 0) { auto p = mlib::concatenate(B, B); checkV<N, N, N, N>(p.first, B, B); checkH<N, N, N, N>(p.second, B, B); }
      else if (form == 1) checkV<N, N, N, N>(mlib::concatenateV(B, B), B, B);
      else checkH<N, N, N, N>(mlib::concatenateH(B, B), B, B);
    });
  }
}
int main(int argc, char** argv)
{
  init("C10", argc, argv);
  forNs(Ns<1, 2, 3, 4, 5, 6>(), [](auto a) { forNs(Ns<1, 2, 3, 4, 5, 6>(), [](auto b) { forNs(Ns<1, 2, 3, 4, 5>(), [](auto s) {
    constexpr size_t A = decltype(a)::value, B = decltype(b)::value, S = decltype(s)::value;
    if constexpr (A != B) { vertical<A, B, S>(); horizontal<S, A, B>(); }
  }); }); });
  forNs(Ns<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 20, 31, 32, 33, 64, 65, 128, 129, 255, 257>(), [](auto n) { square<decltype(n)::value>(); });
  vertical<1, 10, 7>(); vertical<10, 1, 7>(); vertical<7, 9, 8>(); vertical<8, 4, 8>(); vertical<4, 8, 8>(); vertical<16, 15, 3>(); vertical<16, 1, 16>(); vertical<1, 16, 16>(); vertical<32, 33, 9>(); vertical<64, 1, 10>(); vertical<9, 17, 33>(); vertical<2, 3, 64>(); vertical<10, 20, 10>(); vertical<1, 2, 100>(); vertical<1, 300, 2>(); vertical<300, 1, 2>(); vertical<255, 1, 3>(); vertical<1, 256, 3>(); vertical<128, 127, 2>(); vertical<129, 128, 2>(); vertical<2, 1, 300>(); vertical<256, 257, 3>(); vertical<65535, 2, 1>();
  horizontal<7, 1, 10>(); horizontal<7, 10, 1>(); horizontal<8, 7, 9>(); horizontal<8, 8, 4>(); horizontal<8, 4, 8>(); horizontal<3, 16, 15>(); horizontal<16, 16, 1>(); horizontal<16, 1, 16>(); horizontal<9, 32, 33>(); horizontal<10, 64, 1>(); horizontal<33, 9, 17>(); horizontal<64, 2, 3>(); horizontal<10, 10, 20>(); horizontal<100, 1, 2>(); horizontal<2, 1, 300>(); horizontal<2, 300, 1>(); horizontal<3, 255, 1>(); horizontal<3, 1, 256>(); horizontal<2, 128, 127>(); horizontal<2, 129, 128>(); horizontal<300, 2, 1>(); horizontal<3, 256, 257>(); horizontal<1, 65535, 2>();
  return finish();
}
