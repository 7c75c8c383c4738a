// C16: fill, zeros, ones, eye. -DVMC_T=type -DVMC_PART=0 values and shapes, 1 sequences of calls
#include "alphabet.hpp"
#include <new>
using namespace vmc;
typedef VMC_T T;

// What a fresh result may be placed on: junk in the result's memory and on the stack below the caller.
__attribute__((noinline)) void paintStack(int b) { volatile unsigned char junk[1 << 14]; for (size_t i = 0; i < sizeof junk; ++i) junk[i] = (unsigned char)b; }
static const int PAINT[] = {0x00, 0xA5, 0xFF};

template <class M> struct Buf { alignas(64) static unsigned char b[sizeof(M)]; };
template <class M> alignas(64) unsigned char Buf<M>::b[sizeof(M)];

template <class M, class F> void made(F&& f, const M& want, int paint)
{
  typedef typename std::decay<decltype(f())>::type Got;
  call();
  if (!std::is_same<Got, M>::value) fail(std::string("a matrix of another type"), std::string("the stated shape and element type"));
  std::memset(Buf<Got>::b, paint, sizeof(Got));
  paintStack(paint);
  Got* p = new (Buf<Got>::b) Got(f());
  const M& r = *reinterpret_cast<const M*>(p);
  if (!same(r, want)) fail(r, want, "memory painted with " + std::to_string(paint));
  agreed(r);
}
template <class X, size_t R, size_t C> Mat<X, R, C> all(X x) { Mat<X, R, C> m; for (auto& r : m) for (auto& e : r) e = x; return m; }
template <class X, size_t N> Mat<X, N, N> diag(X x) { Mat<X, N, N> m = all<X, N, N>(X(0)); for (size_t i = 0; i < N; ++i) m[i][i] = x; return m; }

// few values for large matrices
std::vector<T> values(size_t cells) { std::vector<T> a = wideAlphabet<T>(); if (VMC_PART == 9) a.resize(6); return a; }
template <size_t R, size_t C> void shape()
{
  static Mat<T, R, C> w; static T x;
  std::string rc = std::to_string(R) + ", " + std::to_string(C);
  std::vector<T> A = values(R * C);
  {
    Unit u("mlib::fill<" + TName<T>::s() + ", " + rc + ">(x)"); u.in("x", x);
    for (T v : A) for (int p : PAINT) { x = v; ++u.cases; ++g().states; w = all<T, R, C>(v); made<Mat<T, R, C>>([&] { return mlib::fill<T, R, C>(x); }, w, p); }
  }
  {
    Unit u("mlib::zeros<" + TName<T>::s() + ", " + rc + ">()");
    for (int p : PAINT) { ++u.cases; ++g().states; w = all<T, R, C>(T(0)); made<Mat<T, R, C>>([] { return mlib::zeros<T, R, C>(); }, w, p); }
  }
  {
    Unit u("mlib::ones<" + TName<T>::s() + ", " + rc + ">()");
    for (int p : PAINT) { ++u.cases; ++g().states; w = all<T, R, C>(T(1)); made<Mat<T, R, C>>([] { return mlib::ones<T, R, C>(); }, w, p); }
  }
  {
    Unit u("mlib::ones<" + rc + ">()");
    static Mat<unsigned, R, C> o;
    for (int p : PAINT) { ++u.cases; ++g().states; o = all<unsigned, R, C>(1u); made<Mat<unsigned, R, C>>([] { return mlib::ones<R, C>(); }, o, p); }
  }
}
template <size_t N> void square()
{
  static Mat<T, N, N> w; static T x;
  std::string n = std::to_string(N);
  {
    Unit u("mlib::eye<" + TName<T>::s() + ", " + n + ">(x)"); u.in("x", x);
    for (T v : values(N * N)) for (int p : PAINT) { x = v; ++u.cases; ++g().states; w = diag<T, N>(v); made<Mat<T, N, N>>([&] { return mlib::eye<T, N>(x); }, w, p); }
  }
  {
    Unit u("mlib::eye<" + TName<T>::s() + ", " + n + ">()");
    for (int p : PAINT) { ++u.cases; ++g().states; w = diag<T, N>(T(1)); made<Mat<T, N, N>>([] { return mlib::eye<T, N>(); }, w, p); }
  }
  {
    Unit u("mlib::ones<" + TName<T>::s() + ", " + n + ">()");
    for (int p : PAINT) { ++u.cases; ++g().states; w = all<T, N, N>(T(1)); made<Mat<T, N, N>>([] { return mlib::ones<T, N>(); }, w, p); }
  }
  {
    Unit u("mlib::ones<" + n + ">()");
    static Mat<unsigned, N, N> o;
    for (int p : PAINT) { ++u.cases; ++g().states; o = all<unsigned, N, N>(1u); made<Mat<unsigned, N, N>>([] { return mlib::ones<N>(); }, o, p); }
  }
}
template <size_t R> void row() { forNs(Ns<1, 2, 3, 4, 5, 6, 7, 8>(), [](auto c) { if (mine()) shape<R, decltype(c)::value>(); }); }

// ---- all sequences of calls up to a depth
struct Step { std::string text; std::function<void()> run; };
static std::vector<Step> steps;
template <class X, size_t R, size_t C> void shapeSteps()
{
  std::string rc = "<" + TName<X>::s() + "," + std::to_string(R) + "," + std::to_string(C) + ">";
  for (int v : {0, 5}) { X x = (X)v; steps.push_back({"fill" + rc + "(" + std::to_string(v) + ")", [x] { made<Mat<X, R, C>>([&] { return mlib::fill<X, R, C>(x); }, all<X, R, C>(x), 0xA5); }}); }
  steps.push_back({"zeros" + rc + "()", [] { made<Mat<X, R, C>>([] { return mlib::zeros<X, R, C>(); }, all<X, R, C>(X(0)), 0xA5); }});
  steps.push_back({"ones" + rc + "()", [] { made<Mat<X, R, C>>([] { return mlib::ones<X, R, C>(); }, all<X, R, C>(X(1)), 0xA5); }});
}
template <class X, size_t N> void squareSteps()
{
  std::string n = "<" + TName<X>::s() + "," + std::to_string(N) + ">";
  steps.push_back({"eye" + n + "()", [] { made<Mat<X, N, N>>([] { return mlib::eye<X, N>(); }, diag<X, N>(X(1)), 0xA5); }});
  steps.push_back({"eye" + n + "(5)", [] { made<Mat<X, N, N>>([] { return mlib::eye<X, N>(X(5)); }, diag<X, N>(X(5)), 0xA5); }});
}

int main(int argc, char** argv)
{
  init("C16", argc, argv);
#if VMC_PART == 9
  forNs(range<1, 80>(), [](auto n) { constexpr size_t N = decltype(n)::value; if constexpr (inSlice(N)) { if (!mine()) return; shape<1, N>(); shape<N, 1>(); shape<2, N>(); shape<N, 3>(); if constexpr (N <= 48) { shape<N, N>(); shape<N, N + 1>(); square<N>(); } } });
#elif VMC_PART == 0
  row<1>(); row<2>(); row<3>(); row<4>(); row<5>(); row<6>(); row<7>(); row<8>();
  if (mine()) shape<1, 17>(); if (mine()) shape<17, 1>(); if (mine()) shape<9, 16>(); if (mine()) shape<16, 9>();
  if (mine()) shape<33, 31>(); if (mine()) shape<1, 257>(); if (mine()) shape<257, 1>(); if (mine()) shape<64, 65>(); if (mine()) shape<100, 3>(); if (mine()) shape<128, 128>(); if (mine()) shape<255, 256>(); if (mine()) shape<300, 300>(); if (mine()) shape<1, 65537>(); if (mine()) shape<65537, 1>(); if (mine()) shape<3, 300>(); if (mine()) shape<300, 2>();
  forNs(Ns<1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 31, 32, 33, 64, 65, 100, 128, 129, 181, 182, 200, 255, 256, 257, 300>(), [](auto n) { if (mine()) square<decltype(n)::value>(); });
#else
  shapeSteps<T, 1, 1>(); shapeSteps<T, 2, 2>(); shapeSteps<T, 2, 3>(); shapeSteps<T, 3, 2>(); shapeSteps<T, 3, 3>(); shapeSteps<unsigned, 2, 2>();
  squareSteps<T, 1>(); squareSteps<T, 2>(); squareSteps<T, 3>(); squareSteps<T, 4>(); squareSteps<unsigned, 2>();
  steps.push_back({"ones<2>()", [] { made<Mat<unsigned, 2, 2>>([] { return mlib::ones<2>(); }, all<unsigned, 2, 2>(1u), 0xA5); }});
  steps.push_back({"ones<2,3>()", [] { made<Mat<unsigned, 2, 3>>([] { return mlib::ones<2, 3>(); }, all<unsigned, 2, 3>(1u), 0xA5); }});
  const size_t n = steps.size(); const int depth = g().thorough ? 4 : 3;
  std::vector<size_t> seq((size_t)depth, 0);
  Unit u("a sequence of constructor calls");
  u.operands.push_back([&] { std::string s; for (size_t i : seq) s += steps[i].text + "; "; return s; });
  uint64_t total = 1; for (int k = 0; k < depth; ++k) total *= n;
  for (uint64_t s = 0; s < total; ++s)
  {
    uint64_t x = s; for (auto& q : seq) { q = x % n; x /= n; }
    ++u.cases; ++g().states;
    for (size_t q : seq) steps[q].run();
  }
  g().modes["all sequences of constructor calls"] += total;
#endif
  return finish();
}
