// C13: mean, variance, standard deviation. -DVMC_T=type -DVMC_PART=0
#include "ref.hpp"
using namespace vmc;
typedef VMC_T T;
constexpr bool kInt = std::is_integral<T>::value;

template <size_t R, size_t C> struct Shape
{
  static Mat<T, R, C> A;
  static void judgeInt()
  {
    const long long n = R * C;
    i128 s = 0, a = 0;
    for (auto& r : A) for (auto& x : r) { s += (i128)x; a += (i128)x < 0 ? -(i128)x : (i128)x; }
    if (a > (i128)INT64_MAX) { ++g().undefinedSkipped; return; }      // the sum is formed in 64 bits
    call();
    T m = mlib::mean(A);
    if ((i128)m != s / n) fail(m, (T)(s / n));
    agreed(m);
  }
  static void judge(int form)
  {
    const long double n = R * C, eps = epsOf<T>();
    long double s = 0, a = 0, top = 0; bool whole = true;
    for (auto& r : A) for (auto& x : r) { s += (long double)x; a += std::fabs((long double)x); top = std::max(top, std::fabs((long double)x)); whole = whole && (long double)x == std::floor((long double)x); }
    if (!(a < (long double)std::numeric_limits<T>::max() / 4)) { ++g().undefinedSkipped; return; }
    const long double m = s / n, tiny = 4 * (long double)std::numeric_limits<T>::min();
    const bool exactSum = whole && a < 1 / eps;
    call();
    const Mat<T, R, C> keep = A;
    if (form == 0)
    {
      T got = mlib::mean(A);
      if (!within((long double)got - m, (exactSum ? 2 * eps * std::fabs(m) : (n + 2) * 2 * eps * a / n) + tiny)) fail(got, std::to_string(m));
      agreed(got);
    }
    else
    {
      long double v = 0; bool wholeDev = exactSum && m == std::floor(m);
      for (auto& r : A) for (auto& x : r) v += ((long double)x - m) * ((long double)x - m);
      if (!(v < (long double)std::numeric_limits<T>::max() / 4)) { ++g().undefinedSkipped; return; }
      wholeDev = wholeDev && v < 1 / eps;
      v /= n;
      // the mean is off by at most delta, which adds delta^2; every squared deviation and the sum round
      const long double delta = exactSum ? 2 * eps * std::fabs(m) : (n + 2) * 2 * eps * a / n;
      // squares of small deviations may underflow
      const long double tol = (wholeDev ? 4 * eps * v : (4 * n + 16) * eps * v + 4 * delta * delta) + tiny + 1e-3L * tiny;
      T got = form == 1 ? mlib::var(A) : mlib::stddev(A);
      if (form == 1) { if (!within((long double)got - v, tol)) fail(got, std::to_string(v), "tolerance " + std::to_string(tol)); }
      else if (!((long double)got >= 0) || !within((long double)got * (long double)got - v, tol + 8 * eps * v)) fail(got, std::to_string(std::sqrt(v)));
      agreed(got);
    }
    if (!same(A, keep)) fail(A, keep, "the argument was changed");
  }
};
template <size_t R, size_t C> Mat<T, R, C> Shape<R, C>::A;

template <size_t R, size_t C> void shape(std::vector<T> alpha, std::vector<std::vector<T>> bases, double full, double dev2, bool devs = true)
{
  for (int form = 0; form < (kInt ? 1 : 3); ++form)
  {
    if (!mine()) continue;
    Unit u(form == 0 ? "mlib::mean(A)" : form == 1 ? "mlib::var(A)" : "mlib::stddev(A)"); u.in("A", Shape<R, C>::A);
    Cells<T> c; c.add(Shape<R, C>::A);
    Space<T> sp; sp.alpha = alpha; sp.bases = bases; sp.fullLimit = full; sp.dev2Limit = dev2; sp.dev1Limit = devs ? 1e18 : 0;
    enumerate<T>(u, c, sp, [&] { if (kInt) Shape<R, C>::judgeInt(); else Shape<R, C>::judge(form); });
  }
}
std::vector<std::vector<T>> bases()
{
  std::vector<std::vector<T>> b = distinctBases<T>();
  b.push_back({T(1), T(-1)}); b.push_back({T(3), T(-1), T(-2)}); b.push_back({T(-7)}); b.push_back({T(-1), T(-2), T(-3), T(-5)});
  if (kInt) { typedef std::numeric_limits<T> L; b.push_back({L::max()}); b.push_back({L::min()}); b.push_back({L::max(), L::min()}); b.push_back({L::max(), T(L::max() - 1), T(L::max() - 3)}); }
  if (!kInt)
  {
    // a large common offset, exactly representable
    const T off = std::is_same<T, float>::value ? T(8192) : T(1 << 30);
    b.push_back({off}); b.push_back({off, off + 1, off + 2}); b.push_back({-off - 1, -off + 1}); b.push_back({off + T(0.25), off, off - T(0.25), off + T(0.5)});
    b.push_back({T(0.1), T(0.2), T(-0.3), T(0.7)}); b.push_back({T(1e-10), T(-3e-10), T(2e-10)}); b.push_back({T(1e10), T(3e10), T(-2e10)});
  }
  return b;
}
std::vector<T> alphabet()
{
  std::vector<T> v = {T(0), T(1), T(-1), T(2), T(-3), T(7), T(100), T(-1000)};
  if (kInt) for (long long x : {50LL, -50LL, 127LL, -128LL}) v.push_back((T)x);
  if (kInt) { for (long long x : {32767LL, 65536LL, 16777217LL, 1000000007LL, 4294967297LL, 9007199254740993LL}) if (x < (long long)std::numeric_limits<T>::max()) { v.push_back((T)x); v.push_back((T)-x); } v.push_back(std::numeric_limits<T>::max()); v.push_back(std::numeric_limits<T>::min() + 1); v.push_back(std::numeric_limits<T>::min()); v.push_back(std::numeric_limits<T>::max() - 1); }
  else for (long double x : {0.5L, 0.1L, -0.3L, 1e-5L, 1e5L, -1e7L, 1e10L, 1e-10L, 1e-25L, 1e15L}) v.push_back((T)x);
  return v;
}
template <size_t R, size_t C> void offsets()   // alphabets around every offset: deviations of 0..2 at 2^k
{
  if (kInt) return;
  for (int k = 0; k <= (std::is_same<T, float>::value ? 20 : 48); k += 4)
  {
    const T o = (T)std::ldexp(1.0L, k);
    shape<R, C>({o, o + 1, o + 2}, {{o}, {o, o + 1}, {o + 2, o, o + 1}}, 20000, 1e4);
    shape<R, C>({-o, -o - 1, -o + 2}, {{-o}, {-o, -o + 1}, {-o - 2, -o, -o - 1}}, 20000, 1e4);
  }
}
int main(int argc, char** argv)
{
  init("C13", argc, argv);
#if VMC_PART == 9
  forNs(range<1, 80>(), [](auto n) { constexpr size_t N = decltype(n)::value; if constexpr (inSlice(N)) { shape<1, N>({T(9)}, bases(), 1, 0); shape<N, 1>({T(9)}, bases(), 1, 0); shape<2, N>({T(9)}, bases(), 1, 0); shape<N, 3>({T(9)}, bases(), 1, 0); if constexpr (N <= 40) { shape<N, N>({T(9)}, bases(), 1, 0, N <= 20); shape<N, N + 1>({T(9)}, bases(), 1, 0, N <= 20); } } });
  forNs(range<81, 260>(), [](auto n) { constexpr size_t N = decltype(n)::value; if constexpr (inSlice(N)) { shape<1, N>({T(9)}, bases(), 1, 0, false); shape<N, 1>({T(9)}, bases(), 1, 0, false); } });
#else
  const double d2 = g().thorough ? 1e6 : 2e4;
  forNs(Ns<1, 2, 3, 4, 5, 6>(), [&](auto r) { forNs(Ns<1, 2, 3, 4, 5, 6>(), [&](auto c) { shape<decltype(r)::value, decltype(c)::value>(alphabet(), bases(), 2000, d2); }); });
  shape<2, 2>(ints<T>(-7, 7), {}, 1e6, 0); shape<1, 3>(ints<T>(-12, 12), {}, 1e6, 0); shape<3, 1>(ints<T>(-12, 12), {}, 1e6, 0); shape<2, 3>(ints<T>(-3, 3), {}, 1e6, 0); shape<3, 2>(ints<T>(-3, 3), {}, 1e6, 0); shape<1, 5>(ints<T>(-4, 4), {}, 1e6, 0);
  shape<3, 3>(ints<T>(-1, 1), {}, 1e6, 0);
  offsets<2, 2>(); offsets<1, 3>(); offsets<3, 1>(); offsets<3, 3>(); offsets<4, 5>(); offsets<10, 10>();
  forNs(Ns<7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 20>(), [](auto n) { constexpr size_t N = decltype(n)::value; shape<N, N>(alphabet(), bases(), 1, 0, N <= 12 || g().thorough); shape<1, N>(alphabet(), bases(), 1, 0); shape<N, 1>(alphabet(), bases(), 1, 0); shape<N, 2>(alphabet(), bases(), 1, 0); });
  forNs(Ns<31, 32, 33, 64, 65, 100, 128, 256, 300>(), [](auto n) { constexpr size_t N = decltype(n)::value; shape<N, N>(alphabet(), bases(), 1, 0, false); shape<1, N>(alphabet(), bases(), 1, 0, false); shape<N, 1>(alphabet(), bases(), 1, 0, false); shape<N, 3>(alphabet(), bases(), 1, 0, false); });
  if (kInt) { forNs(Ns<120, 127, 129, 255, 257>(), [](auto n) { constexpr size_t N = decltype(n)::value; shape<1, N>(alphabet(), bases(), 1, 0); shape<N, 1>(alphabet(), bases(), 1, 0); }); shape<1, 128>(alphabet(), bases(), 1, 0); shape<1, 256>(alphabet(), bases(), 1, 0); shape<32, 8>(alphabet(), bases(), 1, 0); shape<1, 32768>(alphabet(), bases(), 1, 0, false); shape<1, 65536>(alphabet(), bases(), 1, 0, false); }
  shape<1, 70000>(alphabet(), bases(), 1, 0, false); shape<70000, 1>(alphabet(), bases(), 1, 0, false);
#endif
  return finish();
}
