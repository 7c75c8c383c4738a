// C14: median. -DVMC_T=type -DVMC_PART=0
#include "ref.hpp"
using namespace vmc;
typedef VMC_T T;

template <class X, bool wideInt = std::is_integral<X>::value && std::is_signed<X>::value && (sizeof(X) >= 4)> struct Half { static bool of(X a, X b, X& h) { h = (X)((a + b) / 2); return h == h && std::isfinite((long double)(a + b)); } };
template <class X> struct Half<X, true> { static bool of(X a, X b, X& h) { X s; if (__builtin_add_overflow(a, b, &s)) return false; h = s / 2; return true; } };

template <size_t R, size_t C> struct Shape
{
  static Mat<T, R, C> A;
  static void judge()
  {
    static std::vector<T> v; v.clear();
    for (auto& r : A) for (auto& x : r) v.push_back(x);
    // selection sort / counting would do: any sort, written without the library
    std::stable_sort(v.begin(), v.end());
    const size_t n = v.size(); T want;
    if (n % 2) want = v[n / 2];
    else if (!Half<T>::of(v[n / 2], v[n / 2 - 1], want)) { ++g().undefinedSkipped; return; }
    call();
    const Mat<T, R, C> keep = A;
    T got = mlib::median(A);
    if (!(got == want)) fail(got, want);
    if (!same(A, keep)) fail(A, keep, "the argument was changed");
    agreed(got);
  }
};
template <size_t R, size_t C> Mat<T, R, C> Shape<R, C>::A;

template <size_t R, size_t C> void shape(std::vector<T> alpha, double full, double dev2, bool devs = true, bool shard = false)
{
  if (!shard && !mine()) return;
  Unit u("mlib::median(A)"); u.in("A", Shape<R, C>::A);
  Cells<T> c; c.add(Shape<R, C>::A);
  Space<T> sp; sp.alpha.clear(); for (auto& x : alpha) if (x == x) sp.alpha.push_back(x);
  sp.bases = distinctBases<T>(); sp.bases.push_back({T(1), T(9)}); sp.bases.push_back({T(9), T(1), T(1)});
  { std::vector<T> down; for (int i = 0; i < 120; ++i) down.push_back(T(120 - i)); sp.bases.push_back(down); }
  sp.fullLimit = full; sp.dev2Limit = dev2; sp.dev1Limit = devs ? 1e18 : 0; sp.shard = shard;
  enumerate<T>(u, c, sp, [&] { Shape<R, C>::judge(); });
}
// every share of one value from a list, the values apart or mixed
template <size_t R, size_t C> void shares()
{
  if (!mine()) return;
  Unit u("mlib::median(A)"); u.in("A", Shape<R, C>::A);
  const size_t n = R * C;
  for (size_t k : {size_t(0), size_t(1), n / 4, n / 2 - 1, n / 2, n / 2 + 1, n - n / 4, n - 1, n, size_t(255), size_t(256), size_t(257), size_t(65535), size_t(65536), size_t(65537)}) for (int mode = 0; mode < 3; ++mode) for (int swap = 0; swap < 2; ++swap)
  {
    if (k > n) continue;
    const T a = T(swap ? 9 : 1), b = T(swap ? 1 : 9);
    for (size_t p = 0; p < n; ++p)
    {
      const bool first = mode == 0 ? p < k : mode == 1 ? (p + n / 2) % n < k : (p * 7919) % n < k;
      Shape<R, C>::A[p / C][p % C] = first ? a : b;
    }
    ++u.cases; ++g().states; Shape<R, C>::judge();
  }
  g().modes["shares of two values"] += u.cases;
}
template <size_t R, size_t C> void perms()
{
  if (!mine()) return;
  Unit u("mlib::median(A)"); u.in("A", Shape<R, C>::A);
  permutations(R * C, [&](const std::vector<size_t>& p, int) {
    for (size_t k = 0; k < R * C; ++k) Shape<R, C>::A[k / C][k % C] = T((int)(p[k] * p[k]) + (int)p[k] * 3 - (std::is_signed<T>::value || std::is_floating_point<T>::value ? 9 : 0));
    ++u.cases; ++g().states;
    Shape<R, C>::judge();
  });
  g().modes["all permutations of distinct elements"] += u.cases;
}
int main(int argc, char** argv)
{
  init("C14", argc, argv);
#if VMC_PART == 9
  const std::vector<T> few = {T(0), T(60), T(-60)};
  forNs(range<1, 80>(), [&](auto n) { constexpr size_t N = decltype(n)::value; if constexpr (inSlice(N)) { shape<1, N>(few, 1, 0); shape<N, 1>(few, 1, 0); shape<2, N>(few, 1, 0); shape<N, 3>(few, 1, 0); if constexpr (N <= 40) { shape<N, N>(few, 1, 0, N <= 17 || g().thorough); shape<N, N + 1>(few, 1, 0, N <= 17 || g().thorough); } } });
  forNs(range<81, 260>(), [&](auto n) { constexpr size_t N = decltype(n)::value; if constexpr (inSlice(N)) { shape<1, N>(few, 1, 0, false); shape<N, 1>(few, 1, 0, false); } });
#else
  const bool th = g().thorough;
  forNs(Ns<1, 2, 3, 4, 5, 6>(), [&](auto r) { forNs(Ns<1, 2, 3, 4, 5, 6>(), [&](auto c) { shape<decltype(r)::value, decltype(c)::value>(wideAlphabet<T>(), 3000, th ? 1e6 : 1e4); }); });
  shape<1, 2>(wideAlphabet<T>(), 1e6, 0); shape<2, 1>(wideAlphabet<T>(), 1e6, 0); shape<1, 3>(wideAlphabet<T>(), 1e6, 0); shape<2, 2>(ints<T>(-9, 9), 1e6, 0);
  shape<2, 3>(ints<T>(-3, 3), 1e6, 0); shape<3, 2>(ints<T>(-3, 3), 1e6, 0); shape<1, 5>(ints<T>(-4, 4), 1e6, 0); shape<5, 1>(ints<T>(-4, 4), 1e6, 0); shape<7, 1>(ints<T>(-2, 2), 1e6, 0); shape<2, 4>(ints<T>(-2, 2), 1e6, 0); shape<4, 2>(ints<T>(-2, 2), 1e6, 0);
  shape<3, 3>(ints<T>(-2, 2), 1e7, 0, true, true);
  shape<2, 5>({T(0), T(1), T(2)}, 1e6, 0); shape<3, 4>({T(0), T(1), T(2)}, 1e6, 0); shape<4, 4>({T(0), T(1)}, 1e6, 0); shape<1, 17>({T(0), T(1)}, 1e6, 0); shape<3, 6>({T(0), T(1)}, 1e6, 0); shape<17, 1>({T(0), T(1)}, 1e6, 0);
  if (th) { shape<4, 5>({T(0), T(1)}, 1e7, 0); shape<3, 7>({T(0), T(1)}, 1e7, 0); shape<3, 4>({T(0), T(1), T(2), T(3)}, 1e8, 0, true, true); shape<2, 11>({T(0), T(1)}, 1e7, 0); }
  perms<1, 4>(); perms<5, 1>(); perms<2, 3>(); perms<1, 7>(); perms<2, 4>(); perms<8, 1>(); perms<3, 3>();
  if (th) perms<2, 5>();
  const std::vector<T> few = {T(0), T(1), T(2), T(50), T(100), T(-1), T(-100)};
  forNs(Ns<7, 8, 9, 10, 11, 12, 13, 15, 16, 17, 20, 31, 32, 33>(), [&](auto n) { constexpr size_t N = decltype(n)::value; shape<N, N>(few, 1, 0, N <= 17 || g().thorough); shape<1, N>(few, 1, 0); shape<N, 1>(few, 1, 0); shape<N, 2>(few, 1, 0); shape<3, N>(few, 1, 0); });
  forNs(Ns<64, 65, 100, 128, 129, 256, 257, 300>(), [&](auto n) { constexpr size_t N = decltype(n)::value; shape<N, N>(few, 1, 0, false); shape<1, N>(few, 1, 0, false); shape<N, 1>(few, 1, 0, false); });
  shares<3, 5>(); shares<16, 16>(); shares<17, 31>(); shares<257, 257>(); shares<300, 300>(); shares<1, 70000>(); shares<70001, 1>(); shares<256, 256>();
  shape<1, 70000>(few, 1, 0, false); shape<70001, 1>(few, 1, 0, false);
#endif
  return finish();
}
