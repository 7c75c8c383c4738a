// C12: histograms. -DVMC_T=type -DVMC_PART=0
#include "alphabet.hpp"
using namespace vmc;
typedef VMC_T T;

template <size_t R, size_t C> struct Shape
{
  static Mat<T, R, C> A;
  static void judge(int form)
  {
    call();
    std::vector<T> v; for (auto& r : A) for (auto& x : r) v.push_back(x);
    std::sort(v.begin(), v.end());
    const std::map<T, size_t> h = form ? mlib::cumulative_histogram(A) : mlib::histogram(A);
    size_t i = 0; auto it = h.begin();
    while (i < v.size())
    {
      size_t k = i; while (k < v.size() && v[k] == v[i]) ++k;
      const size_t want = form ? k : k - i;
      if (it == h.end() || !(it->first == v[i]) || it->second != want) fail(it == h.end() ? std::string("no entry") : lit(it->first) + ":" + lit(it->second), lit(v[i]) + ":" + lit(want), "histogram entry");
      ++it; i = k;
    }
    if (it != h.end()) fail("extra key " + lit(it->first), "no such element");
    agreedQuiet();
    if (g().unit && (g().unit->cases & 31) == 3) { uint64_t x = 1; for (auto& p : h) x = mix(mix(x, hv(p.first)), p.second); outcome(x); }
  }
};
template <size_t R, size_t C> Mat<T, R, C> Shape<R, C>::A;

template <size_t R, size_t C> void shape(std::vector<T> alpha, double full, double dev2)
{
  for (int form = 0; form < 2; ++form)
  {
    if (!mine()) continue;
    Unit u(form ? "mlib::cumulative_histogram(A)" : "mlib::histogram(A)"); u.in("A", Shape<R, C>::A);
    Cells<T> c; c.add(Shape<R, C>::A);
    Space<T> sp = wideSpace<T>(R * C);
    std::vector<T> nonan; for (auto& x : alpha.empty() ? sp.alpha : alpha) if (x == x) nonan.push_back(x);
    sp.alpha = nonan; sp.fullLimit = full; sp.dev2Limit = dev2;
    if (R * C > 200) { sp.alpha.resize(2); sp.bases.push_back({T(3)}); sp.bases.push_back({T(3), T(1)}); if (R * C > 1200 && !g().thorough) sp.dev1Limit = 0; }
    enumerate<T>(u, c, sp, [&] { Shape<R, C>::judge(form); });
  }
}
// one value k times, for every k: all counts up to the number of elements
template <size_t R, size_t C> void counts(size_t step)
{
  for (int form = 0; form < 2; ++form)
  {
    if (!mine()) continue;
    Unit u(form ? "mlib::cumulative_histogram(A)" : "mlib::histogram(A)"); u.in("A", Shape<R, C>::A);
    for (size_t k = 0; k <= R * C; k += step)
    {
      for (size_t p = 0; p < R * C; ++p) Shape<R, C>::A[p / C][p % C] = p < k ? T(5) : T(1 + p % 3);
      ++u.cases; ++g().states; Shape<R, C>::judge(form);
    }
    g().modes["every count of one value"] += u.cases;
  }
}
// many distinct keys
template <size_t R, size_t C> void keys()
{
  for (int form = 0; form < 2; ++form)
  {
    if (!mine()) continue;
    Unit u(form ? "mlib::cumulative_histogram(A)" : "mlib::histogram(A)"); u.in("A", Shape<R, C>::A);
    for (size_t mod : {1, 2, 3, 7, 100, 127, 251, 1000, 1021, 4093, 65521}) for (size_t f : {1, 31, 7919})
    {
      if (sizeof(T) == 1 && mod > 120) continue;
      if (sizeof(T) == 2 && mod > 30000) continue;
      for (size_t p = 0; p < R * C; ++p) Shape<R, C>::A[p / C][p % C] = T((long long)((p * f) % mod) - (std::is_signed<T>::value || std::is_floating_point<T>::value ? (long long)mod / 2 : 0));
      ++u.cases; ++g().states; Shape<R, C>::judge(form);
    }
    g().modes["every number of keys from a list"] += u.cases;
  }
}
int main(int argc, char** argv)
{
  init("C12", argc, argv);
#if VMC_PART == 9
  forNs(range<1, 80>(), [](auto n) { constexpr size_t N = decltype(n)::value; if constexpr (inSlice(N)) { keys<1, N>(); keys<N, 1>(); keys<2, N>(); keys<N, 3>(); if constexpr (N <= 40) { keys<N, N>(); keys<N, N + 1>(); } } });
  forNs(range<81, 260>(), [](auto n) { constexpr size_t N = decltype(n)::value; if constexpr (inSlice(N)) { keys<1, N>(); keys<N, 1>(); } });
#else
  forNs(Ns<1, 2, 3, 4, 5, 6>(), [](auto r) { forNs(Ns<1, 2, 3, 4, 5, 6>(), [](auto c) { shape<decltype(r)::value, decltype(c)::value>({}, 3000, g().thorough ? 1e6 : 2e4); }); });
  shape<2, 2>(ints<T>(-4, 4), 1e5, 0); shape<2, 3>(ints<T>(-2, 2), 1e5, 0); shape<3, 3>(ints<T>(-1, 1), 1e5, 0); shape<1, 7>(ints<T>(-2, 2), 1e5, 0); shape<7, 1>(ints<T>(-2, 2), 1e5, 0);
  shape<7, 7>({}, 1, 0); shape<8, 8>({}, 1, 0); shape<9, 13>({}, 1, 0); shape<16, 16>({}, 1, 0); shape<17, 17>({}, 1, 0); shape<1, 64>({}, 1, 0); shape<64, 1>({}, 1, 0); shape<32, 32>({}, 1, 0); shape<33, 7>({}, 1, 0); shape<64, 64>({}, 1, 0); shape<300, 300>({}, 1, 0);
  counts<1, 1>(1); counts<2, 3>(1); counts<7, 7>(1); counts<16, 16>(1); counts<17, 16>(1); counts<20, 33>(1); counts<64, 64>(61); counts<256, 256>(8191); counts<257, 256>(16448); counts<300, 300>(30000);
  keys<16, 16>(); keys<40, 50>(); keys<64, 65>(); keys<257, 257>(); keys<1, 70000>(); keys<70000, 1>(); counts<1, 70000>(8191); counts<70000, 1>(8191);
#endif
  return finish();
}
