// Element alphabets: one value per kind of behaviour that scalar code can have.
#ifndef ALPHABET_HPP_
#define ALPHABET_HPP_
#include "vmc.hpp"
namespace vmc {

template <class T> typename std::enable_if<std::is_integral<T>::value, std::vector<T>>::type wideAlphabet()
{
  typedef std::numeric_limits<T> L;
  std::vector<T> v = {T(0), T(1), T(2), T(3), T(5), T(7), T(10), T(100)};
  if (L::is_signed) for (int x : {-1, -2, -3, -5, -10, -100}) v.push_back(T(x));
  for (long long x : {127LL, 128LL, 255LL, 256LL, 1000LL, 32767LL, 32768LL, 46341LL, 65535LL, 65536LL, 16777216LL, 16777217LL, 1073741825LL, 2147483647LL, 2147483648LL, 4294967295LL, 4294967297LL, 9007199254740993LL, 4611686018427387905LL})
    if (x <= (long long)L::max() || (sizeof(T) == 8)) { v.push_back((T)x); if (L::is_signed) v.push_back((T)-x); }
  v.push_back(L::max()); v.push_back(L::min()); v.push_back((T)(L::max() - 1));
  return v;
}
template <class T> typename std::enable_if<std::is_floating_point<T>::value, std::vector<T>>::type wideAlphabet()
{
  typedef std::numeric_limits<T> L;
  std::vector<T> v;
  for (T x : {T(0), T(1), T(2), T(3), T(5), T(0.5), T(0.1), T(1) / T(3), T(7.25), T(100), T(1e-3), T(1e-7), T(1e-20), T(16777216), T(16777217), T(2147483648.0), T(1e10), T(1e30),
              L::min(), L::denorm_min(), L::max(), L::epsilon(), T(1) + L::epsilon(), L::infinity()}) { v.push_back(x); v.push_back(-x); }
  if (sizeof(T) > 4) { v.push_back(T(9007199254740993.0)); v.push_back(T(1e200)); v.push_back(T(1e-200)); }
  v.push_back(L::quiet_NaN());
  return v;
}
template <class T> struct IsComplex : std::false_type {};
template <class X> struct IsComplex<std::complex<X>> : std::true_type {};
template <class T> typename std::enable_if<IsComplex<T>::value, std::vector<T>>::type wideAlphabet()
{
  std::vector<T> v;
  for (double a : {0.0, 1.0, -2.0, 0.5, 1e10, 3.0}) for (double b : {0.0, 1.0, -3.0, 0.25}) v.push_back(T((typename T::value_type)a, (typename T::value_type)b));
  return v;
}
template <class T> typename std::enable_if<!IsComplex<T>::value, Space<T>>::type wideSpace(size_t cells)
{
  Space<T> s; s.alpha = wideAlphabet<T>(); s.bases = distinctBases<T>();
  s.fullLimit = 20000; s.dev2Limit = g().thorough ? 3000000 : 40000;
  if (cells > 30) s.bases.erase(s.bases.begin() + 1, s.bases.begin() + 3);
  if (cells > 250) { s.bases.erase(s.bases.begin(), s.bases.end() - 2); s.alpha.resize(g().thorough ? s.alpha.size() : 8); }
  if (cells > 1000) s.alpha.resize(3);
  if (cells > 5000) s.dev1Limit = 0;
  return s;
}
template <class T> typename std::enable_if<IsComplex<T>::value, Space<T>>::type wideSpace(size_t)
{
  Space<T> s; s.alpha = wideAlphabet<T>(); s.bases = {{T(0)}, {T(1, 2)}, {}};
  for (int i = 0; i < 1009; ++i) s.bases[2].push_back(T((typename T::value_type)(i - 300), (typename T::value_type)(i * 7 % 1009)));
  s.dev2Limit = 20000;
  return s;
}
// small integers (exact in every type)
template <class T> std::vector<T> ints(int lo, int hi)
{ std::vector<T> v; v.push_back(T(0)); for (int k = 1; k <= std::max(-lo, hi); ++k) { if (k <= hi) v.push_back(T(k)); if (-k >= lo) v.push_back(T(-k)); } return v; }

}  // namespace vmc
#endif
