// All operations in use, in plain C++11, with nothing included but matrix.hpp. C23_TU names the source file.
#include "matrix.hpp"
#include "matrix.hpp"

extern "C" int printf(const char*, ...);
namespace {
typedef unsigned long long u64;
struct H
{
  u64 h;
  H() : h(1) {}
  void bytes(const void* p, unsigned n) { const unsigned char* c = (const unsigned char*)p; for (unsigned i = 0; i < n; ++i) { h ^= c[i] + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; h ^= h >> 32; } }
  template <class T> void add(const T& x) { T y = x; if (y != y) { bytes("nan", 3); return; } y = y + T(0); bytes(&y, sizeof y); }
  void add(const bool& x) { unsigned char y = x; bytes(&y, 1); }
  template <class T, std::size_t j, std::size_t i> void add(const std::array<std::array<T, j>, i>& A) { for (std::size_t a = 0; a < i; ++a) for (std::size_t b = 0; b < j; ++b) add(A[a][b]); }
  template <class A, class B> void add(const std::pair<A, B>& p) { add(p.first); add(p.second); }
  template <class K> void add(const std::map<K, std::size_t>& m) { for (typename std::map<K, std::size_t>::const_iterator i = m.begin(); i != m.end(); ++i) { add(i->first); add(i->second); } }
};
template <class X> void show(const char* op, const char* t, int r, int c, const X& x) { H h; h.add(x); printf("%s %s %dx%d %016llx\n", op, t, r, c, h.h); }
#define SHOW(e) do { try { show(#e, t, (int)R, (int)C, e); } catch (const std::overflow_error&) { printf("%s %s %dx%d overflow_error\n", #e, t, (int)R, (int)C); } } while (0)

namespace use {
using mlib::operator+; using mlib::operator-; using mlib::operator*; using mlib::operator/; using mlib::operator++; using mlib::operator--;
template <class T, std::size_t R, std::size_t C> void make(mlib::Matrix<T, R, C>& A, int seed)
{ int q = seed; for (std::size_t i = 0; i < R; ++i) for (std::size_t j = 0; j < C; ++j) { q = (q * 5 + 3) % 64; A[i][j] = (T)(q % 7 - 3) + (T)(i == j ? 5 : 0); } }

template <class T, std::size_t R, std::size_t C> void shapes(const char* t, int seed)
{
  mlib::Matrix<T, R, C> A, B; mlib::Matrix<T, C, R> D; mlib::Matrix<T, 3, 3> K; mlib::Matrix<T, R, C + 1> N; mlib::Matrix<T, R + 1, C> V;
  make(A, seed); make(B, seed + 9); make(D, seed + 17); make(K, seed + 21); make(N, seed + 25); make(V, seed + 30);
  T s = 3;
  SHOW(A + B); SHOW(A + s); SHOW(s + A); SHOW(A++); SHOW(mlib::sum(A, B)); SHOW(mlib::sum(A, s));
  SHOW(A - B); SHOW(A - s); SHOW(A--); SHOW(mlib::sub(A, B)); SHOW(mlib::sub(A, s));
  SHOW(A * D); SHOW(A * s); SHOW(s * A); SHOW(mlib::mult(A, D)); SHOW(mlib::mult(A, s));
  SHOW(A / s); SHOW(mlib::div(A, s)); SHOW(A / T(0)); SHOW(mlib::abs(A)); SHOW(mlib::trans(A));
  mlib::Matrix<T, R, C> M = A; mlib::swap_rows(M, 0, R - 1); SHOW(M); mlib::swap_cols(M, C - 1, 0); SHOW(M);
  SHOW(mlib::concatenate(A, N)); SHOW(mlib::concatenate(A, V));
  SHOW(mlib::conv2(A, K)); SHOW(mlib::conv2_full(A, K));
  SHOW(mlib::histogram(A)); SHOW(mlib::cumulative_histogram(A));
  SHOW(mlib::mean(A)); SHOW(mlib::var(A)); SHOW(mlib::stddev(A)); SHOW(mlib::median(A));
  SHOW(mlib::compare(A, B, 1.5f)); SHOW(mlib::compare(A, A, 0.0f));
  SHOW((mlib::fill<T, R, C>(s))); SHOW((mlib::zeros<T, R, C>())); SHOW((mlib::ones<T, R, C>())); SHOW((mlib::ones<R, C>()));
  mlib::print(A);
}
template <class T, std::size_t R> void squares(const char* t, int seed)
{
  enum { C = R };
  mlib::Matrix<T, R, R> A, B; make(A, seed); make(B, seed + 9);
  SHOW(A * B); SHOW(mlib::det(A)); SHOW(mlib::pow(A, 3)); SHOW(mlib::pow(A, 0)); SHOW(mlib::pow(A, 2u));
  SHOW(mlib::isSymetric(A)); SHOW(mlib::isIdentity(A)); SHOW((mlib::eye<T, R>())); SHOW((mlib::eye<T, R>(T(4)))); SHOW((mlib::isIdentity(mlib::eye<T, R>())));
  SHOW(mlib::concatenate(A, B)); SHOW(mlib::concatenateV(A, B)); SHOW(mlib::concatenateH(A, B));
  SHOW((mlib::ones<T, R>())); SHOW((mlib::ones<R>()));
}
template <class T, std::size_t R> void minors(const char* t, int seed)
{
  enum { C = R };
  mlib::Matrix<T, R, R> A; make(A, seed);
  for (std::size_t i = 0; i < R; ++i) for (std::size_t j = 0; j < R; ++j) SHOW(mlib::getminor(A, i, j));
}
template <class T, std::size_t R> void floats(const char* t, int seed)
{
  enum { C = R };
  mlib::Matrix<T, R, R> A, Z; make(A, seed); Z = mlib::zeros<T, R, R>();
  mlib::Matrix<T, R, R> P = A * mlib::trans(A) + mlib::eye<T, R>();
  SHOW(mlib::inv(A)); SHOW(mlib::inv(Z)); SHOW(mlib::pow(A, -2)); SHOW(mlib::lu(P)); SHOW(mlib::chol(P)); SHOW(mlib::inv(P));
}
template <class T> void type(const char* t)
{
  for (int seed = 1; seed < 60; seed += 13)
  {
    shapes<T, 1, 1>(t, seed); shapes<T, 2, 2>(t, seed); shapes<T, 3, 3>(t, seed); shapes<T, 2, 3>(t, seed); shapes<T, 3, 2>(t, seed); shapes<T, 1, 4>(t, seed); shapes<T, 5, 4>(t, seed); shapes<T, 9, 7>(t, seed);
    squares<T, 1>(t, seed); squares<T, 2>(t, seed); squares<T, 3>(t, seed); squares<T, 4>(t, seed); squares<T, 5>(t, seed);
    minors<T, 2>(t, seed); minors<T, 3>(t, seed); minors<T, 4>(t, seed);
    { enum { R = 3, C = 4 }; mlib::Matrix<T, 3, 4> A; mlib::Matrix<T, 3, 3> K; make(A, seed); make(K, seed + 3); SHOW(mlib::conv2_valid(A, K)); }
    { enum { R = 6, C = 5 }; mlib::Matrix<T, 6, 5> A; mlib::Matrix<T, 3, 3> K; make(A, seed); make(K, seed + 3); SHOW(mlib::conv2_valid(A, K)); }
    { enum { R = 2, C = 2 }; mlib::Matrix<T, 2, 2> A, B; make(A, seed); make(B, seed + 3); SHOW(mlib::strassen(A, B)); }
  }
}
template <class T> void floatType(const char* t)
{ for (int seed = 1; seed < 60; seed += 13) { floats<T, 1>(t, seed); floats<T, 2>(t, seed); floats<T, 3>(t, seed); floats<T, 4>(t, seed); floats<T, 6>(t, seed); } }
}
void everything()
{
  use::type<int>("int"); use::type<long long>("long_long"); use::type<float>("float"); use::type<double>("double");
  use::floatType<float>("float"); use::floatType<double>("double");
}
}
