// Every operation of the library as an entry of one table, for the checks that are
// about all of them: histories, schedules, allocation, memory.
// v(name, f): f(in, sink) makes one call and hands the result to the sink.
#ifndef OPTABLE_HPP_
#define OPTABLE_HPP_
#include "matrix.hpp"
#include <cstdint>
#include <cstring>
#include <stdexcept>
#include <type_traits>

namespace tab {
using std::size_t;
template <class T, size_t R, size_t C> using Mat = mlib::Matrix<T, R, C>;

template <class T, size_t R, size_t C> struct In
{
  Mat<T, R, C> A, B;
  Mat<T, C, R> D;
  Mat<T, 3, 3> K;
  Mat<T, R, C + 1> H;
  Mat<T, R + 1, C> V;
  T s;
  size_t i, j, k, l;   // i,k rows, j,l columns
  int p;
  float eps;
};

namespace ops {
using mlib::operator+; using mlib::operator-; using mlib::operator*; using mlib::operator/;
using mlib::operator++; using mlib::operator--;
template <class M, class N> auto add(M& A, N& B) -> decltype(A + B) { return A + B; }
template <class M, class N> auto sub(M& A, N& B) -> decltype(A - B) { return A - B; }
template <class M, class N> auto mul(M& A, N& B) -> decltype(A * B) { return A * B; }
template <class M, class S> auto quo(M& A, S& s) -> decltype(A / s) { return A / s; }
template <class M> auto inc(M& A) -> decltype(A++) { return A++; }
template <class M> auto dec(M& A) -> decltype(A--) { return A--; }
}

// ---- hashing results without touching the heap
inline uint64_t mix(uint64_t h, uint64_t x) { h ^= x + 0x9e3779b97f4a7c15ull + (h << 6) + (h >> 2); h *= 0xff51afd7ed558ccdull; return h ^ (h >> 32); }
template <class X> inline typename std::enable_if<std::is_integral<X>::value, uint64_t>::type hv(const X& x) { return (uint64_t)x; }
template <class X> inline typename std::enable_if<std::is_floating_point<X>::value, uint64_t>::type hv(const X& x)
{ if (x != x) return 0x7ff8; double d = (double)x; uint64_t u = 0; std::memcpy(&u, &d, 8); return u; }
template <class T, size_t C, size_t R> inline uint64_t hv(const std::array<std::array<T, C>, R>& A)
{ uint64_t h = R * 64 + C; for (size_t i = 0; i < R; ++i) for (size_t j = 0; j < C; ++j) h = mix(h, hv(A[i][j])); return h; }
template <class K> inline uint64_t hv(const std::map<K, std::size_t>& m) { uint64_t h = 77; for (auto& p : m) h = mix(mix(h, hv(p.first)), p.second); return h; }
template <class A, class B> inline uint64_t hv(const std::pair<A, B>& p) { return mix(hv(p.first), hv(p.second)); }

struct HashSink { uint64_t h = 1; template <class X> void operator()(const X& x) { h = mix(h, hv(x)); } };

template <bool Big> struct Valid { template <class V, class T, size_t R, size_t C> static void add(V& v, In<T, R, C>*) { v("conv2_valid(A, K)", [](In<T, R, C>& x, auto& out) { out(mlib::conv2_valid(x.A, x.K)); }); } };
template <> struct Valid<false> { template <class V, class T, size_t R, size_t C> static void add(V&, In<T, R, C>*) {} };

// ---- operations on matrices of any shape
template <class T, size_t R, size_t C, class V> void shapeOps(V& v)
{
  typedef In<T, R, C> I;
  v("A + B", [](I& x, auto& out) { out(ops::add(x.A, x.B)); });
  v("A + A", [](I& x, auto& out) { out(ops::add(x.A, x.A)); });
  v("A = A + B", [](I& x, auto& out) { Mat<T, R, C> M = x.A; M = ops::add(M, x.B); out(M); });
  v("sum(A, B)", [](I& x, auto& out) { out(mlib::sum(x.A, x.B)); });
  v("A + s", [](I& x, auto& out) { out(ops::add(x.A, x.s)); });
  v("s + A", [](I& x, auto& out) { out(ops::add(x.s, x.A)); });
  v("sum(A, s)", [](I& x, auto& out) { out(mlib::sum(x.A, x.s)); });
  v("A++", [](I& x, auto& out) { out(ops::inc(x.A)); });
  v("A - B", [](I& x, auto& out) { out(ops::sub(x.A, x.B)); });
  v("A - A", [](I& x, auto& out) { out(ops::sub(x.A, x.A)); });
  v("A = B - A", [](I& x, auto& out) { Mat<T, R, C> M = x.A; M = ops::sub(x.B, M); out(M); });
  v("sub(A, B)", [](I& x, auto& out) { out(mlib::sub(x.A, x.B)); });
  v("A - s", [](I& x, auto& out) { out(ops::sub(x.A, x.s)); });
  v("sub(A, s)", [](I& x, auto& out) { out(mlib::sub(x.A, x.s)); });
  v("A--", [](I& x, auto& out) { out(ops::dec(x.A)); });
  v("A * D", [](I& x, auto& out) { out(ops::mul(x.A, x.D)); });
  v("mult(D, A)", [](I& x, auto& out) { out(mlib::mult(x.D, x.A)); });
  v("A * s", [](I& x, auto& out) { out(ops::mul(x.A, x.s)); });
  v("s * A", [](I& x, auto& out) { out(ops::mul(x.s, x.A)); });
  v("mult(A, s)", [](I& x, auto& out) { out(mlib::mult(x.A, x.s)); });
  v("A / s", [](I& x, auto& out) { out(ops::quo(x.A, x.s)); });
  v("div(A, s)", [](I& x, auto& out) { out(mlib::div(x.A, x.s)); });
  v("abs(A)", [](I& x, auto& out) { out(mlib::abs(x.A)); });
  v("trans(A)", [](I& x, auto& out) { out(mlib::trans(x.A)); });
  v("swap_rows(A, i, k)", [](I& x, auto& out) { Mat<T, R, C> M = x.A; mlib::swap_rows(M, x.i, x.k); out(M); });
  v("swap_cols(A, j, l)", [](I& x, auto& out) { Mat<T, R, C> M = x.A; mlib::swap_cols(M, x.j, x.l); out(M); });
  v("concatenate(A, H)", [](I& x, auto& out) { out(mlib::concatenate(x.A, x.H)); });
  v("concatenate(V, A)", [](I& x, auto& out) { out(mlib::concatenate(x.V, x.A)); });
  v("conv2(A, K)", [](I& x, auto& out) { out(mlib::conv2(x.A, x.K)); });
  v("conv2_full(A, K)", [](I& x, auto& out) { out(mlib::conv2_full(x.A, x.K)); });
  Valid<(R > 2 && C > 2)>::add(v, (I*)nullptr);
  v("histogram(A)", [](I& x, auto& out) { out(mlib::histogram(x.A)); });
  v("cumulative_histogram(A)", [](I& x, auto& out) { out(mlib::cumulative_histogram(x.A)); });
  v("mean(A)", [](I& x, auto& out) { out(mlib::mean(x.A)); });
  v("var(A)", [](I& x, auto& out) { out(mlib::var(x.A)); });
  v("stddev(A)", [](I& x, auto& out) { out(mlib::stddev(x.A)); });
  v("median(A)", [](I& x, auto& out) { out(mlib::median(x.A)); });
  v("compare(A, B, eps)", [](I& x, auto& out) { out(mlib::compare(x.A, x.B, x.eps)); });
  v("compare(A, A, eps)", [](I& x, auto& out) { out(mlib::compare(x.A, x.A, x.eps)); });
  v("fill(s)", [](I& x, auto& out) { out(mlib::fill<T, R, C>(x.s)); });
  v("zeros()", [](I&, auto& out) { out(mlib::zeros<T, R, C>()); });
  v("ones()", [](I&, auto& out) { out(mlib::ones<T, R, C>()); });
}
template <size_t N> struct TwoOnly { template <class T, class V> static void add(V&) {} };
template <> struct TwoOnly<2>
{
  template <class T, class V> static void add(V& v)
  {
    typedef In<T, 2, 2> I;
    v("strassen(A, B)", [](I& x, auto& out) { out(mlib::strassen(x.A, x.B)); });
    v("strassen(A, A)", [](I& x, auto& out) { out(mlib::strassen(x.A, x.A)); });
    v("A = strassen(B, A)", [](I& x, auto& out) { Mat<T, 2, 2> M = x.A; M = mlib::strassen(x.B, M); out(M); });
  }
};
template <bool B> struct Minor { template <class T, size_t N, class V> static void add(V& v) { typedef In<T, N, N> I; v("getminor(A, i, j)", [](I& x, auto& out) { out(mlib::getminor(x.A, x.i, x.j)); }); } };
template <> struct Minor<false> { template <class T, size_t N, class V> static void add(V&) {} };
// ---- operations on square matrices
template <class T, size_t N, class V> void squareOps(V& v)
{
  typedef In<T, N, N> I;
  v("A * B", [](I& x, auto& out) { out(ops::mul(x.A, x.B)); });
  v("A * A", [](I& x, auto& out) { out(ops::mul(x.A, x.A)); });
  v("A = A * B", [](I& x, auto& out) { Mat<T, N, N> M = x.A; M = ops::mul(M, x.B); out(M); });
  v("A = trans(A)", [](I& x, auto& out) { Mat<T, N, N> M = x.A; M = mlib::trans(M); out(M); });
  v("det(A)", [](I& x, auto& out) { out(mlib::det(x.A)); });
  v("inv(A)", [](I& x, auto& out) { out(mlib::inv(x.A)); });
  v("A = inv(A)", [](I& x, auto& out) { Mat<T, N, N> M = x.A; M = mlib::inv(M); out(M); });
  v("pow(A, p)", [](I& x, auto& out) { out(mlib::pow(x.A, x.p)); });
  v("pow(A, -p)", [](I& x, auto& out) { out(mlib::pow(x.A, -x.p)); });
  v("isSymetric(A)", [](I& x, auto& out) { out(mlib::isSymetric(x.A)); });
  v("isIdentity(A)", [](I& x, auto& out) { out(mlib::isIdentity(x.A)); });
  v("concatenate(A, B)", [](I& x, auto& out) { out(mlib::concatenate(x.A, x.B)); });
  v("concatenateV(A, B)", [](I& x, auto& out) { out(mlib::concatenateV(x.A, x.B)); });
  v("concatenateH(A, B)", [](I& x, auto& out) { out(mlib::concatenateH(x.A, x.B)); });
  v("eye(s)", [](I& x, auto& out) { out(mlib::eye<T, N>(x.s)); });
  v("eye()", [](I&, auto& out) { out(mlib::eye<T, N>()); });
  Minor<(N > 1)>::template add<T, N>(v);
  TwoOnly<N>::template add<T>(v);
}
// LU and Cholesky, which divide: elements of a floating type
template <class T, size_t N, class V> typename std::enable_if<std::is_floating_point<T>::value>::type floatOps(V& v)
{
  typedef In<T, N, N> I;
  v("lu(A)", [](I& x, auto& out) { out(mlib::lu(x.A)); });
  v("chol(A*trans(A)+1)", [](I& x, auto& out) {
    Mat<T, N, N> S;   // positive definite by construction
    for (size_t a = 0; a < N; ++a) for (size_t b = 0; b < N; ++b) { T t = a == b ? T(1) : T(0); for (size_t c = 0; c < N; ++c) t += x.A[a][c] * x.A[b][c]; S[a][b] = t; }
    out(mlib::chol(S)); out(S); });
}
template <class T, size_t N, class V> typename std::enable_if<!std::is_floating_point<T>::value>::type floatOps(V&) {}

template <class T, size_t R, size_t C, class V> typename std::enable_if<R == C>::type allOps(V& v) { shapeOps<T, R, C>(v); squareOps<T, R>(v); floatOps<T, R>(v); }
template <class T, size_t R, size_t C, class V> typename std::enable_if<R != C>::type allOps(V& v) { shapeOps<T, R, C>(v); }

// all other operands as functions of a few numbers; A is left alone
template <class T, size_t R, size_t C> void others(In<T, R, C>& x, int seed)
{
  int q = seed;
  auto next = [&q] { q = (q * 5 + 3) % 64; return (T)(q % 5 - (std::is_unsigned<T>::value ? 0 : 2)); };
  for (auto& r : x.B) for (auto& e : r) e = next();
  for (auto& r : x.D) for (auto& e : r) e = next();
  for (auto& r : x.K) for (auto& e : r) e = next();
  for (auto& r : x.H) for (auto& e : r) e = next();
  for (auto& r : x.V) for (auto& e : r) e = next();
  x.s = (T)2; x.i = 0; x.j = 0; x.k = R - 1; x.l = C - 1; x.p = 3; x.eps = 0.5f;
}
}  // namespace tab
#endif
